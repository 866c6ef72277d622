#include "check.h"
#include <math.h>
#include <algorithm>
namespace chk {
const Tol kRef = {3e-3, 1e-3}, kSame = {1e-5, 1e-5}, kExact = {1e-7, 1e-7};
bool runOk(const Scenario& s, Trace& t, Verdict& v) {
  t = run(s); v.mix(t); v.stat["publications"] += (double)t.recs.size();
  if (t.status == ST_OK) return true;
  static const char* nm[] = {"ok", "crash", "exception", "hang", "exit"};
  v.bad("crash", fmt("the node ended abnormally (%s: %s) during operation %d", nm[t.status], t.detail.c_str(), t.lastOp), t.lastOp);
  return false;
}
Scenario without(const Scenario& s, const Pred& drop) { Scenario r = s; r.ops.clear(); for (auto& o : s.ops) if (!drop(o)) r.ops.push_back(o); return r; }
int64_t delayOf(const Scenario& s, int kind) {
  world::World w; w.node = s.node; static const char* n[] = {"", "", "pose_delay", "position_delay", "", "angle_delay", "distance_delay"};
  if (kind < 2 || kind > 6 || !*n[kind]) return 0;
  auto it = s.params.find(w.cfgNs() + "/" + n[kind]); return it == s.params.end() ? 20000000 : sim::ns(strtod(it->second.c_str(), 0));
}
int64_t timeOf(const Scenario& s, const Op& o) { return isMeas(o) ? o.stamp - delayOf(s, kind(o)) : o.stamp; }
uint64_t pathHash(const Scenario& s) {
  uint64_t h = std::hash<std::string>()(s.node); int64_t newest = 0; int64_t dl[8]; for (int k = 0; k < 8; ++k) dl[k] = delayOf(s, k);
  for (auto& o : s.ops) {
    int k = kind(o), cls = 0; int64_t t = o.stamp - (k < 8 && isMeas(o) ? dl[k] : 0);
    if (k == world::T_IMU) { cls = t > newest ? 1 : 2; newest = std::max(newest, t); }
    else if (isMeas(o)) { int64_t d = newest - t; cls = d < 0 ? 1 : d < 20000000 ? 2 : d < 100000000 ? 3 : d < 1000000000 ? 4 : 5; }
    h = (h ^ (uint64_t)(k * 16 + cls + (o.tag & F_FAULT ? 8 : 0))) * 1099511628211ull;
  }
  return h;
}
RefRun refRun(const Scenario& s, bool quiet) {
  ref::Filter f(s); f.quiet = quiet; std::vector<ref::Expect> ex; RefRun r;
  for (size_t k = 0; k < s.ops.size(); ++k) { ex.clear(); f.step(s.ops[k], (int)k, ex); if (!f.doubts.empty()) break; }
  r.fate = f.fate; r.doubt = !f.doubts.empty(); if (r.doubt) r.why = f.doubts[0];
  r.nFuzzy = f.nFuzzy; r.nNeg = f.nNegScale; r.nHeld = f.nHeld; r.nLate = f.nLate; r.nApplied = f.nApplied; r.nGated = f.nGated; r.nRebase = f.nRebase; r.nStops = f.nStops; r.nSpike = f.nSpike; r.maxHeld = f.maxHeld; r.gateMargin = f.minGateMargin; r.running = f.running;
  return r;
}
// How much the reference's own publications change, in standard deviations, when every input is changed by about 1e-9 of its size.
double sensitivity(const Scenario& s, int upTo) {
  Scenario b = s; uint64_t h = 88172645463325252ull; double w = 0;
  for (auto& o : b.ops) if (o.kind == OP_MSG) for (auto& d : o.num) { h ^= h << 13; h ^= h >> 7; h ^= h << 17; if (std::isfinite(d) && d != std::floor(d)) d += 1e-9 * d * ((h >> 11) * 0x1p-52 - 1); }
  ref::Filter f(s), g(b); std::vector<ref::Expect> ex, ey;
  for (int k = 0; k < (int)s.ops.size() && (upTo < 0 || k <= upTo); ++k) { ex.clear(); ey.clear(); f.step(s.ops[k], k, ex); if (!f.doubts.empty()) break; g.step(b.ops[k], k, ey); if (!g.doubts.empty() || ex.size() != ey.size()) return 1e9; for (size_t i = 0; i < ex.size(); ++i) { w = std::max(w, oracle::stateErr(f.lay, ey[i].x, ex[i].x, ex[i].P)); w = std::max(w, oracle::covErr(ey[i].P, ex[i].P)); } }
  return w;
}
int refine(const Scenario& s, const Trace& t, bool strict, Verdict& v, std::string& what, int& op, const Tol& tol) {
  ref::Filter f(s); auto r = oracle::compareRef(s, t, f, strict, tol);
  if (r.doubt) { what = r.doubtWhy; return 2; }
  if (f.minGateMargin < 1e-3) { what = "gate threshold"; return 2; }
  if (f.nFuzzy && strict && f.nLate) { what = "attitude jump with late data"; return 2; }   // the median depends on how often an update was re-applied
  v.stat["model.applied"] += (double)f.nApplied; v.stat["model.late"] += (double)f.nLate; v.stat["model.held"] += (double)f.nHeld; v.stat["model.gated"] += (double)f.nGated; v.stat["model.rebased"] += (double)f.nRebase; v.stat["model.fuzzy"] += (double)f.nFuzzy; v.stat["model.spikes"] += (double)f.nSpike; v.stat["compared.updates"] += (double)r.comparedUpd; v.stat["compared.estimates"] += (double)r.comparedProp; v.maxi("max:deviation", r.maxX); v.maxi("max:covDeviation", r.maxP);
  if (r.d.bad && r.d.worst < 1e3) { double e = sensitivity(s, r.d.op); v.maxi("max:sensitivity", e); if (!(e * 100 < r.d.worst)) { what = "ill-conditioned"; return 2; } }
  if (r.d.bad) { what = r.d.what; op = r.d.op; return 1; }
  return 0;
}
void refineWithControl(const Scenario& s, const Trace& t, const Scenario& control, Verdict& v, const std::string& cls, bool strict, const Tol& tol) {
  std::string w; int op = -1; int a = refine(s, t, strict, v, w, op, tol); if (a != 1) return;
  Trace tc; Verdict dummy; std::string w2; int op2 = -1; tc = run(control); v.mix(tc); if (tc.status != ST_OK) return;
  int b = refine(control, tc, strict, dummy, w2, op2, tol); if (b != 0) { v.stat["control.alsoDiffers"] += 1; return; }
  v.bad(cls, w + " (compared with the reference model)", op);
}
int lastInit(const Scenario& s) { int r = -1; for (size_t k = 0; k < s.ops.size(); ++k) if (kind(s.ops[k]) == world::T_INIT) r = (int)k; return r; }
Hist after(const Hist& h, int op) {
  Hist r; for (auto& x : h.order) { int o = x.second ? h.upd[x.first].op : h.prop[x.first].op; if (o < op) continue; if (x.second) { r.order.push_back({(int)r.upd.size(), true}); r.upd.push_back(h.upd[x.first]); } else { r.order.push_back({(int)r.prop.size(), false}); r.prop.push_back(h.prop[x.first]); } }
  return r;
}
bool finiteRec(const Rec& r) { for (double d : r.num) if (!std::isfinite(d)) return false; return true; }
void toExt(Scenario& s, bool current) {            // IMU data through the interface for external propagation
  for (auto& q : s.ops) if (world::isImu(q) && q.num.size() == 37) { std::vector<double> d(6); for (int k = 0; k < 3; ++k) { d[k] = q.num[13 + k]; d[3 + k] = q.num[25 + k]; } d.push_back(16); for (int k = 0; k < 16; ++k) d.push_back(k == 6 ? 1 : 0); d.push_back(current ? 1 : 0); q.num = d; q.name = "/msf_core/hl_state_input"; }
}
// ------------------------------------------------------------------ scenarios
void onTime(const world::World& w, Scenario& s) {
  // the first IMU sample at or after the measurement, by delivery time
  std::vector<std::pair<int64_t, int64_t>> imu; for (auto& o : s.ops) if (isImu(o)) imu.push_back({o.stamp, o.at});
  std::sort(imu.begin(), imu.end());
  for (auto& o : s.ops) if (isMeas(o)) { int64_t t = world::measTime(w, o); if (t < w.t0) continue; auto it = std::lower_bound(imu.begin(), imu.end(), std::make_pair(t, (int64_t)0)); if (it != imu.end()) o.at = it->second + 1000 * (1 + kind(o)); }
  world::sortOps(s.ops);
}
void dropTies(const world::World& w, Scenario& s) {
  std::vector<int64_t> ts; std::vector<Op> out; std::multimap<int64_t, int> seen;
  for (auto& o : s.ops) { if (!isMeas(o)) { out.push_back(o); continue; } int64_t t = world::measTime(w, o); auto it = seen.lower_bound(t - 2100000); bool clash = false; for (; it != seen.end() && it->first <= t + 2100000; ++it) if (it->second != kind(o) && t >= w.t0) clash = true; if (clash) continue; seen.insert({t, kind(o)}); out.push_back(o); }
  s.ops = out;
}
int64_t settle(Rng& r, world::World& w, Scenario& s, int nImu) {
  int64_t lastAt = 0, lastImu = 0; for (auto& o : s.ops) { lastAt = std::max(lastAt, o.at); if (isImu(o)) lastImu = std::max(lastImu, o.stamp); }
  int64_t t = lastImu; std::vector<Op> add;
  auto imu = [&]() { t += w.imuPeriod; Op o = w.imu(r, t); o.at = std::max(o.at, lastAt + 1000); lastAt = o.at; add.push_back(o); };
  for (int k = 0; k < nImu; ++k) imu();
  int64_t k = 0; for (auto& x : w.sensors) if (x.on) {
    int reps = (x.tag == world::T_PRESS ? 10 : x.topic.find("transform") != std::string::npos && x.tag == world::T_POS ? 5 : 1);
    for (int j = 0; j < reps; ++j) { Op o = w.meas(r, x, t - w.imuPeriod * (1 + k) - (x.phase ? w.imuPeriod - x.phase : 0)); o.at = ++lastAt; add.push_back(o); }
    ++k; }
  for (int j = 0; j < nImu; ++j) imu();
  s.ops.insert(s.ops.end(), add.begin(), add.end()); world::sortOps(s.ops);
  return t;
}
Chaos randomChaos(Rng& r) {
  Chaos c; if (r.p(.4)) c.lossImu = r.u(0, .15); if (r.p(.5)) c.lossMeas = r.u(0, .4); if (r.p(.5)) c.dup = r.u(0, .3); if (r.p(.6)) c.late = r.u(0, .7); if (r.p(.3)) c.outage = r.u(.02, .4); if (r.p(.3)) c.burst = r.u(.02, .4); if (r.p(.3)) c.swapImu = r.u(0, .1); if (r.p(.3)) c.ahead = r.u(0, .5);
  c.maxLate = r.p(.3) ? 1.5 : .4; return c;
}
void chaos(Rng& r, const world::World& w, Case& c, const Chaos& x, int64_t from, int64_t to) {
  std::vector<Op> out; Scenario& s = c.sc;
  int64_t o0 = 0, o1 = 0, b0 = 0, b1 = 0; bool oImu = r.p(.5), oMeas = r.p(.6);
  if (x.outage > 0) { o0 = from + (int64_t)(r.u() * (to - from)); o1 = o0 + (int64_t)(x.outage * 1e9); }
  if (x.burst > 0) { b0 = from + (int64_t)(r.u() * (to - from)); b1 = std::min(to, b0 + (int64_t)(x.burst * 1e9)); }
  int64_t lastImuAt = 0;
  for (Op o : s.ops) {
    bool in = o.at >= from && o.at < to, m = isMeas(o), i = isImu(o);
    if (!in || (!m && !i)) { out.push_back(o); continue; }
    if (i && r.p(x.lossImu)) { c.fault("imu_lost"); continue; }
    if (m && r.p(x.lossMeas)) { c.fault("measurement_lost"); continue; }
    if (o.at >= o0 && o.at < o1 && ((i && oImu) || (m && oMeas))) { c.fault(i ? "imu_outage" : "measurement_outage"); continue; }
    if (m && r.p(x.late)) { o.at += (int64_t)(r.u() * (r.p(.2) ? x.maxLate : .12) * 1e9); if (o.at >= to) o.at = to - 1000000; c.fault("measurement_late"); }
    else if (m && r.p(x.ahead)) { o.at = std::max<int64_t>(from, world::measTime(w, o) - (int64_t)(r.u() * 5 * w.imuPeriod)); c.fault("measurement_ahead"); }
    if (o.at >= b0 && o.at < b1) { o.at = b1 + (o.at - b0) / 1000; c.fault("burst"); }
    if (i) { if (o.at <= lastImuAt) o.at = lastImuAt + 1; lastImuAt = o.at; }
    if (i && x.burst <= 0 && w.imuPeriod < 9000000 && r.p(x.swapImu)) { o.at += w.imuPeriod + 1000; c.fault("imu_reordered"); }
    out.push_back(o);
    if (r.p(x.dup)) { Op d = o; d.at += m ? (int64_t)(r.u() * .3e9) : 1; d.tag |= F_FAULT; if (d.at >= to) d.at = to - 1000; if (d.at >= o.at) { c.fault(i ? "imu_duplicated" : "measurement_duplicated"); out.push_back(d); } }
  }
  s.ops = out; world::sortOps(s.ops);
}
world::Nominal nominal(Rng& r, const std::string& node, const world::Opt& o, bool noThrottle) {
  auto n = world::makeNominal(r, node, o); if (noThrottle) n.sc.params[n.w.ns() + "/pose_sensor/pose_measurement_minimum_dt"] = "0"; return n;
}
world::Opt vary(Rng& r, bool thorough, double lo, double hi) { world::Opt o; o.dur = thorough ? r.u(lo, 2.5 * hi) : r.u(lo, hi); o.worldSensor = true; return o; }
void enableGate(Scenario& s, const world::World& w, double thr) { for (auto q : {"pose_sensor", "position_sensor", "pressure_sensor", "spherical_position_sensor"}) { s.params[w.ns() + "/" + q + "/enable_mah_outlier_rejection"] = "1"; s.params[w.ns() + "/" + q + "/mah_threshold"] = fmt("%.6g", thr); } }
Hist onlyProps(const Hist& h) { Hist r; r.prop = h.prop; for (size_t k = 0; k < r.prop.size(); ++k) r.order.push_back({(int)k, false}); return r; }
}
