// Checks about configuration: delays, rate limits, initialization requests.
#include "check.h"
#include <math.h>
#include <string.h>
#include <algorithm>
namespace chk {
using namespace world;
static bool ends(const std::string& a, const std::string& b) { return a.size() >= b.size() && a.compare(a.size() - b.size(), std::string::npos, b) == 0; }
static bool hasText(const std::string& a, const char* b) { return a.find(b) != std::string::npos; }
// ------------------------------------------------------------------ C18: delay compensation, changes of settings at run time
static const char* delayKey(int kind) { static const char* n[] = {"", "", "pose_delay", "position_delay", "", "angle_delay", "distance_delay"}; return kind >= 2 && kind <= 6 ? n[kind] : ""; }
static const char* noiseKey(int kind, int k) { switch (kind) { case T_POSE: return k ? "pose_noise_meas_p" : "pose_noise_meas_q"; case T_POS: return "position_noise_meas"; case T_PRESS: return "press_noise_meas_p"; case T_ANGLE: return "angle_noise_meas"; default: return "distance_noise_meas"; } }
static Case genC18(Rng& r, const std::string& node, int variant, bool th) {
  Case c; Opt o = vary(r, th, 1.2, 2.4); o.dyadic = true; Nominal n = nominal(r, node, o); World& w = n.w; int64_t from = n.tInit + 60000000, to = n.tEnd - 100000000;
  for (auto& x : w.sensors) if (*delayKey(x.tag) && r.p(.8)) {    // a delay for (nearly) every sensor, the stamps are late by as much
    int64_t d = r.i(-1, 12) * 15625000ll; for (auto& q : n.sc.ops) if (kind(q) == x.tag) { q.stamp += d - x.delayNs; if (q.at < q.stamp) q.at = q.stamp; } x.delayNs = d; std::string key = w.cfgNs() + "/" + delayKey(x.tag); n.sc.params[key] = w.params[key] = fmt("%.17g", 1e-9 * d); c.fault("configured_delay", d != 0); }
  sortOps(n.sc.ops); c.sc = n.sc;
  if (variant == 1) {
    for (int k = r.i(1, 4); k > 0; --k) {
      auto& x = w.sensors[r.next() % w.sensors.size()]; int64_t at = from + (int64_t)(r.u() * (to - from)); int what = r.i(0, 2); std::vector<Op> add;
      if (what == 0 && *delayKey(x.tag)) { int64_t d = r.i(-1, 12) * 15625000ll; double was = 1e-9 * x.delayNs; (void)was; bool sensorToo = r.p(.7);
        if (sensorToo) for (auto& q : c.sc.ops) if (kind(q) == x.tag && q.at > at) { q.stamp += d - x.delayNs; if (q.at < q.stamp) q.at = q.stamp; }
        add.push_back(w.reconf(delayKey(x.tag), 1e-9 * d, at)); if (sensorToo) x.delayNs = d; c.fault("delay_changed"); }
      else if (what == 1) { add.push_back(w.reconf(noiseKey(x.tag, r.i(0, 1)), x.sp * r.logu(.3, 10), at)); c.fault("noise_changed"); }
      else { static const char* fx[] = {"pose_fixed_scale", "pose_fixed_p_ic", "pose_fixed_q_ic", "pose_fixed_p_wv", "pose_fixed_q_wv"}; std::string key = x.tag == T_POSE ? fx[r.i(0, 4)] : x.tag == T_POS ? "position_fixed_p_ip" : x.tag == T_ANGLE || x.tag == T_DIST ? "fixed_p_ip" : ""; if (key.empty()) continue; bool cur = false; auto it = c.sc.params.find(w.cfgNs() + "/" + key); if (it != c.sc.params.end()) cur = atof(it->second.c_str()) != 0; add.push_back(w.reconf(key, r.p(.8) ? !cur : cur, at)); c.fault("fixed_state_changed"); }
      c.sc.ops.insert(c.sc.ops.end(), add.begin(), add.end()); sortOps(c.sc.ops); }
  }
  if (r.p(.6)) { Chaos x; x.late = r.u(0, .6); x.lossMeas = r.u(0, .2); x.dup = r.p(.3) ? r.u(0, .2) : 0; x.ahead = r.p(.3) ? r.u(0, .4) : 0; chaos(r, w, c, x, from, to); }
  settle(r, w, c.sc); return c;
}
// The same data with zero delays and stamps moved by the delay in force when the message is received.
static Scenario shifted(const Scenario& s, int& n, int& changes) {
  Scenario b = s; World w; w.node = s.node; double d[8] = {0}; for (int k = 2; k < 7; ++k) d[k] = delayOf(s, k); n = changes = 0;
  for (auto& p : b.params) for (int k = 2; k < 7; ++k) if (*delayKey(k) && ends(p.first, std::string("/") + delayKey(k))) p.second = "0";
  for (int k = 2; k < 7; ++k) if (*delayKey(k)) { bool mine = (k == T_POSE) ? hasText(s.node, "pose") : (k == T_POS) ? hasText(s.node, "position") : s.node == "spherical"; if (mine) b.params[w.cfgNs() + "/" + delayKey(k)] = "0"; }
  for (auto& o : b.ops) {
    if (o.kind == OP_RECONF) { for (auto& kv : o.kv) for (int k = 2; k < 7; ++k) if (*delayKey(k) && kv.first == delayKey(k)) { d[k] = sim::ns(kv.second); kv.second = 0; ++changes; } else if (hasText(kv.first, "noise_meas") || hasText(kv.first, "fixed_")) ++changes; }
    else if (isMeas(o) && d[kind(o)] != 0) { o.stamp -= (int64_t)d[kind(o)]; ++n; } }
  return b;
}
static Verdict judgeC18(const Case& c) {
  Verdict v; const Scenario& s = c.sc; ref::Layout l(s.node); int n = 0, changes = 0; Scenario b = shifted(s, n, changes); if (!n && c.variant == 0) return Verdict::skip("no delay"); if (!changes && c.variant == 1) return Verdict::skip("no change");
  for (auto& o : b.ops) if (o.stamp < 0) return Verdict::skip("negative stamp"); RefRun f = refRun(s); if (f.doubt) return Verdict::skip(f.why);
  Trace t1, t2; if (!runOk(s, t1, v) || !runOk(b, t2, v)) return v; Hist h1 = oracle::decode(t1, l), h2 = oracle::decode(t2, l); if (h1.upd.empty()) return Verdict::skip("no updates"); v.stat["shifted.measurements"] += n; v.stat["updates"] += (double)h1.upd.size();
  Diff d = oracle::compareHist(l, h2, h1, Tol{1e-6, 1e-6}); v.maxi("max:difference", d.worst < 1e8 ? d.worst : 0);
  if (d.bad) return v.bad("delay", "measurements with a configured delay are not fused as those stamped earlier: " + d.what, d.op);
  if (c.variant == 1) { Scenario k = s; for (auto& o : k.ops) if (o.kind == OP_RECONF) { bool any = false; for (auto& kv : o.kv) any = any || hasText(kv.first, "noise_meas") || hasText(kv.first, "fixed_") || hasText(kv.first, "_delay"); if (any) o.kind = OP_NOP; } refineWithControl(s, t1, k, v, "runtime"); }
  return v;
}
static Reg r18({"C18", kAll, 2, genC18, judgeC18});

// ------------------------------------------------------------------ C19: rate limits, wrong stamps
static void wrongStamp(Rng& r, Op& q) { int64_t d = (int64_t)(r.logu(5, r.p(.5) ? 100 : 1e8) * 1e9); bool ahead = r.p(.5); if (!ahead && q.stamp - d < 0) d = q.stamp; q.stamp += ahead ? d : -d; if (q.stamp > 4200000000ll * 1000000000ll) q.stamp = 4200000000ll * 1000000000ll; q.tag |= F_FAULT; }
static Case genC19(Rng& r, const std::string& node, int variant, bool th) {
  Case c; Opt o = vary(r, th, 1.2, 2.4); o.zeroDelay = r.p(.5); if (variant == 0) { o.rateLo = 15; o.rateHi = 60; } Nominal n; 
  if (variant == 0) { n = nominal(r, node, o, false); if (node != "position" && node != "spherical") { double dt = r.p(.3) ? .05 : r.u(.02, .25); n.sc.params[n.w.ns() + "/pose_sensor/pose_measurement_minimum_dt"] = fmt("%.6f", dt); c.fault("rate_limit"); } }
  else { n = nominal(r, node, o); dropTies(n.w, n.sc); }
  c.sc = n.sc; World& w = n.w; int64_t from = n.tInit + 60000000, to = n.tEnd - 100000000;
  if (variant == 0) { if (r.p(.7)) { Chaos x; x.late = r.u(0, .5); x.lossMeas = r.u(0, .4); x.dup = r.p(.5) ? r.u(0, .3) : 0; x.ahead = r.p(.3) ? r.u(0, .3) : 0; chaos(r, w, c, x, from, to); } }
  if (variant == 1 || r.p(.4)) {
    int left = r.i(1, 5), block = 0; int64_t jump = 0; int tag = 0;
    for (auto& q : c.sc.ops) if (isMeas(q) && q.at > from && q.at < to) {
      if (block && kind(q) == tag) { --block; q.stamp += jump; q.tag |= F_FAULT; c.fault("sensor_clock_jump"); }
      else if (left && !block && r.p(.12)) { --left; if (r.p(.4)) { block = r.i(1, 6); tag = kind(q); jump = (int64_t)(r.u(8, 200) * 1e9) * (r.p(.5) && q.stamp > 300000000000ll ? -1 : 1); } else { wrongStamp(r, q); c.fault("wrong_stamp"); } } } }
  settle(r, w, c.sc, 24); return c;
}
static Verdict judgeC19(const Case& c) {
  Verdict v; const Scenario& s = c.sc; ref::Layout l(s.node); RefRun f = refRun(s); if (f.doubt) return Verdict::skip(f.why); Trace t1, t2; Scenario b = s; b.ops.clear(); int thrott = 0, wrong = 0, fused = 0;
  for (auto& x : f.fate) fused += x.second == ref::F_APPLIED; if (!fused) return Verdict::skip("nothing fused");
  if (c.variant == 0) {
    // the same without the surplus messages and without a limit
    for (size_t k = 0; k < s.ops.size(); ++k) { auto it = f.fate.find((int)k); if (it != f.fate.end() && it->second == ref::F_THROTTLED && isMeas(s.ops[k])) { ++thrott; Op q = s.ops[k]; q.kind = OP_NOP; b.ops.push_back(q); } else b.ops.push_back(s.ops[k]); }
    if (!thrott) return Verdict::skip("nothing surplus"); for (auto& p : b.params) if (ends(p.first, "/pose_measurement_minimum_dt")) p.second = "0"; v.stat["surplus"] += thrott; v.stat["fused"] += fused;
    if (!runOk(s, t1, v) || !runOk(b, t2, v)) return v; Diff d = oracle::compareHist(l, oracle::decode(t2, l), oracle::decode(t1, l), Tol{1e-6, 1e-6}); v.maxi("max:difference", d.worst < 1e8 ? d.worst : 0);
    if (d.bad) { if (f.nFuzzy) return Verdict::skip("attitude jump"); return v.bad("limit", "the messages fused are not those that respect the rate limit: " + d.what, d.op); }
    // the limit itself: a message is dropped only when a fused one of the sensor is near, and two fused ones never are nearer
    return v;
  }
  for (size_t k = 0; k < s.ops.size(); ++k) { const Op& o = s.ops[k]; if (isMeas(o) && (o.tag & F_FAULT)) { auto it = f.fate.find((int)k); if (it != f.fate.end() && it->second == ref::F_APPLIED) return Verdict::skip("wrong stamp fused"); ++wrong; Op q = o; q.kind = OP_NOP; b.ops.push_back(q); } else b.ops.push_back(o); }
  if (!wrong) return Verdict::skip("no wrong stamp"); v.stat["wrong.stamps"] += wrong; v.stat["fused"] += fused;
  if (!runOk(s, t1, v) || !runOk(b, t2, v)) return v; Hist h1 = oracle::decode(t1, l), h2 = oracle::decode(t2, l); Diff d = f.nHeld ? oracle::compareFinal(l, oracle::finalOf(h2), oracle::finalOf(h1), kSame) : oracle::compareHist(l, h2, h1, kSame); v.maxi("max:difference", d.worst < 1e8 ? d.worst : 0);
  if (!d.bad && h1.upd.size() != h2.upd.size()) { d.bad = true; d.what = fmt("%zu updates in one run, %zu in the other", h1.upd.size(), h2.upd.size()); d.op = -1; }
  if (d.bad) { if (f.nFuzzy) return Verdict::skip("attitude jump"); return v.bad("recover", "messages with wrong stamps disturb the fusion of valid ones: " + d.what, d.op); }
  return v;
}
static Reg r19({"C19", kAll, 2, genC19, judgeC19});

// ------------------------------------------------------------------ C20: initialization requests
static Op service(const World& w, const char* name, double x, int64_t at) { Op o; o.kind = OP_SRV; o.at = at; o.name = w.ns() + "/pose_sensor/" + name; o.num = {x}; o.tag = T_INIT; return o; }
static Case genC20(Rng& r, const std::string& node, int variant, bool th) {
  Case c; Opt o = vary(r, th, 1.2, 2.6); Nominal n = nominal(r, node, o, r.p(.7)); c.sc = n.sc; World& w = n.w; bool pose = node != "position" && node != "spherical";
  if (r.p(.15)) { c.sc.ops.erase(std::remove_if(c.sc.ops.begin(), c.sc.ops.end(), [&](const Op& q) { return isMeas(q) && q.at < n.tInit; }), c.sc.ops.end()); c.fault("no_measurement_before_initialization"); }
  if (r.p(.5)) { Chaos x = randomChaos(r); x.swapImu = 0; chaos(r, w, c, x, n.tInit + 60000000, n.tEnd - 100000000); }
  if (node == "pose" && w.worldSensor && r.p(.35)) { double up = r.u(2, 8); for (auto& q : c.sc.ops) if (kind(q) == T_POSE) q.num[2] -= up; c.fault("origin_above"); }   // the frame of the sensor begins above: negative heights
  // the first request may be of any kind, more follow
  auto request = [&](int64_t at, bool valid) {
    std::vector<Op> v; Op q = w.init(at); double zz = 1; for (auto& m : c.sc.ops) if (kind(m) == T_POSE && m.at < at) { zz = m.num[2]; if (!w.worldSensor) { Q qq(m.num[6], m.num[3], m.num[4], m.num[5]); zz = -(qq.conjugate() * V3(m.num[0], m.num[1], m.num[2]))[2]; } }
    int what = pose ? (node == "pose" ? r.i(0, 4) : r.i(0, 2)) : 0; double L = w.L * (r.p(.5) ? r.u(.8, 1.25) : 1);
    if (valid) {
      if (what == 0) { if (pose && r.p(.6)) { q.kv.insert(q.kv.begin(), {"pose_initial_scale", L}); c.fault("request_scale"); } else if (!pose && r.p(.5)) { q.kv.insert(q.kv.begin(), {node == "spherical" ? "yaw_init" : "position_yaw_init", r.u(-170, 170)}); c.fault("request_yaw"); } else c.fault("request_plain"); }
      else if (what <= 2) { q.kv = {{"core_height", std::min(20.0, std::max(.1, fabs(zz) / L))}, {"core_set_height", 1}}; c.fault("request_height"); }
      else if (what == 3) { q = service(w, "initialize_msf_scale", L, at); c.fault("service_scale"); }
      else { q = service(w, "initialize_msf_height", zz / L, at); c.fault("service_height"); }
    } else if (node == "pose" && r.p(.75)) {
      static const double bad[] = {0, -1, 1. / 0., -1. / 0., 0. / 0., -1e-3}; bool sc = r.p(.5); double x = sc ? bad[r.i(0, 5)] : r.p(.3) ? r.u(-.01, .01) : r.p(.5) ? -zz * r.u(.3, 3) : bad[r.i(0, 5)]; q = service(w, sc ? "initialize_msf_scale" : "initialize_msf_height", x, at); q.tag |= F_FAULT; c.fault("invalid_service_request");
    } else { if (zz > 0) { q = w.reconf("core_noise_acc", .01, at); q.kind = OP_NOP; } else { q.kv = {{"core_height", 2}, {"core_set_height", 1}}; q.tag |= F_FAULT; c.fault("invalid_height_request"); } }
    return q; };
  if (r.p(.6)) for (auto& q : c.sc.ops) if (kind(q) == T_INIT) { int64_t at = q.at; q = request(at, true); }
  std::vector<Op> add; for (int k = r.i(variant ? 1 : 0, 3); k > 0; --k) add.push_back(request(n.tInit + (int64_t)(r.u(variant ? -.1 : .1, .9) * (n.tEnd - n.tInit)), variant == 0 || r.p(.2)));
  c.sc.ops.insert(c.sc.ops.end(), add.begin(), add.end()); sortOps(c.sc.ops); settle(r, w, c.sc); return c;
}
static Verdict judgeC20(const Case& c) {
  Verdict v; const Scenario& s = c.sc; ref::Layout l(s.node); World w; w.node = s.node; Trace t; if (!runOk(s, t, v)) return v; bool poseLike = s.node != "position" && s.node != "spherical";
  auto par = [&](const char* n, double d) { auto it = s.params.find(w.ns() + "/" + n); return it == s.params.end() ? d : atof(it->second.c_str()); };
  ref::Filter m(s); m.quiet = true; std::vector<ref::Expect> ex; size_t pos = 0; int tc = t.topicId("/msf_core/correction"), tv = t.topicId("srv"); uint64_t nInit = 0, nRef = 0; const Op* last[8] = {nullptr}; std::set<size_t> refused;
  Q qic(par("pose_sensor/init/q_ic/w", 1), par("pose_sensor/init/q_ic/x", 0), par("pose_sensor/init/q_ic/y", 0), par("pose_sensor/init/q_ic/z", 0)); qic.normalize(); V3 pic(par("pose_sensor/init/p_ic/x", 0), par("pose_sensor/init/p_ic/y", 0), par("pose_sensor/init/p_ic/z", 0)), pip(par("position_sensor/init/p_ip/x", 0), par("position_sensor/init/p_ip/y", 0), par("position_sensor/init/p_ip/z", 0)); bool inv = par("pose_sensor/pose_measurement_world_sensor", 1) == 0;
  for (size_t k = 0; k < s.ops.size(); ++k) {
    const Op& o = s.ops[k]; uint64_t in = m.nInits; ex.clear(); m.step(o, (int)k, ex); if (!m.doubts.empty()) break; bool isInit = m.nInits != in; std::vector<const Rec*> C; const Rec* S = nullptr;
    for (; pos < t.recs.size() && t.recs[pos].op <= (int)k; ++pos) if (t.recs[pos].op == (int)k) { if (t.recs[pos].topic == tc) C.push_back(&t.recs[pos]); if (t.recs[pos].topic == tv) S = &t.recs[pos]; }
    if (isMeas(o)) { auto it = m.fate.find((int)k); if (it != m.fate.end() && it->second != ref::F_THROTTLED && it->second != ref::F_DISCARDED) last[kind(o)] = &o; }
    bool req = o.kind == OP_SRV; double want = 0; for (auto& kv : o.kv) if (o.kind == OP_RECONF && (kv.first == "core_init_filter" || kv.first == "core_set_height")) req = true; if (!req) continue;
    // which requests have to be accepted, from their own contents
    V3 zp(0, 0, 0); Q zq = Q::Identity(); if (last[T_POSE]) { auto& d = last[T_POSE]->num; zp = V3(d[0], d[1], d[2]); zq = Q(d[6], d[3], d[4], d[5]).normalized(); if (inv) { zq = zq.conjugate(); zp = -(zq * zp); } }
    bool accept = true; double scale = 1; 
    if (o.kind == OP_SRV && s.node != "pose") continue;
    if (o.kind == OP_SRV) { want = o.num[0]; if (hasText(o.name, "scale")) { scale = want; accept = scale > 0 && std::isfinite(scale); } else { scale = zp[2] / want; accept = last[T_POSE] && fabs(want) > .01 && scale > 0 && std::isfinite(scale); if (fabs(fabs(want) - .01) < 1e-9) break; } }
    else { bool height = false; for (auto& kv : o.kv) if (kv.first == "core_set_height") height = true; if (height) { if (!poseLike) continue; scale = zp[2] / m.cfg["core_height"]; accept = last[T_POSE] && scale > 0 && std::isfinite(scale); } else if (poseLike) scale = m.cfg["pose_initial_scale"]; }
    if (isInit != accept) break;       // would be a flaw of the model: nothing can be said
    if (S && ((S->num[0] != 0) != accept)) return v.bad("service", fmt("the service reported %s although the request %s", S->num[0] != 0 ? "success" : "failure", accept ? "was valid" : "must be refused"), (int)k);
    if (o.kind == OP_SRV && !S) return v.bad("service", "the service did not answer", (int)k);
    if (C.size() != (accept ? 1u : 0u)) return v.bad("started", accept ? "a valid request did not start the filter" : "a request that must be refused started the filter", (int)k);
    if (!accept) { refused.insert(k); ++nRef; continue; } ++nInit;
    const double* x = &C[0]->num[10]; V3 p(x[0], x[1], x[2]); Q q(x[6], x[7], x[8], x[9]); q.normalize(); if ((int)C[0]->num[26] != 2) return v.bad("started", "the start of the filter is not announced as initialization", (int)k);
    for (int j : {3, 4, 5, 10, 11, 12, 13, 14, 15}) if (x[j] != 0) return v.bad("rest", "the filter does not start at rest without biases", (int)k);
    auto near3 = [&](const V3& a, const V3& b, double sc) { return (a - b).norm() <= 3e-6 * (1 + a.norm() + b.norm() + sc); }; double yaw = m.cfg[s.node == "spherical" ? "yaw_init" : "position_yaw_init"] * M_PI / 180; Q yq(cos(yaw / 2), 0, 0, sin(yaw / 2)); auto nearQ = [&](const Q& a, const Q& b) { return 2 * (a.conjugate() * b).vec().norm() < 3e-6; };
    if (s.node == "pose" || s.node == "pose_pressure") {
      if (last[T_POSE]) { V3 h = scale * (p + q * pic); if (!near3(h, zp, scale * p.norm())) return v.bad("pose", fmt("the pose at the start does not explain the latest measurement: position off by %.3g", (h - zp).norm()), (int)k); if (!nearQ(q * qic, zq)) return v.bad("pose", fmt("the pose at the start does not explain the latest measurement: attitude off by %.3g rad", 2 * ((q * qic).conjugate() * zq).vec().norm()), (int)k); }
    } else if (s.node == "position_pose" || s.node == "position") {
      if (!nearQ(q, yq)) return v.bad("yaw", "the filter does not start with the configured yaw", (int)k);
      if (last[T_POS]) { auto& d = last[T_POS]->num; V3 z(d[0], d[1], d[2]); if (!near3(p + q * pip, z, 0)) return v.bad("pose", fmt("the position at the start does not explain the latest measurement (off by %.3g)", (p + q * pip - z).norm()), (int)k); }
    } else if (last[T_ANGLE] && last[T_DIST]) {
      if (!nearQ(q, yq)) return v.bad("yaw", "the filter does not start with the configured yaw", (int)k); double d = last[T_DIST]->num[2], a = last[T_ANGLE]->num[0], b = last[T_ANGLE]->num[1]; V3 z(d * sin(a) * cos(b), d * sin(a) * sin(b), d * cos(a)); if (!near3(p + q * pip, z, 0)) return v.bad("pose", fmt("the position at the start does not explain the latest measurements (off by %.3g)", (p + q * pip - z).norm()), (int)k); }
  }
  v.stat["requests.accepted"] += (double)nInit; v.stat["requests.refused"] += (double)nRef;
  if (!m.doubts.empty()) return v.st == V_OK ? Verdict::skip(m.doubts[0]) : v; if (!nInit && !nRef) return Verdict::skip("no request");
  if (!refused.empty()) { Scenario b = s; for (auto k : refused) b.ops[k].kind = OP_NOP; Trace t2; if (!runOk(b, t2, v)) return v; Diff d = oracle::compareHist(l, oracle::decode(t2, l), oracle::decode(t, l), kExact); if (d.bad) return v.bad("refused", "a refused request changes the filter: " + d.what, d.op); }
  // the remaining initial state (scale, calibration, vision frame, bias of the pressure sensor) shows in what follows
  Scenario ctl = s; std::string w2; int op = -1; if (c.variant == 0) { int rf = refine(s, t, true, v, w2, op); if (rf == 1) { bool first = true; for (auto& o : ctl.ops) { bool rq = o.kind == OP_SRV; for (auto& kv : o.kv) if (o.kind == OP_RECONF && (kv.first == "core_init_filter" || kv.first == "core_set_height")) rq = true; if (!rq) continue; if (first) { o.kind = OP_RECONF; o.name = w.cfgNs(); o.kv = {{"core_init_filter", 1}}; first = false; } else o.kind = OP_NOP; } Trace tc2 = run(ctl); v.mix(tc2); std::string w3; int op3; Verdict d; if (tc2.status == ST_OK && refine(ctl, tc2, true, d, w3, op3) == 0) v.bad("start", "after an initialization request " + w2 + " (compared with the reference model)", op); } }
  return v;
}
static Reg r20({"C20", kAll, 2, genC20, judgeC20});
}
