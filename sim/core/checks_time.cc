// Checks about when measurements arrive: order, duplication, running ahead, unusable ones, refinement.
#include "check.h"
#include <math.h>
#include <algorithm>
namespace chk {
using namespace world;
static std::string key(const Op& o) { return o.name + fmt("/%lld/%u/%d", (long long)o.stamp, o.seq, o.tag & F_FAULT); }

// ------------------------------------------------------------------ C01: arrival order does not matter
static Case genC01(Rng& r, const std::string& node, int variant, bool th) {
  Case c; Opt o = vary(r, th); Nominal n = nominal(r, node, o); c.sc = n.sc; dropTies(n.w, c.sc); onTime(n.w, c.sc);
  double pl = r.u(.1, .9), ml = r.p(.25) ? 2.0 : r.p(.5) ? .5 : .12; int64_t end = 0; for (auto& x : c.sc.ops) end = std::max(end, x.at);
  for (auto& x : c.sc.ops) if (isMeas(x)) { x.aux = x.at; if (measTime(n.w, x) < n.tInit + 150000000 || !r.p(pl)) continue; x.at = std::min(end, x.at + (int64_t)(r.u() * ml * 1e9)); c.fault("measurement_late"); }
  if (variant == 1 && r.p(.7)) {     // a stalled link releases everything in reverse order
    int64_t a = n.tInit + (int64_t)(r.u(.2, .8) * (end - n.tInit)), b = std::min(end, a + (int64_t)(r.u(.05, .6) * 1e9));
    for (auto& x : c.sc.ops) if (isMeas(x) && x.at >= a && x.at < b && measTime(n.w, x) > n.tInit + 150000000) { x.at = b + (b - x.at) / 1000; c.fault("burst_reversed"); }
  }
  sortOps(c.sc.ops); settle(r, n.w, c.sc); for (auto& x : c.sc.ops) if (isMeas(x) && !x.aux) x.aux = x.at;
  return c;
}
static Scenario aligned(const Scenario& s) { Scenario b = s; for (auto& x : b.ops) if (isMeas(x) && x.aux) x.at = x.aux; sortOps(b.ops); return b; }
static Verdict judgeC01(const Case& c) {
  Verdict v; Scenario s = c.sc, b = aligned(s);
  for (int pass = 0; pass < 3; ++pass) {
    RefRun f1 = refRun(s), f2 = refRun(b); if (f1.doubt || f2.doubt) return Verdict::skip(f1.doubt ? f1.why : f2.why);
    std::map<std::string, int> fa, fb; for (auto& x : f1.fate) fa[key(s.ops[x.first])] = x.second; for (auto& x : f2.fate) fb[key(b.ops[x.first])] = x.second;
    std::set<std::string> bad; for (auto& x : fa) if (x.second != fb[x.first] || x.second == ref::F_HELD) bad.insert(x.first);
    if (bad.empty()) { size_t nl = 0; for (auto& x : s.ops) if (isMeas(x) && x.at > x.aux + 5000000) ++nl; v.stat["late"] += (double)nl; if (!nl) return Verdict::skip("nothing late"); break; }
    if (pass == 2) return Verdict::skip("premise");
    auto drop = [&](const Op& o) { return isMeas(o) && bad.count(key(o)); }; s = without(s, drop); b = without(b, drop);
  }
  RefRun g = refRun(b, false); if (g.doubt) return Verdict::skip(g.why); if (g.nFuzzy || g.nNeg) return Verdict::skip("attitude jump");
  g = refRun(s, false); if (g.doubt) return Verdict::skip(g.why); if (g.nFuzzy || g.nNeg) return Verdict::skip("attitude jump");
  Trace t1, t2; if (!runOk(b, t2, v) || !runOk(s, t1, v)) return v;
  ref::Layout l(s.node); Hist h1 = oracle::decode(t1, l), h2 = oracle::decode(t2, l);
  Diff d = oracle::compareFinal(l, oracle::finalOf(h2), oracle::finalOf(h1), kSame); v.maxi("max:difference", d.worst < 1e8 ? d.worst : 0);
  if (d.bad) return v.bad("order", "the final estimate depends on the arrival order: " + d.what);
  refineWithControl(s, t1, b, v, "late");
  return v;
}
static Reg r01({"C01", kAll, 2, genC01, judgeC01});

// ------------------------------------------------------------------ C02: exactly once
static Case genC02(Rng& r, const std::string& node, int variant, bool th) {
  Case c; Opt o = vary(r, th); if (variant == 2) o.zeroDelay = true; Nominal n = nominal(r, node, o); c.sc = n.sc;
  int64_t end = 0; for (auto& x : c.sc.ops) end = std::max(end, x.at);
  if (variant == 2 && n.w.sensors.size() > 1) {         // several sensors measure at the same instant
    // all measurements of the second sensor move to the nearest time of the first
    std::vector<int64_t> ts; for (auto& x : c.sc.ops) if (kind(x) == n.w.sensors[0].tag) ts.push_back(measTime(n.w, x));
    std::map<int, std::set<int64_t>> used;
    for (auto& x : c.sc.ops) if (kind(x) == n.w.sensors[1].tag && (x.tag != T_PRESS || x.seq % 10 == 0)) { int64_t t = measTime(n.w, x), b = -1; for (int64_t q : ts) if (b < 0 || llabs(q - t) < llabs(b - t)) b = q; if (b >= 0 && llabs(b - t) < 60000000 && used[x.tag].insert(b).second) { x.stamp += b - t; x.at = std::max(x.at, x.at + b - t); x.aux = 3000000; c.fault("equal_stamp"); } else x.kind = OP_NOP; }
    c.sc.ops = without(c.sc, [](const Op& o) { return o.kind == OP_NOP && isMeas(o); }).ops;
    for (auto& x : c.sc.ops) if (isMeas(x) && r.p(.3) && measTime(n.w, x) > n.tInit + 150000000) { x.at += (int64_t)(r.u() * .2e9); c.fault("measurement_late"); }
    sortOps(c.sc.ops); settle(r, n.w, c.sc); return c;
  }
  double pd = r.u(.1, .7); std::vector<Op> add; bool imm = r.p(.4);
  for (auto& x : c.sc.ops) if (isMeas(x) && r.p(pd)) { int k = r.p(.2) ? r.i(2, 4) : 1; for (int j = 0; j < k; ++j) { Op d = x; d.tag |= F_FAULT; d.at = x.at + (imm && r.p(.5) ? 0 : (int64_t)(r.u() * (r.p(.3) ? 1.5 : .2) * 1e9)); if (d.at > end) d.at = end; if (x.at < n.tInit && d.at >= n.tInit) continue; add.push_back(d); c.fault("measurement_duplicated"); } }
  if (variant == 1) for (auto& x : c.sc.ops) if (isMeas(x) && r.p(.4) && measTime(n.w, x) > n.tInit + 150000000) { int64_t k = x.at; x.at = std::min(end, x.at + (int64_t)(r.u() * .4e9)); for (auto& d : add) if (d.name == x.name && d.stamp == x.stamp && d.seq == x.seq && d.at < x.at) d.at = x.at + (d.at - k) / 10; c.fault("measurement_late"); }
  c.sc.ops.insert(c.sc.ops.end(), add.begin(), add.end()); sortOps(c.sc.ops); settle(r, n.w, c.sc);
  return c;
}
static Verdict judgeC02(const Case& c) {
  Verdict v; const Scenario& s = c.sc; Trace t1, t2; ref::Layout l(s.node);
  if (c.variant == 2) {
    Scenario ctl = s; int n = 0; for (auto& x : ctl.ops) if (x.aux) { x.stamp += x.aux; ++n; } if (!n) return Verdict::skip("no equal stamps");
    RefRun f = refRun(s, false); if (f.doubt) return Verdict::skip(f.why); if (f.nFuzzy || f.nNeg) return Verdict::skip("attitude jump");
    if (!runOk(s, t1, v)) return v; refineWithControl(s, t1, ctl, v, "equal-stamp"); return v;
  }
  // premise: the original comes first
  std::set<std::string> orig; std::set<size_t> drop; auto id = [](const Op& o) { return o.name + fmt("/%lld/%u", (long long)o.stamp, o.seq); };
  int init = lastInit(s), at = -1; std::map<std::string, std::string> lastOf;
  Scenario a = s; a.ops.clear(); for (auto& o : s.ops) { ++at; if (isMeas(o)) { std::string& lo = lastOf[o.name]; if ((o.tag & F_FAULT) && at < init && lo != id(o)) continue; lo = id(o); if (!(o.tag & F_FAULT)) orig.insert(id(o)); else if (!orig.count(id(o))) continue; } a.ops.push_back(o); }
  Scenario b = without(a, [](const Op& o) { return (o.tag & F_FAULT) && isMeas(o); });
  if (a.ops.size() == b.ops.size()) return Verdict::skip("no duplicates");
  RefRun f1 = refRun(a), f2 = refRun(b); if (f1.doubt || f2.doubt) return Verdict::skip(f1.doubt ? f1.why : f2.why);
  // duplicates of messages that could not be used the first time are not the subject
  std::map<std::string, int> fo; for (auto& x : f2.fate) fo[id(b.ops[x.first])] = x.second;
  for (auto& x : f1.fate) if ((a.ops[x.first].tag & F_FAULT) && fo[id(a.ops[x.first])] != x.second && (fo[id(a.ops[x.first])] != ref::F_APPLIED || (x.second != ref::F_DUP && x.second != ref::F_HELD))) drop.insert((size_t)x.first);
  if (!drop.empty()) { Scenario k = a; k.ops.clear(); for (size_t i = 0; i < a.ops.size(); ++i) if (!drop.count(i)) k.ops.push_back(a.ops[i]); a = k; f1 = refRun(a); if (f1.doubt) return Verdict::skip(f1.why); }
  // duplicates of the last message before the initialization may change what it starts from
  if (!runOk(b, t2, v) || !runOk(a, t1, v)) return v;
  Hist h1 = oracle::decode(t1, l), h2 = oracle::decode(t2, l);
  Diff d = f1.nHeld || f2.nHeld ? oracle::compareFinal(l, oracle::finalOf(h2), oracle::finalOf(h1), kSame) : oracle::compareHist(l, h2, h1, kSame);
  if (d.bad) { RefRun g = refRun(a, false), g2 = refRun(b, false); if (g.doubt || g2.doubt || g.nFuzzy || g2.nFuzzy) return Verdict::skip("attitude jump"); v.maxi("max:difference", d.worst); return v.bad("duplicate", "duplicated messages change the result: " + d.what, d.op); }
  if (h1.upd.size() != h2.upd.size()) return v.bad("duplicate-update", fmt("%zu updates with duplicates, %zu without", h1.upd.size(), h2.upd.size()));
  v.maxi("max:difference", d.worst);
  if (c.variant == 1) refineWithControl(a, t1, without(aligned(b), [](const Op&) { return false; }), v, "reapplied");
  return v;
}
static Reg r02({"C02", kAll, 3, genC02, judgeC02});

// ------------------------------------------------------------------ C03: refinement of the sequential filter
static Case genC03(Rng& r, const std::string& node, int variant, bool th) {
  Case c; Opt o = vary(r, th, 1, 2.4); o.mahAllowed = true; bool thr = r.p(.5); Nominal n = nominal(r, node, o, !thr); c.sc = n.sc;
  Chaos x = randomChaos(r); x.dup *= .5; if (thr) x.late *= .3; if (variant == 0) x = Chaos();
  if (r.p(.25)) { static const char* sub[] = {"pose_sensor", "position_sensor", "pressure_sensor", "spherical_position_sensor"}; for (auto q : sub) { n.w.params[n.w.ns() + "/" + q + "/enable_mah_outlier_rejection"] = "1"; char b[32]; snprintf(b, sizeof b, "%.3f", r.u(2, 12)); n.w.params[n.w.ns() + "/" + q + "/mah_threshold"] = b; } for (auto& p : n.w.params) c.sc.params[p.first] = p.second; c.fault("gate_enabled"); }
  if (variant != 0) chaos(r, n.w, c, x, n.tInit + 60000000, n.tEnd - 100000000);
  if (variant == 2) {        // run-time changes of noise, delay, fixed states; re-initialization
    dropTies(n.w, c.sc);     // a second measurement of the same instant is not a reason to apply the first one again with the new configuration
    auto at = [&] { return n.tInit + (int64_t)(r.u(.1, .95) * (n.tEnd - n.tInit)); };
    if (r.p(.5)) { c.sc.ops.push_back(n.w.reconf("core_noise_acc", r.logu(.002, .2), at())); c.fault("reconfigure"); }
    if (r.p(.5)) { c.sc.ops.push_back(n.w.reconf("core_noise_gyr", r.logu(.0004, .02), at())); c.fault("reconfigure"); }
    if (r.p(.3)) { c.sc.ops.push_back(n.w.reconf("core_fixed_bias", r.i(0, 1), at())); c.fault("reconfigure"); }
    if (node == "position") { if (r.p(.6)) { c.sc.ops.push_back(n.w.reconf("position_noise_meas", r.logu(.005, .05), at())); c.fault("reconfigure"); } if (r.p(.4)) { c.sc.ops.push_back(n.w.reconf("position_fixed_p_ip", r.i(0, 1), at())); c.fault("reconfigure"); } }
    else if (node == "spherical") { if (r.p(.6)) { c.sc.ops.push_back(n.w.reconf("angle_noise_meas", r.logu(.005, .05), at())); c.fault("reconfigure"); } if (r.p(.6)) { c.sc.ops.push_back(n.w.reconf("distance_noise_meas", r.logu(.005, .05), at())); c.fault("reconfigure"); } }
    else for (const char* k : {"pose_fixed_scale", "pose_fixed_p_ic", "pose_fixed_q_ic", "pose_fixed_q_wv"}) if (r.p(.3)) { c.sc.ops.push_back(n.w.reconf(k, r.i(0, 1), at())); c.fault("reconfigure"); }
    if (r.p(.3)) { c.sc.ops.push_back(n.w.init(at())); c.fault("reinitialized"); }
    sortOps(c.sc.ops);
  }
  if (variant == 3) {        // the same data through the interface for external propagation, which asks the node to propagate
    for (auto& q : c.sc.ops) if (isImu(q)) { std::vector<double> d(6); for (int k = 0; k < 3; ++k) { d[k] = q.num[13 + k]; d[3 + k] = q.num[25 + k]; } d.push_back(16); for (int k = 0; k < 16; ++k) d.push_back(k == 6 ? 1 : r.u(-1, 1)); d.push_back(0); q.num = d; q.name = "/msf_core/hl_state_input"; }
    c.fault("external_interface");
  }
  settle(r, n.w, c.sc);
  if (variant == 3) for (auto& q : c.sc.ops) if (isImu(q) && q.num.size() == 37) { std::vector<double> d(6); for (int k = 0; k < 3; ++k) { d[k] = q.num[13 + k]; d[3 + k] = q.num[25 + k]; } d.push_back(16); for (int k = 0; k < 16; ++k) d.push_back(k == 6 ? 1 : 0); d.push_back(0); q.num = d; q.name = "/msf_core/hl_state_input"; }
  return c;
}
static Verdict judgeC03(const Case& c) {
  Verdict v; Trace t; if (!runOk(c.sc, t, v)) return v; std::string w; int op = -1;
  int a = refine(c.sc, t, true, v, w, op); if (a == 2) return Verdict::skip(w); if (a == 1) v.bad("refinement", w + " (compared with the reference filter)", op);
  return v;
}
static Reg r03({"C03", kAll, 4, genC03, judgeC03});

// ------------------------------------------------------------------ C04: measurements ahead of the IMU
static Case genC04(Rng& r, const std::string& node, int variant, bool th) {
  Case c; Opt o = vary(r, th); Nominal n = nominal(r, node, o); c.sc = n.sc; dropTies(n.w, c.sc); onTime(n.w, c.sc);
  int64_t end = 0; for (auto& x : c.sc.ops) { end = std::max(end, x.at); if (isMeas(x)) x.aux = x.at; }
  if (variant == 0) { double pa = r.u(.1, 1); int64_t mx = (int64_t)(r.p(.3) ? .6e9 : r.u(1, 8) * n.w.imuPeriod); for (auto& x : c.sc.ops) if (isMeas(x) && measTime(n.w, x) > n.tInit + 100000000 && r.p(pa)) { x.at = std::max(n.tInit + 120000000, measTime(n.w, x) - (int64_t)(r.u() * mx)); c.fault("measurement_ahead"); } }
  else { int64_t a = n.tInit + (int64_t)(r.u(.15, .7) * (end - n.tInit)), b = std::min(end - 50000000, a + (int64_t)(r.u(.03, .8) * 1e9)); for (auto& x : c.sc.ops) { if (isImu(x) && x.at >= a && x.at < b) { x.at = b + (x.at - a) / 1000; c.fault("imu_stalled"); } else if (isMeas(x) && x.aux >= a && x.aux < b && measTime(n.w, x) > a) { x.at = measTime(n.w, x) + 1000000; } } }
  int64_t la = 0; for (auto& x : c.sc.ops) if (isImu(x)) { x.at = std::max(x.at, la + 1); la = x.at; }
  sortOps(c.sc.ops); settle(r, n.w, c.sc, 12 + (int)(c.sc.ops.size() / 6)); for (auto& x : c.sc.ops) if (isMeas(x) && !x.aux) x.aux = -1;
  return c;
}
static Scenario alignedImu(const Scenario& s) {         // IMU undisturbed, measurements once covered; the tail (aux = -1) keeps its place
  Scenario b = s; int64_t t0 = 0; for (auto& x : b.ops) if (kind(x) == T_INIT) t0 = x.at;
  std::map<int64_t, int64_t> at; int64_t last = 0;
  for (auto& x : b.ops) {
    if (isImu(x)) { x.at = std::min(x.at, x.stamp + 3000000); at[x.stamp] = x.at; last = std::max(last, x.at); }
    else if (x.aux == -1) x.at = ++last;
  }
  for (auto& x : b.ops) if (isMeas(x) && x.aux != -1 && x.at >= t0 && timeOf(s, x) > t0) { auto it = at.lower_bound(timeOf(s, x)); if (it != at.end()) x.at = it->second + 1000 * (1 + kind(x)); }
  sortOps(b.ops); return b;
}
static Verdict judgeC04(const Case& c) {
  Verdict v; Scenario s = c.sc, b = alignedImu(s);
  for (int pass = 0; pass < 3; ++pass) {
    RefRun f1 = refRun(s), f2 = refRun(b); if (f1.doubt || f2.doubt) return Verdict::skip(f1.doubt ? f1.why : f2.why); if (f2.nHeld) return Verdict::skip("baseline holds"); if (!f1.nHeld) return Verdict::skip("nothing held");
    std::map<std::string, int> fa, fb; for (auto& x : f1.fate) fa[key(s.ops[x.first])] = x.second; for (auto& x : f2.fate) fb[key(b.ops[x.first])] = x.second;
    std::set<std::string> bad; for (auto& x : fb) if (x.second != ref::F_APPLIED && fa[x.first] != x.second) bad.insert(x.first); for (auto& x : fa) if (x.second != fb[x.first]) bad.insert(x.first);
    if (bad.empty()) { v.stat["held"] += (double)f1.nHeld; v.maxi("max:heldAtOnce", (double)f1.maxHeld); break; }
    if (pass == 2) return Verdict::skip("premise");
    auto drop = [&](const Op& o) { return isMeas(o) && bad.count(key(o)); }; s = without(s, drop); b = without(b, drop);
  }
  Trace t1, t2; if (!runOk(b, t2, v) || !runOk(s, t1, v)) return v;
  ref::Layout l(s.node); Hist h1 = oracle::decode(t1, l), h2 = oracle::decode(t2, l);
  // never early, and within a bounded number of IMU samples
  RefRun f = refRun(s); std::vector<int> upd(s.ops.size() + 1, 0); for (auto& u : h1.upd) if (u.op >= 0) ++upd[u.op];
  int64_t newest = 0; long done = 0, due = 0; size_t bound = (size_t)f.maxHeld + 2; std::vector<int64_t> pend; std::vector<long> dueAt; bool fuzzy = false;
  for (size_t k = 0; k < s.ops.size(); ++k) {
    const Op& o = s.ops[k]; done += upd[k];
    if (isImu(o)) newest = std::max(newest, o.stamp);
    if (isMeas(o)) { auto it = f.fate.find((int)k); if (it != f.fate.end() && it->second == ref::F_APPLIED) pend.push_back(timeOf(s, o)); }
    long nd = 0; for (auto x : pend) if (x <= newest + 500) ++nd;
    due = std::max(due, nd);
    if (done > due) { v.bad("early", fmt("%ld measurements fused although the IMU has passed only %ld", done, due), (int)k); break; }
    if (isImu(o)) { dueAt.push_back(due); if (dueAt.size() > bound && done < dueAt[dueAt.size() - 1 - bound]) { v.bad("not-fused", fmt("%ld measurements were due %zu IMU samples ago but only %ld are fused", dueAt[dueAt.size() - 1 - bound], bound, done), (int)k); break; } }
  }
  if (v.st == V_BAD) { RefRun g = refRun(s, false); if (g.doubt) return Verdict::skip(g.why); return v; }
  Diff d = oracle::compareFinal(l, oracle::finalOf(h2), oracle::finalOf(h1), kSame); v.maxi("max:difference", d.worst < 1e8 ? d.worst : 0);
  if (d.bad) { RefRun g = refRun(b, false), g2 = refRun(s, false); fuzzy = g.nFuzzy || g2.nFuzzy || g.nNeg || g.doubt || g2.doubt; if (fuzzy) return Verdict::skip("attitude jump"); return v.bad("held", "measurements ahead of the IMU lead to another result than on-time ones: " + d.what); }
  if (h1.upd.size() != h2.upd.size()) v.bad("held-count", fmt("%zu updates with early delivery, %zu with on-time delivery", h1.upd.size(), h2.upd.size()));
  return v;
}
static Reg r04({"C04", kAll, 2, genC04, judgeC04});

// ------------------------------------------------------------------ C05: unusable measurements have no effect
static Case genC05(Rng& r, const std::string& node, int, bool th) {
  Case c; Opt o = vary(r, th); Nominal n = nominal(r, node, o); c.sc = n.sc; World& w = n.w;
  if (r.p(.5)) chaos(r, w, c, randomChaos(r), n.tInit + 200000000, n.tEnd - 100000000);
  bool outage = r.p(.5); int64_t a = 0, b = 0;
  if (outage) { a = n.tInit + (int64_t)(r.u(.3, .6) * (n.tEnd - n.tInit)); b = a + (int64_t)(r.u(.23, .6) * 1e9); c.sc.ops = without(c.sc, [&](const Op& x) { return (isImu(x) && x.stamp > a && x.stamp < b); }).ops; c.fault("imu_outage"); }
  std::vector<Op> add; auto inject = [&](int64_t t, int64_t at, const char* f) { Sensor& s = w.sensors[r.i(0, (int)w.sensors.size() - 1)]; Sensor q = s; q.sp *= r.p(.5) ? 30 : 1; q.seq = (uint32_t)r.i(1, 20) * 10; Op x = w.meas(r, q, t); x.at = at; x.tag |= F_FAULT; if (r.p(.3)) for (size_t k = 0; k < 3; ++k) x.num[k] += r.u(-5, 5); add.push_back(x); c.fault(f); };
  if (r.p(.6)) for (int k = r.i(1, 3); k > 0; --k) inject(w.t0 - r.i(200, 300) * 1000000, w.t0 - r.i(150, 250) * 1000000, "before_initialization");
  if (r.p(.6)) for (int k = r.i(1, 3); k > 0; --k) inject(w.t0 + r.i(0, 3) * 1000000, w.t0 + 500000, "before_running");
  if (r.p(.7)) for (int k = r.i(1, 6); k > 0; --k) inject(w.t0 - (int64_t)(r.u(.001, r.p(.3) ? 100 : 3) * 1e9), n.tInit + (int64_t)(r.u(.1, .9) * (n.tEnd - n.tInit)), "older_than_history");
  if (outage) for (int k = r.i(1, 4); k > 0; --k) inject(a + 115000000 + (int64_t)(r.u() * (b - a - 230000000)), std::min(n.tEnd, b + (int64_t)(r.u(.05, .5) * 1e9)), "within_imu_outage");
  if (r.p(.3)) {  // a type of message that the configuration excludes
    Op x; x.tag = T_POSE | F_FAULT; x.at = n.tInit + (int64_t)(r.u(.1, .9) * (n.tEnd - n.tInit)); x.stamp = x.at - 30000000; x.num = {1, 2, 3, 0, 0, 0, 1};
    bool cov = c.sc.params.count(w.ns() + "/pose_sensor/pose_use_fixed_covariance") && c.sc.params[w.ns() + "/pose_sensor/pose_use_fixed_covariance"] == "0";
    if ((node == "pose" || node == "pose_pressure" || node == "position_pose") && cov) { x.name = "/msf_updates/pose_input"; add.push_back(x); c.fault("excluded_type"); } }
  c.sc.ops.insert(c.sc.ops.end(), add.begin(), add.end()); sortOps(c.sc.ops); settle(r, w, c.sc);
  return c;
}
static Verdict judgeC05(const Case& c) {
  Verdict v; Scenario s = c.sc;
  auto inj = [](const Op& o) { return (o.tag & F_FAULT) && isMeas(o) && true; };
  for (int pass = 0; pass < 4; ++pass) {
    RefRun f = refRun(s); if (f.doubt) return Verdict::skip(f.why);
    std::set<size_t> drop; int n = 0; int init = -1; for (size_t k = 0; k < s.ops.size(); ++k) if (kind(s.ops[k]) == T_INIT) { init = (int)k; break; }
    for (size_t k = 0; k < s.ops.size(); ++k) if (inj(s.ops[k])) {
      auto it = f.fate.find((int)k); int ft = it == f.fate.end() ? ref::F_NONE : it->second;
      bool ok = ft == ref::F_DISCARDED || ft == ref::F_NOINIT || ft == ref::F_OLD || ft == ref::F_NOSTATE || ft == ref::F_THROTTLED;
      if (ok && (int)k < init) { bool later = false; for (size_t j = k + 1; j < (size_t)init; ++j) if (s.ops[j].name == s.ops[k].name && !inj(s.ops[j]) && (kind(s.ops[j]) != T_PRESS || s.ops[j].seq % 10 == 0) && (s.ops[j].name != "/msf_updates/transform_input" || s.node != "position" || s.ops[j].seq % 5 == 0)) later = true; ok = later; }
      if (!ok) drop.insert(k); else ++n; }
    if (drop.empty()) { if (!n) return Verdict::skip("nothing injected"); v.stat["injected"] += n; break; }
    if (pass == 3) return Verdict::skip("premise");
    Scenario q = s; q.ops.clear(); for (size_t k = 0; k < s.ops.size(); ++k) if (!drop.count(k)) q.ops.push_back(s.ops[k]); s = q;
  }
  Scenario b = without(s, inj); Trace t1, t2; if (!runOk(b, t2, v) || !runOk(s, t1, v)) return v;
  ref::Layout l(s.node); Hist h1 = oracle::decode(t1, l), h2 = oracle::decode(t2, l);
  RefRun f = refRun(s), fb = refRun(b); if (f.doubt || fb.doubt) return Verdict::skip("doubt");
  if (f.nHeld) for (auto* m : {&f.fate, &fb.fate}) for (auto& x : *m) if (x.second == ref::F_HELD) return Verdict::skip("still held at the end");
  // a rejected measurement that was held back first may take the turn of another held one, which is then fused one IMU sample later
  auto e1 = oracle::finalOf(h1), e2 = oracle::finalOf(h2); if (f.nHeld && e1.ok && e2.ok && fabs(e1.t - e2.t) > 1e-6) e1.ok = e2.ok = false;
  Diff d = f.nHeld ? oracle::compareFinal(l, e2, e1, kSame) : oracle::compareHist(l, h2, h1, kSame); v.maxi("max:difference", d.worst < 1e8 ? d.worst : 0);
  if (d.bad) { RefRun g = refRun(s, false); if (g.doubt) return Verdict::skip(g.why); v.bad("rejected", "a measurement that cannot be used has an effect: " + d.what, d.op); }
  return v;
}
static Reg r05({"C05", kAll, 1, genC05, judgeC05});
}
