// Checks about spikes, outlier gates, fixed states and jumps of the vision frame.
#include "check.h"
#include <math.h>
#include <algorithm>
namespace chk {
using namespace world;
static double* acc(Op& o) { return &o.num[o.name == "/msf_core/imu_state_input" ? 25 : 3]; }
// ------------------------------------------------------------------ C12: accelerometer spikes
static Case genC12(Rng& r, const std::string& node, int variant, bool th) {
  Case c; Opt o = vary(r, th, 1.3, 2.4); Nominal n = nominal(r, node, o); c.sc = n.sc; bool ext = variant == 1 || (variant == 2 && r.p(.4));
  if (r.p(.4)) { Chaos x; x.late = r.u(0, .4); x.lossMeas = r.u(0, .2); x.lossImu = r.u(0, .05); chaos(r, n.w, c, x, n.tInit + 60000000, n.tEnd - 100000000); }
  settle(r, n.w, c.sc); if (ext) { toExt(c.sc, false); c.fault("external_interface"); }
  double p = r.p(.3) ? .2 : r.u(.005, .05); int run = 0, most = variant == 2 ? 1 : 1000; double mag = 60;
  for (auto& q : c.sc.ops) if (isImu(q) && q.stamp > n.tInit + 3 * n.w.imuPeriod) {
    if (!run && most && r.p(p)) { --most; run = variant != 2 && r.p(.3) ? r.i(2, 6) : 1; mag = variant == 2 ? r.u(35, 49.9) : r.p(.4) ? r.u(50.01, 55) : r.logu(51, 1e5); }
    if (run) { --run; V3 d(r.n(), r.n(), r.n()); d = d.normalized() * mag; if (r.p(.3)) { int ax = r.i(0, 2); d.setZero(); d[ax] = r.p(.5) ? mag : -mag; } for (int k = 0; k < 3; ++k) acc(q)[k] = d[k]; q.tag |= F_FAULT; c.fault(variant == 2 ? "strong_acceleration" : "imu_spike"); } }
  return c;
}
static Verdict judgeC12(const Case& c) {
  Verdict v; Scenario s = c.sc, b = s; int init = lastInit(s), n = 0, seen = 0; V3 prev(0, 0, 0); int64_t newest = 0; if (init < 0) return Verdict::skip("no initialization");
  for (size_t k = init + 1; k < b.ops.size(); ++k) { Op& o = b.ops[k]; if (!isImu(o)) continue; bool f = o.tag & F_FAULT; if (f && seen < 1) return Verdict::skip("spike first"); if (newest && o.stamp <= newest) { if (f) return Verdict::skip("out of order"); continue; } newest = o.stamp; if (f) { for (int j = 0; j < 3; ++j) acc(o)[j] = prev[j]; ++n; } else prev = V3(acc(o)[0], acc(o)[1], acc(o)[2]); ++seen; if (newest <= s.ops[init].at + 1000) seen = 0; }
  if (!n) return Verdict::skip("no spikes"); RefRun f = refRun(b); if (f.doubt) return Verdict::skip(f.why); if (f.nRebase || f.nStops) return Verdict::skip("gap");
  v.stat["spikes"] += n; ref::Layout l(s.node); Trace t1, t2; if (!runOk(s, t1, v)) return v;
  if (c.variant == 2) { refineWithControl(s, t1, b, v, "strong", true, Tol{.3, .05}); return v; }
  if (!runOk(b, t2, v)) return v; Hist h1 = oracle::decode(t1, l), h2 = oracle::decode(t2, l); Diff d = oracle::compareHist(l, h2, h1, kExact); v.maxi("max:difference", d.worst < 1e8 ? d.worst : 0);
  if (d.bad) return v.bad("spike", "an accelerometer spike changes the estimate: " + d.what, d.op);
  return v;
}
static Reg r12({"C12", kAll, 3, genC12, judgeC12});

// ------------------------------------------------------------------ C13: outlier gate
static Case genC13(Rng& r, const std::string& node, int variant, bool th) {
  Case c; Opt o = vary(r, th, 1.3, 2.6); o.zeroDelay = false; Nominal n = nominal(r, node, o); c.sc = n.sc; World& w = n.w; dropTies(w, c.sc);
  if (variant == 2) { // random threshold, compared with the model
    enableGate(c.sc, w, r.u(1.2, 4)); for (auto& q : c.sc.ops) if (isMeas(q) && q.at > n.tInit && r.p(.2)) { for (size_t k = 0; k < 3 && k < q.num.size(); ++k) q.num[k] += r.u(-.15, .15); c.fault("moderate_outlier"); } c.fault("gate_enabled"); settle(r, w, c.sc); return c; }
  if (variant == 1) { enableGate(c.sc, w, r.logu(30, 1000)); c.fault("gate_enabled"); if (r.p(.5)) { Chaos x; x.late = r.u(0, .5); x.lossMeas = r.u(0, .3); chaos(r, w, c, x, n.tInit + 60000000, n.tEnd - 100000000); } settle(r, w, c.sc); return c; }
  enableGate(c.sc, w, r.u(3, 8)); c.fault("gate_enabled"); std::vector<Op> add;
  // outliers at times of IMU samples, so that the time line is the same with and without them
  std::set<int64_t> used; for (auto& q : c.sc.ops) if (isMeas(q)) used.insert(measTime(w, q));
  for (int k = r.i(1, 12); k > 0; --k) { auto& x = w.sensors[r.next() % w.sensors.size()]; if (x.tag == T_PRESS && r.p(.7)) continue; int64_t t = n.tInit + w.imuPeriod * r.i(6, (int)((n.tEnd - n.tInit - 150000000) / w.imuPeriod)); auto it = used.lower_bound(t - 2200000); if (it != used.end() && *it <= t + 2200000) continue; used.insert(t); Op q = w.meas(r, x, t); if (q.tag == T_PRESS) q.seq = 10 * r.i(1, 50); if (q.name == "/msf_updates/transform_input" && x.tag == T_POS) q.seq = 5 * r.i(1, 50);
    double m = r.logu(5, 1e4); if (kind(q) == T_ANGLE) { q.num[0] += r.u(.8, 1.2) * (q.num[0] > 1.5 ? -1 : 1); q.num[1] += r.u(.8, 1.2) * (q.num[1] > 0 ? -1 : 1); } else if (kind(q) == T_DIST || kind(q) == T_PRESS) q.num[2] += m; else { for (int j = 0; j < 3; ++j) q.num[j] += m * r.u(-1, 1); }
    q.at = t + w.imuLatency + 2000000 + (int64_t)(r.u() * (r.p(.3) ? .3e9 : .03e9)); if (q.at > n.tEnd) q.at = n.tEnd; q.tag |= F_FAULT; add.push_back(q); c.fault("outlier"); }
  if (r.p(.4)) { Chaos x; x.late = r.u(0, .5); x.lossMeas = r.u(0, .3); chaos(r, w, c, x, n.tInit + 60000000, n.tEnd - 100000000); }
  c.sc.ops.insert(c.sc.ops.end(), add.begin(), add.end()); sortOps(c.sc.ops); settle(r, w, c.sc); return c;
}
static Scenario gateOff(const Scenario& s) { Scenario b = s; for (auto& p : b.params) if (p.first.find("enable_mah_outlier_rejection") != std::string::npos) p.second = "0"; return b; }
static Verdict judgeC13(const Case& c) {
  Verdict v; Scenario s = c.sc; ref::Layout l(s.node); Trace t1, t2;
  if (c.variant == 2) { RefRun f = refRun(s, false); if (f.doubt || f.nFuzzy || f.nNeg) return Verdict::skip("doubt"); if (f.gateMargin < 2e-3) return Verdict::skip("gate threshold"); if (!f.nGated) return Verdict::skip("nothing gated"); if (!runOk(s, t1, v)) return v; refineWithControl(s, t1, gateOff(s), v, "gate", false); return v; }
  if (c.variant == 1) { RefRun f = refRun(s, false); if (f.doubt) return Verdict::skip(f.why); if (f.nGated || f.gateMargin < .01) return Verdict::skip("gated"); Scenario b = gateOff(s); if (!runOk(s, t1, v) || !runOk(b, t2, v)) return v; Diff d = oracle::compareHist(l, oracle::decode(t2, l), oracle::decode(t1, l), kExact); v.stat["compared"] += (double)t1.recs.size(); if (d.bad) v.bad("below", "measurements below the gate are not fused as without gating: " + d.what, d.op); return v; }
  auto inj = [](const Op& o) { return (o.tag & F_FAULT) && isMeas(o); };
  for (int pass = 0;; ++pass) {
    RefRun f = refRun(s, false); if (f.doubt) return Verdict::skip(f.why); if (f.gateMargin < .01) return Verdict::skip("gate threshold"); if (f.nFuzzy) return Verdict::skip("attitude jump"); std::set<size_t> drop; int n = 0;
    for (size_t k = 0; k < s.ops.size(); ++k) if (inj(s.ops[k])) { auto it = f.fate.find((int)k); if (it != f.fate.end() && it->second == ref::F_GATED) ++n; else drop.insert(k); }
    if (drop.empty()) { if (!n) return Verdict::skip("nothing gated"); v.stat["gated"] += n; for (auto& x : f.fate) if (x.second == ref::F_HELD) return Verdict::skip("held"); break; }
    if (pass == 2) return Verdict::skip("premise"); Scenario q = s; q.ops.clear(); for (size_t k = 0; k < s.ops.size(); ++k) if (!drop.count(k)) q.ops.push_back(s.ops[k]); s = q; }
  Scenario b = without(s, inj); if (!runOk(b, t2, v) || !runOk(s, t1, v)) return v; Hist h1 = oracle::decode(t1, l), h2 = oracle::decode(t2, l); bool held = refRun(s).nHeld || refRun(b).nHeld;
  Diff d; if (!held) d = oracle::compareHist(l, onlyProps(h2), onlyProps(h1), kSame); if (!d.bad) d = oracle::compareFinal(l, oracle::finalOf(h2), oracle::finalOf(h1), kSame); v.maxi("max:difference", d.worst < 1e8 ? d.worst : 0);
  if (d.bad) v.bad("outlier", "a measurement beyond the gate has an effect: " + d.what, d.op);
  return v;
}
static Reg r13({"C13", kAll, 3, genC13, judgeC13});

// ------------------------------------------------------------------ C14: fixed states
static const char* kFix[][2] = {{"pose_fixed_scale", "L"}, {"pose_fixed_q_wv", "q_wv"}, {"pose_fixed_p_wv", "p_wv"}, {"pose_fixed_q_ic", "q_ic"}, {"pose_fixed_p_ic", "p_ic"}, {"position_fixed_p_ip", "p_ip"}, {"fixed_p_ip", "p_ip"}};
static Case genC14(Rng& r, const std::string& node, int variant, bool th) {
  Case c; Opt o = vary(r, th, 1.3, 3); o.allowFixed = false; Nominal n = nominal(r, node, o); c.sc = n.sc; World& w = n.w; ref::Layout l(node); bool any = false;
  for (auto& f : kFix) { if (!l.find(f[1])) continue; bool sph = !strcmp(f[0], "fixed_p_ip"); if ((node == "spherical") != sph && !strcmp(f[1], "p_ip")) continue; if (r.p(.5)) { c.sc.params[w.cfgNs() + "/" + f[0]] = "1"; any = true; } }
  if (r.p(.3) || !any) c.sc.params[w.ns() + "/core/core_fixed_bias"] = "1";
  // calibration slightly wrong: there is something to be learned
  for (auto& p : c.sc.params) if (p.first.find("/init/p_i") != std::string::npos && r.p(.6)) p.second = fmt("%.9g", atof(p.second.c_str()) + r.u(-.05, .05));
  Chaos x = randomChaos(r); x.swapImu = 0; if (variant) chaos(r, w, c, x, n.tInit + 60000000, n.tEnd - 100000000);
  if (variant && r.p(.3)) { c.sc.ops.push_back(w.init(n.tInit + (int64_t)(r.u(.3, .8) * (n.tEnd - n.tInit)))); c.fault("reinitialized"); sortOps(c.sc.ops); }
  settle(r, w, c.sc); return c;
}
static Verdict judgeC14(const Case& c) {
  Verdict v; const Scenario& s = c.sc; ref::Layout l(s.node); Trace t; RefRun f = refRun(s); if (f.doubt) return Verdict::skip(f.why);
  std::vector<const ref::Field*> fx; for (auto& k : kFix) for (auto& p : s.params) if (p.first.size() > strlen(k[0]) && p.first.compare(p.first.size() - strlen(k[0]) - 1, std::string::npos, std::string("/") + k[0]) == 0 && atof(p.second.c_str()) != 0) if (auto* q = l.find(k[1])) fx.push_back(q);
  bool fb = false; for (auto& p : s.params) if (p.first.find("/core/core_fixed_bias") != std::string::npos && atof(p.second.c_str()) != 0) fb = true;
  std::vector<const ref::Field*> all = fx; if (fb) { all.push_back(l.find("b_w")); all.push_back(l.find("b_a")); } if (all.empty()) return Verdict::skip("nothing fixed");
  if (!runOk(s, t, v)) return v; Hist h = oracle::decode(t, l); ref::Filter m(s); m.quiet = true; std::vector<ref::Expect> ex; size_t u = 0; double worst = 0, cross = 0; int n = 0;
  VX x0; for (size_t k = 0; k < s.ops.size(); ++k) {
    uint64_t in = m.nInits; m.step(s.ops[k], (int)k, ex); if (!m.doubts.empty()) return Verdict::skip(m.doubts[0]); if (m.nInits != in) x0 = m.last().x;
    for (; u < h.upd.size() && h.upd[u].op <= (int)k; ++u) { if (h.upd[u].op < (int)k || x0.size() == 0) continue; ++n;
      for (auto* q : all) { double e = (h.upd[u].x.segment(q->i, q->n) - x0.segment(q->i, q->n)).norm(); if (q->quat) e = std::min(e, (h.upd[u].x.segment(q->i, q->n) + x0.segment(q->i, q->n)).norm()); if (!(e < 1e-9 * (1 + x0.segment(q->i, q->n).norm()))) return v.bad(std::string("moved-") + q->name, fmt("%s is fixed but moved by %.3g from its initial value", q->name, e), (int)k); worst = std::max(worst, e); }
      if (h.upd[u].hasP) for (auto* q : fx) for (int i = 0; i < q->ne; ++i) { for (int j = 0; j < l.n; ++j) if (j < q->e || j >= q->e + q->ne) { double e = fabs(h.upd[u].P(q->e + i, j)); cross = std::max(cross, e); if (e > 1e-10) return v.bad(std::string("correlated-") + q->name, fmt("%s is fixed but its uncertainty is coupled to another state (%.3g)", q->name, e), (int)k); } if (h.upd[u].P(q->e + i, q->e + i) < 1e-4 * (1 - 1e-6)) return v.bad(std::string("variance-") + q->name, fmt("%s is fixed but its variance changed to %.3g", q->name, h.upd[u].P(q->e + i, q->e + i)), (int)k); } } }
  if (!n) return Verdict::skip("no updates"); v.stat["checked.updates"] += n; v.stat["fixed.fields"] += (double)all.size(); v.maxi("max:moved", worst); v.maxi("max:coupling", cross);
  Scenario b = s; for (auto& p : b.params) if (p.first.find("fixed_") != std::string::npos && p.first.find("covariance") == std::string::npos) p.second = "0";
  refineWithControl(s, t, b, v, "remaining"); return v;
}
static Reg r14({"C14", kAll, 2, genC14, judgeC14});

// ------------------------------------------------------------------ C15: jumps of the vision frame
static Case genC15(Rng& r, const std::string& node, int variant, bool th) {
  Case c; Opt o; o.dur = r.u(3.2, th ? 7 : 4.2) + (variant == 2 ? 2 : 0); o.rateLo = 14; o.rateHi = 17; o.worldSensor = true; o.allowFixed = false; o.maxLatency = 5000000; if (variant == 2) { o.randomCfg = false; o.hz = 100; } Nominal n = nominal(r, node, o); World& w = n.w;
  c.sc = n.sc; auto& p = c.sc.params; p[w.cfgNs() + "/pose_noise_q_wv"] = fmt("%.6g", variant == 2 ? r.logu(.05, 1) : r.logu(.05, 1)); w.params = p; onTime(w, c.sc);
  int64_t tj = n.tInit + (int64_t)(r.u(.75, .95) * (n.tEnd - n.tInit)); if (variant == 2) tj -= 1700000000; double ang = variant == 0 ? r.u(.15, .7) : variant == 2 ? r.u(.12, .6) : r.u(.005, .3); V3 ax(r.n(), r.n(), r.n()); ax.normalize(); Q dq(Eigen::AngleAxisd(ang, ax)); bool back = variant != 2 && r.p(.4); int64_t te = back ? tj + (int64_t)(r.u(.05, .25) * 1e9) : INT64_MAX; c.k["jump"] = ang;
  for (auto& q : c.sc.ops) if (kind(q) == T_POSE && measTime(w, q) >= tj && measTime(w, q) < te) {   // the vision frame has turned
    V3 zp(q.num[0], q.num[1], q.num[2]); Q zq(q.num[6], q.num[3], q.num[4], q.num[5]); if (!w.worldSensor) { zq = zq.conjugate(); zp = -(zq * zp); } zp = dq * zp; zq = dq * zq; if (!w.worldSensor) { zp = -(zq.conjugate() * zp); zq = zq.conjugate(); }
    for (int k = 0; k < 3; ++k) q.num[k] = zp[k]; q.num[3] = zq.x(); q.num[4] = zq.y(); q.num[5] = zq.z(); q.num[6] = zq.w(); q.tag |= F_FAULT; c.fault("vision_frame_jump"); }
  // a filter that has been fed a turned frame for long is far from its linearisation: a few updates are enough
  int left = variant == 2 ? r.i(18, 45) : 5; size_t k = 0; for (; k < c.sc.ops.size(); ++k) if (kind(c.sc.ops[k]) == T_POSE && measTime(w, c.sc.ops[k]) >= tj && !left--) break; c.sc.ops.resize(k);
  return c;
}
static Verdict judgeC15(const Case& c) {
  Verdict v; const Scenario& s = c.sc; ref::Layout l(s.node); Trace t; RefRun f = refRun(s, false); if (f.doubt) return Verdict::skip(f.why); int n = 0; for (auto& o : s.ops) n += (o.tag & F_FAULT) != 0; if (!n) return Verdict::skip("no jump");
  if (c.variant == 0 && !f.nFuzzy) return Verdict::skip("not detected by the model either"); if (!runOk(s, t, v)) return v; v.stat["jumps.detected"] += (double)f.nFuzzy; v.maxi("max:jump.updates", (double)f.nFuzzy); if (f.nFuzzy >= 17) v.stat["long.jumps"] += 1;
  Scenario b = without(s, [](const Op& o) { return (o.tag & F_FAULT) && isMeas(o); });
  std::string w; int op = -1; ref::Filter m(s); auto rr = oracle::compareRef(s, t, m, true, Tol{.2, .05}); if (rr.doubt) return Verdict::skip(rr.doubtWhy);
  v.stat["compared.updates"] += (double)rr.comparedUpd; v.maxi("max:deviation", rr.maxX);
  if (rr.d.bad) { Trace tc = run(b); v.mix(tc); if (tc.status != ST_OK) return v; Verdict d; int b0 = refine(b, tc, true, d, w, op); if (b0 == 0) v.bad("jump", rr.d.what + " after a jump of the vision frame (compared with the reference model)", rr.d.op); }
  return v;
}
static Reg r15({"C15", kPose, 3, genC15, judgeC15});
}
