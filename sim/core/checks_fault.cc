// Checks about bad data, restarts and limits: validity, NaN, IMU time jumps, re-initialization, memory, gaps, spikes, gates, fixed states, frame jumps.
#include "check.h"
#include <math.h>
#include <algorithm>
namespace chk {
using namespace world;
static double u01(uint64_t h) { return (double)(h >> 11) * 0x1p-53; }

// ------------------------------------------------------------------ C06: every publication is a valid state with a valid covariance
static Case genC06(Rng& r, const std::string& node, int variant, bool th) {
  Case c; Opt o = vary(r, th, 1.5, 3.5); o.mahAllowed = true; Nominal n = nominal(r, node, o, r.p(.6)); c.sc = n.sc;
  for (int k = 0; k < 1 + variant; ++k) { Chaos x = randomChaos(r); chaos(r, n.w, c, x, n.tInit + (int64_t)(r.u(0, .4) * (n.tEnd - n.tInit)), n.tEnd - 60000000); }
  auto at = [&] { return n.tInit + (int64_t)(r.u(.1, .95) * (n.tEnd - n.tInit)); };
  if (variant) {
    if (r.p(.5)) { c.sc.ops.push_back(n.w.reconf("core_noise_acc", r.logu(.002, .2), at())); c.fault("reconfigure"); }
    if (r.p(.3)) { c.sc.ops.push_back(n.w.reconf("core_fixed_bias", r.i(0, 1), at())); c.fault("reconfigure"); }
    if (r.p(.4)) { c.sc.ops.push_back(n.w.init(at())); c.fault("reinitialized"); }
    if (r.p(.3)) { for (auto& q : c.sc.ops) if (isImu(q) && r.p(.01)) { for (int k = 0; k < 3; ++k) q.num[25 + k] += r.u(-60, 60); c.fault("imu_spike"); } }
    if (r.p(.3)) { for (auto& q : c.sc.ops) if (isMeas(q) && q.at > n.tInit && kind(q) == T_POS && r.p(.1)) { q.num[0] += r.u(-1, 1); c.fault("outlier"); } }
    sortOps(c.sc.ops);
  }
  settle(r, n.w, c.sc); return c;
}
static bool psd(const MX& A, double& low) {              // smallest eigenvalue of the correlation matrix
  int n = A.rows(); MX B(n, n); VX s(n); for (int i = 0; i < n; ++i) { if (!(A(i, i) >= -1e-14)) { low = A(i, i); return false; } s[i] = A(i, i) > 1e-16 ? 1 / sqrt(A(i, i)) : 1e8; }
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) B(i, j) = .5 * (A(i, j) + A(j, i)) * s[i] * s[j];
  Eigen::SelfAdjointEigenSolver<MX> e(B, Eigen::EigenvaluesOnly); low = e.eigenvalues()[0]; return low > -1e-5;
}
static double asym(const MX& A) { double w = 0; for (int i = 0; i < A.rows(); ++i) for (int j = 0; j < i; ++j) w = std::max(w, fabs(A(i, j) - A(j, i)) / (sqrt(fabs(A(i, i) * A(j, j))) + 1e-12)); return w; }
void validPubs(const Scenario& s, const Trace& t, Verdict& v) {
  ref::Layout l(s.node); int tf = t.topicId("/tf"), tp = t.topicId("/msf_core/pose"), to = t.topicId("/msf_core/odometry"), te = t.topicId("/msf_core/ext_state"), ta = t.topicId("/msf_core/pose_after_update"), ts = t.topicId("/msf_core/state_out"), cc = t.topicId("/msf_core/cov_core"), ca = t.topicId("/msf_core/cov_aux");
  double worstQ = 0, worstS = 0, low = 0;
  auto q4 = [&](const double* d, int op, const std::string& nm) { double n = sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2] + d[3] * d[3]); worstQ = std::max(worstQ, fabs(n - 1)); if (!(fabs(n - 1) < 1e-6)) v.bad("quaternion", "quaternion in " + nm + fmt(" has norm %.9g", n), op); };
  auto cov = [&](const MX& P, int op, const std::string& nm) { double a = asym(P), lo = 0; worstS = std::max(worstS, a); if (a > 1e-9) v.bad("symmetry", "covariance in " + nm + fmt(" is not symmetric (%.3g)", a), op); bool ok = psd(P, lo); low = std::max(low, -lo); if (!ok) v.bad("psd", "covariance in " + nm + fmt(" is not positive semi-definite (%.3g)", lo), op); };
  for (auto& r : t.recs) {
    const std::string& nm = t.topics[r.topic]; if (nm == "srv") continue;
    if (!finiteRec(r)) { v.bad("finite", "non-finite number in " + nm, r.op); return; }
    if (r.topic == tp || r.topic == ta) { q4(&r.num[6], r.op, nm); MX P(6, 6); for (int k = 0; k < 36; ++k) P(k / 6, k % 6) = r.num[10 + k]; cov(P, r.op, nm); }
    else if (r.topic == to) { q4(&r.num[6], r.op, nm); MX P(6, 6); for (int k = 0; k < 36; ++k) P(k / 6, k % 6) = r.num[10 + k]; cov(P, r.op, nm); for (int k = 0; k < 36; ++k) P(k / 6, k % 6) = r.num[52 + k]; double a = asym(P); if (a > 1e-9) v.bad("symmetry", "twist covariance in " + nm + fmt(" is not symmetric (%.3g)", a), r.op); }
    else if (r.topic == te) q4(&r.num[6], r.op, nm);
    else if (r.topic == tf) q4(&r.num[6], r.op, nm);
    else if (r.topic == ts) { for (auto& f : l.f) if (f.quat && r.num.size() >= 4u + f.i + 4) q4(&r.num[4 + f.i], r.op, nm + " (" + f.name + ")"); if ((int)r.num[3] != l.N) v.bad("size", fmt("state has %d entries instead of %d", (int)r.num[3], l.N), r.op); }
    else if (r.topic == cc || r.topic == ca) { int n = (int)r.num[3], m = (int)r.num[4]; if (n != m || n != (r.topic == cc ? 15 : l.n - 15)) { v.bad("size", nm + fmt(" is %d by %d", n, m), r.op); return; } MX P(n, n); for (int k = 0; k < n * n; ++k) P(k / n, k % n) = r.num[6 + k]; double a = asym(P); worstS = std::max(worstS, a); if (a > 1e-9) v.bad("symmetry", "covariance in " + nm + fmt(" is not symmetric (%.3g)", a), r.op); }
    if (v.st == V_BAD) return;
  }
  Hist h = oracle::decode(t, l); for (auto& u : h.upd) if (u.hasP) { cov(u.P, u.op, "cov_core, cov_aux, cov_core_aux"); if (v.st == V_BAD) return; }
  v.stat["validated.states"] += (double)(h.upd.size() + h.prop.size()); v.maxi("max:quaternionError", worstQ); v.maxi("max:asymmetry", worstS); v.maxi("max:negativeEigenvalue", low);
}
static Verdict judgeC06(const Case& c) { Verdict v; Trace t; if (!runOk(c.sc, t, v)) return v; validPubs(c.sc, t, v); return v; }
static Reg r06({"C06", kAll, 2, genC06, judgeC06});

// ------------------------------------------------------------------ C07: NaN and infinity
// faulty operations carry F_FAULT; they lie before the last initialization, with a good measurement of each sensor in between
static void tailBeforeInit(Rng& r, World& w, Scenario& s, int64_t t) {  // one more good measurement per sensor shortly before t, and the initialization at t
  int64_t k = 0; for (auto& x : w.sensors) { int reps = (x.tag == T_PRESS ? 10 : x.topic.find("transform") != std::string::npos && x.tag == T_POS ? 5 : 1); for (int j = 0; j < reps; ++j) { Op o = w.meas(r, x, t - 40000000 - 3000000 * k); o.at = t - 2000000 + 1000 * (++k); o.aux = -7; s.ops.push_back(o); } }
  s.ops.push_back(w.init(t)); sortOps(s.ops);
}
static Case genC07(Rng& r, const std::string& node, int variant, bool th) {
  Case c; Opt o = vary(r, th, 1.8, 2.8); Nominal n = nominal(r, node, o); c.sc = n.sc;
  int64_t ti = n.tInit + (int64_t)(r.u(.4, .6) * (n.tEnd - n.tInit)); tailBeforeInit(r, n.w, c.sc, ti);
  static const double bad[] = {NAN, INFINITY, -INFINITY, 1e308, -NAN};
  int which = variant; int cnt = r.i(1, 4); int64_t a = n.tInit + (r.p(.2) ? -300000000 : 50000000);
  std::vector<size_t> cand; for (size_t k = 0; k < c.sc.ops.size(); ++k) { auto& q = c.sc.ops[k]; if (q.at < a || q.at > ti - 10000000 || q.aux == -7) continue; if (which == 0 ? isImu(q) : which == 1 ? isMeas(q) : isImu(q) || isMeas(q)) cand.push_back(k); }
  for (int j = 0; j < cnt && !cand.empty(); ++j) { auto& q = c.sc.ops[cand[r.next() % cand.size()]]; size_t p; if (isImu(q)) p = (r.p(.5) ? 13 : 25) + r.i(0, 2); else p = r.next() % std::min<size_t>(q.num.size(), r.p(.7) ? 7 : 43); q.num[p] = bad[r.i(0, 2)]; if (r.p(.2)) for (auto& z : q.num) z = NAN; q.tag |= F_FAULT; c.fault(isImu(q) ? "nonfinite_imu" : "nonfinite_measurement"); }
  if (variant == 2 && r.p(.5)) chaos(r, n.w, c, randomChaos(r), n.tInit + 50000000, ti - 10000000);
  settle(r, n.w, c.sc); return c;
}
static Verdict judgeC07(const Case& c) {
  Verdict v; auto inj = [](const Op& o) { return (o.tag & F_FAULT) && (isMeas(o) || isImu(o)); }; Scenario b = without(c.sc, inj); if (b.ops.size() == c.sc.ops.size()) return Verdict::skip("nothing injected");
  int i1 = lastInit(c.sc), i2 = lastInit(b); if (i1 < 0) return Verdict::skip("no initialization");
  // the premise: a good measurement of each faulty sensor between the last fault and the initialization
  std::set<std::string> dirty; for (int k = 0; k < i1; ++k) { auto& o = c.sc.ops[k]; if (!isMeas(o)) continue; if (inj(o)) { dirty.insert(o.name); continue; } if (kind(o) == T_PRESS && o.seq % 10) continue; if (o.name == "/msf_updates/transform_input" && kind(o) == T_POS && o.seq % 5) continue; dirty.erase(o.name); }
  if (!dirty.empty()) return Verdict::skip("no good measurement before the initialization"); for (size_t k = i1; k < c.sc.ops.size(); ++k) if (inj(c.sc.ops[k])) return Verdict::skip("fault after initialization");
  Trace t1, t2; if (!runOk(b, t2, v) || !runOk(c.sc, t1, v)) return v;
  int tc = t1.topicId("/msf_core/correction"); for (auto& r : t1.recs) if (r.topic == tc && !finiteRec(r)) return v.bad("correction", "a correction with non-finite content was sent to the external propagation", r.op);
  // once the position is not finite the filter stops: nothing more than what was under way goes out until it is initialized again
  { std::set<int> mute; for (const char* n : {"/msf_core/pose", "/msf_core/odometry", "/msf_core/ext_state"}) if (int k = t1.topicId(n); k >= 0) mute.insert(k);
    int from = -1; std::set<int> ops; for (size_t k = 0; k < c.sc.ops.size(); ++k) if (kind(c.sc.ops[k]) == T_INIT && (int)k <= i1) {      // each initialization begins anew
      from = -1; ops.clear(); int end = i1 + 1; for (size_t j = k + 1; j < c.sc.ops.size() && (int)j <= i1; ++j) if (kind(c.sc.ops[j]) == T_INIT) { end = (int)j; break; }
      for (auto& r : t1.recs) { if (!mute.count(r.topic) || r.op < (int)k || r.op >= end || r.num.size() < 6) continue; bool fine = std::isfinite(r.num[3]) && std::isfinite(r.num[4]) && std::isfinite(r.num[5]); if (!fine && from < 0) { from = r.op; v.stat["poisoned"] += 1; } if (from >= 0 && r.op > from) ops.insert(r.op); }
      if (ops.size() > 2) return v.bad("silent", fmt("the filter does not stop at an estimate that is not finite: %zu more poses are published before it is initialized again", ops.size()), *ops.begin()); } }
  ref::Layout l(c.sc.node); Hist h1 = after(oracle::decode(t1, l), i1), h2 = after(oracle::decode(t2, l), i2);
  for (auto& u : h2.upd) if (!u.x.allFinite()) return Verdict::skip("clean run not finite");
  Diff d = oracle::compareHist(l, h2, h1, kExact); v.maxi("max:difference", d.worst < 1e8 ? d.worst : 0); v.stat["compared"] += (double)h2.order.size();
  if (d.bad) return v.bad("poisoned", "non-finite data from before the re-initialization has an effect after it: " + d.what, d.op);
  return v;
}
static Reg r07({"C07", kAll, 3, genC07, judgeC07});

// ------------------------------------------------------------------ C08: IMU time running backwards
static Case genC08(Rng& r, const std::string& node, int variant, bool th) {
  Case c; Opt o = vary(r, th, 1.8, 3); if (variant == 1) o.hz = r.p(.5) ? 200 : 125; Nominal n = nominal(r, node, o); c.sc = n.sc; World& w = n.w;
  if (variant == 1) {                                     // slightly out of order: late delivery of single samples, repeated samples
    double p = r.u(.02, .3); std::vector<Op> add; for (auto& q : c.sc.ops) if (isImu(q) && q.at > n.tInit + 40000000) { if (r.p(p)) { if (r.p(.5)) { q.at += w.imuPeriod + 100000; q.tag |= F_FAULT; c.fault("imu_reordered"); } else { Op d = q; d.tag |= F_FAULT; d.at += r.p(.5) ? 1 : w.imuPeriod - 1000; if (r.p(.5)) for (int k = 0; k < 3; ++k) { d.num[13 + k] += r.u(-5, 5); d.num[25 + k] += r.u(-5, 5); } add.push_back(d); c.fault("imu_duplicated"); } } }
    c.sc.ops.insert(c.sc.ops.end(), add.begin(), add.end()); sortOps(c.sc.ops); settle(r, w, c.sc); return c;
  }
  // the IMU clock jumps back at tj; the system is initialized again at ti, from then on everything uses the new clock
  int64_t tj = n.tInit + (int64_t)(r.u(.15, .5) * (n.tEnd - n.tInit)), ti = n.tInit + (int64_t)(r.u(.55, .75) * (n.tEnd - n.tInit)); int64_t D = (int64_t)(r.p(.4) ? r.u(.0125, .06) * 1e9 : r.p(.5) ? r.u(.1, 3) * 1e9 : r.logu(3, 1e5) * 1e9);
  D = std::min<int64_t>(D, n.tInit - 50000000000ll) / 1000 * 1000; bool single = r.p(.3), measToo = r.p(.5); bool first = true;
  for (auto& q : c.sc.ops) { if (q.at < tj) continue; if (isImu(q) && q.at < ti) { if (first || !single) { q.stamp -= D; q.tag |= F_FAULT; } first = false; } else if (isMeas(q) && q.at < ti && measToo) q.stamp -= D; }
  c.fault("imu_clock_back"); tailBeforeInit(r, w, c.sc, ti); settle(r, w, c.sc); return c;
}
static Verdict judgeC08(const Case& c) {
  Verdict v; const Scenario& s = c.sc; ref::Layout l(s.node);
  if (c.variant == 1) {
    // samples that do not advance time are to be ignored
    Scenario b = s; b.ops.clear(); int64_t newest = 0; int drop = 0; bool inited = false; for (auto& o : s.ops) { if (kind(o) == T_INIT) { newest = 0; inited = true; } if (isImu(o) && inited) { if (newest && o.stamp <= newest) { if (newest - o.stamp > 9000000) return Verdict::skip("larger step back"); ++drop; continue; } newest = o.stamp; } b.ops.push_back(o); }
    if (!drop) return Verdict::skip("nothing out of order"); v.stat["stale"] += drop; RefRun f = refRun(s); if (f.doubt || f.nStops || f.nRebase) return Verdict::skip("premise");
    Trace t1, t2; if (!runOk(b, t2, v) || !runOk(s, t1, v)) return v; Hist h1 = oracle::decode(t1, l), h2 = oracle::decode(t2, l);
    for (size_t k = 1; k < h1.prop.size(); ++k) if (h1.prop[k].t < h1.prop[k - 1].t - 1e-6) return v.bad("backwards", fmt("estimates move back in time from %.6f to %.6f", h1.prop[k - 1].t, h1.prop[k].t), h1.prop[k].op);
    bool held = f.nHeld || refRun(b).nHeld;
    Diff d = held ? oracle::compareFinal(l, oracle::finalOf(h2), oracle::finalOf(h1), kSame) : oracle::compareHist(l, h2, h1, kSame); v.maxi("max:difference", d.worst < 1e8 ? d.worst : 0);
    if (d.bad) v.bad("stale", "an IMU sample out of order changes the estimate: " + d.what, d.op);
    return v;
  }
  int back = -1, init = -1, n = 0; int64_t newest = 0; bool on = false; size_t k = 0;
  for (; k < s.ops.size(); ++k) { auto& o = s.ops[k]; if (kind(o) == T_INIT) { if (back >= 0) { init = (int)k; break; } on = true; n = 0; newest = 0; } else if (isImu(o) && on) { if (newest && o.stamp < newest - 11000000) { if (back < 0) { if (n < 6) return Verdict::skip("too early"); back = (int)k; } } else if (back < 0) { newest = std::max(newest, o.stamp); ++n; } } }
  if (back < 0) return Verdict::skip("no jump"); { RefRun f = refRun(without(s, [&](const Op& o) { return &o >= &s.ops[back]; })); if (f.doubt || !f.running || f.nStops) return Verdict::skip("premise"); }
  Trace t1, t2; if (!runOk(s, t1, v)) return v; int end = init < 0 ? (int)s.ops.size() : init;
  for (auto& r : t1.recs) if (r.op >= back && r.op < end) return v.bad("not-stopped", "published " + t1.topics[r.topic] + " although IMU time had jumped back and the filter was not initialized again", r.op);
  v.stat["silent.operations"] += end - back; if (init < 0) return v;
  // afterwards like a newly started node
  Scenario b = s; b.ops.clear(); int ib = -1; for (size_t j = 0; j < s.ops.size(); ++j) { auto& o = s.ops[j]; if ((int)j < init && (isImu(o) || kind(o) == T_INIT)) continue; if ((int)j == init) ib = (int)b.ops.size(); b.ops.push_back(o); }
  RefRun f = refRun(b); if (f.doubt) return Verdict::skip(f.why); if (!runOk(b, t2, v)) return v; Hist h1 = after(oracle::decode(t1, l), init), h2 = after(oracle::decode(t2, l), ib);
  Diff d = oracle::compareHist(l, h2, h1, kExact); v.maxi("max:difference", d.worst < 1e8 ? d.worst : 0); v.stat["compared"] += (double)h2.order.size();
  if (d.bad) v.bad("restart", "after re-initialization the filter differs from a newly started one: " + d.what, d.op);
  return v;
}
static Reg r08({"C08", kAll, 2, genC08, judgeC08});

// ------------------------------------------------------------------ C09: re-initialization is a fresh start
static Case genC09(Rng& r, const std::string& node, int variant, bool th) {
  Case c; Opt o = vary(r, th, 2.2, 3.4); o.mahAllowed = true; Nominal n = nominal(r, node, o); c.sc = n.sc; World& w = n.w;
  int64_t ti = n.tInit + (int64_t)(r.u(.35, .75) * (n.tEnd - n.tInit));
  chaos(r, w, c, randomChaos(r), n.tInit + 50000000, ti - 10000000);
  if (r.p(.4)) for (auto& q : c.sc.ops) if (isMeas(q) && q.at < ti - 10000000 && r.p(.1)) { for (size_t k = 0; k < 3 && k < q.num.size(); ++k) q.num[k] += r.u(-30, 30); c.fault("outlier"); }
  if (r.p(.4)) for (int k = r.i(1, 5); k > 0; --k) { auto& x = w.sensors[r.next() % w.sensors.size()]; int64_t t = ti + (int64_t)(r.u(-.1, .8) * 1e9); Op q = w.meas(r, x, t); for (size_t j = 0; j < q.num.size() && j < 3; ++j) q.num[j] += r.u(-2, 2); q.at = ti - 10000000 - r.i(1, 200) * 1000000; q.tag |= F_FAULT; c.sc.ops.push_back(q); c.fault("measurement_far_ahead"); }
  if (r.p(.3)) for (auto& q : c.sc.ops) if (isImu(q) && q.at > n.tInit + 50000000 && q.at < ti - 10000000 && r.p(.02)) { for (int k = 0; k < 3; ++k) q.num[25 + k] += r.u(-100, 100); c.fault("imu_spike"); }
  if (variant == 1) { for (int k = r.i(1, 3); k > 0; --k) { c.sc.ops.push_back(w.init(n.tInit + (int64_t)(r.u(.05, .9) * (ti - n.tInit - 130000000)))); c.fault("reinitialized"); } if (r.p(.5)) { c.sc.ops.push_back(w.reconf("core_noise_acc", r.logu(.002, .1), n.tInit + (int64_t)(r.u() * (ti - n.tInit)))); c.fault("reconfigure"); } }
  sortOps(c.sc.ops); tailBeforeInit(r, w, c.sc, ti);
  if (r.p(.4)) for (auto& q : c.sc.ops) if (isMeas(q) && q.at < ti - 10000000 && q.at > n.tInit && r.p(.05)) { q.at = ti + r.i(1, 200) * 1000000; c.fault("measurement_late"); }
  sortOps(c.sc.ops); settle(r, w, c.sc); return c;
}
static Verdict judgeC09(const Case& c) {
  Verdict v; const Scenario& s = c.sc; int init = lastInit(s); if (init < 0) return Verdict::skip("no initialization"); ref::Layout l(s.node);
  // what the initialization starts from: the last effective measurement of each topic
  std::map<std::string, int> last; for (int k = 0; k < init; ++k) { auto& o = s.ops[k]; if (isMeas(o) && !(kind(o) == T_PRESS && o.seq % 10) && !(o.name == "/msf_updates/transform_input" && kind(o) == T_POS && o.seq % 5)) last[o.name] = k; }
  std::set<int> keep; for (auto& x : last) keep.insert(x.second);
  Scenario b = s; b.ops.clear(); int ib = -1; for (int k = 0; k < (int)s.ops.size(); ++k) { auto& o = s.ops[k]; if (k < init && !(keep.count(k) || (o.kind == OP_RECONF && kind(o) != T_INIT))) continue; if (k == init) ib = (int)b.ops.size(); b.ops.push_back(o); }
  if (b.ops.size() == s.ops.size()) return Verdict::skip("nothing before");
  RefRun f = refRun(b); if (f.doubt) return Verdict::skip(f.why);
  Trace t1, t2; if (!runOk(b, t2, v) || !runOk(s, t1, v)) return v; Hist h1 = after(oracle::decode(t1, l), init), h2 = after(oracle::decode(t2, l), ib);
  Diff d = oracle::compareHist(l, h2, h1, kExact); v.maxi("max:difference", d.worst < 1e8 ? d.worst : 0); v.stat["compared"] += (double)h2.order.size();
  if (d.bad) return v.bad("restart", "what happened before the initialization has an effect after it: " + d.what, d.op);
  // every message of the restart, e.g. what is sent to the external propagation
  auto core = [&](const Trace& t, int from) { std::vector<const Rec*> o; int tc = t.topicId("/msf_core/correction"); for (auto& r : t.recs) if (r.topic == tc && r.op >= from) o.push_back(&r); return o; };
  auto c1 = core(t1, init), c2 = core(t2, ib); if (c1.size() != c2.size()) return v.bad("corrections", fmt("%zu corrections after the initialization instead of %zu", c1.size(), c2.size()));
  return v;
}
static Reg r09({"C09", kAll, 2, genC09, judgeC09});

// ------------------------------------------------------------------ C10: bounded history
static Case genC10(Rng& r, const std::string& node, int variant, bool th) {
  Case c; Opt o; o.hz = variant == 0 ? 50 : 20; o.dur = variant == 0 ? 205 : r.u(75, 100); o.rateLo = 1; o.rateHi = variant == 0 ? 6 : 2; o.motion = .7; o.allowFixed = false; Nominal n = nominal(r, node, o); c.sc = n.sc; World& w = n.w; (void)th;
  if (w.imuPeriod <= 20000000) for (auto& x : w.sensors) if (x.tag == T_PRESS) {}    // pressure comes with every IMU sample, one in ten is used
  c.sc.subs = {{"/msf_core/pose", 0}, {"/msf_core/odometry", 0}, {"/msf_core/ext_state", 0}, {"/msf_core/cov_core", 0}, {"/msf_core/cov_aux", 0}, {"/msf_core/cov_core_aux", 0}, {"/msf_core/pose_after_update", 0}, {"/msf_core/correction", 0}};
  if (variant == 0) {                                    // memory over uptime with some mix of inputs
    int mix = r.i(0, 6); int64_t cut = n.tInit + 3000000000ll; c.k["mix"] = mix;
    if (mix == 0) { c.sc.ops = without(c.sc, [&](const Op& q) { return isMeas(q) && q.at > cut; }).ops; c.fault("measurements_cease"); }
    if (mix == 1) for (auto& q : c.sc.ops) if (isMeas(q) && q.at > cut) { q.at += (int64_t)(r.u() * 2e9); c.fault("measurement_late"); }
    if (mix == 2) for (auto& q : c.sc.ops) if (isMeas(q) && q.at > cut && r.p(.5)) { q.stamp -= 200000000000ll; c.fault("measurement_too_old"); }
    if (mix == 3) { std::vector<Op> add; for (auto& q : c.sc.ops) if (isMeas(q) && q.at > cut && r.p(.5)) { Op d = q; d.at += (int64_t)(r.u() * 1e9); add.push_back(d); c.fault("measurement_duplicated"); } c.sc.ops.insert(c.sc.ops.end(), add.begin(), add.end()); }
    if (mix == 4) for (auto& q : c.sc.ops) if (isMeas(q) && q.at > cut) { q.at = std::max(cut, measTime(w, q) - (int64_t)(r.u() * 3 * w.imuPeriod)); c.fault("measurement_ahead"); }
    if (mix == 5) { enableGate(c.sc, w, 3); for (auto& q : c.sc.ops) if (isMeas(q) && q.at > cut && r.p(.7)) { for (size_t k = 0; k < 3 && k < q.num.size(); ++k) q.num[k] += 50; c.fault("outlier"); } }
    if (mix == 6) { int64_t l = (int64_t)(r.u(1.1, 2.5) * 1e9); for (auto& q : c.sc.ops) if (isImu(q) && q.at > cut) { q.at += l; c.fault("imu_late"); } }   // some measurement always waits for the IMU
    sortOps(c.sc.ops); int64_t next = n.tInit + 60000000000ll; std::vector<Op> out; for (auto& q : c.sc.ops) { while (q.at >= next) { Op m; m.kind = OP_MEM; m.at = m.stamp = next; m.tag = T_PROBE; out.push_back(m); next += 2500000000ll; } out.push_back(q); } c.sc.ops = out; return c;
  }
  // a few measurements that are 25 to 52 s late
  dropTies(w, c.sc); onTime(w, c.sc); int64_t end = 0; for (auto& q : c.sc.ops) { end = std::max(end, q.at); if (isMeas(q)) q.aux = q.at; } int cnt = r.i(1, 4); std::vector<size_t> cand; for (size_t k = 0; k < c.sc.ops.size(); ++k) if (isMeas(c.sc.ops[k]) && !(kind(c.sc.ops[k]) == T_PRESS && c.sc.ops[k].seq % 10) && c.sc.ops[k].at > n.tInit + 500000000 && c.sc.ops[k].at < end - 30000000000ll) cand.push_back(k);
  for (int j = 0; j < cnt && !cand.empty(); ++j) { auto& q = c.sc.ops[cand[r.next() % cand.size()]]; int64_t l = (int64_t)(r.u(25, 52) * 1e9); if (q.aux + l > end) l = end - q.aux; q.at = q.aux + l; c.fault("measurement_half_a_minute_late"); }
  sortOps(c.sc.ops); settle(r, w, c.sc); for (auto& x : c.sc.ops) if (isMeas(x) && !x.aux) x.aux = x.at; return c;
}
static Verdict judgeC10(const Case& c) {
  Verdict v; const Scenario& s = c.sc; Trace t;
  if (c.variant == 0) {
    if (!runOk(s, t, v)) return v; int init = lastInit(s); if (init < 0 || t.mem.size() < 50) return Verdict::skip("too short"); size_t imu = 0; for (size_t k = init; k < s.ops.size(); ++k) imu += isImu(s.ops[k]); if (imu < 8000) return Verdict::skip("too few samples");
    // windows of 25 s, the history is held for about 60 s
    auto peak = [&](size_t a, size_t b) { uint64_t m = 0; for (size_t k = a; k < b && k < t.mem.size(); ++k) m = std::max(m, t.mem[k].second); return (double)m; };
    size_t n = t.mem.size(); double early = peak(8, 18), late = peak(n - 10, n); v.stat["memory.MB"] += late / 1e6; v.maxi("max:growth", late / early);
    if (late > 1.12 * early + 500000) v.bad("growth", fmt("memory in use grows with uptime: %.1f MB after 80 to 105 s, %.1f MB after 180 to 205 s", early / 1e6, late / 1e6));
    return v;
  }
  Scenario b = s; for (auto& x : b.ops) if (isMeas(x) && x.aux) x.at = x.aux; sortOps(b.ops); RefRun f1 = refRun(s), f2 = refRun(b); if (f1.doubt || f2.doubt) return Verdict::skip("doubt"); int late = 0;
  auto key = [](const Op& o) { return o.name + fmt("/%lld/%u", (long long)o.stamp, o.seq); }; std::map<std::string, int> fb; for (auto& x : f2.fate) fb[key(b.ops[x.first])] = x.second; for (auto& x : f1.fate) { if (fb[key(s.ops[x.first])] != x.second) return Verdict::skip("premise"); if (x.second == ref::F_APPLIED && s.ops[x.first].at > s.ops[x.first].aux + 20000000000ll) ++late; }
  if (!late) return Verdict::skip("nothing late"); Trace t2; if (!runOk(b, t2, v) || !runOk(s, t, v)) return v; ref::Layout l(s.node); v.stat["late"] += late;
  for (auto& x : b.subs) (void)x; Hist h1 = oracle::decode(t, l), h2 = oracle::decode(t2, l); if (h1.upd.empty() || h2.upd.empty()) return Verdict::skip("no updates");
  for (auto& u : h2.upd) if (!u.x.allFinite() || u.x.head(6).norm() > 1e5) return Verdict::skip("diverged");    // an initialization far from the truth
  if (h1.upd.size() != h2.upd.size()) return v.bad("dropped", fmt("%zu updates when some measurements are up to 52 s late, %zu when they are on time", h1.upd.size(), h2.upd.size()));
  MX P = MX::Identity(l.n, l.n) * 1e-6; double e = oracle::stateErr(l, h1.upd.back().x, h2.upd.back().x, P); v.maxi("max:difference", e);
  if (e > 1e-3) { RefRun g = refRun(s, false), g2 = refRun(b, false); if (g.doubt || g.nFuzzy || g.nNeg || g2.nFuzzy || g2.nNeg) return Verdict::skip("attitude jump"); v.bad("late", fmt("a measurement that is less than a minute late changes the result by %.3g", e * 1e-3)); }
  return v;
}
static Reg r10({"C10", kAll, 2, genC10, judgeC10, false});

// ------------------------------------------------------------------ C11: gap between initialization and IMU data
static Case genC11(Rng& r, const std::string& node, int variant, bool th) {
  Case c; Opt o = vary(r, th, 1.4, 2.2); Nominal n = nominal(r, node, o); c.sc = n.sc; World& w = n.w; int64_t T = 0;
  if (variant == 2) {     // some samples are propagated, then the gap; compared with the model
    int64_t g = (int64_t)(r.u(.12, 1.2) * 1e9), a = n.tInit + w.imuPeriod * r.i(1, 2) + w.imuPeriod / 2; c.sc.ops = without(c.sc, [&](const Op& q) { return isImu(q) && q.stamp > a && q.stamp < a + g; }).ops; c.fault("gap_after_first_samples"); settle(r, w, c.sc); return c;
  }
  if (variant == 3) {     // no gap: less than 0.1 s
    int64_t g = (int64_t)(r.u(.02, .092) * 1e9); c.sc.ops = without(c.sc, [&](const Op& q) { return isImu(q) && q.stamp > n.tInit - 20000000 && q.stamp < n.tInit + g; }).ops; c.fault("short_gap"); settle(r, w, c.sc); return c;
  }
  bool ext = variant >= 4; int64_t gap = (int64_t)(r.p(.5) ? r.u(.15, 1) * 1e9 : r.logu(1, variant ? 3000 : 100) * 1e9); if (ext) gap = (int64_t)(1e9 * (variant == 5 ? r.u(.15, 4.9) : r.p(.5) ? r.u(5.1, 8) : r.logu(6, 100))); bool back = variant == 1 || (ext && r.p(.3)); gap = gap / 1000000 * 1000000; if (back) gap = std::min<int64_t>(gap, n.tInit - 60000000000ll);
  // IMU after the initialization only; the stream starts at T
  T = n.tInit; c.sc.ops = without(c.sc, [&](const Op& q) { return (isImu(q) && q.stamp < T) || (isMeas(q) && q.at >= n.tInit - 1 && q.at <= n.tInit + 140000000); }).ops;
  for (auto& q : c.sc.ops) if (isImu(q) && q.stamp >= T && q.at <= T + 130000000) q.at = T + 130000000 + (q.stamp - T) / 10;   // delivered after the pause of the initialization
  int64_t la = 0; for (auto& q : c.sc.ops) if (isImu(q)) { q.at = std::max(q.at, la + 1); la = q.at; } sortOps(c.sc.ops);
  std::vector<Op> iso; if (!ext && r.p(.5)) { int64_t cur = !back ? T - gap : T + gap; for (int k = r.i(1, 4); k > 0; --k) { int64_t t = T + (int64_t)(r.u(-1, 1) * 50e9) / 1000000 * 1000000; if (llabs(t - cur) < 150000000 || llabs(t - T) < 200000000 || t < 20000000000ll) continue; Op q = w.imu(r, T); q.stamp = t; q.tag |= F_FAULT; iso.push_back(q); cur = t; c.fault("isolated_sample"); } }
  // A: initialized gap earlier (variant 0) or later on the clock (variant 1)
  int64_t ta = !back ? T - gap : T + gap; Scenario& s = c.sc; for (auto& q : s.ops) { if (kind(q) == T_INIT) { q.aux = T; q.at = q.stamp = ta; } else if (q.at < T) q.at -= (!back ? gap : -gap); else if (back) q.at += gap; }
  if (!back) s.start = std::min(s.start, T - gap - 500000000);
  int64_t k = 0; for (auto& q : iso) { q.at = ta + 115000000 + (++k) * 1000; s.ops.push_back(q); } for (auto& q : s.ops) if (kind(q) != T_INIT && q.at > ta && !(q.tag & F_FAULT)) q.at = std::max(q.at, ta + 120000000);
  sortOps(s.ops); c.k["T"] = 1e-9 * T; c.fault(back ? "imu_clock_behind" : "imu_starts_late"); settle(r, w, s); if (ext) { toExt(s, r.p(.3)); s.ops = without(s, [&](const Op& q) { return isMeas(q) && q.at > ta; }).ops; c.fault("external_interface"); } return c;
}
static Verdict judgeC11(const Case& c) {
  Verdict v; const Scenario& s = c.sc; ref::Layout l(s.node); Trace t1, t2; RefRun f = refRun(s, false); if (f.doubt) return Verdict::skip(f.why);
  if (c.variant >= 2) {
    if ((c.variant & 1) == 0 ? !f.nRebase : f.nRebase) return Verdict::skip("premise"); if (!runOk(s, t1, v)) return v; int init = lastInit(s); if (init < 0) return Verdict::skip("no initialization");
    // control: the initialization directly before the stream
    Scenario b = s; int64_t fst = 0; if (c.variant >= 4) { int64_t T = s.ops[init].aux, ta = s.ops[init].at; b = without(s, [&](const Op& o) { return isMeas(o) && o.at > ta && o.at < ta + 130000000; }); int64_t d = T - 1000000 - ta; b.start = std::min(s.start, T - 1000000000); for (auto& o : b.ops) { o.at += d; if (kind(o) == T_INIT) o.stamp = o.at; } } else if (c.variant == 2) { int64_t prev = s.ops[init].at; for (auto& o : s.ops) if (isImu(o) && o.stamp > s.ops[init].at) { if (o.stamp - prev > 100000000) fst = o.stamp; prev = o.stamp; } } else for (auto& o : s.ops) if (isImu(o) && o.stamp > s.ops[init].at && !fst) fst = o.stamp;
    if (fst) { b = without(s, [&](const Op& o) { return (isImu(o) && o.stamp < fst) || (isMeas(o) && o.at > s.ops[init].at && o.at < fst); }); for (auto& o : b.ops) if (kind(o) == T_INIT) o.at = o.stamp = fst - 1000000; sortOps(b.ops); }
    refineWithControl(s, t1, b, v, "gap", true, c.variant >= 4 ? Tol{.1, .05} : Tol()); return v;
  }
  if (!f.nRebase) return Verdict::skip("no gap"); int init = lastInit(s); if (init < 0) return Verdict::skip("no initialization");
  // B: initialized at the time of the last gap, without what was only there to be skipped. The last gap ends at the first sample of the stream.
  int64_t T = s.ops[init].aux; int first = -1; for (int k = init; k < (int)s.ops.size(); ++k) if (isImu(s.ops[k]) && !(s.ops[k].tag & F_FAULT)) { first = k; break; } if (first < 0 || s.ops[first].stamp != T) { if (first < 0) return Verdict::skip("no stream"); T = s.ops[first].stamp; }
  { RefRun g = refRun([&] { Scenario q = s; q.ops.resize(first + 1); return q; }()); if (g.doubt || g.running) return Verdict::skip("premise"); RefRun h = refRun([&] { Scenario q = s; q.ops.resize(first); return q; }()); if (h.doubt || g.nRebase != h.nRebase + 1) return Verdict::skip("premise"); }
  Scenario b = s; b.ops.clear(); int64_t ta = s.ops[init].at; b.start = T - 1000000000; int fb = -1; for (int k = 0; k < (int)s.ops.size(); ++k) { Op o = s.ops[k]; if (k > init && k < first) { if (isMeas(o)) return Verdict::skip("measurement in the gap"); continue; } if (k < init) o.at = T - 500000 ; if (k == init) { o.at = o.stamp = T; } if (k > init) { o.at = T + 120000000 + (o.at - ta); } if (k == first) fb = (int)b.ops.size(); b.ops.push_back(o); }
  RefRun g = refRun(b, false); if (g.doubt || g.nRebase) return Verdict::skip("premise of the comparison"); if (!runOk(b, t2, v) || !runOk(s, t1, v)) return v;
  Hist h1 = after(oracle::decode(t1, l), first), h2 = after(oracle::decode(t2, l), fb); if (h1.order.size() < oracle::decode(t1, l).order.size()) return v.bad("gap-published", "an estimate was published before the gap ended", first);
  Diff d = oracle::compareHist(l, h2, h1, kExact); v.maxi("max:difference", d.worst < 1e8 ? d.worst : 0); v.stat["compared"] += (double)h2.order.size();
  if (d.bad) v.bad("gap", "the start after a gap differs from an initialization at that time: " + d.what, d.op);
  return v;
}
static Reg r11({"C11", kAll, 6, genC11, judgeC11});
}
