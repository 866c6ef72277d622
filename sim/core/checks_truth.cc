// Checks against the simulated truth, and of the independence from the absolute frame.
#include "check.h"
#include <math.h>
#include <string.h>
#include <algorithm>
namespace chk {
using namespace world;
// ------------------------------------------------------------------ C21: convergence to the truth
// The true motion is carried by the case as probes (operations without effect on the node).
static void addProbes(const World& w, Scenario& s, int64_t from, int64_t every) {
  std::vector<Op> add; int64_t next = from; for (auto& q : s.ops) if (isImu(q) && q.stamp >= next) { next = q.stamp + every; Op o; o.kind = OP_NOP; o.at = q.at; o.stamp = q.stamp; o.tag = T_PROBE; V3 p = w.truthP(q.stamp), v = w.truthV(q.stamp); Q a = w.truthQ(q.stamp); o.num = {p[0], p[1], p[2], a.w(), a.x(), a.y(), a.z(), v[0], v[1], v[2]}; add.push_back(o); }
  s.ops.insert(s.ops.end(), add.begin(), add.end()); sortOps(s.ops);
}
static Case genC21(Rng& r, const std::string& node, int variant, bool th) {
  Case c; Opt o; o.dur = th ? r.u(8, 30) : r.u(7, 12); o.allowFixed = false; o.worldSensor = true; o.maxLatency = 60000000; o.motion = r.u(.8, 1.3); o.biasA = .005; o.biasW = 0; o.plain = true; o.hz = r.p(.5) ? 100 : 200; o.rateLo = 10; o.rateHi = 20; Nominal n = nominal(r, node, o); World& w = n.w; c.sc = n.sc; auto& p = c.sc.params;
  // the filter is told what it cannot observe, and otherwise starts with errors that its initial covariance admits
  if (node != "position" && node != "spherical" && node != "position_pose") { if (r.p(.7)) { p[w.cfgNs() + "/pose_fixed_p_wv"] = "1"; p[w.cfgNs() + "/pose_fixed_q_wv"] = "1"; } }
  for (auto& kv : p) { if (hasSuffix(kv.first, "/pose_initial_scale")) kv.second = fmt("%.9g", w.L * (1 + .01 * r.n())); if (kv.first.find("/init/p_i") != std::string::npos) kv.second = fmt("%.9g", atof(kv.second.c_str()) + .008 * r.n()); if (hasSuffix(kv.first, "yaw_init")) kv.second = fmt("%.9g", atof(kv.second.c_str()) + (node == "position_pose" ? .2 : 1.) * r.n()); }
  for (auto k : {"pose_noise_scale", "pose_noise_p_wv", "pose_noise_q_wv", "pose_noise_p_ic", "pose_noise_q_ic", "position_noise_p_ip", "noise_p_ip"}) p.erase(w.cfgNs() + "/" + k);
  int64_t a = n.tInit + 500000000, b = n.tInit + (int64_t)(.5e9 * o.dur), end = n.tEnd;
  if (variant) { Chaos x; x.lossMeas = r.p(.5) ? r.u(.1, .8) : 0; x.late = r.p(.6) ? r.u(0, .7) : 0; x.dup = r.p(.4) ? r.u(0, .5) : 0; x.lossImu = r.p(.4) ? r.u(0, .03) : 0; x.burst = r.p(.3) ? r.u(.05, .5) : 0; x.ahead = r.p(.3) ? r.u(0, .5) : 0; x.maxLate = r.p(.3) ? 2 : .4; chaos(r, w, c, x, a, b);
    if (r.p(.5)) { int64_t o0 = a + (int64_t)(r.u() * (b - a)), o1 = std::min(b, o0 + (int64_t)(r.u(.2, 3) * 1e9)); std::vector<Op> keep; for (auto& q : c.sc.ops) if (isMeas(q) && q.at >= o0 && q.at < o1) c.fault("measurement_outage"); else keep.push_back(q); c.sc.ops = keep; } }
  c.k["from"] = 1e-9 * (double)((variant ? b + 2500000000ll : n.tInit + 3000000000ll) - n.tInit); c.k["t0"] = (double)n.tInit; addProbes(w, c.sc, n.tInit + 500000000, 50000000); (void)end; return c;
}
static Verdict judgeC21(const Case& c) {
  Verdict v; const Scenario& s = c.sc; ref::Layout l(s.node); Trace t; if (!runOk(s, t, v)) return v; Hist h = oracle::decode(t, l); if (h.prop.empty() || h.upd.empty()) return Verdict::skip("nothing published"); RefRun f = refRun(s); if (f.doubt && f.why.find("threshold") == std::string::npos) return Verdict::skip(f.why); if (f.nStops || f.nRebase) return Verdict::skip("stopped");
  std::map<int64_t, const oracle::Prop*> at; for (auto& p : h.prop) at[(int64_t)llround(p.t * 1e5)] = &p; double from = c.knob("t0") + 1e9 * c.knob("from"); double wp = 0, wq = 0, rp = 0, rq = 0, ep = 0, eq = 0; int n = 0, bad = -1;
  // was the fault period survived with enough data afterwards?
  std::map<int, int> used; for (size_t k = 0; k < s.ops.size(); ++k) if (isMeas(s.ops[k]) && (double)s.ops[k].at > from - 2.5e9) { auto it = f.fate.find((int)k); if (it != f.fate.end() && it->second == ref::F_APPLIED) ++used[kind(s.ops[k])]; } if (used.empty()) return Verdict::skip("no data");
  for (size_t k = 0; k < s.ops.size(); ++k) { const Op& o = s.ops[k]; if (kind(o) != T_PROBE || (double)o.stamp < from) continue; auto it = at.find((int64_t)llround(sim::sec(o.stamp) * 1e5)); if (it == at.end()) continue; const oracle::Prop& p = *it->second; V3 d = p.p - V3(o.num[0], o.num[1], o.num[2]); Q q(o.num[3], o.num[4], o.num[5], o.num[6]); Q e = q.conjugate() * p.q; if (e.w() < 0) e.coeffs() *= -1; V3 a = 2 * e.vec(); ++n;
    for (int j = 0; j < 3; ++j) { double sp = sqrt(p.pc(j, j)) + .004, sq = sqrt(p.pc(3 + j, 3 + j)) + .002, x = fabs(d[j]) / sp, y = fabs(a[j]) / sq; rp += x * x; rq += y * y; if (x > wp) { wp = x; bad = (int)k; } wq = std::max(wq, y); ep = std::max(ep, fabs(d[j])); eq = std::max(eq, fabs(a[j])); } }
  if (n < 5) return Verdict::skip("too short"); rp = sqrt(rp / (3 * n)); rq = sqrt(rq / (3 * n)); v.stat["probes"] += n; v.maxi("max:position.sigmas", wp); v.maxi("max:attitude.sigmas", wq); v.maxi("max:position.rms", rp); v.maxi("max:attitude.rms", rq); v.maxi("max:position.error", ep); v.maxi("max:attitude.error", eq);
  if (getenv("C21_PRINT")) printf("  %-14s var %d rms p %.2f q %.2f worst p %.2f q %.2f  err %.3f m %.4f rad\n", s.node.c_str(), c.variant, rp, rq, wp, wq, ep, eq);
  // A filter that linearizes and starts with errors is somewhat too sure of itself; the limits leave a factor of two above the worst of thousands of healthy runs.
  double tp = s.node == "pose" ? 5 : s.node == "position" ? 3 : s.node == "pose_pressure" ? 8 : s.node == "position_pose" ? 6 : 4, tq = s.node == "position_pose" ? 10 : 4;
  if (rp > tp || wp > 3 * tp) return v.bad("position", fmt("the position stays %.1f (rms) / %.1f (worst) reported standard deviations away from the truth", rp, wp), bad);
  if (rq > tq || wq > 3 * tq) return v.bad("attitude", fmt("the attitude stays %.1f (rms) / %.1f (worst) reported standard deviations away from the truth", rq, wq), bad);
  return v;
}
static Reg r21({"C21", kAll, 2, genC21, judgeC21});
// ------------------------------------------------------------------ C26: relative pose measurements
static Case genC26(Rng& r, const std::string& node, int variant, bool th) {
  Case c; Opt o = vary(r, th, 1.2, 2.6); Nominal n = nominal(r, node, o); World& w = n.w; c.sc = n.sc; int64_t from = n.tInit + 60000000, to = n.tEnd - 100000000; c.sc.params[w.ns() + "/pose_sensor/pose_absolute_measurements"] = "0"; c.k["init"] = (double)n.tInit; c.k["world"] = w.worldSensor;
  double scale = r.p(.3) ? 100 : r.p(.5) ? 5 : .5; for (int k = 0; k < 3; ++k) { c.k[fmt("t%d", k)] = scale * r.n(); c.k[fmt("a%d", k)] = r.p(.2) ? 0 : r.n(); } c.fault("frame_offset");
  if (variant == 1) {          // one pose measurement after each initialization, at any point of the IMU data
    int ni = r.i(1, 3); std::vector<int64_t> inits = {n.tInit}; for (int k = 1; k < ni; ++k) { int64_t at = from + (int64_t)(r.u() * (to - from)); Op q = w.init(at); c.sc.ops.push_back(q); inits.push_back(at); c.fault("reinitialization"); } sortOps(c.sc.ops); std::sort(inits.begin(), inits.end());
    std::vector<Op> keep; std::map<int, std::vector<Op>> by; for (auto& q : c.sc.ops) { if (kind(q) != T_POSE || q.at <= n.tInit) { keep.push_back(q); continue; } int seg = 0; for (size_t k = 0; k < inits.size(); ++k) if (q.at > inits[k] + 200000000) seg = (int)k + 1; if (seg) by[seg].push_back(q); }
    for (auto& b : by) { Op q = r.pick(b.second); q.tag |= F_FAULT; for (int j = 0; j < 3; ++j) q.num[j] += c.k[fmt("t%d", j)]; if (r.p(.9)) q.at += (int64_t)(r.u(.03, .2) * 1e9); keep.push_back(q); if (r.p(.3)) { q.at += (int64_t)(r.u(0, .3) * 1e9); keep.push_back(q); c.fault("duplicate"); } } sortOps(keep); c.sc.ops = keep; return c; }
  if (r.p(.7)) { Chaos x; x.late = r.p(.6) ? r.u(0, .7) : 0; x.lossMeas = r.p(.5) ? r.u(0, .4) : 0; x.dup = r.p(.4) ? r.u(0, .3) : 0; x.ahead = r.p(.4) ? r.u(0, .4) : 0; chaos(r, w, c, x, from, to); }
  settle(r, w, c.sc); return c;
}
void validPubs(const Scenario& s, const Trace& t, Verdict& v);
static Verdict judgeC26(const Case& c) {
  Verdict v; const Scenario& s = c.sc; ref::Layout l(s.node); RefRun f = refRun(s, c.variant != 1); if (f.doubt) return Verdict::skip(f.why);
  if (c.variant == 1) {
    int n = 0; size_t li = 0; for (size_t k = 0; k < s.ops.size(); ++k) if (kind(s.ops[k]) == T_INIT) li = k;
    Scenario b = s; int64_t imu = 0; for (size_t k = li; k < s.ops.size(); ++k) if (isImu(s.ops[k])) imu = std::max(imu, s.ops[k].stamp); else if ((s.ops[k].tag & F_FAULT) && kind(s.ops[k]) == T_POSE) { if (timeOf(s, s.ops[k]) > imu) return Verdict::skip("held"); auto it = f.fate.find((int)k); if (it == f.fate.end()) continue; if (it->second == ref::F_RELSKIP) ++n; else if (it->second == ref::F_APPLIED) return Verdict::skip("has a predecessor"); b.ops[k].kind = OP_NOP; }
    if (!n) return Verdict::skip("no measurement without predecessor");
    Trace t1, t2; if (!runOk(s, t1, v) || !runOk(b, t2, v)) return v; Hist h1 = oracle::decode(t1, l), h2 = oracle::decode(t2, l); if (h1.prop.empty()) return Verdict::skip("nothing published"); v.stat["first.measurements"] += n;
    Diff d = oracle::compareHist(l, onlyProps(h2), onlyProps(h1), Tol{.1, .1}); if (d.bad) v.bad("predecessor", "a relative measurement without predecessor changes the estimate: " + d.what, d.op); return v; }
  Scenario b = s; V3 t0(c.knob("t0"), c.knob("t1"), c.knob("t2")), a(c.knob("a0"), c.knob("a1"), c.knob("a2")); Q dq = Q::Identity(); if (a.norm() > 1e-9) dq = Q(Eigen::AngleAxisd(a.norm(), a.normalized())); bool ws = c.knob("world") != 0; int n = 0, used = 0;
  for (size_t k = 0; k < b.ops.size(); ++k) { Op& o = b.ops[k]; if (kind(o) != T_POSE || (double)o.at <= c.knob("init")) continue; ++n; auto it = f.fate.find((int)k); if (it != f.fate.end() && it->second == ref::F_APPLIED) ++used;
    V3 p(o.num[0], o.num[1], o.num[2]); Q q(o.num[6], o.num[3], o.num[4], o.num[5]); if (!ws) { q = q.conjugate(); p = -(q * p); } p += t0; q = dq * q; if (!ws) { p = -(q.conjugate() * p); q = q.conjugate(); } for (int j = 0; j < 3; ++j) { o.num[j] = p[j]; o.num[3 + j] = q.vec()[j]; } o.num[6] = q.w(); }
  if (!used) return Verdict::skip("no relative measurement fused"); Trace t1, t2; if (!runOk(s, t1, v) || !runOk(b, t2, v)) return v; validPubs(s, t1, v); if (v.st == 2) return v; Hist h1 = oracle::decode(t1, l), h2 = oracle::decode(t2, l); v.stat["relative.measurements"] += used; v.stat["updates"] += (double)h1.upd.size();
  Diff d = oracle::compareHist(l, h2, h1, Tol{1e-5, 1e-5}); v.maxi("max:difference", d.worst < 1e8 ? d.worst : 0); if (d.bad) return v.bad("offset", "a constant offset of the relative pose measurements changes the estimate: " + d.what, d.op);
  Scenario k = s; k.params["/msf_" + s.node + "_sensor/pose_sensor/pose_absolute_measurements"] = "1"; refineWithControl(s, t1, k, v, "relative", true, Tol{1e-2, 1e-2}); return v;
}
static Reg r26({"C26", kPose, 2, genC26, judgeC26});
// ------------------------------------------------------------------ C27: GPS fixes and the local east-north-up frame
typedef Eigen::Matrix<long double, 3, 1> L3;
static const long double kA = 6378137.0L, kE2 = 6.69437999014e-3L, kDeg = 3.14159265358979323846264338327950288L / 180;
static L3 ecef(long double lat, long double lon, long double alt) {     // by way of the reduced latitude
  long double b = kA * sqrtl(1 - kE2), beta = atan2l(b * sinl(lat * kDeg), kA * cosl(lat * kDeg)); L3 q;
  long double rho = kA * cosl(beta) + alt * cosl(lat * kDeg); q << rho * cosl(lon * kDeg), rho * sinl(lon * kDeg), b * sinl(beta) + alt * sinl(lat * kDeg); return q; }
static void geodetic(const L3& p, double* o) {
  long double rho = sqrtl(p[0] * p[0] + p[1] * p[1]), lat = atan2l(p[2], rho * (1 - kE2)), alt = 0;
  for (int k = 0; k < 50; ++k) { long double N = kA / sqrtl(1 - kE2 * sinl(lat) * sinl(lat)); alt = fabsl(cosl(lat)) > .1L ? rho / cosl(lat) - N : p[2] / sinl(lat) - N * (1 - kE2); lat = atan2l(p[2] + kE2 * N * sinl(lat), rho); }
  o[0] = (double)(lat / kDeg); o[1] = (double)(atan2l(p[1], p[0]) / kDeg); o[2] = (double)alt; }
static void enuAxes(long double lat, long double lon, L3 a[3]) { long double sl = sinl(lat * kDeg), cl = cosl(lat * kDeg), so = sinl(lon * kDeg), co = cosl(lon * kDeg); a[0] << -so, co, 0; a[1] << -sl * co, -sl * so, cl; a[2] << cl * co, cl * so, sl; }
static const char* kFix = "/msf_updates/navsatfix_input";
static bool isFix(const Op& o) { return o.kind == OP_MSG && o.name == kFix; }
static Case genC27(Rng& r, const std::string& node, int variant, bool th) {
  Case c; Opt o = vary(r, th, 1.2, 2.4); o.plain = true; Nominal n = nominal(r, node, o); World& w = n.w; c.sc = n.sc; int64_t from = n.tInit + 60000000, to = n.tEnd - 100000000;
  double lat = asin(r.u(-1, 1)) * 180 / M_PI, lon = r.u(-180, 180), alt = r.u(-400, 9000); if (r.p(.15)) lat = r.p(.5) ? 90 - r.logu(1e-9, 1e-2) : -90 + r.logu(1e-9, 1e-2); if (r.p(.15)) lon = (r.p(.5) ? 180 : -180) + r.n() * 1e-7; if (r.p(.1)) lat = r.n() * 1e-7; if (r.p(.05)) lat = r.p(.5) ? 90 : 0; if (r.p(.05)) lon = 90 * r.i(-2, 2);
  L3 base = ecef(lat, lon, alt), ax[3]; enuAxes(lat, lon, ax); bool cov = variant == 1; double sp = .01; for (auto& x : w.sensors) if (x.tag == T_POS) sp = x.sp;
  std::string h = w.ns() + "/position_sensor/position_use_fixed_covariance"; c.sc.params[h] = cov ? "0" : "1"; w.params[h] = c.sc.params[h]; if (cov) { c.sc.params[w.cfgNs() + "/position_noise_meas"] = fmt("%.17g", sp); }
  c.k["sp"] = sp; double shift = r.p(.4) ? 0 : r.p(.7) ? r.logu(1, 3e4) : r.logu(1e4, 6e6);
  auto toFix = [&](Op& q, const V3& p) { double g[3]; L3 e = base; for (int k = 0; k < 3; ++k) e += (long double)p[k] * ax[k]; geodetic(e, g); q.name = kFix; q.num.assign(15, 0); q.num[1] = r.i(0, 1) ? 1 : r.i(-1, 2); q.num[0] = r.i(-1, 2); q.num[1] = r.i(0, 15); for (int k = 0; k < 3; ++k) q.num[2 + k] = g[k]; int ct = cov ? r.i(1, 3) : r.i(0, 3); if (cov && r.p(.1) && q.at > n.tInit) { ct = 0; c.fault("covariance_unknown"); } q.num[14] = ct; if (ct && (cov || r.p(.5))) for (int k = 0; k < 3; ++k) q.num[5 + 4 * k] = sp * sp; };
  bool first = true; for (auto& q : c.sc.ops) if (kind(q) == T_POS && q.kind == OP_MSG) { V3 p(q.num[0], q.num[1], q.num[2]); if (first && shift > 0) { V3 d(r.n(), r.n(), r.n()); p += shift * d.normalized(); c.fault("far_first_fix"); } else if (!first && r.p(.01)) { V3 d(r.n(), r.n(), r.n()); p += r.logu(1, 1e6) * d.normalized(); c.fault("outlier"); } first = false; toFix(q, p); }
  for (int k = r.p(.5) ? r.i(1, 2) : 0; k > 0; --k) { c.sc.ops.push_back(w.init(from + (int64_t)(r.u() * (to - from)))); c.fault("reinitialization"); } sortOps(c.sc.ops);
  if (r.p(.7)) { Chaos x; x.late = r.p(.6) ? r.u(0, .7) : 0; x.lossMeas = r.p(.5) ? r.u(0, .4) : 0; x.dup = r.p(.4) ? r.u(0, .3) : 0; x.ahead = r.p(.4) ? r.u(0, .4) : 0; chaos(r, w, c, x, from, to); }
  if (r.p(.3)) { std::vector<size_t> at; for (size_t k = 0; k < c.sc.ops.size(); ++k) if (isFix(c.sc.ops[k]) && c.sc.ops[k].at > from) at.push_back(k); if (!at.empty()) { size_t p = r.pick(at); for (size_t k = 0; k < c.sc.ops.size(); ++k) if (isFix(c.sc.ops[k]) && c.sc.ops[k].at < c.sc.ops[p].at && c.sc.ops[k].at > n.tInit) { c.sc.ops[k].kind = OP_NOP; } c.fault("fixes_lost_for_long"); } }
  settle(r, w, c.sc); for (auto& q : c.sc.ops) if (q.kind == OP_MSG && q.name == "/msf_updates/position_input") { bool keep = q.num.size() >= 3; if (keep) toFix(q, V3(q.num[0], q.num[1], q.num[2])); }
  return c;
}
static Verdict judgeC27(const Case& c) {
  Verdict v; const Scenario& s = c.sc; ref::Layout l(s.node); Scenario b = s; bool cov = c.variant == 1, have = false; L3 p0, ax[3]; int n = 0; double far = 0; std::vector<Op> ops;
  for (auto& o : b.ops) { if (!isFix(o)) continue; for (int k = 2; k < 5; ++k) if (!std::isfinite(o.num[k])) return Verdict::skip("fix is not finite");
    L3 e = ecef(o.num[2], o.num[3], o.num[4]); if (!have) { have = true; p0 = e; enuAxes(o.num[2], o.num[3], ax); } L3 d = e - p0; o.name = "/msf_updates/position_input"; bool drop = cov && o.num[5] == 0; o.num.assign(3, 0); for (int k = 0; k < 3; ++k) o.num[k] = (double)ax[k].dot(d); far = std::max(far, (double)d.norm()); ++n; if (drop) o.kind = OP_NOP; }
  if (cov) b.params["/msf_" + s.node + "_sensor/position_sensor/position_use_fixed_covariance"] = "1";
  RefRun f = refRun(b); if (f.doubt) return Verdict::skip(f.why); Trace t1, t2; if (!runOk(s, t1, v) || !runOk(b, t2, v)) return v; Hist h1 = oracle::decode(t1, l), h2 = oracle::decode(t2, l); if (h1.upd.empty()) return Verdict::skip("no updates");
  v.stat["fixes"] += n; v.stat["updates"] += (double)h1.upd.size(); v.maxi("max:metres_from_origin", far);
  Diff d = oracle::compareHist(l, h2, h1, Tol{2e-3 + 2e-8 * far, 2e-3}); v.maxi("max:difference", d.worst < 1e8 ? d.worst : 0); 
  if (d.bad) {      // how much does rounding matter in this run?
    Scenario e = b; Rng pr(12345); for (size_t k = 0; k < e.ops.size(); ++k) if (isFix(s.ops[k])) for (auto& x : e.ops[k].num) x += pr.n() * (1e-8 + 1e-15 * far); Trace t3; if (!runOk(e, t3, v)) return v;
    Diff q = oracle::compareHist(l, h2, oracle::decode(t3, l), Tol{1e290, 1e290}); if (q.worst > 1e-2) return Verdict::skip("rounding decides"); Diff d2 = oracle::compareHist(l, h2, h1, Tol{2e-3 + 2e-8 * far + 100 * q.worst, 2e-3 + 100 * q.worst}); if (!d2.bad) return v; d = d2; }
  if (d.bad) v.bad("frame", "GPS fixes are not fused as their positions east, north and up of the first one: " + d.what, d.op); return v;
}
static Reg r27({"C27", {"position", "position_pose"}, 2, genC27, judgeC27});
}
