// Checks of the parts around the filter: timers, pose distortion, relay node.
#include "check.h"
#include <math.h>
#include <string.h>
#include <stdlib.h>
#include <algorithm>
namespace chk {
static const std::vector<std::string> kDist = {"distort"};
static bool ran(const Scenario& s, Trace& t, Verdict& v) { t = run(s); v.mix(t); if (t.status != ST_OK) { v.bad("process", "the process ended: " + t.detail, t.lastOp); return false; } return true; }
static Op lib(int64_t at, const std::string& name, std::vector<double> num, int64_t aux = 0) { Op o; o.kind = OP_LIB; o.at = at; o.name = name; o.num = num; o.aux = aux; return o; }
// ------------------------------------------------------------------ C22: timers
enum { L_NEWTAG = 0, L_NEWHANDLE = 1, L_START = 2, L_STOP = 3, L_DEL = 4, L_ISTIMING = 5, L_QUERY = 6, L_RESET = 7, L_PRINT = 8, L_TAGS = 9, L_LONG = 10 };
static Case genC22(Rng& r, const std::string& node, int variant, bool th) {
  Case c; c.sc.node = node; int64_t now = 1000000000ll * r.i(0, 2000000000); c.sc.start = now; int nt = r.i(1, 6), ns = r.i(1, 8), n = th ? r.i(50, 1500) : r.i(30, 400); std::vector<std::string> tags; for (int k = 0; k < nt; ++k) { std::string t; int len = r.p(.2) ? r.i(20, 60) : r.i(1, 10); for (int j = 0; j < len; ++j) t += (char)((r.p(.5) ? 'a' : 'A') + r.i(0, 25)); tags.push_back(t); }
  bool jumps = r.p(.5), resets = variant == 1, hot = r.p(.4);   // hot: many samples of one tag, so that windows wrap
  double loStep = 1e-7, hiStep = r.p(.3) ? 4000 : r.p(.5) ? 1 : 1e-3; if (r.p(.2)) loStep = 1e-9;
  for (int k = 0; k < n; ++k) {
    if (r.p(.85)) now += (int64_t)(1e9 * r.logu(loStep, hiStep));
    if (jumps && r.p(.06)) { Op o; o.kind = OP_CLOCK; int64_t d = (int64_t)(1e9 * r.logu(1e-4, 1e5)); if (r.p(.6)) d = -d; now = std::max<int64_t>(0, now + d); o.at = now; c.sc.ops.push_back(o); c.fault(d < 0 ? "clock_jump_back" : "clock_jump_forward"); }
    int slot = r.i(0, ns - 1); std::string tag = hot && r.p(.8) ? tags[0] : r.pick(tags); double u = r.u();
    if (u < .2) c.sc.ops.push_back(lib(now, tag, {(double)(r.p(.7) ? L_NEWTAG : L_NEWHANDLE), (double)slot, (double)r.p(.4)}));
    else if (u < .45) c.sc.ops.push_back(lib(now, "", {L_START, (double)slot}));
    else if (u < .75) c.sc.ops.push_back(lib(now, "", {L_STOP, (double)slot}));
    else if (u < .84) c.sc.ops.push_back(lib(now, "", {L_DEL, (double)slot}));
    else if (u < .88) c.sc.ops.push_back(lib(now, "", {L_ISTIMING, (double)slot}));
    else if (u < .95) c.sc.ops.push_back(lib(now, tag, {L_QUERY}));
    else if (u < .97) c.sc.ops.push_back(lib(now, "", {L_TAGS}));
    else if (u < .99 || !resets) c.sc.ops.push_back(lib(now, "", {L_PRINT}));
    else { c.sc.ops.push_back(lib(now, "", {L_RESET})); c.fault("reset"); }
  }
  if (r.p(.015)) { c.sc.ops.clear(); c.faults.clear(); c.sc.ops.push_back(lib(now, "", {(double)L_LONG, (double)((1ll << 31) + r.i(-60, 3000)), r.u(.001, 1), r.p(.3) ? 0 : r.u(1e-4, .1)})); c.fault("months_of_uptime"); return c; }   // more samples than an int counts
  for (auto& t : tags) c.sc.ops.push_back(lib(now, t, {L_QUERY})); c.sc.ops.push_back(lib(now, "", {L_PRINT})); return c;
}
struct TModel { std::string tag; bool timing = false; int64_t t0 = 0; int epoch = 0; };
struct TStat { std::vector<double> s; bool unsure = false; };
static std::vector<double> numbers(const std::string& s) {         // the numbers of a line; h:m:s counts as one
  std::vector<double> out; const char* p = s.c_str(); while (*p) { if (isdigit((unsigned char)*p) || (*p == '-' && isdigit((unsigned char)p[1]))) { char* e; double v = strtod(p, &e); while (*e == ':') { char* f; double w = strtod(e + 1, &f); if (f == e + 1) break; v = v * 60 + w; e = f; } out.push_back(v); p = e; } else ++p; } return out;
}
static Verdict judgeC22(const Case& c) {
  Verdict v; Trace t; if (!ran(c.sc, t, v)) return v; int lt = t.topicId("lib"); std::map<int, const Rec*> rec; for (auto& r : t.recs) if (r.topic == lt) rec[r.op] = &r;
  std::map<int, TModel> tm; std::map<std::string, TStat> st; int epoch = 0; int64_t now = c.sc.start, mono = now; int nq = 0, nsamp = 0;
  auto stop = [&](TModel& m) { if (!m.timing) return; m.timing = false; if (m.epoch != epoch) { st[m.tag].unsure = true; return; } st[m.tag].s.push_back(1e-9 * (double)(mono - m.t0)); ++nsamp; };
  auto close = [](double a, double b, double scale) { return fabs(a - b) <= 2e-9 + 1e-9 * fabs(b) + 1e-12 * scale; };
  for (size_t k = 0; k < c.sc.ops.size(); ++k) {
    const Op& o = c.sc.ops[k]; if (o.kind == OP_CLOCK) { now = o.at; continue; } if (o.at > now) { mono += o.at - now; now = o.at; } if (o.kind != OP_LIB) continue;
    auto ri = rec.find((int)k); if (ri == rec.end()) return v.bad("no-answer", "an operation was not executed", (int)k); const Rec& r = *ri->second; bool ok = r.num[0] != 0; int f = (int)o.num[0], slot = o.num.size() > 1 ? (int)o.num[1] : 0; auto it = tm.find(slot);
    if (f <= 1) { if (it != tm.end()) continue; TModel m; m.tag = o.name; m.epoch = epoch; m.timing = o.num[2] == 0; m.t0 = mono; tm[slot] = m; st[o.name]; continue; }
    if (f == L_START) { if (it != tm.end()) { it->second.timing = true; it->second.t0 = mono; } continue; }
    if (f == L_STOP) { if (it != tm.end()) stop(it->second); continue; }
    if (f == L_DEL) { if (it != tm.end()) { stop(it->second); tm.erase(it); } continue; }
    if (f == L_ISTIMING) { if (it == tm.end()) continue; if (!ok || (r.num[1] != 0) != it->second.timing) return v.bad("is-timing", fmt("the timer says it is %s", r.num.size() > 1 && r.num[1] ? "timing" : "stopped"), (int)k); continue; }
    if (f == L_RESET) { st.clear(); ++epoch; continue; }
    if (f == L_LONG) {                                    // the means of the pattern x, x+d, .. x+4d
      double n = o.num[1], x = o.num[2], d = o.num[3]; if (r.num.size() < 7) return v.bad("no-answer", "no statistics", (int)k); const double* q = &r.num[r.num.size() - 6]; double last = 0, var = 0; for (int j = 1; j <= 50; ++j) last += x + d * (double)(((long)n - j) % 5); last /= 50; for (int j = 1; j <= 50; ++j) { double e = x + d * (double)(((long)n - j) % 5) - last; var += e * e; } var /= 50;
      double want[6] = {n, x + 2 * d, last, x, x + 4 * d, var}, tol[6] = {0, 1e-5, 1e-3, 0, 1e-12, 1e-3}; static const char* nm[6] = {"count", "mean", "rolling mean", "minimum", "maximum", "variance"}; for (int j = 0; j < 6; ++j) if (!(fabs(q[j] - want[j]) <= tol[j] * (x + 4 * d))) return v.bad("uptime", fmt("after %.0f samples the %s is %.12g instead of %.12g", n, nm[j], q[j], want[j]), (int)k);
      nsamp = nq = 1; continue; }
    if (f == L_TAGS) {
      std::string s = " " + r.str[0]; std::set<double> hs(r.num.begin() + 2, r.num.end()); if (hs.size() != r.num.size() - 2) return v.bad("handles", "two tags share a handle", (int)k);
      for (auto& x : st) if (s.find(" " + x.first + " ") == std::string::npos && !x.second.unsure) return v.bad("tags", "tag " + x.first + " is not listed", (int)k); continue; }
    if (f == L_QUERY) {
      TStat& x = st[o.name]; ++nq; if (r.str[0] != o.name) return v.bad("handle-tag", "the handle of " + o.name + " belongs to " + r.str[0], (int)k); if (x.unsure) continue; size_t n = x.s.size();
      if (r.num[2] != (double)n || r.num[3] != (double)n) return v.bad("count", fmt("%g (by handle %g) samples instead of %zu", r.num[2], r.num[3], n), (int)k); if (!n) continue;
      double sum = 0, mn = x.s[0], mx = x.s[0]; for (double d : x.s) { sum += d; mn = std::min(mn, d); mx = std::max(mx, d); } size_t w = std::min<size_t>(n, 50); double ws = 0, var = 0; for (size_t j = n - w; j < n; ++j) ws += x.s[j]; double wm = ws / w; for (size_t j = n - w; j < n; ++j) var += (x.s[j] - wm) * (x.s[j] - wm) / w;
      for (int g = 0; g < 2; ++g) { const double* q = &r.num[4 + 6 * g]; if (!close(q[0], sum, sum * n)) return v.bad("total", fmt("total %.12g instead of %.12g", q[0], sum), (int)k); if (!close(q[1], sum / n, sum)) return v.bad("mean", fmt("mean %.12g instead of %.12g", q[1], sum / n), (int)k); if (!close(q[2], mn, 0)) return v.bad("minimum", fmt("minimum %.12g instead of %.12g", q[2], mn), (int)k); if (!close(q[3], mx, 0)) return v.bad("maximum", fmt("maximum %.12g instead of %.12g", q[3], mx), (int)k);
        if (!(fabs(q[4] - var) <= 1e-6 * var + 1e-9 * mx * mx * 1e-3 + 1e-18)) return v.bad("variance", fmt("variance %.12g instead of %.12g (%zu samples)", q[4], var, n), (int)k); if (wm > 1e-6 && wm > 1e-8 * mx && !(fabs(q[5] * wm - 1) <= 1e-3)) return v.bad("rate", fmt("rate %.12g instead of %.12g", q[5], 1 / wm), (int)k); }
      continue; }
    if (f == L_PRINT) {
      size_t b = 0; std::map<std::string, std::string> line; while (b < r.str[0].size()) { size_t e = r.str[0].find('\n', b); if (e == std::string::npos) e = r.str[0].size(); std::string l = r.str[0].substr(b, e - b); b = e + 1; size_t a = l.find_first_not_of(" \t"); if (a == std::string::npos) continue; size_t z = l.find_first_of(" \t", a); line[l.substr(a, z - a)] = z == std::string::npos ? "" : l.substr(z); }
      for (auto& x : st) { if (x.second.unsure) continue; auto li = line.find(x.first); if (li == line.end()) return v.bad("print", "tag " + x.first + " is missing in the table", (int)k); std::vector<double> q = numbers(li->second); size_t n = x.second.s.size(); if (q.empty() || q[0] != (double)n) return v.bad("print", fmt("the table shows %g samples instead of %zu", q.empty() ? -1 : q[0], n), (int)k); if (!n) continue; if (q.size() < 6) return v.bad("print", "the table lacks values", (int)k);
        double sum = 0, mn = x.second.s[0], mx = mn; for (double d : x.second.s) { sum += d; mn = std::min(mn, d); mx = std::max(mx, d); } double want[4] = {sum, sum / n, mn, mx}, got[4] = {q[1], q[2], q[4], q[5]}; static const char* nm[4] = {"total", "mean", "minimum", "maximum"}; for (int j = 0; j < 4; ++j) if (fabs(want[j] - got[j]) > 1.1e-6 + 1e-9 * sum) return v.bad("print", fmt("the table shows the %s %.6f instead of %.6f", nm[j], got[j], want[j]), (int)k); }
      v.stat["tables"] += 1; continue; }
  }
  if (!nsamp || !nq) return Verdict::skip("no interval was completed"); v.stat["intervals"] += nsamp; v.stat["queries"] += nq; return v;
}
static Reg r22({"C22", kDist, 2, genC22, judgeC22});
// ------------------------------------------------------------------ C23: pose distortion
enum { L_DNEW = 20, L_DBOTH = 21, L_DPOS = 22, L_DATT = 23 };
static std::vector<double> pose(Rng& r) { Q q(r.n(), r.n(), r.n(), r.n()); q.normalize(); return {r.u(-10, 10), r.u(-10, 10), r.u(-10, 10), q.w(), q.x(), q.y(), q.z()}; }
// Calls with a time step of zero read the distortion: at two positions (offset and scale) and two attitudes.
static void probe(Rng& r, Case& c, int64_t at, int slot) { for (int k = 0; k < 2; ++k) { std::vector<double> n = {L_DBOTH, (double)slot}, p = pose(r); if (k) for (int j = 0; j < 3; ++j) p[j] += 20; n.insert(n.end(), p.begin(), p.end()); n.push_back(0); Op o = lib(at, "", n); o.tag = 1 + k; c.sc.ops.push_back(o); } }
static Case genC23(Rng& r, const std::string& node, int variant, bool th) {
  Case c; c.sc.node = node; int64_t now = 1000000000ll * r.i(0, 1000000); c.sc.start = now; int ns = r.i(1, 3), n = variant ? (th ? 3000 : 900) : r.i(20, 120); bool zero = variant == 0;
  std::vector<std::vector<double>> cfg;
  for (int s = 0; s < ns; ++s) { std::vector<double> a = {L_DNEW, (double)s}; double mp = r.p(.2) ? 0 : .3, ma = r.p(.2) ? 0 : .2, ms = r.p(.2) ? 0 : .02; for (int k = 0; k < 3; ++k) a.push_back(mp * r.u(-1, 1)); for (int k = 0; k < 3; ++k) a.push_back(zero ? 0 : r.logu(.01, 1)); for (int k = 0; k < 3; ++k) a.push_back(ma * r.u(-1, 1)); for (int k = 0; k < 3; ++k) a.push_back(zero ? 0 : r.logu(.01, .5)); a.push_back(ms * r.u(-1, 1)); a.push_back(zero ? 0 : r.logu(.001, .02)); cfg.push_back(a); c.sc.ops.push_back(lib(now, "", a, (int64_t)(r.next() >> 2))); c.fault("random_source_seeded"); }
  if (ns > 1 && !zero && r.p(.5)) { c.sc.ops.back().num = cfg[0]; c.sc.ops.back().num[1] = ns - 1; }
  for (int s = 0; s < ns; ++s) probe(r, c, now, s);
  double base = r.logu(.005, .1);
  for (int k = 0; k < n; ++k) { now += 10000000; int s = r.i(0, ns - 1); int f = variant && k % 3 ? L_DBOTH : L_DBOTH + r.i(0, 2); double dt = r.p(.1) ? 0 : r.p(.8) ? base : base * r.u(.1, 3); std::vector<double> a = {(double)f, (double)s}, p = pose(r); a.insert(a.end(), p.begin(), p.end()); a.push_back(dt); c.sc.ops.push_back(lib(now, "", a)); probe(r, c, now, s); }
  return c;
}
struct DModel { bool on = false; std::vector<double> cfg; V3 d = V3::Zero(); double s = 1; Q q = Q::Identity(); std::vector<double> smp[7]; std::vector<double> hist; double T = 0; int n = 0; bool seen = false; int64_t dev = 0; };
static V3 rotv(const Q& a) { Q q = a; if (q.w() < 0) q.coeffs() *= -1; double n = q.vec().norm(); if (n < 1e-12) return 2 * q.vec(); return q.vec() * (2 * atan2(n, q.w()) / n); }
static Verdict judgeC23(const Case& c) {
  Verdict v; Trace t; if (!ran(c.sc, t, v)) return v; int lt = t.topicId("lib"); std::map<int, const Rec*> rec; for (auto& r : t.recs) if (r.topic == lt) rec[r.op] = &r; std::map<int, DModel> dm; int steps = 0;
  for (size_t k = 0; k < c.sc.ops.size(); ++k) {
    const Op& o = c.sc.ops[k]; if (o.kind != OP_LIB) continue; auto ri = rec.find((int)k); if (ri == rec.end()) return v.bad("no-answer", "an operation was not executed", (int)k); const Rec& r = *ri->second; int f = (int)o.num[0], slot = (int)o.num[1];
    if (f == L_DNEW) { DModel m; m.on = true; m.cfg.assign(o.num.begin() + 2, o.num.end()); m.dev = o.aux; dm[slot] = m; continue; } auto it = dm.find(slot); if (it == dm.end()) continue; DModel& m = it->second; if (r.num.size() < 8) return v.bad("no-answer", "no result", (int)k);
    for (double x : r.num) if (!std::isfinite(x)) return v.bad("finite", "a distorted pose is not finite", (int)k);
    V3 p(o.num[2], o.num[3], o.num[4]), y(r.num[1], r.num[2], r.num[3]); Q q(o.num[5], o.num[6], o.num[7], o.num[8]), z(r.num[4], r.num[5], r.num[6], r.num[7]); double dt = o.num[9]; bool doP = f != L_DATT, doQ = f != L_DPOS;
    if (!doP && y != p) return v.bad("position", "distorting an attitude changed a position", (int)k); if (!doQ && (z.coeffs() - q.coeffs()).norm() > 0) return v.bad("attitude", "distorting a position changed an attitude", (int)k);
    if (fabs(z.norm() - 1) > 1e-9) return v.bad("rotation", fmt("the distorted attitude has norm %.12g", z.norm()), (int)k);
    if (o.tag != 1 && o.tag != 2) { m.hist = {(double)f, dt}; if (dt != 0) { m.T += dt; ++m.n; } continue; }
    // a reading: compare it with what the distortion is known to be, or take it over
    if (o.tag == 1) { m.hist.resize(2); m.hist.insert(m.hist.end(), {p[0], p[1], p[2], y[0], y[1], y[2], q.w(), q.x(), q.y(), q.z(), z.w(), z.x(), z.y(), z.z()}); continue; }
    if (m.hist.size() != 16) continue; const double* h = m.hist.data() + 2; V3 p1(h[0], h[1], h[2]), y1(h[3], h[4], h[5]); Q q1(h[6], h[7], h[8], h[9]), z1(h[10], h[11], h[12], h[13]); int lf = (int)m.hist[0]; double ldt = m.hist[1];
    double s = (y - y1).dot(p - p1) / (p - p1).squaredNorm(); if ((y - y1 - s * (p - p1)).norm() > 1e-9) return v.bad("similarity", "positions are not all moved by one offset and scaled by one factor", (int)k); V3 d = y / s - p; if (fabs(s) < 1e-3) return Verdict::skip("scale near zero"); Q a = q.conjugate() * z, a1 = q1.conjugate() * z1; if (rotv(a.conjugate() * a1).norm() > 1e-7) return v.bad("similarity", "attitudes are not all turned by one rotation", (int)k);
    if (!m.seen) { m.seen = true; if (d.norm() > 1e-9 || fabs(s - 1) > 1e-9 || rotv(a).norm() > 1e-7) return v.bad("start", "a new distorter distorts already", (int)k); m.hist = {0, 0}; continue; }
    bool lp = lf == L_DBOTH || lf == L_DPOS, lq = lf == L_DBOTH || lf == L_DATT; if (ldt == 0) lp = lq = false; V3 dd = d - m.d, dq = rotv(m.q.conjugate() * a); double ds = s - m.s;
    if (!lp && (dd.norm() > 1e-8 || fabs(ds) > 1e-9)) return v.bad("step", "the position distortion changed without a step", (int)k); if (!lq && dq.norm() > 1e-7) return v.bad("step", "the attitude distortion changed without a step", (int)k);
    bool quiet = true; for (int j = 0; j < 3; ++j) if (m.cfg[3 + j] != 0 || m.cfg[9 + j] != 0) quiet = false;
    if (lp) { ++steps; for (int j = 0; j < 3; ++j) { m.smp[j].push_back(dd[j] / ldt); if (quiet && fabs(dd[j] - m.cfg[j] * ldt) > 1e-8) return v.bad("rate", fmt("the offset moved by %.9g in %.3g s at a rate of %.9g", dd[j], ldt, m.cfg[j]), (int)k); } m.smp[3].push_back(ds / ldt); if (quiet && fabs(ds - m.cfg[12] * ldt) > 1e-9) return v.bad("rate", fmt("the scale changed by %.9g in %.3g s at a rate of %.9g", ds, ldt, m.cfg[12]), (int)k); }
    if (lq) { ++steps; double tol = 1e-6 + pow(dq.norm(), 3); for (int j = 0; j < 3; ++j) { m.smp[4 + j].push_back(dq[j] / ldt); if (quiet && fabs(dq[j] - m.cfg[6 + j] * ldt) > tol) return v.bad("rate", fmt("the attitude turned by %.9g in %.3g s at a rate of %.9g", dq[j], ldt, m.cfg[6 + j]), (int)k); } }
    m.d = d; m.s = s; m.q = a; m.hist = {0, 0};
  }
  int judged = 0;
  for (auto& kv : dm) { DModel& m = kv.second; static const int im[7] = {0, 1, 2, 12, 6, 7, 8}, is[7] = {3, 4, 5, 13, 9, 10, 11}; for (int j = 0; j < 7; ++j) { auto& x = m.smp[j]; double mu = m.cfg[im[j]], sd = m.cfg[is[j]]; size_t n = x.size(); if (n < 100 || sd == 0) continue; ++judged; double me = 0; for (double q : x) me += q / n; double va = 0, c1 = 0; for (double q : x) va += (q - me) * (q - me) / (n - 1); for (size_t i = 1; i < n; ++i) c1 += (x[i] - me) * (x[i - 1] - me) / (n - 1); double e = j > 3 ? .03 * sd : 0;
    if (fabs(me - mu) > 6 * sd / sqrt(n) + e) return v.bad("mean", fmt("component %d drifts by %.4g per second on average instead of %.4g (%zu steps, deviation %.3g)", j, me, mu, n, sd)); if (fabs(sqrt(va) - sd) > 6 * sd / sqrt(2. * n) + e) return v.bad("deviation", fmt("component %d has a standard deviation of %.4g per second instead of %.4g (%zu steps)", j, sqrt(va), sd, n)); if (fabs(c1 / va) > 6 / sqrt(n)) return v.bad("correlation", fmt("successive steps of component %d correlate by %.3g", j, c1 / va));
    for (int i = 0; i < j; ++i) if (m.smp[i].size() == n && m.cfg[is[i]] > 0) { auto& w = m.smp[i]; double mw = 0, cw = 0, vw = 0; for (double q : w) mw += q / n; for (size_t l = 0; l < n; ++l) { cw += (x[l] - me) * (w[l] - mw) / (n - 1); vw += (w[l] - mw) * (w[l] - mw) / (n - 1); } if (fabs(cw) > 6 / sqrt(n) * sqrt(va * vw)) return v.bad("correlation", fmt("components %d and %d correlate by %.3g", i, j, cw / sqrt(va * vw))); } } }
  for (auto& a : dm) for (auto& b : dm) if (a.first < b.first && a.second.dev != b.second.dev) { auto &x = a.second.smp[0], &y = b.second.smp[0]; size_t n = std::min(x.size(), y.size()); int same = 0; for (size_t j = 0; j < std::min<size_t>(n, 20); ++j) if (a.second.cfg[3] > 0 && b.second.cfg[3] > 0 && fabs((x[j] - a.second.cfg[0]) / a.second.cfg[3] - (y[j] - b.second.cfg[0]) / b.second.cfg[3]) < 1e-5) ++same; if (same > 5) return v.bad("seeding", "two distorters with different random seeds walk alike"); }
  if (!steps) return Verdict::skip("no step"); v.stat["steps"] += steps; v.stat["components judged"] += judged; return v;
}
static Reg r23({"C23", kDist, 2, genC23, judgeC23});
// ------------------------------------------------------------------ C24: relay
static const struct { const char* name; int n; bool pose; } kStream[5] = {{"pose_with_covariance", 43, true}, {"transform", 7, true}, {"pose", 7, true}, {"navsatfix", 15, false}, {"point", 3, false}};
static Case genC24(Rng& r, const std::string& node, int variant, bool th) {
  Case c; c.sc.node = node; int64_t now = 1000000000ll * r.i(0, 2000000000); c.sc.start = now; int n = th ? r.i(50, 1000) : r.i(20, 250);
  if (r.p(.4)) c.sc.params["/msf_distort/publish_pose"] = r.p(.5) ? "0" : "1"; if (r.p(.4)) c.sc.params["/msf_distort/publish_position"] = r.p(.5) ? "0" : "1";
  std::vector<Op> sent; uint32_t seq[5]; for (auto& s : seq) s = (uint32_t)r.i(0, 100000);
  for (int k = 0; k < n; ++k) { now += (int64_t)(1e9 * r.logu(1e-6, .1)); if (r.p(.1) && variant) { Op o; o.kind = OP_RECONF; o.at = now; o.name = "/msf_distort"; if (r.p(.7)) o.kv.push_back({"publish_pose", (double)r.p(.5)}); if (r.p(.7) || o.kv.empty()) o.kv.push_back({"publish_position", (double)r.p(.5)}); c.sc.ops.push_back(o); c.fault("reconfigure"); continue; }
    if (r.p(.02)) { Op o; o.kind = OP_CLOCK; now = std::max<int64_t>(0, now + (int64_t)(1e9 * r.u(-1000, 1000))); o.at = now; c.sc.ops.push_back(o); c.fault("clock_jump"); continue; }
    Op o; if (!sent.empty() && r.p(.15)) { o = r.pick(sent); o.at = now; c.fault("duplicate"); } else { int s = r.i(0, 4); o.name = std::string("/msf_distort/") + kStream[s].name + "_input"; o.at = now; o.stamp = now; if (r.p(.1)) { o.stamp = std::max<int64_t>(0, now + (int64_t)(1e9 * r.u(-1e4, 1e4))); c.fault("wrong_stamp"); } o.seq = r.p(.1) ? (uint32_t)r.next() : seq[s]++; o.tag = s;
      for (int j = 0; j < kStream[s].n; ++j) o.num.push_back(s == 3 && (j < 2 || j == 14) ? r.i(0, 3) : r.p(.03) ? (r.p(.5) ? NAN : r.p(.5) ? INFINITY : 1e300) : r.u(-1000, 1000)); if (s == 3) o.num[0] = r.i(-1, 2); sent.push_back(o); }
    c.sc.ops.push_back(o); }
  return c;
}
static Verdict judgeC24(const Case& c) {
  Verdict v; Trace t; if (!ran(c.sc, t, v)) return v; auto par = [&](const char* k) { auto it = c.sc.params.find(std::string("/msf_distort/") + k); return it == c.sc.params.end() || it->second != "0"; }; bool on[2] = {par("publish_position"), par("publish_pose")}; int fwd = 0, held = 0;
  std::map<int, std::vector<const Rec*>> by; for (auto& r : t.recs) by[r.op].push_back(&r); if (by.count(-1)) for (auto* r : by[-1]) if (t.topics[r->topic].find("_output") != std::string::npos) return v.bad("spurious", "something was published at start-up");
  for (size_t k = 0; k < c.sc.ops.size(); ++k) {
    const Op& o = c.sc.ops[k]; std::vector<const Rec*> out; for (auto* r : by[(int)k]) if (t.topics[r->topic].find("_output") != std::string::npos) out.push_back(r);
    if (o.kind == OP_RECONF) for (auto& x : o.kv) on[x.first == "publish_pose"] = x.second != 0;
    if (o.kind != OP_MSG) { if (!out.empty()) return v.bad("spurious", "published " + t.topics[out[0]->topic] + " without a message", (int)k); continue; }
    int s = o.tag; bool want = on[kStream[s].pose]; if (!want) { ++held; if (!out.empty()) return v.bad("disabled", std::string("a message of the disabled stream ") + kStream[s].name + " was forwarded", (int)k); continue; }
    ++fwd; if (out.size() != 1) return v.bad("count", fmt("a message on %s was forwarded %zu times", kStream[s].name, out.size()), (int)k); const Rec& r = *out[0]; if (t.topics[r.topic] != std::string("/msf_distort/") + kStream[s].name + "_output") return v.bad("topic", std::string(kStream[s].name) + " was forwarded to " + t.topics[r.topic], (int)k);
    std::vector<double> w = {(double)o.seq, (double)(o.stamp / 1000000000ll), (double)(o.stamp % 1000000000ll)}; w.insert(w.end(), o.num.begin(), o.num.end()); if (r.num.size() != w.size()) return v.bad("content", "the message changed its size", (int)k); for (size_t j = 0; j < w.size(); ++j) if (!(r.num[j] == w[j]) && !(std::isnan(r.num[j]) && std::isnan(w[j]))) return v.bad("content", fmt("field %zu of %s is %.17g instead of %.17g", j, kStream[s].name, r.num[j], w[j]), (int)k); if (r.str.empty() || r.str[0] != "f") return v.bad("content", "the frame changed", (int)k);
  }
  if (!fwd && !held) return Verdict::skip("no message"); v.stat["forwarded"] += fwd; v.stat["withheld"] += held; return v;
}
static Reg r24({"C24", kDist, 2, genC24, judgeC24});
}
