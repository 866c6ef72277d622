#include "oracle.h"
#include <math.h>
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include <algorithm>
namespace oracle {
using namespace sim;
double stampOf(const Rec& r) { return r.num.size() < 3 ? 0 : r.num[1] + 1e-9 * r.num[2]; }
static std::string fmt(const char* f, ...) { char b[512]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static bool matrix(const Rec& r, MX& m) {
  if (r.num.size() < 6) return false;
  // header(3), rows, cols, data size, data
  int rows = (int)r.num[3], cols = (int)r.num[4]; if (rows < 0 || cols < 0 || r.num.size() < (size_t)(6 + rows * cols)) return false;
  m.resize(rows, cols); for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) m(i, j) = r.num[6 + i * cols + j];
  return true;
}
Hist decode(const Trace& t, const ref::Layout& l) {
  Hist h; int tp = t.topicId("/msf_core/pose"), to = t.topicId("/msf_core/odometry"), te = t.topicId("/msf_core/ext_state"), ts = t.topicId("/msf_core/state_out"), cc = t.topicId("/msf_core/cov_core"), ca = t.topicId("/msf_core/cov_aux"), cx = t.topicId("/msf_core/cov_core_aux");
  MX core, aux, cross;
  for (size_t k = 0; k < t.recs.size(); ++k) {
    const Rec& r = t.recs[k];
    if (r.topic == tp) { Prop p; p.op = r.op; p.rec = k; p.t = stampOf(r); const double* d = &r.num[3]; p.p = V3(d[0], d[1], d[2]); p.q = Q(d[6], d[3], d[4], d[5]); p.pc.resize(6, 6); for (int i = 0; i < 36; ++i) p.pc(i / 6, i % 6) = d[7 + i]; p.v.setZero(); p.bv.setZero(); p.w.setZero(); h.order.push_back({(int)h.prop.size(), false}); h.prop.push_back(p); }
    else if (r.topic == to && !h.prop.empty()) { Prop& p = h.prop.back(); const double* d = &r.num[3]; p.bv = V3(d[43], d[44], d[45]); p.w = V3(d[46], d[47], d[48]); }
    else if (r.topic == te && !h.prop.empty()) { Prop& p = h.prop.back(); const double* d = &r.num[3]; p.v = V3(d[7], d[8], d[9]); p.hasExt = true; }
    else if (r.topic == ts) { Upd u; u.op = r.op; u.now = r.now; u.t = stampOf(r); u.rec = k; size_t n = r.num.size() > 4 ? (size_t)r.num[3] : 0; u.x = VX::Zero(l.N); for (size_t i = 0; i < n && i < (size_t)l.N && 4 + i < r.num.size(); ++i) u.x[i] = r.num[4 + i]; h.order.push_back({(int)h.upd.size(), true}); h.upd.push_back(u); core.resize(0, 0); aux.resize(0, 0); cross.resize(0, 0); }
    else if (r.topic == cc) matrix(r, core);
    else if (r.topic == ca) matrix(r, aux);
    else if (r.topic == cx && !h.upd.empty()) {
      matrix(r, cross); Upd& u = h.upd.back(); int na = l.n - 15;
      if (core.rows() == 15 && core.cols() == 15 && aux.rows() == na && aux.cols() == na && cross.rows() == 15 && cross.cols() == na) { u.P = MX::Zero(l.n, l.n); u.P.topLeftCorner(15, 15) = core; u.P.bottomRightCorner(na, na) = aux; u.P.topRightCorner(15, na) = cross; u.P.bottomLeftCorner(na, 15) = cross.transpose(); u.hasP = true; }
    }
  }
  return h;
}
static double sig(const MX& P, int i) { return sqrt(std::max(P(i, i), 0.0)); }
double stateErr(const ref::Layout& l, const VX& a, const VX& b, const MX& P) {
  VX d = ref::errorState(l, a, b); double w = 0;
  for (int i = 0; i < l.n; ++i) { if (!std::isfinite(d[i])) return 1e300; double mag = 0; for (auto& f : l.f) if (i >= f.e && i < f.e + f.ne) mag = f.quat ? 1 : b.segment(f.i, f.n).norm(); double floor = 1e-4 * (i >= 9 && i < 15 ? .1 : 1) + 1e-8 * mag; w = std::max(w, fabs(d[i]) / (sig(P, i) + floor)); }
  return w;
}
double covErr(const MX& A, const MX& B) {
  double w = 0; if (A.rows() != B.rows()) return 1e300;
  for (int i = 0; i < A.rows(); ++i) for (int j = 0; j < A.cols(); ++j) { if (!std::isfinite(A(i, j)) || !std::isfinite(B(i, j))) return 1e300; w = std::max(w, fabs(A(i, j) - B(i, j)) / ((sig(B, i) + 1e-5) * (sig(B, j) + 1e-5))); }
  return w;
}
RefResult compareRef(const Scenario& sc, const Trace& tr, ref::Filter& f, bool strict, const Tol& tol0) {
  Tol tol = tol0; double maxGap = 0; RefResult res; Hist h = decode(tr, f.lay); size_t pos = 0; std::vector<ref::Expect> ex, lastU, lastP;
  auto fail = [&](int op, const std::string& w, double e) { if (!res.d.bad) { res.d.bad = true; res.d.what = w; res.d.worst = e; res.d.op = op; } };
  auto cmpU = [&](const Upd& u, const ref::Expect& e) {
    double x = stateErr(f.lay, u.x, e.x, e.P), p = u.hasP ? covErr(u.P, e.P) : 0; res.maxX = std::max(res.maxX, x); res.maxP = std::max(res.maxP, p); ++res.comparedUpd;
    if (fabs(u.t - e.t) > 2e-6) fail(u.op, fmt("update is stamped %.9f, expected %.9f", u.t, e.t), 1e9);
    if (x > tol.x) fail(u.op, fmt("state after update differs by %.3g standard deviations", x), x);
    if (p > tol.P) fail(u.op, fmt("covariance after update differs by %.3g (relative)", p), p); };
  auto cmpP = [&](const Prop& p, const ref::Expect& e) {
    VX x = e.x; if (p.hasExt) x.segment<3>(3) = p.v; x.segment<3>(0) = p.p; x[6] = p.q.w(); x[7] = p.q.x(); x[8] = p.q.y(); x[9] = p.q.z();
    double d = stateErr(f.lay, x, e.x, e.P); res.maxX = std::max(res.maxX, d); ++res.comparedProp;
    MX C(6, 6); int ix[6] = {0, 1, 2, 6, 7, 8}; for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) C(i, j) = e.P(ix[i], ix[j]);
    if (fabs(p.t - e.t) > 2e-6) fail(p.op, fmt("estimate is stamped %.9f, expected %.9f", p.t, e.t), 1e9);
    if (d > tol.x) fail(p.op, fmt("state after propagation differs by %.3g standard deviations", d), d);
    double c = covErr(p.pc, C); res.maxP = std::max(res.maxP, c);
    if (c > tol.P) fail(p.op, fmt("pose covariance after propagation differs by %.3g (relative)", c), c); };
  for (size_t k = 0; k < sc.ops.size(); ++k) {
    ex.clear(); f.step(sc.ops[k], (int)k, ex);
    // truncated series of the discretisation matter for long steps
    if (f.inited && f.nodes().size() > 1) { double g = 0; auto it = f.nodes().rbegin(); for (int j = 0; j < 8; ++j) { auto p = std::next(it); if (p == f.nodes().rend()) break; g = std::max(g, it->t - p->t); it = p; } if (g > maxGap) { maxGap = g; if (g > .25) f.doubts.push_back("long step"); else if (g > .03) { double k = pow(g / .03, 2.5); tol.x = tol0.x * std::min(k, 20.0); tol.P = tol0.P * std::min(k, 60.0); } } }
    if (!f.doubts.empty()) { res.doubt = true; res.doubtWhy = f.doubts[0]; return res; }
    if (strict) {
      size_t e = 0;
      while (pos < h.order.size()) {
        bool u = h.order[pos].second; int idx = h.order[pos].first; int op = u ? h.upd[idx].op : h.prop[idx].op; if (op > (int)k) break;
        if (op < (int)k) { ++pos; continue; }
        if (e >= ex.size()) { fail((int)k, u ? "an update was published that should not have taken place" : "an estimate was published that should not exist", 1e9); break; }
        if (ex[e].update != u) { fail((int)k, u ? "an update was published instead of a propagated estimate" : "a propagated estimate was published instead of an update", 1e9); break; }
        if (u) cmpU(h.upd[idx], ex[e]); else cmpP(h.prop[idx], ex[e]);
        ++e; ++pos;
        if (res.d.bad) break;
      }
      if (!res.d.bad && e < ex.size()) fail((int)k, ex[e].update ? "an update is missing" : "a propagated estimate is missing", 1e9);
      if (res.d.bad) break;
    } else for (auto& x : ex) { if (x.update) lastU.assign(1, x); else lastP.assign(1, x); }
  }
  res.nApplied = f.nApplied;
  if (!strict) {
    if (!lastU.empty()) { if (h.upd.empty()) fail((int)sc.ops.size(), "no update was ever published", 1e9); else cmpU(h.upd.back(), lastU[0]); }
    if (!lastP.empty()) { if (h.prop.empty()) fail((int)sc.ops.size(), "no estimate was ever published", 1e9); else cmpP(h.prop.back(), lastP[0]); }
  }
  return res;
}
Final finalOf(const Hist& h) { Final f; if (!h.prop.empty()) { f.last = h.prop.back(); f.hasProp = true; } if (!h.upd.empty() && h.upd.back().hasP) { f.ok = true; f.x = h.upd.back().x; f.P = h.upd.back().P; f.t = h.upd.back().t; } return f; }
static VX propX(const ref::Layout& l, const Prop& p) { VX x = VX::Zero(l.N); for (auto& f : l.f) if (f.quat) x[f.i] = 1; x.segment<3>(0) = p.p; x.segment<3>(3) = p.v; x[6] = p.q.w(); x[7] = p.q.x(); x[8] = p.q.y(); x[9] = p.q.z(); return x; }
static Diff cmpProp(const ref::Layout& l, const Prop& a, const Prop& b, const Tol& tol) {
  Diff d; d.op = b.op; MX P = MX::Identity(l.n, l.n); int ix[6] = {0, 1, 2, 6, 7, 8}; for (int i = 0; i < 6; ++i) P(ix[i], ix[i]) = a.pc(i, i); for (int i = 3; i < 6; ++i) P(i, i) = 1e-3;
  if (fabs(a.t - b.t) > 2e-6) { d.bad = true; d.worst = 1e9; d.what = fmt("estimates are stamped %.9f and %.9f", a.t, b.t); return d; }
  double x = stateErr(l, propX(l, a), propX(l, b), P); d.worst = x; if (x > tol.x) { d.bad = true; d.what = fmt("propagated estimates at %.6f differ by %.3g standard deviations", a.t, x); return d; }
  double c = covErr(b.pc, a.pc); if (c > tol.P) { d.bad = true; d.worst = c; d.what = fmt("pose covariances at %.6f differ by %.3g (relative)", a.t, c); }
  return d;
}
static Diff cmpUpd(const ref::Layout& l, const Upd& a, const Upd& b, const Tol& tol) {
  Diff d; d.op = b.op; if (fabs(a.t - b.t) > 2e-6) { d.bad = true; d.worst = 1e9; d.what = fmt("updates are stamped %.9f and %.9f", a.t, b.t); return d; }
  MX P = a.hasP ? a.P : MX(MX::Identity(l.n, l.n) * 1e-4);
  double x = stateErr(l, b.x, a.x, P); d.worst = x; if (x > tol.x) { d.bad = true; d.what = fmt("states after update at %.6f differ by %.3g standard deviations", a.t, x); return d; }
  if (a.hasP && b.hasP) { double c = covErr(b.P, a.P); if (c > tol.P) { d.bad = true; d.worst = c; d.what = fmt("covariances after update at %.6f differ by %.3g (relative)", a.t, c); } }
  return d;
}
Diff compareFinal(const ref::Layout& l, const Final& a, const Final& b, const Tol& tol) {
  Diff d; if (a.hasProp != b.hasProp || a.ok != b.ok) { d.bad = true; d.worst = 1e9; d.what = "only one of the two runs produced estimates"; return d; }
  if (a.ok) { Upd ua, ub; ua.t = a.t; ua.x = a.x; ua.P = a.P; ua.hasP = true; ub.t = b.t; ub.x = b.x; ub.P = b.P; ub.hasP = true; ub.op = -1; d = cmpUpd(l, ua, ub, tol); if (d.bad) return d; }
  if (a.hasProp) d = cmpProp(l, a.last, b.last, tol);
  return d;
}
Diff compareHist(const ref::Layout& l, const Hist& a, const Hist& b, const Tol& tol, double from) {
  auto filt = [&](const Hist& h) { std::vector<std::pair<int, bool>> o; for (auto& x : h.order) if ((x.second ? h.upd[x.first].t : h.prop[x.first].t) >= from) o.push_back(x); return o; };
  auto oa = filt(a), ob = filt(b); size_t n = std::min(oa.size(), ob.size()); Diff d;
  for (size_t k = 0; k < n; ++k) {
    if (oa[k].second != ob[k].second) { d.bad = true; d.worst = 1e9; d.what = fmt("publication %zu is an update in only one of the runs", k); d.op = ob[k].second ? b.upd[ob[k].first].op : b.prop[ob[k].first].op; return d; }
    Diff e = oa[k].second ? cmpUpd(l, a.upd[oa[k].first], b.upd[ob[k].first], tol) : cmpProp(l, a.prop[oa[k].first], b.prop[ob[k].first], tol);
    if (e.bad) return e; d.worst = std::max(d.worst, e.worst);
  }
  if (oa.size() != ob.size()) { d.bad = true; d.worst = 1e9; d.what = fmt("%zu publications in one run, %zu in the other", oa.size(), ob.size()); }
  return d;
}
}
