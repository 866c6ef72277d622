#include "ref.h"
#include <math.h>
#include <string.h>
#include <algorithm>

namespace ref {
const double kG = 9.80834;
M3 skew(const V3& v) { M3 m; m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0; return m; }
Q smallq(const V3& t) { double s = t.squaredNorm() / 4; if (s < 1) return Q(sqrt(1 - s), t[0] / 2, t[1] / 2, t[2] / 2); double w = 1 / sqrt(1 + s), f = w / 2; return Q(w, f * t[0], f * t[1], f * t[2]); }
static Q expq(const V3& t) { double a = t.norm(); if (a < 1e-12) return Q(1, t[0] / 2, t[1] / 2, t[2] / 2).normalized(); double s = sin(a / 2) / a; return Q(cos(a / 2), s * t[0], s * t[1], s * t[2]); }

Layout::Layout(const std::string& node) {
  auto add = [&](const char* nm, int sz, bool q) { f.push_back({nm, N, n, q ? 4 : sz, q ? 3 : sz, q}); N += q ? 4 : sz; n += q ? 3 : sz; };
  f.push_back({"p", 0, 0, 3, 3, false}); f.push_back({"v", 3, 3, 3, 3, false}); f.push_back({"q", 6, 6, 4, 3, true}); f.push_back({"b_w", 10, 9, 3, 3, false}); f.push_back({"b_a", 13, 12, 3, 3, false});
  if (node == "pose" || node == "pose_pressure" || node == "position_pose") { add("L", 1, false); add("q_wv", 3, true); add("p_wv", 3, false); add("q_ic", 3, true); add("p_ic", 3, false); }
  if (node == "pose_pressure") add("b_p", 1, false);
  if (node == "position" || node == "position_pose" || node == "spherical") add("p_ip", 3, false);
}
static V3 g3(const VX& x, const Field* f) { return x.segment<3>(f->i); }
static Q gq(const VX& x, int i) { return Q(x[i], x[i + 1], x[i + 2], x[i + 3]); }
static void sq(VX& x, int i, const Q& q) { x[i] = q.w(); x[i + 1] = q.x(); x[i + 2] = q.y(); x[i + 3] = q.z(); }

VX errorState(const Layout& l, const VX& a, const VX& b) {
  VX d(l.n);
  for (auto& f : l.f) { if (f.quat) { Q e = gq(b, f.i).conjugate() * gq(a, f.i); if (e.w() < 0) e.coeffs() *= -1; d.segment<3>(f.e) = 2 * e.vec(); } else d.segment(f.e, f.ne) = a.segment(f.i, f.n) - b.segment(f.i, f.n); }
  return d;
}
VX Filter::plus(const VX& x, const VX& d) const {
  VX r = x;
  for (auto& f : lay.f) { if (f.quat) { Q q = gq(x, f.i) * smallq(d.segment<3>(f.e)); q.normalize(); sq(r, f.i, q); } else r.segment(f.i, f.n) += d.segment(f.e, f.ne); }
  return r;
}
// ------------------------------------------------------------------ measurement models
VX Filter::predict(const VX& x, Sens s) const {
  V3 p = x.segment<3>(0); Q q = gq(x, 6);
  if (s == S_POSE) {
    double L = x[lay.find("L")->i]; Q qwv = gq(x, lay.find("q_wv")->i), qic = gq(x, lay.find("q_ic")->i); V3 pwv = g3(x, lay.find("p_wv")), pic = g3(x, lay.find("p_ic"));
    VX h(8); h.segment<3>(0) = (qwv * (p - pwv + q * pic)) * L; Q o = qwv * q * qic; sq(h, 3, o);
    h[7] = 2 * (qwv.w() * qwv.z() + qwv.x() * qwv.y()) / (1 - 2 * (qwv.y() * qwv.y() + qwv.z() * qwv.z())); return h;
  }
  if (s == S_PRESS) { VX h(1); h[0] = x[2] - x[lay.find("b_p")->i]; return h; }
  V3 m = p + q * g3(x, lay.find("p_ip"));
  if (s == S_POS) return m;
  if (s == S_ANGLE) { VX h(2); h[0] = acos(m[2] / m.norm()); h[1] = atan2(m[1], m[0]); return h; }
  VX h(1); h[0] = m.norm(); return h;
}
VX Filter::diff(const VX& a, const VX& b, Sens s) const {
  if (s == S_POSE) { VX r(7); r.segment<3>(0) = a.segment<3>(0) - b.segment<3>(0); Q e = gq(b, 3).conjugate() * gq(a, 3); r.segment<3>(3) = e.vec() / e.w() * 2; r[6] = 0; return r; }
  VX r = a - b;
  if (s == S_ANGLE) { if (r[1] > M_PI) r[1] -= 2 * M_PI; if (r[1] < -M_PI) r[1] += 2 * M_PI; }
  return r;
}
MX Filter::jac(const VX& x, Sens s) const {
  MX H; const double h = 1e-5;
  for (int k = 0; k < lay.n; ++k) {
    VX d = VX::Zero(lay.n); d[k] = h; VX x0 = predict(x, s);
    VX c = (diff(predict(plus(x, d), s), x0, s) - diff(predict(plus(x, -d), s), x0, s)) / (2 * h);
    if (k == 0) H = MX::Zero(c.size(), lay.n);
    H.col(k) = c;
  }
  return H;
}
// ------------------------------------------------------------------ set-up
Filter::Filter(const sim::Scenario& s) : lay(s.node), now(s.start), node(s.node), params_(s.params) {
  nn_ = node == "spherical" ? "/msf_spherical_position_sensor" : "/msf_" + node + "_sensor";
  hasFuzzy_ = lay.find("q_wv") != nullptr; lastImu_ = nodes_.end();
  cfg = {{"core_noise_acc", .002}, {"core_noise_accbias", 5e-8}, {"core_noise_gyr", .0004}, {"core_noise_gyrbias", 3e-6}, {"core_fixed_bias", 0}};
  if (lay.find("L")) { std::map<std::string, double> d = {{"pose_initial_scale", 1}, {"pose_noise_scale", 0}, {"pose_noise_p_wv", 0}, {"pose_noise_q_wv", 0}, {"pose_noise_q_ic", 0}, {"pose_noise_p_ic", 0}, {"pose_delay", .02}, {"pose_noise_meas_p", .01}, {"pose_noise_meas_q", .02}, {"core_height", 1}}; cfg.insert(d.begin(), d.end()); }
  if (lay.find("b_p")) { cfg["press_noise_meas_p"] = .05; cfg["press_noise_bias_p"] = .05; }
  if (lay.find("p_ip") && node != "spherical") { cfg["position_noise_meas"] = .01; cfg["position_delay"] = .02; cfg["position_noise_p_ip"] = 0; cfg["position_yaw_init"] = 0; }
  // start-up parameters of the configuration servers
  std::string sub = node == "spherical" ? "spherical_position_sensor" : node + "_sensor";
  for (auto& kv : params_) for (const std::string& ns : {nn_ + "/core/", nn_ + "/" + sub + "/"}) if (kv.first.compare(0, ns.size(), ns) == 0) { std::string k = kv.first.substr(ns.size()); if (k.find('/') == std::string::npos) cfg[k] = strtod(kv.second.c_str(), 0); }
}
double Filter::delayOf(Sens s) const { if (s == S_POSE) return c("pose_delay"); if (s == S_POS) return c("position_delay"); if (s == S_ANGLE) return c("angle_delay"); if (s == S_DIST) return c("distance_delay"); return 0; }

void Filter::init(double scale, std::vector<Expect>& out, int idx) {
  (void)out; (void)idx;
  VX x = VX::Zero(lay.N); for (auto& f : lay.f) if (f.quat) x[f.i] = 1;
  auto rd3 = [&](const char* base) { std::string b = base; return V3(par(b + "/x", 0), par(b + "/y", 0), par(b + "/z", 0)); };
  Q q = Q::Identity(); V3 p = V3::Zero();
  if (node == "position") { if (scale < 0.001) scale = 1; }
  double yaw = (node == "spherical" ? c("yaw_init") : c("position_yaw_init")) / 180 * M_PI; Q yawq(cos(yaw / 2), 0, 0, sin(yaw / 2)); yawq.normalize();
  if (node == "position" || node == "spherical") {
    V3 pip = rd3("position_sensor/init/p_ip"); x.segment<3>(lay.find("p_ip")->i) = pip; q = yawq; V3 z = zPos_;
    if (node == "spherical") { z = V3(zDist_ * sin(zAng_[0]) * cos(zAng_[1]), zDist_ * sin(zAng_[0]) * sin(zAng_[1]), zDist_ * cos(zAng_[0])); }
    p = z - q * pip;
  } else {
    V3 pic = rd3("pose_sensor/init/p_ic"); Q qic(par("pose_sensor/init/q_ic/w", 1), par("pose_sensor/init/q_ic/x", 0), par("pose_sensor/init/q_ic/y", 0), par("pose_sensor/init/q_ic/z", 0)); qic.normalize();
    Q qwv = Q::Identity(); V3 pwv = V3::Zero();
    if (node == "position_pose") {
      V3 pip = rd3("position_sensor/init/p_ip"); x.segment<3>(lay.find("p_ip")->i) = pip;
      q = yawq; qwv = (q * qic * zPoseQ_.conjugate()).conjugate();
      p = zPos_ - q * pip; pwv = p - (qwv.conjugate() * zPoseP_ / scale - q * pic);
    } else { if (poseSeen_) q = (qic * zPoseQ_.conjugate()).conjugate(); q.normalize(); p = zPoseP_ / scale - q * pic; }
    x[lay.find("L")->i] = scale; sq(x, lay.find("q_wv")->i, qwv); x.segment<3>(lay.find("p_wv")->i) = pwv; sq(x, lay.find("q_ic")->i, qic); x.segment<3>(lay.find("p_ic")->i) = pic;
    if (lay.find("b_p")) x[lay.find("b_p")->i] = p[2] - zPress_;
  }
  x.segment<3>(0) = p; sq(x, 6, q);
  static const double core[15][15] = {
   {0.0166,0.0122,-0.0015,0.0211,0.0074,0,0.0012,-0.0012,0.0001,0,0,0,-0.0003,-0.0002,0},{0.0129,0.0508,-0.0020,0.0179,0.0432,0.0006,0.0020,0.0004,-0.0002,0,0,0,0.0003,-0.0002,0},
   {-0.0013,-0.0009,0.0142,-0.0027,0.0057,0.0079,0.0007,0.0007,0,0,0,0,-0.0001,-0.0004,-0.0001},{0.0210,0.0162,-0.0026,0.0437,0.0083,-0.0017,0.0016,-0.0021,-0.0014,0,0,0,0.0003,-0.0001,0},
   {0.0093,0.0461,0.0036,0.0153,0.0650,-0.0016,0.0025,0.0013,0,0,0,0,0.0003,0.0002,0},{0,0.0005,0.0080,-0.0019,-0.0021,0.0130,0.0001,0.0001,0,0,0,0,-0.0003,0.0001,-0.0001},
   {0.0012,0.0024,0.0006,0.0017,0.0037,0.0001,0.0005,0,0.0001,0,0,0,0,-0.0001,0},{-0.0011,0.0008,0.0007,-0.0023,0.0019,0.0001,0,0.0005,-0.0001,0,0,0,0.0001,-0.0001,0},
   {0.0001,-0.0002,0,-0.0014,0.0001,0,0,-0.0001,0.0006,0,0,0,0,0,0},{0},{0},{0},
   {-0.0003,0.0003,-0.0001,0.0003,0.0003,-0.0003,0,0.0001,0,0,0,0,0.0010,0,0},{-0.0002,-0.0002,-0.0004,-0.0001,0.0003,0.0001,-0.0001,0,0,0,0,0,0,0.0010,0},{0,0,-0.0001,0,0,-0.0001,0,0,0,0,0,0,0,0,0.0001}};
  Node n; n.t = sim::sec(now); n.w.setZero(); n.a = q.conjugate() * V3(0, 0, 9.81); n.x = n.xp = x;
  n.P = MX::Identity(lay.n, lay.n) * 1e-4; for (int i = 0; i < 15; ++i) for (int j = 0; j < 15; ++j) n.P(i, j) = (core[i][j] + core[j][i]) / 2;
  n.Pp = n.P;
  nodes_.clear(); nodes_.push_back(n); lastImu_ = nodes_.begin(); pending_.clear(); applied_.clear();
  qb_.assign(30, Eigen::Vector4d::Zero()); qcount_ = 0; qpos_ = 0;
  inited = true; running = false; now += 110000000; ++nInits;
}
// ------------------------------------------------------------------ prediction
void Filter::propState(const Node& o, Node& n) const {
  double dt = n.t - o.t; n.xp = o.x;
  V3 bw = o.x.segment<3>(10), ba = o.x.segment<3>(13); V3 w0 = o.w - bw, w1 = n.w - bw, a0 = o.a - ba, a1 = n.a - ba;
  Q q0 = gq(o.x, 6); Q q1 = q0 * expq((w0 + w1) / 2 * dt + dt * dt / 12 * w0.cross(w1)); q1.normalize();
  V3 v1 = o.x.segment<3>(3) + ((q1 * a1 + q0 * a0) / 2 - V3(0, 0, kG)) * dt;
  n.xp.segment<3>(0) = o.x.segment<3>(0) + (v1 + o.x.segment<3>(3)) / 2 * dt; n.xp.segment<3>(3) = v1; sq(n.xp, 6, q1);
}
typedef Eigen::Matrix<double, 15, 15> M15;
static M15 expFc(const M15& Fc, double t) { M15 r = M15::Identity(), term = M15::Identity(); for (int k = 1; k < 9; ++k) { term = term * Fc * (t / k); r += term; } return r; }
void Filter::propCov(const Node& o, Node& n) const {
  double dt = n.t - o.t;
  V3 bw = n.xp.segment<3>(10), ba = n.xp.segment<3>(13); M3 C = gq(n.xp, 6).toRotationMatrix(); V3 w = n.w - bw, a = n.a - ba;
  M15 Fc = M15::Zero(); Fc.block<3, 3>(0, 3).setIdentity(); Fc.block<3, 3>(3, 6) = -C * skew(a); Fc.block<3, 3>(3, 12) = -C; Fc.block<3, 3>(6, 6) = -skew(w); Fc.block<3, 3>(6, 9) = -M3::Identity();
  M15 F = expFc(Fc, dt);
  Eigen::Matrix<double, 15, 1> qc; qc.setZero(); auto sqr = [](double v) { return v * v; };
  qc.segment<3>(3).setConstant(sqr(c("core_noise_acc"))); qc.segment<3>(6).setConstant(sqr(c("core_noise_gyr"))); qc.segment<3>(9).setConstant(sqr(c("core_noise_gyrbias"))); qc.segment<3>(12).setConstant(sqr(c("core_noise_accbias")));
  M15 Qd = M15::Zero(); static const double gx[4] = {-0.861136311594053, -0.339981043584856, 0.339981043584856, 0.861136311594053}, gw[4] = {0.347854845137454, 0.652145154862546, 0.652145154862546, 0.347854845137454};
  for (int k = 0; k < 4; ++k) { M15 E = expFc(Fc, dt * (gx[k] + 1) / 2); Qd += gw[k] * dt / 2 * E * qc.asDiagonal() * E.transpose(); }
  MX P = o.P; P.topRows<15>() = (F * o.P.topRows<15>()).eval(); P.leftCols<15>() = (P.leftCols<15>() * F.transpose()).eval(); P.topLeftCorner<15, 15>() += Qd;
  auto aux = [&](const char* f, const char* cn) { const Field* fl = lay.find(f); if (!fl) return; for (int k = 0; k < fl->ne; ++k) P(fl->e + k, fl->e + k) += dt * sqr(c(cn)); };
  aux("L", "pose_noise_scale"); aux("q_wv", "pose_noise_q_wv"); aux("p_wv", "pose_noise_p_wv"); aux("q_ic", "pose_noise_q_ic"); aux("p_ic", "pose_noise_p_ic"); aux("b_p", "press_noise_bias_p");
  aux("p_ip", node == "spherical" ? "noise_p_ip" : "position_noise_p_ip");
  n.Pp = P; n.Phi = MX::Identity(lay.n, lay.n); n.Phi.topLeftCorner<15, 15>() = F;
}
void Filter::runFrom(It it, bool reprop) {
  if (quiet) return;
  bool first = true;
  for (; it != nodes_.end(); ++it) {
    if (it != nodes_.begin() && (reprop || !first)) { auto pr = std::prev(it); propState(*pr, *it); propCov(*pr, *it); }
    it->x = it->xp; it->P = it->Pp; it->U = MX::Identity(lay.n, lay.n);
    for (auto& m : it->ms) applyMeas(*it, *m);
    first = false;
  }
}
// ------------------------------------------------------------------ correction
void Filter::applyMeas(Node& n, Meas& m) {
  MX H = jac(n.x, m.s);
  auto fixField = [&](Node& nd, const char* nm, MX* Hp) { const Field* f = lay.find(nm); if (!f) return; MX keep = nd.P.block(f->e, f->e, f->ne, f->ne); nd.P.middleRows(f->e, f->ne).setZero(); nd.P.middleCols(f->e, f->ne).setZero(); nd.P.block(f->e, f->e, f->ne, f->ne) = keep; if (Hp) Hp->middleCols(f->e, f->ne).setZero(); };
  static const char* poseFields[5] = {"L", "q_wv", "p_wv", "q_ic", "p_ic"};
  auto fixAll = [&](Node& nd, MX* Hp) { if (m.s == S_POSE) { for (int k = 0; k < 5; ++k) if (m.fixed[k]) fixField(nd, poseFields[k], Hp); } else if (m.s != S_PRESS && !m.fixed.empty() && m.fixed[0]) fixField(nd, "p_ip", Hp); };
  VX r; VX corr; MX K;
  if (m.absolute) {
    fixAll(n, &H);
    VX h = predict(n.x, m.s); r = diff(m.z, h, m.s);
    MX S = H * n.P * H.transpose() + m.R; MX Si = S.inverse(); K = n.P * H.transpose() * Si;
    if (m.gate) { double d = sqrt((r.transpose() * Si * r)(0, 0)); minGateMargin = std::min(minGateMargin, fabs(d - m.thr) / m.thr); if (d > m.thr) { ++nGated; fate[m.op] = F_GATED; return; } }
    MX A = MX::Identity(lay.n, lay.n) - K * H; n.U = (A * n.U).eval(); n.P = A * n.P * A.transpose() + K * m.R * K.transpose();
    n.P = (0.5 * (n.P + n.P.transpose())).eval();
  } else {
    // previous measurement of the same sensor
    Node* old = nullptr; Meas* pm = nullptr;
    for (auto it = nodes_.begin(); it != nodes_.end() && it->t <= n.t; ++it) for (auto& o : it->ms) if (o->id == m.id && o->t < m.t && (!pm || o->t > pm->t)) { pm = o.get(); old = &*it; }
    if (!pm || old == &n) { fate[m.op] = F_RELSKIP; return; }
    MX Ho = jac(old->x, m.s); fixAll(*old, &Ho); fixAll(n, &H);
    VX ho = predict(old->x, m.s), hn = predict(n.x, m.s); r = VX::Zero(7);
    r.segment<3>(0) = (m.z.segment<3>(0) - pm->z.segment<3>(0)) - (hn.segment<3>(0) - ho.segment<3>(0));
    Q dz = gq(pm->z, 3).conjugate() * gq(m.z, 3), dh = gq(ho, 3).conjugate() * gq(hn, 3); Q e = dh.conjugate() * dz; r.segment<3>(3) = e.vec() / e.w() * 2; r[6] = 0;
    Ho.middleRows(3, 3) = dh.conjugate().toRotationMatrix() * Ho.middleRows(3, 3); Ho = -Ho;
    MX F = MX::Identity(lay.n, lay.n); bool on = false;
    for (auto it = nodes_.begin(); it != nodes_.end() && it->t <= n.t; ++it) { if (on) F = it->U * (it->Phi * F); if (&*it == old) on = true; }
    int d = lay.n; MX PS(2 * d, 2 * d); PS << old->P, old->P * F.transpose(), F * old->P, n.P;
    MX HS(7, 2 * d); HS << Ho, H; MX S = HS * PS * HS.transpose() + m.R; K = (PS * HS.transpose() * S.inverse()).bottomRows(d);
    n.P = n.P - K * S * K.transpose(); n.P = (0.5 * (n.P + n.P.transpose())).eval();
  }
  corr = K * r; if (c("core_fixed_bias") != 0) corr.segment<6>(9).setZero();
  VX before = n.x; n.x = plus(n.x, corr); ++nApplied; fate[m.op] = F_APPLIED;
  if (const Field* L = lay.find("L")) { minScaleSeen = std::min(minScaleSeen, n.x[L->i]); if (n.x[L->i] < 0) { n.x[L->i] = 0.1; ++nNegScale; } }
  if (hasFuzzy_) {
    int qi = lay.find("q_wv")->i; Eigen::Vector4d cur = n.x.segment<4>(qi);
    if (qcount_ < 30) { qb_[qcount_++] = cur; }
    else {
      auto dist = [&](int at) { Eigen::Vector4d med; for (int k = 0; k < 4; ++k) { std::vector<double> v; for (auto& b : qb_) v.push_back(b[k]); std::sort(v.begin(), v.end()); med[k] = v[at]; } Q e = gq(n.x, qi).conjugate() * Q(med[0], med[1], med[2], med[3]); return e.vec().cwiseAbs().maxCoeff() / fabs(e.w()) * 2; };
      double d = dist(15);
      if (fabs(d - 0.1) < .008) doubts.push_back("fuzzy threshold"); else if (d > .1 && corr.norm() > 2) doubts.push_back("far from linearisation");
      else if ((dist(13) > .1) != (d > .1) || (dist(17) > .1) != (d > .1)) doubts.push_back("median between two attitudes");
      if (d > 0.1) { n.x.segment(10, lay.N - 10) = before.segment(10, lay.N - 10); ++nFuzzy; } else { qb_[qpos_] = cur; qpos_ = (qpos_ + 1) % 30; }
    }
  }
}
// ------------------------------------------------------------------ events
void Filter::rebase(It it, double t) {
  // Start from this state only: what was before the gap is gone.
  Node n = *it; n.t = t; n.ms.clear(); n.xp = n.x; n.Pp = n.P;
  nodes_.clear(); nodes_.push_back(n); lastImu_ = nodes_.begin(); ++nRebase;
}
void Filter::imu(const V3& a0, const V3& w, double t, std::vector<Expect>& out, int idx) {
  if (!inited) return;
  Node& l = *lastImu_;
  double dt = t - l.t;
  if (running && dt < -0.01) { inited = running = false; ++nStops; return; }
  if (fabs(fabs(dt) - 0.01) < 1e-6 && dt < 0) doubts.push_back("regression threshold");
  V3 a = a0; if (a0.norm() > 50) { a = l.a; ++nSpike; }
  if (fabs(a0.norm() - 50) < 1e-9) doubts.push_back("spike threshold");
  if (!running && fabs(fabs(dt) - 0.1) < 1e-6) doubts.push_back("gap threshold");
  if (!running && fabs(dt) > 0.1) { rebase(lastImu_, t); return; }
  if (dt <= 0) { ++nStaleImu; return; }
  Node n; n.t = t; n.a = a; n.w = w;
  nodes_.push_back(n); lastImu_ = std::prev(nodes_.end());
  runFrom(lastImu_, true);
  out.push_back({false, t, lastImu_->x, lastImu_->P, idx});
  if (nodes_.size() > 3) running = true;
  if (running) popPending(out, idx);
}
void Filter::ext(const V3& a0, const V3& w, const VX& xs, bool already, double t, std::vector<Expect>& out, int idx) {
  if (!inited) return;
  Node& l = nodes_.back(); double dt = t - l.t;
  V3 a = a0; if (a0.norm() > 50) { a = l.a; ++nSpike; }
  if (!running && fabs(fabs(dt) - 5) < 1e-6) doubts.push_back("gap threshold");
  if (fabs(a0.norm() - 50) < 1e-9) doubts.push_back("spike threshold");
  if (!running && fabs(dt) > 5) { rebase(std::prev(nodes_.end()), t); return; }
  if (running && dt <= 0) { ++nStaleImu; return; }
  Node n; n.t = t; n.a = a; n.w = w; n.ext = true;
  propState(l, n); if (already) n.xp.segment<10>(0) = xs.segment<10>(0);
  if (!running) { n.Pp = l.P; nodes_.clear(); applied_.clear(); pending_.clear(); }
  else propCov(l, n);
  n.x = n.xp; n.P = n.Pp;
  nodes_.push_back(n); lastImu_ = std::prev(nodes_.end()); running = true;
  out.push_back({false, t, lastImu_->x, lastImu_->P, idx});
  popPending(out, idx);
}
void Filter::initHeight(double scale, std::vector<Expect>& out, int idx) { if (scale > 0 && std::isfinite(scale)) init(scale, out, idx); }
void Filter::popPending(std::vector<Expect>& out, int idx) {
  if (pending_.empty()) return;
  MeasP m = pending_.front(); pending_.pop_front();
  size_t k = out.size(); add(m, out, idx); if (out.size() > k) heldInvolved = true;
}
void Filter::add(MeasP m, std::vector<Expect>& out, int idx) {
  if (!inited || !running) { fate[m->op] = F_NOINIT; return; }
  if (m->t > nodes_.back().t) { pending_.push_back(m); fate[m->op] = F_HELD; ++nHeld; maxHeld = std::max<uint64_t>(maxHeld, pending_.size()); return; }
  if (m->t < nodes_.front().t) { fate[m->op] = F_OLD; return; }
  for (auto& o : applied_) if (o->t == m->t && o->id == m->id) { fate[m->op] = F_DUP; return; }
  It best = nodes_.end(); double bd = 1e300;
  // search from the back: measurements are usually recent
  for (auto it = nodes_.end(); it != nodes_.begin();) { --it; double d = fabs(it->t - m->t); if (d < bd || (d == bd && it->t < m->t)) { bd = d; best = it; } else if (it->t < m->t) break; }
  if (bd > 0.1) { if (bd < 0.1 + 1e-6) doubts.push_back("0.1 s limit"); fate[m->op] = F_NOSTATE; return; }
  if (fabs(bd - 0.001) < 1e-6 || fabs(bd - 0.1) < 1e-6) doubts.push_back("1 ms limit");
  It at = best; bool fresh = false;
  if (bd > 0.001) {
    It hi = nodes_.begin(); for (auto it = nodes_.end(); it != nodes_.begin();) { --it; if (it->t > m->t) hi = it; else break; }
    It lo = std::prev(hi); Node n; n.t = m->t; double f = (m->t - lo->t) / (hi->t - lo->t); n.a = lo->a + (hi->a - lo->a) * f; n.w = lo->w + (hi->w - lo->w) * f; n.interp = true; ++nInterp;
    at = nodes_.insert(hi, n); fresh = true;
  }
  if (!fresh && at == nodes_.begin()) for (auto& o : at->ms) if (o->t > m->t) { fate[m->op] = F_NOSTATE; return; }   // nothing to restart from
  if (std::next(at) != nodes_.end()) ++nLate;
  m->arrival = arrivals_++;
  auto pos = at->ms.begin(); while (pos != at->ms.end() && (*pos)->t <= m->t) ++pos; at->ms.insert(pos, m); applied_.push_back(m);
  fate[m->op] = F_APPLIED;
  runFrom(at, fresh);
  Node& l = nodes_.back(); out.push_back({true, l.t, l.x, l.P, idx});
}
void Filter::poseMsg(const V3& p0, const Q& q0, const double* cov, double stamp, int idx, std::vector<Expect>& out) {
  poseSeen_ = true; bool fixedCov = par("pose_sensor/pose_use_fixed_covariance", 0) != 0; double minDt = par("pose_sensor/pose_measurement_minimum_dt", 0.05);
  double gap = fabs(stamp - prevPose_);
  if (fabs(gap - (minDt - 0.001)) < 1e-6) doubts.push_back("throttle threshold");
  if (gap <= minDt - 0.001) { fate[idx] = F_THROTTLED; return; }
  prevPose_ = stamp;
  MeasP m(new Meas); m->s = S_POSE; m->id = 0; m->op = idx; m->t = stamp - c("pose_delay"); m->absolute = par("pose_sensor/pose_absolute_measurements", 1) != 0;
  V3 p = p0; Q q = q0; MX R = MX::Zero(7, 7); R(6, 6) = 1e-6;
  if (fixedCov) { double a = c("pose_noise_meas_p"), b = c("pose_noise_meas_q"); R.diagonal().head<3>().setConstant(a * a); R.diagonal().segment<3>(3).setConstant(b * b); }
  else { for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) if ((i < 3) == (j < 3)) R(i, j) = cov[6 * i + j]; }
  if (par("pose_sensor/pose_measurement_world_sensor", 1) == 0) { M3 C = q.toRotationMatrix(); q = q.conjugate(); p = -(C.transpose() * p); MX CC = MX::Zero(6, 6); CC.topLeftCorner<3, 3>() = C; CC.bottomRightCorner<3, 3>() = C; R.topLeftCorner<6, 6>() = CC.transpose() * R.topLeftCorner<6, 6>() * CC; }
  m->R = R; m->z = VX::Zero(8); m->z.segment<3>(0) = p; sq(m->z, 3, q);
  m->fixed = {(char)(c("pose_fixed_scale") != 0), (char)(c("pose_fixed_q_wv") != 0), (char)(c("pose_fixed_p_wv") != 0), (char)(c("pose_fixed_q_ic") != 0), (char)(c("pose_fixed_p_ic") != 0)};
  m->gate = par("pose_sensor/enable_mah_outlier_rejection", 0) != 0; m->thr = par("pose_sensor/mah_threshold", 100);
  zPoseP_ = p; zPoseQ_ = q; add(m, out, idx);
}
void Filter::posMsg(const V3& p, const double* cov, double stamp, int idx, std::vector<Expect>& out) {
  bool fixedCov = par("position_sensor/position_use_fixed_covariance", 0) != 0;
  if (!fixedCov && (!cov || cov[0] == 0)) { fate[idx] = F_DISCARDED; return; }
  MeasP m(new Meas); m->s = S_POS; m->id = node == "position_pose" ? 1 : 0; m->op = idx; m->t = stamp - c("position_delay"); m->absolute = par("position_sensor/position_absolute_measurements", 0) != 0;
  m->z = p; m->R = MX::Zero(3, 3); if (fixedCov) m->R.diagonal().setConstant(c("position_noise_meas") * c("position_noise_meas")); else for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m->R(i, j) = cov[3 * i + j];
  m->fixed = {(char)(c("position_fixed_p_ip") != 0)}; m->gate = par("position_sensor/enable_mah_outlier_rejection", 0) != 0; m->thr = par("position_sensor/mah_threshold", 100);
  posSeen_ = true; zPos_ = p; if (!m->absolute) doubts.push_back("relative position"); add(m, out, idx);
}
void Filter::step(const sim::Op& o, int idx, std::vector<Expect>& out) {
  heldInvolved = false;
  if (o.kind == sim::OP_CLOCK) now = o.at; else if (o.at > now) now = o.at;
  if (o.kind == sim::OP_RECONF) {
    bool pose = lay.find("L") != nullptr; bool doInit = false, doHeight = false;
    std::string sub = node == "spherical" ? "spherical_position_sensor" : node + "_sensor";
    bool core = o.name == nn_ + "/core"; if (!core && o.name != nn_ + "/" + sub) return;
    for (auto& kv : o.kv) { if (kv.first == "core_init_filter") doInit = kv.second != 0; else if (kv.first == "core_set_height") doHeight = kv.second != 0; else cfg[kv.first] = kv.second; }
    if (doInit) init(pose ? c("pose_initial_scale") : 1.0, out, idx);
    if (doHeight && pose && zPoseP_.norm() != 0) initHeight(zPoseP_[2] / c("core_height"), out, idx);
    return;
  }
  if (o.kind == sim::OP_SRV) {
    if (node != "pose") return; double v = o.num.empty() ? 0 : o.num[0];
    if (o.name == nn_ + "/pose_sensor/initialize_msf_scale") initHeight(v, out, idx);
    if (o.name == nn_ + "/pose_sensor/initialize_msf_height" && zPoseP_.norm() != 0 && fabs(v) > 0.01) initHeight(zPoseP_[2] / v, out, idx);
    return;
  }
  if (o.kind != sim::OP_MSG) return;
  double st = sim::sec(o.stamp); const std::vector<double>& d = o.num; const std::string& t = o.name;
  auto v3 = [&](size_t k) { return V3(d[k], d[k + 1], d[k + 2]); }; auto qx = [&](size_t k) { return Q(d[k + 3], d[k], d[k + 1], d[k + 2]); };
  bool poseNode = lay.find("L") != nullptr, posNode = node == "position" || node == "position_pose";
  if (t == "/msf_core/imu_state_input") imu(v3(25), v3(13), st, out, idx);
  else if (t == "/msf_core/hl_state_input") {
    VX x = VX::Zero(16); int n = (int)d[6]; for (int k = 0; k < 16 && k < n; ++k) x[k] = d[7 + k]; bool cur = (int)d[7 + n] == 1; bool fin = true; for (int k = 0; k < 10; ++k) if (!std::isfinite(x[k])) fin = false;
    Q q = gq(x, 6); q.normalize(); sq(x, 6, q); ext(v3(3), v3(0), x, cur && fin, st, out, idx);
  } else if (poseNode && (t == "/msf_updates/pose_with_covariance_input" || t == "/msf_updates/odometry_input")) poseMsg(v3(0), qx(3), &d[7], st, idx, out);
  else if (t == "/msf_updates/pose_input" || t == "/msf_updates/transform_input") {
    if (poseNode) { if (par("pose_sensor/pose_use_fixed_covariance", 0) != 0) poseMsg(v3(0), qx(3), nullptr, st, idx, out); else fate[idx] = F_DISCARDED; }
    if (posNode && t == "/msf_updates/transform_input") { if (o.seq % 5) fate[idx] = F_THROTTLED; else posMsg(v3(0), nullptr, st, idx, out); }
  } else if (posNode && t == "/msf_updates/position_input") posMsg(v3(0), nullptr, st, idx, out);
  else if (lay.find("b_p") && t == "/msf_updates/pressure_height") {
    if (o.seq % 10) { fate[idx] = F_THROTTLED; return; }
    MeasP m(new Meas); m->s = S_PRESS; m->id = 1; m->op = idx; m->t = st; m->z = VX::Constant(1, d[2]); m->R = MX::Constant(1, 1, c("press_noise_meas_p") * c("press_noise_meas_p")); m->gate = par("pressure_sensor/enable_mah_outlier_rejection", 0) != 0; m->thr = par("pressure_sensor/mah_threshold", 100); zPress_ = d[2]; add(m, out, idx);
  } else if (node == "spherical" && (t == "/msf_updates/angle_input" || t == "/msf_updates/distance_input")) {
    bool ang = t == "/msf_updates/angle_input"; if (par("spherical_position_sensor/use_fixed_covariance", 1) == 0) { fate[idx] = F_DISCARDED; return; }
    MeasP m(new Meas); m->s = ang ? S_ANGLE : S_DIST; m->id = ang ? 0 : 1; m->op = idx; m->t = st - c(ang ? "angle_delay" : "distance_delay"); m->absolute = par("spherical_position_sensor/absolute_measurements", 0) != 0;
    double nz = c(ang ? "angle_noise_meas" : "distance_noise_meas"); if (ang) { m->z = VX(2); m->z << d[0], d[1]; m->R = MX::Identity(2, 2) * nz * nz; zAng_[0] = d[0]; zAng_[1] = d[1]; } else { m->z = VX::Constant(1, d[2]); m->R = MX::Constant(1, 1, nz * nz); zDist_ = d[2]; }
    m->fixed = {(char)(c("fixed_p_ip") != 0)}; m->gate = par("spherical_position_sensor/enable_mah_outlier_rejection", 0) != 0; m->thr = par("spherical_position_sensor/mah_threshold", 100); if (!m->absolute) doubts.push_back("relative spherical"); add(m, out, idx);
  }
}
}
