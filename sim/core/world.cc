#include "world.h"
#include <math.h>
#include <stdio.h>
#include <algorithm>
namespace world {
void Motion::eval(double t, V3& p, V3& v, V3& a, Q& q, V3& rate) const {
  double s = 0, s1 = 0, s2 = 0;
  if (t > 0 && !still) { double e = exp(-t / T); s = t - T * (1 - e); s1 = 1 - e; s2 = e / T; }
  p = p0; v.setZero(); a.setZero(); V3 e = e0, ed = V3::Zero();
  for (int k = 0; k < 2; ++k) for (int i = 0; i < 3; ++i) {
    double x = w[k][i] * s + ph[k][i], W = w[k][i], f1 = A[k][i] * W * cos(x), f2 = -A[k][i] * W * W * sin(x);
    p[i] += A[k][i] * (sin(x) - sin(ph[k][i])); v[i] += f1 * s1; a[i] += f2 * s1 * s1 + f1 * s2;
    double y = ew[k][i] * s; e[i] += eA[k][i] * sin(y); ed[i] += eA[k][i] * ew[k][i] * cos(y) * s1;
  }
  double r = e[0], th = e[1], ya = e[2];
  q = Q(Eigen::AngleAxisd(ya, V3::UnitZ()) * Eigen::AngleAxisd(th, V3::UnitY()) * Eigen::AngleAxisd(r, V3::UnitX()));
  rate = V3(ed[0] - ed[2] * sin(th), ed[1] * cos(r) + ed[2] * cos(th) * sin(r), -ed[1] * sin(r) + ed[2] * cos(th) * cos(r));
}
static V3 rv(Rng& r, double s) { return V3(r.u(-s, s), r.u(-s, s), r.u(-s, s)); }
static V3 nv(Rng& r, double s) { V3 x; for (int k = 0; k < 3; ++k) x[k] = s * r.n(); return x; }
static Q rq(Rng& r, double s) { V3 a = rv(r, s); double n = a.norm(); if (n < 1e-9) return Q::Identity(); return Q(Eigen::AngleAxisd(n, a / n)); }
void World::setp(const std::string& k, double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); params[k] = b; }
V3 World::truthP(int64_t t) const { V3 p, v, a, w; Q q; m.eval(1e-9 * (t - t0), p, v, a, q, w); return p; }
V3 World::truthV(int64_t t) const { V3 p, v, a, w; Q q; m.eval(1e-9 * (t - t0), p, v, a, q, w); return v; }
Q World::truthQ(int64_t t) const { V3 p, v, a, w; Q q; m.eval(1e-9 * (t - t0), p, v, a, q, w); return q; }
Op World::imu(Rng& r, int64_t t) const {
  V3 p, v, a, w; Q q; m.eval(1e-9 * (t - t0), p, v, a, q, w);
  V3 am = q.conjugate() * (a + V3(0, 0, ref::kG)) + ba + nv(r, sAcc), wm = w + bw + nv(r, sGyr);
  Op o; o.name = "/msf_core/imu_state_input"; o.stamp = t; o.at = t + imuLatency; o.tag = T_IMU; o.num.assign(37, 0); o.num[3] = 1;
  for (int k = 0; k < 3; ++k) { o.num[13 + k] = wm[k]; o.num[25 + k] = am[k]; }
  return o;
}
Op World::meas(Rng& r, Sensor& s, int64_t t) const {
  V3 p, v, a, w; Q q; m.eval(1e-9 * (t - t0), p, v, a, q, w);
  Op o; o.name = s.topic; o.stamp = t + s.delayNs; o.at = o.stamp + s.latency; if (o.at < t + 1000000) o.at = t + 1000000; o.tag = s.tag; o.seq = s.seq++;
  if (s.tag == T_POSE) {
    V3 zp = L * (qwv * (p - pwv + q * pic)) + nv(r, s.sp); V3 dq = nv(r, s.sq); Q zq = qwv * q * qic; if (s.sq > 0) zq = zq * Q(1, dq[0] / 2, dq[1] / 2, dq[2] / 2); zq.normalize();
    if (!worldSensor) { zp = -(zq.conjugate() * zp); zq = zq.conjugate(); }
    double cov[36] = {0}; if (s.sendCov) for (int k = 0; k < 3; ++k) { cov[7 * k] = s.sp * s.sp; cov[21 + 7 * k] = s.sq * s.sq; }
    for (int k = 0; k < 3; ++k) o.num.push_back(zp[k]); o.num.push_back(zq.x()); o.num.push_back(zq.y()); o.num.push_back(zq.z()); o.num.push_back(zq.w());
    bool full = s.topic.find("with_cov") != std::string::npos, odom = s.topic.find("odom") != std::string::npos;
    if (full || odom) o.num.insert(o.num.end(), cov, cov + 36);
    if (odom) o.num.resize(o.num.size() + 42, 0);
  } else if (s.tag == T_POS) {
    V3 z = p + q * pip + nv(r, s.sp); for (int k = 0; k < 3; ++k) o.num.push_back(z[k]);
    if (s.topic.find("transform") != std::string::npos) { o.num.resize(7, 0); o.num[6] = 1; }
  } else if (s.tag == T_PRESS) { o.num = {0, 0, p[2] - bp + s.sp * r.n()}; }
  else { V3 z = p + q * pip; double d = z.norm(); if (s.tag == T_ANGLE) { double th = acos(z[2] / d) + s.sp * r.n(), ph = atan2(z[1], z[0]) + s.sp * r.n(); if (ph > M_PI) ph -= 2 * M_PI; if (ph < -M_PI) ph += 2 * M_PI; o.num = {th, ph, 0}; } else o.num = {0, 0, d + s.sp * r.n()}; }
  return o;
}
Op World::reconf(const std::string& key, double v, int64_t at) const { Op o; o.kind = sim::OP_RECONF; o.at = o.stamp = at; o.name = key.compare(0, 10, "core_noise") == 0 || key == "core_fixed_bias" ? ns() + "/core" : cfgNs(); o.kv = {{key, v}}; o.tag = T_RECONF; return o; }
Op World::init(int64_t at) const { Op o = reconf("core_init_filter", 1, at); o.tag = T_INIT; return o; }

World makeWorld(Rng& r, const std::string& node, const Opt& o) {
  World w; w.node = node;
  bool pose = node == "pose" || node == "pose_pressure" || node == "position_pose", pos = node == "position" || node == "position_pose", sph = node == "spherical";
  w.m.p0 = sph ? V3(r.u(2, 4) * (r.p(.5) ? 1 : -1), r.u(-1, 1) + 3 * (r.p(.5) ? 1 : -1), r.u(1, 2)) : V3(r.u(-3, 3), r.u(-3, 3), r.u(1.5, 4));
  for (int k = 0; k < 2; ++k) for (int i = 0; i < 3; ++i) { w.m.A[k][i] = o.motion * r.u(.1, .5); w.m.w[k][i] = r.u(.8, 2.5); w.m.ph[k][i] = r.u(0, 6.28); w.m.eA[k][i] = o.motion * (i == 2 ? r.u(-.8, .8) : r.u(-.2, .2)); w.m.ew[k][i] = r.u(.6, 2.5); }
  if (sph) for (int k = 0; k < 2; ++k) for (int i = 0; i < 3; ++i) w.m.A[k][i] *= .6;
  w.m.T = r.u(.3, 1); if (r.p(.3)) w.m.e0[2] = r.u(-2.5, 2.5);
  static const int64_t per[] = {5000000, 10000000, 20000000, 8000000}; static const int64_t dper[] = {7812500, 15625000};
  w.imuPeriod = o.dyadic ? dper[r.i(0, 1)] : (o.hz ? 1000000000ll / o.hz : per[r.i(0, 3)]);
  w.imuLatency = r.i(0, 3) * 700000;
  w.t0 = 1000000000ll * (o.bigBase && r.p(.6) ? 1384779529ll + r.i(0, 100000000) : r.i(100, 5000));
  w.ba = nv(r, o.biasA).cwiseMax(-2.5 * o.biasA).cwiseMin(2.5 * o.biasA); w.bw = nv(r, o.biasW);
  // noise configuration
  double nAcc = .002, nGyr = .0004;
  if (o.randomCfg && r.p(.6)) { nAcc = r.logu(.002, .1); nGyr = r.logu(.0004, .02); w.core("core_noise_acc", nAcc); w.core("core_noise_gyr", nGyr); }
  if (o.randomCfg && r.p(.4)) { w.core("core_noise_accbias", r.logu(1e-7, 1e-3)); w.core("core_noise_gyrbias", r.logu(1e-6, 1e-3)); }
  if (o.allowFixed && r.p(.12)) w.core("core_fixed_bias", 1);
  double sq = sqrt(1e9 / w.imuPeriod); w.sAcc = nAcc * sq; w.sGyr = nGyr * sq;
  auto randDelay = [&]() -> int64_t { if (o.zeroDelay || r.p(.3)) return 0; if (o.dyadic) return r.i(-1, 4) * 15625000ll; return r.i(-20, 120) * 1000000ll; };
  auto period = [&]() -> int64_t { int64_t p = (int64_t)(1e9 / r.u(o.rateLo, o.rateHi)); p -= p % w.imuPeriod; return std::max(p, w.imuPeriod); };
  auto phase = [&]() -> int64_t { if (o.dyadic) return 0; if (r.p(.2)) return 0; int64_t lo = 2100000, hi = w.imuPeriod - 2100000; return lo >= hi ? w.imuPeriod / 2 : lo + (int64_t)(r.u() * (hi - lo)) / 10000 * 10000; };
  if (pose) {
    w.L = r.p(.5) ? r.u(.7, 1.6) : 1; if (o.calib) { w.qic = rq(r, r.p(.5) ? .1 : 1.5); w.pic = rv(r, .25); }
    w.hp("pose_sensor/init/p_ic/x", w.pic[0]); w.hp("pose_sensor/init/p_ic/y", w.pic[1]); w.hp("pose_sensor/init/p_ic/z", w.pic[2]);
    w.hp("pose_sensor/init/q_ic/w", w.qic.w()); w.hp("pose_sensor/init/q_ic/x", w.qic.x()); w.hp("pose_sensor/init/q_ic/y", w.qic.y()); w.hp("pose_sensor/init/q_ic/z", w.qic.z());
    w.cfg("pose_initial_scale", w.L * (r.p(.5) ? 1 + .01 * r.n() : 1));
    Sensor s; s.tag = T_POSE; s.sp = r.logu(.003, .05); s.sq = r.logu(.005, .04); s.period = std::max<int64_t>(period(), 60000000 / w.imuPeriod * w.imuPeriod); if (s.period < 51000000) s.period += w.imuPeriod; s.phase = phase(); s.latency = (int64_t)(r.u() * o.maxLatency) / 10000 * 10000 + 1000000; s.delayNs = randDelay();
    bool fixedCov = r.p(.35); s.topic = "/msf_updates/pose_with_covariance_input";
    if (fixedCov) { int v = r.i(0, 2); s.topic = v == 0 ? "/msf_updates/pose_input" : v == 1 && node != "position_pose" && !o.plain ? "/msf_updates/transform_input" : "/msf_updates/pose_with_covariance_input"; }
    else if (r.p(.3)) s.topic = "/msf_updates/odometry_input";
    w.hp("pose_sensor/pose_use_fixed_covariance", fixedCov); w.cfg("pose_noise_meas_p", s.sp); w.cfg("pose_noise_meas_q", s.sq); w.cfg("pose_delay", 1e-9 * s.delayNs);
    if (o.worldSensor && r.p(.3)) { w.worldSensor = false; w.hp("pose_sensor/pose_measurement_world_sensor", 0); }
    if (o.allowFixed) for (const char* f : {"pose_fixed_scale", "pose_fixed_p_ic", "pose_fixed_q_ic", "pose_fixed_p_wv", "pose_fixed_q_wv"}) if (r.p(f[11] == 'p' && f[12] == '_' && f[13] == 'w' ? .7 : .3)) w.cfg(f, 1);
    if (o.allowNoiseAux && r.p(.5)) for (const char* f : {"pose_noise_scale", "pose_noise_p_wv", "pose_noise_q_wv", "pose_noise_p_ic", "pose_noise_q_ic"}) if (r.p(.4)) w.cfg(f, r.logu(1e-4, 1e-2));
    w.sensors.push_back(s);
  }
  if (node == "pose_pressure") { Sensor s; s.tag = T_PRESS; s.topic = "/msf_updates/pressure_height"; s.sp = o.plain ? r.logu(.01, .02) : r.logu(.02, .2); w.cfg("press_noise_meas_p", s.sp); w.cfg("press_noise_bias_p", r.logu(.005, .05)); w.bp = r.u(-50, 50); s.period = w.imuPeriod; s.phase = phase(); s.latency = (int64_t)(r.u() * o.maxLatency) / 10000 * 10000 + 1000000; s.seq = (uint32_t)r.i(1, 20); w.sensors.push_back(s); }
  if (pos || sph) {
    w.pip = o.calib ? rv(r, .25) : V3::Zero();
    w.hp("position_sensor/init/p_ip/x", w.pip[0]); w.hp("position_sensor/init/p_ip/y", w.pip[1]); w.hp("position_sensor/init/p_ip/z", w.pip[2]);
    double yaw = w.m.e0[2] * 180 / M_PI; w.cfg(sph ? "yaw_init" : "position_yaw_init", yaw);
    if (o.allowFixed && r.p(.4)) w.cfg(sph ? "fixed_p_ip" : "position_fixed_p_ip", 1);
    if (o.allowNoiseAux && r.p(.3)) w.cfg(sph ? "noise_p_ip" : "position_noise_p_ip", r.logu(1e-4, 1e-2));
  }
  if (pos) {
    Sensor s; s.tag = T_POS; s.topic = node == "position" && r.p(.3) && !o.plain ? "/msf_updates/transform_input" : "/msf_updates/position_input"; s.sp = r.logu(.005, .05); s.period = period(); s.phase = phase(); s.latency = (int64_t)(r.u() * o.maxLatency) / 10000 * 10000 + 1000000; s.delayNs = randDelay();
    if (s.topic[14] == 't') { s.period = std::max(w.imuPeriod, s.period / 5 / w.imuPeriod * w.imuPeriod); s.seq = (uint32_t)r.i(1, 20); }
    w.hp("position_sensor/position_use_fixed_covariance", 1); w.hp("position_sensor/position_absolute_measurements", 1); w.cfg("position_noise_meas", s.sp); w.cfg("position_delay", 1e-9 * s.delayNs); w.sensors.push_back(s);
  }
  if (sph) {
    w.hp("spherical_position_sensor/absolute_measurements", 1);
    for (int k = 0; k < 2; ++k) { Sensor s; s.tag = k ? T_DIST : T_ANGLE; s.topic = k ? "/msf_updates/distance_input" : "/msf_updates/angle_input"; s.sp = r.logu(.004, .03); s.period = period(); s.phase = phase(); s.latency = (int64_t)(r.u() * o.maxLatency) / 10000 * 10000 + 1000000; s.delayNs = randDelay(); w.cfg(k ? "distance_noise_meas" : "angle_noise_meas", s.sp); w.cfg(k ? "distance_delay" : "angle_delay", 1e-9 * s.delayNs); w.sensors.push_back(s); }
  }
  // keep measurement times of different sensors apart
  if (!o.dyadic && w.sensors.size() > 1 && llabs(w.sensors[0].phase - w.sensors[1].phase) < 2100000 && !(w.sensors[0].phase == 0 && w.sensors[1].phase == 0)) w.sensors[1].phase = w.sensors[0].phase;
  return w;
}
void sortOps(std::vector<Op>& ops) { std::stable_sort(ops.begin(), ops.end(), [](const Op& a, const Op& b) { return a.at < b.at; }); }
bool isMeas(const Op& o) { int k = o.tag & 0xff; return k >= T_POSE && k <= T_DIST; }
int64_t measTime(const World& w, const Op& o) { for (auto& s : w.sensors) if (s.tag == (o.tag & 0xff)) return o.stamp - s.delayNs; return o.stamp; }
Nominal makeNominal(Rng& r, const std::string& node, const Opt& o) {
  Nominal n; n.w = makeWorld(r, node, o); World& w = n.w; Scenario& sc = n.sc;
  sc.node = node; sc.fill = 255; sc.start = w.t0 - 400000000; n.tInit = w.t0; n.tEnd = w.t0 + (int64_t)(o.dur * 1e9);
  int64_t lead = 300000000 / w.imuPeriod * w.imuPeriod;
  for (int64_t t = w.t0 - (r.p(.5) ? lead : 0); t <= n.tEnd; t += w.imuPeriod) sc.ops.push_back(w.imu(r, t));
  for (auto& s : w.sensors) if (s.on) for (int64_t t = w.t0 - lead + s.phase; t < n.tEnd - 40000000; t += s.period) sc.ops.push_back(w.meas(r, s, t));
  Op i = w.init(w.t0); sc.ops.push_back(i);
  sortOps(sc.ops); sc.params = w.params;
  return n;
}
}
