// Checks about what is published and about the external propagation of the state.
#include "check.h"
#include <math.h>
#include <string.h>
#include <algorithm>
namespace chk {
using namespace world;
// ------------------------------------------------------------------ C16: publications
static const char* kProp[] = {"/msf_core/pose", "/msf_core/odometry", "/msf_core/ext_state"};
static const char* kUpd[] = {"/msf_core/state_out", "/msf_core/correction", "/msf_core/pose_after_update", "/tf", "/msf_core/cov_core", "/msf_core/cov_aux", "/msf_core/cov_core_aux"};
static Case genC16(Rng& r, const std::string& node, int variant, bool th) {
  Case c; Opt o = vary(r, th, 1.0, 2.2); Nominal n = nominal(r, node, o, r.p(.6)); c.sc = n.sc; World& w = n.w;
  if (r.p(.5)) { c.sc.params[w.ns() + "/core/msf_output_frame"] = "out_frame"; c.sc.params[w.ns() + "/core/odometry_child_frame"] = "child_frame"; c.sc.params[w.ns() + "/core/tf_target_frame"] = "target_frame"; }
  if (variant == 1) { for (auto t : kProp) if (r.p(.5)) c.sc.subs[t] = 0; for (auto t : kUpd) if (r.p(.5)) c.sc.subs[t] = 0; c.fault("no_subscriber", c.sc.subs.size());
    for (int k = r.i(0, 6); k > 0; --k) { Op q; q.kind = OP_SUBS; q.name = r.p(.5) ? kProp[r.i(0, 2)] : kUpd[r.i(0, 6)]; q.num = {(double)r.i(0, 2)}; q.at = n.tInit + (int64_t)(r.u() * (n.tEnd - n.tInit)); c.sc.ops.push_back(q); c.fault("subscriber_joins_or_leaves"); } sortOps(c.sc.ops); }
  if (r.p(.15)) { c.sc.params[w.ns() + "/core/data_playback"] = "1"; c.k["playback"] = 1; }
  if (r.p(.7)) { Chaos x = randomChaos(r); chaos(r, w, c, x, n.tInit + 60000000, n.tEnd - 60000000); }
  if (r.p(.25)) { c.sc.ops.push_back(w.init(n.tInit + (int64_t)(r.u(.3, .8) * (n.tEnd - n.tInit)))); c.fault("reinitialized"); sortOps(c.sc.ops); }
  settle(r, w, c.sc); return c;
}
struct Near { double worst = 0; bool ok(double a, double b, double tol) { double e = fabs(a - b); if (!(e <= tol)) return false; worst = std::max(worst, e / tol); return true; } };
static bool eq(const double* a, const double* b, int n, double tol) { for (int k = 0; k < n; ++k) if (!(fabs(a[k] - b[k]) <= tol * (1 + fabs(b[k])))) return false; return true; }
static Verdict judgeC16(const Case& c) {
  Verdict v; const Scenario& s = c.sc; ref::Layout l(s.node); World w; w.node = s.node; Trace t; if (!runOk(s, t, v)) return v;
  auto par = [&](const char* n, const char* d) { auto it = s.params.find(w.ns() + "/core/" + n); return it == s.params.end() ? std::string(d) : it->second; };
  std::string fOut = par("msf_output_frame", "world"), fChild = par("odometry_child_frame", "imu"), fTf = par("tf_target_frame", "state");
  std::map<std::string, int> subs = s.subs; auto has = [&](const char* n) { auto it = subs.find(n); return it == subs.end() || it->second > 0; };
  ref::Filter m(s); m.quiet = true; std::vector<ref::Expect> ex; size_t pos = 0; int tid[2][7]; for (int k = 0; k < 3; ++k) tid[0][k] = t.topicId(kProp[k]); for (int k = 0; k < 7; ++k) tid[1][k] = t.topicId(kUpd[k]);
  // no measurement may be judged when the model and the node could disagree about a threshold: those counts belong to no one
  size_t nProp = 0, nUpd = 0; const double N1 = 1e-9;
  for (size_t k = 0; k < s.ops.size(); ++k) {
    if (s.ops[k].kind == OP_SUBS) { subs[s.ops[k].name] = (int)s.ops[k].num[0]; }
    uint64_t in = m.nInits; ex.clear(); m.step(s.ops[k], (int)k, ex); if (!m.doubts.empty()) break; bool isInit = m.nInits != in;
    std::vector<const Rec*> P[3], U[7]; std::vector<bool> order; bool afterState = false; (void)afterState;
    for (; pos < t.recs.size() && t.recs[pos].op <= (int)k; ++pos) { if (t.recs[pos].op < (int)k) continue; const Rec& r = t.recs[pos]; for (int j = 0; j < 3; ++j) if (r.topic == tid[0][j]) { P[j].push_back(&r); if (P[j].size() > std::max(P[(j + 1) % 3].size(), P[(j + 2) % 3].size())) order.push_back(false); } for (int j = 0; j < 7; ++j) if (r.topic == tid[1][j]) { if (j == 1 && isInit) continue; U[j].push_back(&r); if (j == 0) order.push_back(true); } }
    std::vector<double> tp, tu; for (auto& e : ex) (e.update ? tu : tp).push_back(e.t);
    for (int j = 0; j < 3; ++j) { if (P[j].size() > tp.size() || (has(kProp[j]) && P[j].size() != tp.size())) return v.bad("count", fmt("%zu messages on %s, expected %zu for this %s", P[j].size(), kProp[j], tp.size(), isImu(s.ops[k]) ? "IMU sample" : "message"), (int)k); }
    for (int j = 0; j < 7; ++j) { if (U[j].size() > tu.size() || (has(kUpd[j]) && U[j].size() != tu.size())) return v.bad("count", fmt("%zu messages on %s, expected %zu for this message", U[j].size(), kUpd[j], tu.size()), (int)k); }
    { size_t q = 0; bool anyP = P[0].size() || P[1].size() || P[2].size(); for (auto& e : ex) { if (!e.update && !anyP) continue; if (e.update && U[0].empty()) continue; if (q >= order.size() || order[q] != e.update) return v.bad("order", "propagated and updated estimates are published in the wrong order", (int)k); ++q; } }
    for (size_t i = 0; i < tp.size(); ++i) {
      ++nProp; const double *p = nullptr, *o = nullptr, *e = nullptr; if (i < P[0].size()) p = &P[0][i]->num[3]; if (i < P[1].size()) o = &P[1][i]->num[3]; if (i < P[2].size()) e = &P[2][i]->num[3];
      for (int j = 0; j < 3; ++j) if (i < P[j].size()) { if (fabs(oracle::stampOf(*P[j][i]) - tp[i]) > 2e-6) return v.bad("stamp", fmt("%s is stamped %.9f, the state is that of %.9f", kProp[j], oracle::stampOf(*P[j][i]), tp[i]), (int)k); if (P[j][i]->str.empty() || P[j][i]->str[0] != fOut) return v.bad("frame", fmt("%s does not name the configured frame", kProp[j]), (int)k); }
      if (o && (P[1][i]->str.size() < 2 || P[1][i]->str[1] != fChild)) return v.bad("frame", "odometry does not name the configured child frame", (int)k);
      if (p && o && (!eq(p, o, 7, N1) || !eq(p + 7, o + 7, 36, N1))) return v.bad("agree", "pose and odometry of one estimate do not agree", (int)k);
      if (p && e && !eq(p, e, 7, N1)) return v.bad("agree", "pose and external state of one estimate do not agree", (int)k);
      if (o && e && !eq(o, e, 7, N1)) return v.bad("agree", "odometry and external state of one estimate do not agree", (int)k);
      if (o && e) { Q q(o[6], o[3], o[4], o[5]); V3 b = q.conjugate() * V3(e[7], e[8], e[9]); if (!eq(o + 43, b.data(), 3, 1e-7)) return v.bad("velocity", "odometry does not carry the velocity in the body frame", (int)k); }
    }
    for (size_t i = 0; i < tu.size(); ++i) {
      ++nUpd; for (int j = 0; j < 7; ++j) if (j != 3 && i < U[j].size() && fabs(oracle::stampOf(*U[j][i]) - tu[i]) > 2e-6) return v.bad("stamp", fmt("%s is stamped %.9f, the newest state is that of %.9f", kUpd[j], oracle::stampOf(*U[j][i]), tu[i]), (int)k);
      const double *x = nullptr, *a = nullptr, *f = nullptr; if (i < U[0].size() && U[0][i]->num.size() >= 4u + l.N && (int)U[0][i]->num[3] == l.N) x = &U[0][i]->num[4]; else if (has(kUpd[0])) return v.bad("size", "state_out does not have the size of the state", (int)k);
      if (i < U[2].size()) { a = &U[2][i]->num[3]; if (U[2][i]->str.empty() || U[2][i]->str[0] != fOut) return v.bad("frame", "pose_after_update does not name the configured frame", (int)k); }
      if (i < U[3].size()) { f = &U[3][i]->num[3]; if (U[3][i]->str.size() < 2 || U[3][i]->str[0] != fOut || U[3][i]->str[1] != fTf) return v.bad("frame", "the transform does not name the configured frames", (int)k); }
      auto pose = [&](const double* d) { if (!x) return true; double e[7] = {x[0], x[1], x[2], x[7], x[8], x[9], x[6]}; return eq(d, e, 7, N1); };
      if (a && !pose(a)) return v.bad("agree", "pose_after_update is not the pose of state_out", (int)k);
      if (f && !pose(f)) return v.bad("agree", "the broadcast transform is not the pose of state_out", (int)k);
      MX C[3]; int rows[3] = {15, l.n - 15, 15}, cols[3] = {15, l.n - 15, l.n - 15};
      for (int j = 0; j < 3; ++j) if (i < U[4 + j].size()) { const std::vector<double>& d = U[4 + j][i]->num; if (d.size() < 6 || (int)d[3] != rows[j] || (int)d[4] != cols[j] || (int)d[5] != rows[j] * cols[j]) return v.bad("size", fmt("%s does not have the size of the covariance", kUpd[4 + j]), (int)k); C[j] = Eigen::Map<const Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>>(&d[6], rows[j], cols[j]); if (j < 2 && oracle::covErr(C[j], C[j].transpose()) > 1e-6) return v.bad("symmetry", fmt("%s is not symmetric", kUpd[4 + j]), (int)k); }
      if (a && C[0].size()) { int ix[6] = {0, 1, 2, 6, 7, 8}; for (int y = 0; y < 6; ++y) for (int z = 0; z < 6; ++z) if (fabs(a[7 + 6 * y + z] - C[0](ix[y], ix[z])) > 1e-9 * (1 + fabs(C[0](ix[y], ix[z])))) return v.bad("agree", "the covariance of pose_after_update is not that of cov_core", (int)k); }
      if (i < U[1].size()) { const std::vector<double>& d = U[1][i]->num; if (d.size() < 3 + 6 + 1 + 16 + 1 || (int)d[9] != 16) return v.bad("size", "a correction does not have the size of the core state", (int)k);
        if (c.knob("playback")) { for (int q = 0; q < 16; ++q) if (d[10 + q] != (q == 6 ? 1 : 0)) return v.bad("playback", "data is played back but a correction is not the identity", (int)k); if ((int)d[26] != 2) return v.bad("playback", "data is played back but a correction is not flagged as initialization", (int)k); }
        else if ((int)d[26] != 3) return v.bad("flag", "a correction is not flagged as correction", (int)k); }
    }
  }
  v.stat["propagations"] += (double)nProp; v.stat["updates"] += (double)nUpd; if (!nProp || !nUpd) return v.st == V_OK ? Verdict::skip(m.doubts.empty() ? "nothing published" : m.doubts[0]) : v;
  // rates and their uncertainty, against the reference model (as long as that agrees with the pose)
  if (c.variant == 0) {
    ref::Filter f(s); int to = tid[0][1], te = tid[0][2]; std::vector<const Rec*> od, es; for (auto& r : t.recs) { if (r.topic == to) od.push_back(&r); if (r.topic == te) es.push_back(&r); } size_t q = 0; uint64_t n = 0;
    for (size_t k = 0; k < s.ops.size(); ++k) { ex.clear(); f.step(s.ops[k], (int)k, ex); if (!f.doubts.empty() || f.nFuzzy || f.nNegScale || f.heldInvolved) break;
      for (; q < od.size() && od[q]->op <= (int)k; ++q) { if (od[q]->op != (int)k || s.ops[k].name != "/msf_core/imu_state_input") continue; const ref::Expect* e = nullptr; for (auto& x : ex) if (!x.update) { e = &x; break; } if (!e || ex.size() != 1) continue;
        const double* d = &od[q]->num[3]; VX y = e->x; y.segment<3>(0) = V3(d[0], d[1], d[2]); y[6] = d[6]; y[7] = d[3]; y[8] = d[4]; y[9] = d[5]; if (q < es.size()) y.segment<3>(3) = V3(es[q]->num[10], es[q]->num[11], es[q]->num[12]); if (oracle::stateErr(l, y, e->x, e->P) > 3e-3) return v;
        V3 wm(s.ops[k].num[13], s.ops[k].num[14], s.ops[k].num[15]), wb = wm - e->x.segment<3>(10); double sb = sqrt(e->P(9, 9) + e->P(10, 10) + e->P(11, 11)); V3 g(d[46], d[47], d[48]); double er = (g - wb).norm() / (sb + 1e-4); v.maxi("max:rate", er); ++n;
        if (!(er < 2e-2)) return v.bad("rate", fmt("the angular velocity is not the measured one minus the bias (%.3g standard deviations)", er), (int)k);
        Q qq(e->x[6], e->x[7], e->x[8], e->x[9]); V3 vb = qq.conjugate() * e->x.segment<3>(3); Eigen::Matrix<double, 3, 6> J; J << qq.conjugate().toRotationMatrix(), ref::skew(vb); MX VA(6, 6); VA << e->P.block<3, 3>(3, 3), e->P.block<3, 3>(3, 6), e->P.block<3, 3>(6, 3), e->P.block<3, 3>(6, 6); MX want = MX::Zero(6, 6); want.topLeftCorner<3, 3>() = J * VA * J.transpose(); double ng = 0; { auto it = f.cfg.find("core_noise_gyr"); if (it != f.cfg.end()) ng = it->second; } want.bottomRightCorner<3, 3>() = e->P.block<3, 3>(9, 9) + MX::Identity(3, 3) * ng * ng;
        MX got(6, 6); for (int i = 0; i < 36; ++i) got(i / 6, i % 6) = d[49 + i]; got.topRightCorner<3, 3>().setZero(); got.bottomLeftCorner<3, 3>().setZero(); double ce = oracle::covErr(got, want); v.maxi("max:twistcov", ce);
        if (!(ce < 2e-2)) return v.bad("twistcov", fmt("the uncertainty of the velocities in odometry is not that of the state (%.3g relative)", ce), (int)k); } }
    v.stat["rates.compared"] += (double)n; }
  return v;
}
static Reg r16({"C16", kAll, 2, genC16, judgeC16});

// ------------------------------------------------------------------ C17: external propagation in closed loop
static Case genC17(Rng& r, const std::string& node, int variant, bool th) {
  Case c; Opt o = vary(r, th, 1.2, 2.4); Nominal n = nominal(r, node, o); c.sc = n.sc; World& w = n.w; bool faults = variant != 0; int mode = r.p(.5); int64_t from = n.tInit + 60000000, to = n.tEnd - 60000000;
  if (variant == 2) { c.sc.params[w.ns() + "/core/data_playback"] = "1"; c.k["playback"] = 1; mode = 1; }
  if (faults && r.p(.6)) { Chaos x; x.late = r.p(.6) ? r.u(0, .4) : 0; x.lossMeas = r.u(0, .3); x.dup = r.u(0, .2); x.maxLate = .2; chaos(r, w, c, x, from, to); }
  if (faults && r.p(.2)) { c.sc.ops.push_back(w.init(n.tInit + (int64_t)(r.u(.3, .7) * (n.tEnd - n.tInit)))); c.fault("reinitialized"); sortOps(c.sc.ops); }
  settle(r, w, c.sc, 10);
  double pLoss = r.p(.5) ? r.u(0, .1) : 0, pDrop = r.p(.5) ? r.u(0, .5) : 0, pTwice = r.p(.3) ? r.u(0, .3) : 0, pDup = r.p(.4) ? r.u(0, .2) : 0, pBack = r.p(.4) ? .03 : 0, pSlow = r.p(.5) ? r.u(0, .8) : 0; int back = 0, kept = 0; std::vector<Op> out;
  for (auto q : c.sc.ops) { if (!isImu(q)) { out.push_back(q); continue; }
    bool f = faults && q.at >= from && q.at < to - 40000000; Op h; h.kind = OP_HLI; h.at = q.at; h.stamp = q.stamp; h.seq = q.seq; h.tag = T_HLI; h.num.assign(12, 0); for (int k = 0; k < 3; ++k) { h.num[1 + k] = q.num[13 + k]; h.num[4 + k] = q.num[25 + k]; } h.num[7] = h.num[8] = 1; h.num[11] = mode;
    if (f && !back && r.p(pBack)) back = r.i(2, 8); if (f && r.p(pLoss)) { h.num[7] = 0; c.fault("state_lost"); } if (back && f) { --back; ++kept; h.num[7] = 2; c.fault("state_delayed"); } else if (kept) { for (; kept; --kept) { Op g = h; g.at = h.at - 1; g.num.assign(1, 2); out.push_back(g); } }
    if (f && r.p(pDrop)) { h.num[9] = 1; c.fault("correction_lost"); } if (f && r.p(pSlow)) { h.num[8] = 0; c.fault("correction_delayed"); } if (f && r.p(pTwice)) { h.num[10] = 1; c.fault("correction_repeated"); }
    out.push_back(h); if (f && r.p(pDup)) { Op g = h; g.at += 1; g.num.assign(1, 1); out.push_back(g); c.fault("state_repeated"); } }
  c.sc.ops = out; return c;
}
static Verdict judgeC17(const Case& c) {
  Verdict v; const Scenario& s = c.sc; ref::Layout l(s.node); Trace t; if (!runOk(s, t, v)) return v; bool playback = c.knob("playback") != 0;
  int th = t.topicId("hli"), tc = t.topicId("/msf_core/correction"), ts = t.topicId("/msf_core/state_out"), te = t.topicId("/msf_core/ext_state"); uint64_t nCorr = 0, nInit = 0, nLoop = 0;
  // what the node was sent, as a scenario of its own
  Scenario b = s, ctl; for (auto& o : b.ops) if (o.kind == OP_HLI) o.kind = OP_NOP; ctl = b;
  std::vector<std::vector<const Rec*>> per(s.ops.size()); for (auto& r : t.recs) if (r.op >= 0 && (r.topic == th || r.topic == tc || r.topic == ts || r.topic == te)) per[r.op].push_back(&r);
  for (size_t k = 0; k < per.size(); ++k) for (auto* r : per[k]) if (r->topic == th && r->num[2] != 0) {
    Op& o = b.ops[k]; o.kind = OP_MSG; o.name = "/msf_core/hl_state_input"; o.tag = T_IMU; o.seq = (uint32_t)r->num[20]; o.stamp = (int64_t)r->num[21] * 1000000000ll + (int64_t)r->num[22]; o.num.assign(r->num.begin() + 23, r->num.end()); if (playback) o.num.back() = 0;
    Op& q = ctl.ops[k]; q = o; q.name = "/msf_core/imu_state_input"; q.num.assign(37, 0); q.num[3] = 1; for (int j = 0; j < 3; ++j) { q.num[13 + j] = o.num[j]; q.num[25 + j] = o.num[3 + j]; } }
  ref::Filter m(b); m.quiet = true; std::vector<ref::Expect> ex; VX hl(16), lastEst, sent(16); bool have = false, estHave = false; bool fresh = false; size_t since = 0;
  for (size_t k = 0; k < s.ops.size(); ++k) {
    uint64_t in = m.nInits; ex.clear(); m.step(b.ops[k], (int)k, ex); if (!m.doubts.empty()) break; bool isInit = m.nInits != in; std::vector<const Rec*> C, S; const Rec* H = nullptr; const Rec* E = nullptr;
    for (auto* r : per[k]) { if (r->topic == th) H = r; if (r->topic == tc) C.push_back(r); if (r->topic == ts) S.push_back(r); if (r->topic == te) E = r; }
    if (H && H->num[2] != 0) { have = true; for (int j = 0; j < 16; ++j) hl[j] = H->num[30 + j]; }
    if (isInit) {
      if (C.size() != 1 || (int)C[0]->num[26] != 2 || (int)C[0]->num[9] != 16) return v.bad("init", fmt("an initialization sent %zu messages to the external propagator", C.size()), (int)k);
      const VX& x = m.last().x; for (int j = 0; j < 16; ++j) { double d = fabs(C[0]->num[10 + j] - x[j]), tol = 1e-6 * (1 + fabs(x[j])); if (j >= 6 && j < 10) d = std::min(d, fabs(C[0]->num[10 + j] + x[j])); if (!(d <= tol)) { bool q = j >= 6 && j < 10; if (q) { double e = 0, e2 = 0; for (int z = 6; z < 10; ++z) { e = std::max(e, fabs(C[0]->num[10 + z] - x[z])); e2 = std::max(e2, fabs(C[0]->num[10 + z] + x[z])); } if (std::min(e, e2) < 1e-6) continue; } return v.bad("init", fmt("entry %d of the initialization message is %.9g, the initial state is %.9g", j, C[0]->num[10 + j], x[j]), (int)k); } }
      ++nInit; estHave = false; since = 0; continue;
    }
    // closed loop: a correction applied at once makes both states the same
    if (H && (int)H->num[0] == 0) {
      if (!playback && fresh && since && estHave && (int)H->num[1] == 1) { double dn = 0; for (int j = 0; j < 16; ++j) if (j < 6 || j > 9) dn = std::max(dn, fabs(H->num[4 + j] - lastEst[j]) / (1 + fabs(lastEst[j]))); Q q(H->num[10], H->num[11], H->num[12], H->num[13]), e(lastEst[6], lastEst[7], lastEst[8], lastEst[9]); dn = std::max(dn, 2 * (q.conjugate() * e).vec().norm()); v.maxi("max:disagreement", dn); ++nLoop; if (!(dn < 2e-6)) return v.bad("loop", fmt("the external propagator differs from the estimate by %.3g after a correction", dn), (int)k); }
      fresh = H->num[2] != 0; since = 0;   // the node knows the state which the propagator has now
    } else if (H) fresh = false;
    since += C.size();
    if (C.size() != S.size()) return v.bad("count", fmt("%zu corrections for %zu updates", C.size(), S.size()), (int)k);
    for (size_t i = 0; i < C.size(); ++i) {
      const double* d = &C[i]->num[10]; const double* x = &S[i]->num[4]; int flag = (int)C[i]->num[26];
      if (playback) { bool id = flag == 2; for (int j = 0; j < 16; ++j) id = id && d[j] == (j == 6 ? 1 : 0); if (!id) return v.bad("playback", "data is played back but a correction is not the identity marked as initialization", (int)k); continue; }
      if (flag != 3) return v.bad("flag", "a correction is not marked as correction", (int)k);
      lastEst = Eigen::Map<const VX>(x, 16); estHave = true; if (!have) continue; ++nCorr;
      for (int j = 0; j < 16; ++j) if (j < 6 || j > 9) { double e = fabs(hl[j] + d[j] - x[j]); if (!(e <= 3e-7 * (1e-2 + fabs(d[j]) + fabs(x[j])))) return v.bad("correction", fmt("external state plus correction differs from the estimate by %.3g in entry %d", e, j), (int)k); }
      Q q = Q(hl[6], hl[7], hl[8], hl[9]).normalized() * Q(d[6], d[7], d[8], d[9]), e(x[6], x[7], x[8], x[9]); double a = 2 * (q.conjugate() * e).vec().norm(); if (!(a <= 2e-6)) return v.bad("correction", fmt("external attitude with the correction differs from the estimate by %.3g rad", a), (int)k);
    }
  }
  v.stat["corrections"] += (double)nCorr; v.stat["initializations"] += (double)nInit; v.stat["closed.loop.agreements"] += (double)nLoop;
  if (!m.doubts.empty()) return v.st == V_OK ? Verdict::skip(m.doubts[0]) : v; if (!nInit || (!nCorr && !playback)) return Verdict::skip("no corrections");
  refineWithControl(b, t, ctl, v, "external", true, Tol{.05, .02}); return v;
}
static Reg r17({"C17", kAll, 3, genC17, judgeC17});
}
