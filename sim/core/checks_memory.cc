// C25: nothing that arrives crashes a node, makes it hang, or makes it publish what an uninitialized value says.
#include "check.h"
#include <math.h>
#include <algorithm>
namespace chk {
using namespace world;
static double special(Rng& r) { static const double v[] = {NAN, INFINITY, -INFINITY, 0, -0., 1, -1, 1e308, -1e308, 4.9e-324, 1e-310, 1e18, -1e18, 1e-9, 4294967296., -2147483649., 3.4e38, 1e40}; return v[r.i(0, (int)(sizeof v / sizeof *v) - 1)]; }
static int64_t badStamp(Rng& r, int64_t now) { switch (r.i(0, 6)) { case 0: return 0; case 1: return r.i(1, 1000); case 2: return 4294967295ll * 1000000000ll + 999999999; case 3: return 2147483648ll * 1000000000ll; case 4: return std::max<int64_t>(0, now - (int64_t)(1e9 * r.logu(1e-3, 1e9))); case 5: return std::min<int64_t>(4294967294000000000ll, now + (int64_t)(1e9 * r.logu(1e-3, 1e9))); default: return now; } }
struct In { const char* topic; int n; std::vector<int> ints; };      // payload sizes; ints: integer fields
static const std::vector<In> kIn = {{"/msf_core/imu_state_input", 37, {}}, {"/msf_updates/pose_with_covariance_input", 43, {}}, {"/msf_updates/transform_input", 7, {}}, {"/msf_updates/pose_input", 7, {}}, {"/msf_updates/odometry_input", 86, {}}, {"/msf_updates/position_input", 3, {}}, {"/msf_updates/navsatfix_input", 15, {0, 1, 14}}};
static bool isInt(const Op& o, size_t k) { if (hasSuffix(o.name, "navsatfix_input")) return k < 2 || k == 14; if (hasSuffix(o.name, "hl_state_input")) return true; if (hasSuffix(o.name, "angle_input") || hasSuffix(o.name, "distance_input")) return k < 3; return false; }
static double plain(Rng& r) { return r.p(.1) ? special(r) : r.p(.5) ? r.n() : r.n() * r.logu(1e-3, 1e4); }
static Op randomMessage(Rng& r, const std::string& node, int64_t at) {
  Op q; q.at = at; q.stamp = r.p(.7) ? at : badStamp(r, at); q.seq = (uint32_t)r.next(); double u = r.u();
  if (u < .25) {          // external state: vectors of any length
    q.name = "/msf_core/hl_state_input"; for (int k = 0; k < 6; ++k) q.num.push_back(plain(r)); int n = r.p(.5) ? 16 : r.p(.6) ? r.i(0, 15) : r.i(17, 60); q.num.push_back(n); for (int k = 0; k < n; ++k) q.num.push_back(k == 6 ? 1 : plain(r)); q.num.push_back(r.i(-1, 6)); return q; }
  if (u < .35) { q.name = "/msf_updates/pressure_height"; q.num = {0, plain(r)}; q.num.resize(r.i(2, 2)); return q; }
  if (u < .5 && node == "spherical") { q.name = r.p(.5) ? "/msf_updates/angle_input" : "/msf_updates/distance_input"; return q; }
  const In& in = kIn[r.next() % kIn.size()]; q.name = in.topic; for (int k = 0; k < in.n; ++k) q.num.push_back(plain(r)); for (int k : in.ints) q.num[k] = r.i(-1, 3); if (in.ints.size()) q.num[1] = r.i(0, 65535); return q;
}
static void mutate(Rng& r, Case& c) {
  Scenario& s = c.sc; if (s.ops.empty()) return; std::vector<Op>& ops = s.ops; bool dist = s.node == "distort"; int64_t lo = ops.front().at, hi = ops.front().at; for (auto& o : ops) { lo = std::min(lo, o.at); hi = std::max(hi, o.at); } auto at = [&] { return lo + (int64_t)(r.u() * (double)(hi - lo)); };
  auto any = [&]() -> Op& { return ops[r.next() % ops.size()]; };
  switch (r.i(0, dist ? 4 : 11)) {
    case 0: case 1: for (int k = r.i(1, 6); k > 0; --k) { Op& q = any(); if (q.kind != OP_MSG || q.num.empty()) continue; if (r.p(.15)) { for (size_t j = 0; j < q.num.size(); ++j) if (!isInt(q, j)) q.num[j] = special(r); } else { size_t j = r.next() % q.num.size(); if (!isInt(q, j)) q.num[j] = special(r); } c.fault("content"); } break;
    case 2: for (int k = r.i(1, 4); k > 0; --k) { Op& q = any(); if (q.kind != OP_MSG) continue; q.stamp = badStamp(r, q.at); c.fault("stamp"); } break;
    case 3: { size_t a = r.next() % ops.size(), n = std::min<size_t>(ops.size() - a, r.i(1, r.p(.2) ? 200 : 8)); if (n < ops.size()) ops.erase(ops.begin() + a, ops.begin() + a + n); c.fault("loss", n); break; }
    case 4: { for (int k = r.i(1, 6); k > 0; --k) { Op q = any(); if (q.kind == OP_CLOCK) continue; q.at = at(); ops.push_back(q); c.fault("duplicate"); } sortOps(ops); break; }
    case 5: { for (int k = r.i(1, 10); k > 0; --k) { ops.push_back(randomMessage(r, s.node, at())); c.fault("foreign_message"); } sortOps(ops); break; }
    case 6: { Op q; q.kind = OP_SRV; q.name = "/msf_" + s.node + "_sensor/pose_sensor/initialize_msf_" + (r.p(.5) ? "height" : "scale"); q.at = q.stamp = at(); q.num = {r.p(.4) ? special(r) : r.logu(.01, 100)}; q.tag = T_INIT; ops.push_back(q); sortOps(ops); c.fault("service_call"); break; }
    case 7: { std::vector<const Op*> rc; for (auto& o : ops) if (o.kind == OP_RECONF) rc.push_back(&o); if (rc.empty()) break; Op q = *rc[r.next() % rc.size()]; q.at = q.stamp = at(); if (!q.kv.empty() && r.p(.7)) q.kv[r.next() % q.kv.size()].second = r.p(.5) ? special(r) : r.logu(1e-6, 1e6); ops.push_back(q); sortOps(ops); c.fault("reconfigure"); break; }
    case 8: { Op q; q.kind = OP_CLOCK; size_t k = r.next() % ops.size(); q.at = q.stamp = std::max<int64_t>(0, ops[k].at + (int64_t)(1e9 * r.n() * r.logu(1e-3, 1e5))); ops.insert(ops.begin() + k, q); c.fault("clock_jump"); break; }
    case 9: { Op q; q.kind = OP_SUBS; static const char* t[] = {"/msf_core/pose", "/msf_core/odometry", "/msf_core/ext_state", "/msf_core/correction", "/msf_core/pose_after_update", "/msf_core/cov_core"}; q.name = t[r.i(0, 5)]; q.num = {(double)r.i(0, 2)}; q.at = q.stamp = at(); ops.push_back(q); sortOps(ops); c.fault("subscribers"); break; }
    case 10: { if (s.params.empty()) break; auto it = s.params.begin(); std::advance(it, r.next() % s.params.size()); it->second = fmt("%.17g", r.p(.5) ? special(r) : r.logu(1e-9, 1e9)); c.fault("parameter"); break; }
    case 11: { Op q = any(); if (q.kind != OP_MSG) break; int n = r.i(10, 300); for (int k = 0; k < n; ++k) { Op x = q; x.at = q.at; x.stamp = std::min<int64_t>(4294967294000000000ll, q.stamp + (int64_t)k * (r.p(.5) ? 1000 : 3000000)); x.seq = q.seq + k; ops.push_back(x); } sortOps(ops); c.fault("flood"); break; }
  }
}
static Case genC25(Rng& r, const std::string& node, int variant, bool th) {
  std::vector<const Check*> src; for (auto& k : registry()) if (k.id != "C25" && k.id != "C10" && k.id != "C21" && k.id != "C15" && std::find(k.nodes.begin(), k.nodes.end(), node) != k.nodes.end()) src.push_back(&k);
  std::sort(src.begin(), src.end(), [](const Check* a, const Check* b) { return a->id < b->id; }); const Check* k = src[r.next() % src.size()];
  Case c = k->gen(r, node, r.i(0, k->variants - 1), th); if (variant == 1) for (int n = r.i(1, 8); n > 0; --n) mutate(r, c);
  if (c.sc.ops.size() > 2500) c.sc.ops.resize(2500); c.k["fill"] = r.p(.3) ? 1 : r.i(1, 254); return c;
}
static Verdict judgeC25(const Case& c) {
  Verdict v; Trace t; Scenario s = c.sc; s.fill = 255; if (!runOk(s, t, v)) return v; v.stat["publications"] += (double)t.recs.size(); if (isAsan()) return v;
  Trace u; s.fill = (int)c.knob("fill", 1); if (!runOk(s, u, v)) return v; if (t.hash() == u.hash()) { v.stat["compared.fills"] += 1; return v; }
  for (size_t k = 0; k < std::min(t.recs.size(), u.recs.size()); ++k) { const Rec &a = t.recs[k], &b = u.recs[k]; if (t.topics[a.topic] != u.topics[b.topic] || a.op != b.op) return v.bad("uninitialized", fmt("publication %zu depends on the contents of fresh memory", k), a.op); for (size_t j = 0; j < std::min(a.num.size(), b.num.size()); ++j) if (!(a.num[j] == b.num[j]) && !(std::isnan(a.num[j]) && std::isnan(b.num[j]))) return v.bad("uninitialized", fmt("field %zu of %s depends on the contents of fresh memory (%.6g or %.6g)", j, t.topics[a.topic].c_str(), a.num[j], b.num[j]), a.op); }
  return v.bad("uninitialized", "what is published depends on the contents of fresh memory");
}
static Reg r25({"C25", {"pose", "position", "pose_pressure", "position_pose", "spherical", "distort"}, 2, genC25, judgeC25});
}
