// A check decides one property: it generates cases from a seed and judges them by running the real node.
#ifndef CHECK_H
#define CHECK_H
#include <functional>
#include <map>
#include <set>
#include <string>
#include "oracle.h"
#include "ref.h"
#include "sim.h"
#include "world.h"
namespace chk {
using namespace sim; using oracle::Hist; using oracle::Tol; using oracle::Diff; using ref::VX; using ref::MX; using ref::V3; using ref::Q;
using world::kind; using world::isMeas; using world::isImu; using world::F_FAULT;

struct Case {                                   // everything that determines a judgement
  std::string check; uint64_t seed = 0; int variant = 0; Scenario sc; std::map<std::string, double> k;
  double knob(const std::string& n, double d = 0) const { auto it = k.find(n); return it == k.end() ? d : it->second; }
  // evidence only
  std::map<std::string, uint64_t> faults;
  void fault(const std::string& n, uint64_t c = 1) { faults[n] += c; }
};
enum { V_OK = 0, V_SKIP = 1, V_BAD = 2 };
struct Verdict {
  int st = V_OK; std::string cls, what; uint64_t hash = 0; std::map<std::string, double> stat; int badOp = -1;
  static Verdict skip(const std::string& w) { Verdict v; v.st = V_SKIP; v.cls = w; return v; }
  Verdict& bad(const std::string& c, const std::string& w, int op = -1) { if (st != V_BAD) { st = V_BAD; cls = c; what = w; badOp = op; } return *this; }
  void mix(const Trace& t) { hash = (hash ^ t.hash()) * 1099511628211ull + 12345; }
  void maxi(const std::string& n, double v) { auto it = stat.find(n); if (it == stat.end() || v > it->second) stat[n] = v; }
};
struct Check {
  std::string id; std::vector<std::string> nodes; int variants = 1;
  std::function<Case(Rng&, const std::string& node, int variant, bool thorough)> gen;
  std::function<Verdict(const Case&)> judge;
  bool minimizable = true;
};
std::vector<Check>& registry();
struct Reg { explicit Reg(const Check& c) { registry().push_back(c); } };
std::string fmt(const char* f, ...);
inline const std::vector<std::string> kAll = {"pose", "position", "pose_pressure", "position_pose", "spherical"}, kPose = {"pose", "pose_pressure", "position_pose"}, kMulti = {"pose_pressure", "position_pose", "spherical"};

// ---- helpers shared by the checks
extern const Tol kRef, kSame, kExact;
bool runOk(const Scenario& s, Trace& t, Verdict& v);    // runs; an abnormal end makes the verdict bad (class crash)
typedef std::function<bool(const Op&)> Pred;
Scenario without(const Scenario& s, const Pred& drop);
uint64_t pathHash(const Scenario& s);                   // identity of the interleaving: order of kinds and lateness classes
int64_t delayOf(const Scenario& s, int kind);           // configured delay of a kind of measurement at start-up [ns]
int64_t timeOf(const Scenario& s, const Op& o);         // measurement time of an op with the start-up configuration
struct RefRun { std::map<int, ref::Fate> fate; bool doubt = false; std::string why; uint64_t nFuzzy = 0, nNeg = 0, nHeld = 0, nLate = 0, nApplied = 0, nGated = 0, nRebase = 0, nStops = 0, nSpike = 0, maxHeld = 0; double gateMargin = 1e9; bool running = false; };
RefRun refRun(const Scenario& s, bool quiet = true);    // bookkeeping of the reference model only, or all of it
// Compares a recorded run with the reference model. Returns 0 agreement, 1 disagreement, 2 not comparable.
int refine(const Scenario& s, const Trace& t, bool strict, Verdict& v, std::string& what, int& op, const Tol& tol = kRef);
// Disagreement of s with the model is reported only when the control scenario agrees with it.
void refineWithControl(const Scenario& s, const Trace& t, const Scenario& control, Verdict& v, const std::string& cls, bool strict = true, const Tol& tol = kRef);
int lastInit(const Scenario& s);                        // index of the last initialization op, -1 if none
Hist after(const Hist& h, int op);                      // publications due to operations from this index on
bool finiteRec(const Rec& r);
inline bool hasSuffix(const std::string& a, const std::string& b) { return a.size() >= b.size() && a.compare(a.size() - b.size(), std::string::npos, b) == 0; }
// ---- building scenarios

void toExt(Scenario& s, bool current);   // IMU data through the interface for external propagation
void onTime(const world::World& w, Scenario& s);        // every measurement after the initialization arrives once the IMU covers it
void dropTies(const world::World& w, Scenario& s);      // no two measurements closer than 2.1 ms
int64_t settle(Rng& r, world::World& w, Scenario& s, int nImu = 6);   // one more on-time measurement per sensor and trailing IMU samples after everything else
struct Chaos { double lossImu = 0, lossMeas = 0, dup = 0, late = 0, outage = 0, burst = 0, swapImu = 0, ahead = 0; double maxLate = .4; };
Chaos randomChaos(Rng& r);
void chaos(Rng& r, const world::World& w, Case& c, const Chaos& x, int64_t from, int64_t to);
world::Opt vary(Rng& r, bool thorough, double lo = 1.2, double hi = 2.6);
void enableGate(Scenario& s, const world::World& w, double thr);   // outlier rejection on every sensor
Hist onlyProps(const Hist& h);
world::Nominal nominal(Rng& r, const std::string& node, const world::Opt& o, bool noThrottle = true);
}
#endif
