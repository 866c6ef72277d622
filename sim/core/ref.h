// Executable reference model: what an MSF node has to do with the messages it is given.
// A plain sequential error-state Kalman filter over a time line of IMU samples and measurements; whenever
// something arrives for the past, the time line is recomputed from there. Written from the published equations
// and the interface documentation, with numerically differentiated measurement models.
#ifndef REF_H
#define REF_H
#include <Eigen/Dense>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string.h>
#include "sim.h"

namespace ref {
typedef Eigen::Vector3d V3; typedef Eigen::Matrix3d M3; typedef Eigen::Quaterniond Q; typedef Eigen::VectorXd VX; typedef Eigen::MatrixXd MX;
M3 skew(const V3& v);
Q smallq(const V3& t);
extern const double kG;

struct Field { const char* name; int i, e, n, ne; bool quat; };   // index/size in the state and in the error state
struct Layout {
  std::vector<Field> f; int N = 16, n = 15;
  explicit Layout(const std::string& node);
  const Field* find(const char* nm) const { for (auto& x : f) if (!strcmp(x.name, nm)) return &x; return nullptr; }
};
enum Sens { S_POSE = 0, S_POS = 1, S_PRESS = 2, S_ANGLE = 3, S_DIST = 4 };
struct Meas {
  double t; Sens s; int id; VX z; MX R; std::vector<char> fixed; bool gate = false; double thr = 2.5; bool absolute = true; int op = -1; uint64_t arrival = 0;
};
typedef std::shared_ptr<Meas> MeasP;
struct Node {
  double t; V3 a, w; VX xp, x; MX Pp, P; std::vector<MeasP> ms; bool interp = false; bool ext = false; MX Phi, U;   // U: error transition of the updates applied here
};
enum Fate { F_NONE = 0, F_DISCARDED, F_THROTTLED, F_NOINIT, F_HELD, F_OLD, F_NOSTATE, F_DUP, F_APPLIED, F_GATED, F_RELSKIP };
struct Expect { bool update; double t; VX x; MX P; int op; };

class Filter {
 public:
  explicit Filter(const sim::Scenario& s);
  // Consume one operation; appends what has to be published because of it.
  void step(const sim::Op& o, int idx, std::vector<Expect>& out);
  // ---- results
  Layout lay;
  bool inited = false, running = false;
  bool heldInvolved = false;             // the last step applied a measurement that had been held back
  size_t pendingCount() const { return pending_.size(); }
  std::vector<std::string> doubts;       // reasons why the model cannot be compared exactly
  std::map<int, Fate> fate;              // per operation (messages of sensors)
  uint64_t nApplied = 0, nGated = 0, nFuzzy = 0, nNegScale = 0, nHeld = 0, nLate = 0, nInterp = 0, nRebase = 0, nStops = 0, nSpike = 0, nStaleImu = 0, nInits = 0, maxHeld = 0;
  int64_t now = 0;
  const Node& last() const { return nodes_.back(); }
  const std::list<Node>& nodes() const { return nodes_; }
  std::map<std::string, double> cfg;
  double minGateMargin = 1e9;            // relative distance of a gate decision to its threshold
  double minScaleSeen = 1e9;
  std::string node;
  double delayOf(Sens s) const;
  bool quiet = false;                    // do not numerically update (bookkeeping only)
 private:
  typedef std::list<Node>::iterator It;
  std::list<Node> nodes_; It lastImu_; std::list<MeasP> pending_; std::vector<MeasP> applied_;
  std::map<std::string, std::string> params_; std::string nn_;
  uint64_t arrivals_ = 0;
  // handlers
  bool poseSeen_ = false, posSeen_ = false, anySeen_[5] = {0};
  V3 zPoseP_ = V3::Zero(), zPos_ = V3::Zero(); Q zPoseQ_ = Q::Identity(); double zPress_ = 0; double zAng_[2] = {0, 0}, zDist_ = 0; double prevPose_ = 0;
  // fuzzy tracking
  std::vector<Eigen::Vector4d> qb_; int qcount_ = 0; size_t qpos_ = 0; bool hasFuzzy_;
  double par(const std::string& n, double d) const { auto it = params_.find(nn_ + "/" + n); return it == params_.end() ? d : strtod(it->second.c_str(), 0); }
  double c(const char* n) const { auto it = cfg.find(n); return it == cfg.end() ? 0 : it->second; }
  void init(double scale, std::vector<Expect>& out, int idx);
  void initHeight(double scale, std::vector<Expect>& out, int idx);
  void rebase(It it, double t);
  void propState(const Node& o, Node& n) const;
  void propCov(const Node& o, Node& n) const;
  void runFrom(It it, bool repropagate);
  void applyMeas(Node& n, Meas& m);
  void imu(const V3& a, const V3& w, double t, std::vector<Expect>& out, int idx);
  void ext(const V3& a, const V3& w, const VX& xs, bool already, double t, std::vector<Expect>& out, int idx);
  void add(MeasP m, std::vector<Expect>& out, int idx);
  void popPending(std::vector<Expect>& out, int idx);
  void poseMsg(const V3& p, const Q& q, const double* cov, double stamp, int idx, std::vector<Expect>& out);
  void posMsg(const V3& p, const double* cov, double stamp, int idx, std::vector<Expect>& out);
  VX predict(const VX& x, Sens s) const;
  VX diff(const VX& a, const VX& b, Sens s) const;   // a (-) b in measurement space
  VX plus(const VX& x, const VX& d) const;
  MX jac(const VX& x, Sens s) const;
};
// Difference of two states in the error state space: a (-) b
VX errorState(const Layout& l, const VX& a, const VX& b);
}
#endif
