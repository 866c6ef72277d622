// Core types of the simulator: operations, scenarios, traces, execution.
#ifndef SIM_H
#define SIM_H
#include <stdint.h>
#include <map>
#include <string>
#include <vector>
#include <memory>
#include <functional>

namespace sim {

// ---------------------------------------------------------------- randomness
struct Rng {                                   // xoshiro256**, seeded by splitmix64
  uint64_t s[4];
  explicit Rng(uint64_t seed = 1) { for (auto& x : s) { seed += 0x9e3779b97f4a7c15ull; uint64_t z = seed; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; x = z ^ (z >> 31); } }
  uint64_t next() { auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }; uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return r; }
  double u() { return (next() >> 11) * 0x1.0p-53; }
  double u(double a, double b) { return a + (b - a) * u(); }
  int i(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); }  // inclusive
  bool p(double q) { return u() < q; }
  double n();                                  // standard normal
  double logu(double a, double b);             // log-uniform
  template<class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
};

// ---------------------------------------------------------------- operations
enum OpKind { OP_MSG = 0, OP_RECONF = 1, OP_SRV = 2, OP_CLOCK = 3, OP_SUBS = 4, OP_MEM = 5, OP_HLI = 6, OP_NOP = 7, OP_LIB = 8 };
struct Op {
  int kind = OP_MSG;
  int64_t at = 0;              // simulated time at which it is executed [ns]
  std::string name;            // topic / reconfigure namespace / service
  int64_t stamp = 0;           // header stamp [ns]
  uint32_t seq = 0;            // header seq
  std::vector<double> num;     // remaining numeric payload in field order (after the header)
  std::vector<std::pair<std::string, double>> kv;   // reconfigure settings
  int tag = 0;                 // meaning depends on the check (e.g. index of a sensor, marks faults)
  int64_t aux = 0;             // check specific (e.g. alternative delivery time)
};
struct Scenario {
  std::string node;
  std::map<std::string, std::string> params;  // resolved names
  std::vector<Op> ops;
  int64_t start = 0;           // clock at process start
  int fill = -1;               // heap fill byte (-1: none)
  std::map<std::string, int> subs;  // number of subscribers per topic (default 1)
  double startDelay = 0;
};
struct Rec {                    // one recorded output
  int op;                       // index of the operation during which it happened (-1: start-up)
  int topic;                    // index in topic table
  int64_t now;                  // simulated clock
  std::vector<double> num;
  std::vector<std::string> str;
};
enum Status { ST_OK = 0, ST_CRASH = 1, ST_EXC = 2, ST_HANG = 3, ST_EXIT = 4 };
struct Trace {
  Status status = ST_OK;
  std::string detail;           // signal / exception text
  int lastOp = -1;
  std::vector<std::string> topics;
  std::vector<Rec> recs;
  std::vector<std::pair<int, uint64_t>> mem;   // op index, bytes in use
  std::vector<uint64_t> heads;                 // number of records after each op (for time lines)
  uint64_t logWarn = 0, logErr = 0;
  int64_t simEnd = 0;
  uint64_t hash() const;
  int topicId(const std::string& n) const { for (size_t k = 0; k < topics.size(); ++k) if (topics[k] == n) return (int)k; return -1; }
};
Trace run(const Scenario& s);                  // executes in a forked child
extern uint64_t g_execs;                       // executions so far in this process
extern double g_simSeconds;                    // simulated seconds so far

inline double sec(int64_t ns) { return (double)(uint32_t)(ns / 1000000000ll) + 1e-9 * (double)(ns % 1000000000ll); }  // as ros::Time::toSec
inline int64_t ns(double s) { return (int64_t)__builtin_llround(s * 1e9); }

double wallNow();                              // real clock
const char* nodeKind();                        // which node binary this is
bool isAsan();
}
int node_main(int argc, char** argv);
#endif
