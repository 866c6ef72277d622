// Synthetic world: true motion of a body, its sensors, the links that carry their messages.
#ifndef WORLD_H
#define WORLD_H
#include "ref.h"
#include "sim.h"
namespace world {
using ref::V3; using ref::M3; using ref::Q; using ref::VX;
using sim::Op; using sim::Rng; using sim::Scenario;

struct Motion {                      // starts at rest at time 0
  V3 p0 = V3::Zero(); V3 A[2], w[2], ph[2]; V3 eA[2], ew[2]; V3 e0 = V3::Zero(); double T = 1; bool still = false;
  void eval(double t, V3& p, V3& v, V3& a, Q& q, V3& rate) const;   // rate in the body frame
};
enum { T_IMU = 1, T_POSE = 2, T_POS = 3, T_PRESS = 4, T_ANGLE = 5, T_DIST = 6, T_INIT = 7, T_RECONF = 8, T_HLI = 9, T_PROBE = 10 };  // Op.tag & 0xff
enum { F_FAULT = 0x100 };            // op was introduced or changed by a fault

struct Sensor {                      // one measurement stream
  int tag; std::string topic; int64_t period, phase; int64_t latency; double sp = .01, sq = .02; uint32_t seq = 1; bool on = true; int64_t delayNs = 0; bool sendCov = true;
};
struct World {
  std::string node; Motion m; V3 bw = V3::Zero(), ba = V3::Zero(); double L = 1; Q qwv = Q::Identity(), qic = Q::Identity(); V3 pwv = V3::Zero(), pic = V3::Zero(), pip = V3::Zero(); double bp = 0; double sAcc = 0, sGyr = 0;
  int64_t t0 = 0;                    // time at which the motion starts
  std::map<std::string, std::string> params; std::vector<Sensor> sensors;
  int64_t imuPeriod = 10000000, imuLatency = 1000000; bool worldSensor = true;
  Op imu(Rng& r, int64_t t) const;
  Op meas(Rng& r, Sensor& s, int64_t t) const;   // t: true time of the measurement; the stamp is t + delay
  Op reconf(const std::string& key, double v, int64_t at) const;
  Op init(int64_t at) const;
  std::string ns() const { return node == "spherical" ? "/msf_spherical_position_sensor" : "/msf_" + node + "_sensor"; }
  std::string cfgNs() const { return ns() + "/" + (node == "spherical" ? "spherical_position_sensor" : node + "_sensor"); }
  void setp(const std::string& k, double v);
  void cfg(const std::string& k, double v) { setp(cfgNs() + "/" + k, v); }
  void core(const std::string& k, double v) { setp(ns() + "/core/" + k, v); }
  void hp(const std::string& k, double v) { setp(ns() + "/" + k, v); }
  V3 truthP(int64_t t) const; Q truthQ(int64_t t) const; V3 truthV(int64_t t) const;
};
struct Opt {
  double dur = 2; bool dyadic = false; int hz = 0; double motion = 1; bool quietSensors = false; bool randomCfg = true; bool allowFixed = true; bool allowNoiseAux = true; bool zeroDelay = false; bool bigBase = true; double rateLo = 8, rateHi = 18; int64_t maxLatency = 30000000; bool mahAllowed = false; bool calib = true; bool worldSensor = false; double biasA = .02, biasW = .0005; bool plain = false;  // plain: no thinned streams, little pressure noise
};
World makeWorld(Rng& r, const std::string& node, const Opt& o);
// Nominal scenario: measurements before the initialization, initialization, then IMU + sensors, in order of delivery.
struct Nominal { World w; Scenario sc; int64_t tInit; int64_t tEnd; };
Nominal makeNominal(Rng& r, const std::string& node, const Opt& o);
void sortOps(std::vector<Op>& ops);             // by delivery time, stable
int64_t measTime(const World& w, const Op& o);  // stamp minus configured delay
bool isMeas(const Op& o);
inline int kind(const Op& o) { return o.tag & 0xff; }
inline bool isImu(const Op& o) { return (o.tag & 0xff) == T_IMU; }
}
#endif
