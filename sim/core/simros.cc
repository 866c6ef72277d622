// The simulated ROS bus, clock and the seams for time, sleeping and randomness.
#include <ros/ros.h>
#include <stdarg.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <random>
#include "sim.h"
#include "seams.h"

namespace simseam {
int64_t g_now = 0;              // simulated clock [ns]
bool g_active = false;          // inside a simulated process?
uint64_t g_warn = 0, g_err = 0;
sim::Rng g_devRandom(1);        // what the "hardware" random device returns
uint64_t g_sleeps = 0, g_clockReads = 0, g_devReads = 0;
int64_t g_monoOff = 0;          // monotonic clock minus wall clock
int64_t g_clockStep = 0;        // added to the clock at each read (0: frozen between events)
}
using namespace simseam;

extern "C" {
int usleep(useconds_t us) { if (g_active) { g_now += (int64_t)us * 1000; ++g_sleeps; return 0; } struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return (int)syscall(SYS_nanosleep, &ts, nullptr); }
int nanosleep(const struct timespec* r, struct timespec* rem) { if (g_active) { g_now += (int64_t)r->tv_sec * 1000000000ll + r->tv_nsec; ++g_sleeps; return 0; } return (int)syscall(SYS_nanosleep, r, rem); }
int clock_nanosleep(clockid_t c, int flags, const struct timespec* r, struct timespec* rem) {
  if (g_active) { int64_t t = (int64_t)r->tv_sec * 1000000000ll + r->tv_nsec; if (flags) { if (t > g_now) g_now = t; } else g_now += t; ++g_sleeps; return 0; }
  return (int)syscall(SYS_clock_nanosleep, c, flags, r, rem); }
int clock_gettime(clockid_t c, struct timespec* ts) noexcept {
  if (g_active && (c == CLOCK_REALTIME || c == CLOCK_MONOTONIC)) { ++g_clockReads; g_now += g_clockStep; int64_t v = c == CLOCK_MONOTONIC ? g_now + g_monoOff : g_now; ts->tv_sec = v / 1000000000ll; ts->tv_nsec = v % 1000000000ll; return 0; }
  return (int)syscall(SYS_clock_gettime, c, ts); }
int gettimeofday(struct timeval* __restrict tv, void* __restrict tz) noexcept {
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
time_t time(time_t* t) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
}
// std::random_device: seeded source instead of the hardware one.
namespace std {
random_device::result_type random_device::_M_getval() { ++g_devReads; return (result_type)(g_devRandom.next() >> 32); }
}

namespace ros {
Time Time::now() { return Time((uint32_t)(g_now / 1000000000ll), (uint32_t)(g_now % 1000000000ll)); }
void init(int&, char**, const std::string& name, uint32_t) { simros::Bus::get().nodeName = "/" + name; }
void spin() { auto& b = simros::Bus::get(); if (b.spin) b.spin(); }
namespace this_node {
std::string getName() { return simros::Bus::get().nodeName; }
void getSubscribedTopics(V_string& v) { v.clear(); for (auto& s : simros::Bus::get().subs) v.push_back(s.first); }
void getAdvertisedTopics(V_string& v) { v.clear(); for (auto& s : simros::Bus::get().pubs) v.push_back(s.first); }
}
namespace names { std::string resolve(const std::string& ns, const std::string& n) { return simros::Bus::get().resolve(ns, n); } }
}
namespace simros {
Bus& Bus::get() { static Bus* b = new Bus; return *b; }
std::string Bus::resolve(const std::string& ns, const std::string& name) const {
  std::string r;
  if (name.empty()) r = ns.empty() ? "/" : ns;
  else if (name[0] == '/') r = name;
  else if (name[0] == '~') r = nodeName + "/" + name.substr(1);
  else r = ns + "/" + name;
  std::string o;                         // clean: no double or trailing slashes
  for (char c : "/" + r) if (!(c == '/' && !o.empty() && o.back() == '/')) o += c;
  if (o.size() > 1 && o.back() == '/') o.pop_back();
  return o;
}
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } };
static NullBuf g_nullbuf;
std::ostream& LogStream() {
  static std::ostream nul(&g_nullbuf);
  static bool on = getenv("SIM_LOG") != nullptr;
  if (on) return std::cerr;
  return nul;
}
void LogCount(int l) { if (l == 1) ++g_warn; if (l == 2) ++g_err; }
void LogF(int l, const char* fmt, ...) {
  LogCount(l); char buf[2048]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap); LogStream() << buf << "\n"; }
}
