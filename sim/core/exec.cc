// Runs one scenario in a forked child: the real node's main() with the simulator as its event loop.
#include <pthread.h>
#include <ros/ros.h>
#include <malloc.h>
#include <math.h>
#include <signal.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
#include "sim.h"
#include "seams.h"

namespace sim {
uint64_t g_execs = 0; double g_simSeconds = 0;
const char* nodeKind() { return program_invocation_short_name; }
double wallNow() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + 1e-9 * ts.tv_nsec; }
bool isAsan() {
#ifdef __SANITIZE_ADDRESS__
  return true;
#else
  return false;
#endif
}
double Rng::n() { double a = u(), b = u(); if (a < 1e-300) a = 1e-300; return sqrt(-2 * log(a)) * cos(2 * M_PI * b); }
double Rng::logu(double a, double b) { return exp(u(log(a), log(b))); }

// ---- shared memory protocol: a stream of 8-byte words
struct Shm {
  volatile uint64_t used;      // words written
  volatile uint64_t nrec;
  volatile int64_t lastOp;
  volatile int64_t status;     // 0 running, 1 finished, 2 exception
  volatile int64_t now;
  volatile uint64_t warn, err, overflow;
  volatile uint64_t nmem; volatile uint64_t mem[2][4096];
  volatile uint64_t ntopic; char topic[64][64];
  char detail[1024];
  double data[1];
};
static const size_t kShmBytes = 512ull << 20;
static Shm* g_shm = nullptr;
static int topicIndex(const std::string& t) {
  Shm* s = g_shm;
  for (uint64_t k = 0; k < s->ntopic; ++k) if (t == s->topic[k]) return (int)k;
  if (s->ntopic >= 64) return 63;
  strncpy(s->topic[s->ntopic], t.c_str(), 63); s->ntopic = s->ntopic + 1; return (int)s->ntopic - 1;
}
static int g_op = -1;
static void record(const std::string& topic, const simros::FlatMsg& f) {
  Shm* s = g_shm;
  size_t strw = 0; for (auto& x : f.str) strw += 1 + (x.size() + 7) / 8;
  size_t need = 6 + f.num.size() + strw;
  if ((char*)&s->data[s->used + need] > (char*)s + kShmBytes) { s->overflow = s->overflow + 1; return; }
  double* d = s->data + s->used;
  d[0] = g_op; d[1] = topicIndex(topic); memcpy(d + 2, &simseam::g_now, 8); d[3] = (double)f.num.size(); d[4] = (double)f.str.size(); d[5] = (double)need;
  memcpy(d + 6, f.num.data(), f.num.size() * 8);
  double* q = d + 6 + f.num.size();
  for (auto& x : f.str) { *q++ = (double)x.size(); size_t w = (x.size() + 7) / 8; memset((void*)q, 0, w * 8); memcpy((void*)q, x.data(), x.size()); q += w; }
  s->used = s->used + need; s->nrec = s->nrec + 1;
}
static const Scenario* g_sc = nullptr;
static std::map<std::string, int> g_subs;
// Simulated external propagator (high-level controller): integrates the IMU, sends its state in and applies what
// it gets back (the newest correction only: that topic has a queue of one message).
// OP_HLI num: 0 tick, 1 send the last message again, 2 send the oldest message kept back; then for a tick w3, a3,
// deliver (0 lost, 1 now, 2 kept back), take (whether the correction arrives now), drop (it is lost), twice, mode
// (1: the state is declared current once initialized).
struct Hli {
  bool on = false, inited = false; double x[16] = {0, 0, 0, 0, 0, 0, 1, 0, 0, 0}, wl[3] = {0}, al[3] = {0}; int64_t tl = 0; bool haveIn = false; std::vector<double> in; simros::FlatMsg last; bool haveLast = false; std::vector<simros::FlatMsg> out;
  static void qmul(const double* a, const double* b, double* o) { double r[4] = {a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3], a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2], a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1], a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]}; double n = sqrt(r[0] * r[0] + r[1] * r[1] + r[2] * r[2] + r[3] * r[3]); for (int k = 0; k < 4; ++k) o[k] = n > 0 ? r[k] / n : (k == 0); }
  static void rot(const double* q, const double* v, double* o) { double w = q[0], x = q[1], y = q[2], z = q[3]; double t[3] = {2 * (y * v[2] - z * v[1]), 2 * (z * v[0] - x * v[2]), 2 * (x * v[1] - y * v[0])}; o[0] = v[0] + w * t[0] + y * t[2] - z * t[1]; o[1] = v[1] + w * t[1] + z * t[0] - x * t[2]; o[2] = v[2] + w * t[2] + x * t[1] - y * t[0]; }
  int apply(bool twice) {
    if (!haveIn) return 0; haveIn = false; const double* c = &in[7]; int flag = (int)in[23];     // w3 a3 size state16 flag
    if (flag == 2) { for (int k = 0; k < 16; ++k) x[k] = c[k]; inited = true; return 2; }
    if (flag != 3) return 0;
    for (int rep = 0; rep < (twice ? 2 : 1); ++rep) { for (int k = 0; k < 16; ++k) if (k < 6 || k > 9) x[k] += c[k]; qmul(x + 6, c + 6, x + 6); }
    inited = true; return twice ? 3 : 1;
  }
  void integrate(const double* w, const double* a, int64_t t) {
    double dt = 1e-9 * (double)(t - tl); if (inited && tl && dt > 0 && dt < 1) {
      double ew[3], al2[3], q0[4], f0[3], f1[3], b0[3], b1[3]; for (int k = 0; k < 3; ++k) { ew[k] = (w[k] + wl[k]) / 2 - x[10 + k]; b0[k] = al[k] - x[13 + k]; b1[k] = a[k] - x[13 + k]; (void)al2; }
      for (int k = 0; k < 4; ++k) q0[k] = x[6 + k]; rot(q0, b0, f0); double n = sqrt(ew[0] * ew[0] + ew[1] * ew[1] + ew[2] * ew[2]) * dt, sc = n > 1e-12 ? sin(n / 2) / n * dt : dt / 2; double dq[4] = {cos(n / 2), ew[0] * sc, ew[1] * sc, ew[2] * sc}; qmul(q0, dq, x + 6); rot(x + 6, b1, f1);
      for (int k = 0; k < 3; ++k) { double v0 = x[3 + k]; x[3 + k] += dt * ((f0[k] + f1[k]) / 2 - (k == 2 ? 9.80834 : 0)); x[k] += dt * (v0 + x[3 + k]) / 2; } }
    for (int k = 0; k < 3; ++k) { wl[k] = w[k]; al[k] = a[k]; } tl = t;
  }
};
static Hli g_hli;
static void send(const simros::FlatMsg& f) { auto& bus = simros::Bus::get(); auto it = bus.subs.find("/msf_core/hl_state_input"); if (it == bus.subs.end()) return; auto subs = it->second; for (auto& s : subs) s.cb(f); }
static void doHli(const Op& o) {
  Hli& h = g_hli; int sub = o.num.empty() ? 0 : (int)o.num[0], applied = 0; bool give = false; simros::FlatMsg m; h.on = true; double post[16];
  if (sub == 0) {
    bool take = o.num[8] != 0; if (o.num[9] != 0) h.haveIn = false; if (take) applied = h.apply(o.num[10] != 0);
    memcpy(post, h.x, sizeof post); h.integrate(&o.num[1], &o.num[4], o.stamp);
    m.num = {(double)o.seq, (double)(o.stamp / 1000000000ll), (double)(o.stamp % 1000000000ll)}; m.num.insert(m.num.end(), o.num.begin() + 1, o.num.begin() + 7); m.num.push_back(16); for (double v : h.x) m.num.push_back((double)(float)v); m.num.push_back(h.inited && o.num[11] != 0 ? 1 : 0); m.str = {"f"};
    int dl = (int)o.num[7]; if (dl == 1) give = true; else if (dl == 2) h.out.push_back(m);
  } else { memcpy(post, h.x, sizeof post); if (sub == 1 && h.haveLast) { m = h.last; give = true; } else if (sub == 2 && !h.out.empty()) { m = h.out.front(); h.out.erase(h.out.begin()); give = true; } }
  simros::FlatMsg r; r.num = {(double)sub, (double)applied, (double)give, (double)h.inited}; r.num.insert(r.num.end(), post, post + 16); if (give) r.num.insert(r.num.end(), m.num.begin(), m.num.end()); record("hli", r);
  if (give) { h.last = m; h.haveLast = true; send(m); }
}

}
bool simlib_op(const std::string& name, const std::vector<double>& in, std::vector<double>& out, std::string& text) __attribute__((weak));
namespace sim {
static void doOp(const Op& o) {
  using simseam::g_now;
  auto& bus = simros::Bus::get();
  if (o.kind == OP_CLOCK) { simseam::g_monoOff += g_now - o.at; g_now = o.at; } else if (o.at > g_now) g_now = o.at;
  switch (o.kind) {
    case OP_MSG: {
      auto it = bus.subs.find(o.name);
      if (it == bus.subs.end()) break;
      simros::FlatMsg f; f.num.push_back(o.seq); f.num.push_back((double)(o.stamp / 1000000000ll)); f.num.push_back((double)(o.stamp % 1000000000ll));
      f.num.insert(f.num.end(), o.num.begin(), o.num.end()); f.str.push_back("f"); f.str.push_back("c");
      auto subs = it->second;
      for (auto& s : subs) s.cb(f);
      break; }
    case OP_RECONF: { auto it = bus.reconf.find(o.name); if (it != bus.reconf.end()) it->second.apply(o.kv); break; }
    case OP_SRV: {
      auto it = bus.services.find(o.name); simros::FlatMsg f;
      if (it == bus.services.end()) f.num.push_back(-1);
      else { std::string r; bool ok = it->second(o.num.empty() ? 0.0 : o.num[0], r); f.num.push_back(ok); f.str.push_back(r); }
      record("srv", f); break; }
    case OP_HLI: doHli(o); break;
    case OP_LIB: if (&simlib_op && !o.num.empty()) {
      if (o.aux) simseam::g_devRandom = Rng((uint64_t)o.aux);
      simros::FlatMsg f; std::string text; bool ok = simlib_op(o.name, o.num, f.num, text); f.num.insert(f.num.begin(), ok); f.str = {text}; record("lib", f); } break;
    case OP_SUBS: g_subs[o.name] = (int)o.num[0]; break;
    case OP_MEM: { struct mallinfo2 m = mallinfo2(); Shm* s = g_shm; if (s->nmem < 4096) { s->mem[0][s->nmem] = (uint64_t)g_op; s->mem[1][s->nmem] = (uint64_t)m.uordblks + (uint64_t)m.hblkhd; s->nmem = s->nmem + 1; } break; }
    default: break;
  }
}
static __attribute__((noinline)) void fillStack(int b) { volatile char buf[1 << 19]; for (size_t i = 0; i < sizeof buf; ++i) buf[i] = (char)b; }

static void child(const Scenario& sc) {
  g_sc = &sc; g_subs = sc.subs;
  auto& bus = simros::Bus::get();
  bus.params = sc.params;
  bus.onPublish = [](const std::string& t, const std::string&, const simros::FlatMsg& f) { record(t, f); if (t == "/msf_core/correction" && f.num.size() >= 27 && (int)f.num[9] == 16) { g_hli.in.assign(f.num.begin() + 3, f.num.end()); g_hli.haveIn = true; } };
  bus.numSubscribers = [](const std::string& t) { auto it = g_subs.find(t); return it == g_subs.end() ? 1 : it->second; };
  bus.spin = [&sc]() {
    for (size_t k = 0; k < sc.ops.size(); ++k) { g_op = (int)k; g_shm->lastOp = (int64_t)k; doOp(sc.ops[k]); }
    g_shm->now = simseam::g_now;
  };
  simseam::g_now = sc.start; simseam::g_active = true;
  g_op = -1; g_shm->lastOp = -1;
  if (sc.fill >= 0) { mallopt(M_PERTURB, sc.fill ? sc.fill : 1); fillStack(sc.fill ? ~sc.fill : 0); }
  static char a0[] = "node"; static char* av[] = {a0, nullptr};
  try { node_main(1, av); g_shm->status = 1; }
  catch (std::exception& e) { strncpy(g_shm->detail, e.what(), 1000); g_shm->status = 2; }
  catch (...) { strncpy(g_shm->detail, "unknown exception", 1000); g_shm->status = 2; }
  g_shm->warn = simseam::g_warn; g_shm->err = simseam::g_err;
  simseam::g_active = false;
}

Trace run(const Scenario& sc) {
  if (!g_shm) {
    g_shm = (Shm*)mmap(nullptr, kShmBytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (g_shm == MAP_FAILED) { perror("mmap"); _exit(3); }
  }
  memset((void*)g_shm, 0, sizeof(Shm));
  ++g_execs;
  static bool keep = getenv("SIM_LOG") != nullptr;
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(3); }
  if (pid == 0) {
    int fd = open("/dev/null", O_RDWR); dup2(fd, 0); dup2(fd, 1);
    std::string asanLog;
    if (!keep) { static char tmpl[64]; snprintf(tmpl, sizeof tmpl, "/tmp/simerr.%d", (int)getppid()); int e = open(tmpl, O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(e >= 0 ? e : fd, 2); }
    struct rlimit rl = {60, 70}; setrlimit(RLIMIT_CPU, &rl);
    struct rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
    // a thread of its own has a heap of its own: what the run sees in recycled memory does not depend on what happened before it in this process
    mallopt(M_MMAP_THRESHOLD, 256 << 10); mallopt(M_ARENA_MAX, 64);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 16u << 20); pthread_t th;
    if (pthread_create(&th, &at, [](void* p) -> void* { child(*(const Scenario*)p); _exit(0); }, (void*)&sc)) child(sc); else pthread_join(th, nullptr);
    _exit(0);
  }
  int st = 0; waitpid(pid, &st, 0);
  Trace t; Shm* s = g_shm;
  t.lastOp = (int)s->lastOp; t.logWarn = s->warn; t.logErr = s->err; t.simEnd = s->now;
  if (WIFSIGNALED(st)) { int sg = WTERMSIG(st); t.status = (sg == SIGXCPU || sg == SIGKILL) ? ST_HANG : ST_CRASH; t.detail = std::string("signal ") + std::to_string(sg); }
  else if (s->status == 2) { t.status = ST_EXC; t.detail = s->detail; }
  else if (WEXITSTATUS(st) != 0 || s->status != 1) { t.status = WEXITSTATUS(st) ? ST_CRASH : ST_EXIT; t.detail = "exit code " + std::to_string(WEXITSTATUS(st)); }
  if (t.status == ST_CRASH) {        // first line of a sanitizer report, without addresses
    char fn[64]; snprintf(fn, sizeof fn, "/tmp/simerr.%d", (int)getpid());
    if (FILE* f = fopen(fn, "r")) { char line[512]; while (fgets(line, sizeof line, f)) if (strstr(line, "ERROR: AddressSanitizer") || strstr(line, "runtime error") || strstr(line, "Assertion") || strstr(line, "Check failed")) {
      const char* p = strstr(line, "AddressSanitizer: "); const char* q = strstr(line, "runtime error: "); std::string d = p ? p + 18 : (q ? q + 15 : line); size_t e = d.find(" on "); if (p && e != std::string::npos) d = d.substr(0, e); size_t ad = d.find(" address 0x"); if (ad != std::string::npos) d = d.substr(0, ad); while (!d.empty() && d.back() == '\n') d.pop_back(); t.detail += ": " + d; break; } fclose(f); }
  }
  if (s->overflow) t.detail += " [trace overflow]";
  for (uint64_t k = 0; k < s->ntopic; ++k) t.topics.push_back(s->topic[k]);
  t.recs.reserve(s->nrec);
  const double* d = s->data; const double* e = s->data + s->used;
  while (d < e) {
    Rec r; r.op = (int)d[0]; r.topic = (int)d[1]; memcpy(&r.now, d + 2, 8); size_t n = (size_t)d[3], m = (size_t)d[4], tot = (size_t)d[5];
    r.num.assign(d + 6, d + 6 + n); const double* q = d + 6 + n;
    for (size_t k = 0; k < m; ++k) { size_t L = (size_t)*q++; r.str.emplace_back((const char*)q, L); q += (L + 7) / 8; }
    t.recs.push_back(std::move(r)); d += tot;
  }
  for (uint64_t k = 0; k < s->nmem; ++k) t.mem.push_back({(int)s->mem[0][k], s->mem[1][k]});
  g_simSeconds += 1e-9 * (double)(t.simEnd > sc.start ? t.simEnd - sc.start : 0);
  // release pages so that fork stays cheap
  size_t usedBytes = sizeof(Shm) + s->used * 8;
  if (usedBytes > (8u << 20)) madvise((char*)g_shm + (1 << 20), kShmBytes - (1 << 20), MADV_REMOVE);
  return t;
}
uint64_t Trace::hash() const {
  uint64_t h = 1469598103934665603ull;
  auto mix = [&](const void* p, size_t n) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; } };
  int s = status; mix(&s, 4); mix(detail.data(), detail.size()); mix(&lastOp, 4);
  for (auto& r : recs) { mix(&r.op, 4); const std::string& tn = topics[r.topic]; mix(tn.data(), tn.size()); mix(&r.now, 8);
    for (double v : r.num) { uint64_t b; memcpy(&b, &v, 8); if (v != v) b = 0x7ff8000000000000ull; mix(&b, 8); } for (auto& x : r.str) mix(x.data(), x.size()); }
  return h;
}
}
