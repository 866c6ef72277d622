// Command line of a node binary: search, replay, minimise.
#include <sys/personality.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <sstream>
#include "check.h"
namespace chk {
std::vector<Check>& registry() { static std::vector<Check> v; return v; }
std::string fmt(const char* f, ...) { char b[1024]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }

// ------------------------------------------------------------------ replay files
static std::string esc(const std::string& s) { return s.empty() ? "-" : s; }
void save(const std::string& fn, const Case& c, const Verdict& v) {
  FILE* f = fopen(fn.c_str(), "w"); if (!f) return;
  fprintf(f, "# violation of %s on node %s: %s\n# replay: python3 /verif/check.py replay <this file>\n", c.check.c_str(), c.sc.node.c_str(), v.what.c_str());
  fprintf(f, "check %s\nnode %s\nseed %llu\nvariant %d\nclass %s\nhash %016llx\nasan %d\n", c.check.c_str(), c.sc.node.c_str(), (unsigned long long)c.seed, c.variant, v.cls.c_str(), (unsigned long long)v.hash, (int)isAsan());
  fprintf(f, "start %lld\nfill %d\n", (long long)c.sc.start, c.sc.fill);
  for (auto& k : c.k) fprintf(f, "knob %s %a\n", k.first.c_str(), k.second);
  for (auto& p : c.sc.params) fprintf(f, "param %s %s\n", p.first.c_str(), p.second.c_str());
  for (auto& p : c.sc.subs) fprintf(f, "subs %s %d\n", p.first.c_str(), p.second);
  for (auto& o : c.sc.ops) {
    fprintf(f, "op %d %lld %s %lld %u %d %lld %zu", o.kind, (long long)o.at, esc(o.name).c_str(), (long long)o.stamp, o.seq, o.tag, (long long)o.aux, o.num.size());
    for (double d : o.num) fprintf(f, d == 0 ? " 0" : " %a", d);
    fprintf(f, " %zu", o.kv.size()); for (auto& k : o.kv) fprintf(f, " %s %a", k.first.c_str(), k.second);
    fprintf(f, "\n");
  }
  fclose(f);
}
static double rdD(std::istream& s) { std::string x; s >> x; return strtod(x.c_str(), 0); }
bool load(const std::string& fn, Case& c, std::string& cls, uint64_t& hash) {
  std::ifstream f(fn); if (!f) return false; std::string line;
  while (std::getline(f, line)) {
    if (line.empty() || line[0] == '#') continue; std::istringstream s(line); std::string k; s >> k;
    if (k == "check") s >> c.check; else if (k == "node") s >> c.sc.node; else if (k == "seed") s >> c.seed; else if (k == "variant") s >> c.variant; else if (k == "class") s >> cls;
    else if (k == "hash") { std::string h; s >> h; hash = strtoull(h.c_str(), 0, 16); } else if (k == "start") s >> c.sc.start; else if (k == "fill") s >> c.sc.fill;
    else if (k == "knob") { std::string n; s >> n; c.k[n] = rdD(s); } else if (k == "param") { std::string n, v; s >> n >> v; c.sc.params[n] = v; } else if (k == "subs") { std::string n; int v; s >> n >> v; c.sc.subs[n] = v; }
    else if (k == "op") { Op o; size_t n; s >> o.kind >> o.at >> o.name >> o.stamp >> o.seq >> o.tag >> o.aux >> n; if (o.name == "-") o.name = ""; o.num.resize(n); for (auto& d : o.num) d = rdD(s); s >> n; o.kv.resize(n); for (auto& p : o.kv) { s >> p.first; p.second = rdD(s); } c.sc.ops.push_back(o); }
  }
  return true;
}
// ------------------------------------------------------------------ minimisation
Case minimise(const Check& ck, const Case& c0, Verdict& v, double budget) {
  Case c = c0; double end = wallNow() + budget;
  if (v.badOp >= 0 && v.badOp + 1 < (int)c.sc.ops.size()) { Case d = c; d.sc.ops.resize(v.badOp + 1); Verdict x = ck.judge(d); if (x.st == V_BAD && x.cls == v.cls) { c = d; v = x; } }
  size_t chunk = std::max<size_t>(1, c.sc.ops.size() / 2);
  while (wallNow() < end) {
    bool any = false;
    for (size_t at = 0; at < c.sc.ops.size() && wallNow() < end;) {
      Case d = c; size_t n = std::min(chunk, d.sc.ops.size() - at); d.sc.ops.erase(d.sc.ops.begin() + at, d.sc.ops.begin() + at + n);
      Verdict x = ck.judge(d);
      if (x.st == V_BAD && x.cls == v.cls) { c = d; v = x; any = true; } else at += n;
    }
    if (chunk == 1) { if (!any) break; } else chunk = std::max<size_t>(1, chunk / 2);
  }
  return c;
}
static std::string js(const std::string& s) { std::string o = "\""; for (char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if ((unsigned char)ch < 32) o += ' '; else o += ch; } return o + "\""; }
}
using namespace chk;
static char g_err[64];
static void cleanup() { unlink(g_err); }
int main(int c, char** v) {
  { int p = personality(0xffffffff); if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) { int q = personality(0xffffffff); if (q != -1 && (q & ADDR_NO_RANDOMIZE)) execv("/proc/self/exe", v); } }   // the same addresses in every run
  snprintf(g_err, sizeof g_err, "/tmp/simerr.%d", (int)getpid()); atexit(cleanup);
  std::string mode = c > 1 ? v[1] : "";
  if (mode == "replay" && c > 2) {
    Case cs; std::string cls; uint64_t h = 0; if (!load(v[2], cs, cls, h)) { fprintf(stderr, "cannot read %s\n", v[2]); return 2; }
    for (auto& ck : registry()) if (ck.id == cs.check) {
      Verdict x = ck.judge(cs);
      printf("REPLAY st=%d class=%s hash=%016llx recorded-class=%s recorded-hash=%016llx exact=%d what=%s\n", x.st, x.cls.c_str(), (unsigned long long)x.hash, cls.c_str(), (unsigned long long)h, (int)(x.st == V_BAD && x.cls == cls && x.hash == h), x.what.c_str());
      return x.st == V_BAD ? 1 : 0;
    }
    return 2;
  }
  if (mode == "dump" && c > 2) {     // lists the operations of a replay file with what the model and the node make of them
    Case cs; std::string cls; uint64_t h = 0; if (!load(v[2], cs, cls, h)) return 2;
    Trace t = run(cs.sc); ref::Filter f(cs.sc); std::vector<ref::Expect> ex; int64_t t0 = cs.sc.ops.empty() ? 0 : cs.sc.ops[0].at; size_t rp = 0; ref::Layout l(cs.sc.node); Hist hh = oracle::decode(t, l); std::map<int, std::pair<int, int>> pub; for (auto& u : hh.upd) ++pub[u.op].first; for (auto& u : hh.prop) ++pub[u.op].second;
    static const char* fn[] = {"-", "discarded", "throttled", "noinit", "held", "old", "nostate", "dup", "applied", "gated", "relskip"};
    std::vector<std::string> line; for (size_t k = 0; k < cs.sc.ops.size(); ++k) { const Op& o = cs.sc.ops[k]; ex.clear(); uint64_t fz = f.nFuzzy; f.step(o, (int)k, ex); int eu = 0, ep = 0; for (auto& e : ex) (e.update ? eu : ep)++; line.push_back(fmt("%4zu at %.6f stamp %.6f time %.6f %-34s seq %u tag %x aux %lld  model %d/%d node %d/%d pend %zu fuzzy %d", k, 1e-9 * (o.at - t0), 1e-9 * (o.stamp - t0), 1e-9 * (timeOf(cs.sc, o) - t0), o.name.c_str(), o.seq, o.tag, (long long)o.aux, eu, ep, pub[(int)k].first, pub[(int)k].second, f.pendingCount(), (int)(f.nFuzzy - fz))); }
    for (size_t k = 0; k < line.size(); ++k) printf("%s %s\n", line[k].c_str(), f.fate.count((int)k) ? fn[f.fate[(int)k]] : ""); (void)rp;
    printf("status %d %s\n", t.status, t.detail.c_str()); return 0;
  }
  // search ID firstSeed stride count budget out replayDir thorough
  if (mode != "search" || c < 10) { fprintf(stderr, "usage: %s search ID first stride count budget out replayDir thorough | replay FILE\n", v[0]); return 2; }
  std::string id = v[2]; uint64_t first = strtoull(v[3], 0, 10), stride = strtoull(v[4], 0, 10), count = strtoull(v[5], 0, 10); double budget = atof(v[6]); std::string out = v[7], rdir = v[8]; bool thorough = atoi(v[9]) != 0; bool verbose = getenv("SIM_V") != nullptr;
  const Check* ck = nullptr; for (auto& k : registry()) if (k.id == id) ck = &k;
  if (!ck) { fprintf(stderr, "no check %s\n", id.c_str()); return 2; }
  double t0 = wallNow(); uint64_t n = 0, ok = 0, skip = 0, bad = 0, detChecked = 0, detBad = 0; std::map<std::string, uint64_t> faults, skips; std::map<std::string, double> stat; std::set<uint64_t> paths, okPaths; std::vector<std::string> samples; std::string bcls, bwhat, bfile; uint64_t bseed = 0, opsTotal = 0; size_t minOps = 0, fullOps = 0;
  std::string node = nodeKind();
  for (uint64_t k = 0; k < count && wallNow() - t0 < budget; ++k) {
    uint64_t seed = first + k * stride; Rng r(seed * 1000003ull + std::hash<std::string>()(id + node)); int var = (int)(k % (uint64_t)ck->variants);
    Case cs = ck->gen(r, node, var, thorough); cs.check = id; cs.seed = seed; cs.variant = var; if (cs.sc.node.empty()) cs.sc.node = node;
    double ts = wallNow(); Verdict x = ck->judge(cs); ++n; opsTotal += cs.sc.ops.size(); paths.insert(pathHash(cs.sc));
    for (auto& f : cs.faults) faults[f.first] += f.second;
    for (auto& s : x.stat) { if (s.first.compare(0, 4, "max:") == 0) { double& d = stat[s.first]; d = std::max(d, s.second); } else stat[s.first] += s.second; }
    if (verbose) printf("%s %s seed %llu var %d ops %zu st %d %s %s %.0f ms\n", id.c_str(), node.c_str(), (unsigned long long)seed, var, cs.sc.ops.size(), x.st, x.cls.c_str(), x.what.c_str(), 1e3 * (wallNow() - ts));
    if (n % 40 == 1) { ++detChecked; Verdict y = ck->judge(cs); if (y.st != x.st || y.hash != x.hash) ++detBad; }
    if (x.st == V_SKIP) { ++skip; ++skips[x.cls]; continue; }
    okPaths.insert(pathHash(cs.sc));
    if (samples.size() < 2) { std::string fs; for (auto& f : cs.faults) fs += fmt("%s%s:%llu", fs.empty() ? "" : ",", f.first.c_str(), (unsigned long long)f.second); samples.push_back(fmt("node %s seed %llu variant %d: %zu operations over %.2f simulated s, faults {%s}, verdict %s", node.c_str(), (unsigned long long)seed, var, cs.sc.ops.size(), cs.sc.ops.empty() ? 0.0 : 1e-9 * (cs.sc.ops.back().at - cs.sc.ops.front().at), fs.c_str(), x.st == V_OK ? "held" : "violated")); }
    if (x.st == V_OK) { ++ok; continue; }
    ++bad; Verdict y = ck->judge(cs); if (y.st != V_BAD) { ++detBad; if (verbose) printf("   not reproduced\n"); continue; }
    fullOps = cs.sc.ops.size(); Case m = cs; Verdict mv = y;
    if (ck->minimizable) m = minimise(*ck, cs, mv, verbose ? 0 : 20);
    minOps = m.sc.ops.size(); bfile = rdir + "/" + id + "-" + node + "-" + std::to_string(seed) + ".replay"; save(bfile, m, mv); bcls = mv.cls; bwhat = mv.what; bseed = seed;
    if (!verbose) break;
  }
  if (FILE* f = fopen(out.c_str(), "w")) {
    fprintf(f, "{\"node\":%s,\"cases\":%llu,\"ok\":%llu,\"skip\":%llu,\"bad\":%llu,\"execs\":%llu,\"simSeconds\":%.3f,\"wall\":%.3f,\"ops\":%llu,\"detChecked\":%llu,\"detBad\":%llu", js(node).c_str(), (unsigned long long)n, (unsigned long long)ok, (unsigned long long)skip, (unsigned long long)bad, (unsigned long long)g_execs, g_simSeconds, wallNow() - t0, (unsigned long long)opsTotal, (unsigned long long)detChecked, (unsigned long long)detBad);
    auto dump = [&](const char* nm, auto& mp) { fprintf(f, ",\"%s\":{", nm); bool fst = true; for (auto& p : mp) { double val = (double)p.second; fprintf(f, "%s%s:%.6g", fst ? "" : ",", js(p.first).c_str(), val == val && val < 1e300 ? val : 1e300); fst = false; } fprintf(f, "}"); };
    dump("faults", faults); dump("skips", skips); dump("stat", stat);
    fprintf(f, ",\"paths\":["); bool fst = true; for (auto p : paths) { fprintf(f, "%s\"%016llx\"", fst ? "" : ",", (unsigned long long)p); fst = false; } fprintf(f, "]");
    fprintf(f, ",\"okPaths\":%zu,\"samples\":[", okPaths.size()); for (size_t q = 0; q < samples.size(); ++q) fprintf(f, "%s%s", q ? "," : "", js(samples[q]).c_str()); fprintf(f, "]");
    if (!bfile.empty()) fprintf(f, ",\"violation\":{\"file\":%s,\"cls\":%s,\"what\":%s,\"seed\":%llu,\"ops\":%zu,\"minOps\":%zu}", js(bfile).c_str(), js(bcls).c_str(), js(bwhat).c_str(), (unsigned long long)bseed, fullOps, minOps);
    fprintf(f, "}\n"); fclose(f);
  }
  return bfile.empty() ? 0 : 1;
}
