// Drives the classes of the repository that no node of ours exercises: timers and pose distortion. Public interface only.
#include <msf_core/msf_types.h>
#include <msf_timing/Timer.h>
#include <msf_updates/PoseDistorter.h>
#include <map>
#include <memory>
#include <string>
#include <vector>
using msf_timing::Timer; using msf_timing::Timing;
static std::map<int, std::unique_ptr<Timer>> g_t;
static std::map<int, std::unique_ptr<msf_updates::PoseDistorter>> g_d;
// Returns false when the operation addresses something that does not exist.
bool simlib_op(const std::string& name, const std::vector<double>& in, std::vector<double>& out, std::string& text) {
  int f = (int)in[0], slot = in.size() > 1 ? (int)in[1] : 0;
  if (f <= 1) { if (g_t.count(slot)) return false; bool stopped = in[2] != 0; if (f == 0) g_t[slot].reset(new Timer(name, stopped)); else g_t[slot].reset(new Timer(Timing::GetHandle(name), stopped)); return true; }
  if (f <= 5) { auto it = g_t.find(slot); if (it == g_t.end()) return false; if (f == 2) it->second->Start(); else if (f == 3) it->second->Stop(); else if (f == 4) g_t.erase(it); else out.push_back(it->second->IsTiming()); return true; }
  if (f == 6) {
    size_t h = Timing::GetHandle(name); text = Timing::GetTag(h); double n = (double)Timing::GetNumSamples(name); out = {(double)h, n, (double)Timing::GetNumSamples(h)};
    if (n > 0) { for (double v : {Timing::GetTotalSeconds(name), Timing::GetMeanSeconds(name), Timing::GetMinSeconds(name), Timing::GetMaxSeconds(name), Timing::GetVarianceSeconds(name), Timing::GetHz(name)}) out.push_back(v); for (double v : {Timing::GetTotalSeconds(h), Timing::GetMeanSeconds(h), Timing::GetMinSeconds(h), Timing::GetMaxSeconds(h), Timing::GetVarianceSeconds(h), Timing::GetHz(h)}) out.push_back(v); }
    return true; }
  if (f == 7) { Timing::Reset(); return true; }
  if (f == 8) { text = Timing::Print(); return true; }
  if (f == 9) { out.push_back((double)Timing::GetTimers().size()); for (auto& t : Timing::GetTimers()) { text += t.first + " "; out.push_back((double)t.second); } return true; }
  if (f == 10) { msf_timing::Accumulator<double, double, 50> a; double x = in[2], d = in[3]; for (long k = 0, n = (long)in[1]; k < n; ++k) a.Add(x + d * (double)(k % 5));   // an accumulator that has been up for long
    out = {(double)a.TotalSamples(), a.Mean(), a.RollingMean(), a.Min(), a.Max(), a.LazyVariance()}; return true; }
  if (f == 20) { auto v = [&](int k) { return Eigen::Vector3d(in[k], in[k + 1], in[k + 2]); }; g_d[slot].reset(new msf_updates::PoseDistorter(v(2), v(5), v(8), v(11), in[14], in[15])); return true; }
  if (f <= 23) {
    auto it = g_d.find(slot); if (it == g_d.end()) return false; Eigen::Vector3d p(in[2], in[3], in[4]); Eigen::Quaterniond q(in[5], in[6], in[7], in[8]);
    if (f == 21) it->second->Distort(p, q, in[9]); else if (f == 22) it->second->Distort(p, in[9]); else it->second->Distort(q, in[9]);
    out = {p[0], p[1], p[2], q.w(), q.x(), q.y(), q.z()}; return true; }
  return false;
}
