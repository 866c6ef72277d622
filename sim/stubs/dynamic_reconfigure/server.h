#ifndef SIMROS_DYNREC_H
#define SIMROS_DYNREC_H
#include <ros/ros.h>
namespace dynamic_reconfigure {
// Same call sequence as dynamic_reconfigure::Server: parameters override defaults, clamp, the callback
// is called at once with level ~0, and later with the OR of the levels of the changed parameters.
template<class C> class Server {
 public:
  typedef boost::function<void(C&, uint32_t level)> CallbackType;
  explicit Server(const ros::NodeHandle& nh = ros::NodeHandle("~")) : nh_(nh) {
    config_ = C::__getDefault__();
    Reader r{nh_}; config_.__visit__(r); config_.__clamp__();
    simros::Bus::get().reconf[nh_.getNamespace()].apply = [this](const std::vector<std::pair<std::string,double>>& ch) {
      C n = config_; Setter s{ch}; n.__visit__(s); n.__clamp__();
      uint32_t level = config_.__level__(n);
      if (cb_) cb_(n, level);
      config_ = n;
    };
  }
  ~Server() { simros::Bus::get().reconf.erase(nh_.getNamespace()); }
  void setCallback(const CallbackType& cb) { cb_ = cb; C c = config_; cb_(c, ~0u); config_ = c; }
  void clearCallback() { cb_.clear(); }
  void updateConfig(const C& c) { config_ = c; }
 private:
  struct Reader { ros::NodeHandle& nh; template<class T> void operator()(const char* n, T& t) { nh.getParam(n, t); } };
  struct Setter { const std::vector<std::pair<std::string,double>>& ch;
    template<class T> void operator()(const char* n, T& t) { for (auto& p : ch) if (p.first == n) set(t, p.second); }
    static void set(double& t, double v) { t = v; } static void set(int& t, double v) { t = (int)v; } static void set(bool& t, double v) { t = v != 0; } static void set(std::string&, double) {} };
  ros::NodeHandle nh_; C config_; CallbackType cb_;
};
}
#endif
