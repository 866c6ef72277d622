// In-process replacement of roscpp: one bus owned by the simulator, no threads, no sockets.
#ifndef SIMROS_ROS_H
#define SIMROS_ROS_H
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <boost/bind.hpp>
#include <boost/function.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>
#include <ros/time.h>
#include <ros/console.h>
#include <simros/msg_support.h>

namespace simros {
struct FlatMsg { std::vector<double> num; std::vector<std::string> str; };
struct Flattener {                       // message -> flat numbers (stamps as two numbers: sec, nsec)
  FlatMsg& f; explicit Flattener(FlatMsg& g) : f(g) {}
  template<class T> void num(T& t) { f.num.push_back((double)t); }
  void str(std::string& s) { f.str.push_back(s); }
  void time(ros::Time& t) { f.num.push_back(t.sec); f.num.push_back(t.nsec); }
  template<class T> void vecBegin(std::vector<T>& v) { f.num.push_back((double)v.size()); }
};
struct Unflattener {                     // flat numbers -> message
  const FlatMsg& f; size_t i, j; explicit Unflattener(const FlatMsg& g) : f(g), i(0), j(0) {}
  double next() { return i < f.num.size() ? f.num[i++] : 0.0; }
  void num(double& t) { t = next(); }
  void num(float& t) { t = (float)next(); }
  template<class T> void num(T& t) { t = (T)(int64_t)next(); }
  void str(std::string& s) { s = j < f.str.size() ? f.str[j++] : std::string(); }
  void time(ros::Time& t) { t.sec = (uint32_t)next(); t.nsec = (uint32_t)next(); }
  template<class T> void vecBegin(std::vector<T>& v) { v.resize((size_t)next()); }
};
typedef std::function<void(const FlatMsg&)> Deliver;
struct Bus {
  std::string nodeName;
  struct Sub { std::string type; Deliver cb; int queue; };
  std::map<std::string, std::vector<Sub>> subs;
  std::map<std::string, std::string> pubs;
  std::map<std::string, std::function<bool(double, std::string&)>> services;
  struct Reconf { std::function<void(const std::vector<std::pair<std::string,double>>&)> apply; };
  std::map<std::string, Reconf> reconf;
  std::map<std::string, std::string> params;
  std::function<void(const std::string&, const std::string&, const FlatMsg&)> onPublish;
  std::function<int(const std::string&)> numSubscribers;
  std::function<void()> spin;
  static Bus& get();
  std::string resolve(const std::string& ns, const std::string& name) const;
};
void AddDouble(Bus& b);
}

namespace ros {
typedef std::vector<std::string> V_string;
struct TransportHints { TransportHints& tcpNoDelay(bool = true) { return *this; } TransportHints& udp() { return *this; } };
class Publisher {
  std::string topic_;
 public:
  Publisher() {}
  explicit Publisher(const std::string& t) : topic_(t) {}
  std::string getTopic() const { return topic_; }
  uint32_t getNumSubscribers() const { auto& b = simros::Bus::get(); return b.numSubscribers ? (uint32_t)b.numSubscribers(topic_) : 1; }
  template<class M> void publish(const M& m) const {
    simros::FlatMsg f; simros::Flattener fl(f); const_cast<M&>(m).visitFields(fl);
    auto& b = simros::Bus::get(); if (b.onPublish && !topic_.empty()) b.onPublish(topic_, simros::TypeName<M>::get(), f);
  }
  template<class M> void publish(const boost::shared_ptr<M>& m) const { publish(*m); }
  template<class M> void publish(const boost::shared_ptr<M const>& m) const { publish(*m); }
  void shutdown() { topic_.clear(); }
  operator void*() const { return topic_.empty() ? 0 : (void*)1; }
};
class Subscriber {
  std::string topic_;
 public:
  Subscriber() {}
  explicit Subscriber(const std::string& t) : topic_(t) {}
  std::string getTopic() const { return topic_; }
  uint32_t getNumPublishers() const { return 1; }
  void shutdown() { simros::Bus::get().subs.erase(topic_); }
};
class ServiceServer { public: void shutdown() {} };
class NodeHandle {
  std::string ns_;
  template<class M> Subscriber add(const std::string& topic, int q, std::function<void(const boost::shared_ptr<M const>&)> cb) {
    auto& b = simros::Bus::get(); std::string t = b.resolve(ns_, topic);
    b.subs[t].push_back({simros::TypeName<M>::get(), [cb](const simros::FlatMsg& f) {
      boost::shared_ptr<M> m(new M); simros::Unflattener u(f); m->visitFields(u); cb(m); }, q});
    return Subscriber(t);
  }
 public:
  NodeHandle(const std::string& ns = std::string()) : ns_(simros::Bus::get().resolve("/", ns)) {}
  NodeHandle(const NodeHandle& p, const std::string& ns) : ns_(simros::Bus::get().resolve(p.ns_, ns)) {}
  std::string getNamespace() const { return ns_; }
  std::string resolveName(const std::string& n) const { return simros::Bus::get().resolve(ns_, n); }
  template<class M> Publisher advertise(const std::string& t, uint32_t, bool = false) {
    auto& b = simros::Bus::get(); std::string n = b.resolve(ns_, t); b.pubs[n] = simros::TypeName<M>::get(); return Publisher(n); }
  template<class M, class T> Subscriber subscribe(const std::string& t, uint32_t q, void (T::*fp)(const boost::shared_ptr<M const>&), T* o, const TransportHints& = TransportHints()) {
    return add<M>(t, q, [o, fp](const boost::shared_ptr<M const>& m) { (o->*fp)(m); }); }
  template<class M, class T> Subscriber subscribe(const std::string& t, uint32_t q, void (T::*fp)(boost::shared_ptr<M const>), T* o, const TransportHints& = TransportHints()) {
    return add<M>(t, q, [o, fp](const boost::shared_ptr<M const>& m) { (o->*fp)(m); }); }
  template<class M> Subscriber subscribe(const std::string& t, uint32_t q, void (*fp)(const boost::shared_ptr<M const>&), const TransportHints& = TransportHints()) {
    return add<M>(t, q, fp); }
  template<class M> Subscriber subscribe(const std::string& t, uint32_t q, const boost::function<void(const boost::shared_ptr<M const>&)>& cb, const boost::shared_ptr<void const>& = boost::shared_ptr<void const>(), const TransportHints& = TransportHints()) {
    return add<M>(t, q, [cb](const boost::shared_ptr<M const>& m) { cb(m); }); }
  struct NumIn { double x; template<class T> void num(T& t) { t = (T)x; } void str(std::string&) {} void time(Time&) {} template<class T> void vecBegin(std::vector<T>&) {} };
  struct StrOut { std::string s; template<class T> void num(T&) {} void str(std::string& t) { s += t; } void time(Time&) {} template<class T> void vecBegin(std::vector<T>&) {} };
  template<class T, class Q, class S> ServiceServer advertiseService(const std::string& n, bool (T::*fp)(Q&, S&), T* o) {
    auto& b = simros::Bus::get();
    b.services[b.resolve(ns_, n)] = [o, fp](double x, std::string& r) { Q q; S s; NumIn i{x}; q.visitFields(i); bool ok = (o->*fp)(q, s); StrOut so; s.visitFields(so); r = so.s; return ok; };
    return ServiceServer(); }
  bool getParam(const std::string& n, std::string& v) const { auto& b = simros::Bus::get(); auto it = b.params.find(b.resolve(ns_, n)); if (it == b.params.end()) return false; v = it->second; return true; }
  bool getParam(const std::string& n, double& v) const { std::string s; if (!getParam(n, s)) return false; v = strtod(s.c_str(), 0); return true; }
  bool getParam(const std::string& n, float& v) const { double d; if (!getParam(n, d)) return false; v = (float)d; return true; }
  bool getParam(const std::string& n, int& v) const { double d; if (!getParam(n, d)) return false; v = (int)d; return true; }
  bool getParam(const std::string& n, bool& v) const { double d; if (!getParam(n, d)) return false; v = d != 0; return true; }
  bool hasParam(const std::string& n) const { std::string s; return getParam(n, s); }
  template<class T> bool param(const std::string& n, T& v, const T& d) const { if (getParam(n, v)) return true; v = d; return false; }
  template<class T> T param(const std::string& n, const T& d) const { T v; param(n, v, d); return v; }
  bool ok() const { return true; }
};
namespace this_node { std::string getName(); void getSubscribedTopics(V_string&); void getAdvertisedTopics(V_string&); }
namespace names { std::string resolve(const std::string& ns, const std::string& name); }
void init(int& argc, char** argv, const std::string& name, uint32_t opt = 0);
void spin();
inline void spinOnce() {}
inline bool ok() { return true; }
inline void shutdown() {}
}
#endif
