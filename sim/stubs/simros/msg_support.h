// Support for generated messages: visiting all fields in declaration order.
#ifndef SIMROS_MSG_SUPPORT_H
#define SIMROS_MSG_SUPPORT_H
#include <stdint.h>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <boost/shared_ptr.hpp>
#include <ros/time.h>
namespace simros {
template<class M> struct TypeName { static const char* get() { return "?"; } };
template<class V, class T> inline void Visit(V& v, T& t) { t.visitFields(v); }
#define SIMROS_PRIM(T) template<class V> inline void Visit(V& v, T& t) { v.num(t); }
SIMROS_PRIM(double) SIMROS_PRIM(float) SIMROS_PRIM(int8_t) SIMROS_PRIM(uint8_t) SIMROS_PRIM(int16_t)
SIMROS_PRIM(uint16_t) SIMROS_PRIM(int32_t) SIMROS_PRIM(uint32_t) SIMROS_PRIM(int64_t) SIMROS_PRIM(uint64_t)
#undef SIMROS_PRIM
template<class V> inline void Visit(V& v, std::string& t) { v.str(t); }
template<class V> inline void Visit(V& v, ros::Time& t) { v.time(t); }
template<class V, class T> inline void VisitVec(V& v, std::vector<T>& t) {
  v.vecBegin(t);
  for (auto& e : t) Visit(v, e);
}
}
#endif
