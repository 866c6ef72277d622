// Reading recorded histories and comparing them with the reference model or with each other.
#ifndef ORACLE_H
#define ORACLE_H
#include "ref.h"
#include "sim.h"
#include "world.h"
namespace oracle {
using ref::VX; using ref::MX; using ref::V3; using ref::Q;
struct Upd { int op; int64_t now; double t; VX x; MX P; bool hasP = false; size_t rec; };           // one update publication (state_out + covariances)
struct Prop { int op; double t; V3 p, v; Q q; V3 bv, w; MX pc; size_t rec; bool hasExt = false; };     // one propagation publication
struct Hist { std::vector<Upd> upd; std::vector<Prop> prop; std::vector<std::pair<int, bool>> order; };  // order: (index, isUpdate)
Hist decode(const sim::Trace& t, const ref::Layout& l);
double stampOf(const sim::Rec& r);       // header stamp as double
struct Diff { bool bad = false; std::string what; double worst = 0; int op = -1; };
// difference of two states in multiples of tolerance (>1 is a violation)
double stateErr(const ref::Layout& l, const VX& a, const VX& b, const MX& P);   // in units of (sigma-based) tolerance 1
double covErr(const MX& A, const MX& B);
struct Tol { double x = 1e-3, P = 1e-3; };
// Real run against the reference model, publication by publication (strict) or only the last ones.
struct RefResult { Diff d; size_t comparedUpd = 0, comparedProp = 0; double maxX = 0, maxP = 0; bool doubt = false; std::string doubtWhy; uint64_t nApplied = 0; };
RefResult compareRef(const sim::Scenario& sc, const sim::Trace& tr, ref::Filter& f, bool strict, const Tol& tol = Tol());
// Final publications of two runs.
struct Final { bool ok = false; VX x; MX P; double t = 0; Prop last; bool hasProp = false; };
Final finalOf(const Hist& h);
Diff compareFinal(const ref::Layout& l, const Final& a, const Final& b, const Tol& tol);
// Two complete histories: same sequence of publications (from the given times on), equal within tolerance.
Diff compareHist(const ref::Layout& l, const Hist& a, const Hist& b, const Tol& tol, double from = -1e300);
}
#endif
