#ifndef SEAMS_H
#define SEAMS_H
#include <stdint.h>
#include "sim.h"
namespace simseam {
extern int64_t g_now; extern bool g_active; extern uint64_t g_warn, g_err, g_sleeps, g_clockReads, g_devReads; extern sim::Rng g_devRandom; extern int64_t g_clockStep, g_monoOff;
}
#endif
