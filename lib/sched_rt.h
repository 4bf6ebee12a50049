// Interface of the cooperative scheduler, see sched_rt.cpp.
#ifndef VERIF_SCHED_RT_H
#define VERIF_SCHED_RT_H
#include <array>
#include <cstdarg>
#include <cstdint>
constexpr int SCHED_MAX = 20000;
struct SchedShared {            // shared with the explorer
  volatile int n, nprefix, violated, diverged, finished;
  volatile unsigned points, clock;
  unsigned char ch[SCHED_MAX], width[SCHED_MAX], prefix[SCHED_MAX];
  unsigned exited[64];
  unsigned outcome[8];
  char msg[1024];
};
void sched_begin(SchedShared *, int preemption_bound, int policy, int hardware_concurrency);
int sched_end();
void sched_point();             // an explicit scheduling point (inside a loop body)
int sched_self();               // the running thread
unsigned sched_tick();          // logical time
int sched_threads();
[[noreturn]] void sched_fail(const char *);
#endif
