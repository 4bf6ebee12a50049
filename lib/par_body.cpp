// The code under test for C19: instrumented, one parallel loop per call.
// @flags: -std=c++17 -O1 -g1 -w -fsanitize=thread -include cstdint
#include "par_body.h"
#include "sched_rt.h"
#include "delfem2/thread.h"
#include <stdexcept>
#include <vector>
#include <cstdio>

template<class T> static void go(const ParConfig &p, ParLog &log) {
  std::vector<int> data(p.two ? p.num * p.num2 : p.num, 0);        // plain memory, written by the bodies, read after the loop
  auto body = [&](long idx) {
    long at = p.two ? idx % 1000 + p.num * (idx / 1000) : idx;
    par_enter(log, idx);
    sched_point();
    if (at >= 0 && at < (long) data.size()) data[at] += 1 + (int) idx;
    sched_point();
    if (idx >= 0 && idx < 63 && (p.throws >> idx & 1)) {
      par_leave(log, idx, true);
      if (idx % 2) throw (int) idx;
      throw std::runtime_error(std::to_string(idx));
    }
    par_leave(log, idx, false);
  };
  try {
    if (p.two) delfem2::parallel_for((T) p.num, (T) p.num2, [&](T i, T j) { body((long) i + (long) j * 1000); }, (unsigned) p.target);
    else delfem2::parallel_for((T) p.num, [&](T i) { body((long) i); }, (unsigned) p.target);
  } catch (int e) { log.caught = e; }
  catch (std::runtime_error &e) { log.caught = atoi(e.what()); }
  par_returned(log);
  for (size_t i = 0; i < data.size(); i++) log.sum += data[i];
}
void par_run(const ParConfig &p, ParLog &log) {
  switch (p.type) {
    case 0: go<int>(p, log); break;
    case 1: go<unsigned int>(p, log); break;
    case 2: go<size_t>(p, log); break;
    case 3: go<unsigned char>(p, log); break;
    case 4: go<signed char>(p, log); break;
    case 5: go<unsigned short>(p, log); break;
  }
}
