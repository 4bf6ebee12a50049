// C19: parallel_for under every schedule (up to a preemption bound).
// @flags: -std=c++17 -O2 -g1 -w -include cstdint
// @tu: lib/sched_rt.cpp lib/par_body.cpp
#define MC_NO_ASAN_OPTIONS
#include "mc.h"
#include "sched_rt.h"
#include "par_body.h"
#include <climits>

struct Event { int kind; long idx; int th; unsigned t; };   // 0 enter, 1 leave, 2 leave by exception, 3 returned
static std::vector<Event> *ev;
void par_enter(ParLog &, long i) { ev->push_back({0, i, sched_self(), sched_tick()}); }
void par_leave(ParLog &, long i, bool thrown) { ev->push_back({thrown ? 2 : 1, i, sched_self(), sched_tick()}); }
void par_returned(ParLog &) { ev->push_back({3, 0, sched_self(), sched_tick()}); }

static SchedShared *sh() {
  static SchedShared *s = (SchedShared *) mmap(nullptr, sizeof(SchedShared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  return s;
}

// runs in the child, after parallel_for and sched_end()
static void judge(const ParConfig &p, const ParLog &log, SchedShared *s) {
  char m[600];
  auto bad = [&](const char *what, long idx) {
    snprintf(m, sizeof m, "parallel_for(num=%ld%s, threads=%d, throwing set %lx): %s (index %ld)", p.num, p.two ? (",num2=" + std::to_string(p.num2)).c_str() : "", p.target, p.throws, what, idx);
    sched_fail(m);
  };
  std::map<long, int> entered, open;
  bool ret = false;
  long first_throw_th = -1;
  std::set<long> thrown;
  std::map<int, unsigned> throw_exit;
  mc::Hash h;
  for (auto &e: *ev) {
    h << e.kind << e.idx;
    if (e.kind == 3) {
      ret = true;
      for (auto &o: open) if (o.second) bad("returned to the caller while the body is still running", o.first);
      continue;
    }
    bool in = p.two ? (e.idx >= 0 && e.idx % 1000 < p.num && e.idx / 1000 < p.num2) : (e.idx >= 0 && e.idx < p.num);
    if (!in) bad("body called with an index out of range", e.idx);
    if (e.kind == 0) {
      if (ret) bad("body called after the loop returned", e.idx);
      if (entered[e.idx]++) bad("index run twice", e.idx);
      open[e.idx]++;
    } else {
      open[e.idx]--;
      if (e.kind == 2) { thrown.insert(e.idx); if (s->exited[e.th]) throw_exit[e.th] = s->exited[e.th]; }
    }
  }
  if (!ret) bad("did not return", -1);
  long total = p.two ? std::max(0L, p.num) * std::max(0L, p.num2) : std::max(0L, p.num);
  if (thrown.empty()) {
    if (log.caught != -1) bad("an exception reached the caller though no body threw", log.caught);
    if ((long) entered.size() != total) {
      for (long j = 0; j < (p.two ? p.num2 : 1); j++)
        for (long i = 0; i < p.num; i++) if (!entered.count(i + 1000 * j)) bad("index never run", i + 1000 * j);
    }
    long want = 0;
    for (auto &e: entered) want += 1 + e.first;
    if (log.sum != want) bad("results of the bodies are lost", log.sum);
  } else {
    if (log.caught == -1) bad("the exception of a body did not reach the caller", *thrown.begin());
    if (!thrown.count(log.caught)) bad("the exception that reached the caller was thrown by no body", log.caught);
    // once a throwing worker has ended, every other worker starts at most the index it had already claimed
    // (for index pairs: a row that was already claimed is completed)
    unsigned t0 = UINT_MAX;
    for (auto &x: throw_exit) t0 = std::min(t0, x.second);
    std::map<int, std::set<long>> later;
    for (auto &e: *ev) if (e.kind == 0 && e.t > t0) later[e.th].insert(p.two ? e.idx / 1000 : e.idx);
    for (auto &x: later) if (x.second.size() > 1) bad("workers go on with new indices after a body threw and its worker ended", *x.second.rbegin());
  }
  s->outcome[0] = (unsigned) h.h;
  s->outcome[1] = (unsigned) (h.h >> 32);
}

// one execution under a schedule prefix, in a child process; fills sh()
static int execute(mc::Ch &c, const ParConfig &p, const std::vector<int> &prefix, int bound, int policy, int hw) {
  SchedShared *s = sh();
  memset((void *) s, 0, offsetof(SchedShared, ch));
  memset(s->exited, 0, sizeof s->exited);
  s->msg[0] = 0;
  s->nprefix = (int) prefix.size();
  for (size_t i = 0; i < prefix.size(); i++) s->prefix[i] = (unsigned char) prefix[i];
  c.tick();
  pid_t pid = fork();
  if (pid == 0) {
    ev = new std::vector<Event>;
    ev->reserve(1 << 16);
    ParLog log;
    sched_begin(s, bound, policy, hw);
    par_run(p, log);
    sched_end();
    judge(p, log, s);
    s->finished = 1;
    _exit(0);
  }
  int st = 0;
  double t0 = mc::now();
  for (int spin = 0;; spin++) {
    pid_t r = waitpid(pid, &st, spin < 400 ? WNOHANG : 0);
    if (r == pid) break;
    if (spin < 400) sched_yield();
    (void) t0;
  }
  if (s->diverged) return 3;
  if (s->violated) return 1;
  if (!s->finished) {
    snprintf(s->msg, sizeof s->msg, "parallel_for(num=%ld, threads=%d): the process died (signal %d, status %d)", p.num, p.target, WIFSIGNALED(st) ? WTERMSIG(st) : 0, WEXITSTATUS(st));
    return 1;
  }
  return 0;
}

// depth-first search over all schedules of one configuration
static void explore(mc::Ch &c, const ParConfig &p, int bound, int shard, int nshard, int hw = 2) {
  std::vector<int> prefix;
  auto fail = [&](SchedShared *s) {
    for (int i = 0; i < s->n; i++) c.ch.push_back(s->ch[i]);
    c.publish();
    c.fail("%s", s->msg);
  };
  if (c.replay) {
    prefix.assign(c.prefix.begin() + (long) c.ch.size(), c.prefix.end());
    if (execute(c, p, prefix, bound, 0, hw) == 1) fail(sh());
    return;
  }
  for (;;) {
    int first = -1;
    for (size_t i = 0; i < prefix.size(); i++) if (prefix[i]) { first = (int) i; break; }
    std::vector<int> next, width;
    if (first >= 0 && first % nshard != shard) {
      prefix.resize(first);           // another shard explores this subtree
      // positions before `first` still have alternatives
      SchedShared *s = sh();
      (void) s;
      // widths up to `first` are those of the default run
      static thread_local std::vector<int> dummy;
      next.assign(prefix.begin(), prefix.end());
      width.clear();
    } else {
      int r = execute(c, p, prefix, bound, 0, hw);
      if (r == 3) { fprintf(stderr, "schedule diverged\n"); _exit(3); }
      SchedShared *s = sh();
      if (r == 1) fail(s);
      c.step();
      c.outcome(mc::Hash() << s->outcome[0] << s->outcome[1]);
      for (int i = 0; i < s->n; i++) next.push_back(s->ch[i]), width.push_back(s->width[i]);
    }
    static std::vector<int> defw;     // widths of the default (all zero) run
    if (first < 0) defw = width;
    if (width.empty()) width.assign(defw.begin(), defw.begin() + (long) std::min(defw.size(), next.size()));
    while (!next.empty() && next.back() + 1 >= width[next.size() - 1]) next.pop_back();
    if (next.empty()) break;
    next.back()++;
    prefix = next;
  }
}

static void plain(mc::Ch &c) {
  ParConfig p{};
  p.type = c.choose(3);
  p.num = c.choose(c.thorough ? 5 : 4);
  p.target = 1 + c.choose(3);
  int shard = c.choose(4);
  int bound = p.target == 3 ? (c.thorough ? 3 : 2) : 3;
  if (!c.thorough && p.type != 1) bound = std::min(bound, 2), c.require(p.num <= 2);
  c.commit();
  c.describe("parallel_for(%ld) with %d workers, every schedule with at most %d preemptions", p.num, p.target, bound);
  explore(c, p, bound, shard, 4);
}
static void pairs(mc::Ch &c) {
  ParConfig p{};
  p.two = 1;
  p.type = c.choose(2);
  p.num = c.choose(3);
  p.num2 = c.choose(4);
  p.target = 1 + c.choose(3);
  int shard = c.choose(4);
  int bound = c.thorough ? 3 : (p.target == 2 ? 2 : 1);
  c.commit();
  c.describe("parallel_for(%ld x %ld) with %d workers, at most %d preemptions", p.num, p.num2, p.target, bound);
  explore(c, p, bound, shard, 4);
}
static void throwing(mc::Ch &c) {
  ParConfig p{};
  p.type = 0;
  p.num = 1 + c.choose(4);
  p.target = 1 + c.choose(3);
  p.throws = 1 + (unsigned long) c.choose((1 << p.num) - 1);
  int shard = c.choose(4);
  int bound = p.target == 3 ? (c.thorough ? 2 : 1) : 2;
  c.commit();
  c.describe("parallel_for(%ld) with %d workers, bodies %lx throw, at most %d preemptions", p.num, p.target, p.throws, bound);
  explore(c, p, bound, shard, 4);
}
static void throwing_pairs(mc::Ch &c) {
  ParConfig p{};
  p.two = 1;
  p.num = 1;
  p.num2 = 1 + c.choose(3);
  p.target = 1 + c.choose(2);
  int k = 1 + c.choose((1 << p.num2) - 1);
  p.throws = 0;
  (void) k;
  // index pairs are numbered i + 1000 j: only row 0 can throw
  p.num = 1 + c.choose(3);
  p.throws = 1 + (unsigned long) c.choose((1 << p.num) - 1);
  c.require(k == 1);
  c.commit();
  c.describe("parallel_for(%ld x %ld) with %d workers, first row throws %lx", p.num, p.num2, p.target, p.throws);
  explore(c, p, c.thorough ? 2 : 1, 0, 1);
}
// every loop length and worker count, sequential and round-robin schedules
static void sizes(mc::Ch &c) {
  ParConfig p{};
  p.type = c.choose(3);
  p.two = c.choose(2);
  p.num = c.choose(c.thorough ? 260 : 70);
  p.num2 = p.two ? p.num % 7 : 0;
  if (p.two && c.flip()) std::swap(p.num, p.num2);
  p.target = c.choose(c.thorough ? 18 : 10);
  int hw = p.target ? 3 : c.choose(4);      // 0: the library asks for the number of cores (which may be unknown)
  int policy = c.choose(2);
  c.commit();
  c.describe("parallel_for(%ld,%ld) with %d workers, %d cores", p.num, p.num2, p.target, hw);
  int r = execute(c, p, {}, 0, policy, hw);
  if (r == 1) c.fail("%s [%d cores]", sh()->msg, hw);
  c.step();
  c.outcome(mc::Hash() << sh()->outcome[0] << sh()->outcome[1]);
}
// loop lengths up to the largest value of a narrow index type
static void narrow(mc::Ch &c) {
  ParConfig p{};
  p.type = c.pick({3, 4, 5});
  long mx = p.type == 3 ? 255 : p.type == 4 ? 127 : 65535;
  p.num = mx - c.choose(p.type == 5 ? 2 : 10);
  p.target = 1 + c.choose(p.type == 5 ? 3 : 12);
  int policy = c.choose(2);
  c.commit();
  c.describe("parallel_for up to %ld in a type with maximum %ld, %d workers", p.num, mx, p.target);
  c.limit_scale = 4;
  int r = execute(c, p, {}, 0, policy, 2);
  if (r == 1) c.fail("%s [index type with maximum %ld]", sh()->msg, mx);
  c.step();
  c.outcome(mc::Hash() << sh()->outcome[0] << sh()->outcome[1]);
}

int main(int argc, char **argv) {
  return mc::run(argc, argv,
                 {"C19", "model_checking",
                  {"sequentially consistent interleavings: a thread may be preempted before every atomic, mutex, thread or future operation and inside the loop body; plain accesses are checked for data races instead",
                   "preemption bound 1-3 per configuration"}, 8, 60},
                 {{"plain", plain, "1D loops of 0-4 iterations, 1-3 workers, every schedule"},
                  {"pairs", pairs, "2D loops up to 2x3, 1-3 workers, every schedule"},
                  {"throwing", throwing, "every non-empty set of throwing bodies, loops of 1-4 iterations, 1-3 workers, every schedule"},
                  {"throwing_pairs", throwing_pairs, "2D loops with throwing bodies"},
                  {"sizes", sizes, "every loop length 0-69 (thorough 259) and 0-9 (17) workers under the sequential and the round-robin schedule"},
                  {"narrow", narrow, "loop lengths up to the maximum of narrow index types"}});
}
