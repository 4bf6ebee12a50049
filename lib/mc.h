// Stateless / explicit-state bounded model checking kit used by every harness in /verif/harness.
//
// A harness is a list of sections. A section body is run once for every complete sequence of
// choices: Ch::choose(n) is a branching point, and the explorer enumerates ALL sequences depth
// first (nothing is sampled). A body picks an input or an operation sequence from its finite
// alphabet, calls commit(), runs the real delfem2 code, and compares with a reference model
// through check()/fail(). bfs() does explicit-state search with deduplication inside a body.
//
// Work is sharded over forked worker processes by a hash of the choice prefix at commit().
// A crash, an assert(), an ASan report, an uncaught exception or a hang of the code under test is
// attributed to the case recorded in shared memory; every violation is replayed alone before it
// is reported.
#ifndef VERIF_MC_H
#define VERIF_MC_H
#include <algorithm>
#include <array>
#include <climits>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

#ifndef MC_NO_ASAN_OPTIONS
extern "C" __attribute__((used, visibility("default"))) inline const char *__asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=77:hard_rss_limit_mb=3500:malloc_fill_byte=165:"
         "max_malloc_fill_size=1048576:detect_stack_use_after_return=0:allocator_may_return_null=0:"
         "handle_abort=0:symbolize=1";
}
#endif

// like c.check(), but builds the message only when it is needed
#define MC_CHECK(c, cond, ...) do { if (!(cond)) (c).fail(__VA_ARGS__); } while (0)

namespace mc {

struct Skip {};           // this choice sequence is not a case (or belongs to another worker)
struct Stop {};           // a violation was recorded
struct Known {};          // the case hit a listed known finding

inline double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return (double) t.tv_sec + 1e-9 * (double) t.tv_nsec;
}

inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
  auto *c = (const unsigned char *) p;
  for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ULL;
  return h;
}

struct Hash {  // accumulates an observed outcome
  uint64_t h = 1469598103934665603ULL;
  Hash &add(const void *p, size_t n) { h = fnv(p, n, h); return *this; }
  template<class T> Hash &operator<<(const T &v) { static_assert(std::is_trivially_copyable<T>::value, ""); return add(&v, sizeof(v)); }
  Hash &operator<<(double v) {  // rounded: outcomes that differ by rounding are the same outcome
    if (!(std::fabs(v) < 1e15)) { int64_t q = std::isnan(v) ? -1 : -2; return add(&q, 8); }
    int64_t q = (int64_t) std::llround(v * 1e3);
    return add(&q, 8);
  }
  Hash &operator<<(const std::string &s) { return add(s.data(), s.size()); }
  template<class T> Hash &operator<<(const std::vector<T> &v) { return vec(v); }
  template<class T> Hash &vec(const std::vector<T> &v) {
    size_t n = v.size();
    add(&n, sizeof(n));
    for (auto &x: v) *this << x;
    return *this;
  }
};

inline uint64_t mix(uint64_t x) {
  x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33;
  return x;
}

constexpr int MAXCH = 4096;
constexpr int NSEC = 96;

struct Shared {  // one per worker, in MAP_SHARED memory
  volatile double t0;               // start of the current step (watchdog)
  volatile double limit;            // allowed seconds for it
  volatile int sec, nch;
  volatile int ch[MAXCH];
  volatile int violated;            // 1: property violation recorded
  char key[512];
  char msg[4096];
  uint64_t cases[NSEC], steps[NSEC], states[NSEC];
  uint64_t known_hits[64];
  volatile int done;
};

struct KnownFinding { std::string key, text; };

struct Ch;
struct Section {
  const char *name;
  std::function<void(Ch &)> body;
  const char *rule;                 // what is enumerated, for the evidence
};

struct Ch {
  // --- configuration
  bool thorough = false;
  bool replay = false;
  int worker = 0, nworker = 1;
  Shared *sh = nullptr;
  int sec = 0;
  const std::vector<KnownFinding> *known = nullptr;
  double case_limit = 20;
  double limit_scale = 1;
  // --- one execution
  std::vector<int> ch;              // choices made
  std::vector<int> width;           // alternatives at each
  std::vector<int> prefix;          // choices to replay
  bool committed = false;
  std::string descr;
  // --- statistics
  std::unordered_set<uint64_t> *outcomes = nullptr;
  std::vector<std::string> *samples = nullptr;
  std::map<std::string, std::vector<long>> dims;

  int choose(int n) {
    if (n <= 0) throw Skip{};
    size_t i = ch.size();
    int c = 0;
    if (i < prefix.size()) c = prefix[i];
    if (c < 0 || c >= n) {
      if (replay) { fprintf(stderr, "replay diverged at choice %zu: %d of %d\n", i, c, n); _exit(3); }
      fprintf(stderr, "explorer: prefix diverged\n");
      _exit(3);
    }
    ch.push_back(c);
    width.push_back(n);
    if (committed) publish();
    return c;
  }
  template<class T> const T &pick(const std::vector<T> &v) { return v[choose((int) v.size())]; }
  template<class T> T pick(std::initializer_list<T> v) { return *(v.begin() + choose((int) v.size())); }
  bool flip() { return choose(2) == 1; }
  [[noreturn]] void skip() { throw Skip{}; }
  void require(bool b) { if (!b) throw Skip{}; }

  void publish() {
    int n = (int) std::min<size_t>(ch.size(), MAXCH);
    sh->sec = sec;
    for (int i = 0; i < n; i++) sh->ch[i] = ch[i];
    sh->nch = n;
  }
  void publish_with(const std::vector<int> &hist) {
    publish();
    int n = sh->nch;
    for (int h: hist) if (n < MAXCH) sh->ch[n++] = h;
    sh->nch = n;
  }
  void tick() { sh->limit = case_limit * limit_scale; sh->t0 = now(); }

  // The input is complete: from here on the real code runs. Also the sharding point.
  void commit() {
    if (committed) return;
    if (!replay && nworker > 1) {
      uint64_t h = mix(fnv(ch.data(), ch.size() * sizeof(int)) + (uint64_t) sec * 977);
      if ((int) (h % (uint64_t) nworker) != worker) throw Skip{};
    }
    committed = true;
    publish();
    tick();
  }
  void step(uint64_t n = 1) { sh->steps[sec] += n; }           // transitions of the real code
  void state(uint64_t n = 1) { sh->states[sec] += n; }
  void outcome(uint64_t h) {
    if (outcomes->size() < 4000000) outcomes->insert(mix(h + (uint64_t) sec * 1315423911ULL));
  }
  void outcome(const Hash &h) { outcome(h.h); }
  template<class A, class... B>
  auto outcome_of(const A &a, const B &... b) { Hash h; h << a; (void) std::initializer_list<int>{(h << b, 0)...}; outcome(h); }
  bool want_descr() const {
    uint64_t n = sh->cases[sec];
    return replay || (n < 2) || (n & (n - 1)) == 0;
  }
  void describe(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
    if (!want_descr()) return;
    char b[1600];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    descr = b;
  }
  [[noreturn]] void failv(const std::string &key0, const char *fmt, va_list ap) {
    char b[3800];
    vsnprintf(b, sizeof b, fmt, ap);
    std::string key = key0;
    if (known)
      for (size_t i = 0; i < known->size(); i++)
        if ((*known)[i].key == key && i < 64) { sh->known_hits[i]++; throw Known{}; }
    if (!sh->violated) {
      snprintf(sh->key, sizeof sh->key, "%s", key.c_str());
      snprintf(sh->msg, sizeof sh->msg, "%s", b);
      sh->violated = 1;
    }
    throw Stop{};
  }
  std::string case_key() const;
  [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
    va_list ap;
    va_start(ap, fmt);
    failv(case_key(), fmt, ap);
  }
  [[noreturn]] void fail_key(const std::string &key, const char *fmt, ...) __attribute__((format(printf, 3, 4))) {
    va_list ap;
    va_start(ap, fmt);
    failv(key, fmt, ap);
  }
  void check(bool ok, const char *fmt, ...) __attribute__((format(printf, 3, 4))) {
    if (ok) return;
    va_list ap;
    va_start(ap, fmt);
    failv(case_key(), fmt, ap);
  }
};

inline const std::vector<Section> *g_sections = nullptr;
inline std::string Ch::case_key() const {
  std::string s = (*g_sections)[sec].name;
  s += ":";
  for (size_t i = 0; i < ch.size(); i++) s += (i ? "," : "") + std::to_string(ch[i]);
  return s;
}

// Explicit-state breadth-first search from one initial state.
//   nops(s): number of operations offered in s;  apply(s, op): performs op on s with the real code,
//   checks it, returns false if the operation is not applicable;  canon(s): canonical form.
template<class S, class NOPS, class APPLY, class CANON>
void bfs(Ch &c, const S &init, int depth, NOPS nops, APPLY apply, CANON canon, size_t max_states = (size_t) -1) {
  if (c.replay && c.ch.size() < c.prefix.size()) {  // replay one history
    S s = init;
    std::vector<int> hist(c.prefix.begin() + (long) c.ch.size(), c.prefix.end());
    for (int op: hist) {
      c.choose(nops(s) > op ? nops(s) : op + 1);
      S t = s;
      if (!apply(t, op)) continue;
      s = std::move(t);
    }
    return;
  }
  struct Node { S s; std::vector<int> hist; };
  std::unordered_set<std::string> seen;
  std::deque<Node> q;
  q.push_back({init, {}});
  seen.insert(canon(init));
  c.state();
  bool capped = false;
  while (!q.empty()) {
    Node n = std::move(q.front());
    q.pop_front();
    if ((int) n.hist.size() >= depth) continue;
    int m = nops(n.s);
    for (int op = 0; op < m; op++) {
      std::vector<int> h = n.hist;
      h.push_back(op);
      c.publish_with(h);
      c.tick();
      S t = n.s;
      size_t base = c.ch.size();
      for (int x: h) c.ch.push_back(x);      // so that a failure is keyed by the full history
      bool ok = apply(t, op);
      c.ch.resize(base);
      if (!ok) continue;
      c.step();
      std::string k = canon(t);
      c.outcome(fnv(k.data(), k.size()));
      if (seen.size() >= max_states) { capped = true; continue; }
      if (!seen.insert(k).second) continue;
      c.state();
      q.push_back({std::move(t), std::move(h)});
    }
  }
  if (capped) c.dims["capped"].push_back((long) max_states);
}

struct Config {
  const char *property;
  const char *level;                 // evidence level
  std::vector<std::string> assumptions;
  int nworker = 8;
  double case_limit = 20;
};

inline std::string json_escape(const std::string &s) {
  std::string o;
  for (unsigned char c: s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char) c;
  }
  return o;
}

struct Runner {
  Config cfg;
  std::vector<Section> secs;
  bool thorough = false;
  std::string verif = "/verif", only;
  std::vector<KnownFinding> known;
  std::vector<Shared *> sh;

  Shared *alloc() {
    void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    memset(p, 0, sizeof(Shared));
    return (Shared *) p;
  }

  // runs one execution; returns 0 ok, 1 skipped, 2 violation, 3 known
  static int exec(Ch &c, const Section &s) {
    c.ch.clear();
    c.width.clear();
    c.committed = false;
    c.descr.clear();
    try {
      s.body(c);
    } catch (Skip &) { return 1; }
    catch (Stop &) { return 2; }
    catch (Known &) { return 3; }
    catch (std::exception &e) {
      if (!c.sh->violated) {
        snprintf(c.sh->key, sizeof c.sh->key, "%s", c.case_key().c_str());
        snprintf(c.sh->msg, sizeof c.sh->msg, "uncaught exception: %s", e.what());
        c.sh->violated = 1;
      }
      return 2;
    }
    return 0;
  }

  void worker(int w, Shared *s, double scale, const std::string &tmp) {
    std::unordered_set<uint64_t> outcomes;
    std::vector<std::string> samples;
    Ch c;
    c.thorough = thorough;
    c.worker = w;
    c.nworker = cfg.nworker;
    c.sh = s;
    c.known = &known;
    c.case_limit = cfg.case_limit;
    c.limit_scale = scale;
    c.outcomes = &outcomes;
    c.samples = &samples;
    for (size_t i = 0; i < secs.size(); i++) {
      if (!only.empty() && only != secs[i].name) continue;
      c.sec = (int) i;
      c.prefix.clear();
      size_t nsample = 0;
      for (;;) {
        int r = exec(c, secs[i]);
        if (r == 2) { s->done = 2; _exit(1); }
        if (r == 0 || r == 3) {
          s->cases[i]++;
          if (r == 0 && !c.descr.empty() && nsample < 3) {
            samples.push_back(std::string(secs[i].name) + ": " + c.descr);
            nsample++;
          }
        }
        // backtrack
        std::vector<int> p = c.ch;
        while (!p.empty() && p.back() + 1 >= c.width[p.size() - 1]) p.pop_back();
        if (p.empty()) break;
        p.back()++;
        c.prefix = p;
      }
      s->t0 = 0;
    }
    std::ofstream f(tmp);
    f << outcomes.size() << "\n";
    for (auto x: outcomes) f << x << "\n";
    f << samples.size() << "\n";
    for (auto &x: samples) f << json_escape(x) << "\n";
    for (auto &d: c.dims) f << "#" << d.first << "\n";
    f.close();
    s->done = 1;
    _exit(0);
  }

  // replay one case in a fresh child; returns 0 clean, 1 violation/crash/hang (msg filled)
  int replay_case(int sec, const std::vector<int> &choices, double limit, std::string &msg, std::string &log, std::string &key) {
    Shared *s = alloc();
    std::string lf = verif + "/build/replaylog." + cfg.property + "." + std::to_string(getpid());
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
      int fd = open(lf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
      dup2(fd, 1);
      dup2(fd, 2);
      struct rlimit rl{64u << 20, 64u << 20};
      setrlimit(RLIMIT_FSIZE, &rl);
      std::unordered_set<uint64_t> outcomes;
      std::vector<std::string> samples;
      Ch c;
      c.thorough = thorough;
      c.replay = true;
      c.sh = s;
      c.sec = sec;
      c.known = &known;
      c.case_limit = limit;
      c.outcomes = &outcomes;
      c.samples = &samples;
      c.prefix = choices;
      int r = exec(c, secs[sec]);
      fprintf(stderr, "%s\n", c.descr.c_str());
      fflush(stdout);
      fflush(stderr);
      _exit(r == 2 ? 1 : 0);
    }
    double t0 = now();
    int st = 0;
    int ret = 0;
    for (;;) {
      pid_t r = waitpid(pid, &st, WNOHANG);
      if (r == pid) break;
      if (now() - t0 > limit) {
        kill(pid, SIGKILL);
        waitpid(pid, &st, 0);
        msg = "the call does not return (no result after " + std::to_string((int) limit) + " s, run alone)";
        ret = 1;
        st = 0;
        break;
      }
      usleep(2000);
    }
    std::ifstream f(lf);
    std::stringstream ss;
    ss << f.rdbuf();
    log = ss.str();
    if (log.size() > 6000) log = log.substr(0, 3000) + "\n...\n" + log.substr(log.size() - 3000);
    unlink(lf.c_str());
    if (s->violated) { msg = s->msg; key = s->key; ret = 1; }
    else if (!ret && WIFSIGNALED(st)) {
      msg = std::string("crash: signal ") + strsignal(WTERMSIG(st));
      ret = 1;
    } else if (!ret && WIFEXITED(st) && WEXITSTATUS(st) == 3) {
      msg = "replay diverged";
      ret = 3;
    } else if (!ret && WIFEXITED(st) && WEXITSTATUS(st) != 0) {
      msg = "crash: exit status " + std::to_string(WEXITSTATUS(st)) + " (77 = AddressSanitizer report)";
      ret = 1;
    }
    munmap(s, sizeof(Shared));
    return ret;
  }

  void load_known() {
    std::ifstream f(verif + "/known_findings.txt");
    std::string l, pre = std::string("KNOWN property=") + cfg.property + " key=";
    while (std::getline(f, l)) {
      if (l.compare(0, pre.size(), pre)) continue;
      size_t p = l.find(" | ");
      if (p == std::string::npos) continue;
      known.push_back({l.substr(pre.size(), p - pre.size()), l.substr(p + 3)});
    }
  }

  // report a violation found for (sec, choices); returns exit code
  int report(int sec, const std::vector<int> &choices, const std::string &first_msg) {
    std::string msg, log, key;
    int r = replay_case(sec, choices, 120, msg, log, key);
    if (r == 3) { fprintf(stderr, "ERROR: replay of %s diverged\n", secs[sec].name); return 2; }
    if (r == 0) {
      fprintf(stderr, "ERROR: not reproduced alone (section %s): %s\n", secs[sec].name, first_msg.c_str());
      return 2;
    }
    // crash-type violations may be listed by case key too
    if (key.empty()) {
      key = std::string(secs[sec].name) + ":";
      for (size_t i = 0; i < choices.size(); i++) key += (i ? "," : "") + std::to_string(choices[i]);
      for (size_t i = 0; i < known.size(); i++)
        if (known[i].key == key) { sh[0]->known_hits[i]++; return -1; }
    }
    mkdir((verif + "/replays").c_str(), 0755);
    char nm[256];
    snprintf(nm, sizeof nm, "%s/replays/%s-%s-%08x.txt", verif.c_str(), cfg.property, secs[sec].name,
             (unsigned) fnv(choices.data(), choices.size() * sizeof(int)));
    std::ofstream f(nm);
    f << "property " << cfg.property << "\nsection " << secs[sec].name << "\nchoices";
    for (int c: choices) f << " " << c;
    f << "\nkey " << key << "\nmessage " << msg << "\nreplay: python3 /verif/check.py " << cfg.property << (thorough ? " --thorough" : "") << " --replay " << nm
      << "\n--- output\n" << log << "\n";
    f.close();
    printf("%s\n  section %s  key %s\n", msg.c_str(), secs[sec].name, key.c_str());
    printf("VIOLATION property=%s replay=%s\n", cfg.property, nm);
    fflush(stdout);
    return 1;
  }

  int main(int argc, char **argv) {
    std::string replay_file;
    if (getenv("VERIF_ROOT")) verif = getenv("VERIF_ROOT");
    for (int i = 1; i < argc; i++) {
      std::string a = argv[i];
      if (a == "--thorough") thorough = true;
      else if (a == "--replay") replay_file = argv[++i];
      else if (a == "--only") only = argv[++i];
      else if (a == "-j") cfg.nworker = atoi(argv[++i]);
    }
    if (secs.size() > (size_t) NSEC) { fprintf(stderr, "too many sections\n"); return 3; }
    g_sections = &secs;
    load_known();
    double T0 = now();
    if (!replay_file.empty()) {
      std::ifstream f(replay_file);
      std::string l;
      int sec = -1;
      std::vector<int> ch;
      while (std::getline(f, l)) {
        if (l.compare(0, 8, "section ") == 0)
          for (size_t i = 0; i < secs.size(); i++) if (l.substr(8) == secs[i].name) sec = (int) i;
        if (l.compare(0, 7, "choices") == 0) {
          std::stringstream ss(l.substr(7));
          int v;
          while (ss >> v) ch.push_back(v);
        }
        if (l == "--- output") break;
      }
      if (sec < 0) return 3;
      std::string msg, log, key;
      int r = replay_case(sec, ch, 120, msg, log, key);
      printf("%s\n%s\n", log.c_str(), msg.c_str());
      if (r == 1) printf("VIOLATION property=%s replay=%s\n", cfg.property, replay_file.c_str());
      return r == 1 ? 1 : (r ? 2 : 0);
    }
    mkdir((verif + "/build").c_str(), 0755);
    int N = cfg.nworker;
    std::vector<pid_t> pid(N, 0);
    std::vector<double> scale(N, 1.0);
    auto tmpf = [&](int w) { return verif + "/build/out." + cfg.property + "." + std::to_string(w); };
    auto launch = [&](int w) {
      memset((void *) sh[w], 0, sizeof(Shared));
      sh[w]->limit = 1e9;
      fflush(stdout);
      fflush(stderr);
      pid_t p = fork();
      if (p == 0) {
        if (!getenv("MC_VERBOSE")) {
          int fd = open("/dev/null", O_WRONLY);
          dup2(fd, 1);
          dup2(fd, 2);
        }
        worker(w, sh[w], scale[w], tmpf(w));
      }
      pid[w] = p;
    };
    for (int w = 0; w < N; w++) sh.push_back(alloc());
    for (int w = 0; w < N; w++) launch(w);
    int left = N, rc = 0;
    auto killall = [&]() {
      for (int w = 0; w < N; w++) if (pid[w] > 0) { kill(pid[w], SIGKILL); int st; waitpid(pid[w], &st, 0); pid[w] = 0; }
    };
    while (left > 0 && rc == 0) {
      usleep(5000);
      for (int w = 0; w < N && rc == 0; w++) {
        if (pid[w] <= 0) continue;
        int st;
        pid_t r = waitpid(pid[w], &st, WNOHANG);
        Shared *s = sh[w];
        std::vector<int> ch;
        auto grab = [&]() { for (int i = 0; i < s->nch; i++) ch.push_back((int) s->ch[i]); };
        if (r == pid[w]) {
          pid[w] = 0;
          if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && s->done == 1) { left--; continue; }
          grab();
          int sec = s->sec;
          std::string m = s->violated ? s->msg : "crash";
          int rr = report(sec, ch, m);
          if (rr == 0) rr = 2;
          if (rr == -1) rr = 2;  // a crash cannot be stepped over: such inputs must be excluded by the harness
          rc = rr;
        } else if (s->t0 > 0 && now() - s->t0 > s->limit) {
          grab();
          int sec = s->sec;
          kill(pid[w], SIGKILL);
          waitpid(pid[w], &st, 0);
          pid[w] = 0;
          std::string msg, log, key;
          int q = replay_case(sec, ch, 60, msg, log, key);
          if (q == 1) { killall(); rc = report(sec, ch, "hang"); if (rc == 0) rc = 2; }
          else { scale[w] *= 6; launch(w); }
        }
      }
    }
    killall();
    // ---- evidence
    uint64_t cases = 0, steps = 0, states = 0;
    std::unordered_set<uint64_t> outs;
    std::vector<std::string> samples, dims;
    for (int w = 0; w < N; w++) {
      for (size_t i = 0; i < secs.size(); i++) { cases += sh[w]->cases[i]; steps += sh[w]->steps[i]; states += sh[w]->states[i]; }
      std::ifstream f(tmpf(w));
      size_t n = 0;
      f >> n;
      for (size_t i = 0; i < n; i++) { uint64_t x; f >> x; outs.insert(x); }
      size_t m = 0;
      f >> m;
      std::string l;
      std::getline(f, l);
      for (size_t i = 0; i < m; i++) { std::getline(f, l); if (w == 0 || samples.size() < 4) samples.push_back(l); }
      while (std::getline(f, l)) if (!l.empty()) dims.push_back(l);
      unlink(tmpf(w).c_str());
    }
    bool capped = !dims.empty();
    if (samples.size() > 40) samples.resize(40);
    mkdir((verif + "/evidence").c_str(), 0755);
    std::string ev = verif + "/evidence/" + cfg.property + ".json";
    FILE *f = only.empty() ? fopen(ev.c_str(), "w") : nullptr;
    if (f) {
      fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %d,\n \"level\": \"%s\",\n \"coverage\": {\n", cfg.property,
              thorough ? "thorough" : "quick", getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1, cfg.level);
      if (!strcmp(cfg.level, "model_checking"))
        fprintf(f, "  \"states\": %llu,\n  \"transitions\": %llu,\n  \"traces_validated_against_impl\": %llu,\n  \"distinct_outcomes\": %zu,\n",
                (unsigned long long) (states ? states : outs.size()), (unsigned long long) steps, (unsigned long long) cases, outs.size());
      else
        fprintf(f, "  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %zu,\n  \"calls_checked\": %llu,\n", (unsigned long long) cases, outs.size(), (unsigned long long) steps);
      std::string rule = "Bounded-exhaustive: every choice sequence of every section is executed on the real code. An execution counts as distinct when its observed outcome (hash of the results) differs from all others. Sections: ";
      for (auto &s: secs) rule += std::string(s.name) + " = " + s.rule + "; ";
      fprintf(f, "  \"rule\": \"%s\",\n  \"sections\": {", json_escape(rule).c_str());
      for (size_t i = 0; i < secs.size(); i++) {
        uint64_t a = 0, b = 0, d = 0;
        for (int w = 0; w < N; w++) { a += sh[w]->cases[i]; b += sh[w]->steps[i]; d += sh[w]->states[i]; }
        fprintf(f, "%s\n   \"%s\": {\"cases\": %llu, \"calls\": %llu, \"bfs_states\": %llu}", i ? "," : "", secs[i].name, (unsigned long long) a, (unsigned long long) b, (unsigned long long) d);
      }
      fprintf(f, "\n  },\n  \"exhaustive\": %s,\n  \"samples\": [", (rc == 0 && !capped) ? "true" : "false");
      for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s\n   \"%s\"", i ? "," : "", samples[i].c_str());
      fprintf(f, "\n  ]\n },\n \"assumptions\": [");
      for (size_t i = 0; i < cfg.assumptions.size(); i++) fprintf(f, "%s\n  \"%s\"", i ? "," : "", json_escape(cfg.assumptions[i]).c_str());
      fprintf(f, "\n ],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", now() - T0, rc == 1 ? 1 : 0);
      fclose(f);
    }
    for (size_t i = 0; i < known.size() && i < 64; i++) {
      uint64_t h = 0;
      for (int w = 0; w < N; w++) h += sh[w]->known_hits[i];
      if (h && rc == 0) printf("KNOWN-FINDING: property=%s %s\n", cfg.property, known[i].text.c_str());
    }
    printf("%s %s: %llu cases, %llu calls, %llu bfs states, %zu distinct outcomes, %.1f s%s\n", cfg.property, rc == 0 ? "ok" : (rc == 1 ? "VIOLATED" : "ERROR"),
           (unsigned long long) cases, (unsigned long long) steps, (unsigned long long) states, outs.size(), now() - T0, capped ? " (capped)" : "");
    for (size_t i = 0; i < secs.size(); i++) {
      uint64_t a = 0;
      for (int w = 0; w < N; w++) a += sh[w]->cases[i];
      printf("   %-28s %llu cases\n", secs[i].name, (unsigned long long) a);
    }
    return rc;
  }
};

inline int run(int argc, char **argv, const Config &cfg, const std::vector<Section> &secs) {
  Runner r;
  r.cfg = cfg;
  r.secs = secs;
  return r.main(argc, argv);
}

// ---- small helpers for harnesses
inline bool near(double a, double b, double rel, double abs) {
  return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}
inline bool near(double a, double b, double tol = 1e-9) {
  if (std::isnan(a) || std::isnan(b)) return false;
  double s = std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
  return std::fabs(a - b) <= tol * s;
}
template<class V> std::string str(const V &v) {
  std::string s = "[";
  size_t i = 0;
  for (auto &x: v) { std::ostringstream o; o.precision(17); o << x; s += (i++ ? "," : "") + o.str(); }
  return s + "]";
}
}  // namespace mc
#endif
