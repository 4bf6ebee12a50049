// C07: linear programming against exact vertex and ray enumeration.
#include "mc.h"
#include <iostream>
#include "delfem2/lp.h"
using LP = delfem2::CLinPro;

struct Con { std::vector<int> a; int b; int t; };  // t: 0 <=, 1 >=, 2 =

// exact rational points p/den (den>0)
struct Pt { std::vector<long> p; long den; };
static bool feasible(const std::vector<Con> &cs, const Pt &x, int nv) {
  for (int i = 0; i < nv; i++) if (x.p[i] < 0) return false;
  for (auto &k: cs) {
    long s = -(long) k.b * x.den;
    for (int i = 0; i < nv; i++) s += k.a[i] * x.p[i];
    if (k.t == 0 && s > 0) return false;
    if (k.t == 1 && s < 0) return false;
    if (k.t == 2 && s != 0) return false;
  }
  return true;
}
static long det(int n, const std::vector<std::vector<long>> &m) {
  if (n == 0) return 1;
  if (n == 1) return m[0][0];
  if (n == 2) return m[0][0] * m[1][1] - m[0][1] * m[1][0];
  if (n == 3) return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
  long s = 0;
  for (int j = 0; j < n; j++) {
    if (m[0][j] == 0) continue;
    std::vector<std::vector<long>> k;
    for (int i = 1; i < n; i++) { std::vector<long> r; for (int q = 0; q < n; q++) if (q != j) r.push_back(m[i][q]); k.push_back(r); }
    s += (j % 2 ? -1 : 1) * m[0][j] * det(n - 1, k);
  }
  return s;
}
// all vertices of {x>=0, constraints}
static std::vector<Pt> vertices(const std::vector<Con> &cs, int nv) {
  std::vector<std::vector<long>> rows;  // coefficients..., rhs
  for (auto &k: cs) { std::vector<long> r(k.a.begin(), k.a.end()); r.push_back(k.b); rows.push_back(r); }
  for (int i = 0; i < nv; i++) { std::vector<long> r(nv + 1, 0); r[i] = 1; rows.push_back(r); }
  std::vector<Pt> out;
  int m = (int) rows.size();
  for (unsigned mask = 0; mask < (1u << m); mask++) {
    if (__builtin_popcount(mask) != nv) continue;
    std::vector<std::vector<long>> M;
    std::vector<long> rhs;
    for (int i = 0; i < m; i++) if (mask >> i & 1) { M.push_back({rows[i].begin(), rows[i].end() - 1}); rhs.push_back(rows[i].back()); }
    long D = det(nv, M);
    if (D == 0) continue;
    Pt x;
    x.den = D;
    for (int i = 0; i < nv; i++) { auto N = M; for (int k = 0; k < nv; k++) N[k][i] = rhs[k]; x.p.push_back(det(nv, N)); }
    if (D < 0) { x.den = -D; for (auto &v: x.p) v = -v; }
    if (feasible(cs, x, nv)) out.push_back(x);
  }
  return out;
}
struct Oracle { int status = 0; double opt = 0; };  // 0 optimum, 2 unbounded, 3 infeasible
static Oracle solve_exact(const std::vector<Pt> &V, const std::vector<Pt> &R, const std::vector<int> &obj) {
  Oracle o;
  if (V.empty()) { o.status = 3; return o; }
  for (auto &r: R) { long s = 0; for (size_t i = 0; i < obj.size(); i++) s += obj[i] * r.p[i]; if (s > 0) { o.status = 2; return o; } }
  bool first = true;
  for (auto &v: V) {
    double s = 0;
    for (size_t i = 0; i < obj.size(); i++) s += obj[i] * (double) v.p[i] / (double) v.den;
    if (first || s > o.opt) o.opt = s;
    first = false;
  }
  return o;
}
static std::string show(const std::vector<Con> &cs) {
  std::string s;
  static const char *T[] = {"<=", ">=", "="};
  for (auto &k: cs) s += mc::str(k.a) + T[k.t] + std::to_string(k.b) + "; ";
  return s;
}

static void check_solution(mc::Ch &c, const std::vector<Con> &cs, int nv, const std::vector<int> &obj, const Oracle &o, int res,
                           const std::vector<double> &sol0, double opt0, const char *what, double so = 1, double sr = 1) {
  std::vector<double> sol = sol0;
  for (auto &x: sol) x /= sr;
  const double opt = opt0 / (so * sr);
  MC_CHECK(c, res == o.status, "%s: maximise %s subject to %s: Solve returned %d, the program is %s", what, mc::str(obj).c_str(), show(cs).c_str(), res, o.status == 2 ? "unbounded (2)" : "bounded (0)");
  if (o.status != 0) return;
  MC_CHECK(c, (int) sol.size() == nv, "%s: solution has %zu entries", what, sol.size());
  double v = 0;
  for (int i = 0; i < nv; i++) {
    v += (i < (int) obj.size() ? obj[i] : 0) * sol[i];
    MC_CHECK(c, sol[i] > -1e-9, "%s: variable %d is %g", what, i, sol[i]);
  }
  MC_CHECK(c, std::fabs(v - o.opt) < 1e-8 && std::fabs(opt - o.opt) < 1e-8, "%s: maximise %s subject to %s: objective at the solution %g, reported optimum %g, true optimum %g", what, mc::str(obj).c_str(), show(cs).c_str(), v, opt, o.opt);
  for (auto &k: cs) {
    double s = -k.b;
    for (int i = 0; i < nv; i++) s += k.a[i] * sol[i];
    bool ok = k.t == 0 ? s < 1e-8 : k.t == 1 ? s > -1e-8 : std::fabs(s) < 1e-8;
    MC_CHECK(c, ok, "%s: maximise %s subject to %s: solution %s violates a constraint by %g", what, mc::str(obj).c_str(), show(cs).c_str(), mc::str(sol).c_str(), s);
  }
}

static void run_lp(mc::Ch &c, int nv, const std::vector<Con> &cs, const std::vector<std::vector<int>> &objs, bool orders) {
  c.describe("%d variables, %s", nv, show(cs).c_str());
  auto V = vertices(cs, nv);
  std::vector<Con> hom = cs;
  for (auto &k: hom) k.b = 0;
  Con one;
  one.a.assign(nv, 1);
  one.b = 1;
  one.t = 2;
  hom.push_back(one);
  auto R = vertices(hom, nv);
  std::vector<int> ord;
  for (size_t i = 0; i < cs.size(); i++) ord.push_back((int) i);
  do {
    LP lp;
    for (int i: ord) lp.AddEqn(std::vector<double>(cs[i].a.begin(), cs[i].a.end()), cs[i].b, (LP::EQ_TYPE) cs[i].t);
    int nitr = 200;
    int res = lp.Precomp(nitr);
    c.step();
    MC_CHECK(c, res == (V.empty() ? 3 : 0), "Precomp returned %d for %s which is %s", res, show(cs).c_str(), V.empty() ? "infeasible" : "feasible");
    MC_CHECK(c, nitr < 200, "Precomp used up 200 iterations on %s", show(cs).c_str());
    if (res != 0) { c.outcome(3); continue; }
    auto val = lp.GetValid();
    MC_CHECK(c, (int) val.size() == nv, "GetValid has %zu entries", val.size());
    for (auto &k: cs) {
      double s = -k.b;
      for (int i = 0; i < nv; i++) s += k.a[i] * val[i];
      bool ok = k.t == 0 ? s < 1e-8 : k.t == 1 ? s > -1e-8 : std::fabs(s) < 1e-8;
      MC_CHECK(c, ok, "GetValid %s violates a constraint of %s", mc::str(val).c_str(), show(cs).c_str());
    }
    for (auto &x: val) MC_CHECK(c, x > -1e-9, "GetValid gives a negative variable");
    for (auto &obj: objs) {  // solved one after the other on the same object
      Oracle o = solve_exact(V, R, obj);
      std::vector<double> sol = {7, 7, 7, 7, 7};
      double opt = -99;
      int it = 200;
      int r = lp.Solve(sol, opt, it, std::vector<double>(obj.begin(), obj.end()));
      c.step();
      MC_CHECK(c, it < 200, "Solve used up 200 iterations: maximise %s subject to %s", mc::str(obj).c_str(), show(cs).c_str());
      sol.resize(nv);
      check_solution(c, cs, nv, obj, o, r, sol, opt, "Solve");
      mc::Hash h;
      h << o.status << o.opt;
      for (auto &k: cs) h << k.t;
      c.outcome(h);
    }
    if (!std::is_sorted(ord.begin(), ord.end())) continue;
    // the same program in other units: small and large objectives, right-hand sides and rows
    static const double U[3][3] = {{1. / 8192, 1, 1}, {1. / 4096, 1. / 1024, 1}, {2048, 512, 1. / 64}};
    for (auto &u: U) {
      LP l2;
      for (int i: ord) { std::vector<double> a(cs[i].a.begin(), cs[i].a.end()); for (auto &x: a) x *= u[2]; l2.AddEqn(a, cs[i].b * u[1] * u[2], (LP::EQ_TYPE) cs[i].t); }
      int n2 = 200;
      int r2 = l2.Precomp(n2);
      MC_CHECK(c, r2 == 0, "in other units (right-hand sides times %g, rows times %g): Precomp returned %d for %s which is feasible", u[1], u[2], r2, show(cs).c_str());
      for (auto &obj: objs) {
        Oracle o = solve_exact(V, R, obj);
        std::vector<double> sol, ob(obj.begin(), obj.end());
        for (auto &x: ob) x *= u[0];
        double opt = -99;
        int it = 200;
        int r = l2.Solve(sol, opt, it, ob);
        c.step();
        sol.resize(nv);
        check_solution(c, cs, nv, obj, o, r, sol, opt, "Solve in other units", u[0], u[1]);
      }
    }
  } while (orders && std::next_permutation(ord.begin(), ord.end()));
}

static std::vector<Con> cons_alphabet(int nv, const std::vector<int> &co, const std::vector<int> &rhs) {
  std::vector<Con> r;
  int n = 1;
  for (int i = 0; i < nv; i++) n *= (int) co.size();
  for (int k = 0; k < n; k++) {
    std::vector<int> a;
    int q = k;
    for (int i = 0; i < nv; i++) { a.push_back(co[q % co.size()]); q /= (int) co.size(); }
    if (std::all_of(a.begin(), a.end(), [](int v) { return v == 0; })) continue;
    for (int b: rhs) for (int t = 0; t < 3; t++) r.push_back({a, b, t});
  }
  return r;
}
static std::vector<Con> choose_cons(mc::Ch &c, const std::vector<Con> &al, int m) {  // multiset, order covered by permutations
  std::vector<Con> r;
  int from = 0;
  for (int i = 0; i < m; i++) { int k = from + c.choose((int) al.size() - from); r.push_back(al[k]); from = k; }
  return r;
}
static const std::vector<std::vector<int>> OBJ1 = {{1}, {-1}, {0}}, OBJ2 = {{1, 1}, {2, -1}, {-1, 0}, {0, 3}, {1, 2}, {-1, -2}, {1}},
    OBJ3 = {{1, 1, 1}, {2, -1, 1}, {-1, 0, 0}, {0, 0, 3}, {-1, 2, -1}, {1, 2}};
static void body_one(mc::Ch &c) {
  static const auto al = cons_alphabet(1, {-2, -1, 1, 2, 3}, {-2, -1, 0, 1, 2});
  int m = 1 + c.choose(3);
  auto cs = choose_cons(c, al, m);
  c.commit();
  run_lp(c, 1, cs, OBJ1, true);
}
static void body_two2(mc::Ch &c) {
  static const auto al = cons_alphabet(2, {-2, -1, 0, 1, 3}, {-2, 0, 1, 2});
  int m = 1 + c.choose(2);
  auto cs = choose_cons(c, al, m);
  c.commit();
  run_lp(c, 2, cs, OBJ2, true);
}
static void body_two3(mc::Ch &c) {
  static const auto al = cons_alphabet(2, {-1, 0, 1}, {-1, 0, 1});
  static const auto alt = cons_alphabet(2, {-1, 0, 1, 2}, {-1, 0, 1, 2});
  auto cs = choose_cons(c, c.thorough ? alt : al, 3);
  c.commit();
  run_lp(c, 2, cs, OBJ2, true);
}
static void body_three(mc::Ch &c) {
  static const auto al = cons_alphabet(3, {-1, 0, 1}, {-1, 0, 1});
  static const auto alt = cons_alphabet(3, {-1, 0, 1, 2}, {-1, 0, 1});
  auto cs = choose_cons(c, c.thorough ? alt : al, 2);
  c.commit();
  run_lp(c, 3, cs, OBJ3, true);
}
static void body_box(mc::Ch &c) {  // bounded programs: two free constraints inside a simplex or a box
  static const auto al = cons_alphabet(3, {-1, 0, 2}, {0, 1});
  static const auto alt = cons_alphabet(3, {-1, 0, 1, 2}, {-1, 0, 1});
  int w = c.choose(2);
  auto cs = choose_cons(c, c.thorough ? alt : al, 2);
  if (w == 0) cs.push_back({{1, 1, 1}, 3, 0});
  else { cs.push_back({{1, 0, 0}, 1, 0}); cs.push_back({{0, 1, 0}, 2, 0}); cs.push_back({{0, 0, 1}, 1, 0}); }
  c.commit();
  run_lp(c, 3, cs, OBJ3, false);
}
static void body_deg(mc::Ch &c) {  // degenerate and classic cycling programs, with every order of the constraints
  static const std::vector<std::vector<Con>> P = {
      {{{1, -22, -2, 36}, 0, 0}, {{1, -6, -1, 6}, 0, 0}, {{1, 0, 0, 0}, 1, 0}},
      {{{1, -16, -2, 18}, 0, 0}, {{2, -36, -4, 12}, 0, 0}, {{0, 0, 1, 0}, 1, 0}},
      {{{-4, -18, 2, 18}, 0, 0}, {{1, 2, -1, -4}, 0, 0}, {{2, 9, -1, -9}, 2, 0}},
      {{{1, -1, 1, -1}, 0, 2}, {{1, 1, -1, -1}, 0, 2}, {{1, 1, 1, 1}, 4, 2}},
      {{{1, 1, 0, 0}, 1, 2}, {{0, 0, 1, 1}, 1, 2}, {{1, 0, 1, 0}, 1, 2}, {{0, 1, 0, 1}, 1, 2}},
      {{{1, 0, 0, 0}, 0, 1}, {{-1, -1, -1, -1}, -2, 1}, {{1, 1, 0, 0}, 1, 0}, {{0, 0, 1, 1}, 1, 0}},
  };
  auto cs = c.pick(P);
  std::vector<std::vector<int>> objs;
  std::vector<int> o;
  for (int i = 0; i < 4; i++) o.push_back(c.pick({-2, -1, 0, 1, 2, 10}));
  objs.push_back(o);
  objs.push_back({10, -57, -9, -24});
  objs.push_back({2, 3, -1, -12});
  objs.push_back({3, -80, 2, -24});
  c.commit();
  run_lp(c, 4, cs, objs, true);
}

int main(int argc, char **argv) {
  std::cout.rdbuf(nullptr);
  return mc::run(argc, argv, mc::Config{"C07", "exploration",
      {"coefficients are small integers; the optimum is compared within 1e-8", "constraints with an all-zero left side are not enumerated"}},
      {{"one", body_one, "1 variable, all multisets of up to 3 constraints (75 kinds), every order, 3 objectives in turn on the same object"},
       {"two-2", body_two2, "2 variables, all multisets of up to 2 of 288 constraints, both orders, 7 objectives in turn"},
       {"two-3", body_two3, "2 variables, all multisets of 3 of 72 (thorough 180) constraints, every order, 7 objectives in turn"},
       {"three", body_three, "3 variables, all multisets of 2 of 234 (thorough 567) constraints, both orders, 6 objectives in turn"},
       {"box", body_box, "3 variables inside a simplex or box, all pairs of 156 (thorough 567) further constraints"},
       {"degenerate", body_deg, "6 degenerate 4-variable programs in every constraint order, 1296 objectives"}});
}
