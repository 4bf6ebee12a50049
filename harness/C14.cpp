// C14: polynomial root isolation against an exact Sturm chain over the integers.
#include "mc.h"
#include <cassert>
#include <cmath>
#include <algorithm>
#include <vector>
#include <array>
#include "delfem2/polynomial_root.h"
namespace dfm2 = delfem2;
using Z = __int128;
using Poly = std::vector<Z>;   // coefficient of x^i at i, no trailing zero
static Z gcdz(Z a, Z b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { Z t = a % b; a = b; b = t; } return a; }
static void trim(Poly &p) { while (!p.empty() && p.back() == 0) p.pop_back(); }
static void prim(Poly &p) { trim(p); Z g = 0; for (auto x: p) g = gcdz(g, x); if (g > 1) for (auto &x: p) x /= g; }
static Poly deriv(const Poly &p) { Poly d; for (size_t i = 1; i < p.size(); i++) d.push_back(p[i] * (Z) i); trim(d); return d; }
static bool toobig(const Poly &p) { for (auto x: p) if (x > (Z) 1 << 58 || x < -((Z) 1 << 58)) return true; return false; }
// positive multiple of the remainder of a by b
static Poly rem(Poly a, const Poly &b) {
  while (a.size() >= b.size()) {
    Z g = gcdz(a.back(), b.back()), m = b.back() / g, q = a.back() / g;
    if (m < 0) { m = -m; q = -q; }
    size_t s = a.size() - b.size();
    for (auto &x: a) x *= m;
    for (size_t i = 0; i < b.size(); i++) a[i + s] -= q * b[i];
    trim(a);
    if (a.empty()) break;
    Z gg = 0;
    for (auto x: a) gg = gcdz(gg, x);
    if (gg > 1) for (auto &x: a) x /= gg;
  }
  return a;
}
static Poly divexact(Poly a, const Poly &b) {   // up to a positive factor (b's sign kept)
  Poly q(a.size() - b.size() + 1, 0);
  Z lc = b.back() < 0 ? -b.back() : b.back();
  Z sc = 1;
  for (size_t i = 0; i < q.size(); i++) sc *= lc;
  for (auto &x: a) x *= sc;
  for (int k = (int) q.size() - 1; k >= 0; k--) { q[k] = a[k + b.size() - 1] / b.back(); for (size_t i = 0; i < b.size(); i++) a[k + i] -= q[k] * b[i]; }
  prim(q);
  return q;
}
static Poly gcdp(Poly a, Poly b) { prim(a); prim(b); while (!b.empty()) { Poly r = rem(a, b); prim(r); a = b; b = r; } return a; }
struct Exact {
  Poly f, sf;                 // polynomial and its squarefree part
  std::vector<Poly> chain;
  bool ok = true, multiple = false;
  explicit Exact(const Poly &p) : f(p) {
    prim(f);
    sf = f;
    if (f.size() >= 2) {
      Poly g = gcdp(f, deriv(f));
      multiple = g.size() > 1;
      if (multiple) sf = divexact(f, g);
      chain = {sf, deriv(sf)};
      while (chain.back().size() > 1) {
        Poly r = rem(chain[chain.size() - 2], chain.back());
        if (r.empty()) break;
        for (auto &x: r) x = -x;
        if (toobig(r)) { ok = false; break; }
        chain.push_back(r);
      }
    } else chain = {f};
  }
  // sign of p at num/16
  static int sgn(const Poly &p, long num) { Z v = 0, d = 1; for (size_t i = p.size(); i-- > 0;) { v = v * num + p[i] * d; d *= 16; } return v > 0 ? 1 : v < 0 ? -1 : 0; }
  int var(long num) const { int r = 0, pv = 0; for (auto &p: chain) { int s = sgn(p, num); if (s) { if (pv && s != pv) r++; pv = s; } } return r; }
  int count(long a, long b) const { return var(a) - var(b); }   // distinct roots in (a/16, b/16]
  // long double evaluation for isolating roots finely
  long double ev(const Poly &p, long double x) const { long double v = 0; for (size_t i = p.size(); i-- > 0;) v = v * x + (long double) p[i]; return v; }
  int varl(long double x) const { int r = 0, pv = 0; for (auto &p: chain) { long double e = ev(p, x); int s = e > 0 ? 1 : e < 0 ? -1 : 0; if (s) { if (pv && s != pv) r++; pv = s; } } return r; }
  std::vector<double> roots(long a, long b) const {   // in (a/16,b/16]
    std::vector<double> res;
    int n = count(a, b);
    for (int k = 0; k < n; k++) {
      // smallest x with more than k roots in (a,x]
      long double lo = a / 16.0L, hi = b / 16.0L;
      int v0 = var(a);
      for (int i = 0; i < 80; i++) { long double m = (lo + hi) / 2; if (v0 - varl(m) > k) hi = m; else lo = m; }
      res.push_back((double) hi);
    }
    return res;
  }
};
// does the remainder sequence keep its exact shape in double arithmetic?
static bool wellbehaved(const std::vector<double> &cf, const Exact &E) {
  std::vector<Poly> ch{E.f, deriv(E.f)};
  std::vector<std::vector<double>> d{cf, {}};
  for (size_t i = 1; i < cf.size(); i++) d[1].push_back(cf[i] * (double) i);
  while (ch.back().size() > 1) {
    Poly r = rem(ch[ch.size() - 2], ch.back());
    for (auto &x: r) x = -x;
    if (toobig(r)) return false;
    std::vector<double> a = d[d.size() - 2], b = d.back();
    while (!a.empty() && a.back() == 0) a.pop_back();
    while (!b.empty() && b.back() == 0) b.pop_back();
    if (b.size() != ch.back().size()) return false;
    double big = 0;
    for (double x: a) big = std::max(big, std::fabs(x));
    while (a.size() >= b.size()) { double q = a.back() / b.back(); size_t s = a.size() - b.size(); for (size_t i = 0; i + 1 < b.size(); i++) a[i + s] -= q * b[i]; a.pop_back(); while (!a.empty() && a.back() == 0) a.pop_back(); }
    if (a.size() != r.size()) return false;
    if (r.empty()) return true;
    if (std::fabs(a.back()) < 1e-9 * big) return false;
    for (auto &x: a) x = -x;
    ch.push_back(r);
    d.push_back(a);
  }
  return true;
}
template<int n>
static void check_poly(mc::Ch &c, const std::vector<long> &co) {
  Poly p(co.begin(), co.end());
  trim(p);
  if (p.size() < 2) c.skip();
  Exact E(p);
  std::vector<double> cf(co.begin(), co.end());
  if (!E.ok || !wellbehaved(std::vector<double>(cf.begin(), cf.begin() + p.size()), E)) c.skip();
  c.commit();
  c.describe("%s", mc::str(co).c_str());
  double coe[n], st[n][n];
  for (int i = 0; i < n; i++) coe[i] = (double) co[i];
  for (auto &r: st) for (auto &x: r) x = 777;
  dfm2::SturmSequenceOfPolynomial<n>(st, coe);
  static const long bd[] = {-64, -32, -16, -5, 0, 4, 8, 12, 16, 27, 48};
  auto multi_at = [&](long x) { return E.multiple && Exact::sgn(E.f, x) == 0 && Exact::sgn(deriv(E.f), x) == 0; };
  for (long a: bd) for (long b: bd) {
    if (a >= b || multi_at(a) || multi_at(b)) continue;
    int want = E.count(a, b);
    c.tick();
    int got = dfm2::SturmNumber<n>(a / 16., st) - dfm2::SturmNumber<n>(b / 16., st);
    MC_CHECK(c, got == want, "%d roots counted in (%g,%g], exact %d", got, a / 16., b / 16., want);
    auto iv = dfm2::RootInterval_SturmSequence<n>(a / 16., b / 16., st);
    MC_CHECK(c, (int) iv.size() == want, "%zu intervals isolated in (%g,%g], exact %d roots", iv.size(), a / 16., b / 16., want);
    auto ex = E.roots(a, b);
    std::sort(iv.begin(), iv.end());
    for (size_t k = 0; k < iv.size(); k++) {
      MC_CHECK(c, iv[k].first >= a / 16. && iv[k].second <= b / 16. && iv[k].first <= iv[k].second, "interval (%g,%g] leaves (%g,%g]", iv[k].first, iv[k].second, a / 16., b / 16.);
      int in = 0;   // roots within rounding of an end may belong to either side
      for (double x: ex) if (x > iv[k].first + 1e-12 && x < iv[k].second - 1e-12) in++;
      MC_CHECK(c, in <= 1, "interval (%.17g,%.17g] holds %d roots", iv[k].first, iv[k].second, in);
      MC_CHECK(c, ex[k] >= iv[k].first - 1e-13 && ex[k] <= iv[k].second + 1e-13, "root %.17g in (%g,%g] is not in its interval (%.17g,%.17g]", ex[k], a / 16., b / 16., iv[k].first, iv[k].second);
      if (k) MC_CHECK(c, iv[k].first >= iv[k - 1].second, "intervals overlap");
      // bisection on intervals with a sign change
      double fl = dfm2::Eval_Polynomial(iv[k].first, coe, n), fr = dfm2::Eval_Polynomial(iv[k].second, coe, n);
      if (fl * fr < 0 || fr == 0) {
        if (fl == 0) continue;
        double r = dfm2::RootInInterval_Bisection(iv[k].first, iv[k].second, coe, n, 40);
        MC_CHECK(c, std::fabs(r - ex[k]) < (E.multiple ? 2e-2 : 1e-7), "bisection returns %.17g, the root is %.17g", r, ex[k]);
        if (!E.multiple) { r = dfm2::RootInInterval_Bisection(iv[k].first, iv[k].second, coe, n, 25); MC_CHECK(c, std::fabs(r - ex[k]) < 1e-5, "25 bisections return %.17g, the root is %.17g", r, ex[k]); }
      }
    }
    c.outcome(mc::Hash() << want << n);
  }
  if (!multi_at(0) && !multi_at(16)) {
    auto ex = E.roots(0, 16);
    auto rs = dfm2::RootsOfPolynomial<n>(coe, 40);
    std::sort(rs.begin(), rs.end());
    std::string s;
    for (double r: rs) s += " " + std::to_string(r);
    MC_CHECK(c, rs.size() == ex.size(), "%zu roots returned in (0,1] (%s), exact %zu", rs.size(), s.c_str(), ex.size());
    for (size_t k = 0; k < ex.size(); k++) MC_CHECK(c, std::fabs(rs[k] - ex[k]) < (E.multiple ? 2e-2 : 1e-7), "root %.17g returned, exact %.17g", rs[k], ex[k]);
  }
  // value: exact for these sizes
  for (long x = -3; x <= 3; x++) { long v = 0; for (int i = n - 1; i >= 0; i--) v = v * x + co[i]; MC_CHECK(c, dfm2::Eval_Polynomial((double) x, coe, n) == (double) v, "value at %ld", x); }
  // closed sequences
  if constexpr (n == 3 || n == 4) {
    if (co[n - 1] != 0) {
      double q[n][n];
      for (auto &r: q) for (auto &x: r) x = 0;
      if constexpr (n == 3) dfm2::SturmSequenceOfPolynomial_Quadratic(q, coe);
      if constexpr (n == 4) dfm2::SturmSequenceOfPolynomial_Cubic(q, coe);
      for (long a: bd) for (long b: bd) {
        if (a >= b || multi_at(a) || multi_at(b)) continue;
        int got = dfm2::SturmNumber<n>(a / 16., q) - dfm2::SturmNumber<n>(b / 16., q);
        MC_CHECK(c, got == E.count(a, b), "closed sequence: %d roots counted in (%g,%g], exact %d", got, a / 16., b / 16., E.count(a, b));
      }
    }
  }
}
static void poly_n(mc::Ch &c, const std::vector<long> &co) {
  switch (co.size()) {
    case 2: check_poly<2>(c, co); break;
    case 3: check_poly<3>(c, co); break;
    case 4: check_poly<4>(c, co); break;
    case 5: check_poly<5>(c, co); break;
    case 6: check_poly<6>(c, co); break;
    case 7: check_poly<7>(c, co); break;
  }
}
static void coeffs(mc::Ch &c) {
  int d = 1 + c.choose(c.thorough ? 6 : 5);
  int m = d <= 3 ? 6 : d == 4 ? (c.thorough ? 4 : 3) : d == 5 ? (c.thorough ? 3 : 2) : 2;
  std::vector<long> co;
  for (int i = 0; i <= d; i++) co.push_back(c.choose(2 * m + 1) - m);
  poly_n(c, co);
}
static void roots(mc::Ch &c) {
  // all multisets of up to 5 roots k/8, times a quadratic factor, times a scale, padded with vanishing leading coefficients
  static const long rt[] = {-8, -3, 0, 1, 2, 3, 4, 6, 8, 9, 20};
  int k = 1 + c.choose(5), lo = 0;
  std::vector<long> co{1};
  for (int i = 0; i < k; i++) {
    int j = lo + c.choose(11 - lo);
    lo = j;
    std::vector<long> q(co.size() + 1, 0);
    for (size_t a = 0; a < co.size(); a++) { q[a] -= co[a] * rt[j]; q[a + 1] += co[a] * 8; }
    co = q;
  }
  int quad = k <= 3 ? c.choose(4) : 0;
  if (quad) {
    static const long Q[4][3] = {{1, 0, 0}, {1, 0, 1}, {3, -4, 2}, {-1, -1, 1}};   // two without real roots, one irrational pair
    std::vector<long> q(co.size() + 2, 0);
    for (size_t a = 0; a < co.size(); a++) for (int b = 0; b < 3; b++) q[a + b] += co[a] * Q[quad][b];
    co = q;
  }
  long g = 0;
  for (long x: co) g = std::__gcd(g, std::labs(x));
  static const long sc[] = {1, -1, 3};
  long s = c.pick({1l, -1l, 3l});
  for (auto &x: co) x = x / g * s;
  int pad = c.choose(2);
  if (pad) co.push_back(0);
  if (co.size() > 7) c.skip();
  poly_n(c, co);
}
static void quadratic(mc::Ch &c) {
  int m = c.thorough ? 9 : 6;
  long a = c.choose(2 * m + 1) - m, b = c.choose(2 * m + 1) - m, d = c.choose(2 * m + 1) - m;
  c.commit();
  c.describe("%ldx^2%+ldx%+ld", a, b, d);
  if (a == 0 && b == 0 && d == 0) c.skip();
  static const double bd[] = {-4, -2, -1.5, -1, -0.5, 0, 0.25, 0.5, 1, 2, 3};
  std::vector<double> ex;
  if (a == 0) { if (b) ex.push_back(-(double) d / b); }
  else {
    long D = b * b - 4 * a * d;
    if (D == 0) ex.push_back(-(double) b / (2. * a));
    if (D > 0) { ex.push_back((-b - std::sqrt((long double) D)) / (2.L * a)); ex.push_back((-b + std::sqrt((long double) D)) / (2.L * a)); }
  }
  for (double x0: bd) for (double x1: bd) {
    if (x0 > x1) continue;
    c.tick();
    auto r = dfm2::RootsInRange_QuadraticPolynomial(x0, x1, (double) a, (double) b, (double) d);
    for (double x: r) {
      MC_CHECK(c, x >= x0 && x <= x1, "root %g is not in [%g,%g]", x, x0, x1);
      bool f = false;
      for (double e: ex) if (std::fabs(e - x) < 1e-12 * (1 + std::fabs(e))) f = true;
      MC_CHECK(c, f, "%.17g is not a root", x);
    }
    for (double e: ex) {
      bool f = false;
      for (double x: r) if (std::fabs(e - x) < 1e-12 * (1 + std::fabs(e))) f = true;
      double g = std::min(std::fabs(e - x0), std::fabs(e - x1));
      bool dy = std::floor(e * 64) == e * 64;   // exactly representable: decided at the bounds, too
      if (e >= x0 && e <= x1 && (g > 1e-12 || dy)) MC_CHECK(c, f, "root %.17g in [%g,%g] is missing", e, x0, x1);
    }
    MC_CHECK(c, r.size() <= 2, "%zu roots", r.size());
    if (r.size() == 2 && ex.size() == 2) MC_CHECK(c, std::fabs(r[0] - r[1]) > 1e-9, "the same root is returned twice");
  }
  c.outcome(mc::Hash() << ex.size() << a << b);
}
static void bisect(mc::Ch &c) {
  // a simple root anywhere in an interval, also at its bounds and its bisection points
  long r = c.choose(17), l = c.choose(17), u = c.choose(17), other = c.pick({-32l, 40l, 21l});
  int it = c.pick({0, 1, 2, 3, 10, 60});
  int deg = c.choose(3);
  if (l >= u || r < l || r > u || (other >= l && other <= u)) c.skip();
  c.commit();
  c.describe("root %ld/16 in [%ld,%ld]/16, other root %ld, degree %d, %d iterations", r, l, u, other, deg + 1, it);
  double R = r / 16., O = other / 16.;
  std::vector<double> f = deg == 0 ? std::vector<double>{-R, 1} : deg == 1 ? std::vector<double>{R * O, -R - O, 1} : std::vector<double>{-R * 2, 2 - R, 1 - R * 1, 1};
  // deg 2: (x-R)(x^2+x+2)
  if (deg == 2) f = {-2 * R, 2 - R, 1 - R, 1};
  if (c.flip()) for (auto &x: f) x = -x;
  double x = dfm2::RootInInterval_Bisection(l / 16., u / 16., f.data(), (int) f.size(), it);
  MC_CHECK(c, x >= l / 16. - 1e-12 && x <= u / 16. + 1e-12, "%.17g is outside the interval", x);
  MC_CHECK(c, std::fabs(x - R) <= (u - l) / 16. * std::pow(0.5, it) + 1e-12, "%.17g after %d bisections, root %.17g", x, it, R);
  c.outcome(mc::Hash() << r << it);
}
int main(int argc, char **argv) {
  return mc::run(argc, argv, {"C14", "exploration", {"roots are counted in half-open intervals (lower bound excluded); no bound of an interval is itself a multiple root", "polynomials whose remainder sequence loses its shape in double arithmetic (a coefficient that vanishes exactly does not vanish in floating point) are not judged: there rounding decides the count", "the closed sequences are judged for a non-zero leading coefficient"}},
                 {{"coeffs", coeffs, "all polynomials with integer coefficients: degree <=3 in [-6,6], 4 in [-3,3], 5 in [-2,2] (thorough more, and degree 6), 55 intervals each"},
                  {"roots", roots, "all multisets of up to 5 roots k/8, times quadratic factors, scales and padding, 55 intervals each"},
                  {"quadratic", quadratic, "all a,b,c in [-6,6] (thorough [-9,9]), 66 ranges"},
                  {"bisect", bisect, "a root at every sixteenth, all enclosing intervals, 6 iteration counts"}});
}
