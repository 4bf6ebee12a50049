// C13: parametric curves and surfaces against de Casteljau / de Boor in extended precision.
#include "mc.h"
#include <cassert>
#include <cmath>
#include <algorithm>
#include <vector>
#include <array>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/geo_aabb.h"
#include "delfem2/geo_polyline.h"
#include "delfem2/geo_curve_quadratic.h"
#include "delfem2/geo_curve_cubic.h"
#include "delfem2/geo_curve_ndegree.h"
#include "delfem2/geo_surface_parametric.h"
namespace dfm2 = delfem2;
using LD = long double;
using V2 = dfm2::CVec2d;
using V3 = dfm2::CVec3d;
using F2 = dfm2::CVec2f;
struct P { LD x[3] = {0, 0, 0}; LD &operator[](int i) { return x[i]; } LD operator[](int i) const { return x[i]; } };
static P operator+(const P &a, const P &b) { return {{a[0] + b[0], a[1] + b[1], a[2] + b[2]}}; }
static P operator-(const P &a, const P &b) { return {{a[0] - b[0], a[1] - b[1], a[2] - b[2]}}; }
static P operator*(LD s, const P &a) { return {{s * a[0], s * a[1], s * a[2]}}; }
static LD dot(const P &a, const P &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static LD len(const P &a) { return sqrtl(dot(a, a)); }
using Ctl = std::vector<P>;
template<class V> static P toP(const V &v) { P p; for (int i = 0; i < V::SizeAtCompileTime; i++) p[i] = v[i]; return p; }
template<class V> static V toV(const P &p) { V v; for (int i = 0; i < V::SizeAtCompileTime; i++) v[i] = (typename V::Scalar) p[i]; return v; }
template<class V> static std::vector<V> toVs(const Ctl &c) { std::vector<V> r; for (auto &p: c) r.push_back(toV<V>(p)); return r; }
static bool nearp(const P &a, const P &b, LD tol) { LD d = len(a - b); return d == d && d <= tol; }
static std::string S(const Ctl &c) { std::string s; char b[99]; for (auto &p: c) { snprintf(b, 99, "(%g,%g,%g)", (double) p[0], (double) p[1], (double) p[2]); s += b; } return s; }
static P casteljau(Ctl c, LD t) { for (size_t n = c.size(); n > 1; n--) for (size_t i = 0; i + 1 < n; i++) c[i] = (1 - t) * c[i] + t * c[i + 1]; return c[0]; }
static Ctl hodo(const Ctl &c) { Ctl d; for (size_t i = 0; i + 1 < c.size(); i++) d.push_back((LD) (c.size() - 1) * (c[i + 1] - c[i])); return d; }
// 20 point Gauss-Legendre on [0,1] composite
struct Gauss {
  std::vector<LD> x, w;
  explicit Gauss(int n) {
    for (int i = 0; i < n; i++) {
      LD z = cosl(acosl(-1.0L) * (i + 0.75L) / (n + 0.5L)), pp = 1;
      for (int it = 0; it < 50; it++) {
        LD p1 = 1, p2 = 0;
        for (int j = 0; j < n; j++) { LD p3 = p2; p2 = p1; p1 = ((2 * j + 1) * z * p2 - j * p3) / (j + 1); }
        pp = n * (z * p1 - p2) / (z * z - 1);
        LD dz = p1 / pp;
        z -= dz;
        if (fabsl(dz) < 1e-18L) break;
      }
      x.push_back((1 + z) / 2);
      w.push_back(1 / ((1 - z * z) * pp * pp));
    }
  }
};
template<class F> static LD integ(const F &f, LD a, LD b) { static Gauss g(16); LD s = 0; for (size_t i = 0; i < g.x.size(); i++) s += g.w[i] * f(a + (b - a) * g.x[i]); return s * (b - a); }
template<class F> static LD adapt(const F &f, LD a, LD b, int depth) {
  LD m = (a + b) / 2, w = integ(f, a, b), h = integ(f, a, m) + integ(f, m, b);
  if (depth == 0 || fabsl(w - h) < 1e-13L) return h;
  return adapt(f, a, m, depth - 1) + adapt(f, m, b, depth - 1);
}
static LD arclen(const Ctl &c) { Ctl d = hodo(c); return adapt([&](LD t) { return len(casteljau(d, t)); }, 0, 1, 22); }
// global minimum distance of q to the curve: fine sampling and ternary refinement around all local minima
template<class F> static LD mindist(const F &cur, const P &q, int n, LD &tbest) {
  std::vector<LD> d(n + 1);
  for (int i = 0; i <= n; i++) d[i] = len(cur((LD) i / n) - q);
  LD best = 1e30;
  for (int i = 0; i <= n; i++) {
    if ((i > 0 && d[i - 1] < d[i]) || (i < n && d[i + 1] < d[i])) continue;
    LD a = std::max(0, i - 1) / (LD) n, b = std::min(n, i + 1) / (LD) n;
    for (int k = 0; k < 80; k++) { LD u = a + (b - a) / 3, v = b - (b - a) / 3; if (len(cur(u) - q) < len(cur(v) - q)) b = v; else a = u; }
    for (LD t: {a, (LD) i / n}) { LD e = len(cur(t) - q); if (e < best) { best = e; tbest = t; } }
  }
  return best;
}
// does the derivative of the squared distance have a multiple root in (0,1]?  Then rounding decides what Sturm's sequence tells.
static bool multipleRoot(const Ctl &k, const P &q) {
  Ctl h = hodo(k), hh = hodo(h);
  auto g = [&](LD t) { return dot(casteljau(k, t) - q, casteljau(h, t)); };
  auto gd = [&](LD t) { P v = casteljau(h, t); return dot(v, v) + dot(casteljau(k, t) - q, casteljau(hh, t)); };
  LD sc = 1;
  for (auto &p: k) sc += dot(p - q, p - q);
  const int N = 128;
  LD prev = gd(1.L / N / 4);
  for (int i = 1; i <= N; i++) {
    LD a = i == 1 ? 1.L / N / 4 : (LD) (i - 1) / N, b = (LD) i / N, cur = gd(b);
    LD best = fabsl(g(b)) + fabsl(cur) * 1e-3L;
    if (prev * cur <= 0) { for (int j = 0; j < 60; j++) { LD m = (a + b) / 2; if (prev * gd(m) <= 0) b = m; else a = m; } best = std::min(best, fabsl(g(a))); }
    else { LD x = a, y = b; for (int j = 0; j < 40; j++) { LD u = x + (y - x) / 3, v = y - (y - x) / 3; if (fabsl(gd(u)) < fabsl(gd(v))) y = v; else x = u; } if (fabsl(gd(x)) < 1e-6L * sc) best = std::min(best, fabsl(g(x))); }
    if (best < 1e-7L * sc) return true;
    prev = cur;
  }
  return false;
}
static P grid2(mc::Ch &c, int n) { int k = c.choose(n * n); return {{(LD) (k % n), (LD) (k / n), 0}}; }
static P grid3(mc::Ch &c) { int k = c.choose(8); return {{(LD) (k & 1), (LD) (k >> 1 & 1), (LD) (k >> 2)}}; }
static const LD TS[] = {0, 0.125L, 1.L / 3, 0.5L, 0.7L, 0.875L, 1};
template<class V> static void polylineIs(mc::Ch &c, const std::vector<V> &pl, const Ctl &ctl, unsigned n, LD tol, const char *nm) {
  MC_CHECK(c, pl.size() == n, "%s of %u points has %zu points", nm, n, pl.size());
  for (unsigned i = 0; i < n; i++)
    MC_CHECK(c, nearp(toP(pl[i]), casteljau(ctl, (LD) i / (n - 1)), tol), "%s: point %u of %u is not on the curve of %s at that parameter", nm, i, n, S(ctl).c_str());
}
// ---------------------------------------------------------------- evaluation and splitting
template<class V> static void evalBez(mc::Ch &c, const Ctl &k, LD tol) {
  using T = typename V::Scalar;
  auto p = toVs<V>(k);
  for (LD tl: TS) {
    T t = (T) tl;
    P ex = casteljau(k, t);
    if (k.size() == 3) {
      P g = toP(dfm2::PointOnQuadraticBezierCurve<V>(t, p[0], p[1], p[2]));
      MC_CHECK(c, nearp(g, ex, tol), "quadratic Bezier %s at %g is (%g,%g,%g)", S(k).c_str(), (double) t, (double) g[0], (double) g[1], (double) g[2]);
      auto s = dfm2::Split_QuadraticBezierCurve<V>(p[0], p[1], p[2], t);
      Ctl a{toP(s[0]), toP(s[1]), toP(s[2])}, b{toP(s[3]), toP(s[4]), toP(s[5])};
      for (LD u: TS) MC_CHECK(c, nearp(casteljau(a, u), casteljau(k, u * t), tol) && nearp(casteljau(b, u), casteljau(k, t + u * (1 - (LD) t)), tol), "splitting %s at %g does not reproduce the halves", S(k).c_str(), (double) t);
    } else {
      P g = toP(dfm2::PointOnCubicBezierCurve<V>(t, p[0], p[1], p[2], p[3]));
      MC_CHECK(c, nearp(g, ex, tol), "cubic Bezier %s at %g is (%g,%g,%g)", S(k).c_str(), (double) t, (double) g[0], (double) g[1], (double) g[2]);
      auto s = dfm2::Split_CubicBezierCurve<V>(p[0], p[1], p[2], p[3], t);
      Ctl a{toP(s[0]), toP(s[1]), toP(s[2]), toP(s[3])}, b{toP(s[4]), toP(s[5]), toP(s[6]), toP(s[7])};
      for (LD u: TS) MC_CHECK(c, nearp(casteljau(a, u), casteljau(k, u * t), tol) && nearp(casteljau(b, u), casteljau(k, t + u * (1 - (LD) t)), tol), "splitting %s at %g does not reproduce the halves", S(k).c_str(), (double) t);
    }
    c.tick();
  }
  for (unsigned n: {2u, 3u, 8u}) {
    std::vector<V> pl(5);
    if (k.size() == 3) dfm2::Polyline_BezierQuadratic(pl, n, p[0], p[1], p[2]);
    else dfm2::Polyline_BezierCubic(pl, n, p[0], p[1], p[2], p[3]);
    polylineIs(c, pl, k, n, tol, k.size() == 3 ? "Polyline_BezierQuadratic" : "Polyline_BezierCubic");
  }
}
template<class V> static void boxIs(mc::Ch &c, const Ctl &k, LD tol) {
  constexpr int nd = V::SizeAtCompileTime;
  auto p = toVs<V>(k);
  std::array<typename V::Scalar, nd * 2> bb;
  if (k.size() == 3) bb = dfm2::AABB_QuadraticBezierCurve<V>(p[0], p[1], p[2]); else bb = dfm2::AABB_CubicBezierCurve<V>(p[0], p[1], p[2], p[3]);
  for (int d = 0; d < nd; d++) {
    LD mn = std::min(k.front()[d], k.back()[d]), mx = std::max(k.front()[d], k.back()[d]);
    Ctl h = hodo(k);                       // stationary parameters of coordinate d
    LD r[2]; int nr = 0;
    if (h.size() == 2) { LD a = h[1][d] - h[0][d]; if (a != 0) r[nr++] = -h[0][d] / a; }
    else {
      LD a = h[0][d] - 2 * h[1][d] + h[2][d], b = 2 * (h[1][d] - h[0][d]), e = h[0][d];
      if (a == 0) { if (b != 0) r[nr++] = -e / b; }
      else { LD D = b * b - 4 * a * e; if (D >= 0) { r[nr++] = (-b + sqrtl(D)) / (2 * a); r[nr++] = (-b - sqrtl(D)) / (2 * a); } }
    }
    for (int i = 0; i < nr; i++) if (r[i] > 0 && r[i] < 1) { LD v = casteljau(k, r[i])[d]; mn = std::min(mn, v); mx = std::max(mx, v); }
    MC_CHECK(c, fabsl(bb[d] - mn) <= tol && fabsl(bb[d + nd] - mx) <= tol, "bounding box of %s along axis %d is [%g,%g], must be [%g,%g]", S(k).c_str(), d, (double) bb[d], (double) bb[d + nd], (double) mn, (double) mx);
  }
}
static void quadEval(mc::Ch &c) {
  Ctl k;
  bool d3 = c.flip();
  for (int i = 0; i < 3; i++) k.push_back(d3 ? grid3(c) : grid2(c, c.thorough ? 4 : 3));
  c.commit();
  c.describe("quadratic Bezier %s", S(k).c_str());
  for (int i = 0; i < (int) k.size(); i++) { Ctl e = k; e[i][0] += 1e-6L; e[i][1] -= 1e-5L; boxIs<V2>(c, e, 1e-9L); }
  if (d3) { evalBez<V3>(c, k, 1e-13L); boxIs<V3>(c, k, 1e-12L); }
  else { evalBez<V2>(c, k, 1e-13L); evalBez<F2>(c, k, 1e-5L); boxIs<V2>(c, k, 1e-12L); boxIs<F2>(c, k, 1e-5L); }
  c.outcome_of(S(k));
}
static void cubEval(mc::Ch &c) {
  Ctl k;
  bool d3 = c.flip();
  for (int i = 0; i < 4; i++) k.push_back(d3 ? grid3(c) : grid2(c, c.thorough ? 4 : 3));
  c.commit();
  c.describe("cubic Bezier %s", S(k).c_str());
  for (int i = 0; i < (int) k.size(); i++) { Ctl e = k; e[i][0] += 1e-6L; e[i][1] -= 1e-5L; boxIs<V2>(c, e, 1e-9L); }
  if (d3) { evalBez<V3>(c, k, 1e-13L); boxIs<V3>(c, k, 1e-12L); }
  else { evalBez<V2>(c, k, 1e-13L); evalBez<F2>(c, k, 1e-5L); boxIs<V2>(c, k, 1e-12L); boxIs<F2>(c, k, 1e-5L); }
  auto p = toVs<V3>(k);
  Ctl h = hodo(k);
  for (LD tl: TS) {
    P g = toP(dfm2::Tangent_CubicBezierCurve<V3>((double) tl, p[0], p[1], p[2], p[3]));
    MC_CHECK(c, nearp(g, casteljau(h, (double) tl), 1e-12L), "tangent of %s at %g is (%g,%g,%g)", S(k).c_str(), (double) tl, (double) g[0], (double) g[1], (double) g[2]);
  }
  c.outcome_of(S(k));
}
// ---------------------------------------------------------------- areas, lengths, windings
static void measure(mc::Ch &c) {
  bool cubic = c.flip(), d3 = c.flip();
  Ctl k;
  for (int i = 0; i < (cubic ? 4 : 3); i++) k.push_back(d3 ? grid3(c) : grid2(c, 3));
  LD scale = c.pick({1., 1. / 64, 1. / 4096, 32.});
  c.commit();
  for (auto &p: k) p = scale * p;
  c.describe("%s Bezier %s", cubic ? "cubic" : "quadratic", S(k).c_str());
  Ctl h = hodo(k);
  LD L = arclen(k);
  LD poly = 0;
  for (size_t i = 0; i + 1 < k.size(); i++) poly += len(k[i + 1] - k[i]);
  // the adaptive quadrature promises 1e-8 relative unless the subdivision limit is reached at a cusp
  auto lens = [&](auto tag) {
    using V = decltype(tag);
    auto p = toVs<V>(k);
    for (int ng = 0; ng < 6; ng++) {
      Gauss g(ng + 1);
      LD ex = 0;
      for (int i = 0; i <= ng; i++) ex += g.w[i] * len(casteljau(h, g.x[i]));
      LD got = cubic ? dfm2::Length_CubicBezierCurve_Quadrature<V>(p[0], p[1], p[2], p[3 % p.size()], ng) : dfm2::Length_QuadraticBezierCurve_Quadrature<V>(p[0], p[1], p[2], ng);
      // the tabulated nodes may be rounded; at a cusp the speed is not smooth in them
      MC_CHECK(c, fabsl(got - ex) <= 1e-6L * poly + 1e-300L, "length of %s by the %d point rule is %.12g, that rule gives %.12g", S(k).c_str(), ng + 1, (double) got, (double) ex);
    }
    for (int depth: {1, 3, 8, 12}) {
      LD got = cubic ? dfm2::Length_CubicBezierCurve_QuadratureSubdivision<V>(p[0], p[1], p[2], p[3 % p.size()], 1e-8, depth) : dfm2::Length_QuadraticBezierCurve_QuadratureSubdiv<V>(p[0], p[1], p[2], 1e-8, depth);
      LD tol = (depth >= 8 ? 1e-5L : depth == 3 ? 5e-3L : 5e-2L) * poly + 1e-300L;
      MC_CHECK(c, fabsl(got - L) <= tol, "length of %s by subdivision to depth %d is %.12g, must be %.12g", S(k).c_str(), depth, (double) got, (double) L);
      if (depth == 12 && fabsl(got - L) > 1e-7L * poly + 1e-300L) MC_CHECK(c, false, "length of %s by deep subdivision is %.12g, must be %.12g", S(k).c_str(), (double) got, (double) L);
    }
    if (!cubic) {
      LD got = dfm2::Length_QuadraticBezierCurve_Analytic<V>(p[0], p[1], p[2]);
      MC_CHECK(c, fabsl(got - L) <= 1e-7L * poly + 1e-300L, "analytic length of %s is %.12g, must be %.12g", S(k).c_str(), (double) got, (double) L);
    }
  };
  if (d3) lens(V3()); else lens(V2());
  if (!d3) {
    LD A = 0;
    { Gauss g(8); for (int i = 0; i < 8; i++) { P q = casteljau(k, g.x[i]), v = casteljau(h, g.x[i]); A += g.w[i] * (q[0] * v[1] - q[1] * v[0]) / 2; } }
    auto p = toVs<V2>(k);
    LD got = cubic ? dfm2::Area_CubicBezierCurve2<V2>(p[0], p[1], p[2], p[3 % p.size()]) : dfm2::Area_QuadraticBezierCurve2<V2>(p[0], p[1], p[2]);
    MC_CHECK(c, fabsl(got - A) <= 1e-12L * scale * scale, "area under %s is %.12g, must be %.12g", S(k).c_str(), (double) got, (double) A);
    auto pf = toVs<F2>(k);
    LD gf = cubic ? dfm2::Area_CubicBezierCurve2<F2>(pf[0], pf[1], pf[2], pf[3 % pf.size()]) : dfm2::Area_QuadraticBezierCurve2<F2>(pf[0], pf[1], pf[2]);
    MC_CHECK(c, fabsl(gf - A) <= 1e-5L * scale * scale, "area under %s in single precision is %.12g, must be %.12g", S(k).c_str(), (double) gf, (double) A);
  }
  c.outcome_of((double) L, S(k));
}
static void winding(mc::Ch &c) {
  Ctl k;
  for (int i = 0; i < 3; i++) k.push_back(grid2(c, c.thorough ? 4 : 3));
  LD ox = c.pick({0.3, 1.5, 2.2}), oy = c.pick({0.45, 1.5, 0.8});
  unsigned ns = c.pick({0, 1, 2, 5});
  c.commit();
  for (auto &p: k) { p[0] -= ox; p[1] -= oy; }
  c.describe("winding of %s, %u samples", S(k).c_str(), ns);
  LD th = 0, md = 1e9;
  P a = k[0];
  const int N = 1500;
  for (int i = 1; i <= N; i++) { P b = casteljau(k, (LD) i / N); th += atan2l(a[0] * b[1] - a[1] * b[0], dot(a, b)); md = std::min(md, len(b)); a = b; }
  if (md < 0.02L) { c.skip(); return; }      // through the origin
  auto p = toVs<V2>(k);
  V2 q0 = p[0], q1 = 2. * (p[1] - p[0]), q2 = p[0] - 2. * p[1] + p[2];
  {   // the angle is summed over pieces between samples and distance extrema: they must turn less than half a turn
    std::vector<int> cut;
    auto D = [&](int i) { return len(casteljau(k, (LD) i / 840)); };
    for (int i = 0; i <= 840; i++) if (i % (840 / (ns + 1)) == 0 || (i > 0 && i < 840 && (D(i) - D(i - 1)) * (D(i + 1) - D(i)) <= 0)) cut.push_back(i);
    LD worst = 0;
    for (size_t j = 0; j + 1 < cut.size(); j++) { LD s = 0; for (int i = cut[j]; i < cut[j + 1]; i++) { P u = casteljau(k, i / 840.L), v = casteljau(k, (i + 1) / 840.L); s += atan2l(u[0] * v[1] - u[1] * v[0], dot(u, v)); } worst = std::max(worst, fabsl(s)); }
    if (worst > 3.0L) { c.skip(); return; }
  }
  LD got = dfm2::WindingNumber_QuadraticCurve2<V2>(q0, q1, q2, 40, ns);
  MC_CHECK(c, fabsl(got - th) <= 1e-6L, "winding angle of %s with %u samples is %.9g, must be %.9g", S(k).c_str(), ns, (double) got, (double) th);
  c.outcome_of((double) th);
}
// ---------------------------------------------------------------- nearest points
static void nearestQuad(mc::Ch &c) {
  bool d3 = c.flip();
  Ctl k;
  for (int i = 0; i < 3; i++) k.push_back(d3 ? grid3(c) : grid2(c, 3));
  P q = d3 ? P{{c.pick({0., 0.5, 1.5}), c.pick({-0.25, 0.5, 1.}), c.pick({0., 0.625})}} : P{{c.pick({-1., 0., 0.5, 1., 2.25}), c.pick({0., 0.5, 1., 3.}), 0}};
  c.commit();
  c.describe("nearest to (%g,%g,%g) on %s", (double) q[0], (double) q[1], (double) q[2], S(k).c_str());
  LD tb, D = mindist([&](LD t) { return casteljau(k, t); }, q, 64, tb);
  auto run = [&](auto tag) {
    using V = decltype(tag);
    auto p = toVs<V>(k);
    V qv = toV<V>(q);
    {
      LD t = dfm2::Nearest_QuadraticBezierCurve_Sturm<V>(qv, p[0], p[1], p[2], 40);
      MC_CHECK(c, (t >= 0 && t <= 1 && len(casteljau(k, t) - q) <= D + 1e-6L) || (t == t && multipleRoot(k, q)), "nearest parameter (Sturm) on %s to (%g,%g,%g) is %.9g at distance %.9g, distance %.9g is reached at %.9g", S(k).c_str(), (double) q[0], (double) q[1], (double) q[2], (double) t, (double) len(casteljau(k, t) - q), (double) D, (double) tb);
    }
    for (unsigned ns: {1u, 3u, 50u}) {
      LD bs = len(k[0] - q), tbs = 0;
      for (unsigned i = 1; i <= ns; i++) { LD e = len(casteljau(k, (LD) i / ns) - q); if (e < bs) { bs = e; tbs = (LD) i / ns; } }
      for (unsigned nn: {0u, 10u}) {
        LD u = dfm2::Nearest_QuadraticBezierCurve<V>(qv, p[0], p[1], p[2], ns, nn);
        LD du = len(casteljau(k, u) - q);
        MC_CHECK(c, u >= 0 && u <= 1 && du <= bs + 1e-9L, "nearest parameter on %s to (%g,%g,%g) with %u samples, %u steps is %.9g at distance %.9g, a sample is at %.9g", S(k).c_str(), (double) q[0], (double) q[1], (double) q[2], ns, nn, (double) u, (double) du, (double) bs);
        if (ns == 50 && nn == 10 && fabsl(tbs - tb) <= 1.L / ns) MC_CHECK(c, du <= D + 1e-3L, "nearest parameter on %s to (%g,%g,%g) is %.9g at distance %.9g, distance %.9g is reached at %.9g", S(k).c_str(), (double) q[0], (double) q[1], (double) q[2], (double) u, (double) du, (double) D, (double) tb);
      }
    }
  };
  if (d3) run(V3()); else run(V2());
  c.outcome_of((double) D, (double) tb);
}
static void nearestCub(mc::Ch &c) {
  bool d3 = c.flip();
  Ctl k;
  for (int i = 0; i < 4; i++) k.push_back(d3 ? grid3(c) : grid2(c, c.thorough ? 4 : 3));
  P q = d3 ? P{{0.5, c.pick({-0.25, 0.375}), 0.625}} : P{{c.pick({-1., 0.5, 1.125}), c.pick({0., 0.75}), 0}};
  c.commit();
  c.describe("nearest to (%g,%g,%g) on %s", (double) q[0], (double) q[1], (double) q[2], S(k).c_str());
  LD tb, D = mindist([&](LD t) { return casteljau(k, t); }, q, 64, tb);
  auto run = [&](auto tag) {
    using V = decltype(tag);
    auto p = toVs<V>(k);
    V qv = toV<V>(q);
    {
      LD t = dfm2::Nearest_CubicBezierCurve_Strum<V>(qv, p[0], p[1], p[2], p[3], 40);
      MC_CHECK(c, (t >= 0 && t <= 1 && len(casteljau(k, t) - q) <= D + 1e-6L) || (t == t && multipleRoot(k, q)), "nearest parameter (Sturm) on %s to (%g,%g,%g) is %.9g at distance %.9g, distance %.9g is reached at %.9g", S(k).c_str(), (double) q[0], (double) q[1], (double) q[2], (double) t, (double) len(casteljau(k, t) - q), (double) D, (double) tb);
    }
    for (unsigned ns: {1u, 3u, 50u}) {
      LD bs = len(k[0] - q), tbs = 0;
      for (unsigned i = 1; i <= ns; i++) { LD e = len(casteljau(k, (LD) i / ns) - q); if (e < bs) { bs = e; tbs = (LD) i / ns; } }
      for (unsigned nn: {0u, 10u}) {
        LD u = dfm2::Nearest_CubicBezierCurve<V>(qv, p[0], p[1], p[2], p[3], ns, nn);
        LD du = len(casteljau(k, u) - q);
        MC_CHECK(c, u >= 0 && u <= 1 && du <= bs + 1e-9L, "nearest parameter on %s to (%g,%g,%g) with %u samples, %u steps is %.9g at distance %.9g, a sample is at %.9g", S(k).c_str(), (double) q[0], (double) q[1], (double) q[2], ns, nn, (double) u, (double) du, (double) bs);
        if (ns == 50 && nn == 10 && fabsl(tbs - tb) <= 1.L / ns) MC_CHECK(c, du <= D + 1e-3L, "nearest parameter on %s to (%g,%g,%g) is %.9g at distance %.9g, distance %.9g is reached at %.9g", S(k).c_str(), (double) q[0], (double) q[1], (double) q[2], (double) u, (double) du, (double) D, (double) tb);
      }
    }
  };
  if (d3) run(V3()); else run(V2());
  c.outcome_of((double) D, (double) tb);
}
static void planeHit(mc::Ch &c) {
  LD h[4];
  for (auto &x: h) x = c.choose(7) - 3;
  int axis = c.choose(3);
  double off = c.pick({0., 0.375, -2.});
  c.commit();
  Ctl k;
  for (int i = 0; i < 4; i++) { P p{{(LD) i, (LD) (i * i), (LD) 1 - i}}; p[axis] = h[i] + off; k.push_back(p); }
  c.describe("plane through %s axis %d offset %g", S(k).c_str(), axis, off);
  auto p = toVs<V3>(k);
  V3 org(0, 0, 0), nrm(0, 0, 0);
  org[axis] = off; nrm[axis] = 1;
  double t = -7;
  bool r = dfm2::getParameterCubicBezier_IntersectionWithPlane(t, org, nrm, p[0], p[1], p[2], p[3]);
  LD ref = fabsl(h[0]) + fabsl(h[1]) + fabsl(h[2]) + fabsl(h[3]);
  if (r) MC_CHECK(c, t >= 0 && t <= 1 && fabsl(casteljau(k, t)[axis] - off) <= 1e-5L * ref, "curve %s is said to meet the plane x%d=%g at %.9g, where it is at %.9g", S(k).c_str(), axis, off, t, (double) casteljau(k, t)[axis]);
  if (h[0] * h[3] < 0) MC_CHECK(c, r, "curve %s with ends on different sides is said not to meet the plane x%d=%g", S(k).c_str(), axis, off);
  if (h[0] == 0 && h[3] != 0) MC_CHECK(c, r && t == 0, "curve %s starts on the plane x%d=%g", S(k).c_str(), axis, off);
  if (h[3] == 0 && h[0] != 0) MC_CHECK(c, r && t == 1, "curve %s ends on the plane x%d=%g", S(k).c_str(), axis, off);
  c.outcome_of(r, t);
}
// ---------------------------------------------------------------- B-splines
static LD basis(int i, int d, const std::vector<LD> &K, int span, LD t) {   // Cox-de Boor, right-continuous inside the given span
  if (d == 0) return i == span ? 1 : 0;
  LD r = 0;
  if (K[i + d] > K[i]) r += (t - K[i]) / (K[i + d] - K[i]) * basis(i, d - 1, K, span, t);
  if (K[i + d + 1] > K[i + 1]) r += (K[i + d + 1] - t) / (K[i + d + 1] - K[i + 1]) * basis(i + 1, d - 1, K, span, t);
  return r;
}
static int spanOf(const std::vector<LD> &K, int d, LD t) { int n = (int) K.size() - d - 1, s = d; for (int i = d; i < n; i++) if (K[i] < K[i + 1] && t >= K[i]) s = i; return s; }
static P bspl(const Ctl &cp, int d, const std::vector<LD> &K, LD t) {
  int s = spanOf(K, d, t);
  P r;
  for (int i = 0; i < (int) cp.size(); i++) r = r + basis(i, d, K, s, t) * cp[i];
  return r;
}
static P bsplD(const Ctl &cp, int d, const std::vector<LD> &K, LD t) {
  Ctl q;
  for (int i = 0; i + 1 < (int) cp.size(); i++) { LD w = K[i + d + 1] - K[i + 1]; q.push_back(w > 0 ? (d / w) * (cp[i + 1] - cp[i]) : P()); }
  std::vector<LD> K1(K.begin() + 1, K.end() - 1);
  if (d == 1) { P r = q[spanOf(K, d, t) - 1]; return r; }
  return bspl(q, d - 1, K1, t);
}
static std::vector<LD> openKnots(int ncp, int d) { int N = ncp - d; std::vector<LD> K; for (int i = 0; i < ncp + d + 1; i++) K.push_back(std::clamp(i - d, 0, N)); return K; }
static std::vector<double> params(int N, double end) {
  std::vector<double> r;
  for (int i = 0; i < N; i++) for (double s: {0., 1e-9, 1e-4, 0.1, 1. / 3, 0.5, 0.7, 1 - 1e-4, 1 - 1e-9}) r.push_back(i + s);
  r.push_back(end);
  return r;
}
template<int OP1, class V> static void ndeg(mc::Ch &c, const Ctl &k, double t, const std::vector<LD> &K) {
  auto p = toVs<V>(k);
  P g = toP(dfm2::Sample_BsplineCurve<V, OP1>(t, p));
  MC_CHECK(c, nearp(g, bspl(k, OP1 - 1, K, t), 1e-9L), "B-spline of degree %d of %s at %.12g is (%g,%g,%g)", OP1 - 1, S(k).c_str(), t, (double) g[0], (double) g[1], (double) g[2]);
  if constexpr (OP1 >= 3) {
    P dg = toP(dfm2::Sample_BsplineDerivative<V, OP1>(t, p));
    MC_CHECK(c, nearp(dg, bsplD(k, OP1 - 1, K, t), 1e-7L), "derivative of the B-spline of degree %d of %s at %.12g is (%g,%g,%g)", OP1 - 1, S(k).c_str(), t, (double) dg[0], (double) dg[1], (double) dg[2]);
  }
}
static P lat(int k) { static const int X[6][3] = {{0, 0, 0}, {2, 0, 1}, {1, 2, 0}, {0, 1, 2}, {3, 3, 1}, {-1, 1, 1}}; return {{(LD) X[k][0], (LD) X[k][1], (LD) X[k][2]}}; }
static void bspline(mc::Ch &c) {
  int deg = 1 + c.choose(4);
  int n = deg + 1 + c.choose(c.thorough ? 6 : 5);
  // all control polygons are covered by unit impulses (linearity) and a family of full polygons
  int mode = c.choose(n + 2);
  c.commit();
  Ctl k(n);
  for (int i = 0; i < n; i++) k[i] = mode < n ? (i == mode ? P{{1, -2, 3}} : P()) : lat((i * (mode == n ? 1 : 5) + (mode == n ? 0 : 2)) % 6);
  c.describe("B-spline degree %d, %s", deg, S(k).c_str());
  auto K = openKnots(n, deg);
  const int N = n - deg;
  auto p2 = toVs<V2>(k);
  auto p3 = toVs<V3>(k);
  Ctl k2 = k;
  for (auto &p: k2) p[2] = 0;
  for (double t: params(N, N)) {
    c.tick();
    if (deg == 1) { ndeg<2, V2>(c, k2, t, K); ndeg<2, V3>(c, k, t, K); }
    if (deg == 2) { ndeg<3, V2>(c, k2, t, K); ndeg<3, V3>(c, k, t, K); }
    if (deg == 3) { ndeg<4, V2>(c, k2, t, K); ndeg<4, V3>(c, k, t, K); }
    if (deg == 4) { ndeg<5, V2>(c, k2, t, K); ndeg<5, V3>(c, k, t, K); }
    P ex = bspl(k, deg, K, t);
    if (deg == 2) {
      MC_CHECK(c, nearp(toP(dfm2::Sample_QuadraticBsplineCurve<V3>(t, p3)), ex, 1e-9L), "quadratic B-spline of %s at %.12g is wrong", S(k).c_str(), t);
      MC_CHECK(c, nearp(toP(dfm2::Sample_QuadraticBsplineCurve<V2>(t, p2)), bspl(k2, deg, K, t), 1e-9L), "quadratic B-spline of %s at %.12g is wrong in 2D", S(k).c_str(), t);
      MC_CHECK(c, nearp(toP(dfm2::Tangent_QuadraticBsplineCurve<V3>(t, p3)), bsplD(k, deg, K, t), 1e-8L), "tangent of the quadratic B-spline of %s at %.12g is wrong", S(k).c_str(), t);
      if (t == floor(t) || t - floor(t) > 1e-3) {
        auto pf = toVs<F2>(k);
        MC_CHECK(c, nearp(toP(dfm2::Sample_QuadraticBsplineCurve<F2>((float) t, pf)), bspl(k2, deg, K, (float) t), 1e-4L), "quadratic B-spline of %s at %.12g is wrong in single precision", S(k).c_str(), t);
      }
    }
    if (deg == 3) {
      MC_CHECK(c, nearp(toP(dfm2::Sample_CubicBsplineCurve<V3>(t, p3)), ex, 1e-9L), "cubic B-spline of %s at %.12g is wrong", S(k).c_str(), t);
      MC_CHECK(c, nearp(toP(dfm2::Sample_CubicBsplineCurve<V2>(t, p2)), bspl(k2, deg, K, t), 1e-9L), "cubic B-spline of %s at %.12g is wrong in 2D", S(k).c_str(), t);
    }
  }
  if (deg == 3) for (unsigned m: {2u, 3u, 4u, 6u, 7u, 8u, 11u, 50u}) {
    std::vector<V3> pl(3);
    dfm2::Polyline_CubicBSplineCurve(pl, m, p3);
    MC_CHECK(c, pl.size() == m, "Polyline_CubicBSplineCurve gives %zu points instead of %u", pl.size(), m);
    for (unsigned i = 0; i < m; i++) MC_CHECK(c, nearp(toP(pl[i]), bspl(k, 3, K, (LD) i / (m - 1) * N), 1e-9L), "Polyline_CubicBSplineCurve: point %u of %u of %s is wrong", i, m, S(k).c_str());
  }
  c.outcome_of(S(k), deg);
}
static void bsplineNear(mc::Ch &c) {
  int n = 3 + c.choose(3);
  Ctl k;
  for (int i = 0; i < n; i++) k.push_back(n == 3 ? grid2(c, 3) : P{{(LD) c.choose(2) + (i % 2), (LD) c.choose(3), 0}});
  P q{{c.pick({-1., 0.5, 1., 2.25}), c.pick({0.25, 1., 3.}), 0}};
  c.commit();
  c.describe("nearest to (%g,%g) on the quadratic B-spline %s", (double) q[0], (double) q[1], S(k).c_str());
  auto K = openKnots(n, 2);
  int N = n - 2;
  LD tb, D = mindist([&](LD t) { return bspl(k, 2, K, t * N); }, q, 32 * N, tb);
  for (int d3 = 0; d3 < 2; d3++) {
    LD t = d3 ? (LD) dfm2::Nearest_QuadraticBSplineCurve<V3>(toVs<V3>(k), toV<V3>(q)) : (LD) dfm2::Nearest_QuadraticBSplineCurve<V2>(toVs<V2>(k), toV<V2>(q));
    MC_CHECK(c, t >= 0 && t <= N && len(bspl(k, 2, K, t) - q) <= D + 2e-4L, "nearest parameter on the quadratic B-spline %s to (%g,%g) is %.9g at distance %.9g, distance %.9g is reached at %.9g", S(k).c_str(), (double) q[0], (double) q[1], (double) t, (double) len(bspl(k, 2, K, t) - q), (double) D, (double) tb * N);
  }
  c.outcome_of((double) D, (double) tb);
}
static void catmull(mc::Ch &c) {
  int n = 2 + c.choose(5);
  Ctl k;
  for (int i = 0; i < n; i++) { int b = c.choose(n <= 4 ? 5 : 3); k.push_back({{(LD) i + b % 2, (LD) (b * b % 4), (LD) (b + i) / 2}}); }
  c.commit();
  c.describe("Catmull-Rom %s", S(k).c_str());
  auto p = toVs<V3>(k);
  auto ex = [&](LD s) {
    int i = std::min((int) s, n - 2);
    LD t = s - i;
    P m0 = i == 0 ? k[1] - k[0] : 0.5L * (k[i + 1] - k[i - 1]);
    P m1 = i + 1 == n - 1 ? k[i + 1] - k[i] : 0.5L * (k[i + 2] - k[i]);
    return (2 * t * t * t - 3 * t * t + 1) * k[i] + (t * t * t - 2 * t * t + t) * m0 + (3 * t * t - 2 * t * t * t) * k[i + 1] + (t * t * t - t * t) * m1;
  };
  for (double s: params(n - 1, n - 1)) {
    c.tick();
    P g = toP(dfm2::Sample_CatmullRomSplineCurve<V3>(s, p));
    MC_CHECK(c, nearp(g, ex(s), 1e-9L), "Catmull-Rom spline of %s at %.12g is (%g,%g,%g), must be (%g,%g,%g)", S(k).c_str(), s, (double) g[0], (double) g[1], (double) g[2], (double) ex(s)[0], (double) ex(s)[1], (double) ex(s)[2]);
  }
  for (unsigned m: {2u, 3u, 7u, 8u, 50u}) {
    std::vector<V3> pl(3);
    dfm2::Polyline_CatmullRomSplineCurve(pl, m, p);
    MC_CHECK(c, pl.size() == m, "Polyline_CatmullRomSplineCurve gives %zu points instead of %u", pl.size(), m);
    for (unsigned i = 0; i < m; i++) MC_CHECK(c, nearp(toP(pl[i]), ex((LD) i / (m - 1) * (n - 1)), 1e-9L), "Polyline_CatmullRomSplineCurve: point %u of %u of %s is wrong", i, m, S(k).c_str());
  }
  c.outcome_of(S(k));
}
static void deboor(mc::Ch &c) {
  int deg = 1 + c.choose(4);
  int nin = c.choose(4);                         // interior knots with multiplicity 1..deg
  std::vector<int> mult{deg + 1};
  std::vector<double> kn{c.flip() ? -1.5 : 0.};
  for (int i = 0; i < nin; i++) { kn.push_back(kn.back() + c.pick({1., 0.25})); mult.push_back(1 + c.choose(deg)); }
  kn.push_back(kn.back() + 2);
  mult.push_back(deg + 1);
  c.commit();
  std::vector<double> flat{9, 9};
  dfm2::FlatKnot(flat, mult, kn);
  std::vector<LD> K;
  for (size_t i = 0; i < kn.size(); i++) for (int j = 0; j < mult[i]; j++) K.push_back(kn[i]);
  MC_CHECK(c, flat.size() == K.size() && std::equal(K.begin(), K.end(), flat.begin()), "FlatKnot of %s with multiplicities %s is %s", mc::str(kn).c_str(), mc::str(mult).c_str(), mc::str(flat).c_str());
  int n = (int) K.size() - deg - 1;
  Ctl k;
  for (int i = 0; i < n; i++) k.push_back(lat((i * 5 + i / 6) % 6));
  c.describe("de Boor degree %d knots %s multiplicities %s", deg, mc::str(kn).c_str(), mc::str(mult).c_str());
  auto p2 = toVs<V2>(k);
  auto p3 = toVs<V3>(k);
  Ctl k2 = k;
  for (auto &p: k2) p[2] = 0;
  for (size_t i = 0; i + 1 < kn.size(); i++)
    for (double s: {0., 0.25, 0.5, 0.8, 1 - 1e-5}) {
      double u = kn[i] + s * (kn[i + 1] - kn[i]);
      c.tick();
      P g = toP(dfm2::DeBoorBSpline<V3>(u, deg, p3, flat));
      MC_CHECK(c, nearp(g, bspl(k, deg, K, u), 1e-9L), "de Boor point of degree %d with knots %s at %.12g is (%g,%g,%g)", deg, mc::str(flat).c_str(), u, (double) g[0], (double) g[1], (double) g[2]);
    }
  P g = toP(dfm2::DeBoorBSpline<V3>(kn.back(), deg, p3, flat));
  MC_CHECK(c, nearp(g, k.back(), 1e-9L), "de Boor point of degree %d with knots %s at the last knot is (%g,%g,%g)", deg, mc::str(flat).c_str(), (double) g[0], (double) g[1], (double) g[2]);
  for (int ns: {1, 3, 8}) {
    std::vector<V2> pl(4);
    dfm2::SampleBSpline(pl, ns, deg, flat, p2);
    MC_CHECK(c, (int) pl.size() == ns + 1, "SampleBSpline gives %zu points for %d intervals", pl.size(), ns);
    for (int i = 0; i <= ns; i++) MC_CHECK(c, nearp(toP(pl[i]), bspl(k2, deg, K, kn[0] + (kn.back() - kn[0]) * (LD) i / ns), 1e-8L), "SampleBSpline: point %d of %d with knots %s is wrong", i, ns, mc::str(flat).c_str());
  }
  c.outcome_of(mc::fnv(flat.data(), flat.size() * 8), deg);
}
static void chain(mc::Ch &c) {
  int ns = 1 + c.choose(4), n = 1 + c.choose(5), sh = c.choose(6);
  c.commit();
  Ctl k;
  for (int i = 0; i < ns * 3 + 1; i++) k.push_back(lat((i * 5 + sh + i / 6) % 6));
  c.describe("chain of %d cubic Bezier curves, %d intervals each", ns, n);
  std::vector<V3> pl(2);
  dfm2::getCubicBezierCurve(n, pl, toVs<V3>(k));
  MC_CHECK(c, (int) pl.size() == ns * n + 1, "chain of %d curves in %d intervals gives %zu points", ns, n, pl.size());
  for (int s = 0; s < ns; s++) for (int i = 0; i <= n; i++)
    MC_CHECK(c, nearp(toP(pl[s * n + i]), casteljau(Ctl(k.begin() + 3 * s, k.begin() + 3 * s + 4), (LD) i / n), 1e-12L), "chain of %d curves: point %d of curve %d is wrong", ns, i, s);
  c.outcome_of(ns, n, sh);
}
// ---------------------------------------------------------------- surfaces
static void surface(mc::Ch &c) {
  int kind = c.choose(5);
  int imp = c.choose(18);          // impulses cover all control nets by linearity; two full nets on top
  c.commit();
  int ncp = kind == 0 ? 16 : kind == 4 ? 9 : 12;
  if (imp < 16 && imp >= ncp) { c.skip(); return; }
  Ctl k(ncp);
  for (int i = 0; i < ncp; i++) k[i] = imp < 16 ? (i == imp ? P{{1, -2, 3}} : P()) : lat((i * (imp == 16 ? 1 : 5) + i / 6) % 6);
  c.describe("surface kind %d, control %s", kind, S(k).c_str());
  auto p = toVs<V3>(k);
  auto bez = [&](int a, int b, int d, int e, LD t) { return casteljau({k[a], k[b], k[d], k[e]}, t); };
  if (kind == 0) {
    auto ex = [&](LD u, LD v) { Ctl r; for (int i = 0; i < 4; i++) r.push_back(bez(4 * i, 4 * i + 1, 4 * i + 2, 4 * i + 3, v)); return casteljau(r, u); };
    for (LD u: TS) for (LD v: TS) {
      P g = toP(dfm2::getPointSurfaceBezierCubic<V3>((double) u, (double) v, p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11], p[12], p[13], p[14], p[15]));
      MC_CHECK(c, nearp(g, ex(u, v), 1e-12L), "Bezier surface at (%g,%g) is (%g,%g,%g)", (double) u, (double) v, (double) g[0], (double) g[1], (double) g[2]);
    }
    for (int n: {1, 2, 5}) {
      std::vector<V3> q(3);
      dfm2::getCubicBezierSurface(n, q, p);
      MC_CHECK(c, (int) q.size() == (n + 1) * (n + 1), "sampled Bezier surface has %zu points", q.size());
      for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) MC_CHECK(c, nearp(toP(q[i * (n + 1) + j]), ex((LD) i / n, (LD) j / n), 1e-12L), "sampled Bezier surface is wrong at (%d,%d) of %d", i, j, n);
    }
  } else if (kind < 4) {
    for (LD ul: TS) for (LD vl: TS) {
      LD u = (double) ul, v = (double) vl;
      P ex;
      if (kind < 3) {
        ex = (1 - v) * bez(0, 1, 2, 3, u) + v * bez(9, 8, 7, 6, u) + (1 - u) * bez(0, 11, 10, 9, v) + u * bez(3, 4, 5, 6, v)
             - ((1 - u) * (1 - v) * k[0] + u * (1 - v) * k[3] + u * v * k[6] + (1 - u) * v * k[9]);
      } else {
        auto H = [](LD t, int i) { return i == 0 ? 2 * t * t * t - 3 * t * t + 1 : i == 1 ? 3 * t * t - 2 * t * t * t : i == 2 ? t * t * t - 2 * t * t + t : t * t * t - t * t; };
        int cor[2][2] = {{0, 9}, {3, 6}};
        P du[2][2] = {{k[1] - k[0], k[8] - k[9]}, {k[3] - k[2], k[6] - k[7]}}, dv[2][2] = {{k[11] - k[0], k[9] - k[10]}, {k[4] - k[3], k[6] - k[5]}};
        for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) ex = ex + H(u, i) * H(v, j) * k[cor[i][j]] + 3 * H(u, 2 + i) * H(v, j) * du[i][j] + 3 * H(u, i) * H(v, 2 + j) * dv[i][j];
      }
      P g = toP(kind == 1 ? dfm2::getPointCoonsQuad_CubicBezier<V3>((double) u, (double) v, p.data()) : kind == 2 ? dfm2::getPointCoonsQuad_CubicBezierEdge<V3>((double) u, (double) v, p.data()) : dfm2::getPointHermetianQuad<V3>((double) u, (double) v, p.data()));
      MC_CHECK(c, nearp(g, ex, 1e-12L), "patch %d at (%g,%g) is (%g,%g,%g), must be (%g,%g,%g)", kind, (double) u, (double) v, (double) g[0], (double) g[1], (double) g[2], (double) ex[0], (double) ex[1], (double) ex[2]);
    }
  } else {
    const int n = 6;
    for (int i = 0; i <= n; i++) for (int j = 0; i + j <= n; j++) {
      LD b[3] = {(LD) i / n, (LD) j / n, (LD) (n - i - j) / n};
      P g = toP(dfm2::getPointCoonsTri_CubicBezierEdge<V3>((double) b[0], (double) b[1], (double) b[2], p.data()));
      P ex;
      int corner = -1;
      for (int a = 0; a < 3; a++) if (b[a] == 1) corner = a;
      if (corner >= 0) ex = k[3 * corner];
      else {
        for (int a = 0; a < 3; a++) {       // blend of the edge opposite to corner a
          int e = (a * 3 + 3) % 9;
          P pe = bez(e, e + 1, e + 2, (e + 3) % 9, b[(a + 2) % 3] / (1 - b[a]));
          ex = ex + (1 - b[a]) * pe + b[a] * k[3 * a] - 2 * b[a] * k[3 * a];
        }
      }
      MC_CHECK(c, nearp(g, ex, 1e-12L), "triangular patch at (%g,%g,%g) is (%g,%g,%g), must be (%g,%g,%g)", (double) b[0], (double) b[1], (double) b[2], (double) g[0], (double) g[1], (double) g[2], (double) ex[0], (double) ex[1], (double) ex[2]);
    }
  }
  c.outcome_of(kind, imp);
}
int main(int argc, char **argv) {
  return mc::run(argc, argv, {"C13", "exploration", {"nearest points, windings and adaptive lengths are judged to the accuracy of the bisection depth asked for", "the adaptive length is judged to 1e-8 relative away from cusps"}}, {
    {"quadratic", quadEval, "all quadratic control polygons on a 3x3 grid and on the unit cube"},
    {"cubic", cubEval, "all cubic control polygons on a 3x3 grid and on the unit cube"},
    {"measure", measure, "areas and lengths of all these curves, every rule and depth"},
    {"winding", winding, "all quadratic curves on a 4x4 grid seen from 9 origins (3x3 grid in the quick run)"},
    {"nearest-quadratic", nearestQuad, "all quadratic curves x query points"},
    {"nearest-cubic", nearestCub, "all cubic curves x query points"},
    {"plane", planeHit, "all cubic curves with heights -3..3 over a plane"},
    {"bspline", bspline, "degrees 1-4, up to 9 control points, impulses and full polygons, parameters at and next to every knot"},
    {"bspline-nearest", bsplineNear, "quadratic B-splines of 3-5 control points x query points"},
    {"catmull", catmull, "all polygons of 2-6 control points of the alphabet"},
    {"deboor", deboor, "all knot vectors with up to 3 interior knots of every multiplicity, degrees 1-4"},
    {"chain", chain, "chains of 1-4 cubic curves"},
    {"surface", surface, "patches of every kind with impulse and full control nets"},
  });
}
