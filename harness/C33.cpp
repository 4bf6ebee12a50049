// C33: boundary elements and vortex particles: fields against their integrals, systems against fields,
// gradients against differences, conservation of circulation, the dense solver.
#include "mc.h"
#include <array>
#include <complex>
#include <iostream>
#include <map>
#include "delfem2/vec3.h"
#include "delfem2/mat3.h"
#include "delfem2/bem.h"
namespace dfm2 = delfem2;
using U = unsigned int;
using VD = std::vector<double>;
using V = dfm2::CVec3d;
using Z = std::complex<double>;
struct Mesh { VD xyz; std::vector<U> tri; std::vector<int> itri() const { return std::vector<int>(tri.begin(), tri.end()); } };
static V at(const VD &x, U i) { return V(x[i * 3], x[i * 3 + 1], x[i * 3 + 2]); }
static double nrm(const V &a) { return std::sqrt(a.x * a.x + a.y * a.y + a.z * a.z); }
static V crs(const V &a, const V &b) { return V(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x); }
static double dt(const V &a, const V &b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static V sub(const V &a, const V &b) { return V(a.x - b.x, a.y - b.y, a.z - b.z); }
static V lin(double a, const V &x, double b, const V &y) { return V(a * x.x + b * y.x, a * x.y + b * y.y, a * x.z + b * y.z); }
// closed surfaces and open pieces, vertices relabelled, moved and scaled
static Mesh mesh(mc::Ch &c, bool small = false) {
  static const double O[6][3] = {{1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, -1, 0}, {0, 0, 1}, {0, 0, -1}};
  static const U OT[8][3] = {{0, 2, 4}, {2, 1, 4}, {1, 3, 4}, {3, 0, 4}, {2, 0, 5}, {1, 2, 5}, {3, 1, 5}, {0, 3, 5}};
  static const double T[4][3] = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
  static const U TT[4][3] = {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}};
  int kind = c.choose(small ? 3 : 4), rot = c.choose(c.thorough ? 4 : 2), mv = c.choose(2);
  Mesh m; std::vector<std::array<U, 3>> t; std::vector<V> p;
  if (kind == 0) { for (auto &x: T) p.push_back(V(x[0], x[1], x[2])); for (auto &x: TT) t.push_back({x[0], x[1], x[2]}); }
  if (kind == 3) { for (auto &x: O) p.push_back(V(x[0], x[1], x[2])); for (auto &x: OT) t.push_back({x[0], x[1], x[2]}); }
  if (kind == 1) { p = {V(0, 0, 0), V(1, .2, 0), V(.1, 1, .3)}; t = {{0, 1, 2}}; }
  if (kind == 2) { p = {V(0, 0, 0), V(1, 0, 0), V(1.2, 1, .5), V(0, .7, -.2)}; t = {{0, 1, 2}, {2, 3, 0}}; }
  U n = (U) p.size();
  for (U i = 0; i < n; ++i) { V q = p[(i + rot) % n]; m.xyz.insert(m.xyz.end(), {q.x * (mv ? 1.5 : 1) + mv * .3, q.y - mv * .7, q.z * (mv ? .8 : 1) + mv}); }
  for (size_t i = 0; i < t.size(); ++i) for (int k = 0; k < 3; ++k) m.tri.push_back((t[(i + rot) % t.size()][(k + rot) % 3] + n - rot % n) % n);
  return m;
}
static const double (*gl())[2] { // 24-point Gauss-Legendre rule on [0,1]
  static double g[24][2]; static bool done = false;
  if (!done) {
    const int N = 24;
    for (int i = 0; i < N; ++i) {
      double x = std::cos(M_PI * (i + .75) / (N + .5)), d = 0;
      for (int it = 0; it < 100; ++it) {
        double p0 = 1, p1 = x; for (int k = 2; k <= N; ++k) { double p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p2; }
        d = N * (x * p1 - p0) / (x * x - 1); double dx = p1 / d; x -= dx; if (std::fabs(dx) < 1e-16) break;
      }
      g[i][0] = .5 * (1 + x); g[i][1] = 1 / ((1 - x * x) * d * d);
    }
    done = true;
  }
  return g;
}
// integral over a triangle of f(y, barycentric weights)
template<class R, class F> static R integ(const V &a, const V &b, const V &d, R zero, const F &f) {
  auto g = gl(); double A2 = nrm(crs(sub(b, a), sub(d, a))); R s = zero;
  for (int i = 0; i < 24; ++i) for (int j = 0; j < 24; ++j) {
    double u = g[i][0], v = g[j][0] * (1 - u), w = 1 - u - v, q = g[i][1] * g[j][1] * (1 - u) * A2;
    V y(w * a.x + u * b.x + v * d.x, w * a.y + u * b.y + v * d.y, w * a.z + u * b.z + v * d.z);
    s += q * f(y, w, u, v);
  }
  return s;
}
static const int DEG[6] = {1, 2, 5, 6, 7, 8};
static double radius(const Mesh &m, U t, V &g) {
  V p[3]; for (int k = 0; k < 3; ++k) p[k] = at(m.xyz, m.tri[t * 3 + k]);
  g = V((p[0].x + p[1].x + p[2].x) / 3, (p[0].y + p[1].y + p[2].y) / 3, (p[0].z + p[1].z + p[2].z) / 3);
  double r = 0; for (auto &q: p) r = std::max(r, nrm(sub(q, g))); return r;
}
static double qtol(const Mesh &m, const V &x, int ng, int extra) { // bound of the quadrature error of a rule of that degree, relative to the sum of magnitudes
  double w = 0; V g;
  for (U t = 0; t < m.tri.size() / 3; ++t) { double r = radius(m, t, g); w = std::max(w, r / (nrm(sub(x, g)) - r)); }
  return 3 * (1 + extra) * std::pow(w, DEG[ng] + 1) * (DEG[ng] + 3) + 2e-8;
}
static V far_point(mc::Ch &c) {
  int k = c.choose(c.thorough ? 26 : 7);
  static const int P[7] = {0, 9, 22, 12, 4, 17, 25};
  int q = c.thorough ? (k < 13 ? k : k + 1) : (P[k] < 13 ? P[k] : P[k] + 1);
  if (q == 13) q = 26;
  double s = c.pick({9., 14.});
  return V(s * (q % 3 - 1) + .7, s * (q / 3 % 3 - 1) + .2, s * (q / 9 - 1) - .4);
}
static void near3(mc::Ch &c, const char *nm, const V &got, const V &ex, double tol) {
  MC_CHECK(c, nrm(sub(got, ex)) <= tol, "%s is (%.10g %.10g %.10g), expected (%.10g %.10g %.10g)", nm, got.x, got.y, got.z, ex.x, ex.y, ex.z);
}
static void nearz(mc::Ch &c, const char *nm, Z got, Z ex, double tol) { MC_CHECK(c, std::abs(got - ex) <= tol, "%s is %.10g%+.10gi, expected %.10g%+.10gi", nm, got.real(), got.imag(), ex.real(), ex.imag()); }
// ---------- fields away from the surface against their integrals
static void fields(mc::Ch &c) {
  Mesh m = mesh(c); int ng = c.choose(6); V x = far_point(c);
  V vi = c.pick({V(0, 0, 0), V(1, -.5, 2)}); int vs = c.choose(3);
  c.commit(); c.describe("%zu triangles, rule %d, point (%g %g %g)", m.tri.size() / 3, ng, x.x, x.y, x.z);
  const U nt = (U) m.tri.size() / 3, np = (U) m.xyz.size() / 3;
  VD vt(nt), vp(np), v2(2 * nt);
  for (U i = 0; i < nt; ++i) vt[i] = vs == 0 ? 1 : std::sin(1. + i * vs);
  for (U i = 0; i < np; ++i) vp[i] = vs == 0 ? 1 : std::cos(i * 1.3 * vs);
  for (U i = 0; i < 2 * nt; ++i) v2[i] = vs == 0 ? (i % 2) : std::sin(2. + i * vs);
  double p0 = 0, p1 = 0, mag = 0; V sheet(0, 0, 0);
  for (U t = 0; t < nt; ++t) {
    const U *q = m.tri.data() + t * 3; V a = at(m.xyz, q[0]), b = at(m.xyz, q[1]), d = at(m.xyz, q[2]), n = crs(sub(b, a), sub(d, a)); n = lin(-1 / nrm(n), n, 0, n);
    struct R { double v[9]; R &operator+=(const R &o) { for (int i = 0; i < 9; ++i) v[i] += o.v[i]; return *this; } };
    V u = sub(b, a); u = lin(1 / nrm(u), u, 0, u); V w = crs(u, n); // n is the inward normal: w completes u with the outward one
    auto g = gl(); double A2 = nrm(crs(sub(b, a), sub(d, a))); R s{};
    for (int i = 0; i < 24; ++i) for (int j = 0; j < 24; ++j) {
      double uu = g[i][0], vv = g[j][0] * (1 - uu), ww = 1 - uu - vv, qq = g[i][1] * g[j][1] * (1 - uu) * A2;
      V y(ww * a.x + uu * b.x + vv * d.x, ww * a.y + uu * b.y + vv * d.y, ww * a.z + uu * b.z + vv * d.z), rr = sub(x, y); double l = nrm(rr), k3 = 4 * M_PI * l * l * l;
      double dn = dt(rr, n) / k3, G = 1 / (4 * M_PI * l);
      R k{{qq * dn, qq * G, qq * dn * (ww * vp[q[0]] + uu * vp[q[1]] + vv * vp[q[2]]), 0, 0, 0, 0, 0, 0}};
      V gam = lin(v2[t * 2], w, -v2[t * 2 + 1], u), bs = crs(gam, rr); // Biot-Savart of the surface vorticity
      k.v[3] = qq * bs.x / k3; k.v[4] = qq * bs.y / k3; k.v[5] = qq * bs.z / k3; k.v[6] = qq / (4 * M_PI * l * l);
      s += k;
    }
    double vn = -dt(n, vi);
    p0 += -s.v[0] * vt[t] + s.v[1] * vn; p1 += -s.v[2] + s.v[1] * vn; sheet = lin(1, sheet, 1, V(s.v[3], s.v[4], s.v[5]));
    mag += s.v[6] * 2 + s.v[1] * std::fabs(vn);
  }
  double tol = qtol(m, x, ng, 1) * mag + 1e-12;
  auto e0 = [&](const V &y, V &gr) { double p = 7; gr = V(5, 5, 5); dfm2::evaluateField_PotentialFlow_Order0th(p, gr, y, vi, ng, vt, m.xyz, m.tri); return p; };
  auto e1 = [&](const V &y, V &gr) { double p = 7; gr = dfm2::evaluateField_PotentialFlow_Order1st(p, y, vi, ng, vp, m.xyz, m.itri()); return p; };
  V g0, g1, tmp; double a0 = e0(x, g0), a1 = e1(x, g1);
  MC_CHECK(c, std::fabs(a0 - p0) <= tol, "potential of constant elements %.10g, expected %.10g within %g", a0, p0, tol);
  MC_CHECK(c, std::fabs(a1 - p1) <= tol, "potential of linear elements %.10g, expected %.10g within %g", a1, p1, tol);
  near3(c, "velocity of a vortex sheet", dfm2::evaluateField_VortexSheet_Order0th(x, v2, ng, m.xyz, m.itri(), -1), sheet, tol);
  const double h = .05; V d0, d1;
  for (int k = 0; k < 3; ++k) {
    auto sh = [&](double s) { V y = x; (k == 0 ? y.x : k == 1 ? y.y : y.z) += s; return y; };
    auto df = [&](auto f) { return (8 * (f(sh(h), tmp) - f(sh(-h), tmp)) - (f(sh(2 * h), tmp) - f(sh(-2 * h), tmp))) / (12 * h); };
    double q0 = df(e0), q1 = df(e1); (k == 0 ? d0.x : k == 1 ? d0.y : d0.z) = q0; (k == 0 ? d1.x : k == 1 ? d1.y : d1.z) = q1;
  }
  near3(c, "gradient of constant elements", g0, lin(1, d0, 1, vi), 1e-8 * (1 + mag));
  near3(c, "gradient of linear elements", g1, lin(1, d1, 1, vi), 1e-8 * (1 + mag));
  // the excluded triangle is left out
  for (U j = 0; j < nt; ++j) {
    V all = dfm2::evaluateField_VortexSheet_Order0th(x, v2, ng, m.xyz, m.itri(), -1), wo = dfm2::evaluateField_VortexSheet_Order0th(x, v2, ng, m.xyz, m.itri(), (int) j);
    VD z(2 * nt, 0.); z[j * 2] = v2[j * 2]; z[j * 2 + 1] = v2[j * 2 + 1];
    near3(c, "vortex sheet without a triangle", lin(1, all, -1, wo), dfm2::evaluateField_VortexSheet_Order0th(x, z, ng, m.xyz, m.itri(), -1), 1e-13 + 1e-10 * mag);
  }
  VD bad(nt + 1, 1.), bad1(np + 1, 1.); double pp = 3; V gz(1, 1, 1);
  dfm2::evaluateField_PotentialFlow_Order0th(pp, gz, x, vi, ng, bad, m.xyz, m.tri); near3(c, "gradient with a wrong number of values", gz, V(0, 0, 0), 0);
  near3(c, "gradient with a wrong number of values", dfm2::evaluateField_PotentialFlow_Order1st(pp, x, vi, ng, bad1, m.xyz, m.itri()), V(0, 0, 0), 0);
  // point sources at the centroids
  V ps(0, 0, 0), cg;
  for (U t = 0; t < nt; ++t) {
    radius(m, t, cg); V r = sub(x, cg); double l = nrm(r); const U *q = m.tri.data() + t * 3; double A = .5 * nrm(crs(sub(at(m.xyz, q[1]), at(m.xyz, q[0])), sub(at(m.xyz, q[2]), at(m.xyz, q[0])))); ps = lin(1, ps, -A * vt[t] / (l * l * l), r);
    near3(c, "MidPoint", dfm2::MidPoint((int) t, m.tri, m.xyz), cg, 1e-12);
  }
  near3(c, "evaluateField_PotentialFlow", dfm2::evaluateField_PotentialFlow(vt, x, m.tri, m.xyz), ps, 1e-12 * (1 + nrm(ps)));
}
// ---------- inside a closed surface a unit layer gives one, outside nothing
static void layer(mc::Ch &c) {
  int lev = c.choose(2), ng = 2 + c.choose(4), rot = c.choose(4); double s = c.pick({1., 3.});
  bool in = c.flip(); int k = c.choose(27);
  c.commit();
  std::vector<V> p = {V(1, 0, 0), V(-1, 0, 0), V(0, 1, 0), V(0, -1, 0), V(0, 0, 1), V(0, 0, -1)};
  std::vector<std::array<U, 3>> t = {{0, 2, 4}, {2, 1, 4}, {1, 3, 4}, {3, 0, 4}, {2, 0, 5}, {1, 2, 5}, {3, 1, 5}, {0, 3, 5}};
  for (int l = 0; l < 2 + lev; ++l) {
    std::vector<std::array<U, 3>> n;
    for (auto &q: t) { U b = (U) p.size(); for (int e = 0; e < 3; ++e) p.push_back(lin(.5, p[q[e]], .5, p[q[(e + 1) % 3]])); n.push_back({q[0], b, b + 2}); n.push_back({b, q[1], b + 1}); n.push_back({b + 2, b + 1, q[2]}); n.push_back({b, b + 1, b + 2}); }
    t = n;
  }
  Mesh m; for (auto &q: p) m.xyz.insert(m.xyz.end(), {s * q.x + rot, s * q.y, s * q.z - rot});
  for (auto &q: t) for (int e = 0; e < 3; ++e) m.tri.push_back(q[(e + rot) % 3]);
  double f = in ? .15 : 1.5; V x(s * f * (k % 3 - 1) + rot, s * f * (k / 3 % 3 - 1), s * f * (k / 9 - 1) - rot); if (!in && k == 13) { x.x += 2 * s; }
  double p0 = 0, p1 = 0; V g; VD ot(t.size(), 1.), op(p.size(), 1.);
  dfm2::evaluateField_PotentialFlow_Order0th(p0, g, x, V(0, 0, 0), ng, ot, m.xyz, m.tri);
  V g1 = dfm2::evaluateField_PotentialFlow_Order1st(p1, x, V(0, 0, 0), ng, op, m.xyz, m.itri());
  double e = in ? -1 : 0, tol = 2e-3;
  MC_CHECK(c, std::fabs(std::fabs(p0) - std::fabs(e)) < tol && std::fabs(std::fabs(p1) - std::fabs(e)) < tol, "a unit layer gives %g and %g %s", p0, p1, in ? "inside" : "outside");
  MC_CHECK(c, std::fabs(p0 - p1) < 1e-9 && nrm(sub(g, g1)) < 1e-9 / s + 1e-9, "constant and linear elements differ on a constant layer");
  MC_CHECK(c, nrm(g) * s < .05, "gradient of a unit layer (%g %g %g)", g.x, g.y, g.z);
}
// ---------- linear systems against the fields of single elements
static void systems(mc::Ch &c) {
  Mesh m = mesh(c); int ng = c.choose(6); V vi = c.pick({V(1, 0, 0), V(1, -.5, 2), V(0, 0, 0)});
  c.commit();
  const U nt = (U) m.tri.size() / 3, np = (U) m.xyz.size() / 3;
  VD A{1, 2}, f(3, 9.), B(100, 3.), h, sa(np), S(7, 1.), fs;
  for (U i = 0; i < np; ++i) sa[i] = 1 + .3 * i;
  dfm2::makeLinearSystem_PotentialFlow_Order0th(A, f, vi, ng, m.xyz, m.tri);
  dfm2::makeLinearSystem_PotentialFlow_Order1st(B, h, vi, ng, m.xyz, m.itri(), sa);
  dfm2::makeLinearSystem_VortexSheet_Order0th(S, fs, vi, ng, m.xyz, m.itri());
  MC_CHECK(c, A.size() == nt * nt && f.size() == nt && B.size() == np * np && h.size() == np && S.size() == 4 * nt * nt && fs.size() == 2 * nt, "sizes of the systems");
  auto without = [&](U i) { Mesh w = m; w.tri.erase(w.tri.begin() + i * 3, w.tri.begin() + i * 3 + 3); return w; };
  for (U i = 0; i < nt; ++i) {
    V x; radius(m, i, x); V g; Mesh w = without(i);
    const U *q = m.tri.data() + i * 3; V u = sub(at(m.xyz, q[1]), at(m.xyz, q[0])); u = lin(1 / nrm(u), u, 0, u); V n = crs(u, sub(at(m.xyz, q[2]), at(m.xyz, q[0]))); n = lin(1 / nrm(n), n, 0, n); V v = crs(n, u);
    for (U j = 0; j < nt; ++j) {
      double p = 0; VD e(w.tri.size() / 3, 0.), e2(2 * nt, 0.);
      if (j != i) { e[j < i ? j : j - 1] = 1; dfm2::evaluateField_PotentialFlow_Order0th(p, g, x, V(0, 0, 0), ng, e, w.xyz, w.tri); p = -p; } else p = .5;
      MC_CHECK(c, mc::near(A[i * nt + j], p, 1e-9, 1e-12), "constant elements: entry %u %u is %.10g, expected %.10g", i, j, A[i * nt + j], p);
      for (int b = 0; b < 2; ++b) {
        std::fill(e2.begin(), e2.end(), 0.); e2[j * 2 + b] = 1; V s(0, 0, 0);
        if (j != i) s = dfm2::evaluateField_VortexSheet_Order0th(x, e2, ng, m.xyz, m.itri(), (int) i);
        for (int a = 0; a < 2; ++a) {
          double ex = i == j ? (a == b ? .5 : 0) : -dt(s, a ? v : u), got = S[(2 * i + a) * 2 * nt + 2 * j + b];
          MC_CHECK(c, mc::near(got, ex, 1e-9, 1e-12), "vortex sheet: entry %u %u is %.10g, expected %.10g", 2 * i + a, 2 * j + b, got, ex);
        }
      }
    }
    double p = 0; dfm2::evaluateField_PotentialFlow_Order0th(p, g, x, vi, ng, VD(nt - 1, 0.), w.xyz, w.tri);
    MC_CHECK(c, mc::near(f[i], p, 1e-9, 1e-12), "constant elements: right hand side %u is %.10g, expected %.10g", i, f[i], p);
    MC_CHECK(c, mc::near(fs[2 * i], dt(u, vi), 1e-9, 1e-12) && mc::near(fs[2 * i + 1], dt(v, vi), 1e-9, 1e-12), "vortex sheet: right hand side %u", i);
  }
  for (U i = 0; i < np; ++i) {
    double p = 0; V x = at(m.xyz, i);
    for (U j = 0; j < np; ++j) {
      VD e(np, 0.); e[j] = 1; dfm2::evaluateField_PotentialFlow_Order1st(p, x, V(0, 0, 0), ng, e, m.xyz, m.itri()); p = -p; if (i == j) p += sa[i] / (4 * M_PI);
      MC_CHECK(c, mc::near(B[i * np + j], p, 1e-9, 1e-12), "linear elements: entry %u %u is %.10g, expected %.10g", i, j, B[i * np + j], p);
    }
    dfm2::evaluateField_PotentialFlow_Order1st(p, x, vi, ng, VD(np, 0.), m.xyz, m.itri());
    MC_CHECK(c, mc::near(h[i], p, 1e-9, 1e-12), "linear elements: right hand side %u is %.10g, expected %.10g", i, h[i], p);
  }
}
// ---------- Helmholtz
static void helmholtz(mc::Ch &c) {
  Mesh m = mesh(c); int ng = c.choose(3); V x = far_point(c); double k = c.pick({0., .1, .5}), beta = c.pick({0., .3}); bool inv = c.flip();
  V src = c.pick({V(0, 0, 0), V(20, 1, -2)});
  c.commit();
  const U nt = (U) m.tri.size() / 3, np = (U) m.xyz.size() / 3; const Z I(0, 1);
  std::vector<Z> st(nt), sp(np); for (U i = 0; i < nt; ++i) st[i] = Z(1 + .5 * i, -.2 * i); for (U i = 0; i < np; ++i) sp[i] = Z(1 - .3 * i, .4 + i);
  auto G = [&](double r) { return std::exp(I * k * r) / (4 * M_PI * r); };
  Z e0 = G(nrm(sub(x, src))), e1 = e0; double mag = 0;
  for (U t = 0; t < nt; ++t) {
    const U *q = m.tri.data() + t * 3; V a = at(m.xyz, q[0]), b = at(m.xyz, q[1]), d = at(m.xyz, q[2]), n = crs(sub(b, a), sub(d, a)); double A = nrm(n) / 2; n = lin(.5 / A, n, 0, n);
    V cg; radius(m, t, cg); V r = sub(x, cg); double l = nrm(r), dn = dt(r, n) / l * (inv ? -1 : 1);
    e0 -= A * st[t] * (G(l) * (I * k - 1 / l) * dn - I * k * beta * G(l));
    Z C[3] = {Z(9, 9), Z(9, 9), Z(9, 9)}, E[3];
    for (int v = 0; v < 3; ++v) E[v] = integ(a, b, d, Z(0, 0), [&](const V &y, double w0, double w1, double w2) {
        V rr = sub(x, y); double L = nrm(rr); Z dG = G(L) * (1. / L - I * k) * (dt(rr, n) / L); // derivative along the normal at y
        return (dG - I * k * beta * G(L)) * (v == 0 ? w0 : v == 1 ? w1 : w2); });
    dfm2::Helmholtz_TransferOrder1st_PntTri(C, x, a, b, d, k, beta, ng);
    Mesh one; one.xyz = m.xyz; one.tri = {q[0], q[1], q[2]};
    double sc = A * (k * beta + 1 / l + k) / (4 * M_PI * l); // magnitude of the integrand times the area
    double R = radius(m, t, cg), osc = std::pow((k + 1 / (l - R)) * R, DEG[ng]) * 3 + 1e-8; // the weights take one degree
    for (int v = 0; v < 3; ++v) nearz(c, "Helmholtz_TransferOrder1st_PntTri", C[v], E[v], sc * osc);
    for (int v = 0; v < 3; ++v) { e1 -= C[v] * sp[q[v]]; mag += std::abs(C[v] * sp[q[v]]); }
  }
  nearz(c, "evaluateField_Helmholtz_Order0th", dfm2::evaluateField_Helmholtz_Order0th(st, x, src, k, beta, m.tri, m.xyz, inv), e0, 1e-10 * (1 + std::abs(e0)));
  nearz(c, "evaluateField_Helmholtz_Order1st", dfm2::evaluateField_Helmholtz_Order1st(sp, x, src, k, beta, m.itri(), m.xyz, false, ng), e1, 1e-10 * (1 + std::abs(e1) + mag));
}
// ---------- vortex particles
static std::vector<dfm2::CVortexParticle> particles(mc::Ch &c, int n, double h) {
  std::vector<dfm2::CVortexParticle> a(n);
  for (int i = 0; i < n; ++i) {
    int k = c.choose(i == 0 ? 2 : 8);
    a[i].pos = V(h * (k & 1) * 1.25 + .1 * i, h * ((k >> 1) & 1) * 2.5 - .05 * i * i, h * ((k >> 2) & 1) * .75 + .2);
    a[i].circ = V(1 + i, i % 2 ? -2 : .5, .3 * i); a[i].rad = .5 + .5 * i;
    a[i].velo = V(9, i, 8); a[i].gradvelo.setZero();
  }
  return a;
}
static V vel(const V &x, const dfm2::CVortexParticle &p) { V r = sub(x, p.pos); double l = nrm(r), q = l / p.rad; V k = crs(p.circ, r); return lin(-std::expm1(-q * q * q) / (4 * M_PI * l * l * l), k, 0, k); }
static void particle(mc::Ch &c) {
  int n = 1 + c.choose(c.thorough ? 4 : 3); auto a = particles(c, n, 1.); int self = c.choose(n + 1) - 1; int k = c.choose(9);
  c.commit();
  V x(.4 * (k % 3) - .61, .4 * (k / 3) - .33, .77);
  auto sum = [&](const V &y, int s) { V v(0, 0, 0); for (int i = 0; i < n; ++i) if (i != s) v = lin(1, v, 1, vel(y, a[i])); return v; };
  auto grad = [&](const V &y, int s, double e[9]) {
    const double h = 1e-3;
    for (int j = 0; j < 3; ++j) {
      auto at_ = [&](double d) { V z = y; (j == 0 ? z.x : j == 1 ? z.y : z.z) += d; return sum(z, s); };
      V d = lin(8 / (12 * h), sub(at_(h), at_(-h)), -1 / (12 * h), sub(at_(2 * h), at_(-2 * h))); e[j] = d.x; e[3 + j] = d.y; e[6 + j] = d.z;
    } };
  auto cmpm = [&](const char *nm, const dfm2::CMat3d &M, const double e[9]) { for (int i = 0; i < 9; ++i) MC_CHECK(c, std::fabs(M(i / 3, i % 3) - e[i]) < 1e-6 * (1 + std::fabs(e[i])), "%s: entry %d is %.9g, expected %.9g", nm, i, M(i / 3, i % 3), e[i]); };
  bool close = false; for (auto &p: a) if (nrm(sub(x, p.pos)) < .15) close = true;
  if (!close) {
    near3(c, "veloVortexParticles", dfm2::veloVortexParticles(x, a, self), sum(x, self), 1e-11);
    near3(c, "veloVortexParticle", dfm2::veloVortexParticle(x, a[0].pos, a[0].circ, a[0].rad), vel(x, a[0]), 1e-11);
    V v(4, 4, 4); auto M = dfm2::gradveloVortexParticles(v, x, a, self); double e[9]; grad(x, self, e);
    near3(c, "gradveloVortexParticles velocity", v, sum(x, self), 1e-11); cmpm("gradveloVortexParticles", M, e);
  }
  bool meet = false; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (nrm(sub(a[i].pos, a[j].pos)) < .15) meet = true;
  if (meet) return;
  auto b = a; dfm2::setGradVeloVortexParticles(b); auto d = b; dfm2::setGradVeloVortexParticles(d);
  for (int i = 0; i < n; ++i) {
    double e[9]; grad(a[i].pos, i, e); cmpm("setGradVeloVortexParticles", b[i].gradvelo, e);
    near3(c, "setGradVeloVortexParticles velocity", b[i].velo, sum(a[i].pos, i), 1e-11);
    near3(c, "setGradVeloVortexParticles earlier velocity", b[i].velo_pre, a[i].velo, 0); near3(c, "setGradVeloVortexParticles earlier velocity", d[i].velo_pre, b[i].velo, 0);
    cmpm("earlier gradient", d[i].gradvelo_pre, e);
    near3(c, "setGradVeloVortexParticles position", d[i].pos, a[i].pos, 0); near3(c, "setGradVeloVortexParticles circulation", d[i].circ, a[i].circ, 0);
    V old = d[i].pos; d[i].stepTime_AdamsBashforth(.1); near3(c, "stepTime_AdamsBashforth", d[i].pos, lin(1, old, .1, lin(1.5, d[i].velo, -.5, d[i].velo_pre)), 1e-12);
  }
}
static void viscosity(mc::Ch &c) {
  int n = c.choose(c.thorough ? 5 : 4); double h = c.pick({1., .4, 2.5}); auto a = particles(c, n, c.pick({1., .37})); bool reuse = c.flip();
  c.commit();
  dfm2::CGrid_Vortex g; g.nx = g.ny = g.nz = 5; if (reuse) { g.aDataVtx.resize(40); for (auto &d: g.aDataVtx) { d.circ = V(7, 7, 7); d.aPairPtcleWeight.push_back({0, 3.}); } }
  auto b = a; dfm2::viscousityVortexParticleGrid(b, g, h);
  MC_CHECK(c, (int) b.size() == n, "number of particles changed");
  if (n == 0) { MC_CHECK(c, g.nx == 0 && g.ny == 0 && g.nz == 0, "grid of no particle"); return; }
  V s(0, 0, 0), e(0, 0, 0); for (auto &p: a) e = lin(1, e, 1, p.circ); for (auto &p: b) s = lin(1, s, 1, p.circ);
  near3(c, "total circulation after viscosity", s, e, 1e-9);
  // every particle: shares of the grid vertices of its cell by trilinear weights
  std::vector<V> ex(n, V(0, 0, 0)); int N[3] = {g.nx, g.ny, g.nz}; double o[3] = {g.cnt.x - h * g.nx / 2, g.cnt.y - h * g.ny / 2, g.cnt.z - h * g.nz / 2};
  struct Vx { V circ{0, 0, 0}; double w = 0; }; std::map<std::array<int, 3>, Vx> gr; bool edge = false;
  auto wt = [&](int i, int q, std::array<int, 3> &id) { double w = 1; const double p[3] = {a[i].pos.x, a[i].pos.y, a[i].pos.z}; for (int k = 0; k < 3; ++k) { double t = (p[k] - o[k]) / h; int f = (int) std::floor(t); if (std::fabs(t - std::round(t)) < 1e-7) edge = true; id[k] = f + ((q >> k) & 1); w *= (q >> k) & 1 ? t - f : 1 - t + f; if (id[k] < 0 || id[k] > N[k]) edge = true; } return w; };
  std::array<int, 3> id;
  for (int i = 0; i < n; ++i) for (int q = 0; q < 8; ++q) { double w = wt(i, q, id); auto &v = gr[id]; v.circ = lin(1, v.circ, w, a[i].circ); v.w += w; }
  for (int i = 0; i < n; ++i) for (int q = 0; q < 8; ++q) { double w = wt(i, q, id); auto &v = gr[id]; if (v.w < 1e-4) edge = true; else ex[i] = lin(1, ex[i], w / v.w, v.circ); }
  if (!edge) for (int i = 0; i < n; ++i) near3(c, "circulation of a particle after viscosity", b[i].circ, ex[i], 1e-9);
  for (int i = 0; i < n; ++i) { near3(c, "position after viscosity", b[i].pos, a[i].pos, 0); const double p[3] = {a[i].pos.x, a[i].pos.y, a[i].pos.z}; for (int k = 0; k < 3; ++k) MC_CHECK(c, p[k] - o[k] > h * .99 - 1e-9 && o[k] + N[k] * h - p[k] > h * .99 - 1e-9, "particle %d is not inside of the grid", i); }
}
// ---------- dense solver
static void solver(mc::Ch &c) {
  int n = c.choose(4); VD A(n * n), y(n);
  static const double E[] = {0, 1, -1}; int dg = c.choose(3);
  for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) if (i != j) A[i * n + j] = E[c.choose(n > 2 && !c.thorough && (i + j) % 2 ? 2 : 3)]; }
  for (int i = 0; i < n; ++i) { A[i * n + i] = dg == 0 ? 1 + n : dg == 1 ? 3. + i : 2.5 * n - i * .5; y[i] = c.pick({0., 1., -2.}); }
  c.commit();
  VD u(5, 8.), r; double tol = 1e-10; int it = 200;
  bool ok = dfm2::Solve_BiCGSTAB(tol, it, u, A, y);
  MC_CHECK(c, ok && (int) u.size() == n, "Solve_BiCGSTAB fails");
  bool symm = true; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (A[i * n + j] != A[j * n + i]) symm = false;
  if (it >= 200 && !symm) return; // the method may break down on other matrices, and then reports its last iteration
  dfm2::matVec(r, A, u); double s = 0, q = 0; MC_CHECK(c, (int) r.size() == n, "matVec size");
  for (int i = 0; i < n; ++i) { double v = 0; for (int j = 0; j < n; ++j) v += A[i * n + j] * u[j]; MC_CHECK(c, mc::near(r[i], v, 1e-12, 1e-12), "matVec row %d", i); s += (v - y[i]) * (v - y[i]); q += y[i] * y[i]; }
  MC_CHECK(c, std::sqrt(s) <= 1e-8 * std::sqrt(q), "residual %g of a solved system, right hand side %g", std::sqrt(s), std::sqrt(q));
  MC_CHECK(c, tol <= 1e-10 && it < 200, "reported ratio %g after %d iterations", tol, it);
  MC_CHECK(c, mc::near(dfm2::squaredNorm(y), q, 1e-12), "squaredNorm");
}
int main(int argc, char **argv) {
  std::cout.rdbuf(nullptr);
  return mc::run(argc, argv, {"C33", "exploration", {"fields are compared with their integrals away from the surface, within the error a quadrature rule of its degree can have", "the unused normal flag of the linear Helmholtz elements is not judged","the BiCGSTAB method may break down on matrices that are not symmetric: a reported convergence is judged there, not its absence"}},
    {{"fields", fields, "closed and open meshes relabelled, six rules, all far points of the alphabet, onset flows and values"},
     {"layer", layer, "subdivided octahedra, points of a 3x3x3 grid inside and outside"},
     {"systems", systems, "closed and open meshes relabelled, six rules, three onset flows: every matrix entry"},
     {"helmholtz", helmholtz, "meshes, three rules, far points, wave numbers and admittances"},
     {"particle", particle, "up to three (four) particles on cube corners, nine points, every excluded particle"},
     {"viscosity", viscosity, "up to three (four) particles on cube corners, three resolutions, new and reused grids"},
     {"solver", solver, "all diagonally dominant matrices up to 3x3 over -1 0 1, all right hand sides over 0 1 -2"}});
}
