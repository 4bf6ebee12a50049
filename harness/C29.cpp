// C29: position based dynamics and planar rigid bodies.
#include "mc.h"
#include <cassert>
#include <cmath>
#include <vector>
#include <array>
#include <algorithm>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/mat3.h"
#include "delfem2/pbd_geo3.h"
#include "delfem2/pbd_stvk.h"
#include "delfem2/pbd_bending_for_dtri.h"
#include "delfem2/rgd_v2m3.h"
#include "delfem2/kinetic_damping.h"
namespace dfm2 = delfem2;
using LD = long double;
using VD = std::vector<double>;
using VL = std::vector<LD>;
using U = unsigned int;

// ---- reference: constraint projection  x -= ratio M^-1 J^T (J M^-1 J^T)^-1 C   (J: 3 x n)
static bool solve3(LD A[3][3], const LD b[3], LD x[3]) {
  LD det = A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1]) - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0]) + A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0]);
  LD sc = fabsl(A[0][0]) + fabsl(A[1][1]) + fabsl(A[2][2]);
  if (!(fabsl(det) > 1e-5L * sc * sc * sc)) return false;
  for (int k = 0; k < 3; k++) {
    LD M[3][3];
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) M[i][j] = j == k ? b[i] : A[i][j];
    x[k] = (M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1]) - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0]) + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0])) / det;
  }
  return true;
}
static bool project(int n, const VL &J, const LD C[3], const VL &mass3, LD ratio, VL &x) {  // x: n values
  LD A[3][3], lam[3];
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { A[i][j] = 0; for (int k = 0; k < n; k++) A[i][j] += J[i * n + k] * J[j * n + k] / mass3[k]; }
  if (!solve3(A, C, lam)) return false;
  for (int k = 0; k < n; k++) for (int i = 0; i < 3; i++) x[k] -= ratio * J[i * n + k] * lam[i] / mass3[k];
  return true;
}
static void prepost(mc::Ch &c) {
  int np = c.choose(4);
  double dt = c.pick({0.5, 0.01, 2.});
  int ig = c.choose(3);
  const double G[3][3] = {{0, 0, 0}, {0, -10, 0}, {1, 2, -3}};
  const double vals[5] = {0, 1, -2, 0.3, 7};
  VD x(np * 3), v(np * 3), d(np * 3);
  std::vector<int> bc(np);
  for (int i = 0; i < np; i++) {
    bc[i] = c.pick({0, 1, -1});
    int a = np < 3 ? c.choose(5) : i, b = np < 3 ? c.choose(3) : c.choose(2), e = np < 3 ? c.choose(2) : i % 3;
    for (int k = 0; k < 3; k++) { x[i * 3 + k] = vals[(a + k * 2) % 5]; v[i * 3 + k] = vals[(b + k * 3 + i) % 5]; d[i * 3 + k] = vals[(e * 2 + k) % 5]; }
  }
  int dirty = c.choose(3);
  c.commit();
  VD t = dirty == 0 ? VD() : VD((size_t) (dirty == 1 ? 2 : np * 3 + 4), 99.);
  VD x0 = x, v0 = v;
  dfm2::PBD_Pre3D(t, dt, G[ig], x, v, bc);
  MC_CHECK(c, x == x0 && v == v0 && (int) t.size() == np * 3, "prediction changes its input or has %zu values for %d points", t.size(), np);
  for (int i = 0; i < np * 3; i++) {
    double e = bc[i / 3] ? x[i] : x[i] + dt * v[i] + dt * dt * G[ig][i % 3];
    MC_CHECK(c, mc::near(t[i], e, 1e-13, 1e-13) && (bc[i / 3] == 0 || t[i] == x[i]), "prediction of coordinate %d (flag %d, step %g) is %.17g, not %.17g", i, bc[i / 3], dt, t[i], e);
  }
  for (int i = 0; i < np * 3; i++) t[i] += d[i];      // even when the projections moved a fixed point
  dfm2::PBD_Post(x, v, dt, t, bc);
  for (int i = 0; i < np * 3; i++) {
    if (bc[i / 3]) { MC_CHECK(c, x[i] == x0[i] && v[i] == v0[i], "fixed point %d moves to %g with velocity %g", i / 3, x[i], v[i]); continue; }
    MC_CHECK(c, x[i] == t[i] && mc::near(v[i], (t[i] - x0[i]) / dt, 1e-12, 1e-12), "after the step coordinate %d is %g with velocity %g, expected %g and %g", i, x[i], v[i], t[i], (t[i] - x0[i]) / dt);
  }
  c.outcome_of(x, v);
}
static void update(mc::Ch &c) {
  int np = 1 + c.choose(4);
  int nall = np + c.choose(2);
  int im = c.choose(4), iC = c.choose(4), order = c.choose(2);
  double ratio = c.pick({1., 0.5, 0.1, 0.});
  int n = np * 3;
  std::vector<double> J(3 * n), C(3), m(np);
  for (auto &v: C) v = 0;
  const double vals[4] = {1, 0, -1, 2};
  if (np == 1) for (int i = 0; i < 9; i++) J[i] = i == 0 ? 1 : i == 4 ? 2 : i == 8 ? c.pick({1., -1.}) : i % 2 ? c.pick({1., 0., -1.}) : 0.;
  else { unsigned s = (unsigned) c.choose(60) * 2654435761u + 12345u + (unsigned) np; for (auto &j: J) { s = s * 1664525u + 1013904223u; j = vals[(s >> 20) % 4]; } }
  for (int i = 0; i < np; i++) m[i] = im == 0 ? 1 : im == 1 ? 1 + i : im == 2 ? 0.25 + 3. / (1 + i) : (i ? 1 : 1000);
  for (int i = 0; i < 3; i++) C[i] = iC == 0 ? 0 : iC == 1 ? 1 + i : iC == 2 ? (i == 1 ? -0.5 : 0) : 0.3 - i;
  std::vector<U> ip(np);
  for (int i = 0; i < np; i++) ip[i] = order ? nall - 1 - i : i;
  VD x(nall * 3);
  for (size_t i = 0; i < x.size(); i++) x[i] = (int) (i * 7 % 11) - 4;
  VL r(n), M(n), JL(J.begin(), J.end());
  for (int i = 0; i < n; i++) { r[i] = x[ip[i / 3] * 3 + i % 3]; M[i] = m[i / 3]; }
  LD CL[3] = {C[0], C[1], C[2]};
  if (!project(n, JL, CL, M, ratio, r)) c.skip();
  c.commit();
  c.describe("projection of %d points, masses %s, C %s, J %s, ratio %g", np, mc::str(m).c_str(), mc::str(C).c_str(), mc::str(J).c_str(), ratio);
  VD x0 = x;
  dfm2::PBD_Update_Const3(x.data(), np, 3, m.data(), C.data(), J.data(), ip.data(), ratio);
  std::vector<int> hit(nall, 0);
  for (int i = 0; i < np; i++) hit[ip[i]] = 1;
  for (int i = 0; i < nall * 3; i++) if (!hit[i / 3]) MC_CHECK(c, x[i] == x0[i], "point %d is not in the constraint but moves", i / 3);
  for (int i = 0; i < n; i++) MC_CHECK(c, mc::near(x[ip[i / 3] * 3 + i % 3], (double) r[i], 1e-9, 1e-9), "projection moves coordinate %d to %.12g, the minimal mass-weighted correction is %.12Lg", i, x[ip[i / 3] * 3 + i % 3], r[i]);
  c.outcome_of(x);
}
// Green strain of a triangle, engineering shear, by an independent formula: E = (F^T F - I)/2
static void strain(const double P[3][2], const LD p[3][3], LD C[3]) {
  LD a = (LD) P[1][0] - P[0][0], b = (LD) P[2][0] - P[0][0], d = (LD) P[1][1] - P[0][1], e = (LD) P[2][1] - P[0][1], det = a * e - b * d;
  LD F[3][2];
  for (int k = 0; k < 3; k++) { LD g0 = p[1][k] - p[0][k], g1 = p[2][k] - p[0][k]; F[k][0] = (g0 * e - g1 * d) / det; F[k][1] = (-g0 * b + g1 * a) / det; }
  C[0] = C[1] = -0.5L;
  C[2] = 0;
  for (int k = 0; k < 3; k++) { C[0] += F[k][0] * F[k][0] / 2; C[1] += F[k][1] * F[k][1] / 2; C[2] += F[k][0] * F[k][1]; }
}
static void momenta(mc::Ch &c, const VD &x0, const VD &x1, const std::vector<U> &ip, const char *nm, bool angular) {   // equal masses: sum of moves and of their moments vanish
  LD s[3] = {0, 0, 0}, t[3] = {0, 0, 0}, sc = 1e-9L;
  for (auto i: ip) {
    LD d[3], p[3];
    for (int k = 0; k < 3; k++) { d[k] = (LD) x1[i * 3 + k] - x0[i * 3 + k]; p[k] = x0[i * 3 + k]; s[k] += d[k]; sc = std::max(sc, fabsl(d[k])); }
    for (int k = 0; k < 3; k++) t[k] += p[(k + 1) % 3] * d[(k + 2) % 3] - p[(k + 2) % 3] * d[(k + 1) % 3];
  }
  for (int k = 0; k < 3; k++) {
    MC_CHECK(c, fabsl(s[k]) < 1e-9L * (1 + sc), "%s moves the centre of mass by %.3Lg: %s -> %s", nm, s[k], mc::str(x0).c_str(), mc::str(x1).c_str());
    if (angular) MC_CHECK(c, fabsl(t[k]) < 1e-8L * (1 + sc) * 10, "%s changes the angular momentum by %.3Lg: %s -> %s", nm, t[k], mc::str(x0).c_str(), mc::str(x1).c_str());
  }
}
static const double REST[6][3][2] = {{{0, 0}, {1, 0}, {0, 1}}, {{0, 0}, {2, 0}, {1, 1.5}}, {{1, 1}, {0, 2}, {-1, 0}}, {{0, 0}, {0.1, 0}, {0, 0.1}}, {{0, 0}, {3, 1}, {1, 1}}, {{0, 0}, {0, 1}, {1, 0}}};
static void triStrain(mc::Ch &c) {
  int k = c.choose(6), what = c.choose(3), perm = c.choose(3);
  const auto &P = REST[k];
  double sc = k == 3 ? 0.1 : 1;
  VD x(12, 5.);
  std::array<U, 3> tri{U((0 + perm) % 3) + (perm == 1 ? 1u : 0u), U((1 + perm) % 3) + (perm == 1 ? 1u : 0u), U((2 + perm) % 3) + (perm == 1 ? 1u : 0u)};
  std::vector<std::array<double, 2>> xy(4, {7., 8.});
  for (int i = 0; i < 3; i++) xy[tri[i]] = {P[i][0], P[i][1]};
  auto set = [&](int i, double a, double b, double d) { x[tri[i] * 3] = a * sc; x[tri[i] * 3 + 1] = b * sc; x[tri[i] * 3 + 2] = d * sc; };
  if (what < 2) {       // rest shape moved rigidly
    double q[4][9] = {{1, 0, 0, 0, 1, 0, 0, 0, 1}, {0, 1, 0, 0, 0, 1, 1, 0, 0}, {.6, .8, 0, -.8, .6, 0, 0, 0, 1}, {0, 0, 1, 1, 0, 0, 0, -1, 0}};
    int iq = c.choose(4);
    double st = what == 0 ? 1 : c.pick({0.5, 0.9, 1.1, 2., -1.});
    double t = c.pick({0., 3.});
    for (int i = 0; i < 3; i++) for (int d = 0; d < 3; d++) x[tri[i] * 3 + d] = q[iq][d * 3] * P[i][0] * st + q[iq][d * 3 + 1] * P[i][1] * (st < 0 ? 1 : st) + t * d;
  } else {
    set(0, 0, 0, 0);
    set(1, c.pick({0.5, 1., 2.}), c.pick({-.5, 0., 1.}), c.pick({0., 1.}));
    set(2, c.pick({-1., 0., 0.5, 1.}), c.pick({-1., 0.5, 1., 2.}), c.pick({-1., 0., 0.5}));
  }
  LD p[3][3], C[3];
  for (int i = 0; i < 3; i++) for (int d = 0; d < 3; d++) p[i][d] = x[tri[i] * 3 + d];
  strain(P, p, C);
  VL J(27), r(9), M(9, 1);
  for (int i = 0; i < 9; i++) {     // C is quadratic: central differences are exact
    LD a[3], b[3], h = 0.0625L * sc;
    p[i / 3][i % 3] += h; strain(P, p, a);
    p[i / 3][i % 3] -= 2 * h; strain(P, p, b);
    p[i / 3][i % 3] += h;
    for (int j = 0; j < 3; j++) J[j * 9 + i] = (a[j] - b[j]) / (2 * h);
    r[i] = p[i / 3][i % 3];
  }
  if (!project(9, J, C, M, 1, r)) c.skip();
  c.commit();
  c.describe("triangle strain projection, rest %d, at %s", k, mc::str(x).c_str());
  VD x0 = x;
  dfm2::PBD_TriStrain(x.data(), 4, std::vector<std::array<U, 3>>{tri}, xy);
  for (int i = 0; i < 9; i++) MC_CHECK(c, mc::near(x[tri[i / 3] * 3 + i % 3], (double) r[i], 1e-8, 1e-8), "the strain projection moves %s to %s, coordinate %d should be %.12Lg", mc::str(x0).c_str(), mc::str(x).c_str(), i, r[i]);
  U other = 6 - tri[0] - tri[1] - tri[2];
  for (int d = 0; d < 3; d++) MC_CHECK(c, x[other * 3 + d] == 5., "a point of no triangle moves");
  momenta(c, x0, x, {tri[0], tri[1], tri[2]}, "the strain projection", true);
  if (what == 0) for (size_t i = 0; i < x.size(); i++) MC_CHECK(c, fabs(x[i] - x0[i]) < 1e-9, "an unstrained triangle moves from %s to %s", mc::str(x0).c_str(), mc::str(x).c_str());
  c.outcome_of(x);
}
static void triMesh(mc::Ch &c) {        // several triangles: each is projected once, any order; repeated sweeps remove the strain
  int k = c.choose(3);
  std::vector<std::array<double, 2>> xy = k == 0 ? std::vector<std::array<double, 2>>{{0, 0}, {1, 0}, {1, 1}, {0, 1}} : k == 1 ? std::vector<std::array<double, 2>>{{0, 0}, {2, 0}, {2, 1}, {0, 1}, {1, 3}} : std::vector<std::array<double, 2>>{{0, 0}, {1, 0}, {1, 1}, {0, 1}};
  std::vector<std::array<U, 3>> tri = k == 0 ? std::vector<std::array<U, 3>>{{0, 1, 2}, {0, 2, 3}} : k == 1 ? std::vector<std::array<U, 3>>{{0, 1, 2}, {0, 2, 3}, {3, 2, 4}} : std::vector<std::array<U, 3>>{{1, 2, 3}, {3, 0, 1}};
  size_t n = xy.size();
  VD x(n * 3, 0);
  double st = c.pick({0.6, 1., 1.5}), sy = c.pick({0.7, 1., 1.3});
  for (size_t i = 0; i < n; i++) { x[i * 3] = xy[i][0] * st; x[i * 3 + 1] = xy[i][1] * sy; x[i * 3 + 2] = c.pick({0., 0.3, -0.4}); }
  c.commit();
  c.describe("strain projection of a mesh %d at %s", k, mc::str(x).c_str());
  VD x0 = x;
  // one sweep equals projecting the triangles one after the other in some order
  std::vector<int> pm(tri.size());
  for (size_t i = 0; i < pm.size(); i++) pm[i] = (int) i;
  dfm2::PBD_TriStrain(x.data(), n, tri, xy);
  bool ok = false;
  do {
    VL r(x0.begin(), x0.end());
    for (int t: pm) {
      double P[3][2];
      LD p[3][3], C[3];
      VL J(27), y(9), M(9, 1);
      for (int i = 0; i < 3; i++) { P[i][0] = xy[tri[t][i]][0]; P[i][1] = xy[tri[t][i]][1]; for (int d = 0; d < 3; d++) p[i][d] = r[tri[t][i] * 3 + d]; }
      strain(P, p, C);
      for (int i = 0; i < 9; i++) {
        LD a[3], b[3], h = 0.0625L;
        p[i / 3][i % 3] += h; strain(P, p, a);
        p[i / 3][i % 3] -= 2 * h; strain(P, p, b);
        p[i / 3][i % 3] += h;
        for (int j = 0; j < 3; j++) J[j * 9 + i] = (a[j] - b[j]) / (2 * h);
        y[i] = p[i / 3][i % 3];
      }
      if (!project(9, J, C, M, 1, y)) c.fail("harness: degenerate triangle");
      for (int i = 0; i < 9; i++) r[tri[t][i / 3] * 3 + i % 3] = y[i];
    }
    LD e = 0;
    for (size_t i = 0; i < r.size(); i++) e = std::max(e, fabsl(r[i] - x[i]));
    if (e < 1e-7L) ok = true;
  } while (!ok && std::next_permutation(pm.begin(), pm.end()));
  MC_CHECK(c, ok, "a sweep over %zu triangles does not project each of them once: %s -> %s", tri.size(), mc::str(x0).c_str(), mc::str(x).c_str());
  std::vector<U> all;
  for (U i = 0; i < n; i++) all.push_back(i);
  momenta(c, x0, x, all, "a strain sweep", false);
  auto worst = [&] { LD w = 0; for (auto &t: tri) { double P[3][2]; LD p[3][3], C[3]; for (int i = 0; i < 3; i++) { P[i][0] = xy[t[i]][0]; P[i][1] = xy[t[i]][1]; for (int d = 0; d < 3; d++) p[i][d] = x[t[i] * 3 + d]; } strain(P, p, C); for (LD v: C) w = std::max(w, fabsl(v)); } return w; };
  for (int it = 0; it < 200; it++) dfm2::PBD_TriStrain(x.data(), n, tri, xy);
  LD w = worst();
  MC_CHECK(c, w < 1e-3L, "after 200 sweeps a strain of %.3Lg is left: %s -> %s", w, mc::str(x0).c_str(), mc::str(x).c_str());
  c.outcome_of(x);
}
struct BM { std::vector<std::array<U, 3>> tri; std::vector<std::array<double, 2>> xy; };
static BM bendMesh(int k) {
  switch (k) {
    case 0: return {{{0, 1, 2}, {0, 2, 3}}, {{0, 0}, {1, 0}, {1, 1}, {0, 1}}};
    case 1: return {{{0, 2, 1}, {3, 1, 2}}, {{0, 0}, {0, 2}, {2, 0}, {3, 1}}};
    case 2: return {{{0, 1, 2}, {2, 1, 3}, {2, 3, 4}}, {{0, 0}, {2, 0}, {1, 1}, {3, 1}, {2, 3}}};
    case 3: return {{{0, 1, 4}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}}, {{-1, -1}, {2, -1}, {1, 1}, {-1, 2}, {0, 0}}};
    default: return {{{1, 2, 0}}, {{0, 0}, {1, 0}, {0, 1}}};
  }
}
static void bend(mc::Ch &c) {
  int k = c.choose(5);
  BM m = bendMesh(k);
  double ratio = c.pick({1., 0.5, 0.1});
  size_t n = m.xy.size();
  VD x(n * 3);
  int what = c.choose(3);
  if (what == 0) { int a = c.choose(3); for (size_t i = 0; i < n; i++) { x[i * 3] = m.xy[i][0] * (a == 1 ? 2 : 1); x[i * 3 + 1] = a == 2 ? m.xy[i][0] + 1 : m.xy[i][1]; x[i * 3 + 2] = a == 0 ? 0 : m.xy[i][1] * 2 - m.xy[i][0]; } }
  else for (size_t i = 0; i < n; i++) { x[i * 3] = m.xy[i][0]; x[i * 3 + 1] = what == 1 ? m.xy[i][1] : m.xy[(i * 2 + 1) % n][0]; x[i * 3 + 2] = c.pick({0., 1., -0.5}); }
  c.commit();
  c.describe("bending projection of mesh %d, ratio %g, at %s", k, ratio, mc::str(x).c_str());
  std::vector<dfm2::CDynTri> dt(m.tri.size());
  std::vector<dfm2::CVec2d> xy;
  for (auto &p: m.xy) xy.emplace_back(p[0], p[1]);
  std::vector<VL> K;        // one row of weights per interior edge: cotangent Laplacian, zero for any affine image of the rest shape
  for (size_t t = 0; t < dt.size(); t++) for (int e = 0; e < 3; e++) {
    dt[t].v[e] = m.tri[t][e];
    dt[t].s2[e] = UINT_MAX;
    U a = m.tri[t][(e + 1) % 3], b = m.tri[t][(e + 2) % 3];
    for (size_t s = 0; s < dt.size(); s++) for (int f = 0; f < 3; f++) if (m.tri[s][(f + 1) % 3] == b && m.tri[s][(f + 2) % 3] == a) {
      dt[t].s2[e] = (U) s;
      if (s > t) continue;
      // the affine dependency of the four points: unique up to scale
      U id[4] = {m.tri[t][e], m.tri[s][f], a, b};
      auto ar = [&](U i, U j, U l) { return ((LD) m.xy[j][0] - m.xy[i][0]) * ((LD) m.xy[l][1] - m.xy[i][1]) - ((LD) m.xy[l][0] - m.xy[i][0]) * ((LD) m.xy[j][1] - m.xy[i][1]); };
      VL w(n, 0);
      w[id[0]] = ar(id[1], id[2], id[3]);
      w[id[1]] = -ar(id[0], id[2], id[3]);
      w[id[2]] = ar(id[0], id[1], id[3]);
      w[id[3]] = -ar(id[0], id[1], id[2]);
      K.push_back(w);
    }
  }
  VD x0 = x;
  dfm2::PBD_Bend(x.data(), n, dt, xy, ratio);
  std::vector<int> pm(K.size());
  for (size_t i = 0; i < pm.size(); i++) pm[i] = (int) i;
  bool ok = false;
  do {
    VL r(x0.begin(), x0.end());
    for (int q: pm) {
      LD kk = 0;
      for (LD v: K[q]) kk += v * v;
      for (int d = 0; d < 3; d++) { LD s = 0; for (size_t i = 0; i < n; i++) s += K[q][i] * r[i * 3 + d]; for (size_t i = 0; i < n; i++) r[i * 3 + d] -= ratio * s / kk * K[q][i]; }
    }
    LD e = 0;
    for (size_t i = 0; i < r.size(); i++) e = std::max(e, fabsl(r[i] - x[i]));
    if (e < 1e-9L) ok = true;
  } while (!ok && std::next_permutation(pm.begin(), pm.end()));
  MC_CHECK(c, ok, "a bending sweep over %zu interior edges does not project each of them once with ratio %g: %s -> %s", K.size(), ratio, mc::str(x0).c_str(), mc::str(x).c_str());
  std::vector<U> all;
  for (U i = 0; i < n; i++) all.push_back(i);
  momenta(c, x0, x, all, "the bending projection", K.size() < 2);
  if (what == 0) for (size_t i = 0; i < x.size(); i++) MC_CHECK(c, fabs(x[i] - x0[i]) < 1e-12, "a flat sheet moves");
  c.outcome_of(x);
}
// best rotation by Horn's quaternion method; returns the relative gap of the two largest eigenvalues
static LD bestRot(const LD S[3][3], LD R[3][3]) {  // S[i][j] = sum q_i p_j ; maximise sum p.(Rq)
  LD N[4][4] = {{S[0][0] + S[1][1] + S[2][2], S[1][2] - S[2][1], S[2][0] - S[0][2], S[0][1] - S[1][0]}, {0, S[0][0] - S[1][1] - S[2][2], S[0][1] + S[1][0], S[2][0] + S[0][2]}, {0, 0, -S[0][0] + S[1][1] - S[2][2], S[1][2] + S[2][1]}, {0, 0, 0, -S[0][0] - S[1][1] + S[2][2]}};
  for (int i = 0; i < 4; i++) for (int j = 0; j < i; j++) N[i][j] = N[j][i];
  LD V[4][4] = {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}};
  for (int sweep = 0; sweep < 60; sweep++) for (int p = 0; p < 4; p++) for (int q = p + 1; q < 4; q++) {
    if (fabsl(N[p][q]) < 1e-30L) continue;
    LD th = (N[q][q] - N[p][p]) / (2 * N[p][q]), t = (th >= 0 ? 1 : -1) / (fabsl(th) + sqrtl(th * th + 1)), co = 1 / sqrtl(t * t + 1), s = t * co;
    for (int k = 0; k < 4; k++) { LD a = N[k][p], b = N[k][q]; N[k][p] = co * a - s * b; N[k][q] = s * a + co * b; }
    for (int k = 0; k < 4; k++) { LD a = N[p][k], b = N[q][k]; N[p][k] = co * a - s * b; N[q][k] = s * a + co * b; }
    for (int k = 0; k < 4; k++) { LD a = V[k][p], b = V[k][q]; V[k][p] = co * a - s * b; V[k][q] = s * a + co * b; }
  }
  int m = 0;
  for (int i = 1; i < 4; i++) if (N[i][i] > N[m][m]) m = i;
  LD sec = -1e30L, sc = 1e-30L;
  for (int i = 0; i < 4; i++) { if (i != m) sec = std::max(sec, N[i][i]); sc = std::max(sc, fabsl(N[i][i])); }
  LD w = V[0][m], x = V[1][m], y = V[2][m], z = V[3][m];
  LD r[3][3] = {{w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)}, {2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)}, {2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z}};
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) R[i][j] = r[i][j];
  return (N[m][m] - sec) / sc;
}
static void rigid(mc::Ch &c, int dim) {
  int shape = c.choose(5), what = c.choose(3), cl = c.choose(4);
  double stf = c.pick({1., 0.5, 0.});
  const std::vector<std::array<double, 3>> SH[5] = {{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, {{0, 0, 0}, {2, 0, 1}, {0, 1, 0}, {1, 3, 2}, {-1, 1, 1}}, {{1, 0, 0}, {3, 0, 0}, {0, 1, 0}, {1, 2, 0}}, {{0, 0, 0}, {1, 2, 0}, {2, 1, 1}}, {{.1, 0, 0}, {0, .2, 0}, {0, 0, .3}, {.1, .1, .1}}};
  auto &q = SH[shape];
  int n = (int) q.size();
  double sc = shape == 4 ? 0.1 : 1;
  VD x0(n * dim), x(n * dim);
  for (int i = 0; i < n; i++) for (int d = 0; d < dim; d++) x0[i * dim + d] = q[i][d] + (dim == 2 && d == 1 ? q[i][2] * 0.5 : 0);
  std::vector<int> ind, lst;
  if (cl == 0) { ind = {0, n}; for (int i = 0; i < n; i++) lst.push_back(i); }
  else if (cl == 1) { ind = {0, n - 1}; for (int i = n - 1; i > 0; i--) lst.push_back(i); }
  else if (cl == 2) { ind = {0, 3, 6}; lst = {0, 1, 2, 2, n - 1, 0}; }
  else { ind = {0, n, 2 * n}; for (int k = 0; k < 2; k++) for (int i = 0; i < n; i++) lst.push_back(i); }
  const double RT[4][9] = {{1, 0, 0, 0, 1, 0, 0, 0, 1}, {0, -1, 0, 1, 0, 0, 0, 0, 1}, {.6, -.8, 0, .8, .6, 0, 0, 0, 1}, {-1, 0, 0, 0, -1, 0, 0, 0, 1}};
  const double RT3[3][9] = {{0, 0, 1, 1, 0, 0, 0, 1, 0}, {1, 0, 0, 0, .6, -.8, 0, .8, .6}, {-1, 0, 0, 0, 1, 0, 0, 0, -1}};
  if (what < 2) {
    int ir = c.choose(dim == 3 ? 7 : 4);
    const double *R = ir < 4 ? RT[ir] : RT3[ir - 4];
    double t = c.pick({0., 2.});
    for (int i = 0; i < n; i++) for (int d = 0; d < dim; d++) { x[i * dim + d] = t * (d + 1); for (int e = 0; e < dim; e++) x[i * dim + d] += R[d * 3 + e] * x0[i * dim + e]; }
    if (what == 1) { int i = c.choose(n), d = c.choose(dim); x[i * dim + d] += c.pick({0.3, -1., 2.}) * sc; }
  } else {
    int pa = c.choose(3);
    for (int i = 0; i < n; i++) for (int d = 0; d < dim; d++) x[i * dim + d] = pa == 0 ? x0[i * dim + d] * (d == 1 ? 2 : 0.5) : pa == 1 ? x0[((i + 1) % n) * dim + d] : x0[i * dim + d] * (d == 0 ? -1 : 1);
  }
  // reference, cluster after cluster
  VL r(x.begin(), x.end());
  bool clear = true;
  for (size_t k = 0; k + 1 < ind.size(); k++) {
    LD pc[3] = {0, 0, 0}, qc[3] = {0, 0, 0}, S[3][3] = {}, R[3][3] = {};
    int m = ind[k + 1] - ind[k];
    for (int a = ind[k]; a < ind[k + 1]; a++) for (int d = 0; d < dim; d++) { pc[d] += r[lst[a] * dim + d] / m; qc[d] += (LD) x0[lst[a] * dim + d] / m; }
    for (int a = ind[k]; a < ind[k + 1]; a++) for (int i = 0; i < dim; i++) for (int j = 0; j < dim; j++) S[i][j] += (x0[lst[a] * dim + i] - qc[i]) * (r[lst[a] * dim + j] - pc[j]);
    if (dim == 3) { if (bestRot(S, R) < 1e-3L) clear = false; }
    else {
      LD co = S[0][0] + S[1][1], si = S[0][1] - S[1][0], l = sqrtl(co * co + si * si), sa = fabsl(S[0][0]) + fabsl(S[1][1]) + fabsl(S[0][1]) + fabsl(S[1][0]);
      // a mirrored cluster has no closest proper rotation by the polar decomposition used in the plane: not judged
      if (!(S[0][0] * S[1][1] - S[0][1] * S[1][0] > 1e-3L * sa * sa) || !(l > 1e-3L * sa)) clear = false;
      else { R[0][0] = R[1][1] = co / l; R[1][0] = si / l; R[0][1] = -si / l; }
    }
    if (!clear) break;
    for (int a = ind[k]; a < ind[k + 1]; a++) for (int d = 0; d < dim; d++) {
      LD g = pc[d];
      for (int e = 0; e < dim; e++) g += R[d][e] * (x0[lst[a] * dim + e] - qc[e]);
      r[lst[a] * dim + d] = stf * g + (1 - stf) * r[lst[a] * dim + d];
    }
  }
  if (!clear) c.skip();
  c.commit();
  c.describe("shape matching in %dD, shape %d at %s, clusters %s %s, stiffness %g", dim, shape, mc::str(x).c_str(), mc::str(ind).c_str(), mc::str(lst).c_str(), stf);
  VD y = x;
  if (dim == 3) dfm2::PBD_ConstProj_Rigid3D(y.data(), stf, ind.data(), (int) ind.size(), lst.data(), (int) lst.size(), x0.data(), n);
  else { std::vector<U> ui(ind.begin(), ind.end()), ul(lst.begin(), lst.end()); dfm2::PBD_ConstProj_Rigid2D(y.data(), stf, ui.data(), ui.size(), ul.data(), ul.size(), x0.data(), (size_t) n); }
  for (int i = 0; i < n * dim; i++) MC_CHECK(c, fabs(y[i] - (double) r[i]) < 1e-6 * (1 + fabs(y[i])), "shape matching with stiffness %g moves %s to %s; coordinate %d should be %.9Lg", stf, mc::str(x).c_str(), mc::str(y).c_str(), i, r[i]);
  if (what == 0) for (int i = 0; i < n * dim; i++) MC_CHECK(c, fabs(y[i] - x[i]) < 1e-6, "an undeformed cluster moves");
  c.outcome_of(y);
}
static void rigid3(mc::Ch &c) { rigid(c, 3); }
static void rigid2(mc::Ch &c) { rigid(c, 2); }
static void seam(mc::Ch &c) {
  int n = 2 + c.choose(3), nl = c.choose(3);
  if (n == 4 && nl == 0) c.skip();
  VD x(n * 3, 0);
  double sc = nl == 2 && n == 4 ? c.pick({1., 0.008}) : c.pick({1., 0.02, 0.012, 0.008, 0.001});
  for (int i = 1; i < n; i++) for (int d = 0; d < 3; d++) x[i * 3 + d] = sc * (i < 2 || d == 0 ? c.pick({0., 1., -0.6}) : 0.4 * d) + (d == 0 ? 0.001 * i : 0);
  std::vector<U> line;
  for (int l = 0; l < nl; l++) { U a = (U) c.choose(n), b = (U) c.choose(n); if (a == b) c.skip(); line.push_back(a); line.push_back(b); }
  c.commit();
  c.describe("seams %s of %s", mc::str(line).c_str(), mc::str(x).c_str());
  VD y = x;
  dfm2::PBD_Seam(y.data(), (size_t) n, line.data(), (size_t) nl);
  VL r(x.begin(), x.end());
  for (int l = 0; l < nl; l++) {
    U a = line[l * 2], b = line[l * 2 + 1];
    LD d = 0;
    for (int k = 0; k < 3; k++) d += (r[a * 3 + k] - r[b * 3 + k]) * (r[a * 3 + k] - r[b * 3 + k]);
    d = sqrtl(d);
    if (fabsl(d - 0.01L) < 1e-9L) return;        // at the length of one pull: rounding decides (both give nearly the same)
    LD f = d > 0.01L ? 0.005L / d : 0.5L;       // each end is pulled by 0.005, or both meet
    for (int k = 0; k < 3; k++) { LD e = r[b * 3 + k] - r[a * 3 + k]; r[a * 3 + k] += f * e; r[b * 3 + k] -= f * e; }
  }
  for (int i = 0; i < n * 3; i++) MC_CHECK(c, fabsl(y[i] - r[i]) < 1e-12L, "seams %s move %s to %s; coordinate %d should be %.9Lg", mc::str(line).c_str(), mc::str(x).c_str(), mc::str(y).c_str(), i, r[i]);
  c.outcome_of(y);
}
static void damper(mc::Ch &c) {         // all sequences of speeds
  int n = 3 + c.choose(c.thorough ? 7 : 5), np = 1 + c.choose(2);
  std::vector<int> s(n);
  for (auto &v: s) v = c.choose(4);
  c.commit();
  c.describe("kinetic damping over speeds %s", mc::str(s).c_str());
  dfm2::CKineticDamper D;
  std::vector<double> E;
  for (int i = 0; i < n; i++) {
    VD v(np * 3, 0);
    v[i % (np * 3)] = s[i];
    if (np == 2) v[(i + 2) % 6] += i % 2 ? 1 : 0;
    VD v0 = v;
    double e = 0;
    for (double a: v) e += a * a;
    MC_CHECK(c, mc::near(dfm2::EnergyKinetic(v.data(), (size_t) np), e, 1e-14, 1e-14), "kinetic energy of %s is %g", mc::str(v).c_str(), dfm2::EnergyKinetic(v.data(), (size_t) np));
    E.push_back(e);
    D.Damp(v);
    bool peak = i >= 2 && E[i - 1] > E[i - 2] && E[i] < E[i - 1];
    bool zero = std::all_of(v.begin(), v.end(), [](double a) { return a == 0; });
    MC_CHECK(c, v.size() == v0.size() && (v == v0 || (zero && peak)), "energies %s: the damper changes the velocities to %s", mc::str(E).c_str(), mc::str(v).c_str());
    if (peak && i >= 3) MC_CHECK(c, zero, "energies %s passed a maximum and the damper leaves the velocities", mc::str(E).c_str());   // the very first window is not judged
  }
  c.outcome_of(E);
}
// ---------------------------------------------------------------- planar rigid bodies
struct V2 { LD x, y; };
static V2 operator+(V2 a, V2 b) { return {a.x + b.x, a.y + b.y}; }
static V2 operator-(V2 a, V2 b) { return {a.x - b.x, a.y - b.y}; }
static V2 operator*(LD s, V2 a) { return {s * a.x, s * a.y}; }
static LD dot(V2 a, V2 b) { return a.x * b.x + a.y * b.y; }
static LD crs(V2 a, V2 b) { return a.x * b.y - a.y * b.x; }
static V2 rot(V2 a, LD t) { return {cosl(t) * a.x - sinl(t) * a.y, sinl(t) * a.x + cosl(t) * a.y}; }
static LD len(V2 a) { return sqrtl(dot(a, a)); }
struct Body { bool fix; std::vector<V2> shape, sv; V2 posl; LD m, I; V2 pos; LD th; V2 v; LD w; V2 pt; LD tt; };
static const std::vector<std::vector<V2>> SHP = {{{-1, -1}, {1, -1}, {1, 1}, {-1, 1}}, {{-0.5L, -1}, {1, -0.5L}, {-0.5L, 1}}, {{0, 0}, {4, 0}, {4, 1}, {0, 1}}};
static Body body(int k, bool fix, V2 posl, LD m, LD I) { Body b; b.fix = fix; b.shape = SHP[k]; for (auto &p: b.shape) p = p + posl; b.sv.assign(b.shape.size(), {0, 0}); b.posl = posl; b.m = m; b.I = I; b.pos = {0, 0}; b.th = 0; b.v = {0, 0}; b.w = 0; return b; }
static dfm2::CRigidState2 conv(const Body &b) {
  dfm2::CRigidState2 r;
  r.is_fix = b.fix;
  for (auto &p: b.shape) r.shape.emplace_back((double) p.x, (double) p.y);
  for (auto &p: b.sv) r.shape_velo.emplace_back((double) p.x, (double) p.y);
  auto v = [](V2 p) { return dfm2::CVec2d((double) p.x, (double) p.y); };
  r.posl = v(b.posl); r.mass = (double) b.m; r.I = (double) b.I; r.posg = v(b.pos); r.theta = (double) b.th; r.velo = v(b.v); r.omega = (double) b.w;
  r.posg_tmp = dfm2::CVec2d(77, 77);
  r.theta_tmp = 77;
  return r;
}
struct Mom { LD p[2], L; };
static Mom mom(const std::vector<dfm2::CRigidState2> &a) {
  Mom m{{0, 0}, 0};
  for (auto &r: a) if (!r.is_fix) { m.p[0] += r.mass * r.velo.x; m.p[1] += r.mass * r.velo.y; m.L += r.mass * ((LD) r.posg.x * r.velo.y - (LD) r.posg.y * r.velo.x) + r.I * r.omega; }
  return m;
}
// Reference step. Returns the number of contacts, or -1 when rounding decides something.
static int refStep(std::vector<Body> &B, LD dt, V2 g) {
  for (auto &b: B) {
    if (b.fix) { b.pt = b.pos; b.tt = b.th; continue; }
    b.v = b.v + dt * g;
    b.pt = b.pos + dt * b.v;
    b.tt = b.th + dt * b.w;
  }
  struct Con { size_t A, B; size_t ip; V2 PB, VB, nl; LD lam; };
  std::vector<Con> cs;
  for (size_t i = 0; i < B.size(); i++) for (size_t ip = 0; ip < B[i].shape.size(); ip++) for (size_t j = 0; j < B.size(); j++) if (j != i) {
    Body &a = B[i], &b = B[j];
    V2 pA = rot(a.shape[ip] - a.posl, a.tt) + a.pt;
    V2 q = rot(pA - b.pt, -b.tt) + b.posl;
    size_t m = b.shape.size();
    LD wn = 0, best = 1e30L, second = 1e30L;
    size_t be = 0;
    V2 pe{0, 0};
    LD re = 0;
    for (size_t e = 0; e < m; e++) {
      V2 p0 = b.shape[e], p1 = b.shape[(e + 1) % m];
      LD t = dot(q - p0, p1 - p0) / dot(p1 - p0, p1 - p0);
      t = std::min<LD>(1, std::max<LD>(0, t));
      V2 n = p0 + t * (p1 - p0);
      LD d = len(q - n);
      if (d < 1e-7L && b.fix != a.fix) {}
      wn += atan2l(crs(p0 - q, p1 - q), dot(p0 - q, p1 - q));
      if (d < best) { second = best; best = d; be = e; pe = n; re = t; } else second = std::min(second, d);
    }
    if (best < 1e-4L) return -1;                       // on the boundary
    if (fabsl(wn - 2 * acosl(-1.L)) > 1e-3L) continue;
    if (second - best < 1e-7L) return -1;              // two edges equally near
    V2 nl = (1 / best) * (pe - q);
    V2 nB = rot(nl, b.tt);
    LD pen = best;
    V2 pB = rot(pe - b.posl, b.tt) + b.pt;
    LD den = 0;
    if (!a.fix) den += 1 / a.m + crs(pA - a.pos, nB) * crs(pA - a.pos, nB) / a.I;
    if (!b.fix) den += 1 / b.m + crs(pB - b.pos, nB) * crs(pB - b.pos, nB) / b.I;
    if (den == 0) return -1;
    LD lam = pen / den;
    if (!a.fix) { a.pt = a.pt + (lam / a.m) * nB; a.tt += crs(pA - a.pos, nB) * lam / a.I; }
    if (!b.fix) { b.pt = b.pt - (lam / b.m) * nB; b.tt -= crs(pB - b.pos, nB) * lam / b.I; }
    cs.push_back({i, j, ip, pe, (1 - re) * b.sv[be] + re * b.sv[(be + 1) % m], nl, lam});
  }
  for (auto &b: B) {
    if (b.fix) { b.v = {0, 0}; b.w = 0; continue; }
    b.v = (1 / dt) * (b.pt - b.pos);
    b.w = (b.tt - b.th) / dt;
    b.pos = b.pt;
    b.th = b.tt;
  }
  if (cs.size() > 1) return (int) cs.size();
  for (auto &k: cs) {
    Body &a = B[k.A], &b = B[k.B];
    V2 rA = rot(a.shape[k.ip] - a.posl, a.th), rB = rot(k.PB - b.posl, b.th);
    V2 vA = a.v + a.w * V2{-rA.y, rA.x} + rot(a.sv[k.ip], a.th), vB = b.v + b.w * V2{-rB.y, rB.x} + rot(k.VB, b.th);
    V2 n = rot(k.nl, b.th), t{n.y, -n.x};
    LD slip = dot(vA - vB, t), den = 0;
    if (!a.fix) den += 1 / a.m + crs(rA, t) * crs(rA, t) / a.I;
    if (!b.fix) den += 1 / b.m + crs(rB, t) * crs(rB, t) / b.I;
    LD J = slip / den, Jm = k.lam / dt;                // Coulomb friction with coefficient one
    if (fabsl(J) > Jm) J = J < 0 ? -Jm : Jm;
    if (!a.fix) { a.v = a.v - (J / a.m) * t; a.w -= J * crs(rA, t) / a.I; }
    if (!b.fix) { b.v = b.v + (J / b.m) * t; b.w += J * crs(rB, t) / b.I; }
  }
  return (int) cs.size();
}
static void same(mc::Ch &c, const std::vector<Body> &B, const std::vector<dfm2::CRigidState2> &a, int nc, LD tol = 1e-9L) {
  for (size_t i = 0; i < B.size(); i++) {
    LD e = std::max({fabsl(B[i].pos.x - a[i].posg.x), fabsl(B[i].pos.y - a[i].posg.y), fabsl(B[i].th - a[i].theta)});
    LD f = std::max({fabsl(B[i].v.x - a[i].velo.x), fabsl(B[i].v.y - a[i].velo.y), fabsl(B[i].w - a[i].omega)});
    MC_CHECK(c, e < tol && f < tol * 100, "body %zu after a step with %d contacts: at (%.9g %.9g) angle %.9g velocity (%.9g %.9g) %.9g, expected (%.9Lg %.9Lg) %.9Lg (%.9Lg %.9Lg) %.9Lg", i, nc, a[i].posg.x, a[i].posg.y, a[i].theta, a[i].velo.x, a[i].velo.y, a[i].omega, B[i].pos.x, B[i].pos.y, B[i].th, B[i].v.x, B[i].v.y, B[i].w);
  }
}
static void rgdFree(mc::Ch &c) {
  int n = 1 + c.choose(2);
  double dt = c.pick({0.1, 1., 0.005});
  V2 g = c.pick({V2{0, 0}, V2{0, -10}, V2{1, 2}});
  std::vector<Body> B;
  for (int i = 0; i < n; i++) {
    Body b = body(c.choose(2), c.flip(), c.pick({V2{0, 0}, V2{3, -1}}), i ? 3 : 0.5L, i ? 0.25L : 2);
    b.pos = {100.L * i, i ? 0 : 2.L};
    b.th = c.pick({0.L, 0.7L, -4.L});
    b.v = c.pick({V2{0, 0}, V2{1, -2}});
    b.w = c.pick({0.L, 3.L});
    B.push_back(b);
  }
  c.commit();
  std::vector<dfm2::CRigidState2> a;
  for (auto &b: B) a.push_back(conv(b));
  for (int s = 0; s < 3; s++) {
    auto B0 = B;
    int nc = refStep(B, dt, g);
    dfm2::Steptime_Rgd2(a, dt, dfm2::CVec2d((double) g.x, (double) g.y));
    c.step();
    if (nc != 0) return;
    same(c, B, a, 0);
    for (size_t i = 0; i < B.size(); i++) if (B0[i].fix) MC_CHECK(c, a[i].posg.x == (double) B0[i].pos.x && a[i].posg.y == (double) B0[i].pos.y && a[i].theta == (double) B0[i].th && a[i].velo.x == 0 && a[i].omega == 0, "a fixed body moves");
  }
  c.outcome_of(a[0].posg.x, a[0].posg.y, a[0].theta, a[0].velo.x);
}
static void rgdContact(mc::Ch &c) {
  int sa = c.choose(3), sb = c.choose(3);
  bool fa = c.flip(), fb = c.flip();
  if (fa && fb) c.skip();
  std::vector<Body> B{body(sa, fa, c.pick({V2{0, 0}, V2{2, 1}}), c.pick({1.L, 4.L}), 0.5L), body(sb, fb, {0, 0}, 2, c.pick({1.L, 10.L}))};
  B[0].pos = {c.pick({0.3L, 1.7L, -0.8L}), c.pick({1.4L, 1.9L, -0.9L})};
  B[0].th = c.thorough ? c.pick({0.3L, 0.75L, 2.2L, -1.1L}) : c.pick({0.3L, 2.2L});
  B[1].th = c.pick({0.L, 0.4L});
  B[0].v = c.pick({V2{1, -2}, V2{-3, 0.5L}});
  B[0].w = c.pick({0.L, 1.5L});
  bool still = c.flip();
  B[1].v = still ? V2{0, 0} : V2{0.5L, 1};
  B[1].w = still ? 0.L : -1.L;
  if (c.flip()) for (auto &b: B) for (size_t i = 0; i < b.sv.size(); i++) b.sv[i] = {0.2L * (LD) i, 0.3L - 0.1L * (LD) i};
  bool swap = c.flip();
  V2 g = fa ? V2{0, -10} : V2{0, 0};
  LD dt = c.pick({0.1L, 0.01L});
  c.commit();
  c.describe("bodies %d %d fixed %d %d at (%Lg %Lg) %Lg", sa, sb, fa, fb, B[0].pos.x, B[0].pos.y, B[0].th);
  if (swap) std::swap(B[0], B[1]);
  std::vector<dfm2::CRigidState2> a;
  for (auto &b: B) a.push_back(conv(b));
  int cnt = 0;
  for (int s = 0; s < 3; s++) {
    auto B0 = B;
    auto a0 = a;
    for (auto &r: a0) if (!r.is_fix) { r.velo.x += (double) (g.x * dt); r.velo.y += (double) (g.y * dt); }
    Mom m0 = mom(a0);
    int nc = refStep(B, dt, g);
    dfm2::Steptime_Rgd2(a, (double) dt, dfm2::CVec2d((double) g.x, (double) g.y));
    c.step();
    for (size_t i = 0; i < B.size(); i++) {
      MC_CHECK(c, std::isfinite(a[i].posg.x + a[i].posg.y + a[i].theta + a[i].velo.x + a[i].velo.y + a[i].omega), "non-finite state");
      if (B0[i].fix) MC_CHECK(c, a[i].posg.x == (double) B0[i].pos.x && a[i].posg.y == (double) B0[i].pos.y && a[i].theta == (double) B0[i].th && a[i].velo.x == 0 && a[i].velo.y == 0 && a[i].omega == 0, "a fixed body moves");
      for (size_t k = 0; k < a[i].shape.size(); k++) MC_CHECK(c, a[i].shape[k].x == (double) B0[i].shape[k].x && a[i].shape[k].y == (double) B0[i].shape[k].y, "the step changes a shape");
    }
    if (!fa && !fb) {
      Mom m1 = mom(a);
      for (int k = 0; k < 2; k++) MC_CHECK(c, fabsl(m1.p[k] - m0.p[k]) < 1e-9L * (1 + fabsl(m0.p[k]) + 50), "linear momentum changes from (%Lg %Lg) to (%Lg %Lg) in a step with %d contacts", m0.p[0], m0.p[1], m1.p[0], m1.p[1], nc);
    }
    if (nc < 0 || nc > 1) break;
    same(c, B, a, nc);
    cnt += nc;
  }
  c.outcome_of(cnt, a[0].posg.x, a[0].posg.y, a[0].theta, a[1].posg.x);
}
static void rgdTouch(mc::Ch &c) {     // a corner exactly on, or a hair inside, an edge of the other body: nothing is thrown through
  int edge = c.choose(4), fb = c.choose(2);
  LD eps = c.pick({0.L, 1e-16L, 1e-9L, 1e-6L, 1e-5L, 1e-4L, 1e-2L});
  LD along = c.pick({0.L, 0.5L, -0.5L, 0.25L});
  V2 v = c.pick({V2{0, 0}, V2{0.5L, 0}, V2{0, -0.125L}});
  c.commit();
  // body 1: a square of half width 2; body 0: a triangle whose tip points at the edge (edge 0 is the lower one)
  Body sq = body(0, fb, {0, 0}, 4, 8);
  for (auto &p: sq.shape) p = 2 * p;
  Body tr = body(1, false, {0, 0}, 1, 1);
  tr.shape = {{0, 0}, {1, 2}, {-1, 2}};
  const V2 N[4] = {{0, -1}, {1, 0}, {0, 1}, {-1, 0}};
  V2 n = N[edge], t{-n.y, n.x};
  for (auto &p: tr.shape) p = p.y * n + p.x * V2{n.y, -n.x};
  tr.pos = (2 - eps) * n + along * t;
  tr.v = v.y * n + v.x * t;
  std::vector<dfm2::CRigidState2> a{conv(tr), conv(sq)};
  auto a0 = a;
  const double dt = 0.125;
  Mom m0 = mom(a);
  dfm2::Steptime_Rgd2(a, dt, dfm2::CVec2d(0, 0));
  Mom m1 = mom(a);
  c.describe("a tip %Lg inside edge %d, velocity (%Lg %Lg)", eps, edge, v.x, v.y);
  LD depth = eps - v.y * dt;        // after the free motion
  LD push = dot(V2{(LD) a[0].posg.x - a0[0].posg.x, (LD) a[0].posg.y - a0[0].posg.y} - (LD) dt * tr.v, n);   // of the triangle along the outward normal
  LD want = fb ? depth : 0;
  if (!fb) { LD ts = along, den = 1 + 1 / 4.L + ts * ts / 8; want = depth / den; }
  MC_CHECK(c, fabsl(push - want) < 1e-4L, "a tip %.3Lg inside edge %d is pushed out by %.6Lg instead of %.6Lg; body at (%g %g)", depth, edge, push, want, a[0].posg.x, a[0].posg.y);
  if (!fb) for (int k = 0; k < 2; k++) MC_CHECK(c, fabsl(m1.p[k] - m0.p[k]) < 1e-9L, "linear momentum changes");
  c.outcome_of(a[0].posg.x, a[0].posg.y);
}
static void rgdMany(mc::Ch &c) {      // three bodies, several contacts: conservation and containment of fixed bodies over several steps
  V2 g = c.pick({V2{0, 0}, V2{0, -5}});
  int fixed = c.choose(3);
  std::vector<Body> B;
  for (int i = 0; i < 3; i++) {
    Body b = body(c.choose(2), (fixed >> i) & 1 && fixed != 0, {0, 0}, 1 + i, 0.5L + i);
    b.pos = {0.3L * i, 1.7L * i};
    b.th = c.pick({0.1L, 0.9L});
    b.v = c.pick({V2{0, 0}, V2{0, -3}, V2{2, 1}});
    b.w = c.pick({0.L, 2.L});
    B.push_back(b);
  }
  double dt = c.pick({0.1, 0.02});
  c.commit();
  std::vector<dfm2::CRigidState2> a;
  for (auto &b: B) a.push_back(conv(b));
  for (int s = 0; s < 5; s++) {
    auto a0 = a;
    for (auto &r: a0) if (!r.is_fix) { r.velo.x += (double) g.x * dt; r.velo.y += (double) g.y * dt; }
    Mom m0 = mom(a0);
    dfm2::Steptime_Rgd2(a, dt, dfm2::CVec2d((double) g.x, (double) g.y));
    c.step();
    Mom m1 = mom(a);
    if (fixed == 0) for (int k = 0; k < 2; k++) MC_CHECK(c, fabsl(m1.p[k] - m0.p[k]) < 1e-8L * (1 + fabsl(m0.p[k])) * 100, "linear momentum of three bodies changes from (%Lg %Lg) to (%Lg %Lg) in step %d", m0.p[0], m0.p[1], m1.p[0], m1.p[1], s);
    for (size_t i = 0; i < 3; i++) if (B[i].fix) MC_CHECK(c, a[i].posg.x == (double) B[i].pos.x && a[i].posg.y == (double) B[i].pos.y && a[i].theta == (double) B[i].th && a[i].velo.x == 0 && a[i].velo.y == 0 && a[i].omega == 0, "a fixed body moves");
    // free bodies: the velocity is the one that was moved with, up to friction of the contacts
    for (size_t i = 0; i < 3; i++) MC_CHECK(c, std::isfinite(a[i].posg.x + a[i].theta + a[i].velo.x + a[i].omega), "non-finite state");
  }
  c.outcome_of(a[0].posg.x, a[1].posg.y, a[2].theta);
}
int main(int argc, char **argv) {
  return mc::run(argc, argv, {"C29", "exploration", {"unit masses in the strain and bending projections", "counter-clockwise polygons"}}, {
    {"pbd-step", prepost, "prediction and velocity update for all flags and a value alphabet"},
    {"pbd-project", update, "mass-weighted projection of one to four points"},
    {"pbd-strain", triStrain, "strain projection of one triangle: rest shapes, deformations, numberings"},
    {"pbd-strain-mesh", triMesh, "sweeps over meshes"},
    {"pbd-bend", bend, "bending sweeps over meshes"},
    {"pbd-rigid3", rigid3, "shape matching in space"},
    {"pbd-rigid2", rigid2, "shape matching in the plane"},
    {"pbd-seam", seam, "seams"},
    {"damper", damper, "all sequences of speeds"},
    {"rigid-free", rgdFree, "free motion"},
    {"rigid-contact", rgdContact, "two bodies with at most one contact against a reference step"},
    {"rigid-touch", rgdTouch, "a corner on or just inside an edge"},
    {"rigid-many", rgdMany, "three bodies over several steps"},
  });
}
