// C21: elastic, constraint and distance energies: every energy of the alphabet against its own
// definition, its gradient and hessian against high-order differences, rigid motions and rest shapes.
#include "mc.h"
#include <algorithm>
#include <complex>
#include <iostream>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/vec3_funcs.h"
#include "delfem2/mat3.h"
#include "delfem2/mat3_funcs.h"
#include "delfem2/mat4.h"
#include "delfem2/quat.h"
#include "delfem2/geo_tri.h"
#include "delfem2/geo_tet.h"
#include "delfem2/svd3.h"
#include "delfem2/ls_block_sparse.h"
#include "delfem2/ls_pentadiagonal.h"
#include "delfem2/fem_discreteshell.h"
#include "delfem2/fem_distance3.h"
#include "delfem2/fem_invertiblefem.h"
#include "delfem2/fem_mips.h"
#include "delfem2/fem_quadratic_bending.h"
#include "delfem2/fem_rod2.h"
#include "delfem2/fem_rod3_darboux.h"
#include "delfem2/fem_rod3_straight.h"
#include "delfem2/fem_solidhyper.h"
#include "delfem2/fem_stvk.h"
#include "delfem2/femcloth.h"
#include "delfem2/cloth_internal.h"
#include "delfem2/defarapenergy_geo3.h"
#include "delfem2/hair_darboux_util.h"
#include "delfem2/hair_darboux_solver.h"
#include "delfem2/polyline_elastic_rod2.h"
#include "delfem2/rig_geo3.h"
#include "delfem2/rigopt.h"
namespace dfm2 = delfem2;
using U = unsigned int;
using VD = std::vector<double>;
using V3 = dfm2::CVec3d;
using M3 = dfm2::CMat3d;

static double maxabs(const VD &v) { double m = 0; for (double x: v) m = std::max(m, std::fabs(x)); return m; }
static double dot3(const double *a, const double *b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static void sub3(double *r, const double *a, const double *b) { for (int k = 0; k < 3; ++k) r[k] = a[k] - b[k]; }
static void cross3(double *r, const double *a, const double *b) {
  double x = a[1] * b[2] - a[2] * b[1], y = a[2] * b[0] - a[0] * b[2], z = a[0] * b[1] - a[1] * b[0];
  r[0] = x; r[1] = y; r[2] = z;
}
static double dist3(const double *a, const double *b) { double d[3]; sub3(d, a, b); return std::sqrt(dot3(d, d)); }
static double area3(const double *a, const double *b, const double *d) { double u[3], v[3], n[3]; sub3(u, b, a); sub3(v, d, a); cross3(n, u, v); return .5 * std::sqrt(dot3(n, n)); }

// fourth-order central difference of a vector valued function
static VD deriv(const std::function<VD(const VD &)> &f, const VD &x, size_t i, double h = 1e-3) {
  VD y = x;
  auto at = [&](double t) { y[i] = x[i] + t; return f(y); };
  VD a = at(2 * h), b = at(h), c = at(-h), d = at(-2 * h);
  for (size_t k = 0; k < a.size(); ++k) a[k] = (-a[k] + 8 * b[k] - 8 * c[k] + d[k]) / (12 * h);
  return a;
}
// J[i*m+k] = d f_k / d x_i
static VD jac(const std::function<VD(const VD &)> &f, const VD &x, double h = 1e-3) {
  VD J;
  for (size_t i = 0; i < x.size(); ++i) { VD d = deriv(f, x, i, h); J.insert(J.end(), d.begin(), d.end()); }
  return J;
}
static void cmp(mc::Ch &c, const char *nm, const VD &got, const VD &ex, double rel = 2e-7, double abs = 1e-9) {
  MC_CHECK(c, got.size() == ex.size(), "%s: %zu values, expected %zu", nm, got.size(), ex.size());
  double sc = std::max(maxabs(ex), 0.0);
  for (size_t i = 0; i < got.size(); ++i) MC_CHECK(c, std::fabs(got[i] - ex[i]) <= rel * sc + abs, "%s: entry %zu is %.12g, expected %.12g (got %s, expected %s)", nm, i, got[i], ex[i], mc::str(got).c_str(), mc::str(ex).c_str());
  c.tick();
}
static void cmp1(mc::Ch &c, const char *nm, double got, double ex, double rel = 1e-9, double abs = 1e-11) {
  MC_CHECK(c, std::fabs(got - ex) <= rel * std::max(std::fabs(got), std::fabs(ex)) + abs, "%s: %.14g, expected %.14g", nm, got, ex);
  c.tick();
}
static void sym(mc::Ch &c, const char *nm, const VD &H, size_t n) {
  double sc = maxabs(H);
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) MC_CHECK(c, std::fabs(H[i * n + j] - H[j * n + i]) <= 1e-9 * sc + 1e-12, "%s: hessian not symmetric at %zu,%zu: %.12g %.12g", nm, i, j, H[i * n + j], H[j * n + i]);
}
// smallest eigenvalue of a symmetric matrix (Jacobi)
static double min_eig(VD A, int n) {
  for (int sweep = 0; sweep < 60; ++sweep) {
    double off = 0, dia = 0;
    for (int i = 0; i < n; ++i) { dia += A[i * n + i] * A[i * n + i]; for (int j = 0; j < i; ++j) off += A[i * n + j] * A[i * n + j]; }
    if (off <= 1e-26 * (dia + 1e-300)) break;
    for (int p = 0; p < n; ++p) for (int q = p + 1; q < n; ++q) {
      double apq = A[p * n + q]; if (apq == 0) continue;
      double th = (A[q * n + q] - A[p * n + p]) / (2 * apq), t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)), cs = 1 / std::sqrt(t * t + 1), s = t * cs;
      for (int k = 0; k < n; ++k) { double a = A[k * n + p], b = A[k * n + q]; A[k * n + p] = cs * a - s * b; A[k * n + q] = s * a + cs * b; }
      for (int k = 0; k < n; ++k) { double a = A[p * n + k], b = A[q * n + k]; A[p * n + k] = cs * a - s * b; A[q * n + k] = s * a + cs * b; }
    }
  }
  double m = 1e300; for (int i = 0; i < n; ++i) m = std::min(m, A[i * n + i]);
  return m;
}
// deforming maps applied to grid points: generic, so that derivatives are taken at generic positions
static void map3(int m, const double p[3], double r[3]) {
  static const double A[4][12] = {
    {1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0},
    {1.1, .2, -.1, -.15, .9, .3, .25, -.2, 1.2, .3, -.2, .1},
    {.6, .1, .2, .3, .7, -.2, -.1, .15, .8, 0, .5, 0},
    {1.6, -.4, .3, .2, 1.4, .5, -.3, .1, 1.7, -1, 0, 2}};
  for (int i = 0; i < 3; ++i) r[i] = A[m][i * 3] * p[0] + A[m][i * 3 + 1] * p[1] + A[m][i * 3 + 2] * p[2] + A[m][9 + i];
}
// exact rotations (24 of the cube, then a 3-4-5 one) and a shift
static const std::vector<std::array<double, 9>> &rots() {
  static std::vector<std::array<double, 9>> R;
  if (!R.empty()) return R;
  int pm[3] = {0, 1, 2};
  do for (int s = 0; s < 8; ++s) {
    std::array<double, 9> r{};
    for (int i = 0; i < 3; ++i) r[i * 3 + pm[i]] = (s >> i & 1) ? -1 : 1;
    double det = r[0] * (r[4] * r[8] - r[5] * r[7]) - r[1] * (r[3] * r[8] - r[5] * r[6]) + r[2] * (r[3] * r[7] - r[4] * r[6]);
    if (det > 0) R.push_back(r);
  } while (std::next_permutation(pm, pm + 3));
  R.push_back({.6, -.8, 0, .8, .6, 0, 0, 0, 1});
  R.push_back({.48, -.8, .36, .64, .6, .48, -.6, 0, .8});
  return R;
}
static VD moved(const VD &x, const std::array<double, 9> &R, const double *t) {
  VD y(x.size());
  for (size_t i = 0; i < x.size() / 3; ++i) for (int k = 0; k < 3; ++k) y[i * 3 + k] = R[k * 3] * x[i * 3] + R[k * 3 + 1] * x[i * 3 + 1] + R[k * 3 + 2] * x[i * 3 + 2] + t[k];
  return y;
}

// an energy of 3-D points: returns W and fills the gradient; hessian optional (empty when not given)
using En = std::function<double(const VD &, VD &, VD &)>;
enum { EXACT = 1, RIGID = 2 };
static void energy(mc::Ch &c, const char *nm, const VD &x, const En &f, int flags, double rel = 2e-7) {
  VD g, H; double W = f(x, g, H);
  MC_CHECK(c, std::isfinite(W), "%s: energy is %g", nm, W);
  VD fd = jac([&](const VD &y) { VD g2, H2; return VD{f(y, g2, H2)}; }, x);
  cmp(c, (std::string(nm) + " gradient").c_str(), g, fd, rel, 1e-9 * (1 + std::fabs(W)));
  if (!H.empty()) {
    sym(c, nm, H, x.size());
    if (flags & EXACT) {
      VD hd = jac([&](const VD &y) { VD g2, H2; f(y, g2, H2); return g2; }, x);
      cmp(c, (std::string(nm) + " hessian").c_str(), H, hd, rel, 1e-9 * (1 + maxabs(g)));
    }
  }
  if (flags & RIGID) {
    const double t[3] = {.5, -2, 1};
    for (auto &R: rots()) {
      VD y = moved(x, R, t), g2, H2; double W2 = f(y, g2, H2);
      cmp1(c, (std::string(nm) + " after a rigid motion").c_str(), W2, W, 1e-9, 1e-10);
    }
  }
  c.outcome_of(int64_t(std::llround(std::min(1e9, std::fabs(W)) * 1e4)));
}

// ---------- shapes
// triangles of a 3x3 grid with positive area
static void pick_rest2(mc::Ch &c, double P[3][2]) {
  int n = 3, a = c.choose(n * n), b = c.choose(n * n), d = c.choose(n * n);
  int I[3] = {a, b, d};
  for (int i = 0; i < 3; ++i) { P[i][0] = I[i] % n; P[i][1] = I[i] / n; }
  if ((P[1][0] - P[0][0]) * (P[2][1] - P[0][1]) - (P[1][1] - P[0][1]) * (P[2][0] - P[0][0]) <= 0) c.skip();
}
static bool thin3(const double *a, const double *b, const double *d) { return area3(a, b, d) < 1e-3; }
// n points on the corners of a cube (all distinct when asked), mapped
static VD pick_cube(mc::Ch &c, int n, int map, bool distinct = true) {
  int id[8]; VD x(n * 3);
  for (int i = 0; i < n; ++i) {
    id[i] = c.choose(8);
    if (distinct) for (int j = 0; j < i; ++j) if (id[j] == id[i]) c.skip();
    double p[3] = {double(id[i] & 1), double(id[i] >> 1 & 1), double(id[i] >> 2)};
    map3(map, p, x.data() + i * 3);
  }
  return x;
}

// ---------- triangles in their plane
static double stvk_def(const double *P /*3x3*/, const double *p, double lam, double mu, double E[3] = nullptr) {
  // Green-Lagrange strain in an orthonormal frame of the rest triangle
  double u[3], v[3], e0[3], e1[3], n[3]; sub3(u, P + 3, P); sub3(v, P + 6, P);
  double lu = std::sqrt(dot3(u, u)); for (int k = 0; k < 3; ++k) e0[k] = u[k] / lu;
  cross3(n, u, v); double ln = std::sqrt(dot3(n, n)); for (double &z: n) z /= ln; cross3(e1, n, e0);
  double D[4] = {dot3(u, e0), dot3(v, e0), dot3(u, e1), dot3(v, e1)}, det = D[0] * D[3] - D[1] * D[2];
  double I[4] = {D[3] / det, -D[1] / det, -D[2] / det, D[0] / det};
  double a[3], b[3]; sub3(a, p + 3, p); sub3(b, p + 6, p);
  double F0[3], F1[3]; for (int k = 0; k < 3; ++k) { F0[k] = a[k] * I[0] + b[k] * I[2]; F1[k] = a[k] * I[1] + b[k] * I[3]; }
  double exx = .5 * (dot3(F0, F0) - 1), eyy = .5 * (dot3(F1, F1) - 1), exy = .5 * dot3(F0, F1);
  if (E) { E[0] = exx; E[1] = eyy; E[2] = 2 * exy; }
  return .5 * det * (.5 * lam * (exx + eyy) * (exx + eyy) + mu * (exx * exx + eyy * eyy + 2 * exy * exy));
}
static const double LM[3][2] = {{1, 1}, {2, .5}, {0, 3}};

static void membrane(mc::Ch &c) {
  double P[3][2]; pick_rest2(c, P);
  int def = c.choose(4);
  int sc = c.choose(3); // compressed, as is, stretched
  const double *lm = LM[c.choose(3)];
  int q0 = c.thorough ? c.choose(8) : c.choose(4);
  c.commit();
  VD X(9), x(9), xr(9);
  double s = sc == 0 ? .6 : sc == 1 ? 1. : 1.5;
  for (int i = 0; i < 3; ++i) {
    double p[3] = {s * P[i][0], s * P[i][1], 0};
    if (i == 2) p[0] += .25 * (q0 & 1), p[1] += -.2 * (q0 >> 1 & 1), p[2] += .5 * (q0 >> 2 & 1);
    map3(def, p, x.data() + i * 3);
    X[i * 3] = P[i][0]; X[i * 3 + 1] = P[i][1]; X[i * 3 + 2] = 0;
    double z[3] = {P[i][0], P[i][1], 0}; for (int k = 0; k < 3; ++k) xr[i * 3 + k] = z[k];
  }
  // constraint form
  auto cf = [&](const VD &y, VD *J) {
    double C[3], d[3][9], p[3][3]; std::copy_n(y.data(), 9, &p[0][0]);
    dfm2::CdC_StVK(C, d, P, p);
    if (J) { J->resize(27); for (int j = 0; j < 3; ++j) for (int i = 0; i < 9; ++i) (*J)[i * 3 + j] = d[j][i]; }
    return VD{C[0], C[1], C[2]};
  };
  VD J; VD C = cf(x, &J);
  cmp(c, "CdC_StVK jacobian", J, jac([&](const VD &y) { return cf(y, nullptr); }, x), 2e-7);
  { // strain in the rest triangle's own axes (x, y)
    VD Y = x; double A[2][2], det = 0; // F = d [p1-p0, p2-p0] D^-1
    double D[4] = {P[1][0] - P[0][0], P[2][0] - P[0][0], P[1][1] - P[0][1], P[2][1] - P[0][1]}; det = D[0] * D[3] - D[1] * D[2];
    double I[4] = {D[3] / det, -D[1] / det, -D[2] / det, D[0] / det}; (void)A;
    double F0[3], F1[3];
    for (int k = 0; k < 3; ++k) { double a = Y[3 + k] - Y[k], b = Y[6 + k] - Y[k]; F0[k] = a * I[0] + b * I[2]; F1[k] = a * I[1] + b * I[3]; }
    cmp(c, "CdC_StVK strain", C, VD{.5 * (dot3(F0, F0) - 1), .5 * (dot3(F1, F1) - 1), dot3(F0, F1)}, 1e-9, 1e-11);
  }
  cmp(c, "CdC_StVK at rest", cf(xr, nullptr), VD{0, 0, 0}, 1e-9, 1e-12);
  // energy form
  En e1 = [&](const VD &y, VD &g, VD &H) { double W, d[9], p[3][3]; std::copy_n(y.data(), 9, &p[0][0]); dfm2::CdC_EnergyStVK(W, d, P, p, lm[0], lm[1]); g.assign(d, d + 9); H.clear(); return W; };
  energy(c, "CdC_EnergyStVK", x, e1, RIGID);
  { VD g, H; cmp1(c, "CdC_EnergyStVK value", e1(x, g, H), stvk_def(X.data(), x.data(), lm[0], lm[1])); cmp1(c, "CdC_EnergyStVK at rest", e1(xr, g, H), 0); MC_CHECK(c, maxabs(g) < 1e-10, "CdC_EnergyStVK: force at rest"); }
  // three-dimensional rest shape
  for (int rm = 0; rm < 2; ++rm) {
    VD Z(9); for (int i = 0; i < 3; ++i) map3(rm, X.data() + i * 3, Z.data() + i * 3);
    double R3[3][3]; std::copy_n(Z.data(), 9, &R3[0][0]);
    En e2 = [&](const VD &y, VD &g, VD &H) {
      double W, d[3][3], dd[3][3][3][3], p[3][3]; std::copy_n(y.data(), 9, &p[0][0]);
      dfm2::WdWddW_CST(W, d, dd, R3, p, lm[0], lm[1]);
      g.assign(&d[0][0], &d[0][0] + 9); H.resize(81);
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) H[(i * 3 + a) * 9 + j * 3 + b] = dd[i][j][a][b];
      return W; };
    energy(c, "WdWddW_CST", x, e2, RIGID);
    VD g, H; double W = e2(x, g, H);
    cmp1(c, "WdWddW_CST value", W, stvk_def(Z.data(), x.data(), lm[0], lm[1]));
    // hessian: exact in tension, otherwise convexified: positive semidefinite and not below the exact one
    VD ex = jac([&](const VD &y) { VD g2, H2; e2(y, g2, H2); return g2; }, x);
    double hs = maxabs(ex) + 1e-12;
    double E[3]; stvk_def(Z.data(), x.data(), 0, 0, E);
    double S[3] = {lm[0] * (E[0] + E[1]) + 2 * lm[1] * E[0], lm[0] * (E[0] + E[1]) + 2 * lm[1] * E[1], lm[1] * E[2]};
    double lo = .5 * (S[0] + S[1]) - std::sqrt(.25 * (S[0] - S[1]) * (S[0] - S[1]) + S[2] * S[2]);
    auto hess = [&](const char *nm, const VD &M) {
      if (lo > 1e-6) { cmp(c, nm, M, ex, 2e-7, 1e-9); return; }
      VD D(81); for (int i = 0; i < 81; ++i) D[i] = M[i] - ex[i];
      for (int i = 0; i < 9; ++i) for (int j = 0; j < i; ++j) D[i * 9 + j] = D[j * 9 + i] = .5 * (D[i * 9 + j] + D[j * 9 + i]);
      MC_CHECK(c, min_eig(D, 9) >= -1e-6 * hs && min_eig(M, 9) >= -1e-9 * hs, "%s: the convexified hessian has eigenvalue %g, its excess over the exact one %g", nm, min_eig(M, 9), min_eig(D, 9));
    };
    hess("WdWddW_CST hessian", H);
    // sensitivity with respect to the rest shape
    auto sens = [&](const VD &Q, VD &K, VD &Rr, VD &dR) {
      double Km[3][3][3][3], R[3][3], dd[3][3][3][3], q[3][3], p[3][3]; std::copy_n(Q.data(), 9, &q[0][0]); std::copy_n(x.data(), 9, &p[0][0]);
      dfm2::WdWddW_CST_Sensitivity(Km, R, dd, lm[0], lm[1], q, p);
      Rr.assign(&R[0][0], &R[0][0] + 9); K.resize(81); dR.resize(81);
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) { K[(i * 3 + a) * 9 + j * 3 + b] = Km[i][j][a][b]; dR[(j * 3 + b) * 9 + i * 3 + a] = dd[i][j][a][b]; }
    };
    VD K, Rr, dR; sens(Z, K, Rr, dR);
    cmp(c, "WdWddW_CST_Sensitivity residual", Rr, g, 1e-9);
    hess("WdWddW_CST_Sensitivity stiffness", K);
    cmp(c, "WdWddW_CST_Sensitivity rest-shape derivative", dR, jac([&](const VD &q) { VD a, b, d; sens(q, a, b, d); return b; }, Z), 2e-6, 1e-8);
    // cotangent (MIPS) energy
    if (area3(x.data(), x.data() + 3, x.data() + 6) > .1) {
      En e3 = [&](const VD &y, VD &g2, VD &H2) {
        double Wm, d[3][3], dd[3][3][3][3], p[3][3]; std::copy_n(y.data(), 9, &p[0][0]);
        dfm2::WdWddW_MIPS(Wm, d, dd, p, R3);
        g2.assign(&d[0][0], &d[0][0] + 9); H2.resize(81);
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) H2[(i * 3 + a) * 9 + j * 3 + b] = dd[i][j][a][b];
        return Wm; };
      energy(c, "WdWddW_MIPS", x, e3, EXACT | RIGID, 1e-5);
      VD g2, H2; double A = area3(Z.data(), Z.data() + 3, Z.data() + 6), a = area3(x.data(), x.data() + 3, x.data() + 6), Ec = 0;
      for (int i = 0; i < 3; ++i) { // sum over corners of cot(rest-free angle) times squared rest edge
        const double *p0 = &x[i * 3], *p1 = &x[(i + 1) % 3 * 3], *p2 = &x[(i + 2) % 3 * 3]; double u[3], v[3]; sub3(u, p1, p0); sub3(v, p2, p0);
        double L = dist3(&Z[(i + 1) % 3 * 3], &Z[(i + 2) % 3 * 3]); Ec += 2 * dot3(u, v) * L * L;
      }
      cmp1(c, "WdWddW_MIPS value", e3(x, g2, H2), Ec / (8 * A) * (A / a + a / A) * 1.0, 1e-9);
    }
  }
  // edge lengths
  if (dist3(&x[0], &x[3]) > .05 && dist3(&x[3], &x[6]) > .05 && dist3(&x[0], &x[6]) > .05) {
    auto lf = [&](const VD &y, VD *J2) {
      double Cn[3], d[3][9], p[3][3]; std::copy_n(y.data(), 9, &p[0][0]); std::fill_n(&d[0][0], 27, 99.);
      dfm2::CdC_LengthTriEdges23(Cn, d, P, p);
      if (J2) { J2->resize(27); for (int j = 0; j < 3; ++j) for (int i = 0; i < 9; ++i) (*J2)[i * 3 + j] = d[j][i]; }
      return VD{Cn[0], Cn[1], Cn[2]}; };
    VD J2, Cl = lf(x, &J2);
    cmp(c, "CdC_LengthTriEdges23 jacobian", J2, jac([&](const VD &y) { return lf(y, nullptr); }, x));
    VD exl; for (int i = 0; i < 3; ++i) { int a = (i + 1) % 3, b = (i + 2) % 3; exl.push_back(dist3(&x[a * 3], &x[b * 3]) - std::hypot(P[a][0] - P[b][0], P[a][1] - P[b][1])); }
    cmp(c, "CdC_LengthTriEdges23", Cl, exl, 1e-10, 1e-12);
  }
}

// ---------- lengths and tetrahedra
static void lengths(mc::Ch &c) {
  int m = c.choose(4);
  VD x = pick_cube(c, 4, m);
  double L = c.pick({.5, 1., 2.}), k = c.pick({1., 3.5});
  int rm = c.choose(4);
  c.commit();
  En e = [&](const VD &y, VD &g, VD &H) {
    V3 d[2], p[2] = {V3(y[0], y[1], y[2]), V3(y[3], y[4], y[5])}; M3 dd[2][2];
    double W = dfm2::WdWddW_SquareLengthLineseg3D(d, dd, k, p, L);
    g = {d[0].x, d[0].y, d[0].z, d[1].x, d[1].y, d[1].z}; H.resize(36);
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) H[(i * 3 + a) * 6 + j * 3 + b] = dd[i][j](a, b);
    return W; };
  VD x2(x.begin(), x.begin() + 6);
  energy(c, "WdWddW_SquareLengthLineseg3D", x2, e, EXACT | RIGID);
  double l = dist3(&x[0], &x[3]); VD g, H;
  cmp1(c, "WdWddW_SquareLengthLineseg3D value", e(x2, g, H), .5 * k * (l - L) * (l - L));
  auto cf = [&](const VD &y, VD *J) { double C, d[2][3], p[2][3]; std::copy_n(y.data(), 6, &p[0][0]); dfm2::CdC_SquareLengthLineseg3D(C, d, p, L); if (J) J->assign(&d[0][0], &d[0][0] + 6); return VD{C}; };
  VD J; VD C = cf(x2, &J);
  cmp(c, "CdC_SquareLengthLineseg3D jacobian", J, jac([&](const VD &y) { return cf(y, nullptr); }, x2));
  cmp1(c, "CdC_SquareLengthLineseg3D", C[0], l - L);
  { float Cf, df[2][3], pf[2][3]; for (int i = 0; i < 6; ++i) (&pf[0][0])[i] = float(x2[i]); dfm2::CdC_SquareLengthLineseg3D(Cf, df, pf, float(L)); MC_CHECK(c, std::fabs(Cf - C[0]) < 1e-5 * (1 + l), "CdC_SquareLengthLineseg3D<float> %g", Cf); for (int i = 0; i < 6; ++i) MC_CHECK(c, std::fabs((&df[0][0])[i] - J[i]) < 1e-5, "CdC_SquareLengthLineseg3D<float> jacobian"); }
  // six edges of a tetrahedron
  VD X(12); for (int i = 0; i < 4; ++i) map3(rm, x.data() + i * 3, X.data() + i * 3);
  auto tf = [&](const VD &y, VD *J2) {
    double Cn[6], d[6][12], P[4][3], p[4][3]; std::copy_n(X.data(), 12, &P[0][0]); std::copy_n(y.data(), 12, &p[0][0]); std::fill_n(&d[0][0], 72, 99.);
    dfm2::CdC_LengthTetEdges(Cn, d, P, p);
    if (J2) { J2->resize(72); for (int j = 0; j < 6; ++j) for (int i = 0; i < 12; ++i) (*J2)[i * 6 + j] = d[j][i]; }
    return VD(Cn, Cn + 6); };
  VD J2, Ct = tf(x, &J2), ex;
  for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) ex.push_back(dist3(&x[i * 3], &x[j * 3]) - dist3(&X[i * 3], &X[j * 3]));
  cmp(c, "CdC_LengthTetEdges", Ct, ex, 1e-10, 1e-12);
  cmp(c, "CdC_LengthTetEdges jacobian", J2, jac([&](const VD &y) { return tf(y, nullptr); }, x));
}
// dihedral energies of two triangles (0,2,3) and (1,3,2)
static void bending(mc::Ch &c) {
  int m = 1 + c.choose(3), rm = c.choose(4);
  VD x = pick_cube(c, 4, m);
  int flat = c.choose(2);
  double k = c.pick({1., 2.5});
  if (thin3(&x[0], &x[6], &x[9]) || thin3(&x[3], &x[6], &x[9])) c.skip();
  c.commit();
  { // cosine of the dihedral angle minus one
    auto f = [&](const VD &y, VD *J) {
      double C; V3 d[4]; V3 p[4]; for (int i = 0; i < 4; ++i) p[i] = V3(y[i * 3], y[i * 3 + 1], y[i * 3 + 2]);
      dfm2::CdC_DiscreteShell(C, d, p[0], p[1], p[2], p[3]);
      if (J) { J->clear(); for (auto &v: d) { J->push_back(v.x); J->push_back(v.y); J->push_back(v.z); } }
      return VD{C}; };
    VD J, C = f(x, &J);
    cmp(c, "CdC_DiscreteShell jacobian", J, jac([&](const VD &y) { return f(y, nullptr); }, x), 1e-6);
    double u[3], v[3], a[3], b[3]; sub3(u, &x[6], &x[0]); sub3(v, &x[9], &x[0]); cross3(a, u, v); sub3(u, &x[9], &x[3]); sub3(v, &x[6], &x[3]); cross3(b, u, v);
    cmp1(c, "CdC_DiscreteShell", C[0], dot3(a, b) / std::sqrt(dot3(a, a) * dot3(b, b)) - 1, 1e-9, 1e-11);
  }
  // quadratic bending; rest shape: another map, or a flat kite
  VD X(12);
  if (flat) { const double F[12] = {0, 1, 0, .2, -1.3, 0, -1, .1, 0, 1.2, 0, 0}; for (int i = 0; i < 4; ++i) map3(rm, F + i * 3, X.data() + i * 3); }
  else for (int i = 0; i < 4; ++i) map3(rm, x.data() + i * 3, X.data() + i * 3);
  double P[4][3]; std::copy_n(X.data(), 12, &P[0][0]);
  // cotangent weights from angles
  auto cot = [&](const VD &Q, int o, int a, int b) { double u[3], v[3], n[3]; sub3(u, &Q[a * 3], &Q[o * 3]); sub3(v, &Q[b * 3], &Q[o * 3]); cross3(n, u, v); return dot3(u, v) / std::sqrt(dot3(n, n)); };
  auto weights = [&](const VD &Q, VD &K, double &co) {
    double c23 = cot(Q, 2, 0, 3), c32 = cot(Q, 3, 0, 2), d23 = cot(Q, 2, 1, 3), d32 = cot(Q, 3, 1, 2);
    K = {-c23 - c32, -d23 - d32, c32 + d32, c23 + d23};
    co = 1 / (area3(&Q[0], &Q[6], &Q[9]) + area3(&Q[3], &Q[6], &Q[9]));
  };
  VD K; double co; weights(X, K, co);
  double s[3] = {}; for (int i = 0; i < 4; ++i) for (int d = 0; d < 3; ++d) s[d] += K[i] * x[i * 3 + d];
  {
    auto f = [&](const VD &y, VD *J) {
      double C[3], d[3][4][3], p[4][3]; std::copy_n(y.data(), 12, &p[0][0]); std::fill_n(&d[0][0][0], 36, 99.);
      dfm2::CdC_QuadBend(C, d, P, p);
      if (J) { J->resize(36); for (int j = 0; j < 3; ++j) for (int i = 0; i < 12; ++i) (*J)[i * 3 + j] = (&d[j][0][0])[i]; }
      return VD{C[0], C[1], C[2]}; };
    VD J, C = f(x, &J);
    double w = std::sqrt(3 * co);
    cmp(c, "CdC_QuadBend", C, VD{w * s[0], w * s[1], w * s[2]}, 1e-9, 1e-11);
    cmp(c, "CdC_QuadBend jacobian", J, jac([&](const VD &y) { return f(y, nullptr); }, x));
    if (flat) { VD r = f(moved(X, rots()[24], &X[3]), nullptr); MC_CHECK(c, maxabs(r) < 1e-10, "CdC_QuadBend: flat rest shape has curvature %g", maxabs(r)); }
  }
  En e = [&](const VD &y, VD &g, VD &H) {
    double W, d[4][3], dd[4][4][3][3], p[4][3]; std::copy_n(y.data(), 12, &p[0][0]);
    dfm2::WdWddW_Bend(W, d, dd, P, p, k);
    g.assign(&d[0][0], &d[0][0] + 12); H.resize(144);
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) H[(i * 3 + a) * 12 + j * 3 + b] = dd[i][j][a][b];
    return W; };
  VD g, H; double W = e(x, g, H);
  (void) W;
  energy(c, "WdWddW_Bend", x, e, EXACT | RIGID);
  auto sens = [&](const VD &Q, VD &Kk, VD &R, VD &dR) {
    double Km[4][4][3][3], r[4][3], dd[4][4][3][3], q[4][3], p[4][3]; std::copy_n(Q.data(), 12, &q[0][0]); std::copy_n(x.data(), 12, &p[0][0]);
    dfm2::WdWddW_QuadraticBending_Sensitivity(Km, r, dd, q, p, k);
    R.assign(&r[0][0], &r[0][0] + 12); Kk.resize(144); dR.resize(144);
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) { Kk[(i * 3 + a) * 12 + j * 3 + b] = Km[i][j][a][b]; dR[(j * 3 + b) * 12 + i * 3 + a] = dd[i][j][a][b]; }
  };
  VD Kk, R, dR; sens(X, Kk, R, dR);
  cmp(c, "QuadraticBending_Sensitivity stiffness", Kk, jac([&](const VD &y) { VD xs = x; x = y; VD a, b, d; sens(X, a, b, d); x = xs; return b; }, VD(x)), 2e-7);
  cmp(c, "QuadraticBending_Sensitivity rest-shape derivative", dR, jac([&](const VD &q) { VD a, b, d; sens(q, a, b, d); return b; }, X), 2e-6, 1e-8);
  // both bending energies are multiples of the same quadratic form
  double kk = 0; for (double z: K) kk += z * z;
  VD form(144, 0.0); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) for (int d = 0; d < 3; ++d) form[(i * 3 + d) * 12 + j * 3 + d] = K[i] * K[j];
  auto ratio = [&](const VD &A, const char *nm) { double r = 0; int at = 0; for (int i = 0; i < 144; ++i) if (std::fabs(form[i]) > std::fabs(form[at])) at = i; r = A[at] / form[at]; VD B = form; for (double &z: B) z *= r; cmp(c, nm, A, B, 1e-8, 1e-10); return r; };
  double r1 = ratio(H, "WdWddW_Bend hessian"), r2 = ratio(Kk, "QuadraticBending_Sensitivity stiffness");
  MC_CHECK(c, r1 > 0 && r2 > 0, "bending stiffness not positive: %g %g", r1, r2);
  cmp1(c, "WdWddW_Bend stiffness", r1, k * co, 1e-8); cmp1(c, "QuadraticBending_Sensitivity stiffness", r2, k * co, 1e-8);
  c.outcome_of(int(r1 / (k * co) * 1000));
}

// ---------- rods
static void rods(mc::Ch &c) {
  int m = c.choose(4);
  VD x = pick_cube(c, 3, m, true);
  double k0 = c.pick({1., 2.}), k1 = c.pick({1., .5}), kb = c.pick({1., 4.}), L0 = c.pick({1., .4});
  c.commit();
  { // planar
    const int map2 = m; (void) map2;
    VD y = {x[0], x[1] + .3 * x[2], x[3], x[4] + .3 * x[5], x[6], x[7] + .3 * x[8]};
    double a[2] = {y[2] - y[0], y[3] - y[1]}, b[2] = {y[4] - y[2], y[5] - y[3]};
    double la = std::hypot(a[0], a[1]), lb = std::hypot(b[0], b[1]);
    if (la > .1 && lb > .1 && 1 + (a[0] * b[0] + a[1] * b[1]) / la / lb > .1) {
      double aL[2] = {L0, 1.3};
      auto T = [&](const VD &z) { double u[2] = {z[2] - z[0], z[3] - z[1]}, v[2] = {z[4] - z[2], z[5] - z[3]}; double th = std::atan2(u[0] * v[1] - u[1] * v[0], u[0] * v[0] + u[1] * v[1]); return VD{std::hypot(u[0], u[1]) - aL[0], std::hypot(v[0], v[1]) - aL[1], std::tan(th / 2)}; };
      En e = [&](const VD &z, VD &g, VD &H) {
        double W, d[3][2], dd[3][3][2][2], p[3][2]; std::copy_n(z.data(), 6, &p[0][0]);
        dfm2::WdWddW_Rod2(W, d, dd, p, aL, k0, k1, kb);
        g.assign(&d[0][0], &d[0][0] + 6); H.resize(36);
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int s = 0; s < 2; ++s) for (int t = 0; t < 2; ++t) H[(i * 2 + s) * 6 + j * 2 + t] = dd[i][j][s][t];
        return W; };
      energy(c, "WdWddW_Rod2", y, e, 0, 1e-6);
      VD t = T(y), g, H; double w[3] = {k0, k1, kb};
      cmp1(c, "WdWddW_Rod2 value", e(y, g, H), .5 * (w[0] * t[0] * t[0] + w[1] * t[1] * t[1] + w[2] * t[2] * t[2]));
      VD J = jac(T, y), G(36, 0.0); // documented approximation: sum of w dT dT^t
      for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) for (int q = 0; q < 3; ++q) G[i * 6 + j] += w[q] * J[i * 3 + q] * J[j * 3 + q];
      cmp(c, "WdWddW_Rod2 hessian", H, G, 1e-6, 1e-8);
    }
  }
  double u[3], v[3]; sub3(u, &x[3], &x[0]); sub3(v, &x[6], &x[3]);
  double cs = dot3(u, v) / std::sqrt(dot3(u, u) * dot3(v, v));
  if (1 + cs < .1) { c.outcome(1); return; }
  auto Tn = [&](const VD &z) {
    double a[3], b[3], n[3]; sub3(a, &z[3], &z[0]); sub3(b, &z[6], &z[3]); cross3(n, a, b);
    double s = std::sqrt(dot3(n, n)), th = std::atan2(s, dot3(a, b)), f = s > 0 ? std::tan(th / 2) / s : 0; return VD{n[0] * f, n[1] * f, n[2] * f}; };
  auto cf = [&](const VD &z, VD *J) { double C[3], d[3][3][3], p[3][3]; std::copy_n(z.data(), 9, &p[0][0]); dfm2::CdC_Rod3BendStraight(C, d, p); if (J) { J->resize(27); for (int j = 0; j < 3; ++j) for (int i = 0; i < 9; ++i) (*J)[i * 3 + j] = (&d[j][0][0])[i]; } return VD{C[0], C[1], C[2]}; };
  VD J, C = cf(x, &J);
  cmp(c, "CdC_Rod3BendStraight", C, Tn(x), 1e-9, 1e-11);
  cmp(c, "CdC_Rod3BendStraight jacobian", J, jac([&](const VD &z) { return cf(z, nullptr); }, x), 1e-6);
  { float Cf[3], d[3][3][3], p[3][3]; for (int i = 0; i < 9; ++i) (&p[0][0])[i] = float(x[i]); dfm2::CdC_Rod3BendStraight(Cf, d, p); for (int i = 0; i < 3; ++i) MC_CHECK(c, std::fabs(Cf[i] - C[i]) < 1e-4 * (1 + maxabs(C)), "CdC_Rod3BendStraight<float> %g vs %g", Cf[i], C[i]); }
  En e = [&](const VD &z, VD &g, VD &H) {
    V3 d[3], p[3]; M3 dd[3][3]; for (int i = 0; i < 3; ++i) p[i] = V3(z[i * 3], z[i * 3 + 1], z[i * 3 + 2]);
    double W = dfm2::WdWddW_Rod3BendStraight(d, dd, p);
    g.clear(); for (auto &q: d) { g.push_back(q.x); g.push_back(q.y); g.push_back(q.z); } H.resize(81);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int s = 0; s < 3; ++s) for (int t = 0; t < 3; ++t) H[(i * 3 + s) * 9 + j * 3 + t] = dd[i][j](s, t);
    return W; };
  energy(c, "WdWddW_Rod3BendStraight", x, e, EXACT | RIGID, 2e-6);
  VD g, H; cmp1(c, "WdWddW_Rod3BendStraight value", e(x, g, H), .5 * (C[0] * C[0] + C[1] * C[1] + C[2] * C[2]));
}
// rods with directors: state = 3 points and 2 twists around a configuration
struct Rod { V3 P[3], S[2]; };
static Rod moved_rod(const Rod &r, const VD &q) { // q: 9 displacements, 2 twists
  Rod o; for (int i = 0; i < 3; ++i) o.P[i] = r.P[i] + V3(q[i * 3], q[i * 3 + 1], q[i * 3 + 2]);
  for (int s = 0; s < 2; ++s) { // parallel transport of the director, then rotation about the new edge
    V3 a = (r.P[s + 1] - r.P[s]), b = (o.P[s + 1] - o.P[s]); a = a / a.norm(); b = b / b.norm();
    V3 S = r.S[s], T = a.cross(S), n = a.cross(b); double cth = a.dot(b);
    double th = q[9 + s];
    V3 w = std::cos(th) * S + std::sin(th) * T;
    V3 tr = w * cth + n.cross(w) + n * (n.dot(w) / (1 + cth)); // minimal rotation a -> b (Rodrigues)
    o.S[s] = tr;
  }
  return o;
}
static V3 darboux(const Rod &r) {
  V3 F[2][3];
  for (int s = 0; s < 2; ++s) { V3 d = r.P[s + 1] - r.P[s]; F[s][2] = d / d.norm(); F[s][0] = r.S[s]; F[s][1] = F[s][2].cross(F[s][0]); }
  // rotation between the frames in the first frame's axes: tan(half angle) times its axis
  double M[3][3]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) M[i][j] = F[0][i].dot(F[1][j]);
  double Y = 1 + M[0][0] + M[1][1] + M[2][2];
  return V3((M[1][2] - M[2][1]) / Y, (M[2][0] - M[0][2]) / Y, (M[0][1] - M[1][0]) / Y);
}
static bool pick_rod(mc::Ch &c, Rod &r) {
  int m = c.choose(3) + 1;
  VD x = pick_cube(c, 3, m);
  int s0 = c.choose(4), s1 = c.choose(4);
  for (int i = 0; i < 3; ++i) r.P[i] = V3(x[i * 3], x[i * 3 + 1], x[i * 3 + 2]);
  int ss[2] = {s0, s1};
  for (int s = 0; s < 2; ++s) {
    V3 d = r.P[s + 1] - r.P[s]; d = d / d.norm();
    V3 a = std::fabs(d.x) < .6 ? V3(1, 0, 0) : V3(0, 1, 0); a = a - d * a.dot(d); a = a / a.norm(); V3 b = d.cross(a);
    double th = .3 + ss[s] * M_PI / 2; r.S[s] = std::cos(th) * a + std::sin(th) * b;
  }
  V3 d0 = r.P[1] - r.P[0], d1 = r.P[2] - r.P[1]; d0 = d0 / d0.norm(); d1 = d1 / d1.norm();
  double Y = 1 + d0.dot(d1) + r.S[0].dot(r.S[1]) + d0.cross(r.S[0]).dot(d1.cross(r.S[1]));
  return 1 + d0.dot(d1) > .2 && Y > .3;
}
static void rod_darboux(mc::Ch &c) {
  Rod r; if (!pick_rod(c, r)) c.skip();
  int kk = c.choose(3), rest = c.choose(2);
  c.commit();
  const double st[3] = {kk == 1 ? 2. : 1., kk == 2 ? .5 : 1., kk == 0 ? 1. : 3.};
  V3 D0 = rest ? V3(.2, -.1, .3) : V3(0, 0, 0);
  VD z(11, 0.0);
  { // the frame transport itself
    const V3 V = r.P[1] - r.P[0];
    V3 f[3]; const V3 du(.2, -.1, .15); dfm2::RodFrameTrans(f, r.S[0], V, du, .4);
    VD q(11, 0.0); q[3] = .2; q[4] = -.1; q[5] = .15; q[9] = .4; Rod o = moved_rod(r, q);
    V3 e = (V + du); e = e / e.norm(); V3 t = e.cross(o.S[0]);
    MC_CHECK(c, (f[0] - o.S[0]).norm() < 1e-10 && (f[2] - e).norm() < 1e-10 && (f[1] - t).norm() < 1e-10, "RodFrameTrans is not parallel transport followed by a twist");
    // derivatives of the frame
    V3 F[3]; F[2] = V / V.norm(); F[0] = r.S[0]; F[1] = F[2].cross(F[0]);
    M3 dv[3]; V3 dt[3]; dfm2::DiffFrameRod(dv, dt, V.norm(), F);
    auto frame = [&](const VD &p) { V3 ff[3]; dfm2::RodFrameTrans(ff, r.S[0], V, V3(p[0], p[1], p[2]), p[3]); VD o2; for (auto &w: ff) { o2.push_back(w.x); o2.push_back(w.y); o2.push_back(w.z); } return o2; };
    VD ex = jac(frame, VD(4, 0.0)), got(36);
    for (int a = 0; a < 3; ++a) for (int i = 0; i < 3; ++i) { for (int k = 0; k < 3; ++k) got[k * 9 + a * 3 + i] = dv[a](i, k); got[27 + a * 3 + i] = dt[a].p[i]; }
    cmp(c, "DiffFrameRod", got, ex, 1e-6);
    // second derivatives of Q.F_a, taken along the moving frame
    const V3 Q(.7, -.4, .5);
    for (U a = 0; a < 3; ++a) {
      M3 Hv; V3 Hvt; double Htt; dfm2::DifDifFrameRod(Hv, Hvt, Htt, a, V.norm(), Q, F);
      auto gr = [&](const VD &p) { V3 ff[3]; dfm2::RodFrameTrans(ff, r.S[0], V, V3(p[0], p[1], p[2]), p[3]); M3 d1[3]; V3 t1[3]; dfm2::DiffFrameRod(d1, t1, (V + V3(p[0], p[1], p[2])).norm(), ff); VD o2; for (int k = 0; k < 3; ++k) { double s = 0; for (int i = 0; i < 3; ++i) s += Q.p[i] * d1[a](i, k); o2.push_back(s); } o2.push_back(Q.dot(t1[a])); return o2; };
      VD h = jac(gr, VD(4, 0.0)), gt(16); // h[i*4+k] = d(grad_k)/dq_i
      // positions and twist: the library's mixed block is the derivative of the twist gradient by position
      for (int i = 0; i < 3; ++i) { for (int k = 0; k < 3; ++k) gt[i * 4 + k] = Hv(k, i); gt[i * 4 + 3] = Hvt.p[i]; gt[12 + i] = Hvt.p[i]; }
      gt[15] = Htt;
      // second-order terms of the frame's own holonomy are not part of the documented derivative: compare the symmetric part
      VD hs(16), gs(16); for (int i = 0; i < 4; ++i) for (int k = 0; k < 4; ++k) { hs[i * 4 + k] = .5 * (h[i * 4 + k] + h[k * 4 + i]); gs[i * 4 + k] = .5 * (gt[i * 4 + k] + gt[k * 4 + i]); }
      cmp(c, "DifDifFrameRod", gs, hs, 1e-6);
    }
  }
  auto pack = [](const V3 dP[3], const double dt[2]) { VD g; for (int i = 0; i < 3; ++i) { g.push_back(dP[i].x); g.push_back(dP[i].y); g.push_back(dP[i].z); } g.push_back(dt[0]); g.push_back(dt[1]); return g; };
  auto packH = [](const M3 H[3][3], const V3 T[2][3], const double t[2][2]) {
    VD o(121);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) o[(i * 3 + a) * 11 + j * 3 + b] = H[i][j](a, b);
    for (int s = 0; s < 2; ++s) for (int j = 0; j < 3; ++j) for (int b = 0; b < 3; ++b) o[(9 + s) * 11 + j * 3 + b] = o[(j * 3 + b) * 11 + 9 + s] = T[s][j].p[b];
    for (int s = 0; s < 2; ++s) for (int q = 0; q < 2; ++q) o[(9 + s) * 11 + 9 + q] = t[s][q];
    return o; };
  auto symp = [](const VD &H, int n) { VD o(H.size()); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) o[i * n + j] = .5 * (H[i * n + j] + H[j * n + i]); return o; };
  // the strain
  auto strain = [&](const VD &q) { V3 d = darboux(moved_rod(r, q)); return VD{d.x, d.y, d.z}; };
  V3 D = dfm2::Darboux_Rod(r.P, r.S), De = darboux(r);
  MC_CHECK(c, (D - De).norm() < 1e-10 * (1 + De.norm()), "Darboux_Rod %s, from the frames %s", mc::str(VD{D.x, D.y, D.z}).c_str(), mc::str(VD{De.x, De.y, De.z}).c_str());
  double C[3], dt[3][2]; V3 dp[3][3]; dfm2::CdC_Rod(C, dp, dt, r.P, r.S);
  VD J(33); for (int a = 0; a < 3; ++a) { VD g = pack(dp[a], dt[a]); for (int i = 0; i < 11; ++i) J[i * 3 + a] = g[i]; }
  cmp(c, "CdC_Rod", VD(C, C + 3), VD{De.x, De.y, De.z}, 1e-9, 1e-11);
  cmp(c, "CdC_Rod jacobian", J, jac(strain, z), 1e-6);
  // energies
  auto Wdef = [&](const VD &q) { VD s = strain(q); double w = 0; const double d0[3] = {D0.x, D0.y, D0.z}; for (int a = 0; a < 3; ++a) w += .5 * st[a] * (s[a] - d0[a]) * (s[a] - d0[a]); return VD{w}; };
  auto exact = [&](const Rod &o, VD &g, VD &H) { V3 d[3]; double t[2], tt[2][2]; M3 h[3][3]; V3 x[2][3]; double w = dfm2::WdWddW_Rod3Exact(d, t, h, x, tt, st, o.P, o.S, D0); g = pack(d, t); H = packH(h, x, tt); return w; };
  VD g, H; double w = exact(r, g, H), w0 = Wdef(z)[0];
  cmp1(c, "WdWddW_Rod3Exact", w, w0);
  VD gd = jac(Wdef, z);
  cmp(c, "WdWddW_Rod3Exact gradient", g, gd, 1e-6, 1e-9);
  VD hd = jac([&](const VD &q) { VD g2, H2; exact(moved_rod(r, q), g2, H2); return g2; }, z);
  cmp(c, "WdWddW_Rod3Exact hessian (symmetric part)", symp(H, 11), symp(hd, 11), 2e-6, 1e-8);
  {
    V3 d[3]; double t[2], tt[2][2]; M3 h[3][3]; V3 x[2][3]; double wa = dfm2::WdWddW_Rod3Approx(d, t, h, x, tt, st, r.P, r.S, D0);
    cmp1(c, "WdWddW_Rod3Approx", wa, w0); cmp(c, "WdWddW_Rod3Approx gradient", pack(d, t), gd, 1e-6, 1e-9);
    VD G(121, 0.0); for (int i = 0; i < 11; ++i) for (int j = 0; j < 11; ++j) for (int a = 0; a < 3; ++a) G[i * 11 + j] += st[a] * J[i * 3 + a] * J[j * 3 + a];
    cmp(c, "WdWddW_Rod3Approx hessian", packH(h, x, tt), G, 1e-9, 1e-10);
    double dw[3][4], ddw[3][3][4][4]; std::fill_n(&ddw[0][0][0][0], 144, 77.); std::fill_n(&dw[0][0], 12, 77.);
    double wh = dfm2::WdWddW_HairApprox(dw, ddw, st, r.P, r.S, D0);
    auto idx = [](int n, int k) { return k < 3 ? n * 3 + k : n < 2 ? 9 + n : -1; };
    VD gh(12), eh(12), Hh(144), Eh(144);
    for (int n = 0; n < 3; ++n) for (int k = 0; k < 4; ++k) {
      int a = idx(n, k); gh[n * 4 + k] = dw[n][k]; eh[n * 4 + k] = a < 0 ? 0 : gd[a];
      for (int m = 0; m < 3; ++m) for (int l = 0; l < 4; ++l) { int b = idx(m, l); Hh[(n * 4 + k) * 12 + m * 4 + l] = ddw[n][m][k][l]; Eh[(n * 4 + k) * 12 + m * 4 + l] = a < 0 || b < 0 ? 0 : G[a * 11 + b]; }
    }
    cmp1(c, "WdWddW_HairApprox", wh, w0); cmp(c, "WdWddW_HairApprox gradient", gh, eh, 1e-6, 1e-9); cmp(c, "WdWddW_HairApprox hessian", Hh, Eh, 1e-9, 1e-10);
  }
  {
    const double off[3] = {};
    auto dotf = [&](const Rod &o, VD &g2, VD &H2) { V3 d[3]; double t[2], tt[2][2]; M3 h[3][3]; V3 x[2][3]; double v = dfm2::WdWddW_DotFrame(d, t, h, x, tt, o.P, o.S, off); g2 = pack(d, t); H2 = packH(h, x, tt); return v; };
    VD g2, H2; dotf(r, g2, H2);
    cmp(c, "WdWddW_DotFrame gradient", g2, jac([&](const VD &q) { VD a, b; return VD{dotf(moved_rod(r, q), a, b)}; }, z), 1e-6, 1e-7);
    cmp(c, "WdWddW_DotFrame hessian (symmetric part)", symp(H2, 11), symp(jac([&](const VD &q) { VD a, b; dotf(moved_rod(r, q), a, b); return a; }, z), 11), 2e-6, 1e-6);
  }
  // rigid motion of points and directors; rest configuration
  for (auto &R: rots()) {
    Rod o; auto rv = [&](const V3 &v) { return V3(R[0] * v.x + R[1] * v.y + R[2] * v.z, R[3] * v.x + R[4] * v.y + R[5] * v.z, R[6] * v.x + R[7] * v.y + R[8] * v.z); };
    for (int i = 0; i < 3; ++i) o.P[i] = rv(r.P[i]) + V3(1, 2, 3);
    for (int i = 0; i < 2; ++i) o.S[i] = rv(r.S[i]);
    V3 E = dfm2::Darboux_Rod(o.P, o.S);
    MC_CHECK(c, (E - De).norm() < 1e-10 * (1 + De.norm()), "Darboux_Rod changes under a rigid motion");
  }
  { V3 d[3]; double t[2], tt[2][2]; M3 h[3][3]; V3 x[2][3]; double v = dfm2::WdWddW_Rod3Exact(d, t, h, x, tt, st, r.P, r.S, D); MC_CHECK(c, std::fabs(v) < 1e-12 && maxabs(pack(d, t)) < 1e-10, "rod at rest has energy %g", v); }
  c.outcome_of(int(w0 * 1e5));
}

// ---------- hexahedra
static void hyper(mc::Ch &c) {
  int rm = c.choose(4), def = c.choose(4);
  int mv = c.choose(8), dir = c.thorough ? c.choose(4) : 2 + c.choose(2);
  int ig = c.choose(3);
  int comp = c.choose(2);
  double c1 = .7, c2 = 2; if (c.thorough) { c1 = c.pick({1., .7}); c2 = c.pick({.5, 2.}); }
  c.commit();
  // nodes of the hexahedron in the usual order
  static const double N[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
  double X[8][3]; VD u(24);
  for (int i = 0; i < 8; ++i) {
    double p[3] = {N[i][0], N[i][1], N[i][2]}; map3(rm, p, X[i]);
    if (i == (mv + 3) % 8) X[i][0] += .15;
    double q[3]; map3(def, X[i], q); for (int k = 0; k < 3; ++k) u[i * 3 + k] = q[k] - X[i][k];
  }
  for (int k = 0; k < 3; ++k) if (dir == k || dir == 3) u[mv * 3 + k] += .2 - .1 * k;
  static const std::vector<std::vector<std::array<double, 2>>> GQ = {{{0., 2.}}, {{-1 / std::sqrt(3.), 1.}, {1 / std::sqrt(3.), 1.}}, {{0., 8. / 9}, {-std::sqrt(.6), 5. / 9}, {std::sqrt(.6), 5. / 9}}};
  double volume = 0; bool ok = true;
  auto def_energy = [&](const VD &v) {
    double W = 0; volume = 0;
    for (auto &a: GQ[ig]) for (auto &b: GQ[ig]) for (auto &d: GQ[ig]) {
      double dn[8][3];
      for (int i = 0; i < 8; ++i) { double s[3] = {2 * N[i][0] - 1, 2 * N[i][1] - 1, 2 * N[i][2] - 1}; double t[3] = {1 + s[0] * a[0], 1 + s[1] * b[0], 1 + s[2] * d[0]};
        dn[i][0] = .125 * s[0] * t[1] * t[2]; dn[i][1] = .125 * s[1] * t[0] * t[2]; dn[i][2] = .125 * s[2] * t[0] * t[1]; }
      double G[3][3] = {}, g[3][3] = {};
      for (int i = 0; i < 8; ++i) for (int r = 0; r < 3; ++r) for (int s = 0; s < 3; ++s) { G[r][s] += X[i][r] * dn[i][s]; g[r][s] += (X[i][r] + v[i * 3 + r]) * dn[i][s]; }
      auto det = [](double m[3][3]) { return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]); };
      double dG = det(G), dg = det(g), I[3][3], F[3][3] = {}; if (!(dG > .01) || !(dg > .01)) ok = false;
      for (int r = 0; r < 3; ++r) for (int s = 0; s < 3; ++s) { int r1 = (r + 1) % 3, r2 = (r + 2) % 3, s1 = (s + 1) % 3, s2 = (s + 2) % 3; I[s][r] = (G[r1][s1] * G[r2][s2] - G[r1][s2] * G[r2][s1]) / dG; }
      for (int r = 0; r < 3; ++r) for (int s = 0; s < 3; ++s) for (int k = 0; k < 3; ++k) F[r][s] += g[r][k] * I[k][s];
      double Cc[3][3] = {}; for (int r = 0; r < 3; ++r) for (int s = 0; s < 3; ++s) for (int k = 0; k < 3; ++k) Cc[r][s] += F[k][r] * F[k][s];
      double i1 = Cc[0][0] + Cc[1][1] + Cc[2][2], i2 = 0, Jd = dg / dG; for (int r = 0; r < 3; ++r) for (int s = 0; s < 3; ++s) i2 -= .5 * Cc[r][s] * Cc[r][s]; i2 += .5 * i1 * i1;
      double dens = comp ? .5 * c1 * (Jd * Jd - 1) * (Jd * Jd - 1) : c1 * (i1 * std::pow(Jd, -2. / 3) - 3) + c2 * (i2 * std::pow(Jd, -4. / 3) - 3);
      double w = a[1] * b[1] * d[1] * dG; volume += w; W += w * dens;
    }
    return W; };
  double w0 = def_energy(u); double v0 = volume; if (!ok) c.skip();
  double start = 3.25; // the routine adds to what it is given
  En e = [&](const VD &v, VD &g, VD &H) {
    double W = start, d[8][3], vol = -1, U8[8][3]; std::vector<double> dd(576, 1.5); std::fill_n(&d[0][0], 24, -2.5); std::copy_n(v.data(), 24, &U8[0][0]);
    auto *D = reinterpret_cast<double (*)[8][3][3]>(dd.data());
    if (comp) dfm2::AddWdWddW_Solid3Compression_Hex(W, d, D, vol, c1, X, U8, U(ig)); else dfm2::AddWdWddW_Solid3HyperMooneyrivlin2Reduced_Hex(W, d, D, vol, c1, c2, X, U8, U(ig));
    MC_CHECK(c, std::fabs(vol - v0) < 1e-9 * v0, "volume %g, expected %g", vol, v0);
    g.resize(24); for (int i = 0; i < 24; ++i) g[i] = (&d[0][0])[i] + 2.5; H.resize(576);
    for (int i = 0; i < 8; ++i) for (int j = 0; j < 8; ++j) for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) H[(i * 3 + a) * 24 + j * 3 + b] = D[i][j][a][b] - 1.5;
    return W - start; };
  const char *nm = comp ? "Solid3Compression_Hex" : "Solid3HyperMooneyrivlin2Reduced_Hex";
  energy(c, nm, u, e, EXACT, 1e-6);
  VD g, H; cmp1(c, nm, e(u, g, H), w0, 1e-9, 1e-9);
  cmp1(c, nm, e(VD(24, 0.0), g, H), 0, 0, 1e-10); MC_CHECK(c, maxabs(g) < 1e-9, "%s: force at rest %g", nm, maxabs(g));
  const double t[3] = {.5, -2, 1};
  VD y(24); for (int i = 0; i < 24; ++i) y[i] = (&X[0][0])[i] + u[i];
  for (auto &R: rots()) { VD z = moved(y, R, t); for (int i = 0; i < 24; ++i) z[i] -= (&X[0][0])[i]; cmp1(c, "hyperelastic energy after a rigid motion", e(z, g, H), w0, 1e-8, 1e-9); }
}
// ---------- invertible tetrahedra

// plane-strain Mooney-Rivlin stress and its tangent, and the stiffness of the tetrahedral membrane basis
static void hyper2(mc::Ch &c) {
  int n = c.thorough ? 5 : 4;
  double F[2][2];
  static const double A[5] = {0, .3, -.4, .8, -.15};
  for (int i = 0; i < 4; ++i) (&F[0][0])[i] = A[c.choose(n)];
  double c1 = c.pick({1., 0., .7}), c2 = c.pick({0., 2.}), pr = c.pick({0., .5, -1.});
  double J = (1 + F[0][0]) * (1 + F[1][1]) - F[0][1] * F[1][0];
  if (J < .15) c.skip();
  c.commit();
  struct R { double S[2][2], D[2][2][2][2], I1, I2, I3, Ci[2][2]; };
  auto ev = [&](const VD &u) {
    R r; std::fill_n((double *) &r, sizeof(R) / sizeof(double), 77.); double d[2][2] = {{u[0], u[1]}, {u[2], u[3]}};
    MakeStressConstitute_Hyper2D(c1, c2, d, pr, r.S, r.D, r.I1, r.I2, r.I3, r.Ci); return r; };
  auto inv = [&](const VD &u, double &I1, double &I2, double &I3, double C[2][2]) {
    double f[2][2] = {{1 + u[0], u[1]}, {u[2], 1 + u[3]}};
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) C[i][j] = f[0][i] * f[0][j] + f[1][i] * f[1][j];
    double j = f[0][0] * f[1][1] - f[0][1] * f[1][0]; I3 = j * j; I1 = C[0][0] + C[1][1] + 1; I2 = I3 + C[0][0] + C[1][1]; };
  auto W = [&](const VD &u) { double a, b, d, C[2][2]; inv(u, a, b, d, C); return VD{c1 * a / std::cbrt(d) + c2 * b / std::cbrt(d * d) + pr * d}; };
  VD u{F[0][0], F[0][1], F[1][0], F[1][1]};
  R r = ev(u); double I1, I2, I3, C[2][2]; inv(u, I1, I2, I3, C);
  cmp1(c, "MakeStressConstitute_Hyper2D first invariant", r.I1, I1); cmp1(c, "MakeStressConstitute_Hyper2D second invariant", r.I2, I2); cmp1(c, "MakeStressConstitute_Hyper2D third invariant", r.I3, I3);
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) cmp1(c, "MakeStressConstitute_Hyper2D inverse", r.Ci[i][0] * C[0][j] + r.Ci[i][1] * C[1][j], i == j, 1e-9, 1e-9);
  double f[2][2] = {{1 + u[0], u[1]}, {u[2], 1 + u[3]}};
  VD P(4), dS(16);
  for (int a = 0; a < 2; ++a) for (int i = 0; i < 2; ++i) P[a * 2 + i] = f[a][0] * r.S[0][i] + f[a][1] * r.S[1][i];
  cmp(c, "MakeStressConstitute_Hyper2D stress against the energy", P, jac(W, u), 1e-6, 1e-8);
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) {
    double v = 0;
    for (int k = 0; k < 2; ++k) for (int l = 0; l < 2; ++l) v += .5 * r.D[i][j][k][l] * ((k == b ? f[a][l] : 0) + (l == b ? f[a][k] : 0));
    dS[(a * 2 + b) * 4 + i * 2 + j] = v;
    MC_CHECK(c, std::fabs(r.D[i][j][a][b] - r.D[a][b][i][j]) < 1e-8 * (1 + std::fabs(r.D[i][j][a][b])), "MakeStressConstitute_Hyper2D: tangent %d%d%d%d not symmetric", i, j, a, b);
  }
  VD ex = jac([&](const VD &q) { R t = ev(q); return VD(&t.S[0][0], &t.S[0][0] + 4); }, u);
  MC_CHECK(c, dS.size() == ex.size(), "size");
  cmp(c, "MakeStressConstitute_Hyper2D tangent against its stress", dS, ex, 1e-6, 1e-7);
}
static void constmat3(mc::Ch &c) {
  double G[3][3]; for (int i = 0; i < 3; ++i) { int k = c.choose(c.thorough ? 27 : 13); for (int d = 0; d < 3; ++d) G[i][d] = (k / (d == 0 ? 1 : d == 1 ? 3 : 9) % 3 - 1) * (1 + .5 * d); }
  int im = c.choose(3); double la = LM[im][0], mu = LM[im][1];
  c.commit();
  double M[6][6]; std::fill_n(&M[0][0], 36, 55.);
  MakeConstMatrix3D(M, la, mu, G);
  static const int I[6][2] = {{0, 0}, {1, 1}, {2, 2}, {0, 1}, {1, 2}, {2, 0}};
  auto g = [&](int a, int b) { return dot3(G[a], G[b]); };
  for (int p = 0; p < 6; ++p) for (int q = 0; q < 6; ++q) {
    int i = I[p][0], j = I[p][1], k = I[q][0], l = I[q][1];
    double ex = la * g(i, j) * g(k, l) + mu * (g(i, k) * g(j, l) + g(i, l) * g(j, k));
    MC_CHECK(c, mc::near(M[p][q], ex, 1e-9, 1e-9), "MakeConstMatrix3D[%d][%d] = %g, expected %g", p, q, M[p][q], ex);
  }
}

static void invertible(mc::Ch &c) {
  int a = c.choose(8), b = c.choose(8), d = c.choose(8), f = c.choose(8);
  int id[4] = {a, b, d, f}, rm = c.choose(2), def = 1 + c.choose(3), refl = c.choose(2), mat = c.choose(2);
  double X[4][3]; VD x(12);
  for (int i = 0; i < 4; ++i) { double p[3] = {double(id[i] & 1), double(id[i] >> 1 & 1), double(id[i] >> 2)}; map3(rm, p, X[i]); double q[3] = {p[0], p[1] * (refl ? -.7 : 1.3), p[2] * .8}; map3(def, q, &x[i * 3]); }
  double u[3], v[3], w[3], n[3]; sub3(u, X[1], X[0]); sub3(v, X[2], X[0]); sub3(w, X[3], X[0]); cross3(n, u, v);
  if (dot3(n, w) < .01) c.skip();
  c.commit();
  // F from the edges; singular values from the characteristic polynomial of FtF via Jacobi
  double D[9], I[9], E[9], F[9] = {};
  for (int k = 0; k < 3; ++k) { D[k * 3] = u[k]; D[k * 3 + 1] = v[k]; D[k * 3 + 2] = w[k]; for (int j = 0; j < 3; ++j) E[k * 3 + j] = x[(j + 1) * 3 + k] - x[k]; }
  double det = dot3(n, w);
  for (int r = 0; r < 3; ++r) for (int s = 0; s < 3; ++s) { int r1 = (r + 1) % 3, r2 = (r + 2) % 3, s1 = (s + 1) % 3, s2 = (s + 2) % 3; I[s * 3 + r] = (D[r1 * 3 + s1] * D[r2 * 3 + s2] - D[r1 * 3 + s2] * D[r2 * 3 + s1]) / det; }
  for (int r = 0; r < 3; ++r) for (int s = 0; s < 3; ++s) for (int k = 0; k < 3; ++k) F[r * 3 + s] += E[r * 3 + k] * I[k * 3 + s];
  auto dg = [&](const VD &y) { auto o = [](const double *q) { return V3(q[0], q[1], q[2]); }; auto G = dfm2::DeformationGradientOfTet(o(X[0]), o(X[1]), o(X[2]), o(X[3]), o(&y[0]), o(&y[3]), o(&y[6]), o(&y[9])); return VD(G.begin(), G.end()); };
  VD Fl = dg(x);
  cmp(c, "DeformationGradientOfTet", VD(Fl.begin(), Fl.end()), VD(F, F + 9), 1e-9, 1e-11);
  double dF[4][3]; dfm2::DiffDeformationGradientOfTet(dF, X[0], X[1], X[2], X[3]);
  { VD J = jac(dg, x), ex(108, 0.0);
    for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) for (int j = 0; j < 3; ++j) ex[(i * 3 + k) * 9 + k * 3 + j] = dF[i][j];
    cmp(c, "DiffDeformationGradientOfTet", J, ex, 1e-8); }
  auto law = [&](double dW[3], double ddW[3][3], double l0, double l1, double l2) {
    double l[3] = {l0, l1, l2}, s = 0, W = 0, k = mat ? .8 : 0.; for (double z: l) s += z - 1;
    for (int i = 0; i < 3; ++i) { dW[i] = l[i] - 1 + k * s; W += .5 * (l[i] - 1) * (l[i] - 1); for (int j = 0; j < 3; ++j) ddW[i][j] = k + (i == j); }
    return W + .5 * k * s * s; };
  // singular values must be apart: the decomposition is not differentiable otherwise
  double A[9] = {}; for (int r = 0; r < 3; ++r) for (int s = 0; s < 3; ++s) for (int k = 0; k < 3; ++k) A[r * 3 + s] += F[k * 3 + r] * F[k * 3 + s];
  double l[3]; { // eigenvalues of the symmetric A
    double q = (A[0] + A[4] + A[8]) / 3, B[9]; for (int i = 0; i < 9; ++i) B[i] = A[i] - (i % 4 == 0 ? q : 0); double p = 0; for (double z: B) p += z * z; p = std::sqrt(p / 6);
    double dt = B[0] * (B[4] * B[8] - B[5] * B[7]) - B[1] * (B[3] * B[8] - B[5] * B[6]) + B[2] * (B[3] * B[7] - B[4] * B[6]);
    double ph = p > 1e-12 ? std::acos(std::max(-1., std::min(1., dt / (2 * p * p * p)))) / 3 : 0;
    for (int i = 0; i < 3; ++i) l[i] = std::sqrt(std::max(0., q + 2 * p * std::cos(ph + 2 * M_PI * i / 3))); }
  std::sort(l, l + 3);
  double detF = F[0] * (F[4] * F[8] - F[5] * F[7]) - F[1] * (F[3] * F[8] - F[5] * F[6]) + F[2] * (F[3] * F[7] - F[4] * F[6]);
  En e = [&](const VD &y, VD &g, VD &H) {
    double d1[4][3], d2[4][4][3][3], p[4][3]; std::copy_n(y.data(), 12, &p[0][0]);
    double W = dfm2::WdWddW_InvertibleFEM(d1, d2, X, p, law);
    g.assign(&d1[0][0], &d1[0][0] + 12); H.resize(144);
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) for (int s = 0; s < 3; ++s) for (int t = 0; t < 3; ++t) H[(i * 3 + s) * 12 + j * 3 + t] = d2[i][j][s][t];
    return W; };
  if (l[1] - l[0] < .08 || l[2] - l[1] < .08 || l[0] < .08) { c.outcome(2); return; }
  VD g, H; double W = e(x, g, H);
  if (detF > 0) { double a1[3], a2[3][3]; cmp1(c, "WdWddW_InvertibleFEM value", W, law(a1, a2, l[0], l[1], l[2]), 1e-7); }
  energy(c, "WdWddW_InvertibleFEM", x, e, EXACT | RIGID, 2e-5);
}

// ---------- contact and assembly of cloth
struct PlaneIn : dfm2::CInput_Contact {
  double n[3], o;
  double penetrationNormal(double &nx, double &ny, double &nz, double px, double py, double pz) const override { nx = n[0]; ny = n[1]; nz = n[2]; return o - (n[0] * px + n[1] * py + n[2] * pz); }
};
struct Dense { // a block sparse matrix whose pattern holds every pair
  dfm2::CMatrixSparse<double> m; VD a; int nb = 0;
  void init(int b, int) { nb = b; m.Initialize(U(b), 3, true); std::vector<U> p{0}, q; for (int i = 0; i < b; ++i) { for (int j = 0; j < b; ++j) if (i != j) q.push_back(U(j)); p.push_back(U(q.size())); } m.SetPattern(p.data(), p.size(), q.data(), q.size()); m.setZero(); }
  void read() {
    int N = nb * 3; a.assign(size_t(N) * N, 0.0);
    for (int i = 0; i < nb; ++i) { for (int s = 0; s < 3; ++s) for (int t = 0; t < 3; ++t) { a[size_t(i * 3 + s) * N + i * 3 + t] += m.val_dia_[i * 9 + s * 3 + t]; for (U k = m.col_ind_[i]; k < m.col_ind_[i + 1]; ++k) a[size_t(i * 3 + s) * N + m.row_ptr_[k] * 3 + t] += m.val_crs_[k * 9 + s * 3 + t]; } }
  }
};
static void cloth(mc::Ch &c) {
  // meshes: two triangles, a strip of four, a fan around a vertex
  static const std::vector<std::vector<U>> TRI = {{0, 1, 2, 2, 1, 3}, {0, 1, 2, 2, 1, 3, 2, 3, 4, 4, 3, 5}, {0, 1, 2, 0, 2, 3, 0, 3, 4, 0, 4, 1}};
  static const std::vector<std::vector<double>> XY = {{0, 0, 1, 0, 0, 1, 1.2, 1.1}, {0, 0, 1, 0, 0, 1, 1, 1, 0, 2, 1.1, 2.2}, {0, 0, 1, 0, 0, 1, -1, .1, .1, -1}};
  int mesh = c.choose(3), rot = c.choose(6), ndim = 2 + c.choose(2), def = c.choose(4);
  const double *lm = LM[c.choose(3)]; double kb = c.pick({0., 1.5});
  int plane = c.choose(3);
  c.commit();
  const auto &T0 = TRI[mesh]; const auto &xy = XY[mesh]; int np = int(xy.size() / 2), nt = int(T0.size() / 3);
  auto id = [&](U i) { return U((i + rot) % np); }; // relabelling
  std::vector<U> T; for (U i: T0) T.push_back(id(i));
  VD X0(np * ndim), X03(np * 3), x(np * 3);
  for (int i = 0; i < np; ++i) { U k = id(U(i)); double p[3] = {xy[i * 2], xy[i * 2 + 1], 0}; for (int d = 0; d < ndim; ++d) X0[k * ndim + d] = p[d]; for (int d = 0; d < 3; ++d) X03[k * 3 + d] = p[d]; p[2] = .2 * ((i * 7) % 3); map3(def, p, &x[k * 3]); }
  std::vector<U> Q;
  for (int t = 0; t < nt; ++t) for (int s = t + 1; s < nt; ++s) for (int e = 0; e < 3; ++e) for (int f = 0; f < 3; ++f) {
    U a = T[t * 3 + (e + 1) % 3], b = T[t * 3 + (e + 2) % 3];
    if (T[s * 3 + (f + 1) % 3] == b && T[s * 3 + (f + 2) % 3] == a) { Q.insert(Q.end(), {T[t * 3 + e], T[s * 3 + f], a, b}); }
  }
  int N = np * 3; double We = 0; VD ge(N, 0.0), He(size_t(N) * N, 0.0);
  for (int t = 0; t < nt; ++t) {
    double P[3][3], p[3][3], W, d[3][3], dd[3][3][3][3];
    for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) { P[i][k] = X03[T[t * 3 + i] * 3 + k]; p[i][k] = x[T[t * 3 + i] * 3 + k]; }
    dfm2::WdWddW_CST(W, d, dd, P, p, lm[0], lm[1]); We += W;
    for (int i = 0; i < 3; ++i) for (int a = 0; a < 3; ++a) { ge[T[t * 3 + i] * 3 + a] += d[i][a]; for (int j = 0; j < 3; ++j) for (int b = 0; b < 3; ++b) He[(T[t * 3 + i] * 3 + a) * N + T[t * 3 + j] * 3 + b] += dd[i][j][a][b]; }
  }
  for (size_t q = 0; q < Q.size() / 4; ++q) {
    double P[4][3], p[4][3], W, d[4][3], dd[4][4][3][3];
    for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) { P[i][k] = X03[Q[q * 4 + i] * 3 + k]; p[i][k] = x[Q[q * 4 + i] * 3 + k]; }
    dfm2::WdWddW_Bend(W, d, dd, P, p, kb); We += W;
    for (int i = 0; i < 4; ++i) for (int a = 0; a < 3; ++a) { ge[Q[q * 4 + i] * 3 + a] += d[i][a]; for (int j = 0; j < 4; ++j) for (int b = 0; b < 3; ++b) He[(Q[q * 4 + i] * 3 + a) * N + Q[q * 4 + j] * 3 + b] += dd[i][j][a][b]; }
  }
  Dense A; A.init(np, 3); VD g(N, .5);
  double W = dfm2::MergeLinSys_Cloth(A.m, g.data(), lm[0], lm[1], kb, X0.data(), U(np), U(ndim), T.data(), U(nt), Q.data(), U(Q.size() / 4), x.data());
  for (double &z: g) z -= .5;
  A.read();
  cmp1(c, "MergeLinSys_Cloth energy", W, We); cmp(c, "MergeLinSys_Cloth gradient", g, ge, 1e-10, 1e-11); cmp(c, "MergeLinSys_Cloth hessian", A.a, He, 1e-10, 1e-11);
  double W2 = .25; VD g2(N, .5); AddWdW_Cloth(W2, g2, x, X03, T, Q, lm[0], lm[1], kb); for (double &z: g2) z -= .5;
  cmp1(c, "AddWdW_Cloth energy", W2 - .25, We); cmp(c, "AddWdW_Cloth gradient", g2, ge, 1e-10, 1e-11);
  { const double gr[3] = {.3, -9.8, 1}; VD g3(N, .5); double Wg = AddWdW_Gravity(g3, x, gr, 2.), ex = 0; for (int i = 0; i < np; ++i) ex -= 2. * dot3(gr, &x[i * 3]); cmp1(c, "AddWdW_Gravity energy", Wg, ex); for (int i = 0; i < N; ++i) MC_CHECK(c, std::fabs(g3[i] - .5 + 2 * gr[i % 3]) < 1e-12, "AddWdW_Gravity gradient"); }
  // contact with a plane
  PlaneIn in; const double NN[3][3] = {{0, 0, 1}, {.6, 0, .8}, {0, -1, 0}}; std::copy_n(NN[plane], 3, in.n); in.o = .3;
  Dense B; B.init(np, 3); VD gc(N, .5); double kc = 7, cl = .1;
  double Wc = dfm2::MergeLinSys_Contact(B.m, gc.data(), kc, cl, in, x.data(), np);
  double ec = 0; VD eg(N, 0.0), eh(size_t(N) * N, 0.0); bool edge = false;
  for (int i = 0; i < np; ++i) { double pd = in.o + cl - dot3(in.n, &x[i * 3]); if (std::fabs(pd) < 1e-9) edge = true; if (pd <= 0) continue; ec += .5 * kc * pd * pd; for (int a = 0; a < 3; ++a) { eg[i * 3 + a] -= kc * pd * in.n[a]; for (int b = 0; b < 3; ++b) eh[(i * 3 + a) * N + i * 3 + b] += kc * in.n[a] * in.n[b]; } }
  for (double &z: gc) z -= .5;
  B.read();
  if (!edge) { cmp1(c, "MergeLinSys_Contact energy", Wc, ec); cmp(c, "MergeLinSys_Contact gradient", gc, eg, 1e-10, 1e-11); cmp(c, "MergeLinSys_Contact hessian", B.a, eh, 1e-10, 1e-11); }
  c.outcome_of(int(We * 1000));
}
int main(int argc, char **argv) {
  std::cout.rdbuf(nullptr);
  return mc::run(argc, argv, {"C21", "exploration",
    {"derivatives are judged by fourth-order differences to six or seven digits, away from the configurations where the energy itself is singular (collapsed triangles, folded rods, coinciding singular values)",
     "approximate hessians are judged by what they approximate: Gauss-Newton for planar and Darboux rods, a convexified stress for the membrane in compression",
     "hessians with respect to twisting frames are judged in their symmetric part (the frame's holonomy is second order)"}},
    {{"membrane", membrane, "all rest triangles of a 3x3 grid, 4 maps, 3 stretches, out-of-plane and sheared corners, 3 materials, two rest placements"},
     {"lengths", lengths, "all tetrahedra of distinct cube corners, 4 maps, 4 rest maps"},
     {"bending", bending, "all pairs of triangles on cube corners, 3 maps, 8 rest shapes"},
     {"rods", rods, "all polylines of three cube corners, 4 maps, stiffnesses"},
     {"rod_darboux", rod_darboux, "all polylines of three cube corners, 3 maps, 16 director pairs, stiffnesses, rest strains"},
     {"hyper", hyper, "hexahedra: 4 rest maps, 4 deformations, every node moved, 3 quadratures"},
     {"hyper2", hyper2, "plane strain: 256 displacement gradients (625 in thorough), 3 x 2 x 3 materials"},
     {"constmat3", constmat3, "all bases of 13 (27) grid vectors, 3 materials"},
     {"invertible", invertible, "all positive tetrahedra on cube corners, deformed or inverted, 2 materials"},
     {"cloth", cloth, "3 meshes relabelled, 2 and 3 dimensional rest shapes, planes of contact"}});
}
