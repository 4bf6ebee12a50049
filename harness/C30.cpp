// C30: mesh deformers against dense oracles built from the definition of their energies.
#include "mc.h"
#include <cassert>
#include <cmath>
#include <cstring>
#include <algorithm>
#include <vector>
#include <array>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/mat3.h"
#include "delfem2/quat.h"
#include "delfem2/deflap.h"
#include "delfem2/defarap.h"
#include "delfem2/defarapenergy_geo3.h"
#include "delfem2/cagedef.h"
#include "delfem2/jagarray.h"
#include "delfem2/msh_topology_uniform.h"
namespace dfm2 = delfem2;
using LD = long double;
using VD = std::vector<double>;
using VU = std::vector<unsigned int>;
using ML = std::vector<LD>;       // row major n x n
static bool solve(ML A, std::vector<LD> b, std::vector<LD> &x) {
  int n = (int) b.size();
  for (int k = 0; k < n; k++) {
    int p = k;
    for (int i = k + 1; i < n; i++) if (fabsl(A[i * n + k]) > fabsl(A[p * n + k])) p = i;
    if (fabsl(A[p * n + k]) < 1e-13L) return false;
    if (p != k) { for (int j = 0; j < n; j++) std::swap(A[p * n + j], A[k * n + j]); std::swap(b[p], b[k]); }
    for (int i = k + 1; i < n; i++) { LD f = A[i * n + k] / A[k * n + k]; if (f == 0) continue; for (int j = k; j < n; j++) A[i * n + j] -= f * A[k * n + j]; b[i] -= f * b[k]; }
  }
  x.assign(n, 0);
  for (int i = n - 1; i >= 0; i--) { LD s = b[i]; for (int j = i + 1; j < n; j++) s -= A[i * n + j] * x[j]; x[i] = s / A[i * n + i]; }
  return true;
}
static LD nrm(const std::vector<LD> &v) { LD s = 0; for (auto x: v) s += x * x; return sqrtl(s); }
// ---- meshes
struct Mesh { const char *nm; VD xyz; VU tri; };
static Mesh mesh(int k) {
  switch (k) {
    case 0: return {"triangle", {0, 0, 0, 2, 0, 1, 0, 1, 0}, {0, 1, 2}};
    case 1: return {"two triangles", {0, 0, 0, 1, 0, 0.5, 1, 1, 0, 0, 1.5, 0}, {0, 1, 2, 2, 3, 0}};
    case 2: return {"tetrahedron", {0, 0, 0, 1, 0, 0, 0, 2, 0, 0, 0, 1}, {0, 2, 1, 0, 1, 3, 1, 2, 3, 0, 3, 2}};
    case 3: return {"fan", {0, 0, 1, 1, 0, 0, 0, 1, 0, -1, 0, 0, 0, -1, 0}, {0, 1, 2, 0, 2, 3, 0, 3, 4, 0, 4, 1}};
    case 4: return {"strip", {0, 0, 0, 1, 0, 1, 2, 0, 0, 0, 1, 0, 1, 1, 0, 2, 1, 1}, {4, 3, 0, 0, 1, 4, 1, 2, 5, 5, 4, 1}};
    case 5: return {"octahedron", {1, 0, 0, -1, 0, 0, 0, 1, 0, 0, -1, 0, 0, 0, 2, 0, 0, -1}, {0, 2, 4, 2, 1, 4, 1, 3, 4, 3, 0, 4, 2, 0, 5, 1, 2, 5, 3, 1, 5, 0, 3, 5}};
    default: { Mesh m{"grid", {}, {}}; int n = 4; for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) { m.xyz.push_back(i); m.xyz.push_back(j); m.xyz.push_back(((i * 3 + j * 5) % 4) / 4.); } for (int j = 0; j + 1 < n; j++) for (int i = 0; i + 1 < n; i++) { unsigned a = j * n + i; for (unsigned v: {a, a + 1, a + n + 1, a, a + n + 1, a + n}) m.tri.push_back(v); } return m; }
  }
}
static std::vector<VU> ring(const Mesh &m) {
  std::vector<VU> r(m.xyz.size() / 3);
  for (size_t t = 0; t < m.tri.size(); t += 3) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (i != j) r[m.tri[t + i]].push_back(m.tri[t + j]);
  for (auto &v: r) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); }
  return r;
}
// ---- boundary conditions: subset of vertices fully fixed, or single coordinates of two vertices
static std::vector<int> pickBC(mc::Ch &c, int np) {
  std::vector<int> f(np * 3, 0);
  if (np <= 6) {
    int mask = 1 + c.choose((1 << np) - 1);
    for (int i = 0; i < np; i++) if (mask >> i & 1) for (int d = 0; d < 3; d++) f[i * 3 + d] = 1 + (i % 2);
  } else {
    int s = c.choose(4);
    for (int i = 0; i < np; i++) if (s == 0 ? i == 0 : s == 1 ? i < 4 : s == 2 ? (i == 5 || i == np - 1 || i == 0) : i % 3 == 0) for (int d = 0; d < 3; d++) f[i * 3 + d] = 1;
  }
  return f;
}
static std::vector<int> pickBC3(mc::Ch &c, int np) {       // also partially fixed vertices
  auto f = pickBC(c, np);
  int p = c.choose(4);
  if (p) { int v = c.choose(std::min(np, 4)); if (p == 3) v = np - 1; for (int d = 0; d < 3; d++) f[v * 3 + d] = (p == 1) ? d == 0 : (p == 2) ? d != 1 : d == 2; }
  int any[3] = {0, 0, 0};
  for (int i = 0; i < np * 3; i++) if (f[i]) any[i % 3] = 1;
  if (!any[0] || !any[1] || !any[2]) c.skip();
  return f;
}
static const double ROT[5][9] = {{1, 0, 0, 0, 1, 0, 0, 0, 1}, {0, -1, 0, 1, 0, 0, 0, 0, 1}, {0, 0, 1, 1, 0, 0, 0, 1, 0}, {-1, 0, 0, 0, -1, 0, 0, 0, 1}, {0.6, 0, 0.8, 0, 1, 0, -0.8, 0, 0.6}};
static const double QROT[5][4] = {{0, 0, 0, 1}, {0, 0, M_SQRT1_2, M_SQRT1_2}, {0.5, 0.5, 0.5, 0.5}, {0, 0, 1, 0}, {0, 0.4472135954999579, 0, 0.8944271909999159}};
static VD rigid(const VD &x, int r, double tx, double ty, double tz) {
  VD y(x.size());
  double T[3] = {tx, ty, tz};
  for (size_t i = 0; i < x.size(); i += 3) for (int d = 0; d < 3; d++) y[i + d] = ROT[r][d * 3] * x[i] + ROT[r][d * 3 + 1] * x[i + 1] + ROT[r][d * 3 + 2] * x[i + 2] + T[d];
  return y;
}
// the position before deformation: rest with fixed dofs moved
static VD pickMotion(mc::Ch &c, const VD &x0, const std::vector<int> &f, std::string &nm) {
  int k = c.choose(6);
  VD y = x0, g;
  nm = k == 0 ? "rest" : k == 1 ? "translated handles" : k == 2 ? "rotated handles" : k == 3 ? "first handle moved" : k == 4 ? "all moved rigidly" : "everything displaced";
  if (k == 1) g = rigid(x0, 0, 0.5, -1, 2);
  if (k == 2 || k == 4) g = rigid(x0, 1, 0.5, 0, 0);
  if (k == 3) { g = x0; for (size_t i = 0; i < f.size(); i++) if (f[i]) { g[i] += 1; break; } }
  if (k == 5) { for (size_t i = 0; i < y.size(); i++) y[i] += ((i * 7) % 5) / 8. - 0.25; return y; }
  if (k) for (size_t i = 0; i < y.size(); i++) if (f[i] || k == 4) y[i] = g[i];
  return y;
}
static ML lap(const std::vector<VU> &R) {      // graph Laplacian with integer weights
  int np = (int) R.size();
  ML L(np * np, 0);
  for (int i = 0; i < np; i++) { L[i * np + i] = R[i].size(); for (auto j: R[i]) L[i * np + j] -= 1; }
  return L;
}
struct Sys { int n; ML A; const LD &operator()(int i, int j) const { return A[i * n + j]; } explicit Sys(int n_) : n(n_), A(n_ * n_, 0) {} LD &operator()(int i, int j) { return A[i * n + j]; }
  std::vector<LD> mul(const std::vector<LD> &v) const { std::vector<LD> r(n, 0); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i] += A[i * n + j] * v[j]; return r; } };
// L^T L per coordinate plus penalties
static Sys bilap(const std::vector<VU> &R, const std::vector<int> &f, LD wbc, const std::vector<std::pair<unsigned, std::array<double, 3>>> &nr, LD wn) {
  int np = (int) R.size();
  ML L = lap(R);
  Sys S(np * 3);
  for (int i = 0; i < np; i++) for (int j = 0; j < np; j++) { LD s = 0; for (int k = 0; k < np; k++) s += L[k * np + i] * L[k * np + j]; for (int d = 0; d < 3; d++) S(i * 3 + d, j * 3 + d) = s; }
  for (int i = 0; i < np * 3; i++) if (f[i]) S(i, i) += wbc;
  for (auto &q: nr) for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) S(q.first * 3 + a, q.first * 3 + b) += wn * q.second[a] * q.second[b];
  return S;
}
static std::vector<LD> bilapRhs(const std::vector<VU> &R, const VD &x0, const VD &x1) {
  int np = (int) R.size();
  ML L = lap(R);
  std::vector<LD> d(np * 3, 0), b(np * 3, 0);
  for (int i = 0; i < np; i++) for (int j = 0; j < np; j++) for (int k = 0; k < 3; k++) d[i * 3 + k] += L[i * np + j] * ((LD) x0[j * 3 + k] - x1[j * 3 + k]);
  for (int i = 0; i < np; i++) for (int j = 0; j < np; j++) for (int k = 0; k < 3; k++) b[i * 3 + k] += L[j * np + i] * d[j * 3 + k];
  return b;
}
static void resid(mc::Ch &c, const Sys &S, const std::vector<LD> &b, const VD &before, const VD &after, LD tol, const char *nm) {
  std::vector<LD> u(b.size());
  for (size_t i = 0; i < b.size(); i++) u[i] = (LD) after[i] - before[i];
  auto r = S.mul(u);
  for (size_t i = 0; i < b.size(); i++) r[i] -= b[i];
  LD rn = nrm(r), bn = nrm(b);
  MC_CHECK(c, rn == rn && rn <= tol * bn + 1e-10L, "%s: the update leaves the residual %.3Lg of a right hand side %.3Lg; positions %s -> %s", nm, rn, bn, mc::str(before).c_str(), mc::str(after).c_str());
}
template<class D> static void matvec(mc::Ch &c, const D &def, const Sys &S, const char *nm) {
  for (double al: {1., -2.5}) for (double be: {0., 0.5}) {
    VD v(S.n), y(S.n), y0;
    for (int i = 0; i < S.n; i++) { v[i] = (i * 5 % 7) - 3; y[i] = (i % 4) - 1; }
    y0 = y;
    def.MatVec(y.data(), al, v.data(), be);
    auto r = S.mul(std::vector<LD>(v.begin(), v.end()));
    for (int i = 0; i < S.n; i++) { LD ex = al * r[i] + be * y0[i]; MC_CHECK(c, fabsl(y[i] - ex) <= 1e-9L * (1 + fabsl(ex)), "%s: product with factors %g, %g has %.12g at %d, must be %.12g", nm, al, be, y[i], i, (double) ex); }
  }
}
static void checkMoves(mc::Ch &c, const char *nm, const std::string &mv, const VD &x0, const VD &x1, const VD &y, LD tol) {
  if (mv == "rest") for (size_t i = 0; i < y.size(); i++) MC_CHECK(c, fabs(y[i] - x0[i]) <= 1e-9, "%s: coordinate %zu moves from %g to %g though no handle does", nm, i, x0[i], y[i]);
  if (mv == "translated handles") { double T[3] = {0.5, -1, 2}; for (size_t i = 0; i < y.size(); i++) MC_CHECK(c, fabs(y[i] - x0[i] - T[i % 3]) <= tol, "%s: coordinate %zu goes from %g to %g under a translation by %g", nm, i, x0[i], y[i], T[i % 3]); }
}
template<class T> static void deformLin(mc::Ch &c, int km, bool prec, const char *nm) {
  Mesh m = mesh(km);
  auto R = ring(m);
  int np = (int) R.size();
  auto f = pickBC3(c, np);
  std::string mv;
  VD x1 = pickMotion(c, m.xyz, f, mv);
  int kn = c.choose(3);
  double wb = c.pick({100., 7.});
  c.commit();
  c.describe("%s on %s, fixed %s, %s, sliding %d, weight %g, preconditioner %d", nm, m.nm, mc::str(f).c_str(), mv.c_str(), kn, wb, prec);
  T def;
  if (c.replay || km % 2) { Mesh o = mesh(3); def.Init(o.xyz, o.tri, prec); VD z = o.xyz; def.aBCFlag.assign(z.size(), 1); z[0] += 1; if constexpr (std::is_same_v<T, dfm2::CDef_LaplacianLinear>) def.SetValueToPreconditioner(); else def.SetBoundaryConditionToPreconditioner(); def.Deform(z, o.xyz); }   // reused object
  def.Init(m.xyz, m.tri, prec);
  std::vector<std::pair<unsigned, std::array<double, 3>>> nr;
  if (kn) { nr.push_back({0, {0.6, 0, 0.8}}); if (kn == 2) nr.push_back({(unsigned) np - 1, {0, 1, 0}}); }
  def.aBCFlag = f;
  def.weight_bc = wb;
  def.weight_nrm = 30;
  def.aIdpNrm.clear();
  for (auto &q: nr) def.aIdpNrm.push_back({q.first, dfm2::CVec3d(q.second.data())});
  def.conv_tol = 1e-11;
  if constexpr (std::is_same_v<T, dfm2::CDef_LaplacianLinear>) def.SetValueToPreconditioner(); else def.SetBoundaryConditionToPreconditioner();
  Sys S = bilap(R, f, wb, nr, 30);
  matvec(c, def, S, nm);
  for (int rep = 0; rep < 2; rep++) {      // deforming again from the result must solve the same kind of system again
    VD y = x1;
    def.Deform(y, m.xyz);
    resid(c, S, bilapRhs(R, m.xyz, x1), x1, y, 1e-8L, nm);
    if (nr.empty()) checkMoves(c, nm, mv, m.xyz, x1, y, 1e-5L);
    x1 = y;
    mv = "again";
    c.outcome_of(y);
  }
}
static void lapLinear(mc::Ch &c) { int k = c.choose(7); deformLin<dfm2::CDef_LaplacianLinear>(c, k, c.flip(), "CDef_LaplacianLinear"); }
static void lapDegen(mc::Ch &c) { int k = c.choose(7); deformLin<dfm2::CDef_LaplacianLinearDegenerate>(c, k, c.flip(), "CDef_LaplacianLinearDegenerate"); }
static void lapGram(mc::Ch &c) {
  Mesh m = mesh(c.choose(7));
  bool prec = c.flip();
  auto R = ring(m);
  int np = (int) R.size();
  auto f = pickBC3(c, np);
  std::string mv;
  VD x1 = pickMotion(c, m.xyz, f, mv);
  double wb = c.pick({100., 7.});
  c.commit();
  c.describe("CDef_LaplacianLinearGram on %s, fixed %s, %s, weight %g, preconditioner %d", m.nm, mc::str(f).c_str(), mv.c_str(), wb, prec);
  dfm2::CDef_LaplacianLinearGram def;
  def.Init(m.xyz, m.tri, prec);
  def.aBCFlag = f;
  def.weight_bc = wb;
  def.SetBoundaryConditionToPreconditioner();
  Sys S = bilap(R, f, wb, {}, 0);
  VD y = x1;
  def.Deform(y, m.xyz);
  matvec(c, def, S, "CDef_LaplacianLinearGram");
  resid(c, S, bilapRhs(R, m.xyz, x1), x1, y, 2e-7L, "CDef_LaplacianLinearGram");
  checkMoves(c, "CDef_LaplacianLinearGram", mv, m.xyz, x1, y, 2e-3L);
  c.outcome_of(y);
}
// Does textbook BiCGStab, started from zero, meet a nearly vanishing pivot on this system (a breakdown of the method)?
static bool breaksDown(const Sys &A, const std::vector<LD> &b) {
  auto dt = [](const std::vector<LD> &x, const std::vector<LD> &y) { LD s = 0; for (size_t i = 0; i < x.size(); i++) s += x[i] * y[i]; return s; };
  std::vector<LD> r = b, r2 = b, p = b;
  LD nb = nrm(b), rr = dt(r, r);
  if (nb == 0) return false;
  for (size_t it = 0; it < 40; it++) {
    auto ap = A.mul(p);
    LD den = dt(r2, ap);
    if (fabsl(den) < 1e-5L * nrm(r2) * nrm(ap)) return true;
    LD al = rr / den;
    auto s = r;
    for (size_t i = 0; i < s.size(); i++) s[i] -= al * ap[i];
    if (nrm(s) < 1e-7L * nb) return false;
    auto as = A.mul(s);
    LD num = dt(as, s);
    if (fabsl(num) < 1e-5L * nrm(as) * nrm(s)) return true;
    LD om = num / dt(as, as);
    for (size_t i = 0; i < s.size(); i++) r[i] = s[i] - om * as[i];
    if (nrm(r) < 1e-7L * nb) return false;
    LD t = dt(r2, r);
    if (fabsl(t) < 1e-5L * nrm(r2) * nrm(r)) return true;
    LD be = t / rr * (al / om);
    rr = t;
    for (size_t i = 0; i < p.size(); i++) p[i] = r[i] + be * (p[i] - om * ap[i]);
  }
  return true;
}
static void lapAsym(mc::Ch &c) {
  Mesh m = mesh(c.choose(7));
  auto R = ring(m);
  int np = (int) R.size();
  auto f = pickBC3(c, np);
  auto f2 = np <= 6 && c.flip() ? [&] { std::vector<int> g(np * 3, 0); for (int d = 0; d < 3; d++) g[(np - 1) * 3 + d] = 1; return g; }() : f;
  std::string mv;
  VD x1 = pickMotion(c, m.xyz, f, mv);
  c.commit();
  c.describe("CDef_LaplacianLinearAsym on %s, fixed %s then %s, %s", m.nm, mc::str(f).c_str(), mc::str(f2).c_str(), mv.c_str());
  dfm2::CDef_LaplacianLinearAsym def;
  def.Init(m.xyz, m.tri);
  ML L = lap(R);
  for (int rep = 0; rep < 2; rep++) {
    auto &g = rep ? f2 : f;
    VD y = x1;
    Sys A(np * 3);
    std::vector<LD> rhs(np * 3, 0);
    for (int i = 0; i < np * 3; i++) {
      if (g[i]) { A(i, i) = 1; rhs[i] = x1[i]; continue; }
      for (int j = 0; j < np; j++) { A(i, j * 3 + i % 3) = L[(i / 3) * np + j]; rhs[i] += L[(i / 3) * np + j] * m.xyz[j * 3 + i % 3]; }
    }
    if (breaksDown(A, rhs)) { if (rep) return; c.skip(); }
    def.Deform(y, m.xyz, g);
    // rows of free coordinates: L y = L x0; fixed rows: y = goal
    LD rn = 0, bn = 0;
    for (int i = 0; i < np * 3; i++) {
      LD r = 0, b = 0;
      if (g[i]) { r = (LD) y[i] - x1[i]; b = x1[i]; }
      else for (int j = 0; j < np; j++) { r += L[(i / 3) * np + j] * ((LD) y[j * 3 + i % 3] - m.xyz[j * 3 + i % 3]); b += L[(i / 3) * np + j] * m.xyz[j * 3 + i % 3]; }
      rn += r * r;
      bn += b * b;
    }
    MC_CHECK(c, rn == rn && sqrtl(rn) <= 3e-5L * sqrtl(bn) + 1e-9L, "CDef_LaplacianLinearAsym with the flags %s leaves the residual %.3Lg of %.3Lg: %s -> %s (deformation %d)", mc::str(g).c_str(), sqrtl(rn), sqrtl(bn), mc::str(x1).c_str(), mc::str(y).c_str(), rep + 1);
    c.outcome_of(y);
  }
}
// ---- as rigid as possible
static void edgeSystem(const std::vector<VU> &R, const VD &x0, const VD &x1, const VD *q, const std::vector<int> &f, LD w, Sys &S, std::vector<LD> &b) {
  int np = (int) R.size();
  for (int i = 0; i < np; i++) for (auto j: R[i]) {
    LD Rd[3];
    double d0[3], rd[3];
    for (int k = 0; k < 3; k++) d0[k] = x0[j * 3 + k] - x0[i * 3 + k];
    if (q) { dfm2::QuatVec(rd, q->data() + i * 4, d0); for (int k = 0; k < 3; k++) Rd[k] = rd[k]; } else for (int k = 0; k < 3; k++) Rd[k] = d0[k];
    // residual row: R d0 + w_i x R d0 - (d1 + u_j - u_i)
    for (int k = 0; k < 3; k++) {
      std::vector<std::pair<int, LD>> J{{i * 3 + k, 1}, {(int) j * 3 + k, -1}};
      if (q) { int a = (k + 1) % 3, e = (k + 2) % 3; J.push_back({np * 3 + i * 3 + a, Rd[e]}); J.push_back({np * 3 + i * 3 + e, -Rd[a]}); }
      LD r = Rd[k] - ((LD) x1[j * 3 + k] - x1[i * 3 + k]);
      for (auto &p: J) { b[p.first] -= p.second * r; for (auto &s: J) S(p.first, s.first) += p.second * s.second; }
    }
  }
  for (int i = 0; i < np * 3; i++) if (f[i]) S(i, i) += w;
}
static void arapEdgeDisp(mc::Ch &c) {
  Mesh m = mesh(c.choose(7));
  auto R = ring(m);
  int np = (int) R.size();
  auto f = pickBC3(c, np);
  std::string mv;
  VD x1 = pickMotion(c, m.xyz, f, mv);
  double wb = c.pick({100., 7.});
  c.commit();
  c.describe("CDef_ArapEdgeLinearDisponly on %s, fixed %s, %s, weight %g", m.nm, mc::str(f).c_str(), mv.c_str(), wb);
  dfm2::CDef_ArapEdgeLinearDisponly def(m.xyz, m.tri, wb, f);
  Sys S(np * 3);
  std::vector<LD> b(np * 3, 0);
  edgeSystem(R, m.xyz, x1, nullptr, f, wb, S, b);
  matvec(c, def, S, "CDef_ArapEdgeLinearDisponly");
  VD y = x1;
  def.Deform(y, m.xyz);
  resid(c, S, b, x1, y, 2e-4L, "CDef_ArapEdgeLinearDisponly");
  checkMoves(c, "CDef_ArapEdgeLinearDisponly", mv, m.xyz, x1, y, 2e-2L);
  c.outcome_of(y);
}
static VD quats(int np, int k) { VD q(np * 4); for (int i = 0; i < np; i++) for (int d = 0; d < 4; d++) q[i * 4 + d] = QROT[k < 5 ? k : (i * 2 + 1) % 5][d]; return q; }
static void arapEdge(mc::Ch &c) {
  Mesh m = mesh(c.choose(7));
  bool prec = c.flip();
  auto R = ring(m);
  int np = (int) R.size();
  auto f = pickBC(c, np);
  std::string mv;
  VD x1 = pickMotion(c, m.xyz, f, mv);
  VD q = quats(np, c.pick({0, 1, 5}));
  double wb = c.pick({100., 7.});
  c.commit();
  c.describe("CDef_ArapEdge on %s, fixed %s, %s, rotations %s, preconditioner %d", m.nm, mc::str(f).c_str(), mv.c_str(), mc::str(q).c_str(), prec);
  dfm2::CDef_ArapEdge def;
  def.Init(m.xyz, m.tri, wb, f, prec);
  Sys S(np * 6);
  std::vector<LD> b(np * 6, 0);
  edgeSystem(R, m.xyz, x1, &q, f, wb, S, b);
  VD y = x1, q1 = q;
  def.Deform(y, q1, m.xyz);
  // the rotation update as a vector: q1 = exp(w) q
  VD before(np * 6, 0), after(np * 6, 0);
  bool big = false;
  for (int i = 0; i < np; i++) {
    const double *a = q1.data() + i * 4, *e = q.data() + i * 4;
    LD v[3], w = a[3] * e[3] + a[0] * e[0] + a[1] * e[1] + a[2] * e[2];
    for (int k = 0; k < 3; k++) { int s = (k + 1) % 3, t = (k + 2) % 3; v[k] = -(LD) a[3] * e[k] + (LD) e[3] * a[k] - ((LD) a[s] * e[t] - (LD) a[t] * e[s]); }
    LD s = sqrtl(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
    MC_CHECK(c, fabsl(s * s + w * w - 1) < 1e-6L, "CDef_ArapEdge makes the rotation of vertex %d no unit quaternion: %g %g %g %g", i, a[0], a[1], a[2], a[3]);
    LD ang = 2 * atan2l(s, w);
    if (ang > 6.2L) big = true;
    for (int k = 0; k < 3; k++) after[np * 3 + i * 3 + k] = (double) (s > 0 ? v[k] / s * ang : 2 * v[k]);
  }
  for (int i = 0; i < np * 3; i++) { before[i] = x1[i]; after[i] = y[i]; }
  // angles beyond a full turn cannot be recovered from the quaternions: judged only if the true update is smaller
  std::vector<LD> u;
  if (solve(S.A, b, u)) for (int i = 0; i < np; i++) if (sqrtl(u[np * 3 + i * 3] * u[np * 3 + i * 3] + u[np * 3 + i * 3 + 1] * u[np * 3 + i * 3 + 1] + u[np * 3 + i * 3 + 2] * u[np * 3 + i * 3 + 2]) > 3.0L) big = true;
  if (!big) {
    std::vector<LD> w(np * 6);
    resid(c, S, b, before, after, 3e-4L, "CDef_ArapEdge");
    matvec(c, def, S, "CDef_ArapEdge");
  }
  if (mv == "rest" && q == quats(np, 0)) for (int i = 0; i < np * 3; i++) MC_CHECK(c, fabs(y[i] - m.xyz[i]) < 1e-9, "CDef_ArapEdge: coordinate %d moves from %g to %g though no handle does", i, m.xyz[i], y[i]);
  c.outcome_of(y, q1);
}
// reduced Hessian of the one-ring energy around vertex ip (rotation eliminated)
static void ringHess(const VU &nb, int ip, const VD &x0, const double *quat, std::vector<std::vector<LD>> &H) {
  int n = (int) nb.size() + 1;
  std::vector<std::array<LD, 3>> v;
  for (auto j: nb) { double d[3], r[3]; for (int k = 0; k < 3; k++) d[k] = x0[j * 3 + k] - x0[ip * 3 + k]; dfm2::QuatVec(r, quat, d); v.push_back({r[0], r[1], r[2]}); }
  H.assign(n * 3, std::vector<LD>(n * 3, 0));
  ML W(9, 0);
  std::vector<std::vector<LD>> C(3, std::vector<LD>(n * 3, 0));     // H_wx
  for (size_t a = 0; a < v.size(); a++) for (int k = 0; k < 3; k++) {
    // residual: w x v - (u_j - u_i)
    LD jw[3] = {0, 0, 0};
    jw[(k + 1) % 3] = v[a][(k + 2) % 3];
    jw[(k + 2) % 3] = -v[a][(k + 1) % 3];
    int I = (n - 1) * 3 + k, J = (int) a * 3 + k;
    H[I][I] += 1; H[J][J] += 1; H[I][J] -= 1; H[J][I] -= 1;
    for (int r = 0; r < 3; r++) { for (int s = 0; s < 3; s++) W[r * 3 + s] += jw[r] * jw[s]; C[r][I] += jw[r]; C[r][J] -= jw[r]; }
  }
  for (int x = 0; x < n * 3; x++) {
    std::vector<LD> s;
    if (!solve(W, {C[0][x], C[1][x], C[2][x]}, s)) return;
    for (int y = 0; y < n * 3; y++) H[y][x] -= C[0][y] * s[0] + C[1][y] * s[1] + C[2][y] * s[2];
  }
}
static LD arapW(const std::vector<VU> &R, const VD &x0, const VD &x1, const VD &q) {
  LD w = 0;
  for (size_t i = 0; i < R.size(); i++) for (auto j: R[i]) { double d[3], r[3]; for (int k = 0; k < 3; k++) d[k] = x0[j * 3 + k] - x0[i * 3 + k]; dfm2::QuatVec(r, q.data() + i * 4, d); for (int k = 0; k < 3; k++) { LD e = (LD) r[k] - (x1[j * 3 + k] - x1[i * 3 + k]); w += e * e; } }
  return w / 2;
}
static std::vector<LD> arapG(const std::vector<VU> &R, const VD &x0, const VD &x1, const VD &q) {
  std::vector<LD> g(x0.size(), 0);
  for (size_t i = 0; i < R.size(); i++) for (auto j: R[i]) { double d[3], r[3]; for (int k = 0; k < 3; k++) d[k] = x0[j * 3 + k] - x0[i * 3 + k]; dfm2::QuatVec(r, q.data() + i * 4, d); for (int k = 0; k < 3; k++) { LD e = (LD) r[k] - (x1[j * 3 + k] - x1[i * 3 + k]); g[i * 3 + k] += e; g[j * 3 + k] -= e; } }
  return g;
}
static void psupOf(const Mesh &m, VU &ind, VU &ps) {
  dfm2::JArray_PSuP_MeshElem(ind, ps, m.tri.data(), m.tri.size() / 3, 3, m.xyz.size() / 3);
  dfm2::JArray_Sort(ind, ps);
}
static void arapEnergy(mc::Ch &c) {
  Mesh m = mesh(c.choose(7));
  auto R = ring(m);
  int np = (int) R.size();
  VD x1 = m.xyz;
  int km = c.choose(4);
  if (km == 1) x1 = rigid(m.xyz, 1, 1, 2, 3);
  if (km >= 2) for (size_t i = 0; i < x1.size(); i++) x1[i] += ((i * (km * 2 + 1)) % 5) / 4. - 0.5;
  int kq = c.choose(6);
  VD q = quats(np, kq);
  c.commit();
  c.describe("ARAP energy of %s, motion %d, rotations %d", m.nm, km, kq);
  VU ind, ps;
  psupOf(m, ind, ps);
  double W = dfm2::W_ArapEnergy(m.xyz, x1, q, ind, ps);
  LD ex = arapW(R, m.xyz, x1, q);
  MC_CHECK(c, fabsl(W - ex) <= 1e-10L * (1 + ex), "energy is %.12g, must be %.12g", W, (double) ex);
  VD g{7, 7};
  dfm2::dW_ArapEnergy(g, m.xyz, x1, q, ind, ps);
  auto ge = arapG(R, m.xyz, x1, q);
  MC_CHECK(c, g.size() == ge.size(), "gradient has %zu entries", g.size());
  for (size_t i = 0; i < g.size(); i++) MC_CHECK(c, fabsl(g[i] - ge[i]) <= 1e-10L * (1 + fabsl(ge[i])), "gradient at %zu is %.12g, must be %.12g", i, g[i], (double) ge[i]);
  for (int ip = 0; ip < np; ip++) {
    std::vector<std::vector<LD>> H;
    ringHess(R[ip], ip, m.xyz, q.data() + ip * 4, H);
    VU ip_(R[ip]);
    ip_.push_back(ip);
    VD eM{3};
    dfm2::ddW_ArapEnergy(eM, ip_, m.xyz, q);
    int n = (int) ip_.size();
    for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
      double v = eM[(a * n + b) * 9 + i * 3 + j];
      MC_CHECK(c, fabsl(v - H[a * 3 + i][b * 3 + j]) <= 1e-9L * n, "Hessian of the ring of vertex %d, block (%d,%d), entry (%d,%d) is %.12g, must be %.12g", ip, a, b, i, j, v, (double) H[a * 3 + i][b * 3 + j]);
    }
  }
  c.outcome_of(W, g);
}
static void arapRot(mc::Ch &c) {       // rotations fitted to rigid motions and in general
  Mesh m = mesh(c.choose(7));
  auto R = ring(m);
  int np = (int) R.size();
  int r = c.choose(6), kq = c.choose(6);
  c.commit();
  VD x1 = rigid(m.xyz, r % 5, 1, -2, 0.5);
  if (r == 5) for (size_t i = 0; i < x1.size(); i++) x1[i] += ((i * 3) % 5) / 16. - 0.125;
  VD q = quats(np, kq);
  c.describe("rotations of %s for motion %d from %d", m.nm, r, kq);
  VU ind, ps;
  psupOf(m, ind, ps);
  VD q1 = q;
  dfm2::UpdateQuaternions_Svd(q1, m.xyz, x1, ind, ps);
  for (int i = 0; i < np; i++) {
    const double *a = q1.data() + i * 4;
    MC_CHECK(c, fabs(a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3] - 1) < 1e-6, "rotation of vertex %d is no unit quaternion", i);
    if (r < 5) for (auto j: R[i]) {
      double d[3], rd[3];
      for (int k = 0; k < 3; k++) d[k] = m.xyz[j * 3 + k] - m.xyz[i * 3 + k];
      dfm2::QuatVec(rd, a, d);
      for (int k = 0; k < 3; k++) MC_CHECK(c, fabs(rd[k] - (x1[j * 3 + k] - x1[i * 3 + k])) < 1e-5, "fitted rotation of vertex %d takes the edge to %u to (%g,%g,%g) instead of (%g,%g,%g)", i, j, rd[0], rd[1], rd[2], x1[j * 3] - x1[i * 3], x1[j * 3 + 1] - x1[i * 3 + 1], x1[j * 3 + 2] - x1[i * 3 + 2]);
    }
  }
  // the fitted rotations minimise the energy: no small rotation of any vertex lowers it
  LD w1 = arapW(R, m.xyz, x1, q1);
  for (int i = 0; i < np; i++) for (int k = 0; k < 3; k++) for (double s: {-0.02, 0.02}) {
    VD q2 = q1;
    double a[3] = {0, 0, 0}, dq[4];
    a[k] = s;
    dfm2::Quat_CartesianAngle(dq, a);
    dfm2::QuatQuat(q2.data() + i * 4, dq, q1.data() + i * 4);
    LD w2 = arapW(R, m.xyz, x1, q2);
    MC_CHECK(c, w2 >= w1 - 1e-9L, "turning vertex %d lowers the energy from %.12g to %.12g", i, (double) w1, (double) w2);
  }
  // linear fit: one Gauss-Newton step, exact at a fitted state, and converging from a near one
  VD q3 = q1;
  for (int i = 0; i < np; i++) { double a[3] = {0.05, -0.04, 0.03}, dq[4], t[4]; dfm2::Quat_CartesianAngle(dq, a); dfm2::QuatQuat(t, dq, q3.data() + i * 4); for (int k = 0; k < 4; k++) q3[i * 4 + k] = t[k]; }
  LD w3 = arapW(R, m.xyz, x1, q3);
  for (int it = 0; it < 8; it++) dfm2::UpdateRotationsByMatchingCluster_Linear(q3, m.xyz, x1, ind, ps);
  LD w4 = arapW(R, m.xyz, x1, q3);
  MC_CHECK(c, w4 <= w3 + 1e-9L && w4 >= w1 - 1e-7L && w4 <= w1 + 1e-5L * (1 + w1), "linear fit goes from the energy %.9g to %.9g, the best fit has %.9g", (double) w3, (double) w4, (double) w1);
  c.outcome_of((double) w1, q1);
}
static bool singular(const Sys &S, const std::vector<int> &f) {   // of the free block: a pivot of the LDL^T factors vanishes
  std::vector<int> id;
  for (size_t i = 0; i < f.size(); i++) if (!f[i]) id.push_back((int) i);
  size_t n = id.size();
  std::vector<LD> a(n * n);
  LD sc = 0;
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) a[i * n + j] = S(id[i], id[j]);
  for (size_t i = 0; i < n; i++) sc = std::max(sc, a[i * n + i]);
  for (size_t k = 0; k < n; k++) {
    if (!(a[k * n + k] > 1e-3L * sc)) return true;
    for (size_t i = k + 1; i < n; i++) { LD m = a[i * n + k] / a[k * n + k]; for (size_t j = k; j < n; j++) a[i * n + j] -= m * a[k * n + j]; }
  }
  return false;
}
static void arap(mc::Ch &c) {
  int kind = c.choose(3);       // without and with preconditioner, prefactored variant
  Mesh m = mesh(c.choose(7));
  auto R = ring(m);
  int np = (int) R.size();
  auto f = pickBC(c, np);
  std::string mv;
  VD x1 = pickMotion(c, m.xyz, f, mv);
  VD q = quats(np, c.pick({0, 1, 5}));
  c.commit();
  c.describe("ARAP kind %d on %s, fixed %s, %s, rotations %s", kind, m.nm, mc::str(f).c_str(), mv.c_str(), mc::str(q).c_str());
  dfm2::Deformer_Arap d0;
  dfm2::Deformer_Arap2 d2;
  if (kind < 2) { if (np % 2) { Mesh o = mesh(2); d0.Init(o.xyz, o.tri, !kind); } d0.Init(m.xyz, m.tri, kind == 1); } else d2.Init(m.xyz, m.tri, q, f);
  for (int rep = 0; rep < 3; rep++) {
    Sys S(np * 3);
    if (kind < 2) {
      for (int ip = 0; ip < np; ip++) {
        std::vector<std::vector<LD>> H;
        ringHess(R[ip], ip, m.xyz, q.data() + ip * 4, H);
        VU id(R[ip]);
        id.push_back(ip);
        for (size_t a = 0; a < id.size(); a++) for (size_t b = 0; b < id.size(); b++) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) S(id[a] * 3 + i, id[b] * 3 + j) += H[a * 3 + i][b * 3 + j];
      }
    } else { ML L = lap(R); for (int i = 0; i < np; i++) for (int j = 0; j < np; j++) for (int k = 0; k < 3; k++) S(i * 3 + k, j * 3 + k) = 2 * L[i * np + j]; }
    if (singular(S, f)) { if (rep) return; c.skip(); }     // two handles leave a turn about their line undetermined
    VD y = x1, qq = q;
    if (kind < 2) d0.Deform(y, qq, m.xyz, f); else d2.Deform(y, qq, m.xyz, f);
    MC_CHECK(c, qq == q, "the deformer is documented to leave the rotations to the caller");
    for (int i = 0; i < np * 3; i++) if (f[i]) MC_CHECK(c, y[i] == x1[i], "fixed coordinate %d moves from %g to %g", i, x1[i], y[i]);
    auto g = arapG(R, m.xyz, x1, q);
    LD rn = 0, bn = 0;
    std::vector<LD> u(np * 3);
    for (int i = 0; i < np * 3; i++) u[i] = (LD) y[i] - x1[i];
    auto r = S.mul(u);
    LD un = nrm(u);
    for (int i = 0; i < np * 3; i++) if (!f[i]) { LD e = r[i] + g[i]; rn += e * e; bn += g[i] * g[i]; }
    MC_CHECK(c, rn == rn && sqrtl(rn) <= 2e-6L * sqrtl(bn) + 2e-5L * (kind < 2 ? 1e-3L : 1) * un + 1e-9L, "the update does not solve the quadratic approximation: residual %.3Lg of %.3Lg, %s -> %s", sqrtl(rn), sqrtl(bn), mc::str(x1).c_str(), mc::str(y).c_str());
    VD q1 = q;
    VU ind, ps;
    psupOf(m, ind, ps);
    if (kind == 2) MC_CHECK(c, arapW(R, m.xyz, y, q) <= arapW(R, m.xyz, x1, q) + 1e-9L, "global step raises the energy");
    dfm2::UpdateQuaternions_Svd(q1, m.xyz, y, ind, ps);
    MC_CHECK(c, arapW(R, m.xyz, y, q1) <= arapW(R, m.xyz, y, q) + 1e-7L, "local step raises the energy from %.9Lg to %.9Lg: %s -> %s, rotations %s -> %s", arapW(R, m.xyz, y, q), arapW(R, m.xyz, y, q1), mc::str(m.xyz).c_str(), mc::str(y).c_str(), mc::str(q).c_str(), mc::str(q1).c_str());
    if (rep == 0 && mv == "rest" && q == quats(np, 0)) for (int i = 0; i < np * 3; i++) MC_CHECK(c, fabs(y[i] - m.xyz[i]) < 1e-9, "coordinate %d moves from %g to %g though no handle does", i, m.xyz[i], y[i]);
    if (rep == 0 && mv == "all moved rigidly" && q == quats(np, 1)) for (int i = 0; i < np * 3; i++) MC_CHECK(c, fabs(y[i] - x1[i]) < 1e-6, "coordinate %d of a rigidly moved mesh moves from %g to %g", i, x1[i], y[i]);
    c.outcome_of(y, q1);
    x1 = y;
    q = q1;
  }
}
// rigidly moved handles: alternating steps must converge to the rigid motion
static void arapRigid(mc::Ch &c) {
  int kind = c.choose(3);
  Mesh m = mesh(2 + c.choose(5));
  auto R = ring(m);
  int np = (int) R.size();
  int r = c.pick({0, 4});
  int mask = np <= 6 ? c.choose(1 << np) : c.pick({0x1111, 0x8421, 0xf, 0x7003});
  if (__builtin_popcount(mask) < 3) c.skip();
  c.commit();
  std::vector<int> f(np * 3, 0);
  std::vector<int> fx;
  for (int i = 0; i < np; i++) if (mask >> i & 1) { fx.push_back(i); for (int d = 0; d < 3; d++) f[i * 3 + d] = 1; }
  bool spread = false;      // three handles not on a line
  for (int i: fx) for (int j: fx) for (int k: fx) { double a[3], b[3]; for (int d = 0; d < 3; d++) { a[d] = m.xyz[j * 3 + d] - m.xyz[i * 3 + d]; b[d] = m.xyz[k * 3 + d] - m.xyz[i * 3 + d]; } if (hypot(hypot(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2]), a[0] * b[1] - a[1] * b[0]) > 0.3) spread = true; }
  if (!spread) { c.skip(); return; }
  c.describe("ARAP kind %d on %s, handles %x moved by rotation %d", kind, m.nm, mask, r);
  VD goal = rigid(m.xyz, r, 0.25, 0.5, -0.25), x = m.xyz, q = quats(np, 0);
  for (int i = 0; i < np * 3; i++) if (f[i]) x[i] = goal[i];
  dfm2::Deformer_Arap d0;
  dfm2::Deformer_Arap2 d2;
  if (kind < 2) d0.Init(m.xyz, m.tri, kind == 1); else d2.Init(m.xyz, m.tri, q, f);
  VU ind, ps;
  psupOf(m, ind, ps);
  LD w = 0;
  int it = 0;
  for (; it < 3000; it++) {
    dfm2::UpdateQuaternions_Svd(q, m.xyz, x, ind, ps);
    if (kind < 2) d0.Deform(x, q, m.xyz, f); else d2.Deform(x, q, m.xyz, f);
    w = arapW(R, m.xyz, x, q);
    if (w < 1e-14L) break;
  }
  c.step(it);
  double e = 0;
  for (int i = 0; i < np * 3; i++) e = std::max(e, fabs(x[i] - goal[i]));
  c.outcome_of((int) (e < 1e-3));
  MC_CHECK(c, w <= 1e-6L, "alternating steps end at the energy %.3g though the handles are moved rigidly (largest deviation %g)", (double) w, e);
}
// ---- cages
static void cage3(mc::Ch &c) {
  int kc = c.choose(4);
  VD p; VU t;
  if (kc == 0) { Mesh m = mesh(2); p = m.xyz; t = m.tri; for (auto &x: p) x *= 2; }
  else if (kc == 1) { Mesh m = mesh(5); p = m.xyz; t = m.tri; for (auto &x: p) x *= 1.5; }
  else {
    for (int i = 0; i < 8; i++) { p.push_back((i & 1) * 2 - 1); p.push_back((i >> 1 & 1) * 2 - 1); p.push_back((i >> 2) * 2 - 1); }
    static const int Q[6][4] = {{0, 2, 3, 1}, {4, 5, 7, 6}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 4, 6, 2}, {1, 3, 7, 5}};
    for (auto &f: Q) for (int v: {f[0], f[1], f[2], f[0], f[2], f[3]}) t.push_back(v);
    if (kc == 3) p[21] = p[22] = p[23] = 0.2;      // dented: not convex
  }
  double q[3];
  for (auto &x: q) x = c.pick({-0.7, -0.2, 0.13, 0.55, 1.9});
  c.commit();
  c.describe("cage %d, point (%g,%g,%g)", kc, q[0], q[1], q[2]);
  int nv = (int) p.size() / 3;
  // stay away from faces and their planes (there the weights are not defined or lose digits)
  LD wind = 0;
  for (size_t i = 0; i < t.size(); i += 3) {
    LD a[3][3], l[3];
    for (int k = 0; k < 3; k++) { l[k] = 0; for (int d = 0; d < 3; d++) { a[k][d] = p[t[i + k] * 3 + d] - q[d]; l[k] += a[k][d] * a[k][d]; } l[k] = sqrtl(l[k]); }
    LD vol = a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]);
    if (fabsl(vol) < 0.02L * l[0] * l[1] * l[2]) { c.skip(); return; }
    auto dt = [&](int x, int y) { return a[x][0] * a[y][0] + a[x][1] * a[y][1] + a[x][2] * a[y][2]; };
    wind += 2 * atan2l(vol, l[0] * l[1] * l[2] + dt(0, 1) * l[2] + dt(1, 2) * l[0] + dt(2, 0) * l[1]);
  }
  bool inside = wind > 6;
  VD qs{0.01, 0.02, 0.03, q[0], q[1], q[2]};
  auto W = dfm2::ComputeMeanValueCoordinate<dfm2::CVec3d>(qs, p, t);
  MC_CHECK(c, (int) W.size() == 2 * nv, "weights of 2 points for %d cage points: %zu", nv, W.size());
  const double *w = W.data() + nv;
  LD s = 0, x[3] = {0, 0, 0}, mag = 0;
  for (int i = 0; i < nv; i++) { s += w[i]; mag += fabs(w[i]); for (int d = 0; d < 3; d++) x[d] += (LD) w[i] * p[i * 3 + d]; }
  for (int d = 0; d < 3; d++) MC_CHECK(c, fabsl(x[d] - s * q[d]) <= 1e-9L * mag, "weights %s do not reproduce the point (%g,%g,%g): coordinate %d is %.12g times %.12g", mc::str(VD(w, w + nv)).c_str(), q[0], q[1], q[2], d, (double) (x[d] / s), (double) s);
  if (inside && kc < 3) {
    MC_CHECK(c, s > 1e-3L, "weights inside the cage add up to %.9g", (double) s);
    for (int i = 0; i < nv; i++) MC_CHECK(c, w[i] > -1e-9, "weight %d inside a convex cage is %g", i, w[i]);
  }
  // reduced coordinates are the products with the cage modes
  unsigned nd = 3;
  VD modes(nd * nv);
  for (size_t i = 0; i < modes.size(); i++) modes[i] = (i * 5 % 7) / 2. - 1;
  auto Rd = dfm2::ComputeMeanValueCoordinateReduced<dfm2::CVec3d>(qs, p, t, nd, modes);
  MC_CHECK(c, Rd.size() == 2 * nd, "reduced coordinates: %zu", Rd.size());
  for (int k = 0; k < 2; k++) for (unsigned d = 0; d < nd; d++) { LD e = 0; for (int i = 0; i < nv; i++) e += modes[d * nv + i] * W[k * nv + i]; MC_CHECK(c, fabsl(Rd[k * nd + d] - e) < 1e-9L * (1 + mag), "reduced coordinate (%d,%u) is %.12g, must be %.12g", k, d, Rd[k * nd + d], (double) e); }
  c.outcome_of((double) s, inside);
}
static void cage2(mc::Ch &c) {
  int n = 3 + c.choose(3);
  std::vector<std::array<int, 2>> P(n);
  for (int i = 0; i < n; i++) { int k = c.choose(i == 0 ? 4 : 9); P[i] = {k % 3 * 2, k / 3 * 2}; }
  int qi = c.choose(25);
  std::array<double, 2> q{qi % 5 * 1.0, qi / 5 * 1.0};
  // simple counter-clockwise polygons only
  auto cr = [](std::array<int, 2> a, std::array<int, 2> b, std::array<int, 2> d) { return (b[0] - a[0]) * (d[1] - a[1]) - (b[1] - a[1]) * (d[0] - a[0]); };
  int area = 0;
  for (int i = 0; i < n; i++) area += P[i][0] * P[(i + 1) % n][1] - P[i][1] * P[(i + 1) % n][0];
  if (area <= 0) c.skip();
  bool convex = true;
  for (int i = 0; i < n; i++) {
    int t = cr(P[i], P[(i + 1) % n], P[(i + 2) % n]);
    if (t == 0) c.skip();
    if (t < 0) convex = false;
    for (int j = i + 1; j < n; j++) {
      if (P[i] == P[j]) c.skip();
      if (j == i + 1 || (i == 0 && j == n - 1)) continue;
      auto sg = [](int x) { return (x > 0) - (x < 0); };
      auto a = P[i], b = P[(i + 1) % n], d = P[j], e = P[(j + 1) % n];
      if (sg(cr(a, b, d)) * sg(cr(a, b, e)) <= 0 && sg(cr(d, e, a)) * sg(cr(d, e, b)) <= 0) c.skip();
    }
  }
  c.commit();
  VD xy;
  for (auto &p: P) { xy.push_back(p[0]); xy.push_back(p[1]); }
  c.describe("polygon %s, point (%g,%g)", mc::str(xy).c_str(), q[0], q[1]);
  int vert = -1, edge = -1;
  bool in = true, online = false;
  LD wn = 0;
  for (int i = 0; i < n; i++) {
    LD ax = P[i][0] - q[0], ay = P[i][1] - q[1], bx = P[(i + 1) % n][0] - q[0], by = P[(i + 1) % n][1] - q[1];
    if (ax == 0 && ay == 0) vert = i;
    LD k = ax * by - ay * bx, d = ax * bx + ay * by;
    if (k == 0 && d < 0) edge = i;
    if (k == 0) online = true;
    if (k <= 0) in = false;
    if (k != 0) wn += atan2l(k, d);
  }
  VD w(n, 99.);
  dfm2::MeanValueCoordinate_Polygon2<dfm2::CVec2d>(w.data(), q[0], q[1], xy.data(), (size_t) n);
  if (vert >= 0) { for (int i = 0; i < n; i++) MC_CHECK(c, w[i] == (i == vert ? 1 : 0), "at vertex %d the weights are %s", vert, mc::str(w).c_str()); c.outcome_of(w); return; }
  LD s = 0, x = 0, y = 0, mag = 0;
  for (int i = 0; i < n; i++) { s += w[i]; x += (LD) w[i] * P[i][0]; y += (LD) w[i] * P[i][1]; mag += fabs(w[i]); }
  if (edge < 0 && fabsl(wn) < 6) { c.outcome_of(vert, edge); return; }     // outside: the sum may vanish
  MC_CHECK(c, fabsl(s - 1) < 1e-9L * (1 + mag) && fabsl(x - q[0]) < 1e-9L * (1 + mag) && fabsl(y - q[1]) < 1e-9L * (1 + mag), "weights %s of (%g,%g) add up to %.12g and reproduce (%.12g,%.12g)", mc::str(w).c_str(), q[0], q[1], (double) s, (double) x, (double) y);
  if (edge >= 0) for (int i = 0; i < n; i++) MC_CHECK(c, i == edge || i == (edge + 1) % n || w[i] == 0, "on edge %d the weights are %s", edge, mc::str(w).c_str());
  if (in && convex) {      // the variants without signs are for points inside convex polygons
    std::vector<dfm2::CVec2d> vs;
    VD xyw;
    LD val = 0;
    for (int i = 0; i < n; i++) { vs.emplace_back((double) P[i][0], (double) P[i][1]); double f = (i * 3) % 4 - 1.; xyw.insert(xyw.end(), {(double) P[i][0], (double) P[i][1], f}); val += f * w[i]; }
    for (int i = 0; i < n; i++) MC_CHECK(c, w[i] > 0, "weight %d inside a convex polygon is %g", i, w[i]);
    VD w2{5};
    dfm2::CVec2d qv(q[0], q[1]);
    dfm2::MeanValueCoordinate_Polygon2<dfm2::CVec2d>(w2, qv, vs);
    MC_CHECK(c, (int) w2.size() == n, "%zu weights for %d vertices", w2.size(), n);
    for (int i = 0; i < n; i++) MC_CHECK(c, fabs(w2[i] - w[i]) < 1e-9, "weights %s and %s of the two variants differ", mc::str(w).c_str(), mc::str(w2).c_str());
    double v = dfm2::MeanValueCoordinate_Polygon2<dfm2::CVec2d>(xyw, std::array<double, 2>{q[0], q[1]});
    MC_CHECK(c, fabsl(v - val) < 1e-9L, "interpolated value %.12g, must be %.12g", v, (double) val);
  }
  c.outcome_of(w);
}
int main(int argc, char **argv) {
  return mc::run(argc, argv, {"C30", "exploration", {"positional constraints of the penalty deformers are met as the minimiser of the penalised energy meets them, to the tolerance of their iterative solver", "cage weights are judged away from the planes of the cage faces"}}, {
    {"laplacian-linear", lapLinear, "7 meshes x all handle subsets x partial constraints x motions x sliding constraints x preconditioner, two deformations each"},
    {"laplacian-degenerate", lapDegen, "the same for the scalar-matrix variant"},
    {"laplacian-gram", lapGram, "the same for the Gram variant"},
    {"laplacian-asym", lapAsym, "the same for the asymmetric variant, with changing handle sets"},
    {"arap-edge-displacement", arapEdgeDisp, "edge-based, translations only"},
    {"arap-edge", arapEdge, "edge-based with rotations"},
    {"arap-energy", arapEnergy, "energy, gradient and reduced Hessian"},
    {"arap-rotations", arapRot, "rotation fits to rigid and other motions"},
    {"arap", arap, "as rigid as possible, three variants, three alternating steps"},
    {"arap-rigid", arapRigid, "rigidly moved handles"},
    {"cage3", cage3, "cages x points"},
    {"cage2", cage2, "all simple polygons of 3-5 vertices on a 3x3 grid x points"},
  });
}
