// C06: direct, incomplete and iterative linear solvers against dense elimination.
#include "mc.h"
#include <complex>
#include <cstring>
#include <iostream>
#include <memory>
#include "delfem2/ls_block_sparse.h"
#include "delfem2/ls_ilu_block_sparse.h"
#include "delfem2/ls_tridiagonal.h"
#include "delfem2/ls_pentadiagonal.h"
#include "delfem2/lsitrsol.h"
#include "delfem2/vecxitrsol.h"
#include "delfem2/view_vectorx.h"
#include "delfem2/ls_solver_block_sparse.h"
#include "delfem2/ls_solver_block_sparse_ilu.h"
namespace dfm2 = delfem2;
using U = unsigned int;
using VU = std::vector<U>;
using VD = std::vector<double>;
using CD = std::complex<double>;

template<class T> struct Mat {
  int n;
  std::vector<T> a;
  explicit Mat(int n_ = 0) : n(n_), a((size_t) n_ * n_, T(0)) {}
  T &operator()(int i, int j) { return a[(size_t) i * n + j]; }
  T operator()(int i, int j) const { return a[(size_t) i * n + j]; }
  std::vector<T> mul(const std::vector<T> &x) const {
    std::vector<T> y(n, T(0));
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) y[i] += (*this)(i, j) * x[j];
    return y;
  }
};
template<class T> double norm(const std::vector<T> &v) { double s = 0; for (auto &x: v) s += std::norm(x); return std::sqrt(s); }
template<class T> std::vector<T> sub(const std::vector<T> &a, const std::vector<T> &b) { auto r = a; for (size_t i = 0; i < r.size(); i++) r[i] -= b[i]; return r; }
template<class T> bool finite(const std::vector<T> &v) { for (auto &x: v) if (!(std::abs(x) < 1e100)) return false; return true; }

// block LU without pivoting: is every leading block pivot well away from singular?
// inblk: also every scalar pivot inside a block elimination (needed where blocks are inverted without pivoting)
static double det(std::vector<double> m, int n) {
  double d = 1;
  for (int i = 0; i < n; i++) {
    int p = i;
    for (int k = i; k < n; k++) if (std::fabs(m[k * n + i]) > std::fabs(m[p * n + i])) p = k;
    if (std::fabs(m[p * n + i]) < 1e-12) return 0;
    if (p != i) { for (int j = 0; j < n; j++) std::swap(m[p * n + j], m[i * n + j]); d = -d; }
    d *= m[i * n + i];
    for (int k = i + 1; k < n; k++) { double f = m[k * n + i] / m[i * n + i]; for (int j = i; j < n; j++) m[k * n + j] -= f * m[i * n + j]; }
  }
  return d;
}
static bool factorable(const Mat<double> &A, int L, bool inblk) {
  int step = inblk ? 1 : L;
  double prev = 1;
  for (int k = step; k <= A.n; k += step) {
    VD m((size_t) k * k);
    for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) m[i * k + j] = A(i, j);
    double d = det(m, k);
    if (std::fabs(d) < 0.05 * std::fabs(prev) || std::fabs(d) < 0.05) return false;
    prev = d;
  }
  return true;
}
static int g_k;
static double nx() { g_k = (g_k * 37 + 11) % 101; return g_k - 50; }

// ------------------------------------------------------------ tridiagonal
template<int L> void tri_case(mc::Ch &c, int n, const std::vector<int> &code, const std::vector<double> &alpha) {
  // block k of the band gets L*L values derived from its code
  Mat<double> A(n * L);
  dfm2::BlockTriDiagonalMatrix<L> M;
  M.Initialize(n);
  M.setZero();
  // assemble through elements: element e holds blocks (e,e),(e,e+1),(e+1,e),(e+1,e+1)
  size_t q = 0;
  auto val = [&](int cd, int p, int r, bool dia) { return L == 1 ? alpha[cd] : (dia ? (p == r ? 3 + cd : (p + cd) % 2 ? 1 : -1) : double((cd * 5 + p * 3 + r * 2) % 3 - 1)); };
  for (int e = 0; e + 1 < n; e++) {
    double em[2][2][L][L];
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) {
      int cd = (i == 1 && j == 1) ? code[(q + 1) % code.size()] : code[q % code.size()];
      if (!(i == 1 && j == 1)) q++;
      for (int p = 0; p < L; p++) for (int r = 0; r < L; r++) {
        em[i][j][p][r] = val(cd, p, r, i == j);
        A((e + i) * L + p, (e + j) * L + r) += em[i][j][p][r];
      }
    }
    M.Merge(e, em);
  }
  if (n == 1) for (int p = 0; p < L; p++) for (int r = 0; r < L; r++) { A(p, r) = val(code[0], p, r, true); M.GetValuePointer(0, 0)[p * L + r] = A(p, r); }
  int fix = c.choose(n * L + 1) - 1;
  bool twice = c.flip();
  c.commit();
  c.describe("tridiagonal, %d blocks of size %d, codes %s", n, L, mc::str(code).c_str());
  if (fix >= 0) {
    M.FixBC(fix / L, fix % L);
    for (int i = 0; i < n * L; i++) A(fix, i) = A(i, fix) = 0;
    A(fix, fix) = 1;
  }
  for (int i = -1; i <= n; i++)
    for (int j = -1; j <= n; j++) {
      double *p = M.GetValuePointer(i, j);
      bool in = i >= 0 && j >= 0 && i < n && j < n && std::abs(i - j) <= 1;
      MC_CHECK(c, (p != nullptr) == in, "GetValuePointer(%d,%d) of a band of %d blocks is %s", i, j, n, p ? "not null" : "null");
      if (p) for (int a = 0; a < L; a++) for (int b = 0; b < L; b++) MC_CHECK(c, p[a * L + b] == A(i * L + a, j * L + b), "assembled entry (%d,%d) is %g, expected %g", i * L + a, j * L + b, p[a * L + b], A(i * L + a, j * L + b));
    }
  c.require(factorable(A, L, L >= 4));
  M.Decompose();
  for (int t = 0; t <= (twice ? 1 : 0); t++) {
    VD b;
    for (int i = 0; i < n * L; i++) b.push_back((i * 7 + 3 + t) % 5 - 2);
    VD x = b;
    M.Solve(x);
    c.step();
    double r = norm(sub(A.mul(x), b));
    MC_CHECK(c, finite(x) && r < 1e-8 * (1 + norm(x)), "tridiagonal solve of %d blocks of size %d: residual %g", n, L, r);
    c.outcome(mc::Hash().vec(x));
  }
}
static void body_tri(mc::Ch &c) {
  int L = 1 + c.choose(5), n = 1 + c.choose(4);
  std::vector<double> al = {-1, 0, 1, 2, -3};
  int nv = L == 1 ? (n == 4 ? (c.thorough ? 4 : 3) : n == 1 ? 5 : 4) : (n >= 3 ? 2 : 3);
  if (L == 1 && n == 4 && !c.thorough) al = {-1, 1, 2};
  if (L == 1 && n == 4 && c.thorough) al = {-1, 0, 1, 2};
  std::vector<int> code;
  for (int i = 0; i < std::max(1, 3 * n - 2); i++) code.push_back(c.choose(nv));
  switch (L) {
    case 1: tri_case<1>(c, n, code, al); break;
    case 2: tri_case<2>(c, n, code, al); break;
    case 3: tri_case<3>(c, n, code, al); break;
    case 4: tri_case<4>(c, n, code, al); break;
    default: tri_case<5>(c, n, code, al);
  }
}
// ------------------------------------------------------------ pentadiagonal
template<int L> void penta_case(mc::Ch &c, int n, unsigned bits, int way) {
  Mat<double> A(n * L);
  int fix = c.choose(n * L + 1) - 1;
  c.commit();
  c.describe("pentadiagonal, %d blocks of size %d, element bits %x, entry point %d", n, L, bits, way);
  g_k = 7 + (int) bits;
  dfm2::LinearSystemSolver_BlockPentaDiagonal<L> S;
  S.Initialize(n);
  S.BeginMerge();
  MC_CHECK(c, S.nblk() == (size_t) n && S.ndof() == (size_t) n * L && S.ndim() == (size_t) L, "sizes");
  auto &M = S.dia;
  for (int i = 0; i < n; i++) for (int p = 0; p < L; p++) {
    double d = 9 + (int) (bits >> i & 1) * 5;
    if (way == 2) { S.AddValueToDiagonal(i, p, d); }
    else { double blk[L * L] = {}; blk[p * L + p] = d; M.MergeBlock(i, i, blk); }
    A(i * L + p, i * L + p) += d;
  }
  for (int e = 0; e + 2 < n; e++) {
    double em[3][3][L][L];
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int p = 0; p < L; p++) for (int r = 0; r < L; r++) {
      double v = nx() / 25.;
      if (!((bits >> ((e + i + j) % 5)) & 1)) v = 0;
      em[i][j][p][r] = v;
      A((e + i) * L + p, (e + j) * L + r) += v;
    }
    if (way == 0) M.Merge(e, em);
    else if (way == 1) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) M.MergeBlock(e + i, e + j, &em[i][j][0][0]); }
    else { U ip[3] = {U(e), U(e + 1), U(e + 2)}; S.template Merge<3, 3, L, L>(ip, ip, em); }
  }
  for (int i = -1; i <= n; i++)
    for (int j = -1; j <= n; j++) {
      double *p = M.GetValuePointer(i, j);
      bool in = i >= 0 && j >= 0 && i < n && j < n && std::abs(i - j) <= 2;
      MC_CHECK(c, (p != nullptr) == in, "GetValuePointer(%d,%d) of a band of %d blocks is %s", i, j, n, p ? "not null" : "null");
      if (p) for (int a = 0; a < L; a++) for (int b = 0; b < L; b++) MC_CHECK(c, std::fabs(p[a * L + b] - A(i * L + a, j * L + b)) < 1e-12, "assembled entry (%d,%d) is %g, expected %g", i * L + a, j * L + b, p[a * L + b], A(i * L + a, j * L + b));
    }
  if (fix >= 0) {
    for (int i = 0; i < n * L; i++) A(fix, i) = A(i, fix) = 0;
    A(fix, fix) = 1;
  }
  c.require(factorable(A, L, L >= 4));
  VD b, x;
  for (int i = 0; i < n * L; i++) b.push_back((i * 7 + 3) % 5 - 2);
  if (way == 2) {
    S.vec_r = b;
    if (fix >= 0) { S.dof_bcflag[fix] = 1; b[fix] = 0; }
    S.Solve();
    x = S.vec_x;
  } else {
    if (fix >= 0) M.FixBC(fix / L, fix % L);
    M.Decompose();
    x = b;
    M.Solve(x);
    MC_CHECK(c, finite(x) && norm(sub(A.mul(x), b)) < 1e-8 * (1 + norm(x)), "pentadiagonal solve: residual %g", norm(sub(A.mul(x), b)));
    for (auto &v: b) v = -2 * v + 1;  // factorised once, solved again
    x = b;
    M.Solve(x);
  }
  c.step(2);
  double r = norm(sub(A.mul(x), b));
  MC_CHECK(c, finite(x) && r < 1e-8 * (1 + norm(x)), "pentadiagonal solve of %d blocks of size %d: residual %g", n, L, r);
  c.outcome(mc::Hash().vec(x));
}
static void body_penta(mc::Ch &c) {
  int L = 1 + c.choose(4), n = 4 + c.choose(c.thorough ? 5 : 4);
  unsigned bits = (unsigned) c.choose(32);
  int way = c.choose(3);
  switch (L) {
    case 1: penta_case<1>(c, n, bits, way); break;
    case 2: penta_case<2>(c, n, bits, way); break;
    case 3: penta_case<3>(c, n, bits, way); break;
    default: penta_case<4>(c, n, bits, way);
  }
}
static void body_penta_rect(mc::Ch &c) {  // element blocks smaller than the matrix block, not square
  int n = 4 + c.choose(2), at = c.choose(n), at2 = c.choose(n), which = c.choose(3);
  c.require(std::abs(at - at2) <= 2);
  c.commit();
  dfm2::LinearSystemSolver_BlockPentaDiagonal<4> S;
  S.Initialize(n);
  S.BeginMerge();
  Mat<double> A(n * 4);
  g_k = 3;
  U r[1] = {(U) at}, q[1] = {(U) at2};
  auto put = [&](auto &em, int nr, int nc) {
    for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) { em[0][0][i][j] = nx(); A(at * 4 + i, at2 * 4 + j) += em[0][0][i][j]; }
  };
  if (which == 0) { double em[1][1][2][3]; put(em, 2, 3); S.Merge<1, 1, 2, 3>(r, q, em); }
  if (which == 1) { double em[1][1][4][1]; put(em, 4, 1); S.Merge<1, 1, 4, 1>(r, q, em); }
  if (which == 2) { double em[1][1][3][3]; put(em, 3, 3); S.Merge<1, 1, 3, 3>(r, q, em); }
  c.step();
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
    double *p = S.dia.GetValuePointer(i, j);
    if (p) for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) MC_CHECK(c, p[a * 4 + b] == A(i * 4 + a, j * 4 + b), "merged entry (%d,%d) is %g, expected %g", i * 4 + a, j * 4 + b, p[a * 4 + b], A(i * 4 + a, j * 4 + b));
  }
  c.outcome((uint64_t) at * 100 + at2 * 10 + which);
}
// ------------------------------------------------------------ ILU
struct Pat { U n; VU ind, idx; std::vector<std::set<U>> adj; };
static Pat pattern(U n, unsigned bits, int order) {
  Pat p;
  p.n = n;
  p.adj.resize(n);
  p.ind.push_back(0);
  int b = 0;
  for (U i = 0; i < n; i++) {
    VU r;
    for (U j = 0; j < n; j++) { if (i == j) continue; if ((bits >> b++) & 1) { r.push_back(j); p.adj[i].insert(j); } }
    if (order == 1) std::reverse(r.begin(), r.end());
    p.idx.insert(p.idx.end(), r.begin(), r.end());
    p.ind.push_back((U) p.idx.size());
  }
  return p;
}
static unsigned sym_bits(U n, unsigned und) {  // undirected graph -> pattern bits
  unsigned bits = 0;
  std::map<std::pair<U, U>, int> pos;
  int b = 0;
  for (U i = 0; i < n; i++) for (U j = 0; j < n; j++) if (i != j) pos[{i, j}] = b++;
  b = 0;
  for (U i = 0; i < n; i++) for (U j = i + 1; j < n; j++) { if ((und >> b++) & 1) bits |= 1u << pos[{i, j}] | 1u << pos[{j, i}]; }
  return bits;
}
template<class T> T cval(double a, double) { return T(a); }
template<> CD cval<CD>(double a, double b) { return {a, b}; }
// kind 0: general, diagonally dominant; 1: symmetric (Hermitian when herm) positive definite
template<class T> Mat<T> fill(dfm2::CMatrixSparse<T> &A, const Pat &p, U L, int seed, int kind, bool herm = false) {
  A.Initialize(p.n, L, true);
  A.SetPattern(p.ind.data(), p.ind.size(), p.idx.data(), p.idx.size());
  A.setZero();
  int N = (int) (p.n * L);
  Mat<T> d(N);
  g_k = seed;
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) {
    if (i == j) continue;
    U I = i / L, J = j / L;
    if (I != J && !p.adj[I].count(J)) continue;
    d(i, j) = cval<T>(std::round(nx() / 17.), std::round(nx() / 25.));
  }
  if (kind == 1) for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) {
    if constexpr (std::is_same<T, CD>::value) d(i, j) = herm ? std::conj(d(j, i)) : d(j, i);
    else d(i, j) = d(j, i);
  }
  for (int i = 0; i < N; i++) {
    double s = 0;
    for (int j = 0; j < N; j++) if (j != i) s += std::abs(d(i, j));
    d(i, i) = cval<T>(s + 1 + (i * 7 + seed) % 5, herm ? 0 : std::round(nx() / 25.));
  }
  for (U i = 0; i < p.n; i++) {
    for (U k = p.ind[i]; k < p.ind[i + 1]; k++) for (U a = 0; a < L; a++) for (U b = 0; b < L; b++) A.val_crs_[k * L * L + a * L + b] = d(i * L + a, p.idx[k] * L + b);
    for (U a = 0; a < L; a++) for (U b = 0; b < L; b++) A.val_dia_[i * L * L + a * L + b] = d(i * L + a, i * L + b);
  }
  return d;
}
// solve dense system
template<class T> std::vector<T> dense_solve(Mat<T> A, std::vector<T> b) {
  int n = A.n;
  for (int i = 0; i < n; i++) {
    int p = i;
    for (int k = i; k < n; k++) if (std::abs(A(k, i)) > std::abs(A(p, i))) p = k;
    if (p != i) { for (int j = 0; j < n; j++) std::swap(A(p, j), A(i, j)); std::swap(b[p], b[i]); }
    for (int k = i + 1; k < n; k++) { T f = A(k, i) / A(i, i); for (int j = i; j < n; j++) A(k, j) -= f * A(i, j); b[k] -= f * b[i]; }
  }
  for (int i = n - 1; i >= 0; i--) { for (int j = i + 1; j < n; j++) b[i] -= A(i, j) * b[j]; b[i] /= A(i, i); }
  return b;
}
template<class T> void ilu_case(mc::Ch &c, U n, unsigned bits, U L, int fill_lv, int order, bool reuse, bool copy) {
  Pat p = pattern(n, bits, order);
  dfm2::CMatrixSparse<T> A;
  dfm2::CPreconditionerILU<T> ilu0;
  if (reuse) {  // the object held another factorisation before
    dfm2::CMatrixSparse<T> B;
    Pat q = pattern(3, 63, 0);
    fill<T>(B, q, L, 11, 0);
    ilu0.Initialize_ILUk(B, fill_lv == 0 ? 2 : 0);
    ilu0.CopyValue(B);
    ilu0.Decompose();
  }
  Mat<T> d = fill<T>(A, p, L, 5 + (int) bits % 13, 0);
  auto crs0 = A.val_crs_;
  ilu0.Initialize_ILUk(A, fill_lv);
  if (reuse) { ilu0.CopyValue(A); ilu0.Decompose(); }
  ilu0.CopyValue(A);
  bool r = ilu0.Decompose();
  MC_CHECK(c, r, "Decompose failed on a diagonally dominant matrix");
  std::unique_ptr<dfm2::CPreconditionerILU<T>> cp;
  if (copy) { cp.reset(new dfm2::CPreconditionerILU<T>(ilu0)); for (auto &v: ilu0.valCrs) v = T(7); ilu0.Clear(); }
  const auto &ilu = copy ? *cp : ilu0;
  int N = (int) (n * L);
  // the preconditioner as a dense operator
  Mat<T> Minv(N);
  for (int j = 0; j < N; j++) {
    std::vector<T> e(N, T(0));
    e[j] = T(1);
    ilu.SolvePrecond(e.data());
    MC_CHECK(c, finite(e), "preconditioner returned a non-finite vector");
    for (int i = 0; i < N; i++) Minv(i, j) = e[i];
  }
  c.step(2);
  Mat<T> M(N);
  for (int j = 0; j < N; j++) { std::vector<T> e(N, T(0)); e[j] = T(1); auto x = dense_solve(Minv, e); for (int i = 0; i < N; i++) M(i, j) = x[i]; }
  bool full = fill_lv == -1 || fill_lv >= (int) n;
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) {
    U I = i / L, J = j / L;
    if (!full && I != J && !p.adj[I].count(J)) continue;  // an incomplete factorisation reproduces the matrix on its pattern
    MC_CHECK(c, std::abs(M(i, j) - d(i, j)) < 1e-7 * (1 + std::abs(d(i, j))), "%s factorisation (level %d, block size %u): the preconditioner stands for entry (%d,%d) %g, the matrix has %g", full ? "complete" : "incomplete", fill_lv, L, i, j, std::abs(M(i, j)), std::abs(d(i, j)));
  }
  if (L == 1)
    for (U deg = 2; deg <= 3; deg++) {
      std::vector<T> v, w;
      for (U i = 0; i < n * deg; i++) v.push_back(T((i * 5 + 3) % 7 - 3.));
      w = v;
      ilu.ForwardSubstitutionDegenerate(v.data(), deg);
      ilu.BackwardSubstitutionDegenerate(v.data(), deg);
      for (U k = 0; k < deg; k++) {
        std::vector<T> one;
        for (U i = 0; i < n; i++) one.push_back(w[i * deg + k]);
        ilu.SolvePrecond(one.data());
        for (U i = 0; i < n; i++) MC_CHECK(c, std::abs(one[i] - v[i * deg + k]) < 1e-9, "degenerate substitution differs at block %u component %u", i, k);
      }
    }
  MC_CHECK(c, A.val_crs_ == crs0, "the factorisation changed the matrix");
  mc::Hash h;
  for (auto &v: M.a) h << (double) std::abs(v);
  c.outcome(h);
}
static void body_ilu(mc::Ch &c) {
  U n = 1 + (U) c.choose(4);
  unsigned bits;
  if (n == 4) bits = sym_bits(4, (unsigned) c.choose(64));
  else bits = (unsigned) c.choose(1 << (n * (n - 1)));
  U L = 1 + (U) c.choose(5);
  int lv = c.pick({0, 1, 2, -1, 5});
  int order = c.choose(n < 3 ? 1 : 2);
  bool reuse = c.flip(), copy = c.flip();
  bool cplx = L == 1 && c.flip();
  c.commit();
  c.describe("ILU(%d), %u blocks of size %u, pattern %x", lv, n, L, bits);
  if (cplx) ilu_case<CD>(c, n, bits, L, lv, order, reuse, copy);
  else ilu_case<double>(c, n, bits, L, lv, order, reuse, copy);
}
static void body_ilu5(mc::Ch &c) {  // larger graphs: all undirected graphs of 5 nodes, fill over several levels
  unsigned und = (unsigned) c.choose(1024);
  int lv = c.pick({0, 1, 2, 3, -1});
  U L = 1 + (U) c.choose(c.thorough ? 3 : 1);
  c.commit();
  ilu_case<double>(c, 5, sym_bits(5, und), L, lv, 1, false, false);
}
// ------------------------------------------------------------ Krylov
struct Ident { template<class T> void SolvePrecond(T *) const {} };
template<class T> struct Run { std::vector<T> x; VD hist; std::vector<T> r; };
// solver ids
enum { CG, PCG_ID, PCG_ILU, BICG, PBICG_ID, PBICG_ILU, NREAL };
static Run<double> run_real(int s, const dfm2::CMatrixSparse<double> &A, const dfm2::CPreconditionerILU<double> &ilu, const VD &b, double tol, U it) {
  Run<double> o;
  size_t n = b.size();
  o.r = b;
  o.x.assign(n, 77.);
  VD t0(n, 5.), t1(n, -5.);
  Ident id;
  using V = dfm2::ViewAsVectorXd;
  switch (s) {
    case CG: o.hist = dfm2::Solve_CG(V(o.r), V(o.x), V(t0), V(t1), tol, it, A); break;
    case PCG_ID: o.hist = dfm2::Solve_PCG(V(o.r), V(o.x), V(t0), V(t1), tol, it, A, id); break;
    case PCG_ILU: o.hist = dfm2::Solve_PCG(V(o.r), V(o.x), V(t0), V(t1), tol, it, A, ilu); break;
    case BICG: o.hist = dfm2::Solve_BiCGStab(o.r, o.x, tol, it, A); break;
    case PBICG_ID: o.hist = dfm2::Solve_PBiCGStab(o.r.data(), o.x.data(), tol, it, A, id); break;
    default: o.hist = dfm2::Solve_PBiCGStab(o.r.data(), o.x.data(), tol, it, A, ilu);
  }
  return o;
}
enum { CCG, CPCG, CBICG, CPBICG, CPCOCG, NCPLX };
static Run<CD> run_cplx(int s, const dfm2::CMatrixSparse<CD> &A, const dfm2::CPreconditionerILU<CD> &ilu, const std::vector<CD> &b, double tol, U it) {
  Run<CD> o;
  o.r = b;
  o.x.assign(b.size(), CD(7, 7));
  switch (s) {
    case CCG: o.hist = dfm2::Solve_CG_Complex(o.r, o.x, tol, it, A); break;
    case CPCG: o.hist = dfm2::Solve_PCG_Complex(o.r.data(), o.x.data(), tol, it, A, ilu); break;
    case CBICG: o.hist = dfm2::Solve_BiCGSTAB_Complex(o.r, o.x, tol, it, A); break;
    case CPBICG: o.hist = dfm2::Solve_PBiCGStab_Complex(o.r.data(), o.x.data(), tol, it, A, ilu); break;
    default: o.hist = dfm2::Solve_PCOCG(o.r.data(), o.x.data(), tol, it, A, ilu);
  }
  return o;
}
static const char *RN[] = {"CG", "PCG (no preconditioner)", "PCG (ILU)", "BiCGStab", "PBiCGStab (no preconditioner)", "PBiCGStab (ILU)"};
static const char *CN[] = {"complex CG", "complex PCG", "complex BiCGSTAB", "complex PBiCGStab", "PCOCG"};

static double cj(double a) { return a; }
static CD cj(const CD &a) { return std::conj(a); }

// Does textbook BiCGStab meet a (near) zero pivot on this system before it converges? Such a breakdown is a property of
// the method, not of the code, so these systems are not asked of the BiCGStab variants.
template<class T, class P> bool breaks_down(const Mat<T> &d, const std::vector<T> &b, P prec) {
  auto dt = [](const std::vector<T> &x, const std::vector<T> &y) { T s = 0; for (size_t i = 0; i < x.size(); i++) s += cj(x[i]) * y[i]; return s; };
  std::vector<T> r = b, r2 = b, p = b, x(b.size(), T(0));
  double nb = norm(b);
  if (nb == 0) return false;
  T rr = dt(r2, r);
  for (int it = 0; it < 4 * d.n + 4; it++) {
    std::vector<T> mp = prec(p), ap = d.mul(mp);
    T den = dt(r2, ap);
    if (std::abs(den) < 1e-6 * norm(r2) * norm(ap)) return true;
    T alpha = rr / den;
    std::vector<T> s = r;
    for (size_t i = 0; i < s.size(); i++) s[i] -= alpha * ap[i];
    if (norm(s) < 1e-12 * nb) return false;
    std::vector<T> as = d.mul(prec(s));
    T num = dt(as, s), dd = dt(as, as);
    if (std::abs(num) < 1e-6 * norm(as) * norm(s)) return true;
    T om = num / dd;
    for (size_t i = 0; i < s.size(); i++) r[i] = s[i] - om * as[i];
    if (norm(r) < 1e-8 * nb) return false;
    T t1 = dt(r2, r);
    if (std::abs(t1) < 1e-6 * norm(r2) * norm(r)) return true;
    T beta = t1 / rr * (alpha / om);
    rr = t1;
    for (size_t i = 0; i < p.size(); i++) p[i] = r[i] + beta * (p[i] - om * ap[i]);
  }
  return true;
}
template<class T, class F> void check_krylov(mc::Ch &c, const Mat<T> &d, const std::vector<T> &b, const char *name, F run, bool abs_hist, bool check_hist) {
  const double tol = 1e-7;
  const U maxit = (U) (4 * d.n + 4);
  Run<T> o = run(tol, maxit);
  c.step();
  double nb = norm(b);
  MC_CHECK(c, finite(o.x), "%s returned a non-finite solution", name);
  double res = norm(sub(b, d.mul(o.x)));
  MC_CHECK(c, res <= tol * 1.01 * nb + 1e-13, "%s with tolerance %g stopped at residual %g (right-hand side norm %g) after %zu entries of history", name, tol, res, nb, o.hist.size());
  MC_CHECK(c, norm(sub(o.r, sub(b, d.mul(o.x)))) < 1e-9 * (1 + nb), "%s: the residual vector it leaves is not b - A x", name);
  MC_CHECK(c, o.hist.size() <= maxit + 1, "%s used more iterations than allowed", name);
  if (nb == 0) { for (auto &v: o.x) MC_CHECK(c, v == T(0), "%s: zero right-hand side, but the solution is not zero", name); return; }
  if (!check_hist) return;
  // every entry of the history is the true residual of that iterate
  size_t first = abs_hist ? 1 : 0;
  for (size_t k = first; k < o.hist.size(); k++) {
    double sc = abs_hist ? 1 : nb;
    // an entry must match the iterate obtained by stopping there
    Run<T> q = run(o.hist[k] * (1 + 1e-9) / (abs_hist ? nb : 1) + 1e-300, maxit);
    double tr = norm(sub(b, d.mul(q.x))) / sc;
    bool earlier = false;
    for (size_t m = first; m < k; m++) earlier |= o.hist[m] <= o.hist[k] * (1 + 1e-9);
    if (earlier) continue;
    MC_CHECK(c, std::fabs(tr - o.hist[k]) < 1e-6 * (1 + tr) , "%s: history entry %zu says %g, the iterate has residual %g", name, k, o.hist[k], tr);
  }
  MC_CHECK(c, !o.hist.empty() && std::fabs(o.hist.back() * (abs_hist ? 1 : nb) - res) < 1e-6 * (1 + res), "%s: last entry of the history %g, true residual %g (|b|=%g)", name, o.hist.empty() ? -1 : o.hist.back(), res, nb);
}
static void body_krylov(mc::Ch &c) {
  U n = 1 + (U) c.choose(4), L = 1 + (U) c.choose(n == 4 ? 2 : 3);
  int s = c.choose(NREAL);
  bool sym = s == CG || s == PCG_ID || s == PCG_ILU;
  unsigned bits;
  if (sym || n == 4) bits = sym_bits(n, (unsigned) c.choose(1 << (n * (n - 1) / 2)));
  else bits = (unsigned) c.choose(1 << (n * (n - 1)));
  int seed = c.choose(c.thorough ? 12 : 5) * 7 + 3;
  int rhs = c.choose((int) (n * L) + 3);
  int lv = s == PCG_ILU || s == PBICG_ILU ? c.pick({0, 1, -1}) : 0;
  c.commit();
  c.describe("%s, %u blocks of size %u, pattern %x, seed %d, rhs %d, fill %d", RN[s], n, L, bits, seed, rhs, lv);
  dfm2::CMatrixSparse<double> A;
  Pat p = pattern(n, bits, 0);
  Mat<double> d = fill<double>(A, p, L, seed, sym ? 1 : 0);
  dfm2::CPreconditionerILU<double> ilu;
  ilu.Initialize_ILUk(A, lv);
  ilu.CopyValue(A);
  ilu.Decompose();
  int N = (int) (n * L);
  VD b(N, 0.0);
  if (rhs < N) b[rhs] = 3; else if (rhs == N) for (int i = 0; i < N; i++) b[i] = (i * 5 + 2) % 7 - 3; else if (rhs == N + 1) for (auto &v: b) v = 1e-3;
  if (s >= BICG && breaks_down<double>(d, b, [&](VD v) { if (s == PBICG_ILU) ilu.SolvePrecond(v.data()); return v; })) return;
  check_krylov<double>(c, d, b, RN[s], [&](double tol, U it) { return run_real(s, A, ilu, b, tol, it); }, s == PCG_ID || s == PCG_ILU, true);
  c.outcome(mc::Hash().vec(d.a));
}
static void body_identity(mc::Ch &c) {  // systems solved in the first step
  U n = 1 + (U) c.choose(3), L = 1 + (U) c.choose(3);
  int s = c.choose(NREAL + NCPLX);
  double scale = c.pick({1., 2., 0.5, 1e6});
  int rhs = c.choose(3);
  c.commit();
  Pat p = pattern(n, 0, 0);
  int N = (int) (n * L);
  if (s >= NREAL && L > 1) return;
  auto go = [&](auto zero) {
    using T = decltype(zero);
    dfm2::CMatrixSparse<T> A;
    A.Initialize(n, L, true);
    A.SetPattern(p.ind.data(), p.ind.size(), p.idx.data(), p.idx.size());
    A.setZero();
    A.AddDia(T(scale));
    Mat<T> d(N);
    for (int i = 0; i < N; i++) d(i, i) = T(scale);
    dfm2::CPreconditionerILU<T> ilu;
    ilu.Initialize_ILUk(A, 0);
    ilu.CopyValue(A);
    ilu.Decompose();
    std::vector<T> b(N, T(0));
    if (rhs == 1) b[0] = T(1);
    if (rhs == 2) for (int i = 0; i < N; i++) b[i] = T(i + 1);
    if constexpr (std::is_same<T, double>::value)
      check_krylov<double>(c, d, b, RN[s], [&](double tol, U it) { return run_real(s, A, ilu, b, tol, it); }, s == PCG_ID || s == PCG_ILU, true);
    else
      check_krylov<CD>(c, d, b, CN[s - NREAL], [&](double tol, U it) { return run_cplx(s - NREAL, A, ilu, b, tol, it); }, false, s - NREAL != CPCG);
  };
  if (s < NREAL) go(0.0); else go(CD(0));
  c.outcome((uint64_t) s);
}
static void body_krylov_c(mc::Ch &c) {
  U n = 1 + (U) c.choose(4);
  int s = c.choose(NCPLX);
  bool sym = s == CCG || s == CPCG || s == CPCOCG;
  unsigned bits;
  if (sym || n == 4) bits = sym_bits(n, (unsigned) c.choose(1 << (n * (n - 1) / 2)));
  else bits = (unsigned) c.choose(1 << (n * (n - 1)));
  int seed = c.choose(c.thorough ? 20 : 8) * 7 + 3;
  int rhs = c.choose((int) n + 2);
  int lv = c.pick({0, -1});
  c.commit();
  c.describe("%s, %u unknowns, pattern %x, seed %d, rhs %d", CN[s], n, bits, seed, rhs);
  dfm2::CMatrixSparse<CD> A;
  Pat p = pattern(n, bits, 0);
  Mat<CD> d = fill<CD>(A, p, 1, seed, sym ? 1 : 0, s == CCG || s == CPCG);
  dfm2::CPreconditionerILU<CD> ilu;
  ilu.Initialize_ILUk(A, lv);
  ilu.CopyValue(A);
  ilu.Decompose();
  std::vector<CD> b(n, CD(0));
  if (rhs < (int) n) b[rhs] = CD(1, 2); else if (rhs == (int) n) for (U i = 0; i < n; i++) b[i] = CD(double((i * 5 + 2) % 7) - 3, double(i % 3) - 1);
  if ((s == CBICG || s == CPBICG) && breaks_down<CD>(d, b, [&](std::vector<CD> v) { if (s == CPBICG) ilu.SolvePrecond(v.data()); return v; })) return;
  check_krylov<CD>(c, d, b, CN[s], [&](double tol, U it) { return run_cplx(s, A, ilu, b, tol, it); }, false, s != CPCG);
  mc::Hash h;
  for (auto &v: d.a) h << v.real() << v.imag();
  c.outcome(h);
}
// ------------------------------------------------------------ solver classes
static void body_class(mc::Ch &c) {
  U n = 2 + (U) c.choose(3), L = 1 + (U) c.choose(2);
  unsigned und = (unsigned) c.choose(1 << (n * (n - 1) / 2));
  c.require(und != 0);
  int which = c.choose(3);
  unsigned bc = (unsigned) c.choose(1 << std::min<U>(n * L, 4));
  c.commit();
  Pat p = pattern(n, sym_bits(n, und), 0);
  int N = (int) (n * L);
  Mat<double> d(N);
  VD x;
  VD b;
  for (int i = 0; i < N; i++) b.push_back((i * 5 + 2) % 7 - 3 + 0.5);
  auto assemble = [&](auto &S) {
    S.Initialize(n, L, p.ind, p.idx);
    for (int rep = 0; rep < 2; rep++) {  // a second time step on the same object
      S.BeginMerge();
      d = Mat<double>(N);
      int b0 = 0;
      for (U i = 0; i < n; i++) for (U j = i + 1; j < n; j++) {
        if (!((und >> b0++) & 1)) continue;
        U ip[2] = {i, j};
        double w = 1 + (i + j + rep) % 3;
        if (L == 1) {
          double em[2][2][1][1] = {{{{w}}, {{-w}}}, {{{-w}}, {{w}}}};
          S.template Merge<2, 2, 1, 1>(ip, ip, em);
          d(i, i) += w; d(j, j) += w; d(i, j) -= w; d(j, i) -= w;
        } else {
          double em[2][2][2][2] = {};
          for (int a = 0; a < 2; a++) for (int q = 0; q < 2; q++) for (int e = 0; e < 2; e++) for (int f = 0; f < 2; f++)
            em[a][q][e][f] = (a == q ? 1 : -1) * (e == f ? w : 0.5);
          S.template Merge<2, 2, 2, 2>(ip, ip, em);
          for (int a = 0; a < 2; a++) for (int q = 0; q < 2; q++) for (int e = 0; e < 2; e++) for (int f = 0; f < 2; f++) d(ip[a] * 2 + e, ip[q] * 2 + f) += em[a][q][e][f];
        }
      }
      for (U i = 0; i < n; i++) for (U k = 0; k < L; k++) { S.AddValueToDiagonal(i, k, 2 + i); d(i * L + k, i * L + k) += 2 + i; }
      S.vec_r = b;
      S.dof_bcflag.assign(N, 0);
      for (int i = 0; i < 4 && i < N; i++) if (bc >> i & 1) S.dof_bcflag[i] = 1;
      if constexpr (std::is_same<std::decay_t<decltype(S)>, dfm2::LinearSystemSolver_BlockSparse>::value) S.Solve();
      else { if (which == 1) S.Solve_Cg(); else S.Solve_PcgIlu(); }
      c.step();
    }
    x = S.vec_x;
  };
  if (which == 0) { dfm2::LinearSystemSolver_BlockSparse S; assemble(S); }
  else { dfm2::LinearSystemSolver_BlockSparseILU S; assemble(S); }
  for (int i = 0; i < 4 && i < N; i++) if (bc >> i & 1) { for (int j = 0; j < N; j++) d(i, j) = d(j, i) = 0; d(i, i) = 1; b[i] = 0; }
  double r = norm(sub(d.mul(x), b));
  MC_CHECK(c, finite(x) && r < 1.1e-4 * (norm(b) + 1e-9), "assembled system solved with residual %g (rhs %g)", r, norm(b));
  for (int i = 0; i < 4 && i < N; i++) if (bc >> i & 1) MC_CHECK(c, x[i] == 0, "fixed unknown %d is %g", i, x[i]);
  c.outcome(mc::Hash().vec(x));
}
// ------------------------------------------------------------ vector kernels
static void body_vec(mc::Ch &c) {
  int n = c.choose(4), m = 1 + c.choose(3);
  std::vector<int> bc;
  for (int i = 0; i < n; i++) bc.push_back(c.choose(3));
  double al = c.pick({0., 1., -2.});
  c.commit();
  VD X, Y, Z, W;
  for (int i = 0; i < n; i++) { X.push_back(i + 1); Y.push_back(2 * i - 3); Z.push_back(i * i - 1); W.push_back(4 - i); }
  double dot = 0;
  for (int i = 0; i < n; i++) dot += X[i] * Y[i];
  MC_CHECK(c, dfm2::Dot(X, Y) == dot && dfm2::DotX(X.data(), Y.data(), n) == dot, "Dot");
  std::vector<CD> ca, cb;
  CD cd = 0, ms = 0;
  for (int i = 0; i < n; i++) { ca.push_back({X[i], Y[i]}); cb.push_back({Z[i], W[i]}); cd += ca[i] * std::conj(cb[i]); ms += ca[i] * cb[i]; }
  MC_CHECK(c, dfm2::Dot(ca, cb) == cd && dfm2::DotX(ca.data(), cb.data(), n) == cd && dfm2::MultSumX(ca.data(), cb.data(), n) == ms, "complex inner product");
  { VD t = Y; dfm2::AXPY(al, X, t); VD u = Y; dfm2::AXPY(al, X.data(), u.data(), (U) n); for (int i = 0; i < n; i++) MC_CHECK(c, t[i] == Y[i] + al * X[i] && u[i] == t[i], "AXPY"); }
  { VD t = Y; dfm2::ScaleX(t.data(), al, n); for (int i = 0; i < n; i++) MC_CHECK(c, t[i] == Y[i] * al, "ScaleX"); }
  { VD t = X; dfm2::XPlusAY(t, (size_t) n, bc, al, Y); for (int i = 0; i < n; i++) MC_CHECK(c, t[i] == (bc[i] ? X[i] : X[i] + al * Y[i]), "XPlusAY"); }
  { auto t = ca; dfm2::XPlusAY(t, (size_t) n, bc, CD(al, 1), cb); for (int i = 0; i < n; i++) MC_CHECK(c, t[i] == (bc[i] ? ca[i] : ca[i] + CD(al, 1) * cb[i]), "complex XPlusAY"); }
  { VD t = X; dfm2::XPlusAYBZ(t, n, bc, al, Y, 3., Z); for (int i = 0; i < n; i++) MC_CHECK(c, t[i] == (bc[i] ? X[i] : X[i] + al * Y[i] + 3. * Z[i]), "XPlusAYBZ"); }
  { VD t = X; dfm2::XPlusAYBZCW(t, n, bc, al, Y, 3., Z, -1., W); for (int i = 0; i < n; i++) MC_CHECK(c, t[i] == (bc[i] ? X[i] : X[i] + al * Y[i] + 3. * Z[i] - W[i]), "XPlusAYBZCW"); }
  for (int f = 0; f < 3; f++) {
    VD t = X;
    dfm2::setRHS_Zero(t, bc, f);
    auto u = ca;
    dfm2::setRHS_Zero(u, bc, f);
    for (int i = 0; i < n; i++) MC_CHECK(c, t[i] == (bc[i] == f ? X[i] : 0.) && u[i] == (bc[i] == f ? ca[i] : CD(0)), "setRHS_Zero");
  }
  if (n > 0) {
    VD t = X;
    dfm2::NormalizeX(t.data(), n);
    double s = std::sqrt(dfm2::DotX(X.data(), X.data(), n));
    for (int i = 0; i < n; i++) MC_CHECK(c, std::fabs(t[i] - X[i] / s) < 1e-12, "NormalizeX");
    VD q = Y;
    dfm2::OrthogonalizeToUnitVectorX(q.data(), t.data(), n);
    MC_CHECK(c, std::fabs(dfm2::DotX(q.data(), t.data(), n)) < 1e-12, "OrthogonalizeToUnitVectorX");
    VD A;
    for (int i = 0; i < n * m; i++) A.push_back((i * 7 + 2) % 5 - 2);
    VD y(n, 99.), x(m), yt(m);
    for (int j = 0; j < m; j++) { x[j] = j * 2 - 1; yt[j] = j + 3; }
    dfm2::MatVec(y.data(), A.data(), (U) n, (U) m, x.data());
    dfm2::MatTVec(yt.data(), al, A.data(), (U) n, (U) m, X.data(), 2.);
    for (int i = 0; i < n; i++) { double e = 0; for (int j = 0; j < m; j++) e += A[i * m + j] * x[j]; MC_CHECK(c, y[i] == e, "dense MatVec"); }
    for (int j = 0; j < m; j++) { double e = 2. * (j + 3); for (int i = 0; i < n; i++) e += al * A[i * m + j] * X[i]; MC_CHECK(c, yt[j] == e, "dense MatTVec"); }
    VD B, M1((size_t) n * n, 9.), M2((size_t) n * n, 9.), Bt;
    for (int i = 0; i < n * m; i++) B.push_back((i * 3 + 1) % 7 - 3);
    Bt.resize(B.size());
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) Bt[j * m + i] = B[i * n + j];
    MatMatX(M1.data(), n, n, A.data(), m, B.data());
    MatMatTX(M2.data(), n, n, A.data(), m, Bt.data());
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double e = 0; for (int k = 0; k < m; k++) e += A[i * m + k] * B[k * n + j]; MC_CHECK(c, M1[i * n + j] == e && M2[i * n + j] == e, "MatMatX"); }
  }
  c.step(10);
  c.outcome((uint64_t) n * 7 + m);
}
// ------------------------------------------------------------ small dense kernels
template<int L> void inverse_case(mc::Ch &c, int base) {
  VD a;
  for (int i = 0; i < L * L; i++) a.push_back(c.choose(base) - (base == 2 ? 0 : 1));
  if (L >= 4) for (int i = 0; i < L; i++) a[i * L + i] += 4;
  c.commit();
  Mat<double> A(L);
  A.a = a;
  bool sing = std::fabs(det(a, L)) < 1e-9;
  if (L == 1 || L == 3 || L >= 4) c.require(!sing && (L < 4 || factorable(A, 1, true)));
  VD b = a;
  bool r = dfm2::Inverse_Matrix<double, L>(b.data());
  c.step();
  if (sing) { MC_CHECK(c, !r, "Inverse_Matrix of a singular matrix returned true"); c.outcome(1); return; }
  MC_CHECK(c, r, "Inverse_Matrix of a regular matrix failed");
  double P[L * L], Q[L * L];
  dfm2::MatMat<double, L>(P, a.data(), b.data());
  dfm2::MatMat<double, L>(Q, b.data(), a.data());
  for (int i = 0; i < L; i++) for (int j = 0; j < L; j++)
    MC_CHECK(c, std::fabs(P[i * L + j] - (i == j)) < 1e-10 && std::fabs(Q[i * L + j] - (i == j)) < 1e-10, "inverse of a %dx%d matrix is wrong at (%d,%d)", L, L, i, j);
  c.outcome(mc::Hash().vec(b));
}
static void body_inverse(mc::Ch &c) {
  switch (c.choose(4)) {
    case 0: return inverse_case<1>(c, 4);
    case 1: return inverse_case<2>(c, 4);
    case 2: return inverse_case<3>(c, 3);
    default: return inverse_case<4>(c, 2);
  }
}

int main(int argc, char **argv) {
  std::cout.rdbuf(nullptr);
  return mc::run(argc, argv, mc::Config{"C06", "exploration",
      {"systems are well conditioned (band systems: leading block pivots away from zero; Krylov and ILU: diagonally dominant); Krylov tolerance 1e-7 within 4n+4 iterations",
       "block ILU of complex matrices exists only for block size 1"}},
      {{"tridiagonal", body_tri, "1-4 blocks of size 1-5, all block choices of an alphabet, every fixed unknown, solved once and twice"},
       {"pentadiagonal", body_penta, "4-7 (thorough 8) blocks of size 1-4, 32 element patterns, three assembly routes, every fixed unknown"},
       {"penta-rect", body_penta_rect, "non-square element blocks at every band position"},
       {"ilu", body_ilu, "all patterns of up to 3 block rows (and symmetric ones of 4), block size 1-5, 5 fill levels, reused and copied objects, real and complex"},
       {"ilu-5", body_ilu5, "all 1024 graphs of 5 nodes, 5 fill levels"},
       {"krylov", body_krylov, "6 real solvers, all patterns of up to 4 blocks of size 1-3, unit, constant, mixed and zero right-hand sides, history replayed by early stopping"},
       {"identity", body_identity, "multiples of the identity (solved in the first half step), 11 solvers"},
       {"krylov-complex", body_krylov_c, "5 complex solvers, all patterns of up to 4 unknowns"},
       {"classes", body_class, "linear system classes: all connected and disconnected graphs of 2-4 nodes, all fixed subsets of 4 unknowns, assembled and solved twice"},
       {"vectors", body_vec, "vector kernels, all lengths 0-3 and flag patterns"},
       {"inverse", body_inverse, "dense inverses: all 1x1 to 4x4 matrices of the alphabet"}});
}
