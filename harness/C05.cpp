// C05: block sparse matrices behave as the dense matrix they represent.
#include "mc.h"
#include <complex>
#include "delfem2/ls_block_sparse.h"
#include "delfem2/ls_masterslave.h"
namespace dfm2 = delfem2;
using U = unsigned int;
using VU = std::vector<U>;

// ---------- dense reference
template<class T> struct Dense {
  int n = 0;
  std::vector<T> a;
  explicit Dense(int n_ = 0) : n(n_), a((size_t) n_ * n_, T(0)) {}
  T &operator()(int i, int j) { return a[(size_t) i * n + j]; }
  T operator()(int i, int j) const { return a[(size_t) i * n + j]; }
};

template<class T> Dense<T> to_dense(mc::Ch &c, const dfm2::CMatrixSparse<T> &A) {
  U L = A.nrowdim_, N = A.nrowblk_;
  Dense<T> d((int) (N * L));
  MC_CHECK(c, A.ncolblk_ == N && A.ncoldim_ == L, "matrix is not square any more");
  MC_CHECK(c, A.col_ind_.size() == N + 1 && A.col_ind_[0] == 0 && A.col_ind_[N] == A.row_ptr_.size() &&
      A.val_crs_.size() == A.row_ptr_.size() * L * L && A.val_dia_.size() == (size_t) N * L * L, "storage sizes are inconsistent");
  for (U i = 0; i < N; i++) {
    for (U k = A.col_ind_[i]; k < A.col_ind_[i + 1]; k++) {
      U j = A.row_ptr_[k];
      MC_CHECK(c, j < N, "column index %u out of range", j);
      for (U p = 0; p < L; p++) for (U q = 0; q < L; q++) d(i * L + p, j * L + q) += A.val_crs_[k * L * L + p * L + q];
    }
    for (U p = 0; p < L; p++) for (U q = 0; q < L; q++) d(i * L + p, i * L + q) += A.val_dia_[i * L * L + p * L + q];
  }
  return d;
}
template<class T> std::string num(T v) { std::ostringstream s; s << v; return s.str(); }

template<class T> void same(mc::Ch &c, const Dense<T> &got, const Dense<T> &ref, const char *what) {
  for (int i = 0; i < ref.n; i++)
    for (int j = 0; j < ref.n; j++)
      MC_CHECK(c, got(i, j) == ref(i, j), "%s: entry (%d,%d) is %s, the dense reference has %s", what, i, j, num(got(i, j)).c_str(), num(ref(i, j)).c_str());
}

// patterns: bit (i*(n-1)+...) = block (i,j), i!=j present. order: 0 ascending, 1 descending, 2 rotated
struct Pat { U n; VU ind, idx; };
static Pat pattern(U n, unsigned bits, int order) {
  Pat p;
  p.n = n;
  p.ind.push_back(0);
  int b = 0;
  for (U i = 0; i < n; i++) {
    VU r;
    for (U j = 0; j < n; j++) { if (i == j) continue; if ((bits >> b++) & 1) r.push_back(j); }
    if (order == 1) std::reverse(r.begin(), r.end());
    if (order == 2 && r.size() > 1) std::rotate(r.begin(), r.begin() + 1, r.end());
    p.idx.insert(p.idx.end(), r.begin(), r.end());
    p.ind.push_back((U) p.idx.size());
  }
  return p;
}
template<class T> void init(dfm2::CMatrixSparse<T> &A, const Pat &p, U len) {
  A.Initialize(p.n, len, true);
  A.SetPattern(p.ind.data(), p.ind.size(), p.idx.data(), p.idx.size());
  A.setZero();
}
// distinct integer values
template<class T> void fill(dfm2::CMatrixSparse<T> &A, int seed) {
  int k = seed;
  auto nx = [&]() { k = (k * 37 + 11) % 101; return T(k - 50); };
  for (auto &v: A.val_crs_) v = nx();
  for (auto &v: A.val_dia_) v = nx();
}
template<> void fill(dfm2::CMatrixSparse<std::complex<double>> &A, int seed) {
  int k = seed;
  auto nx = [&]() { k = (k * 37 + 11) % 101; int a = k - 50; k = (k * 37 + 11) % 101; return std::complex<double>(a, k - 50); };
  for (auto &v: A.val_crs_) v = nx();
  for (auto &v: A.val_dia_) v = nx();
}
template<class T> T val(int i) { return T((i * 29 + 7) % 17 - 8); }
template<> std::complex<double> val(int i) { return {double((i * 29 + 7) % 17 - 8), double((i * 13 + 5) % 11 - 5)}; }

template<class T> void products(mc::Ch &c, const dfm2::CMatrixSparse<T> &A, const Dense<T> &ref, bool all) {
  int n = ref.n;
  U L = A.nrowdim_;
  auto crs0 = A.val_crs_;
  auto dia0 = A.val_dia_;
  std::vector<std::pair<T, T>> ab = {{T(1), T(0)}, {T(-2), T(3)}};
  if (all) { ab.push_back({T(0), T(1)}); ab.push_back({T(1), T(1)}); ab.push_back({T(0), T(0)}); ab.push_back({val<T>(4), val<T>(9)}); }
  for (auto [al, be]: ab) {
    for (int ix = -1; ix < (all ? n : 0); ix++) {
      std::vector<T> x(n, T(0)), y(n);
      if (ix < 0) for (int i = 0; i < n; i++) x[i] = val<T>(i); else x[ix] = T(1);
      for (int i = 0; i < n; i++) y[i] = val<T>(i + 31);
      auto x0 = x, y0 = y, yt = y;
      A.MatVec(y.data(), al, x.data(), be);
      A.MatTVec(yt.data(), al, x.data(), be);
      for (int i = 0; i < n; i++) {
        T s = T(0), t = T(0);
        for (int j = 0; j < n; j++) { s += ref(i, j) * x0[j]; t += ref(j, i) * x0[j]; }
        T es = al * s + be * y0[i], et = al * t + be * y0[i];
        MC_CHECK(c, std::abs(y[i] - es) < 1e-6 * (1 + std::abs(es)), "MatVec: row %d is %s, dense product %s (block size %u)", i, num(y[i]).c_str(), num(es).c_str(), L);
        MC_CHECK(c, std::abs(yt[i] - et) < 1e-6 * (1 + std::abs(et)), "MatTVec: row %d is %s, dense product %s (block size %u)", i, num(yt[i]).c_str(), num(et).c_str(), L);
      }
      MC_CHECK(c, x == x0, "product changed the input vector");
    }
    if (L == 1)
      for (U deg = 1; deg <= 3; deg++) {
        std::vector<T> x(n * deg), y(n * deg);
        for (int i = 0; i < (int) (n * deg); i++) { x[i] = val<T>(i); y[i] = val<T>(i + 31); }
        auto y0 = y;
        A.MatVecDegenerate(y.data(), deg, al, x.data(), be);
        for (int i = 0; i < n; i++)
          for (U d = 0; d < deg; d++) {
            T s = T(0);
            for (int j = 0; j < n; j++) s += ref(i, j) * x[j * deg + d];
            T e = al * s + be * y0[i * deg + d];
            MC_CHECK(c, std::abs(y[i * deg + d] - e) < 1e-6 * (1 + std::abs(e)), "MatVecDegenerate: entry %d is %s, dense %s", (int) (i * deg + d), num(y[i * deg + d]).c_str(), num(e).c_str());
          }
      }
  }
  MC_CHECK(c, A.val_crs_ == crs0 && A.val_dia_ == dia0, "product changed the matrix");
}

template<class T> void body_products_T(mc::Ch &c) {
  U n = 1 + (U) c.choose(c.thorough ? 4 : 3);
  unsigned bits = (unsigned) c.choose(n == 4 ? 4096 : 1 << (n * (n - 1)));
  U len = 1 + (U) c.choose(6);
  int order = c.choose(n < 3 ? 1 : 3);
  bool copy = c.flip();
  c.commit();
  c.describe("%u blocks, pattern bits %x, block size %u, order %d", n, bits, len, order);
  Pat p = pattern(n, bits, order);
  dfm2::CMatrixSparse<T> A;
  init(A, p, len);
  fill(A, 5 + (int) bits % 7);
  Dense<T> d = to_dense(c, A);
  if (copy) {
    dfm2::CMatrixSparse<T> B;
    init(B, pattern(2, 3, 0), 2);
    B = A;
    for (auto &v: A.val_crs_) v = T(0);
    for (auto &v: A.val_dia_) v = T(0);
    same(c, to_dense(c, B), d, "copied matrix");
    products(c, B, d, true);
  } else products(c, A, d, true);
  c.step(6);
  mc::Hash h;
  for (auto &v: d.a) h << (double) std::abs(v);
  c.outcome(h);
}
static void body_products(mc::Ch &c) {
  switch (c.choose(3)) {
    case 0: return body_products_T<double>(c);
    case 1: return body_products_T<float>(c);
    default: return body_products_T<std::complex<double>>(c);
  }
}

// ---------- operation sequences
template<class T> struct St { dfm2::CMatrixSparse<T> A; Dense<T> d; VU buf; };

template<class T, int NR, int NC, int L> void merge_tmpl(mc::Ch &c, St<T> &s, const VU &rows, const VU &cols, int seed) {
  T em[NR][NC][L][L];
  int k = seed;
  for (int i = 0; i < NR; i++) for (int j = 0; j < NC; j++) for (int p = 0; p < L; p++) for (int q = 0; q < L; q++) em[i][j][p][q] = val<T>(k++);
  bool r = dfm2::Merge<NR, NC, L, L, T>(s.A, rows.data(), cols.data(), em, s.buf);
  MC_CHECK(c, r, "Merge of an element covered by the pattern failed");
  for (int i = 0; i < NR; i++) for (int j = 0; j < NC; j++) for (int p = 0; p < L; p++) for (int q = 0; q < L; q++)
    s.d((int) rows[i] * L + p, (int) cols[j] * L + q) += em[i][j][p][q];
}
template<class T, int NR, int NC> void merge_scalar(mc::Ch &c, St<T> &s, const VU &rows, const VU &cols, int seed) {
  T em[NR][NC];
  int k = seed;
  for (int i = 0; i < NR; i++) for (int j = 0; j < NC; j++) em[i][j] = val<T>(k++);
  bool r = dfm2::Merge<NR, NC, T>(s.A, rows.data(), cols.data(), em, s.buf);
  MC_CHECK(c, r, "Merge of an element covered by the pattern failed");
  for (int i = 0; i < NR; i++) for (int j = 0; j < NC; j++) s.d((int) rows[i], (int) cols[j]) += em[i][j];
}
template<class T> void mearge(mc::Ch &c, St<T> &s, const VU &rows, const VU &cols, int seed) {
  int L = (int) s.A.nrowdim_;
  std::vector<T> em;
  int k = seed;
  for (size_t i = 0; i < rows.size() * cols.size() * L * L; i++) em.push_back(val<T>(k++));
  bool r = dfm2::Mearge<T>(s.A, rows.size(), rows.data(), cols.size(), cols.data(), (U) (L * L), em.data(), s.buf);
  MC_CHECK(c, r, "Mearge of an element covered by the pattern failed");
  size_t m = 0;
  for (U i: rows) for (U j: cols) for (int p = 0; p < L; p++) for (int q = 0; q < L; q++) s.d((int) i * L + p, (int) j * L + q) += em[m++];
}
static bool covered(const Pat &p, const VU &rows, const VU &cols) {
  for (U i: rows) for (U j: cols) {
    if (i == j) continue;
    bool f = false;
    for (U k = p.ind[i]; k < p.ind[i + 1]; k++) f |= p.idx[k] == j;
    if (!f) return false;
  }
  return true;
}
static const std::vector<std::pair<VU, VU>> ELEMS = {
    {{0, 1}, {0, 1}}, {{1, 0}, {1, 0}}, {{0, 2}, {0, 2}}, {{2, 1}, {2, 1}}, {{0, 1, 2}, {0, 1, 2}}, {{2, 0, 1}, {2, 0, 1}},
    {{0, 1}, {1, 0}}, {{1, 2}, {0, 1}}, {{0, 1, 2}, {2, 0, 1}}, {{1}, {0, 1, 2}}, {{0, 1, 2}, {1}}, {{2}, {2}}, {{0, 0, 1}, {0, 0, 1}}};

template<class T> bool apply_op(mc::Ch &c, St<T> &s, const Pat &p, int op, int pos) {
  const int NE = (int) ELEMS.size();
  int L = (int) s.A.nrowdim_, N = (int) p.n, n = s.d.n;
  if (op < NE) {
    auto &[r, co] = ELEMS[op];
    for (U x: r) if (x >= p.n) return false;
    for (U x: co) if (x >= p.n) return false;
    if (!covered(p, r, co) || p.idx.empty()) return false;
    int seed = op * 5 + pos;
    int way = (op + pos) % 3;
    if (way == 1 && L == 1 && r.size() == 2 && co.size() == 2) merge_scalar<T, 2, 2>(c, s, r, co, seed);
    else if (way == 1 && L == 1 && r.size() == 3 && co.size() == 3) merge_scalar<T, 3, 3>(c, s, r, co, seed);
    else if (way == 1 && L == 1 && r.size() == 1 && co.size() == 3) merge_scalar<T, 1, 3>(c, s, r, co, seed);
    else if (way != 2 && r.size() == 2 && co.size() == 2 && L == 1) merge_tmpl<T, 2, 2, 1>(c, s, r, co, seed);
    else if (way != 2 && r.size() == 2 && co.size() == 2 && L == 2) merge_tmpl<T, 2, 2, 2>(c, s, r, co, seed);
    else if (way != 2 && r.size() == 3 && co.size() == 3 && L == 2) merge_tmpl<T, 3, 3, 2>(c, s, r, co, seed);
    else if (way != 2 && r.size() == 3 && co.size() == 3 && L == 3) merge_tmpl<T, 3, 3, 3>(c, s, r, co, seed);
    else if (way != 2 && r.size() == 3 && co.size() == 1 && L == 2) merge_tmpl<T, 3, 1, 2>(c, s, r, co, seed);
    else if (way != 2 && r.size() == 1 && co.size() == 1 && L == 3) merge_tmpl<T, 1, 1, 3>(c, s, r, co, seed);
    else mearge(c, s, r, co, seed);
    return true;
  }
  op -= NE;
  auto flags = [&](int which) {
    std::vector<int> f(n, 0);
    for (int i = 0; i < n; i++) f[i] = which == 0 ? (i == 0) : which == 1 ? (i % 2 == 1 ? 7 : 0) : which == 2 ? -1 * (i >= n - L) : 1;
    return f;
  };
  switch (op) {
    case 0: s.A.setZero(); s.d = Dense<T>(n); return true;
    case 1: s.A.AddDia(T(3)); for (int i = 0; i < n; i++) s.d(i, i) += T(3); return true;
    case 2: {
      std::vector<T> lm;
      for (int i = 0; i < N; i++) lm.push_back(T(i + 2));
      s.A.AddDia_LumpedMass(lm.data(), 2.0);
      for (int i = 0; i < n; i++) s.d(i, i) += T(2 * (i / L + 2));
      return true;
    }
    case 3: case 4: case 5: case 6: {
      auto f = flags(op - 3);
      s.A.SetFixedBC(f.data());
      for (int i = 0; i < n; i++) if (f[i]) for (int j = 0; j < n; j++) { s.d(i, j) = T(0); s.d(j, i) = T(0); }
      for (int i = 0; i < n; i++) if (f[i]) s.d(i, i) = T(1);
      return true;
    }
    case 7: {  // only the diagonal blocks
      auto f = flags(1);
      s.A.SetFixedBC_Dia(f.data(), T(4));
      for (int i = 0; i < n; i++) if (f[i]) for (int j = i / L * L; j < i / L * L + L; j++) { s.d(i, j) = T(0); s.d(j, i) = T(0); }
      for (int i = 0; i < n; i++) if (f[i]) s.d(i, i) = T(4);
      return true;
    }
    case 8: {  // off-diagonal blocks of the rows
      auto f = flags(0);
      s.A.SetFixedBC_Row(f.data());
      for (int i = 0; i < n; i++) if (f[i]) for (int j = 0; j < n; j++) if (j / L != i / L) s.d(i, j) = T(0);
      return true;
    }
    case 9: {
      auto f = flags(1);
      s.A.SetFixedBC_Col(f.data());
      for (int i = 0; i < n; i++) if (f[i]) for (int j = 0; j < n; j++) if (j / L != i / L) s.d(j, i) = T(0);
      return true;
    }
    case 10: {
      if constexpr (std::is_same<T, double>::value) {
        std::vector<double> sc;
        for (int i = 0; i < N; i++) sc.push_back(i == 1 ? -1 : 2 + i);
        dfm2::MatSparse_ScaleBlk_LeftRight(s.A, sc.data());
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) s.d(i, j) *= sc[i / L] * sc[j / L];
        return true;
      }
      return false;
    }
    case 11: {
      if constexpr (std::is_same<T, double>::value) {
        std::vector<double> sc;
        for (int i = 0; i < n; i++) sc.push_back(i % 3 == 2 ? 0.5 : i % 3 + 1);
        dfm2::MatSparse_ScaleBlkLen_LeftRight(s.A, sc.data());
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) s.d(i, j) *= sc[i] * sc[j];
        return true;
      }
      return false;
    }
    default: {  // rebuild on the same object with the same pattern
      s.A.Initialize(p.n, (U) L, true);
      s.A.SetPattern(p.ind.data(), p.ind.size(), p.idx.data(), p.idx.size());
      s.A.setZero();
      s.d = Dense<T>(n);
      return true;
    }
  }
}
template<class T> void body_seq_T(mc::Ch &c, int depth) {
  U n = 2 + (U) c.choose(2);
  static const std::vector<unsigned> P2 = {3, 1, 2}, P3 = {63, 0b010011, 0b101101, 0b100111};
  unsigned bits = n == 2 ? c.pick(P2) : c.pick(P3);
  U len = 1 + (U) c.choose(3);
  int order = n == 2 ? 0 : c.choose(2);
  Pat p = pattern(n, bits, order);
  St<T> s;
  init(s.A, p, len);
  s.d = Dense<T>((int) (n * len));
  const int NOPS = (int) ELEMS.size() + 13;
  std::vector<int> ops;
  for (int k = 0; k < depth; k++) {
    int op = c.choose(NOPS);
    if (op < (int) ELEMS.size()) {
      bool in = true;
      for (U x: ELEMS[op].first) in &= x < n;
      for (U x: ELEMS[op].second) in &= x < n;
      c.require(in && covered(p, ELEMS[op].first, ELEMS[op].second));
    } else if (!std::is_same<T, double>::value) c.require(op - (int) ELEMS.size() < 10 || op == NOPS - 1);
    ops.push_back(op);
  }
  c.commit();
  c.describe("%u blocks of size %u, pattern %x, operations %s", n, len, bits, mc::str(ops).c_str());
  if (order) fill(s.A, 3), s.d = to_dense(c, s.A);  // start from values instead of zero
  for (int k = 0; k < depth; k++) {
    c.require(apply_op(c, s, p, ops[k], k));
    c.step();
    c.state();
    same(c, to_dense(c, s.A), s.d, "after the operation");
  }
  products(c, s.A, s.d, false);
  if constexpr (std::is_same<T, double>::value) {
    double e = 0;
    for (int i = 0; i < s.d.n; i++) for (int j = 0; j < s.d.n; j++) e += (s.d(i, j) - s.d(j, i)) * (s.d(i, j) - s.d(j, i));
    double g = dfm2::CheckSymmetry(s.A);
    bool sympat = true;  // with an asymmetric pattern the measure counts a lone block once
    for (U i = 0; i < n; i++) for (U j = 0; j < n; j++) sympat &= covered(p, {i}, {j}) == covered(p, {j}, {i});
    if (sympat) MC_CHECK(c, std::fabs(g - e) < 1e-9 * (1 + e), "CheckSymmetry is %g, the squared norm of A-A^T is %g", g, e);
    MC_CHECK(c, (g == 0) == (e == 0), "CheckSymmetry is %g, but |A-A^T|^2 is %g", g, e);
  }
  mc::Hash h;
  for (auto &v: s.d.a) h << (double) std::abs(v);
  c.outcome(h);
}
static void body_seq(mc::Ch &c) {
  switch (c.choose(3)) {
    case 0: return body_seq_T<double>(c, c.thorough ? 4 : 3);
    case 1: return body_seq_T<float>(c, 2);
    default: return body_seq_T<std::complex<double>>(c, 2);
  }
}

// ---------- master-slave
static void body_ms(mc::Ch &c) {
  U n = 2 + (U) c.choose(c.thorough ? 3 : 3);
  U len = 1 + (U) c.choose(n == 4 ? (c.thorough ? 2 : 1) : n == 2 ? 3 : 2);
  int nb = (int) (n * (n - 1) / 2);
  unsigned und = (unsigned) c.choose(1 << nb);
  bool skew = n <= 3 && c.flip();   // drop one direction of the first edge
  VU flag(n * len, UINT_MAX);
  for (U i = 0; i < n; i++)
    for (U d = 0; d < len; d++) {
      int m = c.choose((int) n);
      if (m != (int) i) flag[i * len + d] = (U) m * len + d;
    }
  for (U i = 0; i < n * len; i++) if (flag[i] != UINT_MAX) c.require(flag[flag[i]] == UINT_MAX);
  c.commit();
  c.describe("%u blocks of size %u, edges %x, master of each dof %s", n, len, und, mc::str(flag).c_str());
  std::vector<std::set<U>> adj(n);
  int b = 0;
  for (U i = 0; i < n; i++) for (U j = i + 1; j < n; j++) if ((und >> b++) & 1) { adj[i].insert(j); if (!(skew && b == 1)) adj[j].insert(i); }
  Pat p;
  p.n = n;
  p.ind.push_back(0);
  for (U i = 0; i < n; i++) { for (U j: adj[i]) p.idx.push_back(j); p.ind.push_back((U) p.idx.size()); }
  VU ind = {5, 6}, idx = {7};  // stale contents
  dfm2::JArray_AddMasterSlavePattern(ind, idx, flag.data(), len, p.ind.data(), p.ind.size(), p.idx.data());
  // required blocks: every dof maps to its representative; row and column of A, of A with added rows, and of the result
  MC_CHECK(c, ind.size() == n + 1 && ind[0] == 0 && ind[n] == idx.size(), "extended pattern is not a jagged array of %u rows", n);
  std::vector<std::set<U>> ext(n);
  for (U i = 0; i < n; i++) {
    MC_CHECK(c, ind[i] <= ind[i + 1], "extended pattern indices decrease");
    for (U k = ind[i]; k < ind[i + 1]; k++) {
      MC_CHECK(c, idx[k] < n && idx[k] != i, "row %u of the extended pattern holds %u", i, idx[k]);
      MC_CHECK(c, ext[i].insert(idx[k]).second, "row %u of the extended pattern holds %u twice", i, idx[k]);
    }
    for (U j: adj[i]) MC_CHECK(c, ext[i].count(j), "the extended pattern lost block (%u,%u)", i, j);
  }
  // representative blocks
  auto rep = [&](U i, U d) { U f = flag[i * len + d]; return f == UINT_MAX ? i : f / len; };
  for (U i = 0; i < n; i++)
    for (U j = 0; j < n; j++) {
      if (i != j && !adj[i].count(j)) continue;
      for (U d = 0; d < len; d++)
        for (U e = 0; e < len; e++) {
          U I = rep(i, d), J = rep(j, e);
          MC_CHECK(c, I == J || ext[I].count(J), "block (%u,%u) folds onto (%u,%u), which the extended pattern lacks", i, j, I, J);
        }
    }
  dfm2::CMatrixSparse<double> A;
  A.Initialize(n, len, true);
  A.SetPattern(ind.data(), ind.size(), idx.data(), idx.size());
  A.setZero();
  // values only where the original pattern has blocks
  int k = 3;
  auto nx = [&]() { k = (k * 37 + 11) % 101; return double(k - 50); };
  for (U i = 0; i < n; i++) for (U q = ind[i]; q < ind[i + 1]; q++) if (adj[i].count(idx[q])) for (U m = 0; m < len * len; m++) A.val_crs_[q * len * len + m] = nx();
  for (auto &v: A.val_dia_) v = nx();
  Dense<double> d = to_dense(c, A), e((int) (n * len));
  dfm2::SetMasterSlave(A, flag.data());
  auto R = [&](U i) { return flag[i] == UINT_MAX ? i : flag[i]; };
  for (U i = 0; i < n * len; i++) for (U j = 0; j < n * len; j++) e((int) R(i), (int) R(j)) += d((int) i, (int) j);
  for (U i = 0; i < n * len; i++) if (flag[i] != UINT_MAX) e((int) i, (int) i) = 1;
  same(c, to_dense(c, A), e, "master-slave reduction");
  std::vector<double> rhs, r2;
  for (U i = 0; i < n * len; i++) rhs.push_back(val<double>((int) i) * 3 + 1);
  r2.assign(n * len, 0.0);
  for (U i = 0; i < n * len; i++) r2[R(i)] += rhs[i];
  dfm2::setRHS_MasterSlave(rhs.data(), n * len, flag.data());
  MC_CHECK(c, rhs == r2, "setRHS_MasterSlave gives %s, expected %s", mc::str(rhs).c_str(), mc::str(r2).c_str());
  c.step(3);
  mc::Hash h;
  for (auto &v: e.a) h << v;
  c.outcome(h);
}

int main(int argc, char **argv) {
  return mc::run(argc, argv, mc::Config{"C05", "model_checking",
      {"integer-valued entries: the comparison with the dense reference is exact (products within 1e-6 relative)",
       "element row and column lists are covered by the pattern; masters are not slaves themselves"}},
      {{"products", body_products, "all sparsity patterns of 1-3 block rows (thorough 4) x block size 1-6 x column order x {double, float, complex} x copied or not; every unit vector, six (alpha, beta)"},
       {"sequences", body_seq, "all sequences of 3 (thorough 4) of 26 operations (13 element merges through three entry points, zero, diagonal shifts, boundary conditions, scalings, rebuild) from 11 patterns x block size 1-3"},
       {"masterslave", body_ms, "all master-slave assignments on all graphs of 2-4 nodes, 1-3 dof per node"}});
}
