// C20: vector, matrix and quaternion algebra.
#include "mc.h"
#include <cmath>
#include <array>
#include <cstring>
#include <iostream>
#include <sstream>
#include "delfem2/mat2.h"
#include "delfem2/mat3.h"
#include "delfem2/mat3_funcs.h"
#include "delfem2/mat4.h"
#include "delfem2/matn.h"
#include "delfem2/quat.h"
#include "delfem2/svd3.h"
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/vec3_funcs.h"
#include "delfem2/cam_modelview.h"
#include "delfem2/cam_projection.h"
namespace dfm2 = delfem2;
using LD = long double;

// ---------- independent dense algebra
struct M { int n; LD a[16]; LD &operator()(int i, int j) { return a[i * n + j]; } LD operator()(int i, int j) const { return a[i * n + j]; } };
template<class T> static M from(int n, const T *p) { M m{n, {}}; for (int i = 0; i < n * n; ++i) m.a[i] = p[i]; return m; }
static M eye(int n) { M m{n, {}}; for (int i = 0; i < n; ++i) m(i, i) = 1; return m; }
static M mul(const M &A, const M &B) { M C{A.n, {}}; for (int i = 0; i < A.n; ++i) for (int j = 0; j < A.n; ++j) for (int k = 0; k < A.n; ++k) C(i, j) += A(i, k) * B(k, j); return C; }
static M tr(const M &A) { M C{A.n, {}}; for (int i = 0; i < A.n; ++i) for (int j = 0; j < A.n; ++j) C(i, j) = A(j, i); return C; }
static LD det(const M &A) {
  if (A.n == 1) return A.a[0];
  LD s = 0;
  for (int k = 0; k < A.n; ++k) {
    M B{A.n - 1, {}};
    for (int i = 1; i < A.n; ++i) for (int j = 0, q = 0; j < A.n; ++j) if (j != k) B(i - 1, q++) = A(i, j);
    s += (k % 2 ? -1 : 1) * A(0, k) * det(B);
  }
  return s;
}
static LD diff(const M &A, const M &B) { LD d = 0; for (int i = 0; i < A.n * A.n; ++i) { LD e = std::fabs(A.a[i] - B.a[i]); if (!(e <= d)) d = e; } return d; }
static bool isrot(const M &A, LD tol, int sign = 1) { return diff(mul(A, tr(A)), eye(A.n)) <= tol && std::fabs(det(A) - sign) <= tol * 3; }
template<class T> static std::string show(const T *p, int n) { std::ostringstream o; o << "("; for (int i = 0; i < n; ++i) o << (i ? "," : "") << (double) p[i]; o << ")"; return o.str(); }
static std::string show(const M &m) { return show(m.a, m.n * m.n); }
template<class T> constexpr LD EPS() { return std::is_same_v<T, float> ? 2e-5L : 1e-11L; }

// ---------- section 1: 2x2
static void s_mat2(mc::Ch &c) {
  static const int al[5] = {0, 1, -1, 2, -3};
  double A[4], B[4];
  for (auto &v: A) v = al[c.choose(5)];
  static const double Bs[6][4] = {{1, 0, 0, 1}, {1, 2, 3, 4}, {0, -1, 1, 0}, {2, 0, 0, -1}, {1, 1, 1, 1}, {-1, 2, 0, 3}};
  int ib = c.choose(6);
  std::copy(Bs[ib], Bs[ib] + 4, B);
  c.describe("A=%s B=%s", show(A, 4).c_str(), show(B, 4).c_str());
  c.commit();
  M a = from(2, A), b = from(2, B);
  LD da = det(a);
  double R[4] = {7, 7, 7, 7};
  dfm2::MatMat2(R, A, B);
  MC_CHECK(c, diff(from(2, R), mul(a, b)) == 0, "MatMat2");
  double x[2] = {3, -5}, y[2];
  dfm2::MatVec2(y, A, x);
  MC_CHECK(c, y[0] == A[0] * 3 - A[1] * 5 && y[1] == A[2] * 3 - A[3] * 5, "MatVec2");
  double g[4];
  dfm2::gramian2(g, A);
  MC_CHECK(c, diff(from(2, g), mul(tr(a), a)) == 0, "gramian2");
  double inv[4] = {9, 9, 9, 9};
  bool ok = dfm2::InverseMat2(inv, A);
  MC_CHECK(c, ok == (da != 0), "InverseMat2 says %d for determinant %g", ok, (double) da);
  if (ok) MC_CHECK(c, diff(mul(from(2, inv), a), eye(2)) < 1e-12L, "InverseMat2 gives %s", show(inv, 4).c_str());
  for (double sc: {0x1p-20, 0x1p20}) { // the same matrices in other units
    double As[4], is[4] = {9, 9, 9, 9};
    for (int k = 0; k < 4; ++k) As[k] = A[k] * sc;
    const bool oks = dfm2::InverseMat2(is, As);
    MC_CHECK(c, oks == (da != 0), "InverseMat2 says %d for %s", oks, show(As, 4).c_str());
    if (oks) MC_CHECK(c, diff(mul(from(2, is), from(2, As)), eye(2)) < 1e-12L, "InverseMat2 gives %s for %s", show(is, 4).c_str(), show(As, 4).c_str());
    std::copy(As, As + 4, is);
    const bool ok2 = dfm2::Inverse_Matrix<double, 2>(is);
    MC_CHECK(c, ok2 == (da != 0), "Inverse_Matrix<2> says %d for %s", ok2, show(As, 4).c_str());
    if (ok2) MC_CHECK(c, diff(mul(from(2, is), from(2, As)), eye(2)) < 1e-12L, "Inverse_Matrix<2> gives %s for %s", show(is, 4).c_str(), show(As, 4).c_str());
  }
  double in2[4]; std::copy(A, A + 4, in2);
  ok = dfm2::Inverse_Matrix<double, 2>(in2);
  MC_CHECK(c, ok == (da != 0), "Inverse_Matrix<2>");
  if (ok) MC_CHECK(c, diff(mul(from(2, in2), a), eye(2)) < 1e-12L, "Inverse_Matrix<2>");
  double P[4]; dfm2::MatMat<double, 2>(P, A, B);
  MC_CHECK(c, diff(from(2, P), mul(a, b)) == 0, "MatMat<2>");
  dfm2::VLVt2(P, 2, -3, A);
  { M L{2, {2, 0, 0, -3}}; MC_CHECK(c, diff(from(2, P), mul(mul(a, L), tr(a))) == 0, "VLVt2"); }
  if (da != 0) {
    double r[4];
    dfm2::RotationalComponentOfMatrix2(r, A);
    M rm = from(2, r), s = mul(tr(rm), a);
    MC_CHECK(c, diff(mul(rm, tr(rm)), eye(2)) < 1e-9L, "RotationalComponentOfMatrix2 is not orthogonal: %s", show(r, 4).c_str());
    MC_CHECK(c, std::fabs(s(0, 1) - s(1, 0)) < 1e-9L && s(0, 0) + s(1, 1) > 0 && det(s) > 0, "RotationalComponentOfMatrix2: the stretch %s is not symmetric positive", show(s).c_str());
  }
  using M2 = dfm2::CMat2<double>;
  M2 m(A[0], A[1], A[2], A[3]), q(B[0], B[1], B[2], B[3]);
  MC_CHECK(c, diff(from(2, (m * q).p), mul(a, b)) == 0 && m.determinant() == (double) da, "CMat2 product");
  MC_CHECK(c, diff(from(2, m.transpose().p), tr(a)) == 0, "CMat2 transpose");
  { M2 t = m; t.transposeInPlace(); MC_CHECK(c, diff(from(2, t.p), tr(a)) == 0, "transposeInPlace"); }
  { M2 t = m + q; for (int i = 0; i < 4; ++i) MC_CHECK(c, t.p[i] == A[i] + B[i], "CMat2 +"); }
  { M2 t = m - q; for (int i = 0; i < 4; ++i) MC_CHECK(c, t.p[i] == A[i] - B[i], "CMat2 -"); }
  { M2 t = 3. * m; for (int i = 0; i < 4; ++i) MC_CHECK(c, t.p[i] == A[i] * 3, "CMat2 scale"); }
  { M2 o = M2::outer_product(A, B); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) MC_CHECK(c, o(i, j) == A[i] * B[j], "outer product"); }
  { M2 Rm, S; dfm2::polar_decomposition(Rm, S, m);
    MC_CHECK(c, isrot(from(2, Rm.p), 1e-12L), "2x2 polar rotation %s", show(Rm.p, 4).c_str());
    MC_CHECK(c, diff(mul(from(2, Rm.p), from(2, S.p)), a) < 1e-12L && std::fabs(S(0, 1) - S(1, 0)) < 1e-12, "2x2 polar factors %s %s", show(Rm.p, 4).c_str(), show(S.p, 4).c_str());
    if (da > 0) MC_CHECK(c, S(0, 0) + S(1, 1) > 0 && S.determinant() > 0, "2x2 polar stretch is not positive %s", show(S.p, 4).c_str()); }
  { M2 Um, sg(9, 9, 9, 9), V; dfm2::svd(Um, sg, V, m);
    MC_CHECK(c, isrot(from(2, Um.p), 1e-12L) && isrot(from(2, V.p), 1e-12L), "2x2 SVD factors are not rotations %s %s", show(Um.p, 4).c_str(), show(V.p, 4).c_str());
    MC_CHECK(c, std::fabs(sg(0, 1)) < 2e-6 && std::fabs(sg(1, 0)) < 2e-6 && sg(0, 0) >= sg(1, 1), "2x2 SVD values %s", show(sg.p, 4).c_str());
    M re = mul(mul(from(2, Um.p), from(2, sg.p)), tr(from(2, V.p)));
    MC_CHECK(c, diff(re, a) < 1e-11L, "2x2 SVD reproduces %s from U=%s S=%s V=%s", show(re).c_str(), show(Um.p, 4).c_str(), show(sg.p, 4).c_str(), show(V.p, 4).c_str()); }
  { dfm2::CVec2d v(A[0], A[1]), w(B[0], B[1]);
    double th = 0.5 * ib;
    auto r = dfm2::rotate(v, th); auto r2 = v.Rotate(th);
    MC_CHECK(c, std::fabs(r.x - (std::cos(th) * A[0] - std::sin(th) * A[1])) < 1e-12 && std::fabs(r.y - (std::sin(th) * A[0] + std::cos(th) * A[1])) < 1e-12, "rotate");
    MC_CHECK(c, std::fabs(r.x - r2.x) < 1e-12 && std::fabs(r.y - r2.y) < 1e-12, "Rotate");
    auto r9 = dfm2::rotate90(v);
    MC_CHECK(c, r9.x == -A[1] && r9.y == A[0], "rotate90");
    auto mv = dfm2::Mat2Vec(B, v);
    MC_CHECK(c, mv.x == B[0] * A[0] + B[1] * A[1] && mv.y == B[2] * A[0] + B[3] * A[1], "Mat2Vec");
    MC_CHECK(c, (v ^ w) == A[0] * B[1] - A[1] * B[0] && dfm2::Cross(v, w) == (v ^ w) && v.dot(w) == A[0] * B[0] + A[1] * B[1] && dfm2::Dot(v, w) == v.dot(w), "2D products");
    MC_CHECK(c, dfm2::Cross2(v, w) == (v ^ w), "Cross2");
    MC_CHECK(c, std::fabs(v.norm() - std::hypot(A[0], A[1])) < 1e-14 * 10 && v.squaredNorm() == A[0] * A[0] + A[1] * A[1], "2D norms");
    if (v.norm() > 0) { auto nv = v.normalized(); MC_CHECK(c, std::fabs(nv.norm() - 1) < 1e-12 && std::fabs(nv ^ v) < 1e-12 && nv.dot(v) > 0, "normalized"); double w2[2] = {A[0], A[1]}; dfm2::Normalize2(w2); MC_CHECK(c, std::fabs(w2[0] - nv.x) < 1e-12 && std::fabs(w2[1] - nv.y) < 1e-12, "Normalize2"); }
    auto d = (v * 2.0 - w / 2.0 + (-v));
    MC_CHECK(c, d.x == A[0] - B[0] / 2 && d.y == A[1] - B[1] / 2, "vector arithmetic");
    MC_CHECK(c, std::fabs(dfm2::Distance(v, w) - std::hypot(A[0] - B[0], A[1] - B[1])) < 1e-12 && std::fabs(dfm2::Distance2(A, B) - dfm2::Distance(v, w)) < 1e-12 && std::fabs(dfm2::SquareDistance2(A, B) - std::pow(dfm2::Distance(v, w), 2)) < 1e-10 && std::fabs(dfm2::Length2(A) - v.norm()) < 1e-12 && dfm2::SquareLength2(A) == v.squaredNorm() && dfm2::Dot2(A, B) == v.dot(w), "2D distances");
  }
  c.outcome_of((double) da, R[0], R[1], R[2], R[3]);
}

// ---------- section 2: 3x3 products and inverse, all matrices over an alphabet
template<class T>
static bool mat3_ops(mc::Ch &c, const M &a, const M &b) {
  const LD E = EPS<T>();
  T A[9], B[9], R[9];
  for (int i = 0; i < 9; ++i) { A[i] = (T) a.a[i]; B[i] = (T) b.a[i]; R[i] = 77; }
  LD da = det(a);
#define SAME(X, Y, what) do { M x_ = from(3, X); M y_ = Y; if (!(diff(x_, y_) <= E * 10)) { c.fail("%s gives %s instead of %s", what, show(x_).c_str(), show(y_).c_str()); return false; } } while (0)
  dfm2::MatMat3(R, A, B); SAME(R, mul(a, b), "MatMat3");
  dfm2::MatMatT3(R, A, B); SAME(R, mul(a, tr(b)), "MatMatT3");
  dfm2::MatTMat3(R, A, B); SAME(R, mul(tr(a), b), "MatTMat3");
  for (auto &v: R) v = 2;
  dfm2::MatTMat3_ScaleAdd(R, A, B, (T) 3, (T) -1);
  { M e = mul(tr(a), b); for (int i = 0; i < 9; ++i) e.a[i] = e.a[i] * 3 - 2; SAME(R, e, "MatTMat3_ScaleAdd"); }
  dfm2::Transpose_Mat3(R, A); SAME(R, tr(a), "Transpose_Mat3");
  if (!(std::fabs((LD) dfm2::Det_Mat3(A) - da) <= E)) { c.fail("Det_Mat3"); return false; }
  T x[3] = {3, -5, 7}, y[3] = {1, 2, -4};
  auto mv = [&](const M &m, int i) { return m(i, 0) * 3 - m(i, 1) * 5 + m(i, 2) * 7; };
  T z[3];
  auto vec = [&](const T *p, auto f, const char *what) { for (int i = 0; i < 3; ++i) if (!(std::fabs((LD) p[i] - f(i)) <= E * 20)) { c.fail("%s gives %s", what, show(p, 3).c_str()); return false; } return true; };
  dfm2::MatVec3(z, A, x); if (!vec(z, [&](int i) { return mv(a, i); }, "MatVec3")) return false;
  dfm2::MatTVec3(z, A, x); if (!vec(z, [&](int i) { return mv(tr(a), i); }, "MatTVec3")) return false;
  std::copy(y, y + 3, z); dfm2::MatVec3_ScaleAdd(z, A, x, (T) 2, (T) -3); if (!vec(z, [&](int i) { return 2 * mv(a, i) - 3 * y[i]; }, "MatVec3_ScaleAdd")) return false;
  std::copy(y, y + 3, z); dfm2::MatTVec3_ScaleAdd(z, A, x, (T) 2, (T) -3); if (!vec(z, [&](int i) { return 2 * mv(tr(a), i) - 3 * y[i]; }, "MatTVec3_ScaleAdd")) return false;
  { auto q = dfm2::Mat3Vec3(A, dfm2::CVec3<T>(x[0], x[1], x[2])); if (!vec(q.data(), [&](int i) { return mv(a, i); }, "Mat3Vec3")) return false; }
  if constexpr (std::is_same_v<T, double>) { dfm2::VecMat3(z, x, A); if (!vec(z, [&](int i) { return mv(tr(a), i); }, "VecMat3")) return false; }
  using M3 = dfm2::CMat3<T>;
  M3 m(A), q(B);
  { M3 t = m.MatMatTrans(q); M e1 = mul(tr(a), b), e2 = mul(a, tr(b)); if (!(diff(from(3, t.p_), e1) <= E * 10 || diff(from(3, t.p_), e2) <= E * 10)) { c.fail("MatMatTrans is a product with a transpose"); return false; } }
  SAME((m * q).p_, mul(a, b), "CMat3 product"); SAME(m.MatMat(q).p_, mul(a, b), "CMat3::MatMat");
  SAME(m.transpose().p_, tr(a), "CMat3::transpose");
  { M e = a; for (int i = 0; i < 9; ++i) e.a[i] += b.a[i]; SAME((m + q).p_, e, "CMat3 +"); for (int i = 0; i < 9; ++i) e.a[i] -= 2 * b.a[i]; SAME((m - q).p_, e, "CMat3 -"); }
  { M e = a; for (int i = 0; i < 9; ++i) e.a[i] *= 4; SAME((m * (T) 4).p_, e, "CMat3 * scalar"); SAME(((T) 4 * m).p_, e, "scalar * CMat3"); SAME((m / (T) 0.25).p_, e, "CMat3 / scalar"); }
  { M e = a; M t = tr(a); for (int i = 0; i < 9; ++i) e.a[i] = (e.a[i] + t.a[i]) / 2; SAME(m.Sym().p_, e, "CMat3::Sym"); }
  { auto w = m * dfm2::CVec3<T>(x[0], x[1], x[2]); if (!vec(w.p, [&](int i) { return mv(a, i); }, "CMat3*CVec3")) return false; auto w2 = dfm2::CVec3<T>(x[0], x[1], x[2]) * m; if (!vec(w2.p, [&](int i) { return mv(tr(a), i); }, "CVec3*CMat3")) return false; auto w3 = m.MatVec(x); if (!vec(w3.data(), [&](int i) { return mv(a, i); }, "CMat3::MatVec")) return false; m.MatVecTrans(x, z); if (!vec(z, [&](int i) { return mv(tr(a), i); }, "CMat3::MatVecTrans")) return false; }
  { LD t = a(0, 0) + a(1, 1) + a(2, 2), s = 0; M a2 = mul(a, a); LD t2 = a2(0, 0) + a2(1, 1) + a2(2, 2); for (int i = 0; i < 9; ++i) s += a.a[i] * a.a[i];
    if (!(std::fabs(m.trace() - t) <= E && std::fabs(m.determinant() - da) <= E && std::fabs(m.squaredNorm() - s) <= E * 10 && std::fabs(m.SecondInvarint() - (t * t - t2) / 2) <= E * 10)) { c.fail("CMat3 invariants"); return false; } }
  { T s6[6] = {A[0], A[4], A[8], A[5], A[2], A[1]}; M3 s; s.SetSymetric(s6); M e = a; e(1, 0) = a(0, 1); e(2, 0) = a(0, 2); e(2, 1) = a(1, 2); SAME(s.p_, e, "SetSymetric"); }
  if (da != 0) {
    LD tol = E * 100;
    T I[9]; dfm2::Inverse_Mat3(I, A);
    if (!(diff(mul(from(3, I), a), eye(3)) <= tol)) { c.fail("Inverse_Mat3(out,in)"); return false; }
    std::copy(A, A + 9, I); dfm2::Inverse_Mat3(I);
    if (!(diff(mul(from(3, I), a), eye(3)) <= tol)) { c.fail("Inverse_Mat3 in place"); return false; }
    if (!(diff(mul(a, from(3, m.Inverse().p_)), eye(3)) <= tol)) { c.fail("CMat3::Inverse"); return false; }
    std::copy(A, A + 9, I); bool ok = dfm2::Inverse_Matrix<T, 3>(I);
    if (!(ok && diff(mul(from(3, I), a), eye(3)) <= tol)) { c.fail("Inverse_Matrix<3>"); return false; }
  }
  { T h[2] = {1, 2}; LD w = a(2, 0) + 2 * a(2, 1) + a(2, 2);
    if (w != 0) { T o[2]; dfm2::Vec2_Mat3Vec2_Homography(o, A, h); auto o2 = dfm2::Vec2_Mat3Vec2_Homography(A, h); auto o3 = dfm2::CVec2<T>(h[0], h[1]).Mat3Vec2_AffineProjection(A);
      for (int i = 0; i < 2; ++i) { LD e = (a(i, 0) + 2 * a(i, 1) + a(i, 2)) / w; if (!(std::fabs(o[i] - e) <= E * 10 && std::fabs(o2[i] - e) <= E * 10 && std::fabs(o3[i] - e) <= E * 10)) { c.fail("2D homography"); return false; } } }
    T o[2]; dfm2::Vec2_Mat3Vec2_AffineDirection(o, A, h); auto o3 = dfm2::CVec2<T>(h[0], h[1]).Mat3Vec2_AffineDirection(A);
    for (int i = 0; i < 2; ++i) { LD e = a(i, 0) + 2 * a(i, 1); if (!(o[i] == e && o3[i] == e)) { c.fail("2D affine direction"); return false; } } }
  { T m4[16]; for (auto &v: m4) v = 9; dfm2::Mat4_Mat3(m4, A); bool ok = true; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) ok &= m4[i * 4 + j] == (i < 3 && j < 3 ? A[i * 3 + j] : (i == j)); 
    T m5[16]; m.AffineMatrixTrans(m5); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) ok &= m5[i * 4 + j] == (i < 3 && j < 3 ? A[j * 3 + i] : (i == j));
    T m6[16]; m.CopyToMat4(m6); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) ok &= m6[i * 4 + j] == A[i * 3 + j];
    M3 b3; b3.SetMat4(m4); for (int i = 0; i < 9; ++i) ok &= b3.p_[i] == A[i];
    auto g3 = dfm2::CMat4<T>(m4).GetMat3(); for (int i = 0; i < 9; ++i) ok &= g3[i] == A[i];
    T t3[3] = {5, 6, 7}; for (auto &v: m4) v = 9; dfm2::Mat4_AffineTrans_RotTransl(m4, A, t3); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) ok &= m4[i * 4 + j] == (i < 3 && j < 3 ? A[j * 3 + i] : i == 3 && j < 3 ? t3[j] : (T) (i == j));
    if (!ok) { c.fail("embedding a 3x3 matrix in a 4x4 one"); return false; } }
  return true;
#undef SAME
}
static const int BS3[6][9] = {{1, 0, 0, 0, 1, 0, 0, 0, 1}, {1, 2, 3, 4, 5, 6, 7, 8, 10}, {0, -1, 2, 3, 0, -2, 1, 1, 0}, {0, 0, 1, 1, 0, 0, 0, 1, 0}, {1, 1, 1, 1, 1, 1, 1, 1, 1}, {2, -1, 0, 0, 3, 0, -1, 0, -2}};
static void s_mat3(mc::Ch &c) {
  static const int al[3] = {0, 1, -1};
  M a{3, {}}, b{3, {}};
  int big = c.choose(2);
  for (int i = 0; i < 9; ++i) a.a[i] = al[c.choose(3)];
  if (big) for (int i = 0; i < 9; ++i) a.a[i] *= (i % 3) + 1 + (i / 3) * 2;
  int ib = c.thorough ? c.choose(6) : 1 + (int) (std::fabs(a.a[0] + 2 * a.a[4] + 3 * a.a[8] + a.a[5])) % 5;
  for (int i = 0; i < 9; ++i) b.a[i] = BS3[ib][i];
  c.describe("A=%s B#%d", show(a).c_str(), ib);
  c.commit();
  if (!mat3_ops<double>(c, a, b)) return;
  if (!mat3_ops<float>(c, a, b)) return;
  c.outcome_of((double) det(a), ib);
}

// ---------- section 3: decompositions of all 3x3 matrices over an alphabet
static bool svd_check(mc::Ch &c, const M &a) {
  double A[9]; LD nrm = 0;
  for (int i = 0; i < 9; ++i) { A[i] = (double) a.a[i]; nrm = std::max(nrm, std::fabs(a.a[i])); }
  const LD tol = 3e-7L * std::max<LD>(1, nrm);
  double Um[9], G[3], V[9];
  for (int i = 0; i < 9; ++i) Um[i] = V[i] = 3;
  dfm2::Svd3(Um, G, V, A, 30);
  M u = from(3, Um), v = from(3, V), g{3, {}};
  for (int i = 0; i < 3; ++i) g(i, i) = G[i];
  MC_CHECK(c, isrot(u, 1e-6L) && isrot(v, 1e-6L), "Svd3 factors are not rotations: U=%s V=%s", show(u).c_str(), show(v).c_str());
  MC_CHECK(c, diff(mul(mul(u, g), tr(v)), a) < tol, "Svd3 reproduces %s (U=%s G=%s V=%s)", show(mul(mul(u, g), tr(v))).c_str(), show(u).c_str(), show(G, 3).c_str(), show(v).c_str());
  MC_CHECK(c, G[0] >= G[1] - 1e-9 && G[1] >= std::fabs(G[2]) - 1e-7, "Svd3 order %s", show(G, 3).c_str());
  { auto [U2, S2, V2] = dfm2::Svd3(dfm2::CMat3d(A), 30);
    MC_CHECK(c, diff(mul(mul(from(3, U2.p_), from(3, S2.p_)), tr(from(3, V2.p_))), a) < tol, "Svd3(MAT)"); }
  double R[9]; dfm2::GetRotPolarDecomp(R, A, 30);
  M r = from(3, R), s = mul(tr(r), a);
  MC_CHECK(c, isrot(r, 1e-6L), "GetRotPolarDecomp is not a rotation %s", show(r).c_str());
  LD asym = std::max({std::fabs(s(0, 1) - s(1, 0)), std::fabs(s(0, 2) - s(2, 0)), std::fabs(s(1, 2) - s(2, 1))});
  MC_CHECK(c, asym < 4 * tol, "GetRotPolarDecomp: stretch %s is not symmetric", show(s).c_str());
  if (det(a) > 0) {
    LD p2 = s(0, 0) * s(1, 1) - s(0, 1) * s(1, 0);
    MC_CHECK(c, s(0, 0) > 0 && p2 > 0, "GetRotPolarDecomp: stretch %s is not positive", show(s).c_str());
  }
  return true;
}
static void s_svd(mc::Ch &c) {
  static const int al[4] = {0, 1, -1, 2};
  M a{3, {}};
  int mode = c.choose(2);
  if (mode == 0) for (int i = 0; i < 9; ++i) a.a[i] = al[c.choose(3)];
  else { // rank one and two products, scaled
    int u[3], v[3], w[3];
    for (auto &t: u) t = al[c.choose(4)];
    for (auto &t: v) t = al[c.choose(4)];
    int two = c.choose(3);
    static const int ws[3][3] = {{0, 0, 0}, {1, 0, 0}, {-1, 2, 1}};
    for (int i = 0; i < 3; ++i) w[i] = ws[two][i];
    static const double sc[3] = {1, 1e-3, 1e3};
    double s = sc[c.choose(3)];
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) a(i, j) = s * (u[i] * v[j] + w[i] * w[(j + 1) % 3]);
  }
  c.describe("A=%s", show(a).c_str());
  c.commit();
  if (!svd_check(c, a)) return;
  c.outcome_of((double) det(a));
}
static void s_eigen(mc::Ch &c) {
  static const int al[5] = {0, 1, -1, 2, -3};
  double sm[6];
  for (auto &v: sm) v = al[c.choose(5)];
  double sc = c.pick({1., 1e-4, 1e4});
  for (auto &v: sm) v *= sc;
  c.describe("sm=%s", show(sm, 6).c_str());
  c.commit();
  double u[9] = {5, 5, 5, 5, 5, 5, 5, 5, 5}, l[3] = {8, 8, 8};
  dfm2::EigenSym3(u, l, sm, 30);
  M a{3, {sm[0], sm[5], sm[4], sm[5], sm[1], sm[3], sm[4], sm[3], sm[2]}};
  M v = from(3, u), g{3, {l[0], 0, 0, 0, l[1], 0, 0, 0, l[2]}};
  MC_CHECK(c, isrot(v, 1e-10L), "EigenSym3 vectors %s", show(v).c_str());
  M re = mul(mul(v, g), tr(v));
  MC_CHECK(c, diff(re, a) < 1e-9L * sc, "EigenSym3 reproduces %s (l=%s)", show(re).c_str(), show(l, 3).c_str());
  MC_CHECK(c, std::fabs((LD) l[0] + l[1] + l[2] - (a(0, 0) + a(1, 1) + a(2, 2))) < 1e-10L * sc, "eigenvalues sum");
  MC_CHECK(c, std::fabs(dfm2::SquareNormFrobenius_SymMat3(sm) - (double) [&] { LD s = 0; for (int i = 0; i < 9; ++i) s += a.a[i] * a.a[i]; return s; }()) < 1e-9 * sc * sc, "SquareNormFrobenius_SymMat3");
  c.outcome_of(l[0] / sc, l[1] / sc, l[2] / sc);
}

// ---------- section 4: rotations
static M rodr(LD x, LD y, LD z, LD th) { // unit axis
  LD C = std::cos(th), S = std::sin(th);
  return M{3, {C + (1 - C) * x * x, (1 - C) * x * y - z * S, (1 - C) * x * z + y * S,
               (1 - C) * x * y + z * S, C + (1 - C) * y * y, (1 - C) * y * z - x * S,
               (1 - C) * x * z - y * S, (1 - C) * y * z + x * S, C + (1 - C) * z * z}};
}
template<class T>
static bool rot_check(mc::Ch &c, LD ax, LD ay, LD az, LD th, bool half) {
  const LD E = std::is_same_v<T, float> ? 2e-5L : 1e-10L;
  const LD L = std::sqrt(ax * ax + ay * ay + az * az);
  ax /= L; ay /= L; az /= L;
  M r = rodr(ax, ay, az, th);
  T v[3] = {(T) (ax * th), (T) (ay * th), (T) (az * th)};
#define RM(X, what) do { M x_ = from(3, X); if (!(diff(x_, r) <= E)) { c.fail("%s gives %s instead of %s", what, show(x_).c_str(), show(r).c_str()); return false; } } while (0)
  T m[9]; dfm2::Mat3_RotMatFromAxisAngleVec(m, v); RM(m, "Mat3_RotMatFromAxisAngleVec");
  auto m2 = dfm2::Mat3_RotMatFromAxisAngleVec(std::array<T, 3>{v[0], v[1], v[2]}); RM(m2.data(), "Mat3_RotMatFromAxisAngleVec(VEC)");
  T q[4]; dfm2::Quat_CartesianAngle(q, v);
  T mq[9]; dfm2::Mat3_Quat(mq, q); RM(mq, "Mat3_Quat(Quat_CartesianAngle)");
  { auto q2 = dfm2::Quat_CartesianAngle(dfm2::CVec3<T>(v[0], v[1], v[2])); for (int i = 0; i < 4; ++i) if (!(std::fabs(q2[i] - q[i]) <= E)) { c.fail("Quat_CartesianAngle(VEC)"); return false; } }
  T rr[9]; for (int i = 0; i < 9; ++i) rr[i] = (T) r.a[i];
  T qm[4]; dfm2::Quat_Mat3(qm, rr);
  T rq[9]; dfm2::Mat3_Quat(rq, qm); RM(rq, "Mat3_Quat(Quat_Mat3)");
  { dfm2::CMat3<T> cm(rr); auto g = cm.GetQuaternion(); dfm2::CMat3<T> cm2; cm2.SetRotMatrix_Quaternion(g.data()); RM(cm2.p_, "CMat3 quaternion"); RM(dfm2::CMat3<T>::Quat(g.data()).p_, "CMat3::Quat"); }
  { auto aa = dfm2::Vec3_AxisAngleVecFromMat3<dfm2::CMat3<T>, T>(dfm2::CMat3<T>(rr)); T w[3] = {aa[0], aa[1], aa[2]}; T mm[9]; dfm2::Mat3_RotMatFromAxisAngleVec(mm, w);
    const LD tol = std::is_same_v<T, float> ? 2e-3L : 1e-6L; // the small-rotation branch and acos lose half of the digits
    if (!(diff(from(3, mm), r) <= tol)) { c.fail("Vec3_AxisAngleVecFromMat3 gives %s", show(w, 3).c_str()); return false; }
    if (!(w[0] * w[0] + w[1] * w[1] + w[2] * w[2] <= 9.87 + 0.02)) { c.fail("axis-angle vector longer than half a turn"); return false; }
    T w2[3] = {9, 9, 9}; dfm2::AxisAngleVectorCartesian_Mat3(w2, rr); dfm2::Mat3_RotMatFromAxisAngleVec(mm, w2);
    if (!(diff(from(3, mm), r) <= tol * 10)) { c.fail("AxisAngleVectorCartesian_Mat3 gives %s", show(w2, 3).c_str()); return false; } }
  if (!half) {
    T crv[3]; dfm2::AxisAngleVectorCRV_Mat3(crv, rr);
    auto mc_ = dfm2::Mat3_RotMatFromConformalRotationVector(std::array<T, 3>{crv[0], crv[1], crv[2]}); RM(mc_.data(), "conformal rotation vector");
    LD t2 = 2 * std::tan(th / 2);
    if (std::fabs(t2) < 1e3) {
      T rv[3] = {(T) (ax * t2), (T) (ay * t2), (T) (az * t2)};
      auto mr = dfm2::Mat3_RotMatFromRodriguesVector(std::array<T, 3>{rv[0], rv[1], rv[2]}); M x_ = from(3, mr.data());
      if (!(diff(x_, r) <= E * 20)) { c.fail("Mat3_RotMatFromRodriguesVector"); return false; }
      auto m4 = dfm2::Mat4_AffineRotationRodriguez(rv[0], rv[1], rv[2]);
      for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { LD e = i < 3 && j < 3 ? r(i, j) : (LD) (i == j); if (!(std::fabs(m4[i * 4 + j] - e) <= E * 20)) { c.fail("Mat4_AffineRotationRodriguez"); return false; } }
      T A4[16]; dfm2::Mat4_AffineTranslation(A4, (T) 1, (T) 2, (T) 3); dfm2::Rotate_Mat4AffineRodriguez(A4, rv);
      for (int i = 0; i < 3; ++i) { LD e = r(i, 0) + 2 * r(i, 1) + 3 * r(i, 2); if (!(std::fabs(A4[i * 4 + 3] - e) <= E * 100)) { c.fail("Rotate_Mat4AffineRodriguez"); return false; } } }
  }
  T m4[16]; dfm2::Mat4_AffineRotationCartesian(m4, v);
  T m5[16]; dfm2::Mat4_AffineQuaternion(m5, q);
  T m6[16]; dfm2::Mat4_AffineQuaternionConjugate(m6, q);
  auto m7 = dfm2::CMat4<T>::Quat(q);
  dfm2::CMat4<T> m8; m8.SetScale(2, 2, 2); m8.SetQuaternion(q);
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) {
    LD e = i < 3 && j < 3 ? r(i, j) : (LD) (i == j), et = i < 3 && j < 3 ? r(j, i) : (LD) (i == j);
    if (!(std::fabs(m4[i * 4 + j] - e) <= E)) { c.fail("Mat4_AffineRotationCartesian"); return false; }
    if (!(std::fabs(m5[i * 4 + j] - e) <= E)) { c.fail("Mat4_AffineQuaternion"); return false; }
    if (!(std::fabs(m6[i * 4 + j] - et) <= E)) { c.fail("Mat4_AffineQuaternionConjugate"); return false; }
    if (!(std::fabs(m7.mat[i * 4 + j] - e) <= E && std::fabs(m8.mat[i * 4 + j] - e) <= E)) { c.fail("CMat4 from quaternion"); return false; }
  }
  T x[3] = {2, -1, 3}, y[3], yc[3];
  dfm2::QuatVec(y, q, x); dfm2::QuatConjVec(yc, q, x);
  auto y2 = dfm2::QuatVec3(q, dfm2::CVec3<T>(x[0], x[1], x[2])); auto y3 = dfm2::CQuat<T>(q).RotateVector(dfm2::CVec3<T>(x[0], x[1], x[2]));
  for (int i = 0; i < 3; ++i) {
    LD e = 2 * r(i, 0) - r(i, 1) + 3 * r(i, 2), et = 2 * r(0, i) - r(1, i) + 3 * r(2, i);
    if (!(std::fabs(y[i] - e) <= 10 * E && std::fabs(y2[i] - e) <= 10 * E && std::fabs(y3[i] - e) <= 10 * E)) { c.fail("QuatVec"); return false; }
    if (!(std::fabs(yc[i] - et) <= 10 * E)) { c.fail("QuatConjVec"); return false; }
  }
  { auto w = dfm2::RotateVec3WithAxisAngleVector<dfm2::CVec3d>(dfm2::CVec3d(2, -1, 3), dfm2::CVec3d((double) (ax * th), (double) (ay * th), (double) (az * th)));
    for (int i = 0; i < 3; ++i) if (!(std::fabs(w[i] - (2 * r(i, 0) - r(i, 1) + 3 * r(i, 2))) <= 1e-9)) { c.fail("RotateVec3WithAxisAngleVector"); return false; } }
  { auto sp = dfm2::Vec3_SpinVectorFromMat3<dfm2::CMat3<T>, T>(dfm2::CMat3<T>(rr)); LD a3[3] = {ax, ay, az}; for (int i = 0; i < 3; ++i) if (!(std::fabs(sp[i] - a3[i] * std::sin(th)) <= E)) { c.fail("Vec3_SpinVectorFromMat3"); return false; } }
  return true;
#undef RM
}
static void s_rot(mc::Ch &c) {
  static const int al[5] = {0, 1, -1, 2, -3};
  int a[3]; for (auto &v: a) v = al[c.choose(5)];
  if (!a[0] && !a[1] && !a[2]) c.skip();
  int k = c.choose(31); // multiples of 15 degrees in (-180,180], and tiny or nearly half turns
  LD pi = std::acos(-1.0L), th;
  bool half = false;
  if (k <= 24) { th = (k - 12) * pi / 12; half = k == 24 || k == 0; }
  else { static const LD t[6] = {1e-4L, 1e-7L, 1e-12L, 0, 3.1405926L, 3.14159L}; th = t[k - 25]; half = k >= 29; }
  c.describe("axis (%d,%d,%d) angle %.9Lg", a[0], a[1], a[2], th);
  c.commit();
  if (!rot_check<double>(c, a[0], a[1], a[2], th, half)) return;
  if (!rot_check<float>(c, a[0], a[1], a[2], th, half)) return;
  c.outcome_of(a[0], a[1], a[2], k);
}
// quaternion algebra, Bryant and Euler angles, slerp
static void s_quat(mc::Ch &c) {
  static const int al[3] = {0, 1, -2};
  double p[4], q[4];
  for (auto &v: p) v = al[c.choose(3)];
  for (auto &v: q) v = al[c.choose(3)];
  c.describe("p=%s q=%s (x,y,z,w)", show(p, 4).c_str(), show(q, 4).c_str());
  c.commit();
  // Hamilton product by the multiplication table of 1,i,j,k
  static const int tb[4][4][2] = {{{3, -1}, {2, 1}, {1, -1}, {0, 1}}, {{2, -1}, {3, -1}, {0, 1}, {1, 1}}, {{1, 1}, {0, -1}, {3, -1}, {2, 1}}, {{0, 1}, {1, 1}, {2, 1}, {3, 1}}};
  double e[4] = {0, 0, 0, 0};
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) e[tb[i][j][0]] += tb[i][j][1] * p[i] * q[j];
  double r[4]; dfm2::QuatQuat(r, p, q);
  auto r2 = dfm2::Mult_QuatQuat(p, q);
  dfm2::CQuatd P(p), Q(q), R = P * Q;
  for (int i = 0; i < 4; ++i) MC_CHECK(c, r[i] == e[i] && r2[i] == e[i] && R.p[i] == e[i], "quaternion product %s instead of %s", show(r, 4).c_str(), show(e, 4).c_str());
  MC_CHECK(c, dfm2::Dot_Quat(p, q) == p[0] * q[0] + p[1] * q[1] + p[2] * q[2] + p[3] * q[3], "Dot_Quat");
  MC_CHECK(c, std::fabs(dfm2::Length_Quat(p) - std::sqrt(dfm2::Dot_Quat(p, p))) < 1e-12 && std::fabs(P.norm() - dfm2::Length_Quat(p)) < 1e-12, "quaternion length");
  { auto s = P + Q, d = P - Q, k = P * 3., k2 = 3. * P, h = P / 2., cj = P.conjugate(); for (int i = 0; i < 4; ++i) MC_CHECK(c, s.p[i] == p[i] + q[i] && d.p[i] == p[i] - q[i] && k.p[i] == 3 * p[i] && k2.p[i] == 3 * p[i] && h.p[i] == p[i] / 2 && cj.p[i] == (i < 3 ? -p[i] : p[i]), "quaternion arithmetic"); }
  double lp = dfm2::Length_Quat(p), lq = dfm2::Length_Quat(q);
  if (lp > 0) {
    double iv[4], pr[4]; dfm2::Inverse_Quat(iv, p); dfm2::QuatQuat(pr, p, iv);
    MC_CHECK(c, std::fabs(pr[0]) < 1e-12 && std::fabs(pr[1]) < 1e-12 && std::fabs(pr[2]) < 1e-12 && std::fabs(pr[3] - 1) < 1e-12, "Inverse_Quat");
    double u[4]; dfm2::Copy_Quat(u, p); dfm2::Normalize_Quat(u); auto Pn = P; Pn.normalize();
    for (int i = 0; i < 4; ++i) MC_CHECK(c, std::fabs(u[i] - p[i] / lp) < 1e-14 && std::fabs(Pn.p[i] - u[i]) < 1e-14, "Normalize_Quat");
    auto sm = Pn; sm.SetSmallerRotation(); double dt = dfm2::Dot_Quat(sm.p, Pn.p);
    MC_CHECK(c, sm.w >= 0 && std::fabs(std::fabs(dt) - 1) < 1e-12, "SetSmallerRotation");
    if (lq > 0) {
      auto Qn = Q; Qn.normalize();
      M mp{3, {}}, mq{3, {}}, mr{3, {}}; double t[9], t2[9], t3[9];
      dfm2::Mat3_Quat(t, Pn.p); dfm2::Mat3_Quat(t2, Qn.p); auto Rn = Pn * Qn; dfm2::Mat3_Quat(t3, Rn.p);
      mp = from(3, t); mq = from(3, t2); mr = from(3, t3);
      MC_CHECK(c, isrot(mp, 1e-12L) && diff(mul(mp, mq), mr) < 1e-12L, "the matrix of a product of quaternions is not the product of the matrices");
      double cs = dfm2::Dot_Quat(Pn.p, Qn.p);
      for (double s: {0., .25, .5, 1.}) {
        auto S = dfm2::SphericalLinearInterp(Pn, Qn, s);
        if (std::fabs(cs) > 1 - 1e-9) { if (cs > 0) { for (int i = 0; i < 4; ++i) MC_CHECK(c, std::fabs(S.p[i] - Pn.p[i]) < 1e-6, "slerp between equal quaternions %s", show(S.p, 4).c_str()); } continue; }
        double ph = std::acos(cs);
        for (int i = 0; i < 4; ++i) { double ex = (std::sin((1 - s) * ph) * Pn.p[i] + std::sin(s * ph) * Qn.p[i]) / std::sin(ph); MC_CHECK(c, std::fabs(S.p[i] - ex) < 1e-9, "slerp at %g is %s", s, show(S.p, 4).c_str()); }
      }
    }
  }
  c.outcome_of(r[0], r[1], r[2], r[3]);
}
static void s_euler(mc::Ch &c) {
  int ka = c.choose(9), kb = c.choose(9), kc = c.choose(9);
  LD pi = std::acos(-1.0L);
  static const LD deg[9] = {0, 30, -30, 75, -75, 90, -90, 135, 180};
  LD a = deg[ka] * pi / 180, b = deg[kb] * pi / 180, g = deg[kc] * pi / 180;
  int o = c.choose(6);
  static const int ord[6][3] = {{2, 1, 0}, {2, 0, 1}, {0, 1, 2}, {0, 2, 1}, {1, 2, 0}, {0, 1, 0}};
  c.describe("angles (%.0Lf,%.0Lf,%.0Lf) about axes %d,%d,%d", deg[ka], deg[kb], deg[kc], ord[o][0], ord[o][1], ord[o][2]);
  c.commit();
  auto rx = [&](int ax, LD t) { return rodr(ax == 0, ax == 1, ax == 2, t); };
  M e = mul(mul(rx(ord[o][0], a), rx(ord[o][1], b)), rx(ord[o][2], g));
  double q[4]; dfm2::Quaternion_EulerAngle(q, std::array<double, 3>{(double) a, (double) b, (double) g}, {ord[o][0], ord[o][1], ord[o][2]});
  double m[9]; dfm2::Mat3_Quat(m, q);
  MC_CHECK(c, diff(from(3, m), e) < 1e-12L, "Quaternion_EulerAngle");
  float qf[4]; dfm2::Quaternion_EulerAngle(qf, std::array<float, 3>{(float) a, (float) b, (float) g}, {ord[o][0], ord[o][1], ord[o][2]});
  float mf[9]; dfm2::Mat3_Quat(mf, qf);
  MC_CHECK(c, diff(from(3, mf), e) < 1e-5L, "Quaternion_EulerAngle<float>");
  if (o < 2 && kb < 5) { // away from the gimbal lock of the middle axis
    double ea[3]; dfm2::EulerAngle_Mat3(ea, m, {ord[o][0], ord[o][1], ord[o][2]});
    M f = mul(mul(rx(ord[o][0], ea[0]), rx(ord[o][1], ea[1])), rx(ord[o][2], ea[2]));
    MC_CHECK(c, diff(f, e) < 1e-10L, "EulerAngle_Mat3 gives %s", show(ea, 3).c_str());
    float eb[3]; dfm2::EulerAngle_Mat3(eb, mf, {ord[o][0], ord[o][1], ord[o][2]});
    f = mul(mul(rx(ord[o][0], eb[0]), rx(ord[o][1], eb[1])), rx(ord[o][2], eb[2]));
    MC_CHECK(c, diff(f, e) < 1e-4L, "EulerAngle_Mat3<float> gives %s", show(eb, 3).c_str());
  }
  if (o == 0) { // Bryant angles: first x, then y, then z
    M f = mul(mul(rx(2, g), rx(1, b)), rx(0, a));
    dfm2::Quat_Bryant(q, (double) a, (double) b, (double) g); dfm2::Mat3_Quat(m, q);
    MC_CHECK(c, diff(from(3, m), f) < 1e-12L, "Quat_Bryant");
    auto q2 = dfm2::Quat_Bryant((double) a, (double) b, (double) g); for (int i = 0; i < 4; ++i) MC_CHECK(c, q2[i] == q[i], "Quat_Bryant (array)");
    dfm2::CMat3d k; k.SetRotMatrix_BryantAngle((double) a, (double) b, (double) g);
    MC_CHECK(c, diff(from(3, k.p_), f) < 1e-12L, "SetRotMatrix_BryantAngle");
    double r3[9]; dfm2::Mat3_AffineRotation(r3, (double) a); MC_CHECK(c, diff(from(3, r3), rx(2, a)) < 1e-14L, "Mat3_AffineRotation");
    double t3[9]; double tl[2] = {(double) b, (double) g}; dfm2::Mat3_AffineTranslation(t3, tl); double pt[2] = {1, 2}; auto o2 = dfm2::Vec2_Mat3Vec2_Homography(t3, pt);
    MC_CHECK(c, o2[0] == 1 + tl[0] && o2[1] == 2 + tl[1], "Mat3_AffineTranslation");
  }
  c.outcome_of(ka, kb, kc, o);
}

// ---------- section 5: vectors and their matrices
static void s_vec3(mc::Ch &c) {
  static const int al[4] = {0, 1, -2, 3};
  double a[3], b[3];
  for (auto &v: a) v = al[c.choose(4)];
  for (auto &v: b) v = al[c.choose(4)];
  c.describe("a=%s b=%s", show(a, 3).c_str(), show(b, 3).c_str());
  c.commit();
  dfm2::CVec3d A(a[0], a[1], a[2]), B(b[0], b[1], b[2]);
  double cr[3] = {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
  double dt = a[0] * b[0] + a[1] * b[1] + a[2] * b[2], na = std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]);
  auto X = A.cross(B); auto X2 = dfm2::Cross(A, B); double x3[3]; dfm2::Cross(x3, a, b);
  for (int i = 0; i < 3; ++i) MC_CHECK(c, X[i] == cr[i] && X2[i] == cr[i] && x3[i] == cr[i], "cross product");
  MC_CHECK(c, A.dot(B) == dt && dfm2::Dot3(A, B) == dt && dfm2::Dot3(a, b) == dt, "dot product");
  MC_CHECK(c, mc::near(A.norm(), na, 1e-13) && A.squaredNorm() == dfm2::SquareLength3(a) && mc::near(dfm2::Length3(a), na, 1e-13), "norms");
  double d2 = 0; for (int i = 0; i < 3; ++i) d2 += (a[i] - b[i]) * (a[i] - b[i]);
  MC_CHECK(c, mc::near(dfm2::Distance3(a, b), std::sqrt(d2), 1e-13) && dfm2::SquareDistance3(A, B) == d2, "distances");
  double t[3] = {2, -1, 5}; dfm2::CVec3d Tv(2, -1, 5);
  MC_CHECK(c, dfm2::ScalarTripleProduct(A, B, Tv) == cr[0] * 2 - cr[1] + cr[2] * 5, "triple product");
  { auto s = A + B * 2. - 3. * Tv, h = A / 2., n = -A, ml = A.mult(B); for (int i = 0; i < 3; ++i) MC_CHECK(c, s[i] == a[i] + 2 * b[i] - 3 * t[i] && h[i] == a[i] / 2 && n[i] == -a[i] && ml[i] == a[i] * b[i], "vector arithmetic"); auto z = A; z += B; z -= Tv; z *= 3; z /= 2; for (int i = 0; i < 3; ++i) MC_CHECK(c, z[i] == (a[i] + b[i] - t[i]) * 3 / 2, "vector assignment operators"); }
  { double o[3]; dfm2::AverageTwo3(o, a, b); double o4[3]; dfm2::AverageFour3(o4, a, b, t, a); double w[3] = {a[0], a[1], a[2]}; dfm2::Add3(w, b); for (int i = 0; i < 3; ++i) MC_CHECK(c, o[i] == (a[i] + b[i]) / 2 && o4[i] == (2 * a[i] + b[i] + t[i]) / 4 && w[i] == a[i] + b[i], "averages"); }
  { double sp[9]; dfm2::Mat3_Spin(sp, a); auto sv = dfm2::Mat3_Spin(A); double sa[9] = {1, 2, 3, 4, 5, 6, 7, 8, 9}; dfm2::Mat3_Spin_ScaleAdd(sa, a, 2., -1.);
    auto cc = dfm2::Mat3_CrossCross<dfm2::CVec3d, double>(A); auto ip = dfm2::Mat3_IrotPoint<dfm2::CVec3d, double>(A); auto op = dfm2::Mat3_OuterProduct(A, B); auto fb = dfm2::Mat3_From3Bases(A, B, Tv); auto op2 = dfm2::CMat3d::OuterProduct(a, b);
    auto skew = dfm2::CMat3d::Skew(A);
    M S = from(3, sp), S2 = mul(S, S);
    for (int i = 0; i < 3; ++i) { double v = sp[i * 3] * b[0] + sp[i * 3 + 1] * b[1] + sp[i * 3 + 2] * b[2]; MC_CHECK(c, v == cr[i], "Mat3_Spin"); }
    for (int i = 0; i < 9; ++i) { MC_CHECK(c, sv[i] == sp[i] && sa[i] == 2 * sp[i] - (i + 1) && skew.p_[i] == sp[i], "spin variants"); MC_CHECK(c, cc[i] == S2.a[i] && ip[i] == -S2.a[i], "squared spin"); MC_CHECK(c, op[i] == a[i / 3] * b[i % 3] && op2.p_[i] == op[i], "outer product"); MC_CHECK(c, fb[i] == (i % 3 == 0 ? a : i % 3 == 1 ? b : t)[i / 3], "Mat3_From3Bases"); }
    double id[9] = {1, 2, 3, 4, 5, 6, 7, 8, 9}; dfm2::Mat3_Identity_ScaleAdd(id, 3., 2.); auto i2 = dfm2::Mat3_Identity(4.); double i3[9]; dfm2::Mat3_Identity(i3, 4.); for (int i = 0; i < 9; ++i) MC_CHECK(c, id[i] == 2 * (i + 1) + (i % 4 == 0 ? 3 : 0) && i2[i] == (i % 4 == 0 ? 4 : 0) && i3[i] == i2[i], "identity builders"); }
  if (na > 0) {
    auto n = A.normalized(); for (int i = 0; i < 3; ++i) MC_CHECK(c, mc::near(n[i] * na, a[i], 1e-13), "normalized"); double w[3] = {a[0], a[1], a[2]}; dfm2::Normalize3(w); for (int i = 0; i < 3; ++i) MC_CHECK(c, mc::near(w[i], n[i], 1e-13), "Normalize3");
    auto pr = dfm2::Mat3_NormalProjection(A), mi = dfm2::Mat3_Mirror(A);
    for (int i = 0; i < 3; ++i) { double v = 0, u = 0; for (int j = 0; j < 3; ++j) v += pr[i * 3 + j] * b[j], u += mi[i * 3 + j] * b[j]; MC_CHECK(c, mc::near(v, b[i] - n[i] * n.dot(B), 1e-12) && mc::near(u, b[i] - 2 * n[i] * n.dot(B), 1e-12), "projection or mirror matrix"); }
    dfm2::CVec3d fx, fy; dfm2::FrameFromVectorZ(fx, fy, n);
    MC_CHECK(c, mc::near(fx.norm(), 1, 1e-12) && mc::near(fy.norm(), 1, 1e-12) && std::fabs(fx.dot(fy)) < 1e-12 && std::fabs(fx.dot(n)) < 1e-12 && std::fabs(fy.dot(n)) < 1e-12 && fx.cross(fy).dot(n) > 0.99, "FrameFromVectorZ is not a right-handed frame");
    double nb = B.norm();
    if (nb > 0) {
      auto mr = dfm2::Mat3_MinimumRotation(A, B); M m = from(3, mr.data()); auto k = B.normalized();
      MC_CHECK(c, isrot(m, 1e-9L), "Mat3_MinimumRotation is not a rotation: %s", show(m).c_str());
      for (int i = 0; i < 3; ++i) MC_CHECK(c, std::fabs(m(i, 0) * n[0] + m(i, 1) * n[1] + m(i, 2) * n[2] - k[i]) < 1e-9L, "Mat3_MinimumRotation does not map the first direction to the second");
      MC_CHECK(c, std::fabs(m(0, 0) + m(1, 1) + m(2, 2) - 1 - 2 * (LD) n.dot(k)) < 1e-9L, "Mat3_MinimumRotation turns by more than the angle between the vectors");
    }
  }
  c.outcome_of(cr[0], cr[1], cr[2], dt);
}

// ---------- section 6: 4x4
template<class T> static bool mat4_inv(mc::Ch &c, const M &a, LD tol) {
  T A[16], I[16]; for (int i = 0; i < 16; ++i) { A[i] = (T) a.a[i]; I[i] = 5; }
  dfm2::Inverse_Mat4(I, A); M x = mul(from(4, I), a);
  MC_CHECK(c, diff(x, eye(4)) < tol, "Inverse_Mat4 of %s times the matrix gives %s", show(a).c_str(), show(x).c_str());
  auto I2 = dfm2::Inverse_Mat4(A); auto I3 = dfm2::CMat4<T>(A).Inverse();
  for (int i = 0; i < 16; ++i) MC_CHECK(c, std::fabs((LD) I2[i] - I[i]) < tol && std::fabs((LD) I3.mat[i] - I[i]) < tol, "inverse variants");
  return true;
}
static void s_mat4(mc::Ch &c) {
  M a{4, {}}, b{4, {}};
  static const int bs[2][16] = {{1, 2, 0, -1, 0, 1, 3, 0, 2, 0, -1, 1, 0, 0, 0, 1}, {0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 1, 0, 0, 0}};
  int base = c.choose(4);
  for (int i = 0; i < 12; ++i) { // twelve free bits placed over the base pattern
    int k = (i * 5 + base) % 16;
    if (c.flip()) a.a[k] = (i % 3 == 0) ? -2 : (i % 3 == 1 ? 1 : 3);
  }
  if (base == 1) for (int i = 0; i < 4; ++i) a(i, 3 - i) += 1;
  if (base == 2) for (int i = 0; i < 4; ++i) a(i, i) += 1;
  if (base == 3) for (int i = 0; i < 4; ++i) a(i, (i + 1) % 4) += 1;
  for (int i = 0; i < 16; ++i) b.a[i] = bs[base & 1][i];
  c.describe("A=%s", show(a).c_str());
  c.commit();
  double A[16], B[16], R[16]; for (int i = 0; i < 16; ++i) { A[i] = (double) a.a[i]; B[i] = (double) b.a[i]; }
  dfm2::MatMat4(R, A, B); MC_CHECK(c, diff(from(4, R), mul(a, b)) == 0, "MatMat4");
  dfm2::CMat4d m(A), q(B);
  MC_CHECK(c, diff(from(4, (m * q).mat), mul(a, b)) == 0 && diff(from(4, m.transpose().mat), tr(a)) == 0, "CMat4 product or transpose");
  dfm2::Transpose_Mat4(R, A); MC_CHECK(c, diff(from(4, R), tr(a)) == 0, "Transpose_Mat4");
  { auto s = m + q, d = m - q; for (int i = 0; i < 16; ++i) MC_CHECK(c, s.mat[i] == A[i] + B[i] && d.mat[i] == A[i] - B[i], "CMat4 + -"); }
  dfm2::MatMat<double, 4>(R, A, B); MC_CHECK(c, diff(from(4, R), mul(a, b)) == 0, "MatMat<4>");
  for (int i = 0; i < 16; ++i) R[i] = i; dfm2::Sub_MatMat<double, 4>(R, A, B); { M e = mul(a, b); for (int i = 0; i < 16; ++i) MC_CHECK(c, R[i] == i - (double) e.a[i], "Sub_MatMat"); }
  double x[4] = {3, -5, 7, 2}, y[4];
  auto row = [&](const M &k, int i, LD w) { return k(i, 0) * 3 - k(i, 1) * 5 + k(i, 2) * 7 + k(i, 3) * w; };
  dfm2::MatVec4(y, A, x); for (int i = 0; i < 4; ++i) MC_CHECK(c, y[i] == row(a, i, 2), "MatVec4");
  dfm2::VecMat4(y, x, A); for (int i = 0; i < 4; ++i) MC_CHECK(c, y[i] == row(tr(a), i, 2), "VecMat4");
  dfm2::MatVec<double, 4, 4>(y, A, x); for (int i = 0; i < 4; ++i) MC_CHECK(c, y[i] == row(a, i, 2), "MatVec<4,4>");
  { double z[2] = {1, 1}; dfm2::Sub_MatVec<double, 2, 4>(z, A, x); for (int i = 0; i < 2; ++i) MC_CHECK(c, z[i] == 1 - row(a, i, 2), "Sub_MatVec"); double z2[3]; dfm2::MatVec<double, 3, 4>(z2, A, x); for (int i = 0; i < 3; ++i) MC_CHECK(c, z2[i] == row(a, i, 2), "MatVec<3,4>"); }
  dfm2::Mat4Vec3(y, A, x); auto mv3 = m.MultVec3(x); auto mv4 = dfm2::Mat4Vec3(A, dfm2::CVec3d(x[0], x[1], x[2])); for (int i = 0; i < 3; ++i) MC_CHECK(c, y[i] == row(a, i, 0) && mv3[i] == y[i] && mv4[i] == y[i], "Mat4Vec3");
  dfm2::Vec3Mat4(y, x, A); for (int i = 0; i < 3; ++i) MC_CHECK(c, y[i] == row(tr(a), i, 0), "Vec3Mat4");
  dfm2::Vec3_Mat4Vec3_Affine(y, A, x); for (int i = 0; i < 3; ++i) MC_CHECK(c, y[i] == row(a, i, 1), "Vec3_Mat4Vec3_Affine");
  LD w = row(a, 3, 1), wt = row(tr(a), 3, 1);
  if (w != 0) { auto h = dfm2::Vec3_Mat4Vec3_Homography(A, x); auto h2 = dfm2::Vec2_Mat4Vec3_Homography(A, x); auto h3 = m.MultVec3_Homography(x); auto h4 = m.Vec2_MultVec3_Homography(x); for (int i = 0; i < 3; ++i) { LD e = row(a, i, 1) / w; MC_CHECK(c, std::fabs(h[i] - e) < 1e-12L && std::fabs(h3[i] - e) < 1e-12L && (i > 1 || (std::fabs(h2[i] - e) < 1e-12L && std::fabs(h4[i] - e) < 1e-12L)), "homography"); } }
  if (wt != 0) { dfm2::Vec3_Vec3Mat4_Homography(y, x, A); for (int i = 0; i < 3; ++i) MC_CHECK(c, std::fabs(y[i] - row(tr(a), i, 1) / wt) < 1e-12L, "transposed homography"); }
  { auto tc = m.GetTranslationComponent(); for (int i = 0; i < 3; ++i) MC_CHECK(c, tc[i] == A[i * 4 + 3], "GetTranslationComponent"); auto f = m.cast<float>(); for (int i = 0; i < 16; ++i) MC_CHECK(c, f.mat[i] == (float) A[i], "cast"); }
  LD da = det(a);
  if (da != 0) {
    if (!mat4_inv<double>(c, a, 1e-9L)) return;
    if (!mat4_inv<float>(c, a, 2e-3L)) return;
    double in[16]; std::copy(A, A + 16, in);
    if (dfm2::Inverse_Matrix<double, 4>(in)) MC_CHECK(c, diff(mul(from(4, in), a), eye(4)) < 1e-8L, "Inverse_Matrix<4>");
    // the same after a rotation by right angles computed in floating point (tiny pivots)
    for (int ax = 0; ax < 3; ++ax) {
      double v[3] = {0, 0, 0}; v[ax] = std::acos(-1.0) / 2; double Rm[16], P[16]; dfm2::Mat4_AffineRotationCartesian(Rm, v); dfm2::MatMat4(P, Rm, A);
      if (!mat4_inv<double>(c, from(4, P), 1e-9L)) return;
    }
  }
  c.outcome_of((double) da, base);
}
// ---------- section 7: projections, look-at and cameras
static void s_cam(mc::Ch &c) {
  int kind = c.choose(4);
  if (kind == 0) {
    double lo[3], hi[3];
    for (int i = 0; i < 3; ++i) { lo[i] = c.pick({-2., 1., 0.}); hi[i] = lo[i] + c.pick({1., 4., -3.}); }
    c.describe("ortho box %s %s", show(lo, 3).c_str(), show(hi, 3).c_str());
    c.commit();
    double m[16]; dfm2::Mat4_AffineProjectionOrtho(m, lo[0], hi[0], lo[1], hi[1], lo[2], hi[2]);
    for (int k = 0; k < 27; ++k) { int s[3] = {k % 3 - 1, k / 3 % 3 - 1, k / 9 - 1}; double p[3]; for (int i = 0; i < 3; ++i) p[i] = (lo[i] + hi[i]) / 2 + s[i] * (hi[i] - lo[i]) / 2; auto h = dfm2::Vec3_Mat4Vec3_Homography(m, p); for (int i = 0; i < 3; ++i) MC_CHECK(c, std::fabs(h[i] - s[i]) < 1e-12, "the box is not mapped to the cube"); }
  } else if (kind == 1) {
    double fovy = c.pick({0.3, 1.0, 2.0}), asp = c.pick({1., 2., .5}), zn = c.pick({-.1, -1.}), zf = zn - c.pick({1., 20.});
    c.describe("frustum fovy %g aspect %g z %g %g", fovy, asp, zf, zn);
    c.commit();
    double m[16]; dfm2::Mat4_AffineProjectionFrustum(m, fovy, asp, zf, zn);
    for (double z: {zf, zn, (zf + zn) / 2}) for (int sx = -1; sx <= 1; ++sx) for (int sy = -1; sy <= 1; ++sy) {
      double hgt = -z * std::tan(fovy / 2); double p[3] = {sx * hgt * asp, sy * hgt, z}; auto h = dfm2::Vec3_Mat4Vec3_Homography(m, p);
      MC_CHECK(c, std::fabs(h[0] - sx) < 1e-9 && std::fabs(h[1] - sy) < 1e-9, "a boundary ray of the frustum does not reach the boundary of the cube");
      if (z == zn || z == zf) MC_CHECK(c, std::fabs(std::fabs(h[2]) - 1) < 1e-9, "a clipping plane is at depth %g", h[2]); else MC_CHECK(c, std::fabs(h[2]) < 1, "a point between the clipping planes is outside"); }
    double p0[3] = {0, 0, zn}, p1[3] = {0, 0, zf}; MC_CHECK(c, dfm2::Vec3_Mat4Vec3_Homography(m, p0)[2] * dfm2::Vec3_Mat4Vec3_Homography(m, p1)[2] < 0, "both clipping planes at the same side");
    double mi[16]; dfm2::Inverse_Mat4(mi, m); auto [o, d] = dfm2::RayFromInverseMvpMatrix(mi, 3, 1, 8, 4);
    double px = -1 + 2. / 8 * 3.5, py = -1 + 2. / 4 * 1.5;
    for (double t: {0., .5, 1.}) { double q[3]; for (int i = 0; i < 3; ++i) q[i] = o[i] + t * d[i]; auto h = dfm2::Vec3_Mat4Vec3_Homography(m, q); MC_CHECK(c, std::fabs(h[0] - px) < 1e-7 && std::fabs(h[1] - py) < 1e-7, "the ray of a pixel leaves the pixel: (%g,%g)", h[0], h[1]); }
    MC_CHECK(c, mc::near(std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]), 1, 1e-9), "ray direction is not a unit vector");
  } else if (kind == 2) {
    static const int al[3] = {0, 1, -2};
    double e[3], t[3], u[3];
    for (auto &v: e) v = al[c.choose(3)];
    for (auto &v: t) v = al[c.choose(3)] + 0.5;
    int ku = c.choose(4);
    for (int i = 0; i < 3; ++i) u[i] = ku == 3 ? i - 1 : (ku == i);
    c.describe("eye %s center %s up %s", show(e, 3).c_str(), show(t, 3).c_str(), show(u, 3).c_str());
    dfm2::CVec3d E(e), T(t), Up(u);
    if ((T - E).cross(Up).norm() < 1e-3) c.skip();
    c.commit();
    double m[16]; dfm2::Mat4_AffineLookAt(m, e[0], e[1], e[2], t[0], t[1], t[2], u[0], u[1], u[2]);
    M r{3, {}}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r(i, j) = m[i * 4 + j];
    MC_CHECK(c, isrot(r, 1e-12L) && m[12] == 0 && m[13] == 0 && m[14] == 0 && m[15] == 1, "look-at is not rigid");
    auto pe = dfm2::Vec3_Mat4Vec3_Homography(m, e), pt = dfm2::Vec3_Mat4Vec3_Homography(m, t); double du[3], pu[3] = {e[0] + u[0], e[1] + u[1], e[2] + u[2]};
    auto hu = dfm2::Vec3_Mat4Vec3_Homography(m, pu); (void) du;
    for (int i = 0; i < 3; ++i) MC_CHECK(c, std::fabs(pe[i]) < 1e-12, "the eye is not moved to the origin");
    MC_CHECK(c, std::fabs(pt[0]) < 1e-12 && std::fabs(pt[1]) < 1e-12 && mc::near(-pt[2], (T - E).norm(), 1e-12), "the centre is not straight ahead: (%g,%g,%g)", pt[0], pt[1], pt[2]);
    MC_CHECK(c, std::fabs(hu[0]) < 1e-12 && hu[1] > 0, "the up vector does not point up");
    float mf[16]; dfm2::Mat4_AffineLookAt<float>(mf, (float) e[0], (float) e[1], (float) e[2], (float) t[0], (float) t[1], (float) t[2], (float) u[0], (float) u[1], (float) u[2]);
    for (int i = 0; i < 16; ++i) MC_CHECK(c, std::fabs(mf[i] - m[i]) < 1e-5, "look-at in single precision");
  } else {
    int k1 = c.choose(8), k2 = c.choose(5), k3 = c.choose(4);
    c.describe("cameras theta#%d psi#%d extra#%d", k1, k2, k3);
    c.commit();
    float th = 0.7854f * k1, ps = 0.35f * (k2 - 2);
    { dfm2::ModelView_Ytop v(th, ps); auto m = v.GetMatrix(); float p[3] = {std::sin(th) * std::cos(ps), std::sin(ps), std::cos(th) * std::cos(ps)}, o[3] = {0, 0, 0}, up[3] = {0, 1, 0};
      auto h = dfm2::Vec3_Mat4Vec3_Homography(m.data(), p), h0 = dfm2::Vec3_Mat4Vec3_Homography(m.data(), o), h1 = dfm2::Vec3_Mat4Vec3_Homography(m.data(), up);
      for (int i = 0; i < 3; ++i) MC_CHECK(c, std::fabs(h[i]) < 1e-5, "ModelView_Ytop eye");
      MC_CHECK(c, std::fabs(h0[2] + 1) < 1e-5 && std::fabs(h0[0]) < 1e-5 && h1[1] > 0, "ModelView_Ytop origin"); v.Rot_Camera(.1f, .2f); MC_CHECK(c, mc::near(v.theta, th - .1f, 1e-5, 1e-5) && mc::near(v.psi, ps - .2f, 1e-5, 1e-5), "Rot_Camera"); }
    { dfm2::ModelView_Ztop v; v.theta = th; v.psi = ps; auto m = v.GetMatrix(); float p[3] = {std::sin(th) * std::cos(ps), std::cos(th) * std::cos(ps), std::sin(ps)}, o[3] = {0, 0, 0}, up[3] = {0, 0, 1};
      auto h = dfm2::Vec3_Mat4Vec3_Homography(m.data(), p), h0 = dfm2::Vec3_Mat4Vec3_Homography(m.data(), o), h1 = dfm2::Vec3_Mat4Vec3_Homography(m.data(), up);
      for (int i = 0; i < 3; ++i) MC_CHECK(c, std::fabs(h[i]) < 1e-5, "ModelView_Ztop eye");
      MC_CHECK(c, std::fabs(h0[2] + 1) < 1e-5 && std::fabs(h0[0]) < 1e-5 && h1[1] > 0, "ModelView_Ztop origin"); }
    { dfm2::ModelView_Trackball v; v.anchor[0] = (float) k1; v.anchor[1] = -1; v.anchor[2] = 2; 
      float acc[4] = {0, 0, 0, 1};
      for (int s = 0; s <= k3; ++s) { float dx = s % 2 ? 0.f : 0.3f * (k2 - 2), dy = 0.2f * s; v.Rot_Camera(dx, dy);
        float a = std::sqrt(dx * dx + dy * dy); if (a > 0) { LD tt = a; M r = rodr(-dy / a, dx / a, 0, tt); float mq[9], mp[9]; dfm2::Mat3_Quat(mq, v.quaternion); dfm2::Mat3_Quat(mp, acc); MC_CHECK(c, diff(from(3, mq), mul(r, from(3, mp))) < 1e-5L, "a trackball drag is not a rotation about the screen axis"); }
        else for (int i = 0; i < 4; ++i) MC_CHECK(c, v.quaternion[i] == acc[i], "a zero drag turns the camera");
        std::copy(v.quaternion, v.quaternion + 4, acc); }
      auto m = v.GetMatrix(); auto h = dfm2::Vec3_Mat4Vec3_Homography(m.data(), v.anchor); for (int i = 0; i < 3; ++i) MC_CHECK(c, std::fabs(h[i]) < 1e-4, "the anchor is not at the origin");
      M r{3, {}}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r(i, j) = m[i * 4 + j]; float mq[9]; dfm2::Mat3_Quat(mq, v.quaternion); MC_CHECK(c, diff(r, from(3, mq)) < 1e-5L, "the model view matrix is not the rotation of the quaternion"); }
    { float vh = 0.5f + k1, asp = 0.5f + k2 * .5f; bool pers = k3 & 1; dfm2::Projection_LookOriginFromZplus pj(vh, pers, 10.f + 20 * (k3 / 2)); auto m = pj.GetMatrix(asp);
      for (int sx = -1; sx <= 1; ++sx) for (int sy = -1; sy <= 1; ++sy) { float p[3] = {sx * vh * asp, sy * vh, 0}; auto h = dfm2::Vec3_Mat4Vec3_Homography(m.data(), p); MC_CHECK(c, std::fabs(h[0] - sx) < 1e-4 && std::fabs(h[1] - sy) < 1e-4 && std::fabs(h[2]) < 1.0001, "the view height is not mapped to the boundary of the view: (%g,%g,%g) instead of (%d,%d)", h[0], h[1], h[2], sx, sy); } }
  }
  c.outcome_of(kind);
}
int main(int argc, char **argv) {
  return mc::run(argc, argv, {"C20", "exploration", {"rotations near the gimbal lock of the middle axis have no unique Euler angles", "inverses are only judged for matrices whose determinant is a nonzero integer"}},
                 {{"mat2", s_mat2, "all 2x2 matrices over five values times six right factors"},
                  {"mat3", s_mat3, "all 3x3 matrices over {0,1,-1}, plain and scaled"},
                  {"svd", s_svd, "all 3x3 matrices over {0,1,-1} and all rank-one and rank-two sums"},
                  {"eigen", s_eigen, "all symmetric 3x3 matrices over five values times three scales"},
                  {"rotation", s_rot, "all axes over five values times 31 angles"},
                  {"quaternion", s_quat, "all pairs of quaternions over three values"},
                  {"euler", s_euler, "all triples of nine angles times six axis orders"},
                  {"vec3", s_vec3, "all pairs of vectors over four values"},
                  {"mat4", s_mat4, "all 4096 sparsity patterns over four base patterns"},
                  {"camera", s_cam, "all boxes, frusta, views and drags of the alphabet"}});
}
