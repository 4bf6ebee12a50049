// C22: linear finite-element operators: every element matrix and residual of the alphabet against
// independently integrated operators, and every merge loop against a dense sum.
#include "mc.h"
#include <complex>
#include <climits>
#include <algorithm>
#include <iostream>
#include "delfem2/femutil.h"
#include "delfem2/ls_block_sparse.h"
#include "delfem2/fem_poisson.h"
#include "delfem2/fem_helmholtz.h"
#include "delfem2/fem_solidlinear.h"
#include "delfem2/fem_stokes.h"
#include "delfem2/fem_navierstokes.h"
#include "delfem2/fem_mitc3.h"
#include "delfem2/fem_dkt.h"
#include "delfem2/fem_beam2.h"
namespace dfm2 = delfem2;
using U = unsigned int;
using VD = std::vector<double>;
using VU = std::vector<U>;

// ---------- oracles
struct V2 { double x, y; };
struct V3 { double x, y, z; };
static V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static double dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static V3 cross(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }

// simplex of dimension 2 or 3: measure and gradients of the barycentric functions
struct Simplex {
  int dim = 0, n = 0;
  double w = 0;
  double g[4][3] = {};
  double p[4][3] = {};
};
static Simplex tri_of(const double P[3][2]) {
  Simplex s; s.dim = 2; s.n = 3;
  for (int i = 0; i < 3; ++i) for (int k = 0; k < 2; ++k) s.p[i][k] = P[i][k];
  double d = (P[1][0] - P[0][0]) * (P[2][1] - P[0][1]) - (P[1][1] - P[0][1]) * (P[2][0] - P[0][0]);
  s.w = d / 2;
  for (int i = 0; i < 3; ++i) {
    const double *a = P[(i + 1) % 3], *b = P[(i + 2) % 3];
    s.g[i][0] = -(b[1] - a[1]) / d; s.g[i][1] = (b[0] - a[0]) / d;
  }
  return s;
}
static Simplex tet_of(const double P[4][3]) {
  Simplex s; s.dim = 3; s.n = 4;
  V3 q[4];
  for (int i = 0; i < 4; ++i) { q[i] = {P[i][0], P[i][1], P[i][2]}; for (int k = 0; k < 3; ++k) s.p[i][k] = P[i][k]; }
  s.w = dot(cross(q[1] - q[0], q[2] - q[0]), q[3] - q[0]) / 6;
  for (int i = 0; i < 4; ++i) {
    V3 a = q[(i + 1) % 4], b = q[(i + 2) % 4], d = q[(i + 3) % 4];
    V3 n = cross(b - a, d - a);
    double h = dot(n, q[i] - a);
    s.g[i][0] = n.x / h; s.g[i][1] = n.y / h; s.g[i][2] = n.z / h;
  }
  return s;
}
static double gg(const Simplex &s, int i, int j) { double r = 0; for (int k = 0; k < s.dim; ++k) r += s.g[i][k] * s.g[j][k]; return r; }

// dense square matrix
struct Mat {
  int n = 0; VD a;
  explicit Mat(int m = 0) : n(m), a(size_t(m) * m, 0.0) {}
  double &operator()(int i, int j) { return a[size_t(i) * n + j]; }
  double operator()(int i, int j) const { return a[size_t(i) * n + j]; }
};
static VD mul(const Mat &m, const VD &x) { VD y(m.n, 0.0); for (int i = 0; i < m.n; ++i) for (int j = 0; j < m.n; ++j) y[i] += m(i, j) * x[j]; return y; }
static Mat lin(double a, const Mat &x, double b, const Mat &y) { Mat r(x.n); for (size_t i = 0; i < r.a.size(); ++i) r.a[i] = a * x.a[i] + b * y.a[i]; return r; }
static double maxabs(const VD &v) { double m = 0; for (double x: v) m = std::max(m, std::fabs(x)); return m; }

// strain-displacement form of isotropic elasticity from shape gradients
static void add_elastic(Mat &K, int dim, int nn, const double (*g)[3], double lam, double mu, double w) {
  int ns = dim == 2 ? 3 : 6;
  std::vector<VD> B(ns, VD(nn * dim, 0.0));
  for (int i = 0; i < nn; ++i) {
    for (int k = 0; k < dim; ++k) B[k][i * dim + k] = g[i][k];
    if (dim == 2) { B[2][i * 2] = g[i][1]; B[2][i * 2 + 1] = g[i][0]; }
    else {
      B[3][i * 3 + 1] = g[i][2]; B[3][i * 3 + 2] = g[i][1];
      B[4][i * 3 + 0] = g[i][2]; B[4][i * 3 + 2] = g[i][0];
      B[5][i * 3 + 0] = g[i][1]; B[5][i * 3 + 1] = g[i][0];
    }
  }
  for (int r = 0; r < ns; ++r)
    for (int s = 0; s < ns; ++s) {
      double D = 0;
      if (r < dim && s < dim) D = lam + (r == s ? 2 * mu : 0);
      else if (r == s) D = mu;
      if (D == 0) continue;
      for (int i = 0; i < nn * dim; ++i) if (B[r][i] != 0) for (int j = 0; j < nn * dim; ++j) K(i, j) += w * D * B[r][i] * B[s][j];
    }
}
static Mat laplace(const Simplex &s, int nd, int nact, double a) {
  Mat K(s.n * nd);
  for (int i = 0; i < s.n; ++i) for (int j = 0; j < s.n; ++j) for (int d = 0; d < nact; ++d) K(i * nd + d, j * nd + d) += a * s.w * gg(s, i, j);
  return K;
}
static Mat mass(const Simplex &s, int nd, int nact, double rho) {
  Mat M(s.n * nd);
  double c = s.dim == 2 ? 1. / 12 : 1. / 20;
  for (int i = 0; i < s.n; ++i) for (int j = 0; j < s.n; ++j) for (int d = 0; d < nact; ++d) M(i * nd + d, j * nd + d) += rho * s.w * c * (i == j ? 2 : 1);
  return M;
}
static VD load(const Simplex &s, int nd, const VD &f) {
  VD r(s.n * nd, 0.0);
  for (int i = 0; i < s.n; ++i) for (size_t d = 0; d < f.size(); ++d) r[i * nd + d] = s.w / s.n * f[d];
  return r;
}

// ---------- comparing a routine that is linear in its state with its operator
// state = blocks of nd numbers (displacement, velocity, acceleration); f(state, K, R)
using Op = std::function<void(const VD &, Mat &, VD &)>;
static bool same_mat(const Mat &a, const Mat &b, double rel, double abs = 0) {
  double sc = std::max(maxabs(a.a), maxabs(b.a));
  for (size_t i = 0; i < a.a.size(); ++i) if (!(std::fabs(a.a[i] - b.a[i]) <= rel * sc + abs + 1e-300)) return false;
  return true;
}
static bool same_vec(const VD &a, const VD &b, double tol) {
  for (size_t i = 0; i < a.size(); ++i) if (!(std::fabs(a[i] - b[i]) <= tol)) return false;
  return true;
}
static std::string ms(const Mat &m) { return mc::str(m.a); }
static void check_op(mc::Ch &c, const char *nm, int n, const std::vector<Mat> &A, const Mat &K, const VD &f0, const Op &f, double rel = 1e-10) {
  int nb = int(A.size());
  int total = n * nb;
  double sc = maxabs(f0) + maxabs(K.a);
  for (const Mat &m: A) sc += maxabs(m.a);
  for (int b = -1; b <= total; ++b) {
    VD st(total, 0.0);
    if (b >= 0 && b < total) st[b] = 1;
    if (b == total) for (int i = 0; i < total; ++i) st[i] = ((i * 5 + 3) % 7) - 3 + 0.25 * (i % 3);
    Mat Kc(n); VD R(n, 0.0);
    for (double &x: Kc.a) x = 77.; // routines must not depend on what the arrays held
    for (double &x: R) x = -55.;
    f(st, Kc, R);
    c.tick();
    MC_CHECK(c, same_mat(Kc, K, rel), "%s: element matrix %s, independently integrated %s", nm, ms(Kc).c_str(), ms(K).c_str());
    VD E = f0;
    for (int k = 0; k < nb; ++k) {
      VD x(st.begin() + k * n, st.begin() + (k + 1) * n);
      VD y = mul(A[k], x);
      for (int i = 0; i < n; ++i) E[i] -= y[i];
    }
    MC_CHECK(c, same_vec(R, E, rel * 40 * sc), "%s: residual %s for state %s, expected load minus operator times state %s", nm, mc::str(R).c_str(), mc::str(st).c_str(), mc::str(E).c_str());
  }
}

// ---------- alphabets
static bool pick_tri(mc::Ch &c, double P[3][2], int n) {
  int id[3];
  for (int i = 0; i < 3; ++i) id[i] = c.choose(n * n);
  int m = c.choose(3);
  if ((id[1] % n - id[0] % n) * (id[2] / n - id[0] / n) - (id[1] / n - id[0] / n) * (id[2] % n - id[0] % n) <= 0) c.skip();
  for (int i = 0; i < 3; ++i) {
    double x = id[i] % n, y = id[i] / n;
    if (m == 0) { P[i][0] = x; P[i][1] = y; }
    else if (m == 1) { P[i][0] = 0.5 * x - 3.25; P[i][1] = 0.5 * y + 7; }
    else { P[i][0] = 1.3 * x + 0.4 * y + 0.1; P[i][1] = -0.2 * x + 0.7 * y - 1.1; }
  }
  return true;
}
static void pick_tet(mc::Ch &c, double P[4][3]) {
  int id[4];
  for (int i = 0; i < 4; ++i) id[i] = c.choose(8);
  int m = c.choose(3);
  for (int i = 0; i < 4; ++i) {
    double x = id[i] & 1, y = (id[i] >> 1) & 1, z = id[i] >> 2;
    if (m == 0) { P[i][0] = x; P[i][1] = y; P[i][2] = z; }
    else if (m == 1) { P[i][0] = 0.5 * x - 3.25; P[i][1] = 0.5 * y + 7; P[i][2] = 2 * z - 1; }
    else { P[i][0] = 1.3 * x + 0.4 * y + 0.2 * z; P[i][1] = -0.2 * x + 0.7 * y - 0.1 * z - 1.1; P[i][2] = 0.3 * x + 0.1 * y + 0.9 * z + 2; }
  }
  Simplex s = tet_of(P);
  if (!(s.w > 1e-9)) c.skip();
}
struct Par { double a, b, rho; double g[3]; double dt, gam, beta; };
static const Par PARS[3] = {{1, 0, 1, {0, 0, 0}, 1, 0.5, 0.25}, {1, 2.5, 2.5, {1, -2, 3}, 0.1, 0.6, 0.3025}, {0.3, 1.25, 0.75, {-4, 0.5, 2}, 0.25, 1, 0.5}};

template<int N, int D> static void put(const double (*e)[N][D][D], Mat &K) {
  for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) for (int a = 0; a < D; ++a) for (int b = 0; b < D; ++b) K(i * D + a, j * D + b) = e[i][j][a][b];
}
template<int N> static void put1(const double (*e)[N], Mat &K) { for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) K(i, j) = e[i][j]; }
template<int N, int D> static void get(const VD &st, int blk, double (*o)[D]) { for (int i = 0; i < N; ++i) for (int d = 0; d < D; ++d) o[i][d] = st[blk * N * D + i * D + d]; }

// ---------- scalar operators on triangles and tetrahedra
static void scalar_tri(mc::Ch &c) {
  double P[3][2]; pick_tri(c, P, 3);
  const Par &q = PARS[c.choose(3)];
  c.commit();
  c.describe("triangle (%g %g) (%g %g) (%g %g)", P[0][0], P[0][1], P[1][0], P[1][1], P[2][0], P[2][1]);
  Simplex s = tri_of(P);
  double src = q.g[0] + 0.5;
  Mat K = laplace(s, 1, 1, q.a), M = mass(s, 1, 1, q.rho);
  check_op(c, "EMat_Poisson_Tri2D", 3, {K}, K, load(s, 1, {src}), [&](const VD &st, Mat &Kc, VD &R) {
    double er[3], em[3][3]; std::fill_n(&em[0][0], 9, 9.0); std::fill_n(er, 3, 5.0);
    dfm2::EMat_Poisson_Tri2D(er, em, q.a, src, P, st.data()); put1<3>(em, Kc); R.assign(er, er + 3);
  });
  Mat E = lin(1, M, q.gam * q.dt, K), AV = lin(q.dt, K, 1, M);
  check_op(c, "EMat_Diffusion_Tri2D", 3, {K, AV}, E, load(s, 1, {src}), [&](const VD &st, Mat &Kc, VD &R) {
    double er[3], em[3][3]; std::fill_n(&em[0][0], 9, 9.0); std::fill_n(er, 3, 5.0);
    dfm2::EMat_Diffusion_Tri2D(er, em, q.a, src, q.dt, q.gam, q.rho, P, st.data(), st.data() + 3); put1<3>(em, Kc); R.assign(er, er + 3);
  });
  double wl = q.rho;
  double kk = 4 * M_PI * M_PI / wl / wl;
  Mat H = lin(1, laplace(s, 1, 1, 1.), -kk, mass(s, 1, 1, 1.));
  for (int im = 0; im < 2; ++im)
    check_op(c, "EMat_Helmholtz_Tri2D", 3, {H}, H, VD(3, 0.0), [&](const VD &st, Mat &Kc, VD &R) {
      std::complex<double> er[3], em[3][3], v[3];
      for (int i = 0; i < 3; ++i) v[i] = im ? std::complex<double>(0, st[i]) : std::complex<double>(st[i], 0);
      dfm2::EMat_Helmholtz_Tri2D(er, em, wl, P, v);
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { Kc(i, j) = em[i][j].real(); MC_CHECK(c, em[i][j].imag() == 0, "Helmholtz element matrix has an imaginary part"); }
      for (int i = 0; i < 3; ++i) { R[i] = im ? er[i].imag() : er[i].real(); MC_CHECK(c, (im ? er[i].real() : er[i].imag()) == 0, "Helmholtz residual mixes real and imaginary parts"); }
    }, 3e-5);
  // radiation condition on the first edge: i k / 6 L [2 1; 1 2] - i / (2 k L) [1 -1; -1 1]
  double L = std::hypot(P[1][0] - P[0][0], P[1][1] - P[0][1]), k = std::sqrt(kk);
  Mat S(2);
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) S(i, j) = k * L / 6 * (i == j ? 2 : 1) - 1 / (2 * k * L) * (i == j ? 1 : -1);
  for (int im = 0; im < 2; ++im)
    check_op(c, "EMat_SommerfeltRadiationBC_Line2D", 2, {S}, S, VD(2, 0.0), [&](const VD &st, Mat &Kc, VD &R) {
      std::complex<double> er[2], em[2][2], v[2];
      for (int i = 0; i < 2; ++i) v[i] = im ? std::complex<double>(0, st[i]) : std::complex<double>(st[i], 0);
      dfm2::EMat_SommerfeltRadiationBC_Line2D(er, em, wl, P, v);
      for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { Kc(i, j) = em[i][j].imag(); MC_CHECK(c, em[i][j].real() == 0, "radiation matrix has a real part"); }
      for (int i = 0; i < 2; ++i) R[i] = im ? -er[i].real() : er[i].imag(); // i*i = -1
    }, 3e-5);
  // shape functions
  double dl[3][2], ct[3];
  dfm2::TriDlDx(dl, ct, P[0], P[1], P[2]);
  for (int i = 0; i < 3; ++i) {
    for (int d = 0; d < 2; ++d) MC_CHECK(c, mc::near(dl[i][d], s.g[i][d], 1e-10), "TriDlDx node %d axis %d: %g, expected %g", i, d, dl[i][d], s.g[i][d]);
    for (int j = 0; j < 3; ++j) MC_CHECK(c, mc::near(dl[i][0] * P[j][0] + dl[i][1] * P[j][1] + ct[i], i == j ? 1. : 0., 1e-9), "TriDlDx: function %d at node %d is not %d", i, j, i == j);
  }
  MC_CHECK(c, mc::near(dfm2::femutil::TriArea2D(P[0], P[1], P[2]), s.w, 1e-11), "TriArea2D");
  c.outcome_of(int(1e6 * K.a[1]));
}
static void scalar_tet(mc::Ch &c) {
  double P[4][3]; pick_tet(c, P);
  const Par &q = PARS[c.choose(3)];
  c.commit();
  Simplex s = tet_of(P);
  double src = q.g[0] + 0.5;
  Mat K = laplace(s, 1, 1, q.a), M = mass(s, 1, 1, q.rho);
  check_op(c, "EMat_Poisson_Tet3D", 4, {K}, K, load(s, 1, {src}), [&](const VD &st, Mat &Kc, VD &R) {
    double er[4], em[4][4]; std::fill_n(&em[0][0], 16, 9.0); std::fill_n(er, 4, 5.0);
    dfm2::EMat_Poisson_Tet3D(er, em, q.a, src, P, st.data()); put1<4>(em, Kc); R.assign(er, er + 4);
  });
  Mat E = lin(1, M, q.gam * q.dt, K), AV = lin(q.dt, K, 1, M);
  check_op(c, "EMat_Diffusion_Newmark_Tet3D", 4, {K, AV}, E, load(s, 1, {src}), [&](const VD &st, Mat &Kc, VD &R) {
    double er[4], em[4][4]; std::fill_n(&em[0][0], 16, 9.0); std::fill_n(er, 4, 5.0);
    dfm2::EMat_Diffusion_Newmark_Tet3D(er, em, q.a, src, q.dt, q.gam, q.rho, P, st.data(), st.data() + 4); put1<4>(em, Kc); R.assign(er, er + 4);
  });
  double dl[4][3], ct[4];
  dfm2::TetDlDx(dl, ct, P[0], P[1], P[2], P[3]);
  for (int i = 0; i < 4; ++i) {
    for (int d = 0; d < 3; ++d) MC_CHECK(c, mc::near(dl[i][d], s.g[i][d], 1e-9), "TetDlDx node %d axis %d: %g, expected %g", i, d, dl[i][d], s.g[i][d]);
    for (int j = 0; j < 4; ++j) MC_CHECK(c, mc::near(dl[i][0] * P[j][0] + dl[i][1] * P[j][1] + dl[i][2] * P[j][2] + ct[i], i == j ? 1. : 0., 1e-9), "TetDlDx: function %d at node %d is not %d", i, j, i == j);
  }
  MC_CHECK(c, mc::near(dfm2::femutil::TetVolume3D(P[0], P[1], P[2], P[3]), s.w, 1e-11), "TetVolume3D");
  c.outcome_of(int(1e6 * K.a[1]));
}

// ---------- elasticity
static void solid_tri(mc::Ch &c) {
  double P[3][2]; pick_tri(c, P, 3);
  const Par &q = PARS[c.choose(3)];
  c.commit();
  Simplex s = tri_of(P);
  Mat K(6); add_elastic(K, 2, 3, s.g, q.b, q.a, s.w);
  Mat M = mass(s, 2, 2, q.rho);
  VD f = load(s, 2, {q.rho * q.g[0], q.rho * q.g[1]});
  check_op(c, "EMat_SolidStaticLinear_Tri2D", 6, {K}, K, f, [&](const VD &st, Mat &Kc, VD &R) {
    double er[3][2], em[3][3][2][2], u[3][2]; get<3, 2>(st, 0, u); std::fill_n(&em[0][0][0][0], 36, 9.0); std::fill_n(&er[0][0], 6, 5.0);
    dfm2::EMat_SolidStaticLinear_Tri2D(er, em, q.a, q.b, q.rho, q.g[0], q.g[1], u, P); put<3, 2>(em, Kc); R.assign(&er[0][0], &er[0][0] + 6);
  });
  for (int init = 0; init < 2; ++init) {
    Mat E = lin(1, M, q.beta * q.dt * q.dt, K), AV = lin(init ? q.dt : 0, K, 0, K), AA = lin(1, M, init ? .5 * q.dt * q.dt : 0, K);
    check_op(c, "EMat_SolidDynamicLinear_Tri2D", 6, {K, AV, AA}, E, f, [&](const VD &st, Mat &Kc, VD &R) {
      double er[3][2], em[3][3][2][2], u[3][2], v[3][2], a[3][2]; get<3, 2>(st, 0, u); get<3, 2>(st, 1, v); get<3, 2>(st, 2, a);
      std::fill_n(&em[0][0][0][0], 36, 9.0); std::fill_n(&er[0][0], 6, 5.0);
      dfm2::EMat_SolidDynamicLinear_Tri2D(er, em, q.a, q.b, q.rho, q.g[0], q.g[1], q.dt, q.gam, q.beta, u, v, a, P, init != 0); put<3, 2>(em, Kc); R.assign(&er[0][0], &er[0][0] + 6);
    });
  }
  // rigid modes of the real matrix
  {
    double er[3][2], em[3][3][2][2], u[3][2];
    for (int i = 0; i < 3; ++i) { u[i][0] = 2 - 1.5 * P[i][1]; u[i][1] = -1 + 1.5 * P[i][0]; }
    dfm2::EMat_SolidStaticLinear_Tri2D(er, em, q.a, q.b, q.rho, 0, 0, u, P);
    for (int i = 0; i < 6; ++i) MC_CHECK(c, std::fabs((&er[0][0])[i]) < 1e-9 * (1 + maxabs(K.a)), "rigid motion of a triangle gives a force %g", (&er[0][0])[i]);
  }
  c.outcome_of(int(1e6 * K.a[1]));
}
static void solid_tet(mc::Ch &c) {
  double P[4][3]; pick_tet(c, P);
  const Par &q = PARS[c.choose(3)];
  c.commit();
  Simplex s = tet_of(P);
  Mat K(12); add_elastic(K, 3, 4, s.g, q.b, q.a, s.w);
  Mat M = mass(s, 3, 3, q.rho);
  VD f = load(s, 3, {q.rho * q.g[0], q.rho * q.g[1], q.rho * q.g[2]});
  check_op(c, "EMat_SolidLinear_Static_Tet (set)", 12, {K}, K, VD(12, 0.0), [&](const VD &st, Mat &Kc, VD &R) {
    double er[4][3], em[4][4][3][3], u[4][3]; get<4, 3>(st, 0, u); std::fill_n(&em[0][0][0][0], 144, 9.0); std::fill_n(&er[0][0], 12, 0.0);
    dfm2::EMat_SolidLinear_Static_Tet(em, er, q.a, q.b, P, u, false); put<4, 3>(em, Kc); R.assign(&er[0][0], &er[0][0] + 12);
  });
  check_op(c, "EMat_SolidLinear_Static_Tet (add)", 12, {K}, K, f, [&](const VD &st, Mat &Kc, VD &R) {
    double er[4][3], em[4][4][3][3], u[4][3]; get<4, 3>(st, 0, u); std::fill_n(&em[0][0][0][0], 144, 2.0); for (int i = 0; i < 12; ++i) (&er[0][0])[i] = f[i];
    dfm2::EMat_SolidLinear_Static_Tet(em, er, q.a, q.b, P, u, true);
    for (int i = 0; i < 144; ++i) (&em[0][0][0][0])[i] -= 2.0;
    put<4, 3>(em, Kc); R.assign(&er[0][0], &er[0][0] + 12);
  });
  for (int init = 0; init < 2; ++init) {
    Mat E = lin(1, M, q.beta * q.dt * q.dt, K), AV = lin(init ? q.dt : 0, K, 0, K), AA = lin(1, M, init ? .5 * q.dt * q.dt : 0, K);
    check_op(c, "EMat_SolidLinear_NewmarkBeta_MeshTet3D", 12, {K, AV, AA}, E, f, [&](const VD &st, Mat &Kc, VD &R) {
      double er[4][3], em[4][4][3][3], u[4][3], v[4][3], a[4][3]; get<4, 3>(st, 0, u); get<4, 3>(st, 1, v); get<4, 3>(st, 2, a);
      std::fill_n(&em[0][0][0][0], 144, 9.0); std::fill_n(&er[0][0], 12, 5.0);
      dfm2::EMat_SolidLinear_NewmarkBeta_MeshTet3D(er, em, q.a, q.b, q.rho, q.g[0], q.g[1], q.g[2], q.dt, q.gam, q.beta, u, v, a, P, init != 0); put<4, 3>(em, Kc); R.assign(&er[0][0], &er[0][0] + 12);
    });
  }
  c.outcome_of(int(1e6 * K.a[1]));
}
// quadratic tetrahedron: exact integration with monomials of barycentric coordinates
static void solid_tetp2(mc::Ch &c) {
  double P[4][3]; pick_tet(c, P);
  const Par &q = PARS[c.choose(3)];
  c.commit();
  Simplex s = tet_of(P);
  static const int ED[6][2] = {{0, 1}, {1, 2}, {0, 2}, {0, 3}, {1, 3}, {2, 3}};
  // gradient of N_i = sum_k L_k * G[i][k] + G0[i]: linear in L
  double G[10][4][3] = {}, G0[10][3] = {};
  for (int i = 0; i < 4; ++i) for (int d = 0; d < 3; ++d) { G[i][i][d] = 4 * s.g[i][d]; G0[i][d] = -s.g[i][d]; }
  for (int e = 0; e < 6; ++e) for (int d = 0; d < 3; ++d) { int a = ED[e][0], b = ED[e][1]; G[4 + e][b][d] += 4 * s.g[a][d]; G[4 + e][a][d] += 4 * s.g[b][d]; }
  // degree-5 rule on the tetrahedron from a tensor rule (collapsed), built here: average of values at many points is avoided by
  // exact moments: int L_k = V/4, int L_k L_l = V/20 (1 + delta)
  Mat K(30);
  auto integ = [&](int i, int a, int j, int b) { // int dN_i/dx_a dN_j/dx_b
    double r = G0[i][a] * G0[j][b];
    for (int k = 0; k < 4; ++k) r += 0.25 * (G[i][k][a] * G0[j][b] + G0[i][a] * G[j][k][b]);
    for (int k = 0; k < 4; ++k) for (int l = 0; l < 4; ++l) r += (k == l ? 0.1 : 0.05) * G[i][k][a] * G[j][l][b];
    return r * s.w;
  };
  for (int i = 0; i < 10; ++i) for (int j = 0; j < 10; ++j) {
    double tr = integ(i, 0, j, 0) + integ(i, 1, j, 1) + integ(i, 2, j, 2);
    for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) K(i * 3 + a, j * 3 + b) = q.b * integ(i, a, j, b) + q.a * integ(i, b, j, a) + (a == b ? q.a * tr : 0);
  }
  VD f(30, 0.0);
  for (int i = 0; i < 10; ++i) for (int a = 0; a < 3; ++a) f[i * 3 + a] = q.rho * q.g[a] * s.w * (i < 4 ? -1. / 20 : 1. / 5);
  double dl[4][3]; for (int i = 0; i < 4; ++i) for (int d = 0; d < 3; ++d) dl[i][d] = s.g[i][d];
  check_op(c, "matRes_LinearSolid_TetP2", 30, {K}, K, f, [&](const VD &st, Mat &Kc, VD &R) {
    static thread_local double er[10][3], em[10][10][3][3], u[10][3]; get<10, 3>(st, 0, u); std::fill_n(&em[0][0][0][0], 900, 9.0); std::fill_n(&er[0][0], 30, 5.0);
    dfm2::matRes_LinearSolid_TetP2(em, er, s.w, q.b, q.a, q.g[0], q.g[1], q.g[2], q.rho, dl, u); put<10, 3>(em, Kc); R.assign(&er[0][0], &er[0][0] + 30);
  }, 1e-9);
  // stress of a linear and of a quadratic displacement
  double X[10][3];
  for (int i = 0; i < 4; ++i) for (int d = 0; d < 3; ++d) X[i][d] = P[i][d];
  for (int e = 0; e < 6; ++e) for (int d = 0; d < 3; ++d) X[4 + e][d] = .5 * (P[ED[e][0]][d] + P[ED[e][1]][d]);
  static const double LC[5][4] = {{1, 0, 0, 0}, {0, 0, 1, 0}, {.25, .25, .25, .25}, {.5, 0, .5, 0}, {.1, .2, .3, .4}};
  for (const auto &L: LC) {
    double u[10][3], x[3] = {0, 0, 0};
    for (int d = 0; d < 3; ++d) for (int k = 0; k < 4; ++k) x[d] += L[k] * P[k][d];
    auto U0 = [](const double *p, int d) { return d == 0 ? p[0] * 2 + p[1] * p[2] : d == 1 ? p[2] * p[2] - p[0] : p[0] * p[1] + 3 * p[2]; };
    for (int i = 0; i < 10; ++i) for (int d = 0; d < 3; ++d) u[i][d] = U0(X[i], d);
    double du[3][3] = {{2, x[2], x[1]}, {-1, 0, 2 * x[2]}, {x[1], x[0], 3}};
    double st[3][3] = {{9, 9, 9}, {9, 9, 9}, {9, 9, 9}};
    dfm2::stress_LinearSolid_TetP2(st, L[0], L[1], L[2], L[3], s.w, q.b, q.a, q.g[0], q.g[1], q.g[2], dl, u);
    double tr = du[0][0] + du[1][1] + du[2][2];
    for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) {
      double e = q.a * (du[a][b] + du[b][a]) + (a == b ? q.b * tr : 0);
      MC_CHECK(c, mc::near(st[a][b], e, 1e-8), "stress_LinearSolid_TetP2 [%d][%d] = %g, exact %g", a, b, st[a][b], e);
    }
  }
  c.outcome_of(int(1e6 * K.a[1]));
}
// bilinear rectangles
static void quad(mc::Ch &c) {
  double lx = c.pick({1., 2., 0.25, 3.}), ly = c.pick({1., 0.5, 4., 0.3});
  const Par &q = PARS[c.choose(3)];
  U ng = c.choose(5); // number of Gauss points minus one
  c.commit();
  // exact: products of 1D matrices
  static const int IX[4] = {0, 1, 1, 0}, IY[4] = {0, 0, 1, 1};
  auto dd = [](int a, int b) { return a == b ? 1. : -1.; };            // int N'N' * L
  auto nn = [](int a, int b) { return a == b ? 1. / 3 : 1. / 6; };     // int N N / L
  auto dn = [](int a, int) { return a ? 0.5 : -0.5; };                 // int N_a' N_b
  Mat K(4), E(8);
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) {
    double xx = dd(IX[i], IX[j]) / lx * nn(IY[i], IY[j]) * ly, yy = nn(IX[i], IX[j]) * lx * dd(IY[i], IY[j]) / ly;
    double xy = dn(IX[i], IX[j]) * dn(IY[j], IY[i]), yx = dn(IX[j], IX[i]) * dn(IY[i], IY[j]); // dNi/dx dNj/dy, dNi/dy dNj/dx
    K(i, j) = xx + yy;
    E(i * 2, j * 2) = (q.b + 2 * q.a) * xx + q.a * yy; E(i * 2 + 1, j * 2 + 1) = (q.b + 2 * q.a) * yy + q.a * xx;
    E(i * 2, j * 2 + 1) = q.b * xy + q.a * yx; E(i * 2 + 1, j * 2) = q.b * yx + q.a * xy;
  }
  double em[4][4]; std::fill_n(&em[0][0], 16, 7.0);
  Mat A(4);
  dfm2::EMat_Poission2_QuadOrth(em, lx, ly); put1<4>(em, A);
  MC_CHECK(c, same_mat(A, K, 1e-12), "EMat_Poission2_QuadOrth %s exact %s", ms(A).c_str(), ms(K).c_str());
  std::fill_n(&em[0][0], 16, 7.0);
  dfm2::EMat_Poisson2_QuadOrth_GaussInt(em, lx, ly, ng); put1<4>(em, A);
  double e2[4][4][2][2]; std::fill_n(&e2[0][0][0][0], 64, 7.0);
  dfm2::EMat_SolidLinear2_QuadOrth_GaussInt(e2, lx, ly, q.a, q.b, ng);
  Mat B(8); put<4, 2>(e2, B);
  if (ng >= 1) {
    MC_CHECK(c, same_mat(A, K, 1e-7), "EMat_Poisson2_QuadOrth_GaussInt(%u) %s exact %s", ng, ms(A).c_str(), ms(K).c_str());
    MC_CHECK(c, same_mat(B, E, 1e-7), "EMat_SolidLinear2_QuadOrth_GaussInt(%u) %s exact %s", ng, ms(B).c_str(), ms(E).c_str());
  } else { // one point: constant gradient is still exact
    static const double X[4][2] = {{0, 0}, {1, 0}, {1, 1}, {0, 1}};
    for (int m = 0; m < 3; ++m) {
      VD u(4); for (int i = 0; i < 4; ++i) u[i] = m == 0 ? 1 : m == 1 ? X[i][0] * lx : X[i][1] * ly;
      VD r = mul(A, u), e = mul(K, u);
      MC_CHECK(c, same_vec(r, e, 1e-9 * (1 + maxabs(K.a) * 4)), "one-point rule is not exact on a linear field: %s exact %s", mc::str(r).c_str(), mc::str(e).c_str());
    }
  }
  c.outcome_of(int(1e6 * K.a[1]));
}
// trilinear hexahedra
static void hex(mc::Ch &c) {
  int kind = c.choose(2); // 0: parallelepiped, 1: distorted cube
  double P[8][3];
  static const int HX[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
  if (kind == 0) {
    static const double A[5][9] = {{1, 0, 0, 0, 1, 0, 0, 0, 1}, {2, 0, 0, 0, .5, 0, 0, 0, 3}, {1, .3, .1, -.2, .8, .2, .1, 0, .6}, {0, 1, 0, 0, 0, 1, 1, 0, 0}, {0.1, -1, 0, 1, .1, 0, 0, 0.5, 1}};
    const double *a = A[c.choose(5)];
    double ox = c.pick({0., 4.5});
    for (int i = 0; i < 8; ++i) for (int d = 0; d < 3; ++d) P[i][d] = a[d * 3] * HX[i][0] + a[d * 3 + 1] * HX[i][1] + a[d * 3 + 2] * HX[i][2] + (d == 0 ? ox : 0);
  } else {
    for (int i = 0; i < 8; ++i) for (int d = 0; d < 3; ++d) P[i][d] = HX[i][d];
    int v0 = c.choose(8), d0 = c.choose(6), v1 = c.choose(8), d1 = c.choose(6);
    P[v0][d0 / 2] += d0 % 2 ? .25 : -.2;
    P[v1][d1 / 2] += d1 % 2 ? .15 : -.25;
  }
  const Par &q = PARS[kind == 0 ? c.choose(3) : 1];
  c.commit();
  // exact moments by a 4-point tensor rule of our own (degree 7)
  static const double gp[4] = {-0.8611363115940526, -0.3399810435848563, 0.3399810435848563, 0.8611363115940526}, gw[4] = {0.3478548451374538, 0.6521451548625461, 0.6521451548625461, 0.3478548451374538};
  double vol = 0, iN[8] = {}, iG[8][3] = {};
  Mat K(24);
  for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) for (int e = 0; e < 4; ++e) {
    double r[3] = {gp[a], gp[b], gp[e]}, N[8], dr[8][3];
    for (int i = 0; i < 8; ++i) {
      double s[3]; for (int d = 0; d < 3; ++d) s[d] = HX[i][d] ? 1 : -1;
      double t[3]; for (int d = 0; d < 3; ++d) t[d] = .5 * (1 + s[d] * r[d]);
      N[i] = t[0] * t[1] * t[2];
      dr[i][0] = .5 * s[0] * t[1] * t[2]; dr[i][1] = .5 * s[1] * t[0] * t[2]; dr[i][2] = .5 * s[2] * t[0] * t[1];
    }
    V3 J[3]; // dx/dr_k
    for (int k = 0; k < 3; ++k) { double v[3] = {}; for (int i = 0; i < 8; ++i) for (int d = 0; d < 3; ++d) v[d] += dr[i][k] * P[i][d]; J[k] = {v[0], v[1], v[2]}; }
    V3 c0 = cross(J[1], J[2]), c1 = cross(J[2], J[0]), c2 = cross(J[0], J[1]);
    double det = dot(J[0], c0);
    if (det <= 1e-6) c.skip();
    double w = gw[a] * gw[b] * gw[e];
    double g[8][3];
    for (int i = 0; i < 8; ++i) {
      g[i][0] = (dr[i][0] * c0.x + dr[i][1] * c1.x + dr[i][2] * c2.x) / det;
      g[i][1] = (dr[i][0] * c0.y + dr[i][1] * c1.y + dr[i][2] * c2.y) / det;
      g[i][2] = (dr[i][0] * c0.z + dr[i][1] * c1.z + dr[i][2] * c2.z) / det;
      iN[i] += w * det * N[i];
      for (int d = 0; d < 3; ++d) iG[i][d] += w * det * g[i][d];
    }
    vol += w * det;
    add_elastic(K, 3, 8, g, q.b, q.a, w * det);
  }
  VD f(24); for (int i = 0; i < 8; ++i) for (int d = 0; d < 3; ++d) f[i * 3 + d] = q.rho * q.g[d] * iN[i];
  auto call = [&](const VD &st, Mat &Kc, VD &R) {
    static thread_local double er[8][3], em[8][8][3][3], u[8][3]; get<8, 3>(st, 0, u); std::fill_n(&em[0][0][0][0], 576, 9.0); std::fill_n(&er[0][0], 24, 5.0);
    dfm2::elemMatRes_LinearSolidGravity3_Static_Q1(q.a, q.b, q.rho, q.g, P, u, em, er); put<8, 3>(em, Kc); R.assign(&er[0][0], &er[0][0] + 24);
  };
  if (kind == 0) check_op(c, "elemMatRes_LinearSolidGravity3_Static_Q1", 24, {K}, K, f, call, 1e-8);
  Mat Kc(24); VD R(24);
  call(VD(24, 0.0), Kc, R);
  MC_CHECK(c, same_vec(R, f, 1e-7), "hex load %s exact %s", mc::str(R).c_str(), mc::str(f).c_str());
  for (int i = 0; i < 24; ++i) for (int j = 0; j < i; ++j) MC_CHECK(c, mc::near(Kc(i, j), Kc(j, i), 1e-9), "hex stiffness not symmetric at (%d,%d)", i, j);
  double sc = maxabs(Kc.a);
  for (int m = 0; m < 12; ++m) { // u_a = x_b (m < 9) or constants: force equals the integral of the constant stress
    VD u(24, 0.0); double du[3][3] = {};
    if (m < 9) { du[m / 3][m % 3] = 1; for (int i = 0; i < 8; ++i) u[i * 3 + m / 3] = P[i][m % 3]; }
    else for (int i = 0; i < 8; ++i) u[i * 3 + m - 9] = 1;
    VD r = mul(Kc, u), e(24, 0.0);
    double tr = du[0][0] + du[1][1] + du[2][2];
    for (int i = 0; i < 8; ++i) for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) e[i * 3 + a] += (q.a * (du[a][b] + du[b][a]) + (a == b ? q.b * tr : 0)) * iG[i][b];
    MC_CHECK(c, same_vec(r, e, 1e-7 * (1 + sc)), "hex patch test, mode %d: nodal forces %s, constant-stress forces %s", m, mc::str(r).c_str(), mc::str(e).c_str());
    VD u2(u); for (double &x: u2) x *= 2;
    Mat K2(24); VD R2(24); call(u2, K2, R2);
    for (int i = 0; i < 24; ++i) MC_CHECK(c, mc::near(R2[i], f[i] - 2 * e[i], 1e-6), "hex residual, mode %d dof %d: %g expected %g", m, i, R2[i], f[i] - 2 * e[i]);
  }
  // shape functions in both node orders, at some points
  static const double RP[4][3] = {{0, 0, 0}, {-1, -1, -1}, {.5, -.25, 1}, {1, .3, -.7}};
  for (const auto &r: RP)
    for (int vox = 0; vox < 2; ++vox) {
      double Q[8][3]; // vox order is lexicographic
      static const int PERM[8] = {0, 1, 3, 2, 4, 5, 7, 6};
      for (int i = 0; i < 8; ++i) for (int d = 0; d < 3; ++d) Q[i][d] = P[vox ? PERM[i] : i][d];
      double det = -1, dn[8][3], an[8];
      double J0[3][3] = {}; // independent jacobian
      double x[3] = {};
      for (int i = 0; i < 8; ++i) {
        double s[3], t[3]; for (int d = 0; d < 3; ++d) { s[d] = HX[i][d] ? 1 : -1; t[d] = .5 * (1 + s[d] * r[d]); }
        for (int d = 0; d < 3; ++d) { x[d] += t[0] * t[1] * t[2] * P[i][d]; J0[0][d] += .5 * s[0] * t[1] * t[2] * P[i][d]; J0[1][d] += .5 * s[1] * t[0] * t[2] * P[i][d]; J0[2][d] += .5 * s[2] * t[0] * t[1] * P[i][d]; }
      }
      double d0 = dot(V3{J0[0][0], J0[0][1], J0[0][2]}, cross(V3{J0[1][0], J0[1][1], J0[1][2]}, V3{J0[2][0], J0[2][1], J0[2][2]}));
      if (d0 < 1e-6) continue;
      if (vox) dfm2::ShapeFunc_Vox8(r[0], r[1], r[2], Q, det, dn, an); else dfm2::ShapeFunc_Hex8(r[0], r[1], r[2], Q, det, dn, an);
      MC_CHECK(c, mc::near(det, d0, 1e-9), "ShapeFunc_%s jacobian %g exact %g", vox ? "Vox8" : "Hex8", det, d0);
      double sN = 0, sx[3] = {}, sg[3] = {}, sxg[3][3] = {};
      for (int i = 0; i < 8; ++i) { sN += an[i]; for (int d = 0; d < 3; ++d) { sx[d] += an[i] * Q[i][d]; sg[d] += dn[i][d]; for (int e = 0; e < 3; ++e) sxg[d][e] += Q[i][d] * dn[i][e]; } }
      MC_CHECK(c, mc::near(sN, 1., 1e-10), "shape functions sum to %g", sN);
      for (int d = 0; d < 3; ++d) {
        MC_CHECK(c, mc::near(sx[d], x[d], 1e-9) && mc::near(sg[d], 0., 1e-8), "ShapeFunc_%s does not reproduce position or constants", vox ? "Vox8" : "Hex8");
        for (int e = 0; e < 3; ++e) MC_CHECK(c, mc::near(sxg[d][e], d == e ? 1. : 0., 1e-8), "ShapeFunc_%s gradients do not reproduce a linear field", vox ? "Vox8" : "Hex8");
      }
    }
  for (int ig = 1; ig < 4; ++ig) {
    double v = 0;
    for (int a = 0; a <= ig; ++a) for (int b = 0; b <= ig; ++b) for (int e = 0; e <= ig; ++e) { double dn[8][3]; v += dfm2::DiffShapeFuncAtQuadraturePoint_Hex(dn, ig, a, b, e, P); }
    MC_CHECK(c, mc::near(v, vol, 1e-6), "quadrature weights of DiffShapeFuncAtQuadraturePoint_Hex(%d) sum to %g, volume %g", ig, v, vol);
  }
  c.outcome_of(int(1e6 * vol));
}

// ---------- Stokes
template<int DIM> struct Flow { // generic split of a (DIM+1)-dof element
  static constexpr int NN = DIM + 1, ND = DIM + 1;
};
template<int DIM> static Mat stokes_op(const Simplex &s, double mu, double cpp) { // u-u Laplacian, divergence coupling, pressure Laplacian with coefficient cpp
  constexpr int NN = DIM + 1, ND = DIM + 1;
  Mat K(NN * ND);
  for (int i = 0; i < NN; ++i) for (int j = 0; j < NN; ++j) {
    for (int d = 0; d < DIM; ++d) {
      K(i * ND + d, j * ND + d) = mu * s.w * gg(s, i, j);
      K(i * ND + d, j * ND + DIM) = s.w * s.g[i][d] / NN;
      K(i * ND + DIM, j * ND + d) = s.w * s.g[j][d] / NN;
    }
    K(i * ND + DIM, j * ND + DIM) = cpp * s.w * gg(s, i, j);
  }
  return K;
}
template<int DIM> static void stokes(mc::Ch &c) {
  constexpr int NN = DIM + 1, ND = DIM + 1, N = NN * ND;
  double P[4][3]; double P2[3][2]; Simplex s;
  if constexpr (DIM == 2) { pick_tri(c, P2, 3); s = tri_of(P2); } else { pick_tet(c, P); s = tet_of(P); }
  const Par &q = PARS[c.choose(3)];
  c.commit();
  double mu = q.a;
  auto stat = [&](const VD &st, Mat &Kc, VD &R) {
    double em[NN][NN][ND][ND], er[NN][ND], u[NN][ND]; get<NN, ND>(st, 0, u); std::fill_n(&em[0][0][0][0], N * N, 9.0); std::fill_n(&er[0][0], N, 5.0);
    if constexpr (DIM == 2) dfm2::EMat_Stokes2D_Static_P1(mu, q.g[0], q.g[1], P2, u, em, er);
    else dfm2::MakeMat_Stokes3D_Static_P1(mu, q.g[0], q.g[1], q.g[2], P, u, em, er);
    put<NN, ND>(em, Kc); R.assign(&er[0][0], &er[0][0] + N);
  };
  auto dyn = [&](double gam, const VD &st, Mat &Kc, VD &R) {
    double em[NN][NN][ND][ND], er[NN][ND], u[NN][ND], a[NN][ND]; get<NN, ND>(st, 0, u); get<NN, ND>(st, 1, a); std::fill_n(&em[0][0][0][0], N * N, 9.0); std::fill_n(&er[0][0], N, 5.0);
    if constexpr (DIM == 2) dfm2::EMat_Stokes2D_Dynamic_P1(mu, q.rho, q.g[0], q.g[1], q.dt, gam, P2, u, a, em, er);
    else dfm2::MakeMat_Stokes3D_Dynamic_P1(mu, q.rho, q.g[0], q.g[1], q.g[2], q.dt, gam, P, u, a, em, er);
    put<NN, ND>(em, Kc); R.assign(&er[0][0], &er[0][0] + N);
  };
  VD f0 = load(s, ND, DIM == 2 ? VD{q.g[0], q.g[1]} : VD{q.g[0], q.g[1], q.g[2]});
  Mat Kc(N); VD R(N);
  stat(VD(N, 0.0), Kc, R);
  double cpp = Kc(DIM, DIM) / (s.w * gg(s, 0, 0)); // the stabilisation parameter is the element's own choice, its sign and form are not
  MC_CHECK(c, cpp < 0, "pressure stabilisation coefficient %g is not negative", cpp);
  Mat K = stokes_op<DIM>(s, mu, cpp);
  check_op(c, "Stokes static", N, {K}, K, f0, stat, 1e-9);
  Mat Kg(N);
  dyn(1. / q.dt, VD(2 * N, 0.0), Kg, R);
  double cp2 = Kg(DIM, DIM) / (s.w * gg(s, 0, 0));
  MC_CHECK(c, cp2 < 0, "pressure stabilisation coefficient %g (dynamic) is not negative", cp2);
  Mat C = stokes_op<DIM>(s, mu, cp2), M = mass(s, ND, DIM, q.rho);
  Mat E = lin(1, M, q.gam * q.dt, C), AV = lin(q.dt, C, 1, M);
  check_op(c, "Stokes dynamic", N, {C, AV}, E, f0, [&](const VD &st, Mat &Kx, VD &Rx) { dyn(q.gam, st, Kx, Rx); }, 1e-9);
  if constexpr (DIM == 3) { // the split-array variant
    auto sp = [&](double gam, const VD &st, Mat &Kx, VD &Rx) {
      double u[4][4], a[4][4]; get<4, 4>(st, 0, u); get<4, 4>(st, 1, a);
      double v[4][3], p[4], av[4][3], ap[4];
      for (int i = 0; i < 4; ++i) { for (int d = 0; d < 3; ++d) { v[i][d] = u[i][d]; av[i][d] = a[i][d]; } p[i] = u[i][3]; ap[i] = a[i][3]; }
      double uu[4][4][3][3], up[4][4][3], pu[4][4][3], pp[4][4], ru[4][3], rp[4];
      dfm2::MakeMat_Stokes3D_Dynamic_Newmark_P1P1(mu, q.rho, q.g[0], q.g[1], q.g[2], q.dt, gam, P, v, p, av, ap, uu, up, pu, pp, ru, rp);
      for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) {
        for (int d = 0; d < 3; ++d) { for (int e = 0; e < 3; ++e) Kx(i * 4 + d, j * 4 + e) = uu[i][j][d][e]; Kx(i * 4 + d, j * 4 + 3) = up[i][j][d]; Kx(i * 4 + 3, j * 4 + d) = pu[i][j][d]; }
        Kx(i * 4 + 3, j * 4 + 3) = pp[i][j];
      }
      for (int i = 0; i < 4; ++i) { for (int d = 0; d < 3; ++d) Rx[i * 4 + d] = ru[i][d]; Rx[i * 4 + 3] = rp[i]; }
    };
    Mat Kx(16); VD Rx(16);
    sp(1. / q.dt, VD(32, 0.0), Kx, Rx);
    double cp3 = Kx(3, 3) / (s.w * gg(s, 0, 0));
    MC_CHECK(c, cp3 < 0, "pressure stabilisation coefficient %g (split) is not negative", cp3);
    Mat C3 = stokes_op<3>(s, mu, cp3);
    check_op(c, "Stokes dynamic, split arrays", 16, {C3, lin(q.dt, C3, 1, M)}, lin(1, M, q.gam * q.dt, C3), f0, [&](const VD &st, Mat &Ky, VD &Ry) { sp(q.gam, st, Ky, Ry); }, 1e-9);
  }
  c.outcome_of(int(1e6 * K.a[1]));
}

// ---------- Navier-Stokes
static const int VELS[6][4][3] = {
    {{0, 0, 0}, {0, 0, 0}, {0, 0, 0}, {0, 0, 0}}, {{1, 0, 0}, {1, 0, 0}, {1, 0, 0}, {1, 0, 0}}, {{1, 2, -1}, {1, 2, -1}, {1, 2, -1}, {1, 2, -1}},
    {{1, 0, 2}, {0, 1, 0}, {2, -1, 1}, {0, 3, 1}}, {{0, 0, 1}, {3, 1, 0}, {-1, 2, 2}, {1, 1, 1}}, {{2, 1, 0}, {0, 0, 0}, {0, 0, 0}, {0, -1, 0}}};
template<int DIM> static void navier(mc::Ch &c) {
  constexpr int NN = DIM + 1, ND = DIM + 1, N = NN * ND;
  double P[4][3]; double P2[3][2]; Simplex s;
  if constexpr (DIM == 2) { pick_tri(c, P2, 3); s = tri_of(P2); } else { pick_tet(c, P); s = tet_of(P); }
  const Par &q = PARS[c.choose(3)];
  int vi = c.choose(6);
  c.commit();
  double mu = q.a, rho = q.rho, v[4][3];
  for (int i = 0; i < NN; ++i) for (int d = 0; d < DIM; ++d) v[i][d] = VELS[vi][i][d];
  auto call = [&](double gam, const VD &p, const VD &acc, Mat &K, VD &R) {
    double em[NN][NN][ND][ND], er[NN][ND], u[NN][ND], a[NN][ND]; get<NN, ND>(acc, 0, a); std::fill_n(&em[0][0][0][0], N * N, 9.0); std::fill_n(&er[0][0], N, 5.0);
    for (int i = 0; i < NN; ++i) { for (int d = 0; d < DIM; ++d) u[i][d] = v[i][d]; u[i][DIM] = p[i]; }
    if constexpr (DIM == 2) dfm2::EMat_NavierStokes2D_Dynamic_P1(mu, rho, q.g[0], q.g[1], q.dt, gam, P2, u, a, em, er);
    else dfm2::MakeMat_NavierStokes3D_Dynamic_P1(mu, rho, q.g[0], q.g[1], q.g[2], q.dt, gam, P, u, a, em, er);
    put<NN, ND>(em, K); R.assign(&er[0][0], &er[0][0] + N);
  };
  // the matrix is M + gamma dt C: read M and C off
  Mat M(N), MC(N), E(N); VD R(N);
  VD z4(4, 0.0), zN(N, 0.0);
  call(0, z4, zN, M, R); call(1. / q.dt, z4, zN, MC, R); call(q.gam, z4, zN, E, R);
  Mat C = lin(1, MC, -1, M);
  MC_CHECK(c, same_mat(E, lin(1, M, q.gam * q.dt, C), 1e-9), "Navier-Stokes matrix is not affine in gamma");
  double tau = C(DIM, DIM) / (s.w * gg(s, 0, 0)) * rho;
  MC_CHECK(c, tau >= 0 && std::isfinite(tau), "stabilisation parameter %g", tau);
  if (vi > 0 && DIM == 2) MC_CHECK(c, tau > 0, "stabilisation parameter %g for a moving fluid", tau);
  double av[3] = {}, vv[3][3] = {}; // mean velocity and mean of v v^T
  for (int d = 0; d < DIM; ++d) for (int i = 0; i < NN; ++i) av[d] += v[i][d] / NN;
  double den = DIM == 2 ? 12 : 20;
  for (int d = 0; d < DIM; ++d) for (int e = 0; e < DIM; ++e) for (int i = 0; i < NN; ++i) for (int j = 0; j < NN; ++j) vv[d][e] += v[i][d] * v[j][e] * (i == j ? 2 : 1) / den;
  Mat Ce(N), Me(N);
  for (int i = 0; i < NN; ++i) for (int j = 0; j < NN; ++j) {
    double adv = 0, supg = 0, vi_g = 0, vj_g = 0, mi = 0;
    for (int d = 0; d < DIM; ++d) {
      double vn = 0; // int N_i v_d
      for (int k = 0; k < NN; ++k) vn += v[k][d] * (i == k ? 2 : 1) / den;
      adv += rho * s.w * vn * s.g[j][d];
      double vm = 0; for (int k = 0; k < NN; ++k) vm += v[k][d] * (j == k ? 2 : 1) / den;
      mi += tau * rho * s.w * vm * s.g[i][d];
      vi_g += av[d] * s.g[i][d]; vj_g += av[d] * s.g[j][d];
      for (int e = 0; e < DIM; ++e) supg += tau * rho * s.w * s.g[i][d] * s.g[j][e] * vv[d][e];
    }
    for (int d = 0; d < DIM; ++d) {
      for (int e = 0; e < DIM; ++e) Ce(i * ND + d, j * ND + e) = mu * s.w * (s.g[i][e] * s.g[j][d] + (d == e ? gg(s, i, j) : 0));
      Ce(i * ND + d, j * ND + d) += adv + supg;
      Ce(i * ND + d, j * ND + DIM) = -s.w / NN * s.g[i][d] + tau * s.w * vi_g * s.g[j][d];
      Ce(i * ND + DIM, j * ND + d) = s.w / NN * s.g[j][d] + tau * s.w * s.g[i][d] * vj_g;
      Me(i * ND + d, j * ND + d) = rho * s.w * (i == j ? 2 : 1) / den + mi;
      Me(i * ND + DIM, j * ND + d) = M(i * ND + DIM, j * ND + d); // stabilisation by inertia: only its form is judged, below
    }
    Ce(i * ND + DIM, j * ND + DIM) = tau / rho * s.w * gg(s, i, j);
  }
  MC_CHECK(c, same_mat(C, Ce, 1e-8, 1e-9), "Navier-Stokes operator %s, independently integrated (tau=%g) %s", ms(C).c_str(), tau, ms(Ce).c_str());
  MC_CHECK(c, same_mat(M, Me, 1e-8, 1e-9), "Navier-Stokes mass %s, independently integrated %s", ms(M).c_str(), ms(Me).c_str());
  for (int j = 0; j < NN; ++j) for (int d = 0; d < DIM; ++d) {
    double r = 0; for (int i = 0; i < NN; ++i) { r += M(i * ND + DIM, j * ND + d); MC_CHECK(c, mc::near(std::fabs(M(i * ND + DIM, j * ND + d)), std::fabs(tau * s.w / NN * s.g[i][d]), 1e-8), "inertia in the continuity equation"); }
    MC_CHECK(c, std::fabs(r) < 1e-8 * (1 + maxabs(M.a)), "inertia stabilisation changes total mass balance");
  }
  // residual = load - C (u + dt a) - M a
  for (int t = 0; t < 3; ++t) {
    VD p(4, 0.0), acc(N, 0.0);
    if (t >= 1) for (int i = 0; i < NN; ++i) p[i] = i * i - 1.5;
    if (t == 2) for (int i = 0; i < N; ++i) acc[i] = ((i * 5 + 3) % 7) - 3;
    Mat Kx(N); call(q.gam, p, acc, Kx, R);
    VD st(N); for (int i = 0; i < NN; ++i) { for (int d = 0; d < DIM; ++d) st[i * ND + d] = v[i][d]; st[i * ND + DIM] = p[i]; }
    for (int i = 0; i < N; ++i) st[i] += q.dt * acc[i];
    VD ex = load(s, ND, DIM == 2 ? VD{rho * q.g[0], rho * q.g[1]} : VD{rho * q.g[0], rho * q.g[1], rho * q.g[2]}), y = mul(C, st), ym = mul(M, acc);
    for (int i = 0; i < N; ++i) ex[i] -= y[i] + ym[i];
    MC_CHECK(c, same_vec(R, ex, 1e-8 * (1 + maxabs(C.a) * 10 + maxabs(M.a) * 10)), "Navier-Stokes residual %s, expected %s", mc::str(R).c_str(), mc::str(ex).c_str());
  }
  c.outcome_of(int(1e6 * C.a[1]));
}

// ---------- plates and beams
static void plate(mc::Ch &c) {
  double P[3][2]; pick_tri(c, P, c.thorough ? 4 : 3);
  double thk = c.pick({1., 0.1, 2.5});
  const Par &q = PARS[c.choose(3)];
  c.commit();
  Simplex s = tri_of(P);
  double lam = q.b, mu = q.a;
  auto run = [&](const VD &st, double &W, Mat &K, VD &R) {
    double u[3][3], dW[3][3], dd[3][3][3][3]; get<3, 3>(st, 0, u); W = 0; std::fill_n(&dW[0][0], 9, 0.0); std::fill_n(&dd[0][0][0][0], 81, 0.0);
    dfm2::WdWddW_PlateBendingMITC3(W, dW, dd, P, u, thk, lam, mu); put<3, 3>(dd, K); R.assign(&dW[0][0], &dW[0][0] + 9);
  };
  // the library weighs the transverse shear with a penalty factor (4); the factor itself is a
  // modelling choice, but it must be the same positive constant for all triangles and directions
  double kappa;
  {
    const double P0[3][2] = {{0, 0}, {1, 0}, {0, 1}}, u0[3][3] = {{0, 0, 0}, {1, 0, 0}, {0, 0, 0}};
    double dW[3][3] = {}, dd[3][3][3][3] = {}; kappa = 0;
    dfm2::WdWddW_PlateBendingMITC3(kappa, dW, dd, P0, u0, 1.0, 1.0, 1.0);
    kappa /= .5 * .5;
    MC_CHECK(c, kappa > 0.5, "MITC3: no resistance to transverse shear (%g)", kappa);
  }
  Mat K(9); VD R(9); double W;
  run(VD(9, 0.0), W, K, R);
  MC_CHECK(c, W == 0 && maxabs(R) == 0, "plate at rest has energy %g", W);
  double sc = maxabs(K.a);
  for (int i = 0; i < 9; ++i) for (int j = 0; j < i; ++j) MC_CHECK(c, std::fabs(K(i, j) - K(j, i)) < 1e-11 * sc, "MITC3 stiffness not symmetric");
  for (int b = 0; b < 10; ++b) {
    VD st(9, 0.0); if (b < 9) st[b] = 1; else for (int i = 0; i < 9; ++i) st[i] = ((i * 5 + 3) % 7) - 3;
    Mat K2(9); VD R2(9); double W2; run(st, W2, K2, R2);
    VD y = mul(K, st); double e = 0; for (int i = 0; i < 9; ++i) e += .5 * y[i] * st[i];
    MC_CHECK(c, same_mat(K2, K, 1e-12) && same_vec(R2, y, 1e-9 * (sc + maxabs(y))) && mc::near(W2, e, 1e-9), "MITC3 energy, gradient and hessian disagree: W %g vs %g", W2, e);
  }
  // fields: w and its rotation (theta_x, theta_y); MITC3: transverse shear = (w,x + ty, w,y - tx)
  // 0-2 rigid; 3-5 constant curvature (Kirchhoff); 6-7 constant shear
  for (int m = 0; m < 8; ++m) {
    VD st(9);
    for (int i = 0; i < 3; ++i) {
      double x = P[i][0], y = P[i][1], w = 0, wx = 0, wy = 0, gx = 0, gy = 0;
      if (m == 0) w = 1;
      if (m == 1) { w = x; wx = 1; }
      if (m == 2) { w = y; wy = 1; }
      if (m == 3) { w = .5 * x * x; wx = x; }
      if (m == 4) { w = .5 * y * y; wy = y; }
      if (m == 5) { w = x * y; wx = y; wy = x; }
      if (m == 6) { w = x; wx = 1; gx = 1; }
      if (m == 7) { w = 2 * x + y; wx = 2; wy = 1; gx = 2; gy = 1; }
      st[i * 3] = w; st[i * 3 + 1] = wy - gy; st[i * 3 + 2] = -wx + gx;
    }
    double k[3] = {m == 3 ? 1. : 0., m == 4 ? 1. : 0., m == 5 ? 1. : 0.};
    double tr = k[0] + k[1];
    double bend = thk * thk * thk / 12 * (.5 * lam * tr * tr + mu * (k[0] * k[0] + k[1] * k[1] + 2 * k[2] * k[2])) * s.w;
    double sh = (m == 6 ? 1. : m == 7 ? 5. : 0.) * kappa * .5 * mu * thk * s.w;
    double W2; run(st, W2, K, R);
    double mag = sc * (1 + maxabs(st)) * (1 + maxabs(st));
    MC_CHECK(c, std::fabs(W2 - bend - sh) <= 1e-9 * (bend + sh) + 1e-11 * mag, "MITC3 energy of field %d is %.12g, exact %.12g", m, W2, bend + sh);
    if (m < 3) MC_CHECK(c, maxabs(R) <= 1e-10 * sc * (1 + maxabs(st)), "MITC3: rigid mode %d gives a force %g", m, maxabs(R));
  }
  // DKT: Kirchhoff plate with Young modulus and Poisson ratio; slopes: theta_x = w,y  theta_y = -w,x
  double E = 2 * q.rho, nu = c.thorough ? 0.45 : 0.3;
  auto dkt = [&](const VD &st, Mat &Kc, VD &Rr) {
    double ww[3][3], wr[3][3][2], rw[3][3][2], rr[3][3][2][2], ew[3], er[3][2], w[3], r[3][2];
    for (int i = 0; i < 3; ++i) { w[i] = st[i * 3]; r[i][0] = st[i * 3 + 1]; r[i][1] = st[i * 3 + 2]; }
    dfm2::MakeMat_PlateBendingDKT(ww, wr, rw, rr, ew, er, E, nu, thk, P, w, r);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
      Kc(i * 3, j * 3) = ww[i][j];
      for (int d = 0; d < 2; ++d) { Kc(i * 3, j * 3 + 1 + d) = wr[i][j][d]; Kc(i * 3 + 1 + d, j * 3) = rw[i][j][d]; for (int e = 0; e < 2; ++e) Kc(i * 3 + 1 + d, j * 3 + 1 + e) = rr[i][j][d][e]; }
    }
    for (int i = 0; i < 3; ++i) { Rr[i * 3] = ew[i]; Rr[i * 3 + 1] = er[i][0]; Rr[i * 3 + 2] = er[i][1]; }
  };
  Mat D(9); dkt(VD(9, 0.0), D, R);
  double sd = maxabs(D.a);
  // rw is indexed [rotation node][deflection node], wr the transpose of it
  for (int i = 0; i < 9; ++i) for (int j = 0; j < 9; ++j) MC_CHECK(c, std::fabs(D(i, j) - D(j, i)) < 1e-11 * sd, "DKT stiffness not symmetric at %d,%d", i, j);
  check_op(c, "MakeMat_PlateBendingDKT", 9, {D}, D, VD(9, 0.0), dkt, 1e-9);
  for (int m = 0; m < 6; ++m) {
    VD st(9);
    for (int i = 0; i < 3; ++i) {
      double x = P[i][0], y = P[i][1], w = 0, wx = 0, wy = 0;
      if (m == 0) w = 1;
      if (m == 1) { w = x; wx = 1; }
      if (m == 2) { w = y; wy = 1; }
      if (m == 3) { w = .5 * x * x; wx = x; }
      if (m == 4) { w = .5 * y * y; wy = y; }
      if (m == 5) { w = x * y; wx = y; wy = x; }
      st[i * 3] = w; st[i * 3 + 1] = wy; st[i * 3 + 2] = -wx;
    }
    double k[3] = {m == 3 ? 1. : 0., m == 4 ? 1. : 0., m == 5 ? 2. : 0.};
    double Df = E * thk * thk * thk / 12 / (1 - nu * nu);
    double en = .5 * Df * (k[0] * k[0] + k[1] * k[1] + 2 * nu * k[0] * k[1] + .5 * (1 - nu) * k[2] * k[2]) * s.w;
    VD y = mul(D, st); double e = 0; for (int i = 0; i < 9; ++i) e += .5 * y[i] * st[i];
    double mag = sd * (1 + maxabs(st)) * (1 + maxabs(st));
    MC_CHECK(c, std::fabs(e - en) <= 1e-9 * en + 1e-11 * mag, "DKT energy of field %d is %.12g, exact %.12g", m, e, en);
    if (m < 3) MC_CHECK(c, maxabs(y) <= 1e-10 * sd * (1 + maxabs(st)), "DKT: rigid mode %d gives a force %g", m, maxabs(y));
  }
  c.outcome_of(int(1e6 * K.a[1]));
}
template<typename T> static void beam_t(mc::Ch &c, int n, double tol) {
  int a = c.choose(n * n), b = c.choose(n * n);
  double EI = c.pick({1., 3., 0.25}), AE = c.pick({1., 10., 0.});
  if (a == b) c.skip();
  c.commit();
  T x[2][2] = {{T(a % n), T(a / n)}, {T(b % n), T(b / n)}};
  double dx = x[1][0] - x[0][0], dy = x[1][1] - x[0][1], L = std::hypot(dx, dy), cs = dx / L, sn = dy / L;
  // energy of Hermite beam: EI/2 int (v'')^2 + AE/2L (du)^2, integrated by Gauss on v'' (linear)
  Mat K(6);
  auto rows = [&](double t, double *B) { // v'' at t in [0,1] as row over (u0x u0y t0 u1x u1y t1)
    double bv0 = (-6 + 12 * t) / L / L, bt0 = (-4 + 6 * t) / L, bv1 = (6 - 12 * t) / L / L, bt1 = (-2 + 6 * t) / L;
    B[0] = -sn * bv0; B[1] = cs * bv0; B[2] = bt0; B[3] = -sn * bv1; B[4] = cs * bv1; B[5] = bt1;
  };
  for (int gq = 0; gq < 2; ++gq) {
    double B[6]; rows(.5 + (gq ? .5 : -.5) / std::sqrt(3.), B);
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) K(i, j) += EI * L / 2 * B[i] * B[j];
  }
  double A[6] = {-cs, -sn, 0, cs, sn, 0};
  for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) K(i, j) += AE / L * A[i] * A[j];
  Mat mK(6); for (size_t i = 0; i < 36; ++i) mK.a[i] = -K.a[i]; // dW = +K u
  check_op(c, "dWddW_Beam2", 6, {mK}, K, VD(6, 0.0), [&](const VD &st, Mat &Kc, VD &R) {
    T dW[2][3], dd[2][2][3][3], u[2][3]; for (int i = 0; i < 6; ++i) { (&u[0][0])[i] = T(st[i]); (&dW[0][0])[i] = 9; } std::fill_n(&dd[0][0][0][0], 36, T(4));
    dfm2::dWddW_Beam2<T>(dW, dd, T(EI), T(AE), x, u);
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) for (int p = 0; p < 3; ++p) for (int q = 0; q < 3; ++q) Kc(i * 3 + p, j * 3 + q) = dd[i][j][p][q];
    for (int i = 0; i < 6; ++i) R[i] = (&dW[0][0])[i];
  }, tol);
  c.outcome_of(a, b);
}
static void beam(mc::Ch &c) { if (c.flip()) beam_t<float>(c, c.thorough ? 4 : 3, 2e-6); else beam_t<double>(c, c.thorough ? 4 : 3, 1e-12); }

// ---------- assembly
template<typename T> static void make_pattern(dfm2::CMatrixSparse<T> &A, U np, U nd, const VU &el, int nn) {
  std::vector<std::vector<U>> nb(np);
  for (size_t e = 0; e < el.size() / nn; ++e) for (int i = 0; i < nn; ++i) for (int j = 0; j < nn; ++j) if (i != j) nb[el[e * nn + i]].push_back(el[e * nn + j]);
  VU ind(1, 0), idx;
  for (auto &v: nb) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); for (U x: v) idx.push_back(x); ind.push_back(U(idx.size())); }
  A.Initialize(np, nd, true);
  A.SetPattern(ind.data(), ind.size(), idx.data(), idx.size());
  A.setZero();
}
template<typename T> static std::vector<T> dense_of(const dfm2::CMatrixSparse<T> &A, U np, U nd) {
  std::vector<T> r(size_t(np) * nd * np * nd, T(0));
  U n = np * nd;
  for (U i = 0; i < np; ++i) {
    for (U a = 0; a < nd; ++a) for (U b = 0; b < nd; ++b) r[size_t(i * nd + a) * n + i * nd + b] += A.val_dia_[(size_t(i) * nd + a) * nd + b];
    for (U k = A.col_ind_[i]; k < A.col_ind_[i + 1]; ++k)
      for (U a = 0; a < nd; ++a) for (U b = 0; b < nd; ++b) r[size_t(i * nd + a) * n + A.row_ptr_[k] * nd + b] += A.val_crs_[(size_t(k) * nd + a) * nd + b];
  }
  return r;
}
struct Mesh { U np; VD x; VU el; int nn, dim; };
// one element sum: f(element coordinates index list, Ke, Re)
template<typename T> static void check_assembly(mc::Ch &c, const char *nm, const Mesh &m, U nd, const std::vector<T> &b, const dfm2::CMatrixSparse<T> &A, T b0, T a0,
    const std::function<void(const U *, std::vector<T> &, std::vector<T> &)> &fe) {
  U n = m.np * nd;
  std::vector<T> K(size_t(n) * n, T(0)), f(n, b0);
  for (U i = 0; i < m.np; ++i) for (U a = 0; a < nd; ++a) for (U e = 0; e < nd; ++e) K[size_t(i * nd + a) * n + i * nd + e] += a0;
  for (size_t e = 0; e < m.el.size() / m.nn; ++e) {
    std::vector<T> Ke(size_t(m.nn) * nd * m.nn * nd), Re(m.nn * nd);
    fe(m.el.data() + e * m.nn, Ke, Re);
    for (int i = 0; i < m.nn; ++i) for (U a = 0; a < nd; ++a) {
      U gi = m.el[e * m.nn + i] * nd + a;
      f[gi] += Re[i * nd + a];
      for (int j = 0; j < m.nn; ++j) for (U d = 0; d < nd; ++d) K[size_t(gi) * n + m.el[e * m.nn + j] * nd + d] += Ke[size_t(i * nd + a) * (m.nn * nd) + j * nd + d];
    }
  }
  auto D = dense_of(A, m.np, nd);
  double sc = 1, sf = 1; for (T x: K) sc = std::max(sc, double(std::abs(x))); for (T x: f) sf = std::max(sf, double(std::abs(x)));
  for (size_t i = 0; i < K.size(); ++i) MC_CHECK(c, std::abs(D[i] - K[i]) <= 1e-9 * sc, "%s: assembled entry (%d,%d) differs from the sum of the elements by %g", nm, int(i / n), int(i % n), double(std::abs(D[i] - K[i])));
  for (U i = 0; i < n; ++i) MC_CHECK(c, std::abs(b[i] - f[i]) <= 1e-9 * (sf + sc), "%s: assembled right-hand side %d differs from the sum of the elements by %g", nm, i, double(std::abs(b[i] - f[i])));
  c.tick();
}
template<int N, int D> static void flat(const double (*em)[N][D][D], const double (*er)[D], VD &K, VD &R) {
  for (int i = 0; i < N; ++i) { for (int a = 0; a < D; ++a) { R[i * D + a] = er[i][a]; for (int j = 0; j < N; ++j) for (int b = 0; b < D; ++b) K[size_t(i * D + a) * N * D + j * D + b] = em[i][j][a][b]; } }
}
static Mesh pick_trimesh(mc::Ch &c) {
  static const std::vector<std::pair<VD, VU>> MS = {
      {{0, 0, 1, 0, 0, 1}, {0, 1, 2}},
      {{0, 0, 1, 0, 1, 1, 0, 1}, {0, 1, 2, 0, 2, 3}},
      {{0, 0, 2, 0, 2, 2, 0, 2, 0.75, 1.125}, {0, 1, 4, 1, 2, 4, 2, 3, 4, 3, 0, 4}},
      {{0, 0, 1, 0, 2, 0, 0, 1, 1, 1, 2, 1.5, 0, 2, 1, 2, 2, 2.5}, {0, 1, 4, 0, 4, 3, 1, 2, 4, 2, 5, 4, 3, 4, 6, 4, 7, 6, 4, 5, 7, 5, 8, 7}},
      {{0, 0, 1, 0, 0, 1, 5, 5, 6, 5, 5, 7}, {0, 1, 2, 3, 4, 5}}};
  const auto &m = MS[c.choose(int(MS.size()))];
  Mesh r{U(m.first.size() / 2), m.first, m.second, 3, 2};
  // relabel nodes: every cyclic shift and reversal
  U n = r.np; U sh = c.choose(n); bool rev = c.flip();
  VD x(r.x.size());
  auto nu = [&](U i) { U j = (i + sh) % n; return rev ? n - 1 - j : j; };
  for (U i = 0; i < n; ++i) { x[nu(i) * 2] = r.x[i * 2]; x[nu(i) * 2 + 1] = r.x[i * 2 + 1]; }
  for (U &e: r.el) e = nu(e);
  r.x = x;
  int rot = c.choose(3); // local node order
  for (size_t e = 0; e < r.el.size(); e += 3) std::rotate(r.el.begin() + e, r.el.begin() + e + rot, r.el.begin() + e + 3);
  return r;
}
static Mesh pick_tetmesh(mc::Ch &c) {
  static const std::vector<std::pair<VD, VU>> MS = {
      {{0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1}, {0, 1, 2, 3}},
      {{0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1, 1, 1, 1.25}, {0, 1, 2, 3, 1, 2, 3, 4}},
      {{0, 0, 0, 2, 0, 0, 0, 2, 0, 0, 0, 2, 0.25, 0.5, 0.75}, {4, 1, 2, 3, 0, 4, 2, 3, 0, 1, 4, 3, 0, 1, 2, 4}}};
  const auto &m = MS[c.choose(int(MS.size()))];
  Mesh r{U(m.first.size() / 3), m.first, m.second, 4, 3};
  U n = r.np; U sh = c.choose(n); bool rev = c.flip();
  VD x(r.x.size());
  auto nu = [&](U i) { U j = (i + sh) % n; return rev ? n - 1 - j : j; };
  for (U i = 0; i < n; ++i) for (int d = 0; d < 3; ++d) x[nu(i) * 3 + d] = r.x[i * 3 + d];
  for (U &e: r.el) e = nu(e);
  r.x = x;
  for (size_t e = 0; e < r.el.size(); e += 4) { // keep positive volumes
    double P[4][3]; for (int i = 0; i < 4; ++i) for (int d = 0; d < 3; ++d) P[i][d] = r.x[r.el[e + i] * 3 + d];
    if (tet_of(P).w < 0) std::swap(r.el[e], r.el[e + 1]);
  }
  return r;
}
static VD field(U n, int kind) { VD v(n); for (U i = 0; i < n; ++i) v[i] = kind == 0 ? 0 : ((int(i) * 5 + 3 * kind) % 7) - 3 + 0.25 * (i % 3); return v; }

static void merge_tri(mc::Ch &c) {
  Mesh m = pick_trimesh(c);
  const Par &q = PARS[c.choose(3)];
  int k = c.choose(2);
  c.commit();
  U np = m.np; size_t ne = m.el.size() / 3;
  auto P2 = [&](const U *e, double (*P)[2]) { for (int i = 0; i < 3; ++i) for (int d = 0; d < 2; ++d) P[i][d] = m.x[e[i] * 2 + d]; };
  const double b0 = 0.5; // pointer variants add to what is there
  { // scalar
    VD u = field(np, k), v = field(np, 2 * k);
    dfm2::CMatrixSparse<double> A; make_pattern(A, np, 1, m.el, 3); VD b(np, b0);
    dfm2::MergeLinSys_Poission_MeshTri2D(A, b.data(), q.a, q.rho, m.x.data(), np, m.el.data(), ne, u.data());
    check_assembly<double>(c, "MergeLinSys_Poission_MeshTri2D", m, 1, b, A, b0, 0, [&](const U *e, VD &K, VD &R) {
      double P[3][2], em[3][3], er[3], w[3]; P2(e, P); for (int i = 0; i < 3; ++i) w[i] = u[e[i]];
      dfm2::EMat_Poisson_Tri2D(er, em, q.a, q.rho, P, w); std::copy(&em[0][0], &em[0][0] + 9, K.begin()); R.assign(er, er + 3); });
    A.setZero(); b.assign(np, b0);
    dfm2::MergeLinSys_Diffusion_MeshTri2D(A, b.data(), q.a, q.rho, q.g[0], q.dt, q.gam, m.x.data(), np, m.el.data(), ne, u.data(), v.data());
    check_assembly<double>(c, "MergeLinSys_Diffusion_MeshTri2D", m, 1, b, A, b0, 0, [&](const U *e, VD &K, VD &R) {
      double P[3][2], em[3][3], er[3], w[3], z[3]; P2(e, P); for (int i = 0; i < 3; ++i) { w[i] = u[e[i]]; z[i] = v[e[i]]; }
      dfm2::EMat_Diffusion_Tri2D(er, em, q.a, q.g[0], q.dt, q.gam, q.rho, P, w, z); std::copy(&em[0][0], &em[0][0] + 9, K.begin()); R.assign(er, er + 3); });
    using Z = std::complex<double>;
    std::vector<Z> zu(np), zb(np, Z(1, 2)); for (U i = 0; i < np; ++i) zu[i] = Z(u[i], v[i] + 1);
    dfm2::CMatrixSparse<Z> B; make_pattern(B, np, 1, m.el, 3);
    dfm2::MergeLinSys_Helmholtz_MeshTri2D(B, zb.data(), 2 + q.rho, m.x.data(), np, m.el.data(), ne, zu.data());
    check_assembly<Z>(c, "MergeLinSys_Helmholtz_MeshTri2D", m, 1, zb, B, Z(1, 2), Z(0), [&](const U *e, std::vector<Z> &K, std::vector<Z> &R) {
      double P[3][2]; P2(e, P); Z em[3][3], er[3], w[3] = {zu[e[0]], zu[e[1]], zu[e[2]]};
      dfm2::EMat_Helmholtz_Tri2D(er, em, 2 + q.rho, P, w); std::copy(&em[0][0], &em[0][0] + 9, K.begin()); R.assign(er, er + 3); });
    // a polyline along the first triangle
    Mesh l = m; l.nn = 2; l.el = {m.el[0], m.el[1], m.el[1], m.el[2]};
    VU pl = {m.el[0], m.el[1], m.el[2]};
    B.setZero(); zb.assign(np, Z(1, 2));
    dfm2::MergeLinSys_SommerfeltRadiationBC_Polyline2D(B, zb.data(), 2 + q.rho, m.x.data(), np, pl.data(), pl.size(), zu.data());
    check_assembly<Z>(c, "MergeLinSys_SommerfeltRadiationBC_Polyline2D", l, 1, zb, B, Z(1, 2), Z(0), [&](const U *e, std::vector<Z> &K, std::vector<Z> &R) {
      double P[2][2]; for (int i = 0; i < 2; ++i) for (int d = 0; d < 2; ++d) P[i][d] = m.x[e[i] * 2 + d];
      Z em[2][2], er[2], w[2] = {zu[e[0]], zu[e[1]]};
      dfm2::EMat_SommerfeltRadiationBC_Line2D(er, em, 2 + q.rho, P, w); std::copy(&em[0][0], &em[0][0] + 4, K.begin()); R.assign(er, er + 2); });
  }
  { // elasticity
    VD u = field(np * 2, k), v = field(np * 2, 2 * k), a = field(np * 2, 3 * k);
    dfm2::CMatrixSparse<double> A; make_pattern(A, np, 2, m.el, 3); VD b(np * 2, b0);
    auto get2 = [&](const VD &w, const U *e, double (*o)[2]) { for (int i = 0; i < 3; ++i) for (int d = 0; d < 2; ++d) o[i][d] = w[e[i] * 2 + d]; };
    dfm2::MergeLinSys_SolidLinear_Static_MeshTri2D(A, b.data(), q.a, q.b, q.rho, q.g[0], q.g[1], m.x.data(), np, m.el.data(), ne, u.data());
    check_assembly<double>(c, "MergeLinSys_SolidLinear_Static_MeshTri2D", m, 2, b, A, b0, 0, [&](const U *e, VD &K, VD &R) {
      double P[3][2], em[3][3][2][2], er[3][2], w[3][2]; P2(e, P); get2(u, e, w);
      dfm2::EMat_SolidStaticLinear_Tri2D(er, em, q.a, q.b, q.rho, q.g[0], q.g[1], w, P); flat<3, 2>(em, er, K, R); });
    A.setZero(); b.assign(np * 2, b0);
    dfm2::MergeLinSys_SolidLinear_NewmarkBeta_MeshTri2D(A, b.data(), q.a, q.b, q.rho, q.g[0], q.g[1], q.dt, q.gam, q.beta, m.x.data(), np, m.el.data(), ne, u.data(), v.data(), a.data());
    check_assembly<double>(c, "MergeLinSys_SolidLinear_NewmarkBeta_MeshTri2D", m, 2, b, A, b0, 0, [&](const U *e, VD &K, VD &R) {
      double P[3][2], em[3][3][2][2], er[3][2], w[3][2], x[3][2], y[3][2]; P2(e, P); get2(u, e, w); get2(v, e, x); get2(a, e, y);
      dfm2::EMat_SolidDynamicLinear_Tri2D(er, em, q.a, q.b, q.rho, q.g[0], q.g[1], q.dt, q.gam, q.beta, w, x, y, P, true); flat<3, 2>(em, er, K, R); });
    // patch test on the assembled system: linear displacement leaves interior nodes balanced
    for (int md = 0; md < 6; ++md) {
      VD w(np * 2, 0.0); for (U i = 0; i < np; ++i) w[i * 2 + md / 3] = md % 3 == 0 ? 1 : m.x[i * 2 + md % 3 - 1];
      A.setZero(); b.assign(np * 2, 0.0);
      dfm2::MergeLinSys_SolidLinear_Static_MeshTri2D(A, b.data(), q.a, q.b, q.rho, 0., 0., m.x.data(), np, m.el.data(), ne, w.data());
      double tot[2] = {};
      for (U i = 0; i < np; ++i) { tot[0] += b[i * 2]; tot[1] += b[i * 2 + 1]; }
      MC_CHECK(c, std::fabs(tot[0]) + std::fabs(tot[1]) < 1e-9, "internal forces do not balance");
      for (U i = 0; i < np; ++i) { // interior node: its incident edges all shared by two triangles
        std::map<U, int> cnt; for (size_t e = 0; e < ne; ++e) for (int j = 0; j < 3; ++j) if (m.el[e * 3 + j] == i) { cnt[m.el[e * 3 + (j + 1) % 3]]++; cnt[m.el[e * 3 + (j + 2) % 3]]++; }
        bool in = !cnt.empty(); for (auto &p: cnt) if (p.second != 2) in = false;
        if (in) MC_CHECK(c, std::fabs(b[i * 2]) + std::fabs(b[i * 2 + 1]) < 1e-9, "patch test: interior node %u has residual (%g %g)", i, b[i * 2], b[i * 2 + 1]);
      }
    }
  }
  { // flows and plates, three values per node
    VD u = field(np * 3, k), v = field(np * 3, 2 * k);
    dfm2::CMatrixSparse<double> A; make_pattern(A, np, 3, m.el, 3); VD b(np * 3, b0);
    auto get3 = [&](const VD &w, const U *e, double (*o)[3]) { for (int i = 0; i < 3; ++i) for (int d = 0; d < 3; ++d) o[i][d] = w[e[i] * 3 + d]; };
    dfm2::MergeLinSys_StokesStatic2D(A, b.data(), q.a, q.g[0], q.g[1], m.x.data(), np, m.el.data(), ne, u.data());
    check_assembly<double>(c, "MergeLinSys_StokesStatic2D", m, 3, b, A, b0, 0, [&](const U *e, VD &K, VD &R) {
      double P[3][2], em[3][3][3][3], er[3][3], w[3][3]; P2(e, P); get3(u, e, w);
      dfm2::EMat_Stokes2D_Static_P1(q.a, q.g[0], q.g[1], P, w, em, er); flat<3, 3>(em, er, K, R); });
    A.setZero(); b.assign(np * 3, b0);
    dfm2::MergeLinSys_StokesDynamic2D(A, b.data(), q.a, q.rho, q.g[0], q.g[1], q.dt, q.gam, m.x.data(), np, m.el.data(), ne, u.data(), v.data());
    check_assembly<double>(c, "MergeLinSys_StokesDynamic2D", m, 3, b, A, b0, 0, [&](const U *e, VD &K, VD &R) {
      double P[3][2], em[3][3][3][3], er[3][3], w[3][3], x[3][3]; P2(e, P); get3(u, e, w); get3(v, e, x);
      dfm2::EMat_Stokes2D_Dynamic_P1(q.a, q.rho, q.g[0], q.g[1], q.dt, q.gam, P, w, x, em, er); flat<3, 3>(em, er, K, R); });
    A.setZero(); b.assign(np * 3, b0);
    dfm2::MergeLinSys_NavierStokes2D(A, b.data(), q.a, q.rho, q.g[0], q.g[1], q.dt, q.gam, m.x.data(), np, m.el.data(), ne, u.data(), v.data());
    check_assembly<double>(c, "MergeLinSys_NavierStokes2D", m, 3, b, A, b0, 0, [&](const U *e, VD &K, VD &R) {
      double P[3][2], em[3][3][3][3], er[3][3], w[3][3], x[3][3]; P2(e, P); get3(u, e, w); get3(v, e, x);
      dfm2::EMat_NavierStokes2D_Dynamic_P1(q.a, q.rho, q.g[0], q.g[1], q.dt, q.gam, P, w, x, em, er); flat<3, 3>(em, er, K, R); });
    A.setZero(); b.assign(np * 3, b0);
    double thk = 0.25;
    dfm2::MergeLinSys_ShellStaticPlateBendingMITC3_MeshTri2D(A, b.data(), thk, q.b, q.a, q.rho, q.g[2], m.x.data(), np, m.el.data(), ne, u.data());
    check_assembly<double>(c, "MergeLinSys_ShellStaticPlateBendingMITC3_MeshTri2D", m, 3, b, A, b0, 0, [&](const U *e, VD &K, VD &R) {
      double P[3][2], em[3][3][3][3], er[3][3], w[3][3], W = 0; P2(e, P); get3(u, e, w); std::fill_n(&em[0][0][0][0], 81, 0.0); std::fill_n(&er[0][0], 9, 0.0);
      dfm2::WdWddW_PlateBendingMITC3(W, er, em, P, w, thk, q.b, q.a);
      for (auto &r: er) { for (double &x: r) x = -x; r[0] += q.rho * tri_of(P).w * thk / 3 * q.g[2]; }
      flat<3, 3>(em, er, K, R); });
    VD mm(np * 3, 99.0), me(np * 3, 0.0);
    dfm2::MassLumped_ShellPlateBendingMITC3(mm.data(), q.rho, thk, m.x.data(), np, m.el.data(), U(ne));
    for (size_t e = 0; e < ne; ++e) { double P[3][2]; P2(&m.el[e * 3], P); double w = tri_of(P).w * q.rho * thk / 3; for (int i = 0; i < 3; ++i) { me[m.el[e * 3 + i] * 3] += w; for (int d = 1; d < 3; ++d) me[m.el[e * 3 + i] * 3 + d] += w * thk * thk / 12; } }
    MC_CHECK(c, same_vec(mm, me, 1e-10), "lumped plate mass %s, expected %s", mc::str(mm).c_str(), mc::str(me).c_str());
  }
  c.outcome_of(mc::fnv(m.el.data(), m.el.size() * sizeof(U)));
}
static void merge_tet(mc::Ch &c) {
  Mesh m = pick_tetmesh(c);
  const Par &q = PARS[c.choose(3)];
  int k = c.choose(2);
  c.commit();
  U np = m.np; U ne = U(m.el.size() / 4);
  auto P4 = [&](const U *e, double (*P)[3]) { for (int i = 0; i < 4; ++i) for (int d = 0; d < 3; ++d) P[i][d] = m.x[e[i] * 3 + d]; };
  const double b0 = 0.5;
  {
    VD u = field(np, k), v = field(np, 2 * k);
    dfm2::CMatrixSparse<double> A; make_pattern(A, np, 1, m.el, 4); VD b(np, b0);
    dfm2::MergeLinSys_Poission_MeshTet3D(A, b.data(), q.a, q.rho, m.x.data(), np, m.el.data(), ne, u.data());
    check_assembly<double>(c, "MergeLinSys_Poission_MeshTet3D", m, 1, b, A, b0, 0, [&](const U *e, VD &K, VD &R) {
      double P[4][3], em[4][4], er[4], w[4]; P4(e, P); for (int i = 0; i < 4; ++i) w[i] = u[e[i]];
      dfm2::EMat_Poisson_Tet3D(er, em, q.a, q.rho, P, w); std::copy(&em[0][0], &em[0][0] + 16, K.begin()); R.assign(er, er + 4); });
    A.setZero(); b.assign(np, b0);
    dfm2::MergeLinSys_Diffusion_MeshTet3D(A, b.data(), q.a, q.rho, q.g[0], q.dt, q.gam, m.x.data(), np, m.el.data(), ne, u.data(), v.data());
    check_assembly<double>(c, "MergeLinSys_Diffusion_MeshTet3D", m, 1, b, A, b0, 0, [&](const U *e, VD &K, VD &R) {
      double P[4][3], em[4][4], er[4], w[4], z[4]; P4(e, P); for (int i = 0; i < 4; ++i) { w[i] = u[e[i]]; z[i] = v[e[i]]; }
      dfm2::EMat_Diffusion_Newmark_Tet3D(er, em, q.a, q.g[0], q.dt, q.gam, q.rho, P, w, z); std::copy(&em[0][0], &em[0][0] + 16, K.begin()); R.assign(er, er + 4); });
  }
  {
    VD u = field(np * 3, k), v = field(np * 3, 2 * k), a = field(np * 3, 3 * k);
    dfm2::CMatrixSparse<double> A; make_pattern(A, np, 3, m.el, 4); VD b(np * 3, b0);
    auto get3 = [&](const VD &w, const U *e, double (*o)[3]) { for (int i = 0; i < 4; ++i) for (int d = 0; d < 3; ++d) o[i][d] = w[e[i] * 3 + d]; };
    dfm2::MergeLinSys_SolidLinear_Static_MeshTet3D(A, b.data(), q.a, q.b, q.rho, q.g, m.x.data(), np, m.el.data(), ne, u.data());
    auto KE = [&](const U *e, Mat &K, Simplex &s) { double P[4][3]; P4(e, P); s = tet_of(P); K = Mat(12); add_elastic(K, 3, 4, s.g, q.b, q.a, s.w); };
    check_assembly<double>(c, "MergeLinSys_SolidLinear_Static_MeshTet3D", m, 3, b, A, b0, 0, [&](const U *e, VD &K, VD &R) {
      Mat Ke; Simplex s; KE(e, Ke, s); K = Ke.a; double w[4][3]; get3(u, e, w); VD x(&w[0][0], &w[0][0] + 12), y = mul(Ke, x);
      R = load(s, 3, {q.rho * q.g[0], q.rho * q.g[1], q.rho * q.g[2]}); for (int i = 0; i < 12; ++i) R[i] -= y[i]; });
    A.setZero(); b.assign(np * 3, b0);
    dfm2::MergeLinSys_SolidLinear_NewmarkBeta_MeshTet3D(A, b.data(), q.a, q.b, q.rho, q.g, q.dt, q.gam, q.beta, m.x.data(), np, m.el.data(), ne, u.data(), v.data(), a.data());
    check_assembly<double>(c, "MergeLinSys_SolidLinear_NewmarkBeta_MeshTet3D", m, 3, b, A, b0, 0, [&](const U *e, VD &K, VD &R) {
      double P[4][3], em[4][4][3][3], er[4][3], w[4][3], x[4][3], y[4][3]; P4(e, P); get3(u, e, w); get3(v, e, x); get3(a, e, y);
      dfm2::EMat_SolidLinear_NewmarkBeta_MeshTet3D(er, em, q.a, q.b, q.rho, q.g[0], q.g[1], q.g[2], q.dt, q.gam, q.beta, w, x, y, P, true); flat<4, 3>(em, er, K, R); });
    auto lump = [&](const Simplex &s, VD &K) { for (int i = 0; i < 12; ++i) K[i * 12 + i] += q.rho * s.w / 4 / q.dt / q.dt; };
    A.setZero(); b.assign(np * 3, b0);
    dfm2::MergeLinSys_SolidLinear_BEuler_MeshTet3D(A, b.data(), q.a, q.b, q.rho, q.g, q.dt, m.x.data(), np, m.el.data(), ne, u.data(), v.data());
    check_assembly<double>(c, "MergeLinSys_SolidLinear_BEuler_MeshTet3D", m, 3, b, A, b0, 0, [&](const U *e, VD &K, VD &R) {
      Mat Ke; Simplex s; KE(e, Ke, s); K = Ke.a; lump(s, K);
      double w[4][3], z[4][3]; get3(u, e, w); get3(v, e, z); VD x(12); for (int i = 0; i < 12; ++i) x[i] = (&w[0][0])[i] + q.dt * (&z[0][0])[i];
      VD y = mul(Ke, x); R = load(s, 3, {q.rho * q.g[0], q.rho * q.g[1], q.rho * q.g[2]}); for (int i = 0; i < 12; ++i) R[i] = (R[i] - y[i]) / q.dt; });
    // stiffness warping: identity rotations give the linear system at the deformed position; rotations per node
    for (int rk = 0; rk < 3; ++rk) {
      VD rt(np * 9, 0.0);
      for (U i = 0; i < np; ++i) {
        double t = rk == 0 ? 0 : rk == 1 ? 0.7 : 0.3 * i - 0.5, cs = std::cos(t), sn = std::sin(t);
        double r[9] = {cs, -sn, 0, sn, cs, 0, 0, 0, 1}; if (rk == 2 && i % 2) { double r2[9] = {1, 0, 0, 0, cs, -sn, 0, sn, cs}; std::copy(r2, r2 + 9, r); }
        std::copy(r, r + 9, rt.begin() + i * 9);
      }
      VD uu = u;
      if (rk == 1) for (U i = 0; i < np; ++i) for (int d = 0; d < 3; ++d) { // the body rotated rigidly with the rotation: no force
        double p = 0; for (int e = 0; e < 3; ++e) p += rt[i * 9 + d * 3 + e] * m.x[i * 3 + e]; uu[i * 3 + d] = p - m.x[i * 3 + d] + (k ? 1.5 : 0); }
      VD vz(np * 3, 0.0); const VD &vv = rk == 1 ? vz : v;
      A.setZero(); b.assign(np * 3, b0);
      dfm2::MergeLinSys_SolidStiffwarp_BEuler_MeshTet3D(A, b.data(), q.a, q.b, q.rho, q.g, q.dt, m.x.data(), np, m.el.data(), ne, uu.data(), vv.data(), rt);
      check_assembly<double>(c, "MergeLinSys_SolidStiffwarp_BEuler_MeshTet3D", m, 3, b, A, b0, 0, [&](const U *e, VD &K, VD &R) {
        Mat Ke; Simplex s; KE(e, Ke, s); double w[4][3], z[4][3]; get3(uu, e, w); get3(vv, e, z);
        Mat Kw(12); R = load(s, 3, {q.rho * q.g[0], q.rho * q.g[1], q.rho * q.g[2]});
        for (int i = 0; i < 4; ++i) {
          const double *r = &rt[e[i] * 9];
          for (int j = 0; j < 4; ++j) for (int a1 = 0; a1 < 3; ++a1) for (int b1 = 0; b1 < 3; ++b1) { double t = 0; for (int p = 0; p < 3; ++p) for (int o = 0; o < 3; ++o) t += r[a1 * 3 + p] * Ke(i * 3 + p, j * 3 + o) * r[b1 * 3 + o]; Kw(i * 3 + a1, j * 3 + b1) = t; }
          // force R_i K (R_i^T x - X), divided over the row
          if (rk == 1) continue;
          for (int a1 = 0; a1 < 3; ++a1) for (int j = 0; j < 4; ++j) for (int p = 0; p < 3; ++p) for (int o = 0; o < 3; ++o) {
            double loc = -m.x[e[j] * 3 + o]; for (int b1 = 0; b1 < 3; ++b1) loc += r[b1 * 3 + o] * (m.x[e[j] * 3 + b1] + w[j][b1] + q.dt * z[j][b1]);
            R[i * 3 + a1] -= r[a1 * 3 + p] * Ke(i * 3 + p, j * 3 + o) * loc; }
        }
        K = Kw.a; lump(s, K); for (double &x: R) x /= q.dt; });
    }
  }
  {
    VD u = field(np * 4, k), v = field(np * 4, 2 * k);
    dfm2::CMatrixSparse<double> A; make_pattern(A, np, 4, m.el, 4); VD b(3, 7.0);
    auto get4 = [&](const VD &w, const U *e, double (*o)[4]) { for (int i = 0; i < 4; ++i) for (int d = 0; d < 4; ++d) o[i][d] = w[e[i] * 4 + d]; };
    for (double &x: A.val_dia_) x = 5; // these variants start from zero themselves
    dfm2::MergeLinSys_Stokes3D_Static(A, b, q.a, q.rho, q.g[0], q.g[1], q.g[2], m.x, m.el, u, v);
    check_assembly<double>(c, "MergeLinSys_Stokes3D_Static", m, 4, b, A, 0, 0, [&](const U *e, VD &K, VD &R) {
      double P[4][3], em[4][4][4][4], er[4][4], w[4][4]; P4(e, P); get4(u, e, w);
      dfm2::MakeMat_Stokes3D_Static_P1(q.a, q.g[0], q.g[1], q.g[2], P, w, em, er); flat<4, 4>(em, er, K, R); });
    b.assign(np * 9, 3.0);
    dfm2::MergeLinSys_Stokes3D_Dynamic(A, b, q.a, q.rho, q.g[0], q.g[1], q.g[2], q.dt, q.gam, m.x, m.el, u, v);
    MC_CHECK(c, b.size() == np * 4, "right-hand side has %zu entries", b.size());
    check_assembly<double>(c, "MergeLinSys_Stokes3D_Dynamic", m, 4, b, A, 0, 0, [&](const U *e, VD &K, VD &R) {
      double P[4][3], em[4][4][4][4], er[4][4], w[4][4], x[4][4]; P4(e, P); get4(u, e, w); get4(v, e, x);
      dfm2::MakeMat_Stokes3D_Dynamic_P1(q.a, q.rho, q.g[0], q.g[1], q.g[2], q.dt, q.gam, P, w, x, em, er); flat<4, 4>(em, er, K, R); });
    dfm2::MergeLinSys_NavierStokes3D_Dynamic(A, b, q.a, q.rho, q.g[0], q.g[1], q.g[2], q.dt, q.gam, m.x, m.el, u, v);
    check_assembly<double>(c, "MergeLinSys_NavierStokes3D_Dynamic", m, 4, b, A, 0, 0, [&](const U *e, VD &K, VD &R) {
      double P[4][3], em[4][4][4][4], er[4][4], w[4][4], x[4][4]; P4(e, P); get4(u, e, w); get4(v, e, x);
      dfm2::MakeMat_NavierStokes3D_Dynamic_P1(q.a, q.rho, q.g[0], q.g[1], q.g[2], q.dt, q.gam, P, w, x, em, er); flat<4, 4>(em, er, K, R); });
  }
  c.outcome_of(mc::fnv(m.el.data(), m.el.size() * sizeof(U)));
}
static void merge_hex(mc::Ch &c) {
  // one or two hexahedra side by side, node labels shifted
  int two = c.choose(2); U np = two ? 12 : 8; U sh = c.choose(np);
  const Par &q = PARS[c.choose(3)];
  int k = c.choose(2);
  c.commit();
  Mesh m; m.np = np; m.nn = 8; m.dim = 3; m.x.resize(np * 3);
  auto nu = [&](U i) { return (i + sh) % np; };
  auto id = [&](int x, int y, int z) { return nu(x * 4 + z * 2 + y); };
  for (int x = 0; x <= (two ? 2 : 1); ++x) for (int y = 0; y < 2; ++y) for (int z = 0; z < 2; ++z) { U i = id(x, y, z); m.x[i * 3] = x + 0.2 * y; m.x[i * 3 + 1] = y - 0.1 * z; m.x[i * 3 + 2] = z * 0.7; }
  for (int x = 0; x < (two ? 2 : 1); ++x) for (U i: {id(x, 0, 0), id(x + 1, 0, 0), id(x + 1, 1, 0), id(x, 1, 0), id(x, 0, 1), id(x + 1, 0, 1), id(x + 1, 1, 1), id(x, 1, 1)}) m.el.push_back(i);
  VD u = field(np * 3, k);
  dfm2::CMatrixSparse<double> A; make_pattern(A, np, 3, m.el, 8); VD b(2, 4.0);
  for (double &x: A.val_crs_) x = 6;
  dfm2::MergeLinSys_LinearSolid3D_Static_Q1(A, b, q.a, q.b, q.rho, q.g, m.x, m.el, u);
  check_assembly<double>(c, "MergeLinSys_LinearSolid3D_Static_Q1", m, 3, b, A, 0, 0, [&](const U *e, VD &K, VD &R) {
    double P[8][3], w[8][3], er[8][3]; static thread_local double em[8][8][3][3];
    for (int i = 0; i < 8; ++i) for (int d = 0; d < 3; ++d) { P[i][d] = m.x[e[i] * 3 + d]; w[i][d] = u[e[i] * 3 + d]; }
    dfm2::elemMatRes_LinearSolidGravity3_Static_Q1(q.a, q.b, q.rho, q.g, P, w, em, er); flat<8, 3>(em, er, K, R); });
  c.outcome_of(sh, two);
}

int main(int argc, char **argv) {
  return mc::run(argc, argv, {"C22", "exploration",
    {"triangles counter-clockwise on a 3x3 grid and tetrahedra of positive volume on a cube's corners, under three affine maps; hexahedra: parallelepipeds and cubes with two moved corners",
     "stabilisation parameters of the flow elements are read off the pressure block; the sign of the inertia term in the Navier-Stokes continuity equation is not judged",
     "Helmholtz and radiation terms to five digits (the code uses pi = 3.1416)"}},
    {{"scalar_tri", scalar_tri, "all oriented triangles on a 3x3 grid, 3 maps, 3 materials; every unit state"},
     {"scalar_tet", scalar_tet, "all positive tetrahedra on cube corners in every node order, 3 maps, 3 materials"},
     {"solid_tri", solid_tri, "as scalar_tri; static and Newmark"},
     {"solid_tet", solid_tet, "as scalar_tet; static set/add and Newmark"},
     {"solid_tetp2", solid_tetp2, "quadratic tetrahedra on the same shapes"},
     {"quad", quad, "16 rectangles, 5 quadrature orders, 3 materials"},
     {"hex", hex, "parallelepipeds, and all cubes with two moved corners"},
     {"stokes2", stokes<2>, "as scalar_tri"},
     {"stokes3", stokes<3>, "as scalar_tet"},
     {"navier2", navier<2>, "as scalar_tri, 6 velocity fields"},
     {"navier3", navier<3>, "as scalar_tet, 6 velocity fields"},
     {"plate", plate, "MITC3 and DKT plates on all grid triangles, 3 thicknesses, 3 materials, rigid / curvature / shear fields"},
     {"beam", beam, "all segments on a grid, float and double"},
     {"merge_tri", merge_tri, "5 triangle meshes, every cyclic relabelling, reversal and local rotation"},
     {"merge_tet", merge_tet, "3 tetrahedral meshes, relabelled"},
     {"merge_hex", merge_hex, "1 and 2 hexahedra, relabelled"}});
}
