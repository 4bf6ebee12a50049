// C27: skeleton poses, skinning and motion files.
#include "mc.h"
#include <iostream>
#include <fstream>
#include <cmath>
#include <climits>
#include <unistd.h>
#include "delfem2/rig_geo3.h"
#include "delfem2/rig_bvh.h"
#include "delfem2/rigopt.h"
namespace dfm2 = delfem2;
using U = unsigned int;
using VU = std::vector<U>;
using VD = std::vector<double>;
using Bones = std::vector<dfm2::CRigBone>;

// ---------- our own affine maps: x -> A x + t
struct Aff { double A[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, t[3] = {0, 0, 0}; };
static Aff mul(const Aff &a, const Aff &b) {
  Aff r;
  for (int i = 0; i < 3; i++) {
    for (int j = 0; j < 3; j++) {
      r.A[i][j] = 0;
      for (int k = 0; k < 3; k++) r.A[i][j] += a.A[i][k] * b.A[k][j];
    }
    r.t[i] = a.t[i];
    for (int k = 0; k < 3; k++) r.t[i] += a.A[i][k] * b.t[k];
  }
  return r;
}
static Aff trans(const double *t) { Aff r; for (int i = 0; i < 3; i++) r.t[i] = t[i]; return r; }
static Aff scal(double s) { Aff r; for (int i = 0; i < 3; i++) r.A[i][i] = s; return r; }
// rotation by an angle (radian) about an axis
static Aff rot(const double *axis, double ang) {
  double l = std::sqrt(axis[0] * axis[0] + axis[1] * axis[1] + axis[2] * axis[2]);
  double n[3] = {axis[0] / l, axis[1] / l, axis[2] / l}, c = std::cos(ang), s = std::sin(ang);
  Aff r;
  const double K[3][3] = {{0, -n[2], n[1]}, {n[2], 0, -n[0]}, {-n[1], n[0], 0}};
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.A[i][j] = (i == j ? c : 0) + s * K[i][j] + (1 - c) * n[i] * n[j];
  return r;
}
static bool same(const Aff &a, const double *m, double tol = 1e-9) {
  for (int i = 0; i < 3; i++) {
    for (int j = 0; j < 3; j++) if (!mc::near(a.A[i][j], m[4 * i + j], tol)) return false;
    if (!mc::near(a.t[i], m[4 * i + 3], tol)) return false;
  }
  return std::fabs(m[12]) + std::fabs(m[13]) + std::fabs(m[14]) < 1e-12 && std::fabs(m[15] - 1) < 1e-12;
}
static void apply(const Aff &a, const double *x, double *y) {
  for (int i = 0; i < 3; i++) y[i] = a.t[i] + a.A[i][0] * x[0] + a.A[i][1] * x[1] + a.A[i][2] * x[2];
}
struct Rot { double ax[3], ang; };
static const Rot ROT[] = {{{1, 0, 0}, 0}, {{1, 0, 0}, M_PI / 2}, {{0, 1, 0}, -M_PI / 2}, {{1, 1, 1}, 2 * M_PI / 3}, {{0, 0, 1}, M_PI}, {{0.3, -1, 0.5}, 0.7}, {{-1, 0.2, 2}, 2.9}};
static void quat_of(const Rot &r, double q[4]) {
  double l = std::sqrt(r.ax[0] * r.ax[0] + r.ax[1] * r.ax[1] + r.ax[2] * r.ax[2]), s = std::sin(r.ang / 2) / l;
  for (int i = 0; i < 3; i++) q[i] = r.ax[i] * s;
  q[3] = std::cos(r.ang / 2);
}
static const double JNT[4][3] = {{0.5, -1, 2}, {1.5, 0.25, 2}, {-1, 3, 0.5}, {2, 2, -4}};
static const double PNT[3][3] = {{0, 0, 0}, {1, 2, -3}, {-0.5, 4, 0.25}};

static VU choose_parents(mc::Ch &c, int n) {
  VU p(n);
  for (int i = 0; i < n; i++) {
    int k = c.choose(i + 1);
    p[i] = k == i ? UINT_MAX : (U) k;
  }
  return p;
}
static std::vector<Aff> fk(const Bones &b, const VU &par, const std::vector<Rot> &r, const VD &sc, const VD &tr) {
  std::vector<Aff> g(b.size());
  for (size_t i = 0; i < b.size(); i++) {
    Aff l = mul(mul(trans(&tr[3 * i]), rot(r[i].ax, r[i].ang)), scal(sc[i]));
    g[i] = par[i] == UINT_MAX ? l : mul(g[par[i]], l);
  }
  return g;
}
static Bones init(const VU &par) {
  VD j;
  for (size_t i = 0; i < par.size(); i++) for (int d = 0; d < 3; d++) j.push_back(JNT[i][d]);
  Bones b;
  dfm2::InitBones_JointPosition(b, (U) par.size(), par.data(), j.data());
  return b;
}
static VD rest_trans(const VU &par) {
  VD t;
  for (size_t i = 0; i < par.size(); i++) for (int d = 0; d < 3; d++) t.push_back(JNT[i][d] - (par[i] == UINT_MAX ? 0 : JNT[par[i]][d]));
  return t;
}
static Aff unbind(size_t i) { double t[3] = {-JNT[i][0], -JNT[i][1], -JNT[i][2]}; return trans(t); }
static void set_pose(Bones &b, const std::vector<Rot> &r, const VD &sc) {
  for (size_t i = 0; i < b.size(); i++) {
    quat_of(r[i], b[i].quatRelativeRot);
    b[i].scale = sc[i];
  }
  dfm2::UpdateBoneRotTrans(b);
}
static std::string pose_str(const VU &par, const std::vector<int> &k) { return "parents " + mc::str(par) + " rotations " + mc::str(k); }

static void body_fk(mc::Ch &c) {
  int n = 1 + c.choose(4);
  VU par = choose_parents(c, n);
  std::vector<int> rk(n);
  std::vector<Rot> r(n);
  VD sc(n, 1.0);
  int nr = n == 4 && !c.thorough ? 4 : 7;
  for (int i = 0; i < n; i++) { rk[i] = c.choose(nr); r[i] = ROT[rk[i]]; }
  int sm = c.choose(4);
  if (sm) for (int i = 0; i < n; i++) sc[i] = sm == 1 ? 2 : sm == 2 ? (i % 2 ? 0.5 : 1) : 1 + i;
  int tm = c.choose(3);
  c.commit();
  c.describe("%s scales %s", pose_str(par, rk).c_str(), mc::str(sc).c_str());
  Bones b = init(par);
  VD tr = rest_trans(par);
  MC_CHECK(c, (int) b.size() == n, "%zu bones", b.size());
  for (int i = 0; i < n; i++) {
    MC_CHECK(c, same(trans(JNT[i]), b[i].affmat3Global), "bone %d does not rest at its joint", i);
    auto p = b[i].RootPosition();
    for (int d = 0; d < 3; d++) MC_CHECK(c, mc::near(p[d], JNT[i][d]), "position of bone %d", i);
    for (auto &q: PNT) {
      double o[3] = {9, 9, 9};
      b[i].DeformSkin(o, q);
      for (int d = 0; d < 3; d++) MC_CHECK(c, mc::near(o[d], q[d]), "bone %d moves a point at rest", i);
    }
  }
  if (tm == 1) { // an earlier pose leaves no trace
    std::vector<Rot> r2(r.rbegin(), r.rend());
    set_pose(b, r2, VD(n, 3.0));
  } else if (tm == 2) for (int i = 0; i < n; i++) {
    for (int d = 0; d < 3; d++) tr[3 * i + d] = d - 0.5 * i;
    b[i].SetTranslation(tr[3 * i], tr[3 * i + 1], tr[3 * i + 2]);
  }
  set_pose(b, r, sc);
  auto g = fk(b, par, r, sc, tr);
  for (int i = 0; i < n; i++) {
    MC_CHECK(c, same(g[i], b[i].affmat3Global), "bone %d is not at the product of the joint transforms on its path", i);
    for (auto &q: PNT) {
      double o[3], e[3];
      b[i].DeformSkin(o, q);
      apply(mul(g[i], unbind(i)), q, e);
      for (int d = 0; d < 3; d++) MC_CHECK(c, mc::near(o[d], e[d]), "bone %d: point moves to %g, should be %g", i, o[d], e[d]);
    }
  }
}

static void body_bryant(mc::Ch &c) { // rotation about x, then y, then z (fixed axes)
  double a[3];
  for (auto &x: a) x = c.pick({0., M_PI / 2, -M_PI / 3, M_PI, 0.4, 5.});
  c.commit();
  c.describe("angles %g %g %g", a[0], a[1], a[2]);
  Bones b = init({UINT_MAX});
  b[0].SetRotationBryant(a[0], a[1], a[2]);
  dfm2::UpdateBoneRotTrans(b);
  const double X[3] = {1, 0, 0}, Y[3] = {0, 1, 0}, Z[3] = {0, 0, 1};
  Aff e = mul(trans(JNT[0]), mul(rot(Z, a[2]), mul(rot(Y, a[1]), rot(X, a[0]))));
  MC_CHECK(c, same(e, b[0].affmat3Global), "rotation by Bryant angles");
}

static void body_default(mc::Ch &c) {
  int n = 1 + c.choose(4);
  VU par = choose_parents(c, n);
  std::vector<int> rk(n);
  std::vector<Rot> r(n), r2(n);
  int nr = n == 4 ? 4 : 7;
  for (int i = 0; i < n; i++) { rk[i] = c.choose(nr); r[i] = ROT[rk[i]]; r2[i] = ROT[(rk[i] * 2 + i + 1) % 7]; }
  c.commit();
  c.describe("%s made the rest pose", pose_str(par, rk).c_str());
  Bones b = init(par);
  set_pose(b, r, VD(n, 1.0));
  auto g = fk(b, par, r, VD(n, 1.0), rest_trans(par));
  dfm2::SetCurrentBoneRotationAsDefault(b);
  VD tr;
  for (int i = 0; i < n; i++) {
    auto p = b[i].RootPosition();
    for (int d = 0; d < 3; d++) MC_CHECK(c, mc::near(p[d], g[i].t[d]), "bone %d moved", i);
    MC_CHECK(c, same(trans(g[i].t), b[i].affmat3Global), "bone %d is still rotated", i);
    const double *q = b[i].quatRelativeRot;
    MC_CHECK(c, std::fabs(q[0]) + std::fabs(q[1]) + std::fabs(q[2]) < 1e-12 && mc::near(std::fabs(q[3]), 1), "rotation of bone %d is not reset", i);
    for (int d = 0; d < 3; d++) tr.push_back(b[i].transRelative[d]);
    for (auto &x: PNT) {
      double o[3], e[3];
      b[i].DeformSkin(o, x);
      apply(mul(g[i], unbind(i)), x, e);
      for (int d = 0; d < 3; d++) MC_CHECK(c, mc::near(o[d], e[d]), "bone %d: skin moves when the pose becomes the rest pose", i);
    }
  }
  // a further pose turns the skin about the new joints
  set_pose(b, r2, VD(n, 1.0));
  auto g2 = fk(b, par, r2, VD(n, 1.0), tr);
  for (int i = 0; i < n; i++) for (auto &x: PNT) {
    double o[3], e[3], f[3], neg[3] = {-g[i].t[0], -g[i].t[1], -g[i].t[2]};
    b[i].DeformSkin(o, x);
    apply(mul(g[i], unbind(i)), x, e);
    apply(mul(g2[i], trans(neg)), e, f);
    for (int d = 0; d < 3; d++) MC_CHECK(c, mc::near(o[d], f[d]), "bone %d: pose after the new rest pose", i);
  }
}

static void body_skin(mc::Ch &c) {
  int n = 1 + c.choose(3), np = 1 + c.choose(2);
  VU par(n, UINT_MAX);
  for (int i = 1; i < n; i++) par[i] = i - 1;
  std::vector<Rot> r(n);
  int rk = c.choose(5);
  for (int i = 0; i < n; i++) r[i] = ROT[(rk + 2 * i) % 7];
  VD w(n * np);
  for (auto &x: w) x = c.pick({0., 0.125, 0.5, 1.});
  double thres = c.pick({0., 1e-5, 0.125, 0.3, 0.5});
  c.commit();
  c.describe("%d bones in pose %d, weights %s, threshold %g", n, rk, mc::str(w).c_str(), thres);
  Bones b = init(par);
  set_pose(b, r, VD(n, 1.0));
  auto g = fk(b, par, r, VD(n, 1.0), rest_trans(par));
  VD xyz;
  for (int i = 0; i < np; i++) for (int d = 0; d < 3; d++) xyz.push_back(PNT[i + 1][d]);
  auto skin = [&](const VD &ww) {
    VD o(3 * np, 0.);
    for (int i = 0; i < np; i++) for (int k = 0; k < n; k++) {
      double e[3];
      apply(mul(g[k], unbind(k)), &xyz[3 * i], e);
      for (int d = 0; d < 3; d++) o[3 * i + d] += ww[i * n + k] * e[d];
    }
    return o;
  };
  auto cmp = [&](const VD &a, const VD &e, const char *what) {
    MC_CHECK(c, a.size() == e.size(), "%s: %zu values", what, a.size());
    for (size_t i = 0; i < a.size(); i++) MC_CHECK(c, mc::near(a[i], e[i]), "%s: value %zu is %g, should be %g", what, i, a[i], e[i]);
  };
  VD x1(1, 8.);
  dfm2::Skinning_LBS(x1, xyz, b, w);
  cmp(x1, skin(w), "dense");
  VD ref;
  dfm2::Rig_SkinReferncePositionsBoneWeighted(ref, b, xyz, w);
  MC_CHECK(c, (int) ref.size() == np * n * 4, "%zu reference values", ref.size());
  VD x2(3 * np, 0.);
  for (int i = 0; i < np; i++) for (int k = 0; k < n; k++) for (int d = 0; d < 3; d++) for (int e = 0; e < 4; e++) x2[3 * i + d] += b[k].affmat3Global[4 * d + e] * ref[i * n * 4 + k * 4 + e];
  cmp(x2, skin(w), "weighted reference positions");
  VD wt = w;
  for (auto &x: wt) if (x < thres) x = 0;
  VD sw(20, 7.); // reused
  VU si(20, 3);
  dfm2::SparsifyMatrixRow(sw, si, w.data(), np, n, thres);
  size_t nz = 0;
  for (int i = 0; i < np; i++) {
    size_t k = 0;
    for (int j = 0; j < n; j++) k += w[i * n + j] >= thres;
    nz = std::max(nz, k);
  }
  MC_CHECK(c, sw.size() == nz * np && si.size() == nz * np, "%zu sparse weights for %zu per row", sw.size(), nz);
  VD back(n * np, 0.);
  for (int i = 0; i < np; i++) for (size_t k = 0; k < nz; k++) {
    MC_CHECK(c, si[i * nz + k] < (U) n, "sparse column %u of %d", si[i * nz + k], n);
    back[i * n + si[i * nz + k]] += sw[i * nz + k];
  }
  cmp(back, wt, "sparse weights");
  VD x3(30, 1.);
  if (nz) {
    dfm2::SkinningSparse_LBS(x3, xyz, b, sw, si);
    cmp(x3, skin(wt), "sparse");
  }
  { // weights as a map from points: rows are positions, columns are points
    VD p3(n * 3), e(np * 3, 0.), o(2, 1.);
    for (int k = 0; k < n; k++) for (int d = 0; d < 3; d++) p3[3 * k + d] = JNT[k][d];
    for (int i = 0; i < np; i++) for (int k = 0; k < n; k++) for (int d = 0; d < 3; d++) e[3 * i + d] += wt[i * n + k] * p3[3 * k + d];
    if (nz) {
      dfm2::Points3_WeightsparsePosition(o, np, sw, si, p3);
      cmp(o, e, "sparse mean positions");
    }
    VD t(1, 0.), o2(2, 1.);
    dfm2::Transpose_Mat(t, wt, np, n); // [n][np]
    MC_CHECK(c, t.size() == wt.size(), "transposed size %zu", t.size());
    dfm2::Points3_WeighttranspPosition(o2, t, p3);
    cmp(o2, e, "mean positions by transposed weights");
  }
  { // four weights per point, normalised
    VD lw(4 * np, 0.);
    VU lj(4 * np, 0);
    VD wn(n * np, 0.);
    bool ok = true;
    for (int i = 0; i < np; i++) {
      double s = 0;
      for (int k = 0; k < n; k++) s += w[i * n + k];
      ok = ok && s > 0;
      for (int k = 0; k < n; k++) {
        int slot = (k + 1) % 4; // the first slot may be empty
        lw[4 * i + slot] = w[i * n + k];
        lj[4 * i + slot] = k;
        wn[i * n + k] = w[i * n + k] / s;
      }
    }
    if (ok) {
      VD o(3 * np, 4.);
      dfm2::Skinning_LBS_LocalWeight(o.data(), xyz.data(), np, b, lw.data(), lj.data());
      cmp(o, skin(wn), "local weights");
    }
  }
}

static void body_nobone(mc::Ch &c) {
  int n = 1 + c.choose(4);
  VU par = choose_parents(c, n);
  for (int i = 1; i < n; i++) if (par[i] == UINT_MAX) c.skip();
  std::vector<int> rk(n);
  for (auto &k: rk) k = c.choose(n == 4 ? 4 : 7);
  double t[3] = {0.5, c.pick({0., 2.}), -1};
  c.commit();
  c.describe("%s", pose_str(par, rk).c_str());
  std::vector<int> ip;
  VD q(4 * n), j, m(16 * n, 5.);
  for (int i = 0; i < n; i++) {
    ip.push_back(par[i] == UINT_MAX ? -1 : (int) par[i]);
    quat_of(ROT[rk[i]], &q[4 * i]);
    for (int d = 0; d < 3; d++) j.push_back(JNT[i][d]);
  }
  dfm2::SetMat4AffineBone_FromJointRelativeRotation(m, t, q, ip, j);
  std::vector<Aff> g(n);
  for (int i = 0; i < n; i++) {
    Aff R = rot(ROT[rk[i]].ax, ROT[rk[i]].ang);
    g[i] = i == 0 ? mul(trans(t), R) : mul(g[par[i]], mul(trans(JNT[i]), mul(R, unbind(i))));
    MC_CHECK(c, same(g[i], &m[16 * i]), "matrix of bone %d", i);
  }
}

static void body_sens(mc::Ch &c) {
  int n = 1 + c.choose(3);
  VU par = choose_parents(c, n);
  for (int i = 1; i < n; i++) if (par[i] == UINT_MAX) c.skip();
  std::vector<int> rk(n);
  std::vector<Rot> r(n);
  for (int i = 0; i < n; i++) { rk[i] = c.choose(7); r[i] = ROT[rk[i]]; }
  VD sc(n, c.pick({1., 2.}));
  c.commit();
  c.describe("sensitivity, %s", pose_str(par, rk).c_str());
  Bones b = init(par);
  set_pose(b, r, sc);
  VD tr = rest_trans(par);
  VD L(5, 1.);
  dfm2::Rig_Sensitivity_Skeleton(L, b);
  size_t ns = 3 * n + 3;
  MC_CHECK(c, L.size() == ns * n * 12, "%zu sensitivities", L.size());
  VD w = {0.25, 0.75, 0.5, 0.5};
  VU wi = {0, (U) (n - 1), (U) (n / 2), 0};
  VD dP(3, 1.);
  const double *p0 = PNT[1];
  dfm2::Sensitivity_RigSkinPoint(dP, 1, p0, b, L, 2, w, wi);
  MC_CHECK(c, dP.size() == 3 * ns, "%zu point sensitivities", dP.size());
  const double h = 1e-4;
  for (size_t s = 0; s < ns; s++) {
    std::vector<Aff> g[2];
    for (int k = 0; k < 2; k++) {
      double e = k ? -h : h;
      g[k].resize(n);
      for (int i = 0; i < n; i++) {
        Aff l = mul(rot(r[i].ax, r[i].ang), scal(sc[i]));
        double ax[3] = {0, 0, 0}, tt[3] = {tr[3 * i], tr[3 * i + 1], tr[3 * i + 2]};
        if (s < (size_t) 3 * n && (int) (s / 3) == i) {
          ax[s % 3] = 1;
          l = mul(rot(ax, e), l);
        }
        if (s >= (size_t) 3 * n && i == 0) tt[s - 3 * n] += e;
        l = mul(trans(tt), l);
        g[k][i] = par[i] == UINT_MAX ? l : mul(g[k][par[i]], l);
      }
    }
    double dp[3] = {0, 0, 0};
    for (int i = 0; i < n; i++) {
      for (int d = 0; d < 3; d++) for (int e = 0; e < 4; e++) {
        double x = e < 3 ? (g[0][i].A[d][e] - g[1][i].A[d][e]) / (2 * h) : (g[0][i].t[d] - g[1][i].t[d]) / (2 * h);
        MC_CHECK(c, std::fabs(L[s * n * 12 + i * 12 + 4 * d + e] - x) < 1e-5, "parameter %zu, bone %d, entry (%d,%d): %g, difference quotient %g", s, i, d, e, L[s * n * 12 + i * 12 + 4 * d + e], x);
      }
      double ww = 0, a[3], q[3];
      for (int k = 0; k < 2; k++) if ((int) wi[2 + k] == i) ww += w[2 + k];
      apply(mul(g[0][i], unbind(i)), p0, a);
      apply(mul(g[1][i], unbind(i)), p0, q);
      for (int d = 0; d < 3; d++) dp[d] += ww * (a[d] - q[d]) / (2 * h);
    }
    for (int d = 0; d < 3; d++) MC_CHECK(c, std::fabs(dP[d * ns + s] - dp[d]) < 1e-5, "parameter %zu: skin point sensitivity %g, difference quotient %g", s, dP[d * ns + s], dp[d]);
  }
}

// ---------- BVH files
static std::string scratch() {
  static std::string p;
  if (p.empty()) {
    const char *t = getenv("TMPDIR");
    p = std::string(t ? t : "/tmp") + "/c27_" + std::to_string(getpid()) + ".bvh";
  }
  return p;
}
struct Scratch { ~Scratch() { std::remove(scratch().c_str()); std::remove((scratch() + "2").c_str()); } };
struct Bvh {
  struct J { std::string name; int parent; double off[3]; std::vector<std::string> ch; };
  std::vector<J> joints; // in file order, end sites included
  std::string text;
};
static void write_joint(Bvh &f, const std::vector<std::vector<int>> &kids, const std::vector<std::vector<std::string>> &ch, int j, int parent, int depth, const std::string &nl, bool tabs, int blank) {
  std::string ind = tabs ? std::string(depth, '\t') : std::string(2 * depth, ' ');
  std::string in2 = tabs ? std::string(depth + 1, '\t') : std::string(2 * depth + 2, ' ');
  std::string sep = tabs ? "\t" : " ";
  Bvh::J r;
  int id = (int) f.joints.size();
  bool end = j < 0;
  r.name = end ? "Site" : "J" + std::to_string(j);
  r.parent = parent;
  for (int d = 0; d < 3; d++) r.off[d] = end ? 0.5 * d - 1 : JNT[j][d];
  char b[200];
  if (blank == 1) f.text += nl;
  f.text += ind + (end ? "End Site" : (parent < 0 ? "ROOT " : "JOINT ") + r.name) + nl + ind + "{" + nl;
  if (blank == 2) f.text += in2 + nl;
  snprintf(b, 200, "OFFSET%s%.5f%s%.5f%s%g", sep.c_str(), r.off[0], sep.c_str(), r.off[1], sep.c_str(), r.off[2]);
  f.text += in2 + b + nl;
  if (!end && !ch[j].empty()) {
    f.text += in2 + "CHANNELS " + std::to_string(ch[j].size());
    for (auto &s: ch[j]) f.text += sep + s;
    f.text += (tabs ? "" : " ") + nl;
    r.ch = ch[j];
  }
  f.joints.push_back(r);
  if (!end) {
    if (kids[j].empty()) write_joint(f, kids, ch, -1, id, depth + 1, nl, tabs, blank);
    for (int k: kids[j]) write_joint(f, kids, ch, k, id, depth + 1, nl, tabs, blank);
  }
  f.text += ind + "}" + nl;
}
static void body_bvh(mc::Ch &c) {
  static Scratch cleanup;
  int n = 1 + c.choose(3);
  VU par = choose_parents(c, n);
  for (int i = 1; i < n; i++) if (par[i] == UINT_MAX) c.skip();
  static const char *PERM[6] = {"XYZ", "XZY", "YXZ", "YZX", "ZXY", "ZYX"};
  std::vector<std::vector<std::string>> ch(n);
  int pm = c.choose(3); // root: positions first, positions last, no positions
  std::vector<int> perms;
  for (int i = 0; i < n; i++) {
    int p = c.choose(n == 3 ? 3 : 6) * (n == 3 ? 2 : 1) + (n == 3 ? i % 2 : 0);
    perms.push_back(p);
    std::vector<std::string> rot, pos;
    for (int k = 0; k < 3; k++) { rot.push_back(std::string(1, PERM[p][k]) + "rotation"); pos.push_back(std::string(1, PERM[(p + 2) % 6][k]) + "position"); }
    if (i == 0 && pm == 0) rot.insert(rot.begin(), pos.begin(), pos.end());
    if (i == 0 && pm == 1) rot.insert(rot.end(), pos.begin(), pos.end());
    ch[i] = rot;
  }
  int lay = c.choose(5); // layouts
  bool crlf = lay == 1, tabs = lay == 2;
  int blank = lay == 3 ? 1 : lay == 4 ? 2 : 0;
  std::string nl = crlf ? "\r\n" : "\n";
  size_t nf = c.choose(3);
  int vk = c.choose(2);
  c.commit();
  c.describe("BVH with parents %s, channel orders %s, layout %d, %zu frames", mc::str(par).c_str(), mc::str(perms).c_str(), lay, nf);
  Bvh f;
  std::vector<std::vector<int>> kids(n);
  for (int i = 1; i < n; i++) kids[par[i]].push_back(i);
  f.text = "HIERARCHY" + nl;
  write_joint(f, kids, ch, 0, -1, 0, nl, tabs, blank);
  size_t nch = 0;
  for (auto &j: f.joints) nch += j.ch.size();
  VD val(nf * nch);
  static const double V[8] = {90, -45, 30, 0, 180, 12.5, -0.25, 270};
  for (size_t i = 0; i < val.size(); i++) val[i] = V[(i * (vk ? 3 : 5) + i / nch + vk) % 8];
  f.text += "MOTION" + nl + "Frames: " + std::to_string(nf) + nl + "Frame Time: 0.0625" + nl;
  for (size_t i = 0; i < nf; i++) {
    for (size_t k = 0; k < nch; k++) { char b[40]; snprintf(b, 40, "%.4f%s", val[i * nch + k], tabs ? "\t" : " "); f.text += b; }
    f.text += nl;
  }
  auto write = [](const std::string &path, const std::string &t) { std::ofstream o(path, std::ios::binary); o << t; };
  write(scratch(), f.text);
  dfm2::BioVisionHierarchy m;
  auto judge = [&](dfm2::BioVisionHierarchy &x, const char *what) {
    MC_CHECK(c, x.bones.size() == f.joints.size(), "%s: %zu bones for %zu joints", what, x.bones.size(), f.joints.size());
    MC_CHECK(c, x.nframe == nf && x.frame_time == 0.0625, "%s: %zu frames of %g", what, x.nframe, x.frame_time);
    MC_CHECK(c, x.channels.size() == nch && x.frame_channel.size() == val.size(), "%s: %zu channels, %zu values", what, x.channels.size(), x.frame_channel.size());
    size_t k = 0;
    std::vector<std::array<double, 3>> pos(f.joints.size());
    for (size_t i = 0; i < f.joints.size(); i++) {
      auto &j = f.joints[i];
      MC_CHECK(c, x.bones[i].name == j.name && x.bones[i].ibone_parent == j.parent, "%s: bone %zu is %s below %d, should be %s below %d", what, i, x.bones[i].name.c_str(), x.bones[i].ibone_parent, j.name.c_str(), j.parent);
      for (int d = 0; d < 3; d++) pos[i][d] = j.off[d] + (j.parent >= 0 ? pos[j.parent][d] : 0);
      auto p = x.bones[i].RootPosition();
      for (int d = 0; d < 3; d++) MC_CHECK(c, mc::near(p[d], pos[i][d]), "%s: bone %zu rests at %g, should be %g", what, i, p[d], pos[i][d]);
      double o[3], q[3] = {1, 2, 3};
      x.bones[i].DeformSkin(o, q);
      for (int d = 0; d < 3; d++) MC_CHECK(c, mc::near(o[d], q[d]), "%s: bone %zu moves the skin at rest", what, i);
      for (auto &s: j.ch) {
        auto &h = x.channels[k++];
        MC_CHECK(c, h.ibone == i && h.iaxis == s[0] - 'X' && h.isrot == (s[1] == 'r'), "%s: channel %zu", what, k - 1);
      }
    }
    for (size_t i = 0; i < val.size(); i++) MC_CHECK(c, mc::near(x.frame_channel[i], val[i], 1e-9), "%s: value %zu is %g, should be %g", what, i, x.frame_channel[i], val[i]);
    auto bb = x.MinMaxXYZ();
    for (int d = 0; d < 3; d++) {
      double a = 1e9, b = -1e9;
      for (auto &p: pos) { a = std::min(a, p[d]); b = std::max(b, p[d]); }
      MC_CHECK(c, bb.size() == 6 && mc::near(bb[d], a) && mc::near(bb[3 + d], b), "%s: bounds of the joints", what);
    }
  };
  auto pose = [&](dfm2::BioVisionHierarchy &x, const double *v, const char *what) {
    size_t k = 0;
    std::vector<Aff> g(f.joints.size());
    for (size_t i = 0; i < f.joints.size(); i++) {
      auto &j = f.joints[i];
      double t[3] = {j.off[0], j.off[1], j.off[2]};
      Aff R;
      for (auto &s: j.ch) {
        double ax[3] = {0, 0, 0}, y = v[k++];
        if (s[1] == 'r') { ax[s[0] - 'X'] = 1; R = mul(R, rot(ax, y * M_PI / 180)); }
        else t[s[0] - 'X'] = y;
      }
      Aff l = mul(trans(t), R);
      g[i] = j.parent < 0 ? l : mul(g[j.parent], l);
      MC_CHECK(c, same(g[i], x.bones[i].affmat3Global, 1e-7), "%s: bone %zu is not where its channels put it", what, i);
    }
  };
  m.Open(scratch());
  judge(m, "read");
  for (size_t i = 0; i < nf; i++) {
    m.SetFrame((U) i);
    pose(m, &val[i * nch], "frame");
  }
  if (nf) { m.SetFrame(0); pose(m, &val[0], "first frame again"); m.SetFrame((U) nf); pose(m, &val[0], "frame out of range"); }
  VD zero(nch, 0.);
  m.ClearPose();
  pose(m, zero.data(), "cleared pose");
  m.Save(scratch() + "2");
  dfm2::BioVisionHierarchy m2;
  m2.Open(scratch() + "2");
  judge(m2, "saved and read");
  m.Open(scratch() + "2"); // into an object in use
  judge(m, "read again");
}

int main(int argc, char **argv) {
  std::cout.rdbuf(nullptr);
  return mc::run(argc, argv, {"C27", "exploration", {"Parents come before their children.", "BVH files follow the format; position channels only occur at the root."}},
                 {{"pose", body_fk, "all hierarchies of up to 4 bones, rotations per bone from 4-7, scales, earlier poses, translations"},
                  {"bryant", body_bryant, "all triples of 6 angles"},
                  {"default", body_default, "all hierarchies of up to 4 bones, rotations, new rest pose and a pose after it"},
                  {"skin", body_skin, "up to 3 bones and 2 points, all weights from {0,1/8,1/2,1}, thresholds, dense / sparse / local / transposed variants, reused arrays"},
                  {"joint-matrices", body_nobone, "hierarchies of up to 4 joints, rotations"},
                  {"sensitivity", body_sens, "hierarchies of up to 3 bones, rotations, scale; every parameter against difference quotients"},
                  {"bvh", body_bvh, "files of up to 3 joints, all channel orders, layouts (CRLF, tabs, blank lines), frames; read, posed, saved, read again"}});
}
