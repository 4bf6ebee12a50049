// C12: continuous collision detection, proximity and self-intersection over a hierarchy, contact resolution.
#include "mc.h"
#include <cmath>
#include <iostream>
#include <set>
#include <map>
#include "delfem2/srch_bv3_aabb.h"
#include "delfem2/srch_bvh.h"
#include "delfem2/srch_selfintersection_bvh.h"
#include "delfem2/geo_ccd.h"
#include "delfem2/msh_topology_uniform.h"
#include "delfem2/jagarray.h"
#include "delfem2/cloth_selfcollision.h"
#include "delfem2/cloth_selfcollision.cpp"

using namespace delfem2;
using mc::Ch;
typedef long double LD;
typedef std::array<LD, 3> L3;

static L3 operator-(const L3 &a, const L3 &b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static L3 operator+(const L3 &a, const L3 &b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
static L3 operator*(LD s, const L3 &a) { return {s * a[0], s * a[1], s * a[2]}; }
static LD dot(const L3 &a, const L3 &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static L3 cross(const L3 &a, const L3 &b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static LD len(const L3 &a) { return std::sqrt(dot(a, a)); }
static LD det(const L3 &a, const L3 &b, const L3 &c) { return dot(a, cross(b, c)); }

enum Tri { NO = 0, YES = 1, UNK = 2 };

// times in [0,1] at which four linearly moving points are coplanar; false if rounding decides their number
static bool coplanar_times(std::vector<LD> &T, const L3 s[4], const L3 e[4], bool exact) {
  T.clear();
  L3 x[3], v[3];
  for (int i = 0; i < 3; ++i) { x[i] = s[i + 1] - s[0]; v[i] = (e[i + 1] - e[0]) - x[i]; }
  const LD k0 = det(x[0], x[1], x[2]);
  const LD k1 = det(v[0], x[1], x[2]) + det(x[0], v[1], x[2]) + det(x[0], x[1], v[2]);
  const LD k2 = det(v[0], v[1], x[2]) + det(v[0], x[1], v[2]) + det(x[0], v[1], v[2]);
  const LD k3 = det(v[0], v[1], v[2]);
  auto f = [&](LD t) { return k0 + t * (k1 + t * (k2 + t * k3)); };
  const LD S = std::fabs(k0) + std::fabs(k1) + std::fabs(k2) + std::fabs(k3);
  if (S < 1e-12) return false;
  const LD eps = 1e-5 * S;
  std::vector<LD> b = {-0.01, 1.01};
  auto ext = [&](LD t) {
    if (t > -0.01 && t < 1.01) {
      b.push_back(t);
      return std::fabs(f(t)) > eps || false;
    }
    return true;
  };
  if (std::fabs(k3) > 1e-12 * S) {
    LD d = k2 * k2 - 3 * k1 * k3;
    if (std::fabs(d) < 1e-9 * S * S) return false;
    if (d > 0) {
      LD q = -(k2 + (k2 > 0 ? 1 : -1) * std::sqrt(d));
      if (!ext(q / (3 * k3))) return false;
      if (q != 0 && !ext(k1 / q)) return false;
    }
  } else if (std::fabs(k2) > 1e-12 * S) {
    if (!ext(-k1 / (2 * k2))) return false;
  }
  std::sort(b.begin(), b.end());
  const LD f0 = f(0), f1 = f(1);
  for (LD g : {f0, f1}) {
    if (g == 0 && exact) continue;
    if (std::fabs(g) < eps) return false;
  }
  for (size_t i = 0; i + 1 < b.size(); ++i) {
    LD l = b[i], h = b[i + 1], fl = f(l), fh = f(h);
    if ((fl > 0) == (fh > 0)) continue;
    for (int it = 0; it < 80; ++it) {
      LD m = (l + h) / 2;
      if ((f(m) > 0) == (fl > 0)) l = m; else h = m;
    }
    LD t = (l + h) / 2;
    if (f0 == 0 && std::fabs(t) < 1e-9) t = 0;
    if (f1 == 0 && std::fabs(t - 1) < 1e-9) t = 1;
    if (t >= 0 && t <= 1) T.push_back(t);
  }
  return true;
}

// inside: all weights in [0,1] with a margin
static Tri band(LD w, LD m) { return w < -m || w > 1 + m ? NO : w > m && w < 1 - m ? YES : UNK; }
static Tri all(std::initializer_list<Tri> l) {
  Tri r = YES;
  for (Tri t : l) {
    if (t == NO) return NO;
    if (t == UNK) r = UNK;
  }
  return r;
}

static Tri fv_at(const L3 p[4], LD m) {
  L3 a = p[0] - p[2], b = p[1] - p[2], q = p[3] - p[2];
  LD aa = dot(a, a), bb = dot(b, b), ab = dot(a, b), d = aa * bb - ab * ab;
  if (d < 1e-4 * aa * bb || aa * bb < 1e-12) return UNK;
  LD w0 = (bb * dot(a, q) - ab * dot(b, q)) / d, w1 = (aa * dot(b, q) - ab * dot(a, q)) / d;
  return all({band(w0, m), band(w1, m), band(1 - w0 - w1, m)});
}

static Tri ee_at(const L3 p[4], LD m, LD *dist = nullptr) {
  L3 a = p[1] - p[0], b = p[3] - p[2], q = p[2] - p[0];
  LD aa = dot(a, a), bb = dot(b, b), ab = dot(a, b), d = aa * bb - ab * ab;
  if (aa * bb < 1e-12) return UNK;
  if (d < 1e-4 * aa * bb) return UNK;
  LD s = (bb * dot(a, q) - ab * dot(b, q)) / d, t = (ab * dot(a, q) - aa * dot(b, q)) / d;
  if (dist) *dist = len(q + t * b - s * a);
  return all({band(s, m), band(t, m)});
}

static Tri ccd(bool fv, const L3 s[4], const L3 e[4], bool exact, LD m = 1e-3) {
  std::vector<LD> T;
  if (!coplanar_times(T, s, e, exact)) return UNK;
  Tri r = NO;
  for (LD t : T) {
    L3 p[4];
    for (int i = 0; i < 4; ++i) p[i] = (1 - t) * s[i] + t * e[i];
    Tri k = fv ? fv_at(p, m) : ee_at(p, m);
    if (k == YES) return YES;
    if (k == UNK) r = UNK;
  }
  return r;
}

static CVec3d V(const L3 &a) { return CVec3d((double) a[0], (double) a[1], (double) a[2]); }

static const int DIR[9][3] = {{0, 0, 0}, {0, 0, 2}, {0, 0, -3}, {1, 0, -1}, {-1, 1, 1}, {0, -2, 0}, {2, 1, 0}, {-3, 0, -2}, {0, 3, 1}};

static void pick_moves(Ch &c, L3 s[4], L3 e[4], bool fv) {
  static const int SH[3][3][3] = {{{0, 0, 0}, {3, 0, 0}, {0, 3, 0}}, {{0, 0, 0}, {2, 0, 1}, {1, 3, 0}}, {{3, 0, 1}, {0, 0, 0}, {1, 2, 3}}};
  const int sh = c.choose(3);
  for (int k = 0; k < 3; ++k) for (int d = 0; d < 3; ++d) s[k][d] = SH[sh][k][d];
  s[3] = {(LD) c.choose(3), (LD) c.choose(3), (LD) (c.choose(4) - 1)};
  if (!fv) s[2] = {s[2][0], s[2][1], s[2][2] + 2};
  const int nd = c.thorough ? 9 : 5;
  for (int k = 0; k < 4; ++k) {
    const int *d = k == 3 ? DIR[c.choose(9)] : DIR[c.choose(k == 0 ? 3 : nd)];
    for (int i = 0; i < 3; ++i) e[k][i] = s[k][i] + d[i] * (k == 3 ? 2 : 1);
  }
}

static void moved(Ch &c, bool fv) {
  L3 s[4], e[4];
  pick_moves(c, s, e, fv);
  const LD unit = c.pick(c.thorough ? std::vector<double>{1, 1. / 4096, 16} : std::vector<double>{1, 1. / 4096});  // the times do not depend on it
  c.commit();
  std::vector<LD> T;
  if (!coplanar_times(T, s, e, true)) return;
  double t = -7;
  CVec3d p[4], q[4];
  for (int i = 0; i < 4; ++i) { p[i] = V(unit * s[i]); q[i] = V(unit * e[i]); }
  bool r = FindCoplanerInterp(t, p[0], p[1], p[2], p[3], q[0], q[1], q[2], q[3]);
  MC_CHECK(c, r == !T.empty(), "coplanar during the step: found %d, there are %zu such times", (int) r, T.size());
  if (r) MC_CHECK(c, std::fabs(t - (double) T[0]) < 2e-4, "first coplanar at %g, should be %Lg", t, T[0]);
  Tri k = ccd(fv, s, e, true);
  int ans;
  if (fv) {
    ans = IsContact_FV_CCD2(0, 1, 2, 3, p[0], p[1], p[2], p[3], q[0], q[1], q[2], q[3]);
    if (k != UNK) MC_CHECK(c, ans == (int) k, "point (%g %g %g)->(%g %g %g) and triangle (%g %g %g)->(%g %g %g), (%g %g %g)->(%g %g %g), (%g %g %g)->(%g %g %g): contact %d, should be %d", p[3].x, p[3].y, p[3].z, q[3].x, q[3].y, q[3].z, p[0].x, p[0].y, p[0].z, q[0].x, q[0].y, q[0].z, p[1].x, p[1].y, p[1].z, q[1].x, q[1].y, q[1].z, p[2].x, p[2].y, p[2].z, q[2].x, q[2].y, q[2].z, ans, (int) k);
    CBV3d_AABB bb;
    for (int i = 0; i < 3; ++i) { bb.AddPoint(p[i].data(), 1e-10); bb.AddPoint(q[i].data(), 1e-10); }
    int a2 = IsContact_FV_CCD(0, 1, 2, 3, p[0], p[1], p[2], p[3], q[0], q[1], q[2], q[3], bb);
    if (k != UNK) MC_CHECK(c, a2 == (int) k, "with box: contact %d, should be %d", a2, (int) k);
    for (int j = 0; j < 3; ++j)
      MC_CHECK(c, !IsContact_FV_CCD(0, 1, 2, j, p[0], p[1], p[2], p[3], q[0], q[1], q[2], q[3], bb), "a corner of the triangle cannot touch it");
  } else {
    ans = IsContact_EE_CCD<CBV3d_AABB>(0, 1, 2, 3, p[0], p[1], p[2], p[3], q[0], q[1], q[2], q[3]);
    if (k != UNK) MC_CHECK(c, ans == (int) k, "edges (%g %g %g)->(%g %g %g), (%g %g %g)->(%g %g %g) and (%g %g %g)->(%g %g %g), (%g %g %g)->(%g %g %g): contact %d, should be %d", p[0].x, p[0].y, p[0].z, q[0].x, q[0].y, q[0].z, p[1].x, p[1].y, p[1].z, q[1].x, q[1].y, q[1].z, p[2].x, p[2].y, p[2].z, q[2].x, q[2].y, q[2].z, p[3].x, p[3].y, p[3].z, q[3].x, q[3].y, q[3].z, ans, (int) k);
    MC_CHECK(c, !IsContact_EE_CCD<CBV3d_AABB>(0, 1, 1, 3, p[0], p[1], p[2], p[3], q[0], q[1], q[2], q[3]), "edges with a common end cannot touch");
  }
  c.outcome_of((int) fv, (int) k, ans, (int) T.size(), std::lround(t * 64));
}
static void fv(Ch &c) { moved(c, true); }
static void ee(Ch &c) { moved(c, false); }

static void iteration(Ch &c) {
  // two moving edges that meet at chosen parameters; the iteration started nearby must find the meeting
  const LD a = c.pick({0.3, 0.5, 0.8}), b = c.pick({0.25, 0.6}), u = c.pick({0.2, 0.5, 0.7});
  L3 s[4], e[4];
  static const int P[4][3] = {{0, 0, 0}, {3, 0, 1}, {1, -2, 2}, {2, 3, 2}};
  for (int k = 0; k < 4; ++k) {
    const int *d = DIR[c.choose(k == 3 ? 9 : 5)];
    for (int i = 0; i < 3; ++i) { s[k][i] = P[k][i]; e[k][i] = P[k][i] + d[i]; }
  }
  const double dp[3] = {c.pick({0.004, -0.004}), c.pick({0.004, -0.004}), c.pick({0.004, -0.004})};
  c.commit();
  // shift the second edge so that it meets the first one
  L3 off = (1 - a) * ((1 - u) * s[0] + u * e[0]) + a * ((1 - u) * s[1] + u * e[1]) - (1 - b) * ((1 - u) * s[2] + u * e[2]) - b * ((1 - u) * s[3] + u * e[3]);
  for (int k = 2; k < 4; ++k) { s[k] = s[k] + off; e[k] = e[k] + off; }
  // regular: derivatives by the two edge parameters and time are independent
  L3 ds = ((1 - u) * s[1] + u * e[1]) - ((1 - u) * s[0] + u * e[0]), dt = ((1 - u) * s[2] + u * e[2]) - ((1 - u) * s[3] + u * e[3]);
  L3 du = (1 - a) * (e[0] - s[0]) + a * (e[1] - s[1]) - (1 - b) * (e[2] - s[2]) - b * (e[3] - s[3]);
  LD J = det(ds, dt, du);
  const LD n0 = len(ds), n1 = len(dt), n2 = len(du);
  if (std::fabs(J) < 1e-9) return;
  const LD smax = std::sqrt(n0 * n0 + n1 * n1 + n2 * n2), smin = std::fabs(J) / (smax * smax);
  const LD K = len((e[1] - s[1]) - (e[0] - s[0])) + len((e[3] - s[3]) - (e[2] - s[2]));
  if (smin * smin < 20 * smax * 0.007L * K) return;
  double p[3] = {(double) a + dp[0], (double) b + dp[1], (double) u + dp[2]};
  // (the same in other units gives the same parameters)
  double ps[3] = {p[0], p[1], p[2]};
  const LD un = 1.L / 1024;
  double rs = Nearest_LineSeg_LineSeg_CCD_Iteration(ps, V(un * s[0]), V(un * e[0]), V(un * s[1]), V(un * e[1]), V(un * s[2]), V(un * e[2]), V(un * s[3]), V(un * e[3]), 8);
  double r = Nearest_LineSeg_LineSeg_CCD_Iteration(p, V(s[0]), V(e[0]), V(s[1]), V(e[1]), V(s[2]), V(e[2]), V(s[3]), V(e[3]), 8);
  MC_CHECK(c, r < 1e-8, "distance after 8 iterations from next to the meeting: %g", r);
  MC_CHECK(c, rs < 1e-11 && std::fabs(ps[0] - p[0]) < 1e-6 && std::fabs(ps[1] - p[1]) < 1e-6 && std::fabs(ps[2] - p[2]) < 1e-6, "in units 1024 times larger the distance is %g at (%g %g %g), not (%g %g %g)", rs, ps[0], ps[1], ps[2], p[0], p[1], p[2]);
  // (there may be another meeting of the same edges)
  L3 gap = (1 - p[0]) * ((1 - p[2]) * s[0] + p[2] * e[0]) + p[0] * ((1 - p[2]) * s[1] + p[2] * e[1]) - (1 - p[1]) * ((1 - p[2]) * s[2] + p[2] * e[2]) - p[1] * ((1 - p[2]) * s[3] + p[2] * e[3]);
  MC_CHECK(c, len(gap) < 1e-8, "edges meet at (%Lg %Lg) at time %Lg, found (%g %g) at %g, where they are %Lg apart", a, b, u, p[0], p[1], p[2], len(gap));
  for (unsigned int n = 1; n < 4; ++n) {  // parameters stay in range from any start
    double q[3] = {dp[0] > 0 ? 1. : 0., dp[1] > 0 ? 1. : 0., dp[2] > 0 ? 1. : 0.};
    Nearest_LineSeg_LineSeg_CCD_Iteration(q, V(s[0]), V(e[0]), V(s[1]), V(e[1]), V(s[2]), V(e[2]), V(s[3]), V(e[3]), n);
    for (double x : q) MC_CHECK(c, x >= 0 && x <= 1, "parameter %g out of range", x);
  }
  c.outcome_of((double) a, (double) b, (double) u, std::lround(p[0] * 1e4), (double) len(off));
}

static void element(Ch &c) {
  const int n = 5;
  std::vector<int> id = {0, 3, 4, 7, 9};
  const bool f0 = c.flip();
  int a[4];
  for (int i = 0; i < 4; ++i) {
    a[i] = c.choose(n);
    for (int j = 0; j < i; ++j) if (a[j] == a[i]) c.skip();
  }
  c.commit();
  for (int &x : a) x = id[x];
  CContactElement A(f0, a[0], a[1], a[2], a[3]);
  // the same element however it is written, and different from every other one
  auto canon = [](bool f, const int *x) {
    std::array<int, 5> r = {f, 0, 0, 0, 0};
    if (f) {
      int y[3] = {x[0], x[1], x[2]};
      std::sort(y, y + 3);
      r[1] = y[0]; r[2] = y[1]; r[3] = y[2]; r[4] = x[3];
    } else {
      std::pair<int, int> p(std::min(x[0], x[1]), std::max(x[0], x[1])), q(std::min(x[2], x[3]), std::max(x[2], x[3]));
      if (q < p) std::swap(p, q);
      r[1] = p.first; r[2] = p.second; r[3] = q.first; r[4] = q.second;
    }
    return r;
  };
  {
    int y[4] = {A.ino0, A.ino1, A.ino2, A.ino3};
    MC_CHECK(c, A.is_fv == f0 && canon(f0, y) == canon(f0, a), "element of %d %d %d %d holds %d %d %d %d", a[0], a[1], a[2], a[3], y[0], y[1], y[2], y[3]);
  }
  for (int f1 = 0; f1 < 2; ++f1)
    for (int k = 0; k < n * n * n * n; ++k) {
      int b[4] = {id[k % n], id[k / n % n], id[k / n / n % n], id[k / n / n / n]};
      if (b[0] == b[1] || b[0] == b[2] || b[0] == b[3] || b[1] == b[2] || b[1] == b[3] || b[2] == b[3]) continue;
      CContactElement B(f1, b[0], b[1], b[2], b[3]);
      const bool same = canon(f0, a) == canon(f1, b), lt = A < B, gt = B < A;
      MC_CHECK(c, !(lt && gt), "order is not antisymmetric");
      MC_CHECK(c, same == (!lt && !gt), "%s contact %d %d %d %d and %s contact %d %d %d %d are %s", f0 ? "face-vertex" : "edge-edge", a[0], a[1], a[2], a[3], f1 ? "face-vertex" : "edge-edge", b[0], b[1], b[2], b[3], same ? "the same, but told apart" : "different, but taken for the same");
    }
  c.outcome_of(A.ino0, A.ino1, A.ino2, A.ino3, (int) f0);
}

// ------------------------------------------------------------------ meshes

struct Mesh {
  std::vector<double> xyz, uvw;
  std::vector<unsigned int> tri;
  L3 P(int i) const { return {xyz[i * 3], xyz[i * 3 + 1], xyz[i * 3 + 2]}; }
  L3 Q(int i, double dt) const { return P(i) + (LD) dt * L3{uvw[i * 3], uvw[i * 3 + 1], uvw[i * 3 + 2]}; }
  int add(double x, double y, double z) {
    xyz.insert(xyz.end(), {x, y, z});
    uvw.insert(uvw.end(), {0, 0, 0});
    return (int) xyz.size() / 3 - 1;
  }
  void face(int a, int b, int c) { tri.insert(tri.end(), {(unsigned) a, (unsigned) b, (unsigned) c}); }
  void vel(int i, double x, double y, double z) { uvw[i * 3] += x; uvw[i * 3 + 1] += y; uvw[i * 3 + 2] += z; }
};

static void pick_mesh(Ch &c, Mesh &m, double h, bool cut) {
  const int kind = c.choose(4);
  const double z = cut ? 0 : h;
  if (kind == 0) {  // two triangles
    m.add(0, 0, 0); m.add(2, 0, 0); m.add(0, 2, 0);
    m.face(0, 1, 2);
    const double ox = c.pick({0.3, -0.7, 1.1}), oy = c.pick({0.2, 0.9});
    const double tz = c.pick({0., 0.5, 2.});
    m.add(ox, oy, z - (cut ? 0.4 : 0)); m.add(ox + 1, oy + 0.3, z + tz); m.add(ox - 0.2, oy + 1.2, z + 2 * tz + (cut ? 0.3 : 0));
    if (c.flip()) m.face(3, 4, 5); else m.face(5, 4, 3);
  } else if (kind == 1) {  // two square sheets
    const double ox = c.pick({0.1, 0.6, -0.45}), oy = c.pick({0.05, -0.35});
    const double dz = c.pick({0., 0.3});
    for (int l = 0; l < 2; ++l) {
      int b = l * 4;
      for (int k = 0; k < 4; ++k) m.add((k % 2) + l * ox, (k / 2) + l * oy, l * z + l * dz * (k % 2) + (cut && l ? 0.3 * (k / 2) - 0.13 : 0));
      m.face(b, b + 1, b + 3);
      m.face(b, b + 3, b + 2);
    }
  } else if (kind == 2) {  // a strip folded back onto itself
    const double sh = c.pick({0.13, -0.21, 0.4});
    const double dz = c.pick({0., 0.25, -0.1});
    const double X[5] = {0, 1, 1.6, 1, 0}, Z[5] = {0, 0, h / 2, h, h + (cut ? -2 * h : dz)};
    for (int k = 0; k < 5; ++k)
      for (int j = 0; j < 2; ++j) m.add(X[k] + (k > 2 ? sh : 0), j + (k > 2 ? sh / 2 : 0), Z[k]);
    for (int k = 0; k < 4; ++k) {
      m.face(2 * k, 2 * k + 2, 2 * k + 1);
      m.face(2 * k + 1, 2 * k + 2, 2 * k + 3);
    }
  } else {  // a tetrahedron above a sheet
    const double ox = c.pick({0.2, 0.45, 0.9}), oy = c.pick({0.15, 0.55});
    for (int k = 0; k < 4; ++k) m.add(k % 2 * 2 - 0.3, k / 2 * 2 - 0.4, 0.1 * (k == 3));
    m.face(0, 1, 3);
    m.face(0, 3, 2);
    const double w = c.pick({0.4, 0.8});
    const double y0 = cut ? -0.3 : z;
    const int t = m.add(ox, oy, y0);
    m.add(ox + w, oy, y0 + w * 1.1); m.add(ox - w / 2, oy + w, y0 + w); m.add(ox - w / 2, oy - w / 2, y0 + w * 0.9);
    m.face(t, t + 2, t + 1); m.face(t, t + 3, t + 2); m.face(t, t + 1, t + 3); m.face(t + 1, t + 2, t + 3);
  }
}

static int pick_tree(Ch &c, const Mesh &m, std::vector<CNodeBVH2> &N) {
  const unsigned int nt = (unsigned) m.tri.size() / 3;
  const int kind = c.choose(3);
  N.clear();
  if (kind == 0) {
    std::vector<unsigned int> sur;
    ElSuEl_MeshElem(sur, m.tri.data(), nt, MESHELEM_TRI, m.xyz.size() / 3);
    std::vector<double> ctr(nt * 3, 0.);
    for (unsigned int i = 0; i < nt * 3; ++i) for (int d = 0; d < 3; ++d) ctr[i / 3 * 3 + d] += m.xyz[m.tri[i] * 3 + d] / 3;
    return BVHTopology_TopDown_MeshElem(N, 3, sur, ctr);
  }
  std::vector<unsigned int> order;
  for (unsigned int i = 0; i < nt; ++i) if (kind == 1 || i % 2 == 0) order.push_back(i);
  if (kind == 2) for (unsigned int i = 1; i < nt; i += 2) order.insert(order.begin(), i);
  std::function<unsigned int(size_t, size_t)> rec = [&](size_t b, size_t e) -> unsigned int {
    CNodeBVH2 n;
    n.iparent = UINT_MAX;
    if (e - b == 1) { n.ichild[0] = order[b]; n.ichild[1] = UINT_MAX; }
    else {
      size_t mid = kind == 1 ? b + 1 : (b + e) / 2;
      n.ichild[0] = rec(b, mid);
      n.ichild[1] = rec(mid, e);
    }
    N.push_back(n);
    unsigned int self = (unsigned) N.size() - 1;
    if (e - b > 1) for (unsigned int k : n.ichild) N[k].iparent = self;
    return self;
  };
  return (int) rec(0, nt);
}

// every face-vertex and edge-edge pair of the mesh, as the detectors see them
template<class F>
static void all_pairs(const Mesh &m, F f) {
  std::set<std::pair<int, int>> E;
  const int nt = (int) m.tri.size() / 3, np = (int) m.xyz.size() / 3;
  std::set<int> used(m.tri.begin(), m.tri.end());
  for (int t = 0; t < nt; ++t) {
    int a[3] = {(int) m.tri[t * 3], (int) m.tri[t * 3 + 1], (int) m.tri[t * 3 + 2]};
    for (int k = 0; k < 3; ++k) E.insert({std::min(a[k], a[(k + 1) % 3]), std::max(a[k], a[(k + 1) % 3])});
    for (int v = 0; v < np; ++v)
      if (used.count(v) && v != a[0] && v != a[1] && v != a[2]) f(true, a[0], a[1], a[2], v);
  }
  for (auto p : E)
    for (auto q : E) {
      if (!(p < q)) continue;
      if (p.first == q.first || p.first == q.second || p.second == q.first || p.second == q.second) continue;
      f(false, p.first, p.second, q.first, q.second);
    }
}

static void compare(Ch &c, const Mesh &m, const std::set<CContactElement> &S, const std::function<Tri(bool, const int *)> &judge, const char *what) {
  mc::Hash H;
  size_t n = 0;
  all_pairs(m, [&](bool f, int a, int b, int d, int e) {
    int id[4] = {a, b, d, e};
    const bool has = S.count(CContactElement(f, a, b, d, e)) > 0;
    n += has;
    Tri k = judge(f, id);
    if (k != UNK) MC_CHECK(c, has == (k == YES), "%s: %s pair %d %d %d | %d is %s, but was %sreported", what, f ? "face-vertex" : "edge-edge", a, b, d, e, k == YES ? "in contact" : "not in contact", has ? "" : "not ");
    H << (int) has;
  });
  MC_CHECK(c, n == S.size(), "%s: %zu elements reported, but only %zu are pairs of the mesh", what, S.size(), n);
  c.outcome(H);
}

static void proximity(Ch &c) {
  Mesh m;
  const double delta = c.pick({0.1, 0.35});
  pick_mesh(c, m, delta * c.pick({0.3, 0.7, 0.9, 1.2}), false);
  std::vector<CNodeBVH2> N;
  const int root = pick_tree(c, m, N);
  const int axis = c.choose(3);
  c.commit();
  for (size_t i = 0; i < m.xyz.size(); i += 3) std::rotate(m.xyz.begin() + i, m.xyz.begin() + i + axis, m.xyz.begin() + i + 3);
  CLeafVolumeMaker_Mesh<CBV3d_AABB, double> lvm(delta * 0.5, m.xyz.data(), m.xyz.size() / 3, m.tri.data(), m.tri.size() / 3, 3);
  std::vector<CBV3d_AABB> B;
  BVH_BuildBVHGeometry(B, root, N, lvm);
  std::set<CContactElement> S;
  GetContactElement_Proximity(S, delta, m.xyz, m.tri, root, N, B);
  compare(c, m, S, [&](bool f, const int *id) {
    L3 p[4];
    for (int i = 0; i < 4; ++i) p[i] = m.P(id[i]);
    auto near = [&](LD d) { return d < delta - 1e-7 ? YES : d > delta + 1e-7 ? NO : UNK; };
    if (f) {
      L3 n = cross(p[1] - p[0], p[2] - p[0]);
      return all({near(std::fabs(dot(p[3] - p[0], n)) / len(n)), fv_at(p, 1e-7)});
    }
    LD d = 0;
    Tri k = ee_at(p, 1e-7, &d);
    return k == UNK ? UNK : all({k, near(d)});
  }, "proximity");
}

static void pick_motion(Ch &c, Mesh &m, double h) {
  const int np = (int) m.xyz.size() / 3;
  const double v = c.pick({-1.5, -0.4, 0.6}) * h;
  const int first = np == 6 ? 3 : np == 10 ? 6 : 4;
  for (int i = first; i < np; ++i) m.vel(i, 0, 0, v);
  const int k = c.choose(np + 1);
  if (k < np) {
    const int d = c.choose(3);
    m.vel(k, d == 1 ? 0.7 * h : 0, d == 2 ? -0.6 * h : 0, d == 0 ? (k < first ? 1.3 : -1.9) * h : 0.8 * h);
  }
}

static void ccd_mesh(Ch &c) {
  Mesh m;
  const double h = 0.5, dt = c.pick({1.0, 0.25});
  pick_mesh(c, m, h, false);
  pick_motion(c, m, h);
  std::vector<CNodeBVH2> N;
  const int root = pick_tree(c, m, N);
  c.commit();
  for (auto &x : m.uvw) x /= dt;
  CLeafVolumeMaker_DynamicTriangle<CBV3d_AABB, double> lvm(dt, m.xyz, m.uvw, m.tri, 1e-10);
  std::vector<CBV3d_AABB> B;
  BVH_BuildBVHGeometry(B, root, N, lvm);
  std::set<CContactElement> S;
  GetContactElement_CCD(S, dt, 0.01, m.xyz, m.uvw, m.tri, root, N, B);
  compare(c, m, S, [&](bool f, const int *id) {
    L3 s[4], e[4];
    for (int i = 0; i < 4; ++i) { s[i] = m.P(id[i]); e[i] = m.Q(id[i], dt); }
    return ccd(f, s, e, false);
  }, "continuous");
}

static void intersect(Ch &c) {
  Mesh m;
  pick_mesh(c, m, c.pick({0.2, 0.5}), true);
  std::vector<CNodeBVH2> N;
  const int root = pick_tree(c, m, N);
  const int dirty = c.choose(2);
  c.commit();
  CLeafVolumeMaker_Mesh<CBV3d_AABB, double> lvm(0., m.xyz.data(), m.xyz.size() / 3, m.tri.data(), m.tri.size() / 3, 3);
  std::vector<CBV3d_AABB> B;
  BVH_BuildBVHGeometry(B, root, N, lvm);
  std::vector<CIntersectTriPair<double>> R;
  if (dirty) { R.resize(1); R[0].itri = 77; R[0].jtri = 78; }
  GetIntersectTriPairs(R, m.xyz, m.tri, root, N, B);
  std::map<std::pair<int, int>, int> found;
  for (size_t i = dirty; i < R.size(); ++i) {
    found[{std::min(R[i].itri, R[i].jtri), std::max(R[i].itri, R[i].jtri)}]++;
    CVec3d P0, P1;
    isIntersectTriPair(P0, P1, R[i].itri, R[i].jtri, m.tri, m.xyz);
    MC_CHECK(c, (P0 - R[i].P[0]).norm() < 1e-12 && (P1 - R[i].P[1]).norm() < 1e-12, "segment of pair %d %d", R[i].itri, R[i].jtri);
  }
  const int nt = (int) m.tri.size() / 3;
  size_t yes = 0;
  for (int i = 0; i < nt; ++i)
    for (int j = i + 1; j < nt; ++j) {
      CVec3d P0, P1;
      const bool a = isIntersectTriPair(P0, P1, i, j, m.tri, m.xyz), b = isIntersectTriPair(P0, P1, j, i, m.tri, m.xyz);
      const int n = found.count({i, j}) ? found[{i, j}] : 0;
      yes += n;
      if (a == b) MC_CHECK(c, n == (int) a, "triangles %d and %d intersect: %d, reported %d times", i, j, (int) a, n);
    }
  MC_CHECK(c, yes + dirty == R.size(), "%zu pairs reported, %zu are pairs of the mesh", R.size() - dirty, yes);
  c.outcome_of(nt, (int) yes);
}

static void resolve(Ch &c) {
  Mesh m;
  const double h = 0.3, dt = c.pick({1.0, 0.1});
  const double clr = c.pick({0.02, 0.4});
  pick_mesh(c, m, h, false);
  pick_motion(c, m, h);
  std::vector<CNodeBVH2> N;
  const int root = pick_tree(c, m, N);
  const double mass = c.pick({0.5, 2.0});
  c.commit();
  for (auto &x : m.uvw) x /= dt;
  const int np = (int) m.xyz.size() / 3;
  std::vector<unsigned int> ind, sup;
  JArray_PSuP_MeshElem(ind, sup, m.tri.data(), m.tri.size() / 3, 3, np);
  std::vector<CBV3d_AABB> B;
  const Mesh m0 = m;
  bool prox = false, hit = false, unk = false;
  auto scan = [&](const Mesh &q) {
    prox = hit = unk = false;
    all_pairs(q, [&](bool f, int a, int b, int d, int e) {
      const int id[4] = {a, b, d, e};
      L3 s[4], t[4];
      for (int i = 0; i < 4; ++i) { s[i] = q.P(id[i]); t[i] = q.Q(id[i], dt); }
      Tri k = ccd(f, s, t, false);
      hit |= k == YES;
      unk |= k == UNK;
      LD dist = 0;
      if (f) {
        L3 n = cross(s[1] - s[0], s[2] - s[0]);
        dist = std::fabs(dot(s[3] - s[0], n)) / len(n);
        k = fv_at(s, 1e-7);
      } else k = ee_at(s, 1e-7, &dist);
      if (k == YES && dist < clr) prox = true;
      if (k == UNK) unk = true;
    });
  };
  scan(m);
  const bool hit0 = hit, prox0 = prox, unk0 = unk;
  bool applied = !hit0;
  std::streambuf *sb = std::cout.rdbuf(nullptr);
  GetIntermidiateVelocityContactResolved(m.uvw, applied, dt, clr, mass, 10., m.xyz, m.tri, ind, sup, root, N, B);
  std::cout.rdbuf(sb);
  std::cout.clear();
  MC_CHECK(c, m.xyz == m0.xyz, "positions changed");
  L3 p0 = {0, 0, 0}, p1 = p0, l0 = p0, l1 = p0;
  LD vmax = 1e-9;
  bool same = true;
  for (int i = 0; i < np; ++i) {
    L3 v0 = {m0.uvw[i * 3], m0.uvw[i * 3 + 1], m0.uvw[i * 3 + 2]}, v1 = {m.uvw[i * 3], m.uvw[i * 3 + 1], m.uvw[i * 3 + 2]};
    for (LD x : v1) MC_CHECK(c, std::isfinite((double) x), "velocity of point %d is %Lg", i, x);
    p0 = p0 + v0; p1 = p1 + v1;
    l0 = l0 + cross(m.P(i), v0); l1 = l1 + cross(m.P(i), v1);
    vmax = std::max(vmax, len(v0));
    same &= len(v1 - v0) == 0;
  }
  MC_CHECK(c, len(p1 - p0) < 1e-8 * vmax, "momentum (%Lg %Lg %Lg) became (%Lg %Lg %Lg)", p0[0], p0[1], p0[2], p1[0], p1[1], p1[2]);
  MC_CHECK(c, len(l1 - l0) < 1e-7 * vmax, "angular momentum (%Lg %Lg %Lg) became (%Lg %Lg %Lg)", l0[0], l0[1], l0[2], l1[0], l1[1], l1[2]);
  if (!unk0) {
    if (!hit0 && !prox0) MC_CHECK(c, same && !applied, "nothing touches, but the velocities changed");
    if (hit0 || prox0) MC_CHECK(c, applied, "contact, but no impulse reported");
  }
  scan(m);
  MC_CHECK(c, !hit, "the resolved velocities still lead to a contact (before: contact %d, proximity %d)", (int) hit0, (int) prox0);
  c.outcome(mc::Hash() << (int) hit0 << (int) prox0 << (int) same << (int) applied << np);
}

// one contact element, impulses against their definition
static void impulse(Ch &c) {
  const bool isfv = c.flip(), ccd = c.flip();
  const int shape = c.choose(3), up = c.choose(5), px = c.choose(4), py = c.choose(4), vk = c.choose(6), base = c.choose(2);
  const int par = c.choose(3);
  static const int IX[2][4] = {{0, 1, 2, 3}, {4, 2, 0, 1}};
  const int *ix = IX[base];
  static const double SH[3][2] = {{1, 0}, {0.75, 0.5}, {2, -1}};
  static const double UP[5] = {0.125, -0.25, 0.375, 0.75, -0.0625};
  const double delta = par == 1 ? 0.3 : 0.5, mass = par == 2 ? 4 : 0.5, dt = ccd ? 1 : par == 1 ? 0.25 : 0.5;
  double X[4][3] = {{0, 0, 0}, {2, 0, 0}, {0, 0, 0}, {0, 0, 0}}, V[4][3];
  const double h = UP[up], q[2] = {-0.375 + 0.5 * px, -0.3125 + 0.5 * py};
  if (isfv) {
    X[2][0] = SH[shape][0]; X[2][1] = 2 + SH[shape][1];
    X[3][0] = q[0]; X[3][1] = q[1]; X[3][2] = h;
  } else {
    X[2][0] = q[0] - SH[shape][0] * .5; X[2][1] = q[1] - 1.25; X[2][2] = h;
    X[3][0] = q[0] + SH[shape][0] * .5; X[3][1] = q[1] + 0.75 + SH[shape][1] * .5; X[3][2] = h + 0.03125 * shape;
  }
  static const double VK[6][4] = {{0, 0, 0, 0}, {0, 0, 0, -1}, {.25, .25, 0, -.5}, {0, 0, 0, 2}, {-1, .5, .25, .25}, {0, 0, -.0625, .125}};
  for (int i = 0; i < 4; ++i) {
    V[i][0] = 0.0625 * (i == vk); V[i][1] = -0.03125 * i * (vk & 1);
    V[i][2] = VK[vk][i] * (h > 0 ? 1 : -1);
  }
  c.commit();
  c.describe("%s %s: shape %d height %g offset (%g %g) velocities %d parameters %d", ccd ? "continuous" : "proximity", isfv ? "face-vertex" : "edge-edge", shape, h, q[0], q[1], vk, par);
  L3 x[4], v[4], e[4];
  for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) { x[i][k] = X[i][k]; v[i][k] = V[i][k]; e[i][k] = x[i][k] + v[i][k]; }
  std::vector<double> xyz(15, 7.), uvw(15, 0.125);
  for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) { xyz[ix[i] * 3 + k] = X[i][k]; uvw[ix[i] * 3 + k] = V[i][k]; }
  const std::vector<double> uvw0 = uvw;
  const double stiffness = par == 0 ? 2 : par == 1 ? 0.25 : 100;
  // weights of the nearest points, at the time that counts
  auto weights = [&](const L3 p[4], LD w[4], LD &dist) {
    Tri r;
    if (isfv) {
      L3 a = p[0] - p[2], b = p[1] - p[2], d = p[3] - p[2];
      LD aa = dot(a, a), bb = dot(b, b), ab = dot(a, b), D = aa * bb - ab * ab;
      LD w0 = (bb * dot(a, d) - ab * dot(b, d)) / D, w1 = (aa * dot(b, d) - ab * dot(a, d)) / D;
      w[0] = -w0; w[1] = -w1; w[2] = -(1 - w0 - w1); w[3] = 1;
      r = fv_at(p, ccd ? 1e-4 : 1e-6);
    } else {
      L3 a = p[1] - p[0], b = p[3] - p[2], d = p[2] - p[0];
      LD aa = dot(a, a), bb = dot(b, b), ab = dot(a, b), D = aa * bb - ab * ab;
      LD s = (bb * dot(a, d) - ab * dot(b, d)) / D, t = (ab * dot(a, d) - aa * dot(b, d)) / D;
      w[0] = -(1 - s); w[1] = -s; w[2] = 1 - t; w[3] = t;
      r = ee_at(p, ccd ? 1e-4 : 1e-6);
    }
    L3 g{0, 0, 0};
    for (int i = 0; i < 4; ++i) g = g + w[i] * p[i];
    dist = len(g);
    return r;
  };
  LD w[4], dist = 0, T = 0;
  Tri hit;
  if (ccd) {
    std::vector<LD> t;
    if (!coplanar_times(t, x, e, true)) { c.tick(); return; }
    if (t.empty()) hit = NO;
    else {
      T = *std::min_element(t.begin(), t.end());
      L3 m[4];
      for (int i = 0; i < 4; ++i) m[i] = x[i] + T * v[i];
      hit = weights(m, w, dist);
    }
  } else hit = weights(x, w, dist);
  if (hit == UNK) { c.tick(); return; }
  bool act = hit == YES && (ccd || dist <= delta);
  if (!ccd && std::fabs(dist - delta) < 1e-9) { c.tick(); return; }
  L3 n{0, 0, 0};
  LD rel = 0, inc = 0;
  if (act) {
    for (int i = 0; i < 4; ++i) n = n + w[i] * x[i];
    if (len(n) < 1e-6) { c.tick(); return; }
    const LD depth = ccd ? (LD) delta : delta - len(n);
    n = (1 / len(n)) * n;
    for (int i = 0; i < 4; ++i) rel += w[i] * dot(v[i], n);
    const LD lim = 0.1L * depth / dt;
    if (std::fabs(rel - lim) < (ccd ? 1e-3 : 1e-9)) { c.tick(); return; }
    if (rel > lim) act = false;
    else if (ccd) inc = 0.2L * (lim - rel);
    else inc = 0.5L * std::min((LD) dt * stiffness * depth, mass * (lim - rel)) / mass;
  }
  const std::vector<unsigned int> tri;
  const std::vector<CContactElement> ce{CContactElement(isfv, ix[0], ix[1], ix[2], ix[3])};
  if (ccd) SelfCollisionImpulse_CCD(uvw, delta, stiffness, dt, mass, xyz, tri, ce);
  else SelfCollisionImpulse_Proximity(uvw, delta, stiffness, dt, mass, xyz, tri, ce);
  L3 dm{0, 0, 0};
  LD got = 0, W = 0;
  for (int i = 0; i < 4; ++i) if (act) W += w[i] * w[i];
  for (int i = 0; i < 4; ++i) {
    L3 dv;
    for (int k = 0; k < 3; ++k) dv[k] = uvw[ix[i] * 3 + k] - (LD) uvw0[ix[i] * 3 + k];
    dm = dm + dv;
    if (act) {
      got += w[i] * dot(dv, n);
      const L3 r = dv - (inc * w[i] / W) * n;
      MC_CHECK(c, len(r) < (ccd ? 1e-3 : 1e-9), "point %d: velocity changes by (%Lg %Lg %Lg), expected %Lg along (%Lg %Lg %Lg)", i, dv[0], dv[1], dv[2], inc * w[i] / W, n[0], n[1], n[2]);
    } else MC_CHECK(c, len(dv) == 0, "no contact within reach, but point %d changes its velocity by (%Lg %Lg %Lg)", i, dv[0], dv[1], dv[2]);
  }
  MC_CHECK(c, len(dm) < 1e-10, "momentum changes by %Lg", len(dm));
  if (act) MC_CHECK(c, mc::near((double) got, (double) inc, ccd ? 1e-3 : 1e-9), "relative velocity changes by %Lg for %Lg", got, inc);
  for (int p = 0; p < 5; ++p) {
    bool used = false;
    for (int i = 0; i < 4; ++i) used |= ix[i] == p;
    if (!used) for (int k = 0; k < 3; ++k) MC_CHECK(c, uvw[3 * p + k] == uvw0[3 * p + k], "another point moved");
  }
  c.outcome_of(act, (double) inc);
}

int main(int argc, char **argv) {
  return mc::run(argc, argv, {"C12", "exploration", {"IEEE double precision", "configurations where rounding decides (grazing contacts, motion within one plane, double roots) are not judged"}},
                 {{"fv", fv, "all moves of a triangle and a point over the alphabet: coplanarity times and contact against exact root isolation"},
                  {"ee", ee, "all moves of two edges over the alphabet: contact against exact root isolation"},
                  {"iteration", iteration, "all meetings of two moving edges of the alphabet: the iteration started nearby converges to it"},
                  {"element", element, "all pairs of face-vertex and edge-edge elements over five points: equal exactly if the same contact"},
                  {"proximity", proximity, "all meshes, clearances and hierarchies of the alphabet: exactly the close pairs"},
                  {"ccd_mesh", ccd_mesh, "all meshes, motions and hierarchies of the alphabet: exactly the pairs in contact during the step"},
                  {"intersect", intersect, "all meshes and hierarchies of the alphabet: every intersecting triangle pair exactly once"},
                  {"resolve", resolve, "all meshes, motions, hierarchies: momentum, angular momentum, no contact left, nothing changed without contact"},
                  {"impulse", impulse, "all single contact elements of the alphabet: the impulse of proximity and continuous contacts against its definition, none out of reach"}});
}
