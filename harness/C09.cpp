// C09: point, triangle and tetrahedron searches agree with a full scan of our own.
#include "mc.h"
#include <iostream>
#include <map>
#include <set>
#include <tuple>
#include "delfem2/vec3.h"
#include "delfem2/vec3_funcs.h"
#include "delfem2/srch_kdtree.h"
#include "delfem2/srch_kdtree_tri.h"
#include "delfem2/srchgrid.h"
#include "delfem2/srch_bruteforce.h"
#include "delfem2/point_on_surface_mesh.h"
namespace dfm2 = delfem2;
using U = unsigned int;
using VU = std::vector<U>;
using VI = std::vector<int>;
using VD = std::vector<double>;
using V3 = dfm2::CVec3d;
using PS = dfm2::PointOnSurfaceMesh<double>;

// ---------- geometry of our own
struct P3 { double x, y, z; };
static P3 operator-(P3 a, P3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static P3 operator+(P3 a, P3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static P3 operator*(double s, P3 a) { return {s * a.x, s * a.y, s * a.z}; }
static double dot(P3 a, P3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static P3 cross(P3 a, P3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static double len(P3 a) { return std::sqrt(dot(a, a)); }
static double seg_dist(P3 p, P3 a, P3 b) {
  P3 d = b - a;
  double dd = dot(d, d), t = dd > 0 ? dot(p - a, d) / dd : 0;
  t = std::min(1., std::max(0., t));
  return len(p - (a + t * d));
}
static double tri_dist(P3 p, P3 a, P3 b, P3 c) {
  double m = std::min(seg_dist(p, a, b), std::min(seg_dist(p, b, c), seg_dist(p, c, a)));
  P3 n = cross(b - a, c - a);
  double nn = dot(n, n);
  if (nn < 1e-20) return m;
  double h = dot(p - a, n) / nn;
  P3 q = p - h * n;
  if (dot(cross(b - a, q - a), n) >= 0 && dot(cross(c - b, q - b), n) >= 0 && dot(cross(a - c, q - c), n) >= 0) m = std::min(m, std::fabs(h) * std::sqrt(nn));
  return m;
}
static P3 vtx(const VD &x, U i) { return {x[i * 3], x[i * 3 + 1], x[i * 3 + 2]}; }
static double tri_dist(P3 q, const VD &x, const VU &t, size_t i) { return tri_dist(q, vtx(x, t[i * 3]), vtx(x, t[i * 3 + 1]), vtx(x, t[i * 3 + 2])); }
static V3 v3(P3 p) { return V3(p.x, p.y, p.z); }
template<class A> static P3 p3(const A &a) { return {(double) a[0], (double) a[1], (double) a[2]}; }

static const P3 ANISO[3] = {{1, 1, 1}, {1, 4, 0.5}, {5, 1, 2}};
static P3 scaled(P3 p, P3 s) { return {p.x * s.x, p.y * s.y, p.z * s.z}; }

// a few hundred deterministic points of a lattice (many ties) or of a spiral
static std::vector<P3> family(int kind, int n) {
  std::vector<P3> a;
  for (int i = 0; i < n; i++) {
    if (kind == 0) a.push_back({double(i * 7 % 5), double(i * 3 % 4), double(i * 5 % 3)});
    else if (kind == 1) a.push_back({double(i), 0, 0});
    else if (kind == 2) a.push_back({double(i % 4), double(i / 4 % 4), double(i / 16)});
    else if (kind == 3) a.push_back({std::cos(2.4 * i) * (1 + 0.1 * i), std::sin(2.4 * i) * (1 + 0.1 * i), 0.2 * (i % 9)});
    else a.push_back({2, 2, double(i % 2)});
  }
  return a;
}

// ---------- 1. kd-tree of points
template<class VEC>
static void kd_check(mc::Ch &c, const std::vector<P3> &pts, const std::vector<P3> &qs, const char *name) {
  using R = std::decay_t<decltype(VEC()[0])>;
  std::vector<VEC> p;
  for (auto &q: pts) p.push_back(VEC((R) q.x, (R) q.y, (R) q.z));
  auto *root = dfm2::ConstructKDT(p);
  double tol = sizeof(R) == 4 ? 1e-5 : 1e-12;
  mc::Hash h;
  for (auto &q: qs) {
    c.step(1);
    double best = 1e30, second = 1e30;
    for (auto &s: pts) best = std::min(best, len(q - s));
    for (auto &s: pts) if (len(q - s) > best + 1e-3) second = std::min(second, len(q - s));
    VEC Q((R) q.x, (R) q.y, (R) q.z);
    VEC r = dfm2::SearchNearstPoint(root, Q);
    bool member = false;
    for (auto &s: p) member |= s[0] == r[0] && s[1] == r[1] && s[2] == r[2];
    MC_CHECK(c, member, "%s: the answer (%g,%g,%g) to (%g,%g,%g) is not a point of the set", name, (double) r[0], (double) r[1], (double) r[2], q.x, q.y, q.z);
    MC_CHECK(c, mc::near(len(p3(r) - q), best, tol * 10), "%s: the answer to (%g,%g,%g) is at %.9g, a point at %.9g exists", name, q.x, q.y, q.z, len(p3(r) - q), best);
    // bounded search: a bound above the nearest distance finds it
    for (double f: {1.25, 3.0}) {
      double bound = best * f + 0.01, d = bound;
      VEC s = dfm2::SearchNearstPoint(root, Q, 0, d);
      MC_CHECK(c, mc::near(d, best, tol * 10), "%s: bounded search of (%g,%g,%g) reports the distance %.9g instead of %.9g", name, q.x, q.y, q.z, d, best);
      MC_CHECK(c, mc::near(len(p3(s) - q), best, tol * 10), "%s: bounded search of (%g,%g,%g) returns a point at %.9g instead of %.9g", name, q.x, q.y, q.z, len(p3(s) - q), best);
    }
    // a bound below it never reports something nearer
    if (best > 0.1) {
      double bound = best * 0.75, d = bound;
      dfm2::SearchNearstPoint(root, Q, 0, d);
      MC_CHECK(c, d < 0 || mc::near(d, bound, tol), "%s: search of (%g,%g,%g) below %.9g reports a distance %.9g", name, q.x, q.y, q.z, bound, d);
    }
    h << ((uint64_t) std::llround(best * 1000));
  }
  // free the nodes
  std::vector<decltype(root)> st{root};
  size_t cnt = 0;
  while (!st.empty()) {
    auto *n = st.back();
    st.pop_back();
    cnt++;
    if (n->leftChild) st.push_back(n->leftChild);
    if (n->rightChild) st.push_back(n->rightChild);
    delete n;
  }
  MC_CHECK(c, cnt == pts.size(), "%s: %zu nodes for %zu points", name, cnt, pts.size());
  c.outcome(h);
}
static std::vector<P3> box_queries(double lo, double hi, double step, P3 s = {1, 1, 1}) {
  std::vector<P3> r;
  for (double x = lo; x <= hi; x += step) for (double y = lo; y <= hi; y += step) for (double z = lo; z <= hi; z += step) r.push_back(scaled({x, y, z}, s));
  return r;
}
static void kd_small(mc::Ch &c) {
  int n = 1 + c.choose(c.thorough ? 5 : 4);
  P3 s = ANISO[c.choose(3)];
  std::vector<P3> pts;
  for (int i = 0; i < n; i++) {
    int k = c.choose(8);
    pts.push_back(scaled({double(k & 1), double(k >> 1 & 1), double(k >> 2 & 1)}, s));
  }
  c.commit();
  c.describe("kd-tree of %d corners of a %gx%gx%g box", n, s.x, s.y, s.z);
  kd_check<V3>(c, pts, box_queries(-0.75, 1.75, 0.5, s), "CVec3d");
}
static void kd_large(mc::Ch &c) {
  int kind = c.choose(5), n = c.pick({2, 3, 5, 8, 13, 16, 31, 64, 100});
  P3 s = ANISO[c.choose(3)];
  bool f = c.flip();
  c.commit();
  c.describe("kd-tree of family %d with %d points, %s", kind, n, f ? "float" : "double");
  auto pts = family(kind, n);
  for (auto &p: pts) p = scaled(p, s);
  auto q = box_queries(-1.3, 5.3, 1.1, s);
  q.push_back({1e3, -1e3, 7});
  for (size_t i = 0; i < pts.size(); i += 3) q.push_back(pts[i]);
  if (f) kd_check<dfm2::CVec3f>(c, pts, q, "CVec3f");
  else kd_check<V3>(c, pts, q, "CVec3d");
}

// ---------- 2. kd-tree of triangles
static void kdtri_check(mc::Ch &c, const VD &x, const VU &t, const std::vector<P3> &qs) {
  std::vector<V3> p;
  for (size_t i = 0; i < x.size() / 3; i++) p.push_back(v3(vtx(x, i)));
  dfm2::KDTTriangle<V3> kd(p, t);
  mc::Hash h;
  for (auto &q: qs) {
    c.step(1);
    double best = 1e30;
    for (size_t i = 0; i < t.size() / 3; i++) best = std::min(best, tri_dist(q, x, t, i));
    VU r = kd.SearchNearest(v3(q));
    double got = 1e30;
    for (U i: r) {
      MC_CHECK(c, i < t.size() / 3, "candidate %u does not exist", i);
      got = std::min(got, tri_dist(q, x, t, i));
    }
    MC_CHECK(c, got <= best + 1e-6, "the candidates of (%g,%g,%g) are at least %.9g away, a triangle at %.9g exists", q.x, q.y, q.z, got, best);
    h << ((uint64_t) r.size());
  }
  c.outcome(h);
}
static void kdtri_small(mc::Ch &c) {
  P3 s = ANISO[c.choose(3)];
  int nt = 1 + c.choose(c.thorough ? 3 : 2);
  // triangles with a corner at a lattice point and two legs out of four
  static const P3 LEG[4][2] = {{{1, 0, 0}, {0, 1, 0}}, {{3, 0, 0}, {0, 0, 1}}, {{0, 2, 0}, {1, 1, 2}}, {{1, 1, 1}, {-1, 0, 2}}};
  VD x;
  VU t;
  for (int i = 0; i < nt; i++) {
    int k = c.choose(nt == 3 ? 8 : 27), l = c.choose(4), b = nt == 3 ? 2 : 3;
    P3 o = {double(k % b), double(k / b % b), double(k / b / b)};
    P3 a[3] = {o, o + LEG[l][0], o + LEG[l][1]};
    for (auto &p: a) {
      t.push_back(x.size() / 3);
      P3 e = scaled(p, s);
      x.insert(x.end(), {e.x, e.y, e.z});
    }
  }
  c.commit();
  c.describe("kd-tree of %d triangles, scale (%g,%g,%g)", nt, s.x, s.y, s.z);
  kdtri_check(c, x, t, box_queries(-1.5, 4.5, 1.5, s));
}
// meshes: curved sheets, closed boxes, tubes
static void mesh_family(int kind, int n, VD &x, VU &t) {
  x.clear(), t.clear();
  auto grid = [&](int nu, int nv, auto f, bool wrap) {
    U o = x.size() / 3;
    for (int j = 0; j <= nv; j++) for (int i = 0; i < nu + !wrap; i++) {
      P3 p = f(double(i) / nu, double(j) / nv);
      x.insert(x.end(), {p.x, p.y, p.z});
    }
    int w = nu + !wrap;
    for (int j = 0; j < nv; j++) for (int i = 0; i < nu; i++) {
      U a = o + j * w + i, b = o + j * w + (i + 1) % w, d = a + w, e = b + w;
      if ((i + j) % 2) t.insert(t.end(), {a, b, e, a, e, d});
      else t.insert(t.end(), {a, b, d, b, e, d});
    }
  };
  if (kind == 0) grid(n, n, [](double u, double v) { return P3{4 * u, 4 * v, 0}; }, false);
  else if (kind == 1) grid(n, n, [](double u, double v) { return P3{4 * u, 2 * v, std::sin(5 * u) + v * v}; }, false);
  else if (kind == 2) grid(n + 2, n, [](double u, double v) { return P3{2 + std::cos(2 * M_PI * u), 2 + std::sin(2 * M_PI * u), 4 * v}; }, true);
  else if (kind == 3) grid(1, n, [](double u, double v) { return P3{u * 4, v * 0.5, u * v}; }, false);
  else if (kind == 4) {  // closed sphere: poles and rings, outward
    int m = n + 2, k = n + 1;
    x = {2, 2, 3.5};
    for (int j = 1; j < k; j++) for (int i = 0; i < m; i++) {
      double a = M_PI * j / k, b = 2 * M_PI * i / m;
      x.insert(x.end(), {2 + 1.5 * std::sin(a) * std::cos(b), 2 + 1.5 * std::sin(a) * std::sin(b), 2 + 1.5 * std::cos(a)});
    }
    x.insert(x.end(), {2, 2, 0.5});
    U last = x.size() / 3 - 1;
    auto id = [&](int j, int i) { return U(1 + (j - 1) * m + i % m); };
    for (int i = 0; i < m; i++) t.insert(t.end(), {0, id(1, i), id(1, i + 1)});
    for (int j = 1; j + 1 < k; j++) for (int i = 0; i < m; i++) t.insert(t.end(), {id(j, i), id(j + 1, i), id(j + 1, i + 1), id(j, i), id(j + 1, i + 1), id(j, i + 1)});
    for (int i = 0; i < m; i++) t.insert(t.end(), {last, id(k - 1, i + 1), id(k - 1, i)});
  } else {  // two parallel squares and an unused vertex in front
    x = {9, 9, 9, 0, 0, 0, 3, 0, 0, 3, 3, 0, 0, 3, 0, 0, 0, 2, 3, 0, 2, 3, 3, 2, 0, 3, 2};
    t = {1, 2, 3, 1, 3, 4, 5, 6, 7, 5, 7, 8};
  }
}
static void kdtri_mesh(mc::Ch &c) {
  int kind = c.choose(6), n = c.pick({1, 2, 3, 5, 8});
  P3 s = ANISO[c.choose(3)];
  c.commit();
  c.describe("kd-tree of the triangles of mesh %d (%d)", kind, n);
  VD x;
  VU t;
  mesh_family(kind, n, x, t);
  for (size_t i = 0; i < x.size() / 3; i++) x[i * 3] *= s.x, x[i * 3 + 1] *= s.y, x[i * 3 + 2] *= s.z;
  kdtri_check(c, x, t, box_queries(-1.3, 5.3, 1.1, s));
}

// ---------- 3. grid
static void grid_check(mc::Ch &c, const dfm2::SearchGrid &g, const std::vector<P3> &pts, double h, const std::vector<P3> &qs, const char *what) {
  mc::Hash hs;
  for (auto &q: qs) {
    const double Q[3] = {q.x, q.y, q.z};
    VU r{77, 78};
    g.GetOneRingNeighbor(r, Q);
    std::multiset<U> s(r.begin(), r.end());
    for (U i: s) {
      MC_CHECK(c, i < pts.size() && s.count(i) == 1, "%s: neighbour %u of (%g,%g,%g) does not exist or is listed %zu times", what, i, q.x, q.y, q.z, s.count(i));
    }
    for (size_t i = 0; i < pts.size(); i++) {
      P3 d = pts[i] - q;
      double m = std::max(std::fabs(d.x), std::max(std::fabs(d.y), std::fabs(d.z)));
      if (m < h * (1 - 1e-9)) MC_CHECK(c, s.count(i), "%s: point %zu is within one cell size of (%g,%g,%g) and not listed", what, i, q.x, q.y, q.z);
      // cells of the clamped positions: at most one apart
      auto cl = [&](P3 p, int k) {
        double v = k == 0 ? p.x : k == 1 ? p.y : p.z;
        return std::min(std::max(v, g.bbmin[k]), g.bbmax[k]);
      };
      double far = 0;
      for (int k = 0; k < 3; k++) far = std::max(far, std::fabs(cl(pts[i], k) - cl(q, k)));
      if (far > 2 * h * (1 + 1e-9)) MC_CHECK(c, !s.count(i), "%s: point %zu is two cells away from (%g,%g,%g) and listed", what, i, q.x, q.y, q.z);
    }
    hs << ((uint64_t) s.size());
    c.step(1);
  }
  c.outcome(hs);
}
static void grid(mc::Ch &c) {
  int box = c.choose(6);
  static const P3 SIZE[6] = {{1, 1, 1}, {2, 1, 3}, {2.5, 1.2, 0.7}, {3, 2, 0}, {0, 0, 3}, {0, 0, 0}};
  static const P3 ORG[3] = {{0, 0, 0}, {-1.5, 2, 0.25}, {-4, -4, -4}};
  P3 sz = SIZE[box], o = ORG[c.choose(3)];
  double h = c.pick({0.5, 0.8, 1.0, 4.0});
  int kind = c.choose(5), n = c.pick({0, 1, 2, 7, 40});
  int move = c.choose(3);
  c.commit();
  c.describe("grid of cell %g on a %gx%gx%g box, family %d of %d, move %d", h, sz.x, sz.y, sz.z, kind, n, move);
  const double b0[3] = {o.x, o.y, o.z}, b1[3] = {o.x + sz.x, o.y + sz.y, o.z + sz.z};
  dfm2::SearchGrid g;
  if (move == 2) {  // used before with another size
    const double a0[3] = {0, 0, 0}, a1[3] = {9, 9, 9};
    g.Initialize(a0, a1, 1, 3);
    for (U i = 0; i < 3; i++) g.aGrid2Obj[i] = {g.GetGridIndex(a1), i};
    g.PostProcess(true);
  }
  auto pts = family(kind, n);
  for (auto &p: pts) p = scaled(p, {0.4, 0.4, 0.4}) + o;
  g.Initialize(b0, b1, h, n);
  MC_CHECK(c, g.aGrid2Obj.size() == (size_t) n, "%zu objects instead of %d", g.aGrid2Obj.size(), n);
  MC_CHECK(c, g.nx > 0 && g.ny > 0 && g.nz > 0 && g.nx * h >= sz.x - 1e-9 && g.ny * h >= sz.y - 1e-9 && g.nz * h >= sz.z - 1e-9, "%ux%ux%u cells of size %g do not cover the box", g.nx, g.ny, g.nz, h);
  auto fill = [&](bool init) {
    for (auto &e: g.aGrid2Obj) {
      U i = init ? U(&e - g.aGrid2Obj.data()) : e.iobj;
      const double P[3] = {pts[i].x, pts[i].y, pts[i].z};
      e.igrid = g.GetGridIndex(P);
      e.iobj = i;
      MC_CHECK(c, e.igrid < g.nx * g.ny * g.nz, "cell %u of point %u does not exist", e.igrid, i);
      int ix, iy, iz;
      g.GridIndex(ix, iy, iz, P);
      MC_CHECK(c, ix >= 0 && iy >= 0 && iz >= 0 && ix < (int) g.nx && iy < (int) g.ny && iz < (int) g.nz, "cell (%d,%d,%d) does not exist", ix, iy, iz);
      MC_CHECK(c, e.igrid == (iz * g.ny + iy) * g.nx + ix, "cell index %u is not the one of (%d,%d,%d)", e.igrid, ix, iy, iz);
    }
    g.PostProcess(init);
  };
  fill(true);
  std::vector<P3> q;
  for (double x = -1; x < 4; x += 0.9) for (double y = -1; y < 3; y += 0.7) for (double z = -1; z < 4; z += 0.9) q.push_back(o + P3{x, y, z});
  grid_check(c, g, pts, h, q, "initial");
  if (move) {
    for (int rep = 0; rep < 3; rep++) {
      for (size_t i = 0; i < pts.size(); i++) pts[i] = pts[i] + P3{0.3 * (i % 3) - 0.2, 0.25 * rep, i % 2 ? 0.5 : -0.3};
      fill(false);
      grid_check(c, g, pts, h, q, "after moving the points");
    }
  }
}

// ---------- 4. triangle meshes
static VD normals(const VD &x, const VU &t) {
  VD n(x.size(), 0);
  for (size_t i = 0; i < t.size(); i += 3) {
    P3 a = vtx(x, t[i]), m = cross(vtx(x, t[i + 1]) - a, vtx(x, t[i + 2]) - a);
    for (int k = 0; k < 3; k++) n[t[i + k] * 3] += m.x, n[t[i + k] * 3 + 1] += m.y, n[t[i + k] * 3 + 2] += m.z;
  }
  for (size_t i = 0; i < n.size(); i += 3) {
    double l = len({n[i], n[i + 1], n[i + 2]});
    if (l > 0) for (int k = 0; k < 3; k++) n[i + k] /= l;
  }
  return n;
}
static P3 pos_of(const PS &p, const VD &x, const VU &t) {
  return p.r0 * vtx(x, t[p.itri * 3]) + p.r1 * vtx(x, t[p.itri * 3 + 1]) + (1 - p.r0 - p.r1) * vtx(x, t[p.itri * 3 + 2]);
}
static void nearest_mesh(mc::Ch &c, const VD &x, const VU &t, const std::vector<P3> &qs) {
  size_t nt = t.size() / 3, nv = x.size() / 3;
  VD nrm = normals(x, t);
  mc::Hash h;
  VI odd;
  for (size_t i = nt; i-- > 0;) if (i % 2 == 0) odd.push_back((int) i);
  for (auto &q: qs) {
    c.step(1);
    double best = 1e30, bodd = 1e30;
    for (size_t i = 0; i < nt; i++) {
      double d = tri_dist(q, x, t, i);
      best = std::min(best, d);
      if (i % 2 == 0) bodd = std::min(bodd, d);
      PS a, b;
      double d1 = dfm2::DistanceToTri(a, v3(q), (U) i, x, t), d2 = dfm2::DistanceToTri(b, v3(q), (U) i, x.data(), nv, t.data(), nt);
      MC_CHECK(c, mc::near(d1, d, 1e-9) && mc::near(d2, d, 1e-9), "distance of (%g,%g,%g) to triangle %zu is %.12g, %.12g instead of %.12g", q.x, q.y, q.z, i, d1, d2, d);
      for (const PS &e: {a, b}) MC_CHECK(c, e.itri == i && e.Check(x, t, 1e-9) && mc::near(len(pos_of(e, x, t) - q), d, 1e-9), "the point (%g,%g) of triangle %u is not the nearest one of triangle %zu to (%g,%g,%g)", e.r0, e.r1, e.itri, i, q.x, q.y, q.z);
    }
    PS p = dfm2::Nearest_Point_MeshTri3D(v3(q), x, t);
    MC_CHECK(c, p.itri < nt && p.Check(x, t, 1e-9), "nearest point of (%g,%g,%g) is (%u;%g,%g)", q.x, q.y, q.z, p.itri, p.r0, p.r1);
    P3 w = pos_of(p, x, t);
    MC_CHECK(c, mc::near(len(w - q), best, 1e-9), "nearest point of (%g,%g,%g) is at %.12g instead of %.12g", q.x, q.y, q.z, len(w - q), best);
    auto w1 = p.PositionOnMeshTri3(x, t), w2 = p.PositionOnMeshTri3(x.data(), nv, t.data(), nt);
    MC_CHECK(c, len(p3(w1) - w) < 1e-12 && len(p3(w2) - w) < 1e-12, "position of (%u;%g,%g) is (%g,%g,%g)", p.itri, p.r0, p.r1, w1[0], w1[1], w1[2]);
    PS s = dfm2::Nearest_Point_MeshTri3DPart(v3(q), x, t, odd);
    MC_CHECK(c, s.itri < nt && s.itri % 2 == 0 && s.Check(x, t, 1e-9) && mc::near(len(pos_of(s, x, t) - q), bodd, 1e-9), "nearest point among the chosen triangles to (%g,%g,%g) is at %.12g (triangle %u) instead of %.12g", q.x, q.y, q.z, len(pos_of(s, x, t) - q), s.itri, bodd);
    // signed distance with the interpolated normal
    P3 n = p.r0 * vtx(nrm, t[p.itri * 3]) + p.r1 * vtx(nrm, t[p.itri * 3 + 1]) + (1 - p.r0 - p.r1) * vtx(nrm, t[p.itri * 3 + 2]);
    if (len(n) > 1e-3) {
      n = (1 / len(n)) * n;
      auto n1 = p.UnitNormalOnMeshTri3(nrm, t), n2 = p.UnitNormalOnMeshTri3(x.data(), (U) nv, t.data(), (U) nt, nrm.data());
      MC_CHECK(c, len(p3(n1) - n) < 1e-9 && len(p3(n2) - n) < 1e-9, "normal at (%u;%g,%g) is (%g,%g,%g) instead of (%g,%g,%g)", p.itri, p.r0, p.r1, n1[0], n1[1], n1[2], n.x, n.y, n.z);
      double side = dot(w - q, n);
      if (std::fabs(side) > 1e-7 && best > 1e-5) {
        V3 m1(7, 7, 7), m2(7, 7, 7);
        double s1 = dfm2::SDFNormal_NearestPoint(m1, v3(q), p, x, t, nrm), s2 = dfm2::SDFNormal_NearestPoint(m2, v3(q), p, x.data(), (U) nv, t.data(), (U) nt, nrm.data());
        double want = side > 0 ? best : -best;
        MC_CHECK(c, mc::near(s1, want, 1e-9) && mc::near(s2, want, 1e-9), "signed distance of (%g,%g,%g) is %.12g, %.12g instead of %.12g", q.x, q.y, q.z, s1, s2, want);
        P3 out = (1 / want) * (w - q);
        MC_CHECK(c, len(p3(m1) - out) < 1e-7 && len(p3(m2) - out) < 1e-7, "the direction to the surface from (%g,%g,%g) is (%g,%g,%g)", q.x, q.y, q.z, m1.x, m1.y, m1.z);
      } else if (best < 1e-9) {
        V3 m1(7, 7, 7), m2(7, 7, 7);
        double s1 = dfm2::SDFNormal_NearestPoint(m1, v3(q), p, x, t, nrm), s2 = dfm2::SDFNormal_NearestPoint(m2, v3(q), p, x.data(), (U) nv, t.data(), (U) nt, nrm.data());
        MC_CHECK(c, std::fabs(s1) < 1e-8 && std::fabs(s2) < 1e-8 && len(p3(m1) - n) < 1e-6 && len(p3(m2) - n) < 1e-6, "on the surface the distance is %g and the normal (%g,%g,%g)", s1, m1.x, m1.y, m1.z);
      }
    }
    h << ((uint64_t) p.itri);
  }
  c.outcome(h);
}
static void brute_small(mc::Ch &c) {
  VD x;
  VU t;
  int nt = 1 + c.choose(2);
  P3 s = ANISO[c.choose(3)];
  for (int i = 0; i < nt; i++) {
    for (int k = 0; k < 3; k++) {
      int v = nt == 2 && k == 0 && i == 1 ? -1 : nt == 2 ? c.choose(8) : c.choose(27);
      if (v < 0) { t.push_back(0); continue; }
      int b = nt == 2 ? 2 : 3;
      P3 p = scaled({double(v % b), double(v / b % b), double(v / b / b)}, s);
      t.push_back(x.size() / 3);
      x.insert(x.end(), {p.x, p.y, p.z});
    }
    P3 a = vtx(x, t[i * 3]);
    if (len(cross(vtx(x, t[i * 3 + 1]) - a, vtx(x, t[i * 3 + 2]) - a)) < 1e-9) c.skip();
  }
  c.commit();
  c.describe("%d triangles, scale (%g,%g,%g), x=%s", nt, s.x, s.y, s.z, mc::str(x).c_str());
  nearest_mesh(c, x, t, box_queries(-1, nt == 2 ? 2 : 3, c.thorough ? 0.5 : 1, s));
}
static void brute_mesh(mc::Ch &c) {
  int kind = c.choose(6), n = c.pick({1, 2, 4});
  c.commit();
  c.describe("nearest point of mesh %d (%d)", kind, n);
  VD x;
  VU t;
  mesh_family(kind, n, x, t);
  auto q = box_queries(-1.3, 5.3, 1.1);
  for (size_t i = 0; i < x.size() / 3; i++) q.push_back(vtx(x, i));
  nearest_mesh(c, x, t, q);
}

// rays
struct Hit { U tri; double r0, r1, depth; };
// hits of a line; `bad` when the line passes near an edge or nearly in the plane
static std::vector<Hit> scan_line(P3 o, P3 d, const VD &x, const VU &t, std::set<U> &bad) {
  std::vector<Hit> r;
  for (size_t i = 0; i < t.size() / 3; i++) {
    P3 a = vtx(x, t[i * 3]), b = vtx(x, t[i * 3 + 1]), e = vtx(x, t[i * 3 + 2]), n = cross(b - a, e - a);
    if (std::fabs(dot(n, d)) < 1e-9 * len(d) * len(n)) {
      if (std::fabs(dot(n, a - o)) < 1e-6 * len(n)) bad.insert(i);
      continue;
    }
    double dep = dot(a - o, n) / dot(d, n);
    P3 p = o + dep * d;
    double nn = dot(n, n), r0 = dot(cross(e - b, p - b), n) / nn, r1 = dot(cross(a - e, p - e), n) / nn, r2 = 1 - r0 - r1, m = std::min(r0, std::min(r1, r2));
    if (std::fabs(m) < 2e-3) { bad.insert(i); continue; }
    if (m > 0) r.push_back({(U) i, r0, r1, dep});
  }
  return r;
}
static void ray_check(mc::Ch &c, P3 o, P3 d, const VD &x, const VU &t) {
  std::set<U> bad;
  auto want = scan_line(o, d, x, t, bad);
  c.step(1);
  auto line = dfm2::IntersectionLine_MeshTri3(v3(o), v3(d), t, x, 1e-3);
  std::map<U, PS> got;
  for (auto &p: line) {
    MC_CHECK(c, p.itri < t.size() / 3 && !got.count(p.itri), "line hit on triangle %u is listed twice or does not exist", p.itri);
    got[p.itri] = p;
  }
  for (auto &w: want) {
    MC_CHECK(c, got.count(w.tri), "the line from (%g,%g,%g) along (%g,%g,%g) hits triangle %u and the hit is missing", o.x, o.y, o.z, d.x, d.y, d.z, w.tri);
    MC_CHECK(c, mc::near(got[w.tri].r0, w.r0, 1e-7) && mc::near(got[w.tri].r1, w.r1, 1e-7), "the hit on triangle %u is at (%g,%g) instead of (%g,%g)", w.tri, got[w.tri].r0, got[w.tri].r1, w.r0, w.r1);
  }
  std::set<U> wt;
  for (auto &w: want) wt.insert(w.tri);
  for (auto &g: got) MC_CHECK(c, wt.count(g.first) || bad.count(g.first), "the line from (%g,%g,%g) along (%g,%g,%g) misses triangle %u and a hit is reported", o.x, o.y, o.z, d.x, d.y, d.z, g.first);
  // rays: depth-sorted hits in front
  for (auto &w: want) if (std::fabs(w.depth) < 1e-6) return;
  if (!bad.empty()) return;
  for (int part = 0; part < 2; part++) {
    std::map<double, PS> m{{-5., PS(99, 0, 0)}};
    std::vector<Hit> ex;
    VU some;
    for (size_t i = 0; i < t.size() / 3; i++) if (!part || i % 3 != 1) some.push_back(i);
    if (!part) dfm2::IntersectionRay_MeshTri3(m, v3(o), v3(d), t, x, 1e-3);
    else dfm2::IntersectionRay_MeshTri3DPart(m, v3(o), v3(d), t, x, some, 1e-3);
    for (auto &w: want) if (w.depth > 0 && (!part || w.tri % 3 != 1)) ex.push_back(w);
    std::sort(ex.begin(), ex.end(), [](const Hit &a, const Hit &b) { return a.depth < b.depth; });
    bool tie = false;
    for (size_t i = 1; i < ex.size(); i++) tie |= ex[i].depth - ex[i - 1].depth < 1e-6;
    if (tie) continue;
    MC_CHECK(c, m.size() == ex.size(), "the ray from (%g,%g,%g) along (%g,%g,%g) has %zu hits in front, %zu are reported (part %d)", o.x, o.y, o.z, d.x, d.y, d.z, ex.size(), m.size(), part);
    size_t k = 0;
    double unit = part ? 1 : dot(d, d);
    for (auto &e: m) {
      MC_CHECK(c, e.second.itri == ex[k].tri && mc::near(e.second.r0, ex[k].r0, 1e-7) && mc::near(e.second.r1, ex[k].r1, 1e-7), "hit %zu of the ray is on triangle %u instead of %u", k, e.second.itri, ex[k].tri);
      MC_CHECK(c, mc::near(e.first, ex[k].depth * unit, 1e-7), "depth of hit %zu is %g instead of %g (part %d)", k, e.first, ex[k].depth * unit, part);
      k++;
    }
  }
  c.outcome_of((int) want.size());
}
static const std::vector<P3> DIRS = {{0, 0, 1}, {0, 0, -2}, {1, 0, 0}, {0, -1, 0}, {1, 1, 0}, {1, -1, 1}, {0.3, 0.2, -1}, {-2, 0.5, 0.7}, {0.1, 1, 0.1}};
static void rays(mc::Ch &c) {
  int kind = c.choose(6), n = c.pick({1, 2, 4, 7}), di = c.choose((int) DIRS.size());
  c.commit();
  c.describe("rays along direction %d on mesh %d (%d)", di, kind, n);
  VD x;
  VU t;
  mesh_family(kind, n, x, t);
  for (double a = -0.83; a < 5; a += 0.53) for (double b = -0.71; b < 5; b += 0.61) for (double e: {-1.2, 0.37, 1.9, 5.1}) ray_check(c, {a, b, e}, DIRS[di], x, t);
}
static void heightfield(mc::Ch &c) {
  U nx = 2 + c.choose(3), ny = 2 + c.choose(3);
  int kind = c.choose(4), di = c.choose(5);
  c.commit();
  c.describe("height field %ux%u, heights %d, direction %d", nx, ny, kind, di);
  std::vector<float> H(nx * ny);
  for (U i = 0; i < nx * ny; i++) H[i] = kind == 0 ? 0.f : kind == 1 ? float(i % nx) * 0.5f : kind == 2 ? float(i * i % 5) * 0.25f : float(i / nx) - 1.f;
  static const P3 D[5] = {{0, 0, 1}, {0, 0, -3}, {0.2, 0.1, -1}, {1, 0.3, -0.4}, {-0.7, -1, -0.5}};
  // our own triangles: quad (i,j) split along the diagonal from (i,j) to (i+1,j+1), numbered by the grid node
  VD x;
  VU t, id;
  for (U j = 0; j < ny; j++) for (U i = 0; i < nx; i++) x.insert(x.end(), {double(i), double(j), H[j * nx + i]});
  for (U j = 0; j + 1 < ny; j++) for (U i = 0; i + 1 < nx; i++) {
    U a = j * nx + i, b = a + 1, e = a + nx, f = e + 1;
    t.insert(t.end(), {a, b, f, a, f, e});
    id.push_back(a * 2), id.push_back(a * 2 + 1);
  }
  for (double a = -0.37; a < nx; a += 0.43) for (double b = -0.29; b < ny; b += 0.37) {
    P3 o{a, b, 4};
    std::set<U> bad;
    auto want = scan_line(o, D[di], x, t, bad);
    const double src[3] = {o.x, o.y, o.z}, dir[3] = {D[di].x, D[di].y, D[di].z};
    std::vector<PS> got;
    dfm2::IntersectionLine_Hightfield(got, src, dir, nx, ny, H);
    c.step(1);
    std::map<U, PS> g;
    for (auto &p: got) {
      MC_CHECK(c, !g.count(p.itri), "height field hit %u is listed twice", p.itri);
      g[p.itri] = p;
    }
    for (auto &w: want) {
      U k = id[w.tri];
      MC_CHECK(c, g.count(k) && mc::near(g[k].r0, w.r0, 1e-6) && mc::near(g[k].r1, w.r1, 1e-6), "line from (%g,%g,4): the hit on face %u is missing or misplaced", a, b, k);
      for (double el: {1.0, 0.5}) {
        auto p = g[k].PositionOnGrid2(nx, ny, el, H);
        P3 y = o + w.depth * D[di];
        MC_CHECK(c, mc::near(p[0], y.x * el, 1e-6) && mc::near(p[1], y.y * el, 1e-6) && mc::near(p[2], y.z, 1e-6), "position of the hit on face %u is (%g,%g,%g) instead of (%g,%g,%g)", k, p[0], p[1], p[2], y.x * el, y.y * el, y.z);
      }
      g.erase(k);
    }
    for (auto &e: g) {
      bool ok = false;
      for (U b0: bad) ok |= id[b0] == e.first;
      MC_CHECK(c, ok, "line from (%g,%g,4): a hit on face %u is reported that does not exist", a, b, e.first);
    }
    c.outcome_of((int) want.size());
  }
}

// connected triangles in a sphere, samples in a sphere
static VU adjacency(const VU &t) {
  VU r(t.size(), UINT_MAX);
  for (size_t i = 0; i < t.size(); i++) {
    U a = t[i / 3 * 3 + (i + 1) % 3], b;
    a = t[i / 3 * 3 + (i % 3 + 1) % 3], b = t[i / 3 * 3 + (i % 3 + 2) % 3];
    for (size_t j = 0; j < t.size(); j++) {
      if (i / 3 == j / 3) continue;
      U d = t[j / 3 * 3 + (j % 3 + 1) % 3], e = t[j / 3 * 3 + (j % 3 + 2) % 3];
      if ((a == d && b == e) || (a == e && b == d)) r[i] = j / 3;
    }
  }
  return r;
}
static void sphere(mc::Ch &c) {
  int kind = c.choose(6), n = c.pick({1, 2, 4});
  double rad = c.pick({0.3, 0.9, 1.7, 2.3, 20.0});
  c.commit();
  c.describe("triangles of mesh %d (%d) within %g", kind, n, rad);
  VD x;
  VU t;
  mesh_family(kind, n, x, t);
  VU adj = adjacency(t);
  size_t nt = t.size() / 3;
  std::vector<std::tuple<U, double, double>> smp;
  std::multimap<U, U> el;
  for (U i = 0; i < nt; i++) {
    if (i % 3 == 2) continue;
    for (int k = 0; k < 2; k++) {
      smp.push_back({(i * 5 + 1) % nt, k ? 0.6 : 0.1, k ? 0.1 : 0.2});
      el.insert({(i * 5 + 1) % (U) nt, (U) smp.size() - 1});
    }
  }
  for (U it = 0; it < nt; it++) for (auto [r0, r1, off]: {std::tuple<double, double, double>{0.3, 0.4, 0}, {0.7, 0.1, 0}, {0, 0.5, 0}, {1, 0, 0}, {0.2, 0.3, 0.25}}) {
    c.step(1);
    P3 a = vtx(x, t[it * 3]), nn = cross(vtx(x, t[it * 3 + 1]) - a, vtx(x, t[it * 3 + 2]) - a);
    P3 q = pos_of(PS(it, r0, r1), x, t) + (off / len(nn)) * nn;
    VD dist(nt);
    bool tie = false;
    for (size_t i = 0; i < nt; i++) dist[i] = tri_dist(q, x, t, i), tie |= std::fabs(dist[i] - rad) < 1e-3;
    if (tie) continue;
    std::set<U> want;
    std::vector<U> st{it};
    while (!st.empty()) {
      U i = st.back();
      st.pop_back();
      if (want.count(i) || dist[i] > rad) continue;
      want.insert(i);
      for (int k = 0; k < 3; k++) if (adj[i * 3 + k] != UINT_MAX) st.push_back(adj[i * 3 + k]);
    }
    VU r = dfm2::IndexesOfConnectedTriangleInSphere({q.x, q.y, q.z}, rad, it, x, t, adj);
    std::set<U> got(r.begin(), r.end());
    MC_CHECK(c, got.size() == r.size(), "a triangle is listed twice");
    MC_CHECK(c, got == want, "the triangles connected to %u within %g of (%g,%g,%g) are %s instead of %s", it, rad, q.x, q.y, q.z, mc::str(got).c_str(), mc::str(want).c_str());
    if (off == 0) {
      bool in = false, close = false;
      for (auto &s: smp) {
        P3 y = pos_of(PS(s), x, t);
        double d = len(y - q);
        close |= std::fabs(d - rad) < 1e-6;
        if (d < rad && want.count(std::get<0>(s))) in = true;
      }
      if (!close) {
        bool g = dfm2::IsTherePointOnMeshInsideSphere({it, r0, r1}, rad, smp, el, x, t, adj);
        MC_CHECK(c, g == in, "a sample within %g of (%g,%g,%g): %d instead of %d", rad, q.x, q.y, q.z, g, in);
      }
    }
    c.outcome_of((int) want.size());
  }
}

// ---------- 5. tetrahedra
// boxes of five tetrahedra each (mirrored alternately so that faces match)
static void tet_family(int nx, int ny, int nz, P3 s, VD &x, VI &t) {
  x.clear(), t.clear();
  auto id = [&](int i, int j, int k) { return (k * (ny + 1) + j) * (nx + 1) + i; };
  for (int k = 0; k <= nz; k++) for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) x.insert(x.end(), {i * s.x, j * s.y, k * s.z + 0.1 * i});
  static const int T[2][5][4] = {{{0, 1, 2, 4}, {3, 2, 1, 7}, {5, 4, 7, 1}, {6, 7, 4, 2}, {1, 2, 4, 7}},
                                 {{1, 0, 3, 5}, {2, 3, 0, 6}, {4, 5, 6, 0}, {7, 6, 5, 3}, {0, 3, 5, 6}}};
  for (int k = 0; k < nz; k++) for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) for (auto &e: T[(i + j + k) % 2]) {
    int v[4];
    for (int l = 0; l < 4; l++) v[l] = id(i + (e[l] & 1), j + (e[l] >> 1 & 1), k + (e[l] >> 2 & 1));
    P3 a = vtx(x, v[0]), b = vtx(x, v[1]), d = vtx(x, v[2]), f = vtx(x, v[3]);
    if (dot(cross(b - a, d - a), f - a) < 0) std::swap(v[0], v[1]);
    t.insert(t.end(), v, v + 4);
  }
}
static VI tet_adj(const VI &t) {
  VI r(t.size() * 2, -1);
  std::map<std::set<int>, std::vector<std::pair<int, int>>> m;
  for (size_t i = 0; i < t.size() / 4; i++) for (int f = 0; f < 4; f++) {
    std::set<int> s;
    for (int k = 0; k < 4; k++) if (k != f) s.insert(t[i * 4 + k]);
    m[s].push_back({(int) i, f});
  }
  for (auto &e: m) if (e.second.size() == 2) for (int k = 0; k < 2; k++) r[e.second[k].first * 8 + e.second[k].second * 2] = e.second[1 - k].first, r[e.second[k].first * 8 + e.second[k].second * 2 + 1] = e.second[1 - k].second;
  return r;
}
static void bary(P3 q, const VD &x, const VI &t, int i, double r[4]) {
  P3 p[4];
  for (int k = 0; k < 4; k++) p[k] = vtx(x, t[i * 4 + k]);
  auto vol = [](P3 a, P3 b, P3 c, P3 d) { return dot(cross(b - a, c - a), d - a); };
  double v = vol(p[0], p[1], p[2], p[3]);
  r[0] = vol(q, p[1], p[2], p[3]) / v, r[1] = vol(p[0], q, p[2], p[3]) / v, r[2] = vol(p[0], p[1], q, p[3]) / v, r[3] = vol(p[0], p[1], p[2], q) / v;
}
static void tets(mc::Ch &c) {
  int nx = 1 + c.choose(3), ny = 1 + c.choose(2), nz = 1 + c.choose(2);
  P3 s = ANISO[c.choose(3)];
  c.commit();
  c.describe("tetrahedra of %dx%dx%d boxes, scale (%g,%g,%g)", nx, ny, nz, s.x, s.y, s.z);
  VD x;
  VI t;
  tet_family(nx, ny, nz, s, x, t);
  VI adj = tet_adj(t);
  int nt = t.size() / 4;
  VI face;
  VU tu(t.begin(), t.end()), faceu;
  VU srf;  // our own triangles of the faces
  static const int F[4][3] = {{1, 2, 3}, {0, 3, 2}, {0, 1, 3}, {0, 2, 1}};
  for (int i = nt; i-- > 0;) for (int f = 0; f < 4; f++) if (adj[i * 8 + f * 2] == -1) {
    face.push_back(i), face.push_back(f);
    faceu.push_back(i), faceu.push_back(f);
    for (int k: F[f]) srf.push_back(t[i * 4 + k]);
  }
  for (double a = -0.35; a < nx + 0.6; a += 0.31) for (double b = -0.4; b < ny + 0.6; b += 0.37) for (double e = -0.4; e < nz + 0.6; e += 0.43) {
    P3 q{a * s.x, b * s.y, e * s.z};
    c.step(1);
    double inside = -1e30;  // how deep, in barycentric units, the query lies in some tet
    for (int i = 0; i < nt; i++) {
      double r[4];
      bary(q, x, t, i, r);
      inside = std::max(inside, std::min(std::min(r[0], r[1]), std::min(r[2], r[3])));
      dfm2::PointInSolidMesh<double> p;
      p.setPos_Tet(i, v3(q), x, t);
      MC_CHECK(c, p.ielem == i && mc::near(p.r0, r[0], 1e-9) && mc::near(p.r1, r[1], 1e-9) && mc::near(p.r2, r[2], 1e-9), "coordinates of (%g,%g,%g) in tetrahedron %d are (%g,%g,%g) instead of (%g,%g,%g)", q.x, q.y, q.z, i, p.r0, p.r1, p.r2, r[0], r[1], r[2]);
      auto w = p.getPos_Tet(x, t);
      MC_CHECK(c, len(p3(w) - q) < 1e-9, "position of the coordinates of (%g,%g,%g) is (%g,%g,%g)", q.x, q.y, q.z, w.x, w.y, w.z);
      double mn = std::min(std::min(r[0], r[1]), std::min(r[2], r[3]));
      for (double ep: {-0.1, 0.0, 0.05}) if (std::fabs(mn - ep) > 1e-9) MC_CHECK(c, p.isInside(ep) == (mn > ep), "isInside(%g) with the least coordinate %g says %d", ep, mn, p.isInside(ep));
      int nf = 0, fi = -1;
      bool close = false;
      for (int k = 0; k < 4; k++) {
        close |= std::fabs(std::fabs(r[k]) - 1e-3) < 1e-9;
        if (std::fabs(r[k]) < 1e-3) nf++, fi = k;
      }
      if (!close) MC_CHECK(c, p.indFace(1e-3) == (nf == 1 ? fi : -1), "indFace is %d instead of %d", p.indFace(1e-3), nf == 1 ? fi : -1);
    }
    auto good = [&](const dfm2::PointInSolidMesh<double> &p, const char *what) {
      if (inside > 1e-7) MC_CHECK(c, p.ielem >= 0 && p.ielem < nt, "%s: (%g,%g,%g) lies in a tetrahedron and none is found", what, q.x, q.y, q.z);
      if (inside < -1e-2) MC_CHECK(c, p.ielem == -1, "%s: (%g,%g,%g) lies in no tetrahedron and %d is returned", what, q.x, q.y, q.z, p.ielem);
      if (p.ielem == -1) return;
      double r[4];
      bary(q, x, t, p.ielem, r);
      MC_CHECK(c, mc::near(r[0], p.r0, 1e-9) && mc::near(r[1], p.r1, 1e-9) && mc::near(r[2], p.r2, 1e-9), "%s: wrong coordinates in tetrahedron %d", what, p.ielem);
      for (double v: r) MC_CHECK(c, v > -1e-2, "%s: (%g,%g,%g) is not in tetrahedron %d", what, q.x, q.y, q.z, p.ielem);
    };
    good(dfm2::Nearest_Point_MeshTet3D(v3(q), x, t), "search");
    for (int i0 = -1; i0 <= nt; i0++) {
      auto p = dfm2::Nearest_Point_MeshTet3D(v3(q), i0, x, t, adj);
      if (i0 < 0 || i0 >= nt) MC_CHECK(c, p.ielem == -1, "walk from tetrahedron %d of %d", i0, nt);
      else if (p.ielem != -1 || i0 >= 0) {
        // the walk of a convex mesh reaches every interior point
        good(p, "walk");
      }
    }
    double best = 1e30;
    for (size_t i = 0; i < srf.size() / 3; i++) best = std::min(best, tri_dist(q, x, srf, i));
    PS pf = dfm2::Nearest_Point_MeshTetFace3D(v3(q), x, t, face);
    MC_CHECK(c, pf.itri < srf.size() / 3, "face %u does not exist", pf.itri);
    auto w = pf.PositionOnFaceOfMeshTet(x, tu, faceu);
    MC_CHECK(c, pf.r0 > -1e-9 && pf.r1 > -1e-9 && pf.r0 + pf.r1 < 1 + 1e-9 && len(p3(w) - pos_of(pf, x, srf)) < 1e-9, "position of (%g,%g) on face %u is (%g,%g,%g)", pf.r0, pf.r1, pf.itri, w[0], w[1], w[2]);
    MC_CHECK(c, mc::near(len(p3(w) - q), best, 1e-8), "the nearest face point of (%g,%g,%g) is at %.12g instead of %.12g", q.x, q.y, q.z, len(p3(w) - q), best);
    c.outcome_of(inside > 0);
  }
}

int main(int argc, char **argv) {
  std::cout.rdbuf(nullptr);
  return mc::run(argc, argv, {"C09", "exploration", {"Queries whose answer is decided by rounding (a line through an edge, a distance equal to the radius) are not judged."}}, {
    {"kd_small", kd_small, "all multisets (ordered) of up to 4 (thorough 5) corners of 3 boxes, 216 queries"},
    {"kd_large", kd_large, "5 families of up to 100 points (ties, duplicates, collinear), 3 scales, double and float"},
    {"kdtri_small", kdtri_small, "all pairs (thorough: triples) of lattice triangles of 4 shapes, 3 scales, 125 queries"},
    {"kdtri_mesh", kdtri_mesh, "6 meshes, 5 sizes, 3 scales, 343 queries"},
    {"grid", grid, "6 boxes (flat ones included), 3 positions, 4 cell sizes, 5 point families, 5 sizes, moved points and reused grids"},
    {"brute_small", brute_small, "all triangles on a 3x3x3 lattice, all pairs of triangles with a common corner on a 2x2x2 lattice, 3 scales"},
    {"brute_mesh", brute_mesh, "6 meshes, 3 sizes"},
    {"rays", rays, "6 meshes, 4 sizes, 9 directions, about 500 origins"},
    {"heightfield", heightfield, "9 grids, 4 height families, 5 directions"},
    {"sphere", sphere, "6 meshes, 3 sizes, 5 radii, all triangles, 5 points each"},
    {"tets", tets, "12 tetrahedral meshes, 3 scales, all walk starts, lattice of queries"}});
}
