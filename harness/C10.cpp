// C10: convex hulls and convex intersection tests against exact integer geometry.
#include "mc.h"
#include <cassert>
#include <cmath>
#include <climits>
#include <limits>
#include <set>
#include <map>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/geo_convhull2.h"
#include "delfem2/geo_convhull3.h"
#include "delfem2/geo_gjksat2.h"
// both headers define these two helpers with the same signature
#define FindFurthest FindFurthest3
#define Range_ProjectionPointsOnAxis Range_ProjectionPointsOnAxis3
#include "delfem2/geo_gjksat3.h"
#undef FindFurthest
#undef Range_ProjectionPointsOnAxis
namespace dfm2 = delfem2;
using U = unsigned int;
using V2 = dfm2::CVec2d;
using V3 = dfm2::CVec3d;
using I2 = std::array<long, 2>;
using I3 = std::array<long, 3>;
static I2 operator-(I2 a, I2 b) { return {a[0] - b[0], a[1] - b[1]}; }
static I3 operator-(I3 a, I3 b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static long cr(I2 a, I2 b) { return a[0] * b[1] - a[1] * b[0]; }
static I3 cr(I3 a, I3 b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static long dot(I3 a, I3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static long dot(I2 a, I2 b) { return a[0] * b[0] + a[1] * b[1]; }

// strict hull, counter-clockwise (monotone chain)
static std::vector<I2> hull_ref(std::vector<I2> p) {
  std::sort(p.begin(), p.end());
  p.erase(std::unique(p.begin(), p.end()), p.end());
  if (p.size() < 3) return p;
  std::vector<I2> h;
  for (int pass = 0; pass < 2; pass++) {
    size_t base = h.size();
    for (auto &q: p) {
      while (h.size() >= base + 2 && cr(h[h.size() - 1] - h[h.size() - 2], q - h[h.size() - 2]) <= 0) h.pop_back();
      h.push_back(q);
    }
    h.pop_back();
    std::reverse(p.begin(), p.end());
  }
  return h;
}
static void hull2(mc::Ch &c) {
  int n = 3 + c.choose(c.thorough ? 5 : 4);
  int kind = c.choose(n <= 5 ? 3 : 1);
  // grid: 3x3 up to six points, thorough seven; collinear and stretched alphabets up to five
  static const std::vector<I2> alpha[3] = {
      {{0, 0}, {1, 0}, {2, 0}, {0, 1}, {1, 1}, {2, 1}, {0, 2}, {1, 2}, {2, 2}},
      {{0, 0}, {1, 0}, {2, 0}, {3, 0}, {-1, 2}, {4, 1}, {3, 3}, {0, 3}},
      {{-3, -3}, {-1, -1}, {1, 1}, {3, 3}, {3, -3}, {-3, 3}, {100, 99}, {-100, -101}}};
  std::vector<I2> p;
  auto &a = alpha[kind];
  for (int i = 0; i < n; i++) p.push_back(a[c.choose((int) a.size())]);
  c.commit();
  std::string s;
  for (auto &q: p) s += " " + std::to_string(q[0]) + "," + std::to_string(q[1]);
  c.describe("%s", s.c_str());
  std::vector<I2> want = hull_ref(p);
  if (want.size() < 3) c.skip();
  std::vector<V2> v;
  std::vector<dfm2::CVec2f> vf;
  for (int t = 0; t < 4; t++) {
    const double sc = t < 2 ? 1 : t == 2 ? 1. / 16384 : 1024;
    v.clear();
    vf.clear();
    for (auto &q: p) { v.emplace_back(sc * (double) q[0], sc * (double) q[1]); vf.emplace_back((float) (sc * q[0]), (float) (sc * q[1])); }
    std::vector<U> id{7, 7, 7};
    if (t % 2 == 0) dfm2::ConvexHull2(id, v); else dfm2::ConvexHull2(id, vf);
    if (id.size() > 1 && id.front() == id.back()) id.pop_back();
    std::vector<I2> got;
    for (U i: id) { MC_CHECK(c, i < p.size(), "hull refers to point %u of %zu", i, p.size()); got.push_back(p[i]); }
    MC_CHECK(c, got.size() == want.size(), "the hull has %zu vertices, expected %zu", got.size(), want.size());
    auto it = std::find(got.begin(), got.end(), want[0]);
    if (it != got.end()) std::rotate(got.begin(), it, got.end());
    MC_CHECK(c, got == want, "the hull is not the counter-clockwise polygon of the extreme points");
  }
  c.outcome(mc::Hash() << want.size() << want[0][0] << want[1][0] << want[1][1] << want[2][0] << want[2][1]);
}

// --- 3D hull
static bool extreme(const std::vector<I3> &p, size_t i) {   // is p[i] a vertex of the hull (full-dimensional set)?
  // a vertex lies on three supporting planes with independent normals
  std::vector<I3> nrm;
  for (size_t a = 0; a < p.size(); a++) for (size_t b = 0; b < p.size(); b++) {
    I3 n = cr(p[a] - p[i], p[b] - p[i]);
    if (n == I3{0, 0, 0}) continue;
    bool ok = true;
    for (auto &q: p) if (dot(n, q - p[i]) > 0) { ok = false; break; }
    if (!ok) continue;
    nrm.push_back(n);
  }
  for (auto &a: nrm) for (auto &b: nrm) { I3 x = cr(a, b); if (x == I3{0, 0, 0}) continue; for (auto &d: nrm) if (dot(x, d) != 0) return true; }
  return false;
}
static void check_hull3(mc::Ch &c, const std::vector<I3> &p, const std::vector<U> &tri) {
  MC_CHECK(c, tri.size() % 3 == 0 && tri.size() >= 12, "%zu indices", tri.size());
  std::map<std::pair<U, U>, int> e;
  std::set<U> used;
  for (size_t t = 0; t < tri.size() / 3; t++) {
    I3 q[3];
    for (int k = 0; k < 3; k++) { MC_CHECK(c, tri[3 * t + k] < p.size(), "triangle %zu refers to point %u", t, tri[3 * t + k]); q[k] = p[tri[3 * t + k]]; used.insert(tri[3 * t + k]); e[{tri[3 * t + k], tri[3 * t + (k + 1) % 3]}]++; }
    I3 n = cr(q[1] - q[0], q[2] - q[0]);
    for (size_t i = 0; i < p.size(); i++) MC_CHECK(c, dot(n, p[i] - q[0]) <= 0, "point %zu lies outside triangle %zu of the hull", i, t);
  }
  for (auto &x: e) {
    MC_CHECK(c, x.second == 1, "edge %u-%u is used twice", x.first.first, x.first.second);
    MC_CHECK(c, e.count(std::make_pair(x.first.second, x.first.first)) == 1, "the hull is open at edge %u-%u", x.first.first, x.first.second);
  }
  MC_CHECK(c, used.size() + tri.size() / 3 == e.size() / 2 + 2, "the hull is no sphere: V=%zu F=%zu E=%zu", used.size(), tri.size() / 3, e.size() / 2);
  std::set<I3> up;
  for (U u: used) up.insert(p[u]);
  for (size_t i = 0; i < p.size(); i++) MC_CHECK(c, up.count(p[i]) || !extreme(p, i), "extreme point %zu is missing", i);
  long vol = 0;
  for (size_t t = 0; t < tri.size() / 3; t++) vol += dot(p[tri[3 * t]] - p[0], cr(p[tri[3 * t + 1]] - p[0], p[tri[3 * t + 2]] - p[0]));
  MC_CHECK(c, vol > 0, "the hull encloses volume %ld/6", vol);
}
static void hull3(mc::Ch &c) {
  static const std::vector<std::vector<I3>> start = {
      {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}},
      {{0, 0, 0}, {2, 0, 0}, {0, 2, 0}, {0, 0, 2}},
      {{0, 0, 0}, {1, 1, 0}, {1, 0, 1}, {0, 1, 1}},
      {{1, 1, 1}, {2, 1, 1}, {1, 2, 1}, {1, 1, 2}},
      {{0, 0, 0}, {2, 2, 2}, {2, 0, 1}, {0, 2, 0}}};
  int st = c.choose((int) start.size());
  int sw = c.choose(2);
  std::vector<I3> p = start[st];
  if (sw) std::swap(p[0], p[1]);
  int more = c.choose(c.thorough ? 5 : 4);
  int side = more == 4 ? 2 : 3;
  for (int i = 0; i < more; i++) { int k = c.choose(side * side * side); p.push_back({k % side, k / side % side, k / side / side}); }
  if (side == 2) for (size_t i = 4; i < p.size(); i++) for (auto &x: p[i]) x *= 2;
  c.commit();
  std::string s;
  for (auto &q: p) s += " " + std::to_string(q[0]) + "," + std::to_string(q[1]) + "," + std::to_string(q[2]);
  c.describe("%s", s.c_str());
  std::vector<V3> v;
  for (auto &q: p) v.emplace_back((double) q[0], (double) q[1], (double) q[2]);
  std::vector<U> tri{5, 5};
  dfm2::ConvexHull3(tri, v);
  check_hull3(c, p, tri);
  for (double sc: {1. / 4096, 512.}) {   // in other units: exact, since only the exponents change
    std::vector<V3> w;
    for (auto &q: v) w.push_back(sc * q);
    dfm2::ConvexHull3(tri, w);
    check_hull3(c, p, tri);
  }
  c.outcome(mc::Hash() << tri.size() << st);
}
// more points in general position: long histories of insertions in several orders
static void hull3_long(mc::Ch &c) {
  int n = (c.thorough ? 60 : 24), ord = c.choose(c.thorough ? 60 : 24), shape = c.choose(3);
  c.commit();
  c.describe("shape %d order %d", shape, ord);
  std::vector<I3> base, p;
  for (int i = 0; i < n; i++) {
    long x = (i * 7 + 3) % 31, y = (i * i * 3 + i) % 29, z = (i * 11 + i * i * 5) % 37;
    if (shape == 1) base.push_back({x * 10 - 150, y * 10 - 140, (x - 15) * (x - 15) + (y - 14) * (y - 14)});   // all on a paraboloid
    else if (shape == 2) base.push_back({x % 4, y % 4, z % 4});                                             // lattice, many ties
    else base.push_back({x, y, z});
  }
  for (int i = 0; i < n; i++) p.push_back(base[(i * 1ul * (2 * (ord % 6) + 1) + ord) % n]);
  if (ord % 2) std::reverse(p.begin(), p.end());
  // the first four must span a tetrahedron: move forward the first that do
  for (int k = 0; k < 4; k++)
    for (size_t i = k; i < p.size(); i++) {
      std::swap(p[k], p[i]);
      bool ok = k == 0 || (k == 1 && p[1] != p[0]) || (k == 2 && cr(p[1] - p[0], p[2] - p[0]) != I3{0, 0, 0}) || (k == 3 && dot(cr(p[1] - p[0], p[2] - p[0]), p[3] - p[0]) != 0);
      if (ok) break;
      std::swap(p[k], p[i]);
    }
  std::vector<V3> v;
  for (auto &q: p) v.emplace_back((double) q[0], (double) q[1], (double) q[2]);
  std::vector<U> tri;
  for (double sc: {1., 1. / 8192, 512.}) {
    std::vector<V3> w;
    for (auto &q: v) w.push_back(sc * q);
    dfm2::ConvexHull3(tri, w);
    check_hull3(c, p, tri);
  }
  c.outcome(mc::Hash() << tri.size() << ord << shape);
}

// --- 2D intersection. class: 1 interiors overlap, 0 touch, -1 apart; depth = smallest separating translation
static int classify2(const std::vector<I2> &A, const std::vector<I2> &B, double &depth) {
  std::vector<I2> m;
  for (auto &a: A) for (auto &b: B) m.push_back(a - b);
  auto h = hull_ref(m);
  depth = 1e30;
  int r = 1;
  for (size_t i = 0; i < h.size(); i++) {
    I2 e = h[(i + 1) % h.size()] - h[i];
    long s = cr(e, I2{0, 0} - h[i]);
    if (s < 0) return -1;
    if (s == 0) r = 0;
    depth = std::min(depth, (double) s / std::sqrt((double) dot(e, e)));
  }
  return r;
}
static std::vector<I2> poly2(mc::Ch &c, int kind) {
  // kind 0: every triangle (ordered) on a 3x3 grid from a fixed first corner; kind 1: listed shapes
  static const std::vector<std::vector<I2>> shp = {
      {{0, 0}, {2, 0}, {0, 2}}, {{0, 0}, {4, 0}, {4, 4}, {0, 4}}, {{4, 4}, {0, 0}, {0, 4}, {4, 0}},      // triangle, square, shuffled square
      {{0, 2}, {2, 0}, {4, 2}, {2, 4}}, {{1, 1}, {3, 1}, {2, 3}, {2, 2}}, {{0, 0}, {1, 0}, {4, 1}, {3, 3}, {1, 4}, {2, 2}}, // diamond, inner point, pentagon with inner point
      {{0, 0}, {4, 0}, {2, 0}, {2, 4}}, {{0, 0}, {6, 1}, {6, 0}}};                                        // collinear point, sliver
  if (kind) return shp[c.choose((int) shp.size())];
  std::vector<I2> p{{0, 0}};
  int a = c.choose(9), b = c.choose(9);
  p.push_back({a % 3 * 2, a / 3 * 2});
  p.push_back({b % 3 * 2, b / 3 * 2});
  return p;
}
static void gjk2(mc::Ch &c) {
  std::vector<I2> A = poly2(c, c.choose(2)), B = poly2(c, c.choose(2));
  int flip = c.choose(2);
  if (hull_ref(A).size() < 3 || hull_ref(B).size() < 3) c.skip();
  if (flip) for (auto &q: B) q = {-q[0], -q[1]};
  c.commit();
  std::string s;
  for (auto &q: A) s += " " + std::to_string(q[0]) + "," + std::to_string(q[1]);
  s += " |";
  for (auto &q: B) s += " " + std::to_string(q[0]) + "," + std::to_string(q[1]);
  c.describe("%s", s.c_str());
  const int R = c.thorough ? 9 : 6;
  for (int dx = -R; dx <= R; dx++)
    for (int dy = -R; dy <= R; dy++) {
      if (!c.thorough && (dx + 2 * dy) % 3) continue;
      std::vector<I2> Bt;
      for (auto &q: B) Bt.push_back({q[0] + dx, q[1] + dy});
      double depth;
      int cl = classify2(A, Bt, depth);
      std::vector<V2> a, b;
      for (auto &q: A) a.emplace_back((double) q[0], (double) q[1]);
      for (auto &q: Bt) b.emplace_back((double) q[0], (double) q[1]);
      c.tick();
      bool sat = dfm2::IsIntersect_Points2_Points2_Sat(a, b);
      MC_CHECK(c, cl == 0 || sat == (cl > 0), "separating axes: %s for B moved by %d,%d, exact %d", sat ? "intersect" : "apart", dx, dy, cl);
      c.step(1);
      if (cl == 0) continue;
      bool g = dfm2::IsIntersect_Points2_Points2_Gjk(a, b);
      MC_CHECK(c, g == (cl > 0), "GJK: %s for B moved by %d,%d, exact %d", g ? "intersect" : "apart", dx, dy, cl);
      V2 n(0, 0);
      bool e = dfm2::Penetration_Points2_Points2_Epa(n, a, b, 1e-5);
      MC_CHECK(c, e == (cl > 0), "EPA: %s for B moved by %d,%d, exact %d", e ? "intersect" : "apart", dx, dy, cl);
      if (e) {
        MC_CHECK(c, mc::near(n.norm(), depth, 1e-4), "penetration %g, exact %g (B moved by %d,%d)", n.norm(), depth, dx, dy);
        double lo = 1e30;
        for (auto &x: a) lo = std::min(lo, -(x - b[0]).dot(n));
        double best = -1e30;   // max over A-B of n.(a-b) must not exceed |n|^2 after moving B by n
        for (auto &x: a) for (auto &y: b) best = std::max(best, (x - y - n).dot(n));
        MC_CHECK(c, best <= 1e-3 * (1 + n.norm()), "B moved by the penetration %g,%g still overlaps by %g (B moved by %d,%d)", n[0], n[1], best, dx, dy);
      }
      c.outcome(mc::Hash() << cl << (int) (depth * 1000));
    }
}

// --- 3D intersection
static const U TET[12] = {0, 2, 1, 0, 1, 3, 1, 2, 3, 0, 3, 2};
struct Shape { std::vector<I3> p; std::vector<U> f; };
static Shape shape3(int k) {
  static const std::vector<std::vector<I3>> tets = {
      {{0, 0, 0}, {4, 0, 0}, {0, 4, 0}, {0, 0, 4}}, {{0, 0, 0}, {4, 4, 0}, {4, 0, 4}, {0, 4, 4}}, {{0, 0, 0}, {6, 0, 0}, {1, 1, 0}, {1, 0, 1}},
      {{0, 0, 0}, {2, 5, 1}, {5, 1, 2}, {1, 2, 5}}, {{0, 0, 0}, {6, 6, 6}, {6, 6, 5}, {6, 5, 6}}, {{0, 0, 0}, {4, 0, 0}, {4, 4, 0}, {4, 4, 4}}};
  Shape s;
  if (k < 6) { s.p = tets[k]; if (dot(s.p[1], cr(s.p[2], s.p[3])) < 0) std::swap(s.p[2], s.p[3]); s.f.assign(TET, TET + 12); return s; }
  if (k == 6) {   // cube
    for (int i = 0; i < 8; i++) s.p.push_back({(i & 1) * 4, (i >> 1 & 1) * 4, (i >> 2) * 4});
    s.f = {0, 2, 1, 1, 2, 3, 4, 5, 6, 5, 7, 6, 0, 1, 4, 1, 5, 4, 2, 6, 3, 3, 6, 7, 0, 4, 2, 2, 4, 6, 1, 3, 5, 3, 7, 5};
    return s;
  }
  if (k >= 8) {   // clouds in general position, with points inside the hull
    for (long i = 0; i < (k < 10 ? 9 : k < 13 ? 13 : 20); i++) s.p.push_back({(i * 5 + k * 3 + i * i) % 7, (i * 3 + i * i * 2 + k) % 8, (i * 2 + i * i * i + 2 * k) % 7});
    for (size_t j = 3; j < s.p.size(); j++) if (dot(cr(s.p[1] - s.p[0], s.p[2] - s.p[0]), s.p[j] - s.p[0]) != 0) { std::swap(s.p[3], s.p[j]); break; }
    std::vector<V3> v;
    for (auto &q: s.p) v.emplace_back((double) q[0], (double) q[1], (double) q[2]);
    dfm2::ConvexHull3(s.f, v);
    return s;
  }
  // octahedron
  s.p = {{3, 0, 0}, {-3, 0, 0}, {0, 3, 0}, {0, -3, 0}, {0, 0, 3}, {0, 0, -3}};
  s.f = {0, 2, 4, 2, 1, 4, 1, 3, 4, 3, 0, 4, 2, 0, 5, 1, 2, 5, 3, 1, 5, 0, 3, 5};
  return s;
}
static int classify3(const Shape &A, const Shape &B, double &depth) {
  std::set<I3> ax;
  auto faces = [&](const Shape &s) { for (size_t f = 0; f < s.f.size() / 3; f++) ax.insert(cr(s.p[s.f[3 * f + 1]] - s.p[s.f[3 * f]], s.p[s.f[3 * f + 2]] - s.p[s.f[3 * f]])); };
  faces(A);
  faces(B);
  auto edges = [](const Shape &s) { std::set<I3> e; for (size_t f = 0; f < s.f.size() / 3; f++) for (int k = 0; k < 3; k++) e.insert(s.p[s.f[3 * f + (k + 1) % 3]] - s.p[s.f[3 * f + k]]); return e; };
  auto ea = edges(A), eb = edges(B);
  for (auto &x: ea) for (auto &y: eb) ax.insert(cr(x, y));
  depth = 1e30;
  int r = 1;
  for (auto &n: ax) {
    if (n == I3{0, 0, 0}) continue;
    long hi = LONG_MIN, lo = LONG_MAX;
    for (auto &p: A.p) hi = std::max(hi, dot(n, p));
    for (auto &p: B.p) lo = std::min(lo, dot(n, p));
    long s = hi - lo;    // extent of A-B along n; the faces of A-B are among these axes (both signs occur or are added below)
    long hi2 = LONG_MIN, lo2 = LONG_MAX;
    for (auto &p: B.p) hi2 = std::max(hi2, dot(n, p));
    for (auto &p: A.p) lo2 = std::min(lo2, dot(n, p));
    long s2 = hi2 - lo2;
    s = std::min(s, s2);
    if (s < 0) return -1;
    if (s == 0) r = 0;
    depth = std::min(depth, (double) s / std::sqrt((double) dot(n, n)));
  }
  return r;
}
static void gjk3s(mc::Ch &c) {
  int ka = c.choose(14), kb = c.choose(14), rot = c.choose(6), neg = c.choose(2);
  int ord = c.choose(c.thorough ? 4 : 2);
  c.commit();
  c.describe("A %d B %d rot %d neg %d order %d", ka, kb, rot, neg, ord);
  Shape A = shape3(ka), B = shape3(kb);
  if (ka >= 8) check_hull3(c, A.p, A.f);
  if (kb >= 8) check_hull3(c, B.p, B.f);
  static const int perm[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {2, 1, 0}, {1, 0, 2}};
  for (auto &q: B.p) { I3 o = q; for (int k = 0; k < 3; k++) q[k] = o[perm[rot][k]] * (neg ? -1 : 1); }
  if (ord) {   // another numbering of the points
    auto ren = [&](Shape &s, int r) { int n = (int) s.p.size(); auto o = s.p; for (int i = 0; i < n; i++) s.p[(i * (r == 2 ? n - 1 : 1) + r) % n] = o[i]; for (auto &f: s.f) f = (U) ((f * (r == 2 ? n - 1 : 1) + r) % n); };
    ren(A, ord);
    ren(B, ord);
  }
  const int R = 7, st = c.thorough ? 1 : 2;
  for (int dx = -R; dx <= R; dx += st) for (int dy = -R; dy <= R; dy += st) for (int dz = -R; dz <= R; dz += st) {
    if (!c.thorough && (dx + 3 * dy + 5 * dz) % 3) continue;
    Shape Bt = B;
    for (auto &q: Bt.p) { q[0] += dx; q[1] += dy; q[2] += dz; }
    double depth;
    int cl = classify3(A, Bt, depth);
    if (cl == 0) continue;
    std::vector<V3> a, b;
    for (auto &q: A.p) a.emplace_back((double) q[0], (double) q[1], (double) q[2]);
    for (auto &q: Bt.p) b.emplace_back((double) q[0], (double) q[1], (double) q[2]);
    c.tick();
    c.step(1);
    bool sat = dfm2::IsIntersect_Points3_Points3_Sat(a, A.f, b, Bt.f);
    MC_CHECK(c, sat == (cl > 0), "separating axes: %s for B moved by %d,%d,%d, exact %d", sat ? "intersect" : "apart", dx, dy, dz, cl);
    bool g = dfm2::IsIntersect_Points3_Points3_Gjk(a, b);
    MC_CHECK(c, g == (cl > 0), "GJK: %s for B moved by %d,%d,%d, exact %d depth %g", g ? "intersect" : "apart", dx, dy, dz, cl, depth);
    V3 n(0, 0, 0);
    bool e = dfm2::Penetration_Points3_Points3_Epa(n, a, b, 1e-5);
    MC_CHECK(c, e == (cl > 0), "EPA: %s for B moved by %d,%d,%d, exact %d", e ? "intersect" : "apart", dx, dy, dz, cl);
    if (e) {
      MC_CHECK(c, mc::near(n.norm(), depth, 1e-4), "penetration %g, exact %g (B moved by %d,%d,%d)", n.norm(), depth, dx, dy, dz);
      double best = -1e30;
      for (auto &x: a) for (auto &y: b) best = std::max(best, (x - y - n).dot(n));
      MC_CHECK(c, best <= 1e-3 * (1 + n.norm()), "B moved by the penetration still overlaps by %g (B moved by %d,%d,%d)", best, dx, dy, dz);
    }
    c.outcome(mc::Hash() << cl << (int) (depth * 1000));
  }
}
int main(int argc, char **argv) {
  return mc::run(argc, argv, {"C10", "exploration", {"2D point sets are not all collinear; the first four points of a 3D hull span a tetrahedron (the function starts from them)", "clouds that exactly touch are not judged by GJK (rounding decides); degenerate (flat) clouds are not judged", "penetration depth is compared to 1e-4"}},
                 {{"hull2", hull2, "all lists of 3 to 6 (thorough 7) points from a 3x3 grid with duplicates, 3 to 5 from two collinear-heavy alphabets; double and float"},
                  {"hull3", hull3, "5 start tetrahedra, both orientations, followed by all lists of up to 3 points of a 3x3x3 lattice (thorough: 4 corners of it)"},
                  {"hull3long", hull3_long, "24 (thorough 60) points in general, paraboloid and lattice position, in 24 (60) insertion orders"},
                  {"gjk2", gjk2, "all pairs of triangles on a 3x3 grid and 8 listed shapes, both signs, shifted over a grid of offsets"},
                  {"gjk3", gjk3s, "all pairs of 8 polyhedra and 6 point clouds in all axis permutations and signs, shifted over a grid of offsets, in several numberings"}});
}
