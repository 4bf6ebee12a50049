// C08: bounding-volume hierarchies answer every query like a full scan.
#include "mc.h"
#include <iostream>
#include <memory>
#include <set>
#include <map>
#include "delfem2/srch_bvh.h"
#include "delfem2/srch_bv3_aabb.h"
#include "delfem2/srch_bv3_sphere.h"
#include "delfem2/srch_bv2_aabb.h"
#include "delfem2/srch_bruteforce.h"
#include "delfem2/srch_trimesh3_class.h"
namespace dfm2 = delfem2;
using U = unsigned int;
using VU = std::vector<U>;
using VD = std::vector<double>;
using Nodes = std::vector<dfm2::CNodeBVH2>;
using Sph = dfm2::CBV3_Sphere<double>;
using Box = dfm2::CBV3_AABB<double>;

// ---------- geometry of our own
struct P3 { double x, y, z; };
static P3 operator-(P3 a, P3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static P3 operator+(P3 a, P3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static P3 operator*(double s, P3 a) { return {s * a.x, s * a.y, s * a.z}; }
static double dot(P3 a, P3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static P3 cross(P3 a, P3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static double len(P3 a) { return std::sqrt(dot(a, a)); }
static double seg_dist(P3 p, P3 a, P3 b) {
  P3 d = b - a;
  double dd = dot(d, d), t = dd > 0 ? dot(p - a, d) / dd : 0;
  t = std::min(1., std::max(0., t));
  return len(p - (a + t * d));
}
static double tri_dist(P3 p, P3 a, P3 b, P3 c) {
  double m = std::min(seg_dist(p, a, b), std::min(seg_dist(p, b, c), seg_dist(p, c, a)));
  P3 n = cross(b - a, c - a);
  double nn = dot(n, n);
  if (nn < 1e-20) return m;
  double h = dot(p - a, n) / nn;
  P3 q = p - h * n;
  if (dot(cross(b - a, q - a), n) >= 0 && dot(cross(c - b, q - b), n) >= 0 && dot(cross(a - c, q - c), n) >= 0) m = std::min(m, std::fabs(h) * std::sqrt(nn));
  return m;
}

// ---------- structure
static void check_tree(mc::Ch &c, const Nodes &n, U root, size_t nobj, const char *what) {
  MC_CHECK(c, n.size() == 2 * nobj - 1, "%s: %zu nodes for %zu elements", what, n.size(), nobj);
  MC_CHECK(c, root < n.size() && n[root].iparent == UINT_MAX, "%s: the root has a parent", what);
  std::vector<int> seen(n.size(), 0), leaf(nobj, 0);
  std::vector<U> st{root};
  while (!st.empty()) {
    U i = st.back();
    st.pop_back();
    MC_CHECK(c, i < n.size() && !seen[i]++, "%s: node %u is reached twice or does not exist", what, i);
    if (n[i].ichild[1] == UINT_MAX) {
      MC_CHECK(c, n[i].ichild[0] < nobj && !leaf[n[i].ichild[0]]++, "%s: element %u is stored twice or does not exist", what, n[i].ichild[0]);
      continue;
    }
    for (U k: n[i].ichild) {
      MC_CHECK(c, k < n.size() && n[k].iparent == i, "%s: child %u of node %u does not know its parent", what, k, i);
      st.push_back(k);
    }
  }
  for (size_t i = 0; i < nobj; i++) MC_CHECK(c, leaf[i] == 1, "%s: element %zu is in no leaf", what, i);
}
static VU leaves(const Nodes &n, U i) {
  if (n[i].ichild[1] == UINT_MAX) return {n[i].ichild[0]};
  VU a = leaves(n, n[i].ichild[0]), b = leaves(n, n[i].ichild[1]);
  a.insert(a.end(), b.begin(), b.end());
  return a;
}
static bool encloses(const Sph &b, P3 p, double tol) { return b.r >= 0 && len(p - P3{b.c[0], b.c[1], b.c[2]}) <= b.r + tol; }
static bool encloses(const Box &b, P3 p, double tol) {
  const double q[3] = {p.x, p.y, p.z};
  for (int i = 0; i < 3; i++) if (q[i] < b.bbmin[i] - tol || q[i] > b.bbmax[i] + tol) return false;
  return b.bbmin[0] <= b.bbmax[0];
}
static bool encl_bv(const Sph &a, const Sph &b) { return len(P3{a.c[0] - b.c[0], a.c[1] - b.c[1], a.c[2] - b.c[2]}) + b.r <= a.r + 1e-9; }
static bool encl_bv(const Box &a, const Box &b) {
  for (int i = 0; i < 3; i++) if (b.bbmin[i] < a.bbmin[i] - 1e-9 || b.bbmax[i] > a.bbmax[i] + 1e-9) return false;
  return true;
}
// every volume encloses the points of its elements and its children; leaves are tight
template<class BV> void check_volumes(mc::Ch &c, const Nodes &n, const std::vector<BV> &bv, const std::vector<std::vector<P3>> &elem, double margin, const char *what) {
  MC_CHECK(c, bv.size() == n.size(), "%s: %zu volumes for %zu nodes", what, bv.size(), n.size());
  for (U i = 0; i < n.size(); i++) {
    for (U e: leaves(n, i)) for (auto p: elem[e]) MC_CHECK(c, encloses(bv[i], p, 1e-9), "%s: the volume of node %u leaves out a point of element %u", what, i, e);
    if (n[i].ichild[1] != UINT_MAX) for (U k: n[i].ichild) MC_CHECK(c, encl_bv(bv[i], bv[k]), "%s: the volume of node %u does not enclose the one of its child %u", what, i, k);
    (void) margin;
  }
}
// ---------- queries: the hierarchy must return what the same predicate finds over all leaves
template<class BV, class PRED> void check_pred(mc::Ch &c, const Nodes &n, U root, const std::vector<BV> &bv, size_t nobj, PRED pred, bool (*clear)(const BV &, const double *, const double *), const double *a, const double *b, const char *what) {
  VU got;
  dfm2::BVH_GetIndElem_Predicate(got, pred, root, n, bv);
  c.step();
  std::vector<int> hit(nobj, 0);
  for (U e: got) {
    MC_CHECK(c, e < nobj, "%s returned element %u, which does not exist", what, e);
    MC_CHECK(c, !hit[e]++, "%s returned element %u twice", what, e);
  }
  for (U i = 0; i < n.size(); i++) {
    if (n[i].ichild[1] != UINT_MAX) continue;
    if (clear && !clear(bv[i], a, b)) continue;  // decided by rounding
    bool t = pred.IsTrue(i, bv);
    MC_CHECK(c, t == (hit[n[i].ichild[0]] == 1), "%s: element %u is %s, a scan over all elements says %s", what, n[i].ichild[0], hit[n[i].ichild[0]] ? "returned" : "missing", t ? "hit" : "no hit");
  }
}
// exact meaning of the leaf predicates for spheres, away from tangency
static bool clear_point(const Sph &s, const double *p, const double *) { return std::fabs(len(P3{p[0] - s.c[0], p[1] - s.c[1], p[2] - s.c[2]}) - s.r) > 1e-7; }
static double line_dist(const Sph &s, const double *o, const double *d, bool ray) {
  P3 u{s.c[0] - o[0], s.c[1] - o[1], s.c[2] - o[2]}, v{d[0], d[1], d[2]};
  double t = dot(u, v) / dot(v, v);
  if (ray && t < 0) t = 0;
  return len(u - t * v);
}
static bool clear_line(const Sph &s, const double *o, const double *d) { return std::fabs(line_dist(s, o, d, false) - s.r) > 1e-7; }
static bool clear_ray(const Sph &s, const double *o, const double *d) { return std::fabs(line_dist(s, o, d, true) - s.r) > 1e-7; }

static const double DIRS[][3] = {{1, 0, 0}, {0, -1, 0}, {0, 0, 2}, {1, 1, 0}, {1, -1, 0}, {-1, 0, 1}, {1, 1, 1}, {-1, 1, -1}, {2, 1, 0}, {1, -2, 3}};

static void point_queries(mc::Ch &c, const Nodes &n, U root, const std::vector<Sph> &bv, const std::vector<Box> &bx, const std::vector<P3> &pts, bool are_points) {
  size_t N = are_points ? pts.size() : (n.size() + 1) / 2;
  for (double x = -1; x <= 3; x += 1.25) for (double y = -0.5; y <= 2.5; y += 1.5) for (double z = -1; z <= 2; z += 1) {
    const double p[3] = {x, y, z};
    check_pred(c, n, root, bv, N, dfm2::CIsBV_IncludePoint<Sph>(p), clear_point, p, p, "sphere point query");
    check_pred(c, n, root, bx, N, dfm2::CIsBV_IncludePoint<Box>(p), (bool (*)(const Box &, const double *, const double *)) nullptr, p, p, "box point query");
    for (double mx: {0.6, 1.7}) for (double mn: {0., 1.1}) {
      if (mn > mx) continue;
      bool cl = true;
      for (auto &b: bv) { double L = len(P3{p[0] - b.c[0], p[1] - b.c[1], p[2] - b.c[2]}); for (double q: {L - b.r, L + b.r}) for (double m: {mn, mx}) if (std::fabs(q - m) < 1e-7) cl = false; }
      if (cl) check_pred(c, n, root, bv, N, dfm2::CIsBV_InsideRange<Sph>(p, mn, mx), (bool (*)(const Sph &, const double *, const double *)) nullptr, p, p, "range query");
    }
    if (are_points) {
      double best = 1e30, q[3] = {x, y, z};
      for (auto &v: pts) best = std::min(best, len(v - P3{x, y, z}));
      U ip = UINT_MAX;
      double d = -1;
      dfm2::BVH_IndPoint_NearestPoint(ip, d, q, root, n, bv);
      c.step();
      MC_CHECK(c, ip < N && std::fabs(d - best) < 1e-9 && std::fabs(len(pts[ip] - P3{x, y, z}) - best) < 1e-9, "nearest point of (%g,%g,%g): index %u at %g, a scan finds distance %g", x, y, z, ip, d, best);
      double mn = 1, mx = -1;
      dfm2::BVH_Range_DistToNearestPoint(mn, mx, q, root, n, bv);
      MC_CHECK(c, std::fabs(mn - best) < 1e-9 && std::fabs(mx - best) < 1e-9, "distance range to the nearest point of (%g,%g,%g) is [%g,%g], a scan finds %g", x, y, z, mn, mx, best);
    }
  }
  for (auto &d: DIRS) for (double oz: {-2.0, 0.3}) for (double ox: {0.0, 1.4}) {
    const double o[3] = {ox, 0.45, oz};
    check_pred(c, n, root, bv, N, dfm2::CIsBV_IntersectLine<Sph, double>(o, d), clear_line, o, d, "line query");
    check_pred(c, n, root, bv, N, dfm2::CIsBV_IntersectRay<Sph>(o, d), clear_ray, o, d, "ray query");
    for (U i = 0; i < n.size(); i++) {
      if (clear_line(bv[i], o, d)) MC_CHECK(c, bv[i].IsIntersectLine(o, d) == (line_dist(bv[i], o, d, false) < bv[i].r), "sphere/line test is wrong");
      if (clear_ray(bv[i], o, d)) MC_CHECK(c, bv[i].IsIntersectRay(o, d) == (line_dist(bv[i], o, d, true) < bv[i].r), "sphere/ray test is wrong");
    }
  }
}

// ---------- Morton codes
static uint32_t ref_code(unsigned x, unsigned y, unsigned z) {
  uint32_t r = 0;
  for (int b = 0; b < 10; b++) r |= ((x >> b & 1) << (3 * b + 2)) | ((y >> b & 1) << (3 * b + 1)) | ((z >> b & 1) << (3 * b));
  return r;
}
static void body_code(mc::Ch &c) {
  int which = c.choose(2);
  int a = c.choose(1024);
  c.commit();
  if (which == 0) {  // leading zeros
    for (int s = 0; s < 23; s++) {
      uint32_t v = (uint32_t) a << s;
      U r = 0;
      for (int b = 31; b >= 0 && !(v >> b & 1); b--) r++;
      MC_CHECK(c, dfm2::nbits_leading_zero(v) == r, "%u leading zeros in %x, not %u", r, v, dfm2::nbits_leading_zero(v));
    }
  } else {
    double u = a / 1024.0;
    MC_CHECK(c, dfm2::MortonCode(u, 0.0, 0.0) == ref_code(a, 0, 0) && dfm2::MortonCode(0.0, u, 0.0) == ref_code(0, a, 0) && dfm2::MortonCode(0.0, 0.0, u) == ref_code(0, 0, a), "morton code of coordinate %d/1024 does not interleave its bits", a);
    for (unsigned b: {0u, 1u, 513u, 1023u}) MC_CHECK(c, dfm2::MortonCode(u, b / 1024.0, 1 - u) == ref_code(a, b, std::min(1023, 1024 - a)), "morton code of (%d,%u,1-u)", a, b);
    MC_CHECK(c, dfm2::MortonCode(1.0 + u, -0.5, 2.0) == ref_code(1023, 0, 1023), "morton code is not clamped");
    MC_CHECK(c, dfm2::MortonCode((float) u, 0.f, 0.f) == ref_code(a, 0, 0), "float morton code");
  }
  c.outcome((uint64_t) which * 1024 + a);
}
static void body_sorted(mc::Ch &c) {  // every sorted code sequence
  static const std::vector<uint32_t> A = {0, 1, 2, 3, 4, 7, 8, 12, 0x20000000u, 0x3fffffffu};
  int n = 1 + c.choose(c.thorough ? 8 : 7);
  std::vector<uint32_t> mc_;
  int cur = 0;
  for (int i = 0; i < n; i++) {
    cur += c.choose((int) A.size() - cur);
    mc_.push_back(A[cur]);
  }
  int ids = c.choose(2);
  c.commit();
  c.describe("codes %s", mc::str(mc_).c_str());
  VU obj(n);
  for (int i = 0; i < n; i++) obj[i] = ids ? (i * 2 + 1) % n + 0 : i;
  if (ids) { std::vector<int> u(n, 0); U f = 0; for (auto &o: obj) { while (u[o]) o = (o + 1) % n; u[o] = 1; (void) f; } }
  Nodes nodes(ids ? 3 : 0, dfm2::CNodeBVH2{7, {UINT_MAX, UINT_MAX}});  // used before
  dfm2::BVHTopology_Morton(nodes, obj, mc_);
  check_tree(c, nodes, 0, n, "Morton tree");
  for (int i = 0; i + 1 < n; i++) {
    auto r = dfm2::MortonCode_DeterminRange(mc_.data(), n, i);
    VU l = leaves(nodes, i);
    MC_CHECK(c, l.size() == r.second - r.first + 1, "node %d holds %zu elements, its range is %u to %u", i, l.size(), r.first, r.second);
    // both halves of the range share a longer prefix than the whole
    U s = dfm2::MortonCode_FindSplit(mc_.data(), r.first, r.second);
    MC_CHECK(c, r.first <= s && s < r.second, "split %u outside range %u to %u", s, r.first, r.second);
    U common = dfm2::nbits_leading_zero(mc_[r.first] ^ mc_[r.second]);
    if (common < 32) MC_CHECK(c, dfm2::nbits_leading_zero(mc_[r.first] ^ mc_[s]) > common && dfm2::nbits_leading_zero(mc_[s + 1] ^ mc_[r.second]) > common, "range %u to %u is not split at its highest differing bit", r.first, r.second);
  }
  dfm2::Check_MortonCode_RangeSplit(mc_);
  dfm2::Check_BVH(nodes, n);
  mc::Hash h;
  for (auto &x: nodes) h << x.iparent;
  c.outcome(h);
}
// ---------- points
static void points_case(mc::Ch &c, const std::vector<std::vector<P3>> &frames) {
  Nodes nodes;
  std::vector<Sph> bs;
  std::vector<Box> bb;
  bool first = true;
  for (auto &P: frames) {
    VD xyz;
    double mn[3] = {1e9, 1e9, 1e9}, mx[3] = {-1e9, -1e9, -1e9};
    std::vector<std::vector<P3>> el;
    for (auto &p: P) {
      const double q[3] = {p.x, p.y, p.z};
      el.push_back({p});
      for (int k = 0; k < 3; k++) { xyz.push_back(q[k]); mn[k] = std::min(mn[k], q[k]); mx[k] = std::max(mx[k], q[k]); }
    }
    if (first) {
      VU id;
      std::vector<uint32_t> code;
      dfm2::SortedMortenCode_Points3(id, code, xyz, mn, mx);
      MC_CHECK(c, id.size() == P.size() && std::is_sorted(code.begin(), code.end()), "morton codes are not sorted");
      for (size_t i = 0; i < id.size(); i++) for (size_t j = 0; j < i; j++) MC_CHECK(c, id[i] != id[j], "an element is listed twice");
      dfm2::BVHTopology_Morton(nodes, id, code);
      check_tree(c, nodes, 0, P.size(), "Morton tree of points");
    }
    first = false;
    dfm2::CLeafVolumeMaker_Point<Sph, double> ls(xyz.data(), P.size());
    dfm2::CLeafVolumeMaker_Point<Box, double> lb(xyz.data(), P.size());
    dfm2::BVH_BuildBVHGeometry(bs, 0, nodes, ls);
    dfm2::BVH_BuildBVHGeometry(bb, 0, nodes, lb);
    check_volumes(c, nodes, bs, el, 0, "spheres over points");
    check_volumes(c, nodes, bb, el, 0, "boxes over points");
    for (U i = 0; i < nodes.size(); i++) {  // boxes are the tight bounding boxes
      double a[3] = {1e9, 1e9, 1e9}, b[3] = {-1e9, -1e9, -1e9};
      for (U e: leaves(nodes, i)) for (int k = 0; k < 3; k++) { a[k] = std::min(a[k], xyz[e * 3 + k]); b[k] = std::max(b[k], xyz[e * 3 + k]); }
      for (int k = 0; k < 3; k++) MC_CHECK(c, bb[i].bbmin[k] == a[k] && bb[i].bbmax[k] == b[k], "box of node %u is not the bounding box of its points", i);
    }
    point_queries(c, nodes, 0, bs, bb, P, true);
  }
}
static void body_points(mc::Ch &c) {
  int n = 1 + c.choose(4);
  std::vector<P3> P;
  std::vector<int> id;
  for (int i = 0; i < n; i++) {
    int k = n == 4 ? c.choose(c.thorough ? 18 : 12) : c.choose(18);
    if (i && k < id.back()) c.skip();
    id.push_back(k);
    P.push_back({double(k % 3), double(k / 3 % 2), double(k / 6)});
  }
  int mv = c.choose(3);
  c.commit();
  std::vector<std::vector<P3>> fr{P};
  std::vector<P3> Q = P;
  for (int i = 0; i < n; i++) {
    if (mv == 0) Q[i] = P[n - 1 - i];
    if (mv == 1) Q[i] = 0.5 * P[i] + P3{0.25, 0, 0.5};
    if (mv == 2) Q[i] = P[0];
  }
  fr.push_back(Q);
  c.describe("%d points, codes %s, moved %d", n, mc::str(id).c_str(), mv);
  points_case(c, fr);
  c.outcome((uint64_t) mc::fnv(id.data(), id.size() * 4));
}
static void body_cloud(mc::Ch &c) {  // bigger structured clouds
  int n = 5 + c.choose(c.thorough ? 28 : 12), kind = c.choose(7), mv = c.choose(3);
  c.commit();
  c.describe("cloud of %d points, kind %d, move %d", n, kind, mv);
  std::vector<P3> P(n), Q(n);
  for (int i = 0; i < n; i++) {
    double t = i;
    switch (kind) {
      case 0: P[i] = {t * 0.25, 0, 0}; break;
      case 1: P[i] = {0.3 * (i % 3), 0.3 * (i / 3), 0.3 * (i % 2)}; break;
      case 2: P[i] = {1, 1, 1}; break;
      case 3: P[i] = {double(i % 2), 0, 1}; break;
      case 4: P[i] = {std::fmod(t * 0.37, 2.0), std::fmod(t * 0.71, 2.0), std::fmod(t * 0.53, 2.0)}; break;
      case 5: P[i] = {t * 0.1, 2 - t * 0.1, 0.5}; break;
      default: P[i] = {i < n / 2 ? 0.0 : 1e-5 * t, 0, i < n / 3 ? 0. : 2.}; break;
    }
  }
  for (int i = 0; i < n; i++) Q[i] = mv == 0 ? P[(i * 5 + 1) % n] : mv == 1 ? P3{-P[i].y, P[i].x, 1 - P[i].z} : 0.1 * P[i];
  points_case(c, {P, Q, P});
  c.outcome((uint64_t) (n * 100 + kind * 10 + mv));
}
// ---------- meshes
struct Msh { VD xyz; VU tri; };
static P3 vtx(const Msh &m, U i) { return {m.xyz[i * 3], m.xyz[i * 3 + 1], m.xyz[i * 3 + 2]}; }
static std::vector<std::vector<P3>> elems(const Msh &m) {
  std::vector<std::vector<P3>> r;
  for (size_t t = 0; t < m.tri.size() / 3; t++) r.push_back({vtx(m, m.tri[t * 3]), vtx(m, m.tri[t * 3 + 1]), vtx(m, m.tri[t * 3 + 2])});
  return r;
}
static double pes_dist(mc::Ch &c, const Msh &m, const dfm2::PointOnSurfaceMesh<double> &pes, P3 p, const char *what) {
  MC_CHECK(c, pes.itri < m.tri.size() / 3 && pes.r0 > -1e-9 && pes.r1 > -1e-9 && pes.r0 + pes.r1 < 1 + 1e-9, "%s: not a point of the mesh (triangle %u, %g, %g)", what, pes.itri, pes.r0, pes.r1);
  auto e = elems(m)[pes.itri];
  P3 q = pes.r0 * e[0] + pes.r1 * e[1] + (1 - pes.r0 - pes.r1) * e[2];
  return len(q - p);
}
// first hit of the ray; sets `clear` to false when rounding may decide
static double ray_hit(const Msh &m, P3 o, P3 d, bool &clear, std::vector<int> *which = nullptr) {
  double best = -1;
  clear = true;
  auto E = elems(m);
  for (size_t t = 0; t < E.size(); t++) {
    P3 n = cross(E[t][1] - E[t][0], E[t][2] - E[t][0]);
    double nn = len(n);
    if (nn < 1e-12) { clear = clear && false; continue; }
    double dn = dot(n, d) / nn / len(d);
    double h = dot(E[t][0] - o, n) / nn;
    if (std::fabs(dn) < 1e-6) { if (std::fabs(h) < 1e-6) clear = false; continue; }
    double s = dot(E[t][0] - o, n) / dot(n, d);
    P3 q = o + s * d;
    double a0 = dot(cross(E[t][1] - q, E[t][2] - q), n) / nn / nn, a1 = dot(cross(E[t][2] - q, E[t][0] - q), n) / nn / nn, a2 = 1 - a0 - a1;
    double mn = std::min(a0, std::min(a1, a2));
    if (std::fabs(mn) < 1e-6) clear = false;
    if (mn < 0) continue;
    if (std::fabs(s) < 1e-6) clear = false;
    if (s < 0) continue;
    if (best < 0 || s < best) best = s;
    if (which) which->push_back((int) t);
  }
  return best;
}
template<class BV> void mesh_ray(mc::Ch &c, const Msh &m, const Nodes &n, const std::vector<BV> &bv) {
  for (auto &dd: DIRS) for (P3 o: {P3{0.31, 0.42, 2.9}, P3{0.27, 0.61, 0.53}, P3{-1.1, 0.37, 0.21}, P3{2.2, -0.4, 0.6}}) {
    P3 d{dd[0] + 0.013, dd[1] - 0.0071, dd[2] + 0.0039};
    bool clear;
    double s = ray_hit(m, o, d, clear);
    if (!clear) continue;
    dfm2::PointOnSurfaceMesh<double> pes;
    bool hit = dfm2::Intersection_Ray3_Tri3_Bvh(pes, dfm2::CVec3d(o.x, o.y, o.z), dfm2::CVec3d(d.x, d.y, d.z), m.xyz, m.tri, n, bv);
    c.step();
    MC_CHECK(c, hit == (s >= 0), "ray from (%g,%g,%g) along (%g,%g,%g): hierarchy says %s, a scan says %s", o.x, o.y, o.z, d.x, d.y, d.z, hit ? "hit" : "no hit", s >= 0 ? "hit" : "no hit");
    if (hit) MC_CHECK(c, pes_dist(c, m, pes, o + s * d, "ray hit") < 1e-7, "ray from (%g,%g,%g): not the first hit", o.x, o.y, o.z);
  }
}
template<class BV> void mesh_nearest(mc::Ch &c, const Msh &m, const dfm2::CBVH_MeshTri3D<BV, double> &b, double margin) {
  auto E = elems(m);
  for (double x: {-1.0, 0.0, 0.4, 1.0, 2.3}) for (double y: {0.0, 0.7, 3.0}) for (double z: {-0.8, 0.0, 0.45}) {
    P3 p{x, y, z};
    double best = 1e30;
    for (auto &e: E) best = std::min(best, tri_dist(p, e[0], e[1], e[2]));
    auto pes = b.NearestPoint_Global(dfm2::CVec3d(x, y, z), m.xyz, m.tri);
    c.step();
    double d = pes_dist(c, m, pes, p, "nearest point");
    MC_CHECK(c, std::fabs(d - best) < 1e-8, "nearest point of the mesh to (%g,%g,%g): hierarchy %.9g, scan %.9g", x, y, z, d, best);
    auto pb = dfm2::Nearest_Point_MeshTri3D(dfm2::CVec3d(x, y, z), m.xyz, m.tri);
    MC_CHECK(c, std::fabs(pes_dist(c, m, pb, p, "exhaustive nearest point") - best) < 1e-8, "exhaustive nearest point of (%g,%g,%g) is wrong", x, y, z);
    for (double rad: {0.0, 0.7, 50.0}) {
      dfm2::PointOnSurfaceMesh<double> q;
      q.itri = 12345;
      double r = b.Nearest_Point_IncludedInBVH(q, dfm2::CVec3d(x, y, z), rad, m.xyz.data(), m.xyz.size() / 3, m.tri.data(), m.tri.size() / 3);
      c.step();
      double dt = -1, db = rad;
      bool clear = true;
      for (U i = 0; i < b.aNodeBVH.size(); i++) {
        if (b.aNodeBVH[i].ichild[1] != UINT_MAX) continue;
        double mn = 0, mx = 0;
        b.aBB_BVH[i].Range_DistToPoint(mn, mx, x, y, z);
        if ((mn > 0 && mn < 1e-7) || std::fabs(mn - rad) < 1e-9) clear = mn == rad && clear;
        double L = len(p - P3{b.aBB_BVH[i].c[0], b.aBB_BVH[i].c[1], b.aBB_BVH[i].c[2]}) - b.aBB_BVH[i].r;
        if (std::fabs(L) < 1e-7) clear = false;
        if (mn > rad) continue;
        db = std::min(db, mn);
        auto &e = E[b.aNodeBVH[i].ichild[0]];
        if (mn == 0) { double t = tri_dist(p, e[0], e[1], e[2]); if (dt < 0 || t < dt) dt = t; }
      }
      if (!clear) continue;
      if (dt >= 0) {
        MC_CHECK(c, q.itri < E.size() && std::fabs(r - dt) < 1e-8, "point (%g,%g,%g) lies in a leaf volume, triangle distance %g, got %g", x, y, z, dt, r);
        MC_CHECK(c, std::fabs(pes_dist(c, m, q, p, "included nearest") - dt) < 1e-8, "the returned mesh point is not at the returned distance");
      } else MC_CHECK(c, q.itri == UINT_MAX && std::fabs(r - db) < 1e-8, "point (%g,%g,%g) is in no leaf volume (nearest one at %g within %g), got triangle %u distance %g", x, y, z, db, rad, q.itri, r);
    }
  }
  (void) margin;
}
static void mesh_case(mc::Ch &c, Msh m, int mv, double margin) {
  size_t nt = m.tri.size() / 3;
  Nodes na, nb;
  std::vector<Sph> sa, sb;
  std::vector<Box> xa;
  dfm2::ConstructBVHTriangleMeshMortonCode(na, sa, m.xyz, m.tri);
  check_tree(c, na, 0, nt, "Morton tree of a mesh");
  check_volumes(c, na, sa, elems(m), 0, "Morton spheres");
  dfm2::BuildBVH_MeshTri3D_Morton(nb, sb, m.xyz, m.tri);
  check_tree(c, nb, 0, nt, "Morton tree of a mesh (2)");
  check_volumes(c, nb, sb, elems(m), 0, "Morton spheres (2)");
  Nodes nx;
  dfm2::BuildBVH_MeshTri3D_Morton(nx, xa, m.xyz, m.tri);
  check_volumes(c, nx, xa, elems(m), 0, "Morton boxes");
  mesh_ray(c, m, na, sa);
  mesh_ray(c, m, nb, sb);
  dfm2::CBVH_MeshTri3D<Sph, double> t;
  dfm2::CBVH_MeshTri3D<Box, double> tb;
  t.Init(m.xyz.data(), m.xyz.size() / 3, m.tri.data(), nt, margin);
  tb.Init(m.xyz.data(), m.xyz.size() / 3, m.tri.data(), nt, margin);
  check_tree(c, t.aNodeBVH, t.iroot_bvh, nt, "top-down tree");
  for (int f = 0; f < 2; f++) {
    if (f == 1) {
      Msh k = m;
      for (size_t i = 0; i < m.xyz.size() / 3; i++) {
        P3 p = vtx(m, (U) i), q = mv == 0 ? P3{p.y + 0.2, -p.x, 0.5 * p.z} : mv == 1 ? 0.3 * p : P3{p.x + (i % 2) * 0.4, p.y, p.z - 0.3 * (i % 3)};
        k.xyz[i * 3] = q.x, k.xyz[i * 3 + 1] = q.y, k.xyz[i * 3 + 2] = q.z;
      }
      m = k;
      t.UpdateGeometry(m.xyz.data(), m.xyz.size() / 3, m.tri.data(), nt, margin);
      tb.UpdateGeometry(m.xyz.data(), m.xyz.size() / 3, m.tri.data(), nt, margin);
    }
    check_volumes(c, t.aNodeBVH, t.aBB_BVH, elems(m), margin, "top-down spheres");
    check_volumes(c, tb.aNodeBVH, tb.aBB_BVH, elems(m), margin, "top-down boxes");
    for (U i = 0; i < tb.aNodeBVH.size(); i++) {  // boxes are exactly the bounding boxes grown by the margin
      double a[3] = {1e9, 1e9, 1e9}, b[3] = {-1e9, -1e9, -1e9};
      for (U e: leaves(tb.aNodeBVH, i)) for (int q = 0; q < 3; q++) for (int k = 0; k < 3; k++) { double v = m.xyz[m.tri[e * 3 + q] * 3 + k]; a[k] = std::min(a[k], v); b[k] = std::max(b[k], v); }
      for (int k = 0; k < 3; k++) MC_CHECK(c, std::fabs(tb.aBB_BVH[i].bbmin[k] - (a[k] - margin)) < 1e-12 && std::fabs(tb.aBB_BVH[i].bbmax[k] - (b[k] + margin)) < 1e-12, "box of node %u is not the bounding box grown by the margin", i);
    }
    mesh_ray(c, m, t.aNodeBVH, t.aBB_BVH);
    mesh_nearest(c, m, t, margin);
    if (nt > 3 || f == 0) point_queries(c, t.aNodeBVH, t.iroot_bvh, t.aBB_BVH, tb.aBB_BVH, {}, false);
  }
}
static const int T56[56][3] = {};
static std::array<U, 3> triple(int k) {
  for (U a = 0; a < 8; a++) for (U b = a + 1; b < 8; b++) for (U d = b + 1; d < 8; d++) if (k-- == 0) return {a, b, d};
  return {};
}
static void body_tris(mc::Ch &c) {
  int n = 1 + c.choose(3);
  VU tri;
  static const int rep[3] = {0, 3, 10};
  for (int i = 0; i < n; i++) {
    int k = i == 0 ? (n == 1 ? c.choose(56) : rep[c.choose(3)]) : c.choose(56);
    auto t = triple(k);
    tri.insert(tri.end(), t.begin(), t.end());
  }
  int mv = n == 3 ? c.choose(1) : c.choose(2);
  c.commit();
  c.describe("triangles %s of the unit cube, move %d", mc::str(tri).c_str(), mv);
  Msh m;
  for (U i = 0; i < 8; i++) { m.xyz.push_back(i & 1); m.xyz.push_back(i >> 1 & 1); m.xyz.push_back(i >> 2); }
  m.tri = tri;
  mesh_case(c, m, mv, mv ? 0.0 : 0.125);
  c.outcome((uint64_t) mc::fnv(tri.data(), tri.size() * 4));
  (void) T56;
}
static Msh family(int kind, int n) {
  Msh m;
  auto V = [&](double x, double y, double z) { m.xyz.insert(m.xyz.end(), {x, y, z}); return U(m.xyz.size() / 3 - 1); };
  auto T = [&](U a, U b, U d) { m.tri.insert(m.tri.end(), {a, b, d}); };
  if (kind < 6) {  // separate triangles along a direction
    static const double D[6][3] = {{1, 0, 0}, {1, -1, 0}, {0, 1, -1}, {1, 1, 1}, {1, 1, -2}, {0, 0, 0}};
    for (int i = 0; i < n; i++) {
      double x = D[kind][0] * i * 0.5, y = D[kind][1] * i * 0.5, z = D[kind][2] * i * 0.5;
      T(V(x, y, z), V(x + 0.4, y, z), V(x, y + 0.4, z + 0.1));
    }
  } else if (kind == 6) {  // strip
    for (int i = 0; i < n + 2; i++) V(i * 0.3, i % 2, 0.1 * (i % 3));
    for (int i = 0; i < n; i++) T(i, i + 1, i + 2);
  } else if (kind == 7) {  // fan around an axis: centres symmetric
    U o = V(0.5, 0.5, 0.5);
    for (int i = 0; i < n; i++) V(0.5 + std::cos(6.283185307179586 * i / n), 0.5 + std::sin(6.283185307179586 * i / n), 0);
    for (int i = 0; i < n; i++) T(o, 1 + i, 1 + (i + 1) % n);
  } else if (kind == 8) {  // fan of triangles pairwise coincident
    V(0, 0, 0), V(1, 0, 0), V(0, 1, 0), V(0, 0, 1);
    for (int i = 0; i < n; i++) T(i % 2, 1 + i % 2, 3);
  } else {  // grid
    int w = 3;
    for (int j = 0; j <= (n + 5) / 6; j++) for (int i = 0; i <= w; i++) V(i * 0.5, j * 0.4, 0.2 * ((i * j) % 3));
    int k = 0;
    for (int j = 0; j < (n + 5) / 6; j++) for (int i = 0; i < w; i++) {
      U a = j * (w + 1) + i;
      if (k++ < n) T(a, a + 1, a + w + 2);
      if (k++ < n) T(a, a + w + 2, a + w + 1);
    }
  }
  return m;
}
static void body_family(mc::Ch &c) {
  int kind = c.choose(10), n = 1 + c.choose(c.thorough ? 24 : 10), mv = c.choose(3), mg = c.choose(2);
  c.require(!(kind == 7 && n < 3));
  c.commit();
  c.describe("family %d with %d triangles, move %d, margin %d", kind, n, mv, mg);
  mesh_case(c, family(kind, n), mv, mg ? 0.05 : 0.0);
  c.outcome((uint64_t) kind * 1000 + n * 10 + mv);
}
// ---------- signed distance over closed meshes
static void body_sdf(mc::Ch &c) {
  int kind = c.choose(3), rot = c.choose(4);
  c.commit();
  Msh m;
  auto V = [&](double x, double y, double z) { m.xyz.insert(m.xyz.end(), {x, y, z}); };
  if (kind == 0) { V(0, 0, 0), V(1, 0, 0), V(0, 1, 0), V(0, 0, 1); m.tri = {0, 2, 1, 0, 1, 3, 1, 2, 3, 0, 3, 2}; }
  if (kind == 1) {
    for (int i = 0; i < 8; i++) V(i & 1, i >> 1 & 1, i >> 2);
    m.tri = {0, 2, 3, 0, 3, 1, 4, 5, 7, 4, 7, 6, 0, 1, 5, 0, 5, 4, 2, 6, 7, 2, 7, 3, 0, 4, 6, 0, 6, 2, 1, 3, 7, 1, 7, 5};
  }
  if (kind == 2) { V(1, 0, 0), V(-1, 0, 0), V(0, 1, 0), V(0, -1, 0), V(0, 0, 1), V(0, 0, -1); m.tri = {0, 2, 4, 2, 1, 4, 1, 3, 4, 3, 0, 4, 2, 0, 5, 1, 2, 5, 3, 1, 5, 0, 3, 5}; }
  for (size_t t = 0; t < m.tri.size(); t += 3) for (int r = 0; r < rot; r++) std::rotate(m.tri.begin() + t, m.tri.begin() + t + 1, m.tri.begin() + t + 3);
  VD nrm(m.xyz.size(), 0.0);
  for (size_t t = 0; t < m.tri.size() / 3; t++) {
    auto e = elems(m)[t];
    P3 n = cross(e[1] - e[0], e[2] - e[0]);
    for (int k = 0; k < 3; k++) { U v = m.tri[t * 3 + k]; nrm[v * 3] += n.x; nrm[v * 3 + 1] += n.y; nrm[v * 3 + 2] += n.z; }
  }
  for (size_t i = 0; i < nrm.size(); i += 3) { double l = std::sqrt(nrm[i] * nrm[i] + nrm[i + 1] * nrm[i + 1] + nrm[i + 2] * nrm[i + 2]); for (int k = 0; k < 3; k++) nrm[i + k] /= l; }
  dfm2::CBVH_MeshTri3D<Sph, double> t;
  t.Init(m.xyz.data(), m.xyz.size() / 3, m.tri.data(), m.tri.size() / 3, 1e-6);
  auto E = elems(m);
  for (double x: {-0.71, -0.23, 0.11, 0.27, 0.43, 0.81, 1.31}) for (double y: {-0.53, 0.13, 0.29, 0.62, 1.22}) for (double z: {-0.37, 0.07, 0.21, 0.47, 0.93}) {
    P3 p{x, y, z};
    bool inside = kind == 0 ? x > 0 && y > 0 && z > 0 && x + y + z < 1 : kind == 1 ? x > 0 && y > 0 && z > 0 && x < 1 && y < 1 && z < 1 : std::fabs(x) + std::fabs(y) + std::fabs(z) < 1;
    double best = 1e30;
    for (auto &e: E) best = std::min(best, tri_dist(p, e[0], e[1], e[2]));
    if (best < 1e-3) continue;
    dfm2::CVec3d n0;
    double s = t.SignedDistanceFunction(n0, dfm2::CVec3d(x, y, z), m.xyz, m.tri, nrm);
    c.step();
    MC_CHECK(c, std::fabs(std::fabs(s) - best) < 1e-8 && (s > 0) == inside, "signed distance at (%g,%g,%g) is %g; the point is %s at distance %g", x, y, z, s, inside ? "inside" : "outside", best);
    MC_CHECK(c, std::fabs(n0.norm() - 1) < 1e-8, "the normal is not a unit vector");
    // moving by the signed distance along the normal reaches the surface
    P3 q = p + s * P3{n0.x, n0.y, n0.z};
    double dq = 1e30;
    for (auto &e: E) dq = std::min(dq, tri_dist(q, e[0], e[1], e[2]));
    MC_CHECK(c, dq < 1e-7, "moving from (%g,%g,%g) by the signed distance along the normal does not reach the surface", x, y, z);
    auto pes = t.NearestPoint_Global(dfm2::CVec3d(x, y, z), m.xyz, m.tri);
    dfm2::CVec3d n1, n2;
    double s1 = dfm2::SDFNormal_NearestPoint(n1, dfm2::CVec3d(x, y, z), pes, m.xyz, m.tri, nrm);
    double s2 = dfm2::SDFNormal_NearestPoint(n2, dfm2::CVec3d(x, y, z), pes, m.xyz.data(), (U) (m.xyz.size() / 3), m.tri.data(), (U) (m.tri.size() / 3), nrm.data());
    MC_CHECK(c, std::fabs(s1 - s) < 1e-8 && std::fabs(s2 - s) < 1e-8, "signed distance from the nearest point at (%g,%g,%g) is %g / %g, should be %g", x, y, z, s1, s2, s);
    // projection: a point inside (or nearer than the clearance) that a leaf volume includes ends on the offset surface
    for (double cc: {0.0, 0.05}) {
      dfm2::PointOnSurfaceMesh<double> q0;
      t.Nearest_Point_IncludedInBVH(q0, dfm2::CVec3d(x, y, z), 0.0, m.xyz.data(), m.xyz.size() / 3, m.tri.data(), m.tri.size() / 3);
      VD a{x, y, z};
      dfm2::Project_PointsIncludedInBVH_Outside(a, cc, t, m.xyz, m.tri, nrm);
      VD b{x, y, z};
      std::vector<dfm2::CInfoNearest<double>> info;
      dfm2::Project_PointsIncludedInBVH_Outside_Cache(b.data(), info, 1, cc, t, m.xyz.data(), (U) (m.xyz.size() / 3), m.tri.data(), (U) (m.tri.size() / 3), nrm.data(), 0.5);
      if (q0.itri == UINT_MAX) {
        MC_CHECK(c, a[0] == x && a[1] == y && a[2] == z, "a point outside every volume was moved");
        continue;
      }
      // the volume the point lies in decides; inside/outside by the interpolated normal there
      double w[3] = {q0.r0, q0.r1, 1 - q0.r0 - q0.r1};
      P3 r{0, 0, 0}, n{0, 0, 0};
      for (int k = 0; k < 3; k++) { U v = m.tri[q0.itri * 3 + k]; r = r + w[k] * vtx(m, v); n = n + w[k] * P3{nrm[v * 3], nrm[v * 3 + 1], nrm[v * 3 + 2]}; }
      if (std::fabs(dot(r - p, n)) < 1e-9) continue;
      double sd = len(r - p) * (dot(r - p, n) > 0 ? 1 : -1);
      P3 u = (1 / sd) * (r - p), e = sd + cc > 0 ? p + (sd + cc) * u : p;
      if (std::fabs(sd + cc) < 1e-9) continue;
      for (auto &v: {a, b}) MC_CHECK(c, len(P3{v[0], v[1], v[2]} - e) < 1e-7, "point (%g,%g,%g) is not pushed to clearance %g", x, y, z, cc);
    }
  }
  c.outcome((uint64_t) kind * 10 + rot);
}
// ---------- volumes
static void body_volume(mc::Ch &c) {
  int n = 1 + c.choose(c.thorough ? 4 : 3);
  std::vector<P3> p;
  std::vector<double> r;
  for (int i = 0; i < n; i++) {
    int k = c.choose(9);
    p.push_back({double(k % 3) - 1, double(k / 3), i == 1 ? 2. : 0.});
    r.push_back(c.pick({0.0, 0.5, 2.0, -1.0}));
  }
  c.commit();
  Sph s;
  Box b;
  double lo[3] = {1e9, 1e9, 1e9}, hi[3] = {-1e9, -1e9, -1e9};
  bool any = false;
  for (int i = 0; i < n; i++) {
    const double q[3] = {p[i].x, p[i].y, p[i].z};
    s.AddPoint(q, r[i]);
    b.AddPoint(q, r[i]);
    Sph t;
    t.AddPoint(q, r[i]);
    if (r[i] < 0) { MC_CHECK(c, !t.IsActive(), "a negative radius activates the volume"); continue; }
    any = true;
    for (int k = 0; k < 3; k++) { lo[k] = std::min(lo[k], q[k] - r[i]); hi[k] = std::max(hi[k], q[k] + r[i]); }
  }
  MC_CHECK(c, s.IsActive() == any && b.IsActive() == any, "volume is active exactly when something was added");
  if (!any) {
    MC_CHECK(c, !b.isInclude_Point(0, 0, 0) && !s.isInclude_Point(s.c[0], s.c[1], s.c[2] + 3) , "an empty volume includes a point");
    return;
  }
  for (int k = 0; k < 3; k++) MC_CHECK(c, b.bbmin[k] == lo[k] && b.bbmax[k] == hi[k], "box is not the union of its members");
  for (int i = 0; i < n; i++) if (r[i] >= 0) MC_CHECK(c, len(p[i] - P3{s.c[0], s.c[1], s.c[2]}) + r[i] <= s.r + 1e-9, "sphere does not enclose its member %d", i);
  if (n == 2 && r[0] >= 0 && r[1] >= 0) {  // smallest sphere around two spheres
    double L = len(p[0] - p[1]), R = std::max(std::max(r[0], r[1]), 0.5 * (L + r[0] + r[1]));
    if (L + r[1] <= r[0]) R = r[0];
    if (L + r[0] <= r[1]) R = r[1];
    MC_CHECK(c, std::fabs(s.r - R) < 1e-9, "sphere around two spheres has radius %g instead of %g", s.r, R);
    Sph a, d;
    const double q0[3] = {p[0].x, p[0].y, p[0].z}, q1[3] = {p[1].x, p[1].y, p[1].z};
    a.AddPoint(q0, r[0]);
    d.AddPoint(q1, r[1]);
    if (std::fabs(L - r[0] - r[1]) > 1e-9) MC_CHECK(c, a.IsIntersect(d) == (L < r[0] + r[1]) && d.IsIntersect(a) == a.IsIntersect(d), "sphere intersection test");
    Box e, f;
    e.AddPoint(q0, r[0]);
    f.AddPoint(q1, r[1]);
    bool in = true;
    for (int k = 0; k < 3; k++) if (std::fabs(q0[k] - q1[k]) > r[0] + r[1]) in = false;
    MC_CHECK(c, e.IsIntersect(f) == in && f.IsIntersect(e) == in, "box intersection test");
    MC_CHECK(c, b.IsInclude_AABB3(e) && b.IsInclude_AABB3(f), "union does not include its parts");
    bool inc = true;
    for (int k = 0; k < 3; k++) if (q1[k] - r[1] < q0[k] - r[0] || q1[k] + r[1] > q0[k] + r[0]) inc = false;
    MC_CHECK(c, e.IsInclude_AABB3(f) == inc, "box inclusion test");
    MC_CHECK(c, s.IsInclude(a, 1e-9) && s.IsInclude(d, 1e-9), "sphere inclusion test");
    Box g = e;
    g += f;
    Box h;
    h += e;
    h += Box();
    for (int k = 0; k < 3; k++) MC_CHECK(c, g.bbmin[k] == b.bbmin[k] && g.bbmax[k] == b.bbmax[k] && h.bbmin[k] == e.bbmin[k] && h.bbmax[k] == e.bbmax[k], "box union");
  }
  for (double x: {-3., -1., 0., 0.5, 2.}) for (double y: {-1., 1., 4.}) for (double z: {0., 1., 5.}) {
    double d = 0;
    const double q[3] = {x, y, z};
    bool in = true;
    for (int k = 0; k < 3; k++) { double t = std::max(0., std::max(lo[k] - q[k], q[k] - hi[k])); d += t * t; if (t > 0) in = false; }
    MC_CHECK(c, std::fabs(b.MinimumDistance(x, y, z) - std::sqrt(d)) < 1e-9, "distance from (%g,%g,%g) to the box is %g, not %g", x, y, z, std::sqrt(d), b.MinimumDistance(x, y, z));
    MC_CHECK(c, b.isInclude_Point(x, y, z) == in, "box inclusion of (%g,%g,%g)", x, y, z);
    double mn = 1, mx = -1, L = len(P3{x - s.c[0], y - s.c[1], z - s.c[2]});
    s.Range_DistToPoint(mn, mx, x, y, z);
    MC_CHECK(c, std::fabs(mn - std::max(0., L - s.r)) < 1e-9 && std::fabs(mx - (L + s.r)) < 1e-9, "distance range of the sphere");
    if (std::fabs(L - s.r) > 1e-7) MC_CHECK(c, s.isInclude_Point(x, y, z) == (L < s.r), "sphere inclusion");
  }
  c.outcome(mc::Hash() << s.r << s.c[0] << s.c[1] << s.c[2]);
}
static void body_box2(mc::Ch &c) {
  int n = c.choose(4);
  using B = dfm2::CBoundingBox2<double>;
  B b, u;
  double lo[2] = {1e9, 1e9}, hi[2] = {-1e9, -1e9};
  std::vector<std::array<int, 2>> ps;
  for (int i = 0; i < n; i++) {
    int k = c.choose(9);
    ps.push_back({k % 3 - 1, k / 3 - 1});
  }
  c.commit();
  for (auto &p: ps) {
    b.Add(p[0], p[1]);
    B t;
    t.Add(p[0], p[1]);
    u += t;
    u += B();
    for (int k = 0; k < 2; k++) { lo[k] = std::min(lo[k], (double) p[k]); hi[k] = std::max(hi[k], (double) p[k]); }
  }
  MC_CHECK(c, b.isActive() == (n > 0) && u.isActive() == (n > 0), "2D box is active exactly when something was added");
  if (!n) return;
  for (auto &t: {b, u}) MC_CHECK(c, t.x_min == lo[0] && t.x_max == hi[0] && t.y_min == lo[1] && t.y_max == hi[1], "2D box is not the bounding box");
  MC_CHECK(c, std::fabs(b.LengthDiagonal() - std::hypot(hi[0] - lo[0], hi[1] - lo[1])) < 1e-12, "2D box diagonal");
  VD mm = b.MinMaxXYZ();
  MC_CHECK(c, mm.size() == 6 && mm[0] == lo[0] && mm[1] == hi[0] && mm[2] == lo[1] && mm[3] == hi[1], "2D box limits");
  for (double x: {-2., 0., 2.}) for (double y: {-1.5, 0.5}) for (double w: {0., 1.}) for (double cl: {0., 0.75}) {
    B o(x, x + w, y, y + w);
    bool in = x <= hi[0] + cl && x + w >= lo[0] - cl && y <= hi[1] + cl && y + w >= lo[1] - cl;
    MC_CHECK(c, b.IsIntersect(o, cl) == in, "2D box intersection");
  }
  c.outcome(mc::Hash() << b.x_min << b.x_max << b.y_min << b.y_max);
}
// ---------- the box and sphere classes as sets of points
static void body_members(mc::Ch &c) {
  double lo[2][3], hi[2][3];
  for (int b = 0; b < 2; b++) for (int k = 0; k < 3; k++) { lo[b][k] = c.pick({-1., 0.5, 2.}); hi[b][k] = lo[b][k] + c.pick({0., 1.5}) + (b ? 0.25 : k * 0.125); }
  int form = c.choose(4);
  c.describe("boxes [%g,%g]x[%g,%g]x[%g,%g] and [%g,%g]x[%g,%g]x[%g,%g], route %d", lo[0][0], hi[0][0], lo[0][1], hi[0][1], lo[0][2], hi[0][2], lo[1][0], hi[1][0], lo[1][1], hi[1][1], lo[1][2], hi[1][2], form);
  c.commit();
  auto v6 = [&](int b) { return VD{lo[b][0], hi[b][0], lo[b][1], hi[b][1], lo[b][2], hi[b][2]}; };
  auto mk = [&](int b, int f) {
    if (f == 0) return Box(v6(b));
    if (f == 1) return Box(VD(lo[b], lo[b] + 3), VD(hi[b], hi[b] + 3));
    Box r;
    if (f == 2) { r.Set_AABBVec3(v6(b)); return r; }
    r.SetCenterWidth((lo[b][0] + hi[b][0]) / 2, (lo[b][1] + hi[b][1]) / 2, (lo[b][2] + hi[b][2]) / 2, hi[b][0] - lo[b][0], hi[b][1] - lo[b][1], hi[b][2] - lo[b][2]);
    return r;
  };
  auto is = [&](const Box &x, const double *l, const double *h) { for (int k = 0; k < 3; k++) if (x.bbmin[k] != l[k] || x.bbmax[k] != h[k]) return false; return x.IsActive(); };
  Box a = mk(0, form), b = mk(1, (form + 1) % 4);
  MC_CHECK(c, is(a, lo[0], hi[0]) && is(b, lo[1], hi[1]), "a box is not the one it was made from");
  { Box r; MC_CHECK(c, !r.IsActive(), "a new box is active"); r.Set_MinMax(VD(lo[0], lo[0] + 3), VD(hi[0], hi[0] + 3)); MC_CHECK(c, is(r, lo[0], hi[0]), "Set_MinMax"); r.Set_Inactive(); MC_CHECK(c, !r.IsActive() && !r.isInclude_Point(lo[0][0], lo[0][1], lo[0][2]) && !r.IsIntersect(b) && !b.IsIntersect(r) && b.IsInclude_AABB3(r) && !r.IsInclude_AABB3(b), "an inactive box is not empty"); r += b; MC_CHECK(c, is(r, lo[1], hi[1]), "a box added to an inactive one"); }
  double ul[3], uh[3];
  bool inter = true, incl = true;
  for (int k = 0; k < 3; k++) { ul[k] = std::min(lo[0][k], lo[1][k]); uh[k] = std::max(hi[0][k], hi[1][k]); inter = inter && lo[0][k] <= hi[1][k] && lo[1][k] <= hi[0][k]; incl = incl && lo[0][k] <= lo[1][k] && hi[1][k] <= hi[0][k]; }
  Box u1 = a, u2 = a, u3 = a;
  u1 += b;
  u2.Add_AABBVec3(v6(1));
  u3.Add_MinMax(VD(lo[1], lo[1] + 3), VD(hi[1], hi[1] + 3));
  MC_CHECK(c, is(u1, ul, uh) && is(u2, ul, uh) && is(u3, ul, uh), "the union of two boxes");
  MC_CHECK(c, a.IsIntersect(b) == inter && b.IsIntersect(a) == inter && a.IsInclude_AABB3(b) == incl, "intersection or inclusion of two boxes");
  double w[3] = {hi[0][0] - lo[0][0], hi[0][1] - lo[0][1], hi[0][2] - lo[0][2]};
  MC_CHECK(c, mc::near(a.DiagonalLength(), std::sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]), 1e-12) && a.MaxLength() == std::max(w[0], std::max(w[1], w[2])), "diagonal or longest side: %g %g", a.DiagonalLength(), a.MaxLength());
  VD ct = a.Center(), v = a.AABBVec3();
  double g[6];
  a.GetCenterWidth(g[0], g[1], g[2], g[3], g[4], g[5]);
  for (int k = 0; k < 3; k++) MC_CHECK(c, ct[k] == (lo[0][k] + hi[0][k]) / 2 && g[k] == ct[k] && g[3 + k] == w[k] && v[2 * k] == lo[0][k] && v[2 * k + 1] == hi[0][k], "centre, width or limits of a box");
  VD vx = a.Point3D_Vox();
  MC_CHECK(c, vx.size() == 24, "a box has eight corners");
  for (int i = 0; i < 8; i++) for (int k = 0; k < 3; k++) MC_CHECK(c, vx[i * 3 + k] == ((i >> k & 1) ? hi[0][k] : lo[0][k]), "corner %d of the box", i);
  // points added one by one
  { Box r; const double p[3] = {lo[0][0], hi[0][1], lo[0][2]}, q[3] = {hi[1][0], lo[1][1], hi[1][2]}; r += p; r += q; double l[3], h[3]; for (int k = 0; k < 3; k++) { l[k] = std::min(p[k], q[k]); h[k] = std::max(p[k], q[k]); } MC_CHECK(c, is(r, l, h), "points added to a box"); }
  // sphere around four points, with clearance
  { const double p[4][3] = {{lo[0][0], lo[0][1], lo[0][2]}, {hi[0][0], lo[1][1], hi[0][2]}, {lo[1][0], hi[0][1], hi[1][2]}, {hi[1][0], hi[1][1], lo[1][2]}};
    double cc = form * 0.25;
    Sph s;
    s.SetPoints4(p[0], p[1], p[2], p[3], cc);
    for (auto &q: p) MC_CHECK(c, std::sqrt((q[0] - s.c[0]) * (q[0] - s.c[0]) + (q[1] - s.c[1]) * (q[1] - s.c[1]) + (q[2] - s.c[2]) * (q[2] - s.c[2])) + cc <= s.r + 1e-9, "the sphere around four points does not enclose (%g,%g,%g) with clearance %g", q[0], q[1], q[2], cc);
    double dia = 0;
    for (auto &q: p) for (auto &r: p) dia = std::max(dia, std::sqrt((q[0] - r[0]) * (q[0] - r[0]) + (q[1] - r[1]) * (q[1] - r[1]) + (q[2] - r[2]) * (q[2] - r[2])));
    MC_CHECK(c, s.IsActive() && s.r <= dia + cc + 1e-9, "the sphere around four points has radius %g, they are %g apart", s.r, dia);
    s.Set_Inactive();
    MC_CHECK(c, !s.IsActive(), "Set_Inactive of a sphere"); }
  // planar box against circles: never misses one, and refuses those far from the box
  { dfm2::CBoundingBox2<double> t(lo[0][0], hi[0][0], lo[0][1], hi[0][1]);
    for (double x: {-3., 0., 1.25, 5.}) for (double y: {-2.5, 0.75, 4.}) for (double r: {0., 0.5, 2.}) {
      double dx = std::max(0., std::max(lo[0][0] - x, x - hi[0][0])), dy = std::max(0., std::max(lo[0][1] - y, y - hi[0][1]));
      bool f = t.IsIntersectSphere(dfm2::CVec2d(x, y), r);
      if (dx * dx + dy * dy <= r * r) MC_CHECK(c, f, "the box misses a circle that meets it");
      if (dx > r || dy > r) MC_CHECK(c, !f, "the box meets a circle that is apart along an axis");
    } }
  c.outcome(mc::Hash() << ul[0] << ul[1] << uh[2] << (int) inter << (int) incl);
}
// ---------- images of rays
static void body_image(mc::Ch &c) {
  int kind = c.choose(11), n = 1 + c.choose(c.thorough ? 8 : 5), w = 1 + c.choose(4), h = 1 + c.choose(4), view = c.choose(4);
  bool par = c.flip();
  c.require(!(kind == 7 && n < 3));
  c.describe("image %d x %d of family %d with %d triangles, view %d, %s", w, h, kind, n, view, par ? "parallel" : "serial");
  c.commit();
  Msh m;
  if (kind < 10) m = family(kind, n);
  else { auto V = [&](double x, double y, double z) { m.xyz.insert(m.xyz.end(), {x, y, z}); }; V(1, 0, 0), V(-1, 0, 0), V(0, 1, 0), V(0, -1, 0), V(0, 0, 1), V(0, 0, -1); m.tri = {0, 2, 4, 2, 1, 4, 1, 3, 4, 3, 0, 4, 2, 0, 5, 1, 2, 5, 3, 1, 5, 0, 3, 5}; }
  double P[16], R[16], MV[16];
  if (view < 2) dfm2::Mat4_AffineProjectionOrtho(P, -1.03, 1.31, -0.97, 1.13, -9., 9.);
  else dfm2::Mat4_AffineProjectionFrustum(P, 0.83, 1.1, -9., -0.5);
  const double rv[4][3] = {{0, 0, 0}, {0.31, -0.47, 0.11}, {0.05, 0.03, 0}, {0.4, 0.2, -0.3}};
  dfm2::Mat4_AffineRotationCartesian(R, rv[view]);
  if (view >= 2) { R[3] = -0.21; R[7] = 0.13; R[11] = -3.3; }
  dfm2::MatMat4(MV, P, R);
  Nodes nodes;
  std::vector<Sph> bvs;
  dfm2::BuildBVH_MeshTri3D_Morton(nodes, bvs, m.xyz, m.tri);
  std::vector<dfm2::PointOnSurfaceMesh<double>> img(3, dfm2::PointOnSurfaceMesh<double>(0, 0.1, 0.1));
  dfm2::Intersection_ImageRay_TriMesh3(img, h, w, MV, nodes, bvs, m.xyz, m.tri, par);
  MC_CHECK(c, img.size() == size_t(w * h), "the image has %zu pixels", img.size());
  double iv[16];
  dfm2::Inverse_Mat4(iv, MV);
  auto E = elems(m);
  mc::Hash hs;
  for (int ih = 0; ih < h; ih++) for (int iw = 0; iw < w; iw++) {
    double px = -1 + 2. / w * (iw + 0.5), py = -1 + 2. / h * (ih + 0.5);
    const double s[3] = {px, py, 1}, e[3] = {px, py, -1};
    auto q0 = dfm2::Vec3_Mat4Vec3_Homography(iv, s), q1 = dfm2::Vec3_Mat4Vec3_Homography(iv, e);
    P3 o{q0[0], q0[1], q0[2]}, d{q1[0] - q0[0], q1[1] - q0[1], q1[2] - q0[2]};
    double best = 1e30; bool amb = false; std::set<U> bests;
    for (U t = 0; t < E.size(); t++) {
      P3 a = E[t][0], b = E[t][1], cc = E[t][2];
      double v0 = dot(d, cross(b - o, cc - o)), v1 = dot(d, cross(cc - o, a - o)), v2 = dot(d, cross(a - o, b - o)), vs = std::fabs(v0) + std::fabs(v1) + std::fabs(v2), sm = v0 + v1 + v2;
      if (vs < 1e-9) continue;
      double mn = std::min(v0, std::min(v1, v2)) / vs, mx = std::max(v0, std::max(v1, v2)) / vs;
      if (mn < -1e-7 && mx > 1e-7) continue;
      if ((mn > -1e-7 && mn < 1e-7) || (mx > -1e-7 && mx < 1e-7)) { amb = true; continue; }
      P3 p = (1 / sm) * (v0 * a + v1 * b + v2 * cc);
      double dep = dot(p - o, d) / dot(d, d);
      if (std::fabs(dep) < 1e-6) { amb = true; continue; }
      if (dep < 0) continue;
      if (dep < best - 1e-7) { best = dep; bests = {t}; } else if (dep < best + 1e-7) bests.insert(t);
    }
    if (amb) continue;
    for (auto *I: {&img}) {
      auto &p = (*I)[ih * w + iw];
      if (bests.empty()) { MC_CHECK(c, p.itri == UINT_MAX, "pixel (%d,%d) sees triangle %u, but its ray meets none", iw, ih, p.itri); continue; }
      MC_CHECK(c, bests.count(p.itri), "pixel (%d,%d) sees triangle %d instead of %u", iw, ih, (int) p.itri, *bests.begin());
      auto x = p.PositionOnMeshTri3(m.xyz, m.tri);
      MC_CHECK(c, len(P3{x[0], x[1], x[2]} - (o + best * d)) < 1e-6, "the point seen by pixel (%d,%d) is not on its ray", iw, ih);
    }
    hs << (bests.empty() ? -1 : (int) *bests.begin());
  }
  c.outcome(hs);
}
// single volumes in any unit, in single and double precision: lines, rays, points and distances
template<class T> void far_case(mc::Ch &c, const int *ci, int r, const int *si, const int *di, double s) {
  dfm2::CBV3_Sphere<T> b;
  b.c[0] = T(ci[0] * s), b.c[1] = T(ci[1] * s), b.c[2] = T(ci[2] * s), b.r = T(r * s);
  const double src[3] = {si[0] * s, si[1] * s, si[2] * s}, dir[3] = {di[0] * s, di[1] * s, di[2] * s};
  const T srcT[3] = {T(src[0]), T(src[1]), T(src[2])}, dirT[3] = {T(dir[0]), T(dir[1]), T(dir[2])};
  Sph e;
  e.c[0] = ci[0], e.c[1] = ci[1], e.c[2] = ci[2], e.r = r;
  const double so[3] = {double(si[0]), double(si[1]), double(si[2])}, dd[3] = {double(di[0]), double(di[1]), double(di[2])};
  const double dl = line_dist(e, so, dd, false), dr = line_dist(e, so, dd, true), dp = len(P3{so[0] - e.c[0], so[1] - e.c[1], so[2] - e.c[2]}), tol = 1e-3;
  if (std::fabs(dl - r) > tol) MC_CHECK(c, b.IsIntersectLine(srcT, dirT) == (dl < r), "sphere of radius %d, line at %g: %d", r, dl, (int) (dl > r));
  if (std::fabs(dr - r) > tol) MC_CHECK(c, b.IsIntersectRay(src, dir) == (dr < r), "sphere of radius %d, ray at %g: %d", r, dr, (int) (dr > r));
  if (std::fabs(dp - r) > tol) MC_CHECK(c, b.isInclude_Point(src[0], src[1], src[2]) == (dp < r), "sphere of radius %d, point at %g", r, dp);
  T m0 = -1, m1 = -1;
  b.Range_DistToPoint(m0, m1, srcT[0], srcT[1], srcT[2]);
  MC_CHECK(c, std::fabs(m0 / s - std::max(0., dp - r)) < tol && std::fabs(m1 / s - (dp + r)) < tol, "distance range [%g,%g] of a sphere of radius %d at %g", m0 / s, m1 / s, r, dp);
  // box of the same size
  const T lo[3] = {T((ci[0] - r) * s), T((ci[1] - r) * s), T((ci[2] - r) * s)}, hi[3] = {T((ci[0] + r) * s), T((ci[1] + r) * s), T((ci[2] + r) * s)};
  const dfm2::CBV3_AABB<T> x(lo, hi);
  double q = 0;
  for (int i = 0; i < 3; i++) q += std::pow(std::max(0., std::fabs(so[i] - ci[i]) - r), 2);
  MC_CHECK(c, x.isInclude_Point(srcT[0], srcT[1], srcT[2]) == (q == 0), "box of half size %d: point inclusion", r);
  MC_CHECK(c, std::fabs(x.MinimumDistance(srcT[0], srcT[1], srcT[2]) / s - std::sqrt(q)) < tol, "distance %g of a box, expected %g", x.MinimumDistance(srcT[0], srcT[1], srcT[2]) / s, std::sqrt(q));
}
static void body_far(mc::Ch &c) {
  static const int CS[][3] = {{0, 0, 0}, {1, 0, 0}, {3, -1, 2}, {30, 20, -10}, {-7, 11, 13}}, D[][3] = {{1, 0, 0}, {0, 0, -1}, {0, 2, 0}, {1, 1, 0}, {-1, 0, 1}, {1, 1, 1}, {1, -2, 3}, {-3, -2, 1}, {20, -1, 3}, {7, 11, 13}};
  const int *ci = CS[c.choose(5)], r = 1 + c.choose(3), *di = D[c.choose(10)];
  int o[3];
  for (int &v: o) v = c.choose(7);
  static const int OFF[7] = {-9, -3, -1, 0, 1, 2, 8};
  const int si[3] = {ci[0] + OFF[o[0]], ci[1] + OFF[o[1]], ci[2] + OFF[o[2]]};
  double s = c.pick({1., 1024., 1048576., 1. / 1048576});
  bool dbl = c.flip();
  c.describe("centre (%d,%d,%d) radius %d, from (%d,%d,%d) along (%d,%d,%d), unit %g, %s", ci[0], ci[1], ci[2], r, si[0], si[1], si[2], di[0], di[1], di[2], s, dbl ? "double" : "float");
  c.commit();
  if (dbl) far_case<double>(c, ci, r, si, di, s);
  else far_case<float>(c, ci, r, si, di, s);
  c.outcome(mc::Hash() << r << (di - D[0]) << o[0] << o[1] << o[2]);
}
int main(int argc, char **argv) {
  std::cout.rdbuf(nullptr);
  return mc::run(argc, argv, mc::Config{"C08", "exploration", {"volumes touched exactly (within rounding) by a query are not judged"}},
      {
          {"codes", body_code, "all 10-bit coordinates: bit interleaving, clamping, leading zeros"},
          {"sorted", body_sorted, "all sorted code sequences up to 7 over 10 codes (duplicates included)"},
          {"volumes", body_volume, "all unions of up to 3 spheres / boxes of a grid"},
          {"box2", body_box2, "all 2D boxes of up to 3 grid points"},
          {"points", body_points, "all multisets of up to 4 grid points, rebuilt after moving; nearest, range, inclusion, line, ray"},
          {"cloud", body_cloud, "structured clouds of 5 to 16 points incl. coincident ones"},
          {"tris", body_tris, "triangle sets over the cube corners, all hierarchies and queries, before and after moving"},
          {"family", body_family, "families of 1 to 10 triangles: separate, strips, fans, coincident, grids"},
          {"members", body_members, "all pairs of boxes (also flat) of a grid made by four routes: unions, inclusion, centre, corners; spheres around four points"},
          {"units", body_far, "single spheres and boxes of a grid in four units, in single and double precision: every line, ray, point and distance range"},
          {"image", body_image, "ray images of 1x1 to 4x4 pixels of all triangle families, four views, serial and parallel, against a full scan"},
          {"sdf", body_sdf, "signed distance and projection on closed meshes"},
      });
}
