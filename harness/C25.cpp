// C25: slicing a mesh by planes, contours and Reeb graphs.
#include "mc.h"
#include <iostream>
#include <climits>
#include <algorithm>
#include <cmath>
#include <map>
#include <numeric>
#include <set>
#include "delfem2/slice.h"
namespace dfm2 = delfem2;
using U = unsigned int;
using VU = std::vector<U>;
using VD = std::vector<double>;

static VU tri_adj(const VU &t) {
  VU r(t.size(), UINT_MAX);
  std::map<std::pair<U, U>, U> e2t;
  for (size_t i = 0; i < t.size() / 3; i++) for (int e = 0; e < 3; e++) e2t[{t[3 * i + (e + 1) % 3], t[3 * i + (e + 2) % 3]}] = (U) i;
  for (size_t i = 0; i < t.size() / 3; i++) for (int e = 0; e < 3; e++) {
    auto it = e2t.find({t[3 * i + (e + 2) % 3], t[3 * i + (e + 1) % 3]});
    if (it != e2t.end()) r[3 * i + e] = it->second;
  }
  return r;
}
static VU grid_torus(int n, int m) {
  VU t;
  for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) {
    U a = (U) (i * m + j), b = (U) ((i + 1) % n * m + j), d = (U) (i * m + (j + 1) % m), e = (U) ((i + 1) % n * m + (j + 1) % m);
    for (U x: {a, b, e, a, e, d}) t.push_back(x);
  }
  return t;
}
// rings of 3 points, closed by a point at both ends
static VU tube(int rings) {
  VU t;
  U a = (U) (3 * rings), b = a + 1;
  for (U k = 0; k < 3; k++) { t.push_back(a); t.push_back((k + 1) % 3); t.push_back(k); }
  for (int r = 0; r + 1 < rings; r++) for (U k = 0; k < 3; k++) {
    U p = (U) (3 * r) + k, q = (U) (3 * r) + (k + 1) % 3, s = p + 3, u = q + 3;
    for (U x: {p, q, u, p, u, s}) t.push_back(x);
  }
  U o = (U) (3 * (rings - 1));
  for (U k = 0; k < 3; k++) { t.push_back(b); t.push_back(o + k); t.push_back(o + (k + 1) % 3); }
  return t;
}
struct Start { const char *name; VU tri; int nv; bool closed; };
static std::vector<Start> starts() {
  std::vector<Start> s;
  VU tet = {0, 2, 1, 0, 1, 3, 1, 2, 3, 2, 0, 3};
  VU oct = {0, 1, 4, 1, 2, 4, 2, 3, 4, 3, 0, 4, 1, 0, 5, 2, 1, 5, 3, 2, 5, 0, 3, 5};
  s.push_back({"tetrahedron", tet, 4, true});
  s.push_back({"bipyramid", {0, 1, 3, 1, 2, 3, 2, 0, 3, 1, 0, 4, 2, 1, 4, 0, 2, 4}, 5, true});
  s.push_back({"octahedron", oct, 6, true});
  VU rot = oct; // the same with rotated corners
  for (size_t i = 0; i < rot.size(); i += 3) std::rotate(rot.begin() + i, rot.begin() + i + (i / 3) % 3, rot.begin() + i + 3);
  s.push_back({"octahedron with rotated corners", rot, 6, true});
  VU t7;
  for (U i = 0; i < 7; i++) for (U x: {i, (i + 1) % 7, (i + 3) % 7, i, (i + 3) % 7, (i + 2) % 7}) t7.push_back(x);
  s.push_back({"torus of 7 points", t7, 7, true});
  VU two = tet;
  for (U x: tet) two.push_back(x + 4);
  s.push_back({"two tetrahedra", two, 8, true});
  s.push_back({"torus of 9 points", grid_torus(3, 3), 9, true});
  s.push_back({"triangle", {0, 1, 2}, 3, false});
  s.push_back({"fan", {0, 1, 2, 0, 2, 3, 0, 3, 4}, 5, false});
  VU o7 = oct;
  o7.resize(21);
  s.push_back({"octahedron without a triangle", o7, 6, false});
  VU cyl;
  for (U k = 0; k < 3; k++) for (U x: {k, (k + 1) % 3, 3 + (k + 1) % 3, k, 3 + (k + 1) % 3, 3 + k}) cyl.push_back(x);
  s.push_back({"open prism", cyl, 6, false});
  return s;
}
static const std::vector<Start> ST = starts();
static const std::vector<VD> LEVELS = {{0.5, 1.5}, {1}, {0, 1, 2}, {0.25, 0.75, 1.5}, {-1, 0.5, 5}, {}};

// positions of the vertices: height is z; x, y are distinct per vertex
static VD place(const VD &h) {
  VD p;
  for (size_t i = 0; i < h.size(); i++) { p.push_back(std::cos(2.4 * i) * (1 + i)); p.push_back(std::sin(2.4 * i) * (2 + i)); p.push_back(h[i]); }
  return p;
}
static bool eq3(const double *a, const double *b) { return std::fabs(a[0] - b[0]) + std::fabs(a[1] - b[1]) + std::fabs(a[2] - b[2]) < 1e-9; }

static void check_seg(mc::Ch &c, const dfm2::CSegInfo &s, const VU &tri, const VU *adj, const VD &h, const VD &xyz, double lev, const char *what) {
  MC_CHECK(c, s.itri >= 0 && s.itri < (int) tri.size() / 3, "%s: triangle %d", what, s.itri);
  MC_CHECK(c, s.iedA >= 0 && s.iedA < 3 && s.iedB >= 0 && s.iedB < 3 && s.iedA != s.iedB, "%s: edges %d %d", what, s.iedA, s.iedB);
  MC_CHECK(c, s.r0A >= -1e-12 && s.r0A <= 1 + 1e-12 && s.r0B >= -1e-12 && s.r0B <= 1 + 1e-12, "%s: ratios %g %g", what, s.r0A, s.r0B);
  double A[3], B[3];
  s.Pos3D(A, B, xyz, tri);
  MC_CHECK(c, mc::near(A[2], lev) && mc::near(B[2], lev), "%s: segment in triangle %d at heights %g, %g instead of %g", what, s.itri, A[2], B[2], lev);
  for (int w = 0; w < 2; w++) { // on the edge it names
    int e = w ? s.iedB : s.iedA;
    const double *q = w ? B : A, r = w ? s.r0B : s.r0A;
    const double *p0 = &xyz[3 * tri[3 * s.itri + (e + 1) % 3]], *p1 = &xyz[3 * tri[3 * s.itri + (e + 2) % 3]];
    double x[3];
    for (int d = 0; d < 3; d++) x[d] = (1 - r) * p0[d] + r * p1[d];
    MC_CHECK(c, eq3(x, q), "%s: point is not on edge %d of triangle %d", what, e, s.itri);
  }
  VD xy;
  for (size_t i = 0; i < xyz.size(); i += 3) { xy.push_back(xyz[i]); xy.push_back(xyz[i + 1]); }
  double a[2], b[2];
  s.Pos2D(a, b, xy.data(), tri.data());
  MC_CHECK(c, mc::near(a[0], A[0]) && mc::near(a[1], A[1]) && mc::near(b[0], B[0]) && mc::near(b[1], B[1]), "%s: 2D and 3D positions differ", what);
}
static int side(const VU &tri, int t, const VD &h, double lev) { // 2: strictly crossed, 1: touched, 0: not cut
  bool up = false, dn = false, on = false;
  for (int k = 0; k < 3; k++) {
    double v = h[tri[3 * t + k]];
    up = up || v > lev;
    dn = dn || v < lev;
    on = on || v == lev;
  }
  return up && dn ? 2 : on ? 1 : 0;
}

static void check_slices(mc::Ch &c, const std::vector<dfm2::CSliceTriMesh> &cs, const VU &tri, const VU &adj, const VD &h, const VD &lev, bool closed) {
  VD xyz = place(h);
  std::vector<std::vector<int>> cnt(lev.size(), std::vector<int>(tri.size() / 3, 0));
  for (auto &l: cs) {
    MC_CHECK(c, l.iHeight < lev.size() && l.IndHeight() == (int) l.iHeight, "height index %u", l.iHeight);
    size_t n = l.aTriInfo.size();
    MC_CHECK(c, n >= 3 && l.NumSeg() == n, "a loop of %zu segments", n);
    for (size_t i = 0; i < n; i++) {
      auto &s = l.aTriInfo[i], &t = l.aTriInfo[(i + 1) % n];
      MC_CHECK(c, l.IndTri_Seg((U) i) == (U) s.itri, "triangle of segment %zu", i);
      check_seg(c, s, tri, &adj, h, xyz, lev[l.iHeight], "loop");
      cnt[l.iHeight][s.itri]++;
      MC_CHECK(c, t.itri >= 0 && t.itri < (int) tri.size() / 3 && adj[3 * s.itri + s.iedB] == (U) t.itri && t.iedA >= 0 && t.iedA < 3 && adj[3 * t.itri + t.iedA] == (U) s.itri, "segments in triangles %d and %d do not share an edge", s.itri, t.itri);
      double A[3], B[3], A1[3], B1[3];
      s.Pos3D(A, B, xyz, tri);
      t.Pos3D(A1, B1, xyz, tri);
      MC_CHECK(c, eq3(B, A1), "the loop at height %g is broken between triangles %d and %d", lev[l.iHeight], s.itri, t.itri);
    }
  }
  for (size_t ih = 0; ih < lev.size(); ih++) {
    std::vector<char> open(tri.size() / 3, 0); // triangles of open contours, exact if no vertex is at the height
    bool generic = true;
    for (double x: h) generic = generic && x != lev[ih];
    if (!closed && generic) {
      for (size_t t = 0; t < open.size(); t++) for (int e = 0; e < 3; e++) {
        double a = h[tri[3 * t + (e + 1) % 3]] - lev[ih], b = h[tri[3 * t + (e + 2) % 3]] - lev[ih];
        if (a * b < 0 && adj[3 * t + e] == UINT_MAX) open[t] = 1;
      }
      for (bool ch = true; ch;) {
        ch = false;
        for (size_t t = 0; t < open.size(); t++) if (open[t]) for (int e = 0; e < 3; e++) {
          double a = h[tri[3 * t + (e + 1) % 3]] - lev[ih], b = h[tri[3 * t + (e + 2) % 3]] - lev[ih];
          U j = adj[3 * t + e];
          if (a * b < 0 && j != UINT_MAX && !open[j]) open[j] = 1, ch = true;
        }
      }
    }
    for (size_t t = 0; t < tri.size() / 3; t++) {
      int s = side(tri, (int) t, h, lev[ih]), n = cnt[ih][t];
      MC_CHECK(c, n <= 1, "triangle %zu is cut %d times at height %g", t, n, lev[ih]);
      MC_CHECK(c, s != 0 || n == 0, "triangle %zu does not reach height %g but is cut", t, lev[ih]);
      if (closed || generic) MC_CHECK(c, s != 2 || (n == 1) == !open[t], "triangle %zu crosses height %g but is %s", t, lev[ih], n ? "in a closed loop" : "missing");
    }
  }
}
static void body_slice(mc::Ch &c) {
  const Start &s = ST[c.choose((int) ST.size())];
  const VD lev = LEVELS[c.choose((int) LEVELS.size())];
  int nval = s.nv <= 6 ? 4 : 3;
  if (s.nv > 8 && !c.thorough) nval = 2;
  VD h(s.nv);
  for (auto &x: h) x = c.choose(nval);
  c.commit();
  c.describe("%s, vertex heights %s, cut at %s", s.name, mc::str(h).c_str(), mc::str(lev).c_str());
  VU adj = tri_adj(s.tri);
  std::vector<dfm2::CSliceTriMesh> cs(2, dfm2::CSliceTriMesh(7));
  dfm2::Slice_MeshTri3D_Heights(cs, lev, h, s.tri, adj);
  check_slices(c, cs, s.tri, adj, h, lev, s.closed);
  if (!s.closed) { // the graph of an open mesh can be asked for, too
    std::vector<std::set<U>> con;
    dfm2::MakeReebGraph(con, cs, s.tri, adj);
    MC_CHECK(c, con.size() == cs.size(), "%zu nodes for %zu loops", con.size(), cs.size());
  }
}

static void body_contour(mc::Ch &c) {
  const Start &s = ST[c.choose((int) ST.size())];
  if (s.nv > 7) c.skip();
  double lev = c.pick({0., 0.5, 1., 1.25, 7.});
  VD h(s.nv);
  int nval = s.nv <= 6 ? 4 : 3;
  for (auto &x: h) x = c.choose(nval);
  c.commit();
  c.describe("%s, values %s, contour at %g", s.name, mc::str(h).c_str(), lev);
  std::vector<dfm2::CSegInfo> seg;
  int pre = c.choose(2); // appended to earlier ones
  if (pre) dfm2::AddContour(seg, -99, s.tri.data(), s.tri.size() / 3, h.data());
  MC_CHECK(c, seg.empty(), "%zu segments below all values", seg.size());
  dfm2::AddContour(seg, lev, s.tri.data(), s.tri.size() / 3, h.data());
  VD xyz = place(h);
  std::vector<int> cnt(s.tri.size() / 3, 0);
  for (auto &g: seg) {
    check_seg(c, g, s.tri, nullptr, h, xyz, lev, "contour");
    cnt[g.itri]++;
  }
  for (size_t t = 0; t < cnt.size(); t++) {
    int sd = side(s.tri, (int) t, h, lev);
    MC_CHECK(c, cnt[t] <= 1 && (sd != 2 || cnt[t] == 1) && (sd != 0 || cnt[t] == 0), "triangle %zu (%g,%g,%g) has %d segments at %g", t, h[s.tri[3 * t]], h[s.tri[3 * t + 1]], h[s.tri[3 * t + 2]], cnt[t], lev);
  }
}

// ---------- Reeb graph
static void check_reeb(mc::Ch &c, const VU &tri, const VD &h, const VD &lev) {
  VU adj = tri_adj(tri);
  std::vector<dfm2::CSliceTriMesh> cs;
  dfm2::Slice_MeshTri3D_Heights(cs, lev, h, tri, adj);
  check_slices(c, cs, tri, adj, h, lev, true);
  size_t nt = tri.size() / 3, nl = lev.size();
  // pieces: a triangle's part in the slab below level k
  auto slab = [&](double x) { size_t k = 0; while (k < nl && x > lev[k]) k++; return k; };
  std::vector<size_t> uf(nt * (nl + 1));
  std::iota(uf.begin(), uf.end(), 0);
  std::function<size_t(size_t)> root = [&](size_t i) { while (uf[i] != i) i = uf[i] = uf[uf[i]]; return i; };
  bool single = true;
  for (size_t t = 0; t < nt; t++) {
    size_t lo = nl, hi = 0;
    for (int e = 0; e < 3; e++) {
      size_t a = slab(h[tri[3 * t + (e + 1) % 3]]), b = slab(h[tri[3 * t + (e + 2) % 3]]);
      for (size_t k = std::min(a, b); k <= std::max(a, b); k++) uf[root(t * (nl + 1) + k)] = root(adj[3 * t + e] * (nl + 1) + k);
      lo = std::min(lo, a);
      hi = std::max(hi, a);
    }
    if (hi > lo + 1) single = false;
  }
  size_t n = cs.size();
  std::vector<std::set<size_t>> around(n); // parts of the surface next to a loop
  for (size_t i = 0; i < n; i++) for (auto &s: cs[i].aTriInfo) {
    around[i].insert(root(s.itri * (nl + 1) + cs[i].iHeight));
    around[i].insert(root(s.itri * (nl + 1) + cs[i].iHeight + 1));
  }
  std::vector<std::set<U>> con(3, {1, 2});
  dfm2::MakeReebGraph(con, cs, tri, adj);
  MC_CHECK(c, con.size() == n, "%zu nodes for %zu loops", con.size(), n);
  c.outcome(mc::Hash() << n << single);
  for (U i = 0; i < n; i++) for (U j = 0; j < n; j++) {
    bool l = con[i].count(j), l1 = con[j].count(i);
    int dh = std::abs((int) cs[i].iHeight - (int) cs[j].iHeight);
    MC_CHECK(c, l == l1, "loop %u knows %u but not the other way round", i, j);
    MC_CHECK(c, !l || (i != j && dh <= 1), "loops %u and %u at heights %u and %u are linked", i, j, cs[i].iHeight, cs[j].iHeight);
    bool common = false, same_tri = false;
    for (size_t r: around[i]) common = common || around[j].count(r);
    for (auto &a: cs[i].aTriInfo) for (auto &b: cs[j].aTriInfo) same_tri = same_tri || a.itri == b.itri;
    if (dh == 1 && same_tri) MC_CHECK(c, l, "loops %u and %u at heights %u and %u cut a common triangle but are not linked", i, j, cs[i].iHeight, cs[j].iHeight);
    if (!single || i == j) continue;
    if (dh == 1) MC_CHECK(c, l == common, "loops %u and %u at heights %u and %u %s a common part of the surface but are %slinked", i, j, cs[i].iHeight, cs[j].iHeight, common ? "bound" : "bound no", l ? "" : "not ");
    if (dh == 0) MC_CHECK(c, !l || common, "loops %u and %u at the same height are linked without common part", i, j);
  }
  for (auto &s: con) for (U j: s) MC_CHECK(c, j < n, "link to loop %u of %zu", j, n);
}
static void body_reeb_small(mc::Ch &c) {
  const Start &s = ST[c.choose((int) ST.size())];
  if (!s.closed) c.skip();
  VD h(s.nv);
  int nval = s.nv <= 6 ? 4 : c.thorough && s.nv < 9 ? 4 : 3;
  for (auto &x: h) x = c.choose(nval);
  VD lev = nval == 4 ? c.pick({VD{0.5, 1.5, 2.5}, VD{0.4, 0.6, 2.5}, VD{0.2, 0.4, 0.6, 0.8}}) : c.pick({VD{0.5, 1.5}, VD{0.25, 0.5, 0.75}});
  c.commit();
  c.describe("%s, vertex heights %s, cut at %s", s.name, mc::str(h).c_str(), mc::str(lev).c_str());
  check_reeb(c, s.tri, h, lev);
}
// tori whose height is a sum of a value per row and a value per column: loops split and join
static void body_reeb_torus(mc::Ch &c) {
  int n = c.pick({4, 5}), m = 4;
  VD a(n), b(m), h;
  for (auto &x: a) x = c.choose(3);
  for (auto &x: b) x = c.choose(c.thorough ? 3 : 2);
  for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) h.push_back(a[i] + b[j]);
  c.commit();
  c.describe("torus, rows %s, columns %s", mc::str(a).c_str(), mc::str(b).c_str());
  check_reeb(c, grid_torus(n, m), h, {0.5, 1.5, 2.5, 3.5});
}
static void body_reeb_tube(mc::Ch &c) {
  int r = c.thorough ? 6 : 5;
  VU t = tube(r);
  VD h(3 * r + 2);
  int tilt = c.choose(3);
  for (int i = 0; i < r; i++) {
    int v = c.choose(4);
    for (int k = 0; k < 3; k++) h[3 * i + k] = v + (tilt && k == tilt - 1 ? 1 : 0);
  }
  h[3 * r] = c.choose(4);
  h[3 * r + 1] = c.choose(4);
  c.commit();
  c.describe("tube, vertex heights %s", mc::str(h).c_str());
  check_reeb(c, t, h, {0.5, 1.5, 2.5, 3.5});
}

int main(int argc, char **argv) {
  return mc::run(argc, argv, {"C25", "exploration", {"Heights are ascending and mesh adjacency is consistent.", "Graphs are judged for heights that no vertex has; links between heights only exactly where no triangle is cut twice."}},
                 {{"slice", body_slice, "11 closed and open meshes, all vertex heights from 2-4 values, six lists of heights including vertex heights"},
                  {"contour", body_contour, "8 meshes, all vertex values, five levels"},
                  {"reeb-small", body_reeb_small, "closed meshes, all vertex heights, five lists of heights"},
                  {"reeb-torus", body_reeb_torus, "tori of 16-20 points, all row and column heights"},
                  {"reeb-tube", body_reeb_tube, "tubes of 5 rings (6 thorough), all ring heights, tilted or not"}});
}
