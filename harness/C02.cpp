// C02: 2D triangulation covers exactly the polygonal domain, constrained and Delaunay.
// Every polygon / hole / point sequence of small integer grids is meshed by the real code and judged with exact integer geometry.
#include "mc.h"
#include "delfem2/dtri2_v2dtri.h"
#include "delfem2/geo_polygon2.h"
namespace dfm2 = delfem2;
using V2 = dfm2::CVec2d;
using ll = long long;
using P = std::pair<ll, ll>;

static ll cross(P a, P b, P c) { return (b.first - a.first) * (c.second - a.second) - (c.first - a.first) * (b.second - a.second); }
static int sg(ll a) { return (a > 0) - (a < 0); }
static bool onseg(P a, P b, P p) {
  return cross(a, b, p) == 0 && std::min(a.first, b.first) <= p.first && p.first <= std::max(a.first, b.first)
      && std::min(a.second, b.second) <= p.second && p.second <= std::max(a.second, b.second);
}
static bool meet(P a, P b, P c, P d) {
  if (onseg(a, b, c) || onseg(a, b, d) || onseg(c, d, a) || onseg(c, d, b)) return true;
  return sg(cross(a, b, c)) * sg(cross(a, b, d)) < 0 && sg(cross(c, d, a)) * sg(cross(c, d, b)) < 0;
}
using Loop = std::vector<P>;
static ll area2(const Loop &l) {
  ll a = 0;
  for (size_t i = 0; i < l.size(); i++) { P p = l[i], q = l[(i + 1) % l.size()]; a += p.first * q.second - p.second * q.first; }
  return a;
}
enum Kind { VALID, CROSS, FOLD };
static bool inside(const Loop &l, P p) {  // strictly inside, p not on the boundary
  bool in = false;
  for (size_t i = 0, j = l.size() - 1; i < l.size(); j = i++) {
    P a = l[i], b = l[j];
    if ((a.second > p.second) != (b.second > p.second)) {
      ll s = cross(a, b, p);
      if ((b.second > a.second) == (s > 0)) in = !in;
    }
  }
  return in;
}
static Kind kindOf(const Loop &l) {
  const int n = (int) l.size();
  bool fold = false;
  for (int i = 0; i < n; i++) {
    P a = l[i], b = l[(i + 1) % n], c = l[(i + 2) % n];
    if (a == b) fold = true;
    else if (cross(a, b, c) == 0 && (onseg(a, b, c) || onseg(b, c, a))) fold = true;
  }
  for (int i = 0; i < n; i++)
    for (int j = i + 1; j < n; j++) {
      if ((i + 1) % n == j || (j + 1) % n == i) continue;
      if (meet(l[i], l[(i + 1) % n], l[j], l[(j + 1) % n])) return CROSS;
    }
  return fold ? FOLD : VALID;
}
static Kind kindOf(const std::vector<Loop> &ls) {
  Kind k = VALID;
  for (auto &l : ls) { Kind kk = kindOf(l); if (kk == CROSS) return CROSS; if (kk == FOLD) k = FOLD; }
  for (size_t a = 0; a < ls.size(); a++)
    for (size_t b = a + 1; b < ls.size(); b++)
      for (size_t i = 0; i < ls[a].size(); i++)
        for (size_t j = 0; j < ls[b].size(); j++)
          if (meet(ls[a][i], ls[a][(i + 1) % ls[a].size()], ls[b][j], ls[b][(j + 1) % ls[b].size()])) return CROSS;
  if (k == FOLD) return FOLD;
  for (size_t a = 1; a < ls.size(); a++) {
    if (!inside(ls[0], ls[a][0])) return CROSS;
    for (size_t b = 1; b < ls.size(); b++) if (a != b && inside(ls[a], ls[b][0])) return CROSS;
  }
  return k;
}

// adjacency, incidence and (optionally) orientation of a dynamic mesh
static void checkTopo(mc::Ch &c, const std::vector<dfm2::CDynPntSur> &po, const std::vector<dfm2::CDynTri> &tri, size_t np, bool allRef) {
  MC_CHECK(c, po.size() == np, "%zu point records for %zu points", po.size(), np);
  std::map<std::pair<unsigned, unsigned>, std::pair<unsigned, unsigned>> he;
  for (unsigned it = 0; it < tri.size(); it++)
    for (unsigned k = 0; k < 3; k++) {
      MC_CHECK(c, tri[it].v[k] < np, "triangle %u refers to vertex %u of %zu", it, tri[it].v[k], np);
      auto e = std::make_pair(tri[it].v[(k + 1) % 3], tri[it].v[(k + 2) % 3]);
      MC_CHECK(c, !he.count(e), "directed edge %u->%u is used twice", e.first, e.second);
      he[e] = {it, k};
    }
  for (unsigned it = 0; it < tri.size(); it++)
    for (unsigned k = 0; k < 3; k++) {
      const unsigned s = tri[it].s2[k];
      if (s == UINT_MAX) continue;
      MC_CHECK(c, s < tri.size(), "triangle %u has neighbour %u of %zu", it, s, tri.size());
      auto f = he.find({tri[it].v[(k + 2) % 3], tri[it].v[(k + 1) % 3]});
      MC_CHECK(c, f != he.end() && f->second.first == s && tri[s].s2[f->second.second] == it, "triangle %u and its neighbour %u disagree", it, s);
    }
  std::vector<char> ref(np, 0);
  for (auto &t : tri) for (unsigned k : {0, 1, 2}) ref[t.v[k]] = 1;
  for (size_t ip = 0; ip < np; ip++) {
    if (!ref[ip]) { MC_CHECK(c, !allRef, "point %zu is in no triangle", ip); continue; }
    MC_CHECK(c, po[ip].e < tri.size() && po[ip].d < 3 && tri[po[ip].e].v[po[ip].d] == ip, "point %zu refers to a corner that is not its own", ip);
  }
}
static double triArea(const V2 &a, const V2 &b, const V2 &c) { return 0.5 * ((b.p[0] - a.p[0]) * (c.p[1] - a.p[1]) - (c.p[0] - a.p[0]) * (b.p[1] - a.p[1])); }

// every interior edge is locally Delaunay
static void checkDelaunay(mc::Ch &c, const std::vector<dfm2::CDynTri> &tri, const std::vector<V2> &v) {
  for (unsigned it = 0; it < tri.size(); it++)
    for (unsigned k = 0; k < 3; k++) {
      const unsigned s = tri[it].s2[k];
      if (s == UINT_MAX || s < it) continue;
      unsigned far = UINT_MAX;
      for (unsigned m : {0, 1, 2}) if (tri[s].s2[m] == it) far = tri[s].v[m];
      const V2 &d = v[far];
      long double m[3][3];
      for (int i = 0; i < 3; i++) {
        const V2 &q = v[tri[it].v[i]];
        m[i][0] = q.p[0] - d.p[0]; m[i][1] = q.p[1] - d.p[1];
        m[i][2] = m[i][0] * m[i][0] + m[i][1] * m[i][1];
      }
      long double det = m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
      long double sc = 0;
      for (auto &r : m) sc = std::max(sc, r[2]);
      MC_CHECK(c, det <= 1e-7L * sc * sc, "point %u lies inside the circumcircle of triangle (%u,%u,%u): %Lg", far, tri[it].v[0], tri[it].v[1], tri[it].v[2], det);
    }
}

static std::string show(const std::vector<Loop> &ls) {
  std::string s;
  for (auto &l : ls) { s += "["; for (auto p : l) s += "(" + std::to_string(p.first) + "," + std::to_string(p.second) + ")"; s += "]"; }
  return s;
}
static std::vector<std::vector<double>> toXY(const std::vector<Loop> &ls, double sc = 1, double ox = 0, double oy = 0) {
  std::vector<std::vector<double>> r;
  for (auto &l : ls) { r.emplace_back(); for (auto p : l) { r.back().push_back(p.first * sc + ox); r.back().push_back(p.second * sc + oy); } }
  return r;
}

// the mesh covers exactly the domain: positive triangles whose mesh boundary is exactly the given oriented loops
static void checkDomain(mc::Ch &c, const std::vector<Loop> &ls, const std::vector<std::vector<double>> &xy, double sc, const std::vector<dfm2::CDynPntSur> &po,
                        const std::vector<dfm2::CDynTri> &tri, const std::vector<V2> &v, double edgeMax, double sizeTol = 1e-9) {
  size_t np0 = 0;
  for (auto &l : ls) np0 += l.size();
  MC_CHECK(c, v.size() >= np0, "%zu points left of %zu", v.size(), np0);
  if (edgeMax <= 0) MC_CHECK(c, v.size() == np0, "%zu points for %zu input points", v.size(), np0);
  size_t ip = 0;
  for (auto &l : xy) for (size_t i = 0; i < l.size() / 2; i++, ip++)
      MC_CHECK(c, v[ip].p[0] == l[i * 2] && v[ip].p[1] == l[i * 2 + 1], "input vertex %zu moved to (%g,%g)", ip, v[ip].p[0], v[ip].p[1]);
  checkTopo(c, po, tri, v.size(), true);
  double area = 0;
  for (unsigned it = 0; it < tri.size(); it++) {
    double a = triArea(v[tri[it].v[0]], v[tri[it].v[1]], v[tri[it].v[2]]);
    MC_CHECK(c, a > sizeTol * sc * sc, "triangle %u (%u,%u,%u) has area %g", it, tri[it].v[0], tri[it].v[1], tri[it].v[2], a);
    area += a;
  }
  double ex = 0;
  for (size_t i = 0; i < ls.size(); i++) ex += (i ? -1 : 1) * std::abs((double) area2(ls[i])) * 0.5 * sc * sc;
  MC_CHECK(c, mc::near(area, ex, 1e-9, 1e-9), "triangles cover area %.12g instead of %.12g", area, ex);
  std::map<unsigned, unsigned> nxt;  // boundary half edges
  size_t nb = 0;
  for (auto &t : tri) for (unsigned k : {0, 1, 2}) if (t.s2[k] == UINT_MAX) {
        nb++;
        MC_CHECK(c, !nxt.count(t.v[(k + 1) % 3]), "two boundary edges leave point %u", t.v[(k + 1) % 3]);
        nxt[t.v[(k + 1) % 3]] = t.v[(k + 2) % 3];
      }
  size_t walked = 0;
  unsigned base = 0;
  for (size_t il = 0; il < ls.size(); il++) {
    Loop l = ls[il];
    const unsigned n = (unsigned) l.size();
    const bool rev = (area2(l) > 0) != (il == 0);
    for (unsigned i = 0; i < n; i++) {
      unsigned a = base + i, b = base + (rev ? (i + n - 1) % n : (i + 1) % n);
      unsigned cur = a;
      const double dx = v[b].p[0] - v[a].p[0], dy = v[b].p[1] - v[a].p[1], len = std::hypot(dx, dy);
      double t0 = 0;
      while (cur != b) {
        MC_CHECK(c, nxt.count(cur), "boundary segment %u-%u is not a chain of mesh boundary edges", a, b);
        unsigned nx = nxt[cur];
        double ex2 = v[nx].p[0] - v[a].p[0], ey = v[nx].p[1] - v[a].p[1];
        double t = (ex2 * dx + ey * dy) / (len * len), off = (dx * ey - dy * ex2) / len;
        MC_CHECK(c, std::abs(off) < 1e-9 && t > t0 && t < 1 + 1e-9, "boundary segment %u-%u is left at point %u", a, b, nx);
        if (edgeMax > 0) MC_CHECK(c, (t - t0) * len <= edgeMax * (1 + 1e-9), "boundary edge of length %g for target %g", (t - t0) * len, edgeMax);
        if (edgeMax <= 0) MC_CHECK(c, nx == b, "boundary segment %u-%u is divided", a, b);
        t0 = t; cur = nx; walked++;
        MC_CHECK(c, walked <= nb, "boundary walk does not end");
      }
    }
    base += n;
  }
  MC_CHECK(c, walked == nb, "%zu boundary edges, but the outline has %zu", nb, walked);
}

static std::vector<Loop> LOOPS3;  // all simple polygons of a 3x3 grid with up to 6 vertices, canonical start, both orientations
static void genLoops() {
  std::vector<P> g;
  for (int y = 0; y < 3; y++) for (int x = 0; x < 3; x++) g.push_back({x * 2, y * 2});
  std::function<void(Loop &, int)> rec = [&](Loop &l, int used) {
    if (l.size() >= 3 && kindOf(l) == VALID) LOOPS3.push_back(l);
    if (l.size() == 6) return;
    for (int i = 0; i < 9; i++) if (!(used >> i & 1)) {
        if (!l.empty() && g[i] < l[0]) continue;
        l.push_back(g[i]); rec(l, used | 1 << i); l.pop_back();
      }
  };
  Loop l;
  rec(l, 0);
}

static std::vector<V2> toV(const Loop &l, double sc, double ox, double oy) { std::vector<V2> v; for (auto p : l) v.emplace_back(p.first * sc + ox, p.second * sc + oy); return v; }

static void runDelaunay(mc::Ch &c, const Loop &pts, double sc, double ox, double oy) {
  std::vector<V2> v = toV(pts, sc, ox, oy);
  const std::vector<V2> v0 = v;
  std::vector<dfm2::CDynPntSur> po; std::vector<dfm2::CDynTri> tri;
  dfm2::Meshing_Initialize(po, tri, v);
  MC_CHECK(c, v.size() == pts.size() + 3, "%zu points", v.size());
  for (size_t i = 0; i < v0.size(); i++) MC_CHECK(c, v[i].p[0] == v0[i].p[0] && v[i].p[1] == v0[i].p[1], "point %zu moved", i);
  checkTopo(c, po, tri, v.size(), true);
  double area = 0;
  for (auto &t : tri) {
    double a = triArea(v[t.v[0]], v[t.v[1]], v[t.v[2]]);
    MC_CHECK(c, a > 1e-9 * sc * sc, "triangle (%u,%u,%u) has area %g", t.v[0], t.v[1], t.v[2], a);
    area += a;
  }
  const size_t n = pts.size();
  MC_CHECK(c, mc::near(area, triArea(v[n], v[n + 1], v[n + 2]), 1e-9, 1e-9), "triangles cover %g of the enclosing triangle", area);
  MC_CHECK(c, tri.size() == 2 * n + 1, "%zu triangles for %zu points", tri.size(), n);
  size_t nb = 0;
  for (auto &t : tri) for (unsigned k : {0, 1, 2}) nb += t.s2[k] == UINT_MAX;
  MC_CHECK(c, nb == 3, "%zu boundary edges of the enclosing triangle", nb);
  checkDelaunay(c, tri, v);
  mc::Hash h;
  for (auto &t : tri) h << t.v[0] << t.v[1] << t.v[2];
  c.outcome(h);
}

static void delaunay(mc::Ch &c) {
  struct F { int w, h, k; };
  auto f = c.pick(c.thorough ? std::vector<F>{{4, 4, 3}, {4, 4, 4}, {3, 3, 5}, {3, 3, 6}, {4, 4, 5}} : std::vector<F>{{4, 4, 3}, {4, 4, 4}, {3, 3, 5}});
  auto pl = c.pick(std::vector<std::array<double, 3>>{{1, 0, 0}, {0.37, 5.3, -2.1}, {1.0 / 1024, 0, 0}});
  Loop pts;
  unsigned used = 0;
  for (int i = 0; i < f.k; i++) {
    int q = c.choose(f.w * f.h);
    c.require(!(used >> q & 1));
    used |= 1u << q;
    pts.push_back({q % f.w, q / f.w});
  }
  c.commit();
  c.describe("points %s scale %g", show({pts}).c_str(), pl[0]);
  runDelaunay(c, pts, pl[0], pl[1], pl[2]);
}

// whole grids (maximally co-circular) in many insertion orders
static void delaunayGrid(mc::Ch &c) {
  int w = 2 + c.choose(5), h = 2 + c.choose(4);
  auto pl = c.pick(std::vector<std::array<double, 3>>{{1, 0, 0}, {0.37, 5.3, -2.1}, {1.0 / 1024, 0, 0}});
  int order = c.choose(6), shear = c.choose(3);
  int n = w * h, stride = 1 + c.choose(11);
  c.require(std::__gcd(n, stride) == 1 && stride < n);
  c.commit();
  Loop pts;
  for (int i = 0; i < n; i++) {
    int q = (int) ((ll) i * stride % n);
    int x = q % w, y = q / w;
    if (order == 1) { x = w - 1 - x; }
    if (order == 2) { if (y & 1) x = w - 1 - x; }
    if (order == 3) { x = q / h; y = q % h; }
    if (order == 4) { x = q / h; y = q % h; if (x & 1) y = h - 1 - y; }
    if (order == 5) { y = h - 1 - y; }
    if (shear == 1) x = 2 * x + y;
    if (shear == 2) { int t = 3 * x - 4 * y; y = 4 * x + 3 * y; x = t; }
    pts.push_back({x, y});
  }
  c.describe("grid %dx%d order %d stride %d shear %d scale %g", w, h, order, stride, shear, pl[0]);
  runDelaunay(c, pts, pl[0], pl[1], pl[2]);
}

// spirals, combs and stars: long constraint segments crossing many triangles
static Loop special(int kind, int n) {
  Loop l;
  if (kind == 0) {  // comb
    for (int i = 0; i < n; i++) { l.push_back({2 * i, 0}); }
    for (int i = n - 1; i >= 0; i--) { l.push_back({2 * i + 1, 9}); if (i) l.push_back({2 * i, 1}); }
    l.push_back({0, 8});
  } else if (kind == 1) {  // two interleaved combs: very thin zigzag
    for (int i = 0; i < n; i++) l.push_back({i * 2, (i & 1) ? 10 : 0});
    for (int i = n - 1; i >= 0; i--) l.push_back({i * 2 + 1, (i & 1) ? 11 : 1});
  } else if (kind == 2) {  // spiral
    ll x = 0, y = 0, d = 0; int len = 2;
    std::vector<P> out{{0, 0}};
    for (int i = 0; i < n; i++) {
      x += (d == 0 ? len : d == 2 ? -len : 0); y += (d == 1 ? len : d == 3 ? -len : 0);
      out.push_back({x, y}); d = (d + 1) % 4; len += 2;
    }
    l = out;
    for (int i = (int) out.size() - 1; i >= 1; i--) {  // return one unit inside: offset each corner to the left
      int dirp = (i - 1) % 4;
      static const int nx[4] = {0, -1, 0, 1}, ny[4] = {1, 0, -1, 0};
      P q = out[i];
      q.first += nx[dirp]; q.second += ny[dirp];
      if (i + 1 < (int) out.size()) { q.first += nx[i % 4]; q.second += ny[i % 4]; }
      l.push_back(q);
    }
  } else if (kind == 3) {  // star
    for (int i = 0; i < 2 * n; i++) {
      double a = M_PI * i / n, r = (i & 1) ? 3 : 40;
      l.push_back({(ll) std::lround(r * cos(a)), (ll) std::lround(r * sin(a))});
    }
  } else {  // rectangle with many collinear boundary points and a deep notch
    for (int i = 0; i <= n; i++) l.push_back({i * 3, 0});
    l.push_back({n * 3, 9});
    l.push_back({n + 1, 9}); l.push_back({n, 1}); l.push_back({n - 1, 9}); l.push_back({0, 9});
  }
  return l;
}

static void runGen(mc::Ch &c, const std::vector<Loop> &ls, double re, double rf, std::array<double, 3> pl, bool dirty) {
  Kind k = kindOf(ls);
  if (k == FOLD) c.skip();
  if (k == CROSS) pl = {1, 0, 0};  // touching is decided exactly only for representable coordinates
  c.commit();
  c.describe("loops %s edge %g face %g scale %g%s", show(ls).c_str(), re, rf, pl[0], dirty ? " (reused arrays)" : "");
  auto xy = toXY(ls, pl[0], pl[1], pl[2]);
  std::vector<dfm2::CDynPntSur> po; std::vector<dfm2::CDynTri> tri; std::vector<V2> v;
  if (dirty && k == VALID) {
    po.resize(7); tri.resize(5); v.resize(9, V2(1, 2));
  }
  dfm2::GenMesh(po, tri, v, xy, re, rf);
  if (k == CROSS) {
    MC_CHECK(c, tri.empty(), "crossing or touching outlines were meshed into %zu triangles", tri.size());
    mc::Hash h; h << 1; c.outcome(h);
    return;
  }
  checkDomain(c, ls, xy, pl[0], po, tri, v, re > 1e-9 || rf > 1e-9 ? (re > 1e-9 ? re : 1e30) : -1);
  // exports and measures agree with the mesh
  std::vector<double> oxy; std::vector<unsigned> ot;
  dfm2::MeshTri2D_Export(oxy, ot, v, tri);
  std::vector<double> oxy2(3, 7.); std::vector<unsigned> ot2(4, 9u);
  dfm2::CMeshTri2D(oxy2, ot2, v, tri);
  MC_CHECK(c, oxy == oxy2 && ot == ot2 && ot.size() == tri.size() * 3 && oxy.size() == v.size() * 2, "the two exports differ");
  for (size_t i = 0; i < tri.size() * 3; i++) MC_CHECK(c, ot[i] == tri[i / 3].v[i % 3], "exported triangle %zu differs", i / 3);
  for (size_t i = 0; i < v.size() * 2; i++) MC_CHECK(c, oxy[i] == v[i / 2].p[i % 2], "exported point %zu differs", i / 2);
  double mn, mx, emn = 1e30, emx = -1e30;
  dfm2::MinMaxTriArea(mn, mx, v, tri);
  std::vector<double> mass(v.size(), 0.), im(2, 5.);
  for (auto &t : tri) {
    double a = triArea(v[t.v[0]], v[t.v[1]], v[t.v[2]]);
    emn = std::min(emn, a); emx = std::max(emx, a);
    for (unsigned q : {0, 1, 2}) mass[t.v[q]] += a * 1.5 / 3;
  }
  MC_CHECK(c, mc::near(mn, emn, 1e-9, 1e-12) && mc::near(mx, emx, 1e-9, 1e-12), "triangle areas range over [%g,%g] instead of [%g,%g]", mn, mx, emn, emx);
  dfm2::MakeInvMassLumped_Tri(im, 1.5, v, tri);
  MC_CHECK(c, im.size() == v.size(), "size of the lumped mass");
  for (size_t i = 0; i < v.size(); i++) MC_CHECK(c, mc::near(im[i] * mass[i], 1, 1e-9, 0), "inverse mass of point %zu is %g for mass %g", i, im[i], mass[i]);
  if (rf > 1e-9) {
    // the refinement goes on until the triangles are about as small as asked for
    double ar = 0;
    for (auto &t : tri) ar += triArea(v[t.v[0]], v[t.v[1]], v[t.v[2]]);
    MC_CHECK(c, ar / tri.size() < 2 * rf * rf, "triangles have mean area %g for target edge %g", ar / tri.size(), rf);
  }
  mc::Hash h;
  h << (int) tri.size() << (int) v.size() << mn;
  c.outcome(h);
}
static const std::array<double, 3> ID{1, 0, 0}, AF{0.37, 5.3, -2.1}, SM{1.0 / 1024, 0, 0};

static void polygons(mc::Ch &c) {
  struct F { int w, h, k; bool canon; };
  auto f = c.pick(c.thorough ? std::vector<F>{{3, 3, 3, 0}, {3, 3, 4, 0}, {3, 3, 5, 0}, {4, 3, 4, 0}, {4, 4, 4, 0}, {4, 3, 5, 0}, {3, 3, 6, 0}, {4, 4, 5, 1}, {4, 3, 6, 1}, {3, 3, 7, 1}}
                             : std::vector<F>{{3, 3, 3, 0}, {3, 3, 4, 0}, {3, 3, 5, 0}, {4, 4, 4, 1}, {4, 3, 5, 1}, {3, 3, 6, 1}});
  Loop l;
  unsigned used = 0;
  for (int i = 0; i < f.k; i++) {
    int q = c.choose(f.w * f.h);
    c.require(!(used >> q & 1));
    if (f.canon && i && (unsigned) q < (unsigned) (l[0].second * f.w + l[0].first)) c.skip();
    used |= 1u << q;
    l.push_back({q % f.w, q / f.w});
  }
  runGen(c, {l}, -1, -1, used % 3 == 0 ? AF : used % 3 == 1 ? SM : ID, used % 2);
}
static void specials(mc::Ch &c) {
  int kind = c.choose(5), n = 2 + c.choose(5);
  int rot = c.choose(4), start = c.choose(7);
  bool rev = c.flip();
  double re = c.pick({-1., 0.7, 2.5}), rf = c.pick({-1., 1.3, 4.});
  Loop l = special(kind, n + 1);
  for (int r = 0; r < rot; r++) for (auto &p : l) p = {-p.second, p.first};
  if (rev) std::reverse(l.begin(), l.end());
  std::rotate(l.begin(), l.begin() + start % l.size(), l.end());
  c.require(kindOf(l) == VALID);
  runGen(c, {l}, re, rf, rot % 3 == 0 ? ID : rot % 3 == 1 ? AF : SM, false);
}
static void holes(mc::Ch &c) {
  static const std::vector<Loop> outer{
      {{0, 0}, {6, 0}, {6, 6}, {0, 6}},
      {{0, 6}, {6, 6}, {6, 0}, {0, 0}},
      {{0, 0}, {3, 0}, {6, 0}, {6, 6}, {0, 6}, {0, 3}},
      {{0, 0}, {6, 0}, {6, 2}, {2, 2}, {2, 6}, {0, 6}},
      {{0, 0}, {6, 0}, {6, 6}, {3, 1}, {0, 6}}};
  std::vector<Loop> ls{c.pick(outer)};
  int mode = c.choose(2);
  if (mode == 0) {  // every triangle (and in the thorough tier quad) of a grid, also crossing the outline
    int k = c.thorough ? 3 + c.choose(2) : 3;
    int w = k == 3 ? 5 : 4;
    Loop h;
    unsigned used = 0;
    for (int i = 0; i < k; i++) {
      int q = c.choose(w * w);
      c.require(!(used >> q & 1));
      used |= 1u << q;
      h.push_back({q % w + 1, q / w + 1});
    }
    ls.push_back(h);
  } else {  // two or three small holes
    static const std::vector<Loop> shp{{{0, 0}, {1, 0}, {0, 1}}, {{0, 0}, {1, 1}, {1, 0}}, {{0, 0}, {0, 1}, {1, 1}, {1, 0}}, {{0, 0}, {3, 0}, {3, 3}, {0, 3}}};
    int nh = c.thorough ? 2 + c.choose(2) : 2;
    for (int i = 0; i < nh; i++) {
      Loop h = c.pick(shp);
      int ox = 1 + c.choose(4), oy = 1 + c.choose(4);
      if (nh == 3) c.require(ox % 2 == 1 && h.size() == 3);
      for (auto &p : h) p = {p.first + ox, p.second + oy};
      ls.push_back(h);
    }
  }
  runGen(c, ls, -1, -1, ls[1][0].first % 2 ? ID : ls[1][0].second % 2 ? SM : AF, false);
}
// loops of one or two points enclose nothing and are refused wherever they stand
static void shortLoops(mc::Ch &c) {
  static const std::vector<Loop> full{{{0, 0}, {6, 0}, {6, 6}, {0, 6}}, {{0, 6}, {6, 6}, {6, 0}, {0, 0}}, {{0, 0}, {6, 0}, {0, 6}}};
  int pos = c.choose(3), n = 1 + c.choose(2);  // the outline itself, the first hole, the last hole
  Loop sh;
  for (int i = 0; i < n; i++) { int q = c.choose(9); Loop::value_type p{q % 3 + 1, q / 3 + 1}; if (pos == 2) p = {p.first + 3, p.second}; c.require(i == 0 || p != sh[0]); sh.push_back(p); }
  std::vector<Loop> ls;
  if (pos == 0) ls = {sh};
  else {
    ls.push_back(c.pick(full));
    if (pos == 2) ls.push_back({{1, 1}, {2, 1}, {1, 2}});
    ls.push_back(sh);
  }
  double re = c.pick({-1., 1.5}), rf = c.pick({-1., 1.});
  c.commit();
  c.describe("loops %s edge %g face %g", show(ls).c_str(), re, rf);
  auto xy = toXY(ls, 1, 0, 0);
  std::vector<dfm2::CDynPntSur> po; std::vector<dfm2::CDynTri> tri; std::vector<V2> v;
  dfm2::GenMesh(po, tri, v, xy, re, rf);
  MC_CHECK(c, tri.empty(), "a loop of %d points was meshed into %zu triangles", n, tri.size());
  dfm2::CMeshDynTri2D m;
  m.meshing_loops(xy, re);
  MC_CHECK(c, m.aETri.empty(), "a loop of %d points was meshed by the class into %zu triangles", n, m.aETri.size());
  mc::Hash h; h << pos << n; c.outcome(h);
}
static void refine(mc::Ch &c) {
  int il = c.choose((int) LOOPS3.size());
  double re = c.pick({-1., 0.41, 0.9, 2., 9.}), rf = c.pick({-1., 0.3, 0.8, 3.});
  c.require(re > 0 || rf > 0);
  if (!c.thorough) c.require(rf != 0.3 || il % 3 == 0);
  runGen(c, {LOOPS3[il]}, re, rf, il % 3 == 0 ? SM : il % 3 == 1 ? AF : ID, false);
}
static void refineHole(mc::Ch &c) {
  static const std::vector<std::vector<Loop>> sh{
      {{{0, 0}, {6, 0}, {6, 6}, {0, 6}}, {{2, 2}, {4, 2}, {4, 4}, {2, 4}}},
      {{{0, 0}, {6, 0}, {6, 6}, {0, 6}}, {{1, 1}, {5, 1}, {1, 5}}},
      {{{0, 0}, {0, 6}, {6, 6}, {6, 0}}, {{1, 1}, {2, 1}, {1, 2}}, {{5, 5}, {4, 5}, {5, 4}}},
      {{{0, 0}, {9, 0}, {9, 9}, {8, 9}, {8, 1}, {1, 1}, {1, 8}, {7, 8}, {7, 9}, {0, 9}}},
      {{{0, 0}, {9, 0}, {9, 3}, {0, 3}}, {{1, 1}, {1, 2}, {2, 2}, {2, 1}}, {{4, 1}, {4, 2}, {5, 2}, {5, 1}}, {{7, 1}, {7, 2}, {8, 2}, {8, 1}}}};
  auto ls = c.pick(sh);
  double re = c.pick({-1., 0.25, 0.5, 1., 1.5, 2., 3., 7.}), rf = c.pick({-1., 0.3, 0.5, 0.8, 1.2, 2., 4.});
  runGen(c, ls, re, rf, c.pick({ID, AF, SM}), false);
}

// polygon measures and loop utilities against exact sums
static void measures(mc::Ch &c) {
  int il = c.choose((int) LOOPS3.size());
  auto pl = c.pick(std::vector<std::array<double, 3>>{{1, 0, 0}, {0.5, -3, 2}});
  c.commit();
  const Loop &l = LOOPS3[il];
  c.describe("loop %s scale %g", show({l}).c_str(), pl[0]);
  auto v = toV(l, pl[0], pl[1], pl[2]);
  const size_t n = v.size();
  // reference: fan of triangles with closed-form moments
  long double A = 0, sx = 0, sy = 0, sxx = 0, syy = 0, sxy = 0, len = 0;
  for (size_t i = 0; i < n; i++) {
    long double x0 = v[i].p[0], y0 = v[i].p[1], x1 = v[(i + 1) % n].p[0], y1 = v[(i + 1) % n].p[1];
    long double a = (x0 * y1 - x1 * y0) / 2;
    A += a; sx += a * (x0 + x1) / 3; sy += a * (y0 + y1) / 3;
    sxx += a * (x0 * x0 + x1 * x1 + x0 * x1) / 6; syy += a * (y0 * y0 + y1 * y1 + y0 * y1) / 6;
    sxy += a * (2 * x0 * y0 + 2 * x1 * y1 + x0 * y1 + x1 * y0) / 12;
    len += std::hypot(x1 - x0, y1 - y0);
  }
  MC_CHECK(c, mc::near(dfm2::Length_Polygon(v), (double) len, 1e-10, 1e-10), "length %g", dfm2::Length_Polygon(v));
  MC_CHECK(c, mc::near(dfm2::Area_Polygon(v), (double) A, 1e-10, 1e-10), "Area_Polygon is %g instead of %Lg", dfm2::Area_Polygon(v), A);
  V2 cg; double area = 0;
  dfm2::CgArea_Polygon(cg, area, v);
  MC_CHECK(c, mc::near(area, (double) A, 1e-10, 1e-10) && mc::near(cg.p[0], (double) (sx / A), 1e-9, 1e-9) && mc::near(cg.p[1], (double) (sy / A), 1e-9, 1e-9), "area %g, centroid (%g,%g)", area, cg.p[0], cg.p[1]);
  for (auto pv : {V2(0, 0), V2(1.5, -2)}) {
    double I = dfm2::RotationalMomentPolar_Polygon2(v, pv);
    double ex = (double) (sxx + syy - 2 * pv.p[0] * sx - 2 * pv.p[1] * sy + A * (pv.p[0] * pv.p[0] + pv.p[1] * pv.p[1]));
    MC_CHECK(c, mc::near(I, ex, 1e-9, 1e-9), "polar moment %g instead of %g", I, ex);
  }
  V2 pa1, pa2, cg2; double I1, I2, ar2;
  dfm2::SecondMomentOfArea_Polygon(cg2, ar2, pa1, I1, pa2, I2, v);
  {
    double cxx = (double) (sxx - sx * sx / A), cyy = (double) (syy - sy * sy / A), cxy = (double) (sxy - sx * sy / A);
    MC_CHECK(c, mc::near(ar2, (double) A, 1e-10, 1e-10) && mc::near(cg2.p[0], cg.p[0], 1e-9, 1e-9) && mc::near(cg2.p[1], cg.p[1], 1e-9, 1e-9), "second moment: area or centroid");
    MC_CHECK(c, mc::near(pa1.p[0] * pa1.p[0] + pa1.p[1] * pa1.p[1], 1, 1e-9, 0) && std::abs(pa1.p[0] * pa2.p[0] + pa1.p[1] * pa2.p[1]) < 1e-9, "principal axes are not orthonormal");
    // second moment about an axis direction d through the centroid = integral of squared distance to the axis
    auto mom = [&](V2 d) { return cyy * d.p[0] * d.p[0] + cxx * d.p[1] * d.p[1] - 2 * cxy * d.p[0] * d.p[1]; };
    MC_CHECK(c, mc::near(mom(pa1), I1, 1e-8, 1e-9) && mc::near(mom(pa2), I2, 1e-8, 1e-9), "second moments (%g,%g) are not those about the principal axes (%g,%g)", I1, I2, mom(pa1), mom(pa2));
  }
  auto inv = dfm2::Polygon_Invert(v);
  MC_CHECK(c, inv.size() == n, "inverted size");
  for (size_t i = 0; i < n; i++) MC_CHECK(c, inv[i].p[0] == v[n - 1 - i].p[0] && inv[i].p[1] == v[n - 1 - i].p[1], "inverted polygon");
  auto xy = dfm2::XY_Polygon(v);
  MC_CHECK(c, xy.size() == 2 * n, "xy size");
  for (size_t i = 0; i < 2 * n; i++) MC_CHECK(c, xy[i] == v[i / 2].p[i % 2], "xy of polygon");
  // inclusion for every point of a finer grid that is not on the outline
  for (int gx = -1; gx <= 9; gx++)
    for (int gy = -1; gy <= 9; gy++) {
      P q{gx, gy};
      Loop l2;
      for (auto p : l) l2.push_back({p.first * 2, p.second * 2});
      bool on = false;
      for (size_t i = 0; i < n; i++) on |= onseg(l2[i], l2[(i + 1) % n], q);
      if (on) continue;
      const double co[2] = {gx * 0.5 * pl[0] + pl[1], gy * 0.5 * pl[0] + pl[2]};
      std::vector<V2> w = v;
      w.insert(w.begin(), V2(100, 100));
      w.push_back(V2(-100, 3));
      bool in = dfm2::IsInclude_Loop(co, 1, (int) n + 1, w);
      MC_CHECK(c, in == inside(l2, q), "point (%g,%g) is reported %s", co[0], co[1], in ? "inside" : "outside");
    }
  // resampling by arc length
  for (double st : {0.3, 0.77, 1.9}) {
    auto r = dfm2::Polygon_Resample_Polygon(v, st);
    size_t ex = 1 + (size_t) std::floor((double) len / st - 1e-9), ex1 = 1 + (size_t) std::floor((double) len / st + 1e-9);
    MC_CHECK(c, r.size() == ex || r.size() == ex1, "resampling of length %Lg by %g has %zu points", len, st, r.size());
    for (size_t i = 0; i < r.size(); i++) {
      double s = i * st; size_t e = 0;
      for (;; e++) { double le = std::hypot(v[(e + 1) % n].p[0] - v[e].p[0], v[(e + 1) % n].p[1] - v[e].p[1]); if (s <= le + 1e-9 || e + 1 == n) { s /= le; break; } s -= le; }
      double x = v[e].p[0] * (1 - s) + v[(e + 1) % n].p[0] * s, y = v[e].p[1] * (1 - s) + v[(e + 1) % n].p[1] * s;
      MC_CHECK(c, std::hypot(x - r[i].p[0], y - r[i].p[1]) < 1e-7, "resampled point %zu is off the outline", i);
    }
  }
  mc::Hash h; h << area << I1 << I2; c.outcome(h);
}

// loop utilities with loops that are stored in another order than the points
static void loopOrder(mc::Ch &c) {
  int il = c.choose((int) LOOPS3.size());
  c.require(LOOPS3[il].size() <= 5);
  int rot = c.choose(3), rev = c.choose(2), rev2 = c.choose(2);
  double st = c.pick({0.7, 1.1, 3.});
  c.commit();
  Loop l = LOOPS3[il];
  Loop h{{10, 10}, {11, 10}, {10, 11}};
  const int n = (int) l.size();
  c.describe("loop %s rotation %d reversed %d,%d step %g", show({l}).c_str(), rot, rev, rev2, st);
  std::vector<V2> v = toV(l, 1, 0, 0);
  for (auto &p : toV(h, 1, 0, 0)) v.push_back(p);
  std::vector<int> ind{0, n, n + 3}, lp;
  for (int i = 0; i < n; i++) lp.push_back((i + rot) % n);
  if (rev) std::reverse(lp.begin(), lp.end());
  for (int i = 0; i < 3; i++) lp.push_back(n + (i + rot) % 3);
  if (rev2) std::reverse(lp.begin() + n, lp.end());
  const auto lp0 = lp;
  dfm2::FixLoopOrientation(lp, ind, v);
  for (int k = 0; k < 2; k++) {
    std::vector<int> a(lp.begin() + ind[k], lp.begin() + ind[k + 1]), b(lp0.begin() + ind[k], lp0.begin() + ind[k + 1]), br(b.rbegin(), b.rend());
    ll ar = 0;
    auto P0 = [&](int i) { return i < n ? l[i] : h[i - n]; };
    for (size_t i = 0; i < a.size(); i++) { P p = P0(a[i]), q = P0(a[(i + 1) % a.size()]); ar += p.first * q.second - p.second * q.first; }
    MC_CHECK(c, a == b || a == br, "loop %d is neither kept nor reversed", k);
    MC_CHECK(c, (ar > 0) == (k == 0), "loop %d has the wrong orientation", k);
  }
  const auto lp1 = lp; const auto v1 = v;
  dfm2::ResamplingLoop(ind, lp, v, st);
  MC_CHECK(c, ind.size() == 3 && ind[0] == 0 && ind[2] == (int) lp.size() && lp.size() == v.size(), "sizes after resampling");
  for (size_t i = 0; i < v1.size(); i++) MC_CHECK(c, v[i].p[0] == v1[i].p[0] && v[i].p[1] == v1[i].p[1], "point %zu moved", i);
  std::set<int> seen(lp.begin(), lp.end());
  MC_CHECK(c, seen.size() == v.size(), "a point is missing from the resampled loops");
  for (int k = 0; k < 2; k++) {
    std::vector<int> o(lp1.begin() + (k ? n : 0), k ? lp1.end() : lp1.begin() + n);
    int pos = ind[k];
    for (size_t i = 0; i < o.size(); i++) {
      V2 a = v[o[i]], b = v[o[(i + 1) % o.size()]];
      double len = std::hypot(a.p[0] - b.p[0], a.p[1] - b.p[1]);
      int nd = (int) (len / st) + 1;
      for (int j = 0; j < nd; j++, pos++) {
        MC_CHECK(c, pos < ind[k + 1], "loop %d is too short", k);
        double r = (double) j / nd;
        V2 q = v[lp[pos]];
        MC_CHECK(c, std::hypot(q.p[0] - (a.p[0] * (1 - r) + b.p[0] * r), q.p[1] - (a.p[1] * (1 - r) + b.p[1] * r)) < 1e-9, "resampled loop %d: point %d is out of place", k, pos);
      }
    }
    MC_CHECK(c, pos == ind[k + 1], "loop %d is too long", k);
  }
  dfm2::CVec2d dummy;
  mc::Hash hh; hh.vec(lp); c.outcome(hh);
}

// enforced edges split a point set's triangulation into faces; flags, deletions and refinement respect the faces
static void faces(mc::Ch &c) {
  // a rectangle cut by a polyline into two faces; the cut runs over interior grid points
  int nx = 2 + c.choose(3), ny = 2;
  int a = c.choose(nx + 1), b = c.choose(nx + 1);
  int mid = c.choose(nx + 2);  // optional interior point (x=mid-?)
  double rf = c.pick({-1., 0.5, 0.9, 2.});
  unsigned order = c.choose(4);
  int del = c.choose(3);
  c.require(a > 0 || true);
  std::vector<P> pts;
  std::map<P, unsigned> id;
  auto add = [&](P p) { if (!id.count(p)) { id[p] = 0; pts.push_back(p); } };
  std::vector<P> cut;
  cut.push_back({2 * a, 0});
  if (mid > 0) { cut.push_back({2 * (mid - 1), 2}); c.require(mid - 1 > 0 && mid - 1 < nx); }
  cut.push_back({2 * b, 4});
  c.require(a > 0 && a < nx && b > 0 && b < nx);
  for (int i = 0; i <= nx; i++) add({2 * i, 0});
  for (int i = nx; i >= 0; i--) add({2 * i, 2 * ny});
  add({0, 2}); add({2 * nx, 2});
  for (auto p : cut) add(p);
  // the middle row must not lie on the cut
  if (order == 1) std::reverse(pts.begin(), pts.end());
  if (order == 2) std::rotate(pts.begin(), pts.begin() + pts.size() / 2, pts.end());
  if (order == 3) { std::vector<P> q; for (size_t i = 0; i < pts.size(); i += 2) q.push_back(pts[i]); for (size_t i = 1; i < pts.size(); i += 2) q.push_back(pts[i]); pts = q; }
  for (size_t i = 0; i < pts.size(); i++) id[pts[i]] = (unsigned) i;
  c.commit();
  c.describe("rectangle %d cut %d-%d-%d order %u face %g delete %d", nx, a, mid, b, order, rf, del);
  std::vector<V2> v = toV(pts, 1, 0, 0);
  std::vector<dfm2::CDynPntSur> po; std::vector<dfm2::CDynTri> tri;
  dfm2::Meshing_Initialize(po, tri, v);
  const unsigned ns = (unsigned) pts.size();
  Loop A, B;  // left (face 1) and right (face 2), counterclockwise
  for (int i = 0; i <= a; i++) A.push_back({2 * i, 0});
  if (mid > 0) A.push_back(cut[1]);
  for (int i = b; i >= 0; i--) A.push_back({2 * i, 4});
  A.push_back({0, 2});
  for (int i = a; i <= nx; i++) B.push_back({2 * i, 0});
  B.push_back({2 * nx, 2});
  for (int i = nx; i >= b; i--) B.push_back({2 * i, 4});
  if (mid > 0) B.push_back(cut[1]);
  std::set<std::pair<unsigned, unsigned>> done;
  for (auto *l : {&A, &B})
    for (size_t i = 0; i < l->size(); i++) {
      unsigned i0 = id[(*l)[i]], i1 = id[(*l)[(i + 1) % l->size()]];
      if (done.count({i1, i0})) continue;
      done.insert({i0, i1});
      dfm2::EnforceEdge(po, tri, i0, i1, v);
    }
  checkTopo(c, po, tri, v.size(), true);
  std::vector<int> flg(tri.size(), 0);
  int f = 1;
  for (auto *l : {&A, &B}) {
    unsigned it, ie;
    dfm2::FindEdge_LookAllTriangles(it, ie, (int) id[(*l)[0]], (int) id[(*l)[1]], tri);
    MC_CHECK(c, it < tri.size(), "enforced edge is not in the mesh");
    dfm2::FlagConnected(flg, tri, it, f++);
  }
  auto areaOf = [&](int fl) { double s = 0; for (size_t i = 0; i < tri.size(); i++) if (flg[i] == fl) s += triArea(v[tri[i].v[0]], v[tri[i].v[1]], v[tri[i].v[2]]); return s; };
  const double aA = area2(A) * 0.5, aB = area2(B) * 0.5;
  MC_CHECK(c, mc::near(areaOf(1), aA, 1e-9, 1e-9) && mc::near(areaOf(2), aB, 1e-9, 1e-9), "flagged areas (%g,%g) instead of (%g,%g)", areaOf(1), areaOf(2), aA, aB);
  for (size_t i = 0; i < tri.size(); i++) MC_CHECK(c, triArea(v[tri[i].v[0]], v[tri[i].v[1]], v[tri[i].v[2]]) > 1e-9, "triangle %zu is inverted", i);
  // delete the outside (and one of the faces)
  dfm2::DeleteTriFlag(tri, flg, 0);
  if (del) dfm2::DeleteTriFlag(tri, flg, del);
  MC_CHECK(c, flg.size() == tri.size(), "flags and triangles have different sizes");
  for (int x : flg) MC_CHECK(c, x != 0 && x != del, "a deleted flag is left");
  MC_CHECK(c, mc::near(areaOf(1), del == 1 ? 0 : aA, 1e-9, 1e-9) && mc::near(areaOf(2), del == 2 ? 0 : aB, 1e-9, 1e-9), "areas after deletion");
  std::vector<int> pf(v.size(), 0);
  std::vector<char> ref(v.size(), 0);
  for (auto &t : tri) for (unsigned k : {0, 1, 2}) ref[t.v[k]] = 1;
  std::vector<V2> keep;
  std::vector<unsigned> dl;
  for (unsigned i = 0; i < v.size(); i++) { if (ref[i]) { keep.push_back(v[i]); pf[i] = (int) i + 10; } else { pf[i] = 3; dl.push_back(i); } }
  if (order & 1) dfm2::DeleteUnrefPoints(v, po, tri, dl);
  else {
    dfm2::DeletePointsFlag(v, po, tri, pf, 3);
    MC_CHECK(c, pf.size() == v.size(), "point flags and points have different sizes");
    unsigned j = 0;
    for (unsigned i = 0; i < ref.size(); i++) if (ref[i]) { MC_CHECK(c, pf[j] == (int) i + 10, "flag of a kept point changed"); j++; }
  }
  MC_CHECK(c, v.size() == keep.size(), "%zu points are left instead of %zu", v.size(), keep.size());
  for (size_t i = 0; i < v.size(); i++) MC_CHECK(c, v[i].p[0] == keep[i].p[0] && v[i].p[1] == keep[i].p[1], "kept point %zu changed", i);
  checkTopo(c, po, tri, v.size(), true);
  MC_CHECK(c, mc::near(areaOf(1), del == 1 ? 0 : aA, 1e-9, 1e-9) && mc::near(areaOf(2), del == 2 ? 0 : aB, 1e-9, 1e-9), "areas after deleting points");
  // refine: each face keeps its area and flag, new points carry the flag of their face
  if (rf > 0) {
    std::vector<unsigned> fp(v.size(), 0), ft(flg.begin(), flg.end());
    const size_t np = v.size();
    struct Dens : dfm2::CInputTriangulation { double edgeLengthRatio(double x, double) const override { return x < 2 ? 0.7 : 1.0; } } dens;
    dfm2::MeshingInside(po, tri, v, fp, ft, np, 5, rf, dens);
    MC_CHECK(c, fp.size() == v.size() && ft.size() == tri.size() && po.size() == v.size(), "flag arrays have the wrong size");
    checkTopo(c, po, tri, v.size(), true);
    flg.assign(ft.begin(), ft.end());
    MC_CHECK(c, mc::near(areaOf(1), del == 1 ? 0 : aA, 1e-9, 1e-9) && mc::near(areaOf(2), del == 2 ? 0 : aB, 1e-9, 1e-9), "refined areas (%g,%g) instead of (%g,%g)", areaOf(1), areaOf(2), aA, aB);
    for (size_t i = 0; i < np; i++) MC_CHECK(c, v[i].p[0] == keep[i].p[0] && v[i].p[1] == keep[i].p[1], "fixed point %zu moved", i);
    for (size_t i = 0; i < tri.size(); i++) {
      MC_CHECK(c, triArea(v[tri[i].v[0]], v[tri[i].v[1]], v[tri[i].v[2]]) > 1e-9, "refined triangle %zu is inverted", i);
      for (unsigned k : {0, 1, 2}) {
        if (tri[i].v[k] >= np) MC_CHECK(c, fp[tri[i].v[k]] == ft[i] + 5, "point %u has flag %u in a triangle of face %u", tri[i].v[k], fp[tri[i].v[k]], ft[i]);
        if (tri[i].s2[k] != UINT_MAX) MC_CHECK(c, ft[tri[i].s2[k]] == ft[i], "neighbouring triangles of different faces");
      }
    }
  }
  (void) ns;
  mc::Hash h; h << (int) tri.size() << (int) v.size(); c.outcome(h);
}

// the mesh class: meshing, then rounds of local refinement and point insertion
static void dynmesh(mc::Ch &c) {
  int il = c.choose((int) LOOPS3.size());
  double el = c.pick({-1., 1.1});
  double len = c.pick({0.6, 1.5}), rad = c.pick({0.8, 2.1, 9.});
  int cx = c.choose(3), rounds = 1 + c.choose(2), ins = c.choose(3);
  if (!c.thorough) c.require((il + cx) % 3 == 0);
  c.commit();
  const Loop &l = LOOPS3[il];
  c.describe("loop %s edge %g, refine %g within %g of (%d,2), %d rounds, %d insertions", show({l}).c_str(), el, len, rad, 2 * cx, rounds, ins);
  dfm2::CMeshDynTri2D m;
  m.meshing_loops(toXY({l}), el);
  const double ar = std::abs((double) area2(l)) / 2;
  auto good = [&](const char *when) {
    checkTopo(c, m.aEPo, m.aETri, m.aVec2.size(), false);
    double a = 0;
    for (auto &t : m.aETri) {
      double q = triArea(m.aVec2[t.v[0]], m.aVec2[t.v[1]], m.aVec2[t.v[2]]);
      MC_CHECK(c, q > 1e-11, "%s: triangle of area %g", when, q);
      a += q;
    }
    MC_CHECK(c, mc::near(a, ar, 1e-9), "%s: triangles cover %g instead of %g", when, a, ar);
    MC_CHECK(c, m.nTri() == m.aETri.size() && m.nPoint() == m.aVec2.size() && m.aEPo.size() == m.aVec2.size(), "%s: sizes", when);
  };
  good("meshing");
  for (int k = 0; k < ins; k++) {
    const size_t nt = m.nTri();
    unsigned it = (unsigned) ((cx * 7 + k * 3) % nt);
    auto t = m.aETri[it];
    V2 e = 0.25 * m.aVec2[t.v[0]] + 0.5 * m.aVec2[t.v[1]] + 0.25 * m.aVec2[t.v[2]];
    int ip = m.insertPointElem((int) it, 0.25, 0.5);
    MC_CHECK(c, m.nTri() == nt + 2 && ip + 1 == (int) m.nPoint() && std::hypot(m.aVec2[ip].p[0] - e.p[0], m.aVec2[ip].p[1] - e.p[1]) < 1e-12, "inserted point");
    good("insertion");
    m.DelaunayAroundPoint(ip);
    good("Delaunay");
  }
  for (int k = 0; k < rounds; k++) {
    const auto v0 = m.aVec2;
    std::set<std::pair<unsigned, unsigned>> want;
    bool tie = false;
    for (auto &t : m.aETri) {
      double gx = 0, gy = 0;
      for (unsigned q : {0, 1, 2}) { gx += v0[t.v[q]].p[0] / 3; gy += v0[t.v[q]].p[1] / 3; }
      double d = std::hypot(gx - 2 * cx, gy - 2);
      if (std::abs(d - rad) < 1e-4) tie = true;
      if (d < rad) for (unsigned q : {0, 1, 2}) {
          unsigned a = t.v[q], b = t.v[(q + 1) % 3];
          double L = std::hypot(v0[a].p[0] - v0[b].p[0], v0[a].p[1] - v0[b].p[1]);
          if (std::abs(L - len) < 1e-9) tie = true;
          if (L > len) want.insert({std::min(a, b), std::max(a, b)});
        }
    }
    dfm2::CCmdRefineMesh cmd;
    m.RefinementPlan_EdgeLongerThan_InsideCircle(cmd, len, 2 * cx, 2, rad);
    good("refinement");
    if (tie) return;
    MC_CHECK(c, cmd.aCmdEdge.size() == want.size(), "%zu edges are to be divided instead of %zu", cmd.aCmdEdge.size(), want.size());
    std::vector<double> val(m.aVec2.size() * 2, -77.);
    for (size_t i = 0; i < v0.size(); i++) { val[2 * i] = 3 * v0[i].p[0] - v0[i].p[1]; val[2 * i + 1] = v0[i].p[1] * v0[i].p[1]; }
    std::set<int> fresh;
    for (auto &e : cmd.aCmdEdge) {
      MC_CHECK(c, want.count({(unsigned) std::min(e.ipo0, e.ipo1), (unsigned) std::max(e.ipo0, e.ipo1)}), "edge %d-%d is divided", e.ipo0, e.ipo1);
      MC_CHECK(c, e.ipo_new >= 0 && e.ipo_new < (int) m.aVec2.size() && fresh.insert(e.ipo_new).second, "new point %d", e.ipo_new);
      V2 q = 0.5 * (v0[e.ipo0] + v0[e.ipo1]);
      MC_CHECK(c, std::hypot(q.p[0] - m.aVec2[e.ipo_new].p[0], q.p[1] - m.aVec2[e.ipo_new].p[1]) < 1e-12, "new point %d is not the mid point", e.ipo_new);
    }
    for (size_t i = 0; i < v0.size(); i++) if (!fresh.count((int) i)) MC_CHECK(c, v0[i].p[0] == m.aVec2[i].p[0] && v0[i].p[1] == m.aVec2[i].p[1], "old point %zu moved", i);
    cmd.Interpolate(val.data(), (int) m.aVec2.size(), 2);
    for (auto &e : cmd.aCmdEdge) {
      const V2 &q = m.aVec2[e.ipo_new];
      MC_CHECK(c, mc::near(val[2 * e.ipo_new], 3 * q.p[0] - q.p[1]) && mc::near(val[2 * e.ipo_new + 1], 0.5 * (v0[e.ipo0].p[1] * v0[e.ipo0].p[1] + v0[e.ipo1].p[1] * v0[e.ipo1].p[1])), "interpolated value at the new point %d", e.ipo_new);
    }
  }
  mc::Hash h; h << (int) m.nTri() << (int) m.nPoint(); c.outcome(h);
}

int main(int argc, char **argv) {
  std::cout.rdbuf(nullptr);
  genLoops();
  return mc::run(argc, argv, mc::Config{"C02", "exploration",
      {"coordinates come from small integer grids (also scaled and shifted); inputs with coincident consecutive points or edges folding back onto their neighbour are not judged"}},
      {{"delaunay", delaunay, "every sequence of distinct grid points: covering, consistent, locally Delaunay triangulation"},
       {"delaunay_grid", delaunayGrid, "whole (sheared, rotated) grids in many insertion orders"},
       {"polygons", polygons, "every closed sequence of distinct grid points: simple ones are meshed exactly, crossing ones refused"},
       {"specials", specials, "combs, zigzags, spirals, stars, notches with refinement"},
       {"holes", holes, "outer outlines with every hole triangle and combinations of holes: exact mesh or refusal"},
       {"short_loops", shortLoops, "outlines and holes of one or two points are refused"},
       {"refine", refine, "all simple polygons of the 3x3 grid with boundary and interior target lengths"},
       {"refine_hole", refineHole, "outlines with holes with boundary and interior target lengths"},
       {"dynmesh", dynmesh, "mesh class: meshing, point insertion and rounds of local refinement keep the domain"},
       {"measures", measures, "polygon measures, inclusion and resampling"},
       {"loop_order", loopOrder, "orientation fixing and resampling of loops stored in any order"},
       {"faces", faces, "enforced edges separate faces; deletion and refinement keep them"}});
}
