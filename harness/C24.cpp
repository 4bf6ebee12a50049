// C24: isosurface stuffing over all sign patterns and refinement patterns of small lattices, and adaptive distance fields.
#include "mc.h"
#include <cassert>
#include <cmath>
#include <vector>
#include <array>
#include <set>
#include <map>
#include <iostream>
#include <functional>
#include <algorithm>
#include "delfem2/isrf_iss.h"
#include "delfem2/isrf_adf.h"
namespace dfm2 = delfem2;
using mc::Ch;
using U = unsigned int;
using V3 = std::array<double, 3>;

struct Quiet {
  std::streambuf *b;
  Quiet() { b = std::cout.rdbuf(nullptr); }
  ~Quiet() { std::cout.rdbuf(b); std::cout.clear(); }
};

struct In : dfm2::CInput_IsosurfaceStuffing {
  std::function<double(double, double, double)> f;
  std::function<void(int &, int &, int &, double, double, double)> lev;
  double SignedDistance(double x, double y, double z) const override { return f(x, y, z); }
  void Level(int &v, int &s, int &n, double &sdf, double x, double y, double z) const override {
    sdf = f(x, y, z);
    v = -1; s = -1; n = 1;
    if (lev) lev(v, s, n, x, y, z);
  }
};

static V3 at(const double *p) { return {p[0], p[1], p[2]}; }
static V3 sub(const V3 &a, const V3 &b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static double dot(const V3 &a, const V3 &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static V3 cross(const V3 &a, const V3 &b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static double vol6(const V3 &a, const V3 &b, const V3 &c, const V3 &d) { return dot(cross(sub(b, a), sub(c, a)), sub(d, a)); }

struct Box { double lo[3], hi[3]; };
static int box_mask(const Box &b, const V3 &p, double e) {
  int m = 0;
  for (int k = 0; k < 3; ++k) {
    if (std::fabs(p[k] - b.lo[k]) < e) m |= 1 << (2 * k);
    if (std::fabs(p[k] - b.hi[k]) < e) m |= 2 << (2 * k);
  }
  return m;
}

// Faces of a set of tetrahedra: each at most twice, in opposite orientations. Returns those occurring once (outward).
static std::vector<std::array<U, 3>> boundary(Ch &c, const std::vector<U> &tet, const char *what) {
  struct F { std::array<U, 3> key; std::array<U, 3> f; int s; };
  std::vector<F> fs;
  fs.reserve(tet.size());
  static const int fc[4][3] = {{1, 2, 3}, {0, 3, 2}, {0, 1, 3}, {0, 2, 1}};   // outward for a positive tetrahedron
  for (size_t i = 0; i + 3 < tet.size(); i += 4)
    for (auto &q : fc) {
      std::array<U, 3> f = {tet[i + q[0]], tet[i + q[1]], tet[i + q[2]]};
      int s = 1;
      std::array<U, 3> k = f;
      if (k[0] > k[1]) { std::swap(k[0], k[1]); s = -s; }
      if (k[1] > k[2]) { std::swap(k[1], k[2]); s = -s; }
      if (k[0] > k[1]) { std::swap(k[0], k[1]); s = -s; }
      fs.push_back({k, f, s});
    }
  std::sort(fs.begin(), fs.end(), [](const F &a, const F &b) { return a.key < b.key || (a.key == b.key && a.s < b.s); });
  std::vector<std::array<U, 3>> out;
  for (size_t i = 0; i < fs.size();) {
    size_t j = i;
    while (j < fs.size() && fs[j].key == fs[i].key) ++j;
    MC_CHECK(c, j - i <= 2 && (j - i == 1 || fs[i].s + fs[i + 1].s == 0), "%s: face %u %u %u belongs to %zu tetrahedra%s", what, fs[i].key[0], fs[i].key[1], fs[i].key[2], j - i, j - i == 2 ? " lying on the same side" : "");
    if (j - i == 1) out.push_back(fs[i].f);
    i = j;
  }
  return out;
}

// The background lattice: positive tetrahedra, conforming, filling the box.
static void check_lattice(Ch &c, const std::vector<dfm2::CPointLattice> &pt, const std::vector<U> &tet, const Box &bx, const In &in) {
  double v = 0, e = (bx.hi[0] - bx.lo[0]);
  MC_CHECK(c, tet.size() % 4 == 0, "lattice: %zu indices", tet.size());
  for (U i : tet) MC_CHECK(c, i < pt.size(), "lattice: index %u of %zu points", i, pt.size());
  for (size_t i = 0; i < tet.size(); i += 4) {
    double w = vol6(at(pt[tet[i]].pos), at(pt[tet[i + 1]].pos), at(pt[tet[i + 2]].pos), at(pt[tet[i + 3]].pos));
    MC_CHECK(c, w > 1e-9 * e * e * e * 1e-3, "lattice: tetrahedron %zu has volume %g", i / 4, w / 6);
    v += w / 6;
  }
  MC_CHECK(c, mc::near(v, e * e * e, 1e-9), "lattice: tetrahedra fill %.12g of the box's %.12g", v, e * e * e);
  for (auto &f : boundary(c, tet, "lattice")) {
    int m = 63;
    for (U i : f) m &= box_mask(bx, at(pt[i].pos), 1e-9 * e);
    MC_CHECK(c, m != 0, "lattice: face %u %u %u inside of the box has a tetrahedron on one side only", f[0], f[1], f[2]);
  }
  for (auto &p : pt) MC_CHECK(c, p.sdf == in.f(p.pos[0], p.pos[1], p.pos[2]), "lattice: point (%g %g %g) has value %g, the field is %g there", p.pos[0], p.pos[1], p.pos[2], p.sdf, in.f(p.pos[0], p.pos[1], p.pos[2]));
  std::set<V3> seen;
  for (auto &p : pt) MC_CHECK(c, seen.insert(at(p.pos)).second, "lattice: two points at (%g %g %g)", p.pos[0], p.pos[1], p.pos[2]);
}

static bool in_tet(const V3 &p, const V3 q[4], double tol) {
  static const int fc[4][3] = {{1, 2, 3}, {0, 3, 2}, {0, 1, 3}, {0, 2, 1}};
  for (auto &f : fc)
    if (vol6(q[f[0]], q[f[1]], q[f[2]], p) > -tol) return false;    // strictly inside only
  return true;
}

// positive: also require positive volumes
static void check_stuffing(Ch &c, const std::vector<double> &x, const std::vector<U> &tet, const std::vector<int> &on,
                           const std::vector<dfm2::CPointLattice> &pt, const std::vector<U> &lt, const Box &bx, bool box_outside) {
  const double e = bx.hi[0] - bx.lo[0];
  MC_CHECK(c, x.size() % 3 == 0 && on.size() == x.size() / 3 && tet.size() % 4 == 0, "sizes: %zu coordinates, %zu flags, %zu indices", x.size(), on.size(), tet.size());
  const size_t np = on.size();
  for (U i : tet) MC_CHECK(c, i < np, "index %u of %zu points", i, np);
  for (double d : x) MC_CHECK(c, std::isfinite(d), "coordinate %g", d);
  // lattice edges, and the zeros of the linear interpolant on them
  std::set<std::pair<U, U>> edge;
  for (size_t i = 0; i < lt.size(); i += 4)
    for (int a = 0; a < 4; ++a)
      for (int b = 0; b < a; ++b) edge.insert({std::min(lt[i + a], lt[i + b]), std::max(lt[i + a], lt[i + b])});
  std::vector<V3> zero;
  const size_t nl = pt.size();
  std::vector<char> cut(nl, 0), keep(nl, 1);
  for (auto &ed : edge) {
    const double s0 = pt[ed.first].sdf, s1 = pt[ed.second].sdf;
    if ((s0 < 0) == (s1 < 0)) continue;
    const double r = s1 / (s1 - s0);
    V3 z;
    for (int k = 0; k < 3; ++k) z[k] = r * pt[ed.first].pos[k] + (1 - r) * pt[ed.second].pos[k];
    zero.push_back(z);
    cut[ed.first] = cut[ed.second] = 1;
    if (std::fabs(s0) < std::fabs(s1)) keep[ed.first] = 0;     // may be moved onto the surface
    if (std::fabs(s1) < std::fabs(s0)) keep[ed.second] = 0;
    // equal magnitudes: half way, never moved
  }
  auto key = [&](const V3 &p, int dx, int dy, int dz) {
    return std::array<long, 3>{std::lround(std::floor(p[0] / e * 1e7)) + dx, std::lround(std::floor(p[1] / e * 1e7)) + dy, std::lround(std::floor(p[2] / e * 1e7)) + dz};
  };
  std::set<std::array<long, 3>> zs;
  for (auto &z : zero) for (int i = 0; i < 27; ++i) zs.insert(key(z, i % 3 - 1, i / 3 % 3 - 1, i / 9 - 1));
  std::map<V3, U> lp;
  for (U i = 0; i < nl; ++i) lp[at(pt[i].pos)] = i;
  std::vector<char> present(nl, 0);
  std::vector<int> lat(np, -1);
  for (size_t i = 0; i < np; ++i) {
    MC_CHECK(c, on[i] == 0 || on[i] == 1, "flag %d", on[i]);
    const V3 p = at(&x[3 * i]);
    if (on[i]) {
      MC_CHECK(c, zs.count(key(p, 0, 0, 0)), "point %zu (%g %g %g) is flagged as lying on the surface, but is not at a zero on a lattice edge", i, p[0], p[1], p[2]);
    } else {
      auto it = lp.find(p);
      MC_CHECK(c, it != lp.end() && !(pt[it->second].sdf < 0), "point %zu (%g %g %g) is flagged as interior, but is not an inside lattice point", i, p[0], p[1], p[2]);
      present[it->second] = 1;
      lat[i] = it->second;
    }
  }
  for (U i = 0; i < nl; ++i)
    if (!(pt[i].sdf < 0) && keep[i]) MC_CHECK(c, present[i], "inside lattice point (%g %g %g) is not part of the mesh", pt[i].pos[0], pt[i].pos[1], pt[i].pos[2]);
  double vol = 0;
  for (size_t i = 0; i < tet.size(); i += 4) {
    const double v = vol6(at(&x[3 * tet[i]]), at(&x[3 * tet[i + 1]]), at(&x[3 * tet[i + 2]]), at(&x[3 * tet[i + 3]]));
    MC_CHECK(c, v > 0, "tetrahedron %zu (%u %u %u %u) has volume %g", i / 4, tet[i], tet[i + 1], tet[i + 2], tet[i + 3], v / 6);
    vol += v / 6;
  }
  std::vector<char> used(np, 0);
  for (U i : tet) used[i] = 1;
  for (size_t i = 0; i < np; ++i) if (!on[i]) MC_CHECK(c, used[i], "interior point %zu belongs to no tetrahedron", i);
  std::map<std::pair<U, U>, int> bedge;
  for (auto &f : boundary(c, tet, "mesh")) {
    bool srf = on[f[0]] && on[f[1]] && on[f[2]];
    if (!srf) {
      int m = 63;
      bool all = true;
      for (U i : f) { int k = box_mask(bx, at(&x[3 * i]), 1e-9 * e); if (!on[i]) m &= k; }
      all = m != 0 && !box_outside;
      MC_CHECK(c, all, "boundary triangle %u %u %u lies neither on the surface nor on the lattice boundary", f[0], f[1], f[2]);
    }
    for (int k = 0; k < 3; ++k) bedge[{f[k], f[(k + 1) % 3]}]++;
  }
  for (auto &q : bedge) {
    auto it = bedge.find({q.first.second, q.first.first});
    MC_CHECK(c, it != bedge.end() && it->second == q.second, "the boundary surface is not closed at edge %u %u", q.first.first, q.first.second);
  }
  // outside points that were not moved stay outside
  for (U i = 0; i < nl; ++i) {
    if (!(pt[i].sdf < 0) || !keep[i]) continue;
    const V3 p = at(pt[i].pos);
    for (size_t j = 0; j < tet.size(); j += 4) {
      V3 q[4] = {at(&x[3 * tet[j]]), at(&x[3 * tet[j + 1]]), at(&x[3 * tet[j + 2]]), at(&x[3 * tet[j + 3]])};
      MC_CHECK(c, !in_tet(p, q, 1e-9 * e * e * e), "outside lattice point (%g %g %g) is covered by tetrahedron %zu", p[0], p[1], p[2], j / 4);
    }
  }
  mc::Hash h;
  h << tet.size() << np << std::llround(vol / (e * e * e) * 1e6);
  c.outcome(h);
}

static void run_stuffing(Ch &c, const In &in, double elen, double width, const double cen[3], bool box_outside, bool lattice) {
  int nd = (int) (width / elen);
  if (nd == 0) nd = 1;
  const double el = width / nd;
  Box bx;
  for (int k = 0; k < 3; ++k) { bx.lo[k] = cen[k] - 0.5 * el * nd; bx.hi[k] = bx.lo[k] + el * nd; }
  std::vector<dfm2::CPointLattice> pt;
  std::vector<U> lt;
  std::vector<double> x = {1, 2};
  std::vector<U> tet = {7, 8, 9};
  std::vector<int> on = {5};
  bool ok;
  {
    Quiet q;
    dfm2::makeBackgroundLattice(pt, lt, in, el, nd, bx.lo);
    ok = dfm2::IsoSurfaceStuffing(x, tet, on, in, elen, width, cen);
  }
  MC_CHECK(c, ok, "returned false");
  if (lattice) check_lattice(c, pt, lt, bx, in);
  check_stuffing(c, x, tet, on, pt, lt, bx, box_outside);
}

// all value patterns of the nine points of one cell
static void one_cell(Ch &c) {
  double val[9];
  static const double alph[5] = {-8, 1, 8, -1, 0};
  const int n = c.thorough ? 5 : 4;
  for (double &v : val) v = alph[c.choose(n)];
  c.commit();
  In in;
  in.f = [&](double x, double y, double z) {
    if (x == 1 && y == 1 && z == 1) return val[8];
    return val[(x > 1 ? 1 : 0) + (y > 1 ? 2 : 0) + (z > 1 ? 4 : 0)];
  };
  const double cen[3] = {1, 1, 1};
  c.describe("values %g %g %g %g %g %g %g %g centre %g", val[0], val[1], val[2], val[3], val[4], val[5], val[6], val[7], val[8]);
  run_stuffing(c, in, 2, 2, cen, false, false);
}

// 3x3x3 cells: all value patterns of the six points around one face of the middle cell; the lattice boundary is outside
static void window(Ch &c) {
  const int face = c.choose(6), dir = face / 2, s = face % 2;
  const int fill = c.choose(2);
  static const double alph[4] = {-8, 1, 8, -1};
  double val[6];
  for (double &v : val) v = alph[c.choose(4)];
  c.commit();
  In in;
  in.f = [&](double x, double y, double z) {      // lattice spacing 2, corners even, centres odd, 0..6
    const int p[3] = {(int) std::lround(x), (int) std::lround(y), (int) std::lround(z)};
    if (p[0] % 2 == 0) {
      for (int k : p) if (k == 0 || k == 6) return -3.0;
      if (p[dir] == 2 + 2 * s) {
        int a = p[(dir + 1) % 3] == 2 ? 0 : 1, b = p[(dir + 2) % 3] == 2 ? 0 : 1;
        return val[a + 2 * b];
      }
      return fill ? 3.0 : -3.0;
    }
    if (p[(dir + 1) % 3] == 3 && p[(dir + 2) % 3] == 3) {
      if (p[dir] == 3) return val[4];
      if (p[dir] == (s ? 5 : 1)) return val[5];
    }
    for (int k : p) if (k == 1 || k == 5) return -3.0;
    return fill ? 3.0 : -3.0;
  };
  const double cen[3] = {3, 3, 3};
  c.describe("face %d fill %d values %g %g %g %g | %g %g", face, fill, val[0], val[1], val[2], val[3], val[4], val[5]);
  run_stuffing(c, in, 2, 6, cen, true, false);
}

static double field(int kind, const double *o, double r, double x, double y, double z) {
  const double a = x - o[0], b = y - o[1], d = z - o[2];
  switch (kind) {
    case 0: return r - std::sqrt(a * a + b * b + d * d);
    case 1: return r - std::max(std::fabs(a), std::max(std::fabs(b), std::fabs(d)));
    case 2: return (r - a - 0.7 * b - 0.2 * d) / std::sqrt(1.53);
    case 3: return std::min(r - std::sqrt(a * a + b * b + d * d), std::sqrt(a * a + b * b + d * d) - 0.4 * r);
    case 4: return std::max(r - std::sqrt(a * a + b * b + d * d), 0.5 * r - std::sqrt((a - r) * (a - r) + (b - r) * (b - r) + d * d));
    default: return r - std::sqrt(a * a + b * b);
  }
}

static void fields(Ch &c) {
  const int nd = 1 + c.choose(c.thorough ? 7 : 5);
  const int kind = c.choose(6);
  const double width = c.pick({1.0, 7.3});
  const double slack = c.pick({1.0, 0.93});    // element length that divides the width or not
  const double o = c.pick({0.0, 0.11, -0.23});
  const double r = c.pick({0.35, 0.25, 0.48, 0.1, 2.0});
  c.commit();
  const double cen[3] = {0.3, -1, 12};
  const double oo[3] = {cen[0] + o * width, cen[1] + 0.5 * o * width, cen[2] - 0.3 * o * width};
  In in;
  in.f = [&](double x, double y, double z) { return field(kind, oo, r * width, x, y, z); };
  const double el = width / nd * slack * (1 + 1e-12);
  c.describe("field %d ndiv %d width %g slack %g offset %g r %g", kind, (int) (width / el), width, slack, o, r);
  run_stuffing(c, in, el, width, cen, false, true);
}

// refinement: any pattern of refined cells yields a conforming lattice
static void refine_pattern(Ch &c) {
  const int nd = 1 + c.choose(2);
  const int corner = c.choose(nd == 1 ? 1 : 8);
  int set = 0;
  for (int i = 0; i < 8; ++i) set |= c.choose(2) << i;
  const int deep = c.choose(nd == 1 ? 9 : 3);   // one of the children refined once more: none / child
  const int kind = c.choose(3);
  c.commit();
  In in;
  // coordinates: cell size 8
  const double w = 8.0 * nd, cen[3] = {w / 2, w / 2, w / 2};
  in.f = [&](double x, double y, double z) {
    if (kind == 0) return 100.0;
    const double o[3] = {w / 2 + 0.4, w / 2 - 0.3, w / 2 + 0.2};
    return field(kind == 1 ? 0 : 2, o, kind == 1 ? w * 0.4 : 0, x, y, z);
  };
  in.lev = [&](int &v, int &, int &, double x, double y, double z) {
    const int cx = (int) (x / 8), cy = (int) (y / 8), cz = (int) (z / 8);
    v = 0;
    if (nd == 2 && cx + 2 * cy + 4 * cz != corner) return;
    const int ch = (x - 8 * cx > 4 ? 1 : 0) + (y - 8 * cy > 4 ? 2 : 0) + (z - 8 * cz > 4 ? 4 : 0);
    if (!(set >> ch & 1)) return;
    v = 1;
    if (deep && (nd == 1 ? deep - 1 == ch : (deep == 1 ? ch == corner : ch == (7 ^ corner)))) v = 2;
  };
  c.describe("ndiv %d cell %d refined children %02x deep %d field %d", nd, corner, set, deep, kind);
  run_stuffing(c, in, 8, w, cen, false, true);
}

// refinement by a ball / towards the surface
static void refine_region(Ch &c) {
  const int nd = 1 + c.choose(3);
  const int mode = c.choose(2);
  const int L = 1 + c.choose(c.thorough ? 4 : 3);
  const double px = c.choose(c.thorough ? 4 : 2) / 4.0 + 0.03, py = c.choose(c.thorough ? 3 : 2) / 3.0 + 0.05, r = c.pick({0.05, 0.2, 0.45});
  const int kind = c.choose(3);
  const int nlayer = mode ? 1 + c.choose(2) : 1;
  c.commit();
  In in;
  const double w = 1, cen[3] = {0.5, 0.5, 0.5};
  const double q[3] = {px, py, 0.4};
  in.f = [&](double x, double y, double z) {
    if (kind == 0) return 100.0;
    return field(kind == 1 ? 0 : 1, mode ? q : cen, mode ? r : 0.37, x, y, z);
  };
  in.lev = [&](int &v, int &s, int &n, double x, double y, double z) {
    if (mode) { s = L; n = nlayer; return; }
    double d = std::sqrt((x - q[0]) * (x - q[0]) + (y - q[1]) * (y - q[1]) + (z - q[2]) * (z - q[2]));
    v = d < r ? L : 0;
  };
  c.describe("ndiv %d %s level %d at (%g %g .4) r %g field %d nlayer %d", nd, mode ? "surface" : "ball", L, px, py, r, kind, nlayer);
  run_stuffing(c, in, 1.0 / nd * (1 + 1e-12), w, cen, false, true);
}

// ------------------------------------------------ adaptive distance field
struct InA : dfm2::Input_AdaptiveDistanceField3 {
  std::function<double(double, double, double)> f;
  double sdf(double x, double y, double z) const override { return f(x, y, z); }
};
static const int CRN[8][3] = {{-1, -1, -1}, {1, -1, -1}, {1, 1, -1}, {-1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {1, 1, 1}, {-1, 1, 1}};

static void adf(Ch &c) {
  const int kind = c.choose(6);
  const int oi = c.choose(c.thorough ? 5 : 2);
  const double o = oi * 0.13 - 0.17, S = oi % 2 ? 40.0 : 1.0;
  const double r = c.thorough ? c.pick({0.4, 0.15, 0.8}) : c.pick({0.4, 0.15});
  const int aspect = c.choose(4);
  const bool again = aspect == 1 && c.flip();
  c.commit();
  double bb[6] = {-S, S, -S, S, -S, S};
  if (aspect) for (int k = 0; k < 3; ++k) if (k != aspect - 1) { bb[2 * k] *= 0.5; bb[2 * k + 1] *= 0.25; }
  const double oo[3] = {o * S, -0.5 * o * S, 0.25 * o * S};
  InA in;
  in.f = [&](double x, double y, double z) { return field(kind, oo, r * S, x, y, z); };
  dfm2::AdaptiveDistanceField3 A;
  if (again) {
    InA other;
    other.f = [&](double x, double y, double z) { return field(0, oo, 0.3 * S, x, y, z); };
    A.SetUp(other, bb);
  }
  A.SetUp(in, bb);
  c.describe("field %d scale %g offset %g r %g aspect %d reused %d", kind, S, o, r, aspect, (int) again);
  // structure
  const auto &N = A.aNode;
  MC_CHECK(c, !N.empty(), "no node");
  for (int k = 0; k < 3; ++k) MC_CHECK(c, N[0].cent_[k] - N[0].hw_ <= bb[2 * k] && N[0].cent_[k] + N[0].hw_ >= bb[2 * k + 1], "the root does not cover the box in direction %d", k);
  const double R = N[0].hw_;
  std::vector<int> leaf, st = {0};
  std::vector<char> seen(N.size(), 0);
  while (!st.empty()) {
    int i = st.back();
    st.pop_back();
    MC_CHECK(c, i >= 0 && i < (int) N.size() && !seen[i], "child %d of %zu nodes referenced twice or out of range", i, N.size());
    seen[i] = 1;
    if (N[i].ichilds_[0] == -1) leaf.push_back(i);
    else for (int k : N[i].ichilds_) st.push_back(k);
  }
  double vol = 0;
  mc::Hash h;
  h << leaf.size();
  const double minhw = R / 64;
  for (int i : leaf) {
    const auto &n = N[i];
    const double hw = n.hw_;
    vol += hw * hw * hw / (R * R * R);
    auto val = [&](double a, double b, double d) { return in.f(n.cent_[0] + a * hw, n.cent_[1] + b * hw, n.cent_[2] + d * hw); };
    double ref[8];
    for (int k = 0; k < 8; ++k) {
      ref[k] = val(CRN[k][0], CRN[k][1], CRN[k][2]);
      MC_CHECK(c, mc::near(n.dists_[k], ref[k], 1e-9, 1e-9 * S), "leaf at (%g %g %g) size %g: value %.17g at corner %d, the field is %.17g there", n.cent_[0], n.cent_[1], n.cent_[2], hw, n.dists_[k], k, ref[k]);
    }
    double mind = 1e300;
    for (int q = 0; q < 27; ++q) {
      const int a = q % 3 - 1, b = q / 3 % 3 - 1, d = q / 9 - 1;
      if (a * b * d) continue;       // not a corner
      mind = std::min(mind, std::fabs(val(a, b, d)));
    }
    const bool far = mind > 1.8 * hw * (1 - 1e-9), small = hw <= 2 * minhw * (0.99 + 1e-9);
    for (int q = 0; q < 27; ++q) {
      const int ia = q % 3 - 1, ib = q / 3 % 3 - 1, id = q / 9 - 1;
      const V3 p = {n.cent_[0] + ia * hw, n.cent_[1] + ib * hw, n.cent_[2] + id * hw};
      bool inside = true;
      for (int k = 0; k < 3; ++k) if (std::fabs(p[k] - N[0].cent_[k]) > R * (1 - 1e-9)) inside = false;
      if (!inside) continue;           // on the root's boundary: rounding decides
      double nn[3] = {9, 9, 9};
      const double f = in.f(p[0], p[1], p[2]);
      if (!far && !small) {
        double m = 0;
        for (int k = 0; k < 8; ++k) m += (1 + ia * CRN[k][0]) * (1 + ib * CRN[k][1]) * (1 + id * CRN[k][2]) / 8.0 * ref[k];
        MC_CHECK(c, std::fabs(m - f) <= minhw * 0.8 * (1 + 1e-6), "at (%.17g %.17g %.17g) a leaf of size %g interpolates %.17g, the field is %.17g (tolerance %g)", p[0], p[1], p[2], hw, m, f, minhw * 0.8);
      }
      const double v = A.Projection(p[0], p[1], p[2], nn);
      // the point may belong to any of the leaves touching it
      double mine = 0;
      for (int k = 0; k < 8; ++k) mine += (1 + ia * CRN[k][0]) * (1 + ib * CRN[k][1]) * (1 + id * CRN[k][2]) / 8.0 * ref[k];
      bool ok = mc::near(v, mine, 1e-8, 1e-8 * S);
      std::vector<int> st2 = {0};
      while (!st2.empty() && !ok) {
        const auto &l = N[st2.back()];
        st2.pop_back();
        double w[3];
        bool hit = true;
        for (int k = 0; k < 3; ++k) { w[k] = (p[k] - l.cent_[k]) / l.hw_; if (std::fabs(w[k]) > 1 + 1e-9) hit = false; }
        if (!hit) continue;
        if (l.ichilds_[0] != -1) { for (int k : l.ichilds_) st2.push_back(k); continue; }
        double m = 0;
        for (int k = 0; k < 8; ++k) m += (1 + w[0] * CRN[k][0]) * (1 + w[1] * CRN[k][1]) * (1 + w[2] * CRN[k][2]) / 8.0 * l.dists_[k];
        ok = mc::near(v, m, 1e-8, 1e-8 * S);
      }
      MC_CHECK(c, ok, "at (%.17g %.17g %.17g) the query returns %.17g, the field is %.17g: not the interpolation in any cell there", p[0], p[1], p[2], v, f);
    }
    // inside of the leaf: trilinear, normal = direction of decrease
    for (int q = 0; q < 3; ++q) {
      static const double T[3][3] = {{0.25, -0.5, 0.125}, {-0.75, 0.5, 0.625}, {0.5, 0.875, -0.25}};
      const double *t = T[q];
      double v = 0, g[3] = {0, 0, 0};
      for (int k = 0; k < 8; ++k) {
        const double wx = (1 + t[0] * CRN[k][0]) / 2, wy = (1 + t[1] * CRN[k][1]) / 2, wz = (1 + t[2] * CRN[k][2]) / 2;
        v += wx * wy * wz * ref[k];
        g[0] += CRN[k][0] * wy * wz * ref[k];
        g[1] += CRN[k][1] * wx * wz * ref[k];
        g[2] += CRN[k][2] * wx * wy * ref[k];
      }
      double nn[3] = {9, 9, 9};
      const double u = A.Projection(n.cent_[0] + t[0] * hw, n.cent_[1] + t[1] * hw, n.cent_[2] + t[2] * hw, nn);
      MC_CHECK(c, mc::near(u, v, 1e-9, 1e-9 * S), "in the leaf at (%g %g %g) size %g: query %.17g, interpolation of the corner values %.17g", n.cent_[0], n.cent_[1], n.cent_[2], hw, u, v);
      const double l = std::sqrt(g[0] * g[0] + g[1] * g[1] + g[2] * g[2]);
      if (l < 1e-3 * hw) continue;
      for (int k = 0; k < 3; ++k) MC_CHECK(c, mc::near(nn[k], -g[k] / l, 1e-6, 1e-6), "normal (%g %g %g), direction of decrease (%g %g %g)", nn[0], nn[1], nn[2], -g[0] / l, -g[1] / l, -g[2] / l);
    }
    h << std::llround(n.dists_[0] / S * 1e6);
  }
  MC_CHECK(c, mc::near(vol, 1, 1e-9), "the leaves cover %g of the root", vol);
  double lo = 1e300, hi = -1e300;
  for (int i : leaf) for (double d : N[i].dists_) { lo = std::min(lo, d); hi = std::max(hi, d); }
  MC_CHECK(c, A.dist_min <= lo && A.dist_max >= hi, "range [%g %g], corner values span [%g %g]", A.dist_min, A.dist_max, lo, hi);
  // outside of the root: reported as outside, normal facing outward
  static const int D[7][3] = {{1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, -1, 0}, {0, 0, 1}, {0, 0, -1}, {1, -1, 1}};
  for (auto &d : D) {
    double nn[3] = {9, 9, 9};
    V3 p;
    for (int k = 0; k < 3; ++k) p[k] = N[0].cent_[k] + 1.5 * R * d[k];
    const double v = A.Projection(p[0], p[1], p[2], nn);
    MC_CHECK(c, v < 0, "far outside the value is %g", v);
    const double out = nn[0] * d[0] + nn[1] * d[1] + nn[2] * d[2];
    MC_CHECK(c, mc::near(nn[0] * nn[0] + nn[1] * nn[1] + nn[2] * nn[2], 1, 1e-9) && out > 0, "far outside at (%g %g %g) the normal (%g %g %g) does not face outward", p[0], p[1], p[2], nn[0], nn[1], nn[2]);
  }
  // isosurface
  std::vector<double> tri = {1, 2, 3};
  A.BuildIsoSurface_MarchingCube(tri);
  MC_CHECK(c, tri.size() % 9 == 0, "isosurface of %zu numbers", tri.size());
  for (size_t i = 0; i < tri.size(); i += 9) {
    for (int k = 0; k < 3; ++k) {
      const double *p = &tri[i + 3 * k];
      double nn[3];
      for (int m = 0; m < 3; ++m) MC_CHECK(c, std::fabs(p[m] - N[0].cent_[m]) <= R * (1 + 1e-9), "isosurface corner outside of the root");
      bool b = false;
      for (int m = 0; m < 3; ++m) if (std::fabs(p[m] - N[0].cent_[m]) > R * (1 - 1e-9)) b = true;
      if (b) continue;
      const double v = A.Projection(p[0], p[1], p[2], nn);
      MC_CHECK(c, std::fabs(v) <= 3 * minhw, "isosurface corner (%g %g %g) has value %g", p[0], p[1], p[2], v);
    }
  }
  h << tri.size();
  c.outcome(h);
}

// marching cubes: all sign patterns of two neighbouring cells, with several magnitudes
static void cubes(Ch &c) {
  const int dir = c.choose(3), scale = c.choose(2);
  int sg = 0;
  for (int i = 0; i < 12; ++i) sg |= c.choose(2) << i;
  c.commit();
  double val[12];
  for (int i = 0; i < 12; ++i) val[i] = (sg >> i & 1 ? -1 : 1) * (scale ? 1 + (i * 5 % 12) / 4.0 : 1);
  // corner lattice: 3 along dir, 2 x 2 across
  auto idx = [&](const int p[3]) { return p[dir] + 3 * (p[(dir + 1) % 3] + 2 * p[(dir + 2) % 3]); };
  dfm2::AdaptiveDistanceField3 A;
  A.aNode.resize(9);
  A.aNode[0].hw_ = 2;
  for (int k = 0; k < 3; ++k) A.aNode[0].cent_[k] = 2;
  int cells = 0;
  for (int ch = 0; ch < 8; ++ch) {
    auto &n = A.aNode[1 + ch];
    A.aNode[0].ichilds_[ch] = 1 + ch;
    n.hw_ = 1;
    bool mine = true;
    int b[3];
    for (int k = 0; k < 3; ++k) { b[k] = CRN[ch][k] > 0; n.cent_[k] = 1 + 2 * b[k]; if (k != dir && b[k]) mine = false; }
    for (int k = 0; k < 8; ++k) {
      int p[3];
      for (int m = 0; m < 3; ++m) p[m] = (mine ? b[m] : 0) + (CRN[k][m] > 0);
      n.dists_[k] = mine ? val[idx(p)] : 1;
    }
    cells += mine;
  }
  c.describe("direction %d signs %03x scale %d", dir, sg, scale);
  std::vector<double> tri;
  A.BuildIsoSurface_MarchingCube(tri);
  MC_CHECK(c, cells == 2 && tri.size() % 9 == 0, "%zu numbers", tri.size());
  // every lattice edge with a sign change carries a vertex at the zero of the linear interpolant; nothing else
  std::map<std::array<long, 3>, int> want;
  auto key = [](const double *p) { return std::array<long, 3>{std::lround(p[0] * 1e6), std::lround(p[1] * 1e6), std::lround(p[2] * 1e6)}; };
  for (int q = 0; q < 12; ++q)
    for (int d = 0; d < 3; ++d) {
      int p[3], r[3];
      p[dir] = q % 3; p[(dir + 1) % 3] = q / 3 % 2; p[(dir + 2) % 3] = q / 6;
      for (int k = 0; k < 3; ++k) r[k] = p[k] + (k == d);
      if (r[d] > (d == dir ? 2 : 1)) continue;
      const double a = val[idx(p)], b = val[idx(r)];
      if ((a < 0) == (b < 0)) continue;
      double x[3];
      const double t = a / (a - b);
      for (int k = 0; k < 3; ++k) x[k] = 2 * (p[k] + t * (r[k] - p[k]));
      want[key(x)] = 0;
    }
  std::map<std::array<long, 3>, int> id;
  std::map<std::pair<int, int>, int> ed;
  std::vector<V3> pos;
  for (size_t i = 0; i < tri.size(); i += 9) {
    int v[3];
    for (int k = 0; k < 3; ++k) {
      auto kk = key(&tri[i + 3 * k]);
      auto it = want.find(kk);
      MC_CHECK(c, it != want.end(), "triangle corner (%g %g %g) is not at a zero on a cell edge", tri[i + 3 * k], tri[i + 3 * k + 1], tri[i + 3 * k + 2]);
      it->second++;
      auto ins = id.insert({kk, (int) pos.size()});
      if (ins.second) pos.push_back(at(&tri[i + 3 * k]));
      v[k] = ins.first->second;
    }
    MC_CHECK(c, v[0] != v[1] && v[1] != v[2] && v[2] != v[0], "degenerate triangle");
    for (int k = 0; k < 3; ++k) ed[{v[k], v[(k + 1) % 3]}]++;
  }
  for (auto &w : want) MC_CHECK(c, w.second > 0, "no triangle at the zero (%g %g %g) of a cell edge", w.first[0] * 1e-6, w.first[1] * 1e-6, w.first[2] * 1e-6);
  // edges: inside of the two cells (not on their outer boundary) each is shared by two triangles in opposite directions
  for (auto &e : ed) {
    const V3 &a = pos[e.first.first], &b = pos[e.first.second];
    bool outer = false;
    for (int k = 0; k < 3; ++k) {
      const double hi = k == dir ? 4 : 2;
      if ((a[k] == 0 && b[k] == 0) || (a[k] == hi && b[k] == hi)) outer = true;
    }
    auto it = ed.find({e.first.second, e.first.first});
    const int rev = it == ed.end() ? 0 : it->second;
    MC_CHECK(c, e.second == 1, "edge used %d times in the same direction", e.second);
    MC_CHECK(c, rev == (outer ? 0 : 1), "edge (%g %g %g)-(%g %g %g)%s has %d opposite edges", a[0], a[1], a[2], b[0], b[1], b[2], outer ? " on the outer boundary" : "", rev);
  }
  // orientation: where the surface meets an outer face of the cells, its boundary runs with the inside on the right (facing outward)
  int left = 0, right = 0;
  for (auto &e : ed) {
    const V3 &a = pos[e.first.first], &b = pos[e.first.second];
    for (int k = 0; k < 3; ++k)
      for (int s = 0; s < 2; ++s) {
        const double hi = s ? (k == dir ? 4 : 2) : 0;
        if (a[k] != hi || b[k] != hi) continue;
        V3 nrm = {0, 0, 0};
        nrm[k] = s ? 1 : -1;
        const V3 m = cross(nrm, sub(b, a));     // to the left of the edge as seen from outside
        for (const V3 &p : {a, b}) {
          int ax = -1;
          for (int d = 0; d < 3; ++d) if (p[d] != 0 && p[d] != 2 && p[d] != 4) ax = d;
          if (ax < 0) {       // in the middle of its edge at an integer: 1 or 3
            continue;
          }
          int q[3], r[3];
          for (int d = 0; d < 3; ++d) { q[d] = (int) std::lround(std::floor(p[d] / 2)); r[d] = q[d] + (d == ax); }
          const double dq = m[ax] * (2 * q[ax] - p[ax]);
          if (dq == 0) continue;
          (((dq > 0) == (val[idx(q)] > 0)) ? left : right)++;
        }
      }
  }
  MC_CHECK(c, left == 0, "isosurface not facing outward: %d of its boundary corners have the inside on the left, %d on the right", left, right);
  mc::Hash h;
  h << tri.size() << right;
  c.outcome(h);
}

int main(int argc, char **argv) {
  return mc::run(argc, argv, {"C24", "exploration", {"lattice points closer to the surface than half of an edge may be moved onto it", "ADF isosurfaces are judged for closedness between cells of equal size only"}},
                 {{"one_cell", one_cell, "all value patterns of the nine points of a cell"},
                  {"window", window, "all value patterns of the six points around a face of a 3x3x3 lattice"},
                  {"refine_pattern", refine_pattern, "all patterns of refined children"},
                  {"fields", fields, "a family of distance fields"},
                  {"refine_region", refine_region, "refinement in balls and towards the surface"},
                  {"cubes", cubes, "all sign patterns of two neighbouring cells"},
                  {"adf", adf, "a family of distance fields"}});
}
