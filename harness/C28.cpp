// C28: mesh generators and mesh measures.
#include "mc.h"
#include <iostream>
#include <map>
#include <set>
#include <array>
#include <cmath>
#include <algorithm>
#include "delfem2/msh_primitive.h"
#include "delfem2/msh_geodesic_polyhedron.h"
#include "delfem2/msh_boundingbox.h"
#include "delfem2/msh_center_of_gravity.h"
#include "delfem2/msh_normal.h"
#include "delfem2/msh_affine_transformation.h"
#include "delfem2/mshmisc.h"
#include "delfem2/msh_unindexed.h"
#include "delfem2/vec3.h"
#include "delfem2/vec3_funcs.h"
#include "delfem2/msh_arrow.h"
namespace dfm2 = delfem2;
using U = unsigned int;
using VU = std::vector<U>;
using VD = std::vector<double>;
struct P { double x, y, z; };
static P operator-(P a, P b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static P operator+(P a, P b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static P operator*(double s, P a) { return {s * a.x, s * a.y, s * a.z}; }
static double dot(P a, P b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static P cross(P a, P b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static double len(P a) { return std::sqrt(dot(a, a)); }
template<class T> static P at(const std::vector<T> &v, U i) { return {(double) v[i * 3], (double) v[i * 3 + 1], (double) v[i * 3 + 2]}; }

// ---------- oriented manifold surface with a given number of boundary loops / Euler characteristic
template<class T>
static bool check_surface(mc::Ch &c, const std::vector<T> &xyz, const VU &el, U nno, int nloop, int euler) {
  const U np = (U) xyz.size() / 3;
  MC_CHECK(c, xyz.size() % 3 == 0 && el.size() % nno == 0 && !el.empty(), "array sizes %zu %zu", xyz.size(), el.size());
  std::vector<int> used(np, 0);
  std::map<std::pair<U, U>, int> half;
  for (U ie = 0; ie < el.size() / nno; ++ie) {
    for (U k = 0; k < nno; ++k) {
      U a = el[ie * nno + k], b = el[ie * nno + (k + 1) % nno];
      MC_CHECK(c, a < np, "element %u refers to point %u of %u", ie, a, np);
      MC_CHECK(c, a != b, "element %u repeats point %u", ie, a);
      used[a] = 1;
      int &h = half[{a, b}];
      ++h;
      MC_CHECK(c, h == 1, "directed edge %u->%u used by two elements (inconsistent orientation)", a, b);
    }
  }
  for (U i = 0; i < np; ++i) MC_CHECK(c, used[i], "point %u is not used by any element", i);
  for (auto v : xyz) MC_CHECK(c, std::isfinite((double) v), "coordinate is not finite");
  std::map<U, U> bnext;
  size_t nedge = 0;
  for (auto &h : half) {
    auto o = half.find({h.first.second, h.first.first});
    if (o == half.end()) {
      MC_CHECK(c, bnext.count(h.first.second) == 0, "boundary branches at point %u", h.first.second);
      bnext[h.first.second] = h.first.first;
      nedge += 2;
    } else nedge += 1;
  }
  nedge /= 2;
  int loops = 0;
  std::set<U> seen;
  for (auto &b : bnext) {
    if (seen.count(b.first)) continue;
    ++loops;
    U p = b.first;
    while (seen.insert(p).second) {
      MC_CHECK(c, bnext.count(p), "boundary is not a set of loops");
      p = bnext[p];
    }
  }
  MC_CHECK(c, loops == nloop, "%d boundary loops, expected %d", loops, nloop);
  const int chi = (int) np - (int) nedge + (int) (el.size() / nno);
  MC_CHECK(c, chi == euler, "Euler characteristic %d, expected %d", chi, euler);
  c.outcome_of(np, el.size(), loops);
  return true;
}
template<class T>
static double volume(const std::vector<T> &xyz, const VU &el, U nno) {
  double v = 0;
  for (U ie = 0; ie < el.size() / nno; ++ie)
    for (U k = 1; k + 1 < nno; ++k) v += dot(at(xyz, el[ie * nno]), cross(at(xyz, el[ie * nno + k]), at(xyz, el[ie * nno + k + 1]))) / 6;
  return v;
}
// every facet must face away from (or along) the given outward direction field
template<class T, class F>
static bool check_outward(mc::Ch &c, const std::vector<T> &xyz, const VU &el, U nno, F out, double eps) {
  for (U ie = 0; ie < el.size() / nno; ++ie) {
    P g{0, 0, 0};
    for (U k = 0; k < nno; ++k) g = g + (1. / nno) * at(xyz, el[ie * nno + k]);
    P n = cross(at(xyz, el[ie * nno + 1]) - at(xyz, el[ie * nno]), at(xyz, el[ie * nno + 2]) - at(xyz, el[ie * nno]));
    MC_CHECK(c, dot(n, out(g)) > eps, "element %u does not face outward (%.3g)", ie, dot(n, out(g)));
  }
  return true;
}
static double npoly_area(double n, double r) { return 0.5 * n * r * r * std::sin(2 * M_PI / n); }

template<class T>
static void generators_T(mc::Ch &c, const char *tn) {
  const int kind = c.choose(7);
  const double r = c.pick({1.0, 0.5, 3.0}), l = c.pick({1.0, 2.5, 0.25});
  const U n1 = 1 + (U) c.choose(c.thorough ? 12 : 7), n2 = 1 + (U) c.choose(c.thorough ? 12 : 7), n3 = kind == 4 ? 1 + (U) c.choose(4) : 1;
  const int dirty = c.choose(2);
  c.commit();
  std::vector<T> xyz;
  VU tri;
  if (dirty) { xyz.assign(50, (T) 9); tri.assign(77, 1234567); }
  const double tol = sizeof(T) == 4 ? 2e-6 * 10 : 1e-8, vt = sizeof(T) == 4 ? 1e-4 : 1e-7;
  if (kind == 0) {
    c.describe("MeshTri3D_Sphere<%s>(radius %g, %u, %u)", tn, r, n1, n2);
    dfm2::MeshTri3D_Sphere(xyz, tri, (T) r, n1, n2);
    if (n1 <= 1 || n2 <= 2) { MC_CHECK(c, xyz.empty() && tri.empty(), "degenerate parameters must give an empty mesh"); return; }
    if (!check_surface(c, xyz, tri, 3, 0, 2)) return;
    MC_CHECK(c, xyz.size() / 3 == n2 * (n1 - 1) + 2 && tri.size() / 3 == 2 * n2 * (n1 - 1), "wrong counts %zu %zu", xyz.size() / 3, tri.size() / 3);
    for (U i = 0; i < xyz.size() / 3; ++i) MC_CHECK(c, mc::near(len(at(xyz, i)), r, tol), "point %u is at distance %.9g", i, len(at(xyz, i)));
    MC_CHECK(c, mc::near(xyz[1], r, tol) && mc::near(xyz[xyz.size() - 2], -r, tol), "poles misplaced");
    check_outward(c, xyz, tri, 3, [](P g) { return g; }, 1e-9);
    // volume of the inscribed polyhedron: prismatoid slices
    double v = 0;
    for (U i = 0; i < n1; ++i) {
      double y0 = r * std::cos(M_PI * i / n1), y1 = r * std::cos(M_PI * (i + 1) / n1), s0 = r * std::sin(M_PI * i / n1), s1 = r * std::sin(M_PI * (i + 1) / n1);
      double k = npoly_area(n2, 1);
      v += (y0 - y1) * k * (s0 * s0 + s0 * s1 + s1 * s1) / 3;
    }
    MC_CHECK(c, mc::near(volume(xyz, tri, 3), v, vt), "volume %.9g, expected %.9g", volume(xyz, tri, 3), v);
  } else if (kind == 1) {
    if (n1 < 3) return;
    c.describe("MeshTri3D_CylinderOpen<%s>(r %g, l %g, nr %u, nl %u)", tn, r, l, n1, n2);
    dfm2::MeshTri3D_CylinderOpen(xyz, tri, (T) r, (T) l, n1, n2);
    if (!check_surface(c, xyz, tri, 3, 2, 0)) return;
    MC_CHECK(c, xyz.size() / 3 == n1 * (n2 + 1) && tri.size() / 3 == 2 * n1 * n2, "wrong counts");
    double ymin = 1e9, ymax = -1e9;
    for (U i = 0; i < xyz.size() / 3; ++i) {
      P p = at(xyz, i);
      ymin = std::min(ymin, p.y); ymax = std::max(ymax, p.y);
      MC_CHECK(c, mc::near(std::hypot(p.x, p.z), r, tol), "point %u off the cylinder", i);
    }
    MC_CHECK(c, mc::near(ymin, -l / 2, tol) && mc::near(ymax, l / 2, tol), "y range [%g,%g]", ymin, ymax);
    if (!check_outward(c, xyz, tri, 3, [](P g) { return P{g.x, 0, g.z}; }, 1e-9)) return;
    double area = 0;
    for (U i = 0; i < tri.size() / 3; ++i) area += len(cross(at(xyz, tri[i * 3 + 1]) - at(xyz, tri[i * 3]), at(xyz, tri[i * 3 + 2]) - at(xyz, tri[i * 3]))) / 2;
    MC_CHECK(c, mc::near(area, n1 * 2 * r * std::sin(M_PI / n1) * l, vt), "area %.9g", area);
  } else if (kind == 2) {
    c.describe("MeshTri3D_CylinderClosed<%s>(r %g, l %g, nr %u, nl %u)", tn, r, l, n1, n2);
    dfm2::MeshTri3D_CylinderClosed(xyz, tri, (T) r, (T) l, n1, n2);
    if (n1 <= 2) { MC_CHECK(c, xyz.empty() && tri.empty(), "degenerate parameters must give an empty mesh"); return; }
    if (!check_surface(c, xyz, tri, 3, 0, 2)) return;
    const U np = (U) xyz.size() / 3;
    MC_CHECK(c, np == n1 * (n2 + 1) + 2 && tri.size() / 3 == 2 * n1 * (n2 + 1), "wrong counts");
    MC_CHECK(c, mc::near(at(xyz, 0).y, -l / 2, tol) && mc::near(std::hypot(at(xyz, 0).x, at(xyz, 0).z), 0, tol), "first point is not the centre of the lower cap");
    MC_CHECK(c, mc::near(at(xyz, np - 1).y, l / 2, tol) && mc::near(std::hypot(at(xyz, np - 1).x, at(xyz, np - 1).z), 0, tol), "last point is not the centre of the upper cap");
    for (U i = 1; i + 1 < np; ++i) {
      P p = at(xyz, i);
      MC_CHECK(c, mc::near(std::hypot(p.x, p.z), r, tol) && std::abs(p.y) <= l / 2 + tol, "point %u off the cylinder", i);
    }
    MC_CHECK(c, mc::near(volume(xyz, tri, 3), npoly_area(n1, r) * l, vt), "volume %.9g expected %.9g", volume(xyz, tri, 3), npoly_area(n1, r) * l);
  } else if (kind == 3) {
    if (n2 > 1) return;
    c.describe("MeshTri3D_Cube<%s>(%u)", tn, n1);
    dfm2::MeshTri3D_Cube(xyz, tri, n1);
    if (!check_surface(c, xyz, tri, 3, 0, 2)) return;
    MC_CHECK(c, tri.size() / 3 == 12 * n1 * n1 && xyz.size() / 3 == 6 * n1 * n1 + 2, "wrong counts");
    std::set<std::array<long, 3>> pts;
    for (U i = 0; i < xyz.size() / 3; ++i) {
      P p = at(xyz, i);
      MC_CHECK(c, mc::near(std::max({std::abs(p.x), std::abs(p.y), std::abs(p.z)}), 0.5, tol), "point %u off the unit cube", i);
      double g[3] = {(p.x + .5) * n1, (p.y + .5) * n1, (p.z + .5) * n1};
      for (double v : g) MC_CHECK(c, std::abs(v - std::round(v)) < 1e-4, "point %u off the grid", i);
      pts.insert({std::lround(g[0]), std::lround(g[1]), std::lround(g[2])});
    }
    MC_CHECK(c, pts.size() == xyz.size() / 3, "duplicate points");
    for (U i = 0; i < tri.size() / 3; ++i) {
      P n = cross(at(xyz, tri[i * 3 + 1]) - at(xyz, tri[i * 3]), at(xyz, tri[i * 3 + 2]) - at(xyz, tri[i * 3]));
      MC_CHECK(c, mc::near(len(n), 1. / (n1 * n1), 1e-4), "triangle %u has doubled area %g", i, len(n));
    }
    MC_CHECK(c, mc::near(volume(xyz, tri, 3), 1, vt), "volume %.9g", volume(xyz, tri, 3));
  } else if (kind == 4) {
    if (n1 < 3) return;
    c.describe("MeshTri3_Capsule<%s>(r %g, l %g, nc %u, nr %u, nl %u)", tn, r, l, n1, n2, n3);
    dfm2::MeshTri3_Capsule(xyz, tri, (T) r, (T) l, n1, n2, n3);
    if (!check_surface(c, xyz, tri, 3, 0, 2)) return;
    MC_CHECK(c, xyz.size() / 3 == (2 * n2 + n3 - 1) * n1 + 2, "wrong counts");
    for (U i = 0; i < xyz.size() / 3; ++i) {
      P p = at(xyz, i);
      double y = p.y > l / 2 ? p.y - l / 2 : p.y < -l / 2 ? p.y + l / 2 : 0;
      MC_CHECK(c, mc::near(len({p.x, y, p.z}), r, tol * 5), "point %u is off the capsule", i);
    }
    double v = npoly_area(n1, r) * l, k = npoly_area(n1, 1);
    for (U i = 0; i < n2; ++i) {
      double a = M_PI / 2 * i / n2, b = M_PI / 2 * (i + 1) / n2;
      double s0 = r * std::cos(a), s1 = i + 1 == n2 ? 0 : r * std::cos(b), h = r * (std::sin(b) - std::sin(a));
      v += 2 * h * k * (s0 * s0 + s0 * s1 + s1 * s1) / 3;
    }
    MC_CHECK(c, mc::near(volume(xyz, tri, 3), v, vt), "volume %.9g expected %.9g", volume(xyz, tri, 3), v);
  } else if (kind == 5) {
    if (n1 < 3 || n2 < 3) return;
    const double rt = 0.3 * r;
    c.describe("MeshTri3_Torus<%s>(%g, %g, %u, %u)", tn, r, rt, n1, n2);
    dfm2::MeshTri3_Torus(xyz, tri, (T) r, (T) rt, n1, n2);
    if (!check_surface(c, xyz, tri, 3, 0, 0)) return;
    MC_CHECK(c, xyz.size() / 3 == n1 * n2 && tri.size() / 3 == 2 * n1 * n2, "wrong counts");
    for (U i = 0; i < xyz.size() / 3; ++i) {
      P p = at(xyz, i);
      MC_CHECK(c, mc::near(std::hypot(std::hypot(p.x, p.y) - r, p.z), rt, tol), "point %u off the torus", i);
    }
    MC_CHECK(c, volume(xyz, tri, 3) > 0, "inside out");
  } else {
    // boxes and hexahedral grids
    const U n4 = 1 + n1 % 3;
    c.describe("MeshHex3_Grid<%s>(%u,%u,%u,%g)", tn, n1, n2, n4, l);
    VU hex = tri;
    dfm2::MeshHex3_Grid(xyz, hex, n1, n2, n4, (T) l);
    MC_CHECK(c, xyz.size() == 3ul * (n1 + 1) * (n2 + 1) * (n4 + 1) && hex.size() == 8ul * n1 * n2 * n4, "wrong counts");
    static const int co[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
    std::set<std::array<long, 3>> cells, pts;
    for (U i = 0; i < xyz.size() / 3; ++i) pts.insert({std::lround(at(xyz, i).x / l), std::lround(at(xyz, i).y / l), std::lround(at(xyz, i).z / l)});
    MC_CHECK(c, pts.size() == xyz.size() / 3, "duplicate grid points");
    for (U ih = 0; ih < hex.size() / 8; ++ih) {
      for (int k = 0; k < 8; ++k) MC_CHECK(c, hex[ih * 8 + k] < xyz.size() / 3, "index out of range");
      P o = at(xyz, hex[ih * 8]);
      cells.insert({std::lround(o.x / l), std::lround(o.y / l), std::lround(o.z / l)});
      for (int k = 0; k < 8; ++k) {
        P q = at(xyz, hex[ih * 8 + k]) - o;
        MC_CHECK(c, mc::near(q.x, co[k][0] * l, 1e-4) && mc::near(q.y, co[k][1] * l, 1e-4) && mc::near(q.z, co[k][2] * l, 1e-4), "cell %u corner %d", ih, k);
      }
    }
    MC_CHECK(c, cells.size() == hex.size() / 8, "cells repeated");
    const T bmin[3] = {(T) -r, (T) 0, (T) l}, bmax[3] = {(T) n1, (T) n2, (T) (l + n4)};
    xyz.assign(50, 9);
    VU quad = tri;
    dfm2::MeshQuad3_CubeVox(xyz, quad, bmin, bmax);
    if (!check_surface(c, xyz, quad, 4, 0, 2)) return;
    for (U i = 0; i < 8; ++i)
      MC_CHECK(c, xyz[i * 3] == (i & 1 ? bmax : bmin)[0] && xyz[i * 3 + 1] == (i & 2 ? bmax : bmin)[1] && xyz[i * 3 + 2] == (i & 4 ? bmax : bmin)[2], "corner %u", i);
    MC_CHECK(c, mc::near(volume(xyz, quad, 4), (n1 + r) * n2 * n4, 1e-4), "volume %g", volume(xyz, quad, 4));
  }
}
static void gen_double(mc::Ch &c) { generators_T<double>(c, "double"); }
static void gen_float(mc::Ch &c) { generators_T<float>(c, "float"); }

// ---------- generators that exist in one precision
static void gen_other(mc::Ch &c) {
  const int kind = c.choose(5);
  const U n1 = 1 + (U) c.choose(7), n2 = 1 + (U) c.choose(7);
  const int dirty = c.choose(2);
  c.commit();
  VD xyz; VU tri;
  if (dirty) { xyz.assign(31, 5); tri.assign(17, 99999); }
  if (kind == 0) {
    if (n2 < 3) return;
    c.describe("MeshTri3D_Disk(2.5, nr %u, nth %u)", n1, n2);
    dfm2::MeshTri3D_Disk(xyz, tri, 2.5, (int) n1, (int) n2);
    if (!check_surface(c, xyz, tri, 3, 1, 1)) return;
    MC_CHECK(c, xyz.size() / 3 == 1 + n1 * n2, "wrong counts");
    double area = 0, rmax = 0;
    for (U i = 0; i < tri.size() / 3; ++i) {
      P n = cross(at(xyz, tri[i * 3 + 1]) - at(xyz, tri[i * 3]), at(xyz, tri[i * 3 + 2]) - at(xyz, tri[i * 3]));
      MC_CHECK(c, mc::near(n.x, 0, 1e-12) && mc::near(n.z, 0, 1e-12) && n.y > 0, "triangle %u faces (%g %g %g)", i, n.x, n.y, n.z);
      area += n.y / 2;
    }
    for (U i = 0; i < xyz.size() / 3; ++i) rmax = std::max(rmax, len(at(xyz, i)));
    MC_CHECK(c, mc::near(rmax, 2.5, 1e-8), "radius %g", rmax);
    MC_CHECK(c, mc::near(area, npoly_area(n2, 2.5), 1e-7), "area %g", area);
  } else if (kind == 1) {
    if (n1 > 1 || n2 > 1) return;
    c.describe("icosahedron");
    dfm2::MeshTri3D_Icosahedron(xyz, tri);
    if (!check_surface(c, xyz, tri, 3, 0, 2)) return;
    MC_CHECK(c, xyz.size() == 36 && tri.size() == 60, "counts");
    if (!check_outward(c, xyz, tri, 3, [](P g) { return g; }, 1e-3)) return;
    for (U i = 0; i < 20; ++i) for (int k = 0; k < 3; ++k)
      MC_CHECK(c, mc::near(len(at(xyz, tri[i * 3 + k]) - at(xyz, tri[i * 3 + (k + 1) % 3])), 2, 1e-10), "edge length");
  } else if (kind == 2) {
    if (n1 > 1 || n2 > 1) return;
    c.describe("geodesic polyhedron");
    MeshTri3D_GeodesicPolyhedron(xyz, tri);
    if (!check_surface(c, xyz, tri, 3, 0, 2)) return;
    MC_CHECK(c, xyz.size() == 42 * 3 && tri.size() == 80 * 3, "counts %zu %zu", xyz.size() / 3, tri.size() / 3);
    const double r0 = len(at(xyz, 0));
    for (U i = 0; i < 42; ++i) MC_CHECK(c, mc::near(len(at(xyz, i)), r0, 1e-10), "point %u off the sphere", i);
    check_outward(c, xyz, tri, 3, [](P g) { return g; }, 1e-3);
  } else if (kind == 3) {
    c.describe("MeshQuad2D_Grid(%u,%u)", n1, n2);
    dfm2::MeshQuad2D_Grid(xyz, tri, n1, n2);
    MC_CHECK(c, xyz.size() / 2 == (n1 + 1) * (n2 + 1) && tri.size() / 4 == n1 * n2, "counts");
    VD x3;
    std::set<std::pair<long, long>> pts;
    for (U i = 0; i < xyz.size() / 2; ++i) {
      x3.insert(x3.end(), {xyz[i * 2], xyz[i * 2 + 1], 0});
      MC_CHECK(c, xyz[i * 2] >= 0 && xyz[i * 2] <= n1 && xyz[i * 2 + 1] >= 0 && xyz[i * 2 + 1] <= n2, "point out of the grid");
      pts.insert({std::lround(xyz[i * 2]), std::lround(xyz[i * 2 + 1])});
    }
    MC_CHECK(c, pts.size() == xyz.size() / 2, "duplicates");
    if (!check_surface(c, x3, tri, 4, 1, 1)) return;
    for (U i = 0; i < tri.size() / 4; ++i) {
      double a = cross(at(x3, tri[i * 4 + 1]) - at(x3, tri[i * 4]), at(x3, tri[i * 4 + 2]) - at(x3, tri[i * 4])).z + cross(at(x3, tri[i * 4 + 2]) - at(x3, tri[i * 4]), at(x3, tri[i * 4 + 3]) - at(x3, tri[i * 4])).z;
      MC_CHECK(c, mc::near(a / 2, 1, 1e-9), "cell area %g", a / 2);
    }
  } else {
    static const P dirs[7] = {{0, 0, 1}, {0, 0, -2}, {1, 0, 0}, {0, -3, 0}, {1, 1, 1}, {-1, 2, .5}, {0, 1e-12, 0}};
    if (n2 > 4) return;
    const P d = dirs[n1 - 1];
    const float rr = 0.1f * (float) n2, nr = 0.2f * (float) n2;
    c.describe("Mesh_ArrowOcta dir %u ratio %g", n1, rr);
    std::vector<float> v; std::vector<unsigned int> t;
    if (dirty) { v.assign(9, 1.f); t = {0, 1, 2}; }
    dfm2::CMat4f A; A.setZero(); for (int i = 0; i < 4; ++i) A.mat[i * 5] = 1; A.mat[3] = 2.f;
    dfm2::Mesh_ArrowOcta(v, t, A, dfm2::CVec3f(1.f, 2.f, 3.f), dfm2::CVec3f((float) d.x, (float) d.y, (float) d.z), rr, nr);
    const U off = dirty ? 3 : 0;
    if (n1 == 7) { MC_CHECK(c, v.size() == off * 3 && t.size() == off, "vanishing arrow must add nothing"); return; }
    MC_CHECK(c, v.size() == (off + 6) * 3 && t.size() == off + 24, "counts");
    std::vector<float> v2(v.begin() + off * 3, v.end()); VU t2;
    for (U i = off; i < t.size(); ++i) { MC_CHECK(c, t[i] >= off && t[i] < off + 6, "index %u", t[i]); t2.push_back(t[i] - off); }
    if (!check_surface(c, v2, t2, 3, 0, 2)) return;
    const P o{3, 2, 3};
    MC_CHECK(c, len(at(v2, 0) - o) < 1e-5 && len(at(v2, 1) - o - d) < 1e-5, "end points");
    for (U i = 2; i < 6; ++i) {
      P q = at(v2, i) - o - (double) nr * d;
      MC_CHECK(c, std::abs(dot(q, d)) < 1e-4 && mc::near(len(q), rr * len(d), 1e-4), "ring point %u", i);
    }
    MC_CHECK(c, volume(v2, t2, 3) > 0, "arrow inside out");
  }
}

// ---------- measures on all small meshes over a point alphabet
static const double PT[6][3] = {{0, 0, 0}, {2, 0, 0}, {0, 1, 0}, {-1, -1, 3}, {1, 2, -2}, {3, 1, 1}};
template<class T>
static void measures_T(mc::Ch &c) {
  const int n = 1 + c.choose(c.thorough ? 3 : 2);    // number of triangles
  const int base = c.choose(6);          // rotation of the point table
  const double sh = c.pick({0.0, 10.0, -100.0});
  std::vector<T> xyz;
  for (int i = 0; i < 6; ++i) for (int k = 0; k < 3; ++k) xyz.push_back((T) (PT[(i + base) % 6][k] + sh * (k + 1)));
  VU tri;
  std::vector<int> flg;
  for (int i = 0; i < n; ++i) {
    int a = c.choose(6), b = c.choose(6), d = c.choose(6);
    if (a == b || b == d || a == d) { c.skip(); return; }
    tri.insert(tri.end(), {(U) a, (U) b, (U) d});
    flg.push_back((a + b) % 2);
  }
  c.commit();
  c.describe("measures: points rotated %d shift %g tri %s", base, sh, mc::str(tri).c_str());
  const double tol = sizeof(T) == 4 ? 3e-4 : 1e-10;
  auto eq = [&](P a, P b) { return len(a - b) <= tol * (1 + len(b)); };
  // centroids
  {
    T cg[3] = {77, 77, 77};
    dfm2::CG_Point3(cg, xyz);
    P e{0, 0, 0};
    for (U i = 0; i < 6; ++i) e = e + (1. / 6) * at(xyz, i);
    MC_CHECK(c, eq({(double) cg[0], (double) cg[1], (double) cg[2]}, e), "CG_Point3");
  }
  P es{0, 0, 0}, ef{0, 0, 0};
  double at_ = 0, af = 0, mr = 0;
  std::vector<P> ctr;
  for (int i = 0; i < n; ++i) {
    P a = at(xyz, tri[i * 3]), b = at(xyz, tri[i * 3 + 1]), d = at(xyz, tri[i * 3 + 2]);
    double ar = len(cross(b - a, d - a)) / 2;
    P g = (1. / 3) * (a + b + d);
    ctr.push_back(g);
    for (P q : {a, b, d}) mr = std::max(mr, len(q - g));
    at_ += ar; es = es + ar * g;
    if (flg[i] == 1) { af += ar; ef = ef + ar * g; }
  }
  {
    T cg[3] = {77, 77, 77};
    dfm2::CG_MeshTri3_Shell(cg, xyz, tri);
    MC_CHECK(c, eq({(double) cg[0], (double) cg[1], (double) cg[2]}, (1 / at_) * es), "CG_MeshTri3_Shell");
    if (af > 0) {
      T w = dfm2::CG_TriMsh3Flg_Shell(cg, xyz, tri, 1, flg);
      MC_CHECK(c, eq({(double) cg[0], (double) cg[1], (double) cg[2]}, (1 / af) * ef) && mc::near(w, af, tol), "CG_TriMsh3Flg_Shell");
    }
    std::vector<T> cc(c.choose(2) * 40, 3);
    T m = dfm2::CentsMaxRad_MeshTri3(cc, xyz, tri);
    MC_CHECK(c, cc.size() == 3ul * n && mc::near(m, mr, tol), "CentsMaxRad radius %g expected %g", (double) m, mr);
    for (int i = 0; i < n; ++i) MC_CHECK(c, eq(at(cc, i), ctr[i]), "triangle centre %d", i);
  }
  // line mesh: edges of the triangles
  {
    VU line;
    P e{0, 0, 0}; double L = 0;
    for (int i = 0; i < n; ++i) {
      U p = tri[i * 3], q = tri[i * 3 + 2];
      line.insert(line.end(), {p, q});
      double d = len(at(xyz, p) - at(xyz, q));
      L += d; e = e + d * 0.5 * (at(xyz, p) + at(xyz, q));
    }
    T v, cg[3];
    dfm2::CG_MeshLine3(v, cg, xyz, line);
    MC_CHECK(c, mc::near(v, L, tol) && eq({(double) cg[0], (double) cg[1], (double) cg[2]}, (1 / L) * e), "CG_MeshLine3");
  }
  // normals
  {
    std::vector<T> nrm(18, 55);
    dfm2::Normal_MeshTri3D(nrm.data(), xyz.data(), 6, tri.data(), n);
    std::vector<P> e(6, P{0, 0, 0});
    bool degen = false;
    for (int i = 0; i < n; ++i) {
      P a = at(xyz, tri[i * 3]), b = at(xyz, tri[i * 3 + 1]), d = at(xyz, tri[i * 3 + 2]);
      P u = cross(b - a, d - a);
      if (len(u) < 1e-9) { degen = true; continue; }
      for (int k = 0; k < 3; ++k) e[tri[i * 3 + k]] = e[tri[i * 3 + k]] + (1 / len(u)) * u;
      auto tn = dfm2::Normal_TriInMeshTri3((U) i, xyz.data(), tri.data());
      MC_CHECK(c, eq({(double) tn[0], (double) tn[1], (double) tn[2]}, u), "Normal_TriInMeshTri3");
    }
    if (!degen)
      for (int i = 0; i < 6; ++i) {
        if (len(e[i]) < 1e-2) continue;
        MC_CHECK(c, len(at(nrm, i) - (1 / len(e[i])) * e[i]) < (sizeof(T) == 4 ? 2e-2 : 1e-9), "vertex normal %d", i);
      }
  }
  // bounding boxes
  {
    std::vector<T> sel;
    P lo{1e30, 1e30, 1e30}, hi{-1e30, -1e30, -1e30};
    for (U i : tri) {
      for (int k = 0; k < 3; ++k) sel.push_back(xyz[i * 3 + k]);
      P p = at(xyz, i);
      lo = {std::min(lo.x, p.x), std::min(lo.y, p.y), std::min(lo.z, p.z)};
      hi = {std::max(hi.x, p.x), std::max(hi.y, p.y), std::max(hi.z, p.z)};
    }
    T mn[3] = {9, 9, 9}, mx[3] = {-9, 99, 9}, cc[3], w[3];
    dfm2::BoundingBox3_Points3(mn, mx, sel.data(), sel.size() / 3);
    MC_CHECK(c, mn[0] == lo.x && mn[1] == lo.y && mn[2] == lo.z && mx[0] == hi.x && mx[1] == hi.y && mx[2] == hi.z, "BoundingBox3_Points3");
    dfm2::CenterWidth_Points3(cc, w, sel);
    MC_CHECK(c, eq({(double) cc[0], (double) cc[1], (double) cc[2]}, 0.5 * (lo + hi)) && eq({(double) w[0], (double) w[1], (double) w[2]}, hi - lo), "CenterWidth_Points3");
    dfm2::CenterWidth_Point3(cc[0], cc[1], cc[2], w[0], w[1], w[2], sel.data(), sel.size() / 3);
    MC_CHECK(c, eq({(double) cc[0], (double) cc[1], (double) cc[2]}, 0.5 * (lo + hi)) && eq({(double) w[0], (double) w[1], (double) w[2]}, hi - lo), "CenterWidth_Point3");
    std::vector<T> nm = sel;
    if (len(hi - lo) > 0.5) {
      dfm2::Normalize_Points3(nm, (T) 2.5);
      P l2{1e30, 1e30, 1e30}, h2{-1e30, -1e30, -1e30};
      for (U i = 0; i < nm.size() / 3; ++i) {
        P p = at(nm, i);
        l2 = {std::min(l2.x, p.x), std::min(l2.y, p.y), std::min(l2.z, p.z)};
        h2 = {std::max(h2.x, p.x), std::max(h2.y, p.y), std::max(h2.z, p.z)};
      }
      P s = h2 - l2, o = hi - lo;
      const double k = 2.5 / std::max({o.x, o.y, o.z});
      MC_CHECK(c, mc::near(std::max({s.x, s.y, s.z}), 2.5, tol) && len(0.5 * (l2 + h2)) < tol * 10, "Normalize_Points3");
      for (U i = 0; i < nm.size() / 3; ++i) MC_CHECK(c, len(at(nm, i) - k * (at(sel, i) - 0.5 * (lo + hi))) < tol * 10, "Normalize_Points3 is not a similarity");
    }
  }
  c.outcome(mc::fnv(tri.data(), tri.size() * 4));
}
static void measures_d(mc::Ch &c) { measures_T<double>(c); }
static void measures_f(mc::Ch &c) { measures_T<float>(c); }

// ---------- solids: tets over the alphabet, closed surfaces, lumped masses, extrusion
static void solids(mc::Ch &c) {
  const int n = 1 + c.choose(2);
  const int base = c.choose(3);
  VD xyz;
  for (int i = 0; i < 6; ++i) for (int k = 0; k < 3; ++k) xyz.push_back(PT[(i + base) % 6][k]);
  VU tet;
  for (int i = 0; i < n; ++i) {
    U v[4];
    for (int k = 0; k < 4; ++k) {
      v[k] = (U) c.choose(6);
      for (int j = 0; j < k; ++j) if (v[j] == v[k]) { c.skip(); return; }
    }
    double vol = dot(at(xyz, v[3]) - at(xyz, v[0]), cross(at(xyz, v[1]) - at(xyz, v[0]), at(xyz, v[2]) - at(xyz, v[0])));
    if (vol <= 0.1) { c.skip(); return; }
    tet.insert(tet.end(), v, v + 4);
  }
  c.commit();
  c.describe("solids: rotated %d tets %s", base, mc::str(tet).c_str());
  double V = 0; P g{0, 0, 0};
  VD m(6, 0);
  VU surf;
  for (int i = 0; i < n; ++i) {
    P p[4];
    for (int k = 0; k < 4; ++k) p[k] = at(xyz, tet[i * 4 + k]);
    double v = dot(p[3] - p[0], cross(p[1] - p[0], p[2] - p[0])) / 6;
    V += v;
    g = g + v * 0.25 * (p[0] + p[1] + p[2] + p[3]);
    for (int k = 0; k < 4; ++k) m[tet[i * 4 + k]] += 2.5 * v / 4;
    const U *t = tet.data() + i * 4;
    surf.insert(surf.end(), {t[0], t[2], t[1], t[0], t[1], t[3], t[1], t[2], t[3], t[2], t[0], t[3]});
  }
  double v, cg[3];
  dfm2::CG_MeshTet3(v, cg, xyz, tet);
  MC_CHECK(c, mc::near(v, V, 1e-10) && len(P{cg[0], cg[1], cg[2]} - (1 / V) * g) < 1e-9, "CG_MeshTet3");
  dfm2::CG_MeshTri3_Solid(cg, xyz, surf);
  MC_CHECK(c, len(P{cg[0], cg[1], cg[2]} - (1 / V) * g) < 1e-9, "CG_MeshTri3_Solid");
  VD mm(6, 99);
  dfm2::MassPoint_Tet3D(mm.data(), 2.5, xyz.data(), 6, tet.data(), n);
  for (int i = 0; i < 6; ++i) MC_CHECK(c, mc::near(mm[i], m[i], 1e-10), "MassPoint_Tet3D %d", i);
  mm.assign(6, 99);
  dfm2::MassPoint_Tri3D(mm.data(), 1.5, xyz.data(), 6, surf.data(), surf.size() / 3);
  VD e(6, 0);
  double at_ = 0, af = 0;
  for (U i = 0; i < surf.size() / 3; ++i) {
    double a = len(cross(at(xyz, surf[i * 3 + 1]) - at(xyz, surf[i * 3]), at(xyz, surf[i * 3 + 2]) - at(xyz, surf[i * 3]))) / 2;
    for (int k = 0; k < 3; ++k) e[surf[i * 3 + k]] += 1.5 * a / 3;
    at_ += a;
    if (i % 3 == 0) af += a;
  }
  for (int i = 0; i < 6; ++i) MC_CHECK(c, mc::near(mm[i], e[i], 1e-10), "MassPoint_Tri3D %d", i);
  MC_CHECK(c, mc::near(dfm2::Area_MeshTri3(xyz, surf, [](U) { return true; }), at_, 1e-10), "Area_MeshTri3");
  MC_CHECK(c, mc::near(dfm2::Area_MeshTri3(xyz, surf, [](U i) { return i % 3 == 0; }), af, 1e-10), "Area_MeshTri3 with a filter");
  // groups (uniform and jagged)
  for (int nno : {3, 4}) {
    const VU &el = nno == 3 ? surf : tet;
    const int ne = (int) el.size() / nno;
    for (int mask = 0; mask < std::min(1 << ne, 16); ++mask) {
      std::vector<int> grp;
      VU ind{0};
      P lo{1e30, 1e30, 1e30}, hi{-1e30, -1e30, -1e30};
      for (int i = 0; i < ne; ++i) {
        grp.push_back(mask >> i & 1 ? 7 : 2);
        ind.push_back((i + 1) * nno);
        if (grp.back() == 7)
          for (int k = 0; k < nno; ++k) {
            P p = at(xyz, el[i * nno + k]);
            lo = {std::min(lo.x, p.x), std::min(lo.y, p.y), std::min(lo.z, p.z)};
            hi = {std::max(hi.x, p.x), std::max(hi.y, p.y), std::max(hi.z, p.z)};
          }
      }
      double b[6], b2[6], b3[6];
      dfm2::GetCenterWidthGroup(b[0], b[1], b[2], b[3], b[4], b[5], xyz, el, (U) nno, 7, grp);
      dfm2::GetCenterWidthGroup(b2[0], b2[1], b2[2], b2[3], b2[4], b2[5], xyz, ind, el, 7, grp);
      dfm2::GetCenterWidth3DGroup(b3, xyz, ind, el, 7, grp);
      P ce = mask ? 0.5 * (lo + hi) : P{0, 0, 0}, w = mask ? hi - lo : P{1, 1, 1};
      for (double *q : {b, b2, b3})
        MC_CHECK(c, len(P{q[0], q[1], q[2]} - ce) < 1e-10 && len(P{q[3], q[4], q[5]} - w) < 1e-10, "GetCenterWidthGroup of %d-node elements, group mask %x: centre (%g %g %g)", nno, mask, q[0], q[1], q[2]);
      c.tick();
    }
  }
  // removing unreferenced points and merging
  {
    VD x1(c.choose(2) * 30, 4); VU e1; std::vector<int> mp;
    dfm2::RemoveUnreferencedPoints_MeshElem(x1, e1, mp, 3, xyz, tet);
    std::set<U> used(tet.begin(), tet.end());
    MC_CHECK(c, x1.size() == used.size() * 3 && e1.size() == tet.size() && mp.size() == 6, "RemoveUnreferencedPoints sizes");
    for (size_t i = 0; i < tet.size(); ++i) {
      MC_CHECK(c, e1[i] * 3 + 2 < x1.size() && len(at(x1, e1[i]) - at(xyz, tet[i])) == 0, "RemoveUnreferencedPoints changed element corner %zu", i);
      MC_CHECK(c, mp[tet[i]] == (int) e1[i], "map");
    }
    for (U i = 0; i < 6; ++i) if (!used.count(i)) MC_CHECK(c, mp[i] < 0, "unreferenced point %u kept in the map", i);
    VD ax = xyz; VU at2 = surf;
    dfm2::AddMesh(ax, at2, x1, VU{0, 1, 2, 1, 2, 3});
    MC_CHECK(c, ax.size() == xyz.size() + x1.size() && at2.size() == surf.size() + 6, "AddMesh sizes");
    for (size_t i = 0; i < surf.size(); ++i) MC_CHECK(c, at2[i] == surf[i], "AddMesh changed the old part");
    const U nt[6] = {0, 1, 2, 1, 2, 3};
    for (int i = 0; i < 6; ++i) MC_CHECK(c, len(at(ax, at2[surf.size() + i]) - at(x1, nt[i])) == 0, "AddMesh corner %d", i);
  }
  // un-indexed data
  {
    VD tx, tn, ex, rgb;
    dfm2::UnidexedVertexDataTriMesh(tx, xyz, surf);
    dfm2::UnindexedNormalTriMesh3(tn, xyz, surf);
    dfm2::UnindexedEdgeMesh3_UnindexedTrimesh3(ex, tx);
    const double col[2][3] = {{1, 2, 3}, {4, 5, 6}};
    std::vector<int> fl;
    for (U i = 0; i < surf.size() / 3; ++i) fl.push_back((int) (i * i) % 2);
    dfm2::UnindexedColorTriMesh3(rgb, col, fl, surf);
    MC_CHECK(c, tx.size() == surf.size() * 3 && tn.size() == tx.size() && rgb.size() == tx.size() && ex.size() == 2 * tx.size(), "un-indexed sizes");
    for (U i = 0; i < surf.size(); ++i) {
      MC_CHECK(c, len(at(tx, i) - at(xyz, surf[i])) == 0, "un-indexed corner %u", i);
      U t = i / 3;
      P u = cross(at(xyz, surf[t * 3 + 1]) - at(xyz, surf[t * 3]), at(xyz, surf[t * 3 + 2]) - at(xyz, surf[t * 3]));
      MC_CHECK(c, len(at(tn, i) - (1 / len(u)) * u) < 1e-9, "un-indexed normal");
      MC_CHECK(c, rgb[i * 3] == col[fl[t]][0] && rgb[i * 3 + 2] == col[fl[t]][2], "un-indexed colour");
      MC_CHECK(c, len(at(ex, i * 2) - at(tx, i)) == 0 && len(at(ex, i * 2 + 1) - at(tx, t * 3 + (i % 3 + 1) % 3)) == 0, "un-indexed edge");
    }
  }
  c.outcome_of(n, V);
}

// ---------- extrusion of planar meshes into tetrahedra: positive, conforming, exact volume
static void extrude(mc::Ch &c) {
  // a strip of quads, each split along either diagonal, with any vertex numbering
  const int nq = 1 + c.choose(2);
  VU tri;
  for (int i = 0; i < nq; ++i) {
    U a = 2 * i, b = 2 * i + 2, d = 2 * i + 3, e = 2 * i + 1;
    const int rot = c.choose(3);
    VU q = c.flip() ? VU{a, b, d, a, d, e} : VU{a, b, e, b, d, e};
    for (int t = 0; t < 2; ++t) for (int k = 0; k < 3; ++k) tri.push_back(q[t * 3 + (k + rot * (t + 1)) % 3]);
  }
  const int np = 2 * nq + 2;
  std::vector<int> perm;
  for (int i = 0; i < np; ++i) {
    int p = c.choose(np);
    for (int j : perm) if (j == p) { c.skip(); return; }
    perm.push_back(p);
  }
  const int nl = 1 + c.choose(3);
  c.commit();
  VD xy(np * 2);
  for (int i = 0; i < np; ++i) { xy[perm[i] * 2] = i / 2 * 1.5; xy[perm[i] * 2 + 1] = i % 2; }
  for (U &t : tri) t = (U) perm[t];
  c.describe("extrude %d layers, tri %s", nl, mc::str(tri).c_str());
  VD xyz(c.choose(2) * 100, 1); VU tet;
  dfm2::ExtrudeTri2Tet(nl, 0.5, xyz, tet, xy, tri);
  const U nt = (U) tri.size() / 3;
  MC_CHECK(c, xyz.size() == 3ul * np * (nl + 1) && tet.size() == 12ul * nt * nl, "sizes");
  double v = 0;
  std::map<std::array<U, 3>, int> face;
  for (U i = 0; i < tet.size() / 4; ++i) {
    P p[4];
    for (int k = 0; k < 4; ++k) { MC_CHECK(c, tet[i * 4 + k] < xyz.size() / 3, "index"); p[k] = at(xyz, tet[i * 4 + k]); }
    double w = dot(p[3] - p[0], cross(p[1] - p[0], p[2] - p[0])) / 6;
    MC_CHECK(c, mc::near(w, 1.5 * 0.5 * 0.5 / 3, 1e-10), "tetrahedron %u has volume %g", i, w);
    v += w;
    static const int F[4][3] = {{1, 2, 3}, {0, 3, 2}, {0, 1, 3}, {0, 2, 1}};
    for (auto &f : F) {
      std::array<U, 3> k{tet[i * 4 + f[0]], tet[i * 4 + f[1]], tet[i * 4 + f[2]]};
      std::sort(k.begin(), k.end());
      ++face[k];
    }
  }
  int bnd = 0;
  for (auto &f : face) { MC_CHECK(c, f.second <= 2, "face shared by %d", f.second); bnd += f.second == 1; }
  const int expect = 2 * (int) nt + 2 * nl * (2 * nq + 2);
  MC_CHECK(c, bnd == expect, "%d boundary faces, expected %d (not conforming)", bnd, expect);
  c.outcome_of(bnd);
}

// ---------- transformations of points
static void affine(mc::Ch &c) {
  const double ax = c.pick({0.0, 0.5, M_PI / 2, -2.0}), ay = c.pick({0.0, 0.7, -M_PI / 2, 3.0}), az = c.pick({0.0, 1.1, M_PI, -0.4});
  const double s = c.pick({1.0, 2.0, -0.5, 0.0});
  const int isf = c.choose(2);
  c.commit();
  c.describe("affine %g %g %g scale %g %s", ax, ay, az, s, isf ? "float" : "double");
  auto run = [&](auto zero) {
    using T = decltype(zero);
    const double tol = sizeof(T) == 4 ? 2e-5 : 1e-12;
    std::vector<T> v;
    for (auto &p : PT) for (double x : p) v.push_back((T) x);
    auto w = v;
    dfm2::Rotate_Points3(w, (T) ax, (T) ay, (T) az);
    for (U i = 0; i < 6; ++i) {
      P p = at(v, i);
      p = {p.x, std::cos(ax) * p.y - std::sin(ax) * p.z, std::sin(ax) * p.y + std::cos(ax) * p.z};
      p = {std::cos(ay) * p.x + std::sin(ay) * p.z, p.y, -std::sin(ay) * p.x + std::cos(ay) * p.z};
      p = {std::cos(az) * p.x - std::sin(az) * p.y, std::sin(az) * p.x + std::cos(az) * p.y, p.z};
      MC_CHECK(c, len(at(w, i) - p) < tol * 10, "Rotate_Points3 point %u", i);
    }
    w = v; dfm2::Scale_PointsX(w, (T) s);
    for (size_t i = 0; i < v.size(); ++i) MC_CHECK(c, mc::near(w[i], (double) v[i] * s, tol), "Scale_PointsX");
    for (U nd : {1u, 2u, 3u}) {
      w = v;
      const U np = nd == 3 ? 5 : 4;
      T tr[3] = {(T) s, (T) ax, (T) az};
      dfm2::Scale_Points(w.data(), np, nd, (T) s);
      for (size_t i = 0; i < v.size(); ++i) MC_CHECK(c, mc::near(w[i], i < np * nd ? (double) v[i] * s : (double) v[i], tol), "Scale_Points dim %u", nd);
      w = v;
      dfm2::Translate_Points(w.data(), np, nd, tr);
      for (size_t i = 0; i < v.size(); ++i) MC_CHECK(c, mc::near(w[i], i < np * nd ? (double) v[i] + tr[i % nd] : (double) v[i], tol), "Translate_Points dim %u", nd);
    }
    w = v; dfm2::Translate_Points2(w, (T) s, (T) ax);
    for (size_t i = 0; i < v.size(); ++i) MC_CHECK(c, mc::near(w[i], v[i] + (i % 2 ? ax : s), tol), "Translate_Points2");
    w = v; dfm2::Translate_Points3(w, (T) s, (T) ax, (T) ay);
    for (size_t i = 0; i < v.size(); ++i) MC_CHECK(c, mc::near(w[i], v[i] + (i % 3 == 0 ? s : i % 3 == 1 ? ax : ay), tol), "Translate_Points3");
    w.assign(v.begin() + 3, v.end());
    for (U nd : {2u, 3u}) {
      std::vector<T> q;
      for (double x : {3., 4., -1., .5, 2., -2., 0., 7., 1., 1., -6., 2.}) q.push_back((T) (x * (s == 0 ? 1 : s)));
      auto o = q;
      dfm2::NormalizeVector_Points(q.data(), 12 / nd, nd);
      for (U i = 0; i < 12 / nd; ++i) {
        double l = 0;
        for (U k = 0; k < nd; ++k) l += (double) o[i * nd + k] * o[i * nd + k];
        l = std::sqrt(l);
        for (U k = 0; k < nd; ++k) MC_CHECK(c, mc::near(q[i * nd + k], o[i * nd + k] / l, tol), "NormalizeVector_Points dim %u", nd);
      }
    }
  };
  if (isf) run(0.f); else run(0.0);
  // tangent vectors: unit, orthogonal to the normal, in the plane of the old vector and the normal
  {
    VD n, o;
    for (auto &p : {P{1, 0, 0}, P{0, 1, 0}, P{0, 0, -1}, P{.6, .8, 0}}) for (auto &q : {P{1, 2, 3}, P{-2, .5, 0.1}, P{0.2, 0.1, 5}}) {
      n.insert(n.end(), {p.x, p.y, p.z});
      double f = s == 0 ? 1 : s;
      o.insert(o.end(), {f * q.x, f * q.y, f * q.z});
    }
    VD o2 = o;
    dfm2::TangentVector_Points3(o2, n);
    for (U i = 0; i < n.size() / 3; ++i) {
      P N = at(n, i), q = at(o, i), t = q - dot(q, N) * N;
      MC_CHECK(c, len(at(o2, i) - (1 / len(t)) * t) < 1e-10, "TangentVector_Points3: (%g %g %g) is not the unit tangent", o2[i * 3], o2[i * 3 + 1], o2[i * 3 + 2]);
    }
  }
  // local frame box
  {
    VD v; for (auto &p : PT) v.insert(v.end(), p, p + 3);
    P e[3] = {{std::cos(az), std::sin(az), 0}, {-std::sin(az), std::cos(az), 0}, {0, 0, 1}};
    double lo[3] = {1e9, 1e9, 1e9}, hi[3] = {-1e9, -1e9, -1e9};
    for (U i = 0; i < 6; ++i) for (int k = 0; k < 3; ++k) { double d = dot(at(v, i), e[k]); lo[k] = std::min(lo[k], d); hi[k] = std::max(hi[k], d); }
    double b[6];
    dfm2::GetCenterWidthLocal(b[0], b[1], b[2], b[3], b[4], b[5], v, &e[0].x, &e[1].x, &e[2].x);
    for (int k = 0; k < 3; ++k) MC_CHECK(c, mc::near(b[k], (lo[k] + hi[k]) / 2, 1e-12) && mc::near(b[3 + k], hi[k] - lo[k], 1e-12), "GetCenterWidthLocal");
    VD w = v; dfm2::Scale_PointsX(w, s == 0 ? 1. : s);
    MC_CHECK(c, mc::near(dfm2::Size_Points3D_LongestAABBEdge(w), 5 * std::abs(s == 0 ? 1. : s), 1e-12), "Size_Points3D_LongestAABBEdge");
  }
}

// ---------- implicit primitives: depth, normal and projection
static void sdf(mc::Ch &c) {
  const int kind = c.choose(5);
  const double px = c.choose(9) * 0.5 - 2, py = c.choose(9) * 0.5 - 2, pz = c.choose(9) * 0.5 - 2;
  const int opt = c.choose(4);
  c.commit();
  const P p{px, py, pz};
  double n[3] = {9, 9, 9}, d = 0, ed = 0;
  std::function<double(P)> depth;   // signed depth of the exact shape, inside positive
  bool flipped = false;
  unsigned int io = 2;
  const double cen[3] = {0.25 * opt, -0.1 * opt, 0.2 * opt};
  const P ce{cen[0], cen[1], cen[2]};
  P dirs[4] = {{0, 0, 1}, {2, 0, 0}, {1, 1, 0}, {1, -2, .5}};
  bool sing = false;
  if (kind == 0) {
    P nn = (1 / len(dirs[opt])) * dirs[opt];
    dfm2::CPlane<double> s(&nn.x, cen);
    d = s.Projection(n, px, py, pz);
    depth = [=](P q) { return -dot(nn, q - ce); };
  } else if (kind == 1) {
    flipped = opt & 1;
    dfm2::CSphere<double> s(1.1, {cen[0], cen[1], cen[2]}, !flipped);
    d = s.Projection(n, px, py, pz);
    io = s.FindInOut(px, py, pz);
    depth = [=](P q) { return 1.1 - len(q - ce); };
    sing = len(p - ce) < 1e-9;
  } else if (kind == 2) {
    flipped = opt & 1;
    const P D = dirs[opt];
    dfm2::CCylinder<double> s(1.1, cen, &D.x, !flipped);
    d = s.Projection(n, px, py, pz);
    io = s.FindInOut(px, py, pz);
    depth = [=](P q) { P r = q - ce; r = r - (dot(r, D) / dot(D, D)) * D; return 1.1 - len(r); };
    sing = std::abs(depth(p) - 1.1) < 1e-9;
  } else if (kind == 3) {
    dfm2::CTorus<double> s;
    s.cent_[0] = cen[0]; s.cent_[1] = cen[1]; s.cent_[2] = cen[2];
    s.radius_ = 1.3; s.radius_tube_ = 0.4;
    d = s.Projection(n, px, py, pz);
    io = s.FindInOut(px, py, pz);
    depth = [=](P q) { P r = q - ce; return 0.4 - std::hypot(std::hypot(r.x, r.y) - 1.3, r.z); };
    sing = std::abs(depth(p) - 0.4) < 1e-9;
  } else {
    dfm2::CBox<double> s;
    const double h[3] = {1 + 0.25 * opt, 1.1, 0.7 + .1 * opt};
    s.hwx = h[0]; s.hwy = h[1]; s.hwz = h[2];
    d = s.Projection(n, px, py, pz);
    depth = [=](P q) {
      double a[3] = {std::abs(q.x) - h[0], std::abs(q.y) - h[1], std::abs(q.z) - h[2]};
      double m = std::max({a[0], a[1], a[2]});
      if (m <= 0) return -m;
      return -std::sqrt(std::pow(std::max(a[0], 0.), 2) + std::pow(std::max(a[1], 0.), 2) + std::pow(std::max(a[2], 0.), 2));
    };
    sing = std::abs(depth(p)) < 1e-9;
  }
  c.describe("implicit primitive %d option %d at (%g %g %g): depth %g normal (%g %g %g)", kind, opt, px, py, pz, d, n[0], n[1], n[2]);
  ed = depth(p) * (flipped ? -1 : 1);
  MC_CHECK(c, mc::near(d, ed, 1e-9), "depth %.12g expected %.12g", d, ed);
  if (io != 2 && std::abs(ed) > 1e-9) MC_CHECK(c, io == (depth(p) > 0 ? 0u : 1u), "FindInOut %u", io);
  if (!sing) {
    MC_CHECK(c, mc::near(len({n[0], n[1], n[2]}), 1, 1e-9), "normal is not a unit vector");
    P q = p + d * P{n[0], n[1], n[2]};
    MC_CHECK(c, std::abs(depth(q)) < 1e-8, "depth times normal does not lead to the surface (depth there %g)", depth(q));
    // outward: moving along n lowers the depth
    const double e = 1e-5;
    const double slope = (depth(p + e * P{n[0], n[1], n[2]}) - depth(p)) / e * (flipped ? -1 : 1);
    MC_CHECK(c, std::abs(ed) > 1e-9 || slope < -0.9, "normal does not point outward (slope %g)", slope);
  }
  // line intersections
  if (kind == 1 || kind == 2) {
    static const P ld[5] = {{1, 0, 0}, {0, 1, 0}, {1, 1, 1}, {0, 2, -1}, {0, 0, 3}};
    for (const P &dir : ld) {
      double x[3] = {99, 99, 99};
      bool hit;
      const P D = kind == 2 ? dirs[opt] : P{0, 0, 0};
      if (kind == 1) hit = dfm2::CSphere<double>(1.1, {cen[0], cen[1], cen[2]}, !flipped).IntersectionPoint(x, &p.x, &dir.x);
      else hit = dfm2::CCylinder<double>(1.1, cen, &D.x, !flipped).IntersectionPoint(x, &p.x, &dir.x);
      P q = p - ce, r = dir;
      if (kind == 2) { q = q - (dot(q, D) / dot(D, D)) * D; r = r - (dot(r, D) / dot(D, D)) * D; }
      const double A = dot(r, r), B = dot(q, r), C = dot(q, q) - 1.21;
      if (A < 1e-12) continue;   // parallel to the axis: no isolated point
      const double det = B * B - A * C;
      if (std::abs(det) < 1e-9) continue;
      MC_CHECK(c, hit == (det > 0), "line (%g %g %g): intersection reported %d, true %d", dir.x, dir.y, dir.z, (int) hit, (int) (det > 0));
      if (hit) {
        P X{x[0], x[1], x[2]};
        MC_CHECK(c, std::abs(depth(X)) < 1e-8 && len(cross(X - p, dir)) < 1e-8, "intersection point (%g %g %g) is not on the surface and the line", x[0], x[1], x[2]);
      }
      c.tick();
    }
  }
  c.outcome_of(kind, d > 0);
}

// ---------- solid angles, smoothing, quality
static void angles(mc::Ch &c) {
  P v[3];
  for (auto &q : v) { q = {(double) c.choose(3) - 1, (double) c.choose(3) - 1, (double) c.choose(3) - 1}; if (len(q) == 0) { c.skip(); return; } }
  c.commit();
  c.describe("solid angle of (%g %g %g) (%g %g %g) (%g %g %g)", v[0].x, v[0].y, v[0].z, v[1].x, v[1].y, v[1].z, v[2].x, v[2].y, v[2].z);
  const double den = dot(cross(v[0], v[1]), v[2]);
  const double num = len(v[0]) * len(v[1]) * len(v[2]) + dot(v[0], v[1]) * len(v[2]) + dot(v[1], v[2]) * len(v[0]) + dot(v[2], v[0]) * len(v[1]);
  if (std::abs(den) < 1e-9) return;      // flat cone
  // independent: angles of the spherical triangle
  auto ang = [](P a, P b, P d) { P m = cross(a, b), n = cross(a, d); return std::acos(std::max(-1., std::min(1., dot(m, n) / len(m) / len(n)))); };
  double omega = ang(v[0], v[1], v[2]) + ang(v[1], v[2], v[0]) + ang(v[2], v[0], v[1]) - M_PI;
  if (den < 0) omega = 4 * M_PI - omega;
  const double s = dfm2::SolidAngleTri3D(&v[0].x, &v[1].x, &v[2].x);
  MC_CHECK(c, mc::near(s, omega, 1e-7), "solid angle %.9g, spherical excess gives %.9g (num %g)", s, omega, num);
  // quality of the planar triangle
  VD xy{v[0].x, v[0].y, v[1].x, v[1].y, v[2].x, v[2].y, 0, 0, 1, 0, 0, 1};
  VU t{0, 1, 2, 3, 4, 5};
  double ma, mi, a0 = ((v[1].x - v[0].x) * (v[2].y - v[0].y) - (v[2].x - v[0].x) * (v[1].y - v[0].y)) / 2;
  dfm2::Quality_MeshTri2D(ma, mi, xy.data(), t.data(), 2);
  MC_CHECK(c, mc::near(mi, std::min(a0, 0.5), 1e-12), "Quality_MeshTri2D smallest area %g", mi);
  if (std::abs(a0) > 1e-9) {
    double L = std::hypot(v[0].x - v[1].x, v[0].y - v[1].y) + std::hypot(v[2].x - v[1].x, v[2].y - v[1].y) + std::hypot(v[0].x - v[2].x, v[0].y - v[2].y);
    MC_CHECK(c, mc::near(ma, std::max(L * L / 9 / a0, (2 + std::sqrt(2.)) * (2 + std::sqrt(2.)) / 9 / 0.5), 1e-9), "Quality_MeshTri2D aspect %g", ma);
  }
  VD mass(6, 3);
  dfm2::MassPoint_Tri2D(mass.data(), 2, xy.data(), 6, t.data(), 2);
  for (int i = 0; i < 6; ++i) MC_CHECK(c, mc::near(mass[i], (i < 3 ? a0 : 0.5) * 2 / 3, 1e-12), "MassPoint_Tri2D");
  // one triangle's centre
  double g[3];
  VD x3; for (auto &q : v) x3.insert(x3.end(), {q.x, q.y, q.z});
  dfm2::CG_Tri(g[0], g[1], g[2], 0, x3, std::vector<int>{2, 0, 1});
  MC_CHECK(c, len(P{g[0], g[1], g[2]} - (1. / 3) * (v[0] + v[1] + v[2])) < 1e-9, "CG_Tri is off by %g", len(P{g[0], g[1], g[2]} - (1. / 3) * (v[0] + v[1] + v[2])));
  // smoothing: area weighted centre, points without elements stay
  x3.insert(x3.end(), {7, 8, 9, 0.5, 0.5, 0.5});
  std::vector<int> tr{0, 1, 2, 1, 0, 4}, ind{0, 2, 4, 5, 5, 6}, els{0, 1, 0, 1, 0, 1};
  VD w = x3, e = x3;
  dfm2::LaplacianSmoothing(w, tr, ind, els);
  for (int i = 0; i < 5; ++i) {
    double A = 0; P s2{0, 0, 0};
    for (int k = ind[i]; k < ind[i + 1]; ++k) {
      P a = at(e, tr[els[k] * 3]), b = at(e, tr[els[k] * 3 + 1]), d = at(e, tr[els[k] * 3 + 2]);
      double ar = len(cross(b - a, d - a)) / 2;
      A += ar; s2 = s2 + (ar / 3) * (a + b + d);
    }
    if (A < 1e-9 && ind[i] != ind[i + 1]) return;
    if (A > 0) { s2 = (1 / A) * s2; e[i * 3] = s2.x; e[i * 3 + 1] = s2.y; e[i * 3 + 2] = s2.z; }
    MC_CHECK(c, len(at(w, i) - at(e, i)) < 1e-9, "LaplacianSmoothing point %d at (%g %g %g)", i, w[i * 3], w[i * 3 + 1], w[i * 3 + 2]);
  }
  c.outcome_of(den > 0, num > 0);
}

// ---------- quad normals, solid angles at the points of a mesh, distortion of a parameterisation
template<class T>
static void vertices_T(mc::Ch &c) {
  const int n = 1 + c.choose(c.thorough ? 3 : 2), base = c.choose(3);
  std::vector<T> xyz;
  for (int i = 0; i < 6; ++i) for (int k = 0; k < 3; ++k) xyz.push_back((T) (PT[(i + base) % 6][k] * (k == 2 ? .5 : 1)));
  VU quad;
  for (int e = 0; e < n; ++e) {
    U v[4];
    for (int k = 0; k < 4; ++k) {
      v[k] = e == 0 || k == 0 ? (U) c.choose(6) : (v[0] + (U) k * (e + 1) + (k == 3 && e == 1)) % 6;
      for (int j = 0; j < k; ++j) if (v[j] == v[k]) { c.skip(); return; }
    }
    quad.insert(quad.end(), v, v + 4);
  }
  c.commit();
  c.describe("points rotated %d quads %s", base, mc::str(quad).c_str());
  const double tol = sizeof(T) == 4 ? 3e-4 : 1e-10;
  std::vector<P> e(6, P{0, 0, 0}); std::vector<int> used(6, 0); bool flat = false;
  for (int q = 0; q < n; ++q) for (int k = 0; k < 4; ++k) {
    P a = at(xyz, quad[q * 4 + (k + 3) % 4]), b = at(xyz, quad[q * 4 + k]), d = at(xyz, quad[q * 4 + (k + 1) % 4]), m = cross(b - a, d - b);
    if (len(m) < 1e-3) flat = true; else e[quad[q * 4 + k]] = e[quad[q * 4 + k]] + (1 / len(m)) * m;
    used[quad[q * 4 + k]] = 1;
  }
  if (!flat) {
    std::vector<T> nm(c.replay ? 0 : 5, (T) 9);
    dfm2::Normal_MeshQuad3(nm, xyz, quad);
    MC_CHECK(c, nm.size() == 18, "Normal_MeshQuad3: %zu numbers for 6 points", nm.size());
    for (U i = 0; i < 6; ++i) if (used[i] && len(e[i]) > .05)
      MC_CHECK(c, len(at(nm, i) - (1 / len(e[i])) * e[i]) < tol * 10, "Normal_MeshQuad3: normal of point %u is (%g %g %g)", i, (double) nm[i * 3], (double) nm[i * 3 + 1], (double) nm[i * 3 + 2]);
  }
  { // running bounding box over the points in the given order
    T b[6] = {1, -1, 1, -1, 1, -1}; P lo{1e9, 1e9, 1e9}, hi{-1e9, -1e9, -1e9};
    for (U i : quad) {
      P p = at(xyz, i);
      dfm2::updateMinMaxXYZ(b[0], b[1], b[2], b[3], b[4], b[5], (T) p.x, (T) p.y, (T) p.z);
      lo = {std::min(lo.x, p.x), std::min(lo.y, p.y), std::min(lo.z, p.z)}; hi = {std::max(hi.x, p.x), std::max(hi.y, p.y), std::max(hi.z, p.z)};
      MC_CHECK(c, len(P{(double) b[0], (double) b[2], (double) b[4]} - lo) < 1e-6 && len(P{(double) b[1], (double) b[3], (double) b[5]} - hi) < 1e-6, "updateMinMaxXYZ after point %u", i);
    }
  }
  { // random points stay in their box
    for (U nd : {1u, 2u, 3u}) {
      T lo[3] = {(T) -2, (T) .5, (T) 3}, hi[3] = {(T) -1, (T) 2.5, (T) 3}; std::vector<T> p(7 * nd + 2, (T) 55);
      dfm2::Points_RandomUniform(p.data() + 1, 7, nd, lo, hi);
      MC_CHECK(c, p[0] == (T) 55 && p.back() == (T) 55, "Points_RandomUniform writes outside of its array");
      for (U i = 0; i < 7 * nd; ++i) MC_CHECK(c, p[i + 1] >= lo[i % nd] && p[i + 1] <= hi[i % nd], "Points_RandomUniform: coordinate %u is %g", i, (double) p[i + 1]);
    }
  }
  c.outcome(mc::fnv(quad.data(), quad.size() * 4));
}
static void vertices(mc::Ch &c) { if (c.flip()) vertices_T<double>(c); else vertices_T<float>(c); }
static double tri_sphere(P a, P b, P d) { // solid angle of three directions from the angles at the corners of the spherical triangle
  auto ang = [](P u, P v, P w) { P m = cross(u, v), n = cross(u, w); return std::acos(std::max(-1., std::min(1., dot(m, n) / (len(m) * len(n))))); };
  return ang(a, b, d) + ang(b, d, a) + ang(d, a, b) - M_PI;
}
static void corners(mc::Ch &c) {
  const int n = 1 + c.choose(2), base = c.choose(3), rot = c.choose(3);
  VD xyz; VU tri;
  for (int i = 0; i < 6; ++i) for (int k = 0; k < 3; ++k) xyz.push_back(PT[(i + base) % 6][k]);
  for (int i = 0; i < n; ++i) {
    U v[3] = {(U) c.choose(6), (U) c.choose(6), (U) c.choose(6)};
    if (v[0] == v[1] || v[1] == v[2] || v[2] == v[0]) { c.skip(); return; }
    tri.insert(tri.end(), v, v + 3);
  }
  c.commit();
  c.describe("points rotated %d normals rotated %d triangles %s", base, rot, mc::str(tri).c_str());
  static const double NM[6][3] = {{0, 0, 1}, {0, 0, -1}, {.6, 0, .8}, {0, -.6, .8}, {-.36, .48, -.8}, {1, 0, 0}};
  VD nm; for (int i = 0; i < 6; ++i) for (int k = 0; k < 3; ++k) nm.push_back(NM[(i + rot) % 6][k]);
  std::vector<int> ind(7, 0), sup; VD e(6, 0); bool skip = false;
  for (U ip = 0; ip < 6; ++ip) {
    for (int t = 0; t < n; ++t) for (int k = 0; k < 3; ++k) if (tri[t * 3 + k] == ip) {
      sup.push_back(t);
      P a = at(xyz, tri[t * 3 + (k + 1) % 3]) - at(xyz, ip), b = at(xyz, tri[t * 3 + (k + 2) % 3]) - at(xyz, ip), d = at(nm, ip);
      double det = dot(cross(a, b), d) / (len(a) * len(b));
      if (std::fabs(det) < 1e-6) { skip = true; continue; }
      double s = tri_sphere(a, b, d); e[ip] += det > 0 ? s : 4 * M_PI - s;
    }
    ind[ip + 1] = (int) sup.size(); if (ind[ip + 1] == ind[ip]) e[ip] = -1;
  }
  if (skip) return;
  VD sa{4, 4, 4};
  dfm2::makeSolidAngle(sa, xyz, tri, nm, ind, sup);
  MC_CHECK(c, sa.size() == 6, "makeSolidAngle: %zu values", sa.size());
  for (int i = 0; i < 6; ++i) MC_CHECK(c, mc::near(sa[i], e[i], 1e-6, 1e-6), "makeSolidAngle: point %d has %.9g, expected %.9g", i, sa[i], e[i]);
  c.outcome(mc::fnv(tri.data(), tri.size() * 4));
}
static void distortion(mc::Ch &c) {
  const int base = c.choose(6); const double sc = c.pick({1., .5, 3.});
  VD xyz, tex; VU tri;
  for (int i = 0; i < 6; ++i) for (int k = 0; k < 3; ++k) xyz.push_back(PT[(i + base) % 6][k]);
  for (int i = 0; i < 6; ++i) { tex.push_back(sc * PT[i][0]); tex.push_back(sc * PT[i][1]); }
  U v[3]; for (U &k: v) k = (U) c.choose(6);
  if (v[0] == v[1] || v[1] == v[2] || v[2] == v[0]) { c.skip(); return; }
  const U it = (U) c.choose(2);
  const double ta = c.pick({1.2, 2., 10.}), te = c.pick({1.1, 1.5, 10.});
  c.commit();
  c.describe("triangle %u %u %u texture scale %g limits %g %g", v[0], v[1], v[2], sc, ta, te);
  tri = {0, 1, 2, v[0], v[1], v[2]}; if (it == 0) tri = {v[0], v[1], v[2], 0, 1, 2};
  auto T2 = [&](U i) { return P{tex[i * 2], tex[i * 2 + 1], 0}; };
  P tc = cross(T2(v[1]) - T2(v[0]), T2(v[2]) - T2(v[0]));
  double a3 = len(cross(at(xyz, v[1]) - at(xyz, v[0]), at(xyz, v[2]) - at(xyz, v[0]))) / 2, a2 = tc.z / 2;
  if (a3 < 1e-6 || std::fabs(a2) < 1e-6) return;
  double worst = 1e9; bool e = false;
  auto over = [&](double r, double t) { double q = .5 * (r + 1 / r); worst = std::min(worst, std::fabs(q - t)); if (q > t) e = true; };
  if (a2 < 0) e = true; else over(a2 / a3, ta);
  for (int k = 0; k < 3; ++k) over(len(T2(v[k]) - T2(v[(k + 1) % 3])) / len(at(xyz, v[k]) - at(xyz, v[(k + 1) % 3])), te);
  if (worst < 1e-9) return;
  bool r = dfm2::Distortion_MappingTriangleFrom2To3Dim(ta, te, it, tri, xyz, tex);
  MC_CHECK(c, r == e, "Distortion_MappingTriangleFrom2To3Dim is %d, expected %d", (int) r, (int) e);
  c.outcome(r);
}
int main(int argc, char **argv) {
  return mc::run(argc, argv, {"C28", "exploration", {"Mesh_ArrowOcta only exists in single precision", "lines parallel to the axis of a cylinder have no isolated intersection"}},
                 {{"generators_double", gen_double, "all generators and parameters up to the bound"},
                  {"generators_float", gen_float, "all generators and parameters up to the bound"},
                  {"generators_other", gen_other, "all parameters up to the bound"},
                  {"measures_double", measures_d, "all meshes of one or two triangles over six points"},
                  {"measures_float", measures_f, "all meshes of one or two triangles over six points"},
                  {"solids", solids, "all meshes of one or two positive tetrahedra over six points"},
                  {"extrude", extrude, "all vertex numberings and diagonals of a strip of one or two quads"},
                  {"affine", affine, "all angles and scales of the alphabet"},
                  {"implicit", sdf, "all grid points around each primitive"},
                  {"vertices", vertices, "all meshes of one or two (three) quads over six points, both precisions"},
                  {"corners", corners, "all meshes of one or two triangles over six points, normals of the alphabet"},
                  {"distortion", distortion, "all triangles, texture scales and limits of the alphabet"},
                  {"angles", angles, "all triples of lattice vectors"}});
}
