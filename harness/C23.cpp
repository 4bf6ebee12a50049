// C23: voxel and cube grids convert to exact boundary and volume meshes.
#include "mc.h"
#include <iostream>
#include "delfem2/gridvoxel.h"
#include "delfem2/gridcube.h"
#include "delfem2/msh_topology_uniform.h"
namespace dfm2 = delfem2;
using U = unsigned int;
using P = std::array<double, 3>;
using I3 = std::array<int, 3>;
static P sub(P a, P b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static double dot(P a, P b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static P cross(P a, P b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static const int DIR[6][3] = {{-1, 0, 0}, {1, 0, 0}, {0, -1, 0}, {0, 1, 0}, {0, 0, -1}, {0, 0, 1}};

static void meshes(mc::Ch &c) {
  static const int dims[][3] = {{1, 1, 1}, {1, 2, 3}, {3, 1, 2}, {2, 2, 2}, {3, 3, 1}, {1, 4, 2}, {2, 1, 5}, {2, 3, 2}, {3, 2, 2}};
  int d = c.choose(c.thorough ? 9 : 9);
  int nx = dims[d][0], ny = dims[d][1], nz = dims[d][2], nv = nx * ny * nz;
  int occ = c.choose(1 << nv);
  int dirty = occ % 3 == 0;
  c.commit();
  c.describe("%dx%dx%d pattern %x", nx, ny, nz, occ);
  dfm2::CGrid3<int> g;
  g.Initialize((U) nx + 1, 1, 2, 7);
  g.Initialize((U) nx, (U) ny, (U) nz, 0);
  MC_CHECK(c, (int) g.aVal.size() == nv && std::count(g.aVal.begin(), g.aVal.end(), 0) == nv, "Initialize does not empty the grid");
  std::set<I3> cell;
  auto full = [&](int x, int y, int z) { return cell.count({x, y, z}) > 0; };
  for (int x = -1; x <= nx; x++) for (int y = -1; y <= ny; y++) for (int z = -1; z <= nz; z++) {
    bool in = x >= 0 && y >= 0 && z >= 0 && x < nx && y < ny && z < nz;
    MC_CHECK(c, g.IsInclude((U) x, (U) y, (U) z) == in, "IsInclude(%d,%d,%d)", x, y, z);
    if (!in) { auto b = g.aVal; g.Set(x, y, z, 1); MC_CHECK(c, g.aVal == b, "Set outside the grid changes it"); continue; }
    int id = (x * ny + y) * nz + z;
    for (int f = 0; f < 6; f++) {
      int X = x + DIR[f][0], Y = y + DIR[f][1], Z = z + DIR[f][2];
      int e = X < 0 || Y < 0 || Z < 0 || X >= nx || Y >= ny || Z >= nz ? -1 : (X * ny + Y) * nz + Z;
      MC_CHECK(c, dfm2::Adj_Grid(id, f, nx, ny, nz) == e, "Adj_Grid(%d,%d) is %d, expected %d", id, f, dfm2::Adj_Grid(id, f, nx, ny, nz), e);
    }
    if (occ >> id & 1) { g.Set(x, y, z, 1); cell.insert({x, y, z}); MC_CHECK(c, g.aVal[id] == 1, "Set(%d,%d,%d) does not fill the cell", x, y, z); }
  }
  MC_CHECK(c, (int) cell.size() == std::count(g.aVal.begin(), g.aVal.end(), 1), "Set fills %d cells of %zu", (int) std::count(g.aVal.begin(), g.aVal.end(), 1), cell.size());
  std::vector<double> xyz;
  std::vector<U> quad;
  if (dirty) { xyz = {1, 2, 3}; quad = {0, 0, 0, 0}; }
  dfm2::MeshQuad3D_VoxelGrid(xyz, quad, nx, ny, nz, g.aVal);
  auto pt = [&](int i) { return P{xyz[3 * i], xyz[3 * i + 1], xyz[3 * i + 2]}; };
  auto lattice = [&](const char *w) {
    std::set<P> s;
    MC_CHECK(c, (int) xyz.size() == 3 * (nx + 1) * (ny + 1) * (nz + 1), "%s: %zu point coordinates", w, xyz.size());
    for (size_t i = 0; i < xyz.size() / 3; i++) { P p = pt((int) i); s.insert(p); for (int k = 0; k < 3; k++) MC_CHECK(c, p[k] == std::floor(p[k]) && p[k] >= 0 && p[k] <= (k == 0 ? nx : k == 1 ? ny : nz), "%s: point %zu is not on the lattice", w, i); }
    MC_CHECK(c, s.size() == xyz.size() / 3, "%s: two points coincide", w);
  };
  lattice("quads");
  std::set<std::array<double, 6>> want, got;   // centre and normal of each face (doubled)
  for (auto &v: cell) for (int f = 0; f < 6; f++)
    if (!full(v[0] + DIR[f][0], v[1] + DIR[f][1], v[2] + DIR[f][2]))
      want.insert({2. * v[0] + 1 + DIR[f][0], 2. * v[1] + 1 + DIR[f][1], 2. * v[2] + 1 + DIR[f][2], (double) DIR[f][0], (double) DIR[f][1], (double) DIR[f][2]});
  std::map<std::pair<U, U>, int> de;
  double vol = 0;
  for (size_t q = 0; q < quad.size() / 4; q++) {
    P p[4];
    for (int k = 0; k < 4; k++) { MC_CHECK(c, quad[4 * q + k] < xyz.size() / 3, "quad %zu has no point %u", q, quad[4 * q + k]); p[k] = pt((int) quad[4 * q + k]); de[{quad[4 * q + k], quad[4 * q + (k + 1) % 4]}]++; }
    P n = cross(sub(p[2], p[0]), sub(p[3], p[1]));
    for (auto &x: n) x /= 2;
    for (int k = 0; k < 4; k++) MC_CHECK(c, std::fabs(dot(sub(p[(k + 1) % 4], p[k]), sub(p[(k + 1) % 4], p[k])) - 1) < 1e-12, "quad %zu is not a unit square", q);
    got.insert({(p[0][0] + p[2][0]), (p[0][1] + p[2][1]), (p[0][2] + p[2][2]), n[0], n[1], n[2]});
    vol += dot(p[0], n) / 3;
  }
  MC_CHECK(c, quad.size() == 4 * want.size() && got == want, "%zu boundary quads (%zu distinct), the cells have %zu boundary faces", quad.size() / 4, got.size(), want.size());
  for (auto &e: de) MC_CHECK(c, de[std::make_pair(e.first.second, e.first.first)] == e.second, "the boundary is not closed at edge %u-%u", e.first.first, e.first.second);
  MC_CHECK(c, std::fabs(vol - (double) cell.size()) < 1e-9, "the boundary encloses %g, %zu cells are filled", vol, cell.size());
  std::vector<U> tri;
  dfm2::convert2Tri_Quad(tri, quad);
  double v2 = 0;
  std::map<std::pair<U, U>, int> te;
  for (size_t t = 0; t < tri.size() / 3; t++) {
    P a = pt((int) tri[3 * t]), b = pt((int) tri[3 * t + 1]), e = pt((int) tri[3 * t + 2]);
    v2 += dot(a, cross(b, e)) / 6;
    MC_CHECK(c, std::fabs(std::sqrt(dot(cross(sub(b, a), sub(e, a)), cross(sub(b, a), sub(e, a)))) - 1) < 1e-12, "triangle %zu is not half a face", t);
    for (int k = 0; k < 3; k++) te[{tri[3 * t + k], tri[3 * t + (k + 1) % 3]}]++;
  }
  MC_CHECK(c, tri.size() == 6 * want.size() && std::fabs(v2 - (double) cell.size()) < 1e-9, "the triangles enclose %g of %zu", v2, cell.size());
  for (auto &e: te) MC_CHECK(c, te[std::make_pair(e.first.second, e.first.first)] == e.second, "the triangles are not closed at edge %u-%u", e.first.first, e.first.second);
  // hexahedra
  std::vector<int> hex, tet;
  if (dirty) { hex = {1, 2}; tet = {3}; }
  dfm2::MeshHex3D_VoxelGrid(xyz, hex, nx, ny, nz, g.aVal);
  lattice("hexahedra");
  std::set<I3> hc;
  MC_CHECK(c, hex.size() == 8 * cell.size(), "%zu hexahedra for %zu cells", hex.size() / 8, cell.size());
  for (size_t h = 0; h < hex.size() / 8; h++) {
    P p[8];
    for (int k = 0; k < 8; k++) { MC_CHECK(c, hex[8 * h + k] >= 0 && hex[8 * h + k] < (int) xyz.size() / 3, "hexahedron %zu has no point %d", h, hex[8 * h + k]); p[k] = pt(hex[8 * h + k]); }
    I3 v{(int) p[0][0], (int) p[0][1], (int) p[0][2]};
    static const int off[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
    bool unit = true;  // any orientation-preserving numbering of the unit cube
    P ax[3] = {sub(p[1], p[0]), sub(p[3], p[0]), sub(p[4], p[0])};
    if (std::fabs(dot(cross(ax[0], ax[1]), ax[2]) - 1) > 1e-12) unit = false;
    for (int k = 0; k < 8; k++) for (int x = 0; x < 3; x++) if (std::fabs(p[k][x] - p[0][x] - off[k][0] * ax[0][x] - off[k][1] * ax[1][x] - off[k][2] * ax[2][x]) > 1e-12) unit = false;
    for (int k = 1; k < 8; k++) for (int x = 0; x < 3; x++) v[x] = std::min(v[x], (int) p[k][x]);
    MC_CHECK(c, unit, "hexahedron %zu is not a positively oriented unit cube", h);
    hc.insert(v);
  }
  MC_CHECK(c, hc == cell, "the hexahedra do not fill the cells");
  // tetrahedra
  dfm2::MeshTet3D_VoxelGrid(xyz, tet, nx, ny, nz, g.aVal);
  lattice("tetrahedra");
  std::map<I3, double> tv;
  std::map<I3, std::vector<std::array<double, 4>>> face;  // sorted points -> centre and side
  std::map<I3, int> cnt;
  for (size_t t = 0; t < tet.size() / 4; t++) {
    P p[4], m{0, 0, 0};
    for (int k = 0; k < 4; k++) { MC_CHECK(c, tet[4 * t + k] >= 0 && tet[4 * t + k] < (int) xyz.size() / 3, "tetrahedron %zu has no point %d", t, tet[4 * t + k]); p[k] = pt(tet[4 * t + k]); for (int x = 0; x < 3; x++) m[x] += p[k][x] / 4; }
    double w = dot(sub(p[1], p[0]), cross(sub(p[2], p[0]), sub(p[3], p[0]))) / 6;
    MC_CHECK(c, w > 1e-9, "tetrahedron %zu has volume %g", t, w);
    tv[{(int) std::floor(m[0]), (int) std::floor(m[1]), (int) std::floor(m[2])}] += w;
    for (int k = 0; k < 4; k++) { I3 f{tet[4 * t + (k + 1) % 4], tet[4 * t + (k + 2) % 4], tet[4 * t + (k + 3) % 4]}; std::sort(f.begin(), f.end()); cnt[f]++; }
  }
  MC_CHECK(c, tv.size() == cell.size(), "tetrahedra lie in %zu cells of %zu", tv.size(), cell.size());
  for (auto &v: tv) MC_CHECK(c, cell.count(v.first) && std::fabs(v.second - 1) < 1e-9, "tetrahedra fill %g of cell %d,%d,%d", v.second, v.first[0], v.first[1], v.first[2]);
  size_t nb = 0;
  for (auto &f: cnt) {
    MC_CHECK(c, f.second <= 2, "a face belongs to %d tetrahedra", f.second);
    if (f.second == 1) nb++;
  }
  MC_CHECK(c, nb == 2 * want.size(), "%zu boundary triangles of the tetrahedra, expected %zu: the mesh does not conform", nb, 2 * want.size());
  c.outcome(mc::Hash() << d << occ);
}
static void morphology(mc::Ch &c) {
  static const int dims[][3] = {{1, 2, 3}, {3, 1, 2}, {2, 2, 2}, {3, 3, 1}, {2, 3, 2}, {2, 2, 3}, {3, 2, 2}, {1, 1, 5}};
  int d = c.choose(8);
  int nx = dims[d][0], ny = dims[d][1], nz = dims[d][2], nv = nx * ny * nz;
  int occ = c.choose(1 << nv);
  c.commit();
  c.describe("%dx%dx%d pattern %x", nx, ny, nz, occ);
  // these functions index cells as (z*ny+y)*nx+x
  dfm2::CGrid3<int> g;
  g.Initialize(nx, ny, nz, 0);
  for (int i = 0; i < nv; i++) g.aVal[i] = occ >> i & 1;
  auto nb = [&](int i, int f) {
    int x = i % nx + DIR[f][0], y = i / nx % ny + DIR[f][1], z = i / nx / ny + DIR[f][2];
    return x < 0 || y < 0 || z < 0 || x >= nx || y >= ny || z >= nz ? -1 : (z * ny + y) * nx + x;
  };
  auto step = [&](std::vector<int> v, int grow) {
    auto r = v;
    for (int i = 0; i < nv; i++) for (int f = 0; f < 6; f++) {
      int j = nb(i, f), w = j < 0 ? 0 : v[j];
      if (grow && w) r[i] = 1;
      if (!grow && !w) r[i] = 0;
    }
    return r;
  };
  for (int seq = 0; seq < 4; seq++) {
    auto h = g;
    auto e = g.aVal;
    for (int k = 0; k < 2; k++) {
      int grow = seq >> k & 1;
      if (grow) dfm2::Grid3Voxel_Dilation(h); else dfm2::Grid3Voxel_Erosion(h);
      e = step(e, grow);
      MC_CHECK(c, h.aVal == e, "%s gives %s, expected %s", grow ? "dilation" : "erosion", mc::str(h.aVal).c_str(), mc::str(e).c_str());
      MC_CHECK(c, (int) h.ndivx == nx && (int) h.ndivy == ny && (int) h.ndivz == nz, "the grid changes its size");
    }
  }
  // geodesic distances
  for (int s0 = 0; s0 < nv; s0++) for (int s1 = s0; s1 < nv; s1 += 2) for (int mode = 0; mode < 3; mode++) {
    std::vector<std::pair<U, double>> seeds;
    if (mode != 1) seeds.push_back({s0, 0.5});
    if (mode != 0) seeds.push_back({s1, 1.75});
    if (mode == 0 && s1 != s0) continue;
    std::vector<double> dist{3, 3}, e(nv, -1);
    dfm2::VoxelGeodesic(dist, seeds, 0.5, g);
    for (auto &s: seeds) if (e[s.first] < 0 || e[s.first] > s.second) e[s.first] = s.second;
    for (int it = 0; it <= nv; it++) for (int i = 0; i < nv; i++) if (e[i] >= 0) for (int f = 0; f < 6; f++) {
      int j = nb(i, f);
      if (j >= 0 && g.aVal[j] && (e[j] < 0 || e[j] > e[i] + 0.5)) e[j] = e[i] + 0.5;
    }
    MC_CHECK(c, dist.size() == e.size(), "%zu distances", dist.size());
    for (int i = 0; i < nv; i++) MC_CHECK(c, mc::near(dist[i], e[i], 1e-9), "distance of cell %d from %d and %d is %g, expected %g", i, s0, s1, dist[i], e[i]);
  }
  c.outcome(mc::Hash() << d << occ);
}
// the two cell orders of the code must agree
static void layout(mc::Ch &c) {
  static const int dims[][3] = {{2, 2, 2}, {3, 3, 3}, {1, 1, 3}, {2, 1, 3}};
  int d = c.choose(4);
  int nx = dims[d][0], ny = dims[d][1], nz = dims[d][2];
  int x = c.choose(nx), y = c.choose(ny), z = c.choose(nz);
  c.commit();
  c.describe("%dx%dx%d cell %d,%d,%d", nx, ny, nz, x, y, z);
  dfm2::CGrid3<int> g, e;
  g.Initialize(nx, ny, nz, 0);
  e = g;
  g.Set(x, y, z, 1);
  e.Set(x, y, z, 1);
  for (auto &f: DIR) e.Set(x + f[0], y + f[1], z + f[2], 1);
  dfm2::Grid3Voxel_Dilation(g);
  if (g.aVal != e.aVal) {
    char k[64];
    snprintf(k, 64, "layout-%dx%dx%d", nx, ny, nz);
    c.fail_key(k, "Set(%d,%d,%d) on a %dx%dx%d grid followed by a dilation fills cells that are no neighbours", x, y, z, nx, ny, nz);
  }
  c.outcome(mc::Hash() << d << x << y << z);
}
static void traversal(mc::Ch &c) {
  static const int dims[][3] = {{2, 2, 2}, {3, 1, 2}, {1, 3, 2}};
  int d = c.choose(3);
  int nx = dims[d][0], ny = dims[d][1], nz = dims[d][2];
  int map = c.choose(3);
  std::vector<double> vals = c.thorough ? std::vector<double>{-1.25, -0.5, 0, 0.25, 0.5, 1, 1.75, 2.5, 3.75} : std::vector<double>{-0.75, 0, 0.25, 0.5, 1, 2.25};
  P s, e;
  for (auto &v: s) v = vals[c.choose((int) vals.size())];
  c.commit();
  c.describe("%dx%dx%d map %d from %g,%g,%g", nx, ny, nz, map, s[0], s[1], s[2]);
  dfm2::CGrid3<int> g;
  g.Initialize(nx, ny, nz, 1);
  g.am = dfm2::CMat4d::Identity();
  const double sc = map == 1 ? 0.5 : map == 2 ? 2 : 1;
  const P tr = map == 0 ? P{0, 0, 0} : P{1, -2, 0.5};
  for (int i = 0; i < 3; i++) { g.am.mat[i * 5] = sc; g.am.mat[i * 4 + 3] = tr[i]; }
  std::vector<P> ends;
  for (double a: vals) for (double b: vals) for (double f: vals) ends.push_back({a, b, f});
  ends.push_back({1500.5, 0.75, 0.75});
  ends.push_back({-1500.25, -1499.5, -1498});
  for (auto &q: ends) {
    e = q;
    dfm2::CVec3d w0(s[0] * sc + tr[0], s[1] * sc + tr[1], s[2] * sc + tr[2]), w1(e[0] * sc + tr[0], e[1] * sc + tr[1], e[2] * sc + tr[2]);
    std::vector<U> out{5, 5};
    c.step(1);
    c.tick();
    dfm2::Intersection_VoxelGrid_LinSeg(out, g, w0, w1);
    std::vector<int> cnt(nx * ny * nz, 0);
    for (U i: out) { MC_CHECK(c, (int) i < nx * ny * nz, "cell %u does not exist", i); cnt[i]++; }
    int last = -1;
    double lastt = -1;
    for (int i = 0; i < nx * ny * nz; i++) {
      int p[3] = {i % nx, i / nx % ny, i / nx / ny};
      double t0 = 0, t1 = 1;
      bool touch = true;
      for (int k = 0; k < 3; k++) {
        double dd = e[k] - s[k];
        if (dd == 0) { if (s[k] < p[k] || s[k] > p[k] + 1) touch = false; continue; }
        double a = (p[k] - s[k]) / dd, b = (p[k] + 1 - s[k]) / dd;
        t0 = std::max(t0, std::min(a, b));
        t1 = std::min(t1, std::max(a, b));
      }
      bool strict = touch && t1 - t0 > 1e-9;
      for (int k = 0; k < 3 && strict; k++) { double m = s[k] + (e[k] - s[k]) * (t0 + t1) / 2; if (m <= p[k] + 1e-9 || m >= p[k] + 1 - 1e-9) strict = false; }
      if (strict) MC_CHECK(c, cnt[i] == 1, "segment to %g,%g,%g passes through cell %d, which is listed %d times", e[0], e[1], e[2], i, cnt[i]);
      else if (!touch || t1 < t0 - 1e-9) MC_CHECK(c, cnt[i] == 0, "segment to %g,%g,%g does not touch cell %d, which is listed", e[0], e[1], e[2], i);
      else MC_CHECK(c, cnt[i] <= 1, "cell %d is listed %d times", i, cnt[i]);
      (void) last; (void) lastt;
    }
    // in the order of the segment
    double tp = -1;
    for (U i: out) {
      int p[3] = {(int) i % nx, (int) i / nx % ny, (int) i / nx / ny};
      double t0 = 0;
      for (int k = 0; k < 3; k++) if (e[k] != s[k]) t0 = std::max(t0, std::min((p[k] - s[k]) / (e[k] - s[k]), (p[k] + 1 - s[k]) / (e[k] - s[k])));
      MC_CHECK(c, t0 >= tp - 1e-9, "cells are not listed along the segment to %g,%g,%g", e[0], e[1], e[2]);
      tp = t0;
    }
    c.state();
  }
  c.outcome(mc::Hash() << d << map << s[0] << s[1] << s[2]);
}
static void aabb(mc::Ch &c) {
  int n = c.choose(4);
  std::vector<I3> v;
  for (int i = 0; i < n; i++) v.push_back({c.choose(3) * 2 - 1, c.choose(3) * 3 - 4, c.choose(2) * 5});
  c.commit();
  c.describe("%d cells", n);
  int b[8] = {1, -1, 1, -1, 1, -1, 0, 0};
  int e[6] = {1, -1, 1, -1, 1, -1};
  std::vector<dfm2::CCubeGrid> cg;
  for (int i = 0; i < n; i++) {
    dfm2::Add_AABB(b, v[i][0], v[i][1], v[i][2]);
    dfm2::Add_CubeGrid(cg, v[i][0], v[i][1], v[i][2]);
    for (int k = 0; k < 3; k++) { e[2 * k] = i ? std::min(e[2 * k], v[i][k]) : v[i][k]; e[2 * k + 1] = i ? std::max(e[2 * k + 1], v[i][k] + 1) : v[i][k] + 1; }
    for (int k = 0; k < 6; k++) MC_CHECK(c, b[k] == e[k], "Add_AABB: bound %d is %d, expected %d", k, b[k], e[k]);
  }
  for (int x = -3; x <= 3; x++) for (int y = -5; y <= 4; y++) for (int z = -1; z <= 7; z++) {
    bool in = n && x >= e[0] && x < e[1] && y >= e[2] && y < e[3] && z >= e[4] && z < e[5];
    if (n) MC_CHECK(c, dfm2::IsInclude_AABB(b, x, y, z) == in, "IsInclude_AABB(%d,%d,%d)", x, y, z);
  }
  int a[6] = {9, 9, 9, 9, 9, 9};
  dfm2::AABB_CubeGrid(a, cg);
  for (int k = 0; k < 6; k++) MC_CHECK(c, a[k] == e[k], "AABB_CubeGrid: bound %d is %d, expected %d", k, a[k], e[k]);
  c.outcome(mc::Hash() << e[0] << e[1] << e[2] << e[3] << e[4] << e[5]);
}
// edit sequences on the list of cubes against a set of cells
static void cubes(mc::Ch &c) {
  int n = c.thorough ? 6 : 5;
  std::vector<std::pair<int, I3>> op;
  for (int i = 0; i < n; i++) {
    int k = c.choose(i ? 3 : 2);
    if (k == 2) break;
    int a = c.choose(6);
    op.push_back({k, {a == 0 ? -1 : a == 5 ? 1 : 0, a == 1 ? 1 : 0, a == 2 ? 1 : a == 3 ? -2 : 0}});
  }
  c.commit();
  c.describe("%zu edits", op.size());
  std::vector<dfm2::CCubeGrid> g;
  std::set<I3> m;
  for (auto &o: op) {
    auto &v = o.second;
    c.step(1);
    if (o.first == 0) { dfm2::Add_CubeGrid(g, v[0], v[1], v[2]); m.insert(v); }
    else { dfm2::Del_CubeGrid(g, v[0], v[1], v[2]); m.erase(v); }
    std::set<I3> s;
    size_t act = 0;
    for (auto &q: g) if (q.is_active) { act++; s.insert({q.ivx, q.ivy, q.ivz}); }
    MC_CHECK(c, s == m && act == m.size(), "%zu active cubes, expected %zu", act, m.size());
    for (U i = 0; i < g.size(); i++) for (int f = 0; f < 6; f++) {
      int x, y, z;
      dfm2::Adj_CubeGrid(x, y, z, i, f, g);
      MC_CHECK(c, x == g[i].ivx + DIR[f][0] && y == g[i].ivy + DIR[f][1] && z == g[i].ivz + DIR[f][2], "Adj_CubeGrid of cube %u face %d", i, f);
    }
    c.state();
  }
  // picking: rays from outside, straight and slanted (once for every list of cubes the edits lead to)
  static std::set<std::vector<int>> seen;
  std::vector<int> list;
  for (auto &q: g) list.insert(list.end(), {q.ivx, q.ivy, q.ivz, q.is_active});
  if (!seen.insert(list).second) { c.outcome(mc::Hash() << m.size() << g.size()); return; }
  const double el = 0.5, org[3] = {1, -1, 0.25};
  static const double off[] = {-1.75, -0.6, -0.3, 0.06, 0.55, 0.92, 1.3, 1.8};
  static const double slope[7][2] = {{0, 0}, {0.031, 0.017}, {0, -0.053}, {1.71, 0.33}, {-1.93, 1.61}, {2.03, -1.9}, {0.1, -1.97}};  // also those that cut off corners
  for (int ax = 0; ax < 3; ax++) for (int sg = -1; sg <= 1; sg += 2) for (double a: off) for (double b: off) for (int sl = 0; sl < 7; sl++) {
    double s[3], dd[3];
    s[ax] = -sg * 10.; s[(ax + 1) % 3] = a - (sl > 2 ? 5 * slope[sl][0] : 0); s[(ax + 2) % 3] = b - (sl > 2 ? 5 * slope[sl][1] : 0);
    dd[ax] = sg * 2.; dd[(ax + 1) % 3] = slope[sl][0]; dd[(ax + 2) % 3] = slope[sl][1];
    double best = 1e9;
    const dfm2::CCubeGrid *bc = nullptr;
    int bf = -1;
    bool amb = false;
    for (auto &q: g) if (q.is_active) {
      int p[3] = {q.ivx, q.ivy, q.ivz};
      double t0 = -1e9, t1 = 1e9;
      int f0 = -1;
      for (int k = 0; k < 3; k++) {
        if (dd[k] == 0) { double m1 = std::min(s[k] - p[k], p[k] + 1 - s[k]); if (std::fabs(m1) < 1e-6) amb = true; if (m1 < 0) t1 = -1e9; continue; }
        double x = (p[k] - s[k]) / dd[k], y = (p[k] + 1 - s[k]) / dd[k];
        if (std::min(x, y) > t0) { t0 = std::min(x, y); f0 = 2 * k + (dd[k] > 0 ? 0 : 1); }
        t1 = std::min(t1, std::max(x, y));
      }
      if (t1 > -1e8 && std::fabs(t1 - t0) < 1e-4) amb = true;
      // entering exactly at an edge of the cube
      int ties = 0;
      for (int k = 0; k < 3; k++) if (dd[k] != 0 && std::fabs(std::min((p[k] - s[k]) / dd[k], (p[k] + 1 - s[k]) / dd[k]) - t0) < 1e-6) ties++;
      if (ties > 1) amb = true;
      if (t0 < t1 && t0 < best) { best = t0; bc = &q; bf = f0; }
    }
    if (amb) continue;
    double S[3], D[3];
    for (int k = 0; k < 3; k++) { S[k] = org[k] + el * s[k]; D[k] = el * dd[k]; }
    U ic = 77;
    int fc = 99;
    dfm2::Pick_CubeGrid(ic, fc, S, D, el, org, g);
    c.tick();
    if (!bc) MC_CHECK(c, ic == UINT_MAX, "a ray that misses picks cube %u", ic);
    else MC_CHECK(c, ic < g.size() && &g[ic] == bc && fc == bf, "a ray along axis %d (%+d) at %g,%g picks cube %d face %d, expected %d face %d", ax, sg, a, b, (int) ic, fc, (int) (bc - g.data()), bf);
  }
  c.outcome(mc::Hash() << m.size() << g.size());
}
int main(int argc, char **argv) {
  std::cout.rdbuf(nullptr);
  std::cerr.rdbuf(nullptr);
  return mc::run(argc, argv, mc::Config{"C23", "model_checking", {"grid values are 0 or 1", "rays that touch an edge of a cube are not judged", "dilation, erosion, geodesics and traversal are judged on the cell order (z*ny+y)*nx+x they use"}},
                 {{"meshes", meshes, "all occupancy patterns of 9 grids of up to 12 cells: Set, neighbours, boundary quads and triangles, hexahedra, tetrahedra (fresh and used output arrays)"},
                  {"morphology", morphology, "all occupancy patterns of 8 grids of up to 12 cells x all sequences of two dilations/erosions x geodesic distances from all pairs of seeds"},
                  {"layout", layout, "Set followed by a dilation, every cell of cubic and non-cubic grids"},
                  {"traversal", traversal, "3 grids x 3 placements x all segments between lattice and off-lattice points, axis-aligned, diagonal and far"},
                  {"aabb", aabb, "all lists of up to 3 cells out of 18"},
                  {"cubes", cubes, "all sequences of up to 5 (thorough 6) additions and deletions of 6 cells, with picking by 882 rays after each sequence"}});
}
