// C04: subdivision of quad, hexahedral and tetrahedral meshes.
#include "mc.h"
#include <array>
#include <map>
#include <set>
#include <cmath>
#include <climits>
#include "delfem2/mshsubdiv.h"

namespace dfm2 = delfem2;
using U = unsigned int;
using VU = std::vector<U>;
using VD = std::vector<double>;
static const VU JUNK = {7, 7, 7, 0, 1, 2, 3};

// relabel the vertices of a mesh: shift, reversal, unused points in front and behind
static U relabel(U i, int mode, U np) {
  switch (mode) { case 0: return i; case 1: return np - 1 - i; case 2: return (i * 1 + 2) % np; default: return (i % 2) ? i / 2 : np - 1 - i / 2; }
}
static std::pair<U, U> key(U a, U b) { return a < b ? std::make_pair(a, b) : std::make_pair(b, a); }

// every edge exactly once in the (lower, upper) jagged array
static std::map<std::pair<U, U>, U> check_edges(mc::Ch &c, const char *nm, const VU &ind, const VU &ps, size_t np, const std::set<std::pair<U, U>> &edges) {
  MC_CHECK(c, ind.size() == np + 1 && ind[0] == 0 && ind[np] == ps.size(), "%s: jagged array of size %zu with %zu entries", nm, ind.size(), ps.size());
  std::map<std::pair<U, U>, U> id;
  for (U i = 0; i < np; ++i) { MC_CHECK(c, ind[i] <= ind[i + 1], "%s: index decreases", nm); for (U k = ind[i]; k < ind[i + 1]; ++k) {
      MC_CHECK(c, edges.count(key(i, ps[k])), "%s: %u-%u is no edge of the mesh", nm, i, ps[k]);
      MC_CHECK(c, id.emplace(key(i, ps[k]), k).second, "%s: edge %u-%u is listed twice", nm, i, ps[k]); } }
  MC_CHECK(c, id.size() == edges.size(), "%s: %zu edges listed, the mesh has %zu", nm, id.size(), edges.size());
  for (auto &e: id) {
    MC_CHECK(c, dfm2::findEdge(e.first.first, e.first.second, ind, ps) == e.second && dfm2::findEdge(e.first.second, e.first.first, ind, ps) == e.second, "findEdge(%u,%u)", e.first.first, e.first.second);
  }
  for (U i = 0; i < np; ++i) for (U j = 0; j < np; ++j) if (i != j && !id.count(key(i, j))) MC_CHECK(c, dfm2::findEdge(i, j, ind, ps) == UINT_MAX, "findEdge(%u,%u) finds something", i, j);
  c.tick();
  return id;
}
static bool near3(const double *a, const double *b) { for (int k = 0; k < 3; ++k) if (!(std::fabs(a[k] - b[k]) <= 1e-12 * (1 + std::fabs(b[k])))) return false; return true; }

// ---- quads
static void check_quad(mc::Ch &c, const VU &Q, size_t np, const VD &X, int depth) {
  size_t nq = Q.size() / 4;
  VU q1 = JUNK, ind = JUNK, ps = JUNK, ef = JUNK;
  dfm2::SubdivTopo_MeshQuad(q1, ind, ps, ef, Q.data(), nq, np);
  std::map<std::pair<U, U>, std::vector<U>> eq;
  std::set<std::pair<U, U>> es;
  for (U q = 0; q < nq; ++q) for (int i = 0; i < 4; ++i) { auto k = key(Q[q * 4 + i], Q[q * 4 + (i + 1) % 4]); eq[k].push_back(q); es.insert(k); }
  auto id = check_edges(c, "SubdivTopo_MeshQuad", ind, ps, np, es);
  U ne = U(ps.size());
  MC_CHECK(c, ef.size() == size_t(ne) * 4, "edge-face table has %zu entries for %u edges", ef.size(), ne);
  for (auto &e: id) {
    const U *r = &ef[e.second * 4]; auto f = eq[e.first];
    MC_CHECK(c, key(r[0], r[1]) == e.first, "edge-face table: edge %u has ends %u,%u, expected %u,%u", e.second, r[0], r[1], e.first.first, e.first.second);
    if (f.size() == 1) f.push_back(UINT_MAX);
    MC_CHECK(c, f.size() > 2 || (f[0] == r[2] && f[1] == r[3]) || (f[0] == r[3] && f[1] == r[2] && f[1] != UINT_MAX), "edge-face table: edge %u-%u touches quads %u,%u, expected %d,%d", r[0], r[1], r[2], r[3], int(f[0]), int(f[1]));
  }
  MC_CHECK(c, q1.size() == nq * 16, "%zu children of %zu quads", q1.size() / 4, nq);
  auto norm = [](std::array<U, 4> a) { std::rotate(a.begin(), std::min_element(a.begin(), a.end()), a.end()); return a; };
  std::multiset<std::array<U, 4>> got, ex;
  for (size_t k = 0; k < nq * 4; ++k) got.insert(norm({q1[k * 4], q1[k * 4 + 1], q1[k * 4 + 2], q1[k * 4 + 3]}));
  for (U q = 0; q < nq; ++q) for (int i = 0; i < 4; ++i) {
    U a = Q[q * 4 + i], b = Q[q * 4 + (i + 1) % 4], d = Q[q * 4 + (i + 3) % 4];
    ex.insert(norm({a, U(np) + id[key(a, b)], U(np) + ne + q, U(np) + id[key(a, d)]}));
  }
  MC_CHECK(c, got == ex, "the children do not join each corner with its edge points and the face point, in the parent's order: %s from %s", mc::str(q1).c_str(), mc::str(Q).c_str());
  c.tick();
  // linear subdivision
  { std::vector<int> efi(ef.begin(), ef.end()); VD Y(5, 9.); dfm2::SubdivPoints3_MeshQuad(Y, efi, Q, X);
    MC_CHECK(c, Y.size() == (np + ne + nq) * 3, "SubdivPoints3_MeshQuad: %zu values", Y.size());
    for (size_t i = 0; i < np; ++i) MC_CHECK(c, near3(&Y[i * 3], &X[i * 3]), "SubdivPoints3_MeshQuad moves vertex %zu", i);
    for (auto &e: id) { double m[3]; for (int k = 0; k < 3; ++k) m[k] = .5 * (X[e.first.first * 3 + k] + X[e.first.second * 3 + k]); MC_CHECK(c, near3(&Y[(np + e.second) * 3], m), "SubdivPoints3_MeshQuad: edge point"); }
    for (size_t q = 0; q < nq; ++q) { double m[3]; for (int k = 0; k < 3; ++k) { m[k] = 0; for (int i = 0; i < 4; ++i) m[k] += .25 * X[Q[q * 4 + i] * 3 + k]; } MC_CHECK(c, near3(&Y[(np + ne + q) * 3], m), "SubdivPoints3_MeshQuad: face point"); } }
  // Catmull-Clark
  VD Y(5, 9.);
  dfm2::SubdivisionPoints_QuadCatmullClark(Y, q1, ef, ind, ps, Q.data(), nq, X.data(), np);
  MC_CHECK(c, Y.size() == (np + ne + nq) * 3, "Catmull-Clark: %zu values", Y.size());
  VD F(nq * 3, 0.); for (size_t q = 0; q < nq; ++q) for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) F[q * 3 + k] += .25 * X[Q[q * 4 + i] * 3 + k];
  for (size_t q = 0; q < nq; ++q) MC_CHECK(c, near3(&Y[(np + ne + q) * 3], &F[q * 3]), "Catmull-Clark: face point %zu", q);
  std::vector<int> bd(np, 0), nf(np, 0), n_e(np, 0); VD SF(np * 3, 0.), SM(np * 3, 0.); bool nonman = false;
  for (U q = 0; q < nq; ++q) for (int i = 0; i < 4; ++i) { U v = Q[q * 4 + i]; nf[v]++; for (int k = 0; k < 3; ++k) SF[v * 3 + k] += F[q * 3 + k]; }
  for (auto &e: id) {
    auto &f = eq[e.first]; U a = e.first.first, b = e.first.second; double m[3];
    if (f.size() > 2) { nonman = true; continue; }
    n_e[a]++, n_e[b]++;
    for (int k = 0; k < 3; ++k) { double mid = .5 * (X[a * 3 + k] + X[b * 3 + k]); SM[a * 3 + k] += mid; SM[b * 3 + k] += mid; m[k] = f.size() == 1 ? mid : .5 * mid + .25 * (F[f[0] * 3 + k] + F[f[1] * 3 + k]); }
    if (f.size() == 1) bd[a] = bd[b] = 1;
    MC_CHECK(c, near3(&Y[(np + e.second) * 3], m), "Catmull-Clark: point of edge %u-%u is %g,%g,%g, expected %g,%g,%g", a, b, Y[(np + e.second) * 3], Y[(np + e.second) * 3 + 1], Y[(np + e.second) * 3 + 2], m[0], m[1], m[2]);
  }
  if (!nonman) for (U v = 0; v < np; ++v) {
    double m[3]; int n = nf[v];
    for (int k = 0; k < 3; ++k) m[k] = (bd[v] || !n) ? X[v * 3 + k] : (SF[v * 3 + k] / n + 2 * SM[v * 3 + k] / n + (n - 3) * X[v * 3 + k]) / n;
    MC_CHECK(c, near3(&Y[v * 3], m), "Catmull-Clark: vertex %u (%d faces%s) is %g,%g,%g, expected %g,%g,%g", v, n, bd[v] ? ", boundary" : "", Y[v * 3], Y[v * 3 + 1], Y[v * 3 + 2], m[0], m[1], m[2]);
  }
  c.tick();
  if (depth > 0 && !nonman) check_quad(c, q1, np + ne + nq, Y, depth - 1);
}
static bool oriented(const VU &Q) { // every directed edge once
  std::set<std::pair<U, U>> s;
  for (size_t q = 0; q < Q.size() / 4; ++q) for (int i = 0; i < 4; ++i) { if (Q[q * 4 + i] == Q[q * 4 + (i + 1) % 4]) return false; if (!s.insert({Q[q * 4 + i], Q[q * 4 + (i + 1) % 4]}).second) return false; }
  return true;
}
static void generic(VD &X, size_t n) { X.resize(n * 3); for (size_t i = 0; i < n; ++i) { X[i * 3] = double((i * 7) % 11); X[i * 3 + 1] = double((i * 5) % 13) - 4; X[i * 3 + 2] = double((i * i) % 9) * .5; } }
// all cyclic quads over n points
static std::vector<std::array<U, 4>> cyc(U n) {
  std::vector<std::array<U, 4>> v;
  for (U a = 0; a < n; ++a) for (U b = a + 1; b < n; ++b) for (U d = a + 1; d < n; ++d) for (U e = a + 1; e < n; ++e) if (b != d && d != e && b != e) v.push_back({a, b, d, e});
  return v;
}
static void quads_abstract(mc::Ch &c) {
  U n = 4 + U(c.choose(c.thorough ? 3 : 2));
  auto all = cyc(n); int m = 1 + c.choose(n == 6 ? 3 : 4);
  VU Q; size_t last = 0;
  for (int i = 0; i < m; ++i) { size_t k = last + c.choose(int(all.size() - last)); last = k; Q.insert(Q.end(), all[k].begin(), all[k].end()); if (!oriented(Q)) c.skip(); if (k + 1 == all.size() && i + 1 < m) c.skip(); }
  int rot = c.choose(4), extra = c.choose(2);
  c.commit();
  for (size_t q = 0; q < Q.size() / 4; ++q) std::rotate(Q.begin() + q * 4, Q.begin() + q * 4 + (rot * (q + 1)) % 4, Q.begin() + q * 4 + 4);
  VD X; generic(X, n + extra);
  check_quad(c, Q, n + extra, X, 0);
  c.outcome(mc::fnv(Q.data(), Q.size() * sizeof(U)));
}
static void quads_grid(mc::Ch &c) {
  static const int S[5][2] = {{1, 1}, {2, 1}, {3, 1}, {2, 2}, {3, 3}};
  int s = c.choose(5), w = S[s][0], h = S[s][1];
  int mask = 1 + c.choose((1 << (w * h)) - 1), rot = c.choose(s == 4 && !c.thorough ? 2 : 4), mode = c.choose(4), plane = c.choose(3), extra = c.choose(2);
  c.commit();
  U np = U((w + 1) * (h + 1)); VU Q; VD X((np + extra) * 3, 1.5);
  auto id = [&](int i, int j) { return relabel(U(j * (w + 1) + i), mode, np); };
  for (int j = 0; j <= h; ++j) for (int i = 0; i <= w; ++i) { double *p = &X[id(i, j) * 3]; double z = plane == 2 ? ((i * 3 + j * 5) % 4) : 0; p[0] = i; p[1] = j; p[2] = z; if (plane) { double q[3] = {p[0] * 2 - p[1] + 1, p[1] + p[2], p[0] - p[2] * 2}; std::copy_n(q, 3, p); } }
  int n = 0;
  for (int k = 0; k < w * h; ++k) if (mask >> k & 1) { int i = k % w, j = k / w; U q[4] = {id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j + 1)}; for (int t = 0; t < 4; ++t) Q.push_back(q[(t + rot * (n + 1)) % 4]); ++n; }
  check_quad(c, Q, np + extra, X, s == 4 ? 0 : 1);
  c.outcome(mask * 8 + s);
}
// surfaces of voxel sets: closed, valences 3 to 6
static void quads_closed(mc::Ch &c) {
  int nx = 2, ny = 2, nz = c.thorough ? 2 + c.choose(2) : 2;
  int mask = 1 + c.choose((1 << (nx * ny * nz)) - 1), mode = c.choose(4), rot = c.choose(4);
  c.commit();
  auto in = [&](int x, int y, int z) { return x >= 0 && y >= 0 && z >= 0 && x < nx && y < ny && z < nz && (mask >> ((z * ny + y) * nx + x) & 1); };
  U np = U((nx + 1) * (ny + 1) * (nz + 1)); VU Q; VD X(np * 3);
  auto id = [&](int x, int y, int z) { return relabel(U((z * (ny + 1) + y) * (nx + 1) + x), mode, np); };
  for (int z = 0; z <= nz; ++z) for (int y = 0; y <= ny; ++y) for (int x = 0; x <= nx; ++x) { double *p = &X[id(x, y, z) * 3]; p[0] = x * 2 + y * .5; p[1] = y - z * .25; p[2] = z * 1.5 + x; }
  int n = 0;
  for (int z = 0; z < nz; ++z) for (int y = 0; y < ny; ++y) for (int x = 0; x < nx; ++x) if (in(x, y, z)) for (int a = 0; a < 3; ++a) for (int s = 0; s < 2; ++s) {
    int d[3] = {0, 0, 0}; d[a] = s ? 1 : -1; if (in(x + d[0], y + d[1], z + d[2])) continue;
    int e1[3] = {}, e2[3] = {}, o[3] = {x, y, z}; e1[(a + 1) % 3] = 1; e2[(a + 2) % 3] = 1; o[a] += s; if (!s) std::swap_ranges(e1, e1 + 3, e2);
    int P[4][3]; for (int k = 0; k < 3; ++k) { P[0][k] = o[k]; P[1][k] = o[k] + e1[k]; P[2][k] = o[k] + e1[k] + e2[k]; P[3][k] = o[k] + e2[k]; }
    for (int t = 0; t < 4; ++t) { int *p = P[(t + rot * (n + 1)) % 4]; Q.push_back(id(p[0], p[1], p[2])); }
    ++n; }
  if (!oriented(Q)) { c.outcome(1); return; } // two voxels touching along an edge
  check_quad(c, Q, np, X, 1);
  c.outcome(mask);
}

// ---- hexahedra
static const int HF[6][4] = {{0, 4, 7, 3}, {1, 2, 6, 5}, {0, 1, 5, 4}, {3, 7, 6, 2}, {0, 3, 2, 1}, {4, 5, 6, 7}}; // outward
static const int HC[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
static const int HE[12][2] = {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {4, 5}, {5, 6}, {6, 7}, {7, 4}, {0, 4}, {1, 5}, {2, 6}, {3, 7}};
static const std::vector<std::array<int, 8>> &hexrot() { // the 24 proper renumberings of a cube
  static std::vector<std::array<int, 8>> R;
  if (!R.empty()) return R;
  int pm[3] = {0, 1, 2};
  do for (int s = 0; s < 8; ++s) {
    int inv = (pm[0] > pm[1]) + (pm[0] > pm[2]) + (pm[1] > pm[2]), sg = (s & 1) + (s >> 1 & 1) + (s >> 2 & 1);
    if ((inv + sg) % 2) continue;
    std::array<int, 8> r{};
    for (int i = 0; i < 8; ++i) { int q[3]; for (int k = 0; k < 3; ++k) q[k] = HC[i][pm[k]] ^ (s >> k & 1); for (int j = 0; j < 8; ++j) if (HC[j][0] == q[0] && HC[j][1] == q[1] && HC[j][2] == q[2]) r[i] = j; }
    R.push_back(r);
  } while (std::next_permutation(pm, pm + 3));
  return R;
}
static double det3(const double *a, const double *b, const double *d, const double *e) {
  double u[3], v[3], w[3]; for (int k = 0; k < 3; ++k) { u[k] = b[k] - a[k]; v[k] = d[k] - a[k]; w[k] = e[k] - a[k]; }
  return u[0] * (v[1] * w[2] - v[2] * w[1]) - u[1] * (v[0] * w[2] - v[2] * w[0]) + u[2] * (v[0] * w[1] - v[1] * w[0]);
}
static void check_hex(mc::Ch &c, const VU &H, size_t np, const VD &X, int depth) {
  size_t nh = H.size() / 8;
  VU h1 = JUNK, ind = JUNK, ps = JUNK, qf = JUNK;
  dfm2::SubdivTopo_MeshHex(h1, ind, ps, qf, H.data(), nh, np);
  std::set<std::pair<U, U>> es; std::map<std::set<U>, std::vector<std::pair<U, int>>> fs;
  for (U h = 0; h < nh; ++h) { for (auto &e: HE) es.insert(key(H[h * 8 + e[0]], H[h * 8 + e[1]])); for (int f = 0; f < 6; ++f) { std::set<U> s; for (int i: HF[f]) s.insert(H[h * 8 + i]); fs[s].push_back({h, f}); } }
  auto id = check_edges(c, "SubdivTopo_MeshHex", ind, ps, np, es);
  U ne = U(ps.size()), nf = U(qf.size() / 4);
  MC_CHECK(c, qf.size() % 4 == 0 && nf == fs.size(), "SubdivTopo_MeshHex lists %zu face corners, the mesh has %zu faces", qf.size(), fs.size());
  std::map<std::set<U>, U> fid;
  for (U f = 0; f < nf; ++f) { std::set<U> s(&qf[f * 4], &qf[f * 4] + 4); MC_CHECK(c, fs.count(s) && fid.emplace(s, f).second, "face %u is not a face of the mesh, or is listed twice", f);
    for (int i = 0; i < 4; ++i) MC_CHECK(c, es.count(key(qf[f * 4 + i], qf[f * 4 + (i + 1) % 4])), "face %u is not in cyclic order", f); }
  MC_CHECK(c, h1.size() == nh * 64, "%zu children of %zu hexahedra", h1.size() / 8, nh);
  // children: the set of points is corner, three edges, three faces, centre, one child per corner of every parent
  std::map<std::set<U>, std::pair<U, int>> ex;
  auto face = [&](U h, int f) { std::set<U> s; for (int i: HF[f]) s.insert(H[h * 8 + i]); return U(np) + ne + fid[s]; };
  for (U h = 0; h < nh; ++h) for (int i = 0; i < 8; ++i) {
    std::set<U> s = {H[h * 8 + i], U(np) + ne + nf + h};
    for (auto &e: HE) if (e[0] == i || e[1] == i) s.insert(U(np) + id[key(H[h * 8 + e[0]], H[h * 8 + e[1]])]);
    for (int f = 0; f < 6; ++f) for (int k: HF[f]) if (k == i) s.insert(face(h, f));
    MC_CHECK(c, s.size() == 8, "internal: child of hexahedron"); ex[s] = {h, i};
  }
  VD Y(3, 9.); dfm2::SubdivisionPoints_Hex(Y, ind, ps, qf, H.data(), U(nh), X.data(), U(np));
  size_t np1 = np + ne + nf + nh;
  MC_CHECK(c, Y.size() == np1 * 3, "SubdivisionPoints_Hex: %zu values, expected %zu", Y.size(), np1 * 3);
  auto avg = [&](std::vector<U> v, U at, const char *nm) { double m[3] = {}; for (U i: v) for (int k = 0; k < 3; ++k) m[k] += X[i * 3 + k] / double(v.size()); MC_CHECK(c, near3(&Y[at * 3], m), "SubdivisionPoints_Hex: %s is %g,%g,%g, expected %g,%g,%g", nm, Y[at * 3], Y[at * 3 + 1], Y[at * 3 + 2], m[0], m[1], m[2]); };
  for (U i = 0; i < np; ++i) avg({i}, i, "vertex");
  for (auto &e: id) avg({e.first.first, e.first.second}, U(np) + e.second, "edge point");
  for (auto &f: fid) avg(std::vector<U>(f.first.begin(), f.first.end()), U(np) + ne + f.second, "face point");
  for (U h = 0; h < nh; ++h) avg(std::vector<U>(&H[h * 8], &H[h * 8] + 8), U(np) + ne + nf + h, "cell point");
  for (size_t k = 0; k < nh * 8; ++k) {
    const U *r = &h1[k * 8]; auto it = ex.find(std::set<U>(r, r + 8));
    MC_CHECK(c, it != ex.end(), "child %zu (%s) does not join a corner with its edge, face and cell points", k, mc::str(VU(r, r + 8)).c_str());
    // a proper renumbering of the child at that corner: opposite corners opposite, orientation kept
    U h = it->second.first; int i = it->second.second; ex.erase(it);
    bool ok = false;
    std::array<U, 8> ref; for (int j = 0; j < 8; ++j) { // reference child in the parent's own numbering
      U P[8]; int cnt = 0; for (int m = 0; m < 8; ++m) { bool in = true; for (int a = 0; a < 3; ++a) { int x = HC[i][a] + HC[j][a]; if (x != 1 && HC[m][a] != x / 2) in = false; } if (in) P[cnt++] = H[h * 8 + m]; }
      if (cnt == 1) ref[j] = P[0]; else if (cnt == 2) ref[j] = U(np) + id[key(P[0], P[1])]; else if (cnt == 4) ref[j] = U(np) + ne + fid[std::set<U>(P, P + 4)]; else ref[j] = U(np) + ne + nf + h; }
    for (auto &R: hexrot()) { bool e = true; for (int j = 0; j < 8; ++j) e &= r[j] == ref[R[j]]; ok |= e; }
    MC_CHECK(c, ok, "child %zu (%s) is not numbered like a hexahedron of the parent's orientation", k, mc::str(VU(r, r + 8)).c_str());
  }
  c.tick();
  if (depth > 0) check_hex(c, h1, np1, Y, depth - 1);
}
static void hexes(mc::Ch &c) {
  static const int S[4][3] = {{1, 1, 1}, {2, 1, 1}, {2, 2, 1}, {2, 2, 2}};
  int s = c.choose(4), nx = S[s][0], ny = S[s][1], nz = S[s][2], n = nx * ny * nz;
  int mask = 1 + c.choose((1 << n) - 1), rot = c.choose(s < 2 ? 24 : 6), step = c.choose(s == 0 ? 1 : s == 1 ? 24 : 4), mode = c.choose(4), extra = c.choose(2);
  c.commit();
  U np = U((nx + 1) * (ny + 1) * (nz + 1)); VU H; VD X((np + extra) * 3, .5);
  auto id = [&](int x, int y, int z) { return relabel(U((z * (ny + 1) + y) * (nx + 1) + x), mode, np); };
  for (int z = 0; z <= nz; ++z) for (int y = 0; y <= ny; ++y) for (int x = 0; x <= nx; ++x) { double *p = &X[id(x, y, z) * 3]; p[0] = x * 2 + y * .5 + ((x + y * z) % 2) * .25; p[1] = y - z * .25; p[2] = z * 1.5 + x; }
  int m = 0;
  for (int k = 0; k < n; ++k) if (mask >> k & 1) { int x = k % nx, y = k / nx % ny, z = k / nx / ny; auto &R = hexrot()[(rot + m * step * 5) % 24]; for (int i = 0; i < 8; ++i) { const int *d = HC[R[i]]; H.push_back(id(x + d[0], y + d[1], z + d[2])); } ++m; }
  { // findFace on a table of two faces
    VU F = {id(0, 0, 0), id(1, 0, 0), id(1, 1, 0), id(0, 1, 0), id(0, 0, 1), id(1, 0, 1), id(1, 1, 1), id(0, 1, 1)}, ind = {0}, el; std::vector<std::vector<U>> t(np); for (U i = 0; i < 8; ++i) t[F[i]].push_back(i / 4); for (auto &v: t) { el.insert(el.end(), v.begin(), v.end()); ind.push_back(U(el.size())); }
    for (int a = 0; a < 4; ++a) { MC_CHECK(c, dfm2::findFace(F[a], F[(a + 1) % 4], F[(a + 2) % 4], F[(a + 3) % 4], F, ind, el) == 0 && dfm2::findFace(F[4 + a], F[4 + (a + 3) % 4], F[4 + (a + 2) % 4], F[4 + (a + 1) % 4], F, ind, el) == 1, "findFace misses a face"); MC_CHECK(c, dfm2::findFace(F[a], F[(a + 1) % 4], F[(a + 1) % 4 + 4], F[a + 4], F, ind, el) == -1, "findFace finds a face that is not there"); } }
  check_hex(c, H, np + extra, X, s < 3 || c.thorough ? 1 : 0);
  c.outcome(mask * 4 + s);
}

// ---- tetrahedra
static void tets(mc::Ch &c) {
  static const std::vector<VU> M = {
    {0, 1, 2, 4, 3, 2, 1, 7, 5, 1, 4, 7, 6, 4, 2, 7, 1, 2, 4, 7}, // five in a cube (bits of the index are coordinates)
    {0, 1, 3, 7, 0, 3, 2, 7, 0, 2, 6, 7, 0, 6, 4, 7, 0, 4, 5, 7, 0, 5, 1, 7}}; // Kuhn
  int k = c.choose(2); const VU &T0 = M[k]; int n = int(T0.size() / 4);
  int mask = 1 + c.choose((1 << n) - 1), rot = c.choose(12), step = c.choose(3), mode = c.choose(4), extra = c.choose(2), sh = c.choose(2);
  c.commit();
  VD X((8 + extra) * 3, 3.); for (U i = 0; i < 8; ++i) { double *p = &X[relabel(i, mode, 8) * 3]; double x = i & 1, y = i >> 1 & 1, z = i >> 2; p[0] = x * 2 + (sh ? y * .5 - z : 0); p[1] = y * 3 + (sh ? z * .25 : 0); p[2] = z + (sh ? x * .5 : 0); }
  static std::vector<std::array<int, 4>> EV; if (EV.empty()) { std::array<int, 4> p = {0, 1, 2, 3}; do { int inv = 0; for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) inv += p[i] > p[j]; if (inv % 2 == 0) EV.push_back(p); } while (std::next_permutation(p.begin(), p.end())); }
  VU T; int m = 0; double vol = 0;
  for (int t = 0; t < n; ++t) if (mask >> t & 1) {
    U q[4]; for (int i = 0; i < 4; ++i) q[i] = relabel(T0[t * 4 + i], mode, 8);
    if (det3(&X[q[0] * 3], &X[q[1] * 3], &X[q[2] * 3], &X[q[3] * 3]) < 0) std::swap(q[0], q[1]);
    auto &E = EV[(rot + m * step * 5) % 12]; for (int i = 0; i < 4; ++i) T.push_back(q[E[i]]); vol += det3(&X[q[0] * 3], &X[q[1] * 3], &X[q[2] * 3], &X[q[3] * 3]); ++m; }
  size_t np = 8 + extra;
  for (int depth = 0; depth < 2; ++depth) {
    size_t nt = T.size() / 4; VU t1 = JUNK, ind = JUNK, ps = JUNK;
    dfm2::SubdivTopo_MeshTet(t1, ind, ps, T.data(), int(nt), U(np));
    std::set<std::pair<U, U>> es; for (size_t t = 0; t < nt; ++t) for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) es.insert(key(T[t * 4 + i], T[t * 4 + j]));
    auto id = check_edges(c, "SubdivTopo_MeshTet", ind, ps, np, es);
    MC_CHECK(c, t1.size() == nt * 32, "%zu children of %zu tetrahedra", t1.size() / 4, nt);
    VD Y = X; Y.resize((np + ps.size()) * 3); for (auto &e: id) for (int d = 0; d < 3; ++d) Y[(np + e.second) * 3 + d] = .5 * (X[e.first.first * 3 + d] + X[e.first.second * 3 + d]);
    std::map<std::set<U>, int> face, pface; double v = 0;
    std::vector<std::set<U>> allowed(nt); for (size_t t = 0; t < nt; ++t) for (int i = 0; i < 4; ++i) { allowed[t].insert(T[t * 4 + i]); for (int j = 0; j < i; ++j) allowed[t].insert(U(np) + id[key(T[t * 4 + i], T[t * 4 + j])]); std::set<U> f; for (int j = 0; j < 4; ++j) if (j != i) f.insert(T[t * 4 + j]); pface[f]++; }
    for (size_t t = 0; t < nt * 8; ++t) {
      const U *q = &t1[t * 4]; for (int i = 0; i < 4; ++i) MC_CHECK(c, q[i] < np + ps.size() && allowed[t / 8].count(q[i]), "child %zu uses point %u, not of its parent", t, q[i]);
      double d = det3(&Y[q[0] * 3], &Y[q[1] * 3], &Y[q[2] * 3], &Y[q[3] * 3]); const U *p = &T[t / 8 * 4]; double D = det3(&X[p[0] * 3], &X[p[1] * 3], &X[p[2] * 3], &X[p[3] * 3]);
      MC_CHECK(c, std::fabs(d - D / 8) < 1e-10, "child %zu of a tetrahedron of volume %g has volume %g", t, D / 6, d / 6); v += d;
      for (int i = 0; i < 4; ++i) { std::set<U> f; for (int j = 0; j < 4; ++j) if (j != i) f.insert(q[j]); face[f]++; }
    }
    MC_CHECK(c, std::fabs(v - vol) < 1e-9, "volume %g becomes %g", vol / 6, v / 6);
    // conforming: faces once or twice, boundary faces exactly the quarters of the old boundary faces
    std::set<std::set<U>> bd; for (auto &f: pface) if (f.second == 1) { std::vector<U> a(f.first.begin(), f.first.end()); U e[3]; for (int i = 0; i < 3; ++i) e[i] = U(np) + id[key(a[(i + 1) % 3], a[(i + 2) % 3])]; bd.insert({e[0], e[1], e[2]}); for (int i = 0; i < 3; ++i) bd.insert({a[i], e[(i + 1) % 3], e[(i + 2) % 3]}); }
    for (auto &f: face) { MC_CHECK(c, f.second <= 2, "a face of the refined mesh is used %d times", f.second); MC_CHECK(c, (f.second == 1) == (bd.count(f.first) > 0), "the refined mesh is not conforming: a face used %d times %s the boundary", f.second, bd.count(f.first) ? "is on" : "is not on"); }
    c.tick();
    if (m > 2 && !c.thorough) break;
    T = t1; X = Y; np = Y.size() / 3;
  }
  c.outcome(mask * 2 + k);
}
int main(int argc, char **argv) {
  return mc::run(argc, argv, {"C04", "exploration",
    {"a point not used by any element keeps its position",
     "boundary vertices and edges of a quad mesh are kept (documented open-surface treatment); non-manifold edges are not judged"}},
    {{"quads_abstract", quads_abstract, "all oriented quad complexes of up to four quads on four or five points (thorough: six), corners rotated"},
     {"quads_grid", quads_grid, "all subsets of grids up to 3x3, relabelled, planar and not, two levels"},
     {"quads_closed", quads_closed, "surfaces of all voxel sets in 2x2x2, two levels"},
     {"hexes", hexes, "all voxel sets up to 2x2x2, every cell renumbered by cube rotations, two levels"},
     {"tets", tets, "all subsets of two decompositions of a cube, every tetrahedron renumbered, two levels"}});
}
