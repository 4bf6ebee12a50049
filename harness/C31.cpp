// C31: the dynamic tetrahedral mesh under all insertion histories of small point sets, against the exact Delaunay complex.
#include "mc.h"
#include <cassert>
#include <cmath>
#include <vector>
#include <array>
#include <set>
#include <map>
#include <iostream>
#include <algorithm>
#include "delfem2/dtet_v3.h"
namespace dfm2 = delfem2;
using U = unsigned int;
using LD = long double;
using I = __int128;
using P = std::array<long, 3>;
using T4 = std::array<U, 4>;

static I det3(const P &a, const P &b, const P &c, const P &d) {   // 6 x signed volume
  I u[3], v[3], w[3];
  for (int k = 0; k < 3; k++) { u[k] = b[k] - a[k]; v[k] = c[k] - a[k]; w[k] = d[k] - a[k]; }
  return u[0] * (v[1] * w[2] - v[2] * w[1]) - u[1] * (v[0] * w[2] - v[2] * w[0]) + u[2] * (v[0] * w[1] - v[1] * w[0]);
}
// > 0 iff e is inside the circumsphere of the positively oriented a b c d
static I insphere(const P &a, const P &b, const P &c, const P &d, const P &e) {
  const P *p[4] = {&a, &b, &c, &d};
  I m[4][4];
  for (int i = 0; i < 4; i++) { I s = 0; for (int k = 0; k < 3; k++) { m[i][k] = (*p[i])[k] - e[k]; s += m[i][k] * m[i][k]; } m[i][3] = s; }
  auto d3 = [&](int r0, int r1, int r2) { return m[r0][0] * (m[r1][1] * m[r2][2] - m[r1][2] * m[r2][1]) - m[r0][1] * (m[r1][0] * m[r2][2] - m[r1][2] * m[r2][0]) + m[r0][2] * (m[r1][0] * m[r2][1] - m[r1][1] * m[r2][0]); };
  I D = m[0][3] * d3(1, 2, 3) - m[1][3] * d3(0, 2, 3) + m[2][3] * d3(0, 1, 3) - m[3][3] * d3(0, 1, 2);
  return D;
}
struct World {
  std::vector<P> p;
  std::vector<dfm2::CDynPointTet> po;
  std::vector<dfm2::CDynTet> tet;
  std::vector<dfm2::CVec3d> cent;
  std::vector<int> buf;
  double sc;                                   // units: a power of two
  explicit World(int sup, double scale = 1) : sc(scale) {
    static const P S[2][4] = {{{-1000, -1000, -1000}, {3100, -1000, -1003}, {-1000, 3000, -1001}, {-1002, -1000, 3200}}, {{-1000, -1000, -1000}, {-1000, 3000, -1001}, {-1002, -1000, 3200}, {3100, -1000, -1003}}};
    for (auto &q: S[sup]) add(q);
    dfm2::CDynTet t;
    for (U i = 0; i < 4; i++) { t.v[i] = i; t.s[i] = UINT_MAX; po[i].e = 0; po[i].poel = i; }
    tet.push_back(t);
    cent.push_back(dfm2::CircumCenter(po[0].p, po[1].p, po[2].p, po[3].p));
  }
  U add(const P &q) {
    p.push_back(q);
    po.emplace_back(sc * (double) q[0], sc * (double) q[1], sc * (double) q[2]);
    po.back().poel = UINT_MAX;
    return (U) p.size() - 1;
  }
};
static T4 key(const U *v) { T4 a{v[0], v[1], v[2], v[3]}; std::sort(a.begin(), a.end()); return a; }
static std::string show(const World &w) {
  std::string s;
  for (size_t i = 4; i < w.p.size(); i++) s += "(" + std::to_string(w.p[i][0]) + " " + std::to_string(w.p[i][1]) + " " + std::to_string(w.p[i][2]) + ")";
  return s;
}
// the whole invariant of the structure; returns the tetrahedra
static std::set<T4> invariant(mc::Ch &c, const World &w, const char *when) {
  std::set<T4> S;
  I vol = 0;
  std::map<std::array<U, 3>, std::vector<std::pair<U, U>>> face;
  MC_CHECK(c, w.cent.size() == w.tet.size(), "%s: %zu circumcentres for %zu tetrahedra", when, w.cent.size(), w.tet.size());
  for (U t = 0; t < w.tet.size(); t++) {
    auto &e = w.tet[t];
    if (!e.isActive()) { for (int i = 0; i < 4; i++) MC_CHECK(c, e.v[i] == UINT_MAX && e.s[i] == UINT_MAX, "%s: removed tetrahedron %u keeps links", when, t); continue; }
    for (int i = 0; i < 4; i++) MC_CHECK(c, e.v[i] < w.p.size(), "%s: vertex %u out of range", when, e.v[i]);
    I d = det3(w.p[e.v[0]], w.p[e.v[1]], w.p[e.v[2]], w.p[e.v[3]]);
    MC_CHECK(c, d > 0, "%s: tetrahedron %u (%u %u %u %u) of points %s is not positive", when, t, e.v[0], e.v[1], e.v[2], e.v[3], show(w).c_str());
    vol += d;
    MC_CHECK(c, S.insert(key(e.v)).second, "%s: tetrahedron %u appears twice", when, t);
    for (U f = 0; f < 4; f++) { std::array<U, 3> k{e.v[(f + 1) % 4], e.v[(f + 2) % 4], e.v[(f + 3) % 4]}; std::sort(k.begin(), k.end()); face[k].push_back({t, f}); }
    // circumcentre: equally far from the four vertices
    LD q[4];
    for (int i = 0; i < 4; i++) { q[i] = 0; for (int k = 0; k < 3; k++) { LD x = (LD) w.cent[t].p[k] / w.sc - w.p[e.v[i]][k]; q[i] += x * x; } }
    for (int i = 1; i < 4; i++) MC_CHECK(c, fabsl(q[i] - q[0]) < 1e-6L * q[0], "%s: the stored circumcentre of tetrahedron %u is %.9Lg and %.9Lg from its vertices", when, t, sqrtl(q[0]), sqrtl(q[i]));
  }
  MC_CHECK(c, vol == det3(w.p[0], w.p[1], w.p[2], w.p[3]), "%s: the tetrahedra of points %s do not fill the domain", when, show(w).c_str());
  for (auto &f: face) {
    MC_CHECK(c, f.second.size() <= 2, "%s: a face belongs to %zu tetrahedra", when, f.second.size());
    for (size_t i = 0; i < f.second.size(); i++) {
      U want = f.second.size() == 2 ? f.second[1 - i].first : UINT_MAX, got = w.tet[f.second[i].first].s[f.second[i].second];
      MC_CHECK(c, got == want, "%s: tetrahedron %u names %u as its neighbour across face %u, it is %u", when, f.second[i].first, got, f.second[i].second, want);
    }
    if (f.second.size() == 1) for (U v: f.first) MC_CHECK(c, v < 4, "%s: an inner face has one side", when);
  }
  for (U i = 0; i < w.p.size(); i++) {
    MC_CHECK(c, w.po[i].e < w.tet.size() && w.po[i].poel < 4 && w.tet[w.po[i].e].v[w.po[i].poel] == i, "%s: point %u refers to tetrahedron %u corner %u", when, i, w.po[i].e, w.po[i].poel);
    for (int k = 0; k < 3; k++) MC_CHECK(c, w.po[i].p.p[k] == w.sc * (double) w.p[i][k], "%s: point %u moves", when, i);
  }
  for (int v: w.buf) MC_CHECK(c, v == -1, "%s: the work buffer is left dirty", when);
  return S;
}
static std::set<T4> brute(const std::vector<P> &p) {      // the Delaunay complex of points in general position
  std::set<T4> S;
  U n = (U) p.size();
  for (U a = 0; a < n; a++) for (U b = a + 1; b < n; b++) for (U d = b + 1; d < n; d++) for (U e = d + 1; e < n; e++) {
    I v = det3(p[a], p[b], p[d], p[e]);
    if (v == 0) continue;
    bool ok = true;
    for (U q = 0; q < n && ok; q++) { if (q == a || q == b || q == d || q == e) continue; I s = insphere(p[a], p[b], p[d], p[e], p[q]); if (v < 0) s = -s; if (s > 0) ok = false; }
    if (ok) S.insert({a, b, d, e});
  }
  return S;
}
// the tetrahedra whose closure holds the point; empty when the in-sphere tests are not clearly decided
static bool candidates(const World &w, const P &q, std::vector<U> &in) {
  for (U t = 0; t < w.tet.size(); t++) {
    auto &e = w.tet[t];
    if (!e.isActive()) continue;
    const P &a = w.p[e.v[0]], &b = w.p[e.v[1]], &c = w.p[e.v[2]], &d = w.p[e.v[3]];
    I s[4] = {det3(q, b, c, d), det3(a, q, c, d), det3(a, b, q, d), det3(a, b, c, q)};
    if (s[0] >= 0 && s[1] >= 0 && s[2] >= 0 && s[3] >= 0) in.push_back(t);
    LD v = (LD) det3(a, b, c, d), is = (LD) insphere(a, b, c, d, q), r = 0;
    for (int k = 0; k < 3; k++) r += ((LD) w.cent[t].p[k] / w.sc - a[k]) * ((LD) w.cent[t].p[k] / w.sc - a[k]);
    if (fabsl(is) < 1e-7L * v * r) return false;     // on the sphere up to rounding
  }
  return !in.empty();
}
static void neighbours(mc::Ch &c, const World &w, const char *when) {
  for (U t = 0; t < w.tet.size(); t++) {
    auto &e = w.tet[t];
    if (!e.isActive()) continue;
    for (U i = 0; i < 4; i++) {
      U v = e.v[i];
      std::map<int, int> want;
      bool inner = true;
      for (U s = 0; s < w.tet.size(); s++) if (w.tet[s].isActive()) for (int j = 0; j < 4; j++) if (w.tet[s].v[j] == v) { want[(int) s] = j; for (int k = 0; k < 4; k++) if (k != j && w.tet[s].s[k] == UINT_MAX) inner = false; }
      dfm2::ElemAroundPoint ap;
      ap.e[77] = 3;
      dfm2::MakeElemAroundPoint(ap, t, i, w.tet);
      MC_CHECK(c, ap.e == want && ap.is_inner == inner && ap.size() == (int) want.size(), "%s: %d tetrahedra (inner %d) around point %u starting from %u, there are %zu (inner %d)", when, ap.size(), ap.is_inner, v, t, want.size(), inner);
    }
    for (int k = 0; k < 12; k++) {
      U a = e.v[dfm2::dEdge2Noel[k][0]], b = e.v[dfm2::dEdge2Noel[k][1]];
      std::set<U> want;
      bool inner = true;
      for (U s = 0; s < w.tet.size(); s++) {
        if (!w.tet[s].isActive()) continue;
        int ia = -1, ib = -1;
        for (int j = 0; j < 4; j++) { if (w.tet[s].v[j] == a) ia = j; if (w.tet[s].v[j] == b) ib = j; }
        if (ia < 0 || ib < 0) continue;
        want.insert(s);
        for (int j = 0; j < 4; j++) if (j != ia && j != ib && w.tet[s].s[j] == UINT_MAX) inner = false;
      }
      dfm2::ElemAroundEdge ae;
      ae.e.push_back({5, 6});
      ae.n.push_back(9);
      dfm2::MakeElemAroundEdge(ae, (int) t, k, w.tet);
      MC_CHECK(c, ae.is_inner == inner, "%s: edge %u-%u is inner %d, not %d", when, a, b, ae.is_inner, inner);
      if (!inner) { MC_CHECK(c, ae.size() == 0, "%s: a boundary edge has a ring of %d", when, ae.size()); continue; }
      std::set<U> got;
      for (auto &q: ae.e) got.insert(q.first);
      MC_CHECK(c, ae.nod == a && ae.nou == b && got == want && ae.e.size() == want.size() && ae.n.size() == want.size() + 1 && ae.n.front() == ae.n.back(), "%s: the ring of edge %u-%u lists %zu tetrahedra and %zu points, there are %zu", when, a, b, ae.e.size(), ae.n.size(), want.size());
      for (size_t i = 0; i < ae.e.size(); i++) {
        U s = ae.e[i].first;
        const U *rel = dfm2::tetRel[ae.e[i].second];
        auto &q = w.tet[s];
        MC_CHECK(c, q.v[rel[0]] == a && q.v[rel[1]] == b && q.v[rel[3]] == ae.n[i], "%s: entry %zu of the ring of edge %u-%u does not relate to its tetrahedron", when, i, a, b);
        MC_CHECK(c, key(q.v) == key(std::array<U, 4>{a, b, ae.n[i], q.v[rel[2]]}.data()), "%s: entry %zu of the ring names other points", when, i);
        MC_CHECK(c, q.v[rel[2]] == ae.n[i + 1] , "%s: the ring of edge %u-%u is not in order", when, a, b);
      }
    }
  }
  World z = w;
  for (auto &q: z.po) { q.e = 12345; q.poel = 7; }
  dfm2::MakeOneTetSurNo(z.tet, z.po);
  for (U i = 0; i < z.p.size(); i++) MC_CHECK(c, z.po[i].e < z.tet.size() && z.po[i].poel < 4 && z.tet[z.po[i].e].v[z.po[i].poel] == i, "%s: rebuilt reference of point %u is tetrahedron %u corner %u", when, i, z.po[i].e, z.po[i].poel);
  std::cout.setstate(std::ios::failbit);
  dfm2::CheckTet(w.tet, w.po);
  dfm2::CheckTet(w.tet);
}
static const std::vector<std::vector<P>> SETS = {
    {{0, 0, 0}, {100, 3, 1}, {5, 110, 2}, {3, 7, 120}, {101, 95, 7}, {90, 11, 105}, {13, 92, 97}, {107, 103, 99}},              // a bent cube
    {{0, 0, 0}, {10, 1, 0}, {20, 4, 1}, {30, 9, 3}, {40, 16, 7}, {50, 25, 13}, {60, 36, 22}, {70, 49, 34}},                      // along a curve
    {{0, 0, 0}, {80, 0, 0}, {0, 80, 0}, {0, 0, 80}, {20, 20, 0}, {20, 21, 22}, {10, 0, 0}, {-40, -41, -43}},                      // points on faces and edges of others
    {{100, 0, 0}, {0, 100, 3}, {-101, 2, 0}, {2, -102, 1}, {0, 1, 99}, {3, 0, -98}, {0, 0, 0}, {30, 31, 29}},                     // an octahedron
    {{0, 0, 300}, {1, 2, -300}, {100, 0, 3}, {50, 87, 1}, {-49, 86, 2}, {-100, 3, 5}, {-51, -88, 0}, {52, -85, 4}, {2, 1, 0}},    // two poles over a ring: the axis edge has many tetrahedra
    {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {500, 400, 300}, {-400, 301, 200}, {2, 3, 5}, {250, 201, 152}},                  // very different distances
    {{-500, 0, 0}, {500, 3, 1}, {0, -500, 40}, {2, 500, 41}, {-300, 1, 1}, {300, 2, 2}, {1, -300, 42}, {1, 300, 43}},             // two skew lines: many more tetrahedra than points
};
static void orders(mc::Ch &c) {
  int k = c.choose((int) SETS.size());
  auto &S = SETS[k];
  int n = c.thorough ? 6 : 5;
  int sup = c.thorough ? c.choose(2) : k % 2;
  std::vector<int> seq;
  std::vector<char> used(S.size(), 0);
  for (int i = 0; i < n; i++) {
    int r = c.choose((int) S.size() - i), j = 0;
    for (;; j++) if (!used[j] && r-- == 0) break;
    used[j] = 1;
    seq.push_back(j);
  }
  bool last = c.thorough ? c.flip() : k % 2;      // among several tetrahedra that hold the point take the first or the last
  c.commit();
  World w(sup);
  c.describe("insertion order %s of point set %d", mc::str(seq).c_str(), k);
  bool more = false;
  for (int j: seq) {
    std::vector<U> in;
    if (!candidates(w, S[j], in)) c.skip();
    auto act = [&] { size_t m = 0; for (auto &t: w.tet) m += t.isActive(); return m; };
    size_t before = act();
    U ip = w.add(S[j]);
    dfm2::AddPointTetDelaunay(ip, last ? in.back() : in.front(), w.po, w.tet, w.cent, w.buf);
    c.step();
    if (act() < before) more = true;
    auto got = invariant(c, w, ("after inserting point " + std::to_string(ip)).c_str());
    if (c.thorough || j == seq.back()) {
      auto want = brute(w.p);
      if (got != want) for (auto &t: got) if (!want.count(t)) c.fail("tetrahedron %u %u %u %u of the points %s is not Delaunay (insertion order %s)", t[0], t[1], t[2], t[3], show(w).c_str(), mc::str(seq).c_str());
      MC_CHECK(c, got == want, "%zu tetrahedra instead of %zu for points %s", got.size(), want.size(), show(w).c_str());
    }
  }
  neighbours(c, w, "at the end");
  c.state();
  mc::Hash h;
  for (auto &t: w.tet) h << t.v[0] << t.v[1] << t.v[2] << t.v[3];
  h << more;
  c.outcome(h);
}
static void stepwise(mc::Ch &c) {           // every prefix of histories over a grid alphabet, checked fully after each insertion
  static const P G[10] = {{0, 0, 0}, {70, 1, 2}, {3, 71, 5}, {6, 7, 73}, {35, 36, 0}, {34, 0, 37}, {33, 31, 30}, {-200, 150, 90}, {200, -150, 95}, {1, 2, -180}};
  World w(c.choose(2));
  int n = c.thorough ? 5 : 4;
  std::vector<int> seq;
  for (int i = 0; i < n; i++) { int j = c.choose(10); for (int s: seq) if (s == j) c.skip(); seq.push_back(j); }
  c.commit();
  c.describe("insertion history %s", mc::str(seq).c_str());
  for (int j: seq) {
    std::vector<U> in;
    if (!candidates(w, G[j], in)) c.skip();
    U pick = in[c.choose((int) in.size())];      // any of the tetrahedra that hold it
    U ip = w.add(G[j]);
    dfm2::AddPointTetDelaunay(ip, pick, w.po, w.tet, w.cent, w.buf);
    c.step();
    auto got = invariant(c, w, "after an insertion");
    MC_CHECK(c, got == brute(w.p), "not the Delaunay complex of %s after history %s", show(w).c_str(), mc::str(seq).c_str());
    neighbours(c, w, "after an insertion");
  }
  c.state();
  mc::Hash h;
  for (auto &t: w.tet) h << t.v[0] << t.v[1] << t.v[2] << t.v[3];
  c.outcome(h);
}
static void shrink(mc::Ch &c) {       // two skew lines of points, then points between them that remove more tetrahedra than they make
  const int sup = c.choose(2);
  World w(sup, c.pick({1., 1. / 64}));
  int na = 4 + c.choose(4), nb = 4 + c.choose(4), order = c.choose(c.thorough ? 5 : 2) * (c.thorough ? 1 : 3 - (na + nb) % 3);
  static const P mid[6] = {{3, 5, 7}, {-40, 20, 30}, {15, -60, -90}, {60, 70, 101}, {0, 2, -200}, {-71, -33, 160}};
  std::vector<int> ms{c.choose(6)};
  ms.push_back(c.choose(6));
  if (ms[0] == ms[1]) c.skip();
  c.commit();
  c.describe("%d and %d points on two lines in order %d, then points %s", na, nb, order, mc::str(ms).c_str());
  std::vector<P> A, B, pts;
  for (int i = 0; i < na; i++) A.push_back({-150 + 300L * i / (na - 1) + i % 2, i % 3, -400 - i * i % 5});
  for (int i = 0; i < nb; i++) B.push_back({i % 3 - 1, -160 + 310L * i / (nb - 1), 400 + i * i % 7});
  if (order == 0 || order == 1) { pts = A; pts.insert(pts.end(), B.begin(), B.end()); if (order) std::reverse(pts.begin(), pts.end()); }
  else for (int i = 0; i < 8; i++) { int k = order == 2 ? i : order == 3 ? 7 - i : (i * 3) % 8; if (k < na) pts.push_back(A[k]); if (k < nb) pts.push_back(B[k]); }
  for (int m: ms) pts.push_back(mid[m]);
  size_t removed = 0;
  for (size_t k = 0; k < pts.size(); k++) {
    std::vector<U> in;
    if (!candidates(w, pts[k], in)) c.skip();
    auto act = [&] { size_t m = 0; for (auto &t: w.tet) m += t.isActive(); return m; };
    size_t before = act();
    U ip = w.add(pts[k]);
    dfm2::AddPointTetDelaunay(ip, in.front(), w.po, w.tet, w.cent, w.buf);
    c.step();
    if (act() < before) removed += before - act();
    auto got = invariant(c, w, "after an insertion");
    if (k + 3 >= pts.size()) { MC_CHECK(c, got == brute(w.p), "not the Delaunay complex of %s", show(w).c_str()); neighbours(c, w, "after an insertion"); }
  }
  c.state();
  c.outcome_of((int) removed, w.tet.size(), w.tet[0].v[0], w.tet[1].v[1]);
}
static void relation(mc::Ch &c) {       // two tetrahedra sharing a face, every numbering
  std::array<U, 4> a{0, 1, 2, 3}, b{0, 1, 2, 3};
  int pa = c.choose(24), pb = c.choose(24), rep = c.choose(4);
  for (int i = 0; i < pa; i++) std::next_permutation(a.begin(), a.end());
  for (int i = 0; i < pb; i++) std::next_permutation(b.begin(), b.end());
  U off = c.pick({0u, 100u});
  for (auto &v: a) v += off;
  for (auto &v: b) v += off;
  b[rep] = 9;
  c.commit();
  int r = dfm2::GetRelationshipTet(a.data(), b.data());
  // the permutation that sends the corners of a to those of b
  int m[4], un = -1;
  for (int i = 0; i < 4; i++) { m[i] = -1; for (int j = 0; j < 4; j++) if (b[j] == a[i]) m[i] = j; if (m[i] < 0) { m[i] = rep; un = i; } }
  int inv = 0;
  for (int i = 0; i < 4; i++) for (int j = i + 1; j < 4; j++) inv += m[i] > m[j];
  c.describe("relation of %s and %s", mc::str(std::vector<U>(a.begin(), a.end())).c_str(), mc::str(std::vector<U>(b.begin(), b.end())).c_str());
  if (inv % 2 == 0) MC_CHECK(c, r == -1, "overlapping tetrahedra are related by %d", r);
  else {
    MC_CHECK(c, r >= 0 && r < 12, "neighbouring tetrahedra are not related");
    for (int i = 0; i < 4; i++) MC_CHECK(c, (int) dfm2::tetRel[r][i] == m[i], "the relation %d does not match corner %d (replaced %d)", r, i, un);
    const unsigned int *q = dfm2::tetRel[dfm2::invTetRel[r]];
    for (int i = 0; i < 4; i++) MC_CHECK(c, (int) q[m[i]] == i, "the inverse of relation %d is wrong", r);
    MC_CHECK(c, dfm2::noel2Rel[m[0] * 4 + m[1]] == r, "relation %d is not found from its first two corners", r);
  }
  c.outcome_of(r, pa);
}
static void circum(mc::Ch &c) {
  double sc = c.pick({1., 0.01, 1000.});
  P o{c.choose(2) * 40L, 0, 0};
  P p[4] = {{0, 0, 0}, {0, 0, 0}, {0, 0, 0}, {0, 0, 0}};
  p[1] = {1 + c.choose(3), c.choose(3) - 1, 0};
  p[2] = {c.choose(3) - 1, 1 + c.choose(3), c.choose(3) - 1};
  p[3] = {c.choose(3) - 1, c.choose(4) - 1, 1 + c.choose(3)};
  int rot = c.choose(4);
  int ev[4][4] = {{0, 1, 2, 3}, {1, 0, 3, 2}, {2, 3, 0, 1}, {1, 2, 0, 3}};
  P q[4];
  for (int i = 0; i < 4; i++) for (int k = 0; k < 3; k++) q[i][k] = p[ev[rot][i]][k] + o[k];
  I v6 = det3(q[0], q[1], q[2], q[3]);
  if (v6 <= 0) c.skip();
  c.commit();
  dfm2::CVec3d x[4];
  for (int i = 0; i < 4; i++) x[i] = dfm2::CVec3d((double) q[i][0] * sc, (double) q[i][1] * sc, (double) q[i][2] * sc);
  // exact centre: solve 2 (q_i - q_0) . y = |q_i - q_0|^2
  LD A[3][3], b[3], y[3];
  for (int i = 0; i < 3; i++) { b[i] = 0; for (int k = 0; k < 3; k++) { A[i][k] = 2 * (q[i + 1][k] - q[0][k]); b[i] += (LD) (q[i + 1][k] - q[0][k]) * (q[i + 1][k] - q[0][k]); } }
  LD det = 8 * (LD) v6;
  for (int k = 0; k < 3; k++) { LD M[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) M[i][j] = j == k ? b[i] : A[i][j]; y[k] = (M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1]) - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0]) + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0])) / det; }
  LD r2 = y[0] * y[0] + y[1] * y[1] + y[2] * y[2];
  auto cc = dfm2::CircumCenter(x[0], x[1], x[2], x[3]);
  for (int k = 0; k < 3; k++) MC_CHECK(c, fabsl(cc.p[k] / sc - (y[k] + q[0][k])) < 1e-9L * (1 + sqrtl(r2) * 10 + o[0]), "circumcentre coordinate %d of (%ld %ld %ld)... scale %g is %.12g, not %.12Lg", k, q[0][0], q[0][1], q[0][2], sc, cc.p[k] / sc, y[k] + q[0][k]);
  MC_CHECK(c, mc::near(dfm2::SquareCircumradius(x[0], x[1], x[2], x[3]) / sc / sc, (double) r2, 1e-9, 1e-9), "squared circumradius %.12g, not %.12Lg", dfm2::SquareCircumradius(x[0], x[1], x[2], x[3]) / sc / sc, r2);
  MC_CHECK(c, mc::near(dfm2::Circumradius(x[0], x[1], x[2], x[3]) / sc, (double) sqrtl(r2), 1e-9, 1e-9), "circumradius %.12g, not %.12Lg", dfm2::Circumradius(x[0], x[1], x[2], x[3]) / sc, sqrtl(r2));
  // which grid points are inside
  dfm2::CDynTet t;
  std::vector<dfm2::CDynPointTet> po;
  for (U i = 0; i < 4; i++) { po.emplace_back(x[i].p[0], x[i].p[1], x[i].p[2]); t.v[i] = i; t.s[i] = UINT_MAX; }
  for (long a = -2; a < 5; a++) for (long e = -2; e < 5; e++) for (long f = -2; f < 5; f++) {
    P g{a + o[0], e, f};
    I s = insphere(q[0], q[1], q[2], q[3], g);
    if (s == 0) continue;
    bool in = dfm2::IsInsideCircumSphere(dfm2::CVec3d((double) g[0] * sc, (double) g[1] * sc, (double) g[2] * sc), t, cc, po);
    MC_CHECK(c, in == (s > 0), "(%ld %ld %ld) inside the circumsphere: %d", g[0], g[1], g[2], in);
  }
  for (long a = -1; a < 4; a++) for (long e = -2; e < 4; e++) for (long f = -1; f < 4; f++) {
    P g{a + o[0], e, f};
    I s = insphere(q[0], q[1], q[2], q[3], g);
    double D = dfm2::DetDelaunay3D(x[0], x[1], x[2], x[3], dfm2::CVec3d((double) g[0] * sc, (double) g[1] * sc, (double) g[2] * sc));
    double u = pow(sc, 5);
    if (s == 0) MC_CHECK(c, fabs(D) < 1e-9 * u * (1 + 1e4 * (double) o[0]), "DetDelaunay3D of a point on the sphere is %g", D);
    else MC_CHECK(c, fabs(D / u + (double) s) < 1e-6 * (1 + fabs((double) s)) , "DetDelaunay3D for (%ld %ld %ld) is %g, not %g", g[0], g[1], g[2], D / u, -(double) s);
  }
  {
    std::vector<dfm2::CDynTet> ts{t};
    LD lo = 1e30L, hi = 0, sa = 0;
    for (int i = 0; i < 4; i++) for (int j = 0; j < i; j++) { LD d = 0; for (int k = 0; k < 3; k++) d += (LD) (q[i][k] - q[j][k]) * (q[i][k] - q[j][k]); lo = std::min(lo, d); hi = std::max(hi, d); }
    MC_CHECK(c, mc::near(dfm2::SquareLongestEdgeLength(0, po, ts), (double) hi * sc * sc, 1e-12, 0) && mc::near(dfm2::SquareShortestEdgeLength(0, po, ts), (double) lo * sc * sc, 1e-12, 0) && mc::near(dfm2::LongestEdgeLength(0, po, ts), sqrt((double) hi) * sc, 1e-12, 0) && mc::near(dfm2::ShortestEdgeLength(0, po, ts), sqrt((double) lo) * sc, 1e-12, 0), "edge lengths of a tetrahedron");
    for (int f = 0; f < 4; f++) {
      int id[3], m = 0;
      for (int i = 0; i < 4; i++) if (i != f) id[m++] = i;
      LD u[3], v[3], n[3], in = 0;
      for (int k = 0; k < 3; k++) { u[k] = q[id[1]][k] - q[id[0]][k]; v[k] = q[id[2]][k] - q[id[0]][k]; }
      for (int k = 0; k < 3; k++) n[k] = u[(k + 1) % 3] * v[(k + 2) % 3] - u[(k + 2) % 3] * v[(k + 1) % 3];
      for (int k = 0; k < 3; k++) in += n[k] * (q[f][k] - q[id[0]][k]);
      if (in > 0) for (auto &w: n) w = -w;           // outward
      LD l = sqrtl(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
      sa += l / 2;
      dfm2::CVec3d nn, un;
      dfm2::Normal(nn, 0, (U) f, ts, po);
      dfm2::UnitNormal(un, 0, f, ts, po);
      MC_CHECK(c, mc::near(dfm2::TriArea(0, f, ts, po) / sc / sc, (double) l / 2, 1e-12, 1e-12), "area of face %d", f);
      LD nl = sqrtl((LD) nn.p[0] * nn.p[0] + (LD) nn.p[1] * nn.p[1] + (LD) nn.p[2] * nn.p[2]);
      for (int k = 0; k < 3; k++) MC_CHECK(c, fabsl(un.p[k] - n[k] / l) < 1e-9L && fabsl(nn.p[k] / nl - n[k] / l) < 1e-9L, "the normal of face %d is not the outward one", f);
    }
    double asp = dfm2::Criterion_Asp(0, po, ts), want = (double) (sqrtl(r2) / ((LD) v6 / 2 / sa));
    MC_CHECK(c, mc::near(asp, want, 1e-9, 0), "aspect ratio %g, not %g", asp, want);
  }
  MC_CHECK(c, mc::near(dfm2::TetVolume(t, po) / sc / sc / sc, (double) v6 / 6, 1e-12, 1e-12), "volume %g", dfm2::TetVolume(t, po));
  c.outcome_of((double) r2);
}
static void circle(mc::Ch &c) {      // DetDelaunay: a point of the plane of a triangle in space against its circumcircle
  int pl = c.choose(4);
  double sc = c.pick({1., 0.01, 100.});
  long ax = 1 + c.choose(3), ay = c.choose(3) - 1, bx = c.choose(4) - 1, by = c.choose(4) - 1, px = c.choose(7) - 2, py = c.choose(7) - 2;
  long ox = c.choose(2) * 5;
  int rot = c.choose(6);
  c.commit();
  const double B[4][6] = {{1, 0, 0, 0, 1, 0}, {0, 1, 0, 0, 0, 1}, {.6, .8, 0, 0, 0, 1}, {2. / 3, 1. / 3, 2. / 3, -2. / 3, 2. / 3, 1. / 3}};
  auto P3 = [&](long x, long y) { dfm2::CVec3d r; for (int k = 0; k < 3; k++) r.p[k] = sc * (B[pl][k] * (double) (x + ox) + B[pl][3 + k] * (double) y + k); return r; };
  long X[3] = {0, ax, bx}, Y[3] = {0, ay, by};
  int pm[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {1, 0, 2}, {2, 1, 0}};
  long ar = ax * by - ay * bx;
  auto *m = pm[rot];
  int r = dfm2::DetDelaunay<double>(P3(X[m[0]], Y[m[0]]), P3(X[m[1]], Y[m[1]]), P3(X[m[2]], Y[m[2]]), P3(px, py));
  if (ar == 0) { if (pl < 2) MC_CHECK(c, r == 3, "a degenerate triangle gives %d", r); return; }
  long a2 = ax * ax + ay * ay, b2 = bx * bx + by * by, p2 = px * px + py * py;
  // in-circle determinant relative to the first corner
  long D = p2 * (ax * by - ay * bx) - (a2 * (px * by - py * bx) - b2 * (px * ay - py * ax));
  if (ar < 0) D = -D;
  if (D == 0) MC_CHECK(c, r >= 0 && r <= 2, "a point on the circle gives %d", r);      // rounding decides
  else MC_CHECK(c, r == (D < 0 ? 0 : 2), "point (%ld %ld) and triangle (0 0) (%ld %ld) (%ld %ld): %d", px, py, ax, ay, bx, by, r);
  if (sc == 1 && D) {     // dtet_v3's variant
    int z = dfm2::DetDelaunay(P3(X[m[0]], Y[m[0]]), P3(X[m[1]], Y[m[1]]), P3(X[m[2]], Y[m[2]]), P3(px, py));
    MC_CHECK(c, z == (D < 0 ? -1 : 1), "dtet: point (%ld %ld) and triangle (0 0) (%ld %ld) (%ld %ld): %d", px, py, ax, ay, bx, by, z);
  }
  c.outcome_of(r);
}
int main(int argc, char **argv) {
  return mc::run(argc, argv, {"C31", "model_checking", {"points strictly inside the first tetrahedron", "no point on the circumsphere of a tetrahedron up to rounding"}}, {
    {"relation", relation, "all numberings of two tetrahedra that share a face"},
    {"circumsphere", circum, "circumcentre, circumradius and in-sphere test of all tetrahedra of a grid alphabet"},
    {"circumcircle", circle, "DetDelaunay on all triangles and points of a grid alphabet in four planes"},
    {"orders", orders, "all insertion orders of five (thorough: six) of eight points, seven point sets"},
    {"shrink", shrink, "point sets whose insertions remove more tetrahedra than they make"},
    {"histories", stepwise, "all histories over ten points with every choice of the containing tetrahedron, rings and stars of every prefix"},
  });
}
