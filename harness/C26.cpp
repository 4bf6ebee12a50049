// C26: shortest paths, clustering and geodesic maps on mesh graphs.
#include "mc.h"
#include <iostream>
#include <queue>
#include <random>
#include <map>
#include <set>
#include <cmath>
#include <algorithm>
// the random choice of the first seed becomes an enumerated choice
static mc::Ch *g_ch = nullptr;
namespace std {
template<class T = int> struct mc_uniform_choice {
  T a, b;
  mc_uniform_choice(T a_, T b_) : a(a_), b(b_) {}
  template<class R> T operator()(R &) { return a + (T) (g_ch ? g_ch->choose((int) (b - a) + 1) : 0); }
};
}
#include "delfem2/geo_tri.h"
#include "delfem2/mat3.h"
#include "delfem2/mat3_funcs.h"
#define uniform_int_distribution mc_uniform_choice
#include "delfem2/dijkstra.h"
#undef uniform_int_distribution
#include "delfem2/expmap_geo3dijk.h"
#include "delfem2/clusterpoints.h"
namespace dfm2 = delfem2;
using U = unsigned int;
using VU = std::vector<U>;
using VD = std::vector<double>;
struct P3 { double x, y, z; };
static double dist(P3 a, P3 b) { return std::sqrt((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z)); }

// ---------- graphs: bit k of the mask is the k-th pair (i<j)
struct Graph {
  int n;
  std::vector<std::vector<int>> adj;
  int maxdeg = 0;
};
static Graph make_graph(int n, unsigned mask) {
  Graph g{n, std::vector<std::vector<int>>(n)};
  int k = 0;
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++, k++) if (mask >> k & 1) {
    g.adj[i].push_back(j);
    g.adj[j].push_back(i);
  }
  for (auto &a: g.adj) g.maxdeg = std::max(g.maxdeg, (int) a.size());
  return g;
}
static std::string gstr(const Graph &g) {
  std::string s;
  for (int i = 0; i < g.n; i++) for (int j: g.adj[i]) if (i < j) s += " " + std::to_string(i) + "-" + std::to_string(j);
  return s;
}
// neighbours in `slots` slots; empty slots come first when `front`
static VU elsuel(const Graph &g, int slots, bool front) {
  VU r((size_t) g.n * slots, UINT_MAX);
  for (int i = 0; i < g.n; i++) {
    int o = front ? slots - (int) g.adj[i].size() : 0;
    for (size_t k = 0; k < g.adj[i].size(); k++) r[(size_t) i * slots + o + k] = g.adj[i][front ? g.adj[i].size() - 1 - k : k];
  }
  return r;
}
static void jagged(const Graph &g, VU &ind, VU &val) {
  ind.assign(1, 0);
  val.clear();
  for (auto &a: g.adj) {
    for (int j: a) val.push_back(j);
    ind.push_back((U) val.size());
  }
}
static const double INF = 1e300;
// all shortest paths (relaxation until nothing changes)
static VD shortest(const Graph &g, const VU &src, const std::function<double(int, int)> &w, const std::vector<char> *incl = nullptr) {
  VD d(g.n, INF);
  for (U s: src) d[s] = 0;
  for (bool ch = true; ch;) {
    ch = false;
    for (int i = 0; i < g.n; i++) {
      if (d[i] >= INF) continue;
      for (int j: g.adj[i]) {
        if (incl && !(*incl)[j]) continue;
        double x = d[i] + w(i, j);
        if (x < d[j] - 1e-13) { d[j] = x; ch = true; }
      }
    }
  }
  return d;
}
static void check_order(mc::Ch &c, const VU &ord, const VD &d, const char *what) {
  size_t n = d.size();
  MC_CHECK(c, ord.size() == n, "%s: %zu entries in the order of %zu", what, ord.size(), n);
  size_t nr = 0;
  for (double x: d) nr += x < INF;
  std::vector<int> at(nr, -1);
  for (size_t i = 0; i < n; i++) {
    if (d[i] >= INF) {
      MC_CHECK(c, ord[i] == UINT_MAX, "%s: unreachable %zu has visiting order %u", what, i, ord[i]);
      continue;
    }
    MC_CHECK(c, ord[i] < nr && at[ord[i]] == -1, "%s: visiting order %s is no permutation of the %zu reached", what, mc::str(ord).c_str(), nr);
    at[ord[i]] = (int) i;
  }
  for (size_t k = 1; k < nr; k++) MC_CHECK(c, d[at[k]] >= d[at[k - 1]] - 1e-9, "%s: %d at distance %g is visited after %d at distance %g", what, at[k], d[at[k]], at[k - 1], d[at[k - 1]]);
}
static Graph choose_graph(mc::Ch &c, int nmax, int maxdeg) {
  int n = 1 + c.choose(nmax);
  int m = n * (n - 1) / 2;
  unsigned mask = 0;
  if (m > 0) mask = (unsigned) c.choose(1 << m);
  Graph g = make_graph(n, mask);
  if (g.maxdeg > maxdeg) c.skip();
  return g;
}
struct Rec { // records the calls of a Dijkstra procedure
  mc::Ch &c;
  std::vector<char> incl;
  VU calls;
  void note(U i, const VU &ord) {
    calls.push_back(i);
    if (ord[i] != calls.size() - 1) c.fail("%u is announced as number %zu while its order is %u", i, calls.size() - 1, ord[i]);
  }
  void AddElem(U i, VU &ord) { note(i, ord); }
  void AddPoint(U i, VU &ord) { note(i, ord); }
  bool IsIncludeElem(U i) { return incl.empty() || incl[i]; }
};
static void check_calls(mc::Ch &c, const Rec &r, const VU &ord, const char *what) {
  size_t nr = 0;
  for (U o: ord) nr += o != UINT_MAX;
  MC_CHECK(c, r.calls.size() == nr, "%s: %zu visited, %zu announced", what, nr, r.calls.size());
  for (size_t k = 0; k < nr; k++) MC_CHECK(c, ord[r.calls[k]] == k, "%s: announced %s, order %s", what, mc::str(r.calls).c_str(), mc::str(ord).c_str());
}

static void body_elem(mc::Ch &c) {
  Graph g = choose_graph(c, c.thorough ? 6 : 5, 4);
  int slots = c.pick({3, 4});
  if (g.maxdeg > slots) c.skip();
  bool front = c.flip();
  U ker = (U) c.choose(g.n);
  VU es = elsuel(g, slots, front);
  c.commit();
  c.describe("elements%s, %d sides, source %u", gstr(g).c_str(), slots, ker);
  VU d(3, 7), o(9, 1);
  dfm2::DijkstraElem_MeshElemTopo(d, o, ker, es, g.n);
  VD ref = shortest(g, {ker}, [](int, int) { return 1.0; });
  MC_CHECK(c, (int) d.size() == g.n, "%zu distances", d.size());
  for (int i = 0; i < g.n; i++) MC_CHECK(c, ref[i] >= INF ? d[i] == UINT_MAX : d[i] == (U) ref[i], "element %d is at distance %g, reported %u", i, ref[i], d[i]);
  check_order(c, o, ref, "topological");
}
// a ring of n with chords: larger sizes, several routes of equal length
static void body_elem_large(mc::Ch &c) {
  int n = c.pick({12, 31, 64});
  int kind = c.choose(4);
  Graph g{n, std::vector<std::vector<int>>(n)};
  auto add = [&](int a, int b) {
    if (a == b || std::count(g.adj[a].begin(), g.adj[a].end(), b)) return;
    g.adj[a].push_back(b);
    g.adj[b].push_back(a);
  };
  for (int i = 0; i + 1 < n; i++) add(i, i + 1);
  if (kind >= 1) add(0, n - 1);
  if (kind == 2) for (int i = 0; i < n; i += 2) add(i, (i * 5 + 7) % n);
  if (kind == 3) for (int i = 0; i < n / 2; i++) add(i, n - 1 - i);
  int slots = 0;
  for (auto &a: g.adj) slots = std::max(slots, (int) a.size());
  U ker = (U) c.choose(n);
  c.commit();
  c.describe("ring of %d, chords %d, source %u", n, kind, ker);
  VU es = elsuel(g, slots, c.flip()), d, o;
  dfm2::DijkstraElem_MeshElemTopo(d, o, ker, es, n);
  VD ref = shortest(g, {ker}, [](int, int) { return 1.0; });
  for (int i = 0; i < n; i++) MC_CHECK(c, d[i] == (U) ref[i], "element %d is at distance %g, reported %u", i, ref[i], d[i]);
  check_order(c, o, ref, "topological");
}

static const P3 POS[6][6] = {
    {{0, 0, 0}, {1, 0, 0}, {2, 0, 0}, {3, 0, 0}, {4, 0, 0}, {5, 0, 0}},
    {{0, 0, 0}, {3, 4, 0}, {3, 0, 4}, {0, 4, 3}, {1, 1, 1}, {-1, 2, 0}},
    {{0, 0, 0}, {0, 0, 0}, {1, 0, 0}, {1, 0, 0}, {1, 2, 0}, {0, 0, 0}},
    {{0.1, 0.7, -0.3}, {2.2, -1.1, 0.4}, {0.6, 0.6, 5.0}, {-3.1, 0.2, 0.9}, {0.1, 0.8, -0.4}, {10, 0, 0}},
    {{0, 0, 0}, {100, 0, 0}, {100, 1, 0}, {0, 1, 0}, {50, 0.5, 0}, {0, 0, 1}},
    {{0, 0, 0}, {0.05, 0, 0}, {0.05, 0.05, 0}, {0, 0.05, 0}, {0.02, 0.02, 0.02}, {0, 0, 0.01}}};

static void body_point(mc::Ch &c) {
  Graph g = choose_graph(c, c.thorough ? 6 : 5, 9);
  int pk = c.choose(6);
  U ker = (U) c.choose(g.n);
  VU ind, val;
  jagged(g, ind, val);
  VD xyz;
  for (int i = 0; i < g.n; i++) { xyz.push_back(POS[pk][i].x); xyz.push_back(POS[pk][i].y); xyz.push_back(POS[pk][i].z); }
  c.commit();
  c.describe("points of set %d, edges%s, source %u", pk, gstr(g).c_str(), ker);
  VD d(2, 5.0);
  VU o(11, 3);
  Rec r{c, {}, {}};
  dfm2::DijkstraPoint_MeshTri3D(d, o, r, ker, xyz, ind, val);
  VD ref = shortest(g, {ker}, [&](int i, int j) { return dist(POS[pk][i], POS[pk][j]); });
  MC_CHECK(c, (int) d.size() == g.n, "%zu distances", d.size());
  for (int i = 0; i < g.n; i++) MC_CHECK(c, ref[i] >= INF ? d[i] < 0 : mc::near(d[i], ref[i], 1e-9, 1e-12), "point %d is at distance %.12g, reported %.12g", i, ref[i], d[i]);
  check_order(c, o, ref, "points");
  check_calls(c, r, o, "points");
}

static void body_elem_geo(mc::Ch &c) {
  Graph g = choose_graph(c, c.thorough ? 5 : 4, 4);
  int pk = c.choose(6), nn = c.pick({3, 4});
  U ker = (U) c.choose(g.n);
  std::vector<char> incl(g.n, 1);
  if (c.flip()) {
    unsigned m = (unsigned) c.choose(1 << g.n);
    if (!(m >> ker & 1)) c.skip();
    for (int i = 0; i < g.n; i++) incl[i] = m >> i & 1;
  }
  // element i: nn own points whose mean is POS[pk][i] (vertices shared through an index offset)
  VD xyz;
  VU elem;
  for (int i = g.n - 1; i >= 0; i--) for (int k = 0; k < nn; k++) {
    double s = k - 0.5 * (nn - 1);
    xyz.push_back(POS[pk][i].x + s);
    xyz.push_back(POS[pk][i].y + 2 * s);
    xyz.push_back(POS[pk][i].z - s);
  }
  for (int i = 0; i < g.n; i++) for (int k = 0; k < nn; k++) elem.push_back((U) ((g.n - 1 - i) * nn + k));
  VU es = elsuel(g, 4, c.flip());
  std::string is;
  for (char x: incl) is += x ? '1' : '0';
  c.commit();
  c.describe("elements of set %d, sides%s, included %s, source %u", pk, gstr(g).c_str(), is.c_str(), ker);
  VD d(1, 4.0);
  VU o(2, 0);
  Rec r{c, incl, {}};
  dfm2::DijkstraElem_MeshElemGeo3(d, o, r, ker, elem, (size_t) g.n, xyz, es);
  VD ref = shortest(g, {ker}, [&](int i, int j) { return dist(POS[pk][i], POS[pk][j]); }, &incl);
  MC_CHECK(c, (int) d.size() == g.n, "%zu distances", d.size());
  for (int i = 0; i < g.n; i++) MC_CHECK(c, ref[i] >= INF ? d[i] < 0 : mc::near(d[i], ref[i], 1e-9, 1e-9), "element %d is at distance %.12g, reported %.12g", i, ref[i], d[i]);
  check_order(c, o, ref, "elements");
  check_calls(c, r, o, "elements");
}

static void body_fill(mc::Ch &c) {
  Graph g = choose_graph(c, 5, 4);
  int slots = c.pick({2, 3, 4});
  if (g.maxdeg > slots) c.skip();
  unsigned m = (unsigned) c.choose(1 << g.n);
  VU flg(g.n);
  for (int i = 0; i < g.n; i++) flg[i] = (m >> i & 1) ? 2 : 5;
  U f0 = c.flip() ? 2 : 5;
  VU es = elsuel(g, slots, c.flip());
  c.commit();
  c.describe("sides%s (%d per element), flags %s, filled flag %u", gstr(g).c_str(), slots, mc::str(flg).c_str(), f0);
  VU src;
  std::vector<char> incl(g.n);
  for (int i = 0; i < g.n; i++) {
    incl[i] = flg[i] == f0;
    if (!incl[i]) continue;
    bool b = (int) g.adj[i].size() < slots;
    for (int j: g.adj[i]) b = b || flg[j] != f0;
    if (b) src.push_back((U) i);
  }
  VU d(2, 3), o(8, 9);
  Rec r{c, {}, {}};
  dfm2::Dijkstra_FillFromBoundary(o, d, r, f0, flg, es);
  VD ref = shortest(g, src, [](int, int) { return 1.0; }, &incl);
  for (int i = 0; i < g.n; i++) MC_CHECK(c, ref[i] >= INF ? d[i] == UINT_MAX : d[i] == (U) ref[i], "element %d is %g away from the boundary, reported %u", i, ref[i], d[i]);
  check_order(c, o, ref, "fill");
  check_calls(c, r, o, "fill");
}

static void body_cluster(mc::Ch &c) {
  Graph g = choose_graph(c, 5, 4);
  U nc = (U) (1 + c.choose(g.n));
  VU es = elsuel(g, 4, c.flip()), flg(3, 77);
  c.commit();
  g_ch = &c;
  dfm2::MeshClustering(flg, nc, es, (size_t) g.n);
  g_ch = nullptr;
  c.commit();
  c.describe("sides%s, %u clusters -> %s", gstr(g).c_str(), nc, mc::str(flg).c_str());
  MC_CHECK(c, (int) flg.size() == g.n, "%zu labels", flg.size());
  std::vector<VU> mem(nc);
  for (int i = 0; i < g.n; i++) {
    MC_CHECK(c, flg[i] < nc, "label %u of element %d", flg[i], i);
    mem[flg[i]].push_back((U) i);
  }
  std::vector<VD> D;
  for (int i = 0; i < g.n; i++) D.push_back(shortest(g, {(U) i}, [](int, int) { return 1.0; }));
  // there are seeds, one per cluster, such that every element belongs to a nearest one
  std::vector<U> seed(nc);
  std::function<bool(U)> rec = [&](U k) -> bool {
    if (k == nc) {
      for (int i = 0; i < g.n; i++) {
        double best = INF;
        for (U s: seed) best = std::min(best, D[s][i]);
        if (D[seed[flg[i]]][i] > best) return false;
      }
      return true;
    }
    for (U s: mem[k]) {
      seed[k] = s;
      if (rec(k + 1)) return true;
    }
    return false;
  };
  for (U k = 0; k < nc; k++) MC_CHECK(c, !mem[k].empty(), "cluster %u is empty", k);
  MC_CHECK(c, rec(0), "no choice of seeds explains the clusters");
}

static void body_binary(mc::Ch &c) {
  Graph g = choose_graph(c, c.thorough ? 5 : 4, 9);
  VD area(g.n);
  VD xyz, nrm;
  static const P3 NRM[4] = {{0, 0, 1}, {1, 0, 0}, {0.6, 0.8, 0}, {0, 0.6, 0.8}};
  int nk = c.choose(2);
  for (int i = 0; i < g.n; i++) {
    area[i] = c.pick({1., 2., 3.5});
    xyz.push_back(POS[3][i].x); xyz.push_back(POS[3][i].y); xyz.push_back(POS[3][i].z);
    P3 q = NRM[nk ? i % 4 : 0];
    nrm.push_back(q.x); nrm.push_back(q.y); nrm.push_back(q.z);
  }
  VU ind, val;
  jagged(g, ind, val);
  c.commit();
  c.describe("edges%s, areas %s", gstr(g).c_str(), mc::str(area).c_str());
  VU m2(g.n, 9), m3(2, 1);
  U np1 = dfm2::BinaryClustering_Points2d(m2.data(), g.n, area.data(), ind.data(), val.data());
  VD x1(4, 1.), a1(2, 1.), n1(5, 1.);
  dfm2::BinaryClustering_Points3d(x1, a1, n1, m3, xyz, area, nrm, ind, val);
  for (int w = 0; w < 2; w++) {
    const VU &m = w ? m3 : m2;
    U n1c = w ? (U) a1.size() : np1;
    MC_CHECK(c, (int) m.size() == g.n, "map of %zu", m.size());
    std::vector<VU> mem(n1c);
    for (int i = 0; i < g.n; i++) {
      MC_CHECK(c, m[i] < n1c, "point %d is in cluster %u of %u", i, m[i], n1c);
      mem[m[i]].push_back((U) i);
    }
    for (auto &v: mem) {
      MC_CHECK(c, v.size() == 1 || v.size() == 2, "%dd: a cluster of %zu points", w + 2, v.size());
      if (v.size() == 2) MC_CHECK(c, std::count(g.adj[v[0]].begin(), g.adj[v[0]].end(), (int) v[1]) == 1, "%dd: points %u and %u are clustered but no neighbours", w + 2, v[0], v[1]);
    }
    for (int i = 0; i < g.n; i++) for (int j: g.adj[i]) MC_CHECK(c, mem[m[i]].size() == 2 || mem[m[j]].size() == 2, "%dd: neighbours %d and %d both stay alone", w + 2, i, j);
    if (w == 0) continue;
    MC_CHECK(c, x1.size() == 3 * n1c && n1.size() == 3 * n1c, "sizes %zu %zu for %u clusters", x1.size(), n1.size(), n1c);
    for (U k = 0; k < n1c; k++) {
      double a = 0, p[3] = {}, q[3] = {};
      for (U i: mem[k]) {
        a += area[i];
        for (int d = 0; d < 3; d++) { p[d] += area[i] * xyz[3 * i + d]; q[d] += area[i] * nrm[3 * i + d]; }
      }
      double l = std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]);
      MC_CHECK(c, mc::near(a1[k], a), "area of cluster %u is %g, should be %g", k, a1[k], a);
      for (int d = 0; d < 3; d++) {
        MC_CHECK(c, mc::near(x1[3 * k + d], p[d] / a), "centre of cluster %u", k);
        MC_CHECK(c, mc::near(n1[3 * k + d], q[d] / l), "normal of cluster %u", k);
      }
    }
  }
}

static void body_psup(mc::Ch &c) {
  Graph g = choose_graph(c, c.thorough ? 5 : 4, 9);
  U np1 = (U) (1 + c.choose(g.n));
  VU m(g.n);
  for (auto &x: m) x = (U) c.choose((int) np1);
  VU ind, val;
  jagged(g, ind, val);
  c.commit();
  c.describe("edges%s, map %s to %u", gstr(g).c_str(), mc::str(m).c_str(), np1);
  VU i1(3, 8), v1(3, 1);
  dfm2::Clustering_Psup(i1, v1, np1, (size_t) g.n, m.data(), ind.data(), val.data());
  std::vector<std::set<U>> ref(np1);
  for (int i = 0; i < g.n; i++) for (int j: g.adj[i]) if (m[i] != m[j]) ref[m[i]].insert(m[j]);
  MC_CHECK(c, i1.size() == np1 + 1 && i1[0] == 0 && i1[np1] == v1.size(), "index %s for %zu values", mc::str(i1).c_str(), v1.size());
  for (U k = 0; k < np1; k++) {
    MC_CHECK(c, i1[k] <= i1[k + 1], "index %s", mc::str(i1).c_str());
    std::set<U> s(v1.begin() + i1[k], v1.begin() + i1[k + 1]);
    MC_CHECK(c, s == ref[k] && s.size() == i1[k + 1] - i1[k], "cluster %u: neighbours %s", k, mc::str(VU(v1.begin() + i1[k], v1.begin() + i1[k + 1])).c_str());
  }
}

// ---------- exponential maps
struct Mesh { VD xyz; VU tri; };
static VU tri_adj(const VU &t) {
  VU r(t.size(), UINT_MAX);
  for (size_t i = 0; i < t.size() / 3; i++) for (int e = 0; e < 3; e++) {
    U a = t[3 * i + (e + 1) % 3], b = t[3 * i + (e + 2) % 3];
    for (size_t j = 0; j < t.size() / 3; j++) for (int f = 0; f < 3; f++) if (j != i && t[3 * j + (f + 1) % 3] == b && t[3 * j + (f + 2) % 3] == a) r[3 * i + e] = (U) j;
  }
  return r;
}
static Graph tri_graph(const VU &es) {
  Graph g{(int) es.size() / 3, std::vector<std::vector<int>>(es.size() / 3)};
  for (size_t i = 0; i < es.size(); i++) if (es[i] != UINT_MAX) g.adj[i / 3].push_back((int) es[i]);
  return g;
}
static Graph pnt_graph(const VU &t, int np) {
  Graph g{np, std::vector<std::vector<int>>(np)};
  std::set<std::pair<U, U>> s;
  for (size_t i = 0; i < t.size(); i += 3) for (int e = 0; e < 3; e++) {
    U a = t[i + e], b = t[i + (e + 1) % 3];
    s.insert({a, b});
    s.insert({b, a});
  }
  for (auto &p: s) g.adj[p.first].push_back((int) p.second);
  return g;
}
// planar meshes given by (u,v)
static Mesh planar(int k, VD &uv) {
  Mesh m;
  uv.clear();
  if (k == 0) { // one triangle
    uv = {0, 0, 2, 0, 0.5, 1.5};
    m.tri = {0, 1, 2};
  } else if (k == 1) { // fan
    uv = {0, 0, 2, 0, 1, 2, -1.5, 1, -1, -1, 0.5, -2};
    for (U i = 0; i < 5; i++) { m.tri.push_back(0); m.tri.push_back(1 + i); m.tri.push_back(1 + (i + 1) % 5); }
  } else { // grids
    int nx = k == 2 ? 2 : 3, ny = k == 2 ? 3 : 4;
    double sx = k == 2 ? 1 : 0.3, sy = k == 2 ? 1 : 2.0;
    for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) { uv.push_back(sx * i + 0.2 * j); uv.push_back(sy * j); }
    for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) {
      U a = (U) (j * (nx + 1) + i), b = a + 1, d = a + (U) nx + 1, e = d + 1;
      if ((i + j) % 2) for (U x: {a, b, e, a, e, d}) m.tri.push_back(x);
      else for (U x: {a, b, d, b, e, d}) m.tri.push_back(x);
    }
  }
  return m;
}
static void place(Mesh &m, const VD &uv, int k, P3 &n) {
  static const double F[4][3][3] = {{{1, 0, 0}, {0, 1, 0}, {0, 0, 0}}, {{0, 0, 1}, {1, 0, 0}, {5, -3, 2}}, {{0, -1, 0}, {0, 0, -1}, {0, 0, 1}}, {{2. / 3, 2. / 3, 1. / 3}, {-1. / 3, 2. / 3, -2. / 3}, {1, 2, 3}}};
  auto &f = F[k];
  m.xyz.clear();
  for (size_t i = 0; i < uv.size() / 2; i++) for (int d = 0; d < 3; d++) m.xyz.push_back(uv[2 * i] * f[0][d] + uv[2 * i + 1] * f[1][d] + f[2][d]);
  n = {f[0][1] * f[1][2] - f[0][2] * f[1][1], f[0][2] * f[1][0] - f[0][0] * f[1][2], f[0][0] * f[1][1] - f[0][1] * f[1][0]};
}
// tex must be a rotation of (uv - uv of the kernel) keeping orientation
static void check_isometry(mc::Ch &c, const VD &tex, const VD &uv, U ker, const std::vector<char> &judge, const char *what) {
  size_t n = uv.size() / 2;
  MC_CHECK(c, tex.size() == 2 * n, "%s: %zu coordinates for %zu", what, tex.size() / 2, n);
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) {
    if (!judge[i] || !judge[j]) continue;
    double a[2] = {tex[2 * i], tex[2 * i + 1]}, b[2] = {tex[2 * j], tex[2 * j + 1]};
    double p[2] = {uv[2 * i] - uv[2 * ker], uv[2 * i + 1] - uv[2 * ker + 1]}, q[2] = {uv[2 * j] - uv[2 * ker], uv[2 * j + 1] - uv[2 * ker + 1]};
    MC_CHECK(c, mc::near(a[0] * b[0] + a[1] * b[1], p[0] * q[0] + p[1] * q[1], 1e-7), "%s: lengths or angles between %zu and %zu are not kept: (%g,%g) (%g,%g)", what, i, j, a[0], a[1], b[0], b[1]);
    MC_CHECK(c, mc::near(a[0] * b[1] - a[1] * b[0], p[0] * q[1] - p[1] * q[0], 1e-7), "%s: %zu and %zu are mirrored or rotated against each other", what, i, j);
  }
}
static void body_expmap(mc::Ch &c) {
  VD uv;
  Mesh m = planar(c.choose(4), uv);
  P3 n{};
  place(m, uv, c.choose(4), n);
  size_t np = uv.size() / 2, nt = m.tri.size() / 3;
  if (c.flip()) {
    U ker = (U) c.choose((int) np);
    double s = c.pick({1., 3.});
    VD nrm;
    for (size_t i = 0; i < np; i++) { nrm.push_back(n.x * s); nrm.push_back(n.y * s); nrm.push_back(n.z * s); }
    VU ind, val;
    Graph g = pnt_graph(m.tri, (int) np);
    jagged(g, ind, val);
    c.commit();
    c.describe("points of a planar mesh of %zu triangles, kernel %u", nt, ker);
    VD tex, d;
    VU o;
    dfm2::CExpMap_DijkstraPoint em(ker, m.xyz, nrm, m.tri, tex, ind, val);
    dfm2::DijkstraPoint_MeshTri3D(d, o, em, ker, m.xyz, ind, val);
    check_isometry(c, tex, uv, ker, std::vector<char>(np, 1), "points");
    return;
  }
  U ker = (U) c.choose((int) nt);
  VU es = tri_adj(m.tri);
  VD cuv;
  for (size_t i = 0; i < nt; i++) for (int d = 0; d < 2; d++) cuv.push_back((uv[2 * m.tri[3 * i] + d] + uv[2 * m.tri[3 * i + 1] + d] + uv[2 * m.tri[3 * i + 2] + d]) / 3);
  int mode = c.choose(3); // 0: everything, 1-2: one flag only
  VU flg(nt, 0);
  if (mode) for (size_t i = 0; i < nt; i++) flg[i] = mode == 1 ? (U) (cuv[2 * i] > 0.9) : (U) (i % 4 == 3);
  c.commit();
  c.describe("triangles of a planar mesh of %zu, kernel %u, flags %s", nt, ker, mc::str(flg).c_str());
  VD tex, d;
  VU o;
  if (mode == 0) {
    dfm2::CExpMap_DijkstraElem em(tex, ker, m.xyz, m.tri, es);
    dfm2::DijkstraElem_MeshElemGeo3(d, o, em, ker, m.tri, nt, m.xyz, es);
  } else {
    dfm2::CExpMap_DijkstraElemFlag em(tex, ker, m.xyz, m.tri, es, flg);
    dfm2::DijkstraElem_MeshElemGeo3(d, o, em, ker, m.tri, nt, m.xyz, es);
  }
  std::vector<char> incl(nt), judge(nt);
  for (size_t i = 0; i < nt; i++) incl[i] = flg[i] == flg[ker];
  VD ref = shortest(tri_graph(es), {ker}, [](int, int) { return 1.; }, &incl);
  for (size_t i = 0; i < nt; i++) judge[i] = ref[i] < INF;
  for (size_t i = 0; i < nt; i++) MC_CHECK(c, (o[i] != UINT_MAX) == (bool) judge[i], "triangle %zu is %sreached", i, o[i] == UINT_MAX ? "not " : "");
  check_isometry(c, tex, cuv, ker, judge, "triangles");
}
// on a curved mesh the nearest neighbour of the kernel keeps its distance
static void body_curved(mc::Ch &c) {
  static const P3 OCT[6] = {{1, 0, 0}, {0, 2, 0}, {-1.5, 0, 0}, {0, -1, 0.3}, {0.2, 0, 1}, {0, 0.3, -2}};
  Mesh m;
  m.tri = {0, 1, 4, 1, 2, 4, 2, 3, 4, 3, 0, 4, 1, 0, 5, 2, 1, 5, 3, 2, 5, 0, 3, 5};
  for (auto &p: OCT) { m.xyz.push_back(p.x); m.xyz.push_back(p.y); m.xyz.push_back(p.z); }
  bool open = c.flip();
  if (open) m.tri.resize(12);
  size_t nt = m.tri.size() / 3;
  auto P = [&](U i) { return P3{m.xyz[3 * i], m.xyz[3 * i + 1], m.xyz[3 * i + 2]}; };
  if (c.flip()) {
    U ker = (U) c.choose(open ? 5 : 6);
    if (open) m.xyz.resize(15);
    int np = open ? 5 : 6;
    VD nrm;
    for (int i = 0; i < np; i++) {
      double l = dist(P((U) i), {0, 0, 0});
      for (int d = 0; d < 3; d++) nrm.push_back(m.xyz[3 * i + d] / l);
    }
    VU ind, val, o;
    jagged(pnt_graph(m.tri, np), ind, val);
    VD tex, d;
    c.commit();
    c.describe("octahedron%s, kernel point %u", open ? " without lower half" : "", ker);
    dfm2::CExpMap_DijkstraPoint em(ker, m.xyz, nrm, m.tri, tex, ind, val);
    dfm2::DijkstraPoint_MeshTri3D(d, o, em, ker, m.xyz, ind, val);
    for (int i = 0; i < np; i++) if (o[i] <= 1) {
      double l = dist(P((U) i), P(ker));
      MC_CHECK(c, mc::near(std::hypot(tex[2 * i], tex[2 * i + 1]), l, 1e-7), "point %d is mapped to distance %g, is at %g", i, std::hypot(tex[2 * i], tex[2 * i + 1]), l);
    }
    return;
  }
  U ker = (U) c.choose((int) nt);
  VU es = tri_adj(m.tri), o;
  VD tex, d;
  c.commit();
  c.describe("octahedron%s, kernel triangle %u", open ? " without lower half" : "", ker);
  dfm2::CExpMap_DijkstraElem em(tex, ker, m.xyz, m.tri, es);
  dfm2::DijkstraElem_MeshElemGeo3(d, o, em, ker, m.tri, nt, m.xyz, es);
  auto C = [&](U t) {
    P3 r{0, 0, 0};
    for (int k = 0; k < 3; k++) { P3 p = P(m.tri[3 * t + k]); r = {r.x + p.x / 3, r.y + p.y / 3, r.z + p.z / 3}; }
    return r;
  };
  for (U i = 0; i < nt; i++) if (o[i] <= 1) {
    double l = dist(C(i), C(ker));
    MC_CHECK(c, mc::near(std::hypot(tex[2 * i], tex[2 * i + 1]), l, 1e-7), "triangle %u is mapped to distance %g, is at %g", i, std::hypot(tex[2 * i], tex[2 * i + 1]), l);
  }
}
static void body_flatten(mc::Ch &c) {
  VD uv;
  Mesh m = planar(1 + c.choose(3), uv);
  P3 n{};
  place(m, uv, c.choose(4), n);
  size_t np = uv.size() / 2, nt = m.tri.size() / 3;
  VU es = tri_adj(m.tri), flg(nt, 4);
  int mode = c.choose(3);
  if (mode) for (size_t i = 0; i < nt; i++) flg[i] = mode == 1 ? (i < nt / 2 ? 4u : 1u) : (i >= nt / 3 ? 4u : 0u);
  // points around: elements of each point
  VU eind(1, 0), es2;
  for (U p = 0; p < np; p++) {
    for (size_t t = 0; t < nt; t++) for (int k = 0; k < 3; k++) if (m.tri[3 * t + k] == p) es2.push_back((U) t);
    eind.push_back((U) es2.size());
  }
  c.commit();
  c.describe("flattening part of a planar mesh of %zu triangles, flags %s", nt, mc::str(flg).c_str());
  U ker = UINT_MAX;
  dfm2::CVec3d loc[4];
  VD texp;
  dfm2::FlatteringPattern(ker, loc, texp, m.xyz, m.tri, es, 4, flg, eind, es2);
  MC_CHECK(c, ker < nt && flg[ker] == 4, "kernel %u", ker);
  VU src;
  std::vector<char> incl(nt);
  Graph g = tri_graph(es);
  for (size_t i = 0; i < nt; i++) {
    incl[i] = flg[i] == 4;
    bool b = g.adj[i].size() < 3;
    for (int j: g.adj[i]) b = b || flg[j] != 4;
    if (incl[i] && b) src.push_back((U) i);
  }
  VD ref = shortest(g, src, [](int, int) { return 1.; }, &incl);
  for (size_t i = 0; i < nt; i++) if (incl[i]) MC_CHECK(c, ref[i] <= ref[ker], "kernel %u is %g away from the boundary, triangle %zu %g", ker, ref[ker], i, ref[i]);
  VD reach = shortest(g, {ker}, [](int, int) { return 1.; }, &incl);
  for (size_t i = 0; i < nt; i++) if (incl[i] && reach[i] >= INF) c.skip();
  // local frame and coordinates of the points: inverse-distance means of the triangle centres
  P3 nn = n, X{loc[0].x, loc[0].y, loc[0].z}, Y{loc[1].x, loc[1].y, loc[1].z}, Z{loc[2].x, loc[2].y, loc[2].z}, O{loc[3].x, loc[3].y, loc[3].z};
  MC_CHECK(c, dist(nn, Z) < 1e-9, "frame is not normal to the mesh");
  MC_CHECK(c, std::fabs(X.x * X.x + X.y * X.y + X.z * X.z - 1) < 1e-9 && dist(Y, {Z.y * X.z - Z.z * X.y, Z.z * X.x - Z.x * X.z, Z.x * X.y - Z.y * X.x}) < 1e-9, "frame is not orthonormal");
  auto C = [&](U t) {
    P3 r{0, 0, 0};
    for (int k = 0; k < 3; k++) { U p = m.tri[3 * t + k]; r = {r.x + m.xyz[3 * p] / 3, r.y + m.xyz[3 * p + 1] / 3, r.z + m.xyz[3 * p + 2] / 3}; }
    return r;
  };
  MC_CHECK(c, dist(O, C(ker)) < 1e-9, "origin of the frame is not the centre of the kernel");
  MC_CHECK(c, texp.size() == 2 * np, "%zu point coordinates", texp.size());
  for (U p = 0; p < np; p++) {
    double w = 0, a = 0, b = 0;
    for (U k = eind[p]; k < eind[p + 1]; k++) {
      if (flg[es2[k]] != 4) continue;
      P3 q = C(es2[k]);
      double wi = 1 / dist(q, {m.xyz[3 * p], m.xyz[3 * p + 1], m.xyz[3 * p + 2]});
      w += wi;
      a += wi * ((q.x - O.x) * X.x + (q.y - O.y) * X.y + (q.z - O.z) * X.z);
      b += wi * ((q.x - O.x) * Y.x + (q.y - O.y) * Y.y + (q.z - O.z) * Y.z);
    }
    if (w == 0) continue;
    MC_CHECK(c, mc::near(texp[2 * p], a / w, 1e-7) && mc::near(texp[2 * p + 1], b / w, 1e-7), "point %u is at (%g,%g), should be (%g,%g)", p, texp[2 * p], texp[2 * p + 1], a / w, b / w);
  }
}

int main(int argc, char **argv) {
  std::cout.rdbuf(nullptr);
  return mc::run(argc, argv, {"C26", "exploration", {"Mesh adjacency is symmetric.", "Maps of curved meshes are only judged at the neighbour that is reached first; the map of planar meshes must be an isometry."}},
                 {{"elem-topo", body_elem, "all graphs of up to 5 elements (6 thorough) with 3-4 sides, sources, slot layouts; result arrays reused"},
                  {"elem-large", body_elem_large, "rings of 12-64 elements with chords, every source"},
                  {"points", body_point, "all graphs of up to 5 points (6 thorough), six sets of positions with ties, coincident and nearly collinear points, every source"},
                  {"elem-geo", body_elem_geo, "all graphs of up to 4 elements (5 thorough), positions, excluded elements, sources, 3- and 4-node elements"},
                  {"fill", body_fill, "all graphs of up to 5 elements, sides, flags"},
                  {"cluster", body_cluster, "all graphs of up to 5 elements, numbers of clusters and first seeds"},
                  {"binary", body_binary, "all graphs of up to 4 points (5 thorough), areas from {1,2,3.5}, normals"},
                  {"psup", body_psup, "all graphs of up to 4 points (5 thorough), all maps to clusters"},
                  {"expmap", body_expmap, "planar meshes, placements, kernels, flags"},
                  {"curved", body_curved, "distorted octahedron, closed and open, every kernel"},
                  {"flatten", body_flatten, "planar meshes, placements, flags"}});
}
