// C01: dynamic triangle mesh connectivity under every sequence of edits.
#include "mc.h"
#include "delfem2/dtri_topology.h"
#include "delfem2/dtri2_v2dtri.h"
#include "delfem2/dtri3_v3dtri.h"
namespace dfm2 = delfem2;
using dfm2::CDynTri;
using dfm2::CDynPntSur;
typedef std::array<unsigned, 3> Tri;

static Tri rot(Tri t) {  // canonical rotation, orientation kept
  int k = 0;
  for (int i = 1; i < 3; i++) if (t[i] < t[k]) k = i;
  return {t[k], t[(k + 1) % 3], t[(k + 2) % 3]};
}

struct State {
  std::vector<CDynPntSur> po;
  std::vector<CDynTri> tri;
  std::set<Tri> ref;      // reference model: the set of oriented triangles
  int maxpo;
};

static std::string canon(const State &s) {
  std::string k;
  auto put = [&](unsigned v) { k.append((const char *) &v, 2); };
  put((unsigned) s.po.size());
  for (auto &p: s.po) { put(p.e); if (p.e != UINT_MAX) put(p.d); }
  for (auto &t: s.tri) for (int i = 0; i < 3; i++) { put(t.v[i]); put(t.s2[i]); }
  return k;
}
static std::string show(const std::vector<CDynTri> &t) {
  std::string s;
  for (auto &x: t) s += "(" + std::to_string(x.v[0]) + " " + std::to_string(x.v[1]) + " " + std::to_string(x.v[2]) + ")";
  return s;
}

static void verify(mc::Ch &c, const State &s, const char *op) {
  // the same set of oriented triangles as the reference
  std::set<Tri> got;
  for (auto &t: s.tri) {
    for (int i = 0; i < 3; i++) MC_CHECK(c, t.v[i] < s.po.size(), "%s: vertex index out of range in %s", op, show(s.tri).c_str());
    MC_CHECK(c, t.v[0] != t.v[1] && t.v[1] != t.v[2] && t.v[2] != t.v[0], "%s: degenerate triangle in %s", op, show(s.tri).c_str());
    MC_CHECK(c, got.insert(rot({t.v[0], t.v[1], t.v[2]})).second, "%s: duplicated triangle in %s", op, show(s.tri).c_str());
  }
  if (got != s.ref) {
    std::string e;
    for (auto &t: s.ref) e += "(" + std::to_string(t[0]) + " " + std::to_string(t[1]) + " " + std::to_string(t[2]) + ")";
    c.fail("%s: triangles %s, reference %s", op, show(s.tri).c_str(), e.c_str());
  }
  // adjacency: exactly the triangle on the other side
  std::map<std::pair<unsigned, unsigned>, std::pair<unsigned, int>> he;
  for (unsigned i = 0; i < s.tri.size(); i++)
    for (int k = 0; k < 3; k++) {
      auto e = std::make_pair(s.tri[i].v[(k + 1) % 3], s.tri[i].v[(k + 2) % 3]);
      MC_CHECK(c, !he.count(e), "%s: directed edge %u-%u occurs twice in %s", op, e.first, e.second, show(s.tri).c_str());
      he[e] = {i, k};
    }
  for (unsigned i = 0; i < s.tri.size(); i++)
    for (int k = 0; k < 3; k++) {
      auto it = he.find({s.tri[i].v[(k + 2) % 3], s.tri[i].v[(k + 1) % 3]});
      unsigned want = it == he.end() ? UINT_MAX : it->second.first;
      MC_CHECK(c, s.tri[i].s2[k] == want, "%s: triangle %u edge %d: neighbour %d, should be %d, in %s", op, i, k, (int) s.tri[i].s2[k], (int) want, show(s.tri).c_str());
    }
  // every referenced vertex knows one of its triangles; unreferenced vertices know none
  std::vector<std::vector<unsigned>> inc(s.po.size());
  for (unsigned i = 0; i < s.tri.size(); i++) for (int k = 0; k < 3; k++) inc[s.tri[i].v[k]].push_back(i);
  for (unsigned p = 0; p < s.po.size(); p++) {
    if (inc[p].empty()) {
      MC_CHECK(c, s.po[p].e == UINT_MAX, "%s: vertex %u is used by no triangle but refers to triangle %u", op, p, s.po[p].e);
      continue;
    }
    MC_CHECK(c, s.po[p].e < s.tri.size() && s.po[p].d < 3 && s.tri[s.po[p].e].v[s.po[p].d] == p, "%s: vertex %u refers to (%d,%u) which is not its corner, in %s", op, p,
            (int) s.po[p].e, s.po[p].d, show(s.tri).c_str());
  }
}

static void queries(mc::Ch &c, const State &s) {
  std::map<std::pair<unsigned, unsigned>, std::pair<unsigned, int>> he;
  std::vector<std::set<unsigned>> inc(s.po.size()), nbr(s.po.size());
  std::vector<int> boundary(s.po.size(), 0);
  for (unsigned i = 0; i < s.tri.size(); i++)
    for (int k = 0; k < 3; k++) {
      unsigned a = s.tri[i].v[k], b = s.tri[i].v[(k + 1) % 3];
      he[{a, b}] = {i, k};
      inc[a].insert(i);
      nbr[a].insert(b);
      nbr[b].insert(a);
      if (s.tri[i].s2[(k + 2) % 3] == UINT_MAX) boundary[a] = boundary[b] = 1;
    }
  for (unsigned p = 0; p < s.po.size(); p++) {
    if (inc[p].empty()) continue;
    for (unsigned q = 0; q < s.po.size(); q++) {
      if (p == q) continue;
      unsigned it = 777, i0 = 777, i1 = 777;
      bool r = dfm2::FindEdge_LookAroundPoint(it, i0, i1, p, q, s.po, s.tri);
      auto f = he.find({p, q});
      MC_CHECK(c, r == (f != he.end()), "FindEdge_LookAroundPoint(%u,%u) = %d, edge %s in %s", p, q, r, f != he.end() ? "exists" : "does not exist", show(s.tri).c_str());
      if (r) MC_CHECK(c, it == f->second.first && (int) i0 == f->second.second && i1 == (i0 + 1) % 3, "FindEdge_LookAroundPoint(%u,%u) returned (%u,%u,%u) in %s", p, q, it, i0, i1, show(s.tri).c_str());
      it = 777, i0 = 777;
      dfm2::FindEdge_LookAllTriangles(it, i0, p, q, s.tri);
      if (f != he.end()) MC_CHECK(c, it == f->second.first && (int) i0 == f->second.second, "FindEdge_LookAllTriangles(%u,%u) returned (%u,%u) in %s", p, q, it, i0, show(s.tri).c_str());
      else MC_CHECK(c, it == 777, "FindEdge_LookAllTriangles(%u,%u) reports triangle %u for a missing edge", p, q, it);
    }
    if (!boundary[p]) {
      std::vector<std::pair<unsigned, unsigned>> a;
      dfm2::GetTriArrayAroundPoint(a, p, s.po, s.tri);
      std::set<unsigned> g;
      for (auto &x: a) {
        MC_CHECK(c, x.first < s.tri.size() && x.second < 3 && s.tri[x.first].v[x.second] == p, "GetTriArrayAroundPoint(%u): wrong corner", p);
        g.insert(x.first);
      }
      MC_CHECK(c, g == inc[p] && a.size() == g.size(), "GetTriArrayAroundPoint(%u): %zu triangles, %zu expected, in %s", p, a.size(), inc[p].size(), show(s.tri).c_str());
      // counter-clockwise order
      for (size_t i = 0; i < a.size(); i++) {
        auto &x = a[i], &y = a[(i + 1) % a.size()];
        MC_CHECK(c, s.tri[x.first].v[(x.second + 2) % 3] == s.tri[y.first].v[(y.second + 1) % 3], "GetTriArrayAroundPoint(%u): not in order", p);
      }
      std::vector<unsigned> ip;
      MC_CHECK(c, dfm2::FindPointAroundPoint(ip, p, s.po, s.tri), "FindPointAroundPoint(%u) failed", p);
      std::set<unsigned> g2(ip.begin(), ip.end());
      MC_CHECK(c, g2 == nbr[p] && ip.size() == g2.size(), "FindPointAroundPoint(%u): %s in %s", p, mc::str(ip).c_str(), show(s.tri).c_str());
    }
  }
  // elements / points around points
  std::vector<int> ei, e;
  dfm2::JArray_MakeElSuP(ei, e, s.tri, (unsigned) s.po.size());
  MC_CHECK(c, ei.size() == s.po.size() + 1, "JArray_MakeElSuP index size");
  for (unsigned p = 0; p < s.po.size(); p++) {
    std::set<unsigned> g(e.begin() + ei[p], e.begin() + ei[p + 1]);
    MC_CHECK(c, g == inc[p] && (int) g.size() == ei[p + 1] - ei[p], "JArray_MakeElSuP: wrong elements around vertex %u in %s", p, show(s.tri).c_str());
  }
  std::vector<int> pi(s.po.size() + 1, 0), ps;
  dfm2::JArray_PSuP(pi, ps, s.tri, (unsigned) s.po.size(), ei, e);
  for (unsigned p = 0; p < s.po.size(); p++) {
    std::set<unsigned> g(ps.begin() + pi[p], ps.begin() + pi[p + 1]);
    MC_CHECK(c, g == nbr[p] && (int) g.size() == pi[p + 1] - pi[p], "JArray_PSuP: %d points around vertex %u, %zu expected, in %s", pi[p + 1] - pi[p], p, nbr[p].size(), show(s.tri).c_str());
  }
  // a mesh rebuilt from the triangle list is the same mesh
  {
    std::vector<unsigned> t;
    for (auto &x: s.tri) for (unsigned v: x.v) t.push_back(v);
    State b;
    b.ref = s.ref;
    dfm2::InitializeMesh(b.po, b.tri, t.data(), s.tri.size(), s.po.size());
    verify(c, b, "InitializeMesh");
    for (unsigned i = 0; i < s.tri.size(); i++)
      for (int k = 0; k < 3; k++) MC_CHECK(c, b.tri[i].v[k] == s.tri[i].v[k] && b.tri[i].s2[k] == s.tri[i].s2[k], "InitializeMesh differs from the edited mesh");
  }
  // holes: the boundary vertices, each exactly once
  std::vector<std::vector<int>> hole;
  dfm2::extractHoles(hole, (int) s.po.size(), s.tri);
  std::multiset<int> hv, hw;
  for (auto &h: hole) {
    hv.insert(h.begin(), h.end());
    std::set<int> in(h.begin(), h.end());
    for (auto &x: he)
      if (!he.count({x.first.second, x.first.first}))
        MC_CHECK(c, in.count(x.first.first) == in.count(x.first.second), "extractHoles: boundary edge %u-%u is split between loops", x.first.first, x.first.second);
  }
  for (unsigned p = 0; p < s.po.size(); p++) if (boundary[p]) hw.insert((int) p);
  MC_CHECK(c, hv == hw, "extractHoles: %zu vertices on loops, %zu boundary vertices, in %s", hv.size(), hw.size(), show(s.tri).c_str());
}

static int nops(const State &s) { return (int) s.tri.size() * (1 + 3 + 3 + 3); }
static int euler(const State &s) {
  std::set<unsigned> v;
  std::set<std::pair<unsigned, unsigned>> e;
  for (auto &t: s.ref) for (int k = 0; k < 3; k++) { v.insert(t[k]); e.insert(std::minmax(t[k], t[(k + 1) % 3])); }
  return (int) v.size() - (int) e.size() + (int) s.ref.size();
}

static bool apply(mc::Ch &c, State &s, int op) {
  int nt = (int) s.tri.size();
  int eu = euler(s);
  auto old = s;
  if (op < nt) {  // point in a face
    if ((int) s.po.size() >= s.maxpo) return false;
    unsigned p = (unsigned) s.po.size();
    s.po.emplace_back();
    auto t = s.tri[op];
    MC_CHECK(c, dfm2::InsertPoint_Elem(p, (unsigned) op, s.po, s.tri), "InsertPoint_Elem refused");
    s.ref.erase(rot({t.v[0], t.v[1], t.v[2]}));
    for (int k = 0; k < 3; k++) s.ref.insert(rot({p, t.v[k], t.v[(k + 1) % 3]}));
    verify(c, s, "InsertPoint_Elem");
  } else {
    op -= nt;
    int kind = op / (3 * nt), it = op % (3 * nt) / 3, ie = op % 3;
    auto A = s.tri[it];
    unsigned w = A.v[ie], x = A.v[(ie + 1) % 3], y = A.v[(ie + 2) % 3], z = UINT_MAX;  // z: the vertex across the edge x-y
    if (A.s2[ie] != UINT_MAX) for (unsigned v: s.tri[A.s2[ie]].v) if (v != x && v != y) z = v;
    if (kind == 0) {  // point on an edge
      if ((int) s.po.size() >= s.maxpo || z == UINT_MAX) return false;
      unsigned p = (unsigned) s.po.size();
      s.po.emplace_back();
      MC_CHECK(c, dfm2::InsertPoint_ElemEdge(p, (unsigned) it, (unsigned) ie, s.po, s.tri), "InsertPoint_ElemEdge refused");
      s.ref.erase(rot({w, x, y}));
      s.ref.erase(rot({z, y, x}));
      s.ref.insert(rot({p, w, x})), s.ref.insert(rot({p, y, w})), s.ref.insert(rot({p, z, y})), s.ref.insert(rot({p, x, z}));
      verify(c, s, "InsertPoint_ElemEdge");
    } else if (kind == 1) {  // flip
      if (z == UINT_MAX) {
        MC_CHECK(c, !dfm2::FlipEdge((unsigned) it, (unsigned) ie, s.po, s.tri), "FlipEdge accepted a boundary edge");
        MC_CHECK(c, canon(s) == canon(old), "FlipEdge refused but changed the mesh");
        return false;
      }
      if (z == w) return false;
      for (auto &t: s.ref) for (int k = 0; k < 3; k++) if ((t[k] == w && t[(k + 1) % 3] == z) || (t[k] == z && t[(k + 1) % 3] == w)) return false;  // edge w-z exists: not flippable
      MC_CHECK(c, dfm2::FlipEdge((unsigned) it, (unsigned) ie, s.po, s.tri), "FlipEdge refused an interior edge");
      s.ref.erase(rot({w, x, y}));
      s.ref.erase(rot({z, y, x}));
      s.ref.insert(rot({w, x, z})), s.ref.insert(rot({w, z, y}));
      verify(c, s, "FlipEdge");
      auto &t = s.tri[it];
      MC_CHECK(c, t.v[0] == x || t.v[1] == x || t.v[2] == x, "FlipEdge: the documented vertex left the triangle");
    } else {  // collapse: vertex y is merged into x
      if (z == UINT_MAX) return false;
      bool r = dfm2::CollapseEdge_MeshDTri((unsigned) it, (unsigned) ie, s.po, s.tri);
      if (!r) {
        MC_CHECK(c, canon(s) == canon(old), "CollapseEdge_MeshDTri refused but changed the mesh %s", show(old.tri).c_str());
        return false;
      }
      std::set<Tri> n;
      for (auto t: s.ref) {
        bool hx = false, hy = false;
        for (unsigned v: t) hx |= v == x, hy |= v == y;
        if (hx && hy) continue;
        for (unsigned &v: t) if (v == y) v = x;
        n.insert(rot(t));
      }
      s.ref = n;
      verify(c, s, "CollapseEdge_MeshDTri");
      MC_CHECK(c, (int) old.tri.size() == (int) s.tri.size() + 2, "CollapseEdge_MeshDTri: triangle count");
    }
  }
  MC_CHECK(c, euler(s) == eu, "Euler characteristic changed from %d to %d: %s", eu, euler(s), show(s.tri).c_str());
  static std::unordered_set<std::string> seen;  // the queries depend on the state only
  if (c.replay || seen.insert(canon(s)).second) queries(c, s);
  return true;
}

static std::vector<std::pair<const char *, std::vector<unsigned>>> meshes() {
  return {
      {"triangle", {0, 1, 2}},
      {"two triangles", {0, 1, 2, 2, 1, 3}},
      {"tetrahedron", {0, 2, 1, 0, 1, 3, 1, 2, 3, 2, 0, 3}},
      {"strip", {0, 1, 2, 2, 1, 3, 2, 3, 4, 4, 3, 5}},
      {"fan4", {0, 1, 2, 0, 2, 3, 0, 3, 4, 0, 4, 1}},
      {"fan5", {5, 1, 2, 2, 3, 5, 5, 3, 4, 4, 0, 5, 0, 1, 5}},
      {"octahedron", {0, 2, 4, 2, 1, 4, 1, 3, 4, 3, 0, 4, 2, 0, 5, 1, 2, 5, 3, 1, 5, 0, 3, 5}},
      {"two fans", {0, 1, 2, 0, 2, 3, 0, 3, 4, 0, 4, 1, 1, 5, 2, 5, 6, 2, 2, 6, 3}},
      {"annulus", {0, 1, 4, 0, 4, 3, 1, 2, 5, 1, 5, 4, 2, 0, 3, 2, 3, 5}},
      {"two components", {0, 1, 2, 2, 1, 3, 4, 6, 5, 4, 5, 7, 5, 6, 7, 6, 4, 7}},
      {"bipyramid5", {0, 1, 5, 1, 2, 5, 2, 3, 5, 3, 4, 5, 4, 0, 5, 1, 0, 6, 2, 1, 6, 3, 2, 6, 4, 3, 6, 0, 4, 6}},
      {"torus7", {0, 1, 3, 1, 2, 4, 2, 3, 5, 3, 4, 6, 4, 5, 0, 5, 6, 1, 6, 0, 2, 0, 3, 2, 1, 4, 3, 2, 5, 4, 3, 6, 5, 4, 0, 6, 5, 1, 0, 6, 2, 1}},
      {"interior pair", {0, 1, 8, 1, 9, 8, 1, 2, 9, 2, 3, 9, 3, 4, 9, 4, 8, 9, 4, 5, 8, 5, 0, 8}},
  };
}

static State init(const std::vector<unsigned> &t, int extra) {
  State s;
  unsigned np = *std::max_element(t.begin(), t.end()) + 1;
  dfm2::InitializeMesh(s.po, s.tri, t.data(), t.size() / 3, np);
  for (size_t i = 0; i < t.size(); i += 3) s.ref.insert(rot({t[i], t[i + 1], t[i + 2]}));
  s.maxpo = (int) np + extra;
  return s;
}

static void edits(mc::Ch &c) {
  auto ms = meshes();
  int i = c.choose((int) ms.size());
  int first = c.choose(8);   // the search from one mesh is shared out by its first operation
  c.commit();
  State s = init(ms[i].second, 3);
  verify(c, s, "InitializeMesh");
  queries(c, s);
  size_t nt = s.tri.size();
  int depth = c.thorough ? (nt <= 2 ? 5 : nt <= 4 ? 4 : 3) : (nt <= 2 ? 4 : nt <= 6 ? 3 : 2);
  c.describe("every edit sequence up to length %d from %s (first edit = %d mod 8)", depth, ms[i].first, first);
  bool root = true;
  size_t n0 = s.tri.size();
  mc::bfs(c, s, depth, [](const State &x) { return nops(x); },
          [&](State &x, int op) {
            if (x.tri.size() == n0 && canon(x) == canon(s) && op % 8 != first) return false;
            return apply(c, x, op);
          }, canon);
  (void) root;
}

// every labelled triangulation of the square grid, through InitializeMesh with every rotation of
// the corners and every triangle order of small meshes
static void rebuild(mc::Ch &c) {
  auto ms = meshes();
  int i = c.choose((int) ms.size());
  auto t = ms[i].second;
  int nt = (int) t.size() / 3;
  int r0 = c.choose(3), r1 = c.choose(3), shift = c.choose(nt), extra = c.choose(2);
  c.commit();
  std::vector<unsigned> u;
  for (int k = 0; k < nt; k++) {
    int q = (k + shift) % nt;
    int r = k % 2 ? r1 : r0;
    for (int j = 0; j < 3; j++) u.push_back(t[3 * q + (j + r) % 3] + (unsigned) extra);
  }
  State s = init(u, 0);
  verify(c, s, "InitializeMesh");
  queries(c, s);
  c.step();
  c.describe("%s rotated %d/%d shifted %d", ms[i].first, r0, r1, shift);
  std::string k = canon(s);
  c.outcome(mc::fnv(k.data(), k.size()));
}

// vertices of every valence, open and closed: look-ups, and every single edit
static void fans(mc::Ch &c) {
  int n = 3 + c.choose(c.thorough ? 120 : 38);
  int closed = c.choose(3);   // open fan, closed fan, double cone
  int order = c.choose(2);
  c.commit();
  std::vector<unsigned> t;
  for (int i = 0; i < n; i++) {
    if (closed == 0 && i == n - 1) break;
    unsigned a = (unsigned) i, b = (unsigned) ((i + 1) % n);
    t.insert(t.end(), {(unsigned) n, a, b});
    if (closed == 2) t.insert(t.end(), {b, a, (unsigned) n + 1});
  }
  if (order) { std::vector<unsigned> r; for (size_t i = t.size(); i; i -= 3) r.insert(r.end(), {t[i - 2], t[i - 1], t[i - 3]}); t = r; }
  State s = init(t, 1);
  verify(c, s, "InitializeMesh");
  queries(c, s);
  int no = nops(s);
  for (int op = 0; op < no; op++) {
    if (op % 7 != n % 7 && n > 8 && !c.thorough) continue;
    State x = s;
    c.tick();
    apply(c, x, op);
    c.step();
  }
  c.describe("%s of %d triangles", closed == 0 ? "open fan" : closed == 1 ? "fan" : "double cone", n);
  c.outcome(mc::Hash() << n << closed << order);
}

int main(int argc, char **argv) {
  return mc::run(argc, argv,
                 {"C01", "model_checking", {"flips are offered only where the new edge does not exist yet, edge insertion and collapse only on interior edges (documented preconditions, asserted by the code)"}},
                 {{"edits", edits, "BFS over all sequences of flip / insert in face / insert on edge / collapse from 13 start meshes (open, closed, annulus, torus, two components)"},
                  {"rebuild", rebuild, "InitializeMesh on every corner rotation and triangle order shift of the start meshes"},
                  {"fans", fans, "vertices of every valence from 3 to 40 (thorough: 122), open, closed and double cones: all look-ups, and single edits"}});
}
