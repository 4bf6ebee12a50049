// C03: topology extraction of uniform and mixed meshes against the definition.
#include "mc.h"
#include <iostream>
#include "delfem2/jagarray.h"
#include "delfem2/mshelm.h"
#include "delfem2/msh_topology_uniform.h"
#include "delfem2/msh_topology_mix.h"
namespace dfm2 = delfem2;
typedef unsigned int U;
typedef std::vector<U> VU;
typedef std::set<U> SU;

// ---- reference cells: coordinates of the nodes define faces, edges and orientation
struct Cell { dfm2::MESHELEM_TYPE type; int nno; int dim; std::vector<std::array<int, 3>> x; std::vector<std::vector<int>> face; std::vector<std::array<int, 2>> edge; };
static const std::vector<Cell> &cells() {
  static std::vector<Cell> r;
  if (r.empty()) {
    r.push_back({dfm2::MESHELEM_TRI, 3, 2, {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}}, {{1, 2}, {2, 0}, {0, 1}}, {{0, 1}, {1, 2}, {2, 0}}});
    r.push_back({dfm2::MESHELEM_TET, 4, 3, {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, {{1, 2, 3}, {0, 2, 3}, {0, 1, 3}, {0, 1, 2}}, {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}}});
    r.push_back({dfm2::MESHELEM_QUAD, 4, 2, {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}}, {{0, 1}, {1, 2}, {2, 3}, {3, 0}}, {{0, 1}, {1, 2}, {2, 3}, {3, 0}}});
    r.push_back({dfm2::MESHELEM_HEX, 8, 3, {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}}, {}, {}});
    r.push_back({dfm2::MESHELEM_PYRAMID, 5, 3, {{-1, -1, 0}, {1, -1, 0}, {1, 1, 0}, {-1, 1, 0}, {0, 0, 1}}, {{0, 1, 2, 3}, {0, 1, 4}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}}, {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {0, 4}, {1, 4}, {2, 4}, {3, 4}}});
    // VTK_WEDGE: the triangle 0 1 2 faces outward
    r.push_back({dfm2::MESHELEM_WEDGE, 6, 3, {{0, 0, 0}, {0, 1, 0}, {1, 0, 0}, {0, 0, 1}, {0, 1, 1}, {1, 0, 1}}, {{0, 1, 2}, {3, 4, 5}, {0, 1, 4, 3}, {1, 2, 5, 4}, {2, 0, 3, 5}}, {{0, 1}, {1, 2}, {2, 0}, {3, 4}, {4, 5}, {5, 3}, {0, 3}, {1, 4}, {2, 5}}});
    r.push_back({dfm2::MESHELEM_VOX, 8, 3, {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {1, 1, 0}, {0, 0, 1}, {1, 0, 1}, {0, 1, 1}, {1, 1, 1}}, {}, {}});
    for (auto &c: r)
      if (c.nno == 8) {
        for (int d = 0; d < 3; d++)
          for (int s = 0; s < 2; s++) {
            std::vector<int> f;
            for (int i = 0; i < 8; i++) if (c.x[i][d] == s) f.push_back(i);
            // cyclic order: opposite corners differ in both coordinates
            for (int k = 1; k < 4; k++) {
              int diff = 0;
              for (int e = 0; e < 3; e++) diff += c.x[f[0]][e] != c.x[f[k]][e];
              if (diff == 2) std::swap(f[2], f[k]);
            }
            c.face.push_back(f);
          }
        for (int i = 0; i < 8; i++)
          for (int j = i + 1; j < 8; j++) {
            int diff = 0;
            for (int e = 0; e < 3; e++) diff += c.x[i][e] != c.x[j][e];
            if (diff == 1) c.edge.push_back({i, j});
          }
      }
  }
  return r;
}

struct Mesh { std::vector<int> type; std::vector<VU> el; U np; };

static std::string show(const Mesh &m) {
  std::string s = std::to_string(m.np) + " points ";
  for (size_t i = 0; i < m.el.size(); i++) s += "T" + std::to_string(m.type[i]) + mc::str(m.el[i]);
  return s;
}
template<class T> static void dirty(std::vector<T> &v, int k) {
  v.clear();
  if (k == 1) v.assign(3, (T) 7);
  if (k == 2) v.assign(60, (T) 3);
}
// jagged rows, each index once, as sets
template<class A, class B> static std::vector<SU> rows(mc::Ch &c, const char *what, const std::vector<A> &ind, const std::vector<B> &val, size_t n, const Mesh &m) {
  MC_CHECK(c, ind.size() == n + 1, "%s: %zu row starts for %zu rows, %s", what, ind.size(), n, show(m).c_str());
  MC_CHECK(c, ind[0] == 0, "%s: first row starts at %d", what, (int) ind[0]);
  std::vector<SU> r(n);
  for (size_t i = 0; i < n; i++) {
    MC_CHECK(c, ind[i] <= ind[i + 1] && (size_t) ind[i + 1] <= val.size(), "%s: row %zu runs from %d to %d of %zu, %s", what, i, (int) ind[i], (int) ind[i + 1], val.size(), show(m).c_str());
    for (size_t k = ind[i]; k < (size_t) ind[i + 1]; k++)
      MC_CHECK(c, r[i].insert((U) val[k]).second, "%s: row %zu lists %d twice, %s", what, i, (int) val[k], show(m).c_str());
  }
  MC_CHECK(c, (size_t) ind[n] == val.size(), "%s: %zu values, rows hold %d, %s", what, val.size(), (int) ind[n], show(m).c_str());
  return r;
}
static void same(mc::Ch &c, const char *what, const std::vector<SU> &a, const std::vector<SU> &b, const Mesh &m) {
  for (size_t i = 0; i < b.size(); i++)
    if (a[i] != b[i]) c.fail("%s: row %zu is %s, should be %s, %s", what, i, mc::str(a[i]).c_str(), mc::str(b[i]).c_str(), show(m).c_str());
}

struct Ref {
  std::vector<SU> elsup, psup, edge, edge1;
  std::vector<std::vector<SU>> face;       // vertex sets of the faces of every element
  std::map<SU, std::vector<std::pair<U, int>>> share;
  bool manifold = true;
  std::vector<int> group;
  int ngroup = 0;
};
static Ref reference(const Mesh &m) {
  Ref r;
  r.elsup.resize(m.np), r.psup.resize(m.np), r.edge.resize(m.np), r.edge1.resize(m.np);
  for (U e = 0; e < m.el.size(); e++) {
    for (U p: m.el[e]) {
      r.elsup[p].insert(e);
      for (U q: m.el[e]) if (p != q) r.psup[p].insert(q);
    }
    auto &ce = cells()[m.type[e]];
    for (auto &x: ce.edge) {
      U a = m.el[e][x[0]], b = m.el[e][x[1]];
      r.edge[a].insert(b), r.edge[b].insert(a);
      r.edge1[std::min(a, b)].insert(std::max(a, b));
    }
    r.face.emplace_back();
    for (auto &f: ce.face) {
      SU s;
      for (int i: f) s.insert(m.el[e][i]);
      r.share[s].push_back({e, (int) r.face[e].size()});
      r.face[e].push_back(s);
    }
  }
  for (auto &x: r.share) if (x.second.size() > 2) r.manifold = false;
  for (U e = 0; e < m.el.size(); e++) {
    std::set<SU> u(r.face[e].begin(), r.face[e].end());
    if (u.size() != r.face[e].size()) r.manifold = false;
  }
  r.group.assign(m.el.size(), -1);
  for (U e = 0; e < m.el.size(); e++) {
    if (r.group[e] >= 0) continue;
    int g = r.ngroup++;
    std::vector<U> st{e};
    r.group[e] = g;
    while (!st.empty()) {
      U x = st.back();
      st.pop_back();
      for (auto &f: r.face[x]) for (auto &o: r.share[f]) if (r.group[o.first] < 0) r.group[o.first] = g, st.push_back(o.first);
    }
  }
  return r;
}
template<class T> static void check_groups(mc::Ch &c, const char *what, const std::vector<T> &g, int n, const Ref &r, const Mesh &m) {
  MC_CHECK(c, n == r.ngroup && g.size() == m.el.size(), "%s: %d groups, %d components, %s", what, n, r.ngroup, show(m).c_str());
  std::map<long, int> a;
  std::map<int, long> b;
  for (size_t i = 0; i < g.size(); i++) {
    MC_CHECK(c, (long) g[i] >= 0 && (long) g[i] < n, "%s: group %ld of element %zu out of range, %s", what, (long) g[i], i, show(m).c_str());
    if (a.count((long) g[i])) MC_CHECK(c, a[(long) g[i]] == r.group[i], "%s: elements of different components in one group, %s", what, show(m).c_str());
    if (b.count(r.group[i])) MC_CHECK(c, b[r.group[i]] == (long) g[i], "%s: a component is split, %s", what, show(m).c_str());
    a[(long) g[i]] = r.group[i];
    b[r.group[i]] = (long) g[i];
  }
}

static void common(mc::Ch &c, const Mesh &m, const Ref &r, int dk, const VU &psup_ind, const VU &psup) {
  // unidirectional edges, 2-ring, diagonal, sorting
  {
    VU ei, e;
    dirty(ei, dk), dirty(e, dk);
    dfm2::JArrayEdgeUnidir_PointSurPoint(ei, e, psup_ind, psup);
    std::vector<SU> w(m.np);
    for (U p = 0; p < m.np; p++) for (U q: r.psup[p]) if (q > p) w[p].insert(q);
    same(c, "JArrayEdgeUnidir_PointSurPoint", rows(c, "JArrayEdgeUnidir_PointSurPoint", ei, e, m.np, m), w, m);
  }
  {
    VU ei, e;
    dirty(ei, dk), dirty(e, dk);
    dfm2::JArray_AddDiagonal(ei, e, psup_ind.data(), psup_ind.size(), psup.data(), psup.size());
    std::vector<SU> w = r.psup;
    for (U p = 0; p < m.np; p++) w[p].insert(p);
    same(c, "JArray_AddDiagonal", rows(c, "JArray_AddDiagonal", ei, e, m.np, m), w, m);
    VU f = e, fi;
    dirty(fi, dk);
    VU g;
    dfm2::JArray_AddDiagonal(fi, g, ei.data(), ei.size(), e.data(), e.size());   // already there: nothing new
    same(c, "JArray_AddDiagonal (twice)", rows(c, "JArray_AddDiagonal", fi, g, m.np, m), w, m);
    VU s = e, s2 = e;
    dfm2::JArray_Sort(ei, s);
    dfm2::JArray_Sort(ei.data(), m.np, s2.data());
    for (U p = 0; p < m.np; p++) {
      VU a(e.begin() + ei[p], e.begin() + ei[p + 1]), b(s.begin() + ei[p], s.begin() + ei[p + 1]);
      std::sort(a.begin(), a.end());
      MC_CHECK(c, a == b, "JArray_Sort: row %u is %s", p, mc::str(b).c_str());
    }
    MC_CHECK(c, s == s2, "JArray_Sort variants differ");
  }
  {
    VU ei, e;
    dirty(ei, dk), dirty(e, dk);
    dfm2::JArray_Extend(ei, e, psup_ind.data(), psup_ind.size(), psup.data());
    std::vector<SU> w(m.np);
    for (U p = 0; p < m.np; p++) for (U q: r.psup[p]) for (U k: r.psup[q]) if (k != p) w[p].insert(k);
    same(c, "JArray_Extend", rows(c, "JArray_Extend", ei, e, m.np, m), w, m);
  }
}

static void uniform(mc::Ch &c, const Mesh &m, int dk) {
  Ref r = reference(m);
  auto &ce = cells()[m.type[0]];
  auto T = ce.type;
  VU el;
  for (auto &e: m.el) el.insert(el.end(), e.begin(), e.end());
  size_t ne = m.el.size();
  VU elsup_ind, elsup, psup_ind, psup;
  dirty(elsup_ind, dk), dirty(elsup, dk), dirty(psup_ind, dk), dirty(psup, dk);
  c.step(8);
  dfm2::JArray_ElSuP_MeshElem(elsup_ind, elsup, el.data(), ne, ce.nno, m.np);
  same(c, "JArray_ElSuP_MeshElem", rows(c, "JArray_ElSuP_MeshElem", elsup_ind, elsup, m.np, m), r.elsup, m);
  if (T == dfm2::MESHELEM_TRI) {
    VU a, b;
    dirty(a, dk), dirty(b, dk);
    dfm2::JArray_ElSuP_MeshTri(a, b, el, m.np);
    same(c, "JArray_ElSuP_MeshTri", rows(c, "JArray_ElSuP_MeshTri", a, b, m.np, m), r.elsup, m);
  }
  dfm2::JArray_PSuP_MeshElem(psup_ind, psup, el.data(), ne, ce.nno, m.np);
  same(c, "JArray_PSuP_MeshElem", rows(c, "JArray_PSuP_MeshElem", psup_ind, psup, m.np, m), r.psup, m);
  {
    VU a, b;
    dirty(a, dk), dirty(b, dk);
    dfm2::JArrayPointSurPoint_MeshOneRingNeighborhood(a, b, el.data(), elsup_ind, elsup, ce.nno, m.np);
    same(c, "JArrayPointSurPoint_MeshOneRingNeighborhood", rows(c, "JArrayPointSurPoint_MeshOneRingNeighborhood", a, b, m.np, m), r.psup, m);
  }
  common(c, m, r, dk, psup_ind, psup);
  for (int bi = 0; bi < 2; bi++) {
    VU a, b;
    dirty(a, dk), dirty(b, dk);
    dfm2::JArrayEdge_MeshElem(a, b, el.data(), T, elsup_ind, elsup, bi);
    same(c, "JArrayEdge_MeshElem", rows(c, "JArrayEdge_MeshElem", a, b, m.np, m), bi ? r.edge : r.edge1, m);
  }
  {
    VU l;
    dirty(l, dk);
    dfm2::MeshLine_MeshElem(l, el.data(), ne, T, m.np);
    std::set<std::pair<U, U>> a, w;
    MC_CHECK(c, l.size() % 2 == 0, "MeshLine_MeshElem: odd size");
    for (size_t i = 0; i + 1 < l.size(); i += 2) MC_CHECK(c, a.insert(std::minmax(l[i], l[i + 1])).second, "MeshLine_MeshElem: edge %u-%u twice, %s", l[i], l[i + 1], show(m).c_str());
    for (U p = 0; p < m.np; p++) for (U q: r.edge1[p]) w.insert({p, q});
    MC_CHECK(c, a == w, "MeshLine_MeshElem: %zu edges, %zu expected, %s", a.size(), w.size(), show(m).c_str());
  }
  bool uniface = true;
  for (auto &f: ce.face) uniface &= f.size() == ce.face[0].size();
  if (uniface) {
    VU a;
    dirty(a, dk);
    dfm2::ElSuEl_MeshElem(a, el.data(), ne, T, m.np);
    int nf = (int) ce.face.size();
    MC_CHECK(c, a.size() == ne * nf, "ElSuEl_MeshElem: size");
    for (U e = 0; e < ne; e++)
      for (int f = 0; f < nf; f++) {
        SU s;   // the faces are numbered by the element table
        int nn = dfm2::nNodeElemFace(T, f);
        for (int k = 0; k < nn; k++) s.insert(m.el[e][dfm2::noelElemFace(T)[f][k]]);
        MC_CHECK(c, r.share.count(s), "face %d of the element table of type %d is no face of the element", f, T);
        SU cand;
        for (auto &o: r.share[s]) if (o.first != e) cand.insert(o.first);
        U g = a[e * nf + f];
        if (cand.empty()) MC_CHECK(c, g == UINT_MAX, "ElSuEl_MeshElem: boundary face %d of element %u has neighbour %u, %s", f, e, g, show(m).c_str());
        else MC_CHECK(c, cand.count(g), "ElSuEl_MeshElem: face %d of element %u has neighbour %d, should be %s, %s", f, e, (int) g, mc::str(cand).c_str(), show(m).c_str());
      }
    if (r.manifold) {
      std::vector<U> flag;
      dirty(flag, dk);
      int ng = -5;
      dfm2::MakeGroupElem(ng, flag, el, a, nf, ce.nno);
      check_groups(c, "MakeGroupElem", flag, ng, r, m);
      for (U k = 0; k < std::min<U>(ne, 3); k++) for (int pre = 0; pre < 3; pre++) {  // marks of one component, over older marks
        std::vector<U> f(ne), f0;
        for (U e = 0; e < ne; e++) f[e] = pre == 0 ? UINT_MAX : pre == 1 ? 5 : (e % 2 ? 4 : UINT_MAX);
        f0 = f;
        dfm2::MarkConnectedElements(f, k, 9, a);
        for (U e = 0; e < ne; e++) MC_CHECK(c, f[e] == (flag[e] == flag[k] ? 9 : f0[e]), "MarkConnectedElements from element %u: element %u is marked %u, %s", k, e, f[e], show(m).c_str());
      }
    }
  }
  if (T == dfm2::MESHELEM_TRI) {
    std::set<std::pair<U, U>> de;
    bool oriented = r.manifold;
    for (auto &e: m.el) for (int k = 0; k < 3; k++) if (!de.insert({e[k], e[(k + 1) % 3]}).second) oriented = false;
    if (oriented) {
      VU q;
      dirty(q, dk);
      dfm2::ElemQuad_DihedralTri(q, el.data(), ne, m.np);
      // two opposite points, then the shared edge
      std::multiset<std::array<U, 4>> a, w;
      MC_CHECK(c, q.size() % 4 == 0, "ElemQuad_DihedralTri: size");
      auto norm = [](U o0, U o1, U e0, U e1) { return std::array<U, 4>{std::min(o0, o1), std::max(o0, o1), std::min(e0, e1), std::max(e0, e1)}; };
      for (size_t i = 0; i + 3 < q.size(); i += 4) {
        a.insert(norm(q[i], q[i + 1], q[i + 2], q[i + 3]));
        // orientation: (first, e0, e1) is a triangle of the mesh and (second, e1, e0) as well
        bool t0 = false, t1 = false;
        for (auto &e: m.el)
          for (int k = 0; k < 3; k++) {
            t0 |= e[k] == q[i] && e[(k + 1) % 3] == q[i + 2] && e[(k + 2) % 3] == q[i + 3];
            t1 |= e[k] == q[i + 1] && e[(k + 1) % 3] == q[i + 3] && e[(k + 2) % 3] == q[i + 2];
          }
        MC_CHECK(c, t0 && t1, "ElemQuad_DihedralTri: quad %u %u %u %u is no pair of triangles, %s", q[i], q[i + 1], q[i + 2], q[i + 3], show(m).c_str());
      }
      for (auto &s: r.share)
        if (s.second.size() == 2) {
          auto &f = s.second;
          U o[2];
          for (int k = 0; k < 2; k++) for (U p: m.el[f[k].first]) if (!s.first.count(p)) o[k] = p;
          w.insert(norm(o[0], o[1], *s.first.begin(), *s.first.rbegin()));
        }
      MC_CHECK(c, a == w, "ElemQuad_DihedralTri: %zu quads for %zu interior edges, %s", a.size(), w.size(), show(m).c_str());
    }
    for (U e0 = 0; e0 < ne; e0++)
      for (U e1 = 0; e1 < ne; e1++) {
        if (e0 == e1) continue;
        for (U k = 0; k < 3; k++) {
          U j = dfm2::FindAdjEdgeIndex(e0, k, e1, el.data()), w = UINT_MAX;
          for (U i = 0; i < 3; i++) if (m.el[e1][(i + 1) % 3] == m.el[e0][(k + 2) % 3] && m.el[e1][(i + 2) % 3] == m.el[e0][(k + 1) % 3]) w = i;
          MC_CHECK(c, j == w, "FindAdjEdgeIndex(%u,%u,%u) = %d, %s", e0, k, e1, (int) j, show(m).c_str());
        }
      }
    for (U e = 0; e < ne; e++) for (U k = 0; k < 3; k++) MC_CHECK(c, dfm2::FindIndexTri(&el[3 * e], m.el[e][k]) == k, "FindIndexTri");
    VU f = el;
    dfm2::FlipElement_Tri(f);
    for (U e = 0; e < ne; e++) {
      bool ok = false;
      for (int k = 0; k < 3; k++) ok |= f[3 * e] == m.el[e][k] && f[3 * e + 1] == m.el[e][(k + 2) % 3] && f[3 * e + 2] == m.el[e][(k + 1) % 3];
      MC_CHECK(c, ok, "FlipElement_Tri: not the reversed triangle");
    }
  }
  if (T == dfm2::MESHELEM_QUAD) {
    VU t;
    dirty(t, dk);
    dfm2::convert2Tri_Quad(t, el);
    MC_CHECK(c, t.size() == 6 * ne, "convert2Tri_Quad: size");
    for (U e = 0; e < ne; e++) {
      std::multiset<std::pair<U, U>> d, w;
      for (int k = 0; k < 2; k++) for (int i = 0; i < 3; i++) d.insert({t[6 * e + 3 * k + i], t[6 * e + 3 * k + (i + 1) % 3]});
      for (auto it = d.begin(); it != d.end();) {
        auto j = d.find({it->second, it->first});
        if (j != d.end()) { d.erase(j); it = d.erase(it); it = d.begin(); } else ++it;
      }
      for (int i = 0; i < 4; i++) w.insert({m.el[e][i], m.el[e][(i + 1) % 4]});
      MC_CHECK(c, d == w, "convert2Tri_Quad: triangles do not make up the quad %s", mc::str(m.el[e]).c_str());
    }
  }
  mc::Hash h;
  h.vec(psup_ind).vec(elsup);
  c.outcome(h);
}

static void mixed(mc::Ch &c, const Mesh &m, int dk) {
  Ref r = reference(m);
  dfm2::CElemMixed em;
  for (size_t e = 0; e < m.el.size(); e++) {
    std::vector<int> in(m.el[e].begin(), m.el[e].end());
    if (e + 1 < m.el.size() && m.type[e + 1] == m.type[e]) { in.insert(in.end(), m.el[e + 1].begin(), m.el[e + 1].end()); em.AddElement(cells()[m.type[e]].type, in); e++; }
    else em.AddElement(cells()[m.type[e]].type, in);
  }
  c.step(8);
  size_t ne = m.el.size();
  MC_CHECK(c, em.nElem() == (int) ne && em.aElemType.size() == ne, "AddElement: %d elements, %s", em.nElem(), show(m).c_str());
  for (U e = 0; e < ne; e++) {
    VU v(em.aElem.begin() + em.aElemInd[e], em.aElem.begin() + em.aElemInd[e + 1]);
    MC_CHECK(c, v == m.el[e] && em.aElemType[e] == cells()[m.type[e]].type, "AddElement: element %u is %s, %s", e, mc::str(v).c_str(), show(m).c_str());
  }
  VU ei, es;
  dirty(ei, dk), dirty(es, dk);
  em.MakeElemSurroundingPoint(ei, es, (int) m.np);
  same(c, "JArray_ElSuP_MeshMix", rows(c, "JArray_ElSuP_MeshMix", ei, es, m.np, m), r.elsup, m);
  std::vector<int> fi, fr, fi2, fr2;
  dirty(fi, dk), dirty(fr, dk);
  em.MakeSurroundingRelationship(fi, fr, ei, es);
  em.MakeSurroundingRelationship(fi2, fr2, (int) m.np);
  MC_CHECK(c, fi == fi2 && fr == fr2, "ElSuEl_MeshMix variants differ, %s", show(m).c_str());
  MC_CHECK(c, fi.size() == ne + 1 && fi[0] == 0, "ElSuEl_MeshMix: index array");
  auto table_face = [&](U e, int f) {
    SU s;
    auto T = cells()[m.type[e]].type;
    for (int k = 0; k < dfm2::nNodeElemFace(T, f); k++) s.insert(m.el[e][dfm2::noelElemFace(T)[f][k]]);
    return s;
  };
  std::multiset<SU> bound;
  for (U e = 0; e < ne; e++) {
    int nf = (int) cells()[m.type[e]].face.size();
    MC_CHECK(c, fi[e + 1] - fi[e] == nf && fr.size() == 2 * (size_t) fi[ne], "ElSuEl_MeshMix: %d faces of element %u", fi[e + 1] - fi[e], e);
    for (int f = 0; f < nf; f++) {
      SU s = table_face(e, f);
      MC_CHECK(c, r.share.count(s), "face %d of the element table of type %d is no face of the element", f, m.type[e]);
      SU cand;
      for (auto &o: r.share[s]) if (o.first != e) cand.insert(o.first);
      int g = fr[2 * (fi[e] + f)], gf = fr[2 * (fi[e] + f) + 1];
      if (cand.empty()) {
        MC_CHECK(c, g == -1, "ElSuEl_MeshMix: boundary face %d of element %u has neighbour %d, %s", f, e, g, show(m).c_str());
        bound.insert(s);
      } else {
        MC_CHECK(c, g >= 0 && cand.count((U) g), "ElSuEl_MeshMix: face %d of element %u has neighbour %d, should be %s, %s", f, e, g, mc::str(cand).c_str(), show(m).c_str());
        MC_CHECK(c, gf >= 0 && gf < (int) cells()[m.type[g]].face.size() && table_face((U) g, gf) == s, "ElSuEl_MeshMix: face %d of element %u matches face %d of %d, %s", f, e, gf, g, show(m).c_str());
      }
    }
  }
  // boundary
  dfm2::CElemMixed eb;
  dirty(eb.aElem, dk);
  em.makeBoundary(eb, fi, fr);
  MC_CHECK(c, eb.aElemInd.size() == bound.size() + 1 && eb.aElemType.size() == bound.size() && eb.aElemInd[0] == 0, "Boundary_MeshMix: %zu faces, %zu boundary faces, %s", eb.aElemInd.size() - 1, bound.size(), show(m).c_str());
  std::multiset<SU> got;
  for (size_t b = 0; b + 1 < eb.aElemInd.size(); b++) {
    MC_CHECK(c, eb.aElemInd[b] < eb.aElemInd[b + 1] && eb.aElemInd[b + 1] <= eb.aElem.size(), "Boundary_MeshMix: index array, %s", show(m).c_str());
    VU f(eb.aElem.begin() + eb.aElemInd[b], eb.aElem.begin() + eb.aElemInd[b + 1]);
    MC_CHECK(c, (eb.aElemType[b] == dfm2::MESHELEM_TRI && f.size() == 3) || (eb.aElemType[b] == dfm2::MESHELEM_QUAD && f.size() == 4) || (eb.aElemType[b] == dfm2::MESHELEM_LINE && f.size() == 2),
             "Boundary_MeshMix: face with %zu points has type %d", f.size(), eb.aElemType[b]);
    SU s(f.begin(), f.end());
    got.insert(s);
    // outward orientation, from the reference cell
    for (auto &o: r.share[s]) {
      auto &ce = cells()[m.type[o.first]];
      if (ce.dim < 3) continue;
      auto X = [&](U p) { int k = (int) (std::find(m.el[o.first].begin(), m.el[o.first].end(), p) - m.el[o.first].begin()); return ce.x[k]; };
      double nx[3] = {0, 0, 0}, cen[3] = {0, 0, 0}, fc[3] = {0, 0, 0};
      auto x0 = X(f[0]);
      for (size_t k = 1; k + 1 < f.size(); k++) {
        auto x1 = X(f[k]), x2 = X(f[k + 1]);
        double a[3], d[3];
        for (int i = 0; i < 3; i++) a[i] = x1[i] - x0[i], d[i] = x2[i] - x0[i];
        for (int i = 0; i < 3; i++) nx[i] += a[(i + 1) % 3] * d[(i + 2) % 3] - a[(i + 2) % 3] * d[(i + 1) % 3];
      }
      for (auto &x: ce.x) for (int i = 0; i < 3; i++) cen[i] += x[i] / (double) ce.x.size();
      for (U p: f) for (int i = 0; i < 3; i++) fc[i] += X(p)[i] / (double) f.size();
      double d = 0, l = 0;
      for (int i = 0; i < 3; i++) d += nx[i] * (fc[i] - cen[i]), l += nx[i] * nx[i];
      MC_CHECK(c, d > 0.05 && l > (f.size() == 4 ? 1.5 : 0.5), "Boundary_MeshMix: face %s is not an outward oriented face, %s", mc::str(f).c_str(), show(m).c_str());
    }
  }
  MC_CHECK(c, got == bound, "Boundary_MeshMix: wrong faces, %s", show(m).c_str());
  {
    dfm2::CElemMixed e2;
    em.makeBoundary(e2, (int) m.np);
    MC_CHECK(c, e2.aElem == eb.aElem && e2.aElemInd == eb.aElemInd, "makeBoundary variants differ");
  }
  if (r.manifold) {
    int ng = -7;
    std::vector<int> g;
    dirty(g, dk);
    em.MakeGroupElem(ng, g, (int) m.np);
    check_groups(c, "MakeGroupElem_MeshMix", g, ng, r, m);
    for (int k = 0; k < ng; k++) {
      dfm2::CElemMixed cl;
      dirty(cl.aElem, dk), dirty(cl.aElemInd, dk);
      em.ClipGroup(cl, k, g);
      size_t q = 0;
      for (U e = 0; e < ne; e++) {
        if (g[e] != k) continue;
        MC_CHECK(c, q + 1 < cl.aElemInd.size() && q < cl.aElemType.size(), "ClipGroup_MeshMix: too few elements, %s", show(m).c_str());
        VU v(cl.aElem.begin() + cl.aElemInd[q], cl.aElem.begin() + cl.aElemInd[q + 1]);
        MC_CHECK(c, v == m.el[e] && cl.aElemType[q] == em.aElemType[e], "ClipGroup_MeshMix: element %zu of group %d, %s", q, k, show(m).c_str());
        q++;
      }
      MC_CHECK(c, q + 1 == cl.aElemInd.size(), "ClipGroup_MeshMix: too many elements, %s", show(m).c_str());
    }
  }
  bool flat = true;
  for (int t: m.type) flat &= cells()[t].dim == 2;
  if (flat) {
    std::vector<int> fl;
    dirty(fl, dk);
    em.FlipElement(fl);
    MC_CHECK(c, fl.size() == em.aElem.size(), "FlipElement_MeshMix: size");
    VU t;
    dirty(t, dk);
    em.getTriElement(t);
    size_t q = 0;
    for (U e = 0; e < ne; e++) {
      size_t n = m.el[e].size();
      VU v(fl.begin() + em.aElemInd[e], fl.begin() + em.aElemInd[e + 1]);
      std::reverse(v.begin(), v.end());
      bool ok = false;
      for (size_t k = 0; k < n; k++) { VU w = m.el[e]; std::rotate(w.begin(), w.begin() + (long) k, w.end()); ok |= w == v; }
      MC_CHECK(c, ok, "FlipElement_MeshMix: not the reversed element, %s", show(m).c_str());
      std::set<std::pair<U, U>> d;
      for (size_t k = 0; k < n - 2; k++, q += 3) {
        MC_CHECK(c, q + 3 <= t.size(), "Convert2Tri_MeshMix: size");
        for (int i = 0; i < 3; i++) { U a = t[q + i], b = t[q + (i + 1) % 3]; if (!d.erase({b, a})) d.insert({a, b}); }
      }
      std::set<std::pair<U, U>> w;
      for (size_t k = 0; k < n; k++) w.insert({m.el[e][k], m.el[e][(k + 1) % n]});
      MC_CHECK(c, d == w, "Convert2Tri_MeshMix: element %u, %s", e, show(m).c_str());
    }
    MC_CHECK(c, q == t.size(), "Convert2Tri_MeshMix: size");
  }
  c.outcome(mc::Hash().vec(fr));
}

static VU arrangement(int k, int n, int r) {  // the k-th ordered choice of r of n
  std::vector<U> pool(n), o;
  for (int i = 0; i < n; i++) pool[i] = (U) i;
  for (int i = 0; i < r; i++) { int m = n - i; o.push_back(pool[k % m]); pool.erase(pool.begin() + k % m); k /= m; }
  return o;
}

// ---- all small triangle meshes: up to three triangles of any orientation on five vertices
static void tris(mc::Ch &c) {
  int n = 1 + c.choose(3);
  int dk = c.choose(3);
  Mesh m;
  m.np = 5 + (U) c.choose(2);
  if (n == 3 && !c.thorough) c.require(dk == 2 && m.np == 5);
  for (int i = 0; i < n; i++) {
    int k = (n == 3 && i == 0) ? c.pick({0, 17, 59}) : c.choose(60);
    m.el.push_back(arrangement(k, 5, 3));
    m.type.push_back(0);
  }
  c.commit();
  c.describe("%s", show(m).c_str());
  uniform(c, m, dk);
  if (n < 3 || c.thorough) mixed(c, m, dk);
}
// ---- quads and tets: two elements in every relative position
static void quadtet(mc::Ch &c) {
  int t = c.pick({1, 2});
  int dk = c.choose(2) * 2;
  Mesh m;
  m.np = 7;
  m.type = {t, t};
  m.el.push_back(arrangement(c.pick({0, 1, 200, 719 / 2}), 6, 4));
  m.el.push_back(arrangement(c.choose(360), 6, 4));
  if (c.flip()) { m.type.push_back(t); m.el.push_back(arrangement(c.choose(c.thorough ? 360 : 20) * (c.thorough ? 1 : 17), 7, 4)); }
  c.commit();
  c.describe("%s", show(m).c_str());
  uniform(c, m, dk);
  mixed(c, m, dk);
}
// ---- every pair (and chain) of element types glued over every pair of faces in every way
static void glue(Mesh &m, U e, int f, int t, int g, int k, const std::vector<U> &fresh) {
  auto &A = cells()[m.type[e]];
  auto &B = cells()[t];
  VU el(B.nno, UINT_MAX);
  int n = (int) B.face[g].size();
  for (int i = 0; i < n; i++) {
    int j = k < n ? (i + k) % n : (2 * n - 1 - i + k) % n;
    el[B.face[g][i]] = m.el[e][A.face[f][j]];
  }
  size_t q = 0;
  for (auto &x: el) if (x == UINT_MAX) x = fresh[q++];
  m.el.push_back(el);
  m.type.push_back(t);
}
static void glued(mc::Ch &c) {
  Mesh m;
  int a = c.choose(7), b = c.choose(7);
  auto &A = cells()[a];
  auto &B = cells()[b];
  c.require(A.dim == B.dim);
  int f = c.choose((int) A.face.size()), g = c.choose((int) B.face.size());
  c.require(A.face[f].size() == B.face[g].size());
  int k = c.choose(2 * (int) A.face[f].size());
  int lab = c.choose(3);             // labels: increasing, decreasing, interleaved
  int third = c.choose(2);           // glue a third element on another face of the second
  int dk = c.thorough ? c.choose(3) : (lab + third) % 3;
  c.commit();
  m.np = (U) A.nno + 8 + 8;
  m.type = {a};
  VU e0;
  for (int i = 0; i < A.nno; i++) e0.push_back((U) i);
  m.el.push_back(e0);
  std::vector<U> fr, fr2;
  for (U i = 0; i < 8; i++) fr.push_back((U) A.nno + i), fr2.push_back((U) A.nno + 8 + i);
  glue(m, 0, f, b, g, k, fr);
  if (third) {
    int g2 = (g + 1 + k) % (int) B.face.size();
    if (g2 == g) g2 = (g + 1) % (int) B.face.size();
    for (int t = 0; t < 7; t++) {
      auto &T = cells()[t];
      if (T.dim != B.dim) continue;
      for (size_t h = 0; h < T.face.size(); h++)
        if (T.face[h].size() == B.face[g2].size() && (h + k + f) % 3 == 0 && m.el.size() == 2) glue(m, 1, g2, t, (int) h, (k + 1) % (int) T.face[h].size(), fr2);
    }
  }
  auto lb = [&](U p) { return lab == 0 ? p : lab == 1 ? m.np - 1 - p : (p * 5) % m.np; };
  if (lab == 2) while (m.np % 5 == 0) m.np++;
  for (auto &e: m.el) for (auto &p: e) p = lb(p);
  c.describe("%s", show(m).c_str());
  bool uni = true;
  for (int t: m.type) uni &= t == a;
  if (uni) uniform(c, m, dk);
  mixed(c, m, dk);
}
// ---- pairs of types sharing only some of the vertices of a face
static void partial(mc::Ch &c) {
  Mesh m;
  int a = c.choose(7), b = c.choose(7);
  auto &A = cells()[a];
  auto &B = cells()[b];
  int share = c.choose(4);           // number of shared vertices
  int s0 = c.choose(A.nno), s1 = c.choose(B.nno);
  int st = 1 + c.choose(3);
  int dk = c.choose(2);
  c.commit();
  VU e0, e1;
  for (int i = 0; i < A.nno; i++) e0.push_back((U) i);
  for (int i = 0; i < B.nno; i++) e1.push_back((U) (A.nno + i));
  std::set<int> used0, used1;
  for (int i = 0; i < share; i++) {
    int x = (s0 + i * st) % A.nno, y = (s1 + i) % B.nno;
    if (!used0.insert(x).second || !used1.insert(y).second) continue;
    e1[y] = e0[x];
  }
  m.type = {a, b};
  m.el = {e0, e1};
  m.np = (U) (A.nno + B.nno);
  c.describe("%s", show(m).c_str());
  if (a == b) uniform(c, m, dk);
  mixed(c, m, dk);
}
// ---- unification of separate position and texture indices
static void unify(mc::Ch &c) {
  int nt = 1 + c.choose(2);
  int dk = c.choose(2) * 2;
  VU ex, et;
  for (int i = 0; i < nt; i++) {
    VU a = arrangement(i == 0 ? c.pick({0, 9}) : c.choose(24), 4, 3), b = arrangement(c.choose(24), 4, 3);
    bool same = c.flip();              // a texture corner used twice in one triangle
    if (same) b[1] = b[0];
    ex.insert(ex.end(), a.begin(), a.end());
    et.insert(et.end(), b.begin(), b.end());
  }
  c.commit();
  std::vector<double> xyz, tex;
  for (int i = 0; i < 12; i++) xyz.push_back(i * 1.5);
  for (int i = 0; i < 8; i++) tex.push_back(100 + i);
  std::vector<double> ux, ut;
  VU tri, ix, it;
  dirty(tri, dk), dirty(ix, dk), dirty(it, dk), dirty(ux, dk), dirty(ut, dk);
  c.describe("xyz %s tex %s", mc::str(ex).c_str(), mc::str(et).c_str());
  dfm2::UnifySeparateIndexing_PosTex(ux, ut, tri, ix, it, xyz, tex, ex, et);
  c.step();
  std::set<std::pair<U, U>> pairs;
  for (size_t i = 0; i < ex.size(); i++) pairs.insert({ex[i], et[i]});
  std::string in = "xyz " + mc::str(ex) + " tex " + mc::str(et);
  MC_CHECK(c, tri.size() == ex.size(), "UnifySeparateIndexing_PosTex: size, %s", in.c_str());
  MC_CHECK(c, ix.size() == pairs.size() && it.size() == pairs.size() && ux.size() == 3 * pairs.size() && ut.size() == 2 * pairs.size(), "UnifySeparateIndexing_PosTex: %zu unified vertices for %zu distinct pairs, %s", ix.size(), pairs.size(), in.c_str());
  for (size_t i = 0; i < ex.size(); i++) {
    MC_CHECK(c, tri[i] < ix.size() && ix[tri[i]] == ex[i] && it[tri[i]] == et[i], "UnifySeparateIndexing_PosTex: corner %zu, %s", i, in.c_str());
    for (int k = 0; k < 3; k++) MC_CHECK(c, ux[3 * tri[i] + k] == xyz[3 * ex[i] + k], "UnifySeparateIndexing_PosTex: position, %s", in.c_str());
    for (int k = 0; k < 2; k++) MC_CHECK(c, ut[2 * tri[i] + k] == tex[2 * et[i] + k], "UnifySeparateIndexing_PosTex: texture, %s", in.c_str());
  }
  c.outcome(mc::Hash().vec(tri));
}
// ---- strands of rods
static void hair(mc::Ch &c) {
  int n = 1 + c.choose(3);
  VU root{0};
  for (int i = 0; i < n; i++) root.push_back(root.back() + 2 + (U) c.choose(5));
  int dk = c.choose(3);
  c.commit();
  VU a, b;
  dirty(a, dk), dirty(b, dk);
  dfm2::JArray_PSuP_Hair(a, b, root);
  Mesh m;
  m.np = root.back();
  std::vector<SU> w(m.np);
  for (int h = 0; h < n; h++) {
    for (U i = root[h]; i + 2 < root[h + 1]; i++)
      for (U p = i; p < i + 3; p++) for (U q = i; q < i + 3; q++) if (p != q) w[p].insert(q);
  }
  c.describe("strands %s", mc::str(root).c_str());
  c.step();
  same(c, "JArray_PSuP_Hair", rows(c, "JArray_PSuP_Hair", a, b, m.np, m), w, m);
  c.outcome(mc::Hash().vec(a));
}
// ---- regular grids and closed surfaces (every valence), larger sizes
static void grids(mc::Ch &c) {
  int t = c.choose(7);
  int nx = 1 + c.choose(c.thorough ? 7 : 5), ny = 1 + c.choose(c.thorough ? 7 : 4), nz = cells()[t].dim == 3 ? 1 + c.choose(3) : 1;
  int wrap = c.choose(2);
  int dk = (nx + ny) % 3;
  c.require(!wrap || nx >= 3);
  c.commit();
  Mesh m;
  int w = wrap ? nx : nx + 1;
  auto P = [&](int i, int j, int k) { return (U) ((i % w) + w * (j + (ny + 1) * k)); };
  m.np = (U) (w * (ny + 1) * (cells()[t].dim == 3 ? nz + 1 : 1)) + 3;
  for (int k = 0; k < nz; k++)
    for (int j = 0; j < ny; j++)
      for (int i = 0; i < nx; i++) {
        U v[8];
        for (int q = 0; q < 8; q++) v[q] = cells()[t].dim == 3 || q < 4 ? P(i + ((q & 1) != 0), j + ((q & 2) != 0), k + ((q & 4) != 0)) : 0;
        auto add = [&](std::vector<U> e) { m.el.push_back(e), m.type.push_back(t); };
        switch (t) {
          case 0: add({v[0], v[1], v[3]}), add({v[0], v[3], v[2]}); break;
          case 2: add({v[0], v[1], v[3], v[2]}); break;
          case 1: for (auto &p: {std::array<int, 3>{1, 2, 4}, {1, 4, 2}, {2, 1, 4}, {2, 4, 1}, {4, 1, 2}, {4, 2, 1}}) add({v[0], v[p[0]], v[p[0] + p[1]], v[7]}); break;
          case 3: add({v[0], v[1], v[3], v[2], v[4], v[5], v[7], v[6]}); break;
          case 6: add({v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]}); break;
          case 5: add({v[0], v[2], v[1], v[4], v[6], v[5]}), add({v[3], v[1], v[2], v[7], v[5], v[6]}); break;
          case 4: { U ce = m.np++; for (auto &f: {std::array<int, 4>{0, 1, 3, 2}, {4, 6, 7, 5}, {0, 4, 5, 1}, {2, 3, 7, 6}, {0, 2, 6, 4}, {1, 5, 7, 3}}) add({v[f[0]], v[f[1]], v[f[2]], v[f[3]], ce}); break; }
        }
      }
  c.describe("grid %dx%dx%d of type %d%s", nx, ny, nz, t, wrap ? ", periodic" : "");
  uniform(c, m, dk);
  if (t != 1 || true) mixed(c, m, dk);
}

int main(int argc, char **argv) {
  return mc::run(argc, argv,
                 {"C03", "exploration", {"elements have distinct vertices; connected groups are compared on meshes whose faces are shared by at most two elements"}},
                 {{"tris", tris, "all meshes of 1-2 (and most of 3) oriented triangles on 5 vertices, fresh and reused outputs"},
                  {"quadtet", quadtet, "two (three) quads or tetrahedra in every relative vertex assignment on 6 vertices"},
                  {"glued", glued, "all pairs of 7 element types glued over all face pairs in all rotations and reflections, with a third element and three labelings"},
                  {"partial", partial, "all pairs of element types sharing 0-3 vertices"},
                  {"unify", unify, "position/texture index pairs of one and two triangles over 4+4 indices"},
                  {"hair", hair, "1-3 strands of 2-6 points"},
                  {"grids", grids, "grids of every element type up to 5x4x3, also periodic"}});
}
