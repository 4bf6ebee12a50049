// C18: 2D CAD shapes stay topologically and geometrically consistent under every edit.
#include "mc.h"
#include <iostream>
#include <memory>
#include "delfem2/cad2.h"
#include "delfem2/cad2_mesher.h"
#include "delfem2/cad2_io_svg.h"
namespace dfm2 = delfem2;
using U = unsigned int;
using VD = std::vector<double>;
using EG = dfm2::CCad2D_EdgeGeo;
struct P { double x, y; };
static P operator+(P a, P b) { return {a.x + b.x, a.y + b.y}; }
static P operator-(P a, P b) { return {a.x - b.x, a.y - b.y}; }
static P operator*(double s, P a) { return {s * a.x, s * a.y}; }
static double cr(P a, P b) { return a.x * b.y - a.y * b.x; }
static double len(P a) { return std::hypot(a.x, a.y); }

// ---------- reference model
struct ME { U v0, v1; int type; VD par; };
struct ML { U iv; std::vector<std::pair<U, bool>> e; };
struct Model {
  std::vector<P> v;
  std::vector<ME> e;
  std::vector<ML> l;
  std::vector<std::vector<U>> f;
  U pv = UINT_MAX, pe = UINT_MAX;
  int elem = 0;
};
static P bez(const P &p0, const P &p1, int type, const VD &q, double t) {
  double s = 1 - t;
  if (type == EG::BEZIER_QUADRATIC) return s * s * p0 + 2 * s * t * (p0 + P{q[0], q[1]}) + t * t * p1;
  if (type == EG::BEZIER_CUBIC) return s * s * s * p0 + 3 * s * s * t * (p0 + P{q[0], q[1]}) + 3 * s * t * t * (p1 + P{q[2], q[3]}) + t * t * t * p1;
  return s * p0 + t * p1;
}
static P at(const Model &m, U e, double t) { return bez(m.v[m.e[e].v0], m.v[m.e[e].v1], m.e[e].type, m.e[e].par, t); }
static double arclen(P a, P b, int type, const VD &q) {
  double L = 0;
  P p = a;
  const int N = 2000;
  for (int i = 1; i <= N; i++) { P r = bez(a, b, type, q, i / double(N)); L += len(r - p); p = r; }
  return L;
}
static EG mk(P a, P b, int type, VD par) {
  EG e;
  e.p0 = {a.x, a.y};
  e.p1 = {b.x, b.y};
  if (type == EG::BEZIER_QUADRATIC) e.SetQuadraticBezierCurve({a.x + par[0], a.y + par[1]});
  else if (type == EG::BEZIER_CUBIC) e.SetCubicBezierCurve({a.x + par[0], a.y + par[1]}, {b.x + par[2], b.y + par[3]});
  return e;
}
struct Shape { std::vector<P> v; std::vector<int> type; std::vector<VD> par; };
static const int L = EG::LINE, Q = EG::BEZIER_QUADRATIC, C = EG::BEZIER_CUBIC;
static std::vector<Shape> shapes() {
  return {
      {{{0, 0}, {1, 0}, {1, 1}, {0, 1}}, {L, L, L, L}, {{}, {}, {}, {}}},
      {{{0, 0}, {1.5, 0}, {0.25, 1}}, {L, L, L}, {{}, {}, {}}},
      {{{0, 0}, {2, 0}, {2, 0.75}, {1, 0.75}, {1, 1.5}, {0, 1.5}}, {L, L, L, L, L, L}, {{}, {}, {}, {}, {}, {}}},
      {{{0, 0}, {1, 0}, {1, 1}, {0, 1}}, {L, Q, L, L}, {{}, {0.5, 0.5}, {}, {}}},
      {{{0, 0}, {1, 0}, {1, 1}, {0, 1}}, {L, L, C, L}, {{}, {}, {-0.25, 0.5, 0.25, 0.5}, {}}},
      {{{0, 0}, {1, 0}, {1, 1}, {0, 1}}, {C, L, Q, L}, {{0.25, 0.375, -0.25, 0.25}, {}, {-0.5, -0.25}, {}}},
      {{{0, 0}, {1, 0}, {0.5, 1}}, {C, C, Q}, {{0.25, -0.5, -0.25, -0.25}, {0.25, 0.25, 0.5, -0.125}, {-0.25, -0.25}}},
  };
}
static void add_face(dfm2::CCad2D &cad, Model &m, const Shape &s, P off, bool poly) {
  U v0 = (U) m.v.size(), e0 = (U) m.e.size(), n = (U) s.v.size();
  VD xy;
  std::vector<EG> es;
  ML lp{UINT_MAX, {}};
  for (U i = 0; i < n; i++) {
    P a = s.v[i] + off, b = s.v[(i + 1) % n] + off;
    m.v.push_back(a);
    xy.push_back(a.x); xy.push_back(a.y);
    es.push_back(mk(a, b, s.type[i], s.par[i]));
    m.e.push_back({v0 + i, v0 + (i + 1) % n, s.type[i], s.par[i]});
    lp.e.push_back({e0 + i, true});
  }
  m.l.push_back(lp);
  m.f.push_back({(U) m.l.size() - 1});
  if (poly) cad.AddPolygon(xy); else cad.AddFace(es);
}
static void add_vtx_face(dfm2::CCad2D &cad, Model &m, P p, U f) {
  cad.AddVtxFace(p.x, p.y, f);
  if (f >= m.f.size()) return;
  m.v.push_back(p);
  m.l.push_back({(U) m.v.size() - 1, {}});
  m.f[f].push_back((U) m.l.size() - 1);
}
static void add_vtx_edge(dfm2::CCad2D &cad, Model &m, P p, U e) {
  cad.AddVtxEdge(p.x, p.y, e);
  if (e >= m.e.size()) return;
  m.v.push_back(p);
  U vn = (U) m.v.size() - 1, en = (U) m.e.size();
  m.e.push_back({vn, m.e[e].v1, L, {}});
  m.e[e].v1 = vn;
  for (auto &l: m.l)
    for (size_t i = 0; i < l.e.size(); i++)
      if (l.e[i].first == e) { l.e.insert(l.e.begin() + i + 1, {en, true}); break; }
}
static bool eq(const dfm2::CVec2d &a, P b) { return mc::near(a.x, b.x, 1e-9) && mc::near(a.y, b.y, 1e-9); }
static void same(mc::Ch &c, const dfm2::CCad2D &cad, const Model &m) {
  MC_CHECK(c, cad.Check(), "Check() refuses the shape");
  MC_CHECK(c, cad.nVtx() == m.v.size() && cad.topo.num_vertex == m.v.size(), "%zu vertices, expected %zu", cad.nVtx(), m.v.size());
  MC_CHECK(c, cad.nEdge() == m.e.size() && cad.topo.edges.size() == m.e.size(), "%zu edges, expected %zu", cad.nEdge(), m.e.size());
  MC_CHECK(c, cad.topo.loops.size() == m.l.size() && cad.topo.faces.size() == m.f.size(), "%zu loops and %zu faces, expected %zu and %zu", cad.topo.loops.size(), cad.topo.faces.size(), m.l.size(), m.f.size());
  double lo[2] = {1e9, 1e9}, hi[2] = {-1e9, -1e9};
  for (U i = 0; i < m.v.size(); i++) MC_CHECK(c, eq(cad.aVtx[i].pos, m.v[i]), "vertex %u is at %g,%g, expected %g,%g", i, cad.aVtx[i].pos.x, cad.aVtx[i].pos.y, m.v[i].x, m.v[i].y);
  for (U i = 0; i < m.e.size(); i++) {
    const ME &e = m.e[i];
    MC_CHECK(c, cad.topo.edges[i].iv0 == e.v0 && cad.topo.edges[i].iv1 == e.v1, "edge %u joins %u-%u, expected %u-%u", i, cad.topo.edges[i].iv0, cad.topo.edges[i].iv1, e.v0, e.v1);
    auto vp = cad.topo.VertexIndexs_EdgeEndPoints(i);
    MC_CHECK(c, vp.first == e.v0 && vp.second == e.v1, "VertexIndexs_EdgeEndPoints of edge %u is wrong", i);
    MC_CHECK(c, eq(cad.aEdge[i].p0, m.v[e.v0]) && eq(cad.aEdge[i].p1, m.v[e.v1]), "end points of edge %u are not at its vertices", i);
    MC_CHECK(c, (int) cad.aEdge[i].type_edge == e.type, "edge %u has curve type %d, expected %d", i, (int) cad.aEdge[i].type_edge, e.type);
    MC_CHECK(c, cad.aEdge[i].param.size() == e.par.size(), "edge %u has %zu curve parameters, expected %zu", i, cad.aEdge[i].param.size(), e.par.size());
    for (size_t k = 0; k < e.par.size(); k++) MC_CHECK(c, mc::near(cad.aEdge[i].param[k], e.par[k], 1e-9), "edge %u: curve parameter %zu is %g, expected %g", i, k, cad.aEdge[i].param[k], e.par[k]);
    for (U v: {e.v0, e.v1}) {
      lo[0] = std::min(lo[0], m.v[v].x); lo[1] = std::min(lo[1], m.v[v].y);
      hi[0] = std::max(hi[0], m.v[v].x); hi[1] = std::max(hi[1], m.v[v].y);
    }
  }
  for (U i = 0; i < m.l.size(); i++) {
    const auto &l = cad.topo.loops[i];
    MC_CHECK(c, l.iv == m.l[i].iv && l.aIE == m.l[i].e, "loop %u is not the chain the edits define", i);
    std::vector<U> iv;
    for (auto &e: m.l[i].e) iv.push_back(e.second ? m.e[e.first].v0 : m.e[e.first].v1);
    MC_CHECK(c, l.GetArray_IdVertex(cad.topo.edges) == iv, "GetArray_IdVertex of loop %u is wrong", i);
  }
  std::vector<std::vector<U>> fv(m.v.size()), fe(m.e.size());
  for (U i = 0; i < m.f.size(); i++) {
    MC_CHECK(c, cad.topo.faces[i].aIL == m.f[i], "face %u does not hold its loops", i);
    std::vector<U> iv;
    std::vector<std::pair<U, bool>> ie;
    for (U l: m.f[i]) {
      if (m.l[l].iv != UINT_MAX) iv.push_back(m.l[l].iv);
      for (auto &e: m.l[l].e) { iv.push_back(e.second ? m.e[e.first].v0 : m.e[e.first].v1); ie.push_back(e); }
    }
    MC_CHECK(c, cad.topo.VertexIndexs_Face(i) == iv, "VertexIndexs_Face(%u) is %s, expected %s", i, mc::str(cad.topo.VertexIndexs_Face(i)).c_str(), mc::str(iv).c_str());
    MC_CHECK(c, cad.topo.EdgeIndexes_Face(i) == ie, "EdgeIndexes_Face(%u) is wrong", i);
    for (U v: iv) if (fv[v].empty() || fv[v].back() != i) fv[v].push_back(i);
    for (auto &e: ie) if (fe[e.first].empty() || fe[e.first].back() != i) fe[e.first].push_back(i);
  }
  for (U v = 0; v < m.v.size(); v++) MC_CHECK(c, cad.topo.FindFaceIndexes_IncludeVeretx(v) == fv[v], "faces around vertex %u: %s, expected %s", v, mc::str(cad.topo.FindFaceIndexes_IncludeVeretx(v)).c_str(), mc::str(fv[v]).c_str());
  for (U e = 0; e < m.e.size(); e++) MC_CHECK(c, cad.topo.FindFaceIndexes_IncludeEdge(e) == fe[e], "faces around edge %u are wrong", e);
  if (!m.e.empty()) {
    VD b = cad.MinMaxXYZ();
    auto bb = cad.BB();
    MC_CHECK(c, b.size() >= 4 && mc::near(b[0], lo[0], 1e-9) && mc::near(b[1], hi[0], 1e-9) && mc::near(b[2], lo[1], 1e-9) && mc::near(b[3], hi[1], 1e-9), "MinMaxXYZ %s is not the box of the end points", mc::str(b).c_str());
    MC_CHECK(c, mc::near(bb.x_min, lo[0], 1e-9) && mc::near(bb.x_max, hi[0], 1e-9) && mc::near(bb.y_min, lo[1], 1e-9) && mc::near(bb.y_max, hi[1], 1e-9), "BB is not the box of the end points");
  }
}
// distance to an edge by dense sampling (curves) or exactly (lines)
static double dist(const Model &m, U e, P p) {
  double d = 1e9;
  if (m.e[e].type == L) {
    P a = m.v[m.e[e].v0], b = m.v[m.e[e].v1], ab = b - a;
    double dd = ab.x * ab.x + ab.y * ab.y, t = dd > 0 ? ((p.x - a.x) * ab.x + (p.y - a.y) * ab.y) / dd : 0;
    return len(p - (a + std::min(1., std::max(0., t)) * ab));
  }
  for (int i = 0; i <= 400; i++) d = std::min(d, len(p - at(m, e, i / 400.)));
  return d;
}
static bool pick(mc::Ch &c, dfm2::Cad2_Ui &ui, const dfm2::CCad2D &cad, Model &m, P p, double h) {
  const double thr = h * 0.05, band = 0.02 * h;
  ui.Pick(p.x, p.y, h, cad);
  auto nearb = [&](double d) { if (std::fabs(d - thr) < band) throw mc::Skip{}; return d < thr; };
  if (m.pe != UINT_MAX && m.e[m.pe].type == C) {
    const ME &e = m.e[m.pe];
    P q0 = m.v[e.v0] + P{e.par[0], e.par[1]}, q1 = m.v[e.v1] + P{e.par[2], e.par[3]};
    if (nearb(len(p - q0))) { m.elem = 1; goto done; }
    if (nearb(len(p - q1))) { m.elem = 2; goto done; }
  }
  m.elem = 0;
  m.pv = m.pe = UINT_MAX;
  for (U v = 0; v < m.v.size(); v++) if (nearb(len(p - m.v[v]))) { m.pv = v; goto done; }
  for (U e = 0; e < m.e.size(); e++) {
    double hi = dist(m, e, p), lo = hi;
    if (m.e[e].type != L) { hi = 1e9; for (int i = 0; i <= 5; i++) hi = std::min(hi, len(p - at(m, e, i / 5.))); }  // the search starts from samples and only improves on them
    if (lo < thr + band && hi > thr - band) throw mc::Skip{};
    if (hi < thr) { m.pe = e; goto done; }
  }
  done:
  MC_CHECK(c, ui.ivtx_picked == m.pv && ui.iedge_picked == m.pe && ui.iface_picked == UINT_MAX, "picking at %g,%g selects vertex %d edge %d, expected vertex %d edge %d", p.x, p.y, (int) ui.ivtx_picked, (int) ui.iedge_picked, (int) m.pv, (int) m.pe);
  if (m.pe != UINT_MAX) MC_CHECK(c, ui.ipicked_elem == m.elem, "picking at %g,%g selects handle %d of edge %u, expected %d", p.x, p.y, ui.ipicked_elem, m.pe, m.elem);
  if (m.pv != UINT_MAX) MC_CHECK(c, mc::near(ui.picked_pos[0], m.v[m.pv].x, 1e-5) && mc::near(ui.picked_pos[1], m.v[m.pv].y, 1e-5), "picked position is not the picked vertex");
  return m.pv != UINT_MAX || m.pe != UINT_MAX;
}
static P pickpt(const Model &m, U e) { return at(m, e, m.e[e].type == L ? 0.5 : 0.6); }
static void drag(dfm2::Cad2_Ui &ui, dfm2::CCad2D &cad, Model &m, P from, P to) {
  ui.DragPicked(cad, to.x, to.y, from.x, from.y);
  if (m.pv != UINT_MAX) { m.v[m.pv] = to; return; }
  if (m.pe == UINT_MAX) return;
  ME &e = m.e[m.pe];
  if (m.elem == 0) {
    m.v[e.v0] = m.v[e.v0] + (to - from);
    m.v[e.v1] = m.v[e.v1] + (to - from);
  } else if (m.elem == 1) { P d = to - m.v[e.v0]; e.par[0] = d.x; e.par[1] = d.y; }
  else { P d = to - m.v[e.v1]; e.par[2] = d.x; e.par[3] = d.y; }
}
static uint64_t key(const Model &m) {
  mc::Hash h;
  for (auto &v: m.v) h << v.x << v.y;
  for (auto &e: m.e) { h << e.v0 << e.v1 << e.type; h.vec(e.par); }
  for (auto &l: m.l) { h << l.iv; for (auto &e: l.e) h << e.first << e.second; }
  return h.h;
}
static void edits(mc::Ch &c) {
  int depth = c.thorough ? 4 : 3;
  static const auto S = shapes();
  dfm2::CCad2D cad;
  dfm2::Cad2_Ui ui;
  Model m;
  std::string log;
  int start = c.choose(3);  // 0: empty, 1: a curved shape, 2: two shapes
  if (start == 1) { add_face(cad, m, S[6], {0, 0}, false); log = "curved"; }
  if (start == 2) { add_face(cad, m, S[0], {0, 0}, true); add_face(cad, m, S[4], {3, 0}, false); log = "two"; }
  // choose the operations first; run them on the model to know their range
  std::vector<std::array<int, 3>> ops;
  struct Sim { U nv, ne, nf; } s{(U) m.v.size(), (U) m.e.size(), (U) m.f.size()};
  for (int d = 0; d < depth; d++) {
    int k = c.choose(d == 0 ? 6 : 7);  // 6: stop
    if (k == 6) break;
    int a = 0, b = 0;
    if (k == 0) { a = c.choose(3); U n = a == 0 ? 4 : 3; if (a == 1) n = 4; s.nv += n; s.ne += n; s.nf++; }
    else if (k == 1) { a = c.choose((int) s.nf + 1); if ((U) a < s.nf) s.nv++; }
    else if (k == 2) { a = c.choose((int) s.ne + 1); b = c.choose(2); if ((U) a < s.ne) { s.nv++; s.ne++; } }
    else if (k == 3) { if (!s.nv) c.skip(); a = c.choose((int) s.nv); }
    else if (k == 4) { if (!s.ne) c.skip(); a = c.choose((int) s.ne); }
    else { if (!s.ne) c.skip(); a = c.choose((int) s.ne); b = c.choose(2); }
    ops.push_back({k, a, b});
    char buf[64];
    snprintf(buf, 64, " %s(%d,%d)", k == 0 ? "AddShape" : k == 1 ? "AddVtxFace" : k == 2 ? "AddVtxEdge" : k == 3 ? "DragVertex" : k == 4 ? "DragEdge" : "DragHandle", a, b);
    log += buf;
  }
  c.commit();
  c.describe("%s", log.c_str());
  int n = 0;
  same(c, cad, m);
  for (auto &o: ops) {
    c.step(1);
    if (o[0] == 0) { static const int sh[3] = {0, 5, 1}; add_face(cad, m, S[sh[o[1]]], {n * 4. + 7, 1.}, o[1] != 1); }
    else if (o[0] == 1) add_vtx_face(cad, m, m.f.empty() || (U) o[1] >= m.f.size() ? P{0.5, 0.5} : m.v[m.l[m.f[o[1]][0]].e.empty() ? 0 : m.e[m.l[m.f[o[1]][0]].e[0].first].v0] + P{0.375 + 0.0625 * n, 0.3125}, (U) o[1]);
    else if (o[0] == 2) { P p = (U) o[1] < m.e.size() ? at(m, o[1], o[2] ? 0.25 : 0.5) + (o[2] ? P{0, 0.125} : P{0, 0}) : P{9, 9}; add_vtx_edge(cad, m, p, (U) o[1]); }
    else if (o[0] == 3) { P p = m.v[o[1]] + P{0.005, 0}; if (pick(c, ui, cad, m, p, 1)) drag(ui, cad, m, p, p + P{-0.25, 0.125}); }
    else if (o[0] == 4) { P p = pickpt(m, o[1]); if (pick(c, ui, cad, m, p, 1)) drag(ui, cad, m, p, p + P{0.125, 0.25}); }
    else {  // pick an edge, then its handle, drag the handle twice
      P p = pickpt(m, o[1]);
      pick(c, ui, cad, m, p, 1);
      if (m.pe != UINT_MAX && m.e[m.pe].type == C) {
        const ME &e = m.e[m.pe];
        P q = o[2] ? m.v[e.v1] + P{e.par[2], e.par[3]} : m.v[e.v0] + P{e.par[0], e.par[1]};
        pick(c, ui, cad, m, q, 1);
        drag(ui, cad, m, q, q + P{0.125, -0.125});
        same(c, cad, m);
        drag(ui, cad, m, q + P{0.125, -0.125}, q + P{0.25, 0.0625});
      } else if (m.pe != UINT_MAX && m.e[m.pe].type == Q) drag(ui, cad, m, p, p + P{0, 0.125});
    }
    n++;
    same(c, cad, m);
    c.state();
  }
  c.outcome(key(m));
}

// ---------- meshing
static double area2(const std::vector<P> &p) { double a = 0; for (size_t i = 0; i < p.size(); i++) a += cr(p[i], p[(i + 1) % p.size()]); return a; }
static double proper(const std::vector<std::vector<P>> &loops) {  // smallest distance between non-adjacent boundary segments (0: crossing)
  double best = 1e9;
  struct S { P a, b; size_t l, i, n; };
  std::vector<S> s;
  for (size_t l = 0; l < loops.size(); l++) for (size_t i = 0; i < loops[l].size(); i++) s.push_back({loops[l][i], loops[l][(i + 1) % loops[l].size()], l, i, loops[l].size()});
  auto pd = [](P p, P a, P b) { P d = b - a; double dd = d.x * d.x + d.y * d.y, t = ((p.x - a.x) * d.x + (p.y - a.y) * d.y) / dd; return len(p - (a + std::min(1., std::max(0., t)) * d)); };
  for (size_t i = 0; i < s.size(); i++) for (size_t j = i + 1; j < s.size(); j++) {
    if (s[i].l == s[j].l && (s[j].i == s[i].i + 1 || (s[i].i == 0 && s[j].i + 1 == s[i].n))) continue;
    double o1 = cr(s[i].b - s[i].a, s[j].a - s[i].a), o2 = cr(s[i].b - s[i].a, s[j].b - s[i].a), o3 = cr(s[j].b - s[j].a, s[i].a - s[j].a), o4 = cr(s[j].b - s[j].a, s[i].b - s[j].a);
    if (o1 * o2 < 0 && o3 * o4 < 0) return 0;
    best = std::min({best, pd(s[i].a, s[j].a, s[j].b), pd(s[i].b, s[j].a, s[j].b), pd(s[j].a, s[i].a, s[i].b), pd(s[j].b, s[i].a, s[i].b)});
  }
  return best;
}
static void check_mesh(mc::Ch &c, dfm2::CMesher_Cad2D &ms, const dfm2::CMeshDynTri2D &dm, const dfm2::CCad2D &cad, const Model &m, double el, const std::map<U, U> &ndiv) {
  const U nv = (U) m.v.size(), ne = (U) m.e.size(), nf = (U) m.f.size();
  const size_t np = dm.aVec2.size(), nt = dm.aETri.size();
  MC_CHECK(c, ms.nvtx == nv && ms.nedge == ne && ms.nface == nf, "the mesher recorded %zu vertices, %zu edges, %zu faces", ms.nvtx, ms.nedge, ms.nface);
  MC_CHECK(c, ms.aFlgPnt.size() == np && ms.aFlgTri.size() == nt && dm.aEPo.size() == np, "flag arrays have sizes %zu/%zu for %zu points and %zu triangles", ms.aFlgPnt.size(), ms.aFlgTri.size(), np, nt);
  for (U i = 0; i < nv; i++) MC_CHECK(c, ms.aFlgPnt[i] == i && eq(dm.aVec2[i], m.v[i]), "mesh point %u is not CAD vertex %u (flag %u)", i, i, ms.aFlgPnt[i]);
  // chains
  MC_CHECK(c, ms.edge_point.size() == ne, "edge_point has %zu entries for %u edges", ms.edge_point.size(), ne);
  std::vector<std::vector<U>> chain(ne);
  std::vector<int> used(np, 0);
  for (U e = 0; e < ne; e++) {
    size_t n = ms.edge_point[e].size() + 1;
    auto it = ndiv.find(e);
    if (el > 0 && it != ndiv.end()) MC_CHECK(c, n == it->second, "edge %u has %zu segments, asked for %u", e, n, it->second);
    else if (el > 0) {
      double r = arclen(m.v[m.e[e].v0], m.v[m.e[e].v1], m.e[e].type, m.e[e].par) / el;
      MC_CHECK(c, double(n) > r * 0.97 - 1e-6 && double(n) < r * 1.03 + 1 + 1e-6, "edge %u of %g edge lengths has %zu segments", e, r, n);
    }
    chain[e].push_back(m.e[e].v0);
    for (size_t k = 0; k + 1 < n; k++) {
      auto [ip, t] = ms.edge_point[e][k];
      MC_CHECK(c, ip < np && ip >= nv && !used[ip]++ && ms.aFlgPnt[ip] == nv + e, "point %u of the chain of edge %u is not flagged as its own", ip, e);
      MC_CHECK(c, mc::near(t, double(k + 1) / double(n), 1e-9), "chain point %zu of edge %u has parameter %g of %zu segments", k, e, t, n);
      MC_CHECK(c, eq(dm.aVec2[ip], at(m, e, double(k + 1) / double(n))), "chain point %zu of edge %u is not on the curve", k, e);
      chain[e].push_back(ip);
    }
    chain[e].push_back(m.e[e].v1);
    std::vector<U> in(chain[e].begin() + 1, chain[e].end() - 1);
    MC_CHECK(c, ms.IndPoint_IndEdge(e, false, cad) == in, "IndPoint_IndEdge(%u) is %s, expected %s", e, mc::str(ms.IndPoint_IndEdge(e, false, cad)).c_str(), mc::str(in).c_str());
    MC_CHECK(c, ms.IndPoint_IndEdge(e, true, cad) == chain[e], "IndPoint_IndEdge(%u) with end points is wrong", e);
  }
  MC_CHECK(c, ms.IndPoint_IndEdge(ne, true, cad).empty(), "IndPoint_IndEdge of an edge that does not exist returns points");
  U nbdry = nv;
  for (U e = 0; e < ne; e++) nbdry += (U) chain[e].size() - 2;
  for (U i = nbdry; i < np; i++) MC_CHECK(c, ms.aFlgPnt[i] >= nv + ne && ms.aFlgPnt[i] < nv + ne + nf, "interior point %u has flag %u", i, ms.aFlgPnt[i]);
  // triangles
  std::vector<double> fa(nf, 0);
  std::map<std::pair<U, U>, U> dir;
  std::vector<std::set<U>> pf(np);
  for (U t = 0; t < nt; t++) {
    MC_CHECK(c, ms.aFlgTri[t] < nf, "triangle %u has face flag %u", t, ms.aFlgTri[t]);
    P p[3];
    for (int k = 0; k < 3; k++) {
      U i = dm.aETri[t].v[k];
      MC_CHECK(c, i < np, "triangle %u has no point %u", t, i);
      p[k] = {dm.aVec2[i].x, dm.aVec2[i].y};
      pf[i].insert(ms.aFlgTri[t]);
      MC_CHECK(c, dir.insert({{i, dm.aETri[t].v[(k + 1) % 3]}, t}).second, "two triangles use the directed edge %u-%u", i, dm.aETri[t].v[(k + 1) % 3]);
    }
    double a = cr(p[1] - p[0], p[2] - p[0]) / 2;
    MC_CHECK(c, a > 1e-12, "triangle %u is not positively oriented (area %g)", t, a);
    fa[ms.aFlgTri[t]] += a;
  }
  for (U t = 0; t < nt; t++) for (int k = 0; k < 3; k++) {
    auto it = dir.find({dm.aETri[t].v[(k + 2) % 3], dm.aETri[t].v[(k + 1) % 3]});
    U nb = it == dir.end() ? UINT_MAX : it->second;
    MC_CHECK(c, dm.aETri[t].s2[k] == nb, "triangle %u does not know its neighbour %d", t, k);
    MC_CHECK(c, nb == UINT_MAX || ms.aFlgTri[nb] == ms.aFlgTri[t], "adjacent triangles of different faces");
  }
  for (U i = 0; i < np; i++) if (!pf[i].empty()) {
    MC_CHECK(c, dm.aEPo[i].e < nt && dm.aEPo[i].d < 3 && dm.aETri[dm.aEPo[i].e].v[dm.aEPo[i].d] == i, "point %u refers to a triangle that does not have it", i);
  }
  std::set<std::pair<U, U>> bd;
  for (U f = 0; f < nf; f++) {
    double a = 0;
    std::set<U> mine;
    for (U l: m.f[f]) {
      if (m.l[l].iv != UINT_MAX) { mine.insert(m.l[l].iv); MC_CHECK(c, pf[m.l[l].iv].count(f), "the vertex added in face %u is not in its mesh", f); }
      std::vector<P> q;
      for (auto &e: m.l[l].e) {
        auto ch = chain[e.first];
        if (!e.second) std::reverse(ch.begin(), ch.end());
        for (size_t k = 0; k + 1 < ch.size(); k++) {
          q.push_back({dm.aVec2[ch[k]].x, dm.aVec2[ch[k]].y});
          auto it = dir.find({ch[k], ch[k + 1]});
          MC_CHECK(c, it != dir.end() && ms.aFlgTri[it->second] == f, "segment %u-%u of edge %u is no edge of the mesh of face %u", ch[k], ch[k + 1], e.first, f);
          bd.insert({ch[k], ch[k + 1]});
          mine.insert(ch[k]);
        }
      }
      a += area2(q) / 2;
    }
    MC_CHECK(c, mc::near(fa[f], a, 1e-7), "face %u is meshed with area %.9g, the shape has %.9g", f, fa[f], a);
    for (U i = nbdry; i < np; i++) if (ms.aFlgPnt[i] == nv + ne + f) mine.insert(i);
    for (U i = 0; i < np; i++) MC_CHECK(c, !pf[i].count(f) || mine.count(i), "point %u (flag %u) is used by face %u", i, ms.aFlgPnt[i], f);
    std::vector<int> ex(mine.begin(), mine.end());
    MC_CHECK(c, ms.IndPoint_IndFaceArray({(int) f}, cad) == ex, "IndPoint_IndFaceArray(%u) is %s, expected %s", f, mc::str(ms.IndPoint_IndFaceArray({(int) f}, cad)).c_str(), mc::str(ex).c_str());
  }
  for (auto &d: dir) MC_CHECK(c, dir.count({d.first.second, d.first.first}) || bd.count(d.first), "edge %u-%u of the mesh is open", d.first.first, d.first.second);
  for (U i = nbdry; i < np; i++) MC_CHECK(c, pf[i] == std::set<U>{ms.aFlgPnt[i] - nv - ne}, "interior point %u is not in the mesh of its face", i);
  for (U e0 = 0; e0 < ne; e0++) {  // pairs of edges
    U e1 = (e0 + 2) % ne;
    std::set<U> s(chain[e0].begin(), chain[e0].end());
    s.insert(chain[e1].begin(), chain[e1].end());
    std::vector<U> ex(s.begin(), s.end());
    MC_CHECK(c, ms.IndPoint_IndEdgeArray({(int) e0, (int) e1}, cad) == ex, "IndPoint_IndEdgeArray(%u,%u) is %s, expected %s", e0, e1, mc::str(ms.IndPoint_IndEdgeArray({(int) e0, (int) e1}, cad)).c_str(), mc::str(ex).c_str());
  }
}
static void mesh(mc::Ch &c) {
  static const auto S = shapes();
  int a = c.choose((int) S.size());
  int second = c.choose(3);                       // other face: none, square, curved
  int add = c.choose(6);                          // vertices added
  double el = c.pick({-1., 0.1, 0.22, 0.3, 0.5, 0.8, 5.});
  int nd = c.choose(el > 0 ? 3 : 1);              // explicit divisions
  int reuse = c.choose(2);                        // mesher and mesh objects used before
  double sc = c.thorough ? c.pick({1., 3., 0.5}) : 1.;
  c.commit();
  c.describe("shape %d second %d added %d edge_length %g ndiv %d reused %d scale %g", a, second, add, el, nd, reuse, sc);
  dfm2::CCad2D cad;
  Model m;
  auto scaled = [&](Shape s) { for (auto &v: s.v) v = sc * v; for (auto &p: s.par) for (auto &x: p) x *= sc; return s; };
  add_face(cad, m, scaled(S[a]), {0, 0}, a < 3);
  if (second) add_face(cad, m, scaled(S[second == 1 ? 0 : 5]), {4 * sc, 0.5}, false);
  if (add == 1 || add == 4 || add == 5) add_vtx_face(cad, m, sc * P{0.4375, 0.4375}, 0);
  if (add == 2 || add == 4 || add == 5) { P p = 0.5 * (m.v[m.e[0].v0] + m.v[m.e[0].v1]); if (m.e[0].type == L) add_vtx_edge(cad, m, p, 0); }
  if (add == 3 || add == 5) add_vtx_face(cad, m, sc * P{0.5625, 0.28125}, 0);
  if (add == 5) { U e = 1; if (m.e[e].type == L) add_vtx_edge(cad, m, at(m, e, 0.25) + sc * P{0.0625, 0.03125}, e); }
  same(c, cad, m);
  std::map<U, U> ndiv;
  if (nd == 1) ndiv[0] = 4;
  if (nd == 2) for (U e = 0; e < m.e.size(); e++) ndiv[e] = 1 + (e * 2) % 5;
  dfm2::CMesher_Cad2D ms;
  dfm2::CMeshDynTri2D dm;
  if (reuse) {
    dfm2::CCad2D o;
    Model om;
    add_face(o, om, S[2], {0, 0}, true);
    ms.edge_length = 0.3;
    ms.Meshing(dm, o);
  }
  ms.edge_length = el > 0 ? el * sc : el;
  ms.mapIdEd_NDiv = ndiv;
  // the discretised boundary must not touch itself (curves with very few points may)
  ms.Meshing(dm, cad);
  check_mesh(c, ms, dm, cad, m, ms.edge_length, ndiv);
  c.outcome(mc::Hash() << a << second << add << dm.aVec2.size() << dm.aETri.size());
}
// faces with a hole (loops put together by hand, as the data structure allows)
static void holes(mc::Ch &c) {
  double x = c.pick({0.25, 0.5, 1.}), y = c.pick({0.25, 0.75, 1.25}), w = c.pick({0.25, 0.5}), h = c.pick({0.25, 0.5});
  int tri = c.choose(2), pt = c.choose(2);
  double el = c.pick({-1., 0.15, 0.4, 5.});
  c.commit();
  c.describe("hole %g,%g %gx%g %s point %d edge_length %g", x, y, w, h, tri ? "triangle" : "box", pt, el);
  dfm2::CCad2D cad;
  Model m;
  Shape o{{{0, 0}, {2, 0}, {2, 2}, {0, 2}}, {L, L, Q, L}, {{}, {}, {-1, 0.25}, {}}};
  Shape in{{{x, y}, {x, y + h}, {x + w, y + h}, {x + w, y}}, {L, L, L, L}, {{}, {}, {}, {}}};
  if (tri) in = {{{x, y}, {x, y + h}, {x + w, y}}, {L, L, L}, {{}, {}, {}}};
  add_face(cad, m, o, {0, 0}, false);
  add_face(cad, m, in, {0, 0}, true);
  for (int k = 0; k < 1; k++) { cad.topo.faces.pop_back(); m.f.pop_back(); cad.topo.faces[0].aIL.push_back(1); m.f[0].push_back(1); }
  if (pt) add_vtx_face(cad, m, {1.75, 0.125}, 0);
  same(c, cad, m);
  dfm2::CMesher_Cad2D ms;
  dfm2::CMeshDynTri2D dm;
  ms.edge_length = el;
  ms.Meshing(dm, cad);
  check_mesh(c, ms, dm, cad, m, el, {});
  c.outcome(mc::Hash() << x << y << dm.aETri.size());
}

// ---------- loops of edges
static std::vector<EG> loop_of(const Shape &s, P off) {
  std::vector<EG> r;
  for (size_t i = 0; i < s.v.size(); i++) r.push_back(mk(s.v[i] + off, s.v[(i + 1) % s.v.size()] + off, s.type[i], s.par[i]));
  return r;
}
static P at(const EG &e, double t) { return bez({e.p0.x, e.p0.y}, {e.p1.x, e.p1.y}, e.type_edge, e.param, t); }
static double area_of(const std::vector<EG> &l) {
  double a = 0;
  const int N = 3000;
  for (auto &e: l) for (int i = 0; i < N; i++) a += cr(at(e, i / double(N)), at(e, (i + 1) / double(N))) / 2;
  return a;
}
static void loops(mc::Ch &c) {
  static const auto S = shapes();
  int a = c.choose((int) S.size());
  P off = c.pick({P{0, 0}, P{-0.5, -0.25}, P{3, -2}});
  int inv = c.choose(2);
  int tr = c.choose(4);
  int zero = c.choose((int) S[a].v.size() + 1);
  c.commit();
  c.describe("loop of shape %d at %g,%g inverted %d transform %d zero-length edge %d", a, off.x, off.y, inv, tr, zero);
  auto l = loop_of(S[a], off);
  double A[4][4] = {{1, 0, 0, 1}, {2, 0, 0, -2}, {0, -1, 1, 0}, {1, 0.5, 0, 3}};
  double det = A[tr][0] * A[tr][3] - A[tr][1] * A[tr][2];
  double a0 = area_of(l);
  MC_CHECK(c, mc::near(dfm2::AreaLoop(l), a0, 2e-6, 2e-6), "AreaLoop is %.9g, the loop encloses %.9g", dfm2::AreaLoop(l), a0);
  if (inv) {
    auto r = dfm2::InvertLoop(l);
    MC_CHECK(c, r.size() == l.size(), "InvertLoop changes the number of edges");
    for (size_t i = 0; i < l.size(); i++) {
      const EG &e = r[l.size() - 1 - i];
      MC_CHECK(c, e.type_edge == l[i].type_edge, "InvertLoop changes the type of edge %zu", i);
      for (int k = 0; k <= 4; k++) MC_CHECK(c, len(at(e, k / 4.) - at(l[i], 1 - k / 4.)) < 1e-9, "InvertLoop changes the curve of edge %zu", i);
    }
    l = r;
    a0 = -a0;
  }
  auto t = l;
  for (size_t i = 0; i < l.size(); i++) {
    t[i].Transform(A[tr]);
    for (int k = 0; k <= 4; k++) {
      P p = at(l[i], k / 4.), q{A[tr][0] * p.x + A[tr][1] * p.y, A[tr][2] * p.x + A[tr][3] * p.y};
      MC_CHECK(c, len(at(t[i], k / 4.) - q) < 1e-9, "Transform moves edge %zu to the wrong place", i);
    }
    if (l[i].type_edge == L) MC_CHECK(c, mc::near(t[i].ArcLength(), len(at(t[i], 1) - at(t[i], 0)), 1e-9), "ArcLength of a line is wrong");
    else {
      double s = arclen({t[i].p0.x, t[i].p0.y}, {t[i].p1.x, t[i].p1.y}, t[i].type_edge, t[i].param);
      MC_CHECK(c, mc::near(t[i].ArcLength(), s, 0.03), "ArcLength of edge %zu is %g, expected %g", i, t[i].ArcLength(), s);
    }
    for (P p: {P{0.25, 0.5}, P{1.25, 1.25}, P{-0.5, 0.25}}) {  // distance to a line is exact
      if (t[i].type_edge != L) continue;
      Model m; m.v = {at(t[i], 0), at(t[i], 1)}; m.e = {{0, 1, L, {}}};
      MC_CHECK(c, mc::near(t[i].Distance(p.x, p.y), dist(m, 0, p), 1e-9), "Distance to edge %zu is wrong", i);
    }
  }
  MC_CHECK(c, mc::near(dfm2::AreaLoop(t), a0 * det, 1e-5, 1e-5), "AreaLoop after the transform is %g, expected %g", dfm2::AreaLoop(t), a0 * det);
  if (zero) {
    auto z = l;
    P p = at(l[zero - 1], 0);
    z.insert(z.begin() + zero - 1, mk(p, p, L, {}));
    auto r = dfm2::RemoveEdgeWithZeroLength(z);
    MC_CHECK(c, r.size() == l.size(), "RemoveEdgeWithZeroLength leaves %zu edges of %zu", r.size(), l.size());
    for (size_t i = 0; i < r.size(); i++) for (int k = 0; k <= 4; k++) MC_CHECK(c, r[i].type_edge == l[i].type_edge && len(at(r[i], k / 4.) - at(l[i], k / 4.)) < 1e-12, "RemoveEdgeWithZeroLength changes edge %zu", i);
  }
  c.outcome(mc::Hash() << a0 << tr << zero);
}

// ---------- SVG
struct SvgRun { std::vector<EG> e; P cur{0, 0}; };
static void line_to(SvgRun &r, P p) { r.e.push_back(mk(r.cur, p, L, {})); r.cur = p; }
static void cubic_to(SvgRun &r, P a, P b, P p) { P d0 = a - r.cur, d1 = b - p; r.e.push_back(mk(r.cur, p, C, {d0.x, d0.y, d1.x, d1.y})); r.cur = p; }
static void quad_to(SvgRun &r, P a, P p) { P d = a - r.cur; r.e.push_back(mk(r.cur, p, Q, {d.x, d.y})); r.cur = p; }
// numbers joined with one of the separators the format allows
static std::string nums(const VD &v, int sep, bool first_glued) {
  std::string s;
  for (size_t i = 0; i < v.size(); i++) {
    char b[32];
    snprintf(b, 32, "%g", v[i]);
    bool neg = b[0] == '-';
    if (i == 0) { if (!first_glued && sep == 1) s += " "; }
    else if (neg && sep != 1) ;            // a minus sign separates
    else s += sep == 0 ? "," : sep == 1 ? " " : sep == 3 && i % 2 == 0 ? "\n" : ",";
    s += b;
  }
  return s;
}
static void svg(mc::Ch &c) {
  int ncmd = 1 + c.choose(c.thorough ? 3 : 2);
  std::vector<int> cmd;
  for (int i = 0; i < ncmd; i++) cmd.push_back(c.choose(15));
  int sep = c.choose(4);
  int close = c.choose(3);                        // z, Z, or return to the start explicitly
  int rel0 = c.choose(2);
  int tag = c.choose(3);
  double scale = c.pick({1., 0.5});
  c.commit();
  SvgRun r;
  P st{1, 2};
  r.cur = st;
  std::string d = rel0 ? "m" : "M";
  d += nums({st.x, st.y}, sep, true);
  P d1{3, -0.5}, d2{2.5, 1.5}, d3{-1.25, 2};
  for (int i = 0; i < ncmd; i++) {
    P k = (i % 2 ? -1. : 1.) * (i == 2 ? P{1, 0.5} : P{0, 0});
    P a = d1 + k, b = d2 + k, e = d3 + k;
    if (i % 2) { a = P{-2, 0.25}; b = P{-1.5, 2.25}; e = P{-0.75, 1.75}; }
    P o = r.cur;
    bool prevcubic = i > 0 && (cmd[i - 1] == 4 || cmd[i - 1] == 5 || cmd[i - 1] == 6 || cmd[i - 1] == 13 || cmd[i - 1] == 14);
    auto w = [&](const char *l, VD v) { if (l[0] == 0 && d.back() != 'x') { if (sep == 1 || v[0] >= 0) d += " "; d += nums(v, sep, true); } else { d += l; d += nums(v, sep, false); } };
    switch (cmd[i]) {
      case 0: w("l", {a.x, a.y}); line_to(r, o + a); break;
      case 1: w("L", {a.x, a.y}); line_to(r, a); break;
      case 2: w("l", {a.x, a.y, b.x, b.y}); line_to(r, o + a); line_to(r, o + a + b); break;
      case 3: w("L", {a.x, a.y, b.x, b.y}); line_to(r, a); line_to(r, b); break;
      case 4: w("c", {a.x, a.y, b.x, b.y, e.x, e.y}); cubic_to(r, o + a, o + b, o + e); break;
      case 5: w("C", {a.x, a.y, b.x, b.y, e.x, e.y}); cubic_to(r, a, b, e); break;
      case 6: {
        P ref = o;
        if (prevcubic) { const EG &p = r.e.back(); ref = 2 * o - (P{p.p1.x, p.p1.y} + P{p.param[2], p.param[3]}); }
        w("S", {b.x, b.y, e.x, e.y});
        cubic_to(r, ref, b, e);
        break;
      }
      case 7: w("v", {b.y}); line_to(r, o + P{0, b.y}); break;
      case 8: w("V", {-3.5}); line_to(r, {o.x, -3.5}); break;
      case 9: w("h", {b.x}); line_to(r, o + P{b.x, 0}); break;
      case 10: w("H", {-2.75}); line_to(r, {-2.75, o.y}); break;
      case 11: w("q", {a.x, a.y, e.x, e.y}); quad_to(r, o + a, o + e); break;
      case 12: w("Q", {a.x, a.y, e.x, e.y}); quad_to(r, a, e); break;
      case 13: w("c", {a.x, a.y, b.x, b.y, e.x, e.y, 1, 0.5, -1, 2, 0.25, 3}); cubic_to(r, o + a, o + b, o + e); o = r.cur; cubic_to(r, o + P{1, 0.5}, o + P{-1, 2}, o + P{0.25, 3}); break;
      case 14: w("C", {a.x, a.y, b.x, b.y, e.x, e.y, 1, 0.5, -1, 2, 0.25, 3}); cubic_to(r, a, b, e); cubic_to(r, {1, 0.5}, {-1, 2}, {0.25, 3}); break;
    }
  }
  if (close == 2) {
    if (len(r.cur - st) > 1e-9) { d += "L"; d += nums({st.x, st.y}, sep, false); line_to(r, st); }
    d += "z";
  } else {
    if (len(r.cur - st) > 1e-9) line_to(r, st);
    d += close == 0 ? "z" : "Z";
  }
  std::string f = "<svg id=\"a\">";
  if (tag == 0) f += "<path d=\"" + d + "\"/>";
  else if (tag == 1) f += "<path class=\"c 1\" d=\"" + d + "\" transform=\"t(1 2)\"/>";
  else f += "<title>t</title><path id=\"p\"  d=\"" + d + "\" />";
  f += "</svg>";
  c.describe("%s scale %g", f.c_str(), scale);
  char fn[64];
  snprintf(fn, 64, "mc_c18_%d.svg", (int) getpid());
  std::string path = std::string(getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp") + "/" + fn;
  { std::ofstream o(path); o << f; }
  std::vector<std::vector<EG>> ee(2);
  dfm2::ReadSVG_LoopEdgeCCad2D(ee, path);
  dfm2::CCad2D cad;
  if (ee.size() == 1) { add_face(cad, *std::make_unique<Model>(), shapes()[0], {0, 0}, true); dfm2::ReadSVG_Cad2D(cad, path, scale); }
  unlink(path.c_str());
  MC_CHECK(c, ee.size() == 1, "%zu loops read from one path", ee.size());
  auto &g = ee[0];
  MC_CHECK(c, g.size() == r.e.size(), "%zu edges read, the path has %zu", g.size(), r.e.size());
  for (size_t i = 0; i < g.size(); i++) {
    MC_CHECK(c, g[i].type_edge == r.e[i].type_edge, "edge %zu has type %d, expected %d", i, (int) g[i].type_edge, (int) r.e[i].type_edge);
    for (int k = 0; k <= 6; k++) {
      P p = at(g[i], k / 6.), q = at(r.e[i], k / 6.);
      MC_CHECK(c, len(p - q) < 1e-9, "edge %zu passes %g,%g, expected %g,%g", i, p.x, p.y, q.x, q.y);
    }
  }
  // the shape: flipped vertically, scaled, counter-clockwise, no empty edges
  double ar = -scale * scale * area_of(r.e);
  MC_CHECK(c, cad.topo.faces.size() == 1, "ReadSVG_Cad2D makes %zu faces", cad.topo.faces.size());
  std::vector<EG> x;
  for (auto &e: r.e) {
    double s = arclen({e.p0.x, e.p0.y}, {e.p1.x, e.p1.y}, e.type_edge, e.param);
    if (s > 1e-6) x.push_back(e); else if (s > 1e-14) return;
  }
  MC_CHECK(c, cad.nEdge() == x.size() && cad.nVtx() == x.size(), "ReadSVG_Cad2D makes %zu edges, expected %zu", cad.nEdge(), x.size());
  if (std::fabs(ar) > 1e-3) {
    bool inv = ar < 0;
    for (size_t i = 0; i < x.size(); i++) {
      size_t j = inv ? x.size() - 1 - i : i;
      for (int k = 0; k <= 6; k++) {
        P q = at(x[j], inv ? 1 - k / 6. : k / 6.), p = at(cad.aEdge[i], k / 6.);
        MC_CHECK(c, len(p - P{scale * q.x, -scale * q.y}) < 1e-9, "edge %zu of the shape passes %g,%g, expected %g,%g", i, p.x, p.y, scale * q.x, -scale * q.y);
      }
      MC_CHECK(c, len(P{cad.aVtx[i].pos.x, cad.aVtx[i].pos.y} - at(cad.aEdge[i], 0)) < 1e-9, "vertex %zu is not at the start of edge %zu", i, i);
    }
  }
  c.outcome(mc::Hash() << d << scale);
}
static void svg_polygon(mc::Ch &c) {
  int np = 1 + c.choose(2);
  std::vector<std::vector<P>> poly;
  std::string f = "<svg>";
  int sep = c.choose(3), path = c.choose(2);
  for (int k = 0; k < np; k++) {
    int n = 3 + c.choose(3), cw = c.choose(2);
    std::vector<P> p;
    for (int i = 0; i < n; i++) { int j = cw ? n - 1 - i : i; p.push_back({std::round(8 * std::cos(2 * M_PI * j / n)) / 2 + k * 10, std::round(8 * std::sin(2 * M_PI * j / n)) / 2 - 1.25}); }
    poly.push_back(p);
    f += "<polygon points=\"";
    for (int i = 0; i < n; i++) {
      char b[64];
      snprintf(b, 64, sep == 0 ? "%g,%g" : sep == 1 ? "%g %g" : "%g, %g", p[i].x, p[i].y);
      f += b;
      if (i + 1 < n || sep == 1) f += " ";
    }
    f += "\"/>";
  }
  if (path) f += "<path d=\"M0,0L1,0L1,1z\"/>";
  f += "</svg>";
  c.commit();
  c.describe("%s", f.c_str());
  char fn[64];
  snprintf(fn, 64, "mc_c18p_%d.svg", (int) getpid());
  std::string pth = std::string(getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp") + "/" + fn;
  { std::ofstream o(pth); o << f; }
  std::vector<std::vector<EG>> ee;
  dfm2::ReadSVG_LoopEdgeCCad2D(ee, pth);
  unlink(pth.c_str());
  MC_CHECK(c, ee.size() == poly.size() + (size_t) path, "%zu loops read, expected %zu", ee.size(), poly.size() + path);
  for (size_t k = 0; k < poly.size(); k++) {
    auto &l = ee[k + path];
    auto &p = poly[k];
    MC_CHECK(c, l.size() == p.size(), "polygon %zu has %zu edges, expected %zu", k, l.size(), p.size());
    for (size_t i = 0; i < p.size(); i++) MC_CHECK(c, l[i].type_edge == L && len(at(l[i], 0) - p[i]) < 1e-9 && len(at(l[i], 1) - p[(i + 1) % p.size()]) < 1e-9, "edge %zu of polygon %zu is wrong", i, k);
  }
  c.outcome(mc::Hash() << f);
}

int main(int argc, char **argv) {
  std::cout.rdbuf(nullptr);
  std::cerr.rdbuf(nullptr);
  return mc::run(argc, argv,
                 mc::Config{"C18", "model_checking", {"edges of a loop are directed as the loop (all public edits make such loops; splitting an edge used backwards is not implemented)", "the bounding box is that of the edges' end points, as documented by the code", "pick points whose distance is within 40% of the pick radius are not judged"}},
                 {{"edits", edits, "all sequences of up to 3 (thorough 4) edits from an empty, a curved and a two-face shape: add polygon / curved face, vertex in a face, vertex on an edge (also on faces and edges that do not exist), pick and drag every vertex, edge and handle; compared with a reference boundary model after every edit"},
                  {"mesh", mesh, "7 shapes (straight, quadratic, cubic) x second face x added vertices x 7 edge lengths x explicit divisions x fresh or reused mesher: triangles, areas, chains, flags, look-ups"},
                  {"holes", holes, "a face with a hole of every position and size of the alphabet x edge lengths"},
                  {"loops", loops, "edge loops of the 7 shapes: area, inversion, linear transforms, lengths, removal of zero-length edges"},
                  {"svg", svg, "all paths of up to 2 (thorough 3) commands out of 15 x separators x closing x tag layout, against an independent interpreter, and the shape made from them"},
                  {"svg_polygon", svg_polygon, "polygon elements: sizes, orientation, separators, number of elements"}});
}
