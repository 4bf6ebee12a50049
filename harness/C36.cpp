// C36: orientation fields and garments.
#include "mc.h"
#include <cmath>
#include <iostream>
#include <algorithm>
#include "delfem2/4rotsym.h"
#include "delfem2/msh_topology_uniform.h"
#include "delfem2/garment.h"

namespace dfm2 = delfem2;
using U = unsigned;
using VD = std::vector<double>;
using VU = std::vector<U>;
typedef std::array<double, 3> P;
static P operator+(P a, P b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
static P operator-(P a, P b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static P operator*(double s, P a) { return {s * a[0], s * a[1], s * a[2]}; }
static double dot(P a, P b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static P cross(P a, P b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static double len(P a) { return std::sqrt(dot(a, a)); }
static P unit(P a) { return (1 / len(a)) * a; }
static P rot(P ax, double t, P v) { ax = unit(ax); return std::cos(t) * v + std::sin(t) * cross(ax, v) + (1 - std::cos(t)) * dot(ax, v) * ax; }
static dfm2::CVec3d v3(P a) { return {a[0], a[1], a[2]}; }
static P p3(const dfm2::CVec3d &v) { return {v.x, v.y, v.z}; }
static const P AX[7] = {{0, 0, 1}, {1, 0, 0}, {0, 1, 0}, {1, 1, 0}, {1, -2, .5}, {-1, 1, 1}, {0, -.2, 1}};

// ---------- orientation fields
// the nearest pair of representatives; the gap tells how clear the choice is
static P nearest(P o0, P n0, P o1, P n1, double w, double *gap, int *diff = nullptr) {
  const P a[2] = {o0, cross(n0, o0)}, q = cross(n1, o1), b[4] = {o1, q, -1 * o1, -1 * q};
  double m = -9, s = -9;
  int bi = 0, bj = 0;
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 4; ++j) {
    const double d = dot(a[i], b[j]);
    if (d > m) { s = m; m = d; bi = i; bj = j; } else s = std::max(s, d);
  }
  // in one plane the pairs (o,o') and (p,p') are the same choice
  P r = w * a[bi] + b[bj];
  r = r - dot(r, n0) * n0;
  *gap = std::min(m - s, len(r));
  r = unit(r);
  if (bi == 1) r = cross(r, n0);
  if (diff) *diff = (bi + 4 - bj) % 4;
  return r;
}
static P tangent(P n, double t) {
  P x = unit(cross(n, std::fabs(n[0]) < .6 ? P{1, 0, 0} : P{0, 1, 0})), y = cross(n, x);
  return std::cos(t) * x + std::sin(t) * y;
}
static void pairwise(mc::Ch &c) {
  const P n0 = unit(AX[c.choose(7)]), n1 = unit(AX[c.choose(7)]);
  const double t0 = c.choose(8) * .4 + .05, t1 = c.choose(8) * .83 + .11, w = c.pick({0., 1., 3.});
  c.commit();
  c.describe("normals (%g %g %g) (%g %g %g) angles %g %g weight %g", n0[0], n0[1], n0[2], n1[0], n1[1], n1[2], t0, t1, w);
  const P o0 = tangent(n0, t0), o1 = tangent(n1, t1);
  U diff = 99;
  const P r = p3(dfm2::FindNearestOrientation(diff, v3(o0), v3(n0), v3(o1), v3(n1), w));
  double gap = 0;
  int ed = 0;
  const P e = nearest(o0, n0, o1, n1, w, &gap, &ed);
  if (len(n0 - n1) < 1e-9) {
    // in one plane: the rotation by multiples of a right angle that comes nearest, in whichever way it is found
    double d = std::fmod(t1 - t0, M_PI / 2);
    if (d > M_PI / 4) d -= M_PI / 2;
    if (d < -M_PI / 4) d += M_PI / 2;
    if (std::fabs(std::fabs(d) - M_PI / 4) < 1e-6) { c.tick(); return; }
    const P x = tangent(n0, t0), y = tangent(n0, t0 + d), z = unit(w * x + y);
    MC_CHECK(c, len(r - z) < 1e-9, "in one plane: (%g %g %g), expected (%g %g %g)", r[0], r[1], r[2], z[0], z[1], z[2]);
    const P back = tangent(n0, t0 + diff * M_PI / 2);
    MC_CHECK(c, diff < 4 && dot(back, o1) > .7, "difference %u", diff);
  } else if (gap > 1e-6) {
    MC_CHECK(c, len(r - e) < 1e-9 && (int) diff == ed, "(%g %g %g) difference %u, expected (%g %g %g) difference %d", r[0], r[1], r[2], diff, e[0], e[1], e[2], ed);
  }
  if (gap > 1e-6 || len(n0 - n1) < 1e-9) MC_CHECK(c, mc::near(len(r), 1, 1e-9) && std::fabs(dot(r, n0)) < 1e-9, "the direction is not a unit tangent");
  c.outcome_of(diff, r[0]);
}
struct Field { VU ind, adj; VD nrm, dir; };
static const std::vector<std::vector<std::pair<int, int>>> GR = {{{0, 1}}, {{0, 1}, {1, 2}}, {{0, 1}, {1, 2}, {2, 0}}, {{0, 1}, {0, 2}, {0, 3}}, {{0, 1}, {1, 2}, {2, 3}, {3, 0}}};
static const int GN[5] = {2, 3, 3, 4, 4};
static void graph(int g, VU &ind, VU &adj) {
  ind.assign(1, 0);
  adj.clear();
  for (int i = 0; i < GN[g]; ++i) {
    for (auto &e : GR[g]) { if (e.first == i) adj.push_back(e.second); if (e.second == i) adj.push_back(e.first); }
    ind.push_back((U) adj.size());
  }
}
// one sweep over the points in the given order, with the neighbours in the given orders
static bool sweep(VD &d, const VD &n, const VU &ind, const VU &adj, const VU &order, const std::vector<VU> &nb, double w0) {
  auto at = [](const VD &v, U i) { return P{v[3 * i], v[3 * i + 1], v[3 * i + 2]}; };
  for (U ip : order) {
    P o = at(d, ip);
    double w = w0;
    for (U j : nb[ip]) {
      double gap;
      const U jp = adj[ind[ip] + j];
      o = nearest(o, at(n, ip), at(d, jp), at(n, jp), w, &gap);
      if (gap < 1e-6) return false;
      w += 1;
    }
    for (int k = 0; k < 3; ++k) d[3 * ip + k] = o[k];
  }
  return true;
}
static void smooth(mc::Ch &c) {
  const int g = c.choose(5), nf = c.choose(4), rep = 1 + c.choose(2);
  int a[4] = {0, 0, 0, 0};
  for (int i = 0; i < GN[g]; ++i) a[i] = c.choose(5);
  c.commit();
  c.describe("graph %d normals %d angles %d %d %d %d sweeps %d", g, nf, a[0], a[1], a[2], a[3], rep);
  VU ind, adj;
  graph(g, ind, adj);
  VD n, d;
  for (int i = 0; i < GN[g]; ++i) {
    const P m = unit(nf == 0 ? P{.1 * i, .07, 1} : nf == 1 ? P{.5, .25 * i, 1} : nf == 2 ? P{.3 * (i % 2), .2 * i - .3, -1} : P{1, .21 * i * i, .4 * i}), o = tangent(m, a[i] * .617 + .02 * i);
    for (int k = 0; k < 3; ++k) { n.push_back(m[k]); d.push_back(o[k]); }
  }
  VD r = d, e = d;
  VU ord;
  std::vector<VU> nb(GN[g]);
  for (int i = 0; i < GN[g]; ++i) { ord.push_back(i); for (U j = 0; j < ind[i + 1] - ind[i]; ++j) nb[i].push_back(j); }
  bool ok = true;
  for (int s = 0; s < rep; ++s) {
    dfm2::Smooth4RotSym(r, n, ind, adj);
    ok = ok && sweep(e, n, ind, adj, ord, nb, 0);
    c.step(1);
  }
  if (ok) for (size_t i = 0; i < r.size(); ++i) MC_CHECK(c, mc::near(r[i], e[i], 1e-9), "direction %s expected %s", mc::str(r).c_str(), mc::str(e).c_str());
  // in random order: one of the orders it says it used, over the neighbours in some order
  if (rep == 1) {
    VD q = d;
    VU perm;
    for (int i = 0; i < GN[g]; ++i) perm.push_back((i + 1) % GN[g]);
    dfm2::Smooth4RotSym_RandomPermutation(q, perm, n, ind, adj);
    VU sp = perm;
    std::sort(sp.begin(), sp.end());
    MC_CHECK(c, sp == ord, "the order is not a permutation: %s", mc::str(perm).c_str());
    bool found = false, all = true;
    std::function<void(int)> go = [&](int i) {
      if (found) return;
      if (i == GN[g]) {
        VD t = d;
        if (!sweep(t, n, ind, adj, perm, nb, 0)) { all = false; return; }
        bool same = true;
        for (size_t k = 0; k < t.size(); ++k) same &= mc::near(t[k], q[k], 1e-9);
        found |= same;
        return;
      }
      std::sort(nb[i].begin(), nb[i].end());
      do go(i + 1); while (!found && std::next_permutation(nb[i].begin(), nb[i].end()));
    };
    go(0);
    if (all) MC_CHECK(c, found, "no order of the neighbours leads to %s from %s", mc::str(q).c_str(), mc::str(d).c_str());
  }
  c.outcome_of(g, r[0], r[1]);
}
// planar fields
static void planar(mc::Ch &c) {
  const int g = c.choose(5), uni = c.choose(2), rep = 1 + c.choose(2);
  int a[4] = {0, 0, 0, 0};
  for (int i = 0; i < GN[g]; ++i) a[i] = c.choose(uni ? 4 : 6);
  const double base = uni ? .3 * c.choose(3) + .1 : 0;
  c.commit();
  c.describe("graph %d uniform %d angles %d %d %d %d base %g sweeps %d", g, uni, a[0], a[1], a[2], a[3], base, rep);
  VU ind, adj;
  graph(g, ind, adj);
  VD t, d;
  for (int i = 0; i < GN[g]; ++i) { t.push_back(uni ? base + a[i] * M_PI / 2 : a[i] * .53 + .017 * i); d.push_back(std::cos(t[i])); d.push_back(std::sin(t[i])); }
  VD r = d;
  bool ok = true;
  for (int s = 0; s < rep; ++s) {
    dfm2::Smooth4RotSym2(r.data(), (U) GN[g], ind.data(), adj.data());
    // angles: every point turns towards the average with each neighbour in turn
    for (int i = 0; i < GN[g]; ++i) {
      double w = 1;
      for (U j = ind[i]; j < ind[i + 1]; ++j) {
        double dd = std::remainder(t[adj[j]] - t[i], M_PI / 2);
        if (std::fabs(std::fabs(dd) - M_PI / 4) < 1e-6) ok = false;
        t[i] += std::atan2(std::sin(dd), w + std::cos(dd));
        w += 1;
      }
    }
    c.step(1);
  }
  for (int i = 0; i < GN[g]; ++i) {
    MC_CHECK(c, mc::near(std::hypot(r[2 * i], r[2 * i + 1]), 1, 1e-9), "direction %d is not of unit length", i);
    if (uni) MC_CHECK(c, mc::near(r[2 * i], d[2 * i], 1e-9) && mc::near(r[2 * i + 1], d[2 * i + 1], 1e-9), "a uniform field changes at %d", i);
    else if (ok) MC_CHECK(c, mc::near(r[2 * i], std::cos(t[i]), 1e-9) && mc::near(r[2 * i + 1], std::sin(t[i]), 1e-9), "direction %d is (%g %g), expected the angle %g", i, r[2 * i], r[2 * i + 1], t[i]);
  }
  c.outcome_of(g, r[0]);
}

// ---------- garments
static void place(dfm2::CRigidTrans_2DTo3D &rt, P ax, double t, P o3, double ox, double oy, double curv) {
  for (int j = 0; j < 3; ++j) { P e{0, 0, 0}; e[j] = 1; P r = rot(ax, t, e); for (int i = 0; i < 3; ++i) rt.R.p_[i * 3 + j] = r[i]; }
  rt.org2 = dfm2::CVec2d(ox, oy);
  rt.org3 = v3(o3);
  rt.radinv_x = curv;
}
static P placed(P ax, double t, P o3, double ox, double oy, double curv, double x, double y) {
  x -= ox; y -= oy;
  P q{x, y, 0};
  if (std::fabs(curv) > 1e-9) q = {std::sin(curv * x) / curv, y, -(1 - std::cos(curv * x)) / curv};
  return rot(ax, t, q) + o3;
}
static void panel(mc::Ch &c) {
  const P ax = AX[c.choose(7)];
  const double t = c.choose(5) * .7 - 1.1, curv = c.pick({0., 1., -1., .25, -2.5, 3.}), ox = c.pick({0., .5}), oy = c.pick({0., -1.25});
  const P o3 = c.flip() ? P{1, -2, 3} : P{0, 0, 0};
  c.commit();
  c.describe("axis (%g %g %g) turn %g curvature %g origin (%g %g)", ax[0], ax[1], ax[2], t, curv, ox, oy);
  dfm2::CRigidTrans_2DTo3D rt;
  const P id = p3(rt.Transform(dfm2::CVec2d(.25, -3)));
  MC_CHECK(c, len(id - P{.25, -3, 0}) < 1e-12, "the initial placement is not the identity");
  place(rt, ax, t, o3, ox, oy, curv);
  for (int i = -3; i <= 3; ++i) for (int j = -2; j <= 2; ++j) {
    const double x = i * .375, y = j * .5;
    const P q = p3(rt.Transform(dfm2::CVec2d(x, y))), e = placed(ax, t, o3, ox, oy, curv, x, y);
    MC_CHECK(c, len(q - e) < 1e-6, "(%g %g) is placed at (%g %g %g), expected (%g %g %g)", x, y, q[0], q[1], q[2], e[0], e[1], e[2]);
    // no stretch
    const double h = 1e-3;
    const P dx = (1 / (2 * h)) * (p3(rt.Transform(dfm2::CVec2d(x + h, y))) - p3(rt.Transform(dfm2::CVec2d(x - h, y)))), dy = (1 / (2 * h)) * (p3(rt.Transform(dfm2::CVec2d(x, y + h))) - p3(rt.Transform(dfm2::CVec2d(x, y - h))));
    MC_CHECK(c, mc::near(len(dx), 1, 1e-4) && mc::near(len(dy), 1, 1e-4) && std::fabs(dot(dx, dy)) < 1e-4, "the panel is stretched at (%g %g)", x, y);
  }
  c.outcome_of(curv, t);
}
// two panels that are sewn together
static void pattern(mc::Ch &c) {
  const double w = c.pick({1., .6, 1.7}), h = c.pick({1., 1.4}), el = c.pick({.35, .6, .21, 3.});
  const int seams = c.choose(6), curv = c.choose(3), off = c.choose(2), again = c.choose(2);
  c.commit();
  c.describe("panels %gx%g, edge length %g, seams %d curvature %d offset %d again %d", w, h, el, seams, curv, off, again);
  dfm2::CCad2D cad;
  const double X = 3 + off * .5;
  cad.AddPolygon({0, 0, w, 0, w, h, 0, h});
  cad.AddPolygon({X, 0, X + w, .2 * off, X + w, h, X, h});
  static const VU SE[6] = {{}, {1, 7}, {3, 5}, {1, 7, 3, 5}, {0, 4, 1, 7}, {2, 6}};
  std::vector<dfm2::CRigidTrans_2DTo3D> rt(2);
  const double K = curv == 0 ? 0 : curv == 1 ? .5 : -1;
  place(rt[0], AX[2], .4, {0, 0, .5}, w / 2, h / 2, K);
  place(rt[1], AX[4], 1.9, {.25, -1, -.5}, X + w / 2, h / 2, -K);
  dfm2::CMesher_Cad2D ms;
  std::vector<dfm2::CDynTri> et;
  std::vector<dfm2::CVec2d> v2;
  VD xyz(again ? 30 : 0, 7.);
  VU line;
  if (again) { VU l0; dfm2::MeshingPattern(et, v2, xyz, l0, ms, rt, cad, SE[(seams + 1) % 6], .9); ms.mapIdEd_NDiv.clear(); }
  dfm2::MeshingPattern(et, v2, xyz, line, ms, rt, cad, SE[seams], el);
  MC_CHECK(c, xyz.size() == v2.size() * 3 && !et.empty(), "%zu coordinates for %zu points", xyz.size(), v2.size());
  for (size_t i = 0; i < v2.size(); ++i) {
    const int f = v2[i].x > (w + X) / 2;
    const P e = f ? placed(AX[4], 1.9, {.25, -1, -.5}, X + w / 2, h / 2, -K, v2[i].x, v2[i].y) : placed(AX[2], .4, {0, 0, .5}, w / 2, h / 2, K, v2[i].x, v2[i].y);
    MC_CHECK(c, len(P{xyz[3 * i], xyz[3 * i + 1], xyz[3 * i + 2]} - e) < 1e-6, "point %zu at (%g %g) is placed at (%g %g %g), expected (%g %g %g)", i, v2[i].x, v2[i].y, xyz[3 * i], xyz[3 * i + 1], xyz[3 * i + 2], e[0], e[1], e[2]);
  }
  // seams: the ends of one edge with the ends of the other, in opposite directions, at equal shares
  const P V[8] = {{0, 0, 0}, {w, 0, 0}, {w, h, 0}, {0, h, 0}, {X, 0, 0}, {X + w, .2 * off, 0}, {X + w, h, 0}, {X, h, 0}};
  size_t k = 0;
  for (size_t s = 0; s < SE[seams].size(); s += 2) {
    const U e0 = SE[seams][s], e1 = SE[seams][s + 1];
    auto ends = [&](U e) { return std::make_pair(V[e], V[e / 4 * 4 + (e + 1) % 4]); };
    const double l = .5 * (len(ends(e0).first - ends(e0).second) + len(ends(e1).first - ends(e1).second));
    if (std::fabs(l / el - std::round(l / el)) < 1e-9) { c.tick(); return; }
    const int n = (int) (l / el + 1);
    MC_CHECK(c, line.size() >= k + 2 * (n + 1), "seam %u-%u has %zu pairs, expected %d", e0, e1, (line.size() - k) / 2, n + 1);
    for (int i = 0; i <= n; ++i, k += 2) {
      const double r = (double) i / n;
      const P a = (1 - r) * ends(e0).first + r * ends(e0).second, b = r * ends(e1).first + (1 - r) * ends(e1).second;
      MC_CHECK(c, line[k] < v2.size() && line[k + 1] < v2.size(), "seam points %u %u", line[k], line[k + 1]);
      auto &p = v2[line[k]], &q = v2[line[k + 1]];
      MC_CHECK(c, len(P{p.x, p.y, 0} - a) < 1e-9 && len(P{q.x, q.y, 0} - b) < 1e-9, "seam %u-%u joins (%g %g) to (%g %g), expected (%g %g) to (%g %g)", e0, e1, p.x, p.y, q.x, q.y, a[0], a[1], b[0], b[1]);
    }
  }
  MC_CHECK(c, k == line.size(), "%zu seam points, expected %zu", line.size(), k);
  c.outcome_of(v2.size(), et.size());
}
static const double BOX[8][3] = {{-1, -1, -1}, {1, -1, -1}, {1, 1, -1}, {-1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {1, 1, 1}, {-1, 1, 1}};
static const VU BT{0, 2, 1, 0, 3, 2, 4, 5, 6, 4, 6, 7, 0, 1, 5, 0, 5, 4, 2, 3, 7, 2, 7, 6, 0, 4, 7, 0, 7, 3, 1, 2, 6, 1, 6, 5};
// where a point of the box body has to go; false if a corner or an edge decides
static bool pushed(P p, double cc, P &e) {
  double m = -9, s = -9;
  int k = 0;
  for (int i = 0; i < 3; ++i) { const double a = std::fabs(p[i]); if (a > m) { s = m; m = a; k = i; } else s = std::max(s, a); }
  e = p;
  if (m > 1 + cc + 1e-7) return true;        // clear of the body
  if (m > 1 - 1e-9 && m < 1 + cc + 1e-7) return false;
  if (m - s < .05) return false;
  e[k] = (p[k] > 0 ? 1 : -1) * (1 + cc);
  return true;
}
// the same points over several steps: inside to the clearance, outside left alone, whatever was found before
static void projector(mc::Ch &c) {
  const int n = c.thorough ? 3 : 2;
  const int rig = c.choose(2), turn = rig ? c.choose(4) : 0;
  int pos[3][2], pose[3] = {0, 0, 0};
  for (int s = 0; s < n; ++s) { for (auto &k : pos[s]) k = c.choose(7); if (rig) pose[s] = c.choose(3); }
  c.commit();
  c.describe("%s body, turn %d, points %d %d then %d %d, poses %d %d", rig ? "rigged" : "fixed", turn, pos[0][0], pos[0][1], pos[1][0], pos[1][1], pose[0], pose[1]);
  static const P PT[7] = {{.9, .1, .2}, {1.4, .1, .2}, {-.1, -.93, .3}, {.3, .2, 1.05}, {.15, .25, .97}, {3, 3, 3}, {-1.02, .4, -.3}};
  static const P TR[3] = {{0, 0, 0}, {.5, 0, 0}, {0, -.25, .12}};
  VD body;
  for (auto &b : BOX) for (double x : b) body.push_back(x);
  dfm2::CProjectorMesh pm;
  dfm2::CProjector_RigMesh pr;
  const P ax = AX[4];
  const double ang = turn * .6;
  if (!rig) {
    pm.aXYZ_Body = body;
    pm.aTri_Body = BT;
    pm.Init();
  } else {
    pr.aXYZ0_Body = body;
    pr.aTri_Body = BT;
    pr.aBone.resize(2);
    pr.aBone[1].ibone_parent = 0;
    for (int i = 0; i < 8; ++i) { pr.aSkinningSparseWeight.push_back(1); pr.aSkinningSparseWeight.push_back(0); pr.aSkinningSparseIdBone.push_back(i % 2 ? 1 : 0); pr.aSkinningSparseIdBone.push_back(0); }
  }
  for (int s = 0; s < n; ++s) {
    P o{0, 0, 0};
    double a = 0;
    if (rig) {
      o = TR[pose[s]];
      a = s == 0 ? ang : ang * .5;
      P u = unit(ax);
      for (int k = 0; k < 3; ++k) { pr.aBone[0].transRelative[k] = o[k]; pr.aBone[0].quatRelativeRot[k] = std::sin(a / 2) * u[k]; }
      pr.aBone[0].quatRelativeRot[3] = std::cos(a / 2);
      pr.UpdatePose(s == 0);
      for (int i = 0; i < 8; ++i) {
        const P e = rot(ax, a, {BOX[i][0], BOX[i][1], BOX[i][2]}) + o;
        MC_CHECK(c, len(P{pr.aXYZ1_Body[3 * i], pr.aXYZ1_Body[3 * i + 1], pr.aXYZ1_Body[3 * i + 2]} - e) < 1e-9, "vertex %d of the posed body", i);
      }
    }
    VD x;
    P loc[2];
    for (int k = 0; k < 2; ++k) {
      loc[k] = PT[pos[s][k]];
      // points are given in space: the same place may be inside after the body has moved
      const P q = loc[k];
      for (int j = 0; j < 3; ++j) x.push_back(q[j]);
      loc[k] = rot(ax, -a, q - o);
    }
    if (rig) pr.Project(x.data(), 2); else pm.Project(x.data(), 2);
    for (int k = 0; k < 2; ++k) {
      P e;
      if (!pushed(loc[k], .001, e)) continue;
      const P g = rot(ax, a, e) + o;
      MC_CHECK(c, len(P{x[3 * k], x[3 * k + 1], x[3 * k + 2]} - g) < 1e-7, "step %d: point %d goes to (%g %g %g), expected (%g %g %g)", s, k, x[3 * k], x[3 * k + 1], x[3 * k + 2], g[0], g[1], g[2]);
    }
    c.step(1);
  }
  c.outcome_of(rig, pos[0][0], pos[1][0]);
}
// the step of the cloth: the stages in order on the same positions
struct Recorder {
  VD seen, give;
  int calls = 0;
  void Project(double *x, unsigned n) {
    calls++;
    seen.assign(x, x + 3 * n);
    if (!give.empty()) std::copy(give.begin(), give.end(), x);
  }
};
static void step(mc::Ch &c) {
  const int def = c.choose(4), bc = c.choose(4), sew = c.choose(3), proj = c.choose(2), steps = 1 + c.choose(2);
  const double dt = c.pick({.5, .125}), g = c.pick({0., -2.}), bend = c.pick({0., .5, 1.});
  c.commit();
  c.describe("deformation %d fixed %d seams %d projector %d steps %d dt %g gravity %g bending %g", def, bc, sew, proj, steps, dt, g, bend);
  const VU tri{0, 1, 2, 0, 2, 3, 1, 4, 2};
  std::vector<dfm2::CVec2d> v2{{0, 0}, {1, 0}, {1, 1}, {0, 1}, {2, .5}};
  std::vector<dfm2::CDynTri> et(3);
  {
    std::vector<dfm2::CDynPntSur> pn(5);
    dfm2::InitializeMesh(pn, et, tri.data(), tri.size() / 3, v2.size());
  }
  VD xyz, uvw, xt(def == 1 ? 0 : 9, 3.);
  for (int i = 0; i < 5; ++i) {
    P q{v2[i].x, v2[i].y, 0};
    if (def == 1) q = rot(AX[4], .8, q) + P{1, 2, 3};
    if (def == 2) { q = 1.25 * q; q[2] = .1 * i; }
    if (def == 3) q[2] = .3 * (i % 2);
    for (int k = 0; k < 3; ++k) { xyz.push_back(q[k]); uvw.push_back(.25 * (k + 1) * (bc == 3 ? 1 + i % 2 : 1)); }
  }
  std::vector<int> fix(5, 0);
  if (bc == 1) fix[0] = 1;
  if (bc == 2) fix[3] = fix[4] = 2;
  VU line;
  if (sew >= 1) line = {3, 4};
  if (sew == 2) { line.push_back(0); line.push_back(4); }
  const double gr[3] = {0, .5 * g, g};
  Recorder rec;
  for (int s = 0; s < steps; ++s) {
    const VD x0 = xyz, u0 = uvw;
    rec.calls = 0;
    rec.give.clear();
    if (proj) for (int i = 0; i < 15; ++i) rec.give.push_back(.5 * i + s);
    dfm2::StepTime_PbdClothSim(xyz, xt, uvw, fix, et, v2, line, rec, dt, gr, bend);
    VD e;
    dfm2::PBD_Pre3D(e, dt, gr, x0, u0, fix);
    const VD pre = e;
    for (int i = 0; i < 5; ++i) for (int k = 0; k < 3; ++k) MC_CHECK(c, mc::near(pre[3 * i + k], x0[3 * i + k] + (fix[i] ? 0 : dt * u0[3 * i + k] + dt * dt * gr[k]), 1e-12), "prediction");
    dfm2::PBD_TriStrain(e.data(), 5, et, v2);
    dfm2::PBD_Bend(e.data(), 5, et, v2, bend);
    dfm2::PBD_Seam(e.data(), 5, line.data(), line.size() / 2);
    MC_CHECK(c, rec.calls == 1 && rec.seen.size() == 15, "%d projections of %zu coordinates", rec.calls, rec.seen.size());
    for (int i = 0; i < 15; ++i) MC_CHECK(c, mc::near(rec.seen[i], e[i], 1e-9), "coordinate %d before the projection is %g, expected %g", i, rec.seen[i], e[i]);
    if (proj) e = rec.give;
    for (int i = 0; i < 15; ++i) {
      const double x = fix[i / 3] ? x0[i] : e[i], u = fix[i / 3] ? u0[i] : (e[i] - x0[i]) / dt;
      MC_CHECK(c, mc::near(xyz[i], x, 1e-9), "coordinate %d is %g, expected %g", i, xyz[i], x);
      MC_CHECK(c, mc::near(uvw[i], u, 1e-8), "velocity %d is %g, expected %g", i, uvw[i], u);
    }
    // a cloth at rest falls as a whole
    if (def < 2 && bc == 0 && sew == 0 && !proj) for (int i = 0; i < 15; ++i) MC_CHECK(c, mc::near(xyz[i], x0[i] + dt * u0[i] + dt * dt * gr[i % 3], 1e-7), "a cloth at rest does not fall freely");
    c.step(1);
  }
  c.outcome_of(def, xyz[0], xyz[5]);
}

int main(int argc, char **argv) {
  std::cout.rdbuf(nullptr);
  return mc::run(argc, argv, {"C36", "exploration", {"IEEE double precision", "directions half way between two representatives are not judged", "points that a corner or an edge of the body decides are not judged"}},
                 {{"pairwise", pairwise, "all pairs of tangent planes, directions and weights of the alphabet: the nearest representatives are averaged"},
                  {"smooth", smooth, "all directions on small graphs of curved surfaces: one and two sweeps; in random order, one of the orders"},
                  {"planar", planar, "all directions on small planar graphs: sweeps against angles, uniform fields stay"},
                  {"panel", panel, "all placements of the alphabet: rotated, translated, bent without stretch"},
                  {"pattern", pattern, "all pairs of panels, seams and sizes of the alphabet: every point placed, seams joined end to end"},
                  {"projector", projector, "all sequences of two (thorough three) projections of two points, fixed and posed bodies"},
                  {"step", step, "all deformations, fixed points, seams and parameters of the alphabet: the stages of one and two steps"}});
}
