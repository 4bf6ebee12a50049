// C11: nearest-point, distance and intersection primitives against closed forms of our own.
#include "mc.h"
#include <iostream>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/vec3_funcs.h"
#include "delfem2/geo_edge.h"
#include "delfem2/geo_line.h"
#include "delfem2/geo_plane.h"
#include "delfem2/geo_tri.h"
#include "delfem2/geo_quad.h"
#include "delfem2/geo_tet.h"
#include "delfem2/geo_aabb.h"
#include "delfem2/geo_polyline.h"
#include "delfem2/geo_polygon2.h"
namespace dfm2 = delfem2;
using U = unsigned int;
using VU = std::vector<U>;
using VD = std::vector<double>;
using V3 = dfm2::CVec3d;
using V3f = dfm2::CVec3f;
using V2 = dfm2::CVec2d;
using V2f = dfm2::CVec2f;
static const double PI = 3.14159265358979323846;

// ---------- geometry of our own
struct P3 { double x, y, z; };
static P3 operator-(P3 a, P3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static P3 operator+(P3 a, P3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static P3 operator*(double s, P3 a) { return {s * a.x, s * a.y, s * a.z}; }
static double dot(P3 a, P3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static P3 cross(P3 a, P3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static double len(P3 a) { return std::sqrt(dot(a, a)); }
static double clamp01(double t) { return std::min(1., std::max(0., t)); }
static double seg_dist(P3 p, P3 a, P3 b) {
  P3 d = b - a;
  double dd = dot(d, d), t = dd > 0 ? clamp01(dot(p - a, d) / dd) : 0;
  return len(p - (a + t * d));
}
static double tri_dist(P3 p, P3 a, P3 b, P3 c) {
  double m = std::min(seg_dist(p, a, b), std::min(seg_dist(p, b, c), seg_dist(p, c, a)));
  P3 n = cross(b - a, c - a);
  double nn = dot(n, n);
  if (nn < 1e-20) return m;
  double h = dot(p - a, n) / nn;
  P3 q = p - h * n;
  if (dot(cross(b - a, q - a), n) >= 0 && dot(cross(c - b, q - b), n) >= 0 && dot(cross(a - c, q - c), n) >= 0) m = std::min(m, std::fabs(h) * std::sqrt(nn));
  return m;
}
static double vol6(P3 a, P3 b, P3 c, P3 d) { return dot(cross(b - a, c - a), d - a); }
static V3 v3(P3 p) { return V3(p.x, p.y, p.z); }
static V3f v3f(P3 p) { return V3f((float) p.x, (float) p.y, (float) p.z); }
static V2 v2(P3 p) { return V2(p.x, p.y); }
static V2f v2f(P3 p) { return V2f((float) p.x, (float) p.y); }
template<class A> static P3 p3(const A &a) { return {(double) a[0], (double) a[1], (double) a[2]}; }
static P3 p3(const V2 &a) { return {a[0], a[1], 0}; }
static P3 p3(const V2f &a) { return {a[0], a[1], 0}; }
static P3 p3(const V3 &a) { return {a[0], a[1], a[2]}; }
static P3 p3(const V3f &a) { return {a[0], a[1], a[2]}; }
#define F3 "(%g,%g,%g)"
#define A3(p) (p).x, (p).y, (p).z

static P3 grid3(int k, int n, double s = 1, double o = 0) { return {o + s * (k % n), o + s * (k / n % n), o + s * (k / n / n)}; }
static P3 grid2(int k, int n, double s = 1, double o = 0) { return {o + s * (k % n), o + s * (k / n), 0}; }
// scales keep every coordinate and every product exactly representable
static const double SC[3] = {1, 1. / 1024, 16};

static bool close(P3 a, P3 b, double tol) { return len(a - b) <= tol; }

// ---------- 1. a point and an edge
template<class VEC>
static void edge_point(mc::Ch &c, P3 s, P3 e, P3 p, VEC S, VEC E, VEC Pt, double sc, const char *nm) {
  using R = typename VEC::Scalar;
  double tol = (sizeof(R) == 4 ? 2e-6 : 1e-12) * sc * 4;
  double d = seg_dist(p, s, e);
  R t = -7;
  P3 q = p3(dfm2::Nearest_Edge_Point(t, Pt, S, E));
  MC_CHECK(c, t >= 0 && t <= 1, "%s: parameter %g of the point " F3 " on the edge " F3 "-" F3 " is not in [0,1]", nm, (double) t, A3(p), A3(s), A3(e));
  MC_CHECK(c, close(q, s + (double) t * (e - s), tol), "%s: the nearest point of " F3 " on " F3 "-" F3 " is " F3 ", which is not at the parameter %g", nm, A3(p), A3(s), A3(e), A3(q), (double) t);
  MC_CHECK(c, mc::near(len(q - p), d, 1e-12, tol), "%s: nearest point of " F3 " on " F3 "-" F3 " at %.9g, should be %.9g", nm, A3(p), A3(s), A3(e), len(q - p), d);
  q = p3(dfm2::Nearest_Edge_Point(Pt, S, E));
  MC_CHECK(c, mc::near(len(q - p), d, 1e-12, tol), "%s: nearest point of " F3 " on " F3 "-" F3 " (no parameter) at %.9g, should be %.9g", nm, A3(p), A3(s), A3(e), len(q - p), d);
  MC_CHECK(c, mc::near((double) dfm2::Distance_Edge_Point(Pt, S, E), d, 1e-12, tol), "%s: distance of " F3 " to " F3 "-" F3 " is %.9g, should be %.9g", nm, A3(p), A3(s), A3(e), (double) dfm2::Distance_Edge_Point(Pt, S, E), d);
  VEC So = S - Pt, Eo = E - Pt;
  R r = -7;
  P3 o = p3(dfm2::Nearest_Origin_Edge(r, So, Eo));
  MC_CHECK(c, r >= 0 && r <= 1 && mc::near(len(o), d, 1e-12, tol) && close(o, (s - p) + (double) r * (e - s), tol), "%s: nearest point of the origin on " F3 "-" F3 " is " F3 " with parameter %g, distance should be %g", nm, A3(s - p), A3(e - p), A3(o), (double) r, d);
  o = p3(dfm2::Nearest_Origin_Edge(So, Eo));
  MC_CHECK(c, mc::near(len(o), d, 1e-12, tol), "%s: nearest point of the origin on " F3 "-" F3 " (no parameter) at %g, should be %g", nm, A3(s - p), A3(e - p), len(o), d);
}
static void edge_body(mc::Ch &c) {
  bool three = c.flip();
  double sc = SC[c.choose(3)];
  int is = c.choose(three ? 27 : 9), ie = c.choose(three ? 27 : 9);
  c.commit();
  P3 s = three ? grid3(is, 3, sc) : grid2(is, 3, sc), e = three ? grid3(ie, 3, sc) : grid2(ie, 3, sc);
  c.describe("edge " F3 "-" F3 " %s", A3(s), A3(e), three ? "3D" : "2D");
  int n = 5;
  for (int k = 0; k < (three ? n * n * n : n * n); k++) {
    c.step(1);
    P3 p = three ? grid3(k, n, sc, -sc) : grid2(k, n, sc, -sc);
    if (three) {
      edge_point<V3>(c, s, e, p, v3(s), v3(e), v3(p), sc, "CVec3d");
      edge_point<V3f>(c, s, e, p, v3f(s), v3f(e), v3f(p), sc, "CVec3f");
      double q[3] = {9, 9, 9}, P[3] = {A3(p)}, S[3] = {A3(s)}, E[3] = {A3(e)};
      dfm2::Nearest_Edge3_Point3(q, P, S, E);
      double d = seg_dist(p, s, e);
      P3 Q{q[0], q[1], q[2]};
      MC_CHECK(c, mc::near(len(Q - p), d, 1e-12) && seg_dist(Q, s, e) < 1e-12 * sc, "Nearest_Edge3_Point3 of " F3 " on " F3 "-" F3 " is " F3 ", distance %.9g should be %.9g", A3(p), A3(s), A3(e), A3(Q), len(Q - p), d);
    } else {
      edge_point<V2>(c, s, e, p, v2(s), v2(e), v2(p), sc, "CVec2d");
      edge_point<V2f>(c, s, e, p, v2f(s), v2f(e), v2f(p), sc, "CVec2f");
    }
  }
  c.outcome_of(is, ie, three);
}

// ---------- 2. two edges in the plane, an edge and a box
static int orient(P3 a, P3 b, P3 q) {
  double v = (b.x - a.x) * (q.y - a.y) - (b.y - a.y) * (q.x - a.x);
  return v > 0 ? 1 : v < 0 ? -1 : 0;
}
static bool on_seg(P3 a, P3 b, P3 q) {
  return orient(a, b, q) == 0 && q.x >= std::min(a.x, b.x) && q.x <= std::max(a.x, b.x) && q.y >= std::min(a.y, b.y) && q.y <= std::max(a.y, b.y);
}
static bool segs_meet(P3 a, P3 b, P3 p, P3 q) {
  if (on_seg(a, b, p) || on_seg(a, b, q) || on_seg(p, q, a) || on_seg(p, q, b)) return true;
  return orient(a, b, p) * orient(a, b, q) < 0 && orient(p, q, a) * orient(p, q, b) < 0;
}
static void edges2_body(mc::Ch &c) {
  double sc = SC[c.choose(3)];
  int n = c.thorough ? 5 : 4;
  int a0 = c.choose(n * n), a1 = c.choose(n * n);
  c.commit();
  P3 s0 = grid2(a0, n, sc, -sc), e0 = grid2(a1, n, sc, -sc);
  c.describe("edges of the plane, the first " F3 "-" F3, A3(s0), A3(e0));
  uint64_t cnt = 0;
  for (int i = 0; i < n * n; i++)
    for (int j = 0; j < n * n; j++) {
      c.step(1);
      P3 s1 = grid2(i, n, sc, -sc), e1 = grid2(j, n, sc, -sc);
      bool m = segs_meet(s0, e0, s1, e1);
      cnt += m;
      bool r = dfm2::IsIntersect_Edge2_Edge2(v2(s0), v2(e0), v2(s1), v2(e1));
      MC_CHECK(c, r == m, "edges (%g,%g)-(%g,%g) and (%g,%g)-(%g,%g) %s, reported %s", s0.x, s0.y, e0.x, e0.y, s1.x, s1.y, e1.x, e1.y, m ? "meet" : "do not meet", r ? "intersecting" : "disjoint");
      r = dfm2::IsIntersect_Edge2_Edge2(v2f(s0), v2f(e0), v2f(s1), v2f(e1));
      MC_CHECK(c, r == m, "float edges (%g,%g)-(%g,%g) and (%g,%g)-(%g,%g) %s, reported %s", s0.x, s0.y, e0.x, e0.y, s1.x, s1.y, e1.x, e1.y, m ? "meet" : "do not meet", r ? "intersecting" : "disjoint");
      double d = dfm2::Distance_Edge2_Edge2(v2(s0), v2(e0), v2(s1), v2(e1));
      double w = m ? -1 : std::min(std::min(seg_dist(s0, s1, e1), seg_dist(e0, s1, e1)), std::min(seg_dist(s1, s0, e0), seg_dist(e1, s0, e0)));
      MC_CHECK(c, mc::near(d, w, 1e-12), "distance of the edges (%g,%g)-(%g,%g) and (%g,%g)-(%g,%g) is %.9g, should be %.9g", s0.x, s0.y, e0.x, e0.y, s1.x, s1.y, e1.x, e1.y, d, w);
    }
  c.outcome(cnt);
}
static void aabb2_body(mc::Ch &c) {
  double sc = SC[c.choose(3)];
  int x0 = c.choose(3), x1 = x0 + c.choose(3), y0 = c.choose(3), y1 = y0 + c.choose(3);
  c.commit();
  P3 lo{sc * x0, sc * y0, 0}, hi{sc * x1, sc * y1, 0};
  c.describe("box [%g,%g]x[%g,%g] and edges", lo.x, hi.x, lo.y, hi.y);
  int n = c.thorough ? 7 : 6;
  for (int i = 0; i < n * n; i++)
    for (int j = 0; j < n * n; j++) {
      c.step(1);
      P3 s = grid2(i, n, sc, -sc), e = grid2(j, n, sc, -sc);
      P3 k[4] = {lo, {hi.x, lo.y, 0}, hi, {lo.x, hi.y, 0}};
      bool m = s.x >= lo.x && s.x <= hi.x && s.y >= lo.y && s.y <= hi.y;
      for (int q = 0; q < 4; q++) m = m || segs_meet(s, e, k[q], k[(q + 1) % 4]);
      MC_CHECK(c, dfm2::IsIntersect_AABB2_Edge2(v2(lo), v2(hi), v2(s), v2(e)) == m, "edge (%g,%g)-(%g,%g) and box [%g,%g]x[%g,%g]: they %s", s.x, s.y, e.x, e.y, lo.x, hi.x, lo.y, hi.y, m ? "meet" : "do not meet");
      MC_CHECK(c, dfm2::IsIntersect_AABB2_Edge2(v2f(lo), v2f(hi), v2f(s), v2f(e)) == m, "float edge (%g,%g)-(%g,%g) and box [%g,%g]x[%g,%g]: they %s", s.x, s.y, e.x, e.y, lo.x, hi.x, lo.y, hi.y, m ? "meet" : "do not meet");
    }
  c.outcome_of(x0, x1, y0, y1);
}

// ---------- 3. edges and lines in space
static double line_line(P3 a, P3 u, P3 b, P3 v) {
  P3 n = cross(u, v);
  if (dot(n, n) == 0) { P3 w = cross(b - a, u); return len(w) / len(u); }
  return std::fabs(dot(b - a, n)) / len(n);
}
static double line_point(P3 p, P3 a, P3 u) { return len(cross(p - a, u)) / len(u); }
static double seg_line(P3 s, P3 e, P3 o, P3 u) {
  // distance to the line is a convex quadratic along the segment
  auto perp = [&](P3 p) { return p - (dot(p, u) / dot(u, u)) * u; };
  P3 a = perp(s - o), d = perp(e - s);
  double dd = dot(d, d), t = dd > 1e-12 * dot(e - s, e - s) ? clamp01(-dot(a, d) / dd) : 0;
  return len(a + t * d);
}
static const P3 DIRS[10] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 1, 0}, {0, 1, 1}, {1, 0, -1}, {1, 1, 1}, {1, -1, 2}, {2, 1, 0}, {-1, 0, 0}};
template<class VEC, class R>
static void line_pair(mc::Ch &c, P3 a, P3 u, P3 b, P3 v, VEC A, VEC Uv, VEC B, VEC W, double tol, const char *nm) {
  R D, ta, tb;
  VEC da, db;
  dfm2::Nearest_Line3_Line3(D, da, db, ta, tb, A, Uv, B, W);
  double cc = dot(cross(u, v), cross(u, v)), L = line_line(a, u, b, v);
  MC_CHECK(c, mc::near((double) D, cc, tol), "%s: scale %g of the lines " F3 "+t" F3 " and " F3 "+t" F3 " should be %g", nm, (double) D, A3(a), A3(u), A3(b), A3(v), cc);
  R D2;
  VEC ea, eb;
  dfm2::Nearest_Line3_Line3(D2, ea, eb, A, Uv, B, W);
  MC_CHECK(c, mc::near((double) D2, cc, tol), "%s: scale %g (short form) should be %g", nm, (double) D2, cc);
  if (cc > 1e-20) {
    P3 pa = (1 / (double) D) * p3(da), pb = (1 / (double) D) * p3(db);
    MC_CHECK(c, mc::near(len(pa - pb), L, tol) && line_point(pa, a, u) < tol * 10 && line_point(pb, b, v) < tol * 10, "%s: nearest points " F3 " and " F3 " of the lines " F3 "+t" F3 " and " F3 "+t" F3 ": distance %.9g should be %.9g", nm, A3(pa), A3(pb), A3(a), A3(u), A3(b), A3(v), len(pa - pb), L);
    MC_CHECK(c, close(pa, a + ((double) ta / (double) D) * u, tol * 10) && close(pb, b + ((double) tb / (double) D) * v, tol * 10), "%s: parameters %g, %g of the nearest points do not match them", nm, (double) ta / (double) D, (double) tb / (double) D);
    P3 qa = (1 / (double) D2) * p3(ea), qb = (1 / (double) D2) * p3(eb);
    MC_CHECK(c, close(pa, qa, tol * 10) && close(pb, qb, tol * 10), "%s: the two forms of the nearest points of two lines differ", nm);
  }
}
static void lines_body(mc::Ch &c) {
  double sc = c.pick({1., 0.25, 1. / 1024});
  int iu = c.choose(10), iv = c.choose(10), ib = c.choose(27);
  c.commit();
  P3 u = sc * DIRS[iu], v = (sc < 0.1 ? sc : 1) * DIRS[iv], a{sc, 0, 0}, b = grid3(ib, 3, sc);
  c.describe("line " F3 "+t" F3 " and " F3 "+t" F3, A3(a), A3(u), A3(b), A3(v));
  line_pair<V3, double>(c, a, u, b, v, v3(a), v3(u), v3(b), v3(v), 1e-12, "CVec3d");
  line_pair<V3f, float>(c, a, u, b, v, v3f(a), v3f(u), v3f(b), v3f(v), 2e-5, "CVec3f");
  for (int k = 0; k < 27; k++) {
    c.step(1);
    P3 p = grid3(k, 3, sc, -sc);
    double w = line_point(p, b, v);
    P3 q = p3(dfm2::Nearest_Line3_Point3<V3>(v3(p), v3(b), v3(v)));
    MC_CHECK(c, mc::near(len(q - p), w, 1e-12) && line_point(q, b, v) < 1e-12, "nearest point " F3 " of " F3 " on the line " F3 "+t" F3 ": distance %.9g should be %.9g", A3(q), A3(p), A3(b), A3(v), len(q - p), w);
    double t = 99;
    P3 q2 = p3(dfm2::Nearest_Line3_Point3(t, v3(p), v3(b), v3(v)));
    MC_CHECK(c, close(q, q2, 1e-12) && close(q2, b + t * v, 1e-12), "nearest point " F3 " on the line does not match its parameter %g", A3(q2), t);
    double s = dfm2::FindNearestPointParameter_Line_Point(v3(p), v3(b), v3(b + v));
    MC_CHECK(c, mc::near(s, t, 1e-12), "parameter %g of the nearest point should be %g", s, t);
    // an edge and a line
    P3 e = grid3(k, 3, sc, sc * 0.5);
    V3 ns, nl;
    dfm2::Nearest_Edge3_Line3(ns, nl, v3(a), v3(e), v3(b), v3(v));
    double W = seg_line(a, e, b, v);
    MC_CHECK(c, mc::near(len(p3(ns) - p3(nl)), W, 1e-10) && seg_dist(p3(ns), a, e) < 1e-10 && line_point(p3(nl), b, v) < 1e-10, "nearest points " F3 " of the edge " F3 "-" F3 " and " F3 " of the line " F3 "+t" F3 ": distance %.9g should be %.9g", A3(p3(ns)), A3(a), A3(e), A3(p3(nl)), A3(b), A3(v), len(p3(ns) - p3(nl)), W);
  }
  c.outcome_of(iu, iv, ib);
}
static void edges3_body(mc::Ch &c) {
  double sc = c.pick({1., 0.25, 1. / 1048576});
  int a0 = c.choose(27), a1 = c.choose(27);
  if (a0 == a1) c.skip();
  c.commit();
  P3 p0 = grid3(a0, 3, sc), p1 = grid3(a1, 3, sc);
  c.describe("edges of space, the first " F3 "-" F3, A3(p0), A3(p1));
  uint64_t cnt = 0;
  for (int i = 0; i < 27; i++)
    for (int j = 0; j < 27; j++) {
      if (i == j) continue;
      c.step(1);
      P3 q0 = grid3(i, 3, sc), q1 = grid3(j, 3, sc);
      P3 u = p1 - p0, v = q1 - q0;
      double rp = 99, rq = 99, d = dfm2::Distance_Edge3_Edge3(v3(p0), v3(p1), v3(q0), v3(q1), rp, rq);
      double L = line_line(p0, u, q0, v);
      bool par = dot(cross(u, v), cross(u, v)) == 0;
      P3 P = p0 + rp * u, Q = q0 + rq * v;
      MC_CHECK(c, mc::near(d, L, 1e-10), "distance of the lines of " F3 "-" F3 " and " F3 "-" F3 " is %.9g, should be %.9g", A3(p0), A3(p1), A3(q0), A3(q1), d, L);
      MC_CHECK(c, mc::near(len(P - Q), L, 1e-10), "ratios %g, %g of the nearest points of " F3 "-" F3 " and " F3 "-" F3 " give the distance %.9g instead of %.9g", rp, rq, A3(p0), A3(p1), A3(q0), A3(q1), len(P - Q), L);
      double gap = 0;
      if (par) {
        double l = len(u), s = dot(q0 - p0, u) / l, e = dot(q1 - p0, u) / l;
        gap = std::max(0., std::max(std::min(s, e), 0.) - std::min(std::max(s, e), l));
        bool overlap = std::max(std::min(s, e), 0.) <= std::min(std::max(s, e), l);
        if (overlap) MC_CHECK(c, rp > -1e-9 && rp < 1 + 1e-9 && rq > -1e-9 && rq < 1 + 1e-9, "parallel edges " F3 "-" F3 " and " F3 "-" F3 " overlap, but the nearest points are at the ratios %g, %g", A3(p0), A3(p1), A3(q0), A3(q1), rp, rq);
      }
      // contact: the nearest points lie inside both edges and within delta
      for (double delta: {0.2 * sc, 0.9 * sc, 1.45 * sc}) {
        bool border = false;
        for (double r: {rp, 1 - rp, rq, 1 - rq}) border |= std::fabs(r) < 1e-9;
        if (std::fabs(L - delta) < 1e-6 * sc || border) continue;
        if (par && gap > 0) continue;
        bool in = rp > 0 && rp < 1 && rq > 0 && rq < 1;
        bool want = in && L < delta;
        bool got = dfm2::IsContact_Edge3_Edge3_Proximity(0, 1, 2, 3, v3(p0), v3(p1), v3(q0), v3(q1), delta);
        MC_CHECK(c, got == want, "contact of " F3 "-" F3 " and " F3 "-" F3 " within %g: reported %d, distance %g at the ratios %g, %g", A3(p0), A3(p1), A3(q0), A3(q1), delta, (int) got, L, rp, rq);
        cnt += got;
        if (got) for (auto &s: {std::array<int, 4>{0, 1, 0, 3}, {0, 1, 3, 0}, {0, 1, 1, 3}, {0, 1, 3, 1}})
          MC_CHECK(c, !dfm2::IsContact_Edge3_Edge3_Proximity(s[0], s[1], s[2], s[3], v3(p0), v3(p1), v3(q0), v3(q1), delta), "edges that share a point are reported in contact");
      }
    }
  c.outcome(cnt);
}
static void parallel_body(mc::Ch &c) {
  int id = c.choose(10), io = c.choose(8), a = c.choose(5), b = c.choose(5);
  if (a == b) c.skip();
  c.commit();
  P3 u = DIRS[id], o = grid3(io, 2, 0.5);
  P3 p0 = (double) a * u, p1 = (double) b * u;
  c.describe("parallel edges along " F3 ", from %d to %d, the other line through " F3, A3(u), a, b, A3(o));
  for (int i = 0; i < 5; i++)
    for (int j = 0; j < 5; j++) {
      if (i == j) continue;
      c.step(1);
      P3 q0 = o + (double) i * u, q1 = o + (double) j * u;
      double rp = 99, rq = 99, d = dfm2::Distance_Edge3_Edge3(v3(p0), v3(p1), v3(q0), v3(q1), rp, rq), L = line_line(p0, u, o, u);
      P3 P = p0 + rp * (p1 - p0), Q = q0 + rq * (q1 - q0);
      MC_CHECK(c, mc::near(d, L, 1e-10) && mc::near(len(P - Q), L, 1e-10), "parallel edges " F3 "-" F3 " and " F3 "-" F3 ": distance %g at the ratios %g, %g (there %g), should be %g", A3(p0), A3(p1), A3(q0), A3(q1), d, rp, rq, len(P - Q), L);
      double l = len(u), s = dot(o, u) / l / l, lo = std::max(std::min(a, b) * 1., s + std::min(i, j)), hi = std::min(std::max(a, b) * 1., s + std::max(i, j));
      if (lo < hi - 1e-9) {
        MC_CHECK(c, rp > -1e-9 && rp < 1 + 1e-9 && rq > -1e-9 && rq < 1 + 1e-9, "parallel edges " F3 "-" F3 " and " F3 "-" F3 " overlap, but the nearest points are at the ratios %g, %g", A3(p0), A3(p1), A3(q0), A3(q1), rp, rq);
        MC_CHECK(c, dfm2::IsContact_Edge3_Edge3_Proximity(0, 1, 2, 3, v3(p0), v3(p1), v3(q0), v3(q1), L + 0.1), "overlapping parallel edges " F3 "-" F3 " and " F3 "-" F3 " at %g are in contact within %g", A3(p0), A3(p1), A3(q0), A3(q1), L, L + 0.1);
        if (L > 0.1) MC_CHECK(c, !dfm2::IsContact_Edge3_Edge3_Proximity(0, 1, 2, 3, v3(p0), v3(p1), v3(q0), v3(q1), L - 0.05), "parallel edges at %g reported in contact within %g", L, L - 0.05);
      } else if (lo > hi + 1e-9) {
        double D = std::min(std::min(seg_dist(p0, q0, q1), seg_dist(p1, q0, q1)), std::min(seg_dist(q0, p0, p1), seg_dist(q1, p0, p1)));
        MC_CHECK(c, !dfm2::IsContact_Edge3_Edge3_Proximity(0, 1, 2, 3, v3(p0), v3(p1), v3(q0), v3(q1), 0.9 * D), "parallel edges at %g reported in contact within %g", D, 0.9 * D);
      }
    }
  c.outcome_of(id, io, a, b);
}
static void circle_body(mc::Ch &c) {
  int in = c.choose(10), io = c.choose(8), id = c.choose(10);
  double rad = c.pick({1., 2.5}), off = c.pick({0.5, 3.});
  c.commit();
  P3 n = (1 / len(DIRS[in])) * DIRS[in], org = grid3(io, 2), dir = DIRS[id];
  c.describe("circle at " F3 " around " F3 ", line along " F3, A3(org), A3(n), A3(dir));
  P3 any = std::fabs(n.x) < 0.8 ? P3{1, 0, 0} : P3{0, 1, 0};
  P3 ex = cross(n, any);
  ex = (1 / len(ex)) * ex;
  P3 ey = cross(n, ex);
  bool along = len(cross(dir, n)) < 1e-9;
  for (int k = 0; k < 7; k++) {
    c.step(1);
    P3 src = org + off * (std::cos(0.3 + k) * ex + std::sin(0.3 + k) * ey) + (k - 3.0) * n;
    V3 p, q;
    dfm2::Nearest_Line_Circle(p, q, v3(src), v3(dir), v3(org), v3(n), rad);
    MC_CHECK(c, line_point(p3(p), src, dir) < 1e-9, "the point " F3 " is not on the line", A3(p3(p)));
    MC_CHECK(c, std::fabs(dot(p3(q) - org, n)) < 1e-9 && mc::near(len(p3(q) - org), rad, 1e-9), "the point " F3 " is not on the circle", A3(p3(q)));
    if (along) MC_CHECK(c, mc::near(len(p3(p) - p3(q)), std::fabs(off - rad), 1e-9, 1e-9), "line along the axis at %g from it and circle of radius %g: distance %.9g", off, rad, len(p3(p) - p3(q)));
  }
  c.outcome_of(in, io, id);
}

// ---------- 4. planes
static void plane_body(mc::Ch &c) {
  int in = c.choose(10), io = c.choose(27);
  double sc = c.pick({1., 1. / 1024, 8.});
  c.commit();
  P3 n = sc * DIRS[in], o = grid3(io, 3);
  c.describe("plane through " F3 " with normal " F3, A3(o), A3(n));
  P3 nu = (1 / len(n)) * n;
  for (int k = 0; k < 64; k++) {
    c.step(1);
    P3 p = grid3(k, 4, 1, -1);
    P3 q = p3(dfm2::Nearest_Plane3_Point3(v3(p), v3(o), v3(n)));
    P3 w = p - dot(p - o, nu) * nu;
    MC_CHECK(c, close(q, w, 1e-12 * 8), "nearest point of " F3 " on the plane through " F3 " normal to " F3 " is " F3 ", should be " F3, A3(p), A3(o), A3(n), A3(q), A3(w));
    for (int id = 0; id < 10; id++) {
      P3 d = DIRS[id];
      if (dot(d, n) == 0) continue;
      P3 x = p3(dfm2::Intersection_Plane3_Line3(v3(o), v3(n), v3(p), v3(d)));
      MC_CHECK(c, std::fabs(dot(x - o, nu)) < 1e-10 && line_point(x, p, d) < 1e-10, "the line " F3 "+t" F3 " meets the plane through " F3 " normal to " F3 " at " F3 "?", A3(p), A3(d), A3(o), A3(n), A3(x));
    }
  }
  c.outcome_of(in, io);
}

// ---------- 5. triangles
static const int NTRI = 24;
static std::array<P3, 3> tri_of(int k) {
  static const int T[NTRI][9] = {
      {0, 0, 0, 1, 0, 0, 0, 1, 0}, {0, 0, 0, 2, 0, 0, 0, 2, 0}, {0, 0, 0, 2, 0, 0, 1, 2, 0}, {0, 0, 0, 2, 0, 0, 2, 1, 0}, {0, 0, 0, 1, 0, 0, 2, 1, 0}, {0, 0, 0, 2, 1, 0, 1, 2, 0},
      {0, 0, 0, 2, 0, 0, 0, 0, 2}, {0, 0, 1, 2, 0, 1, 0, 2, 1}, {0, 0, 0, 0, 2, 0, 0, 0, 2}, {0, 0, 0, 2, 2, 0, 0, 0, 2}, {2, 0, 0, 0, 2, 0, 0, 0, 2}, {1, 0, 0, 0, 1, 0, 0, 0, 1},
      {0, 0, 0, 2, 2, 2, 2, 0, 0}, {0, 0, 0, 2, 1, 1, 1, 2, 0}, {2, 2, 2, 0, 1, 0, 1, 0, 2}, {0, 1, 0, 2, 1, 0, 1, 1, 2}, {0, 1, 1, 2, 1, 1, 1, 0, 1}, {1, 0, 0, 1, 2, 0, 1, 1, 2},
      {0, 2, 0, 2, 0, 0, 1, 1, 2}, {0, 0, 2, 2, 2, 0, 1, 1, 0}, {1, 1, 1, 2, 1, 1, 1, 2, 1}, {0, 0, 0, 2, 0, 1, 1, 0, 2}, {0, 1, 2, 1, 2, 0, 2, 0, 1}, {0, 0, 1, 0, 2, 1, 2, 1, 1}};
  auto *t = T[k];
  return {P3{(double) t[0], (double) t[1], (double) t[2]}, P3{(double) t[3], (double) t[4], (double) t[5]}, P3{(double) t[6], (double) t[7], (double) t[8]}};
}
static void tri_measures(mc::Ch &c, P3 a, P3 b, P3 d) {
  P3 n = cross(b - a, d - a);
  double A = len(n) / 2;
  V3 va = v3(a), vb = v3(b), vd = v3(d);
  MC_CHECK(c, mc::near(dfm2::Area_Tri3(va, vb, vd), A, 1e-12), "Area_Tri3");
  MC_CHECK(c, mc::near(dfm2::SquareTriArea(va, vb, vd), A * A, 1e-12), "SquareTriArea");
  MC_CHECK(c, mc::near((double) dfm2::Area_Tri3(v3f(a), v3f(b), v3f(d)), A, 1e-5), "Area_Tri3 in float");
  std::vector<V3> pts{V3(9, 9, 9), va, vd, vb};
  MC_CHECK(c, mc::near(dfm2::Area_Tri3(1, 3, 2, pts), A, 1e-12), "Area_Tri3 by index");
  V3 m;
  dfm2::Normal_Tri3(m, va, vb, vd);
  MC_CHECK(c, close(p3(m), n, 1e-12 * 16), "Normal_Tri3 of " F3 "," F3 "," F3 " is " F3 ", should be " F3, A3(a), A3(b), A3(d), A3(p3(m)), A3(n));
  std::array<double, 3> m2 = dfm2::Normal_Tri3(va, vb, vd);
  MC_CHECK(c, close(p3(m2), n, 1e-12 * 16), "Normal_Tri3 returning an array");
  VU tri{0, 1, 2, 3, 1, 2};
  VD xyz{9, 9, 9, A3(b), A3(d), A3(a)};
  std::array<double, 3> m3 = dfm2::Normal_Tri3(1u, tri, xyz), cg = dfm2::CG_Tri3(1u, tri, xyz);
  MC_CHECK(c, close(p3(m3), n, 1e-12 * 16), "Normal_Tri3 of a mesh triangle");
  MC_CHECK(c, close(p3(cg), (1. / 3) * (a + b + d), 1e-12 * 16), "CG_Tri3");
  if (A > 0) {
    P3 un = (1 / len(n)) * n;
    V3 u, w;
    double ar = -1;
    dfm2::UnitNormal_Tri3(u, va, vb, vd);
    dfm2::UnitNormalAreaTri3(w, ar, va, vb, vd);
    MC_CHECK(c, close(p3(u), un, 1e-12) && close(p3(w), un, 1e-12) && mc::near(ar, A, 1e-12), "unit normal and area");
    V3 r = dfm2::UnitNormal_Tri3(va, vb, vd);
    MC_CHECK(c, close(p3(r), un, 1e-12), "UnitNormal_Tri3 returning a vector");
  }
  // moments of inertia about the origin by the edge-midpoint rule (exact for quadratics) / tetrahedron formula
  auto inert = [](P3 q, double *I, double w) {
    double v[3] = {q.x, q.y, q.z}, s = dot(q, q);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) I[i * 3 + j] += w * ((i == j ? s : 0) - v[i] * v[j]);
  };
  double I[9] = {}, J[9] = {};
  for (P3 q: {0.5 * (a + b), 0.5 * (b + d), 0.5 * (d + a)}) inert(q, I, A / 3);
  auto g = dfm2::Mat3_IrotTri(va, vb, vd);
  for (int i = 0; i < 9; i++) MC_CHECK(c, mc::near(g[i], I[i], 1e-12, 1e-12 * 64), "Mat3_IrotTri entry %d is %.9g, should be %.9g", i, g[i], I[i]);
  double V = dot(a, cross(b, d)) / 6;
  // integral of x_i x_j over the tetrahedron (0,a,b,d): V/20 (sum p p^T + s s^T)
  for (P3 q: {a, b, d, a + b + d}) inert(q, J, V / 20);
  g = dfm2::Mat3_IrotTriSolid(va, vb, vd);
  for (int i = 0; i < 9; i++) MC_CHECK(c, mc::near(g[i], J[i], 1e-12, 1e-12 * 64), "Mat3_IrotTriSolid entry %d is %.9g, should be %.9g", i, g[i], J[i]);
  double K[9] = {};
  P3 h = 0.5 * (a + b);
  double l = len(b - a);
  inert(a, K, l / 6), inert(b, K, l / 6), inert(h, K, 4 * l / 6);  // Simpson is exact
  g = dfm2::Mat3_IrotLineSeg(va, vb);
  for (int i = 0; i < 9; i++) MC_CHECK(c, mc::near(g[i], K[i], 1e-12, 1e-12 * 64), "Mat3_IrotLineSeg entry %d is %.9g, should be %.9g", i, g[i], K[i]);
}
static void tri_point_body(mc::Ch &c) {
  int it = c.choose(NTRI), rot = c.choose(6);
  double sc = c.pick({1., 0.25, 1. / 1024});
  c.commit();
  auto T = tri_of(it);
  static const int perm[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {2, 1, 0}, {1, 0, 2}};
  P3 a = sc * T[perm[rot][0]], b = sc * T[perm[rot][1]], d = sc * T[perm[rot][2]];
  c.describe("triangle " F3 "," F3 "," F3, A3(a), A3(b), A3(d));
  tri_measures(c, a, b, d);
  P3 n = cross(b - a, d - a);
  double nn = dot(n, n);
  int N = c.thorough ? 9 : 7;
  for (int k = 0; k < N * N * N; k++) {
    c.step(1);
    P3 p = grid3(k, N, sc * 0.5, -sc * 0.5);
    double w = tri_dist(p, a, b, d);
    double r0 = 9, r1 = 9, q[3], P[3] = {A3(p)}, Q0[3] = {A3(a)}, Q1[3] = {A3(b)}, Q2[3] = {A3(d)};
    dfm2::Nearest_Triangle3_Point3(q, r0, r1, P, Q0, Q1, Q2);
    P3 q3{q[0], q[1], q[2]};
    MC_CHECK(c, mc::near(len(q3 - p), w, 1e-10), "nearest point " F3 " of " F3 " on the triangle " F3 "," F3 "," F3 ": distance %.9g should be %.9g", A3(q3), A3(p), A3(a), A3(b), A3(d), len(q3 - p), w);
    MC_CHECK(c, close(q3, r0 * a + r1 * b + (1 - r0 - r1) * d, 1e-10) && r0 > -1e-9 && r1 > -1e-9 && r0 + r1 < 1 + 1e-9, "coordinates %g, %g of the nearest point " F3 " of " F3 " on the triangle " F3 "," F3 "," F3, r0, r1, A3(q3), A3(p), A3(a), A3(b), A3(d));
    r0 = r1 = 9;
    P3 o3 = p3(dfm2::Nearest_Origin3_Tri3(r0, r1, v3(a - p), v3(b - p), v3(d - p)));
    MC_CHECK(c, mc::near(len(o3), w, 1e-10) && close(o3 + p, r0 * a + r1 * b + (1 - r0 - r1) * d, 1e-10) && r0 > -1e-9 && r1 > -1e-9 && r0 + r1 < 1 + 1e-9, "nearest point " F3 " (coordinates %g, %g) of the origin on the triangle " F3 "," F3 "," F3 ": distance %.9g should be %.9g", A3(o3), r0, r1, A3(a - p), A3(b - p), A3(d - p), len(o3), w);
    P3 proj = p - (dot(p - a, n) / nn) * n;
    r0 = r1 = 9;
    P3 pl = p3(dfm2::Nearest_Origin3_PlaneTri3(r0, r1, v3(a - p), v3(b - p), v3(d - p)));
    MC_CHECK(c, close(pl + p, proj, 1e-10) && close(pl + p, r0 * a + r1 * b + (1 - r0 - r1) * d, 1e-10), "nearest point " F3 " (coordinates %g, %g) of the origin on the plane of " F3 "," F3 "," F3, A3(pl), r0, r1, A3(a - p), A3(b - p), A3(d - p));
    pl = p3(dfm2::ProjectPointOnTriangle(v3(p), v3(a), v3(b), v3(d)));
    MC_CHECK(c, close(pl, proj, 1e-10), "projection of " F3 " on the plane of " F3 "," F3 "," F3 " is " F3 ", should be " F3, A3(p), A3(a), A3(b), A3(d), A3(pl), A3(proj));
    double w0 = 9, w1 = 9;
    double dv = dfm2::DistanceFaceVertex(v3(a), v3(b), v3(d), v3(p), w0, w1);
    MC_CHECK(c, mc::near(dv, len(p - proj), 1e-10) && close(w0 * a + w1 * b + (1 - w0 - w1) * d, proj, 1e-10), "DistanceFaceVertex of " F3 " and " F3 "," F3 "," F3 ": %.9g (weights %g, %g), should be %.9g", A3(p), A3(a), A3(b), A3(d), dv, w0, w1, len(p - proj));
    // inside test for points of the plane; the border is inclusive
    double s0 = dot(cross(d - b, p - b), n), s1 = dot(cross(a - d, p - d), n), s2 = dot(cross(b - a, p - a), n);
    if (dot(p - a, n) == 0) {
      bool in = s0 >= 0 && s1 >= 0 && s2 >= 0;
      bool got = dfm2::isPointInsideTriangle(v3(p), v3(a), v3(b), v3(d));
      MC_CHECK(c, got == in, "point " F3 " is %s the triangle " F3 "," F3 "," F3, A3(p), in ? "inside" : "outside", A3(a), A3(b), A3(d));
    }
  }
  c.outcome_of(it, rot);
}
static void tri_line_body(mc::Ch &c) {
  int it = c.choose(NTRI), rot = c.choose(3), ip = c.choose(27);
  const double sc = c.pick({1., 1. / 1024});
  c.commit();
  auto T = tri_of(it);
  P3 a = sc * T[rot], b = sc * T[(rot + 1) % 3], d = sc * T[(rot + 2) % 3], o = grid3(ip, 3, sc, -0.5 * sc);
  c.describe("triangle " F3 "," F3 "," F3 " and lines from " F3, A3(a), A3(b), A3(d), A3(o));
  P3 n = cross(b - a, d - a);
  for (int k = 0; k < 125; k++) {
    P3 e = grid3(k, 5, 0.5 * sc, 0);
    P3 u = e - o;
    double un = dot(u, n);
    if (dot(u, u) == 0) continue;
    c.step(1);
    V3 x(99, 99, 99);
    bool ray = dfm2::isRayIntersectingTriangle(v3(o), v3(e), v3(a), v3(b), v3(d), x);
    if (un == 0) {
      MC_CHECK(c, !ray, "a ray parallel to the triangle is reported to meet it");
      continue;
    }
    double t = dot(a - o, n) / un;
    P3 h = o + t * u;
    double nn = dot(n, n);
    double r0 = dot(cross(d - b, h - b), n) / nn, r1 = dot(cross(a - d, h - d), n) / nn, r2 = 1 - r0 - r1;
    double m = std::min(r0, std::min(r1, r2));
    bool sure = std::fabs(m) > 1e-9;
    if (sure && std::fabs(t) > 1e-9) {
      MC_CHECK(c, ray == (m > 0 && t > 0), "ray " F3 "->" F3 " and triangle " F3 "," F3 "," F3 ": reported %d, it meets the plane at t=%g with coordinates %g %g %g", A3(o), A3(e), A3(a), A3(b), A3(d), (int) ray, t, r0, r1, r2);
      if (ray) MC_CHECK(c, close(p3(x), h, 1e-9), "ray " F3 "->" F3 " meets the triangle at " F3 ", not " F3, A3(o), A3(e), A3(h), A3(p3(x)));
    }
    double g0 = 9, g1 = 9;
    bool got = dfm2::IntersectRay_Tri3(g0, g1, v3(o), v3(u), v3(a), v3(b), v3(d), 1e-12);
    MC_CHECK(c, mc::near(g0, r0, 1e-9) && mc::near(g1, r1, 1e-9), "line " F3 "+t" F3 " meets the plane of the triangle at the coordinates %g %g, not %g %g", A3(o), A3(u), r0, r1, g0, g1);
    if (sure) MC_CHECK(c, got == (m > 0), "line " F3 "+t" F3 " and triangle " F3 "," F3 "," F3 ": reported %d, coordinates %g %g %g", A3(o), A3(u), A3(a), A3(b), A3(d), (int) got, r0, r1, r2);
    for (double eps: {0.3, -0.1}) if (std::fabs(m + eps) > 1e-9) MC_CHECK(c, dfm2::IntersectRay_Tri3(g0, g1, v3(o), v3(u), v3(a), v3(b), v3(d), eps) == (m > -eps), "IntersectRay_Tri3 with the margin %g, smallest coordinate %g", eps, m);
    V3 y;
    double c0 = 9, c1 = 9, c2 = 9;
    got = dfm2::Intersection_Plane3_Line3(y, c0, c1, c2, 0., v3(o), v3(u), v3(a), v3(b), v3(d));
    MC_CHECK(c, close(p3(y), h, 1e-9) && mc::near(c0, r0, 1e-9) && mc::near(c1, r1, 1e-9) && mc::near(c2, r2, 1e-9), "Intersection_Plane3_Line3: " F3 " (%g %g %g), should be " F3 " (%g %g %g)", A3(p3(y)), c0, c1, c2, A3(h), r0, r1, r2);
    if (sure) MC_CHECK(c, got == (m > 0), "Intersection_Plane3_Line3 reports %d for the coordinates %g %g %g", (int) got, r0, r1, r2);
  }
  c.outcome_of(it, ip);
}
// line (p-plane with q-triangle): interval of the common line inside a triangle
static bool plane_cut(const P3 *t, const double *dist, P3 line, double &lo, double &hi, P3 &plo, P3 &phi) {
  lo = 1e30, hi = -1e30;
  auto add = [&](P3 p) {
    double z = dot(p, line);
    if (z < lo) lo = z, plo = p;
    if (z > hi) hi = z, phi = p;
  };
  for (int i = 0; i < 3; i++) {
    int j = (i + 1) % 3;
    if (dist[i] == 0) add(t[i]);
    if (dist[i] * dist[j] < 0) add(t[i] + (dist[i] / (dist[i] - dist[j])) * (t[j] - t[i]));
  }
  return lo <= hi;
}
static void tri_pair_body(mc::Ch &c) {
  int it = c.choose(NTRI), iq = c.choose(27), rot = c.choose(3);
  bool flip = c.flip(), swap = c.flip();
  const double sc = swap ? 1. / 1024 : 1;
  c.commit();
  auto T = tri_of(it);
  P3 p[3] = {sc * T[rot], sc * T[(rot + 1) % 3], sc * T[(rot + 2) % 3]};
  if (flip) std::swap(p[1], p[2]);
  c.describe("pairs of triangles, one is " F3 "," F3 "," F3, A3(p[0]), A3(p[1]), A3(p[2]));
  uint64_t cnt = 0;
  for (int i = 0; i < 27; i++)
    for (int j = 0; j < 27; j++) {
      P3 q[3] = {grid3(iq, 3, sc), grid3(i, 3, sc), grid3(j, 3, sc)};
      P3 nq = cross(q[1] - q[0], q[2] - q[0]), np = cross(p[1] - p[0], p[2] - p[0]);
      if (dot(nq, nq) == 0) continue;
      c.step(1);
      double dp[3], dq[3];
      int zp = 0, zq = 0;
      for (int k = 0; k < 3; k++) dp[k] = dot(p[k] - q[0], nq), dq[k] = dot(q[k] - p[0], np), zp += dp[k] == 0, zq += dq[k] == 0;
      if (zp >= 2 || zq >= 2) continue;  // an edge in the plane of the other triangle
      P3 L = cross(np, nq), a0, a1, b0, b1;
      if (dot(L, L) > 0) L = (1 / len(L)) * L;
      double l0, l1, m0, m1;
      bool ca = plane_cut(p, dp, L, l0, l1, a0, a1), cb = plane_cut(q, dq, L, m0, m1, b0, b1);
      bool want = false;
      if (ca && cb) {
        double ov = std::min(l1, m1) - std::max(l0, m0);
        if (std::fabs(ov) < 1e-9) continue;  // they touch in a point
        want = ov > 0;
      }
      cnt += want;
      VU tri{0, 1, 2, 3, 4, 5};
      VD xyz;
      for (auto *t: {p, q}) for (int k = 0; k < 3; k++) xyz.insert(xyz.end(), {A3(t[k])});
      V3 x0, x1;
      bool got = dfm2::isIntersectTriPair(x0, x1, swap ? 1 : 0, swap ? 0 : 1, tri, xyz);
      MC_CHECK(c, got == want, "triangles " F3 "," F3 "," F3 " and " F3 "," F3 "," F3 " %s, reported %d", A3(p[0]), A3(p[1]), A3(p[2]), A3(q[0]), A3(q[1]), A3(q[2]), want ? "cross" : "do not cross", (int) got);
      if (got) {
        P3 e0 = l0 > m0 ? a0 : b0, e1 = l1 < m1 ? a1 : b1;
        bool ok = (close(p3(x0), e0, 1e-9) && close(p3(x1), e1, 1e-9)) || (close(p3(x0), e1, 1e-9) && close(p3(x1), e0, 1e-9));
        MC_CHECK(c, ok, "triangles " F3 "," F3 "," F3 " and " F3 "," F3 "," F3 " cross along " F3 "-" F3 ", reported " F3 "-" F3, A3(p[0]), A3(p[1]), A3(p[2]), A3(q[0]), A3(q[1]), A3(q[2]), A3(e0), A3(e1), A3(p3(x0)), A3(p3(x1)));
        for (int s = 0; s < 9; s++) {
          VU sh{0, 1, 2, 3, 4, 5};
          sh[3 + s % 3] = s / 3;
          MC_CHECK(c, !dfm2::isIntersectTriPair(x0, x1, 0, 1, sh, xyz), "triangles that share a vertex are reported to cross");
        }
      }
    }
  c.outcome(cnt);
}
static void solid_angle_body(mc::Ch &c) {
  int a = c.choose(27), b = c.choose(27);
  if (a == 13 || b == 13) c.skip();
  c.commit();
  P3 p = grid3(a, 3, 1, -1), q = grid3(b, 3, 1, -1);
  c.describe("solid angle of triangles with the corners " F3 "," F3, A3(p), A3(q));
  for (int k = 0; k < 27; k++) {
    if (k == 13) continue;
    P3 r = grid3(k, 3, 1, -1);
    double V = dot(cross(p, q), r);
    if (V == 0) continue;
    c.step(1);
    // angle excess of the spherical triangle
    auto corner = [](P3 a, P3 b, P3 d) {
      P3 m = cross(a, b), n = cross(a, d);
      return std::acos(std::max(-1., std::min(1., dot(m, n) / len(m) / len(n))));
    };
    double w = corner(p, q, r) + corner(q, r, p) + corner(r, p, q) - PI;
    if (V < 0) w = 4 * PI - w;
    double g = dfm2::SolidAngleTri(v3(p), v3(q), v3(r));
    MC_CHECK(c, mc::near(g, w, 1e-7), "solid angle of " F3 "," F3 "," F3 " is %.9g, should be %.9g", A3(p), A3(q), A3(r), g, w);
  }
  c.outcome_of(a, b);
}

// ---------- 6. parallelograms
static double quad_dist(P3 p, P3 a, P3 u, P3 v) {
  return std::min(tri_dist(p, a, a + u, a + u + v), tri_dist(p, a, a + u + v, a + v));
}
static void quad_body(mc::Ch &c) {
  int it = c.choose(NTRI), rot = c.choose(3);
  double sc = c.pick({1., 0.25, 1. / 1024});
  c.commit();
  auto T = tri_of(it);
  P3 a = sc * T[rot], u = sc * T[(rot + 1) % 3] - a, v = sc * T[(rot + 2) % 3] - a;
  c.describe("parallelogram " F3 " + s" F3 " + t" F3, A3(a), A3(u), A3(v));
  P3 q[4] = {a, a + u, a + u + v, a + v}, n = cross(u, v);
  std::vector<V3> pts{V3(5, 5, 5), v3(q[3]), v3(q[2]), v3(q[1]), v3(q[0])};
  std::vector<int> qd{0, 1, 2, 3, 4, 3, 2, 1};
  for (double s: {0., 0.25, 1.}) for (double t: {0., 0.75, 1.}) {
    P3 x = p3(dfm2::QuadBilinear(1, s, t, qd, pts)), w = a + s * u + t * v;
    MC_CHECK(c, close(x, w, 1e-12 * 16), "QuadBilinear at %g, %g is " F3 ", should be " F3, s, t, A3(x), A3(w));
  }
  int N = 5;
  for (int k = 0; k < N * N * N; k++) {
    c.step(1);
    P3 p = grid3(k, N, sc * 0.75, -sc * 0.75);
    double s = 9, t = 9;
    P3 x = p3(dfm2::Nearst_Origin3_Quad3(s, t, v3(q[0] - p), v3(q[1] - p), v3(q[2] - p), v3(q[3] - p)));
    double w = quad_dist(p, a, u, v);
    MC_CHECK(c, mc::near(len(x), w, 1e-7), "nearest point of " F3 " on the parallelogram " F3 "," F3 "," F3 " at %.9g, should be %.9g", A3(p), A3(a), A3(u), A3(v), len(x), w);
    MC_CHECK(c, close(x + p, a + s * u + t * v, 1e-7) && s > -1e-4 && s < 1 + 1e-4 && t > -1e-4 && t < 1 + 1e-4, "parameters %g, %g of the nearest point " F3 " of " F3 " on the parallelogram " F3 "," F3 "," F3, s, t, A3(x + p), A3(p), A3(a), A3(u), A3(v));
    for (int id = 0; id < 10; id++) {
      P3 d = (1 / len(DIRS[id])) * DIRS[id];
      double dn = dot(d, n);
      if (std::fabs(dn) < 1e-9) continue;
      P3 h = p + (dot(a - p, n) / dn) * d;
      double nn = dot(n, n), S = dot(cross(h - a, v), n) / nn, W = dot(cross(u, h - a), n) / nn;
      double m = std::min(std::min(S, 1 - S), std::min(W, 1 - W));
      if (std::fabs(m) < 1e-3) continue;
      V3 y;
      double g0 = 9, g1 = 9;
      bool got = dfm2::intersection_Point_Quad(y, g0, g1, v3(p), v3(d), v3(q[0]), v3(q[1]), v3(q[2]), v3(q[3]));
      MC_CHECK(c, got == (m > 0), "line " F3 "+t" F3 " and parallelogram " F3 "," F3 "," F3 ": reported %d, parameters %g, %g", A3(p), A3(d), A3(a), A3(u), A3(v), (int) got, S, W);
      if (got) MC_CHECK(c, close(p3(y), h, 1e-7) && mc::near(g0, S, 1e-7) && mc::near(g1, W, 1e-7), "line " F3 "+t" F3 " meets the parallelogram at " F3 " (%g,%g), reported " F3 " (%g,%g)", A3(p), A3(d), A3(h), S, W, A3(p3(y)), g0, g1);
    }
  }
  c.outcome_of(it, rot);
}

// ---------- 7. tetrahedra and boxes of points
static void tet_body(mc::Ch &c) {
  int i1 = c.choose(27), i2 = c.choose(27), k0 = c.choose(4);
  const double sc = k0 % 2 ? 1. / 1024 : 1;
  c.commit();
  static const P3 ORG[4] = {{0, 0, 0}, {1, 1, 1}, {2, 0, 1}, {0.5, 1.5, 2}};
  P3 a = sc * ORG[k0], b = grid3(i1, 3, sc), d = grid3(i2, 3, sc);
  c.describe("tetrahedra with the corners " F3 "," F3 "," F3, A3(a), A3(b), A3(d));
  for (int k = 0; k < 27; k++) {
    c.step(1);
    P3 e = grid3(k, 3, sc);
    double V = vol6(a, b, d, e) / 6;
    V3 x[4] = {v3(a), v3(b), v3(d), v3(e)};
    P3 q[4] = {a, b, d, e};
    MC_CHECK(c, mc::near(dfm2::Volume_Tet(x[0], x[1], x[2], x[3]), V, 1e-12), "volume of " F3 "," F3 "," F3 "," F3 " is %.9g, should be %.9g", A3(a), A3(b), A3(d), A3(e), dfm2::Volume_Tet(x[0], x[1], x[2], x[3]), V);
    std::vector<V3> pts{x[3], x[2], x[1], x[0]};
    MC_CHECK(c, mc::near(dfm2::Volume_Tet(3, 2, 1, 0, pts), V, 1e-12), "volume by index");
    MC_CHECK(c, mc::near(dfm2::Volume_OrgTet(v3(b - a), v3(d - a), v3(e - a)), V, 1e-12), "Volume_OrgTet");
    MC_CHECK(c, mc::near((double) dfm2::Volume_Tet(v3f(a), v3f(b), v3f(d), v3f(e)), V, 1e-5), "volume in float");
    double lmin = 1e30, lmax = 0;
    for (int i = 0; i < 4; i++) for (int j = 0; j < i; j++) {
      double l = dot(q[i] - q[j], q[i] - q[j]);
      lmin = std::min(lmin, l), lmax = std::max(lmax, l);
    }
    MC_CHECK(c, mc::near(dfm2::LongestSquaredEdgeLengthOfTet(x[0], x[1], x[2], x[3]), lmax, 1e-12), "longest edge");
    MC_CHECK(c, mc::near(dfm2::ShortestSquaredEdgeLengthOfTet(x[0], x[1], x[2], x[3]), lmin, 1e-12), "shortest edge");
    P3 n = cross(b - a, d - a);
    if (dot(n, n) > 0) MC_CHECK(c, mc::near(dfm2::Height_Tet(x[0], x[1], x[2], x[3]), dot(e - a, n) / len(n), 1e-12), "Height_Tet is %.9g, should be %.9g", dfm2::Height_Tet(x[0], x[1], x[2], x[3]), dot(e - a, n) / len(n));
    if (V == 0) continue;
    for (P3 p: {P3{sc * 0.25, sc * 0.5, sc * 0.5}, P3{sc, sc, sc}, P3{sc * 3, -sc, 0}, a}) {
      double r0 = 9, r1 = 9, r2 = 9;
      bool ok = dfm2::barycentricCoord_Origin_Tet(r0, r1, r2, v3(a - p), v3(b - p), v3(d - p), v3(e - p));
      P3 w = r0 * a + r1 * b + r2 * d + (1 - r0 - r1 - r2) * e;
      MC_CHECK(c, ok && close(w, p, 1e-10), "coordinates %g %g %g of " F3 " in the tetrahedron " F3 "," F3 "," F3 "," F3 " give " F3, r0, r1, r2, A3(p), A3(a), A3(b), A3(d), A3(e), A3(w));
    }
    // an affine map of the corners is recovered as the deformation gradient
    double M[9] = {1, 2, 0, -1, 1, 3, 0.5, 0, 2};
    auto map = [&](P3 p) { return P3{M[0] * p.x + M[1] * p.y + M[2] * p.z + 3, M[3] * p.x + M[4] * p.y + M[5] * p.z - 1, M[6] * p.x + M[7] * p.y + M[8] * p.z + 7}; };
    auto F = dfm2::DeformationGradientOfTet(x[0], x[1], x[2], x[3], v3(map(a)), v3(map(b)), v3(map(d)), v3(map(e)));
    for (int i = 0; i < 9; i++) MC_CHECK(c, mc::near(F[i], M[i], 1e-10), "deformation gradient entry %d is %.9g, should be %.9g", i, F[i], M[i]);
    double dF[4][3];
    dfm2::DiffDeformationGradientOfTet(dF, x[0], x[1], x[2], x[3]);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
      double s = 0;
      for (int v = 0; v < 4; v++) s += (&q[v].x)[i] * dF[v][j];
      MC_CHECK(c, mc::near(s, i == j ? 1 : 0, 1e-10), "gradients of the shape functions: entry %d %d of their product with the corners is %g", i, j, s);
    }
    for (int j = 0; j < 3; j++) MC_CHECK(c, mc::near(dF[0][j] + dF[1][j] + dF[2][j] + dF[3][j], 0, 1e-10), "gradients of the shape functions do not sum to zero");
    auto B = dfm2::Mat3_3BasesOfTet(x[0], x[1], x[2], x[3]);
    for (int i = 0; i < 3; i++) for (int v = 0; v < 3; v++) MC_CHECK(c, B[i * 3 + v] == (&q[v + 1].x)[i] - (&a.x)[i], "base vectors of the tetrahedron");
  }
  c.outcome_of(i1, i2);
}
static void boxpts_body(mc::Ch &c) {
  int n = 3 + c.choose(4);
  double d = c.pick({0., 0.5, 1.});
  std::vector<P3> p(n);
  for (auto &q: p) q = {c.choose(3) * 1.0 - 1, 0, 0};  // the pattern of one axis
  int axis = c.choose(3), other = c.choose(3);
  c.commit();
  for (int i = 0; i < n; i++) {
    double v = p[i].x * 1.25, w = other == 0 ? (i ? 2. : -2.) : other == 1 ? 0.25 : 1.5 + i;
    double a[3] = {w, i == 1 ? 2. : -0.25, -w};
    if (other == 2) a[2] = i ? 1 : -3;
    a[axis] = v;
    p[i] = {a[0], a[1], a[2]};
  }
  c.describe("box of %d points, margin %g, axis %d", n, d, axis);
  bool want = true;
  for (int k = 0; k < 3; k++) {
    double lo = 1e30, hi = -1e30;
    for (auto &q: p) lo = std::min(lo, (&q.x)[k]), hi = std::max(hi, (&q.x)[k]);
    want = want && lo <= d && hi >= -d;
  }
  std::vector<V3> x;
  for (auto &q: p) x.push_back(v3(q));
  bool got = n == 3 ? dfm2::IsContact_Orgin_AabbOfPoint3(x[0], x[1], x[2], d) : n == 4 ? dfm2::IsContact_Orgin_AabbOfPoint4(x[0], x[1], x[2], x[3], d)
           : n == 5 ? dfm2::IsContact_Orgin_AabbOfPoint5(x[0], x[1], x[2], x[3], x[4], d) : dfm2::IsContact_Orgin_AabbOfPoint6(x[0], x[1], x[2], x[3], x[4], x[5], d);
  MC_CHECK(c, got == want, "the box of %d points and the origin within %g: %s, reported %d", n, d, want ? "contact" : "no contact", (int) got);
  c.outcome_of(n, got);
}

// ---------- 8. polylines and polygons
static double arc_point(const std::vector<P3> &p, double s, P3 &x, bool closed) {
  double L = 0;
  size_t n = p.size(), m = closed ? n : n - 1;
  bool done = false;
  for (size_t i = 0; i < m; i++) {
    P3 a = p[i], b = p[(i + 1) % n];
    double l = len(b - a);
    if (!done && s <= L + l) x = l > 0 ? a + ((s - L) / l) * (b - a) : a, done = true;
    L += l;
  }
  return L;
}
template<class VEC>
static void polyline_check(mc::Ch &c, const std::vector<P3> &p, std::vector<VEC> P, int dim, const char *nm) {
  size_t n = p.size();
  P3 x;
  double L = arc_point(p, 1e30, x, false);
  MC_CHECK(c, mc::near((double) dfm2::Length_Polyline(P), L, 1e-12), "%s: length %.9g of the polyline, should be %.9g", nm, (double) dfm2::Length_Polyline(P), L);
  auto bb = dfm2::AABB_Polyline(P);
  for (int k = 0; k < dim; k++) {
    double lo = 1e30, hi = -1e30;
    for (auto &q: p) lo = std::min(lo, (&q.x)[k]), hi = std::max(hi, (&q.x)[k]);
    MC_CHECK(c, bb[k] == lo && bb[k + dim] == hi, "%s: box of the polyline on axis %d is [%g,%g], should be [%g,%g]", nm, k, (double) bb[k], (double) bb[k + dim], lo, hi);
  }
  for (double l: {0.3, 0.71, 1.37, 50.}) {
    auto R = dfm2::Polyline_Resample_Polyline(P, l);
    size_t cnt = 1 + (size_t) std::floor(L / l);
    if (std::fabs(L / l - std::round(L / l)) < 1e-6 || L < 1e-12) continue;
    MC_CHECK(c, R.size() == cnt, "%s: resampling a polyline of length %g at the distance %g gives %zu points, should be %zu", nm, L, l, R.size(), cnt);
    for (size_t i = 0; i < R.size(); i++) {
      P3 w = p[0];
      if (i) arc_point(p, i * l, w, false);
      MC_CHECK(c, close(p3(R[i]), w, 1e-9), "%s: point %zu of the resampled polyline is " F3 ", should be " F3, nm, i, A3(p3(R[i])), A3(w));
    }
  }
  for (double t: {-1., 0., 0.25, 0.5, 1., 1.75, 2., 2.5, 3., 3.25, 9.}) {
    double s = std::min(std::max(t, 0.), n - 1.0);
    size_t i = std::min((size_t) s, n - 2);
    P3 w = p[i] + (s - i) * (p[i + 1] - p[i]);
    P3 g = p3(dfm2::Sample_Polyline(P, t));
    MC_CHECK(c, close(g, w, 1e-12), "%s: sample at %g is " F3 ", should be " F3, nm, t, A3(g), A3(w));
    P3 tan = p3(dfm2::Tangent_Polyline(P, t)), e = p[i + 1] - p[i], e2 = i > 0 && s == i ? p[i] - p[i - 1] : e;
    if (dot(e, e) > 0 && dot(e2, e2) > 0) MC_CHECK(c, (len(cross(tan, e)) < 1e-12 && dot(tan, e) > 0) || (len(cross(tan, e2)) < 1e-12 && dot(tan, e2) > 0), "%s: tangent at %g is " F3 ", the edge is " F3, nm, t, A3(tan), A3(e));
  }
}
static void polyline_query(mc::Ch &c, const std::vector<P3> &p, int dim) {
  size_t n = p.size();
  std::vector<V2> P2;
  std::vector<V3> P3v;
  for (auto &q: p) P2.push_back(v2(q)), P3v.push_back(v3(q));
  int N = 6;
  for (int k = 0; k < (dim == 2 ? N * N : N * N * N); k++) {
    c.step(1);
    P3 q = dim == 2 ? grid2(k, N, 0.75, -0.8) : grid3(k, N, 0.75, -0.8);
    double best = 1e30, bp = 1e30;
    for (size_t i = 0; i + 1 < n; i++) best = std::min(best, seg_dist(q, p[i], p[i + 1]));
    for (auto &x: p) bp = std::min(bp, len(x - q));
    double par = dim == 2 ? dfm2::Nearest_Polyline(P2, v2(q)) : dfm2::Nearest_Polyline(P3v, v3(q));
    MC_CHECK(c, par >= 0 && par <= n - 1, "parameter %g of the nearest point of " F3 " on a polyline of %zu points", par, A3(q), n);
    size_t i = std::min((size_t) par, n - 2);
    P3 w = p[i] + (par - i) * (p[i + 1] - p[i]);
    MC_CHECK(c, mc::near(len(w - q), best, 1e-9), "nearest point of " F3 " on the polyline is at %.9g (parameter %g), should be %.9g", A3(q), len(w - q), par, best);
    U ip = dim == 2 ? dfm2::FindNearestPointInPoints(P2, v2(q)) : dfm2::FindNearestPointInPoints(P3v, v3(q));
    MC_CHECK(c, ip < n && len(p[ip] - q) < bp + 1e-5, "nearest of the points to " F3 " is %u at %.9g, should be at %.9g", A3(q), ip, ip < n ? len(p[ip] - q) : -1., bp);
    double al = dim == 2 ? dfm2::ArcLengthPointInPolyline(P2, v2(q)) : dfm2::ArcLengthPointInPolyline(P3v, v3(q));
    P3 x{99, 99, 99};
    double L = arc_point(p, al, x, false);
    if (L > 1e-12) {
      if (al > L && al < L + 1e-9) arc_point(p, L - 1e-12, x, false);
      MC_CHECK(c, mc::near(len(x - q), best, 1e-5), "nearest point of " F3 " at the arc length %.9g is at %.9g, should be at %.9g", A3(q), al, len(x - q), best);
    }
    if (dim == 2 && best > 1e-6) {
      // turning number by the crossings of the ray to the right
      double th = dfm2::WindingNumber_Polyline2(P2, v2(q)), w0 = 0;
      for (size_t j = 0; j + 1 < n; j++) {
        P3 a = p[j] - q, b = p[j + 1] - q;
        double ang = std::atan2(b.y, b.x) - std::atan2(a.y, a.x);
        while (ang > PI) ang -= 2 * PI;
        while (ang < -PI) ang += 2 * PI;
        w0 += ang;
      }
      MC_CHECK(c, mc::near(th, w0, 1e-9), "angle of the polyline around (%g,%g) is %.9g, should be %.9g", q.x, q.y, th, w0);
    }
  }
}
static void polyline_body(mc::Ch &c) {
  int dim = 2 + c.choose(2), n = 2 + c.choose(3);
  std::vector<P3> p(n);
  for (int i = 0; i < n; i++) {
    int m = dim == 2 ? 9 : 8;
    int k = i == 0 ? (dim == 2 ? c.choose(3) * 4 : c.choose(2) * 7) : c.choose(m);
    p[i] = dim == 2 ? grid2(k, 3) : grid3(k, 2, 2);
  }
  c.commit();
  c.describe("polyline of %d points in %dD", n, dim);
  std::vector<V2> P2;
  std::vector<V3> P3v;
  std::vector<V2f> P2f;
  for (auto &q: p) P2.push_back(v2(q)), P3v.push_back(v3(q));
  if (dim == 2) {
    polyline_check(c, p, P2, 2, "CVec2d");
    double A = 0;
    for (int i = 0; i + 1 < n; i++) A += (p[i].x * p[i + 1].y - p[i + 1].x * p[i].y) / 2;
    MC_CHECK(c, mc::near((double) dfm2::Area_Polyline2(P2), A, 1e-12), "area %g swept by the polyline, should be %g", (double) dfm2::Area_Polyline2(P2), A);
    auto T = P2, R = P2;
    dfm2::Translate(T, 0.5, -2.);
    dfm2::Rotate(R, 0.7);
    for (int i = 0; i < n; i++) {
      MC_CHECK(c, T[i][0] == p[i].x + 0.5 && T[i][1] == p[i].y - 2, "Translate");
      MC_CHECK(c, close(p3(R[i]), {std::cos(0.7) * p[i].x - std::sin(0.7) * p[i].y, std::sin(0.7) * p[i].x + std::cos(0.7) * p[i].y, 0}, 1e-12), "Rotate");
    }
  } else polyline_check(c, p, P3v, 3, "CVec3d");
  polyline_query(c, p, dim);
  mc::Hash h;
  for (auto &q: p) h << q.x << q.y << q.z;
  c.outcome(h);
}
static void polygon_body(mc::Ch &c) {
  int n = 3 + c.choose(c.thorough ? 3 : 2);
  double ox = c.pick({0., 5.});
  std::vector<P3> p(n);
  for (int i = 0; i < n; i++) p[i] = i ? grid2(c.choose(9), 3) : grid2(c.choose(2) * 4, 3);
  c.commit();
  for (auto &q: p) q.x += ox;
  c.describe("polygon of %d points", n);
  std::vector<V2> P;
  std::vector<V2f> Pf;
  for (auto &q: p) P.push_back(v2(q)), Pf.push_back(v2f(q));
  double A = 0, sx = 0, sy = 0, xx = 0, yy = 0, xy = 0;
  for (int i = 0; i < n; i++) {
    P3 a = p[i], b = p[(i + 1) % n];
    double d = a.x * b.y - b.x * a.y;
    A += d / 2;
    sx += d * (a.x + b.x) / 6, sy += d * (a.y + b.y) / 6;
    xx += d * (a.x * a.x + a.x * b.x + b.x * b.x) / 12;
    yy += d * (a.y * a.y + a.y * b.y + b.y * b.y) / 12;
    xy += d * (2 * a.x * a.y + a.x * b.y + b.x * a.y + 2 * b.x * b.y) / 24;
  }
  P3 dummy;
  double L = arc_point(p, 1e30, dummy, true);
  MC_CHECK(c, mc::near(dfm2::Length_Polygon(P), L, 1e-12), "length %g of the polygon, should be %g", dfm2::Length_Polygon(P), L);
  MC_CHECK(c, mc::near(dfm2::Area_Polygon(P), A, 1e-12), "area %g of the polygon, should be %g", dfm2::Area_Polygon(P), A);
  for (double l: {0.3, 0.77, 1.9}) {
    if (L < 1e-12 || std::fabs(L / l - std::round(L / l)) < 1e-6) continue;
    auto R = dfm2::Polygon_Resample_Polygon(P, l);
    size_t cnt = 1 + (size_t) std::floor(L / l);
    MC_CHECK(c, R.size() == cnt, "resampling a polygon of length %g at the distance %g gives %zu points, should be %zu", L, l, R.size(), cnt);
    for (size_t i = 1; i < R.size(); i++) {
      P3 w;
      arc_point(p, i * l, w, true);
      MC_CHECK(c, close(p3(R[i]), w, 1e-9), "point %zu of the resampled polygon is (%g,%g), should be (%g,%g)", i, R[i][0], R[i][1], w.x, w.y);
    }
  }
  auto inv = dfm2::Polygon_Invert(P);
  auto xyv = dfm2::XY_Polygon(P);
  MC_CHECK(c, (int) inv.size() == n && (int) xyv.size() == 2 * n, "sizes of the inverted and flattened polygon");
  for (int i = 0; i < n; i++) {
    MC_CHECK(c, close(p3(inv[i]), p[n - 1 - i], 0), "Polygon_Invert");
    MC_CHECK(c, xyv[i * 2] == p[i].x && xyv[i * 2 + 1] == p[i].y, "XY_Polygon");
  }
  for (P3 o: {P3{0, 0, 0}, P3{1, 2, 0}}) {
    double I = xx + yy - 2 * o.x * sx - 2 * o.y * sy + (o.x * o.x + o.y * o.y) * A;
    MC_CHECK(c, mc::near(dfm2::RotationalMomentPolar_Polygon2(P, v2(o)), I, 1e-11), "polar moment %g about (%g,%g), should be %g", dfm2::RotationalMomentPolar_Polygon2(P, v2(o)), o.x, o.y, I);
    MC_CHECK(c, mc::near((double) dfm2::RotationalMomentPolar_Polygon2(Pf, v2f(o)), I, 1e-5, 2e-4), "polar moment in float");
  }
  if (std::fabs(A) > 1e-9) {
    V2 cg(9, 9);
    double ar = 9;
    dfm2::CgArea_Polygon(cg, ar, P);
    MC_CHECK(c, mc::near(ar, A, 1e-12) && mc::near(cg[0], sx / A, 1e-11) && mc::near(cg[1], sy / A, 1e-11), "centre (%g,%g) and area %g, should be (%g,%g) and %g", cg[0], cg[1], ar, sx / A, sy / A, A);
    V2 a1, a2;
    double I1 = 9, I2 = 9;
    ar = 9;
    dfm2::SecondMomentOfArea_Polygon(cg, ar, a1, I1, a2, I2, P);
    MC_CHECK(c, mc::near(ar, A, 1e-12) && mc::near(cg[0], sx / A, 1e-11) && mc::near(cg[1], sy / A, 1e-11), "centre and area of the second moments");
    double cx = sx / A, cy = sy / A, Ix = yy - A * cy * cy, Iy = xx - A * cx * cx, Ixy = xy - A * cx * cy;
    auto about = [&](V2 u) { return Ix * u[0] * u[0] + Iy * u[1] * u[1] - 2 * Ixy * u[0] * u[1]; };
    MC_CHECK(c, mc::near(a1.norm(), 1, 1e-9) && mc::near(a2.norm(), 1, 1e-9) && std::fabs(a1.dot(a2)) < 1e-9, "principal axes are not orthonormal");
    MC_CHECK(c, mc::near(about(a1), I1, 1e-9, 1e-9) && mc::near(about(a2), I2, 1e-9, 1e-9) && I1 >= I2 - 1e-9, "principal moments %g, %g do not belong to the axes (moments about them %g, %g)", I1, I2, about(a1), about(a2));
    double prod = (Ix - Iy) * a1[0] * a1[1] + Ixy * (a1[0] * a1[0] - a1[1] * a1[1]);
    MC_CHECK(c, std::fabs(prod) < 1e-9 * (1 + std::fabs(Ix) + std::fabs(Iy)), "product of inertia %g in the principal axes", prod);
  }
  // closed quadratic B-spline through the mid points
  VD cv, cur{1, 2, 3};
  for (auto &q: p) cv.insert(cv.end(), {q.x, q.y});
  dfm2::makeSplineLoop(cv, cur);
  MC_CHECK(c, cur.size() % (2 * n) == 0 && !cur.empty(), "spline loop of %d control points has %zu numbers", n, cur.size());
  size_t nd = cur.size() / (2 * n);
  for (int i = 0; i < n; i++)
    for (size_t k = 0; k < nd; k++) {
      double s = (double) k / nd;
      P3 a = 0.5 * (p[i] + p[(i + 1) % n]), b = p[(i + 1) % n], d = 0.5 * (p[(i + 1) % n] + p[(i + 2) % n]);
      P3 w = (1 - s) * (1 - s) * a + 2 * s * (1 - s) * b + s * s * d;
      MC_CHECK(c, mc::near(cur[(i * nd + k) * 2], w.x, 1e-12) && mc::near(cur[(i * nd + k) * 2 + 1], w.y, 1e-12), "point %zu of span %d of the spline loop is (%g,%g), should be (%g,%g)", k, i, cur[(i * nd + k) * 2], cur[(i * nd + k) * 2 + 1], w.x, w.y);
    }
  mc::Hash h;
  h << (uint64_t) std::llround(A * 2) << n;
  c.outcome(h);
}

// ---------- 9. points of the plane, frames and rotations
static void plane2_body(mc::Ch &c) {
  int i = c.choose(16), j = c.choose(16);
  double sc = SC[c.choose(3)];
  c.commit();
  P3 a = grid2(i, 4, sc), b = grid2(j, 4, sc);
  c.describe("points (%g,%g), (%g,%g) and others of the grid", a.x, a.y, b.x, b.y);
  MC_CHECK(c, mc::near(dfm2::Distance(v2(a), v2(b)), len(a - b), 1e-12) && mc::near(dfm2::SquareDistance(v2(a), v2(b)), dot(a - b, a - b), 1e-12), "distance of two points");
  MC_CHECK(c, mc::near(dfm2::Cross(v2(a), v2(b)), cross(a, b).z, 1e-12) && mc::near(v2(a) ^ v2(b), cross(a, b).z, 1e-12) && mc::near(dfm2::Dot(v2(a), v2(b)), dot(a, b), 1e-12) && mc::near(v2(a).dot(v2(b)), dot(a, b), 1e-12), "products of two vectors");
  MC_CHECK(c, mc::near(dfm2::Length(v2(a)), len(a), 1e-12) && mc::near(dfm2::SquareLength(v2(a)), dot(a, a), 1e-12), "length");
  for (double t: {0.3, -2.}) {
    P3 w{std::cos(t) * a.x - std::sin(t) * a.y, std::sin(t) * a.x + std::cos(t) * a.y, 0};
    MC_CHECK(c, close(p3(dfm2::rotate(v2(a), t)), w, 1e-12 * sc * 8) && close(p3(v2(a).Rotate(t)), w, 1e-12 * sc * 8), "rotation");
  }
  MC_CHECK(c, close(p3(dfm2::rotate90(v2(a))), {-a.y, a.x, 0}, 0), "rotate90");
  double M2[4] = {1, 2, -3, 0.5}, M3[9] = {1, 2, 3, -1, 0.5, 2, 0.25, 0, 1};
  MC_CHECK(c, close(p3(dfm2::Mat2Vec(M2, v2(a))), {a.x + 2 * a.y, -3 * a.x + 0.5 * a.y, 0}, 1e-12 * sc * 8), "Mat2Vec");
  double wz = 0.25 * a.x + 1;
  MC_CHECK(c, close(p3(v2(a).Mat3Vec2_AffineProjection(M3)), {(a.x + 2 * a.y + 3) / wz, (-a.x + 0.5 * a.y + 2) / wz, 0}, 1e-12 * sc * 16), "Mat3Vec2_AffineProjection");
  MC_CHECK(c, close(p3(v2(a).Mat3Vec2_AffineDirection(M3)), {a.x + 2 * a.y, -a.x + 0.5 * a.y, 0}, 1e-12 * sc * 16), "Mat3Vec2_AffineDirection");
  for (int k = 0; k < 16; k++) {
    P3 d = grid2(k, 4, sc);
    double A = cross(b - a, d - a).z / 2;
    std::vector<V2> pts{v2(d), V2(-7, -7), v2(a), v2(b)};
    MC_CHECK(c, mc::near(dfm2::Area_Tri2(v2(a), v2(b), v2(d)), A, 1e-12) && mc::near((double) dfm2::Area_Tri2(v2f(a), v2f(b), v2f(d)), A, 1e-5), "area of a triangle");
    MC_CHECK(c, mc::near(dfm2::Area_Tri(2, 3, 0, pts), A, 1e-12), "area of a triangle by index");
    if (A == 0) continue;
    c.step(1);
    MC_CHECK(c, mc::near(std::fabs(dfm2::TriHeight(v2(a), v2(b), v2(d))), 2 * std::fabs(A) / len(b - d), 1e-12), "TriHeight");
    double aa = dot(b - a, b - a), bb = dot(d - a, d - a);
    P3 o{a.x + ((d - a).y * aa - (b - a).y * bb) / (4 * A), a.y + ((b - a).x * bb - (d - a).x * aa) / (4 * A), 0};
    V2 ctr(9, 9);
    MC_CHECK(c, dfm2::CenterCircumcircle(v2(a), v2(b), v2(d), ctr) && close(p3(ctr), o, 1e-10 * sc), "circumcentre (%g,%g), should be (%g,%g)", ctr[0], ctr[1], o.x, o.y);
    MC_CHECK(c, mc::near(dfm2::SquareCircumradius(v2(a), v2(b), v2(d)), dot(o - a, o - a), 1e-10), "circumradius");
    for (int m = 0; m < 16; m++) {
      P3 e = grid2(m, 4, sc);
      double in = dot(o - a, o - a) - dot(o - e, o - e);
      int g = dfm2::DetDelaunay(v2(a), v2(b), v2(d), v2(e));
      if (std::fabs(in) > 1e-9 * sc * sc) MC_CHECK(c, g == (in > 0 ? 0 : 2), "point (%g,%g) is %s the circle of (%g,%g),(%g,%g),(%g,%g), DetDelaunay says %d", e.x, e.y, in > 0 ? "inside" : "outside", a.x, a.y, b.x, b.y, d.x, d.y, g);
    }
    double Mm[9];
    U ip[3] = {2, 3, 0};
    for (auto &x: Mm) x = 77;
    dfm2::MakeMassMatrixTri(Mm, 3., ip, pts);
    for (int r = 0; r < 3; r++) for (int s = 0; s < 3; s++) MC_CHECK(c, mc::near(Mm[r * 3 + s], 3 * A / (r == s ? 6 : 12), 1e-12), "mass matrix entry %d %d is %g, should be %g", r, s, Mm[r * 3 + s], 3 * A / (r == s ? 6 : 12));
  }
  c.outcome_of(i, j);
}
template<class VEC>
static void frame_check(mc::Ch &c, P3 n, VEC N, double tol, const char *nm) {
  VEC ex(9, 9, 9), ey(9, 9, 9);
  dfm2::FrameFromVectorZ(ex, ey, N);
  P3 x = p3(ex), y = p3(ey);
  MC_CHECK(c, mc::near(len(x), 1, tol) && mc::near(len(y), 1, tol) && std::fabs(dot(x, y)) < tol && std::fabs(dot(x, n)) < tol && std::fabs(dot(y, n)) < tol, "%s: frame " F3 "," F3 " of the normal " F3 " is not orthonormal", nm, A3(x), A3(y), A3(n));
  MC_CHECK(c, close(cross(x, y), n, tol * 4), "%s: frame " F3 "," F3 " of the normal " F3 " is not right-handed", nm, A3(x), A3(y), A3(n));
}
static void vec3_body(mc::Ch &c) {
  int i = c.choose(27), j = c.choose(27);
  double len_rot = c.pick({0., 0.5, 2., 3.14159265358979, 5.});
  c.commit();
  P3 a = grid3(i, 3, 1, -1), b = grid3(j, 3, 1, -1);
  c.describe("vectors " F3 " and " F3, A3(a), A3(b));
  if (dot(a, a) > 0) {
    P3 n = (1 / len(a)) * a;
    frame_check<V3>(c, n, v3(n), 1e-12, "CVec3d");
    frame_check<V3f>(c, n, v3f(n), 1e-6, "CVec3f");
    P3 r = len_rot * n;
    // Rodrigues
    double ct = std::cos(len_rot), st = std::sin(len_rot);
    P3 w = ct * b + st * cross(n, b) + ((1 - ct) * dot(n, b)) * n;
    P3 g = p3(dfm2::RotateVec3WithAxisAngleVector(v3(b), v3(r)));
    MC_CHECK(c, close(g, w, 1e-10), F3 " rotated by " F3 " is " F3 ", should be " F3, A3(b), A3(r), A3(g), A3(w));
    g = p3(dfm2::RotateVec3WithAxisAngleVector(v3f(b), v3f(r)));
    MC_CHECK(c, close(g, w, 1e-5), F3 " rotated by " F3 " in float is " F3 ", should be " F3, A3(b), A3(r), A3(g), A3(w));
  }
  MC_CHECK(c, close(p3(dfm2::Cross(v3(a), v3(b))), cross(a, b), 0) && close(p3(v3(a).cross(v3(b))), cross(a, b), 0), "cross product");
  double q[3] = {9, 9, 9}, x[3] = {A3(a)}, y[3] = {A3(b)}, z[3] = {4, -1, 2}, o[3] = {0.5, 7, 1};
  dfm2::Cross(q, x, y);
  MC_CHECK(c, close(p3(q), cross(a, b), 0), "cross product of arrays");
  MC_CHECK(c, dfm2::Dot3(v3(a), v3(b)) == dot(a, b) && mc::near(dfm2::Distance3(v3(a), v3(b)), len(a - b), 1e-12) && dfm2::SquareDistance3(v3(a), v3(b)) == dot(a - b, a - b) && mc::near(dfm2::Length3(v3(a)), len(a), 1e-12) && dfm2::SquareLength3(x) == dot(a, a), "length and distance");
  P3 d{z[0], z[1], z[2]};
  MC_CHECK(c, mc::near(dfm2::ScalarTripleProduct(v3(a), v3(b), v3(d)), dot(a, cross(b, d)), 1e-12), "triple product");
  dfm2::AverageTwo3(q, x, y);
  MC_CHECK(c, close(p3(q), 0.5 * (a + b), 1e-12), "AverageTwo3");
  dfm2::AverageFour3(q, x, y, z, o);
  MC_CHECK(c, close(p3(q), 0.25 * (a + b + d + P3{o[0], o[1], o[2]}), 1e-12), "AverageFour3");
  dfm2::Add3(q, x);
  MC_CHECK(c, close(p3(q), 0.25 * (a + b + d + P3{o[0], o[1], o[2]}) + a, 1e-12), "Add3");
  if (dot(a, a) > 0) {
    V3 u = v3(a);
    dfm2::Normalize3(u);
    MC_CHECK(c, close(p3(u), (1 / len(a)) * a, 1e-12) && close(p3(v3(a).normalized()), (1 / len(a)) * a, 1e-12), "normalisation");
  }
  c.outcome_of(i, j);
}

int main(int argc, char **argv) {
  std::cout.rdbuf(nullptr);
  std::cerr.rdbuf(nullptr);
  return mc::run(argc, argv, {"C11", "exploration", {"configurations that rounding decides (touching triangles, rays through an edge) are not judged except where the coordinates make the decision exact", "bilinear quads are parallelograms"}},
                 {{"edge-point", edge_body, "all edges (also degenerate) with corners on a 3x3 or 3x3x3 grid at three scales, queries on a larger grid, float and double"},
                  {"edges-2d", edges2_body, "all pairs of edges (also degenerate, collinear, touching) on a grid of the plane at three scales"},
                  {"box-edge-2d", aabb2_body, "all boxes (also flat) and edges on a grid of the plane at three scales"},
                  {"lines", lines_body, "pairs of lines with grid origins and ten directions, queries and edges on a grid"},
                  {"edges-3d", edges3_body, "all pairs of proper edges on a 3x3x3 grid, three contact distances"},
                  {"parallel-edges", parallel_body, "parallel edges along ten directions: overlapping, nested, apart, reversed"},
                  {"line-circle", circle_body, "circles with ten normals, eight centres, two radii; lines in ten directions"},
                  {"planes", plane_body, "planes with ten normals and 27 origins at three scales, points and lines on a grid"},
                  {"triangle-point", tri_point_body, "24 triangles in all six orders at two scales, query points on a half grid"},
                  {"triangle-line", tri_line_body, "24 triangles, lines through all pairs of a coarse and a fine grid"},
                  {"triangle-pairs", tri_pair_body, "24 triangles (rotated, flipped, swapped) against every triangle of the 3x3x3 grid"},
                  {"solid-angle", solid_angle_body, "all triangles with corners on a 3x3x3 grid around the origin"},
                  {"parallelograms", quad_body, "72 parallelograms at two scales, query points and lines"},
                  {"tetrahedra", tet_body, "all tetrahedra with three corners on a 3x3x3 grid"},
                  {"boxes-of-points", boxpts_body, "all patterns of the sides of 3 to 6 points on one axis"},
                  {"polylines", polyline_body, "all polylines up to 4 points on a grid (also with repeated points) in 2D and 3D"},
                  {"polygons", polygon_body, "all polygons up to 4 (5) points on a 3x3 grid, also folded and self-crossing"},
                  {"plane-vectors", plane2_body, "all triples and quadruples of points of a 4x4 grid at three scales"},
                  {"space-vectors", vec3_body, "all pairs of vectors of a 3x3x3 grid, five rotation angles"}});
}
