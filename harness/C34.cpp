// C34: cameras project, handles are picked and dragged the way the matrices say.
#include "mc.h"
#include <cmath>
#include <iostream>
#include <fstream>
#include <unistd.h>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/mat4.h"
#include "delfem2/geo_tri.h"
#include "delfem2/cvcamera.h"
#include "delfem2/metashape_camera.h"
#include "delfem2/gizmo_geo3.h"

namespace dfm2 = delfem2;
typedef double D;
typedef std::array<D, 3> A3;
typedef std::array<D, 16> M4;
static A3 operator+(A3 a, A3 b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
static A3 operator-(A3 a, A3 b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static A3 operator*(D s, A3 a) { return {s * a[0], s * a[1], s * a[2]}; }
static D dot(A3 a, A3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static A3 cross(A3 a, A3 b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static D len(A3 a) { return std::sqrt(dot(a, a)); }
static A3 unit(A3 a) { return (1 / len(a)) * a; }
static dfm2::CVec3d v3(A3 a) { return {a[0], a[1], a[2]}; }
static A3 a3(const dfm2::CVec3d &v) { return {v.x, v.y, v.z}; }
static M4 mul(const M4 &a, const M4 &b) {
  M4 r;
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { r[i * 4 + j] = 0; for (int k = 0; k < 4; ++k) r[i * 4 + j] += a[i * 4 + k] * b[k * 4 + j]; }
  return r;
}
static std::array<D, 4> app(const M4 &m, A3 p) {
  std::array<D, 4> r;
  for (int i = 0; i < 4; ++i) r[i] = m[i * 4] * p[0] + m[i * 4 + 1] * p[1] + m[i * 4 + 2] * p[2] + m[i * 4 + 3];
  return r;
}
static std::array<D, 2> scr(const M4 &m, A3 p) { auto q = app(m, p); return {q[0] / q[3], q[1] / q[3]}; }
// rotation about an axis by an angle
static A3 rot(A3 ax, D t, A3 v) {
  ax = unit(ax);
  return std::cos(t) * v + std::sin(t) * cross(ax, v) + (1 - std::cos(t)) * dot(ax, v) * ax;
}
static const A3 AX[6] = {{0, 0, 1}, {1, 0, 0}, {0, 1, 0}, {1, 1, 0}, {1, -2, .5}, {-1, 1, 1}};
static M4 rigid(A3 ax, D t, A3 tr) {
  M4 m{};
  for (int j = 0; j < 3; ++j) { A3 e{0, 0, 0}; e[j] = 1; A3 r = rot(ax, t, e); for (int i = 0; i < 3; ++i) m[i * 4 + j] = r[i]; }
  for (int i = 0; i < 3; ++i) m[i * 4 + 3] = tr[i];
  m[15] = 1;
  return m;
}
static M4 perspective(D f, D asp, D n, D fr) {
  return {f / asp, 0, 0, 0, 0, f, 0, 0, 0, 0, -(fr + n) / (fr - n), -2 * fr * n / (fr - n), 0, 0, -1, 0};
}
static M4 ortho(D s) { return {s, 0, 0, 0.125, 0, s, 0, -0.25, 0, 0, -0.01, 0, 0, 0, 0, 1}; }
static void flt(float *o, const M4 &m) { for (int i = 0; i < 16; ++i) o[i] = (float) m[i]; }
static M4 dbl(const float *o) { M4 m; for (int i = 0; i < 16; ++i) m[i] = o[i]; return m; }

// ---------- cameras
template<typename T> static bool calib(mc::Ch &c, const D *p, D cx, D cy, D f, const D k[5], unsigned w, unsigned h) {
  T P[3] = {(T) p[0], (T) p[1], (T) p[2]}, o[2] = {99, 99};
  dfm2::ProjectionCameraWithCalibration<T>(o, P, (T) cx, (T) cy, (T) f, (T) k[0], (T) k[1], (T) k[2], (T) k[3], (T) k[4], w, h);
  const D x = p[0] / p[2], y = p[1] / p[2], r2 = x * x + y * y, t = 1 + k[0] * r2 + k[1] * r2 * r2 + k[2] * r2 * r2 * r2;
  const D X = x * t + k[3] * (r2 + 2 * x * x) + 2 * k[4] * x * y, Y = y * t + k[4] * (r2 + 2 * y * y) + 2 * k[3] * x * y;
  const D e[2] = {w * 0.5 + cx + f * X, h * 0.5 + cy + f * Y};
  for (int i = 0; i < 2; ++i) if (!mc::near((D) o[i], e[i], sizeof(T) == 4 ? 1e-4 : 1e-10)) { c.fail("calibrated projection: coordinate %d is %.9g, expected %.9g", i, (D) o[i], e[i]); return false; }
  return true;
}
static void camera(mc::Ch &c) {
  const D p[3] = {(D) c.choose(4) - 1, (D) c.choose(4) * 0.5 - 0.5, c.pick({1., 2., 0.5, -2.})};
  const D f = c.pick({1., 40., 2.5}), cx = c.pick({0., 3.}), cy = c.pick({0., -1.5});
  const int kk = c.choose(8);
  const unsigned w = c.pick({10u, 7u}), h = c.pick({10u, 5u});
  c.commit();
  c.describe("point (%g %g %g) f %g centre (%g %g) distortion %d image %ux%u", p[0], p[1], p[2], f, cx, cy, kk, w, h);
  static const D K[8][5] = {{0, 0, 0, 0, 0}, {1, 0, 0, 0, 0}, {0, .5, 0, 0, 0}, {0, 0, .25, 0, 0}, {0, 0, 0, 1, 0}, {0, 0, 0, 0, 1}, {.1, -.2, .3, -.4, .5}, {0, 0, 0, -1, 2}};
  if (!calib<D>(c, p, cx, cy, f, K[kk], w, h)) return;
  if (!calib<float>(c, p, cx, cy, f, K[kk], w, h)) return;
  // pinhole matrices are the projection without distortion
  D o[2];
  const D z0[5] = {};
  (void) z0;
  dfm2::ProjectionCameraWithCalibration<D>(o, p, cx, cy, f, 0, 0, 0, 0, 0, w, h);
  auto mi = dfm2::Mat4_CameraInternal_MetashapePinhole((float) f, (float) cx, (float) cy, (float) w, (float) h);
  auto s = scr(dbl(mi.data()), {p[0], p[1], p[2]});
  MC_CHECK(c, mc::near(s[0], o[0], 1e-6) && mc::near(s[1], o[1], 1e-6), "pinhole matrix leads to (%g %g), the projection to (%g %g)", s[0], s[1], o[0], o[1]);
  auto ms = dfm2::Mat4_Image2Screen((float) w, (float) h, (float) f);
  auto q = app(dbl(ms.data()), {o[0], o[1], p[2]});
  MC_CHECK(c, mc::near(q[0], 2 * o[0] / w - 1, 1e-5) && mc::near(q[1], 1 - 2 * o[1] / h, 1e-5) && mc::near(q[2], f * p[2], 1e-5) && q[3] == 1, "image to screen: (%g %g %g %g)", q[0], q[1], q[2], q[3]);
  // interior matrix of a camera that looks along -z with y up
  float Kf[9] = {9, 9, 9, 9, 9, 9, 9, 9, 9};
  const D sw = c.thorough ? 36 : 35 + cx;
  dfm2::SetCameraInteriorMat(Kf, w, h, (float) sw, (float) f);
  if (p[2] > 0) {
    const D P[3] = {p[0], p[1], -p[2]};
    D r[3];
    for (int i = 0; i < 3; ++i) r[i] = (D) Kf[i * 3] * P[0] + (D) Kf[i * 3 + 1] * P[1] + (D) Kf[i * 3 + 2] * P[2];
    const D fp = f * w / sw;
    MC_CHECK(c, mc::near(r[2], p[2], 1e-6) && mc::near(r[0] / r[2], w * .5 + fp * p[0] / p[2], 1e-5) && mc::near(r[1] / r[2], h * .5 - fp * p[1] / p[2], 1e-5), "interior matrix: (%g %g %g)", r[0], r[1], r[2]);
  }
  c.outcome_of(o[0], o[1]);
}

static const D MS[5][16] = {
  {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}, {2, 1, 0, 3, -1, 1, 2, 0, 0, 0, 1, 0, 0, 0, 1, 4},
  {1, 2, 3, 4, 5, 6, 7, 8, 1, 0, 0, 1, 1, -1, 2, 5}, {0, 1, 0, 0, 1, 0, 0, 0, 0, 0, -1, 0, .5, .25, -1, 3},
  {3, 0, 1, -2, 0, 2, -1, 1, 9, 9, 9, 9, -1, 1, 1, -7}};
template<typename V, typename T> static bool cdc(mc::Ch &c, const D *m, const D *p) {
  T M[16], P[3], o[2] = {99, 99}, d[2][3];
  for (int i = 0; i < 16; ++i) M[i] = (T) m[i];
  for (int i = 0; i < 3; ++i) P[i] = (T) p[i];
  dfm2::CdC_ScreenCoordinate<V, T>(o, d, M, P);
  D q[4];
  for (int i = 0; i < 4; ++i) q[i] = m[i * 4] * p[0] + m[i * 4 + 1] * p[1] + m[i * 4 + 2] * p[2] + m[i * 4 + 3];
  const D tol = sizeof(T) == 4 ? 1e-4 : 1e-10;
  for (int i = 0; i < 2; ++i) {
    if (!mc::near((D) o[i], q[i] / q[3], tol)) { c.fail("screen coordinate %d: %.9g expected %.9g", i, (D) o[i], q[i] / q[3]); return false; }
    for (int k = 0; k < 3; ++k) {
      const D e = (m[i * 4 + k] * q[3] - q[i] * m[12 + k]) / (q[3] * q[3]);
      if (!mc::near((D) d[i][k], e, tol)) { c.fail("derivative %d %d: %.9g expected %.9g", i, k, (D) d[i][k], e); return false; }
    }
  }
  return true;
}
static void derivative(mc::Ch &c) {
  const int im = c.choose(5);
  const D p[3] = {c.choose(7) * .5 - 1.5, c.choose(7) * .5 - 1.5, c.choose(7) * .5 - 1.5};
  c.commit();
  c.describe("matrix %d point (%g %g %g)", im, p[0], p[1], p[2]);
  const D w = MS[im][12] * p[0] + MS[im][13] * p[1] + MS[im][14] * p[2] + MS[im][15];
  c.require(std::fabs(w) > 0.2);
  if (!cdc<dfm2::CVec3d, D>(c, MS[im], p)) return;
  if (!cdc<dfm2::CVec3f, float>(c, MS[im], p)) return;
  c.outcome_of(w);
}

static const D ANG[5] = {0, 0.5, 1.25, 2.0, -0.875};
static void metashape(mc::Ch &c) {
  const int ia = c.choose(6), it = c.choose(5), tr = c.choose(3), sens = c.choose(3), order = c.choose(2);
  c.commit();
  c.describe("axis %d angle %g position %d sensor %d order %d", ia, ANG[it], tr, sens, order);
  static const A3 TR[3] = {{0, 0, 0}, {1, 2, -3}, {-.5, 0, 4}};
  dfm2::MetashapeCamConfig cfg;
  cfg.aSensor.resize(3);
  for (int i = 0; i < 3; ++i) {
    auto &s = cfg.aSensor[i];
    s.f = 2.f + i; s.cx = .5f * i; s.cy = -.25f * i; s.k1 = s.k2 = s.k3 = s.p1 = s.p2 = .1f; s.width = 8 + 2 * i; s.height = 6 + i;
  }
  const M4 T = rigid(AX[ia], ANG[it], TR[tr]);
  cfg.aCamera.resize(2);
  for (int i = 0; i < 2; ++i) {
    auto &cam = cfg.aCamera[i];
    cam.id_sensor = i == order ? sens : (sens + 1) % 3;
    cam.has_transform = true;
    const M4 &m = i == order ? T : rigid({0, 1, 0}, 1, {9, 9, 9});
    for (int k = 0; k < 16; ++k) cam.transform.mat[k] = (float) m[k];
  }
  auto [mv, mp] = dfm2::CameraTransformationMVP(cfg, order);
  const M4 MV = dbl(mv.mat), MP = dbl(mp.mat), A = mul(MP, MV);
  // every point in front of the camera goes where its projection is on the screen
  for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = 1; z <= 3; z += 2) {
    const A3 l{x * .5, y * .75, (D) z};
    auto g = app(T, l);
    D o[2];
    const auto &s = cfg.aSensor[sens];
    const D P[3] = {l[0], l[1], l[2]};
    dfm2::ProjectionCameraWithCalibration<D>(o, P, s.cx, s.cy, s.f, 0, 0, 0, 0, 0, s.width, s.height);
    auto q = scr(A, {g[0], g[1], g[2]});
    MC_CHECK(c, mc::near(q[0], 2 * o[0] / s.width - 1, 2e-4) && mc::near(q[1], 1 - 2 * o[1] / s.height, 2e-4), "point (%g %g %g) of the camera is at (%g %g) of the screen, its projection is pixel (%g %g)", l[0], l[1], l[2], q[0], q[1], o[0], o[1]);
    auto v = app(MV, {g[0], g[1], g[2]});   // the view looks along -z with y up
    MC_CHECK(c, mc::near(v[0], l[0], 1e-4) && mc::near(v[1], -l[1], 1e-4) && mc::near(v[2], -l[2], 1e-4) && mc::near(v[3], 1, 1e-4), "model view: (%g %g %g %g)", v[0], v[1], v[2], v[3]);
    c.tick();
  }
  c.outcome_of(ia, it);
}
// nearest camera by its viewing direction
static void snap(mc::Ch &c) {
  const int n = 1 + c.choose(4), base = c.choose(6), inact = c.choose(4), view = c.choose(8);
  c.commit();
  c.describe("%d cameras, family %d, inactive %d, view %d", n, base, inact, view);
  dfm2::MetashapeCamConfig cfg;
  cfg.aSensor.resize(2);
  for (auto &s : cfg.aSensor) { s.f = 2; s.cx = s.cy = 0; s.width = s.height = 8; s.k1 = s.k2 = s.k3 = s.p1 = s.p2 = 0; }
  // orientation by yaw and pitch; the third has a pole among them
  static const D YP[8][2] = {{0, 0}, {1.2, .3}, {3.0, -.2}, {-3.0, -.2}, {-1, 1.5707963267948966}, {2.2, -.9}, {-1.7, .8}, {.4, -1.5707963267948966}};
  auto orient = [](int k) {
    return mul(rigid({0, 1, 0}, YP[k][0], {0, 0, 0}), rigid({1, 0, 0}, YP[k][1], {0, 0, 0}));
  };
  auto dirof = [&](const M4 &camToWorld) { return A3{camToWorld[2], camToWorld[6], camToWorld[10]}; };
  const M4 zinv{1, 0, 0, 0, 0, -1, 0, 0, 0, 0, -1, 0, 0, 0, 0, 1};
  cfg.aCamera.resize(n);
  std::vector<A3> ds(n);
  for (int i = 0; i < n; ++i) {
    M4 m = orient((base + i * 3) % 8);
    m[3] = i; m[7] = .5 * i; m[11] = -1;
    const bool off = inact == 1 ? i == 0 : inact == 2 ? i == 1 : inact == 3 ? i == n - 1 : false;
    cfg.aCamera[i].id_sensor = off ? (i % 2 ? -1 : 2) : i % 2;
    for (int k = 0; k < 16; ++k) cfg.aCamera[i].transform.mat[k] = (float) m[k];
    ds[i] = -1 * dirof(m);
  }
  // the view: like a camera of the family turned a little
  M4 w = mul(orient(view), rigid({0, 1, 0}, .1, {0, 0, 0}));
  w = mul(w, zinv);
  M4 mv{};
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) mv[i * 4 + j] = w[j * 4 + i];
  mv[3] = .5; mv[7] = -1; mv[11] = 2; mv[15] = 1;
  dfm2::CMat4f MVf;
  flt(MVf.mat, mv);
  const A3 d0 = dirof(w);
  c.require(std::fabs(d0[1]) < .98);
  const unsigned r = dfm2::SnapCamera(MVf, cfg);
  auto metric = [&](A3 a, A3 b) {
    const D ph = std::asin(std::clamp(a[1], -1., 1.)) - std::asin(std::clamp(b[1], -1., 1.));
    D th = std::fabs(std::atan2(a[0], a[2]) - std::atan2(b[0], b[2]));
    th = std::min(th, 2 * M_PI - th);
    return ph * ph + th * th;
  };
  unsigned best = UINT_MAX;
  D bd = 1e9, sec = 1e9;
  for (int i = 0; i < n; ++i) {
    const int s = cfg.aCamera[i].id_sensor;
    if (s < 0 || s >= 2) continue;
    // at the pole the longitude is undefined: the most that can be said is its range
    const bool pole = std::fabs(ds[i][1]) > .999;
    if (pole) {
      const D ph = std::asin(std::clamp(d0[1], -1., 1.)) - std::asin(std::clamp(ds[i][1], -1., 1.));
      sec = std::min(sec, ph * ph);
      if (best == UINT_MAX) best = UINT_MAX - 1;
      continue;
    }
    const D m = metric(d0, ds[i]);
    if (m < bd) { sec = std::min(sec, bd); bd = m; best = i; } else sec = std::min(sec, m);
  }
  if (best == UINT_MAX) MC_CHECK(c, r == UINT_MAX, "no camera is active, but %u was found", r);
  else {
    MC_CHECK(c, r < (unsigned) n && cfg.aCamera[r].id_sensor >= 0 && cfg.aCamera[r].id_sensor < 2, "camera %u", r);
    if (best < (unsigned) n && sec > bd + 1e-3) MC_CHECK(c, r == best, "camera %u was found, camera %u is nearer (%g, next %g)", r, best, bd, sec);
  }
  c.outcome_of(r);
}
static void camfile(mc::Ch &c) {
  const int n = c.choose(4), old = c.choose(3), miss = c.choose(2);
  c.commit();
  c.describe("%d cameras, array of %d before, missing %d", n, old, miss);
  char path[] = "/tmp/verifC34XXXXXX";
  int fd = mkstemp(path);
  close(fd);
  std::vector<dfm2::CCvCamera> w(n), r(old * 2);
  {
    std::ofstream f(path);
    f << n << "\n";
    for (int i = 0; i < n; ++i) {
      snprintf(w[i].name, 32, "cam%d.png", i * 7);
      f << i << " " << w[i].name << "\n";
      for (int k = 0; k < 9; ++k) { w[i].K[k] = .25f * (k + 10 * i) - 1; f << w[i].K[k] << " "; }
      for (int k = 0; k < 3; ++k) { w[i].t[k] = .5f * k - i; f << w[i].t[k] << (k == 2 ? "\n" : " "); }
      for (int k = 0; k < 9; ++k) { w[i].R[k] = .125f * k * (i + 1); f << w[i].R[k] << " "; }
      f << "\n";
    }
  }
  if (miss) unlink(path);
  const bool ok = dfm2::ReadCamera(r, path);
  unlink(path);
  MC_CHECK(c, ok == !miss, "returned %d", ok);
  if (!miss) {
    MC_CHECK(c, r.size() == w.size(), "%zu cameras", r.size());
    for (int i = 0; i < n; ++i) {
      MC_CHECK(c, std::string(r[i].name) == w[i].name, "name of camera %d: %s", i, r[i].name);
      for (int k = 0; k < 9; ++k) MC_CHECK(c, r[i].K[k] == w[i].K[k] && r[i].R[k] == w[i].R[k] && r[i].t[k % 3] == w[i].t[k % 3], "camera %d entry %d", i, k);
    }
  }
  c.outcome_of(n, old);
}

// ---------- picking on the screen
struct View { float mv[16], pj[16]; M4 m; D toView[3]; };
static View view_of(int iv, int ip) {
  static const D VA[4] = {0, .7, -1.9, 2.9};
  View v;
  const M4 mv = rigid(AX[(iv * 2 + 1) % 6], VA[iv], {.25, -.125, -6});
  const M4 pj = ip == 0 ? ortho(.25) : perspective(1.5, ip == 1 ? 1 : 1.6, 1, 40);
  flt(v.mv, mv);
  flt(v.pj, pj);
  v.m = mul(dbl(v.pj), dbl(v.mv));
  return v;
}
static D segdist(std::array<D, 2> p, std::array<D, 2> a, std::array<D, 2> b) {
  const D dx = b[0] - a[0], dy = b[1] - a[1], l = dx * dx + dy * dy;
  D t = l == 0 ? 0 : ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / l;
  t = std::clamp(t, 0., 1.);
  return std::hypot(p[0] - a[0] - t * dx, p[1] - a[1] - t * dy);
}
static const A3 PS[4] = {{0, 0, 0}, {1, -.5, .25}, {-.75, .5, 1}, {.5, 1, -1}};
static void screen(mc::Ch &c) {
  const View v = view_of(c.choose(4), c.choose(3));
  const A3 p = PS[c.choose(4)], ax = unit(AX[c.choose(6)]);
  const D L = c.pick({.5, 1.5}), tol = c.pick({.03, .15});
  const std::array<D, 2> o = scr(v.m, p);
  const std::array<D, 2> s{o[0] + (c.choose(5) - 2) * .11, o[1] + (c.choose(5) - 2) * .09};
  c.commit();
  c.describe("point (%g %g %g) axis (%g %g %g) length %g tolerance %g pointer (%g %g), point seen at (%g %g)", p[0], p[1], p[2], ax[0], ax[1], ax[2], L, tol, s[0], s[1], o[0], o[1]);
  const dfm2::CVec2d S(s[0], s[1]);
  auto judge = [&](bool r, D d, D slack, const char *what) {
    if (std::fabs(d - tol) < slack) return true;
    if (r != (d < tol)) { c.fail("%s: reported %d at distance %g", what, (int) r, d); return false; }
    return true;
  };
  if (!judge(dfm2::isPickPoint(S, v3(p), v.mv, v.pj, tol), std::hypot(s[0] - o[0], s[1] - o[1]), 1e-5, "point")) return;
  const auto a = scr(v.m, p + L * ax), b = scr(v.m, p - L * ax);
  if (!judge(dfm2::isPick_AxisHandler(S, v3(p), v3(ax), L, v.mv, v.pj, tol), segdist(s, a, b), 1e-5, "axis")) return;
  {
    A3 x = unit(cross(ax, std::fabs(ax[0]) < .6 ? A3{1, 0, 0} : A3{0, 1, 0})), y = cross(ax, x);
    D d = 1e9, ext = 0;
    const int N = 400;
    for (int i = 0; i < N; ++i) {
      auto q0 = scr(v.m, p + L * std::cos(2 * M_PI * i / N) * x + L * std::sin(2 * M_PI * i / N) * y), q1 = scr(v.m, p + L * std::cos(2 * M_PI * (i + 1) / N) * x + L * std::sin(2 * M_PI * (i + 1) / N) * y);
      d = std::min(d, segdist(s, q0, q1));
      ext = std::max(ext, std::hypot(q0[0] - o[0], q0[1] - o[1]));
    }
    if (!judge(dfm2::isPickCircle(S, v3(p), v3(ax), L, v.mv, v.pj, tol), d, .012 * ext + 1e-4, "circle")) return;
  }
  // dragging along the axis: the tip follows the pointer along the projected axis
  const D l = std::hypot(a[0] - b[0], a[1] - b[1]);
  if (l > .05) {
    for (int k = 0; k < 4; ++k) {
      const D dx = k == 0 ? .1 : k == 1 ? 0 : k == 2 ? -.03 : .07, dy = k == 0 ? 0 : k == 1 ? .05 : k == 2 ? .02 : -.11;
      const D r = ((a[0] - b[0]) * dx + (a[1] - b[1]) * dy) / (l * l) * L;
      const A3 g = a3(dfm2::drag_AxisHandler(S, dfm2::CVec2d(s[0] + dx, s[1] + dy), v3(p), v3(ax), L, v.mv, v.pj));
      MC_CHECK(c, len(g - r * ax) < 1e-4 * (1 + std::fabs(r)), "dragging by (%g %g) moves (%g %g %g), expected %g along the axis", dx, dy, g[0], g[1], g[2], r);
    }
  }
  c.outcome_of(o[0], o[1]);
}
static void quad(mc::Ch &c) {
  const View v = view_of(c.choose(4), c.choose(3));
  const A3 p = PS[c.choose(4)], ax = unit(AX[c.choose(6)]);
  const int flip = c.choose(2), iu = c.choose(6), iw = c.choose(6), start = c.choose(4);
  c.commit();
  A3 x = unit(cross(ax, std::fabs(ax[0]) < .6 ? A3{1, 0, 0} : A3{0, 1, 0})), y = cross(ax, x);
  A3 q[4] = {p - x - .5 * y, p + 1.25 * x - .5 * y, p + x + .75 * y, p - x + .5 * y};
  if (flip) std::swap(q[1], q[3]);
  std::rotate(q, q + start, q + 4);
  std::array<D, 2> s[4];
  for (int i = 0; i < 4; ++i) s[i] = scr(v.m, q[i]);
  D area = 0;
  for (int i = 0; i < 4; ++i) area += (s[i][0] * s[(i + 1) % 4][1] - s[i][1] * s[(i + 1) % 4][0]) / 2;
  c.require(std::fabs(area) > 1e-3);
  const D u = iu * .3 - .25, w = iw * .3 - .25;
  std::array<D, 2> m;
  for (int k = 0; k < 2; ++k) m[k] = (1 - u) * (1 - w) * s[0][k] + u * (1 - w) * s[1][k] + u * w * s[2][k] + (1 - u) * w * s[3][k];
  D mn = 1e9;
  for (int i = 0; i < 4; ++i) {
    auto &a = s[i], &b = s[(i + 1) % 4];
    mn = std::min(mn, ((a[0] - m[0]) * (b[1] - m[1]) - (a[1] - m[1]) * (b[0] - m[0])) / 2 / area);
  }
  const A3 n = flip ? -1 * ax : ax;
  for (const A3 &d : {A3{0, 0, -1}, A3{1, .25, .5}, A3{-.3, -1, .2}}) for (D eps : {0., .05}) {
    c.tick();
    if (std::fabs(mn - eps) < 1e-4 || std::fabs(dot(n, d)) < 1e-6) continue;
    const bool e = mn > eps && dot(n, d) < 0;
    const bool r = dfm2::isPickQuad(v3(q[0]), v3(q[1]), v3(q[2]), v3(q[3]), dfm2::CVec2d(m[0], m[1]), v3(d), v.mv, v.pj, eps);
    MC_CHECK(c, r == e, "quad with margin %g (share %g) along (%g %g %g): reported %d", eps, mn, d[0], d[1], d[2], (int) r);
  }
  c.outcome_of(area, mn);
}
// ray against a circle in its plane
static void raycircle(mc::Ch &c) {
  const A3 ax = AX[c.choose(6)], org = PS[c.choose(4)], dir = AX[c.choose(6)];
  const D rad = c.pick({.5, 1.25}), tol = c.pick({.05, .3});
  const A3 src{c.choose(4) * .5 - .75, c.choose(4) * .4 - .6, c.choose(2) * 2. - 1.2};
  c.commit();
  c.require(std::fabs(dot(dir, ax)) > 1e-9);
  c.describe("axis (%g %g %g) centre (%g %g %g) radius %g ray (%g %g %g)+(%g %g %g)", ax[0], ax[1], ax[2], org[0], org[1], org[2], rad, src[0], src[1], src[2], dir[0], dir[1], dir[2]);
  const D t = dot(org - src, ax) / dot(dir, ax), d = std::fabs(len(src + t * dir - org) - rad);
  if (std::fabs(d - tol) > 1e-9)
    MC_CHECK(c, dfm2::isPickCircle(v3(ax), v3(org), rad, v3(src), v3(dir), tol) == (d < tol), "distance %g", d);
  c.outcome_of(d < tol);
}

// ---------- handles
static D line_circle(A3 src, A3 dir, A3 org, A3 n, D rad, D *depth) {
  n = unit(n);
  A3 x = unit(cross(n, std::fabs(n[0]) < .6 ? A3{1, 0, 0} : A3{0, 1, 0})), y = cross(n, x);
  const A3 d = unit(dir);
  auto f = [&](D t) { A3 q = org + rad * std::cos(t) * x + rad * std::sin(t) * y - src; return len(q - dot(q, d) * d); };
  const int N = 720;
  int b = 0;
  for (int i = 1; i < N; ++i) if (f(2 * M_PI * i / N) < f(2 * M_PI * b / N)) b = i;
  D lo = 2 * M_PI * (b - 1) / N, hi = 2 * M_PI * (b + 1) / N;
  for (int i = 0; i < 60; ++i) { D a = lo + (hi - lo) / 3, e = hi - (hi - lo) / 3; if (f(a) < f(e)) hi = e; else lo = a; }
  if (depth) { A3 q = org + rad * std::cos(lo) * x + rad * std::sin(lo) * y - src; *depth = dot(q, d); }
  return f(lo);
}
static std::array<D, 4> quat_of(A3 ax, D t) { ax = unit(ax); return {std::sin(t / 2) * ax[0], std::sin(t / 2) * ax[1], std::sin(t / 2) * ax[2], std::cos(t / 2)}; }
static A3 qrot(const D *q, A3 v) {   // turn of a unit quaternion (x y z w)
  const A3 u{q[0], q[1], q[2]};
  return v + 2 * q[3] * cross(u, v) + 2 * cross(u, cross(u, v));
}
static void rotpick(mc::Ch &c) {
  const int ia = c.choose(6), it = c.choose(5), ip = c.choose(4), id = c.choose(6), ix = c.choose(6), iy = c.choose(6);
  const D rad = c.pick({1.1, .75}), tol = c.pick({.1, .02});
  c.commit();
  const auto q = quat_of(AX[ia], ANG[it]);
  const A3 pos = PS[ip], dir = unit(AX[id]);
  A3 x = unit(cross(dir, std::fabs(dir[0]) < .6 ? A3{1, 0, 0} : A3{0, 1, 0})), y = cross(dir, x);
  const A3 src = pos + (ix * .37 - .9) * x + (iy * .37 - .95) * y - 5 * dir;
  c.describe("turn %g about axis %d, centre (%g %g %g) radius %g tolerance %g ray (%g %g %g)+(%g %g %g)", ANG[it], ia, pos[0], pos[1], pos[2], rad, tol, src[0], src[1], src[2], dir[0], dir[1], dir[2]);
  // ds: true distance of each ring; ini: where the ray meets the plane of the ring (the search starts there and only comes nearer)
  D ds[3], ini[3], dep[3];
  int near = 0, sure = 0, first = -1;
  bool unk = false;
  for (int i = 0; i < 3; ++i) {
    A3 e{0, 0, 0};
    e[i] = 1;
    const A3 n = qrot(q.data(), e);
    ds[i] = line_circle(src, dir, pos, n, rad, &dep[i]);
    ini[i] = 1e9;
    if (std::fabs(dot(n, dir)) > 0.02) ini[i] = std::fabs(rad - len(src + (dot(pos - src, n) / dot(dir, n)) * dir - pos));
    unk |= std::fabs(ds[i] - tol) < .01 * tol + 1e-4;
    if (ds[i] < tol) near++;
    if (ini[i] < .99 * tol) { sure++; first = i; }
  }
  M4 m = rigid(AX[ia], ANG[it], pos);
  auto judge = [&](int r, const char *what) {
    if (r < -1 || r > 2) { c.fail("%s returns %d", what, r); return false; }
    if (unk) return true;
    if (r != -1 && ds[r] > tol) { c.fail("%s returns %d, the rings are at %g %g %g", what, r, ds[0], ds[1], ds[2]); return false; }
    if (near == 1 && sure == 1 && r != first) { c.fail("%s returns %d, the rings are at %g %g %g", what, r, ds[0], ds[1], ds[2]); return false; }
    if (near == 2 && sure == 2) {   // the ring in front, unless they are at the same depth
      int f = -1;
      D dd[3], lo = 1e9, hi = 1e9;
      for (int i = 0; i < 3; ++i) if (ini[i] < .99 * tol) {
        A3 e{0, 0, 0}; e[i] = 1; const A3 n = qrot(q.data(), e);
        dd[i] = dot(pos - src, n) / dot(dir, n);
        if (dd[i] < lo) { hi = lo; lo = dd[i]; f = i; } else hi = dd[i];
      }
      if (hi - lo > 4 * tol && r != f) { c.fail("%s returns %d, ring %d is in front (%g, %g)", what, r, f, lo, hi); return false; }
    }
    return true;
  };
  const int r0 = dfm2::PickHandlerRotation_PosQuat<D>(v3(src), v3(dir), v3(pos), q.data(), rad, tol);
  if (!judge(r0, "PickHandlerRotation_PosQuat")) return;
  dfm2::CGizmo_Rotation<D> gz;
  gz.pos = v3(pos);
  gz.size = rad;
  for (int i = 0; i < 4; ++i) gz.quat[i] = q[i];
  D s3[3] = {src[0], src[1], src[2]}, d3[3] = {dir[0], dir[1], dir[2]};
  gz.Pick(true, s3, d3, tol);
  MC_CHECK(c, gz.ielem_picked == r0, "handle: %d", gz.ielem_picked);
  gz.Pick(false, s3, d3, tol);
  MC_CHECK(c, gz.ielem_picked == -1, "released: %d", gz.ielem_picked);
  // Mat4Vec3 takes no translation into account
  D mm[16];
  for (int i = 0; i < 16; ++i) mm[i] = m[i];
  if (!judge(dfm2::PickHandlerRotation_Mat4(v3(src), v3(dir), mm, rad, tol), "PickHandlerRotation_Mat4")) return;
  c.outcome_of(r0);
}
template<typename T> static bool rotdrag_t(mc::Ch &c, const std::array<D, 4> &q, A3 pos, int el, D rad, A3 dir, D t0, D t1) {
  A3 e{0, 0, 0};
  e[el] = 1;
  const A3 va = qrot(q.data(), e);
  A3 x = unit(cross(va, std::fabs(va[0]) < .6 ? A3{1, 0, 0} : A3{0, 1, 0})), y = cross(va, x);
  const A3 c0 = pos + rad * std::cos(t0) * x + rad * std::sin(t0) * y, c1 = pos + rad * std::cos(t1) * x + rad * std::sin(t1) * y;
  dfm2::CGizmo_Rotation<T> gz;
  gz.pos = dfm2::CVec3<T>((T) pos[0], (T) pos[1], (T) pos[2]);
  gz.size = (T) rad;
  for (int i = 0; i < 4; ++i) gz.quat[i] = (T) q[i];
  gz.ielem_picked = el;
  const A3 s0 = c0 - 3 * dir, s1 = c1 - 3 * dir;
  T S0[3], S1[3], Dd[3];
  for (int i = 0; i < 3; ++i) { S0[i] = (T) s0[i]; S1[i] = (T) s1[i]; Dd[i] = (T) dir[i]; }
  gz.Drag(S0, S1, Dd);
  D g[4] = {(D) gz.quat[0], (D) gz.quat[1], (D) gz.quat[2], (D) gz.quat[3]};
  const D tol = sizeof(T) == 4 ? 5e-3 : 1e-5;
  if (!mc::near(g[0] * g[0] + g[1] * g[1] + g[2] * g[2] + g[3] * g[3], 1, tol)) { c.fail("the quaternion is not of unit length"); return false; }
  for (int i = 0; i < 3; ++i) {
    A3 f{0, 0, 0};
    f[i] = 1;
    const A3 want = rot(va, t1 - t0, qrot(q.data(), f)), got = qrot(g, f);
    if (!(len(want - got) < tol)) { c.fail("dragging ring %d from %g to %g takes axis %d to (%g %g %g), expected (%g %g %g)", el, t0, t1, i, got[0], got[1], got[2], want[0], want[1], want[2]); return false; }
  }
  if (a3(gz.pos.template cast<D>()) != A3{(D) (T) pos[0], (D) (T) pos[1], (D) (T) pos[2]}) { c.fail("the centre moved"); return false; }
  return true;
}
static void rotdrag(mc::Ch &c) {
  const int ia = c.choose(6), it = c.choose(5), ip = c.choose(3), el = c.choose(5) - 1, id = c.choose(3);
  const D rad = c.pick({1.1, .6}), t0 = c.pick({.1, 1.4, -2.2}), dt = c.pick({0., .3, -.8, 1.7, -2.6});
  c.commit();
  const auto q = quat_of(AX[ia], ANG[it]);
  c.describe("turn %g about axis %d, element %d radius %g from %g by %g, ray %d", ANG[it], ia, el, rad, t0, dt, id);
  if (el < 0 || el > 2) {
    dfm2::CGizmo_Rotation<D> g;
    for (int i = 0; i < 4; ++i) g.quat[i] = q[i];
    g.ielem_picked = el;
    D s0[3] = {0, 0, 5}, s1[3] = {1, 1, 5}, d[3] = {0, 0, -1};
    g.Drag(s0, s1, d);
    for (int i = 0; i < 4; ++i) MC_CHECK(c, g.quat[i] == q[i], "nothing was picked, but the handle turned");
    return;
  }
  A3 e{0, 0, 0};
  e[el] = 1;
  const A3 va = qrot(q.data(), e);
  A3 x = unit(cross(va, std::fabs(va[0]) < .6 ? A3{1, 0, 0} : A3{0, 1, 0})), y = cross(va, x);
  const A3 dir = unit(id == 0 ? va : id == 1 ? -1 * va + .3 * x : va + .3 * x - .35 * y);
  if (!rotdrag_t<D>(c, q, PS[ip], el, rad, dir, t0, t0 + dt)) return;
  if (!rotdrag_t<float>(c, q, PS[ip], el, rad, dir, t0, t0 + dt)) return;
  c.outcome_of(el, dt);
}
// turning with the pointer on the screen: about the own axis of the ring, with the pointer
static void screenrot(mc::Ch &c) {
  const View v = view_of(c.choose(4), c.choose(3));
  const int ia = c.choose(6), it = c.choose(5), ip = c.choose(4), el = c.choose(5) - 1, ib = c.choose(4), up = c.choose(3);
  c.commit();
  const auto q = quat_of(AX[ia], ANG[it]);
  const A3 pos = PS[ip];
  c.describe("turn %g about axis %d, ring %d, centre (%g %g %g), drag %d %d", ANG[it], ia, el, pos[0], pos[1], pos[2], ib, up);
  const M4 m = rigid(AX[ia], ANG[it], pos);
  const std::array<D, 2> o = scr(v.m, pos);
  const D b = ib * 1.6 + .2, da = up == 0 ? .1 : up == 1 ? -.15 : .3;
  const dfm2::CVec2d s0(o[0] + .3 * std::cos(b), o[1] + .3 * std::sin(b)), s1(o[0] + .35 * std::cos(b + da), o[1] + .35 * std::sin(b + da));
  D qa[4], qb[4], mm[16];
  for (int i = 0; i < 4; ++i) qa[i] = qb[i] = q[i];
  for (int i = 0; i < 16; ++i) mm[i] = m[i];
  const bool ra = dfm2::DragHandlerRot_PosQuat(qa, el, s0, s1, v3(pos), v.mv, v.pj);
  const bool rb = dfm2::DragHandlerRot_Mat4(qb, el, s0, s1, mm, v.mv, v.pj);
  const bool in = el >= 0 && el < 3;
  MC_CHECK(c, ra == in && rb == in, "returned %d %d", (int) ra, (int) rb);
  if (!in) { for (int i = 0; i < 4; ++i) MC_CHECK(c, qa[i] == q[i] && qb[i] == q[i], "nothing was picked, but the handle turned"); return; }
  A3 e{0, 0, 0};
  e[el] = 1;
  const A3 va = qrot(q.data(), e);
  // towards the viewer: the clip depth falls along the axis
  const D z = v.m[8] * va[0] + v.m[9] * va[1] + v.m[10] * va[2];
  c.require(std::fabs(z) > 1e-3);
  A3 x = unit(cross(va, std::fabs(va[0]) < .6 ? A3{1, 0, 0} : A3{0, 1, 0}));
  for (int k = 0; k < 2; ++k) {
    const D *g = k ? qb : qa;
    const char *nm = k ? "DragHandlerRot_Mat4" : "DragHandlerRot_PosQuat";
    MC_CHECK(c, mc::near(g[0] * g[0] + g[1] * g[1] + g[2] * g[2] + g[3] * g[3], 1, 1e-6), "%s: the quaternion is not of unit length", nm);
    MC_CHECK(c, len(qrot(g, e) - va) < 1e-5, "%s: the axis of the ring turned from (%g %g %g) to (%g %g %g)", nm, va[0], va[1], va[2], qrot(g, e)[0], qrot(g, e)[1], qrot(g, e)[2]);
    // body vector that was at x before is now at x turned by the angle
    D qi[4] = {-q[0], -q[1], -q[2], q[3]};
    const A3 x1 = qrot(g, qrot(qi, x));
    const D ang = std::atan2(dot(cross(x, x1), va), dot(x, x1)), want = .5 * std::sin(da) * (z < 0 ? 1 : -1);
    MC_CHECK(c, mc::near(ang, want, 1e-4), "%s: dragging the pointer round the centre by %g turns the handle by %g, expected %g", nm, da, ang, want);
  }
  c.outcome_of(el, da);
}
static void transl(mc::Ch &c) {
  const A3 pos = PS[c.choose(4)], dir = AX[c.choose(6)];
  const int el = c.choose(5) - 1;
  const A3 s0{c.choose(4) * .5 - .75, c.choose(3) * .6 - .5, 2.25}, s1 = s0 + A3{.5 * c.choose(2), .25 * c.choose(3) - .25, .125 * c.choose(2)};
  const D size = c.pick({1.1, .5}), tol = c.pick({.05, .3});
  c.commit();
  c.describe("centre (%g %g %g) size %g ray (%g %g %g)+(%g %g %g) element %d then (%g %g %g)", pos[0], pos[1], pos[2], size, s0[0], s0[1], s0[2], dir[0], dir[1], dir[2], el, s1[0], s1[1], s1[2]);
  dfm2::CGizmo_Transl<D> g;
  g.pos = v3(pos);
  g.size = size;
  D S0[3] = {s0[0], s0[1], s0[2]}, S1[3] = {s1[0], s1[1], s1[2]}, Dd[3] = {dir[0], dir[1], dir[2]};
  // picking
  {
    D ds[3];
    bool unk = false, any = false;
    for (int i = 0; i < 3; ++i) {
      const A3 d = unit(dir);
      A3 e{0, 0, 0};
      e[i] = 1;
      auto f = [&](D t) { A3 q = pos + t * e - s0; return len(q - dot(q, d) * d); };
      D lo = -size, hi = size;
      for (int k = 0; k < 80; ++k) { D a = lo + (hi - lo) / 3, b = hi - (hi - lo) / 3; if (f(a) < f(b)) hi = b; else lo = a; }
      ds[i] = f(lo);
      unk |= std::fabs(ds[i] - tol) < 1e-5;
      any |= ds[i] < tol;
    }
    if (!unk) {
      g.Pick(true, S0, Dd, tol);
      const int r = g.ielem_picked;
      MC_CHECK(c, r >= -1 && r < 3 && (r == -1) == !any && (r == -1 || ds[r] < tol), "picked %d, the axes are at %g %g %g", r, ds[0], ds[1], ds[2]);
      g.Pick(false, S0, Dd, tol);
      MC_CHECK(c, g.ielem_picked == -1, "released: %d", g.ielem_picked);
    }
  }
  g.ielem_picked = el;
  g.Drag(S0, S1, Dd);
  A3 want = pos;
  if (el >= 0 && el < 3) {
    A3 e{0, 0, 0};
    e[el] = 1;
    const D ed = dot(e, dir), dd = dot(dir, dir), den = dd - ed * ed;
    if (den > 1e-6) {   // nearest points of the axis to the two rays
      auto at = [&](A3 s) { A3 r = s - pos; return (dd * dot(e, r) - ed * dot(dir, r)) / den; };
      want = pos + (at(s1) - at(s0)) * e;
    }
  }
  MC_CHECK(c, len(a3(g.pos) - want) < 1e-9, "dragged to (%g %g %g), expected (%g %g %g)", g.pos.x, g.pos.y, g.pos.z, want[0], want[1], want[2]);
  c.outcome_of(el, g.pos.x);
}
// the combined handle over sequences of picks and drags
static void affine(mc::Ch &c) {
  const int n = c.thorough ? 4 : 3;
  dfm2::CGizmo_Affine<float> g;
  const A3 piv = PS[c.choose(3)];
  int ops[4];
  for (int i = 0; i < n; ++i) ops[i] = c.choose(7);
  c.commit();
  c.describe("pivot (%g %g %g), operations %d %d %d", piv[0], piv[1], piv[2], ops[0], ops[1], ops[2]);
  g.SetPivot(dfm2::CVec3f((float) piv[0], (float) piv[1], (float) piv[2]));
  g.gizmo_trnsl.pos = dfm2::CVec3f((float) piv[0], (float) piv[1], (float) piv[2]);
  g.gizmo_rot.pos = g.gizmo_trnsl.pos;
  for (int i = 0; i < n; ++i) {
    const dfm2::CVec3f p0 = g.gizmo_trnsl.pos, rp0 = g.gizmo_rot.pos;
    float q0[4];
    std::copy(g.gizmo_rot.quat, g.gizmo_rot.quat + 4, q0);
    const int op = ops[i];
    if (op < 3) g.igizmo_mode = op - 1;
    else {
      const float src[3] = {p0.x + .6f, p0.y + .02f, p0.z + 4}, src1[3] = {p0.x + .7f, p0.y + .3f, p0.z + 4}, d[3] = {0, 0, -1};
      if (op == 3) g.Pick(src, d);
      else {
        if (op == 5) { g.gizmo_trnsl.ielem_picked = 1; g.gizmo_rot.ielem_picked = 2; }
        if (op == 6) { g.gizmo_trnsl.ielem_picked = 0; g.gizmo_rot.ielem_picked = 2; }
        g.Drag(src, src1, d);
      }
    }
    const bool moved = !(g.gizmo_trnsl.pos == p0), turned = std::memcmp(q0, g.gizmo_rot.quat, sizeof q0) != 0;
    MC_CHECK(c, !(moved && (op < 4 || g.igizmo_mode != 0)), "operation %d moved the handle", op);
    MC_CHECK(c, !(turned && (op < 4 || g.igizmo_mode != 1)), "operation %d turned the handle", op);
    if (op >= 5 && g.igizmo_mode == 0) {
      MC_CHECK(c, moved && g.gizmo_rot.pos == g.gizmo_trnsl.pos, "the handles are not together");
      MC_CHECK(c, op == 5 ? mc::near(g.gizmo_trnsl.pos.y - p0.y, .28, 1e-4) && g.gizmo_trnsl.pos.x == p0.x : mc::near(g.gizmo_trnsl.pos.x - p0.x, .1, 1e-4) && g.gizmo_trnsl.pos.y == p0.y, "dragged to (%g %g %g)", g.gizmo_trnsl.pos.x, g.gizmo_trnsl.pos.y, g.gizmo_trnsl.pos.z);
    } else if (!(op >= 4 && g.igizmo_mode == 0)) MC_CHECK(c, g.gizmo_rot.pos == rp0, "the centre of the turn moved");
    // the transformation: pivot to the position, turned
    const dfm2::CMat4f A = g.Affine();
    const M4 M = dbl(A.mat);
    D q[4];
    for (int k = 0; k < 4; ++k) q[k] = g.gizmo_rot.quat[k];
    for (const A3 &x : {A3{0, 0, 0}, A3{1, 0, 0}, A3{0, 2, -1}, piv}) {
      const auto r = app(M, x);
      const A3 w = qrot(q, x - piv) + A3{g.gizmo_trnsl.pos.x, g.gizmo_trnsl.pos.y, g.gizmo_trnsl.pos.z};
      MC_CHECK(c, len(A3{r[0], r[1], r[2]} - w) < 1e-5 && r[3] == 1, "the affine map leads to (%g %g %g), expected (%g %g %g)", r[0], r[1], r[2], w[0], w[1], w[2]);
    }
    c.step(1);
  }
  c.outcome_of(g.igizmo_mode, g.gizmo_trnsl.pos.x);
}

int main(int argc, char **argv) {
  return mc::run(argc, argv, {"C34", "exploration", {"IEEE double and single precision", "pointers within rounding of a tolerance are not judged", "rings seen edge-on and rings at equal depth are not judged"}},
                 {{"camera", camera, "all points, focal lengths, distortions and images of the alphabet: calibrated projection, pinhole, screen and interior matrices"},
                  {"derivative", derivative, "all projections and points of the alphabet: screen coordinates and their derivatives"},
                  {"metashape", metashape, "all poses and sensors of the alphabet: the two matrices lead every point to its pixel"},
                  {"snap", snap, "all sets of up to four cameras and views of the alphabet: the nearest active camera"},
                  {"camfile", camfile, "all camera files of up to three cameras"},
                  {"screen", screen, "all views, handles and pointers of the alphabet: points, axes and circles picked within the tolerance, axes dragged"},
                  {"quad", quad, "all views, quads and pointers of the alphabet: exactly the quads under the pointer that face it"},
                  {"raycircle", raycircle, "all rays and circles of the alphabet"},
                  {"rotpick", rotpick, "all rings and rays of the alphabet: a ring within the tolerance, if there is one"},
                  {"rotdrag", rotdrag, "all drags of a ring: the grabbed point follows the ray"},
                  {"screenrot", screenrot, "all drags of a ring on the screen: about its own axis, with the pointer"},
                  {"transl", transl, "all picks and drags of the translation handle"},
                  {"affine", affine, "all sequences of three (thorough four) operations on the combined handle"}});
}
