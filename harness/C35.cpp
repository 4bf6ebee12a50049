// C35: tensors, views of arrays, grid keys and kernels, grey-scale gradients and Lloyd steps.
#include "mc.h"
#include <cmath>
#include <unordered_map>
#include <unordered_set>
#include "delfem2/dfm2_inline.h"
#include "delfem2/tensordata.h"
#include "delfem2/viewtensor.h"
#include "delfem2/view_array2d.h"
#include "delfem2/cvimggraygrad.h"
#include "delfem2/grid3hash.h"
#include "delfem2/sampler_lloyd2.h"

namespace dfm2 = delfem2;
typedef unsigned U;

template<typename T> static const T &cr(const T &t) { return t; }

static void tensors(mc::Ch &c) {
  U n[5];
  for (auto &k : n) k = 1 + c.choose(3);
  const int prev = c.choose(3);
  c.commit();
  c.describe("sizes %u %u %u %u %u, used before %d", n[0], n[1], n[2], n[3], n[4], prev);
  // written through the operator, every element has its own place in row-major order
  dfm2::TensorData2<int> t2;
  dfm2::TensorData3<int> t3;
  dfm2::TensorData4<int> t4;
  dfm2::TensorData5<int> t5;
  if (prev) { const U q = prev == 1 ? 1 : 4; t2.resize(q, 3); t3.resize(q, 2, q); t4.resize(q, q, 2, 1); t5.resize(q, 1, 2, q, 1); }
  t2.resize(n[0], n[1]);
  t3.resize(n[0], n[1], n[2]);
  t4.resize(n[0], n[1], n[2], n[3]);
  t5.resize(n[0], n[1], n[2], n[3], n[4]);
  MC_CHECK(c, t2.aData.size() == n[0] * n[1] && t3.aData.size() == n[0] * n[1] * n[2] && t4.aData.size() == n[0] * n[1] * n[2] * n[3] && t5.aData.size() == n[0] * n[1] * n[2] * n[3] * n[4], "sizes %zu %zu %zu %zu", t2.aData.size(), t3.aData.size(), t4.aData.size(), t5.aData.size());
  std::vector<int> b3(n[0] * n[1] * n[2]), b4(b3.size() * n[3]), b5(b4.size() * n[4]);
  dfm2::ViewTensor3<int> v3(b3.data(), n[0], n[1], n[2]);
  dfm2::ViewTensor4<int> v4(b4.data(), n[0], n[1], n[2], n[3]);
  dfm2::ViewTensor5<int> v5(b5.data(), n[0], n[1], n[2], n[3], n[4]);
  dfm2::ViewTensor4Const<int> w4(b4.data(), n[0], n[1], n[2], n[3]);
  dfm2::ViewTensor5Const<int> w5(b5.data(), n[0], n[1], n[2], n[3], n[4]);
  int k = 0;
  for (U i = 0; i < n[0]; ++i) for (U j = 0; j < n[1]; ++j) t2(i, j) = k++;
  k = 0;
  for (U i = 0; i < n[0]; ++i) for (U j = 0; j < n[1]; ++j) for (U l = 0; l < n[2]; ++l) { t3(i, j, l) = k; v3(i, j, l) = k++; }
  k = 0;
  for (U i = 0; i < n[0]; ++i) for (U j = 0; j < n[1]; ++j) for (U l = 0; l < n[2]; ++l) for (U m = 0; m < n[3]; ++m) { t4(i, j, l, m) = k; v4(i, j, l, m) = k++; }
  k = 0;
  for (U i = 0; i < n[0]; ++i) for (U j = 0; j < n[1]; ++j) for (U l = 0; l < n[2]; ++l) for (U m = 0; m < n[3]; ++m) for (U o = 0; o < n[4]; ++o) { t5(i, j, l, m, o) = k; v5(i, j, l, m, o) = k++; }
  for (size_t i = 0; i < t2.aData.size(); ++i) MC_CHECK(c, t2.aData[i] == (int) i, "element %zu of a matrix holds %d", i, t2.aData[i]);
  for (size_t i = 0; i < b3.size(); ++i) MC_CHECK(c, t3.aData[i] == (int) i && b3[i] == (int) i, "element %zu of three indices holds %d %d", i, t3.aData[i], b3[i]);
  for (size_t i = 0; i < b4.size(); ++i) MC_CHECK(c, t4.aData[i] == (int) i && b4[i] == (int) i, "element %zu of four indices holds %d %d", i, t4.aData[i], b4[i]);
  for (size_t i = 0; i < b5.size(); ++i) MC_CHECK(c, t5.aData[i] == (int) i && b5[i] == (int) i, "element %zu of five indices holds %d %d", i, t5.aData[i], b5[i]);
  // reading through constant objects and row pointers
  k = 0;
  for (U i = 0; i < n[0]; ++i) for (U j = 0; j < n[1]; ++j, ++k) MC_CHECK(c, cr(t2)(i, j) == k, "matrix (%u %u)", i, j);
  k = 0;
  for (U i = 0; i < n[0]; ++i) for (U j = 0; j < n[1]; ++j) for (U l = 0; l < n[2]; ++l, ++k)
    MC_CHECK(c, cr(t3)(i, j, l) == k && cr(v3)(i, j, l) == k && t3.data(i, j)[l] == k && cr(t3).data(i, j)[l] == k && v3.data(i, j)[l] == k, "three indices (%u %u %u)", i, j, l);
  k = 0;
  for (U i = 0; i < n[0]; ++i) for (U j = 0; j < n[1]; ++j) for (U l = 0; l < n[2]; ++l) for (U m = 0; m < n[3]; ++m, ++k)
    MC_CHECK(c, cr(t4)(i, j, l, m) == k && cr(v4)(i, j, l, m) == k && w4(i, j, l, m) == k && t4.data(i, j, l)[m] == k && cr(t4).data(i, j, l)[m] == k && v4.data(i, j, l)[m] == k && w4.data(i, j, l)[m] == k, "four indices (%u %u %u %u)", i, j, l, m);
  k = 0;
  for (U i = 0; i < n[0]; ++i) for (U j = 0; j < n[1]; ++j) for (U l = 0; l < n[2]; ++l) for (U m = 0; m < n[3]; ++m) for (U o = 0; o < n[4]; ++o, ++k)
    MC_CHECK(c, cr(t5)(i, j, l, m, o) == k && cr(v5)(i, j, l, m, o) == k && w5(i, j, l, m, o) == k, "five indices (%u %u %u %u %u)", i, j, l, m, o);
  // filled
  dfm2::TensorData2<double> f2;
  dfm2::TensorData3<double> f3;
  f2.resize(n[0], n[1], 1.5);
  f3.resize(n[0], n[1], n[2], -2.5);
  MC_CHECK(c, f2.aData == std::vector<double>(n[0] * n[1], 1.5) && f3.aData == std::vector<double>(n[0] * n[1] * n[2], -2.5) && f2(n[0] - 1, n[1] - 1) == 1.5 && f3(n[0] - 1, n[1] - 1, n[2] - 1) == -2.5, "filled tensors");
  const ViewAsArray2D<int> a(b3.data(), n[0] * n[1], n[2]);
  MC_CHECK(c, a.size() == n[0] * n[1], "size of the view %zu", a.size());
  for (U i = 0; i < n[0] * n[1]; ++i) for (U l = 0; l < n[2]; ++l) MC_CHECK(c, a[i][l] == (int) (i * n[2] + l), "row %u of the view", i);
  c.outcome_of(n[0], n[1], n[2], n[3], n[4]);
}

static void gray(mc::Ch &c) {
  const int nv = 1 + c.choose(2), ny = 1 + c.choose(4), nx = 1 + c.choose(4), pat = c.choose(6), coef = c.choose(4);
  int hot = 0;
  if (pat == 0) hot = c.choose(nv * ny * nx * 3);
  c.commit();
  c.describe("%d images of %dx%d, pattern %d hot %d, coefficients %d", nv, nx, ny, pat, hot, coef);
  static const float K[4][3] = {{1, 0, 0}, {.25f, .5f, .125f}, {0, 1, 0}, {-1, 2, 4}};
  const float *k = K[coef];
  std::vector<float> rgb(nv * ny * nx * 3);
  for (int v = 0; v < nv; ++v) for (int y = 0; y < ny; ++y) for (int x = 0; x < nx; ++x) for (int d = 0; d < 3; ++d) {
    const int i = ((v * ny + y) * nx + x) * 3 + d;
    switch (pat) {
      case 0: rgb[i] = i == hot ? 8 : 0; break;
      case 1: rgb[i] = 8 * x + d; break;
      case 2: rgb[i] = 16 * y - d; break;
      case 3: rgb[i] = 4 * x * x + 8 * x * y - y * y * 2 + v; break;
      case 4: rgb[i] = (i * 37 + v * 11) % 29; break;
      default: rgb[i] = 5 + v; break;
    }
  }
  std::vector<float> g(nv * ny * nx + 1, 99), gc(nv * ny * nx * 2 + 1, 99), gs(nv * ny * nx * 2 + 1, 99);
  auto at = [&](int v, int y, int x) {
    const float *p = rgb.data() + ((v * ny + y) * nx + x) * 3;
    return (double) p[0] * k[0] + (double) p[1] * k[1] + (double) p[2] * k[2];
  };
  dfm2::Grayscale(g.data(), nv, ny, nx, rgb.data(), k);
  dfm2::GrayscaleGradientCenter(gc.data(), nv, ny, nx, rgb.data(), k);
  const bool sobel = nx > 1 && ny > 1;
  if (sobel) dfm2::GrayscaleGradientSobel(gs.data(), nv, ny, nx, rgb.data(), k);
  for (int v = 0; v < nv; ++v) for (int y = 0; y < ny; ++y) for (int x = 0; x < nx; ++x) {
    const int i = (v * ny + y) * nx + x;
    MC_CHECK(c, mc::near(g[i], at(v, y, x), 1e-5), "image %d (%d %d): grey %g expected %g", v, x, y, g[i], at(v, y, x));
    auto cl = [](int a, int n) { return std::clamp(a, 0, n - 1); };
    const double ex = (at(v, y, cl(x + 1, nx)) - at(v, y, cl(x - 1, nx))) / 2, ey = (at(v, cl(y + 1, ny), x) - at(v, cl(y - 1, ny), x)) / 2;
    MC_CHECK(c, mc::near(gc[2 * i], ex, 1e-5) && mc::near(gc[2 * i + 1], ey, 1e-5), "image %d (%d %d): gradient (%g %g) expected (%g %g)", v, x, y, gc[2 * i], gc[2 * i + 1], ex, ey);
    if (sobel) {
      auto rf = [](int a, int n) { return a < 0 ? -a : a >= n ? 2 * n - 2 - a : a; };
      double sx = 0, sy = 0;
      for (int a = -1; a <= 1; ++a) for (int b = -1; b <= 1; ++b) {
        const double q = at(v, rf(y + b, ny), rf(x + a, nx));
        sx += q * a * (2 - std::abs(b)) / 8;
        sy += q * b * (2 - std::abs(a)) / 8;
      }
      MC_CHECK(c, mc::near(gs[2 * i], sx, 1e-5) && mc::near(gs[2 * i + 1], sy, 1e-5), "image %d (%d %d): Sobel gradient (%g %g) expected (%g %g)", v, x, y, gs[2 * i], gs[2 * i + 1], sx, sy);
    }
  }
  MC_CHECK(c, g.back() == 99 && gc.back() == 99 && gs.back() == 99, "written behind the end");
  c.outcome_of(nv, ny, nx, pat);
}

static double W(double x) {   // the cubic B-spline by its truncated powers
  double r = 0;
  static const double B[5] = {1, -4, 6, -4, 1};
  for (int i = 0; i < 5; ++i) { const double t = x + 2 - i; if (t > 0) r += B[i] * t * t * t / 6; }
  return x >= 2 ? 0 : r;
}
static double dW(double x) {
  double r = 0;
  static const double B[5] = {1, -4, 6, -4, 1};
  for (int i = 0; i < 5; ++i) { const double t = x + 2 - i; if (t > 0) r += B[i] * t * t / 2; }
  return x >= 2 ? 0 : r;
}
static void kernel(mc::Ch &c) {
  const double x = c.choose(97) / 16. - 3;
  c.commit();
  c.describe("offset %g", x);
  MC_CHECK(c, mc::near(dfm2::WGrid1Cubic(x), W(x), 1e-12), "kernel %g expected %g", dfm2::WGrid1Cubic(x), W(x));
  MC_CHECK(c, mc::near(dfm2::dWGrid1Cubic(x), dW(x), 1e-12), "derivative %g expected %g", dfm2::dWGrid1Cubic(x), dW(x));
  double s0 = 0, s1 = 0, d0 = 0, d1 = 0;
  for (int i = -6; i <= 6; ++i) {
    s0 += dfm2::WGrid1Cubic(x - i); s1 += i * dfm2::WGrid1Cubic(x - i);
    d0 += dfm2::dWGrid1Cubic(x - i); d1 += i * dfm2::dWGrid1Cubic(x - i);
  }
  MC_CHECK(c, mc::near(s0, 1, 1e-12) && mc::near(s1, x, 1e-12) && mc::near(d0, 0, 1e-12) && mc::near(d1, 1, 1e-12), "sums over the grid %g %g %g %g", s0, s1, d0, d1);
  for (double h : {1., .5, 4.}) for (double y : {0., .375, -1.25, 2.5}) for (double z : {.125, -.75, 1.5}) {
    MC_CHECK(c, mc::near(dfm2::WGrid3Cubic(h, x, y, z), W(h * x) * W(h * y) * W(h * z), 1e-12), "kernel in space at (%g %g %g) scale %g", x, y, z, h);
    MC_CHECK(c, mc::near(dfm2::dWGrid3Cubic(h, x, y, z), dW(h * x) * W(h * y) * W(h * z) * h, 1e-12), "derivative in space at (%g %g %g) scale %g", x, y, z, h);
    c.tick();
  }
  c.outcome_of(x);
}
static void keys(mc::Ch &c) {
  const int r = 1 + c.choose(4), off = c.pick({0, -1, 100000, -7}), step = c.pick({1, 2, 1000});
  c.commit();
  c.describe("all cells of a %d^3 block at %d, step %d", r, off, step);
  std::unordered_map<dfm2::GridCoordinate3, int> m;
  std::unordered_set<dfm2::GridCoordinate3> s;
  int k = 0;
  for (int a = 0; a < r; ++a) for (int b = 0; b < r; ++b) for (int d = 0; d < r; ++d) {
    const dfm2::GridCoordinate3 g(off + a * step, off * 2 - b * step, d * step - off);
    MC_CHECK(c, m.find(g) == m.end(), "cell (%d %d %d) found before it was put in", g.i, g.j, g.k);
    m.insert({g, k++});
    s.insert(g);
    s.insert(dfm2::GridCoordinate3(g.i, g.j, g.k));
    c.step(1);
  }
  MC_CHECK(c, (int) m.size() == r * r * r && s.size() == m.size(), "%zu cells", m.size());
  k = 0;
  for (int a = 0; a < r; ++a) for (int b = 0; b < r; ++b) for (int d = 0; d < r; ++d, ++k) {
    auto i = m.find(dfm2::GridCoordinate3(off + a * step, off * 2 - b * step, d * step - off));
    MC_CHECK(c, i != m.end() && i->second == k, "cell %d not found", k);
    MC_CHECK(c, m.find(dfm2::GridCoordinate3(off + a * step, off * 2 - b * step, d * step - off + 1000000007)) == m.end(), "a cell that is not there was found");
  }
  c.outcome_of(r, off, step);
}
// one Lloyd step against brute force
static void lloyd(mc::Ch &c) {
  const U nd = 1 + c.choose(4), np = 1 + c.choose(3);
  const int box = c.choose(4), dens = c.choose(5);
  int ip[3] = {0, 0, 0};
  for (U i = 0; i < np; ++i) ip[i] = c.choose(9);
  c.commit();
  static const double B[4][4] = {{0, 0, 1, 1}, {-1, -1, 1, 1}, {-4, 1, 8, 3}, {10, -20, 14, -12}};
  const double lo[2] = {B[box][0], B[box][1]}, hi[2] = {B[box][2], B[box][3]};
  std::vector<double> xy, D(nd * nd);
  for (U i = 0; i < np; ++i) { xy.push_back(lo[0] + (hi[0] - lo[0]) * (ip[i] % 3 * .37 + .07)); xy.push_back(lo[1] + (hi[1] - lo[1]) * (ip[i] / 3 * .41 + .03)); }
  for (U i = 0; i < nd * nd; ++i) D[i] = dens == 0 ? 1 : dens == 1 ? i : dens == 2 ? (i % 3 == 1) * 2 : dens == 3 ? 0 : (i * 7 % 5) * 1e-6;
  c.describe("%ux%u cells, points %s in box %d, density %d", nd, nd, mc::str(xy).c_str(), box, dens);
  std::vector<double> S(np * 3, 0);
  bool tie = false;
  for (U ih = 0; ih < nd; ++ih) for (U iw = 0; iw < nd; ++iw) {
    const double x = lo[0] + (hi[0] - lo[0]) * (iw + .5) / nd, y = hi[1] - (hi[1] - lo[1]) * (ih + .5) / nd;
    U b = 0;
    double bd = 1e30, sd = 1e30;
    for (U i = 0; i < np; ++i) {
      const double d = std::hypot(x - xy[2 * i], y - xy[2 * i + 1]);
      if (d < bd) { sd = bd; bd = d; b = i; } else sd = std::min(sd, d);
    }
    tie |= sd - bd < 1e-9 && D[ih * nd + iw] != 0;
    S[3 * b] += x * D[ih * nd + iw];
    S[3 * b + 1] += y * D[ih * nd + iw];
    S[3 * b + 2] += D[ih * nd + iw];
  }
  c.require(!tie);
  std::vector<double> r = xy;
  dfm2::Step_Lloyd2(r, nd, D, lo, hi);
  MC_CHECK(c, r.size() == xy.size(), "number of points");
  for (U i = 0; i < np; ++i) for (int k = 0; k < 2; ++k) {
    const double e = S[3 * i + 2] > 0 ? S[3 * i + k] / S[3 * i + 2] : xy[2 * i + k];
    const double ext = hi[k] - lo[k] + std::fabs(lo[k]);
    MC_CHECK(c, std::fabs(r[2 * i + k] - e) < 1e-3 * ext, "point %u moves to (%g %g), coordinate %d should be %g", i, r[2 * i], r[2 * i + 1], k, e);
  }
  c.outcome_of(nd, np, box, dens, r[0]);
}

int main(int argc, char **argv) {
  return mc::run(argc, argv, {"C35", "exploration", {"IEEE arithmetic", "Sobel gradients of images at least two pixels wide and high", "Lloyd cells that are equally near to two points are not judged"}},
                 {{"tensors", tensors, "all tensors of up to five indices of sizes one to three, also used before: the place of every element"},
                  {"gray", gray, "all images up to four by four of the alphabet: grey values, central and Sobel gradients"},
                  {"kernel", kernel, "all offsets of the alphabet: the cubic kernel, its derivative and its sums over the grid"},
                  {"keys", keys, "all blocks of cells of the alphabet: found exactly if they were put in"},
                  {"lloyd", lloyd, "all point sets, densities and boxes of the alphabet: one Lloyd step against brute force"}});
}
