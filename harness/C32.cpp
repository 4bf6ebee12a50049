// C32: grid fields, interpolation, noise, quadrature, special functions, sampling and colour lookups.
#include "mc.h"
#include <cmath>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <complex>
#include "delfem2/img_interpolation.h"
#include "delfem2/fdm_array2.h"
#include "delfem2/fdm_stablefluids.h"
#include "delfem2/grid2.h"
#include "delfem2/color.h"
#include "delfem2/noise.h"
#include "delfem2/specialfuncs.h"
#include "delfem2/quadrature.h"
#include "delfem2/sampling.h"
#include "delfem2/sampler_trimesh.h"
#include "delfem2/vec3.h"

namespace dfm2 = delfem2;
using mc::Ch;
typedef long double LD;

struct Quiet {
  std::streambuf *b;
  Quiet() { b = std::cout.rdbuf(nullptr); }
  ~Quiet() { std::cout.rdbuf(b); std::cout.clear(); }
};

// bilinear interpolation with replicated border, in extended precision
template<class F>
static LD bilin(F f, int ni, int nj, LD x, LD y) {
  x = std::min(std::max(x, (LD) 0), (LD) (ni - 1));
  y = std::min(std::max(y, (LD) 0), (LD) (nj - 1));
  int i = std::min((int) std::floor(x), std::max(ni - 2, 0));
  int j = std::min((int) std::floor(y), std::max(nj - 2, 0));
  int i1 = std::min(i + 1, ni - 1), j1 = std::min(j + 1, nj - 1);
  LD rx = x - i, ry = y - j;
  return (1 - rx) * (1 - ry) * f(i, j) + rx * (1 - ry) * f(i1, j) + (1 - rx) * ry * f(i, j1) + rx * ry * f(i1, j1);
}

static void image(Ch &c) {
  const int w = 1 + c.choose(4), h = 1 + c.choose(4);
  std::vector<unsigned char> img(w * h * 3);
  const int kind = c.choose(3);
  if (kind == 0) {  // one bright channel of one pixel
    int k = c.choose(w * h * 3);
    img[k] = 255;
  } else if (kind == 1) {  // linear
    int a = c.choose(3), b = c.choose(3);
    for (int i = 0; i < w; ++i)
      for (int j = 0; j < h; ++j)
        for (int k = 0; k < 3; ++k) img[(i + j * w) * 3 + k] = (unsigned char) (10 * k + 20 * a * i + 15 * b * j);
  } else {
    for (size_t i = 0; i < img.size(); ++i) img[i] = (unsigned char) (i * 97 % 256);
  }
  const int q = c.thorough ? 10 : 4;
  const double x = (double) c.choose(w * q) / q, y = (double) c.choose(h * q) / q;
  c.commit();
  double col[3] = {7, 7, 7};
  dfm2::ImageInterpolation_Bilinear(col, w, h, img.data(), x, y);
  for (int k = 0; k < 3; ++k) {
    LD e = bilin([&](int i, int j) { return (LD) img[(i + j * w) * 3 + k] / 255; }, w, h, x, y);
    MC_CHECK(c, mc::near(col[k], (double) e, 1e-12), "image %dx%d kind %d at (%g,%g) channel %d is %.17g, should be %.17g", w, h, kind, x, y, k, col[k], (double) e);
    MC_CHECK(c, col[k] > -1e-14 && col[k] < 1 + 1e-14, "out of range %g", col[k]);
  }
  c.outcome_of(w, h, kind, x, y, col[0], col[1]);
}

static void grid_interp(Ch &c) {
  const int ni = 2 + c.choose(3), nj = 2 + c.choose(3);
  FdmArray2<std::array<double, 2>> g(ni, nj, {0.25, -0.5});
  FdmArray2<std::array<double, 3>> g3(ni, nj, {0, 0, 0});
  const int kind = c.choose(3);
  if (kind == 0) {
    int k = c.choose(ni * nj * 2);
    g(k / 2 % ni, k / 2 / ni)[k % 2] = 1;
  } else if (kind == 1) {
    for (int i = 0; i < ni; ++i) for (int j = 0; j < nj; ++j) g(i, j) = {1. + 2 * i - 3 * j, -2. - i + 0.5 * j};
  } else {
    for (int i = 0; i < ni; ++i) for (int j = 0; j < nj; ++j) g(i, j) = {(i * 7 + j * 5) % 11 - 5., (i * 3 + j * 8) % 7 * 1e6};
  }
  for (int i = 0; i < ni; ++i) for (int j = 0; j < nj; ++j) g3(i, j) = {0., 9., g(i, j)[0]};
  std::vector<double> xs, ys;
  const double st = c.thorough ? 0.125 : 0.5;
  for (double x = -2; x <= ni + 1; x += st) xs.push_back(x);
  for (double y = -2; y <= nj + 1; y += st) ys.push_back(y);
  for (double e : {0.1, 0.9999999, -1e9, 1e9, -1e-12}) { xs.push_back(e); ys.push_back(e); }
  xs.push_back(ni - 1 - 1e-7); ys.push_back(nj - 1 - 1e-7);
  xs.push_back(ni - 1 + 1e-7); ys.push_back(nj - 1 + 1e-7);
  const double x = xs[c.choose(xs.size())], y = ys[c.choose(ys.size())];
  c.commit();
  for (unsigned int d = 0; d < 2; ++d) {
    double lo = 1e99, hi = -1e99;
    for (auto &v : g.v) { lo = std::min(lo, v[d]); hi = std::max(hi, v[d]); }
    double r = LinearInterpolationOnGrid2<2>(g, d, x, y);
    LD e = bilin([&](int i, int j) { return (LD) g(i, j)[d]; }, ni, nj, x, y);
    double tol = 1e-9 * (hi - lo + 1);
    MC_CHECK(c, std::fabs(r - (double) e) <= tol, "grid %dx%d kind %d at (%.12g,%.12g): component %u is %.12g, should be %.12g", ni, nj, kind, x, y, d, r, (double) e);
    MC_CHECK(c, r >= lo - tol && r <= hi + tol, "interpolated value %g leaves the range %g..%g of its samples", r, lo, hi);
    if (d == 0) {
      double r3 = LinearInterpolationOnGrid2<3>(g3, 2, x, y);
      MC_CHECK(c, std::fabs(r3 - (double) e) <= tol, "three components: %g, should be %g", r3, (double) e);
    }
  }
  FdmArray2<int> n(ni, nj, 0);
  for (int k = 0; k < ni * nj; ++k) n.v[k] = k;
  for (int i = -3; i < ni + 3; ++i)
    for (int j = -3; j < nj + 3; ++j) {
      const FdmArray2<int> &cn = n;
      int ic = std::min(std::max(i, 0), ni - 1), jc = std::min(std::max(j, 0), nj - 1);
      MC_CHECK(c, cn.ClampedFetch(i, j) == cn(ic, jc), "fetch (%d,%d) of a %dx%d grid", i, j, ni, nj);
      MC_CHECK(c, &n.ClampedFetch(i, j) == &n(ic, jc), "reference fetch (%d,%d) of a %dx%d grid", i, j, ni, nj);
    }
  c.outcome_of(ni, nj, kind, x, y);
}

static double fieldval(int kind, int k, int i, int j, int s) {
  switch (kind) {
    case 0: return k;
    case 1: return k * 0.5 * i - 0.25 * j;
    case 2: return 0.5 * k * j - 0.1 * i * j;
    default: return (i * 5 + j * 7 + s * 3 + k * 2) % 9 - 4.;
  }
}

static void advect(Ch &c) {
  const int ni = 2 + c.choose(3), nj = 2 + c.choose(3);
  const int ku = c.choose(4), kv = c.choose(4);
  const int au = c.choose(5) - 2, av = c.choose(5) - 2;
  const double dt = c.pick({0.0, 0.25, 0.1, 3.0}), h = c.pick({1.0, 0.5});
  c.commit();
  {
    FdmArray2<std::array<double, 2>> v(ni, nj), tmp(ni, nj, {77, 77});
    for (int i = 0; i < ni; ++i) for (int j = 0; j < nj; ++j) v(i, j) = {fieldval(ku, au, i, j, 0), fieldval(kv, av, i, j, 1)};
    auto old = v;
    AdvectionSemiLagrangian_CellCenteredGrid2(v, tmp, ni, nj, dt, h);
    for (int i = 0; i < ni; ++i)
      for (int j = 0; j < nj; ++j)
        for (int d = 0; d < 2; ++d) {
          LD e = bilin([&](int a, int b) { return (LD) old(a, b)[d]; }, ni, nj, i - (LD) old(i, j)[0] * dt / h, j - (LD) old(i, j)[1] * dt / h);
          MC_CHECK(c, std::fabs(v(i, j)[d] - (double) e) < 1e-7, "cell centred advection %dx%d fields %d,%d (%d,%d) dt=%g h=%g: component %d of cell (%d,%d) is %g, should be %g", ni, nj, ku, kv, au, av, dt, h, d, i, j, v(i, j)[d], (double) e);
        }
  }
  {
    FdmArray2<double> u(ni + 1, nj), v(ni, nj + 1);
    FdmArray2<std::array<double, 2>> ut(ni + 1, nj, {55, 55}), vt(ni, nj + 1, {66, 66});
    for (int i = 0; i <= ni; ++i) for (int j = 0; j < nj; ++j) u(i, j) = fieldval(ku, au, i, j, 0);
    for (int i = 0; i < ni; ++i) for (int j = 0; j <= nj; ++j) v(i, j) = fieldval(kv, av, i, j, 1);
    auto u0 = u;
    auto v0 = v;
    auto cl = [](const FdmArray2<double> &f, int i, int j) { return f(std::min(std::max(i, 0), f.ni - 1), std::min(std::max(j, 0), f.nj - 1)); };
    AdvectionSemiLagrangian_StaggeredGrid2(u, v, ut, vt, ni, nj, dt, h);
    for (int i = 0; i <= ni; ++i)
      for (int j = 0; j < nj; ++j) {
        LD vv = (cl(v0, i - 1, j) + cl(v0, i, j) + cl(v0, i - 1, j + 1) + cl(v0, i, j + 1)) / (LD) 4;
        LD e = bilin([&](int a, int b) { return (LD) u0(a, b); }, ni + 1, nj, i - (LD) u0(i, j) * dt / h, j - vv * dt / h);
        MC_CHECK(c, std::fabs(u(i, j) - (double) e) < 1e-7, "staggered advection %dx%d fields %d,%d (%d,%d) dt=%g h=%g: u(%d,%d) is %g, should be %g", ni, nj, ku, kv, au, av, dt, h, i, j, u(i, j), (double) e);
      }
    for (int i = 0; i < ni; ++i)
      for (int j = 0; j <= nj; ++j) {
        LD uu = (cl(u0, i, j - 1) + cl(u0, i + 1, j - 1) + cl(u0, i, j) + cl(u0, i + 1, j)) / (LD) 4;
        LD e = bilin([&](int a, int b) { return (LD) v0(a, b); }, ni, nj + 1, i - uu * dt / h, j - (LD) v0(i, j) * dt / h);
        MC_CHECK(c, std::fabs(v(i, j) - (double) e) < 1e-7, "staggered advection %dx%d fields %d,%d (%d,%d) dt=%g h=%g: v(%d,%d) is %g, should be %g", ni, nj, ku, kv, au, av, dt, h, i, j, v(i, j), (double) e);
      }
    c.outcome(mc::Hash().vec(u.v).vec(v.v));
  }
}

static void project(Ch &c) {
  const int ni = 1 + c.choose(4), nj = 1 + c.choose(4);
  const double h = c.pick({1.0, 0.25}), rho = c.pick({1.0, 3.0});
  // interior faces carry the enumerated velocities, the walls none
  std::vector<double> val;
  FdmArray2<double> u(ni + 1, nj, 0.), v(ni, nj + 1, 0.);
  const int nf = (ni - 1) * nj + ni * (nj - 1);
  const int kind = nf == 0 ? 0 : c.choose(2);
  if (kind == 0) {
    int k = nf == 0 ? -1 : c.choose(nf), m = 0;
    for (int i = 1; i < ni; ++i) for (int j = 0; j < nj; ++j) u(i, j) = (m++ == k) ? 1.5 : 0;
    for (int i = 0; i < ni; ++i) for (int j = 1; j < nj; ++j) v(i, j) = (m++ == k) ? -2 : 0;
  } else {
    int k = c.choose(c.thorough ? 40 : 8);
    for (int i = 1; i < ni; ++i) for (int j = 0; j < nj; ++j) u(i, j) = (i * 5 + j * 7 + k) % (9 + k) - 4;
    for (int i = 0; i < ni; ++i) for (int j = 1; j < nj; ++j) v(i, j) = (i * 3 + j * 11 + 2 * k) % (7 + k) - 3;
  }
  c.commit();
  Quiet q;
  FdmArray2<double> d(ni, nj, 99.), p(ni, nj, 0.);
  Divergence_StaggerdGrid2(d, ni, nj, u, v, h);
  double sum = 0;
  for (int i = 0; i < ni; ++i)
    for (int j = 0; j < nj; ++j) {
      double e = (u(i + 1, j) - u(i, j) + v(i, j + 1) - v(i, j)) / h;
      MC_CHECK(c, mc::near(d(i, j), e, 1e-12), "divergence of cell (%d,%d) is %g, should be %g", i, j, d(i, j), e);
      sum += d(i, j);
    }
  MC_CHECK(c, std::fabs(sum) < 1e-9, "no flow through the walls, yet the divergences sum up to %g", sum);
  const double dt = 0.5, sc = rho / dt * h * h;
  const unsigned int nit = 400;
  // one sweep at a time: fixed points and a falling energy
  {
    FdmArray2<double> p1(ni, nj, 0.);
    std::vector<double> ref(ni * nj, 0.);
    for (int it = 0; it < 3; ++it) {
      SolvePoissionEquationOnGrid2ByGaussSeidelMethod(p1, d, sc, ni, nj, 1);
      for (int j = 0; j < nj; ++j)
        for (int i = 0; i < ni; ++i) {
          auto at = [&](int a, int b) { return ref[std::min(std::max(a, 0), ni - 1) + ni * std::min(std::max(b, 0), nj - 1)]; };
          ref[i + ni * j] = (at(i + 1, j) + at(i - 1, j) + at(i, j + 1) + at(i, j - 1) - d(i, j) * sc) / 4;
        }
    }
    FdmArray2<double> p3(ni, nj, 0.);
    SolvePoissionEquationOnGrid2ByGaussSeidelMethod(p3, d, sc, ni, nj, 3);
    double scale = 1e-300;
    for (double x : ref) scale = std::max(scale, std::fabs(x));
    for (int k = 0; k < ni * nj; ++k) {
      MC_CHECK(c, std::fabs(p1.v[k] - p3.v[k]) <= 1e-10 * scale, "three sweeps differ from three times one sweep");
    }
  }
  SolvePoissionEquationOnGrid2ByGaussSeidelMethod(p, d, sc, ni, nj, nit);
  SubstructPressureGradient_StaggeredGrid2(u, v, ni, nj, dt / (rho * h), p);
  for (int j = 0; j < nj; ++j) MC_CHECK(c, u(0, j) == 0 && u(ni, j) == 0, "the flow through a wall changed");
  for (int i = 0; i < ni; ++i) MC_CHECK(c, v(i, 0) == 0 && v(i, nj) == 0, "the flow through a wall changed");
  FdmArray2<double> d1(ni, nj, 99.);
  Divergence_StaggerdGrid2(d1, ni, nj, u, v, h);
  for (int k = 0; k < ni * nj; ++k) MC_CHECK(c, std::fabs(d1.v[k]) < 1e-6, "grid %dx%d h=%g: divergence %g of cell %d after projection", ni, nj, h, d1.v[k], k);
  c.outcome(mc::Hash().vec(u.v).vec(v.v));
}

static void cellcentred(Ch &c) {
  const int ni = 1 + c.choose(5), nj = 1 + c.choose(5);
  const double h = c.pick({1.0, 0.5}), s = c.pick({1.0, -0.3});
  const int k = c.choose(6);
  c.commit();
  FdmArray2<std::array<double, 2>> v(ni, nj);
  FdmArray2<double> p(ni, nj), d(ni, nj, 42.);
  for (int i = 0; i < ni; ++i)
    for (int j = 0; j < nj; ++j) {
      v(i, j) = {fieldval(3, k, i, j, 0), fieldval(3, k, i * i, j, 1)};
      p(i, j) = fieldval(3, k, i, j * j, 2);
    }
  Divergence_CellCenteredGrid2(d, ni, nj, v, h);
  auto v0 = v;
  SubstructPressureGradient_CellCenteredGrid2(v, ni, nj, s, p);
  for (int i = 0; i < ni; ++i)
    for (int j = 0; j < nj; ++j) {
      if (i == 0 || j == 0 || i == ni - 1 || j == nj - 1) {
        MC_CHECK(c, d(i, j) == 42, "divergence written on the border (%d,%d)", i, j);
        MC_CHECK(c, v(i, j) == v0(i, j), "velocity changed on the border (%d,%d)", i, j);
        continue;
      }
      double e = -((v0(i + 1, j)[0] - v0(i - 1, j)[0]) + (v0(i, j + 1)[1] - v0(i, j - 1)[1])) / h;
      MC_CHECK(c, mc::near(d(i, j), e, 1e-12), "divergence (%d,%d) is %g, should be %g", i, j, d(i, j), e);
      MC_CHECK(c, mc::near(v(i, j)[0], v0(i, j)[0] + s * 0.5 * (p(i + 1, j) - p(i - 1, j)), 1e-12), "x velocity (%d,%d)", i, j);
      MC_CHECK(c, mc::near(v(i, j)[1], v0(i, j)[1] + s * 0.5 * (p(i, j + 1) - p(i, j - 1)), 1e-12), "y velocity (%d,%d)", i, j);
    }
  c.outcome(mc::Hash().vec(d.v) << ni << nj);
}

static void laplacian(Ch &c) {
  const unsigned int nx = 1 + c.choose(4), ny = 1 + c.choose(4);
  const int kind = c.choose(2), k = c.choose(nx * ny);
  const double alpha = c.pick({0.0, 0.25, 1.0});
  c.commit();
  std::vector<float> z(nx * ny, 0.f);
  if (kind == 0) z[k] = 1;
  else for (unsigned int i = 0; i < nx * ny; ++i) z[i] = float((i * 7 + k) % 11);
  std::vector<float> lap(nx * ny, -9.f), smo(nx * ny, -9.f);
  dfm2::LaplacianGrid(lap, z, ny, nx);
  dfm2::LaplacianSmoothGrid(smo, alpha, z, ny, nx);
  double s = 0, m0 = 0, m1 = 0;
  for (unsigned int iy = 0; iy < ny; ++iy)
    for (unsigned int ix = 0; ix < nx; ++ix) {
      auto at = [&](int x, int y) { return (double) z[std::min(std::max(x, 0), (int) nx - 1) + nx * std::min(std::max(y, 0), (int) ny - 1)]; };
      int x = ix, y = iy;
      double nb = at(x + 1, y) + at(x - 1, y) + at(x, y + 1) + at(x, y - 1);
      MC_CHECK(c, std::fabs(lap[ix + nx * iy] - (4 * at(x, y) - nb)) < 1e-4, "%ux%u laplacian (%d,%d) is %g, should be %g", nx, ny, x, y, lap[ix + nx * iy], 4 * at(x, y) - nb);
      MC_CHECK(c, std::fabs(smo[ix + nx * iy] - (alpha * nb / 4 + (1 - alpha) * at(x, y))) < 1e-4, "%ux%u smoothing (%d,%d) is %g", nx, ny, x, y, smo[ix + nx * iy]);
      s += lap[ix + nx * iy];
      m0 += z[ix + nx * iy];
      m1 += smo[ix + nx * iy];
    }
  MC_CHECK(c, std::fabs(s) < 1e-3, "the laplacians sum up to %g", s);
  MC_CHECK(c, std::fabs(m0 - m1) < 1e-3, "smoothing changed the total from %g to %g", m0, m1);
  c.outcome(mc::Hash().vec(lap).vec(smo) << nx);
}

// ------------------------------------------------------------------ colours

static void colour(Ch &c) {
  const int which = c.choose(6);
  if (which == 0) {  // hue, saturation, value
    const int n = c.thorough ? 240 : 48;
    const double h = (double) c.choose(n + 1) / n, s = c.choose(9) / 8., v = c.choose(9) / 8.;
    c.commit();
    double r, g, b;
    dfm2::GetRGB_HSV(r, g, b, h, s, v);
    float rf, gf, bf;
    dfm2::GetRGB_HSV(rf, gf, bf, (float) h, (float) s, (float) v);
    // value and chroma fix the largest and smallest component; hue the ramp between
    auto ramp = [&](double k) {
      double t = std::fmod(k + h * 6, 6);
      return v - v * s * std::max(0., std::min({t, 4 - t, 1.}));
    };
    const double e[3] = {ramp(5), ramp(3), ramp(1)};
    MC_CHECK(c, std::fabs(r - e[0]) < 1e-6 && std::fabs(g - e[1]) < 1e-6 && std::fabs(b - e[2]) < 1e-6, "hsv (%g %g %g) gives (%g %g %g), should be (%g %g %g)", h, s, v, r, g, b, e[0], e[1], e[2]);
    MC_CHECK(c, std::fabs(rf - e[0]) < 1e-5 && std::fabs(gf - e[1]) < 1e-5 && std::fabs(bf - e[2]) < 1e-5, "single precision hsv (%g %g %g) gives (%g %g %g)", h, s, v, rf, gf, bf);
    c.outcome_of(r, g, b);
  } else if (which == 1) {
    double x = (c.choose(161) - 40) / 80.;
    const double off = c.pick({0.0, 1e-9, -1e-9});
    c.commit();
    x += off;
    double t = std::min(std::max(x, 0.), 1.), k[3];
    dfm2::heatmap(x, k);
    auto cl = [](double a) { return std::min(std::max(a, 0.), 1.); };
    const double e[3] = {cl(4 * t - 2), std::min(cl(4 * t), cl(4 - 4 * t)), cl(2 - 4 * t)};
    for (int i = 0; i < 3; ++i) MC_CHECK(c, std::fabs(k[i] - e[i]) < 1e-7, "heat map of %.12g: channel %d is %g, should be %g", x, i, k[i], e[i]);
    c.outcome_of(k[0], k[1], k[2]);
  } else if (which == 2) {  // colour map lookup
    const int n = c.choose(5);
    const int gap = c.choose(3);
    std::vector<std::pair<double, dfm2::CColor>> m;
    double x0 = -1;
    for (int i = 0; i < n; ++i) {
      m.emplace_back(x0, dfm2::CColor((float) (i % 2), i * 0.25f, 1 - i * 0.125f, i / 5.f));
      x0 += gap == 0 ? 1 : gap == 1 ? (i + 1) * 0.5 : (i % 2 ? 2 : 0.125);
    }
    std::vector<double> in = {-100, -1.5, 50, 1e30};
    for (int i = 0; i < n; ++i) {
      in.push_back(m[i].first);
      if (i) for (double r : {0.25, 0.5, 0.9}) in.push_back(m[i].first * r + m[i - 1].first * (1 - r));
    }
    const double x = in[c.choose(in.size())];
    c.commit();
    dfm2::CColor k = dfm2::getColor(x, m);
    double e[4] = {0, 0, 0, 1};
    auto put = [&](const dfm2::CColor &a) { e[0] = a.r; e[1] = a.g; e[2] = a.b; e[3] = a.a; };
    if (n) {
      if (x <= m[0].first) put(m[0].second);
      else if (x >= m[n - 1].first) put(m[n - 1].second);
      else
        for (int i = 0; i + 1 < n; ++i)
          if (m[i].first <= x && x <= m[i + 1].first) {
            double r = (x - m[i].first) / (m[i + 1].first - m[i].first);
            const dfm2::CColor &a = m[i].second, &b = m[i + 1].second;
            e[0] = a.r * (1 - r) + b.r * r; e[1] = a.g * (1 - r) + b.g * r; e[2] = a.b * (1 - r) + b.b * r; e[3] = a.a * (1 - r) + b.a * r;
          }
    }
    const double o[4] = {k.r, k.g, k.b, k.a};
    for (int i = 0; i < 4; ++i) MC_CHECK(c, std::fabs(o[i] - e[i]) < 1e-5, "map of %d keys at %g: channel %d is %g, should be %g", n, x, i, o[i], e[i]);
    c.outcome_of(o[0], o[1], o[2], o[3]);
  } else if (which == 3) {  // the predefined maps
    const float lo = c.pick({0.f, -2.f, 10.f}), w = c.pick({1.f, 8.f});
    const int id = c.choose(5), k = c.choose(21);
    c.commit();
    std::vector<std::pair<double, dfm2::CColor>> m;
    const float hi = lo + w;
    const bool cyan = id == 1 || id == 4;
    if (id == 0) dfm2::ColorMap_BlueGrayRed(m, lo, hi);
    if (id == 1) dfm2::ColorMap_BlueCyanGreenYellowRed(m, lo, hi, 0.5f);
    if (id == 2) dfm2::ColorMap_RedYellowGreenCyanBlue(m, lo, hi);
    if (id == 3) m = dfm2::CColorMap(lo, hi, "bgr").aColor;
    if (id == 4) m = dfm2::CColorMap(lo, hi, "").aColor;
    MC_CHECK(c, !m.empty() && std::fabs(m[0].first - lo) < 1e-6 && std::fabs(m.back().first - hi) < 1e-6, "colour map %d covers %g..%g, not %g..%g", id, m[0].first, m.back().first, lo, hi);
    for (size_t i = 0; i + 1 < m.size(); ++i) MC_CHECK(c, m[i].first < m[i + 1].first, "keys not rising");
    double t = (k - 5) / 10.;
    dfm2::CColor a = dfm2::getColor(lo + t * w, m);
    t = std::min(std::max(t, 0.), 1.);
    if (cyan || id == 2) {
      double e[3];
      dfm2::heatmap(id == 2 ? 1 - t : t, e);
      MC_CHECK(c, std::fabs(a.r - e[0]) < 1e-4 && std::fabs(a.g - e[1]) < 1e-4 && std::fabs(a.b - e[2]) < 1e-4, "colour map %d at %g: (%g %g %g), should be (%g %g %g)", id, t, a.r, a.g, a.b, e[0], e[1], e[2]);
      MC_CHECK(c, std::fabs(a.a - (id == 1 ? 0.5 : 1)) < 1e-6, "opacity %g", a.a);
    } else {
      dfm2::CColor b = dfm2::getColor(lo + (1 - t) * w, m);
      MC_CHECK(c, std::fabs(a.r - b.b) < 1e-4 && std::fabs(a.g - b.g) < 1e-4 && std::fabs(a.b - b.r) < 1e-4, "blue and red ends are not symmetric at %g", t);
      if (t == 0) MC_CHECK(c, a.r == 0 && a.g == 0 && a.b == 1, "low end not blue");
      if (t == 0.5) MC_CHECK(c, std::fabs(a.r - a.g) < 1e-5 && std::fabs(a.g - a.b) < 1e-5, "middle not gray");
    }
    c.outcome_of(id, a.r, a.g, a.b);
  } else if (which == 4) {
    const int r = c.pick({0, 1, 127, 128, 255}), g = c.pick({0, 1, 127, 128, 255}), b = c.pick({0, 1, 127, 128, 255});
    c.commit();
    double k[3];
    float kf[3];
    dfm2::ColorRGB_Int(k, r * 65536 + g * 256 + b);
    dfm2::ColorRGB_Int(kf, r * 65536 + g * 256 + b);
    const int e[3] = {r, g, b};
    for (int i = 0; i < 3; ++i) MC_CHECK(c, std::fabs(k[i] * 255 - e[i]) < 1e-9 && std::fabs(kf[i] * 255 - e[i]) < 1e-3, "colour code of %d %d %d", r, g, b);
    c.outcome_of(r, g, b);
  } else {
    const float r = c.pick({-1.f, 0.f, 0.5f, 0.999f, 1.f, 1.5f}), g = c.pick({-0.001f, 0.f, 0.25f, 1.f, 9.f}), b = c.pick({-2.f, 0.f, 0.75f, 1.f, 2.f});
    c.commit();
    auto e = [](float x) { return (int) (255 * std::min(std::max(x, 0.f), 1.f)); };
    int k[3];
    dfm2::CColor(r, g, b).getRGBChar(k[0], k[1], k[2]);
    auto near1 = [&](int a, float x) { return a >= 0 && a <= 255 && (x <= 0 ? a == 0 : x >= 1 ? a == 255 : std::abs(a - e(x)) <= 1); };
    MC_CHECK(c, near1(k[0], r) && near1(k[1], g) && near1(k[2], b), "(%g %g %g) in bytes: %d %d %d", r, g, b, k[0], k[1], k[2]);
    dfm2::CColor a4(std::vector<double>{r, g, b, 0.5}), a3(std::vector<float>{r, g, b}), a1(std::vector<double>{g}), a0(std::vector<int>{});
    MC_CHECK(c, a4.r == r && a4.g == g && a4.b == b && a4.a == 0.5f, "four components");
    MC_CHECK(c, a3.r == r && a3.g == g && a3.b == b && a3.a == 1, "three components");
    MC_CHECK(c, a1.r == g && a1.g == g && a1.b == g && a1.a == 1, "gray");
    MC_CHECK(c, a0.a == 1, "empty");
    c.outcome_of(k[0], k[1], k[2]);
  }
}

// ------------------------------------------------------------------ noise

static void noise(Ch &c) {
  const int np = 1 + c.choose(5);
  const int perm = c.choose(3), gk = c.choose(3);
  std::vector<int> P(256);
  for (int i = 0; i < 256; ++i) P[i] = perm == 0 ? i : perm == 1 ? 255 - i : (i * 77 + 13) % 256;
  P.resize(512);
  for (int i = 0; i < 256; ++i) P[256 + i] = P[i];
  std::vector<double> G2, G3;
  if (gk == 0) {
    G2 = {-1, -1, -1, +1, +1, -1, +1, +1};
    G3 = {1, 1, 0, -1, 1, 0, 1, -1, 0, -1, -1, 0, 1, 0, 1, -1, 0, 1, 1, 0, -1, -1, 0, -1, 0, 1, 1, 0, -1, 1, 0, 1, -1, 0, -1, -1};
  } else if (gk == 1) {
    G2 = {1, 0, 0, 1, -1, 0};
    G3 = {1, 0, 0, 0, 1, 0, 0, 0, -1};
  } else {
    G2 = {0.6, -0.8};
    G3 = {0.6, -0.8, 0, 2, 3, 4};
  }
  const int q = c.thorough ? 4 : 2;
  const int dim = 2 + c.choose(2);
  double x[3] = {(double) c.choose(np * q + 1) / q, (double) c.choose(np * q + 1) / q, dim == 3 ? (double) c.choose(np * q + 1) / q : 0};
  c.commit();
  auto f = [&](double a, double b, double z, int nrep) { return dim == 2 ? dfm2::noise_perlin_2d(a, b, nrep, G2, P) : dfm2::noise_perlin_3d(a, b, z, nrep, G3, P); };
  const double v = f(x[0], x[1], x[2], np);
  bool lattice = true;
  for (int i = 0; i < dim; ++i) lattice &= x[i] == std::floor(x[i]);
  if (lattice) MC_CHECK(c, std::fabs(v) < 1e-12, "%dD noise at the lattice point (%g %g %g) is %g", dim, x[0], x[1], x[2], v);
  for (int i = 0; i < dim; ++i) {
    double y[3] = {x[0], x[1], x[2]};
    y[i] += np;
    MC_CHECK(c, std::fabs(f(y[0], y[1], y[2], np) - v) < 1e-9, "%dD noise of period %d differs a period away along axis %d of (%g %g %g)", dim, np, i, x[0], x[1], x[2]);
    // smooth: one-sided slopes agree and are bounded
    if (x[i] < 1e-3) continue;
    const double e = 1e-5;
    y[i] = x[i] + e;
    double vp = f(y[0], y[1], y[2], np), sp = (vp - v) / e;
    y[i] = x[i] - e;
    double vm = f(y[0], y[1], y[2], np), sm = (v - vm) / e;
    MC_CHECK(c, std::fabs(vp - v) < 1e-3 && std::fabs(vm - v) < 1e-3, "%dD noise jumps at (%g %g %g) along axis %d: %g %g %g", dim, x[0], x[1], x[2], i, vm, v, vp);
    MC_CHECK(c, std::fabs(sp - sm) < 5e-3, "%dD noise (period %d, gradients %d) has a kink at (%g %g %g) along axis %d: slopes %g and %g", dim, np, gk, x[0], x[1], x[2], i, sm, sp);
  }
  if (lattice) {  // the slope at a lattice point is one of the gradients
    const double e = 1e-6;
    double s[3];
    for (int i = 0; i < dim; ++i) {
      double y[3] = {x[0], x[1], x[2]};
      y[i] += e;
      s[i] = f(y[0], y[1], y[2], np) / e;
    }
    bool ok = false;
    const std::vector<double> &G = dim == 2 ? G2 : G3;
    for (size_t k = 0; k < G.size() / dim; ++k) {
      bool same = true;
      for (int i = 0; i < dim; ++i) same &= std::fabs(G[k * dim + i] - s[i]) < 1e-4;
      ok |= same;
    }
    MC_CHECK(c, ok, "%dD noise: slope (%g %g) at a lattice point is no gradient", dim, s[0], s[1]);
  }
  // octaves
  for (int noct = 0; noct < 4; ++noct) {
    double e = 0, pers = 0.7;
    for (int o = 0; o < noct; ++o) e += std::pow(pers, o) * f(x[0] * (1 << o), x[1] * (1 << o), x[2] * (1 << o), np << o);
    double r = dim == 2 ? dfm2::noise_perlin_2d_oct(x[0], x[1], np, noct, pers, G2, P) : dfm2::noise_perlin_3d_oct(x[0], x[1], x[2], np, noct, pers, G3, P);
    MC_CHECK(c, std::fabs(r - e) < 1e-9, "%d octaves: %g, should be %g", noct, r, e);
  }
  c.outcome_of(dim, np, perm, gk, v, x[0]);
}

static void noise_image(Ch &c) {
  const unsigned int w = c.pick({1u, 4u, 6u}), h = c.pick({1u, 4u, 6u});
  const int nrep = c.pick({1, 2, 3}), noct = c.choose(4), dirty = c.choose(2), seed = 1 + c.choose(3);
  c.commit();
  srand(seed);
  std::vector<double> a(dirty ? 100 : 0, 9.), b;
  dfm2::ComputePerlin(a, w, h, nrep, noct, 0.5);
  MC_CHECK(c, a.size() == w * h, "%zu samples", a.size());
  for (double v : a) MC_CHECK(c, std::fabs(v) <= 4, "noise %g", v);
  if (noct == 0) for (double v : a) MC_CHECK(c, v == 0, "no octave, but noise %g", v);
  MC_CHECK(c, std::fabs(a[0]) < 1e-12, "lattice point %g", a[0]);
  if (w % nrep == 0 && h % nrep == 0)
    for (unsigned int i = 0; i < w; i += w / nrep) for (unsigned int j = 0; j < h; j += h / nrep) MC_CHECK(c, std::fabs(a[j * w + i]) < 1e-9, "lattice point (%u,%u): %g", i, j, a[j * w + i]);
  // shuffling keeps the elements
  std::vector<int> X;
  for (unsigned int i = 0; i < w * h; ++i) X.push_back(i * i % 7);
  auto Y = X;
  dfm2::Shuffle(Y);
  std::sort(X.begin(), X.end());
  std::sort(Y.begin(), Y.end());
  MC_CHECK(c, X == Y, "shuffling lost elements");
  // the permutation is used all the way: every lattice point of a large map has each gradient about equally often
  if (w == 6 && h == 6 && nrep == 3 && noct == 1) {
    const unsigned int n = 128;
    std::vector<double> m;
    dfm2::ComputePerlin(m, n * 2, n * 2, n, 1, 1.);
    // sign of the noise between lattice points is balanced
    int pos = 0, neg = 0;
    for (unsigned int i = 0; i < n; ++i)
      for (unsigned int j = 0; j < n; ++j) {
        double v = m[(2 * j + 1) * 2 * n + 2 * i + 1];
        pos += v > 1e-9;
        neg += v < -1e-9;
      }
    MC_CHECK(c, pos > 2000 && neg > 2000, "noise is one sided: %d positive, %d negative", pos, neg);
  }
  c.outcome(mc::Hash().vec(a));
}

// ------------------------------------------------------------------ special functions

static void harmonics(Ch &c) {
  const int n = c.choose(10);
  const int R = c.thorough ? 4 : 2;
  int p[3] = {c.choose(2 * R + 1) - R, c.choose(2 * R + 1) - R, c.choose(2 * R + 1) - R};
  if (!p[0] && !p[1] && !p[2]) c.skip();
  c.commit();
  LD x = p[0], y = p[1], z = p[2], r = std::sqrt(x * x + y * y + z * z);
  x /= r; y /= r; z /= r;
  std::vector<double> Y((n + 1) * (n + 1), 1e3);
  dfm2::makeArray_SphericalHarmonics(Y.data(), n, (double) x, (double) y, (double) z);
  const LD pi = 3.14159265358979323846264338327950288L;
  LD total = 0;
  for (int l = 0; l <= n; ++l) {
    LD suml = 0;
    for (int m = 0; m <= l; ++m) {
      // P_l^m / sin^m by recurrence (Condon-Shortley phase)
      LD pmm = 1;
      for (int k = 1; k <= m; ++k) pmm *= -(2 * k - 1);
      LD a = pmm, b = z * (2 * m + 1) * pmm, pl = m == l ? a : b;
      for (int k = m + 2; k <= l; ++k) {
        pl = ((2 * k - 1) * z * b - (k + m - 1) * a) / (k - m);
        a = b;
        b = pl;
      }
      LD f = 1;
      for (int k = l - m + 1; k <= l + m; ++k) f *= k;
      LD N = std::sqrt((2 * l + 1) / (4 * pi) / f);
      std::complex<LD> e(1, 0);
      for (int k = 0; k < m; ++k) e *= std::complex<LD>(x, y);
      e *= N * pl;
      LD re = Y[l * (l + 1) + m], im = Y[l * (l + 1) - m];
      MC_CHECK(c, std::fabs(re - e.real()) < 2e-9, "order %d: Y(%d,%d) at (%d,%d,%d) is %.12Lg, should be %.12Lg", n, l, m, p[0], p[1], p[2], re, e.real());
      if (m) MC_CHECK(c, std::fabs(im - e.imag()) < 2e-9, "order %d: Y(%d,%d) at (%d,%d,%d) is %.12Lg, should be %.12Lg", n, l, -m, p[0], p[1], p[2], im, e.imag());
      suml += m ? 2 * std::norm(e) : std::norm(e);
    }
    total += suml;
  }
  c.outcome(mc::Hash().vec(Y));
}

static void hankel_legendre(Ch &c) {
  const int n = c.choose(9);
  const int k = c.choose(c.thorough ? 201 : 41);
  c.commit();
  {
    const double x = 0.25 + 0.5 * k;
    std::vector<std::complex<double>> h(n + 1, std::complex<double>(99, 99)), e(n + 2);
    dfm2::makeArray_SphericalHankelFirst(n, h.data(), x);
    std::vector<std::complex<LD>> r(n + 2);
    std::complex<LD> ex(std::cos((LD) x), std::sin((LD) x));
    r[0] = ex * std::complex<LD>(0, -1 / (LD) x);
    r[1] = -ex * std::complex<LD>(1 / (LD) x, 1 / (LD) x / x);
    for (int l = 1; l < n; ++l) r[l + 1] = (LD) (2 * l + 1) / (LD) x * r[l] - r[l - 1];
    for (int l = 0; l <= n; ++l)
      MC_CHECK(c, std::abs(std::complex<LD>(h[l].real(), h[l].imag()) - r[l]) < 1e-9L * std::abs(r[l]), "spherical Hankel function of order %d (array of order %d) at %g is (%.12g,%.12g), should be (%.12Lg,%.12Lg)", l, n, x, h[l].real(), h[l].imag(), r[l].real(), r[l].imag());
  }
  const double x = -1 + 2. * k / (c.thorough ? 200 : 40);
  std::vector<double> P(n + 1, 77.);
  dfm2::makeArray_Legendre(n, P.data(), x);
  std::vector<LD> e(n + 2, 1);
  e[1] = x;
  for (int l = 1; l < n; ++l) e[l + 1] = ((2 * l + 1) * x * e[l] - l * e[l - 1]) / (l + 1);
  for (int l = 0; l <= n; ++l) MC_CHECK(c, std::fabs(P[l] - e[l]) < 1e-12, "Legendre polynomial of degree %d at %g is %.12g, should be %.12Lg", l, x, P[l], e[l]);
  if (n <= 3) {
    std::vector<double> A((n + 1) * (n + 1), 77.);
    dfm2::makeArrayAssociatedLegendre(n, A.data(), x);
    LD s = std::sqrt(std::max((LD) 0, 1 - (LD) x * x));
    for (int l = 0; l <= n; ++l)
      for (int m = 0; m <= l; ++m) {
        LD pmm = 1;
        for (int q = 1; q <= m; ++q) pmm *= -(2 * q - 1) * s;
        LD a = pmm, b = x * (2 * m + 1) * pmm, pl = m == l ? a : b;
        for (int q = m + 2; q <= l; ++q) {
          pl = ((2 * q - 1) * x * b - (q + m - 1) * a) / (q - m);
          a = b;
          b = pl;
        }
        MC_CHECK(c, std::fabs(A[l * (l + 1) + m] - pl) < 1e-12, "associated Legendre function (%d,%d) at %g is %.12g, should be %.12Lg", l, m, x, A[l * (l + 1) + m], pl);
        // negative orders: the library leaves out the factorials, (-1)^m P
        if (m) MC_CHECK(c, std::fabs(std::fabs(A[l * (l + 1) - m]) - std::fabs(pl)) < 1e-12, "associated Legendre function (%d,%d) at %g is %.12g, P(%d,%d) is %.12Lg", l, -m, x, A[l * (l + 1) - m], l, m, pl);
      }
  }
  c.outcome(mc::Hash().vec(P));
}

static LD mono(LD x, int k) {
  LD r = 1;
  for (int i = 0; i < k; ++i) r *= x;
  return r;
}

static LD fact(int n) { return n < 2 ? 1 : n * fact(n - 1); }

template<typename T>
static void quad_rule(Ch &c, LD tol, LD tolt, const char *nm) {
  const int rule = c.choose(7 + 1 + 3 + 4);
  if (rule < 8) {
    const int n = rule < 7 ? rule + 1 : 15;
    const int deg = rule < 7 ? 2 * n - 1 : 22;
    const int k = c.choose(deg + 1);
    c.commit();
    LD s = 0;
    if (rule < 7) {
      const unsigned int b = dfm2::kNumIntegrationPoint_GaussianQuadrature[rule], e = dfm2::kNumIntegrationPoint_GaussianQuadrature[rule + 1];
      MC_CHECK(c, (int) (e - b) == n, "%d point rule has %u points", n, e - b);
      for (unsigned int i = b; i < e; ++i) s += dfm2::kPositionWeight_GaussianQuadrature<T>[i][1] * mono(dfm2::kPositionWeight_GaussianQuadrature<T>[i][0], k);
    } else {
      for (int i = 0; i < 15; ++i) s += dfm2::kPositionWeight_GaussKronrodQuadrature<T>[i][1] * mono(dfm2::kPositionWeight_GaussKronrodQuadrature<T>[i][0], k);
      for (int i = 0; i < 7; ++i) MC_CHECK(c, std::fabs(dfm2::kPositionWeight_GaussKronrodQuadrature<T>[i][0] - dfm2::kPositionWeight_GaussianQuadrature<T>[21 + i][0]) < tol, "first points of the Kronrod rule are not the Gauss points");
    }
    LD e = k % 2 ? 0 : 2 / (LD) (k + 1);
    MC_CHECK(c, std::fabs(s - e) < tol, "%s: %d points integrate x^%d to %.12Lg, should be %.12Lg", nm, n, k, s, e);
    c.outcome_of(rule, k, (double) s);
  } else if (rule < 11) {
    const int o = rule - 8, deg = o == 0 ? 1 : o == 1 ? 2 : 5;
    const int a = c.choose(deg + 1), b = c.choose(deg + 1 - a);
    c.commit();
    LD s = 0, w = 0;
    for (unsigned int i = 0; i < dfm2::NIntTriGauss[o]; ++i) {
      s += dfm2::TriGauss<T>[o][i][2] * mono(dfm2::TriGauss<T>[o][i][0], a) * mono(dfm2::TriGauss<T>[o][i][1], b);
      w += dfm2::TriGauss<T>[o][i][2];
    }
    LD e = 2 * fact(a) * fact(b) / fact(a + b + 2);
    MC_CHECK(c, std::fabs(s - e) < tolt, "%s: triangle rule %d integrates x^%d y^%d to %.12Lg, should be %.12Lg", nm, o, a, b, s, e);
    c.outcome_of(rule, a, b, (double) s);
  } else {
    const int o = rule - 11, deg = o + 1 < 4 ? o + 1 : 4;
    const int a = c.choose(deg + 1), b = c.choose(deg + 1 - a), d = c.choose(deg + 1 - a - b);
    c.commit();
    LD s = 0;
    for (unsigned int i = 0; i < dfm2::NIntTetGauss[o]; ++i) {
      auto &q = dfm2::TetGauss<T>[o][i];
      s += q[3] * mono(q[0], a) * mono(q[1], b) * mono(q[2], d);
    }
    LD e = 6 * fact(a) * fact(b) * fact(d) / fact(a + b + d + 3);
    MC_CHECK(c, std::fabs(s - e) < tol, "%s: tetrahedron rule %d integrates x^%d y^%d z^%d to %.15Lg, should be %.15Lg", nm, o, a, b, d, s, e);
    c.outcome_of(rule, a, b, d, (double) s);
  }
}

static void quadrature(Ch &c) {
  if (c.flip()) quad_rule<double>(c, 1e-12, 1e-9, "double"); else quad_rule<float>(c, 2e-6, 2e-6, "float");
}

// ------------------------------------------------------------------ sampling

static void rand48(Ch &c) {
  const unsigned short A[8] = {0, 1, 0x7fff, 0x8000, 0xffff, 0x1234, 0xfedc, 0x0005};
  std::array<unsigned short, 3> s = {A[c.choose(8)], A[c.choose(8)], A[c.choose(8)]}, s0 = s;
  c.commit();
  unsigned short g[3] = {s[0], s[1], s[2]};
  for (int i = 0; i < 8; ++i) {
    auto t = s, t2 = s, t3 = s;
    double e = erand48(g), v = dfm2::MyERand48<double>(s);
    MC_CHECK(c, v == e && s[0] == g[0] && s[1] == g[1] && s[2] == g[2], "state (%x %x %x) step %d: %.17g, erand48 gives %.17g", s0[0], s0[1], s0[2], i, v, e);
    MC_CHECK(c, v >= 0 && v < 1, "%g", v);
    float f = dfm2::MyERand48<float>(t);
    MC_CHECK(c, std::fabs(f - e) < 1e-6 && t == s, "single precision %g, should be %g", f, e);
    double tent = dfm2::SampleTent<double>(t2);
    // inverse of the tent's distribution function
    double F = tent < 0 ? (tent + 1) * (tent + 1) / 2 : 1 - (1 - tent) * (1 - tent) / 2;
    MC_CHECK(c, tent >= -1 && tent <= 1 && std::fabs(F - e) < 1e-12 && t2 == s, "tent sample %g has distribution value %g, should be %g", tent, F, e);
    auto v2 = dfm2::RandomVec2<double>(t3);
    double first = v, second;
    auto s2 = s;
    second = dfm2::MyERand48<double>(s2);
    MC_CHECK(c, v2[0] == first && v2[1] == second && t3 == s2, "two samples (%g %g), should be (%g %g)", v2[0], v2[1], first, second);
  }
  c.outcome_of(s[0], s[1], s[2]);
}

template<typename T>
static void hemi_t(Ch &c, double tol) {
  const int N = c.thorough ? 40 : 10;
  const T a = (T) c.choose(N + 1) / N, b = (T) c.choose(N + 1) / N;
  int n[3] = {c.choose(5) - 2, c.choose(5) - 2, c.choose(5) - 2};
  if (!n[0] && !n[1] && !n[2]) c.skip();
  c.commit();
  const double phi = 2 * 3.14159265358979323846 * b;
  auto u = dfm2::SampleHemisphereZupUniform<T>({a, b});
  auto w = dfm2::SampleHemisphereZupCos<T>({a, b});
  for (int k = 0; k < 2; ++k) {
    auto &p = k ? w : u;
    const double z = k ? std::sqrt((double) a) : (double) a, r = std::sqrt(std::max(0., 1 - z * z));
    MC_CHECK(c, std::fabs(p[2] - z) < tol && std::fabs(p[0] - r * std::cos(phi)) < tol && std::fabs(p[1] - r * std::sin(phi)) < tol, "%s hemisphere sample of (%g,%g) is (%g %g %g), should be (%g %g %g)", k ? "cosine" : "uniform", (double) a, (double) b, (double) p[0], (double) p[1], (double) p[2], r * std::cos(phi), r * std::sin(phi), z);
  }
  typedef dfm2::CVec3<T> V;
  V nrm((T) n[0], (T) n[1], (T) n[2]);
  nrm = nrm.normalized();
  V d = dfm2::SampleHemisphereNormalCos<V>(nrm, std::array<T, 2>{a, b});
  V d1 = dfm2::SampleHemisphereNormalCos<V>(nrm, std::array<T, 2>{(T) 0.3, (T) 0.2});
  auto w1 = dfm2::SampleHemisphereZupCos<T>({(T) 0.3, (T) 0.2});
  MC_CHECK(c, std::fabs(d.norm() - 1) < tol, "length %g", (double) d.norm());
  MC_CHECK(c, std::fabs(d.dot(nrm) - w[2]) < tol, "normal (%d %d %d): cosine %g, should be %g", n[0], n[1], n[2], (double) d.dot(nrm), (double) w[2]);
  MC_CHECK(c, std::fabs(d.dot(d1) - (w[0] * w1[0] + w[1] * w1[1] + w[2] * w1[2])) < tol, "normal (%d %d %d): samples are not rotated rigidly", n[0], n[1], n[2]);
  c.outcome_of((double) d[0], (double) d[1], (double) d[2]);
}

static void hemisphere(Ch &c) {
  if (c.flip()) hemi_t<double>(c, 2e-8); else hemi_t<float>(c, 1e-3);
}

// a Mersenne twister whose next 32 bit outputs are the given ones
static std::mt19937 scripted(const std::vector<uint32_t> &out) {
  auto untemper = [](uint32_t y) {
    y ^= y >> 18;
    y ^= (y << 15) & 0xefc60000u;
    for (int i = 0; i < 7; ++i) {}
    uint32_t t = y;
    for (int i = 0; i < 5; ++i) t = y ^ ((t << 7) & 0x9d2c5680u);
    y = t;
    t = y;
    for (int i = 0; i < 3; ++i) t = y ^ (t >> 11);
    return t;
  };
  std::stringstream ss;
  for (int i = 0; i < 624; ++i) ss << untemper(out[i % out.size()]) << ' ';
  ss << 0;
  std::mt19937 e;
  ss >> e;
  return e;
}

static void push01(std::vector<uint32_t> &o, double v) {  // generate_canonical<double,53>: low word first
  uint64_t k = (uint64_t) std::ldexp((LD) v, 64);
  o.push_back((uint32_t) k);
  o.push_back((uint32_t) (k >> 32));
}

static void trimesh(Ch &c) {
  // triangles with areas from an alphabet, some of them degenerate or not selected
  const int nt = 1 + c.choose(4);
  std::vector<double> area(nt);
  std::vector<int> sel(nt);
  const bool selective = c.flip();
  double tot = 0;
  for (int i = 0; i < nt; ++i) {
    area[i] = c.pick({0.0, 0.5, 1.0, 2.5});
    sel[i] = selective ? c.choose(2) : 1;
    if (sel[i]) tot += area[i];
  }
  if (tot == 0) c.skip();
  const int N = c.thorough ? 64 : 16;
  c.commit();
  std::vector<double> xyz;
  std::vector<unsigned int> tri;
  for (int i = 0; i < nt; ++i) {
    const double P[9] = {i * 10., 0, 1, i * 10. + 1, 0, 1, i * 10., 2 * area[i], 1};
    xyz.insert(xyz.end(), P, P + 9);
    for (int k = 0; k < 3; ++k) tri.push_back(i * 3 + k);
  }
  std::vector<int> cnt(nt, 0);
  std::vector<std::array<int, 4>> sub(nt, {0, 0, 0, 0});
  mc::Hash H;
  dfm2::RandomSamplingOnMeshTri3 A(xyz, tri);
  dfm2::RandomSamplingOnMeshTri3Selective B(xyz, tri, [&](unsigned int i) { return sel[i] != 0; });
  auto load = [&](const std::vector<uint32_t> &o) {
    if (selective) { B.rndeng = scripted(o); B.dist_01.reset(); } else { A.rndeng = scripted(o); A.dist_01.reset(); }
  };
  auto one = [&](double v0, double v1, bool count) {
    std::tuple<unsigned int, double, double> s;
    if (selective) s = B.Sample(); else s = A.Sample();
    const unsigned int it = std::get<0>(s);
    const double r0 = std::get<1>(s), r1 = std::get<2>(s);
    MC_CHECK(c, it < (unsigned) nt, "triangle %u of %d", it, nt);
    MC_CHECK(c, sel[it], "triangle %u was not selected", it);
    MC_CHECK(c, area[it] > 0, "triangle %u has no area", it);
    MC_CHECK(c, r0 >= -1e-12 && r1 >= -1e-12 && r0 + r1 <= 1 + 1e-12, "barycentric coordinates %g %g of the draws %g %g are outside of the triangle", r0, r1, v0, v1);
    H << it;
    if (!count) return;
    cnt[it]++;
    sub[it][r0 >= 0.5 ? 0 : r1 >= 0.5 ? 1 : r0 + r1 <= 0.5 ? 2 : 3]++;
  };
  const int M = N * 4;
  for (int k = 0; k < M * M;) {
    std::vector<uint32_t> o;  // 156 samples of two draws exhaust one state of the engine
    const int e = std::min(k + 156, M * M);
    for (int l = k; l < e; ++l) { push01(o, (l / M + 0.37) / M); push01(o, (l % M + 0.61) / M); }
    load(o);
    for (; k < e; ++k) one((k / M + 0.37) / M, (k % M + 0.61) / M, true);
  }
  for (int i = 0; i < nt; ++i) {
    const double e = sel[i] ? area[i] / tot * M * M : 0;
    MC_CHECK(c, std::fabs(cnt[i] - e) <= M * 1.01, "triangle %d of area %g of %g got %d of %d draws", i, area[i], tot, cnt[i], M * M);
    for (int k = 0; k < 4; ++k) MC_CHECK(c, std::fabs(sub[i][k] - e / 4) <= 3 * M, "part %d of triangle %d got %d of its %d draws", k, i, sub[i][k], cnt[i]);
  }
  // draws exactly on the boundaries
  double cum = 0;
  std::vector<double> ex = {0, 0.5, 0.25, 0.75, 1 - std::ldexp(1., -53)};
  for (int i = 0; i < nt; ++i) if (sel[i]) { cum += area[i]; if (cum < tot) ex.push_back(cum / tot); }
  for (double v0 : ex)
    for (double v1 : ex) {
      std::vector<uint32_t> o;
      push01(o, v0);
      push01(o, v1);
      load(o);
      one(v0, v1, false);
    }
  c.outcome(H);
}

static void random_arrays(Ch &c) {
  const unsigned seed = c.choose(8);
  const double mag = c.pick({1.0, 0.0, -2.0}), off = c.pick({0.0, 0.5, -3.0});
  const double lo = c.pick({0.0, -1.0});
  c.commit();
  std::mt19937 e(seed);
  std::uniform_real_distribution<double> d(lo, 1);
  auto e1 = e;
  auto d1 = d;
  auto v = dfm2::RandomVec<5, double>(d, e, mag, off);
  double A[2][3] = {};
  dfm2::Fill2dArrayWithRandomValue<2, 3>(A, d, e, mag, off);
  for (int i = 0; i < 5; ++i) MC_CHECK(c, std::fabs(v[i] - (mag * d1(e1) + off)) < 1e-12, "entry %d of a random vector", i);
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) MC_CHECK(c, std::fabs(A[i][j] - (mag * d1(e1) + off)) < 1e-12, "entry %d,%d of a random matrix", i, j);
  // normal deviates: moments over a long run
  double m[3] = {}, s[3] = {}, x[3] = {};
  const int n = 4000;
  for (int i = 0; i < n; ++i) {
    auto g = dfm2::RandGaussVec3<double>(e);
    for (int k = 0; k < 3; ++k) { m[k] += g[k] / n; s[k] += g[k] * g[k] / n; x[k] += g[k] * g[(k + 1) % 3] / n; }
  }
  for (int k = 0; k < 3; ++k) MC_CHECK(c, std::fabs(m[k]) < 0.12 && std::fabs(s[k] - 1) < 0.2 && std::fabs(x[k]) < 0.12, "moments of normal deviate %d: %g %g %g", k, m[k], s[k], x[k]);
  c.outcome_of(v[0], A[1][2]);
}

int main(int argc, char **argv) {
  return mc::run(argc, argv, {"C32", "exploration", {"IEEE double precision", "staggered grids of at least two cells per direction for advection", "noise at non-negative positions"}},
                 {{"image", image, "all images 1..4 x 1..4 of single bright bytes, linear ramps and a pattern, all positions on a sub-pixel lattice: equals bilinear interpolation with replicated border"},
                  {"grid_interp", grid_interp, "all grids 2..4 x 2..4 of unit, linear and irregular fields, all positions inside and outside: clamped bilinear value within the range of the samples"},
                  {"advect", advect, "all grids 2..4, velocity fields, time steps: semi-Lagrangian backtrace with clamped bilinear lookup, staggered and cell centred"},
                  {"project", project, "all grids 1..4, unit and irregular velocities between closed walls: zero divergence after projection, walls untouched"},
                  {"cellcentred", cellcentred, "central differences inside, border untouched"},
                  {"laplacian", laplacian, "five point stencil with replicated border, conservation"},
                  {"colour", colour, "hue lattice, heat map, colour maps with all inputs incl. keys and outside, byte conversion"},
                  {"noise", noise, "all lattice and fractional positions of all small periods: zero and gradient at lattice points, periodic, smooth, octave sums"},
                  {"noise_image", noise_image, "image sizes, repetitions, octaves; shuffling"},
                  {"harmonics", harmonics, "all directions of a lattice, all orders up to 9 against the recurrence"},
                  {"hankel_legendre", hankel_legendre, "all orders, arguments of a lattice, against the recurrences"},
                  {"quadrature", quadrature, "all monomials up to the degree of every rule"},
                  {"rand48", rand48, "all states of corner words against erand48, eight steps"},
                  {"hemisphere", hemisphere, "all samples of a lattice, all normals of a 5^3 lattice"},
                  {"trimesh", trimesh, "all triangle areas of the alphabet and selections; all draws of a lattice plus the draws that hit boundaries, fed through a scripted random engine"},
                  {"random_arrays", random_arrays, "seeds, magnitudes, offsets"}});
}
