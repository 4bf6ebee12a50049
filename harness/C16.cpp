// C16: mesh, array and image files.
#include "mc.h"
#include <fstream>
#include <iostream>
#include <sstream>
#include <filesystem>
#include <set>
#include <unistd.h>
#include "delfem2/msh_io_obj.h"
#include "delfem2/msh_io_ply.h"
#include "delfem2/msh_io_misc.h"
#include "delfem2/img_ioppm.h"
#include "delfem2/filenpy_str.h"
namespace dfm2 = delfem2;
using U = unsigned int;
struct Tmp {   // scratch file of this process
  std::string p;
  explicit Tmp(const char *ext) {
    const char *d = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
    p = std::string(d) + "/delfem2-C16-" + std::to_string(getpid()) + ext;
  }
  ~Tmp() { for (auto e: {"", ".node", ".ele", ".face"}) { std::string q = p + e; ::unlink(q.c_str()); } }
  void put(const std::string &s, const char *e = "") const { std::ofstream f(p + e, std::ios::binary); f << s; }
  std::string get() const { std::ifstream f(p, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); return ss.str(); }
};
static const double VAL[] = {0, 1, -1, 0.5, -0.25, 1e-3, 12345, -7.5e-5, 100000, 3.25};   // all exact within six printed digits
struct Mesh { std::vector<double> xyz; std::vector<U> el; };
static Mesh mesh(mc::Ch &c, int nno, int maxp, int maxe) {
  Mesh m;
  int np = c.choose(maxp + 1), ne = np == 0 ? 0 : c.choose(maxe + 1);
  int rot = c.choose(5);
  for (int i = 0; i < 3 * np; i++) m.xyz.push_back(VAL[(i * 3 + rot * 2 + i / 3) % 10]);
  for (int e = 0; e < ne; e++) for (int k = 0; k < nno; k++) m.el.push_back((e == 0 || k < 2) && nno <= 4 ? c.choose(np) : (e + 2 * k + rot) % np);
  return m;
}
template<typename A, typename B>
static bool same(const A &a, const B &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if ((double) a[i] != (double) b[i]) return false; return true; }
template<typename A>
static bool samei(const A &a, const std::vector<U> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if ((U) a[i] != b[i]) return false; return true; }
static void quiet() { std::cout.rdbuf(nullptr); std::cerr.rdbuf(nullptr); }

static void roundtrip(mc::Ch &c) {
  int f = c.choose(8);
  static const int nno[] = {3, 4, 3, 3, 3, 3, 3, 3};
  Mesh m = mesh(c, nno[f], c.thorough ? 4 : 3, 2);
  int dirty = c.choose(2);
  c.commit();
  c.describe("format %d: %s %s", f, mc::str(m.xyz).c_str(), mc::str(m.el).c_str());
  quiet();
  Tmp t(".mesh");
  std::vector<double> x;
  std::vector<U> e;
  std::vector<int> ei, mi(m.el.begin(), m.el.end());
  if (dirty) { x = {5, 6, 7, 8}; e = {1, 2}; ei = {3}; t.put("v 1 2 3\nf 1 1 1\nsome older content that is longer than the new one might be\nf 1 1 1\n"); }
  const size_t np = m.xyz.size() / 3;
  switch (f) {
    case 0: {
      dfm2::Write_Obj_UniformMesh(t.p, m.xyz.data(), np, m.el.data(), m.el.size() / 3, 3);
      dfm2::Read_Obj(x, e, t.p);
      MC_CHECK(c, same(x, m.xyz) && samei(e, m.el), "OBJ: read %s %s", mc::str(x).c_str(), mc::str(e).c_str());
      x = {9}; e = {9};
      dfm2::Read_Obj2(t.p, x, e);
      MC_CHECK(c, same(x, m.xyz) && samei(e, m.el), "OBJ (2): read %s %s", mc::str(x).c_str(), mc::str(e).c_str());
      std::vector<float> xf{1, 2};
      dfm2::Read_Obj3(xf, e, t.p);
      MC_CHECK(c, xf.size() == m.xyz.size() && samei(e, m.el), "OBJ (3): read %s %s", mc::str(xf).c_str(), mc::str(e).c_str());
      for (size_t i = 0; i < xf.size(); i++) MC_CHECK(c, xf[i] == (float) m.xyz[i], "OBJ (3): coordinate %zu is %g", i, xf[i]);
      break;
    }
    case 1:
      dfm2::Write_Obj_UniformMesh(t.p, m.xyz.data(), np, m.el.data(), m.el.size() / 4, 4);
      dfm2::Read_Obj_MeshQuad3(x, e, t.p);
      MC_CHECK(c, same(x, m.xyz) && samei(e, m.el), "quad OBJ: read %s %s", mc::str(x).c_str(), mc::str(e).c_str());
      {
        std::vector<U> tri;
        for (size_t q = 0; q < m.el.size() / 4; q++) { U *p = &m.el[4 * q]; for (U v: {p[0], p[1], p[2], p[0], p[2], p[3]}) tri.push_back(v); }
        dfm2::Read_Obj3(x, e, t.p);
        MC_CHECK(c, same(x, m.xyz) && samei(e, tri), "quad OBJ as triangles: read %s", mc::str(e).c_str());
      }
      break;
    case 2:
      dfm2::Write_Ply(t.p, m.xyz, mi);
      dfm2::Read_Ply(x, e, t.p);
      MC_CHECK(c, same(x, m.xyz) && samei(e, m.el), "PLY: read %s %s", mc::str(x).c_str(), mc::str(e).c_str());
      break;
    case 3: {
      dfm2::Write_Ply(t.p, (U) np, m.xyz.data(), (U) m.el.size() / 3, m.el.data());
      int nn = -1, nt = -1;
      double *px = nullptr;
      U *pt = nullptr;
      dfm2::Read_Ply(t.p, nn, px, nt, pt);
      MC_CHECK(c, nn == (int) np && nt == (int) m.el.size() / 3, "PLY: %d points and %d triangles", nn, nt);
      MC_CHECK(c, same(std::vector<double>(px, px + 3 * nn), m.xyz) && samei(std::vector<U>(pt, pt + 3 * nt), m.el), "PLY (arrays): wrong data");
      delete[] px;
      delete[] pt;
      break;
    }
    case 4: {
      { std::ofstream fo(t.p); dfm2::Write_MeshTri3D(fo, m.xyz, mi, 3); }
      { std::ifstream fi(t.p); dfm2::Read_MeshTri3D(fi, x, ei); }
      MC_CHECK(c, same(x, m.xyz) && samei(ei, m.el), "plain: read %s %s", mc::str(x).c_str(), mc::str(ei).c_str());
      break;
    }
    case 5: {   // several meshes in groups
      std::vector<std::pair<std::vector<double>, std::vector<U>>> ms{{m.xyz, m.el}, {{1, 2, 3, 4, 5, 6, 7, 8, 9}, {2, 1, 0}}, {m.xyz, m.el}};
      dfm2::Write_Obj(t.p, ms);
      std::vector<double> wx;
      std::vector<U> we;
      std::vector<U> wg{0, 0};
      for (auto &q: ms) { U o = (U) wx.size() / 3; wx.insert(wx.end(), q.first.begin(), q.first.end()); for (U i: q.second) we.push_back(i + o); wg.push_back((U) we.size() / 3); }
      dfm2::Read_Obj(x, e, t.p);
      MC_CHECK(c, same(x, wx) && samei(e, we), "grouped OBJ: read %s %s", mc::str(x).c_str(), mc::str(e).c_str());
      std::string mtl("x");
      std::vector<double> tx, nr;
      std::vector<U> idx{1}, ex, et, en, gi{4};
      std::vector<std::string> gn{"y"};
      bool r = dfm2::Read_WavefrontObjWithMaterialMixedElem(mtl, x, tx, nr, idx, ex, et, en, gn, gi, t.p);
      MC_CHECK(c, r && same(x, wx) && samei(ex, we) && mtl.empty() && tx.empty() && nr.empty(), "grouped OBJ (mixed): read %s %s", mc::str(x).c_str(), mc::str(ex).c_str());
      MC_CHECK(c, gn == (std::vector<std::string>{"default", "0", "1", "2"}) && gi == wg, "groups %s", mc::str(gi).c_str());
      MC_CHECK(c, idx.size() == we.size() / 3 + 1, "%zu offsets", idx.size());
      for (size_t i = 0; i < idx.size(); i++) MC_CHECK(c, idx[i] == 3 * i, "offset %u", idx[i]);
      break;
    }
    case 6: {   // triangles by flag
      std::vector<U> fl;
      for (size_t i = 0; i < m.el.size() / 3; i++) fl.push_back((U) c.choose(3));
      std::vector<U> we;
      for (U g = 0; g < 3; g++) for (size_t i = 0; i < fl.size(); i++) if (fl[i] == g) for (int k = 0; k < 3; k++) we.push_back(m.el[3 * i + k]);
      auto xc = m.xyz;
      auto ec = m.el;
      dfm2::Write_Obj_TriFlag(t.p, xc, ec, fl);
      dfm2::Read_Obj(x, e, t.p);
      MC_CHECK(c, same(x, m.xyz) && samei(e, we), "flagged OBJ: read %s %s", mc::str(x).c_str(), mc::str(e).c_str());
      std::string tx = t.get();
      for (U g: fl) MC_CHECK(c, tx.find("g flag" + std::to_string(g)) != std::string::npos, "no group for flag %u", g);
      break;
    }
    case 7: {   // STL
      dfm2::Write_STL(t.p, m.xyz, mi);
      std::istringstream is(t.get());
      std::string w;
      std::vector<double> v, n;
      while (is >> w) {
        if (w == "vertex") { double a, b, d; is >> a >> b >> d; v.push_back(a); v.push_back(b); v.push_back(d); }
        if (w == "normal") { std::string a, b, d; is >> a >> b >> d; for (auto &q: {a, b, d}) n.push_back(atof(q.c_str())); }
      }
      std::vector<double> wv;
      for (U i: m.el) for (int k = 0; k < 3; k++) wv.push_back(m.xyz[3 * i + k]);
      MC_CHECK(c, same(v, wv), "STL: wrote %s", mc::str(v).c_str());
      MC_CHECK(c, n.size() == m.el.size(), "STL: %zu normal coordinates", n.size());
      for (size_t i = 0; i < n.size() / 3; i++) {
        double *p = &wv[9 * i], a[3], b[3], x3[3], l = 0;
        for (int k = 0; k < 3; k++) { a[k] = p[3 + k] - p[k]; b[k] = p[6 + k] - p[k]; }
        for (int k = 0; k < 3; k++) { x3[k] = a[(k + 1) % 3] * b[(k + 2) % 3] - a[(k + 2) % 3] * b[(k + 1) % 3]; l += x3[k] * x3[k]; }
        if (l < 1e-12) continue;
        for (int k = 0; k < 3; k++) MC_CHECK(c, std::fabs(x3[k] / std::sqrt(l) - n[3 * i + k]) < 1e-5, "STL: normal of triangle %zu", i);
      }
      break;
    }
  }
  c.outcome(mc::Hash() << f << m.el.size() << m.xyz.size());
}
static void mixed(mc::Ch &c) {
  // jagged triangles and quads through the mixed reader; full OBJ with texture and normals
  int ne = c.choose(4);
  std::vector<int> ind{0}, el;
  int np = 4 + c.choose(2);
  for (int e = 0; e < ne; e++) { int n = c.flip() ? 4 : 3; int a = c.choose(np); for (int k = 0; k < n; k++) el.push_back((a + k * (e + 1)) % np); ind.push_back((int) el.size()); }
  c.commit();
  c.describe("%s %s", mc::str(ind).c_str(), mc::str(el).c_str());
  quiet();
  Tmp t(".obj");
  std::vector<double> xyz;
  for (int i = 0; i < 3 * np; i++) xyz.push_back(VAL[(i * 7 + ne) % 10]);
  dfm2::Write_Obj_ElemJArray(t.p, xyz, ind, el);
  std::string mtl;
  std::vector<float> x{1}, tx{2}, nr{3};
  std::vector<U> idx{1}, ex{2}, et{3}, en{4}, gi{5};
  std::vector<std::string> gn{"a"};
  MC_CHECK(c, dfm2::Read_WavefrontObjWithMaterialMixedElem(mtl, x, tx, nr, idx, ex, et, en, gn, gi, t.p), "reading failed");
  for (size_t i = 0; i < xyz.size(); i++) MC_CHECK(c, x.size() == xyz.size() && x[i] == (float) xyz[i], "coordinate %zu", i);
  MC_CHECK(c, samei(ind, idx) && samei(el, ex), "read %s %s", mc::str(idx).c_str(), mc::str(ex).c_str());
  MC_CHECK(c, et == std::vector<U>(el.size(), (U) -1) && en == std::vector<U>(el.size(), (U) -1) && tx.empty() && nr.empty(), "attributes out of nowhere");
  MC_CHECK(c, gn.size() == 1 && gi == (std::vector<U>{0, (U) ne}), "groups %s", mc::str(gi).c_str());
  // full writer: triangles only, every split into groups
  std::vector<U> tv, tt, tn;
  std::vector<double> vt{0, 0, 0.5, 0.25, 1, 1}, vn{1, 0, 0, 0, 1, 0, 0, 0, -1, 0.6, 0, 0.8};
  for (int e = 0; e < ne; e++) for (int k = 0; k < 3; k++) { tv.push_back((U) el[ind[e] + k]); tt.push_back((U) (e + k) % 3); tn.push_back((U) (e * 2 + k) % 4); }
  for (U s0 = 0; s0 <= (U) ne; s0++) for (U s1 = s0; s1 <= (U) ne; s1++) {
    std::vector<std::string> names{"first", "second"};
    std::vector<U> gidx{0, s0, s1, (U) ne};
    dfm2::Write_WavefrontObj(t.p, xyz, vt, vn, tv, tt, tn, names, gidx);
    std::vector<double> X{1}, T{1}, N{1};
    MC_CHECK(c, dfm2::Read_WavefrontObjWithMaterialMixedElem(mtl, X, T, N, idx, ex, et, en, gn, gi, t.p), "reading failed");
    MC_CHECK(c, same(X, xyz) && same(T, vt) && N.size() == vn.size(), "full OBJ: %zu %zu %zu values", X.size(), T.size(), N.size());
    for (size_t i = 0; i < vn.size(); i++) MC_CHECK(c, std::fabs(N[i] - vn[i]) < 1e-12, "normal %zu", i);
    MC_CHECK(c, ex == tv && et == tt && en == tn, "full OBJ: elements %s %s %s", mc::str(ex).c_str(), mc::str(et).c_str(), mc::str(en).c_str());
    MC_CHECK(c, gi == gidx && gn == (std::vector<std::string>{"default", "first", "second"}), "full OBJ: groups %s", mc::str(gi).c_str());
  }
  c.outcome(mc::Hash() << ne << ind.back());
}
static void layout(mc::Ch &c) {
  // every face-index style, comments, blank lines, other statements, line ends and long lines
  int style = c.choose(4), nl = c.choose(2), com = c.choose(6), trail = c.choose(2), last = c.choose(2), n = 3 + c.choose(4), np = 6;
  int rot = c.choose(np);
  c.commit();
  c.describe("style %d, line end %d, extra line %d, trailing space %d, last line end %d, %d corners, start %d", style, nl, com, trail, last, n, rot);
  quiet();
  const std::string E = nl ? "\r\n" : "\n", sp = trail ? " " : "";
  const std::string extra[] = {"", "# comment v 1 2 3", "s off", "o name", "", "# " + std::string(700, 'x')};
  const std::string longline = com == 4 ? "# " + std::string(255 - 2, 'y') : extra[com];
  std::string s, X = com ? longline + E : "";
  s += X;
  for (int i = 0; i < np; i++) s += "v " + std::to_string(i) + ".5 -" + std::to_string(i) + " 1e-2" + sp + E + (i % 2 ? X : "");
  for (int i = 0; i < 3; i++) s += "vt 0.5 " + std::to_string(i) + sp + E;
  for (int i = 0; i < 2; i++) s += "vn 0 " + std::string(i ? "0 2" : "-3 0") + sp + E;
  s += "g part" + E + "usemtl red" + E + X;
  std::vector<U> f, ft, fn;
  for (int e = 0; e < 2; e++) {
    s += "f";
    for (int k = 0; k < n; k++) {
      int v = (rot + k + e) % np, t = (k + e) % 3, m = (k + e) % 2;
      f.push_back((U) v);
      ft.push_back(style & 1 ? (U) t : (U) -1);
      fn.push_back(style & 2 ? (U) m : (U) -1);
      s += " " + std::to_string(v + 1);
      if (style == 1) s += "/" + std::to_string(t + 1);
      if (style == 2) s += "//" + std::to_string(m + 1);
      if (style == 3) s += "/" + std::to_string(t + 1) + "/" + std::to_string(m + 1);
    }
    s += sp;
    if (e == 0 || last) s += E;
    if (e == 0) s += X;
  }
  Tmp t(".obj");
  t.put(s);
  std::vector<double> wx;
  for (int i = 0; i < np; i++) { wx.push_back(i + 0.5); wx.push_back(-i); wx.push_back(0.01); }
  std::vector<U> fan, e;
  for (int q = 0; q < 2; q++) for (int k = 2; k < n; k++) { fan.push_back(f[q * n]); fan.push_back(f[q * n + k - 1]); fan.push_back(f[q * n + k]); }
  std::vector<double> x;
  dfm2::Read_Obj3(x, e, t.p);
  MC_CHECK(c, same(x, wx), "%zu coordinates, expected %zu", x.size(), wx.size());
  MC_CHECK(c, e == fan, "triangles %s, expected %s", mc::str(e).c_str(), mc::str(fan).c_str());
  if (n == 3) { dfm2::Read_Obj2(t.p, x, e); MC_CHECK(c, same(x, wx) && e == f, "triangles (2) %s", mc::str(e).c_str()); }
  if (n == 3 && style == 0) { dfm2::Read_Obj(x, e, t.p); MC_CHECK(c, same(x, wx) && e == f, "triangles %s", mc::str(e).c_str()); }
  if (n == 4 && style == 0) { dfm2::Read_Obj_MeshQuad3(x, e, t.p); MC_CHECK(c, same(x, wx) && e == f, "quads %s", mc::str(e).c_str()); }
  std::string mtl;
  std::vector<double> tx, nr;
  std::vector<U> idx, ex, et, en, gi;
  std::vector<std::string> gn;
  MC_CHECK(c, dfm2::Read_WavefrontObjWithMaterialMixedElem(mtl, x, tx, nr, idx, ex, et, en, gn, gi, t.p), "reading failed");
  MC_CHECK(c, same(x, wx) && ex == f && et == ft && en == fn, "mixed: %s %s %s", mc::str(ex).c_str(), mc::str(et).c_str(), mc::str(en).c_str());
  MC_CHECK(c, idx == (std::vector<U>{0, (U) n, (U) 2 * n}) && tx.size() == 6 && nr.size() == 6, "mixed: offsets %s", mc::str(idx).c_str());
  MC_CHECK(c, same(nr, std::vector<double>{0, -1, 0, 0, 0, 1}) && same(tx, std::vector<double>{0.5, 0, 0.5, 1, 0.5, 2}), "mixed: attributes");
  MC_CHECK(c, gi == (std::vector<U>{0, 0, 2}) && gn == (std::vector<std::string>{"default", "part"}), "mixed: groups");
  // material library
  if (style == 0) {
    t.put("newmtl a" + E + "Kd 0.25 0.5 1" + E + "Ka 1 0 0" + E + X + "Ns 8" + E + "newmtl b" + E + "Ks 0 1 0" + E + "illum 2" + E + "map_Kd tex.png" + E + "Kd 1 1 0");
    std::vector<dfm2::MaterialWavefrontObj> mt(3);
    dfm2::Read_WavefrontMaterial(t.p, mt);
    MC_CHECK(c, mt.size() == 2 && mt[0].name_mtl == "a" && mt[1].name_mtl == "b", "%zu materials", mt.size());
    MC_CHECK(c, mt[0].Kd[0] == 0.25f && mt[0].Kd[1] == 0.5f && mt[0].Kd[2] == 1 && mt[0].Ka[0] == 1 && mt[0].Ns == 8, "material a");
    MC_CHECK(c, mt[1].Ks[1] == 1 && mt[1].illum == 2 && mt[1].map_Kd == "tex.png" && mt[1].Kd[0] == 1 && mt[1].Kd[2] == 0, "material b");
  }
  c.outcome(mc::Hash() << style << n << com);
}
static void vtk(mc::Ch &c) {
  int ty = c.choose(4), data = c.choose(3), dim = data == 2 || c.choose(2) ? 3 : 2;
  static const int T[] = {5, 9, 10, 12}, N[] = {3, 4, 4, 8};
  int ne = 1 + c.choose(3), np = N[ty] + c.choose(3), stride = c.choose(3), rot = c.choose(4);
  if (dim == 2) stride = std::max(stride, 0);
  c.commit();
  c.describe("type %d, data %d, dimension %d, %d elements, %d points, stride %d", T[ty], data, dim, ne, np, stride);
  quiet();
  Tmp t(".vtk");
  std::vector<double> xyz, val;
  for (int i = 0; i < dim * np; i++) xyz.push_back(VAL[(i * 3 + rot) % 10]);
  std::vector<int> el;
  for (int i = 0; i < ne * N[ty]; i++) el.push_back((i * (rot + 1) + rot) % np);
  int sv = data == 1 ? 1 + stride : dim + stride;
  for (int i = 0; i < sv * np; i++) val.push_back(VAL[(i * 7 + 1) % 10]);
  {
    std::ofstream fo(t.p);
    dfm2::WriteVTK_Points(fo, "name", xyz.data(), np, dim);
    dfm2::WriteVTK_Cells(fo, T[ty], el.data(), ne);
    if (data) fo << "POINT_DATA " << np << "\n";
    if (data == 1) dfm2::WriteVTK_Data_PointScalar(fo, val.data(), np, sv);
    if (data == 2) dfm2::WriteVTK_Data_PointVec(fo, val.data(), np, sv, dim);
  }
  std::vector<double> x{4}, v{5, 6};
  std::vector<int> e{7};
  int et = -3;
  dfm2::ReadVTK(x, et, e, v, t.p);
  std::vector<double> wx, wv;
  for (int i = 0; i < np; i++) for (int k = 0; k < 3; k++) wx.push_back(k < dim ? xyz[dim * i + k] : 0);
  if (data == 1) for (int i = 0; i < np; i++) wv.push_back(val[i * sv]);
  if (data == 2) for (int i = 0; i < np; i++) for (int k = 0; k < 3; k++) wv.push_back(k < dim ? val[i * sv + k] : 0);
  MC_CHECK(c, x == wx && et == T[ty] && e == el, "read type %d, %s %s", et, mc::str(x).c_str(), mc::str(e).c_str());
  MC_CHECK(c, v == wv, "values %s", mc::str(v).c_str());
  // triangles with values through a point map
  if (ty == 0 && data == 1 && dim == 3) {
    std::vector<int> map;
    for (int i = 0; i < np; i++) map.push_back((i * 2 + rot) % np);
    for (auto &q: map) q = std::min(q, np - 1);
    dfm2::WriteVTK_MapTriScalar(t.p, "name", xyz, map, el, val, sv, stride);
    dfm2::ReadVTK(x, et, e, v, t.p);
    wx.clear();
    wv.clear();
    for (int q: map) { for (int k = 0; k < 3; k++) wx.push_back(xyz[3 * q + k]); wv.push_back(val[q * sv + stride]); }
    MC_CHECK(c, x == wx && et == 5 && e == el && v == wv, "mapped: %s %s %s", mc::str(x).c_str(), mc::str(e).c_str(), mc::str(v).c_str());
  }
  // mixed volume cells
  if (ty == 2 && data == 0) {
    std::vector<int> te, py, pr;
    const int nt = 1 + ne % 2;
    for (int i = 0; i < 4 * nt; i++) te.push_back((i * 5 + 2) % 9);
    for (int i = 0; i < 5 * (rot % 2); i++) py.push_back(i);
    for (int i = 0; i < 6 * (rot / 2); i++) pr.push_back(i + 1);
    { std::ofstream fo(t.p); dfm2::WriteVTK_Cells(fo, te, py, pr); }
    std::istringstream is(t.get());
    std::string w;
    int a, b, q;
    is >> w >> a >> b;
    MC_CHECK(c, w == "CELLS" && a == nt + rot % 2 + rot / 2 && b == 5 * nt + 6 * (rot % 2) + 7 * (rot / 2), "mixed cells: %d %d", a, b);
    std::vector<int> want;
    for (int i = 0; i < nt; i++) { want.push_back(4); want.insert(want.end(), te.begin() + 4 * i, te.begin() + 4 * i + 4); }
    if (!py.empty()) { want.push_back(5); want.insert(want.end(), py.begin(), py.end()); }
    if (!pr.empty()) { want.push_back(6); want.insert(want.end(), pr.begin(), pr.end()); }
    for (int i: want) { is >> q; MC_CHECK(c, q == i, "mixed cells: %d for %d", q, i); }
    is >> w >> a;
    MC_CHECK(c, w == "CELL_TYPES", "no cell types");
    for (int i = 0; i < nt; i++) { is >> q; MC_CHECK(c, q == 10, "type %d", q); }
    if (!py.empty()) { is >> q; MC_CHECK(c, q == 14, "type %d", q); }
    if (!pr.empty()) { is >> q; MC_CHECK(c, q == 13, "type %d", q); }
  }
  c.outcome(mc::Hash() << ty << data << ne);
}
static std::string f8(double v) { char b[32]; snprintf(b, 32, "%-8g", v); return b; }
static std::string i8(int v) { char b[32]; snprintf(b, 32, "%-8d", v); return b; }
static void nastran(mc::Ch &c) {
  int np = 1 + c.choose(4), ne = c.choose(3), perm = c.choose(4), com = c.choose(5), nl = c.choose(2), last = c.choose(2);
  c.commit();
  c.describe("%d points %d triangles, numbering %d, extra line %d, line end %d, last line end %d", np, ne, perm, com, nl, last);
  quiet();
  const std::string E = nl ? "\r\n" : "\n";
  const std::string X = com == 0 ? "" : com == 1 ? "$ comment" + E : com == 2 ? E : com == 3 ? "$" + std::string(400, 'x') + E : "$" + std::string(254, 'x') + E;
  std::vector<int> id;
  for (int i = 0; i < np; i++) id.push_back(perm == 0 ? i + 1 : perm == 1 ? np - i : perm == 2 ? 10 * i + 3 : (i * 3 + 1) % 5 + 1);
  std::set<int> u(id.begin(), id.end());
  if ((int) u.size() != np) c.skip();
  std::string s = X;
  std::vector<double> wx;
  std::vector<U> we;
  for (int i = 0; i < np; i++) { s += "GRID    " + i8(id[i]) + i8(0); for (int k = 0; k < 3; k++) { double v = (i * 3 + k) * 0.25 - 1; s += f8(v); wx.push_back(v); } s += E + X; }
  std::vector<std::string> lines;
  for (int e = 0; e < ne; e++) { s += "CTRIA3  " + i8(e + 1) + i8(1); for (int k = 0; k < 3; k++) { int p = (e + k) % np; s += i8(id[p]); we.push_back((U) p); } if (e + 1 < ne || last) s += E; if (e + 1 < ne) s += X; }
  Tmp t(".nas");
  t.put(s);
  std::vector<double> x{3};
  std::vector<U> e{3};
  dfm2::Read_MeshTri3D_Nas(x, e, t.p.c_str());
  MC_CHECK(c, x == wx && e == we, "read %s %s", mc::str(x).c_str(), mc::str(e).c_str());
  // TetGen
  if (com == 0 && nl == 0 && np >= 4) {
    std::string n = std::to_string(np) + " 3 0 0\n", el = std::to_string(ne) + " 4 0\n", fa = std::to_string(ne) + " 0\n";
    std::vector<int> wt;
    std::vector<std::set<int>> wf;
    for (int i = 0; i < np; i++) { n += std::to_string(i); for (int k = 0; k < 3; k++) n += " " + f8(wx[3 * i + k]); n += "\n"; }
    for (int q = 0; q < ne; q++) {
      el += std::to_string(q);
      for (int k = 0; k < 4; k++) { wt.push_back((q + k * (perm + 1)) % np); el += " " + std::to_string(wt.back()); }
      el += "\n";
      fa += std::to_string(q);
      std::set<int> f;
      for (int k = 0; k < 3; k++) { f.insert((q + k) % np); fa += " " + std::to_string((q + k) % np); }
      wf.push_back(f);
      fa += "\n";
    }
    t.put(n, ".node"); t.put(el, ".ele"); t.put(fa, ".face");
    std::vector<int> te{1}, tr{2};
    dfm2::Read_MeshTet3D_TetGen(t.p, x, te, tr);
    MC_CHECK(c, x == wx && te == wt && tr.size() == 3 * wf.size(), "TetGen: %s %s", mc::str(x).c_str(), mc::str(te).c_str());
    for (size_t q = 0; q < wf.size(); q++) MC_CHECK(c, (std::set<int>(tr.begin() + 3 * q, tr.begin() + 3 * q + 3) == wf[q]), "TetGen: face %zu", q);
  }
  c.outcome(mc::Hash() << np << ne);
}
static std::string npy(const std::string &descr, const std::string &order, const std::string &shape, const std::string &data, int pad, int major = 1) {
  std::string d = "{'descr': '" + descr + "', 'fortran_order': " + order + ", 'shape': " + shape + ", }";
  while ((10 + d.size() + 1) % 16) d += ' ';
  d += std::string(pad, ' ') + "\n";
  std::string s = "\x93NUMPY";
  s += (char) major;
  s += '\0';
  s += (char) (d.size() & 255);
  s += (char) (d.size() >> 8);
  return s + d + data;
}
static void numpy(mc::Ch &c) {
  int kind = c.choose(3);   // 2D double, 2D float, 1D float
  int n0 = c.choose(4), n1 = kind == 2 ? 1 : c.choose(4), pad = c.pick({0, 16, 128, 192, 512, 5000});
  int what = c.choose(4);   // intact, every truncation, every header byte changed, wrong header
  if (what == 2 && pad > 16) c.skip();
  if (what == 1 && pad > 192) c.skip();
  c.commit();
  c.describe("kind %d shape %d,%d pad %d what %d", kind, n0, n1, pad, what);
  quiet();
  std::vector<double> wd;
  std::vector<float> wf;
  for (int i = 0; i < n0 * n1; i++) { wd.push_back(i * 1.25 - 3); wf.push_back((float) (i * 1.25 - 3)); }
  std::string data = kind == 0 ? std::string((char *) wd.data(), wd.size() * 8) : std::string((char *) wf.data(), wf.size() * 4);
  std::string shape = kind == 2 ? "(" + std::to_string(n0) + ",)" : "(" + std::to_string(n0) + ", " + std::to_string(n1) + ")";
  std::string descr = kind == 0 ? "<f8" : "<f4";
  std::string file = npy(descr, "False", shape, data, pad);
  Tmp t(".npy");
  int a = -1, b = -1;
  std::vector<double> d{1, 2};
  std::vector<float> f{1, 2};
  auto load = [&]() { a = b = -1; d = {1, 2}; f = {1, 2}; c.tick(); return kind == 0 ? dfm2::LoadNumpy_2Dim(a, b, d, t.p) : kind == 1 ? dfm2::LoadNumpy_2Dim(a, b, f, t.p) : dfm2::LoadNumpy_1DimF(a, f, t.p); };
  auto good = [&]() { return a == n0 && (kind == 2 || b == n1) && (kind == 0 ? d == wd : f == wf); };
  if (what == 0) {
    t.put(file);
    MC_CHECK(c, load() && good(), "not read: %dx%d, %zu/%zu values", a, b, d.size(), f.size());
    t.put(file + "trailing bytes");
    MC_CHECK(c, load() && good(), "not read with trailing bytes");
    ::unlink(t.p.c_str());
    MC_CHECK(c, !load(), "a missing file was read");
  }
  if (what == 1)
    for (size_t k = 0; k < file.size(); k++) {
      t.put(file.substr(0, k));
      bool r = load();
      MC_CHECK(c, !r, "%zu of %zu bytes are read as a whole file", k, file.size());
    }
  if (what == 2)
    for (size_t k = 0; k < file.size() - data.size(); k++)
      for (char q: {'\0', '\xff', ' ', ',', ':', '(', ')', '\'', '-', '9', '0', '{', '1'}) {
        std::string g = file;
        g[k] = q;
        t.put(g);
        bool r = load();   // must not touch memory out of bounds; what is accepted has the size it says
        if (r) MC_CHECK(c, (kind == 0 ? d.size() : f.size()) == (size_t) a * (size_t) (kind == 2 ? 1 : b), "byte %zu set to %d: %dx%d with %zu values", k, q, a, b, kind == 0 ? d.size() : f.size());
        if (r && k < 6 && g != file) c.fail("wrong magic accepted");
      }
  if (what == 3) {
    struct { std::string f; const char *w; } bad[] = {
        {npy(kind == 0 ? "<f4" : "<f8", "False", shape, data + data, pad), "other element size"}, {npy("<i4", "False", shape, data, pad), "integers"},
        {npy(descr, "True", shape, data, pad), "Fortran order"}, {npy(descr, "False", kind == 2 ? "(2, 3)" : "(6,)", data + std::string(64, 'x'), pad), "other dimension"},
        {npy(descr, "False", kind == 2 ? "(-1,)" : "(-1, -4)", data, pad), "negative size"}, {npy(descr, "False", kind == 2 ? "(999999999,)" : "(65536, 65536)", data, pad), "huge size"},
        {npy(descr, "False", "", data, pad), "no shape"}, {"", "empty file"}, {std::string(3000, '\x93'), "no header"}};
    for (auto &q: bad) { t.put(q.f); MC_CHECK(c, !load(), "%s accepted", q.w); }
  }
  c.outcome(mc::Hash() << kind << n0 << n1 << what);
}
static void ppm(mc::Ch &c) {
  int bin = c.choose(2), w = 1 + c.choose(3), h = 1 + c.choose(3), lay = c.choose(5), what = c.choose(3);
  c.commit();
  c.describe("%s %dx%d layout %d what %d", bin ? "P6" : "P3", w, h, lay, what);
  quiet();
  std::vector<int> px;
  for (int i = 0; i < 3 * w * h; i++) px.push_back(i == 0 ? '#' : (i * 37 + 10) % 256);
  std::string W = std::to_string(w), H = std::to_string(h), head;
  if (bin) head = lay == 0 ? "P6\n" + W + " " + H + "\n255\n" : lay == 1 ? "P6\n# made by x\n" + W + " " + H + "\n255\n" : lay == 2 ? "P6\n" + W + " " + H + " 255\n" : lay == 3 ? "P6 " + W + "\n" + H + "\n255 " : "P6\n" + W + " " + H + "\n# made by x, a long comment " + std::string(300, 'c') + "\n255\n";
  else head = "P3\n" + W + " " + H + "\n255\n";
  std::string body;
  if (bin) for (int v: px) body += (char) v;
  else for (size_t i = 0; i < px.size(); i++) body += (i == 0 ? "" : lay == 0 ? " " : lay == 1 ? "\n" : lay == 2 ? "  " : lay == 3 ? (i % (3 * w) ? " " : " \n") : "\t") + std::to_string(px[i]);
  std::string file = head + body;
  if (!bin && lay % 2) file += "\n";
  Tmp t(".ppm");
  std::vector<unsigned char> im;
  int iw = -1, ih = -1;
  U uw = 7, uh = 7;
  auto load = [&]() { im = {1}; c.tick(); iw = ih = -1; uw = uh = 7; if (bin) return dfm2::LoadImage_PPMBinary(t.p, im, iw, ih); bool r = dfm2::LoadImage_PPMAscii(uw, uh, im, t.p) == 0; iw = (int) uw; ih = (int) uh; return r; };
  if (what == 0) {
    t.put(file);
    MC_CHECK(c, load() && iw == w && ih == h && (int) im.size() >= 3 * w * h, "not read: %dx%d %zu", iw, ih, im.size());
    for (int y = 0; y < h; y++) for (int x = 0; x < 3 * w; x++) MC_CHECK(c, im[(h - 1 - y) * 3 * w + x] == px[y * 3 * w + x], "row %d, byte %d is %d, the file has %d", y, x, im[(h - 1 - y) * 3 * w + x], px[y * 3 * w + x]);
    ::unlink(t.p.c_str());
    MC_CHECK(c, !load(), "a missing file was read");
  }
  if (what == 1) {
    size_t full = bin ? file.size() : head.size() + body.find_last_of(" \n\t") + 1;   // a cut inside the last number leaves a number
    for (size_t k = 0; k < (bin ? full : full + 1); k++) { t.put(file.substr(0, k)); MC_CHECK(c, !load(), "%zu of %zu bytes are read as a whole image", k, file.size()); }
  }
  if (what == 2)
    for (size_t k = 0; k < head.size(); k++) for (char q: {'\0', ' ', '9', '-', '#', '\n', 'x', '\xff'}) {
      std::string g = file;
      g[k] = q;
      t.put(g);
      bool r = load();
      if (r) MC_CHECK(c, iw >= 0 && ih >= 0 && im.size() >= (size_t) 3 * iw * ih, "byte %zu set to %d: %dx%d with %zu bytes", k, q, iw, ih, im.size());
      if (r && k < 2 && q != file[k]) c.fail("wrong magic accepted");
      // each decimal made huge
      if (std::isdigit(file[k])) { g = file; g.insert(k, "99999"); t.put(g); r = load(); if (r) MC_CHECK(c, im.size() >= (size_t) 3 * iw * ih, "huge size: %dx%d with %zu bytes", iw, ih, im.size()); }
    }
  c.outcome(mc::Hash() << bin << w << h << lay << what);
}
int main(int argc, char **argv) {
  return mc::run(argc, argv, {"C16", "exploration", {"coordinates have at most six significant digits (the writers print six)", "OBJ indices are positive (relative indices are not supported); the readers of meshes without a result value are not given truncated files", "the binary PPM reader pads its buffer; only the pixels are judged; ASCII PPM comments are a documented TODO"}},
                 {{"roundtrip", roundtrip, "all meshes of up to 3 points and 2 elements x 8 writer/reader pairs x fresh and reused outputs and files"},
                  {"mixed", mixed, "all lists of up to 3 triangles or quads, and full OBJ files with all divisions into groups"},
                  {"layout", layout, "4 index styles x line ends x extra lines x trailing space x 3 to 6 corners x start corners"},
                  {"vtk", vtk, "4 element types x data kinds x strides x dimensions"},
                  {"nastran", nastran, "numberings x extra lines x line ends; TetGen triples"},
                  {"numpy", numpy, "all shapes up to 3x3 in 3 readers x header sizes; every truncation point; 13 values in every header byte; 9 malformed files"},
                  {"ppm", ppm, "all sizes up to 3x3 x 5 layouts; every truncation point; 8 values in every header byte"}});
}
