// C17: string splitting and parsing utilities follow their grammar for every string.
#include "mc.h"
#include <unistd.h>
#include <iostream>
#include "delfem2/str.h"
#include "delfem2/file.h"
namespace dfm2 = delfem2;
using S = std::string;
using VS = std::vector<std::string>;
static S show(const VS &v) { S s; for (auto &k: v) s += "[" + k + "]"; return s; }
static S word(mc::Ch &c, const S &sym, int maxlen) {
  int n = c.choose(maxlen + 1);
  S s;
  for (int i = 0; i < n; i++) s += sym[c.choose((int) sym.size())];
  return s;
}
static VS drop(VS v) { VS r; for (auto &k: v) if (!k.empty()) r.push_back(k); return r; }
static VS cut(const S &s, const S &del) {  // pieces between delimiters, empty ones included
  VS r{""};
  for (char k: s) if (del.find(k) != S::npos) r.push_back(""); else r.back() += k;
  return r;
}
static void splits(mc::Ch &c) {
  S s = word(c, "ab,; \"", c.thorough ? 7 : 6);
  c.commit();
  c.describe("\"%s\"", s.c_str());
  for (char d: S(", \"")) {
    VS e = drop(cut(s, S(1, d))), out{"old", "tokens"};
    MC_CHECK(c, dfm2::Split(s, d) == e, "Split(\"%s\",'%c') is %s, expected %s", s.c_str(), d, show(dfm2::Split(s, d)).c_str(), show(e).c_str());
    dfm2::Split(out, s, d);
    MC_CHECK(c, out == e, "Split into a used array: %s, expected %s", show(out).c_str(), show(e).c_str());
  }
  for (S d: {S(","), S(",;"), S(" ,;"), S("")}) {
    VS e = drop(cut(s, d));
    MC_CHECK(c, dfm2::Split(s, d) == e, "Split(\"%s\",\"%s\") is %s, expected %s", s.c_str(), d.c_str(), show(dfm2::Split(s, d)).c_str(), show(e).c_str());
    S rm, rb = s;
    for (char k: s) if (d.find(k) == S::npos) rm += k;
    MC_CHECK(c, dfm2::Remove(s, d) == rm, "Remove(\"%s\",\"%s\") is \"%s\"", s.c_str(), d.c_str(), dfm2::Remove(s, d).c_str());
    while (!rb.empty() && d.find(rb[0]) != S::npos) rb.erase(0, 1);
    MC_CHECK(c, dfm2::RemoveBeginning(s, d) == rb, "RemoveBeginning(\"%s\",\"%s\") is \"%s\", expected \"%s\"", s.c_str(), d.c_str(), dfm2::RemoveBeginning(s, d).c_str(), rb.c_str());
  }
  S sp, re;
  for (char k: s) { if (k != ' ') sp += k; re += k == ',' ? 'z' : k; }
  MC_CHECK(c, dfm2::RemoveSpace(s) == sp, "RemoveSpace(\"%s\") is \"%s\"", s.c_str(), dfm2::RemoveSpace(s).c_str());
  MC_CHECK(c, dfm2::Replace(s, ',', 'z') == re, "Replace(\"%s\",',','z') is \"%s\"", s.c_str(), dfm2::Replace(s, ',', 'z').c_str());
  // quotes
  for (char d: S(", ")) {
    VS e{""};
    bool in = false;
    for (char k: s) { if (k == '"') in = !in; if (k == d && !in) e.push_back(""); else e.back() += k; }
    e = drop(e);
    MC_CHECK(c, dfm2::Split_Quote(s, d, '"') == e, "Split_Quote(\"%s\",'%c') is %s, expected %s", s.c_str(), d, show(dfm2::Split_Quote(s, d, '"')).c_str(), show(e).c_str());
  }
  c.outcome(mc::Hash() << s);
}
static void parentheses(mc::Ch &c) {
  S s = word(c, "a,()[", c.thorough ? 8 : 7);
  c.commit();
  c.describe("\"%s\"", s.c_str());
  VS e{""};
  int lv = 0;
  for (char k: s) { if (k == '(') lv++; if (k == ')') lv--; if (k == ',' && lv == 0) e.push_back(""); else e.back() += k; }
  if (s.empty()) e.clear();
  MC_CHECK(c, dfm2::Split_Parentheses(s, ',', "()") == e, "Split_Parentheses(\"%s\") is %s, expected %s", s.c_str(), show(dfm2::Split_Parentheses(s, ',', "()")).c_str(), show(e).c_str());
  for (S bad: {S("("), S("")}) MC_CHECK(c, dfm2::Split_Parentheses(s, ',', bad) == VS{s} && dfm2::Get_Parentheses(s, bad).empty(), "a bracket pair of the wrong length is used");
  size_t a = s.find('('), b = s.rfind(')');
  S g = a != S::npos && b != S::npos && a < b ? s.substr(a + 1, b - a - 1) : S();
  MC_CHECK(c, dfm2::Get_Parentheses(s, "()") == g, "Get_Parentheses(\"%s\") is \"%s\", expected \"%s\"", s.c_str(), dfm2::Get_Parentheses(s, "()").c_str(), g.c_str());
  c.outcome(mc::Hash() << g << e.size());
}
static void chars(mc::Ch &c) {
  int k = c.choose(256);
  c.commit();
  c.describe("character %d", k);
  char ch = (char) k;
  MC_CHECK(c, dfm2::isAlphabet(ch) == ((ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z')), "isAlphabet(%d)", k);
  MC_CHECK(c, dfm2::isAlphabetUpper(k) == (k >= 'A' && k <= 'Z'), "isAlphabetUpper(%d)", k);
  MC_CHECK(c, dfm2::isNumeric(k) == (k >= '0' && k <= '9'), "isNumeric(%d)", k);
  c.outcome(k);
}
static void numbers(mc::Ch &c) {
  int neg = c.choose(3), dot = c.choose(4), exp = c.choose(4);
  S i = word(c, "0159", 3), f = dot ? word(c, "05", 2) : S();
  if (i.empty() && f.empty()) c.skip();
  c.commit();
  const char *sg[] = {"", "-", "+"}, *ex[] = {"", "e2", "E-1", "e+1"};
  S s = S(sg[neg]) + i + (dot ? "." : "") + f + ex[exp];
  c.describe("\"%s\"", s.c_str());
  long double m = 0, w = 1;
  for (char k: i) m = m * 10 + (k - '0');
  for (char k: f) m += (k - '0') * (w /= 10);
  const long double p[] = {1, 100, 0.1L, 10};
  double v = (double) ((neg == 1 ? -1 : 1) * m * p[exp]);
  MC_CHECK(c, mc::near(dfm2::myStod(s), v, 1e-14), "myStod(\"%s\") is %.17g", s.c_str(), dfm2::myStod(s));
  if (!dot && !exp && (i.size() == 1 || i[0] != '0')) MC_CHECK(c, dfm2::myStoi(s) == (int) v, "myStoi(\"%s\") is %d", s.c_str(), dfm2::myStoi(s));
  std::vector<double> a;
  dfm2::ReadVector_CSV(a, s + "," + s);
  MC_CHECK(c, a.size() == 2 && a[0] == dfm2::myStod(s) && a[1] == a[0], "ReadVector_CSV(\"%s,%s\") gives %zu values", s.c_str(), s.c_str(), a.size());
  c.outcome(mc::Hash() << s);
}
static void csv(mc::Ch &c) {
  static const VS t = {"1", "-2.5", "0.25", "1e3", "0"};
  static const double v[] = {1, -2.5, 0.25, 1000, 0};
  int n = c.choose(6), tail = n ? c.choose(2) : 0;
  S s;
  std::vector<double> e, g;
  for (int i = 0; i < n; i++) { int k = c.choose(5); s += (i ? "," : "") + t[k]; e.push_back(v[k]); }
  if (tail) s += ",";
  c.commit();
  c.describe("\"%s\"", s.c_str());
  dfm2::ReadVector_CSV(g, s);
  MC_CHECK(c, g == e, "ReadVector_CSV(\"%s\") gives %s", s.c_str(), mc::str(g).c_str());
  c.outcome(mc::Hash().vec(e));
}
static void json(mc::Ch &c) {
  int n = 1 + c.choose(2);
  S s = "{";
  std::map<S, S> e;
  int sp = c.choose(2);
  for (int i = 0; i < n; i++) {
    S k = S(1, "kl"[i]) + word(c, ":a", 1), v = word(c, "0,:{}", i == 0 ? 3 : 2);
    e[k] = v;
    s += S(i ? "," : "") + (sp && i ? "  " : "") + "\"" + k + "\"" + (sp ? " : " : ":") + "\"" + v + "\"";
  }
  s += sp ? " }" : "}";
  c.commit();
  c.describe("%s", s.c_str());
  auto g = dfm2::ReadDictionary_Json(s);
  S d;
  for (auto &k: g) d += "[" + k.first + "=" + k.second + "]";
  MC_CHECK(c, g == e, "ReadDictionary_Json(%s) is %s", s.c_str(), d.c_str());
  c.outcome(mc::Hash() << s);
}
static void attributes(mc::Ch &c) {
  int n = c.choose(4);
  S s;
  std::map<S, S> e{{"old", "1"}}, g{{"old", "1"}};
  int lead = c.choose(2), trail = c.choose(3);
  if (lead) s += " ";
  for (int i = 0; i < n; i++) {
    S k = S(1, "xyz"[i]) + (c.choose(2) ? "-b" : "");
    int q = c.choose(2);
    S v = q ? word(c, "a =", i == 0 ? 3 : i == 1 ? 2 : 0) : S("v") + word(c, "1=", i == 2 ? 1 : 2);
    e[k] = v;
    s += (i ? c.choose(2) ? "  " : " " : "") + k + "=" + (q ? "\"" + v + "\"" : v);
  }
  if (trail == 1) s += " ";
  if (trail == 2) s += " /";
  c.commit();
  c.describe("%s", s.c_str());
  dfm2::ParseAttributes(g, s);
  S d;
  for (auto &k: g) d += "[" + k.first + "|" + k.second + "]";
  MC_CHECK(c, g == e, "ParseAttributes(%s) is %s", s.c_str(), d.c_str());
  c.outcome(mc::Hash() << s);
}
static void xml(mc::Ch &c) {
  static const VS part = {"<a>", "<b c=\"1\">", "</a>", "text", " ", ">", "<d/>", "\n"};
  int n = c.choose(c.thorough ? 7 : 6);
  S s;
  for (int i = 0; i < n; i++) s += part[c.choose((int) part.size())];
  c.commit();
  c.describe("%s", s.c_str());
  VS e;
  size_t mark = 0;
  bool tag = false;
  for (size_t i = 0; i < s.size(); i++)
    if ((!tag && s[i] == '<') || (tag && s[i] == '>')) { e.push_back(s.substr(mark, i - mark)); mark = i + 1; tag = !tag; }
  for (auto &k: e) while (!k.empty() && k[0] == ' ') k.erase(0, 1);
  std::vector<char> in(s.begin(), s.end());
  in.push_back(0);
  VS g;
  dfm2::XML_SeparateTagContent(g, in);
  MC_CHECK(c, g == e, "XML_SeparateTagContent(%s) is %s, expected %s", s.c_str(), show(g).c_str(), show(e).c_str());
  MC_CHECK(c, std::string(in.begin(), in.end() - 1) == s, "the input was changed");
  c.outcome(mc::Hash() << s);
}
static void options(mc::Ch &c) {
  static const VS arg = {"-a", "-b", "12", "-0.5", "x"};
  int n = c.choose(5);
  VS a{"prog"};
  for (int i = 0; i < n; i++) a.push_back(arg[c.choose(5)]);
  c.commit();
  c.describe("%s", show(a).c_str());
  std::vector<char *> p;
  for (auto &k: a) p.push_back(&k[0]);
  char **b = p.data(), **e = b + p.size();
  for (S o: {S("-a"), S("-b"), S("-z")}) {
    size_t i = 0;
    while (i < a.size() && a[i] != o) i++;
    S v = i + 1 < a.size() ? a[i + 1] : S();
    bool has = i + 1 < a.size();
    MC_CHECK(c, dfm2::cmdOptionExists(b, e, o) == (i < a.size()), "cmdOptionExists %s", o.c_str());
    MC_CHECK(c, dfm2::getCmdOptionStr(b, e, o) == v, "getCmdOptionStr %s", o.c_str());
    MC_CHECK(c, dfm2::getCmdOptionInt(b, e, o, 7) == (has ? v == "12" ? 12 : 0 : 7), "getCmdOptionInt %s", o.c_str());
    MC_CHECK(c, dfm2::getCmdOptionDouble(b, e, o, 7) == (has ? v == "12" ? 12 : v == "-0.5" ? -0.5 : 0 : 7), "getCmdOptionDouble %s", o.c_str());
  }
  c.outcome(mc::Hash() << show(a));
}
static void paths(mc::Ch &c) {
  S s = word(c, "ab./", c.thorough ? 8 : 7);
  c.commit();
  c.describe("\"%s\"", s.c_str());
  size_t sl = s.rfind('/'), d = s.rfind('.');
  bool ext = d != S::npos && (sl == S::npos || d > sl);
  S base = ext ? s.substr(0, d) : s, ex = ext ? s.substr(d + 1) : S(), dir = sl == S::npos ? S() : s.substr(0, sl);
  if (!(ext && ex.empty())) {
    MC_CHECK(c, dfm2::pathRemoveExtension(s) == base, "pathRemoveExtension(\"%s\") is \"%s\"", s.c_str(), dfm2::pathRemoveExtension(s).c_str());
    MC_CHECK(c, dfm2::pathGetExtension(s) == ex, "pathGetExtension(\"%s\") is \"%s\"", s.c_str(), dfm2::pathGetExtension(s).c_str());
  }
  MC_CHECK(c, dfm2::getPathDir(s) == dir, "getPathDir(\"%s\") is \"%s\"", s.c_str(), dfm2::getPathDir(s).c_str());
  c.outcome(mc::Hash() << base << ex << dir);
}
static void polygon(mc::Ch &c) {
  int n = c.choose(5);
  double sc = c.pick({1., 0.5, -2.});
  std::vector<double> xy;
  for (int i = 0; i < 2 * n; i++) xy.push_back((i * 7 % 5 - 2) * 0.75);
  c.commit();
  c.describe("%d points scale %g", n, sc);
  S s = dfm2::Str_SVGPolygon(xy, sc);
  size_t a = s.find("points=\""), b = s.find('"', a + 8);
  MC_CHECK(c, a != S::npos && b != S::npos && s.find("<polygon") != S::npos && s.find("</svg>") != S::npos, "no polygon element in %s", s.c_str());
  VS t = drop(cut(s.substr(a + 8, b - a - 8), " ,"));
  MC_CHECK(c, t.size() == xy.size(), "%zu numbers for %d points", t.size(), n);
  for (size_t i = 0; i < t.size(); i++) MC_CHECK(c, mc::near(std::stod(t[i]), xy[i] * (i % 2 ? -sc : sc), 1e-5), "coordinate %zu is %s", i, t[i].c_str());
  c.outcome(mc::Hash() << s);
}

struct Scratch { // one file in memory-backed storage, removed with the case
  S path;
  Scratch() { const char *d = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp"; path = S(d) + "/c17_" + std::to_string((long) getpid()) + ".txt"; }
  ~Scratch() { remove(path.c_str()); }
  void put(const S &t) { FILE *f = fopen(path.c_str(), "wb"); fwrite(t.data(), 1, t.size(), f); fclose(f); }
};
static void contents(mc::Ch &c) {
  S s = word(c, S("a\0\n\r\xff ", 6), c.thorough ? 6 : 5);
  c.commit();
  Scratch f; f.put(s);
  MC_CHECK(c, dfm2::isFileExists(f.path), "an existing file is reported missing");
  S t = dfm2::LoadFile(f.path);
  MC_CHECK(c, t == s, "LoadFile gives %zu bytes of %zu, or others", t.size(), s.size());
  std::vector<char> v(s.size() % 2 * 9, 'z');
  MC_CHECK(c, dfm2::GetFileContents(v, f.path), "GetFileContents fails");
  MC_CHECK(c, v.size() == s.size() + 1 && v.back() == 0 && S(v.begin(), v.end() - 1) == s, "GetFileContents gives other bytes");
  S no = f.path + ".none"; std::vector<float> fl;
  MC_CHECK(c, !dfm2::isFileExists(no) && dfm2::LoadFile(no).empty() && !dfm2::GetFileContents(v, no) && !dfm2::ReadParam(fl, no), "a missing file is read");
  c.outcome(mc::Hash() << t);
}
static void params(mc::Ch &c) {
  static const VS tok = {"1", "-2.5", "0.25", "1e3", "x"};
  static const float val[] = {1.f, -2.5f, .25f, 1000.f};
  int n = c.choose(c.thorough ? 6 : 5);
  S s = c.pick({S(), S(" "), S("\n\n")}); std::vector<float> e; bool stop = false;
  S sep = c.pick({S("\n"), S(" "), S("\t\r\n "), S("  ")});
  for (int i = 0; i < n; i++) {
    int k = c.choose(5); if (i) s += sep; s += tok[k];
    if (k == 4) stop = true; else if (!stop) e.push_back(val[k]);
  }
  s += c.pick({S(), S("\n"), S(" "), S("\n \n")});
  bool dirty = c.flip();
  c.commit(); c.describe("\"%s\"", s.c_str());
  Scratch f; f.put(s);
  std::vector<float> a; if (dirty) a = {9, 9, 9, 9, 9, 9, 9};
  MC_CHECK(c, dfm2::ReadParam(a, f.path), "ReadParam fails");
  MC_CHECK(c, a == e, "ReadParam gives %zu numbers, expected %zu", a.size(), e.size());
  std::vector<float> b{3};
  MC_CHECK(c, dfm2::WriteParam(f.path, e) && dfm2::ReadParam(b, f.path) && b == e, "WriteParam and ReadParam do not give the list back");
  c.outcome(mc::Hash() << s);
}
int main(int argc, char **argv) {
  std::cout.rdbuf(nullptr);
  std::cerr.rdbuf(nullptr);
  return mc::run(argc, argv, mc::Config{"C17", "exploration", {"file names ending in a dot, dictionaries with spaces or escaped quotes in values and numbers with leading zeros as integers are not judged"}},
                 {{"splits", splits, "all strings of up to 6 (thorough 7) characters over a b , ; space quote x delimiters: split, quoted split, remove, trim, replace"},
                  {"parentheses", parentheses, "all strings of up to 7 (thorough 8) characters over a , ( ) ["},
                  {"chars", chars, "all 256 characters"},
                  {"numbers", numbers, "all numbers of the grammar sign digits[.digits][exponent] with up to 3+2 digits"},
                  {"csv", csv, "all lists of up to 5 numbers, with and without a trailing comma"},
                  {"json", json, "flat dictionaries of 1-2 entries with all values over 0 , : { } up to 3 characters"},
                  {"attributes", attributes, "all attribute lists of up to 3 entries with quoted and bare values over a, space, ="},
                  {"xml", xml, "all documents of up to 5 (thorough 6) parts out of 8"},
                  {"options", options, "all command lines of up to 4 arguments out of 5"},
                  {"paths", paths, "all paths of up to 7 (thorough 8) characters over a b . /"},
                  {"contents", contents, "all files of up to 5 (thorough 6) bytes over a NUL newline return 0xff space, and a missing one"},
                  {"params", params, "all parameter files of up to 4 (thorough 5) items, separators, ends and a word instead of a number"},
                  {"polygon", polygon, "polygons written as SVG"}});
}
