// C15: the expression evaluator computes what the expression means.
#include "mc.h"
#include <cerrno>
#include <iostream>
#include <memory>
#include "delfem2/parse_math_expression.h"
namespace dfm2 = delfem2;
using Ev = dfm2::CMathExpressionEvaluator;
struct Bad {};                                   // the value is not defined by the evaluator's documentation
// ---------- syntax trees
struct Node { int k; int v; std::shared_ptr<Node> a, b; };   // k: 0 leaf, 1 unary sign, 2 function, 3 binary
using N = std::shared_ptr<Node>;
static const char *leafs[] = {"x", "y", "2", "0.5", "PI", "3.25"};
static const char *funs[] = {"abs", "floor", "exp", "sin", "cos", "sqrt", "log"};
static const char ops[] = "+-*/^";
static double fin(double v) { if (!std::isfinite(v) || std::fabs(v) > 1e12) throw Bad{}; return v; }
static double apply(char op, double a, double b) {
  switch (op) {
    case '+': return fin(a + b);
    case '-': return fin(a - b);
    case '*': return fin(a * b);
    case '/': if (std::fabs(b) < 1e-12) throw Bad{}; return fin(a / b);
    default: return fin(std::pow(a, b));
  }
}
static double fun(int f, double a) {
  switch (f) {
    case 0: return std::fabs(a);
    case 1: if (std::fabs(a - std::round(a)) < 1e-9 && a != std::round(a)) throw Bad{}; return std::floor(a);
    case 2: return fin(std::exp(a));
    case 3: if (std::fabs(a) > 1e3) throw Bad{}; return std::sin(a);
    case 4: if (std::fabs(a) > 1e3) throw Bad{}; return std::cos(a);
    case 5: if (a < 1e-20) throw Bad{}; return std::sqrt(a);
    default: if (a < 1e-20) throw Bad{}; return std::log(a);
  }
}
static double eval(const N &n, double x, double y) {
  if (n->k == 0) { const double val[] = {x, y, 2, 0.5, 3.14159265358979, 3.25}; return val[n->v]; }
  if (n->k == 1) return n->v ? -eval(n->a, x, y) : eval(n->a, x, y);
  if (n->k == 2) return fun(n->v, eval(n->a, x, y));
  return apply(ops[n->v], eval(n->a, x, y), eval(n->b, x, y));
}
static int prec(const N &n) { return n->k == 3 ? (n->v < 2 ? 1 : n->v < 4 ? 2 : 4) : n->k == 1 ? 3 : 5; }
// style 0: fewest parentheses; 1: every sub-expression in parentheses; 2: spaces everywhere; 3: doubled parentheses
static std::string show(const N &n, int style) {
  const char *sp = style == 2 ? " " : "";
  auto par = [&](const N &c, bool need) {
    std::string s = show(c, style);
    if (style == 3) return "((" + s + "))";
    if (need || style == 1) return std::string("(") + sp + s + sp + ")";
    return s;
  };
  if (n->k == 0) return leafs[n->v];
  if (n->k == 1) return std::string(n->v ? "-" : "+") + sp + par(n->a, prec(n->a) < 3);
  if (n->k == 2) return std::string(funs[n->v]) + sp + (style == 3 ? "((" : "(") + sp + show(n->a, style) + sp + (style == 3 ? "))" : ")");
  int p = prec(n);
  bool la = prec(n->a) < p, ra = prec(n->b) <= p;
  if (n->v == 4) { la = prec(n->a) <= p; ra = prec(n->b) < 3; }     // right-associative; a^-b needs no parentheses
  if (n->b->k == 1 && n->v != 4) ra = false;                        // a*-b, a--b
  if (n->a->k == 1 && n->v == 4) la = true;                         // (-a)^b
  return par(n->a, la) + sp + ops[n->v] + sp + par(n->b, ra);
}
static bool uses(const N &n, int v) { return n->k == 0 ? n->v == v : uses(n->a, v) || (n->b && uses(n->b, v)); }
static N leaf(int v) { return std::make_shared<Node>(Node{0, v, nullptr, nullptr}); }

static void judge(mc::Ch &c, Ev &e, const std::string &s, const N &n, double x, double y, const char *what) {
  double ref;
  try { ref = eval(n, x, y); } catch (Bad &) { return; }
  double v = e.Eval();
  MC_CHECK(c, mc::near(v, ref, 1e-9, 1e-9 * (1 + std::fabs(ref))), "%s\"%s\" at x=%g y=%g is %.12g, expected %.12g", what, s.c_str(), x, y, v, ref);
}
static N tree(mc::Ch &c, int depth) {
  int k = c.choose(depth == 1 ? 1 : 4);
  if (k == 0) return leaf(c.choose(c.thorough ? 6 : 5));
  if (k == 1) { int v = c.choose(2); return std::make_shared<Node>(Node{1, v, tree(c, depth - 1), nullptr}); }
  if (k == 2) { int v = c.choose(7); return std::make_shared<Node>(Node{2, v, tree(c, depth - 1), nullptr}); }
  int v = c.choose(5);
  N a = tree(c, depth - 1);
  return std::make_shared<Node>(Node{3, v, a, tree(c, depth - 1)});
}
static void trees(mc::Ch &c) {
  N n = tree(c, 3);
  c.commit();
  c.describe("%s", show(n, 0).c_str());
  for (int style = 0; style < 4; style++) {
    std::string s = show(n, style);
    Ev e;
    e.SetKey("x", 1.5);
    e.SetKey("y", -0.75);
    e.SetKey("unused", 4);
    MC_CHECK(c, e.SetExp(s), "\"%s\" is refused", s.c_str());
    judge(c, e, s, n, 1.5, -0.75, "");
    MC_CHECK(c, e.IsKeyUsed("x") == uses(n, 0) && e.IsKeyUsed("y") == uses(n, 1) && !e.IsKeyUsed("unused") && !e.IsKeyUsed("none"), "IsKeyUsed is wrong for \"%s\"", s.c_str());
    e.SetKey("x", 3);
    judge(c, e, s, n, 3, -0.75, "after changing x: ");
    e.SetKey("y", 2);
    judge(c, e, s, n, 3, 2, "after changing y: ");
  }
  try { c.outcome(mc::Hash() << eval(n, 1.5, -0.75)); } catch (Bad &) {}
}
// chains of operators without parentheses: precedence and associativity
static void chains(mc::Ch &c) {
  int n = 4 + c.choose(c.thorough ? 2 : 1);
  std::vector<int> op, sg;
  for (int i = 0; i + 1 < n; i++) op.push_back(c.choose(5));
  for (int i = 0; i < n; i++) sg.push_back(c.choose(i < 3 ? 3 : 2));
  int l = c.choose(n + 1), r = l == n ? 0 : l + 1 + c.choose(n - l);   // one group in parentheses (l == n: none)
  if (l < n && r - l < 2) c.skip();
  c.commit();
  const double v[] = {7, 2, 3, 1.5, 0.5};
  const char *t[] = {"7", "y", "3", "1.5", "x"};
  std::string s;
  std::vector<std::string> tok;
  for (int i = 0; i < n; i++) {
    if (i) tok.push_back(std::string(1, ops[op[i - 1]]));
    if (sg[i] == 1) tok.push_back("~");       // sign of the operand
    if (sg[i] == 2) tok.push_back("#");
    if (i == l) tok.push_back("(");
    tok.push_back("v" + std::to_string(i));
    if (l < n && i == r - 1) tok.push_back(")");
  }
  for (auto &k: tok) s += k[0] == 'v' ? t[k[1] - '0'] : k == "~" ? "-" : k == "#" ? "+" : k;
  c.describe("%s", s.c_str());
  // precedence climbing over the tokens
  size_t p = 0;
  std::function<double(int)> ex;
  std::function<double()> un, pw;
  pw = [&]() -> double {
    double a;
    if (tok[p] == "(") { p++; a = ex(0); p++; }
    else a = v[tok[p++][1] - '0'];
    if (p < tok.size() && tok[p] == "^") { p++; a = apply('^', a, un()); }
    return a;
  };
  un = [&]() -> double {
    if (tok[p] == "~") { p++; return -un(); }
    if (tok[p] == "#") { p++; return un(); }
    return pw();
  };
  ex = [&](int lv) -> double {
    double a = lv == 0 ? ex(1) : un();
    while (p < tok.size() && (lv == 0 ? tok[p] == "+" || tok[p] == "-" : tok[p] == "*" || tok[p] == "/")) {
      char o = tok[p++][0];
      double b = lv == 0 ? ex(1) : un();
      a = apply(o, a, b);
    }
    return a;
  };
  double ref;
  Ev e;
  e.SetKey("y", 2);
  e.SetKey("x", 0.5);
  bool ok = e.SetExp(s);
  MC_CHECK(c, ok, "\"%s\" is refused", s.c_str());
  try { ref = ex(0); } catch (Bad &) { return; }
  double g = e.Eval();
  MC_CHECK(c, mc::near(g, ref, 1e-9, 1e-9 * (1 + std::fabs(ref))), "\"%s\" is %.12g, expected %.12g", s.c_str(), g, ref);
  c.outcome(mc::Hash() << ref << s);
}
// every short string: accepted exactly when it is an expression
struct Parser {
  std::string s;
  size_t p = 0;
  double x;
  bool undef = false;
  struct No {};
  char cur() { return p < s.size() ? s[p] : 0; }
  double ap(char o, double a, double b) { try { return apply(o, a, b); } catch (Bad &) { undef = true; return 1; } }
  double atom() {
    if (cur() == '(') { p++; double v = expr(); if (cur() != ')') throw No{}; p++; return v; }
    size_t b = p;
    while (isalnum(cur()) || cur() == '.') p++;
    std::string t = s.substr(b, p - b);
    if (t.empty()) throw No{};
    if (t == "x") return x;
    if (t == "abs" && cur() == '(') { p++; double v = expr(); if (cur() != ')') throw No{}; p++; return std::fabs(v); }
    int dots = 0, dig = 0;
    for (char k: t) if (k == '.') dots++; else if (isdigit(k)) dig++; else throw No{};
    if (dots > 1 || !dig) throw No{};
    return strtod(t.c_str(), nullptr);
  }
  double power() { double a = atom(); if (cur() == '^') { p++; double b = sign(); a = ap('^', a, b); } return a; }
  double sign() { if (cur() == '-') { p++; return -sign(); } if (cur() == '+') { p++; return sign(); } return power(); }
  double term() { double a = sign(); while (cur() == '*' || cur() == '/') { char o = s[p++]; double b = sign(); a = ap(o, a, b); } return a; }
  double expr() { double a = term(); while (cur() == '+' || cur() == '-') { char o = s[p++]; double b = term(); a = ap(o, a, b); } return a; }
  bool all(double &v) { try { v = expr(); return p == s.size(); } catch (No &) { return false; } }
};
static void strings_over(mc::Ch &c, const std::vector<std::string> &sym, int maxlen) {
  int len = c.choose(maxlen + 1);
  std::string s;
  for (int i = 0; i < len; i++) s += sym[c.choose((int) sym.size())];
  c.commit();
  c.describe("\"%s\"", s.c_str());
  Parser ps;
  ps.x = 3;
  for (char k: s) if (k != ' ' && k != '\n') ps.s += k;
  double ref = 0;
  bool ok = ps.all(ref);
  Ev e;
  e.SetKey("x", 3);
  bool got = e.SetExp(s);
  MC_CHECK(c, got == ok, "\"%s\" is %s", s.c_str(), got ? "accepted" : "refused");
  if (ok && !ps.undef) {
    double v = e.Eval();
    MC_CHECK(c, mc::near(v, ref, 1e-9, 1e-9 * (1 + std::fabs(ref))), "\"%s\" at x=3 is %.12g, expected %.12g", s.c_str(), v, ref);
    c.outcome(mc::Hash() << ref);
  }
  if (!ok) {                                     // a refused expression leaves a usable evaluator
    MC_CHECK(c, e.SetExp("x*2"), "an evaluator that refused \"%s\" refuses x*2", s.c_str());
    e.SetKey("x", 4);
    MC_CHECK(c, e.Eval() == 8, "an evaluator that refused \"%s\" evaluates x*2 to %g", s.c_str(), e.Eval());
  }
}
static void strings(mc::Ch &c) { strings_over(c, {"1", "x", "+", "-", "*", "/", "^", "(", ")", "."}, c.thorough ? 6 : 5); }
static void strings3(mc::Ch &c) { strings_over(c, {"0", "4", "7", "8", "9", ".", "+", "x", "("}, c.thorough ? 5 : 4); }
static void strings2(mc::Ch &c) { strings_over(c, {"2", "x", "-", "*", "(", ")", "abs", "abs(", " "}, c.thorough ? 6 : 5); }
// histories
static void histories(mc::Ch &c) {
  static const std::vector<std::pair<std::string, std::function<double(double, double)>>> E = {
      {"x+y*2", [](double x, double y) { return x + y * 2; }},
      {"y-x-1", [](double x, double y) { return y - x - 1; }},
      {"x*x", [](double x, double) { return x * x; }},
      {"4/8", [](double, double) { return 0.5; }},
      {"-abs(y)", [](double, double y) { return -std::fabs(y); }},
      {"x+", nullptr}, {"z*2", nullptr}, {"", nullptr}, {"(x", nullptr}};
  int n = c.thorough ? 5 : 4;
  std::vector<std::pair<int, int>> ops_;
  for (int i = 0; i < n; i++) {
    int k = c.choose(i ? 6 : 5);
    if (k == 5) break;
    int a = k == 0 ? c.choose((int) E.size()) : k <= 2 ? c.choose(2) : 0;
    ops_.push_back({k, a});
  }
  c.commit();
  c.describe("%zu operations", ops_.size());
  auto e = std::make_unique<Ev>();
  e->SetKey("x", 1);
  e->SetKey("y", 2);
  double x = 1, y = 2;
  int cur = -1;
  std::string log = "x=1 y=2";
  for (auto &o: ops_) {
    c.step(1);
    if (o.first == 0) {
      errno = o.second % 2 ? ERANGE : 0;
      bool ok = e->SetExp(E[o.second].first);
      log += " exp(" + E[o.second].first + ")";
      MC_CHECK(c, ok == bool(E[o.second].second), "%s: \"%s\" is %s", log.c_str(), E[o.second].first.c_str(), ok ? "accepted" : "refused");
      cur = ok ? o.second : -1;
    }
    else if (o.first == 1) { x = o.second ? -3 : 0.5; e->SetKey("x", x); log += " x="; log += o.second ? "-3" : "0.5"; }
    else if (o.first == 2) { y = o.second ? 5 : 0; e->SetKey("y", y); log += " y="; log += o.second ? "5" : "0"; }
    else if (o.first == 3) { auto f = std::make_unique<Ev>(*e); e->SetKey("x", 77); e->SetExp("x+1"); e = std::move(f); log += " copy"; }
    else { auto f = std::make_unique<Ev>("7*7"); *f = *e; e = std::move(f); Ev &r = *e; *e = r; log += " assign"; }
    if (cur >= 0) {
      double ref = E[cur].second(x, y);
      MC_CHECK(c, mc::near(e->Eval(), ref, 1e-12), "%s: %s is %g, expected %g", log.c_str(), E[cur].first.c_str(), e->Eval(), ref);
      MC_CHECK(c, mc::near(e->Eval(), ref, 1e-12), "%s: evaluating twice differs", log.c_str());
    }
    c.state();
  }
  c.outcome(mc::Hash() << log);
}
static void constructor(mc::Ch &c) {
  static const std::vector<std::pair<std::string, double>> E = {{"1+2*3", 7}, {"8-3-2", 3}, {"2^3^2", 512}, {"16/4/2", 2}, {" ( 1 + 2 ) * 3 ", 9}, {"-2^2", -4}, {"(-2)^2", 4}, {"2*-3", -6}, {"sin(PI/2)", 1}, {"floor(2.7)", 2}, {"1\n+\r\n2", 3}, {"((7))", 7}, {"exp(0)", 1}, {"log(exp(2))", 2}, {"sqrt(2+2)", 2}, {"abs(1-3)", 2}};
  int i = c.choose((int) E.size()), err = c.choose(2);
  c.commit();
  c.describe("\"%s\"", E[i].first.c_str());
  errno = err ? ERANGE : 0;
  Ev e(E[i].first);
  MC_CHECK(c, mc::near(e.Eval(), E[i].second, 1e-9), "\"%s\" is %g, expected %g", E[i].first.c_str(), e.Eval(), E[i].second);
  c.outcome(mc::Hash() << e.Eval());
}
int main(int argc, char **argv) {
  std::cout.rdbuf(nullptr);
  std::cerr.rdbuf(nullptr);
  return mc::run(argc, argv, mc::Config{"C15", "model_checking", {"division by a value below 1e-12, roots and logarithms of non-positive numbers and overflowing values are not judged", "the power operator is right-associative and binds tighter than a sign"}},
                 {{"trees", trees, "all syntax trees of depth up to 3 over x, y, 2, 0.5, PI, two signs, 7 functions and 5 binary operators, printed in 4 ways, evaluated for 3 key assignments on one evaluator"},
                  {"chains", chains, "all chains of 4 (thorough 5) operands with all operators, signs and one parenthesised group"},
                  {"strings", strings, "all strings of up to 5 (thorough 6) characters over 1 x + - * / ^ ( ) . : accepted exactly when they are expressions"},
                  {"strings3", strings3, "all strings of up to 4 (thorough 5) characters over digits . + x ("},
                  {"strings2", strings2, "all strings of up to 5 (thorough 6) symbols over 2 x - * ( ) abs 'abs(' and space"},
                  {"histories", histories, "all sequences of up to 4 (thorough 5) operations: set valid or invalid expressions, change keys, copy, assign"},
                  {"constructor", constructor, "fixed texts through the constructor, with errno set before"}});
}
