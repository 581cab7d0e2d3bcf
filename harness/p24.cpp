// P24: the printed text of a runtime object, read by an independent parser, gives back its tree.
#include "vm.hpp"
using namespace vm;
namespace vmath = viennamath;
struct Text {
  std::string s; size_t p;
  explicit Text(std::string const & x) : s(x), p(0) {}
  void fail(std::string const & w) { throw ReadError(w + " at position " + std::to_string(p) + " of " + s); }
  void ws() { while (p < s.size() && s[p] == ' ') ++p; }
  bool eat(std::string const & t) { ws(); if (s.compare(p, t.size(), t) == 0) { p += t.size(); return true; } return false; }
  void need(std::string const & t) { if (!eat(t)) fail("expected '" + t + "'"); }
  unsigned long id() { ws(); if (p >= s.size() || !isdigit((unsigned char)s[p])) fail("expected an index"); char * e; unsigned long v = strtoul(s.c_str() + p, &e, 10); p = (size_t)(e - s.c_str()); return v; }
  double num() { ws(); char * e; double v = strtod(s.c_str() + p, &e); if (e == s.c_str() + p) fail("expected a number"); p = (size_t)(e - s.c_str()); return v; }
  M group() {     // after an opening parenthesis: a value, or two values with an operation between them
    M a = value(); ws();
    if (eat(")")) return a;
    int op = -1; if (p < s.size()) switch (s[p]) { case '+': op = ADD; break; case '-': op = SUB; break; case '*': op = MUL; break; case '/': op = DIV; break; }
    if (op < 0) fail("expected an operation");
    ++p; M b = value(); need(")"); return mb(op, a, b);
  }
  M arg() { need("("); return group(); }
  M value() {
    ws();
    if (eat("(")) return group();
    if (eat("expr")) return arg();
    if (eat("unary")) return value();
    if (eat("constant(")) { double v = num(); need(")"); return mc(v); }
    if (eat("variable(")) { unsigned long k = id(); need(")"); return mv(k); }
    if (eat("function_symbol<")) { unsigned long tag; if (eat("unknown(")) tag = TAG_UNKNOWN(); else { need("test("); tag = TAG_TEST(); } unsigned long k = id(); need(")"); need(">"); return mf(k, tag); }
    if (eat("rt_integral[")) { need("interval("); M lo = value(); need(","); M hi = value(); need(")"); need(","); need("variable("); unsigned long k = id(); need(")"); need("]"); return mint(arg(), lo, hi, k); }
    if (eat("symbolic_integral[")) { need("symbolic_interval["); unsigned long k = id(); need("]"); need("]"); return mu(U_SYM, arg(), k); }
    if (eat("partial_deriv<")) { unsigned long k = id(); need(">"); return mu(U_PD, arg(), k); }
    if (eat("[")) { unsigned long n = id(); need("]"); need("("); std::vector<M> k; if (!eat(")")) { for (;;) { k.push_back(value()); if (eat(")")) break; need(","); } } if (k.size() != n) fail("length " + std::to_string(n) + " but " + std::to_string(k.size()) + " entries"); return mvec(k); }
    static const struct { const char * n; int op; } F[] = { { "id(", U_ID }, { "exp(", U_EXP }, { "sin(", U_SIN }, { "cos(", U_COS }, { "tan(", U_TAN }, { "fabs(", U_FABS }, { "sqrt(", U_SQRT }, { "log10(", U_LOG10 }, { "log(", U_LOG }, { "grad(", U_GRAD }, { "div(", U_DIVG } };
    for (size_t i = 0; i < sizeof F / sizeof *F; ++i) if (eat(F[i].n)) return mu(F[i].op, group());
    fail("unknown text"); return M();
  }
};
static M parse(std::string const & s) { Text t(s); M m = t.value(); t.ws(); if (t.p != s.size()) t.fail("trailing text"); return m; }
// equal up to the printed precision of numbers
static bool close(M const & a, M const & b) {
  if (a->k != b->k || a->kids.size() != b->kids.size()) return false;
  if (a->k == CONST) return std::fabs(a->c - b->c) <= 1e-5 * std::fabs(b->c);
  if (a->k == VAR) return a->id == b->id;
  if (a->k == FSYM) return a->id == b->id && a->tag == b->tag;
  if ((a->k == BIN || a->k == UN) && a->op != b->op) return false;
  if (a->k == UN && a->id != b->id && a->op >= U_PD) return false;
  for (size_t i = 0; i < a->kids.size(); ++i) if (!close(a->kids[i], b->kids[i])) return false;
  return true;
}
template <typename T> static std::string show(T const & x) { std::ostringstream o; o << x; return o.str(); }
// print to a stream in an unusual state: the state must survive
template <typename T> static std::string show_state(T const & x, Rng & r) {
  std::ostringstream o; if (r.chance(0.5)) o.setf(std::ios::showpos); if (r.chance(0.5)) o.precision(3 + r.below(12)); if (r.chance(0.3)) o.setf(std::ios::scientific, std::ios::floatfield); if (r.chance(0.3)) o.fill('*');
  std::ios::fmtflags f = o.flags(); std::streamsize pr = o.precision(); char fi = o.fill();
  o << x;
  if (o.flags() != f || o.precision() != pr || o.fill() != fi || !o.good()) viol("stream state", "printing changed the format of the stream");
  cnt("stream states checked");
  return o.str();
}
static void back(const char * what, std::string const & text, M const & m) {
  cnt("texts read back");
  M got;
  try { got = parse(text); } catch (ReadError const & x) { viol(std::string("unreadable:") + what, std::string(what) + ": " + x.what); return; }
  if (!close(got, m)) viol(std::string("text:") + what, std::string(what) + " prints " + text + " which reads as " + str(got));
}
static M mutate(M const & m, Rng & r, Gen & g) {
  std::vector<M> s; subtrees(m, s); M t = r.pick(s), q;
  switch (t->k) {
    case CONST: q = mc(t->c * 2 + 1); break; case VAR: q = mv(t->id + 1 + r.below(11)); break;
    case FSYM: q = r.chance(0.5) ? mf(t->id + 1, t->tag) : mf(t->id, t->tag == TAG_TEST() ? TAG_UNKNOWN() : TAG_TEST()); break;
    case BIN: q = r.chance(0.5) ? mb((t->op + 1 + r.below(3)) % 4, t->kids[0], t->kids[1]) : mb(t->op, t->kids[1], t->kids[0]); break;
    case UN: q = t->op <= U_LOG10 ? mu((t->op + 1 + r.below(8)) % 9, t->kids[0]) : (t->op >= U_PD ? (t->op == U_INT ? mint(t->kids[0], t->kids[2], t->kids[1], t->id) : mu(t->op, t->kids[0], t->id + 1)) : t->kids[0]); break;
    default: { std::vector<M> k(t->kids); k.push_back(mc(0)); q = mvec(k); }
  }
  (void)g; return subst1(m, t, q);
}
// compiletime expressions: the text against the structure of the type
template <long k> static M ctm(vmath::ct_constant<k> const &) { return mc((double)k); }
template <unsigned long k> static M ctm(vmath::ct_variable<k> const &) { return mv(k); }
template <typename T> static M ctm(vmath::rt_constant<T> const & c) { return mc((double)static_cast<T>(c)); }
template <typename O> struct CtOp;
template <typename N> struct CtOp<vmath::op_plus<N> > { enum { v = ADD }; }; template <typename N> struct CtOp<vmath::op_minus<N> > { enum { v = SUB }; };
template <typename N> struct CtOp<vmath::op_mult<N> > { enum { v = MUL }; }; template <typename N> struct CtOp<vmath::op_div<N> > { enum { v = DIV }; };
template <typename T> struct CtM { static M go(T const & t) { return ctm(t); } };
template <typename A, typename O, typename B> struct CtM<vmath::ct_binary_expr<A, O, B> > { static M go(vmath::ct_binary_expr<A, O, B> const & t) { return mb(CtOp<O>::v, CtM<A>::go(t.lhs()), CtM<B>::go(t.rhs())); } };
struct CtText : Text {
  explicit CtText(std::string const & x) : Text(x) {}
  M ct() {
    if (eat("ct_constant<")) { double v = num(); need(">"); return mc(v); }
    if (eat("ct_variable<")) { unsigned long k = id(); need(">"); return mv(k); }
    if (eat("constant(")) { double v = num(); need(")"); return mc(v); }
    need("["); M a = ct(); int op = eat("+") ? ADD : eat("-") ? SUB : eat("*") ? MUL : eat("/") ? DIV : -1; if (op < 0) fail("expected an operation"); M b = ct(); need("]"); return mb(op, a, b);
  }
};
template <typename T> static void ct_text(T const & t) {
  std::string s = show(t); cnt("compiletime texts read back");
  M want = CtM<T>::go(t), got;
  desc("compiletime " + str(want));
  try { CtText x(s); got = x.ct(); x.ws(); if (x.p != s.size()) x.fail("trailing text"); } catch (ReadError const & x) { viol("unreadable:compiletime expression", x.what); return; }
  if (!close(got, want)) viol("text:compiletime expression", str(want) + " prints " + s);
  if (show(t) != s) viol("deterministic", "printing twice gives different texts");
}
static void ct_text(BExpr const & t) { back("mixed expression", show(t), read(&t)); }
static void ct_texts(Rng & r) {
  phase("compiletime expressions");
  vmath::ct_variable<0> x; vmath::ct_variable<1> y; vmath::ct_variable<17> z; vmath::ct_constant<3> c; vmath::ct_constant<-40961> d; vmath::ct_constant<2> two; vmath::ct_constant<5000000000> big; Const k(r.range(-50, 50) * 0.25);
  ct_text(x); ct_text(z); ct_text(c); ct_text(d); ct_text(big);
  ct_text(x + y); ct_text(x - y); ct_text(x * y); ct_text(x / y); ct_text(y - x); ct_text(y / x);
  ct_text(c + x); ct_text(x + d); ct_text(d * z); ct_text(z - c); ct_text(c - z); ct_text(two / z); ct_text(z / two); ct_text(big * z);
  ct_text((x + y) * (z - c)); ct_text((x - y) - z); ct_text(x - (y - z)); ct_text((x / y) / z); ct_text(x / (y / z)); ct_text((x * y + c) / (z - d * x)); ct_text(((x + y) * z - x * (y + z)) / (two + x * x)); ct_text((x - y) * (x - y) * (x - y) - (y - z) / (z - x));
  ct_text(k + x); ct_text(x * k); ct_text(k - (x + y)); ct_text((x * y) / k);
  std::string v = show(vmath::make_vector(x, d)), w = show(vmath::make_vector(x + y, c, z)), u = show(vmath::make_vector(c - x));
  if (v != "vector<" + show(x) + ", " + show(d) + ">" || w != "vector<" + show(x + y) + ", " + show(c) + ", " + show(z) + ">" || u != "vector<" + show(c - x) + ">") viol("text:compiletime vector", v + " " + w + " " + u);
  std::ostringstream o; if (!(o << (x + y)).good()) viol("stream state", "stream is not good");
}
static void one(long i, Rng & r) {
  if (i % 200 == 3) ct_texts(r);
  Gen g(r); g.nvars = r.chance(0.2) ? 15 : 1 + r.below(4); g.symbols = r.chance(0.7); g.opaque = r.chance(0.6); g.budget = r.chance(0.1) ? 60 : 2 + r.below(16);
  M m = g();
  if (r.chance(0.3)) { std::vector<M> s, k; subtrees(m, s); int len = r.chance(0.1) ? 8 + r.below(20) : r.below(4); for (int j = 0; j < len; ++j) k.push_back(g.gen(4)); m = subst1(m, r.pick(s), mvec(k)); }
  if (r.chance(0.1)) { std::vector<M> s; subtrees(m, s); m = subst1(m, r.pick(s), r.chance(0.5) ? mv(4294967295ul) : mf(1000000, r.chance(0.5) ? TAG_TEST() : TAG_UNKNOWN())); }
  if (r.chance(0.01)) { int n = 20 + r.below(200); for (int j = 0; j < n; ++j) m = r.chance(0.8) ? mu(r.below(9), m) : r.chance(0.5) ? mb(r.below(4), g.leaf(), m) : mb(r.below(4), m, g.leaf()); cnt("deeply nested texts"); }
  if (r.chance(0.15)) m = far_ids(m, r);
  if (r.chance(0.12)) m = odd_consts(m, r);
  desc(str(m));
  Expr e = wrap(m);
  phase("print");
  std::string t = show(e), d = e.get()->deep_str();
  back("wrapped expression", t, m); back("deep_str", d, m);
  if (show(e) != t || e.get()->deep_str() != d) viol("deterministic", "printing twice gives different texts");
  { Expr c(e); if (show(c) != t || c.get()->deep_str() != d) viol("copies", "a copy prints " + show(c) + " instead of " + t); std::unique_ptr<Iface> k(e.get()->clone()); if (k->deep_str() != d) viol("copies", "a clone prints " + k->deep_str() + " instead of " + d); }
  if (BExpr const * b = dynamic_cast<BExpr const *>(e.get())) { back("binary expression", show(*b), m); back("stream state", show_state(*b, r), m); state("binary"); }
  if (UExpr const * b = dynamic_cast<UExpr const *>(e.get())) { back("unary expression", show(*b), m); back("stream state", show_state(*b, r), m); state("unary"); }
  if (VExpr const * b = dynamic_cast<VExpr const *>(e.get())) back("vector", show(*b), m);
  if (Var const * b = dynamic_cast<Var const *>(e.get())) back("variable", show(*b), m);
  if (Const const * b = dynamic_cast<Const const *>(e.get())) back("constant", show(*b), m);
  if (FSym const * b = dynamic_cast<FSym const *>(e.get())) back("function symbol", show(*b), m);
  back("stream state", show_state(e, r), m);
  phase("intervals and equations");
  { M m2 = g.gen(1 + r.below(6)); Ival iv(e, wrap(m2)); Eqn eq(wrap(m2), e);
    std::string si = r.chance(0.5) ? show(iv) : show_state(iv, r), se = r.chance(0.5) ? show(eq) : show_state(eq, r);
    try { Text x(si); x.need("interval("); M a = x.value(); x.need(","); M b = x.value(); x.need(")"); if (x.p != si.size()) x.fail("trailing text"); cnt("texts read back"); if (!close(a, m) || !close(b, m2)) viol("text:interval", "reads as [" + str(a) + ", " + str(b) + "]: " + si); } catch (ReadError const & x) { viol("unreadable:interval", x.what); }
    try { Text x(se); x.need("equation("); M a = x.value(); x.need("="); M b = x.value(); x.need(")"); if (x.p != se.size()) x.fail("trailing text"); cnt("texts read back"); if (!close(a, m2) || !close(b, m)) viol("text:equation", "reads as " + str(a) + " = " + str(b) + ": " + se); } catch (ReadError const & x) { viol("unreadable:equation", x.what); }
    unsigned long k = r.below(100) + (r.chance(0.3) ? away(r) : 0); std::string ss = show(SIval(k)); if (ss != "symbolic_interval[" + std::to_string(k) + "]") { Text x(ss); bool ok = true; try { x.need("symbolic_interval["); ok = x.id() == k; } catch (ReadError const &) { ok = false; } if (!ok) viol("text:symbolic interval", ss); } }
  phase("different trees");
  for (int k = 0; k < 3; ++k) { M m2 = mutate(m, r, g); if (close(m2, m)) continue; Expr e2 = wrap(m2); cnt("different pairs"); if (show(e2) == t) viol("collapse", str(m2) + " prints the same text " + t); }
  if (has_kind(m, FSYM)) {   // a symbol of another kind never passes for an unknown or a test function
    std::vector<M> s, f; subtrees(m, s); for (size_t k = 0; k < s.size(); ++k) if (s[k]->k == FSYM) f.push_back(s[k]);
    if (f.size()) { M t0 = r.pick(f), other = mf(t0->id, 77 + r.below(3)); Expr e2 = wrap(subst1(m, t0, other)); cnt("different pairs");
    if (show(e2) == t) viol("collapse", "a symbol of a user-defined kind instead of " + str(t0) + " prints the same text " + t);
    if (show(e2) == show(wrap(subst1(m, t0, mf(t0->id, t0->tag == TAG_TEST() ? TAG_UNKNOWN() : TAG_TEST()))))) viol("collapse", "a symbol of a user-defined kind passes for another one: " + show(e2)); }
  }
  if (!equal(read(e), m)) viol("mutated", "printing changed the expression");
  if (m->size > 1) { nontrivial(str(m)); state(shape(m, 4)); }
}
int main(int c, char ** v) { return drive(c, v, "P24", one); }
