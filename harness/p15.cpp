// P15: requests without an answer are rejected with a readable, stable exception; everything else is answered; rejected expressions stay intact.
#include "vm.hpp"
#include <exception>
using namespace vm;
namespace vmath = viennamath;
struct Out { bool threw; double val; std::string msg; };
static bool readable(std::string const & s) { if (s.empty() || s.size() > 2000) return false; bool letter = false; for (size_t i = 0; i < s.size(); ++i) { unsigned char c = s[i]; if (!(c == '\n' || c == '\t' || (c >= 32 && c < 127))) return false; if (isalpha(c)) letter = true; } return letter; }
template <typename F> static Out attempt(F f) {
  Quiet q;
  Out o; o.threw = false; o.val = 0;
  std::exception_ptr p;
  try { o.val = f(); }
  catch (std::exception const & x) { o.threw = true; o.msg = x.what(); p = std::current_exception(); if (o.msg != x.what()) viol("unstable message", "what() answers " + std::string(x.what()) + " after " + o.msg); }
  catch (const char * s) { o.threw = true; o.msg = s ? s : ""; }
  // the exception outlives what threw it
  if (p) { void * junk = malloc(64); free(junk); try { std::rethrow_exception(p); } catch (std::exception const & x) { if (o.msg != x.what()) viol("unstable message", "kept exception answers " + std::string(x.what()) + " instead of " + o.msg); } }
  if (o.threw && !readable(o.msg)) viol("unreadable message", "\"" + o.msg + "\"");
  return o;
}
static std::string kind_of(M const & m, size_t n) {
  std::string k;
  walk(m, [&](M const & q) {
    if (q->k == FSYM) k = "function symbol"; else if (q->k == VEC) k = "vector"; else if (q->k == UN && q->op >= U_GRAD) k = UNAME[q->op];
    else if (q->k == VAR && q->id >= n && k == "") k = "variable out of range";
  });
  return k;
}
// operand of an integral and its bounds: bounds are not evaluated, they are part of the operation
static bool blocked(M const & m, size_t n) {
  if (m->k == FSYM || m->k == VEC || (m->k == UN && m->op >= U_GRAD)) return true;
  if (m->k == VAR) return m->id >= n;
  size_t lim = m->k == UN ? 1 : m->kids.size();
  for (size_t i = 0; i < lim; ++i) if (blocked(m->kids[i], n)) return true;
  return false;
}
template <typename F> static void judge(const char * what, bool should, M const & m, std::string const & why, F f) {
  phase(what);
  Out a = attempt(f), b = attempt(f);
  cnt(should ? "rejections expected" : "answers expected");
  if (a.threw != should) { viol(std::string(should ? "not rejected: " : "rejected: ") + what + (should ? " with " + why : ""), should ? "returns " + fmt(a.val) + " for " + str(m) : "throws \"" + a.msg + "\" for " + str(m)); return; }
  if (b.threw != a.threw || b.msg != a.msg || (!a.threw && !ceq(a.val, b.val))) viol(std::string("second request differs: ") + what, "first " + (a.threw ? a.msg : fmt(a.val)) + ", then " + (b.threw ? b.msg : fmt(b.val)) + " for " + str(m));
}
static bool undiff(M const & m, bool by_symbol) {
  if (m->k == UN && (m->op == U_FABS || m->op == U_DIVG || m->op == U_PD || m->op == U_INT || m->op == U_SYM)) return true;
  if (!by_symbol && ((m->k == UN && m->op == U_GRAD) || m->k == FSYM)) return true;
  size_t lim = m->k == UN ? 1 : m->kids.size();
  for (size_t i = 0; i < lim; ++i) if (undiff(m->kids[i], by_symbol)) return true;
  return false;
}
struct User { typedef double value_type; typedef std::size_t size_type; std::vector<double> d; explicit User(std::vector<double> const & x) : d(x) {} std::size_t size() const { return d.size(); } double operator[](std::size_t k) const { if (k >= d.size()) viol("read beyond the point", "entry " + std::to_string(k) + " of a point of size " + std::to_string(d.size()) + " was read"); return k < d.size() ? d[k] : 0; } };
// points given as small compiletime vectors, user-defined vectors and constants
template <typename T> static void at_points(const char * type, T const & t, M const & m, std::vector<double> const & x, Rng & r) {
  std::string ty(type);
  size_t n = x.size();
  std::string why = kind_of(m, n), why1 = kind_of(m, 1);
  bool stop = blocked(m, n), stop1 = blocked(m, 1);
  User u(x);
  judge((ty + " at a user vector").c_str(), stop, m, why, [&]() { return (double)t(u); });
  if (n == 1) judge((ty + " at a ct_vector_1").c_str(), stop, m, why, [&]() { return (double)t(vmath::make_vector(x[0])); });
  if (n == 2) judge((ty + " at a ct_vector_2").c_str(), stop, m, why, [&]() { return (double)t(vmath::make_vector(x[0], x[1])); });
  if (n == 3) judge((ty + " at a ct_vector_3").c_str(), stop, m, why, [&]() { return (double)t(vmath::make_vector(x[0], x[1], x[2])); });
  if (r.chance(0.3)) {
    judge((ty + " at a constant").c_str(), stop1, m, why1, [&]() { return (double)t(Const(0.75)); });
    judge((ty + " at an integer constant").c_str(), stop1, m, why1, [&]() { return (double)t(vmath::rt_constant<long>(2)); });
    judge((ty + " at a compiletime constant").c_str(), stop1, m, why1, [&]() { return (double)t(vmath::ct_constant<2>()); });
  }
}
template <typename T> static void other_points(Iface const * e, T const & t, M const & m, std::vector<double> const & x, Rng & r) {
  if (r.chance(0.5)) return;
  at_points("object", t, m, x, r);
  if (BExpr const * b = dynamic_cast<BExpr const *>(e)) at_points("binary expression", *b, m, x, r);
  if (UExpr const * b = dynamic_cast<UExpr const *>(e)) at_points("unary expression", *b, m, x, r);
}
static void one(long i, Rng & r) {
  Gen g(r); g.nvars = 1 + r.below(4);
  int style = r.below(8);
  g.symbols = style == 0 || style == 1; g.opaque = style == 1 || style == 2 || style == 3;
  g.budget = r.chance(0.1) ? 60 : 3 + r.below(14);
  M m = g();
  if (r.chance(0.12)) { // a single offending leaf deep inside
    std::vector<M> s; subtrees(m, s);
    M bad;
    switch (r.below(6)) { case 0: bad = mf(r.below(3), TAG_TEST()); break; case 1: bad = mu(U_PD, mf(0, TAG_UNKNOWN()), r.below(3)); break; case 2: { std::vector<M> k(1 + r.below(3), mc(1)); bad = mvec(k); break; } case 3: bad = mv(r.chance(0.5) ? g.nvars + r.below(3) : r.below(g.nvars) + away(r)); break; case 4: bad = mu(U_FABS, g.leaf()); break; default: bad = mint(g.leaf(), mc(0), mc(1), 0); break; }
    m = subst1(m, r.pick(s), bad);
  }
  if (r.chance(0.04)) { std::vector<M> k; for (int j = 0; j < 1 + (int)r.below(3); ++j) k.push_back(g.gen(3)); m = mvec(k); }
  desc(str(m));
  Expr e = wrap(m);
  size_t n = r.chance(0.3) ? r.below(g.nvars + 1) : g.nvars;
  std::vector<double> x = g.point(n);
  bool stop = blocked(m, n), stop1 = blocked(m, 1);
  std::string why = kind_of(m, n), why1 = kind_of(m, 1);
  judge("expression at a vector", stop, m, why, [&]() { return e(x); });
  judge("eval at a vector", stop, m, why, [&]() { return vmath::eval(e, x); });
  judge("expression at a number", stop1, m, why1, [&]() { return e(0.75); });
  judge("eval at a number", stop1, m, why1, [&]() { return vmath::eval(e, 0.75); });
  judge("node at a vector", stop, m, why, [&]() { return e.get()->eval(x); });
  judge("node at a number", stop1, m, why1, [&]() { return e.get()->eval(0.75); });
  if (BExpr const * b = dynamic_cast<BExpr const *>(e.get())) judge("binary expression at a vector", stop, m, why, [&]() { return (*b)(x); });
  if (UExpr const * b = dynamic_cast<UExpr const *>(e.get())) judge("unary expression at a vector", stop, m, why, [&]() { return (*b)(x); });
  other_points(e.get(), e, m, x, r);
  if (m->k == VAR) {
    Var v(m->id);
    judge("variable at a vector", stop, m, why, [&]() { return v(x); });
    judge("variable at a constant", m->id > 0, m, why, [&]() { return (double)v(Const(2.5)); });
    judge("variable at a compiletime constant", m->id > 0, m, why, [&]() { return (double)v(vmath::ct_constant<3>()); });
    judge("compiletime variable at a vector", x.size() <= 2, mv(2), "variable out of range", [&]() { return vmath::ct_variable<2>()(x); });
    other_points(&v, v, m, x, r);
    { Out o = attempt([&]() { return (double)v(2.5); }); cnt(m->id ? "rejections expected" : "answers expected"); if (o.threw != (m->id > 0)) viol("variable at a number", o.threw ? "throws " + o.msg : "returns " + fmt(o.val)); }
    judge("compiletime variable at a constant", true, mv(2), "variable out of range", [&]() { return (double)vmath::ct_variable<2>()(Const(2.5)); });
    judge("compiletime variable 0 at a constant", false, mv(0), "", [&]() { return (double)vmath::ct_variable<0>()(Const(2.5)); });
    judge("compiletime variable 0 at a compiletime constant", false, mv(0), "", [&]() { return (double)vmath::ct_variable<0>()(vmath::ct_constant<3>()); });
    judge("compiletime variable at a user vector", x.size() <= 1, mv(1), "variable out of range", [&]() { return (double)vmath::ct_variable<1>()(User(x)); });
    judge("compiletime expression at a vector", x.size() <= 1, mv(1), "variable out of range", [&]() { return (vmath::ct_variable<1>() * vmath::ct_constant<2>() + vmath::ct_variable<0>())(x); });
  }
  // the number in an expression
  bool unw = blocked(m, 0);
  judge("unwrap", unw, m, kind_of(m, 0), [&]() { return e.get()->unwrap(); });
  // differentiation
  unsigned long dv = r.below(g.nvars + 1);
  bool vec = has_kind(m, VEC);
  if (!vec) {
    bool ud = undiff(m, false);
    judge("derivative with respect to a variable", ud, m, "a part without derivative", [&]() { Expr d = vmath::diff(e, Var(dv)); return (double)hash_str(str(read(d))); });
    bool us = undiff(m, true);
    FSym s(r.below(3), TAG_UNKNOWN());
    judge("derivative with respect to a function symbol", us, m, "a part without derivative", [&]() { Expr d = vmath::diff(e, s); return (double)hash_str(str(read(d))); });
    if (ud) cnt("rejected derivatives");
  }
  // afterwards everything still works
  phase("still usable");
  if (!equal(read(e), m)) viol("rejected expression changed", "now " + str(read(e)));
  Expr c(e);
  if (!equal(read(c), m)) viol("rejected expression changed", "copy is " + str(read(c)));
  if (!c.get()->deep_equal(e.get())) viol("rejected expression changed", "copy differs");
  std::string s1 = e.get()->deep_str();
  (void)s1;
  std::vector<M> subs_; subtrees(m, subs_);
  for (int k = 0; k < 3; ++k) { M s = r.pick(subs_); if (blocked(s, n)) continue; Expr se = wrap(s); judge("subexpression at a vector", false, s, "", [&]() { return se(x); }); }
  if (stop || unw) { nontrivial(str(m) + fmt((double)n)); state(why + "/" + shape(m, 3)); } else { state("ok/" + shape(m, 3)); if (m->size > 1) nontrivial(str(m)); }
  // wrong use of operation objects
  if (i % 16 == 0) {
    std::unique_ptr<OpI> u(new_uop(mu((int)r.below(9), mc(1)))), b(new_bop(r.below(4)));
    judge("unary operation with two operands", true, m, "two operands", [&]() { return u->apply(1.0, 2.0); });
    judge("binary operation with one operand", true, m, "one operand", [&]() { return b->apply(1.0); });
  }
}
int main(int c, char ** v) { return drive(c, v, "P15", one); }
