// P16: LaTeX output, read back, is the same formula.
#include "tex.hpp"
using namespace vm;
namespace vmath = viennamath;
static void back(const char * what, std::string const & text, M const & want) {
  cnt("texts read back");
  M got;
  try { got = Tex(text).whole(); } catch (TexError const & x) { viol(std::string("not a formula: ") + what, x.what + " in " + text + " for " + str(want)); return; }
  if (!same_formula(got, want)) viol(std::string("meaning: ") + what, text + " denotes " + str(got) + " instead of " + str(want));
}
static void one(long, Rng & r) {
  Gen g(r); g.nvars = r.chance(0.1) ? 130 : 4; g.symbols = r.chance(0.6); g.opaque = r.chance(0.5); g.budget = r.chance(0.1) ? 90 : 3 + r.below(22);
  if (r.chance(0.3)) g.ints_only = true;
  M m = g();
  if (r.chance(0.01)) { m = g.tower(m); cnt("deeply nested expressions"); }
  if (r.chance(0.15)) m = far_ids(m, r);
  if (r.chance(0.12)) m = odd_consts(m, r);
  desc(str(m));
  Expr e = wrap(m);
  vmath::latex_translator t;
  phase("expression");
  std::string text = t(e);
  back("expression", text, m);
  back("expression in parentheses", t(e, true), m);
  // alongside other operands: grouping must protect it
  phase("output is stable");
  vmath::latex_translator t2(t), t3; t3 = t;
  Expr copy(e);
  if (t(e) != text || t2(e) != text || t3(e) != text || t(copy) != text || vmath::latex_translator()(e) != text) viol("unstable", "the same expression prints " + text + " and " + t(e));
  if (!equal(read(e), m)) viol("changed", "typesetting changed the expression to " + str(read(e)));
  phase("overloads");
  Iface const * p = e.get();
  std::string o = text;
  if (BExpr const * q = dynamic_cast<BExpr const *>(p)) o = t(*q);
  else if (UExpr const * q = dynamic_cast<UExpr const *>(p)) o = t(*q);
  else if (Const const * q = dynamic_cast<Const const *>(p)) o = t(*q);
  else if (Var const * q = dynamic_cast<Var const *>(p)) o = t(*q);
  else if (FSym const * q = dynamic_cast<FSym const *>(p)) o = t(*q);
  back("object", o, m);
  // constants of other scalar types
  phase("constants");
  { long k = r.chance(0.3) ? r.range(-100000, 999999) : r.range(-9, 9); back("rt_constant<long>", t(vmath::rt_constant<long>(k)), mc(k)); back("rt_constant<int>", t(vmath::rt_constant<int>((int)k)), mc(k)); back("rt_constant<float>", t(vmath::rt_constant<float>(k * 0.25f)), mc(k * 0.25f)); }
  // equation and interval
  phase("equation");
  M m2 = g.gen(1 + r.below(8));
  Eqn q(e, wrap(m2));
  std::string et = t(q);
  size_t eq = et.find('=');
  if (eq == std::string::npos || et.find('=', eq + 1) != std::string::npos) viol("equation", "no single equality sign in " + et);
  else { back("left side of an equation", et.substr(0, eq), m); back("right side of an equation", et.substr(eq + 1), m2); }
  phase("interval");
  std::string it = t(Ival(e, wrap(m2)));
  Tex tx(it);
  cnt("texts read back");
  try { tx.need("["); M lo = tx.sum(); tx.need(";"); M hi = tx.sum(); tx.need("]"); if (tx.p != tx.t.size() || !same_formula(lo, m) || !same_formula(hi, m2)) viol("meaning: interval", it + " denotes [" + str(lo) + "; " + str(hi) + "] instead of [" + str(m) + "; " + str(m2) + "]"); }
  catch (TexError const & x) { viol("not a formula: interval", x.what + " in " + it); }
  // near misses print differently
  phase("different formulas");
  std::vector<M> s; subtrees(m, s);
  M v = r.pick(s);
  if (v->k == BIN) {
    M w = r.chance(0.5) ? mb((v->op + 1 + r.below(3)) % 4, v->kids[0], v->kids[1]) : mb(v->op, v->kids[1], v->kids[0]);
    M n = subst1(m, v, w);
    if (!same_formula(n, m)) { cnt("different pairs"); if (t(wrap(n)) == text) viol("collapse", str(n) + " and " + str(m) + " both print as " + text); }
  }
  if (m->size > 1) { nontrivial(str(m)); state(shape(m)); }
}
int main(int c, char ** v) { return drive(c, v, "P16", one); }
