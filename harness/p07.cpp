// P07: a random machine over a pool of objects of all runtime types; after every operation every object has to denote what the model says.
#include "machine.hpp"
using namespace vm;
// copies and assignments of trees with hundreds of levels, modified afterwards
static M tall(Rng & r, unsigned nvars) {
  Gen g(r); g.nvars = nvars; g.symbols = true; M m = g.leaf(); int n = 50 + r.below(350), style = r.below(4);
  for (int i = 0; i < n; ++i) {
    if (style == 3 ? r.chance(0.8) : r.chance(0.1)) m = mu(r.below(9), m);
    else { M l = g.leaf(); bool right = style == 1 || (style != 0 && r.chance(0.5)); int o = r.below(4); m = right ? mb(o, l, m) : mb(o, m, l); }
  }
  return m;
}
static void deep(Rng & r) {
  M a = tall(r, 4), b = tall(r, 4); desc("deep " + str(a) + " | " + str(b));
  phase("deep copies");
  struct L { static void same(Expr const & e, M const & m, const char * what) { cnt("deep copies compared"); if (!equal(read(e), m)) viol("deep", std::string(what) + ": " + str(read(e)) + " instead of " + str(m)); } };
  Expr ea = wrap(a), eb = wrap(b);
  { Expr c(ea); L::same(c, a, "a copy"); c = eb; L::same(c, b, "an assigned copy"); L::same(ea, a, "the source of a copy"); ea = c; L::same(ea, b, "the target of an assignment"); c = wrap(a); L::same(ea, b, "a copy after its source changed"); ea = wrap(a); }
  { std::unique_ptr<Iface> k(ea.get()->clone()); Expr c(k->clone()); L::same(c, a, "a clone"); }
  if (BExpr const * x = dynamic_cast<BExpr const *>(ea.get())) { BExpr c(*x); Expr d(c); L::same(d, a, "a copied binary expression"); if (BExpr const * y = dynamic_cast<BExpr const *>(eb.get())) { c = *y; Expr f(c); L::same(f, b, "an assigned binary expression"); } }
  if (UExpr const * x = dynamic_cast<UExpr const *>(ea.get())) { UExpr c(*x); Expr d(c); L::same(d, a, "a copied unary expression"); }
  { Expr s = ea + eb; L::same(s, mb(ADD, a, b), "a sum"); L::same(ea, a, "an operand"); L::same(eb, b, "an operand"); }
  { Eqn q(ea, eb); Eqn q2(q); L::same(q2.lhs(), a, "the left hand side of a copied equation"); L::same(q2.rhs(), b, "the right hand side of a copied equation"); Ival v(ea, eb), w(v); L::same(w.lower(), a, "the lower bound of a copied interval"); L::same(w.upper(), b, "the upper bound of a copied interval"); }
  nontrivial("deep " + shape(a));
}
static void one(long, Rng & r) {
  if (r.chance(0.01)) { deep(r); return; }
  Machine m(r, true);
  desc("start"); phase("start");
  m.check("construction");
  int n = 60;
  for (int i = 0; i < n && R().violations < 10; ++i) m.step();
  nontrivial(m.log);
  // destruction in arbitrary order
  m.box.clear(); m.e.clear();
}
int main(int c, char ** v) { return drive(c, v, "P07", one, 20); }
