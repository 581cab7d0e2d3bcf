// P02: simplification preserves the value, terminates, reaches a fixpoint without trivial operations, leaves its argument alone.
#include "vm.hpp"
using namespace vm;
static bool isc(M const & m, double c) { return m->k == CONST && m->c == c; }
static std::string trivial(M const & m) {
  std::string f;
  walk(m, [&](M const & n) {
    if (n->k != BIN) return;
    M a = n->kids[0], b = n->kids[1];
    if (a->k == CONST && b->k == CONST) f = "operation on two numbers " + str(n);
    else if (n->op == ADD && (isc(a, 0) || isc(b, 0))) f = "addition of zero " + str(n);
    else if (n->op == SUB && (isc(a, 0) || isc(b, 0))) f = "subtraction with zero " + str(n);
    else if (n->op == MUL && (isc(a, 0) || isc(b, 0) || isc(a, 1) || isc(b, 1))) f = "trivial multiplication " + str(n);
    else if (n->op == DIV && (isc(a, 0) || isc(b, 1))) f = "trivial division " + str(n);
  });
  return f;
}
static M strip_bounds(M const & m) { // integration bounds are parameters of the operation and are not simplified
  if (m->kids.empty()) return m;
  std::vector<M> k(m->kids);
  for (size_t i = 0; i < k.size(); ++i) k[i] = (m->k == UN && i > 0) ? mc(7) : strip_bounds(m->kids[i]);
  return with_kids(m, k);
}
static void one(long, Rng & r) {
  Gen g(r);
  g.nvars = r.chance(0.2) ? 0 : (r.chance(0.1) ? 12 : 3);
  g.symbols = r.chance(0.3); g.opaque = r.chance(0.3);
  g.budget = r.chance(0.1) ? 90 : 3 + r.below(24);
  g.functions = r.chance(0.75);
  if (r.chance(0.35)) g.ints_only = true;
  g.extremes = r.chance(0.08);
  Extremes wide(g.extremes);
  M m = g();
  // decorate with neutral elements at random positions
  std::function<M(M const &)> deco = [&](M const & n) -> M {
    M q = n;
    if (!n->kids.empty()) { std::vector<M> k(n->kids); size_t lim = n->k == UN ? 1 : k.size(); for (size_t i = 0; i < lim; ++i) k[i] = deco(n->kids[i]); q = with_kids(n, k); }
    if (r.chance(0.12)) switch (r.below(9)) {
      case 0: return mb(ADD, q, mc(0)); case 1: return mb(ADD, mc(0), q); case 2: return mb(SUB, q, mc(0)); case 3: return mb(SUB, mc(0), q);
      case 4: return mb(MUL, q, mc(1)); case 5: return mb(MUL, mc(1), q); case 6: return mb(DIV, q, mc(1)); case 7: return mb(MUL, mb(SUB, mc(3), mc(2)), q);
      default: return mb(ADD, mb(MUL, mc(0), q), q);
    }
    return q;
  };
  if (r.chance(0.6)) m = deco(m);
  if (r.chance(0.01)) { M q = mc(3); int layers = 100 + r.below(200); for (int i = 0; i < layers; ++i) { M l = mc(r.range(1, 12) / 4.0); int o = r.below(2); q = r.chance(0.5) ? mb(o, q, l) : mb(o, l, q); } m = r.chance(0.5) ? mb(ADD, m, q) : q; }
  if (r.chance(0.01)) { g.ints_only = false; m = g.tower(mb(r.below(2), m, mb(MUL, mc(0), g.leaf()))); }
  // many layers: every one of them has to go
  if (r.chance(0.02)) { int layers = 10 + r.below(140); bool f = r.chance(0.3);
    for (int i = 0; i < layers; ++i) switch (r.below(f ? 9 : 7)) {
      case 0: m = mb(ADD, m, mc(0)); break; case 1: m = mb(ADD, mc(0), m); break; case 2: m = mb(SUB, m, mc(0)); break; case 3: m = mb(MUL, m, mc(1)); break; case 4: m = mb(MUL, mc(1), m); break; case 5: m = mb(DIV, m, mc(1)); break; case 6: m = mb(MUL, mb(SUB, mc(5), mc(4)), m); break;
      case 7: m = mu(U_SIN, m); break; default: m = mb(ADD, m, mb(MUL, mc(0), m->size < 200 ? m : mc(2))); } }
  // one removal makes room for the next: as many passes as layers
  if (r.chance(0.02)) { M z = mb(MUL, g.leafv(), mc(0)); int layers = 10 + r.below(140);
    for (int i = 0; i < layers; ++i) switch (r.below(6)) {
      case 0: case 1: z = mb(MUL, g.leafv(), z); break; case 2: z = mb(MUL, z, g.leafv()); break; case 3: z = mb(DIV, z, mc(3)); break; case 4: z = mb(MUL, z, mb(ADD, mb(SUB, mc(1), z->size < 30 ? z : mc(3)), g.leafv())); break;
      default: z = mb(MUL, mb(ADD, mb(MUL, g.leafv(), mc(0)), mc(1)), z); }
    m = r.chance(0.5) ? mb(ADD, m, z) : mb(MUL, mb(SUB, mc(1), z), m); }
  desc(str(m));
  Expr e = wrap(m);
  phase("simplify");
  Expr s = viennamath::simplify(e);
  M ms = read(s);
  phase("original");
  if (!equal(read(e), m)) viol("mutated", "simplify() changed its argument to " + str(read(e)));
  phase("fixpoint");
  if (s.get()->can_simplify()) viol("fixpoint", "the result can still be simplified: " + str(ms));
  Expr s2 = viennamath::simplify(s);
  if (!equal(read(s2), ms)) viol("idempotent", "simplifying again gives " + str(read(s2)) + " instead of " + str(ms));
  std::string t = trivial(strip_bounds(ms));
  if (t != "") viol("trivial", "trivial operation left: " + t + " in " + str(ms));
  phase("inplace");
  Expr s3(e); viennamath::inplace_simplify(s3);
  if (!equal(read(s3), ms)) viol("inplace", "inplace_simplify gives " + str(read(s3)) + ", simplify " + str(ms));
  if (BExpr const * b = dynamic_cast<BExpr const *>(e.get())) { Expr s4 = viennamath::simplify(*b); if (!equal(read(s4), ms)) viol("binary overload", "simplify(binary) gives " + str(read(s4)) + ", simplify(expr) " + str(ms)); }
  if (UExpr const * b = dynamic_cast<UExpr const *>(e.get())) { Expr s4 = viennamath::simplify(*b); if (!equal(read(s4), ms)) viol("unary overload", "simplify(unary) gives " + str(read(s4)) + ", simplify(expr) " + str(ms)); }
  bool arith_const = !any(m, [](M const & n) { return n->k == VAR || n->k == FSYM || n->k == UN || n->k == VEC; });
  if (arith_const) { cnt("number-only inputs"); if (ms->k != CONST) viol("fold", "arithmetic on numbers is not reduced to a number: " + str(ms)); }
  // one elementary step is value preserving as well
  phase("values");
  Expr one_step(e.get()->simplify());
  M m1 = read(one_step);
  bool compared = false;
  int reps = 6;
  for (int k = 0; k < reps; ++k) {
    std::vector<double> x = g.point(std::max(1u, g.nvars));
    if (g.extremes) for (size_t i = 0; i < x.size(); ++i) if (r.chance(0.3)) { static const double ex[] = { 0, 1e-310, 1e-300, 1e300, -1e-305, 1e-290 }; x[i] = ex[r.below(6)]; }
    Env<E> env = opaque_env(x, 4711 + k);
    E a = ev(m, env);
    if (!reliable(a)) { cnt("skipped points"); continue; }
    E b = ev(ms, env), c = ev(m1, env);
    desc(str(m) + " at " + fmt(x));
    if (!b.ok) { if (any(ms, [](M const & n) { return n->k == CONST && !(std::fabs(n->c) <= 1.7e308); })) viol("value", "finite expression simplified to " + str(ms)); else cnt("skipped points"); continue; }
    compared = true; cnt("values compared");
    if (!agree2(a, b)) viol("value", "simplified to " + str(ms) + ": " + fmt((double)b.v) + " instead of " + fmt((double)a.v));
    if (c.ok && !agree2(a, c)) viol("value of one step", "one step gives " + str(m1) + ": " + fmt((double)c.v) + " instead of " + fmt((double)a.v));
    if (evaluable(m)) {
      double got = s(x);
      cnt("library values compared");
      if (!agree(got, E(b.v, a.e + b.e, true), 32)) viol("library value", "simplified expression evaluates to " + fmt(got) + ", reference " + fmt((double)b.v));
    }
  }
  cnt("nodes removed", m->size - ms->size > 0 ? m->size - ms->size : 0);
  if (compared && !equal(ms, m)) { nontrivial(str(m)); state(shape(m) + ">" + shape(ms)); }
}
int main(int c, char ** v) { return drive(c, v, "P02", one); }
