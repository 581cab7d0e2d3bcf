// P20: coordinate transformations expand gradients and divergences of unknown and test function, and nothing else.
#include "vecs.hpp"
using namespace vm;
namespace vmath = viennamath;
static M U() { return mf(0, TAG_UNKNOWN()); } static M V() { return mf(0, TAG_TEST()); }
// weak-form like expressions
struct Weak {
  Rng & r; Gen g; unsigned dim;
  Weak(Rng & rr, unsigned d) : r(rr), g(rr), dim(d) { g.nvars = 3; g.symbols = true; g.opaque = r.chance(0.4); g.budget = 6; g.transc = r.chance(0.5); }
  M fs() { switch (r.below(8)) { case 0: return mf(r.chance(0.6) ? 1 : away(r), TAG_UNKNOWN()); case 1: return r.chance(0.3) ? mf(0, 7) : mf(r.chance(0.6) ? 1 : away(r), TAG_TEST()); case 2: case 3: case 4: return V(); default: return U(); } }
  M coef() { return r.chance(0.4) ? mc(r.chance(0.3) ? 1 : g.cst()) : g.gen(1 + r.below(5)); }
  M vec() {    // something vector valued (scalar in one dimension)
    switch (r.below(7)) {
      case 0: return mb(MUL, coef(), mu(U_GRAD, fs()));
      case 1: return mb(r.below(2) ? ADD : SUB, mu(U_GRAD, U()), mu(U_GRAD, V()));
      case 2: if (dim > 1) { std::vector<M> k; for (unsigned i = 0; i < dim; ++i) k.push_back(r.chance(0.3) ? mu(U_DIVG, r.chance(0.5) ? U() : V()) : g.gen(1 + r.below(4))); return mvec(k); } return mu(U_GRAD, U());
      case 3: return mb(DIV, mu(U_GRAD, r.chance(0.5) ? U() : V()), mc(r.real(0.5, 3)));
      default: return mu(U_GRAD, r.chance(0.5) ? U() : V());
    }
  }
  M scalar(int d = 0) {
    switch (r.below(d > 2 ? 7 : 12)) {
      case 0: return mb(MUL, vec(), vec());
      case 1: return mb(MUL, mu(U_GRAD, U()), mu(U_GRAD, V()));
      case 2: return mb(MUL, fs(), fs());
      case 3: return mb(MUL, mu(U_DIVG, fs()), fs());
      case 4: return mb(MUL, coef(), mu(U_DIVG, r.chance(0.5) ? U() : V()));
      case 5: return mu(U_DIVG, r.chance(0.5) ? mu(U_GRAD, U()) : mb(MUL, coef(), U()));
      case 6: return coef();
      case 7: return mu(r.chance(0.7) ? U_SYM : U_SIN, scalar(d + 1), r.below(2));
      case 8: return mint(scalar(d + 1), mc(0), mc(r.range(1, 3)), r.below(3));
      default: return mb(r.below(10) < 5 ? ADD : r.below(3), scalar(d + 1), scalar(d + 1));
    }
  }
};
static VEnv venv(std::vector<double> const & x, uint64_t salt, unsigned dim) {
  VEnv e; e.base = opaque_env(x, salt); e.salt = salt;
  e.special = [dim](M const & m, VEnv const & en, VV & out) {
    if (m->k != UN || (m->op != U_GRAD && m->op != U_DIVG)) return false;
    M a = m->kids[0];
    if (a->k != FSYM && a->k != VEC && any(a, [](M const & n) { return equal(n, U()) || equal(n, V()); })) a = read(vmath::simplify(wrap(a)));   // substitution simplifies: div(1*u) is div(u)
    if (!(a->k == FSYM && a->id == 0 && (a->tag == TAG_UNKNOWN() || a->tag == TAG_TEST()))) return false;
    VV v; v.c.clear();
    for (unsigned i = 0; i < dim; ++i) v.c.push_back(ev(mu(U_PD, a, i), en.base));
    if (m->op == U_GRAD) { if (dim == 1) out = VV(v.c[0]); else { v.vec = true; out = v; } }
    else { E t = v.c[0]; for (unsigned i = 1; i < dim; ++i) t = t + v.c[i]; out = VV(t); }
    return true;
  };
  return e;
}
static bool target(M const & n) { return n->k == UN && (n->op == U_GRAD || n->op == U_DIVG) && (equal(n->kids[0], U()) || equal(n->kids[0], V())); }
static bool foldable1(M const & m) {
  return any(m, [](M const & n) { return n->k == UN && n->op >= U_GRAD && any(n->kids[0], [](M const & q) { return is_plain_un(q) && !any(q, [](M const & z) { return z->k == VAR || z->k == FSYM; }); }); });
}
static bool foldable(M const & m) { return foldable1(m) || foldable1(read(vmath::simplify(wrap(m)))); }
template <typename T> static Expr transform(unsigned dim, T const & e) {
  if (dim == 1) return vmath::apply_coordinate_system(vmath::cartesian<1>(), e);
  if (dim == 2) return vmath::apply_coordinate_system(vmath::cartesian<2>(), e);
  return vmath::apply_coordinate_system(vmath::cartesian<3>(), e);
}
static Eqn transform_eq(unsigned dim, Eqn const & e) {
  if (dim == 1) return vmath::apply_coordinate_system(vmath::cartesian<1>(), e);
  if (dim == 2) return vmath::apply_coordinate_system(vmath::cartesian<2>(), e);
  return vmath::apply_coordinate_system(vmath::cartesian<3>(), e);
}
static bool judge(M const & m, M const & t, unsigned dim, Rng & r, Gen & g, const char * what) {
  bool did = false;
  { std::vector<M> s; subtrees(t, s); for (size_t i = 0; i < s.size(); ++i) { if (target(s[i])) { viol("left over", std::string(what) + ": " + str(s[i]) + " is still in " + str(t)); break; }
      if (s[i]->k == BIN && s[i]->op == MUL && s[i]->kids[0]->k == VEC && s[i]->kids[1]->k == VEC) { viol("product left over", std::string(what) + ": a product of two vectors is still in " + str(t)); break; } } }
  for (int k = 0; k < 3; ++k) {
    std::vector<double> x = g.point(6);
    VEnv en = venv(x, r.next() | 1, dim);
    VV a = vev(m, en);
    if (!a.ok() || !vreliable(a)) { cnt("skipped points"); continue; }
    VV b = vev(t, en);
    if (!b.ok() || !vreliable(b)) { if (b.ok()) { cnt("skipped points"); continue; } cnt("skipped points"); continue; }
    did = true; cnt("values compared");
    if (!vagree(a, b)) { viol("value", std::string(what) + " in " + std::to_string(dim) + " dimensions gives " + str(t) + " with value " + vstr(b) + ", expected " + vstr(a)); break; }
  }
  return did;
}
// identifiers that agree with usual ones in the lower bits
static M far_parts(M const & m, Rng & r) {
  std::vector<M> k; for (size_t i = 0; i < m->kids.size(); ++i) k.push_back(far_parts(m->kids[i], r));
  M q = k.empty() ? m : with_kids(m, k);
  if (q->k != UN || (q->op != U_PD && q->op != U_SYM) || r.chance(0.4)) return q;
  Node * n = new Node(*q); n->id += away(r); return fin(n);
}
static void one(long, Rng & r) {
  unsigned dim = 1 + r.below(3);
  Weak w(r, dim);
  M m;
  if (r.chance(0.25)) {     // arbitrary expressions with gradients and divergences planted anywhere
    Gen g(r); g.nvars = 3; g.symbols = true; g.opaque = true; g.budget = 16; m = g();
    for (int i = 0; i < 3; ++i) { std::vector<M> s; subtrees(m, s); m = subst1(m, r.pick(s), r.chance(0.5) ? mu(U_DIVG, r.chance(0.5) ? U() : V()) : mb(MUL, mu(U_GRAD, r.chance(0.5) ? U() : V()), mu(U_GRAD, r.chance(0.5) ? U() : V()))); }
  } else { m = w.scalar(); if (r.chance(0.1)) m = w.vec(); }
  if (r.chance(0.1)) m = far_parts(m, r);
  desc(str(m) + " dim " + std::to_string(dim));
  // whether f(number) is folded depends on what else simplifies, so div(f(number)*u) may or may not become div(u): not the subject here
  if (foldable(m)) { cnt("skipped expressions"); return; }
  Expr e = wrap(m);
  phase("transform expr");
  Expr t = transform(dim, e);
  M mt = read(t);
  bool did = judge(m, mt, dim, r, w.g, "transforming the expression");
  if (!equal(read(e), m)) viol("mutated", "the source is now " + str(read(e)));
  if (!any(m, target) && !has_kind(m, VEC)) cnt("expressions without gradients");
  phase("transform parts");
  if (BExpr const * b = dynamic_cast<BExpr const *>(e.get())) { M q = read(transform(dim, *b)); cnt("overloads compared"); if (!equal(q, mt)) viol("overload", "transforming the binary expression gives " + str(q) + ", the wrapped one " + str(mt)); }
  if (UExpr const * b = dynamic_cast<UExpr const *>(e.get())) { M q = read(transform(dim, *b)); cnt("overloads compared"); if (!equal(q, mt)) viol("overload", "transforming the unary expression gives " + str(q) + ", the wrapped one " + str(mt)); }
  phase("transform equation");
  M m2 = w.scalar();
  if (foldable(m2)) m2 = U();
  bool sw = r.chance(0.5);
  Eqn q(sw ? wrap(m2) : e, sw ? e : wrap(m2));
  Eqn tq = transform_eq(dim, q);
  M l = read(tq.lhs()), rr = read(tq.rhs());
  desc(str(m) + " and " + str(m2) + " dim " + std::to_string(dim));
  if (!equal(sw ? rr : l, mt)) viol("equation", "one side becomes " + str(sw ? rr : l) + " instead of " + str(mt));
  judge(m2, sw ? l : rr, dim, r, w.g, "transforming the equation side");
  if (!equal(read(q.lhs()), sw ? m2 : m) || !equal(read(q.rhs()), sw ? m : m2)) viol("mutated", "the source equation changed");
  phase("again");
  { M t2 = read(transform(dim, t)); judge(m, t2, dim, r, w.g, "transforming twice"); }
  if (did && any(m, target)) { nontrivial(std::to_string(dim) + ":" + str(m)); state(std::to_string(dim) + shape(m, 4)); }
}
int main(int c, char ** v) { return drive(c, v, "P20", one); }
