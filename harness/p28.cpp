// P28: several translation units (different header orders, optimisation levels, language standards, a shared library) on the same objects.
#include "vm.hpp"
#include "p28.hpp"
using namespace vm; using p28::Ops; using p28::Thunk;
namespace vmath = viennamath;
#define X(k) extern Ops const * unit_##k();
UNITS
#undef X
static std::vector<Ops const *> & units() {
  static std::vector<Ops const *> * u = 0;
  if (!u) { u = new std::vector<Ops const *>;
#define X(k) u->push_back(unit_##k());
UNITS
#undef X
  }
  return *u;
}
static Expr build(M const & m, Rng & r) {   // every node is made by another unit
  Ops const & o = *r.pick(units());
  switch (m->k) {
    case CONST: return o.num(m->c);
    case VAR: return o.var(m->id);
    case FSYM: return o.sym(m->id, m->tag == TAG_TEST());
    case BIN: { Expr a = build(m->kids[0], r), b = build(m->kids[1], r); return o.bin(m->op, a, b); }
    case VEC: { std::vector<Expr> k; for (size_t i = 0; i < m->kids.size(); ++i) k.push_back(build(m->kids[i], r)); return o.vec(k); }
    default: break;
  }
  Expr a = build(m->kids[0], r);
  if (m->op == U_INT && m->kids[1]->k == CONST && m->kids[2]->k == CONST) return o.integral(m->kids[1]->c, m->kids[2]->c, a, m->id);
  if (m->op == U_SYM) return o.symint(m->id, a);
  if (m->op <= U_PD) return o.un(m->op, a, m->id);
  return wrap(m);
}
static std::string kind(M const & m) {
  switch (m->k) {
    case CONST: return "constant"; case VAR: return "variable"; case FSYM: return m->tag == TAG_TEST() ? "test function" : "unknown";
    case BIN: { const char * n[] = { "sum", "difference", "product", "quotient" }; return n[m->op]; }
    case VEC: return "vector of " + std::to_string(m->kids.size());
    default: break;
  }
  switch (m->op) { case U_SIN: return "sine"; case U_EXP: return "exponential"; case U_LOG: return "logarithm"; case U_INT: return "integral by x" + std::to_string(m->id); case U_SYM: return "integral over domain " + std::to_string(m->id); default: return "other unary"; }
}
static std::string wtext(M const & m) {
  std::ostringstream s;
  switch (m->k) {
    case CONST: s << " C" << m->c; return s.str();
    case VAR: s << " V" << m->id; return s.str();
    case BIN: { const char * n[] = { "+", "-", "*", "/" }; return wtext(m->kids[0]) + " B" + n[m->op] + wtext(m->kids[1]); }
    case UN: return " " + kind(m) + wtext(m->kids[0]);
    default: return " " + kind(m);
  }
}
static M shift(M const & m) {
  if (m->k == VAR) return mv(m->id + 1);
  if (m->k == BIN) return mb(m->op, shift(m->kids[0]), shift(m->kids[1]));
  if (m->k == UN) { std::vector<M> k = m->kids; k[0] = shift(k[0]); return with_kids(m, k); }
  return m;
}
static void one(long i, Rng & r) {
  std::vector<Ops const *> & U = units();
  if (i < 4) {
    phase("exceptions"); desc("exceptions thrown in one unit and caught in another");
    const char * want[5] = { "index", "not evaluable", "not unwrappable", "not differentiable", "index" };
    for (size_t a = 0; a < U.size(); ++a) for (int k = 0; k < 5; ++k) {
      std::string first;
      for (size_t b = 0; b < U.size(); ++b) { Quiet q; std::string s = U[b]->caught(U[a]->throwers[k]); cnt("exceptions across units");
        if (s.find(want[k]) != 0) viol(std::string("exception:") + want[k], "exception thrown in " + std::string(U[a]->info) + " is seen as '" + s + "' in " + U[b]->info);
        if (b == 0) first = s; else if (s != first) viol(std::string("message:") + want[k], "message '" + s + "' instead of '" + first + "'"); }
      state(std::string("exception ") + want[k]);
    }
    phase("static objects"); desc("expressions built during static initialisation");
    for (size_t a = 0; a < U.size(); ++a) { Expr e = U[a]->global(); M m = mb(ADD, mb(MUL, mu(U_SIN, mv(1)), mc(3)), mb(DIV, mv(2), mv(1))); cnt("static expressions"); if (!equal(read(e), m)) viol("static", "static expression of " + std::string(U[a]->info) + " is " + str(read(e))); }
    phase("compiletime");
    for (size_t a = 0; a < U.size(); ++a) for (int k = -3; k < 4; ++k) { double t = 0.5 * k + 0.1, w = (t * 2 + 3) * (t - 5), g = U[a]->ct(t); cnt("compiletime results"); if (!(::fabs(g - w) < 1e-9 * (1 + ::fabs(w)))) viol("compiletime", "compiletime expressions in " + std::string(U[a]->info) + " give " + fmt(g) + " instead of " + fmt(w)); }
    nontrivial("exchange " + std::to_string(i)); return;
  }
  Gen g(r); g.nvars = 3; g.symbols = r.chance(0.4); g.opaque = r.chance(0.4); g.budget = 2 + r.below(10); g.idop = r.chance(0.2);
  M m = g(); if (r.chance(0.1)) { std::vector<M> k; for (int q = 0; q < 1 + (int)r.below(4); ++q) k.push_back(g.gen(1 + r.below(4))); m = mvec(k); }
  if (m->size > 60) return;
  desc(str(m)); phase("construction across units");
  Expr e = build(m, r), w = wrap(m), f = build(m, r);
  M got = read(e), got2 = read(f);
  M want = m;
  if (!equal(got, m)) { // combining two numbers may fold
    if (!equal(got, got2)) { viol("construction", "built across units: " + str(got) + " and " + str(got2) + " for " + str(m)); return; }
    if (m->k != CONST && !any(m, [](M const & n) { return n->k == BIN && n->kids[0]->k == CONST && n->kids[1]->k == CONST; })) { viol("construction", "built across units: " + str(got) + " for " + str(m)); return; }
    want = got; w = wrap(want); cnt("folded");
  }
  M tgt; { std::vector<M> s; subtrees(want, s); tgt = r.pick(s); } Expr ta = build(tgt, r), repl = build(g.gen(1 + r.below(4)), r);
  std::vector<double> x = g.point(4); E ref = evaluable(want) ? ev(want, plain_env(x)) : E(0, 0, false);
  bool vec = any(want, [](M const & n) { return n->k == VEC; });
  struct Seen { std::string v, who; }; std::map<std::string, Seen> seen;
  auto agree_all = [&](std::string const & what, std::string const & v, const char * who) {
    cnt("results compared"); std::map<std::string, Seen>::iterator it = seen.find(what);
    if (it == seen.end()) { Seen s; s.v = v; s.who = who; seen[what] = s; return; }
    if (it->second.v != v) viol("unit:" + what, what + " gives '" + v.substr(0, 300) + "' in " + who + ", '" + it->second.v.substr(0, 300) + "' in " + it->second.who);
  };
  auto res = [&](std::function<std::string()> fn) -> std::string { Quiet q; try { return fn(); } catch (std::exception const & z) { return std::string("throws ") + z.what(); } catch (const char * z) { return std::string("throws ") + z; } };
  unsigned long dv = r.below(3); int dim = 1 + r.below(3);
  M qi = mint(g.poly(), mc(r.range(-2, 1)), mc(r.range(2, 4)), 0); Expr qe = build(qi, r);
  // near misses: the same tree with one detail changed
  std::vector<M> nearby; nearby.push_back(shift(want)); for (int q = 0; q < 3; ++q) { std::vector<M> s; subtrees(want, s); M t = r.pick(s), n; if (q == 0) for (int z = 0; z < 8 && !(t->k == UN && t->op >= U_GRAD); ++z) t = r.pick(s);
    switch (t->k) { case CONST: n = mc(t->c + 1); break; case VAR: n = mv(t->id + 1); break; case FSYM: n = r.chance(0.5) ? mf(t->id + 1, t->tag) : mf(t->id, t->tag == TAG_TEST() ? TAG_UNKNOWN() : TAG_TEST()); break;
      case BIN: n = r.chance(0.5) ? mb(t->op ^ 1, t->kids[0], t->kids[1]) : mb(t->op, t->kids[1], t->kids[0]); break;
      case UN: n = t->op == U_INT ? (r.chance(0.5) ? mint(t->kids[0], t->kids[2], t->kids[1], t->id) : mint(t->kids[0], t->kids[1], t->kids[2], t->id + 1)) : t->op >= U_PD ? mu(t->op, t->kids[0], t->id + 1) : mu(t->op == U_SIN ? U_COS : t->op == U_GRAD ? U_DIVG : U_SIN, t->kids[0]); break;
      default: { std::vector<M> k(t->kids); k.push_back(mc(0)); n = mvec(k); } }
    nearby.push_back(subst1(want, t, n)); }
  std::vector<Expr> near_e; for (size_t q = 0; q < nearby.size(); ++q) near_e.push_back(build(nearby[q], r));
  for (size_t q = 0; q < nearby.size(); ++q) nearby[q] = read(near_e[q]);
  for (size_t a = 0; a < U.size(); ++a) {
    Ops const & o = *U[a]; const char * who = o.info;
    phase(std::string("operations in ") + who);
    if (!o.equal(e, f) || !o.equal(w, e)) viol("equal", "copies built in different units do not compare equal in " + std::string(who));
    for (size_t q = 0; q < nearby.size(); ++q) { cnt("comparisons"); if (o.equal(near_e[q], e) != equal(nearby[q], want) || o.equal(e, near_e[q]) != equal(nearby[q], want)) viol("equal", "comparison with " + str(nearby[q]) + " in " + std::string(who)); }
    if (o.kind(e.get()) != kind(want)) viol("kind", std::string("recognised as ") + o.kind(e.get()) + " in " + who + ", it is a " + kind(want));
    std::string wl = o.walk(e), ww = wtext(want); cnt("traversals"); if (wl != ww) viol("walk", "traversal in " + std::string(who) + " logs" + wl + ", expected" + ww);
    M sh = read(o.rewrite(e)); if (!equal(sh, shift(want))) viol("rewrite", "manipulation in " + std::string(who) + " gives " + str(sh));
    agree_all("text", o.text(e), who);
    Expr mut(o.rewrite(e)); mut = e; if (!equal(read(mut), want)) viol("assign", "assignment of an expression made in " + std::string(who));
    Iface * c = o.clone(e); U[r.below(U.size())]->destroy(c);
    if (ref.ok && reliable(ref)) { double d = o.call(e, x); cnt("values compared"); if (!agree(d, ref)) viol("value", "value in " + std::string(who) + " is " + fmt(d)); if (o.eval) { d = o.eval(e, x); if (!agree(d, ref)) viol("value", "eval in " + std::string(who) + " is " + fmt(d)); } }
    if (o.simplify) agree_all("simplify", res([&] { return str(read(o.simplify(e))); }), who);
    if (o.diff) agree_all("diff", res([&] { return str(read(o.diff(e, dv))); }), who);
    if (o.subst && !vec) agree_all("substitute", res([&] { return str(read(o.subst(ta, repl, e))); }), who);
    if (o.latex) agree_all("latex", res([&] { return o.latex(e); }), who);
    if (o.coords && !vec) agree_all("coordinates", res([&] { return str(read(o.coords(dim, e))); }), who);
    if (o.quad) agree_all("quadrature", res([&] { return fmt(o.quad(qe)); }), who);
    state(std::string(who) + kind(want));
  }
  agree_all("text", [&] { std::ostringstream s; s << w; return s.str(); }(), "main");
  agree_all("simplify", res([&] { return str(read(vmath::simplify(w))); }), "main");
  agree_all("diff", res([&] { return str(read(vmath::diff(w, Var(dv)))); }), "main");
  if (!equal(read(e), want) || !equal(read(f), want)) viol("mutated", "an operand was changed");
  nontrivial(str(m));
}
int main(int c, char ** v) { return drive(c, v, "P28", one); }
