// P04: substitution against a reference substitution on the model tree.
#include "vm.hpp"
using namespace vm;
static M pick_target(Rng & r, M const & m, Gen & g) {
  std::vector<M> st; subtrees(m, st);
  switch (r.below(6)) {
    case 0: return mv(r.below(std::max(1u, g.nvars)));
    case 1: return mf(r.below(3), r.chance(0.5) ? TAG_UNKNOWN() : TAG_TEST());
    case 2: { M s = st[r.below(st.size())]; return s; }
    case 3: { std::vector<M> inner; for (size_t i = 0; i < st.size(); ++i) if (!st[i]->kids.empty()) inner.push_back(st[i]); if (inner.size()) return inner[r.below(inner.size())]; return st[0]; }
    case 4: { // a near miss of an existing subtree
      M s = st[r.below(st.size())]; if (s->k == BIN) return mb(s->op, s->kids[1], s->kids[0]); if (s->k == CONST) return mc(s->c + 1e-9); unsigned long step = r.chance(0.4) ? away(r) : 1; if (s->k == VAR) return mv(s->id + step); if (s->k == FSYM) return mf(s->id + step, s->tag); return s; }
    default: return mv(r.below(std::max(1u, g.nvars)));
  }
}
static void compare(const char * what, M const & m, M const & want, M const & got, Gen & g, Rng & r, bool & did) {
  // exact tree first: the interface substitutes and then simplifies, so compare with the simplification of the wanted tree
  for (int k = 0; k < 4; ++k) {
    std::vector<double> x = g.point(g.nvars + 2);
    Env<E> env = opaque_env(x, 99 + k);
    E a = ev(want, env);
    if (!reliable(a)) { cnt("skipped points"); continue; }
    E b = ev(got, env);
    if (!b.ok) { cnt("skipped points"); continue; }
    cnt("values compared"); did = true;
    if (!agree2(a, b)) { viol(std::string("value:") + what, std::string(what) + " gives " + str(got) + " with value " + fmt((double)b.v) + ", expected " + str(want) + " with value " + fmt((double)a.v)); return; }
  }
  (void)m; (void)r;
}
static void one(long, Rng & r) {
  Gen g(r);
  g.nvars = r.chance(0.1) ? 11 : 1 + r.below(4);
  g.symbols = r.chance(0.4); g.opaque = r.chance(0.25); g.ints_only = r.chance(0.3); g.functions = r.chance(0.7);
  g.budget = r.chance(0.08) ? 60 : 2 + r.below(20);
  M m = g();
  // repeat a subtree so that compound targets occur several times
  if (r.chance(0.4)) { std::vector<M> st; subtrees(m, st); M s = st[r.below(st.size())]; m = r.chance(0.5) ? mb(r.below(4), m, s) : mb(r.below(4), mu(U_SIN, s), m); }
  if (r.chance(0.01)) { m = g.tower(m); cnt("deeply nested expressions"); }
  if (r.chance(0.06)) m = far_ids(m, r);
  if (r.chance(0.06)) m = odd_consts(m, r);
  M t = pick_target(r, m, g);
  Gen gr(r); gr.nvars = g.nvars; gr.symbols = g.symbols; gr.budget = 1 + r.below(6);
  M rep = r.chance(0.3) ? mb(r.below(3), t, gr.leaf()) : (r.chance(0.3) ? mc(gr.cst()) : gr());   // replacement may contain the target
  if (rep->k == CONST && !(std::fabs(rep->c) < 1e100)) rep = mc(2);
  desc(str(m) + " with " + str(t) + " -> " + str(rep));
  Expr e = wrap(m), te = wrap(t), re = wrap(rep);
  M want = subst1(m, t, rep);
  bool hit = !equal(want, m);
  bool did = false;
  phase("raw substitute");
  { Expr q(e.get()->substitute(te.get(), re.get())); M mq = read(q); cnt("trees compared"); if (!equal(mq, want)) viol("tree", "unsimplified substitution gives " + str(mq) + ", expected " + str(want)); }
  phase("substitute(expr, expr, expr)");
  Expr s = viennamath::substitute(te, re, e);
  M ms = read(s);
  compare("substitute", m, want, ms, g, r, did);
  { Expr w = viennamath::simplify(wrap(want)); cnt("trees compared"); if (!equal(read(w), ms)) viol("simplified tree", "substitute gives " + str(ms) + ", the simplified reference substitution is " + str(read(w))); }
  if (t->k == VAR || t->k == FSYM) { if (!any(rep, [&](M const & n) { return equal(n, t); })) { std::vector<M> st; subtrees(ms, st); for (size_t i = 0; i < st.size(); ++i) if (equal(st[i], t)) { viol("left over", "target still occurs in " + str(ms)); break; } } }
  phase("overloads");
  std::vector<std::pair<std::string, M> > alt;
  if (t->k == VAR) {
    Var v(t->id);
    alt.push_back(std::make_pair("substitute(variable, expr, expr)", read(viennamath::substitute(v, re, e))));
    if (rep->k == CONST) { Const c(rep->c); alt.push_back(std::make_pair("substitute(variable, constant, expr)", read(viennamath::substitute(v, c, e)))); alt.push_back(std::make_pair("substitute(variable, number, expr)", read(viennamath::substitute(v, rep->c, e)))); if (std::fabs(rep->c) < 1e6 && rep->c == std::floor(rep->c)) alt.push_back(std::make_pair("substitute(variable, int, expr)", read(viennamath::substitute(v, (int)rep->c, e)))); }
    if (rep->k == VAR) { Var w(rep->id); alt.push_back(std::make_pair("substitute(variable, variable, expr)", read(viennamath::substitute(v, w, e)))); if (BExpr const * b = dynamic_cast<BExpr const *>(e.get())) alt.push_back(std::make_pair("substitute(variable, variable, binary)", read(viennamath::substitute(v, w, *b)))); if (UExpr const * b = dynamic_cast<UExpr const *>(e.get())) alt.push_back(std::make_pair("substitute(variable, variable, unary)", read(viennamath::substitute(v, w, *b)))); }
    if (BExpr const * b = dynamic_cast<BExpr const *>(re.get())) alt.push_back(std::make_pair("substitute(variable, binary, expr)", read(viennamath::substitute(v, *b, e))));
    if (UExpr const * b = dynamic_cast<UExpr const *>(re.get())) alt.push_back(std::make_pair("substitute(variable, unary, expr)", read(viennamath::substitute(v, *b, e))));
    // independent semantic check: the value of the result is the value at the shifted point
    if (evaluable(m) && evaluable(rep)) {
      std::vector<double> x = g.point(g.nvars + 2);
      E rv = ev(rep, plain_env(x));
      if (rv.ok && t->id < x.size()) {
        Env<E> env = plain_env(x); env.x[t->id] = rv; E a = ev(m, env);
        E b = ev(ms, plain_env(x));
        if (reliable(a) && b.ok) { cnt("shifted points compared"); if (!agree2(a, b)) viol("shift", "value " + fmt((double)b.v) + " differs from the value at the shifted point " + fmt((double)a.v)); }
      }
    }
  }
  if (t->k == FSYM) {
    FSym v(t->id, t->tag);
    alt.push_back(std::make_pair("substitute(function_symbol, expr, expr)", read(viennamath::substitute(v, re, e))));
    if (rep->k == CONST) { alt.push_back(std::make_pair("substitute(function_symbol, number, expr)", read(viennamath::substitute(v, rep->c, e)))); Const c(rep->c); alt.push_back(std::make_pair("substitute(function_symbol, constant, expr)", read(viennamath::substitute(v, c, e)))); }
    if (BExpr const * b = dynamic_cast<BExpr const *>(re.get())) alt.push_back(std::make_pair("substitute(function_symbol, binary, expr)", read(viennamath::substitute(v, *b, e))));
    if (rep->k == VAR) { Var w(rep->id); alt.push_back(std::make_pair("substitute(function_symbol, variable, expr)", read(viennamath::substitute(v, w, e)))); }
  }
  if (BExpr const * b = dynamic_cast<BExpr const *>(te.get())) { if (rep->k == CONST) { Const c(rep->c); alt.push_back(std::make_pair("substitute(binary, constant, expr)", read(viennamath::substitute(*b, c, e)))); } if (rep->k == VAR) { Var w(rep->id); alt.push_back(std::make_pair("substitute(binary, variable, expr)", read(viennamath::substitute(*b, w, e)))); } }
  if (UExpr const * b = dynamic_cast<UExpr const *>(te.get())) { alt.push_back(std::make_pair("substitute(unary, expr, expr)", read(viennamath::substitute(*b, re, e)))); if (rep->k == CONST) { Const c(rep->c); alt.push_back(std::make_pair("substitute(unary, constant, expr)", read(viennamath::substitute(*b, c, e)))); } }
  for (size_t i = 0; i < alt.size(); ++i) { cnt("overloads compared"); if (!equal(alt[i].second, ms)) viol("overload:" + alt[i].first, alt[i].first + " gives " + str(alt[i].second) + ", substitute(expr, expr, expr) gives " + str(ms)); }
  phase("simultaneous");
  std::vector<M> from, to; std::vector<Expr> fe, tt;
  int n = r.chance(0.04) ? 5 + r.below(40) : 1 + r.below(4);
  for (int i = 0; i < n; ++i) {
    M f = n > 4 && r.chance(0.5) ? mv(50 + i) : pick_target(r, m, g);
    bool dup = false; for (size_t j = 0; j < from.size(); ++j) if (equal(from[j], f)) dup = true;
    if (dup) continue;
    from.push_back(f);
  }
  // permutation or fresh replacements
  if (from.size() > 1 && r.chance(0.5)) { for (size_t i = 0; i < from.size(); ++i) to.push_back(from[(i + 1) % from.size()]); }
  else for (size_t i = 0; i < from.size(); ++i) to.push_back(gr());
  std::string dd;
  for (size_t i = 0; i < from.size(); ++i) { fe.push_back(wrap(from[i])); tt.push_back(wrap(to[i])); dd += " " + str(from[i]) + "->" + str(to[i]); }
  desc(str(m) + " simultaneously" + dd);
  M want2 = subst(m, from, to);
  Expr sv = viennamath::substitute(fe, tt, e);
  compare("simultaneous substitution", m, want2, read(sv), g, r, did);
  { Expr w = viennamath::simplify(wrap(want2)); cnt("trees compared"); if (!equal(read(w), read(sv))) viol("simultaneous tree", "simultaneous substitution gives " + str(read(sv)) + ", expected " + str(read(w))); }
  for (size_t i = 0; i < from.size(); ++i) if (!equal(read(fe[i]), from[i]) || !equal(read(tt[i]), to[i])) viol("mutated", "simultaneous substitution changed its arguments");
  phase("arguments");
  if (!equal(read(e), m) || !equal(read(te), t) || !equal(read(re), rep)) viol("mutated", "substitution changed an argument");
  if (hit) cnt("target present"); else cnt("target absent");
  if (did && hit) { nontrivial(str(m) + " " + str(t) + "->" + str(rep)); state(shape(m, 3) + "/" + shape(t, 2) + "/" + shape(rep, 2)); }
}
int main(int c, char ** v) { return drive(c, v, "P04", one); }
