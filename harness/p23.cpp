// P23: replacing a symbolic integration domain affects exactly the integrals over the domain with that identifier.
#include "vm.hpp"
using namespace vm;
namespace vmath = viennamath;
static M replace(M const & m, unsigned long id, M const & lo, M const & hi, unsigned long var) {
  if (m->kids.empty()) return m;
  std::vector<M> k(m->kids); size_t n = m->k == UN ? 1 : k.size();
  for (size_t i = 0; i < n; ++i) k[i] = replace(m->kids[i], id, lo, hi, var);
  if (m->k == UN && m->op == U_SYM && m->id == id) return mint(k[0], lo, hi, var);
  return with_kids(m, k);
}
static int depth(M const & m) { int d = 0; size_t n = m->k == UN ? 1 : m->kids.size(); for (size_t i = 0; i < n; ++i) d = std::max(d, depth(m->kids[i])); return d + (m->k == UN && m->op == U_SYM); }
static unsigned long ident(Rng & r) { static const unsigned long T[] = { 0, 1, 2, 3, 17, 100000, 1ul << 8, 1ul << 16, 1ul << 32, (1ul << 32) + 1 }; return T[r.below(r.chance(0.7) ? 3 : 10)]; }
static M gen(Rng & r, Gen & g, int d) {
  if (d <= 0) return g.gen(1 + r.below(5));
  switch (r.below(7)) {
    case 0: case 1: return mu(U_SYM, gen(r, g, d - 1), ident(r));
    case 2: return mb(ADD, gen(r, g, d - 1), gen(r, g, d - 1));
    case 3: return mb(r.below(4), gen(r, g, d - 1), g.gen(1 + r.below(4)));
    case 4: return mb(r.below(4), g.gen(1 + r.below(4)), gen(r, g, d - 1));
    case 5: return mu(r.below(9), gen(r, g, d - 1));
    default: return r.chance(0.4) ? mint(gen(r, g, d - 1), mc(r.range(-3, 3)), g.leaf(), r.below(4)) : (r.chance(0.5) ? mu(U_GRAD, gen(r, g, d - 1)) : mu(U_PD, gen(r, g, d - 1), ident(r)));
  }
}
static M bound(Rng & r, Gen & g) { switch (r.below(4)) { case 0: return g.gen(1 + r.below(4)); case 1: return mv(r.below(6)); default: return mc(g.cst()); } }
static void one(long, Rng & r) {
  Gen g(r); g.nvars = 1 + r.below(4); g.symbols = r.chance(0.6); g.opaque = r.chance(0.3);
  M m = gen(r, g, 1 + r.below(7));
  if (m->size > 600) { cnt("skipped expressions"); return; }
  if (r.chance(0.04)) { int n = 20 + r.below(100); for (int i = 0; i < n; ++i) m = r.chance(0.15) ? mu(r.chance(0.6) ? U_SYM : U_SIN, m, ident(r)) : (r.chance(0.5) ? mb(r.below(4), m, g.leaf()) : mb(r.below(4), g.leaf(), m)); }   // deep inside
  if (r.chance(0.1)) m = odd_consts(m, r);
  unsigned long id = ident(r);
  { std::vector<M> s, q; subtrees(m, s); for (size_t i = 0; i < s.size(); ++i) if (s[i]->k == UN && s[i]->op == U_SYM) q.push_back(s[i]); if (q.size() && r.chance(0.8)) id = r.pick(q)->id; }
  M lo = bound(r, g), hi = bound(r, g); unsigned long v = r.below(8) + (r.chance(0.1) ? away(r) : 0);
  if (r.chance(0.08)) lo = mu(U_SYM, mv(1), id);       // the new interval may itself mention the domain
  desc(str(m) + " domain " + std::to_string(id) + " -> [" + str(lo) + ", " + str(hi) + "] x" + std::to_string(v));
  Expr e = wrap(m);
  SIval si(id); Ival iv(wrap(lo), wrap(hi)); Var x(v);
  M want = replace(m, id, lo, hi, v);
  phase("replace");
  Expr res = vmath::substitute(si, std::make_pair(iv, x), e);
  M got = read(res); cnt("replacements");
  if (!equal(got, want)) viol("result", "gives " + str(got) + " instead of " + str(want));
  if (!equal(read(e), m)) viol("mutated", "the source is now " + str(read(e)));
  if (!equal(read(iv.lower()), lo) || !equal(read(iv.upper()), hi) || x.id() != v || si.id() != id) viol("mutated", "interval or variable changed");
  phase("replace with compiletime variable");
  { Expr res2 = vmath::substitute(si, std::make_pair(iv, vmath::ct_variable<2>()), e); M w = replace(m, id, lo, hi, 2); if (!equal(read(res2), w)) viol("result", "with a compiletime variable gives " + str(read(res2)) + " instead of " + str(w)); cnt("replacements"); }
  phase("absent domain");
  { Expr res3 = vmath::substitute(SIval(77), std::make_pair(iv, x), e); if (!equal(read(res3), m)) viol("result", "replacing a domain that does not occur gives " + str(read(res3))); }
  phase("other domains in turn");
  { std::set<unsigned long> ids; walk(want, [&](M const & n) { if (n->k == UN && n->op == U_SYM) ids.insert(n->id); });
    Expr cur = res; M cm = want; int k = 0;
    for (std::set<unsigned long>::iterator it = ids.begin(); it != ids.end(); ++it, ++k) {
      M l2 = mc(k), h2 = mc(k + 1.5);
      cur = vmath::substitute(SIval(*it), std::make_pair(Ival(wrap(l2), wrap(h2)), Var(k)), cur); cm = replace(cm, *it, l2, h2, k); cnt("replacements in turn");
      if (!equal(read(cur), cm)) { viol("result", "replacing domain " + std::to_string(*it) + " afterwards gives " + str(read(cur)) + " instead of " + str(cm)); break; }
    }
    if (!equal(read(res), want)) viol("mutated", "a later replacement changed an earlier result"); }
  phase("integral constructors");
  { M a = mb(r.below(4), g.leaf(), g.leaf()), b = mu(U_COS, g.leaf()); Expr ea = wrap(a), eb = wrap(b); SIval w(ident(r)); M f = mf(1, TAG_TEST());
    std::vector<std::pair<M, M> > q;
    q.push_back(std::make_pair(read(vmath::integral(w, ea)), a));
    q.push_back(std::make_pair(read(vmath::integral(w, *dynamic_cast<BExpr const *>(ea.get()))), a));
    q.push_back(std::make_pair(read(vmath::integral(w, *dynamic_cast<UExpr const *>(eb.get()))), b));
    q.push_back(std::make_pair(read(vmath::integral(w, Const(2.5))), mc(2.5)));
    q.push_back(std::make_pair(read(vmath::integral(w, Var(3))), mv(3)));
    q.push_back(std::make_pair(read(vmath::integral(w, FSym(1, vmath::test_tag<>()))), f));
    for (size_t i = 0; i < q.size(); ++i) { cnt("integrals constructed"); if (!equal(q[i].first, mu(U_SYM, q[i].second, w.id()))) viol("constructor", "integral over domain " + std::to_string(w.id()) + " of " + str(q[i].second) + " is " + str(q[i].first)); }
    SIval dflt; if (dflt.id() != 0) viol("constructor", "default domain has identifier " + std::to_string(dflt.id())); SIval cp(w), as; as = w; if (cp.id() != w.id() || as.id() != w.id()) viol("constructor", "a copied domain has another identifier");
    q.clear();
    q.push_back(std::make_pair(read(vmath::integral(iv, ea, x)), mint(a, lo, hi, v)));
    q.push_back(std::make_pair(read(vmath::integral(iv, ea, vmath::ct_variable<4>())), mint(a, lo, hi, 4)));
    q.push_back(std::make_pair(read(vmath::integral(iv, *dynamic_cast<BExpr const *>(ea.get()), vmath::ct_variable<1>())), mint(a, lo, hi, 1)));
    for (size_t i = 0; i < q.size(); ++i) { cnt("integrals constructed"); if (!equal(q[i].first, q[i].second)) viol("constructor", "integral is " + str(q[i].first) + " instead of " + str(q[i].second)); } }
  if (!equal(want, m)) { nontrivial(str(m) + std::to_string(id)); state("depth " + std::to_string(depth(m)) + shape(m, 4)); cnt("domain present"); if (depth(m) > 1) cnt("nested domains"); }
}
int main(int c, char ** v) { return drive(c, v, "P23", one); }
