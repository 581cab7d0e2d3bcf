// P05: deep comparison against equality of model trees, on near misses in every position.
#include "vm.hpp"
using namespace vm;
// change exactly one thing somewhere in the tree
static M mutate(Rng & r, M const & m, std::string & what) {
  std::vector<M> all; std::function<void(M const &)> col = [&](M const & n) { all.push_back(n); for (size_t i = 0; i < n->kids.size(); ++i) col(n->kids[i]); };
  col(m);
  size_t target = r.below(all.size()); size_t pos = 0;
  std::function<M(M const &)> go = [&](M const & n) -> M {
    bool here = pos++ == target;
    std::vector<M> k; for (size_t i = 0; i < n->kids.size(); ++i) k.push_back(go(n->kids[i]));
    M q = n->kids.empty() ? n : with_kids(n, k);
    if (!here) return q;
    switch (q->k) {
      case CONST: switch (r.below(6)) { case 0: what = "constant ulp"; return mc(nextafter(q->c, 1e300)); case 1: what = "constant sign"; return mc(q->c == 0 ? 1 : -q->c); case 2: what = "constant +1"; return mc(q->c + 1); case 3: what = "constant tiny"; return mc(q->c + 1e-7); case 4: what = "constant to variable"; return mv(0); default: what = "constant rel 1e-12"; return mc(q->c * (1 + 1e-12) + 1e-300); }
      case VAR: switch (r.below(4)) { case 0: what = "variable id"; return mv(q->id + 1); case 1: what = "variable id far"; return mv(q->id + away(r)); case 2: what = "variable to symbol"; return mf(q->id, TAG_UNKNOWN()); default: what = "variable to constant"; return mc((double)q->id); }
      case FSYM: switch (r.below(4)) { case 0: what = "symbol id"; return mf(q->id + 1, q->tag); case 3: what = "symbol id far"; return mf(q->id + away(r), q->tag); case 1: what = "symbol tag"; return mf(q->id, q->tag == TAG_UNKNOWN() ? TAG_TEST() : TAG_UNKNOWN()); default: what = "symbol to variable"; return mv(q->id); }
      case BIN: switch (r.below(4)) { case 0: what = "binary operation"; return mb((q->op + 1 + r.below(3)) % 4, k[0], k[1]); case 1: what = "operands swapped"; return mb(q->op, k[1], k[0]); case 2: what = "operand dropped"; return k[0]; default: what = "operand doubled"; return mb(q->op, k[0], mb(MUL, k[1], mc(1))); }
      case UN:
        if (q->op == U_PD && r.chance(0.5)) { what = "partial derivative index"; return mu(U_PD, k[0], q->id + (r.chance(0.5) ? 1 : away(r))); }
        if (q->op == U_SYM && r.chance(0.6)) { what = "interval id"; return mu(U_SYM, k[0], q->id + (r.chance(0.5) ? 1 : away(r))); }
        if (q->op == U_INT) { switch (r.below(4)) { case 0: what = "integration variable"; return mint(k[0], k[1], k[2], q->id + (r.chance(0.5) ? 1 : away(r))); case 1: what = "lower bound"; return mint(k[0], mb(ADD, k[1], mc(1)), k[2], q->id); case 2: what = "upper bound"; return mint(k[0], k[1], mc(17.5), q->id); default: what = "bounds swapped"; return mint(k[0], k[2], k[1], q->id); } }
        switch (r.below(3)) { case 0: { what = "unary operation"; int o = r.below(12); if (o == U_PD) return mu(U_PD, k[0], 0); return mu(o, k[0]); } case 1: what = "unary dropped"; return k[0]; default: what = "unary wrapped"; return mu(U_ID, q); }
      default: switch (r.below(4)) {
        case 0: { what = "vector longer"; std::vector<M> v(k); v.push_back(mc(0)); return mvec(v); }
        case 1: { what = "vector shorter"; std::vector<M> v(k); if (v.size()) v.pop_back(); return mvec(v); }
        case 2: { what = "vector entry"; std::vector<M> v(k); if (v.size()) v[v.size() - 1] = mb(ADD, v[v.size() - 1], mv(0)); return mvec(v); }
        default: { what = "vector rotated"; std::vector<M> v(k); if (v.size() > 1) std::rotate(v.begin(), v.begin() + 1, v.end()); return mvec(v); } }
    }
  };
  return go(m);
}
static void pair(M const & a, M const & b, Iface const * ea, Iface const * eb, std::string const & what) {
  bool want = equal(a, b), got = ea->deep_equal(eb), rev = eb->deep_equal(ea);
  cnt(want ? "equal pairs" : "unequal pairs");
  if (got != want) viol((want ? "missed equality: " : "false equality: ") + what, str(a) + " vs " + str(b) + " compares " + (got ? "equal" : "different"));
  if (rev != got) viol("asymmetric: " + what, str(a) + " vs " + str(b));
}
static void one(long, Rng & r) {
  Gen g(r);
  g.nvars = 1 + r.below(4); g.symbols = r.chance(0.5); g.opaque = r.chance(0.5); g.ints_only = r.chance(0.5);
  g.budget = r.chance(0.05) ? 60 : 1 + r.below(16);
  M m = g();
  if (r.chance(0.2)) { std::vector<M> v; int n = r.chance(0.06) ? 8 + r.below(40) : r.below(5); for (int i = 0; i < n; ++i) v.push_back(g.gen(1 + r.below(4))); v.push_back(m); m = mvec(v); if (r.chance(0.3)) m = mb(MUL, m, mvec(v)); }
  if (r.chance(0.01)) { m = g.tower(m); cnt("deeply nested expressions"); }
  if (has_nan(m)) return;
  if (r.chance(0.15)) m = far_ids(m, r);
  if (r.chance(0.12)) m = odd_consts(m, r);
  desc(str(m));
  Expr a = wrap(m), b = wrap(m);
  phase("clone");
  Expr c(a.get()->clone());
  pair(m, m, a.get(), a.get(), "self");
  pair(m, m, a.get(), b.get(), "same tree built twice");
  pair(m, m, a.get(), c.get(), "clone");
  if (!a.get()->shallow_equal(c.get())) viol("shallow", "a clone is not shallow equal");
  if (!equal(read(c), m)) viol("clone", "the clone denotes " + str(read(c)));
  phase("near misses");
  for (int k = 0; k < 8; ++k) {
    std::string what; M q = mutate(r, m, what);
    if (has_nan(q)) continue;
    desc(str(m) + " vs " + str(q));
    Expr d = wrap(q);
    pair(m, q, a.get(), d.get(), what); cnt("near miss: " + what);
    std::string what2; M q2 = mutate(r, q, what2);
    if (has_nan(q2)) continue;
    Expr d2 = wrap(q2);
    pair(m, q2, a.get(), d2.get(), what + "+" + what2); pair(q, q2, d.get(), d2.get(), what2);
    if (!equal(read(d), q)) viol("mutated", "comparison changed an operand");
    nontrivial(str(m) + "|" + str(q));
    state(what + ":" + shape(m, 3));
  }
  phase("subtrees");
  std::vector<M> st; subtrees(m, st);
  for (int k = 0; k < 3; ++k) { M s = st[r.below(st.size())]; if (has_nan(s)) continue; Expr d = wrap(s); pair(m, s, a.get(), d.get(), "subtree"); }
  if (!equal(read(a), m) || !equal(read(b), m)) viol("mutated", "comparison changed an operand");
}
int main(int c, char ** v) { return drive(c, v, "P05", one); }
