// P19: recursive manipulation rewrites exactly the topmost selected nodes.
#include "vm.hpp"
using namespace vm;
namespace vmath = viennamath;
static long live = 0;
// selection and replacement are functions of the node's formula and a salt
struct Rule {
  uint64_t salt; double p_in, p_leaf; int mode;
  bool selects(M const & m) const { if (m->kids.empty() || m->k == VEC) return (mix(salt, hash_str(str(m))) & 1) != 0; return (double)(mix(salt, hash_str(str(m))) % 1000) < 1000 * p_in; }
  bool rewrites_leaf(M const & m) const { return (double)(mix(salt ^ 99, hash_str(str(m))) % 1000) < 1000 * p_leaf; }
  static bool leaf(M const & m) { return m->k == CONST || m->k == VAR || m->k == FSYM || m->k == VEC; }
  M replacement(M const & m) const {   // may contain the node itself: must not be searched again
    switch ((mix(salt ^ 7, hash_str(str(m))) + mode) % 6) {
      case 0: return mb(MUL, mc(2), m);
      case 1: return mu(U_EXP, m);
      case 2: return mv(7);
      case 3: return mb(ADD, m, m);
      case 4: return mc(3.5);
      default: return m->kids.empty() || m->k == VEC ? mb(SUB, m, mc(1)) : m->kids[0];
    }
  }
};
static M apply(M const & m, Rule const & q, std::vector<std::string> & calls) {
  if (Rule::leaf(m)) { calls.push_back(str(m)); return q.rewrites_leaf(m) ? q.replacement(m) : m; }
  if (q.selects(m)) { calls.push_back(str(m)); return q.replacement(m); }
  std::vector<M> k(m->kids); size_t lim = m->k == UN ? 1 : k.size();
  for (size_t i = 0; i < lim; ++i) k[i] = apply(m->kids[i], q, calls);
  return with_kids(m, k);
}
struct Fun : public vmath::rt_manipulation_interface<Iface> {
  Rule q; std::vector<std::string> * calls; int throw_at;
  Fun(Rule const & r, std::vector<std::string> * c, int t = -1) : q(r), calls(c), throw_at(t) { ++live; }
  ~Fun() { --live; }
  Iface * operator()(Iface const * e) const {
    if (throw_at >= 0 && (int)calls->size() == throw_at) throw 17;
    M m = read(e); calls->push_back(str(m));
    if (Rule::leaf(m)) return q.rewrites_leaf(m) ? raw(q.replacement(m)) : e->clone();
    return raw(q.replacement(m));
  }
  bool modifies(Iface const * e) const { return q.selects(read(e)); }
};
static void nodes(Iface const * e, std::set<void const *> & s) {
  s.insert(e);
  if (BExpr const * b = dynamic_cast<BExpr const *>(e)) { s.insert(b->op()); nodes(b->lhs(), s); nodes(b->rhs(), s); }
  else if (UExpr const * u = dynamic_cast<UExpr const *>(e)) { s.insert(u->op()); nodes(u->lhs(), s); }
  else if (VExpr const * v = dynamic_cast<VExpr const *>(e)) for (size_t i = 0; i < v->size(); ++i) nodes((*v)[i].get(), s);
}
static void one(long, Rng & r) {
  Gen g(r); g.nvars = 4; g.symbols = r.chance(0.6); g.opaque = r.chance(0.5); g.budget = r.chance(0.08) ? 100 : 3 + r.below(20);
  M m = g();
  if (r.chance(0.25)) { std::vector<M> s, k; subtrees(m, s); for (int j = 0; j < 1 + (int)r.below(3); ++j) k.push_back(g.gen(3)); m = subst1(m, r.pick(s), mvec(k)); }
  Rule q; q.salt = r.next(); q.p_in = r.chance(0.3) ? 0 : r.real(0, 0.5); q.p_leaf = r.chance(0.3) ? 0 : r.real(0, 0.7); q.mode = r.below(6);
  if (r.chance(0.015)) { m = g.tower(m); q.p_in = r.chance(0.5) ? 0 : 0.01; q.p_leaf = 0.5; cnt("deeply nested expressions"); }
  if (r.chance(0.12)) m = far_ids(m, r);
  if (r.chance(0.1)) m = odd_consts(m, r);
  desc(str(m) + " selecting " + fmt(q.p_in) + "/" + fmt(q.p_leaf));
  std::unique_ptr<Expr> e(new Expr(wrap(m)));
  std::vector<std::string> wc, gc;
  M want = apply(m, q, wc);
  phase("manipulation");
  Expr res(e->get()->recursive_manipulation(vmath::rt_manipulation_wrapper<Iface>(new Fun(q, &gc))));
  M got = read(res);
  cnt("manipulations"); cnt("nodes handed to the manipulation", (long)gc.size());
  if (!equal(got, want)) viol("result", "gives " + str(got) + " instead of " + str(want));
  { std::vector<std::string> a(gc), b(wc); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a != b) { std::string s, t; for (size_t i = 0; i < gc.size() && i < 20; ++i) s += gc[i] + "; "; for (size_t i = 0; i < wc.size() && i < 20; ++i) t += wc[i] + "; "; viol("nodes handed to the manipulation", "was handed {" + s + "} instead of {" + t + "}"); } }
  phase("source");
  if (!equal(read(*e), m)) viol("source changed", "now " + str(read(*e)));
  std::set<void const *> a, b; nodes(e->get(), a); nodes(res.get(), b);
  for (std::set<void const *>::iterator it = a.begin(); it != a.end(); ++it) if (b.count(*it)) { viol("shared", "result and source share a node"); break; }
  // default manipulation copies
  phase("default manipulation");
  Expr copy(e->get()->recursive_manipulation(vmath::rt_manipulation_wrapper<Iface>(new vmath::rt_manipulation_interface<Iface>())));
  if (!equal(read(copy), m)) viol("default manipulation", "gives " + str(read(copy)));
  phase("source destroyed");
  e.reset();
  if (!equal(read(res), want) && equal(got, want)) viol("shared", "the result changed when the source was destroyed");
  if (!equal(read(copy), m)) viol("shared", "the copy changed when the source was destroyed");
  // the manipulation gives up: nothing is corrupted
  phase("manipulation gives up");
  if (r.chance(0.2) && wc.size() > 1) { Quiet qq; Expr e2 = wrap(m); std::vector<std::string> c2; bool came = false; try { Expr x(e2.get()->recursive_manipulation(vmath::rt_manipulation_wrapper<Iface>(new Fun(q, &c2, (int)r.below(wc.size()))))); } catch (int) { came = true; } if (!came) viol("manipulation exception", "lost"); if (!equal(read(e2), m)) viol("source changed", "after an exception: " + str(read(e2))); cnt("aborted manipulations"); }
  if (live != 0) { viol("manipulation lifetime", fmt((double)live) + " manipulations alive"); live = 0; }
  if (!equal(want, m)) { nontrivial(str(m) + ">" + str(want)); state(shape(m) + ">" + shape(want)); }
}
int main(int c, char ** v) { return drive(c, v, "P19", one); }
