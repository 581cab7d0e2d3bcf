// P18: traversal visits every reachable node once, in the documented order, and type filters fire exactly for their type.
#include "vm.hpp"
using namespace vm;
namespace vmath = viennamath;
typedef std::vector<Iface const *> Seq;
static long live = 0;
struct Visitor : public vmath::rt_traversal_interface<Iface> {
  Seq * seq; std::set<Iface const *> const * closed; long * asked; int throw_at;
  Visitor(Seq * s, std::set<Iface const *> const * c, long * a, int t = -1) : seq(s), closed(c), asked(a), throw_at(t) { ++live; }
  ~Visitor() { --live; }
  void operator()(Iface const * e) const { if (throw_at >= 0 && (int)seq->size() == throw_at) throw 17; seq->push_back(e); }
  bool step_into(Iface const * e) const { ++*asked; return closed->count(e) == 0; }
};
struct Plain : public vmath::rt_traversal_interface<Iface> { // default step_into
  Seq * seq; explicit Plain(Seq * s) : seq(s) { ++live; } ~Plain() { --live; }
  void operator()(Iface const * e) const { seq->push_back(e); }
};
struct Counts { long v, c, f, b, u, x; bool operator==(Counts const & o) const { return v == o.v && c == o.c && f == o.f && b == o.b && u == o.u && x == o.x; } };
struct FV { Counts * n; std::vector<unsigned long> * ids; template <typename T> void operator()(T const & t) const { add(t); }
  void add(Var const & t) const { n->v++; ids->push_back(t.id()); } void add(Const const &) const { n->c++; } void add(FSym const &) const { n->f++; } void add(BExpr const &) const { n->b++; } void add(UExpr const &) const { n->u++; } void add(VExpr const &) const { n->x++; } };
struct Typed : public vmath::rt_traversal_interface<Iface> {
  FV f; long * fired; Typed(FV const & x, long * q) : f(x), fired(q) { ++live; } ~Typed() { --live; }
  void operator()(Iface const * e) const {
    int k = 0;
    k += vmath::callback_if_castable<Var>::apply(e, f); k += vmath::callback_if_castable<Const>::apply(e, f); k += vmath::callback_if_castable<FSym>::apply(e, f);
    k += vmath::callback_if_castable<BExpr>::apply(e, f); k += vmath::callback_if_castable<UExpr>::apply(e, f); k += vmath::callback_if_castable<VExpr>::apply(e, f);
    *fired += k;
  }
};
struct Undecided : public vmath::rt_traversal_interface<Iface> { // answers depend on how often it was asked: everything below a node is either visited or not
  Seq * seq; Seq * nodes; uint64_t script; double p;
  Undecided(Seq * s, Seq * n, uint64_t c, double q) : seq(s), nodes(n), script(c), p(q) { ++live; } ~Undecided() { --live; }
  void operator()(Iface const * e) const { seq->push_back(e); }
  static bool yes(uint64_t script, double p, size_t k) { return Rng(mix(script, k)).unit() >= p; }
  bool step_into(Iface const * e) const { nodes->push_back(e); return yes(script, p, nodes->size() - 1); }
};
static bool composite(Iface const * e) { return dynamic_cast<BExpr const *>(e) || dynamic_cast<UExpr const *>(e); }
static void scripted(Iface const * e, uint64_t script, double p, size_t & k, Seq & out) {
  if (!composite(e)) { out.push_back(e); return; }
  bool into = Undecided::yes(script, p, k++);
  if (BExpr const * b = dynamic_cast<BExpr const *>(e)) { if (into) scripted(b->lhs(), script, p, k, out); out.push_back(e); if (into) scripted(b->rhs(), script, p, k, out); }
  else { out.push_back(e); if (into) scripted(static_cast<UExpr const *>(e)->lhs(), script, p, k, out); }
}
static void expected(Iface const * e, std::set<Iface const *> const & closed, Seq & out) {
  if (BExpr const * b = dynamic_cast<BExpr const *>(e)) {
    if (closed.count(e)) { out.push_back(e); return; }
    expected(b->lhs(), closed, out); out.push_back(e); expected(b->rhs(), closed, out);
  } else if (UExpr const * u = dynamic_cast<UExpr const *>(e)) {
    out.push_back(e); if (!closed.count(e)) expected(u->lhs(), closed, out);
  } else out.push_back(e);
}
static void count_model(M const & m, Counts & n, std::vector<unsigned long> & ids) {
  switch (m->k) { case VAR: n.v++; ids.push_back(m->id); break; case CONST: n.c++; break; case FSYM: n.f++; break; case VEC: n.x++; break;
    case BIN: count_model(m->kids[0], n, ids); n.b++; count_model(m->kids[1], n, ids); break; case UN: n.u++; count_model(m->kids[0], n, ids); break; }
}
static std::string show(Seq const & s) { std::string o; for (size_t i = 0; i < s.size(); ++i) o += read(s[i])->k == BIN ? std::string(BNAME[read(s[i])->op]) + " " : str(read(s[i])) + " "; return o; }
static void one(long, Rng & r) {
  Gen g(r); g.nvars = 4; g.symbols = r.chance(0.6); g.opaque = r.chance(0.5); g.budget = r.chance(0.1) ? 120 : 3 + r.below(25);
  M m = g();
  if (r.chance(0.25)) { std::vector<M> s, k; subtrees(m, s); for (int j = 0; j < (int)r.below(4); ++j) k.push_back(g.gen(3)); m = subst1(m, r.pick(s), mvec(k)); }
  if (r.chance(0.12)) m = far_ids(m, r);
  if (r.chance(0.1)) m = odd_consts(m, r);
  desc(str(m));
  Expr e = wrap(m);
  Iface const * root = e.get();
  std::set<Iface const *> none, closed;
  Seq all; expected(root, none, all);
  double p = r.chance(0.4) ? 0 : r.real(0, 0.6);
  for (size_t i = 0; i < all.size(); ++i) if (r.chance(p)) closed.insert(all[i]);
  int start = r.below(3);   // start at the root, or at a node inside
  Iface const * from = start == 0 ? root : all[r.below(all.size())];
  Seq want; expected(from, closed, want);
  Seq got; long asked = 0;
  phase("traversal");
  from->recursive_traversal(vmath::rt_traversal_wrapper<Iface>(new Visitor(&got, &closed, &asked)));
  cnt("nodes visited", (long)got.size()); cnt("traversals"); cnt("declined nodes", (long)closed.size());
  if (got != want) {
    Seq a(got), b(want); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    viol(a == b ? "order" : (std::set<Iface const *>(a.begin(), a.end()).size() != a.size() ? "visited more than once" : a.size() < b.size() ? "nodes missed" : "nodes visited that are out of reach"), "visited " + show(got) + " instead of " + show(want));
  }
  phase("visitor with changing answers");
  { uint64_t script = r.next(); double q = r.real(0, 0.7); size_t k = 0; Seq sw, sg, nodes; scripted(from, script, q, k, sw);
    from->recursive_traversal(vmath::rt_traversal_wrapper<Iface>(new Undecided(&sg, &nodes, script, q)));
    size_t leaves = 0; for (size_t i = 0; i < nodes.size(); ++i) leaves += !composite(nodes[i]);
    if (leaves == 0 && sg != sw) viol("half a node", "a visitor whose answers depend on how often it was asked saw " + show(sg) + " instead of " + show(sw)); // (asked about leaves too: the answers are not comparable)
    if (leaves == 0) cnt("traversals with changing answers"); }
  phase("default visitor");
  Seq every; root->recursive_traversal(vmath::rt_traversal_wrapper<Iface>(new Plain(&every)));
  if (every != all) viol("order, default visitor", "visited " + show(every) + " instead of " + show(all));
  phase("type filter");
  Counts n = {0,0,0,0,0,0}, w = {0,0,0,0,0,0}; std::vector<unsigned long> ids, wids; long fired = 0;
  FV fv; fv.n = &n; fv.ids = &ids;
  root->recursive_traversal(vmath::rt_traversal_wrapper<Iface>(new Typed(fv, &fired)));
  count_model(m, w, wids);
  cnt("callbacks fired", fired);
  if (!(n == w) || ids != wids) viol("type filter", "variables/constants/symbols/binary/unary/vectors: fired " + fmt((double)n.v) + " " + fmt((double)n.c) + " " + fmt((double)n.f) + " " + fmt((double)n.b) + " " + fmt((double)n.u) + " " + fmt((double)n.x) + ", present " + fmt((double)w.v) + " " + fmt((double)w.c) + " " + fmt((double)w.f) + " " + fmt((double)w.b) + " " + fmt((double)w.u) + " " + fmt((double)w.x));
  if (fired != (long)all.size()) viol("type filter result", "the filters answered true " + fmt((double)fired) + " times for " + fmt((double)all.size()) + " nodes");
  phase("visitor gives up");
  Seq part; bool came = false;
  int at = r.below((unsigned)want.size());
  try { from->recursive_traversal(vmath::rt_traversal_wrapper<Iface>(new Visitor(&part, &closed, &asked, at))); } catch (int) { came = true; }
  if (!came || part != Seq(want.begin(), want.begin() + at)) viol("visitor exception", "an exception of the visitor after " + fmt((double)at) + " nodes was " + (came ? "seen after other nodes" : "lost"));
  phase("unchanged");
  if (!equal(read(e), m)) viol("changed", "traversal changed the expression to " + str(read(e)));
  if (live != 0) { viol("visitor lifetime", fmt((double)live) + " visitors alive"); live = 0; }
  if (m->size > 1) { nontrivial(str(m) + fmt((double)closed.size())); state(shape(m) + (closed.empty() ? "" : "*")); }
}
int main(int c, char ** v) { return drive(c, v, "P18", one); }
