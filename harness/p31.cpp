// P31: user-defined node types and operations are citizens like the library's own.
// The model tree has user nodes as unary nodes U_LEAF (an opaque leaf which denotes a formula only it knows), U_NODE (a composite with one child
// expression), U_CUBE (a user-defined unary operation) and HYP (a user-defined binary operation); their meaning is given by den().
#include "vm.hpp"
using namespace vm;
namespace vmath = viennamath;
static long live = 0;
static M den(M const & m) {
  std::vector<M> k; for (size_t i = 0; i < m->kids.size(); ++i) k.push_back(den(m->kids[i]));
  if (m->k == BIN && m->op == HYP) return mb(ADD, mb(MUL, k[0], k[1]), k[0]);
  if (m->k == UN && m->op == U_LEAF) return k[0];
  if (m->k == UN && m->op == U_NODE) return mb(ADD, mb(MUL, k[0], k[0]), mb(MUL, mc((double)m->id), k[0]));
  if (m->k == UN && m->op == U_CUBE) return mb(MUL, mc((double)m->id), mb(MUL, mb(MUL, k[0], k[0]), k[0]));
  return k.empty() ? m : with_kids(m, k);
}
static int den_size(M const & m) { // size of den(m), capped
  if (m->size > 400) return 10000; long s = 1; std::vector<long> k; for (size_t i = 0; i < m->kids.size(); ++i) { k.push_back(den_size(m->kids[i])); s += k.back(); }
  if (m->k == UN && m->op == U_NODE) s = 3 * k[0] + 3; if (m->k == UN && m->op == U_CUBE) s = 3 * k[0] + 4; if (m->k == BIN && m->op == HYP) s = 2 * k[0] + k[1] + 2;
  return (int)std::min(s, 10000l);
}
struct UserNode : Iface {
  unsigned long id; bool hidden; Expr child;
  UserNode(unsigned long i, bool h, Expr const & c) : id(i), hidden(h), child(c) { ++live; }
  UserNode(UserNode const & o) : Iface(o), id(o.id), hidden(o.hidden), child(o.child) { ++live; }
  ~UserNode() { --live; }
  double f(double a) const { return hidden ? a : a * a + (double)id * a; }
  Iface * clone() const { return new UserNode(*this); }
  std::string deep_str() const { char b[40]; snprintf(b, sizeof b, hidden ? "<leaf%lu>" : "<node%lu ", id); return hidden ? std::string(b) : b + child.get()->deep_str() + ">"; }
  std::string shallow_str() const { return "user"; }
  double eval(std::vector<double> const & v) const { return f(child.get()->eval(v)); }
  double eval(double v) const { return f(child.get()->eval(v)); }
  bool is_constant() const { return hidden && child.get()->is_constant(); }
  double unwrap() const { return f(child.get()->unwrap()); }
  bool shallow_equal(Iface const * o) const { return dynamic_cast<UserNode const *>(o) != NULL; }
  bool deep_equal(Iface const * o) const { UserNode const * u = dynamic_cast<UserNode const *>(o); return u && u->id == id && u->hidden == hidden && child.get()->deep_equal(u->child.get()); }
  Iface * recursive_manipulation(vmath::rt_manipulation_wrapper<Iface> const & fw) const {
    if (hidden || fw.modifies(this)) return fw(this);
    return new UserNode(id, hidden, Expr(child.get()->recursive_manipulation(fw)));
  }
  void recursive_traversal(vmath::rt_traversal_wrapper<Iface> const & fw) const {
    fw(this); if (!hidden && fw.step_into(this)) child.get()->recursive_traversal(fw);
  }
  Iface * substitute(Iface const * e, Iface const * repl) const { if (deep_equal(e)) return repl->clone(); return new UserNode(id, hidden, Expr(child.get()->substitute(e, repl))); }
  Iface * substitute(std::vector<Iface const *> const & e, std::vector<Iface const *> const & repl) const { for (size_t i = 0; i < e.size(); ++i) if (deep_equal(e[i])) return repl[i]->clone(); return new UserNode(id, hidden, Expr(child.get()->substitute(e, repl))); }
  bool can_simplify() const { return !hidden && child.get()->can_simplify(); }
  Iface * simplify() const { return hidden ? clone() : new UserNode(id, hidden, Expr(child.get()->simplify())); }
  Iface * diff(Iface const * v) const {
    Expr d(child.get()->diff(v));
    if (hidden) return id & 1 ? new UserNode(id + 10, true, d) : d.get()->clone();
    return ((Expr(2.0) * child + Expr((double)id)) * d).clone();
  }
};
struct Cube : vmath::op_interface<Iface> { // all of them have the same name
  unsigned long id; explicit Cube(unsigned long i) : id(i) {}
  OpI * clone() const { return new Cube(id); }
  std::string str() const { return "cube"; }
  double apply(double v) const { return (double)id * (v * v * v); }
  double apply(double a, double b) const { return OpI::apply(a, b); }
  Iface * diff(Iface const * e, Iface const * v) const { Expr a(e->clone()), d(e->diff(v)); return (Expr(3.0 * (double)id) * a * a * d).clone(); }
  Iface * diff(Iface const * a, Iface const * b, Iface const * v) const { return OpI::diff(a, b, v); }
  Iface * simplify(Iface const * a, Iface const * b) const { return new BExpr(a->clone(), clone(), b->clone()); }
  bool can_simplify() const { return true; }
  bool can_simplify(Iface const *, Iface const *) const { return false; }
  bool equal(OpI const * o) const { Cube const * c = dynamic_cast<Cube const *>(o); return c && c->id == id; }
};
struct Hyp : vmath::op_interface<Iface> { // a ~ b = a * b + a
  OpI * clone() const { return new Hyp(); }
  std::string str() const { return "~"; }
  double apply(double v) const { return OpI::apply(v); }
  double apply(double a, double b) const { return a * b + a; }
  bool is_unary() const { return false; }
  Iface * diff(Iface const * a, Iface const * v) const { return OpI::diff(a, v); }
  Iface * diff(Iface const * a, Iface const * b, Iface const * v) const { Expr p(a->clone()), q(b->clone()), dp(a->diff(v)), dq(b->diff(v)); return (dp * q + p * dq + dp).clone(); }
  Iface * simplify(Iface const * a, Iface const * b) const { return new BExpr(a->simplify(), clone(), b->simplify()); }
  bool can_simplify() const { return false; }
  bool can_simplify(Iface const * a, Iface const * b) const { return a->can_simplify() || b->can_simplify(); }
  bool equal(OpI const * o) const { return dynamic_cast<Hyp const *>(o) != NULL; }
};
static Iface * user_raw(M const & m) { return new UserNode(m->id, m->op == U_LEAF, wrap(m->kids[0])); }
static M user_read(Iface const * e) { UserNode const * u = dynamic_cast<UserNode const *>(e); return u ? mu(u->hidden ? U_LEAF : U_NODE, read(u->child), u->id) : M(); }
static OpI * user_op(int op, unsigned long id) { return op == HYP ? (OpI *)new Hyp() : (OpI *)new Cube(id); }
static bool user_is(OpI const * op, int k, unsigned long & id) { if (k == HYP) return is_op<Hyp>(op); Cube const * c = dynamic_cast<Cube const *>(op); if (c) id = c->id; return c != NULL; }
static bool is_user(M const & m) { return (m->k == UN && m->op >= U_LEAF) || (m->k == BIN && m->op == HYP); }
static bool is_unode(M const & m) { return m->k == UN && (m->op == U_LEAF || m->op == U_NODE); }
static long users(M const & m) { long n = 0; walk(m, [&](M const & q) { n += is_user(q); }); return n; }

struct Maker {
  Rng & r; Gen g; bool ops;
  explicit Maker(Rng & rr, bool o) : r(rr), g(rr), ops(o) { g.fabs_ok = false; g.nvars = 3; }
  M leaf() { // opaque: a polynomial, a function, or a named constant
    unsigned long id = 1 + r.below(4);
    switch (r.below(4)) { case 0: return mu(U_LEAF, mc(r.chance(0.3) ? (double)r.range(-1, 2) : r.real(0.3, 3.5)), id); case 1: return mu(U_LEAF, g.poly(), id); case 2: return mu(U_LEAF, mu(r.chance(0.5) ? U_SIN : U_EXP, mb(MUL, mc(0.5), g.leafv())), id); default: return mu(U_LEAF, mv(r.below(3)), id); }
  }
  M user(int depth = 0) {
    switch (r.below(ops ? 6 : 4)) {
      case 0: case 1: return leaf();
      case 2: return mu(U_NODE, g.gen(1 + r.below(4)), r.below(4));
      case 3: return mu(U_NODE, depth < 2 ? user(depth + 1) : leaf(), r.below(4));
      case 4: return mu(U_CUBE, depth < 2 && r.chance(0.5) ? user(depth + 1) : g.gen(1 + r.below(4)), 1 + r.below(3));
      default: return mb(HYP, depth < 2 && r.chance(0.5) ? user(depth + 1) : g.gen(3), r.chance(0.5) ? leaf() : g.gen(3));
    }
  }
  M tree(int b) { // user nodes anywhere
    for (int tries = 0; ; ++tries) {
      g.budget = b; M m = g(); int n = 1 + r.below(4);
      for (int i = 0; i < n; ++i) { std::vector<M> s, q; subtrees(m, s); for (size_t j = 0; j < s.size(); ++j) if (s[j]->kids.empty() || r.chance(0.1)) q.push_back(s[j]); if (q.size()) m = replace_one(m, r.pick(q)); }
      if (den_size(m) < 300 || tries > 20) return m;
    }
  }
  M replace_one(M const & m, M const & t) { // the node t itself (not its equals)
    if (m == t) return user();
    if (m->kids.empty() || m->k == VEC) return m;
    std::vector<M> k(m->kids); size_t n = m->k == UN ? 1 : k.size(); for (size_t i = 0; i < n; ++i) k[i] = replace_one(k[i], t); return with_kids(m, k);
  }
};
static std::string sort_join(std::vector<std::string> v) { std::sort(v.begin(), v.end()); std::string s; for (size_t i = 0; i < v.size(); ++i) s += v[i] + "; "; return s; }
struct Log : vmath::rt_traversal_interface<Iface> { std::vector<std::string> * l; explicit Log(std::vector<std::string> * p) : l(p) {} void operator()(Iface const * e) const { l->push_back(str(read(e))); } };
static void visited(M const & m, std::vector<std::string> & l) { l.push_back(str(m)); if (m->k == VEC || (m->k == UN && m->op == U_LEAF)) return; size_t n = m->k == UN ? 1 : m->kids.size(); for (size_t i = 0; i < n; ++i) visited(m->kids[i], l); }
struct Rewrite : vmath::rt_manipulation_interface<Iface> {
  unsigned long id; M to; Rewrite(unsigned long i, M const & t) : id(i), to(t) {}
  bool hit(Iface const * e) const { UserNode const * u = dynamic_cast<UserNode const *>(e); return u && u->id == id; }
  Iface * operator()(Iface const * e) const { return hit(e) ? raw(to) : e->clone(); }
  bool modifies(Iface const * e) const { return hit(e); }
};
static M rewritten(M const & m, unsigned long id, M const & to) {
  if (is_unode(m) && m->id == id) return to;
  if (m->kids.empty() || m->k == VEC || (m->k == UN && m->op == U_LEAF)) return m;
  std::vector<M> k(m->kids); size_t n = m->k == UN ? 1 : k.size(); for (size_t i = 0; i < n; ++i) k[i] = rewritten(k[i], id, to); return with_kids(m, k);
}
struct Tex : vmath::rt_latex_processor_interface<Iface> {
  vmath::rt_latex_processor_interface<Iface> * clone() const { return new Tex(); }
  static std::string text(UserNode const & u, std::string const & inner) { char b[60]; snprintf(b, sizeof b, "\\user%s_{%lu}{", u.hidden ? "leaf" : "node", u.id); return b + inner + "}"; }
  std::string process(Iface const * e, bool, vmath::latex_translator const & t) const { UserNode const * u = dynamic_cast<UserNode const *>(e); return u ? text(*u, t(u->child)) : ""; }
};
// the same tree with variables in place of the user nodes, and their texts
static M named(M const & m, vmath::latex_translator & tr, unsigned long & next) {
  if (is_unode(m)) { M in = named(m->kids[0], tr, next); UserNode u(m->id, m->op == U_LEAF, Expr(0.0)); std::string t = Tex::text(u, tr(wrap(in))); unsigned long v = next++; tr.customize(Var(v), t); return mv(v); }
  if (m->kids.empty()) return m;
  std::vector<M> k(m->kids); size_t n = m->k == UN ? 1 : k.size(); for (size_t i = 0; i < n; ++i) k[i] = named(k[i], tr, next); return with_kids(m, k);
}
static M printed(M const & m, std::vector<std::pair<std::string, std::string> > & t, unsigned long & next) {
  if (is_unode(m)) { Expr u = wrap(m); unsigned long v = next++; t.push_back(std::make_pair(Var(v).deep_str(), u.get()->deep_str())); return mv(v); }
  if (m->kids.empty()) return m;
  std::vector<M> k(m->kids); size_t n = m->k == UN ? 1 : k.size(); for (size_t i = 0; i < n; ++i) k[i] = printed(k[i], t, next); return with_kids(m, k);
}
static E value(M const & m, std::vector<double> const & x) { return ev(den(m), opaque_env(x, 12345)); }
static void same_value(const char * what, M const & got, M const & want, Maker & k, LD tol = 64) {
  if (den_size(got) > 4000) { cnt("results too large to be evaluated"); return; }
  for (int i = 0; i < 4; ++i) {
    std::vector<double> x = k.g.point(3); E w = value(want, x); if (!reliable(w)) { cnt("skipped points"); continue; }
    E v = value(got, x); if (!v.ok) { viol(std::string("value: ") + what, str(got) + " cannot be evaluated at " + fmt(x) + " where " + str(want) + " is " + fmt((double)w.v)); return; }
    if (v.e > 1e-5L * (1 + fabsl(v.v))) { cnt("skipped points"); continue; }
    cnt(std::string("values compared after ") + what);
    if (!agree2(v, w, tol)) { viol(std::string("value: ") + what, str(got) + " is " + fmt((double)v.v) + " at " + fmt(x) + " instead of " + fmt((double)w.v)); return; }
  }
}
static void structure(const char * what, M const & got, M const & want) { cnt("trees compared"); if (!equal(got, want)) viol(std::string("tree: ") + what, "gives " + str(got) + " instead of " + str(want)); }

static void one(long, Rng & r) {
  long before = live;
  {
  Maker k(r, r.chance(0.6)); M m = k.tree(2 + r.below(14)), n = k.tree(1 + r.below(6));
  desc(str(m)); phase("construction");
  Expr e = wrap(m), f = wrap(n);
  structure("construction", read(e), m);
  { Expr c(e), d; d = e; structure("copy", read(c), m); structure("assignment", read(d), m); Expr q(e.get()->clone()); structure("clone", read(q), m); d = f; structure("assignment", read(d), n); }
  { std::vector<M> s; subtrees(m, s); Expr target(1.0), node(raw(r.pick(s))); M w = read(node); target = node.get()->clone(); structure("assignment of a node", read(target), w); }
  phase("arithmetic");
  structure("sum", read(Expr(e + f)), mb(ADD, m, n)); structure("difference", read(Expr(e - f)), mb(SUB, m, n)); structure("product", read(Expr(f * e)), mb(MUL, n, m)); structure("quotient", read(Expr(f / e)), mb(DIV, n, m));
  { Var x(1); structure("product with a variable", read(Expr(x * e)), mb(MUL, mv(1), m)); structure("sum with a number", read(Expr(e + Expr(2.5))), mb(ADD, m, mc(2.5))); }
  structure("exp", read(Expr(vmath::exp(e))), mu(U_EXP, m)); structure("sqrt", read(Expr(vmath::sqrt(f))), mu(U_SQRT, n));
  { BExpr b(raw(m), new_bop(MUL), raw(n)), b2(b), b3(raw(n), new_bop(ADD), raw(n)); b3 = b2; structure("binary copies", read(&b3), mb(MUL, m, n)); UExpr u(raw(m), new OpSin()), u2(raw(n)); u2 = u; structure("unary copies", read(&u2), mu(U_SIN, m)); Expr z; z = b3; structure("expr=binary", read(z), mb(MUL, m, n)); }
  { vmath::equation q = vmath::make_equation(e, f); vmath::equation q2(q); structure("equation", read(q2.lhs()), m); structure("equation", read(q2.rhs()), n); Ival iv(e, f), iv2(f, f); iv2 = iv; structure("interval", read(iv2.lower()), m); structure("interval", read(iv2.upper()), n); }
  { VExpr v(2); v[0] = e; v[1] = f; VExpr w(v + v); structure("vector sum", read(w[0]), mb(ADD, m, m)); Expr x(v); structure("vector", read(x), mvec(std::vector<M>{ m, n })); Expr dot = v * v; structure("dot product", read(dot), mb(ADD, mb(MUL, m, m), mb(MUL, n, n))); }
  phase("evaluation");
  for (int i = 0; i < 5; ++i) {
    std::vector<double> x = k.g.point(3); E w = ev(den(m), plain_env(x));
    if (!reliable(w)) { cnt("skipped points"); continue; }
    double a = e(x), b = vmath::eval(e, x), c = e.get()->eval(x); cnt("evaluations", 3);
    if (!agree(a, w) || !ceq(a, b) || !ceq(a, c)) { viol("evaluation", "at " + fmt(x) + " is " + fmt(a) + "/" + fmt(b) + "/" + fmt(c) + " instead of " + fmt((double)w.v)); break; }
  }
  if (max_var(den(m)) <= 1) { double x = k.g.point(1)[0]; E w = ev(den(m), plain_env(std::vector<double>(1, x))); if (reliable(w)) { cnt("evaluations"); if (!agree(e(x), w)) viol("scalar evaluation", "at " + fmt(x) + " is " + fmt(e(x)) + " instead of " + fmt((double)w.v)); } }
  phase("comparison");
  for (int i = 0; i < 4; ++i) {
    M t; switch (r.below(5)) { case 0: t = m; break; case 1: { std::vector<M> s; subtrees(m, s); t = r.pick(s); } break;
      case 2: { std::vector<M> s, q; subtrees(m, s); for (size_t j = 0; j < s.size(); ++j) if (s[j]->k == UN && s[j]->op >= U_LEAF) q.push_back(s[j]); if (q.empty()) { t = n; break; } M a = r.pick(q); t = subst1(m, a, a->op != U_CUBE && r.chance(0.5) ? mu(a->op == U_LEAF ? U_NODE : U_LEAF, a->kids[0], a->id) : mu(a->op, a->kids[0], a->id + 1)); } break;
      case 3: t = den(m); break; default: t = n; }
    if (has_nan(t) || has_nan(m)) continue;
    Expr z = wrap(t); bool want = equal(m, t), a = e.get()->deep_equal(z.get()), b = z.get()->deep_equal(e.get()); cnt(want ? "equal pairs" : "different pairs");
    if (a != want || b != want) viol("comparison", std::string("with ") + str(t) + " is " + (a ? "equal" : "different") + (a != b ? " (not symmetric)" : ""));
  }
  phase("substitution");
  { unsigned v = r.below(3); M w = subst1(m, mv(v), n); if (den_size(w) < 3000) { Var x(v); Expr z(e.get()->substitute(&x, f.get())); structure("substitution of a variable", read(z), w); same_value("substitute", read(vmath::substitute(x, f, e)), w, k); } }
  { std::vector<M> s, q; subtrees(m, s); for (size_t j = 0; j < s.size(); ++j) if (is_user(s[j])) q.push_back(s[j]); if (q.size() && !has_nan(m)) { M what = r.pick(q); M w = subst1(m, what, n); Expr a = wrap(what); Expr z(e.get()->substitute(a.get(), f.get())); structure("substitution of a user node", read(z), w); cnt("user nodes replaced");
      std::vector<M> from, to; from.push_back(what); to.push_back(mv(2)); from.push_back(mv(1)); to.push_back(n); from.push_back(mv(0)); to.push_back(what); M w2 = subst(m, from, to); if (den_size(w2) < 3000) { std::vector<Expr> ke; std::vector<Iface const *> pf, pt; for (size_t j = 0; j < 3; ++j) { ke.push_back(wrap(from[j])); ke.push_back(wrap(to[j])); } for (size_t j = 0; j < 3; ++j) { pf.push_back(ke[2 * j].get()); pt.push_back(ke[2 * j + 1].get()); } Expr z2(e.get()->substitute(pf, pt)); structure("list substitution", read(z2), w2); } } }
  phase("simplification");
  { Expr s = vmath::simplify(e); M ms = read(s); same_value("simplify", ms, m, k); if (s.get()->can_simplify()) viol("simplification", str(ms) + " can still be simplified"); Expr once(e.get()->simplify()); same_value("one simplification", read(once), m, k);
    M d = mb(ADD, mb(MUL, m, mc(1)), mb(MUL, mc(0), n)); Expr t = vmath::simplify(wrap(d)); same_value("neutral elements", read(t), d, k); if (t.get()->can_simplify()) viol("simplification", str(read(t)) + " can still be simplified");
    Expr c(e); vmath::inplace_simplify(c); structure("inplace_simplify", read(c), ms); }
  phase("differentiation");
  if (den_size(m) < 150) { unsigned v = r.below(3); Var x(v); Expr d = vmath::diff(e, x); M md = read(d), raw_md; { Expr rd(e.get()->diff(&x)); raw_md = read(rd); }
    for (int i = 0; i < 4; ++i) {
      std::vector<double> p = k.g.point(3); Env<D> en; for (size_t j = 0; j < 3; ++j) en.x.push_back(D(E((LD)p[j]), E(j == v ? 1.0L : 0.0L))); D w = ev(den(m), en);
      if (!w.v.ok || !reliable(w.d) || den_size(md) > 4000 || den_size(raw_md) > 4000) { cnt("skipped points"); continue; }
      E a = ev(den(md), plain_env(p)), b = ev(den(raw_md), plain_env(p)); if (!reliable(a) || !reliable(b)) { cnt("skipped points"); continue; }
      cnt("derivatives compared"); if (!agree2(a, w.d, 64) || !agree2(b, w.d, 64)) { viol("derivative", "by x" + std::to_string(v) + " is " + fmt((double)a.v) + "/" + fmt((double)b.v) + " at " + fmt(p) + " instead of " + fmt((double)w.d.v)); break; } } }
  phase("traversal");
  { std::vector<std::string> got, want; visited(m, want); e.get()->recursive_traversal(vmath::rt_traversal_wrapper<Iface>(new Log(&got))); cnt("nodes visited", (long)got.size()); if (sort_join(got) != sort_join(want)) viol("traversal", "visits " + sort_join(got) + " instead of " + sort_join(want)); }
  phase("manipulation");
  { unsigned long id = r.below(5); M to = k.tree(3); Expr z(e.get()->recursive_manipulation(vmath::rt_manipulation_wrapper<Iface>(new Rewrite(id, to)))); structure("manipulation", read(z), rewritten(m, id, to)); Expr c(e.get()->recursive_manipulation(vmath::rt_manipulation_wrapper<Iface>(new vmath::rt_manipulation_interface<Iface>()))); structure("default manipulation", read(c), m); }
  phase("printing");
  { std::vector<std::pair<std::string, std::string> > t; unsigned long next = 98765000; M p = printed(m, t, next); Expr pe = wrap(p); std::string w = pe.get()->deep_str(), g = e.get()->deep_str();
    for (size_t i = 0; i < t.size(); ++i) { size_t at = w.find(t[i].first); while (at != std::string::npos) { w.replace(at, t[i].first.size(), t[i].second); at = w.find(t[i].first, at + t[i].second.size()); } }
    cnt("texts compared"); if (g != w) viol("printed text", g + " instead of " + w); }
  phase("LaTeX");
  if (!any(m, [](M const & q) { return (q->k == UN && q->op == U_CUBE); })) { vmath::latex_translator tr, base; base.add_processor(new Tex()); vmath::latex_translator user; user = base; unsigned long next = 4000; M p = named(m, tr, next); std::string w = tr(wrap(p)), g = user(e); cnt("texts compared"); if (g != w) viol("LaTeX text", g + " instead of " + w); }
  phase("quadrature");
  if (den_size(m) < 200) {
    M lo = r.chance(0.3) ? mu(U_LEAF, mc(r.real(-1, 1)), 2) : mc(r.range(-1, 1)), hi = r.chance(0.3) ? mu(U_LEAF, mc(r.real(1.5, 3)), 3) : mc(r.real(1.5, 3)); double y = r.real(0.2, 2), z = r.real(0.2, 2);
    M in = subst1(subst1(m, mv(1), mc(y)), mv(2), mc(z)); double a = den(lo)->c, b = den(hi)->c; std::vector<double> mid(1, (a + b) / 2.0); E w = ev(den(in), plain_env(mid)) * E((LD)b - (LD)a);
    if (reliable(w)) { vmath::numerical_quadrature q(new vmath::gauss_quad_1()); double g = q(wrap(mint(in, lo, hi, 0))); double g2 = q(Ival(wrap(lo), wrap(hi)), wrap(in), Var(0)); cnt("integrals", 2); if (!agree(g, w, 64) || !agree(g2, w, 64)) viol("quadrature", "of " + str(in) + " over [" + str(lo) + "," + str(hi) + "] is " + fmt(g) + "/" + fmt(g2) + " instead of " + fmt((double)w.v)); } }
  phase("domains");
  { M d = mb(r.below(3), mu(U_SYM, m, 1), mb(MUL, mu(U_SYM, n, 2), m)); Expr z = vmath::substitute(SIval(1), std::make_pair(Ival(f, e), Var(2)), wrap(d)); structure("domain", read(z), mb(d->op, mint(m, n, m, 2), d->kids[1])); }
  phase("coordinate systems");
  { M u = mf(0, TAG_UNKNOWN()), v = mf(0, TAG_TEST()); int dim = 1 + r.below(3); M d = mb(MUL, m, mb(MUL, mu(U_GRAD, u), mu(U_GRAD, v))), w = mb(MUL, mu(U_PD, u, 0), mu(U_PD, v, 0)); for (int i = 1; i < dim; ++i) w = mb(ADD, w, mb(MUL, mu(U_PD, u, i), mu(U_PD, v, i)));
    if (r.chance(0.3)) { d = mb(ADD, d, mu(U_SYM, n, 1)); w = mb(ADD, mb(MUL, m, w), mu(U_SYM, n, 1)); } else w = mb(MUL, m, w);
    Expr src = wrap(d), z = dim == 1 ? vmath::apply_coordinate_system(vmath::cartesian<1>(), src) : dim == 2 ? vmath::apply_coordinate_system(vmath::cartesian<2>(), src) : vmath::apply_coordinate_system(vmath::cartesian<3>(), src); same_value("coordinate system", read(z), w, k); }
  phase("sources"); structure("source after all operations", read(e), m); structure("source after all operations", read(f), n);
  nontrivial(str(m)); state(shape(m)); cnt("user nodes in sources", users(m) + users(n));
  phase("destruction");
  }
  if (live != before) { viol("lifetime", std::to_string(live - before) + " user nodes more alive than before"); live = before; }
}
int main(int c, char ** v) { hooks().raw = user_raw; hooks().read = user_read; hooks().op = user_op; hooks().is = user_is; return drive(c, v, "P31", one); }
