// P22: vector expressions compute componentwise and multiply to inner products.
#include "vecs.hpp"
using namespace vm;
namespace vmath = viennamath;
typedef std::vector<M> MV;
static M readv(VExpr const & v) { return read(static_cast<Iface const *>(&v)); }
static std::string s(MV const & v) { return str(mvec(v)); }
static VExpr build(MV const & v) { VExpr r(v.size()); for (size_t i = 0; i < v.size(); ++i) r[i] = wrap(v[i]); return r; }
static void expect(const char * key, VExpr const & got, MV const & want) { cnt("vectors compared"); M g = readv(got); if (!equal(g, mvec(want))) viol(key, std::string(key) + " gives " + str(g) + " instead of " + s(want)); }
static MV map2(MV const & a, MV const & b, int op) { MV r; for (size_t i = 0; i < a.size(); ++i) r.push_back(mb(op, a[i], b[i])); return r; }
static MV mapr(MV const & a, M const & c, int op) { MV r; for (size_t i = 0; i < a.size(); ++i) r.push_back(mb(op, a[i], c)); return r; }
static MV mapl(M const & c, MV const & a, int op) { MV r; for (size_t i = 0; i < a.size(); ++i) r.push_back(mb(op, c, a[i])); return r; }
static void values(const char * key, M const & want, M const & got, Gen & g, Rng & r, bool & did) {
  for (int k = 0; k < 3; ++k) {
    std::vector<double> x = g.point(8);
    VEnv en; en.base = opaque_env(x, r.next()); en.salt = r.next();
    VV a = vev(want, en), b = vev(got, en);
    if (!a.ok() || !vreliable(a) || !b.ok() || !vreliable(b)) { cnt("skipped points"); continue; }
    cnt("values compared"); did = true;
    if (!vagree(a, b)) { viol(std::string("value:") + key, std::string(key) + " gives " + str(got) + " with value " + vstr(b) + ", expected " + str(want) + " with value " + vstr(a)); return; }
  }
}
template <typename T> static void scalar_ops(VExpr const & v, MV const & mv_, T const & c, M const & cm, const char * kind) {
  phase(std::string("vector with ") + kind);
  state(std::string("scalar operand ") + kind + " length " + std::to_string(mv_.size()));
  expect((std::string("vector * ") + kind).c_str(), v * c, mapr(mv_, cm, MUL));
  expect((std::string(kind) + " * vector").c_str(), c * v, mapl(cm, mv_, MUL));
  expect((std::string("vector / ") + kind).c_str(), v / c, mapr(mv_, cm, DIV));
  expect((std::string(kind) + " / vector").c_str(), c / v, mapl(cm, mv_, DIV));
}
static void one(long, Rng & r) {
  Gen g(r); g.nvars = 1 + r.below(4); g.symbols = r.chance(0.3); g.budget = 1 + r.below(7); g.transc = r.chance(0.6);
  size_t n = r.chance(0.1) ? (r.chance(0.08) ? 17 + r.below(48) : 5 + r.below(12)) : 1 + r.below(4);
  if (r.chance(0.004)) { n = 256 + r.below(r.chance(0.2) ? 800 : 60); g.budget = 0; cnt("long vectors"); }
  MV a, b; for (size_t i = 0; i < n; ++i) { a.push_back(g()); b.push_back(r.chance(0.2) ? a.back() : g()); }
  desc(s(a) + " , " + s(b));
  bool did = false;
  VExpr va = build(a), vb = build(b);
  expect("construction", va, a);
  { VExpr z(n); MV zero(n, mc(0)); expect("default construction", z, zero); if (z.size() != n) viol("size", "a vector of length " + std::to_string(n) + " has size " + std::to_string(z.size())); }
  { VExpr z(0); if (z.size() != 0) viol("size", "empty vector has entries"); VExpr y(z); std::unique_ptr<Iface> c(z.clone()); if (!z.deep_equal(&y) || !z.deep_equal(c.get())) viol("empty", "copies of an empty vector differ"); if (z.deep_equal(&va) || va.deep_equal(&z)) viol("empty", "the empty vector equals " + s(a)); }
  phase("copies");
  { VExpr c(va); expect("copy", c, a); c[0] = wrap(mv(7)); expect("source of a changed copy", va, a);
    VExpr d(1 + r.below(6)); d = va; expect("assignment", d, a); d = d; expect("self-assignment", d, a);
    d.resize(n + 2); d[n] = wrap(mc(3)); d[n + 1] = wrap(mv(1)); MV w(a); w.push_back(mc(3)); w.push_back(mv(1)); expect("growing", d, w);
    size_t keep = r.below((unsigned)n + 1); d.resize(keep); w.resize(keep); expect("shrinking", d, w); expect("source of a resized copy", va, a);
    std::unique_ptr<Iface> cl(va.clone()); if (!equal(read(cl.get()), mvec(a))) viol("clone", "clone is " + str(read(cl.get())));
    Expr ew(va); if (!equal(read(ew), mvec(a))) viol("wrap", "wrapped vector is " + str(read(ew)));
    Expr e2; e2 = va; if (!equal(read(e2), mvec(a))) viol("wrap", "assigned vector is " + str(read(e2)));
    if (r.chance(0.3)) { VExpr q(va); q.push_back(wrap(mc(1))); MV w2(a); w2.push_back(mc(1)); expect("push_back", q, w2); q.pop_back(); expect("pop_back", q, a); } }
  phase("arithmetic");
  expect("sum", va + vb, map2(a, b, ADD));
  expect("difference", va - vb, map2(a, b, SUB));
  { M p = read(va * vb); MV pr = map2(a, b, MUL); M w = pr[0]; for (size_t i = 1; i < n; ++i) w = mb(ADD, w, pr[i]); values("inner product", w, p, g, r, did); if (has_kind(p, VEC)) viol("inner product", "is " + str(p)); }
  { M c = r.chance(0.5) ? mc(g.cst()) : g();
    switch (r.below(8)) {
      case 6: { long d = r.range(-9, 9); vmath::rt_constant<long> k(d); scalar_ops(va, a, k, mc(d), "rt_constant<long>"); break; }
      case 7: { long d = r.range(-9, 9); scalar_ops(va, a, d, mc(d), "integer"); break; }
      case 0: { double d = g.cst(); scalar_ops(va, a, d, mc(d), "number"); break; }
      case 1: { double d = g.cst(); Const k(d); scalar_ops(va, a, k, mc(d), "constant"); break; }
      case 2: { Var x(r.below(5)); scalar_ops(va, a, x, mv(x.id()), "variable"); break; }
      case 3: { Expr e = wrap(c); scalar_ops(va, a, e, c, "expression"); break; }
      case 4: { M l = g.leaf(), q = mb(r.below(4), l, g.leaf()); Expr e = wrap(q); scalar_ops(va, a, *dynamic_cast<BExpr const *>(e.get()), q, "binary expression"); break; }
      default: { M q = mu(U_SIN, g.leaf()); Expr e = wrap(q); scalar_ops(va, a, *dynamic_cast<UExpr const *>(e.get()), q, "unary expression"); break; }
    } }
  phase("comparison");
  { bool eq = equal(mvec(a), mvec(b)); Expr ea(va), eb(vb); cnt("comparisons");
    if (!has_nan(mvec(a)) && !has_nan(mvec(b))) {
      if (va.deep_equal(&vb) != eq || vb.deep_equal(&va) != eq) viol("comparison", "says " + std::string(eq ? "different" : "equal"));
      MV m2(a); size_t k = r.below((unsigned)n); m2[k] = mb(ADD, m2[k], mc(1)); VExpr v2 = build(m2);
      if (va.deep_equal(&v2) || v2.deep_equal(&va)) viol("comparison", "ignores entry " + std::to_string(k));
      MV m3(a); m3.push_back(a.back()); VExpr v3 = build(m3); if (va.deep_equal(&v3) || v3.deep_equal(&va)) viol("comparison", "ignores the length");
      MV m4(a); std::reverse(m4.begin(), m4.end()); VExpr v4 = build(m4); if (va.deep_equal(&v4) != equal(mvec(a), mvec(m4))) viol("comparison", "with the reversed vector is wrong");
      VExpr v5(va); if (!va.deep_equal(&v5)) viol("comparison", "a copy differs");
      if (!ea.get()->deep_equal(&v5) || va.deep_equal(va[0].get())) viol("comparison", "wrapped vector or entry compared wrongly");
    } }
  phase("simplify");
  { Expr e(va); Expr sv = vmath::simplify(e); M m = read(sv);
    if (m->k != VEC || m->kids.size() != n) viol("simplify", "gives " + str(m));
    else for (size_t i = 0; i < n; ++i) { values("simplified entry", a[i], m->kids[i], g, r, did); Expr en = wrap(m->kids[i]); if (en.get()->can_simplify()) viol("simplify", "entry " + str(m->kids[i]) + " can still be simplified"); if (m->kids[i]->size > a[i]->size + 2) viol("simplify", "entry grew to " + str(m->kids[i])); }
    if (e.get()->can_simplify()) cnt("simplifiable vectors");
    bool some = false; for (size_t i = 0; i < n; ++i) { Expr q = wrap(a[i]); some = some || q.get()->can_simplify(); }
    if (e.get()->can_simplify() != some) viol("can_simplify", some ? "no although an entry can be simplified" : "yes although no entry can be simplified");
    expect("simplified source", va, a); }
  phase("substitute");
  { std::vector<M> st; subtrees(mvec(a), st); M t = r.pick(st), rep = r.chance(0.3) ? mb(ADD, t, mc(1)) : g(); if (has_kind(t, VEC) || has_kind(rep, VEC)) { t = a[0]; rep = mb(MUL, mc(2), a[0]); }
    Expr e(va), te = wrap(t), re = wrap(rep);
    Expr raw_s(e.get()->substitute(te.get(), re.get())); M want = subst1(mvec(a), t, rep);
    if (!equal(read(raw_s), want)) viol("substitute", "of " + str(t) + " by " + str(rep) + " gives " + str(read(raw_s)) + " instead of " + str(want));
    Expr sv = vmath::substitute(te, re, e); values("substitution", want, read(sv), g, r, did);
    std::vector<Expr> f, tt; f.push_back(te); tt.push_back(re); f.push_back(wrap(mv(0))); tt.push_back(wrap(mv(5)));
    std::vector<M> fm, tm; fm.push_back(t); tm.push_back(rep); fm.push_back(mv(0)); tm.push_back(mv(5));
    Expr s2 = vmath::substitute(f, tt, e); values("simultaneous substitution", subst(mvec(a), fm, tm), read(s2), g, r, did);
    // the whole vector as target
    Expr scal = wrap(mb(MUL, mc(2), mvec(a))); Expr s3 = vmath::substitute(e, wrap(mv(3)), scal);
    values("substitution of the whole vector", mb(MUL, mc(2), mv(3)), read(s3), g, r, did);
    expect("source of a substitution", va, a); cnt("substitutions"); }
  phase("diff");
  { MV p; for (size_t i = 0; i < n; ++i) { Gen h(r); h.nvars = g.nvars; h.fabs_ok = false; h.budget = 1 + r.below(6); p.push_back(h()); }
    VExpr vp = build(p); Expr e(vp); Var x(r.below(g.nvars)); desc(s(p) + " d/dx" + std::to_string(x.id()));
    Expr d = vmath::diff(e, x); M m = read(d);
    if (m->k != VEC || m->kids.size() != n) viol("diff", "gives " + str(m));
    else for (size_t i = 0; i < n; ++i) { Expr di = vmath::diff(wrap(p[i]), x); values("differentiated entry", read(di), m->kids[i], g, r, did); }
    expect("source of a derivative", vp, p); cnt("derivatives"); }
  phase("products inside expressions");
  { desc(s(a) + " , " + s(b));
    // scalars made of products of vectors, simplified
    M prod = mb(MUL, mvec(a), mvec(b)); M m = prod;
    for (int i = 0; i < (int)r.below(4); ++i) switch (r.below(6)) {
      case 0: m = mb(ADD, m, g.leaf()); break; case 1: m = mb(SUB, g.leaf(), m); break; case 2: m = mb(MUL, m, mc(r.below(3))); break;
      case 3: m = mu(U_SIN, m); break; case 4: m = mb(MUL, m, mb(MUL, mvec(b), mvec(b))); break; default: m = mb(ADD, mb(MUL, m, mc(1)), mb(MUL, mvec(b), mvec(a)));
    }
    Expr e = wrap(m); Expr se = vmath::simplify(e); M ms = read(se); cnt("products simplified");
    values("simplified product", m, ms, g, r, did);
    if (any(ms, [](M const & q) { return q->k == BIN && q->op == MUL && q->kids[0]->k == VEC && q->kids[1]->k == VEC; })) viol("simplified product", "still contains a product of vectors: " + str(ms));
    if (!equal(read(e), m)) viol("mutated", "simplify changed its argument");
    // 1 * vector, 0 + vector and so on inside products
    M odd = mb(MUL, mb(MUL, mc(1), mvec(a)), mb(ADD, mvec(b), mc(0))); Expr so = vmath::simplify(wrap(odd)); values("simplified product", prod, read(so), g, r, did);
  }
  if (did) { nontrivial(s(a) + s(b)); state("n" + std::to_string(n) + shape(mvec(a), 3)); }
}
int main(int c, char ** v) { return drive(c, v, "P22", one); }
