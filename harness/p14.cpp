// P14: numerical quadrature hands the right integrand, interval and variable to the rule and combines the results.
#include "vm.hpp"
using namespace vm;
namespace vmath = viennamath;
struct Call { M lo, hi, f; unsigned long var; double ret; };
static std::vector<Call> & calls() { static std::vector<Call> * c = new std::vector<Call>; return *c; }
static long live = 0, clones = 0;
// a rule that records what it is asked and answers with a number that identifies the request
struct Recorder : public vmath::numerical_quadrature_interface<Iface> {
  int tag;
  explicit Recorder(int t) : tag(t) { ++live; }
  ~Recorder() { --live; tag = -1; }
  vmath::numerical_quadrature_interface<Iface> * clone() const { ++clones; return new Recorder(tag); }
  double eval(Ival const & iv, Expr const & e, Var const & v) const {
    Call c; c.lo = read(iv.lower()); c.hi = read(iv.upper()); c.f = read(e); c.var = v.id();
    c.ret = (double)((hash_str(str(c.lo) + ".." + str(c.hi) + ":" + str(c.f)) ^ (c.var * 977 + tag)) % 4096) - 2048;
    calls().push_back(c);
    return c.ret;
  }
};
static double answer(int tag, M const & lo, M const & hi, M const & f, unsigned long var) { return (double)((hash_str(str(lo) + ".." + str(hi) + ":" + str(f)) ^ (var * 977 + tag)) % 4096) - 2048; }

struct Want { double val; std::vector<Call> calls; };
// what evaluating the combination m has to do
static double expect(M const & m, int tag, std::vector<Call> & log) {
  if (m->k == UN) { Call c; c.f = m->kids[0]; c.lo = m->kids[1]; c.hi = m->kids[2]; c.var = m->id; c.ret = answer(tag, c.lo, c.hi, c.f, c.var); log.push_back(c); return c.ret; }
  if (m->k == CONST) return 0;
  double a = expect(m->kids[0], tag, log), b = expect(m->kids[1], tag, log);
  return m->op == ADD ? a + b : a - b;
}
static bool same_call(Call const & a, Call const & b) { return equal(a.lo, b.lo) && equal(a.hi, b.hi) && equal(a.f, b.f) && a.var == b.var; }
static std::string show(Call const & c) { return "[" + str(c.lo) + ", " + str(c.hi) + "] x" + fmt((double)c.var) + ": " + str(c.f); }
template <typename F> static std::string outcome(F f) {
  Quiet q;
  try { double d = f(); return "value " + fmt(d); }
  catch (std::exception const & x) { return std::string(x.what()) == "" ? "empty message" : "throws"; }
  catch (const char *) { return "throws"; }
}
static M bound(Rng & r, Gen & g) {
  double c = r.chance(0.5) ? (double)r.range(-5, 6) : r.real(-4, 4);
  if (r.chance(0.15)) return mb(r.below(3), mc(c), mc(r.range(1, 3)));
  return mc(c);
  (void)g;
}
static M one_integral(Rng & r, Gen & g, unsigned long v) { M lo = bound(r, g), hi = bound(r, g); M f = g.gen(1 + r.below(9)); if (v != 0) f = subst1(f, mv(0), mv(v)); return mint(f, lo, hi, v); }
static double bval(M const & m) { E e = ev(m, plain_env(std::vector<double>())); return (double)e.v; }
static E midpoint(M const & m) { // one point Gauss rule: length times value at the midpoint
  E lo = ev(m->kids[1], plain_env(std::vector<double>())), hi = ev(m->kids[2], plain_env(std::vector<double>()));
  std::vector<double> none;
  bool far = m->id > 1000; unsigned long id = far ? 1 : m->id;    // integrands have no other variable (a variable 1 would be one)
  Env<E> en; en.x.resize(id + 1, E(0, 0, false)); en.x[id] = (lo + hi) / E(2.0L);
  return ev(far ? subst1(m->kids[0], mv(m->id), mv(1)) : m->kids[0], en) * (hi - lo);
}
static E reference(M const & m) { if (m->k == UN) return midpoint(m); if (m->k == CONST) return E(0.0L); E a = reference(m->kids[0]), b = reference(m->kids[1]); return m->op == ADD ? a + b : a - b; }

static void one(long i, Rng & r) {
  Gen g(r); g.nvars = 1; g.special_consts = r.chance(0.5);
  if (r.chance(0.1)) g.nvars = 0;
  unsigned long v = r.chance(0.5) ? 0 : r.below(9) + (r.chance(0.1) ? r.pick(std::vector<unsigned long>{ 256, 65536 }) : 0);
  // ---- combination of integrals
  int n = 1 + r.below(r.chance(0.2) ? (r.chance(0.1) ? 60 : 12) : 4);
  std::function<M(int)> comb = [&](int k) -> M {
    if (k <= 1) return r.chance(0.1) ? mc(0) : one_integral(r, g, r.chance(0.7) ? v : (unsigned long)r.below(5));
    int l = 1 + r.below(k - 1); M a = comb(l), b = comb(k - l); return mb(r.chance(0.5) ? ADD : SUB, a, b);
  };
  M m = comb(n);
  desc(str(m));
  Expr e = wrap(m);
  int tag = r.below(50);
  phase("combination, recording rule");
  {
    vmath::numerical_quadrature q(new Recorder(tag)), viacopy(q), viaassign;
    viaassign = viacopy; { vmath::numerical_quadrature & s = viaassign; viaassign = s; }
    std::vector<vmath::numerical_quadrature> stored; if (r.chance(0.3)) { vmath::numerical_quadrature tmp(new Recorder(tag)); viaassign = tmp; }
    vmath::numerical_quadrature other(new Recorder(tag + 77)); other = q; viacopy = other;
    vmath::numerical_quadrature const * qs[] = { &q, &viacopy, &viaassign, &other };
    for (int k = 0; k < 4; ++k) {
      calls().clear();
      double got = (*qs[k])(e);
      std::vector<Call> want; double w = expect(m, tag, want);
      cnt("rule invocations observed", (long)calls().size());
      std::vector<Call> seen = calls();
      bool ok = seen.size() == want.size();
      if (ok) { std::vector<bool> used(want.size(), false); for (size_t a = 0; a < seen.size() && ok; ++a) { bool f = false; for (size_t b = 0; b < want.size(); ++b) if (!used[b] && same_call(seen[a], want[b])) { used[b] = f = true; break; } ok = f; } }
      if (!ok) { std::string s, t; for (size_t a = 0; a < seen.size(); ++a) s += show(seen[a]) + "; "; for (size_t a = 0; a < want.size(); ++a) t += show(want[a]) + "; "; viol("rule invocations", "the rule was asked for {" + s + "} instead of {" + t + "}"); return; }
      if (!(got == w)) { viol("combination", "integrals combined to " + fmt(got) + " instead of " + fmt(w)); return; }
    }
    // interval, integrand and variable given separately
    M c = one_integral(r, g, v);
    Expr f = wrap(c->kids[0]); Ival iv(wrap(c->kids[1]), wrap(c->kids[2]));
    calls().clear();
    double d1 = q(iv, f, Var(v)), d2 = q(vmath::integral(iv, f, Var(v)));
    double w = answer(tag, c->kids[1], c->kids[2], c->kids[0], v);
    if (!(d1 == w) || !(d2 == w)) viol("separate arguments", "separate arguments give " + fmt(d1) + ", the integral expression " + fmt(d2) + ", expected " + fmt(w) + " for " + str(c));
    if (v == 3) { double d3 = q(iv, f, vmath::ct_variable<3>()), d4 = q(vmath::integral(iv, f, vmath::ct_variable<3>())); if (!(d3 == w) || !(d4 == w)) viol("compiletime variable", "compiletime variable: " + fmt(d3) + ", " + fmt(d4) + " instead of " + fmt(w)); cnt("compiletime integration variables"); }
    if (v == 0) { double d3 = q(iv, f, vmath::ct_variable<0>()), d4 = q(vmath::integral(iv, f, vmath::ct_variable<0>())); if (!(d3 == w) || !(d4 == w)) viol("compiletime variable", "compiletime variable: " + fmt(d3) + ", " + fmt(d4) + " instead of " + fmt(w)); cnt("compiletime integration variables");
      if (BExpr const * be = dynamic_cast<BExpr const *>(f.get())) { double d5 = q(vmath::integral(iv, *be, vmath::ct_variable<0>())); if (!(d5 == w)) viol("integral of a binary expression", fmt(d5) + " instead of " + fmt(w)); } }
    if (!equal(read(f), c->kids[0]) || !equal(read(iv.lower()), c->kids[1]) || !equal(read(iv.upper()), c->kids[2])) viol("arguments changed", "integrand or interval changed: " + str(read(f)));
  }
  if (live != 0) { viol("rule lifetime", fmt((double)live) + " quadrature rules alive after the quadrature objects are gone"); live = 0; }
  // ---- Gauss rule
  phase("Gauss rule");
  vmath::numerical_quadrature gq(new vmath::gauss_quad_1());
  bool compared = false;
  {
    vmath::numerical_quadrature copy(gq), assigned; assigned = gq;
    std::vector<vmath::numerical_quadrature> few(2); few[1] = copy;
    E want = reference(m);
    if (reliable(want)) {
      double a = gq(e), b = copy(e), c = assigned(e), d = few[1](e);
      compared = true; cnt("Gauss values compared");
      if (!agree(a, want, 32)) viol("Gauss value", fmt(a) + " instead of " + fmt((double)want.v));
      if (!(a == b && a == c && a == d)) viol("Gauss copies", "copies of the quadrature give " + fmt(b) + ", " + fmt(c) + ", " + fmt(d) + ", the original " + fmt(a));
    }
    M c = one_integral(r, g, v);
    E wc = midpoint(c);
    desc(str(c));
    if (reliable(wc)) {
      Expr f = wrap(c->kids[0]); Ival iv(wrap(c->kids[1]), wrap(c->kids[2])), rev(wrap(c->kids[2]), wrap(c->kids[1]));
      double a = gq(vmath::integral(iv, f, Var(v))), b = gq(iv, f, Var(v)), s = gq(rev, f, Var(v));
      cnt("Gauss values compared", 3);
      if (!agree(a, wc, 32)) viol("Gauss value", fmt(a) + " instead of " + fmt((double)wc.v));
      if (!agree(b, wc, 32)) viol("Gauss value, separate arguments", fmt(b) + " instead of " + fmt((double)wc.v));
      if (!agree(-s, wc, 32)) viol("Gauss orientation", "reversed interval gives " + fmt(s) + " for " + fmt((double)wc.v));
      if (!equal(read(f), c->kids[0])) viol("arguments changed", "integrand changed to " + str(read(f)));
    }
    // affine integrands are integrated exactly
    double p = r.real(-3, 3), q0 = r.real(-3, 3), lo = r.real(-4, 4), hi = r.real(-4, 4);
    M aff = r.chance(0.5) ? mb(ADD, mb(MUL, mc(p), mv(v)), mc(q0)) : mb(SUB, mc(q0), mb(MUL, mv(v), mc(-p)));
    double got = gq(Ival(lo, hi), wrap(aff), Var(v));
    double ex = p / 2 * (hi * hi - lo * lo) + q0 * (hi - lo);
    if (!(std::fabs(got - ex) <= 1e-12 * (1 + std::fabs(p) * (hi * hi + lo * lo) + std::fabs(q0) * (std::fabs(hi) + std::fabs(lo))))) viol("affine integrand", "integral of " + str(aff) + " over [" + fmt(lo) + ", " + fmt(hi) + "] gives " + fmt(got) + " instead of " + fmt(ex));
    cnt("affine integrands");
  }
  if (!equal(read(e), m)) viol("arguments changed", "the integral expression changed to " + str(read(e)));
  // ---- rejections
  phase("rejections");
  {
    M I = one_integral(r, g, v), J = one_integral(r, g, v);
    M bad;
    std::string kind;
    switch (r.below(12)) {
      case 0: bad = mc(r.range(1, 9)); kind = "nonzero number"; break;
      case 1: bad = mv(v); kind = "variable"; break;
      case 2: bad = mb(ADD, I, mv(v)); kind = "integral plus variable"; break;
      case 3: bad = mb(SUB, mc(2), I); kind = "number minus integral"; break;
      case 4: bad = mb(MUL, I, J); kind = "product of integrals"; break;
      case 5: bad = mb(DIV, I, mc(2)); kind = "integral over a number"; break;
      case 6: bad = mb(r.below(2), I, mb(MUL, mc(r.range(2, 4)), J)); kind = "scaled integral in a sum"; break;
      case 7: bad = mu(r.below(9), I); kind = "function of an integral"; break;
      case 8: bad = mu(U_SYM, I->kids[0], r.below(3)); kind = "symbolic integral"; break;
      case 9: bad = mb(ADD, I, mu(U_SYM, J->kids[0], r.below(3))); kind = "symbolic integral in a sum"; break;
      case 10: bad = mf(r.below(3), TAG_UNKNOWN()); kind = "function symbol"; break;
      default: bad = mb(r.below(2), mv(v), mc(0)); kind = "sum without integral"; break;
    }
    desc(str(bad));
    Expr b = wrap(bad);
    vmath::numerical_quadrature rec(new Recorder(1));
    std::string o1 = outcome([&]() { return rec(b); }), o2 = outcome([&]() { return gq(b); });
    cnt("rejections checked");
    if (o1 != "throws") viol("not rejected: " + kind, "recording rule: " + o1);
    if (o2 != "throws") viol("not rejected: " + kind, "Gauss rule: " + o2);
    if (!equal(read(b), bad)) viol("arguments changed", "rejected expression changed to " + str(read(b)));
    // integrands that cannot be evaluated
    M f; std::string k2;
    switch (r.below(4)) {
      case 0: f = mb(ADD, mv(v), mv(v + (r.chance(0.5) ? 1 : away(r)))); k2 = "another variable"; break;
      case 1: f = mb(MUL, mf(0, TAG_UNKNOWN()), mv(v)); k2 = "a function symbol"; break;
      case 2: f = mb(ADD, I, mv(v)); k2 = "an inner integral"; break;
      default: f = mu(U_GRAD, mv(v)); k2 = "a gradient"; break;
    }
    M in = mint(f, mc(0), mc(1), v);
    desc(str(in));
    Expr x = wrap(in);
    std::string o = outcome([&]() { return gq(x); });
    if (o != "throws") viol("integrand not rejected: " + k2, "Gauss rule: " + o);
    cnt("rejections checked");
  }
  live = 0; calls().clear();
  if (compared && m->k == BIN) { nontrivial(str(m)); }
  if (compared) state(shape(m));
  (void)i;
}
int main(int c, char ** v) { return drive(c, v, "P14", one); }
