// P01: evaluation of runtime expressions against a long double reference with running error bounds.
#include "vm.hpp"
using namespace vm;
struct MyVec { std::vector<double> d; typedef std::size_t size_type; typedef double value_type; std::size_t size() const { return d.size(); } double operator[](std::size_t i) const { return d[i]; } };

static void same_value(const char * entry, double got, double base, M const & m) {
  cnt("entry points compared");
  if (!ceq(got, base)) viol(std::string("entry:") + entry, std::string("evaluation through ") + entry + " gives " + fmt(got) + " instead of " + fmt(base) + " for " + str(m));
}
// one operation over the whole range of doubles (subnormal, huge, near the overflow thresholds)
static double anywhere(Rng & r) {
  switch (r.below(6)) {
    case 0: return r.real(-760, 720);
    case 1: return r.real(-40, 40);
    case 2: return std::ldexp(r.real(1, 2), r.range(-1074, -1000)) * (r.chance(0.5) ? 1 : -1);
    case 3: return r.range(-20, 20);
    default: return std::ldexp(r.real(1, 2), r.range(-1070, 1022)) * (r.chance(0.5) ? 1 : -1);
  }
}
static bool ulps(double got, long double want, double n) {
  double w = (double)want;
  if (w != w) return got != got;
  if (std::fabs(w) == HUGE_VAL) return got == w || (std::fabs(want) < 1.79769313486231580794e308L * (1 + 1e-15L) && std::fabs(got) > 1.797693134862e308);
  if (std::fabs(got) == HUGE_VAL) return std::fabs(w) > 1.797693134862e308;
  return std::fabs((long double)got - want) <= n * (std::fabs(want) * 1.1102230246251565e-16L + 4.94065645841246544e-324L);
}
static void primitive(Rng & r) {
  phase("single operations");
  for (int k = 0; k < 12; ++k) {
    std::vector<double> p; p.push_back(anywhere(r)); p.push_back(r.chance(0.2) ? p[0] : anywhere(r));
    bool bin = r.chance(0.4);
    int o = bin ? r.below(4) : r.below(9);
    long double a = p[0], b = p[1], w = 0;
    if (bin) w = o == ADD ? a + b : o == SUB ? a - b : o == MUL ? a * b : a / b;
    else switch (o) { case U_ID: w = a; break; case U_EXP: w = ::expl(a); break; case U_SIN: w = ::sinl(a); break; case U_COS: w = ::cosl(a); break; case U_TAN: w = ::tanl(a); break; case U_FABS: w = ::fabsl(a); break; case U_SQRT: w = ::sqrtl(a); break; case U_LOG: w = ::logl(a); break; default: w = ::log10l(a); }
    unsigned shape_ = r.below(4);     // operands as variables or constants
    M l = shape_ & 1 ? mc(p[0]) : mv(0), q = shape_ & 2 ? mc(p[1]) : mv(1);
    M m = bin ? mb(o, l, q) : mu(o, l);
    desc(str(m) + " at " + fmt(p));
    Expr e = wrap(m);
    double got = e(p), two = viennamath::eval(e, p);
    cnt("single operations");
    if (!ulps(got, w, 4) || !ulps(two, w, 4)) viol(std::string("single:") + (bin ? BNAME[o] : UNAME[o]), "evaluates to " + fmt(got) + ", eval " + fmt(two) + " instead of " + fmt((double)w));
    state(std::string("single ") + (bin ? BNAME[o] : UNAME[o]) + (std::fabs(w) < 2.3e-308L ? " subnormal" : std::fabs(w) > 1e300L ? " huge" : "") + (w != w ? " nan" : "") + std::to_string(shape_));
    nontrivial(str(m) + fmt(p));
  }
}
// variables far apart, long points
static void far(Rng & r) {
  phase("far variables");
  unsigned top = r.chance(0.5) ? 300 + r.below(300) : r.chance(0.5) ? 66000 + r.below(3000) : 30 + r.below(60);
  std::vector<double> x(top + r.below(3)); for (size_t i = 0; i < x.size(); ++i) x[i] = 0.5 + 0.001 * (i % 977) + 0.25 * (i % 3);
  std::vector<unsigned> id; for (int k = 0; k < 4; ++k) id.push_back(r.chance(0.5) ? top - 1 - r.below(20) : r.below(top));
  x[id[0]] = 2.25;
  M a = mv(id[0]), b = mv(id[1]), c = mv(id[2]), d = mv(id[3]);
  M m = r.chance(0.3) ? a : r.chance(0.5) ? mb(r.below(4), mb(r.below(4), a, b), mu(r.chance(0.5) ? U_SQRT : U_EXP, c)) : mb(r.below(4), mu(U_SIN, mb(r.below(3), a, d)), mb(r.below(4), b, mc(r.real(1, 2))));
  desc(str(m) + " at a point of size " + std::to_string(x.size()));
  Expr e = wrap(m);
  double got = e(x); E ref = ev(m, plain_env(x));
  if (reliable(ref)) { cnt("values compared"); nontrivial(str(m)); state("far " + shape(m)); if (!agree(got, ref)) viol("far value", "evaluates to " + fmt(got) + ", reference " + fmt((double)ref.v)); }
  MyVec mvx; mvx.d = x;
  same_value("eval(far variables)", viennamath::eval(e, x), got, m); same_value("get()->eval(far variables)", e.get()->eval(x), got, m); same_value("user vector (far variables)", e(mvx), got, m);
  Var v(id[0]); same_value("far variable", v(x), x[id[0]], a); same_value("eval(far variable)", viennamath::eval(v, x), x[id[0]], a); same_value("far variable.eval", static_cast<Iface const &>(v).eval(x), x[id[0]], a);
}
static void one(long i, Rng & r) {
  if (i % 16 == 7) { primitive(r); return; }
  if (i % 32 == 9) { far(r); return; }
  Gen g(r);
  g.nvars = r.chance(0.15) ? 1 : (r.chance(0.15) ? 4 + r.below(20) : 1 + r.below(4));
  g.budget = r.chance(0.1) ? 120 : 3 + r.below(25);
  M m = g();
  if (r.chance(0.02)) { g.transc = false; m = g.chain(300 + r.below(700)); }
  else if (r.chance(0.01)) { M q = mc(g.cst()); int k = 100 + r.below(500); for (int j = 0; j < k; ++j) { M l = mc(r.range(1, 12) / 4.0); int o = r.below(2); q = r.chance(0.002) ? mu(U_FABS, q) : r.chance(0.5) ? mb(o, q, l) : mb(o, l, q); } m = q; cnt("long constant expressions"); }
  bool by_ops = r.chance(0.5);
  desc(str(m));
  Expr e;
  phase("build");
  e = wrap(m);
  std::string txt0 = e.get()->deep_str();
  unsigned n = g.nvars + (r.chance(0.3) ? r.below(4) : 0);
  bool nontriv = false;
  for (int k = 0; k < 4; ++k) {
    std::vector<double> x = g.point(n);
    if (r.chance(0.05)) x[r.below(n)] = 0;
    desc(str(m) + " at " + fmt(x));
    phase("eval");
    double got = e(x);
    E ref = ev(m, plain_env(x));
    if (reliable(ref)) {
      cnt("values compared"); nontriv = true;
      if (!agree(got, ref)) viol("value", "evaluates to " + fmt(got) + ", reference " + fmt((double)ref.v) + " +- " + fmt((double)ref.e));
    } else {
      double d = dbl(m, x);
      cnt("non-finite or ill-conditioned points");
      if ((d != d) != (got != got)) viol("nan-class", "evaluates to " + fmt(got) + ", plain double evaluation gives " + fmt(d));
      else if ((std::fabs(d) == HUGE_VAL) != (std::fabs(got) == HUGE_VAL) || (std::fabs(d) == HUGE_VAL && d != got)) viol("inf-class", "evaluates to " + fmt(got) + ", plain double evaluation gives " + fmt(d));
    }
    // all entry points agree
    phase("entry points");
    same_value("get()->eval(vector)", e.get()->eval(x), got, m);
    same_value("viennamath::eval(expr, vector)", viennamath::eval(e, x), got, m);
    MyVec mvx; mvx.d = x;
    same_value("expr(user vector)", e(mvx), got, m);
    same_value("viennamath::eval(expr, user vector)", viennamath::eval(e, mvx), got, m);
    Expr e2(e);
    same_value("copy", e2(x), got, m);
    // the same vector object with one entry changed, and changed back; a longer point with the same beginning
    phase("neighbouring points");
    { unsigned q = r.below(n); double old = x[q]; x[q] = r.chance(0.3) ? -old : old + r.real(0.1, 1);
      E near_ref = ev(m, plain_env(x)); double nv = e(x);
      if (reliable(near_ref)) { cnt("neighbouring points"); if (!agree(nv, near_ref)) viol("neighbouring value", "evaluates to " + fmt(nv) + " at " + fmt(x) + ", reference " + fmt((double)near_ref.v)); }
      same_value("eval(expr, vector) at a neighbouring point", viennamath::eval(e, x), nv, m); same_value("get()->eval(vector) at a neighbouring point", e.get()->eval(x), nv, m);
      x[q] = old; same_value("back at the first point", e(x), got, m); same_value("eval(expr, vector) back at the first point", viennamath::eval(e, x), got, m);
      std::vector<double> lx(x); lx.resize(n + 1 + r.below(3), r.real(-9, 9)); same_value("longer point", e(lx), got, m); }
    phase("entry points");
    if (BExpr const * b = dynamic_cast<BExpr const *>(e.get())) {
      same_value("binary(vector)", (*b)(x), got, m); same_value("binary(user vector)", (*b)(mvx), got, m); same_value("eval(binary, vector)", viennamath::eval(*b, x), got, m);
      if (n >= 1 && n <= 3) {
        if (n == 1) same_value("binary(ct_vector_1)", (*b)(viennamath::make_vector(x[0])), got, m);
        if (n == 2) same_value("binary(ct_vector_2)", (*b)(viennamath::make_vector(x[0], x[1])), got, m);
        if (n == 3) same_value("binary(ct_vector_3)", (*b)(viennamath::make_vector(x[0], x[1], x[2])), got, m);
      }
    }
    if (UExpr const * b = dynamic_cast<UExpr const *>(e.get())) {
      same_value("unary(vector)", (*b)(x), got, m); same_value("unary(user vector)", (*b)(mvx), got, m); same_value("eval(unary, vector)", viennamath::eval(*b, x), got, m);
      if (n == 1) same_value("unary(ct_vector_1)", (*b)(viennamath::make_vector(x[0])), got, m);
      if (n == 2) same_value("unary(ct_vector_2)", (*b)(viennamath::make_vector(x[0], x[1])), got, m);
      if (n == 3) same_value("unary(ct_vector_3)", (*b)(viennamath::make_vector(x[0], x[1], x[2])), got, m);
    }
    if (n == 1) { same_value("expr(ct_vector_1)", e(viennamath::make_vector(x[0])), got, m); }
    if (n == 2) { same_value("expr(ct_vector_2)", e(viennamath::make_vector(x[0], x[1])), got, m); same_value("eval(expr, ct_vector_2)", viennamath::eval(e, viennamath::make_vector(x[0], x[1])), got, m); }
    if (n == 3) { same_value("expr(ct_vector_3)", e(viennamath::make_vector(x[0], x[1], x[2])), got, m); same_value("eval(expr, ct_vector_3)", viennamath::eval(e, viennamath::make_vector(x[0], x[1], x[2])), got, m); }
    // scalar points: only variable 0 occurs
    if (max_var(m) <= 1) {
      same_value("expr(scalar)", e(x[0]), got, m);
      same_value("get()->eval(scalar)", e.get()->eval(x[0]), got, m);
      same_value("viennamath::eval(expr, scalar)", viennamath::eval(e, x[0]), got, m);
      same_value("expr(constant)", e(Const(x[0])), got, m);
      if (BExpr const * b = dynamic_cast<BExpr const *>(e.get())) { same_value("binary(scalar)", (*b)(x[0]), got, m); same_value("binary(constant)", (*b)(Const(x[0])), got, m); same_value("eval(binary, scalar)", viennamath::eval(*b, x[0]), got, m); }
      if (UExpr const * b = dynamic_cast<UExpr const *>(e.get())) { same_value("unary(scalar)", (*b)(x[0]), got, m); same_value("unary(constant)", (*b)(Const(x[0])), got, m); same_value("eval(unary, scalar)", viennamath::eval(*b, x[0]), got, m); }
      std::vector<double> three(1, 3.0), mtwo(1, -2.0);
      same_value("expr(ct_constant<3>)", e(viennamath::ct_constant<3>()), e(three), m);
      same_value("expr(ct_constant<-2>)", e(viennamath::ct_constant<-2>()), e(mtwo), m);
      if (BExpr const * b = dynamic_cast<BExpr const *>(e.get())) same_value("binary(ct_constant<3>)", (*b)(viennamath::ct_constant<3>()), e(three), m);
      if (UExpr const * b = dynamic_cast<UExpr const *>(e.get())) same_value("unary(ct_constant<3>)", (*b)(viennamath::ct_constant<3>()), e(three), m);
      same_value("expr(rt_constant<long>)", e(viennamath::rt_constant<long>(3)), e(three), m);
      same_value("expr(rt_constant<int>)", e(viennamath::rt_constant<int>(-2)), e(mtwo), m);
      if (BExpr const * b = dynamic_cast<BExpr const *>(e.get())) same_value("binary(rt_constant<long>)", (*b)(viennamath::rt_constant<long>(3)), e(three), m);
      if (UExpr const * b = dynamic_cast<UExpr const *>(e.get())) same_value("unary(rt_constant<long>)", (*b)(viennamath::rt_constant<long>(3)), e(three), m);
      cnt("scalar points");
    }
    // leaves as objects of their own
    unsigned vi = r.below(n);
    Var v(vi);
    same_value("variable(vector)", v(x), x[vi], mv(vi)); same_value("eval(variable, vector)", viennamath::eval(v, x), x[vi], mv(vi));
    same_value("variable.eval(vector)", static_cast<Iface const &>(v).eval(x), x[vi], mv(vi)); same_value("variable(user vector)", v(mvx), x[vi], mv(vi));
    if (n == 1) same_value("variable(ct_vector_1)", v(viennamath::make_vector(x[0])), x[vi], mv(vi));
    if (n == 2) { same_value("variable(ct_vector_2)", v(viennamath::make_vector(x[0], x[1])), x[vi], mv(vi)); same_value("eval(variable, ct_vector_2)", viennamath::eval(v, viennamath::make_vector(x[0], x[1])), x[vi], mv(vi)); }
    if (n == 3) { same_value("variable(ct_vector_3)", v(viennamath::make_vector(x[0], x[1], x[2])), x[vi], mv(vi)); same_value("eval(variable, ct_vector_3)", viennamath::eval(v, viennamath::make_vector(x[0], x[1], x[2])), x[vi], mv(vi)); }
    if (vi == 0) { same_value("variable(scalar)", v(x[0]), x[0], mv(0)); same_value("variable(constant)", v(Const(x[0])), x[0], mv(0)); same_value("variable(ct_constant)", (double)v(viennamath::ct_constant<7>()), 7, mv(0)); }
    double c = g.cst(); Const cc(c);
    same_value("constant(vector)", (double)cc(x), c, mc(c)); same_value("constant.eval", static_cast<Iface const &>(cc).eval(x), c, mc(c)); same_value("constant.eval(scalar)", static_cast<Iface const &>(cc).eval(x[0]), c, mc(c));
    same_value("eval(number, vector)", viennamath::eval(c, x), c, mc(c)); same_value("eval(number, scalar)", viennamath::eval(c, x[0]), c, mc(c)); same_value("eval(constant, vector)", (double)viennamath::eval(cc, x), c, mc(c)); same_value("eval(constant, scalar)", (double)viennamath::eval(cc, x[0]), c, mc(c));
    if (vi == 0) same_value("eval(variable, scalar)", viennamath::eval(v, x[0]), x[0], mv(0));
    { long k = r.range(-99, 99); viennamath::rt_constant<long> lc(k); viennamath::rt_constant<float> fc(k * 0.25f);
      same_value("rt_constant<long>(vector)", (double)(long)lc(x), k, mc(k)); same_value("rt_constant<long>.eval", static_cast<Iface const &>(lc).eval(x), k, mc(k)); same_value("rt_constant<long>.eval(scalar)", static_cast<Iface const &>(lc).eval(x[0]), k, mc(k)); same_value("rt_constant<long>.unwrap", static_cast<Iface const &>(lc).unwrap(), k, mc(k));
      same_value("rt_constant<float>(vector)", (double)(float)fc(x), k * 0.25, mc(k * 0.25)); same_value("rt_constant<float>.eval", static_cast<Iface const &>(fc).eval(x), k * 0.25, mc(k * 0.25)); same_value("rt_constant<float>.unwrap", static_cast<Iface const &>(fc).unwrap(), k * 0.25, mc(k * 0.25));
      same_value("eval(rt_constant<long>, vector)", (double)viennamath::eval(lc, x), k, mc(k)); same_value("eval(rt_constant<float>, scalar)", (double)viennamath::eval(fc, x[0]), k * 0.25, mc(k * 0.25)); }
    same_value("constant.unwrap", static_cast<Iface const &>(cc).unwrap(), c, mc(c));
  }
  if (!has_var(m)) {
    phase("unwrap");
    double d = dbl(m, std::vector<double>());
    if (e.get()->is_constant()) { same_value("unwrap", e.get()->unwrap(), d, m); cnt("unwrapped"); }
  } else if (e.get()->is_constant()) viol("is_constant", "an expression with variables claims to be constant");
  phase("after");
  if (!equal(read(e), m) || e.get()->deep_str() != txt0) viol("mutated", "evaluation changed the expression to " + str(read(e)));
  if (nontriv && m->size > 1) { nontrivial(str(m)); state(shape(m)); }
  (void)by_ops;
}
int main(int c, char ** v) { return drive(c, v, "P01", one); }
