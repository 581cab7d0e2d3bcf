// P03: symbolic derivatives against forward-mode dual numbers on the model tree.
#include "vm.hpp"
using namespace vm;
typedef viennamath::ct_variable<0> CX; typedef viennamath::ct_variable<1> CY; typedef viennamath::ct_variable<2> CZ;
static bool rel(D const & d) { return d.v.ok && d.d.ok && d.d.e <= 1e-5L * (1 + fabsl(d.d.v)) && d.v.e <= 1e-4L * (1 + fabsl(d.v.v)); }
static void check_first(M const & m, M const & dm, unsigned long id, std::vector<double> const & x, const char * what, bool & did) {
  Env<D> env;
  for (size_t i = 0; i < x.size(); ++i) env.x.push_back(D(E((LD)x[i]), E(i == id ? 1.0L : 0.0L)));
  D ref = ev(m, env);
  if (!rel(ref)) { cnt("skipped points"); return; }
  E got = ev(dm, plain_env(x));
  if (!got.ok || got.e > 1e-4L * (1 + fabsl(got.v))) { cnt("skipped points (derivative ill-conditioned)"); return; }
  did = true; cnt(std::string("values compared (") + what + ")");
  if (!agree2(ref.d, got, 64)) viol(std::string("value:") + what, std::string(what) + " derivative with respect to x" + std::to_string(id) + " is " + str(dm) + " with value " + fmt((double)got.v) + ", expected " + fmt((double)ref.d.v) + " at " + fmt(x));
}
// dual of dual numbers for mixed second derivatives
struct DD { D v, d; DD() {} DD(LD c) : v(c), d(0) {} DD(D const & a, D const & b) : v(a), d(b) {} };
static DD operator+(DD const & a, DD const & b) { return DD(a.v + b.v, a.d + b.d); }
static DD operator-(DD const & a, DD const & b) { return DD(a.v - b.v, a.d - b.d); }
static DD operator*(DD const & a, DD const & b) { return DD(a.v * b.v, a.d * b.v + a.v * b.d); }
static DD operator/(DD const & a, DD const & b) { return DD(a.v / b.v, a.d / b.v - a.v * b.d / (b.v * b.v)); }
static DD e_exp(DD const & a) { D x = e_exp(a.v); return DD(x, x * a.d); }
static DD e_sin(DD const & a) { return DD(e_sin(a.v), e_cos(a.v) * a.d); }
static DD e_cos(DD const & a) { return DD(e_cos(a.v), D(0) - e_sin(a.v) * a.d); }
static DD e_tan(DD const & a) { D t = e_tan(a.v); return DD(t, (D(1) + t * t) * a.d); }
static DD e_fabs(DD const & a) { return a; }
static DD e_sqrt(DD const & a) { D s = e_sqrt(a.v); return DD(s, a.d / (D(2) * s)); }
static DD e_log(DD const & a) { return DD(e_log(a.v), a.d / a.v); }
static DD e_log10(DD const & a) { return DD(e_log10(a.v), a.d / (a.v * D(logl(10.0L)))); }
namespace vm { template <> struct Bad<DD> { static DD get() { D b = Bad<D>::get(); return DD(b, b); } }; }

// the variable sits below hundreds of levels of operators; additions and factors near one keep the values well-conditioned
static void deep(Rng & r) {
  Gen g(r); g.nvars = 3; g.fabs_ok = false; unsigned long id = r.below(3);
  M m = r.chance(0.5) ? mb(MUL, mv(id), mv(id)) : mu(U_SIN, mv(id));
  int n = 60 + r.below(340), style = r.below(3);
  for (int i = 0; i < n; ++i) {
    M l = r.chance(0.3) ? mv(r.below(3)) : mc(r.range(1, 8) / 4.0);
    bool right = style == 2 ? r.chance(0.5) : style == 1;
    if (r.chance(0.06)) m = mb(r.chance(0.7) ? MUL : DIV, m, mc(r.real(0.8, 1.25)));
    else if (r.chance(0.04)) m = mu(U_ID, m);
    else m = right ? mb(ADD, l, m) : mb(r.chance(0.6) ? ADD : SUB, m, l);
  }
  Expr e = wrap(m); Var v(id);
  desc(str(m) + " d/dx" + std::to_string(id) + " (deep)");
  phase("deep diff");
  Expr d = viennamath::diff(e, v); M md = read(d);
  Expr draw(e.get()->diff(&v)); M mdraw = read(draw);
  if (!equal(read(e), m)) viol("mutated", "diff changed its argument");
  phase("deep values"); bool did = false;
  for (int k = 0; k < 3; ++k) {
    std::vector<double> x(3); for (int i = 0; i < 3; ++i) x[i] = r.real(0.2, 2);
    check_first(m, md, id, x, "deep simplified", did);
    check_first(m, mdraw, id, x, "deep raw", did);
  }
  if (did) { cnt("deep expressions"); nontrivial("deep " + shape(m)); }
}
static void one(long, Rng & r) {
  if (r.chance(0.01)) { deep(r); return; }
  Gen g(r);
  g.nvars = r.chance(0.12) ? 9 : 1 + r.below(4);
  g.fabs_ok = false; g.idop = r.chance(0.3);
  g.budget = r.chance(0.06) ? 40 : 2 + r.below(14);
  M m = g();
  desc(str(m));
  Expr e = wrap(m);
  unsigned long id = r.below(g.nvars + (r.chance(0.1) ? 2 : 0)), id2 = r.below(g.nvars);
  Var v(id), v2(id2);
  desc(str(m) + " d/dx" + std::to_string(id) + " d/dx" + std::to_string(id2));
  phase("diff");
  Expr d = viennamath::diff(e, v);
  M md = read(d);
  if (!equal(read(e), m)) viol("mutated", "diff changed its argument");
  if (v.id() != id) viol("mutated", "diff changed the variable");
  phase("raw diff");
  Expr draw(e.get()->diff(&v));
  M mdraw = read(draw);
  phase("diff overloads");
  if (id == 0) { Expr q = viennamath::diff(e, CX()); if (!equal(read(q), md)) viol("overload", "diff(expr, ct_variable<0>) differs"); }
  if (id == 1) { Expr q = viennamath::diff(e, CY()); if (!equal(read(q), md)) viol("overload", "diff(expr, ct_variable<1>) differs"); }
  if (id == 2) { Expr q = viennamath::diff(e, CZ()); if (!equal(read(q), md)) viol("overload", "diff(expr, ct_variable<2>) differs"); }
  if (BExpr const * b = dynamic_cast<BExpr const *>(e.get())) { Expr q = viennamath::diff(*b, v); if (!equal(read(q), md)) viol("overload", "diff(binary, variable) gives " + str(read(q)) + ", diff(expr, variable) " + str(md)); }
  if (UExpr const * b = dynamic_cast<UExpr const *>(e.get())) { Expr q = viennamath::diff(*b, v); if (!equal(read(q), md)) viol("overload", "diff(unary, variable) gives " + str(read(q)) + ", diff(expr, variable) " + str(md)); }
  phase("second diff");
  bool second = m->size < 22;
  M mdd;
  if (second) { Expr dd = viennamath::diff(d, v2); mdd = read(dd); if (!equal(read(d), md)) viol("mutated", "second diff changed the first derivative"); }
  phase("leaf diff");
  { Var a(r.below(3)), b(r.below(3)); Expr q = viennamath::diff(a, b); M mq = read(q); E val = ev(mq, plain_env(std::vector<double>(3, 2.5))); if (!(val.ok && val.v == (a.id() == b.id() ? 1 : 0))) viol("leaf", "derivative of x" + std::to_string(a.id()) + " with respect to x" + std::to_string(b.id()) + " is " + str(mq)); }
  bool did = false;
  phase("distant variables");
  if (r.chance(0.3)) {
    unsigned long far = id + away(r); Var w(far); cnt("derivatives with respect to distant variables");
    M q = read(viennamath::diff(e, w)); Expr qr(e.get()->diff(&w)); M mq = read(qr);
    std::vector<double> x = g.point(std::max<unsigned>(g.nvars, id + 1));
    check_first(m, q, far, x, "distant", did); check_first(m, mq, far, x, "raw distant", did);
    M mfar = subst1(m, mv(id), mv(far)); // the renamed function has the renamed derivative
    if (!any(m, [&](M const & n) { return n->k == VAR && n->id == far; })) check_first(m, subst1(read(viennamath::diff(wrap(mfar), w)), mv(far), mv(id)), id, x, "renamed", did);
  }
  phase("values");
  for (int k = 0; k < 6; ++k) {
    std::vector<double> x = g.point(std::max<unsigned>(g.nvars, id + 1));
    if (r.chance(0.05)) x[r.below(x.size())] = 0;
    check_first(m, md, id, x, "simplified", did);
    check_first(m, mdraw, id, x, "raw", did);
    if (second) {
      Env<DD> env;
      for (size_t i = 0; i < x.size(); ++i) env.x.push_back(DD(D(E((LD)x[i]), E(i == id ? 1.0L : 0.0L)), D(E(i == id2 ? 1.0L : 0.0L), E(0))));
      DD ref = ev(m, env);
      E t = ref.d.d;
      if (rel(ref.v) && rel(ref.d)) {
        E got = ev(mdd, plain_env(x));
        if (got.ok && got.e <= 1e-4L * (1 + fabsl(got.v))) { cnt("values compared (second order)"); if (!agree2(t, got, 64)) viol("value:second", "second derivative is " + str(mdd) + " with value " + fmt((double)got.v) + ", expected " + fmt((double)t.v) + " at " + fmt(x)); }
      }
    }
    // the library's own evaluation of the derivative
    E got = ev(md, plain_env(x));
    if (reliable(got)) { double lv = d(x); cnt("library evaluations"); if (!agree(lv, got)) viol("library value", "the derivative evaluates to " + fmt(lv) + ", reference " + fmt((double)got.v)); }
  }
  if (did && m->size > 1) { nontrivial(str(m) + " d/dx" + std::to_string(id)); state(shape(m)); }
}
int main(int c, char ** v) { return drive(c, v, "P03", one); }
