// One translation unit of P28; the generated file ORDER includes the library headers in some order and defines HAVE_x for each of them.
#include ORDER
#include <typeinfo>
#include <memory>
#include "p28.hpp"
using namespace p28;
namespace v = viennamath;
namespace {
Expr num(double d) { return Expr(d); }
Expr var(unsigned long i) { return Expr(v::rt_variable<>(i)); }
Expr sym(unsigned long i, int t) { return t ? Expr(v::rt_function_symbol<>(i, v::test_tag<>())) : Expr(v::rt_function_symbol<>(i, v::unknown_tag<>())); }
Expr bin(int o, Expr const & a, Expr const & b) { switch (o) { case 0: return a + b; case 1: return a - b; case 2: return a * b; default: return a / b; } }
Expr un(int o, Expr const & a, unsigned long id) {
  if (o == 0) return Expr(v::rt_unary_expr<>(a.get()->clone(), new v::op_unary<v::op_id<double>, Iface>()));
  if (o == 9) return Expr(v::rt_unary_expr<>(a.get()->clone(), new v::op_unary<v::op_gradient<double>, Iface>()));
  if (o == 10) return Expr(v::rt_unary_expr<>(a.get()->clone(), new v::op_unary<v::op_divergence<double>, Iface>()));
  if (o == 11) return Expr(v::rt_unary_expr<>(a.get()->clone(), new v::op_unary<v::op_partial_deriv<double>, Iface>(v::op_partial_deriv<double>(id))));
  switch (o) { case 1: return v::exp(a); case 2: return v::sin(a); case 3: return v::cos(a); case 4: return v::tan(a); case 5: return v::fabs(a); case 6: return v::sqrt(a); case 7: return v::log(a); default: return v::log10(a); }
}
Expr integral_(double a, double b, Expr const & e, unsigned long i) {
  v::rt_interval<> iv = v::make_interval(a, b);
  return Expr(v::rt_unary_expr<>(e.get()->clone(), new v::op_unary<v::op_rt_integral<Iface>, Iface>(v::op_rt_integral<Iface>(iv, v::rt_variable<>(i)))));
}
Expr symint(unsigned long id, Expr const & e) { return v::integral(v::rt_symbolic_interval<>(id), e); }
Expr vec(std::vector<Expr> const & k) { v::rt_vector_expr<> r(k.size()); for (size_t i = 0; i < k.size(); ++i) r[i] = k[i]; return Expr(r.clone()); }
double call(Expr const & e, std::vector<double> const & x) { return e(x); }
bool equal(Expr const & a, Expr const & b) { return a.get()->deep_equal(b.get()); }
std::string text(Expr const & e) { std::ostringstream o; o << e; return o.str(); }
std::string kind(Iface const * e) {
  if (dynamic_cast<v::rt_constant<double, Iface> const *>(e)) return "constant";
  if (dynamic_cast<v::rt_variable<Iface> const *>(e)) return "variable";
  if (v::rt_function_symbol<Iface> const * s = dynamic_cast<v::rt_function_symbol<Iface> const *>(e)) return s->tag_id() == v::test_tag<>::tag_id() ? "test function" : s->tag_id() == v::unknown_tag<>::tag_id() ? "unknown" : "other symbol";
  if (v::rt_binary_expr<Iface> const * b = dynamic_cast<v::rt_binary_expr<Iface> const *>(e)) {
    v::op_interface<Iface> const * o = b->op();
    if (dynamic_cast<v::op_binary<v::op_plus<double>, Iface> const *>(o)) return "sum"; if (dynamic_cast<v::op_binary<v::op_minus<double>, Iface> const *>(o)) return "difference";
    if (dynamic_cast<v::op_binary<v::op_mult<double>, Iface> const *>(o)) return "product"; if (dynamic_cast<v::op_binary<v::op_div<double>, Iface> const *>(o)) return "quotient";
    return "other binary";
  }
  if (v::rt_unary_expr<Iface> const * u = dynamic_cast<v::rt_unary_expr<Iface> const *>(e)) {
    v::op_interface<Iface> const * o = u->op();
    if (dynamic_cast<v::op_unary<v::op_sin<double>, Iface> const *>(o)) return "sine"; if (dynamic_cast<v::op_unary<v::op_exp<double>, Iface> const *>(o)) return "exponential"; if (dynamic_cast<v::op_unary<v::op_log<double>, Iface> const *>(o)) return "logarithm";
    if (v::op_unary<v::op_rt_integral<Iface>, Iface> const * i = dynamic_cast<v::op_unary<v::op_rt_integral<Iface>, Iface> const *>(o)) { std::ostringstream s; s << "integral by x" << i->op().variable().id(); return s.str(); }
    if (v::op_unary<v::op_rt_symbolic_integral<Iface>, Iface> const * i = dynamic_cast<v::op_unary<v::op_rt_symbolic_integral<Iface>, Iface> const *>(o)) { std::ostringstream s; s << "integral over domain " << i->op().interval().id(); return s.str(); }
    return "other unary";
  }
  if (v::rt_vector_expr<Iface> const * w = dynamic_cast<v::rt_vector_expr<Iface> const *>(e)) { std::ostringstream s; s << "vector of " << w->size(); return s.str(); }
  return "unrecognised";
}
std::string * wlog = 0;
struct OnVar { void operator()(v::rt_variable<Iface> const & x) const { std::ostringstream s; s << " V" << x.id(); *wlog += s.str(); } };
struct OnConst { void operator()(v::rt_constant<double, Iface> const & x) const { std::ostringstream s; s << " C" << x.unwrap(); *wlog += s.str(); } };
struct OnBin { void operator()(v::rt_binary_expr<Iface> const & x) const { *wlog += " B"; *wlog += x.op()->str(); } };
struct Walker : public v::rt_traversal_interface<Iface> {
  void operator()(Iface const * e) const {
    OnVar a; OnConst c; OnBin b;
    bool hit = v::callback_if_castable<v::rt_variable<Iface> >::apply(e, a);
    hit = v::callback_if_castable<v::rt_constant<double, Iface> >::apply(e, c) || hit;
    hit = v::callback_if_castable<v::rt_binary_expr<Iface> >::apply(e, b) || hit;
    if (!hit) *wlog += " " + kind(e);
  }
};
std::string walk(Expr const & e) { std::string s; wlog = &s; v::rt_traversal_wrapper<Iface> w(new Walker()); e.get()->recursive_traversal(w); wlog = 0; return s; }
struct Shift : public v::rt_manipulation_interface<Iface> {
  Iface * operator()(Iface const * e) const { v::rt_variable<Iface> const * p = dynamic_cast<v::rt_variable<Iface> const *>(e); return p ? static_cast<Iface *>(new v::rt_variable<Iface>(p->id() + 1)) : e->clone(); }
  bool modifies(Iface const * e) const { return dynamic_cast<v::rt_variable<Iface> const *>(e) != 0; }
};
Expr rewrite(Expr const & e) { v::rt_manipulation_wrapper<Iface> w(new Shift()); return Expr(e.get()->recursive_manipulation(w)); }
Iface * clone(Expr const & e) { return e.get()->clone(); }
void destroy(Iface * e) { delete e; }
void t_index() { std::vector<double> x(2); Expr(v::rt_variable<>(7))(x); }
void t_symbol() { std::vector<double> x(2); (Expr(v::rt_function_symbol<>(0, v::unknown_tag<>())) + Expr(1.0))(x); }
void t_constant() { (v::rt_variable<>(0) + v::rt_variable<>(1)).unwrap(); }
void t_diff() { Expr e(v::fabs(v::rt_variable<>(0))); v::rt_variable<> x(0); std::auto_ptr<Iface> p(e.get()->diff(&x)); }
void t_own() { throw v::variable_index_out_of_bounds_exception(3, 2); }
std::string caught(Thunk f) {
  try { f(); }
  catch (v::variable_index_out_of_bounds_exception const & x) { return std::string("index: ") + static_cast<std::exception const &>(x).what(); }
  catch (v::expression_not_evaluable_exception const & x) { return std::string("not evaluable: ") + static_cast<std::exception const &>(x).what(); }
  catch (v::expression_not_unwrappable_exception const & x) { return std::string("not unwrappable: ") + static_cast<std::exception const &>(x).what(); }
  catch (v::expression_not_differentiable_exception const & x) { return std::string("not differentiable: ") + static_cast<std::exception const &>(x).what(); }
  catch (std::exception const & x) { return std::string("unrecognised: ") + x.what(); }
  catch (...) { return "unrecognised"; }
  return "nothing";
}
// static initialisation of another unit may run before this one: the library may keep no state that depends on it
v::rt_variable<> g_x(1); v::ct_variable<2> g_y; Expr g_expr = v::sin(g_x) * 3.0 + g_y / g_x;
#ifdef HAVE_latex
v::rt_latex_translator<> g_latex;
#endif
Expr global() { return g_expr; }
#ifdef HAVE_eval
double eval_(Expr const & e, std::vector<double> const & x) { return v::eval(e, x); }
#endif
#ifdef HAVE_simplify
Expr simplify_(Expr const & e) { return v::simplify(e); }
#endif
#ifdef HAVE_diff
Expr diff_(Expr const & e, unsigned long i) { return v::diff(e, v::rt_variable<>(i)); }
#endif
#ifdef HAVE_substitute
Expr subst_(Expr const & a, Expr const & b, Expr const & e) { return v::substitute(a, b, e); }
#endif
#ifdef HAVE_latex
std::string latex_(Expr const & e) { v::rt_latex_translator<> t(g_latex); return t(e); }
#endif
#ifdef HAVE_apply_coordinate_system
Expr coords_(int d, Expr const & e) { return d == 1 ? v::apply_coordinate_system(v::cartesian<1>(), e) : d == 2 ? v::apply_coordinate_system(v::cartesian<2>(), e) : v::apply_coordinate_system(v::cartesian<3>(), e); }
#endif
#ifdef HAVE_numerical_quadrature
double quad_(Expr const & e) { v::numerical_quadrature q(new v::rt_gauss_quad_1<Iface>()); return q(e); }
#endif
// compiletime types instantiated in every unit
double ct_(double t) {
  v::ct_variable<0> x; v::ct_variable<1> y; v::ct_constant<3> c; v::ct_constant<5> d;
  double r = 0; std::vector<double> p(2); p[0] = t; p[1] = 2;
  Expr e = (x * y + c) * (x - d); r += e(p);
#ifdef HAVE_eval
  r += v::eval((x * y + c) * (x - d), p) - e(p);
#endif
#ifdef HAVE_expand
  { Expr q = v::expand((x + c) * (x - y)); Expr q0 = (x + c) * (x - y); r += q(p) - q0(p); }
#endif
#ifdef HAVE_diff
  { Expr q = v::diff(x * x * y, x); r += q(p) - 2 * p[0] * p[1]; }
#endif
#ifdef HAVE_coefficient
  { Expr q = v::coefficient(x, c * x + y); r += q(p) - 3; }
#endif
#ifdef HAVE_drop_dependent_terms
  { Expr q = v::drop_dependent_terms(x, c * x + y); r += q(p) - p[1]; }
#endif
#ifdef HAVE_integrate
  { Expr q = v::integrate(v::make_interval(v::ct_constant<0>(), v::ct_constant<1>()), x * y, x); r += q(p) - 0.5 * p[1]; }
#endif
#ifdef HAVE_substitute
  { Expr q = v::substitute(x, y, x * c); r += q(p) - 3 * p[1]; }
#endif
  return r;
}
struct Fill { Ops o; Fill() {
  o.info = INFO; o.num = num; o.var = var; o.sym = sym; o.bin = bin; o.un = un; o.integral = integral_; o.symint = symint; o.vec = vec; o.call = call; o.equal = equal; o.text = text; o.kind = kind; o.walk = walk; o.rewrite = rewrite; o.clone = clone; o.destroy = destroy; o.caught = caught; o.global = global; o.ct = ct_;
  Thunk t[5] = { t_index, t_symbol, t_constant, t_diff, t_own }; for (int i = 0; i < 5; ++i) o.throwers[i] = t[i];
  o.eval = 0; o.simplify = 0; o.diff = 0; o.subst = 0; o.latex = 0; o.coords = 0; o.quad = 0;
#ifdef HAVE_eval
  o.eval = eval_;
#endif
#ifdef HAVE_simplify
  o.simplify = simplify_;
#endif
#ifdef HAVE_diff
  o.diff = diff_;
#endif
#ifdef HAVE_substitute
  o.subst = subst_;
#endif
#ifdef HAVE_latex
  o.latex = latex_;
#endif
#ifdef HAVE_apply_coordinate_system
  o.coords = coords_;
#endif
#ifdef HAVE_numerical_quadrature
  o.quad = quad_;
#endif
} };
}
extern Ops const * UNIT();
Ops const * UNIT() { static Fill * f = new Fill; return &f->o; }
