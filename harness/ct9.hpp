// P09: compiletime expressions, evaluated and converted, against the model of the formula as spelled.
#include "vm.hpp"
using namespace vm;
namespace vmath = viennamath;
static double num_(double d) { return d; }
template <long v> double num_(vmath::ct_constant<v> const & c) { return (double)static_cast<long>(c); }
// value-equal to the formula at every point where it is well conditioned
static void same_value(const char * what, M const & want, M const & got, std::vector<std::vector<double> > const & pts) {
  if (equal(want, got)) { cnt("identical trees"); return; }
  for (size_t i = 0; i < pts.size(); ++i) {
    E a = ev(want, plain_env(pts[i])), b = ev(got, plain_env(pts[i]));
    if (!reliable(a)) continue;
    cnt("converted values compared");
    if (!b.ok || !agree2(a, b)) { viol(what, std::string(what) + ": " + str(got) + " has the value " + (b.ok ? fmt((double)b.v) : "undefined") + " instead of " + fmt((double)a.v) + " at " + fmt(pts[i])); return; }
  }
}
static void num_same(const char * what, E const & a, double got, std::vector<double> const & x) {
  if (!reliable(a)) return;
  cnt("values compared");
  if (!agree(got, a, 32)) viol(what, std::string(what) + ": " + fmt(got) + " instead of " + fmt((double)a.v) + " at " + fmt(x));
}
template <typename T, typename R> void check(Rng & r, M const & m, T const & e, R const & rt) {
  desc(str(m));
  Gen g(r); g.nvars = 4;
  std::vector<std::vector<double> > pts;
  for (int i = 0; i < 4; ++i) pts.push_back(g.point(4));
  bool compared = false;
  for (int i = 0; i < 4; ++i) {
    E a = ev(m, plain_env(pts[i]));
    if (reliable(a)) compared = true;
    phase("evaluate");
    num_same("call operator", a, num_(e(pts[i])), pts[i]);
    num_same("eval", a, num_(vmath::eval(e, pts[i])), pts[i]);
  }
  phase("convert");
  Expr c(e); same_value("conversion", m, read(c), pts);
  Expr d; d = e; same_value("assignment", m, read(d), pts);
  Expr f(Var(7)); f = e; same_value("assignment over a variable", m, read(f), pts);
  Expr h = wrap(g.gen(5)); h = e; same_value("assignment over an expression", m, read(h), pts);
  if (!equal(read(d), read(c)) || !equal(read(f), read(c))) viol("conversion differs", "constructed " + str(read(c)) + ", assigned " + str(read(d)));
  M mr = read(Expr(rt));
  same_value("runtime spelling", m, mr, pts);
  for (int i = 0; i < 4; ++i) { E a = ev(m, plain_env(pts[i])); phase("evaluate converted"); num_same("converted expression", a, c(pts[i]), pts[i]); num_same("assigned expression", a, vmath::eval(f, pts[i]), pts[i]); num_same("runtime spelling", a, Expr(rt)(pts[i]), pts[i]); }
  if (compared && m->size > 1) { nontrivial(str(m)); state(shape(m, 8)); }
}
// at a vector of compiletime constants
template <typename T, typename V> void checkc(M const & m, T const & e, V const & v, double a, double b, double c) {
  phase("evaluate at constants");
  std::vector<double> x; x.push_back(a); x.push_back(b); x.push_back(c);
  E w = ev(m, plain_env(x));
  if (!reliable(w)) return;
  cnt("compiletime evaluations");
  double got = num_(vmath::eval(e, v));
  if (!agree(got, w, 32)) viol("compiletime evaluation", "eval: " + fmt(got) + " instead of " + fmt((double)w.v) + " at " + fmt(x));
}

// the points a compiletime expression can be evaluated at: vectors of numbers of other types, own vector types, small vectors
struct OwnVec { std::vector<double> d; typedef std::size_t size_type; typedef double value_type; std::size_t size() const { return d.size(); } double operator[](std::size_t i) const { return d[i]; } };
template <typename T, typename P> void at_point(const char * what, M const & m, T const & e, P const & p, std::vector<double> const & x) {
  E w = ev(m, plain_env(x));
  num_same((std::string("call operator at ") + what).c_str(), w, (double)num_(e(p)), x);
  num_same((std::string("eval at ") + what).c_str(), w, (double)num_(vmath::eval(e, p)), x);
}
inline std::vector<double> vec3(double a, double b, double c, double d = 0) { std::vector<double> x; x.push_back(a); x.push_back(b); x.push_back(c); x.push_back(d); return x; }
template <typename T> double num_(vmath::rt_constant<T> const & c) { return (double)static_cast<T>(c); }
template <typename T> void points_any(Rng & r, M const & m, T const & e) {
  phase("own vector types");
  std::vector<double> x = vec3(r.range(-9, 9), r.range(-9, 9), r.range(-9, 9), r.range(-9, 9));
  OwnVec o; o.d = x; at_point("an own vector type", m, e, o, x);
  std::vector<float> f(x.begin(), x.end()); at_point("std::vector<float>", m, e, f, x);
  std::vector<int> n(x.begin(), x.end()); at_point("std::vector<int>", m, e, n, x);
  std::vector<long> l(x.begin(), x.end()); at_point("std::vector<long>", m, e, l, x);
  std::vector<double> more(x); more.resize(9, 1e300); at_point("a longer vector", m, e, more, x);
}
template <typename T> void points3(Rng & r, M const & m, T const & e) {
  phase("small vectors");
  double a = r.real(-5, 5), b = r.real(-5, 5), c = r.real(-5, 5); int i = r.range(-9, 9), j = r.range(-9, 9);
  at_point("ct_vector_3 of numbers", m, e, vmath::make_vector(a, b, c), vec3(a, b, c));
  at_point("ct_vector_3 of integers", m, e, vmath::make_vector(i, j, 5), vec3(i, j, 5));
  at_point("ct_vector_3 of mixed types", m, e, vmath::make_vector(vmath::ct_constant<3>(), b, vmath::ct_constant<-7>()), vec3(3, b, -7));
}
template <typename T> void points2(Rng & r, M const & m, T const & e) {
  double a = r.real(-5, 5), b = r.real(-5, 5);
  at_point("ct_vector_2 of numbers", m, e, vmath::make_vector(a, b), vec3(a, b, 0));
  at_point("ct_vector_2 of mixed types", m, e, vmath::make_vector(a, vmath::ct_constant<4>()), vec3(a, 4, 0));
}
template <typename T> void points1(Rng & r, M const & m, T const & e) {
  double a = r.real(-5, 5);
  at_point("ct_vector_1", m, e, vmath::make_vector(a), vec3(a, 0, 0));
  at_point("constant", m, e, Const(a), vec3(a, 0, 0));
  at_point("ct_constant", m, e, vmath::ct_constant<6>(), vec3(6, 0, 0));
}
