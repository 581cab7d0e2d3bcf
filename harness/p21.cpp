// P21: derivatives with respect to function symbols. The reference inserts concrete functions: every symbol is a power series in x0,
// the symbol of differentiation carries an infinitesimal constant shift, and the gradient is either d/dx0 or a fixed factor.
#include "vm.hpp"
using namespace vm;
namespace vmath = viennamath;
static const int N = 4;
template <typename S> struct T {
  S c[N];
  T() { for (int i = 0; i < N; ++i) c[i] = S(0); }
  T(LD x) { for (int i = 0; i < N; ++i) c[i] = S(0); c[0] = S(x); }
};
template <typename S> T<S> operator+(T<S> const & a, T<S> const & b) { T<S> r; for (int i = 0; i < N; ++i) r.c[i] = a.c[i] + b.c[i]; return r; }
template <typename S> T<S> operator-(T<S> const & a, T<S> const & b) { T<S> r; for (int i = 0; i < N; ++i) r.c[i] = a.c[i] - b.c[i]; return r; }
template <typename S> T<S> operator*(T<S> const & a, T<S> const & b) { T<S> r; for (int i = 0; i < N; ++i) for (int j = 0; i + j < N; ++j) r.c[i + j] = r.c[i + j] + a.c[i] * b.c[j]; return r; }
template <typename S> T<S> operator/(T<S> const & a, T<S> const & b) { T<S> r; for (int i = 0; i < N; ++i) { S s = a.c[i]; for (int j = 1; j <= i; ++j) s = s - b.c[j] * r.c[i - j]; r.c[i] = s / b.c[0]; } return r; }
template <typename S> T<S> deriv(T<S> const & a) { T<S> r; for (int i = 0; i + 1 < N; ++i) r.c[i] = S((LD)(i + 1)) * a.c[i + 1]; return r; }
// f(a) from f(a0) and f'(a): integrate f' a'
template <typename S> T<S> integ(S const & c0, T<S> const & d) { T<S> r; r.c[0] = c0; for (int i = 1; i < N; ++i) r.c[i] = d.c[i - 1] / S((LD)i); return r; }
template <typename S> T<S> e_exp(T<S> const & a) { T<S> r; r.c[0] = e_exp(a.c[0]); T<S> da = deriv(a); for (int i = 1; i < N; ++i) { S s(0); for (int j = 0; j < i; ++j) s = s + da.c[j] * r.c[i - 1 - j]; r.c[i] = s / S((LD)i); } return r; }
template <typename S> void sc(T<S> const & a, T<S> & s, T<S> & c) {
  s.c[0] = e_sin(a.c[0]); c.c[0] = e_cos(a.c[0]); T<S> da = deriv(a);
  for (int i = 1; i < N; ++i) { S p(0), q(0); for (int j = 0; j < i; ++j) { p = p + da.c[j] * c.c[i - 1 - j]; q = q - da.c[j] * s.c[i - 1 - j]; } s.c[i] = p / S((LD)i); c.c[i] = q / S((LD)i); }
}
template <typename S> T<S> e_sin(T<S> const & a) { T<S> s, c; sc(a, s, c); return s; }
template <typename S> T<S> e_cos(T<S> const & a) { T<S> s, c; sc(a, s, c); return c; }
template <typename S> T<S> e_tan(T<S> const & a) { T<S> s, c; sc(a, s, c); T<S> q = s / c; q.c[0] = e_tan(a.c[0]); return q; }
template <typename S> T<S> e_log(T<S> const & a) { return integ(e_log(a.c[0]), deriv(a) / a); }
template <typename S> T<S> e_log10(T<S> const & a) { return integ(e_log10(a.c[0]), deriv(a) / (a * T<S>(logl(10.0L)))); }
template <typename S> T<S> e_sqrt(T<S> const & a) { T<S> r; r.c[0] = e_sqrt(a.c[0]); for (int i = 1; i < N; ++i) { S s = a.c[i]; for (int j = 1; j < i; ++j) s = s - r.c[j] * r.c[i - j]; r.c[i] = s / (S(2) * r.c[0]); } return r; }
template <typename S> T<S> e_fabs(T<S> const & a) { return a; }
namespace vm { template <> struct Bad<T<E> > { static T<E> get() { T<E> t; t.c[0] = Bad<E>::get(); return t; } }; template <> struct Bad<T<D> > { static T<D> get() { T<D> t; t.c[0] = Bad<D>::get(); return t; } }; }

static LD series(uint64_t salt, M const & f, int i) { return (h01(mix(salt, f->id * 131 + f->tag * 7919 + 17 + 1009 * i)) * 1.5L + 0.2L) * (i & 1 ? -0.7L : 1); }
template <typename S> void seed(S & s, LD v, bool dir);
template <> void seed<E>(E & s, LD v, bool) { s = E((LD)(double)v); }
template <> void seed<D>(D & s, LD v, bool dir) { s = D(E((LD)(double)v), E(dir ? 1.0L : 0.0L)); }
template <typename S> Env<T<S> > env(std::vector<double> const & x, uint64_t salt, M const & dir, bool factor) {
  Env<T<S> > en;
  for (size_t i = 0; i < x.size(); ++i) { T<S> t; t.c[0] = S((LD)x[i]); if (i == 0) t.c[1] = S(1); en.x.push_back(t); }
  en.fsym = [salt, dir](M const & m) { T<S> t; for (int i = 0; i < N; ++i) seed<S>(t.c[i], series(salt, m, i), i == 0 && dir && equal(m, dir)); return t; };
  en.opaque = [factor, salt](M const & m, T<S> const & a, Env<T<S> > const &) {
    if (m->op != U_GRAD) return Bad<T<S> >::get();
    if (factor) return a * T<S>((LD)(double)(0.5L + h01(salt ^ 3)));
    return deriv(a);
  };
  return en;
}
static int grads(M const & m) { int d = 0; for (size_t i = 0; i < m->kids.size(); ++i) d = std::max(d, grads(m->kids[i])); return d + (m->k == UN && m->op == U_GRAD); }
static bool compare(M const & m, M const & d, M const & f, Gen & g, Rng & r, const char * what) {
  bool did = false;
  for (int k = 0; k < 4; ++k) {
    bool factor = k & 1;
    if (!factor && grads(m) >= N) continue;
    std::vector<double> x = g.point(5); uint64_t salt = r.next();
    T<D> a = ev(m, env<D>(x, salt, f, factor));
    D ref = a.c[0];
    if (!ref.v.ok || !ref.d.ok || ref.d.e > 1e-5L * (1 + fabsl(ref.d.v))) { cnt("skipped points"); continue; }
    E got = ev(d, env<E>(x, salt, M(), factor)).c[0];
    if (!got.ok || got.e > 1e-5L * (1 + fabsl(got.v))) { cnt("skipped points"); continue; }
    cnt(factor ? "values compared (gradient as factor)" : "values compared (gradient as derivative)"); did = true;
    if (!agree2(ref.d, got, 64)) { viol(std::string("value:") + what, std::string(what) + " with respect to " + str(f) + " is " + str(d) + " with value " + fmt((double)got.v) + ", expected " + fmt((double)ref.d.v)); break; }
  }
  return did;
}
static M fsym(Rng & r) { return mf(r.below(3) + (r.chance(0.15) ? away(r) : 0), r.chance(0.5) ? TAG_UNKNOWN() : TAG_TEST()); }
static M plant(M m, Rng & r, Gen & g) {   // gradients anywhere
  int n = r.below(4);
  for (int i = 0; i < n; ++i) { std::vector<M> s; subtrees(m, s); M t = r.pick(s); M a = r.chance(0.6) ? fsym(r) : (r.chance(0.5) ? t : g.gen(3)); m = subst1(m, t, mu(U_GRAD, a)); if (m->size > 120) break; }
  return m;
}
static void one(long, Rng & r) {
  Gen g(r); g.nvars = r.chance(0.2) ? 0 : 1 + r.below(3); g.symbols = true; g.fabs_ok = false; g.idop = r.chance(0.3); g.budget = 2 + r.below(12);
  M m = g();
  if (r.chance(0.01)) { g.div_ok = false; m = g.chain(30 + r.below(25)); }
  if (r.chance(0.15)) m = fsym(r);
  // the interesting symbol should occur
  M f = fsym(r);
  { std::vector<M> s, q; subtrees(m, s); for (size_t i = 0; i < s.size(); ++i) if (s[i]->k == FSYM) q.push_back(s[i]); if (q.size() && r.chance(0.75)) f = r.pick(q); }
  if (r.chance(0.85)) for (int i = 0; i < 1 + (int)r.below(3); ++i) { std::vector<M> s, q; subtrees(m, s); for (size_t j = 0; j < s.size(); ++j) if (s[j]->kids.empty()) q.push_back(s[j]); M t = r.pick(q); m = subst1(m, t, f); }
  if (r.chance(0.6)) m = plant(m, r, g);
  if (m->size > 200) { cnt("skipped expressions"); return; }
  desc(str(m) + " d/d" + str(f));
  Expr e = wrap(m);
  FSym fs(f->id, f->tag);
  phase("diff by a function symbol");
  Expr d = vmath::diff(e, fs);
  M md = read(d);
  bool did = compare(m, md, f, g, r, "the derivative");
  { Expr raw_d(e.get()->diff(&fs)); did = compare(m, read(raw_d), f, g, r, "the unsimplified derivative") || did; }
  if (!any(m, [&](M const & n) { return equal(n, f); })) { cnt("expressions without the symbol"); }
  phase("overloads");
  if (BExpr const * b = dynamic_cast<BExpr const *>(e.get())) { M q = read(vmath::diff(*b, fs)); if (!equal(q, md)) viol("overload", "diff(binary) gives " + str(q) + ", diff(expr) " + str(md)); }
  if (UExpr const * b = dynamic_cast<UExpr const *>(e.get())) { M q = read(vmath::diff(*b, fs)); if (!equal(q, md)) viol("overload", "diff(unary) gives " + str(q) + ", diff(expr) " + str(md)); }
  if (FSym const * b = dynamic_cast<FSym const *>(e.get())) { M q = read(vmath::diff(*b, fs)); if (!equal(q, mc(equal(m, f) ? 1 : 0))) viol("overload", "diff(function symbol, function symbol) gives " + str(q)); cnt("symbol by symbol"); }
  phase("second derivative");
  if (md->size < 80) {
    M f2 = r.chance(0.5) ? f : fsym(r); FSym fs2(f2->id, f2->tag);
    Expr dd = vmath::diff(d, fs2); compare(md, read(dd), f2, g, r, "the second derivative");
    if (!equal(read(d), md)) viol("mutated", "differentiating the derivative changed it");
  }
  if (!equal(read(e), m)) viol("mutated", "the expression is now " + str(read(e)));
  if (fs.id() != f->id || fs.tag_id() != f->tag) viol("mutated", "the symbol changed");
  phase("partial derivatives of a symbol");
  { M s = fsym(r); FSym ss(s->id, s->tag); unsigned long id = r.below(40) + (r.chance(0.3) ? away(r) : 0); Var v(id);
    M q = read(vmath::diff(ss, v)); cnt("partial derivatives");
    if (!equal(q, mu(U_PD, s, id))) viol("partial derivative", "diff(" + str(s) + ", x" + std::to_string(id) + ") gives " + str(q));
    M q0 = read(vmath::diff(ss, vmath::ct_variable<0>())), q2 = read(vmath::diff(ss, vmath::ct_variable<2>())), q7 = read(vmath::diff(ss, vmath::ct_variable<7>()));
    if (!equal(q0, mu(U_PD, s, 0)) || !equal(q2, mu(U_PD, s, 2)) || !equal(q7, mu(U_PD, s, 7))) viol("partial derivative", "by compiletime variables: " + str(q0) + " " + str(q2) + " " + str(q7)); }
  if (did && any(m, [&](M const & n) { return equal(n, f); })) { nontrivial(str(m) + " d" + str(f)); state(shape(m, 4)); }
}
int main(int c, char ** v) { return drive(c, v, "P21", one); }
