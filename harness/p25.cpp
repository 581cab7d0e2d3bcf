// P25: threads use the same constant objects at the same time (ThreadSanitizer watches) and get the results they would get alone.
// No synchronisation between the threads apart from the common start: the observation counters are relaxed atomics.
#include "vm.hpp"
#include <thread>
#include <atomic>
#include "viennamath/compiletime/ct_variable.hpp"
#include "viennamath/manipulation/expand.hpp"
#include "viennamath/manipulation/coefficient.hpp"
#include "viennamath/manipulation/drop_dependent_terms.hpp"
#include "viennamath/manipulation/integrate.hpp"
using namespace vm;
namespace vmath = viennamath;
struct Shared {           // objects all threads read
  std::vector<Expr> e; std::vector<VExpr> v; std::vector<Eqn> q; std::vector<Ival> iv; std::vector<SIval> si; std::vector<vmath::latex_translator> tex; std::vector<vmath::numerical_quadrature> quad;
  Var x, y; FSym u; std::vector<std::vector<double> > pts;
  Shared() : x(0), y(1), u(0, vmath::unknown_tag<>()) {}
};
struct Op { int kind; unsigned a, b, c; uint64_t seed; };
static const char * const KIND[] = { "eval at a vector", "eval at a scalar", "copy", "compare", "deep_str", "stream", "latex", "simplify", "diff", "diff by symbol", "substitute", "simultaneous substitution", "traverse", "manipulate", "is_constant", "operators", "wrap parts", "vector", "equation", "interval", "quadrature", "coordinate system", "replace domain", "private work", "rejected request", "assign from", "fresh translator", "compiletime", "functions", "integrals and partial derivatives", "kinds of points", "more rejected requests", "constants", "compiletime manipulation", "parts", "own rule" };
static const int NK = sizeof KIND / sizeof *KIND;
struct Counter : public vmath::rt_traversal_interface<Iface> { long * n; explicit Counter(long * p) : n(p) {} void operator()(Iface const * e) const { *n = *n * 31 + (long)e->shallow_str().size(); } bool step_into(Iface const *) const { return true; } };
struct Rewrite : public vmath::rt_manipulation_interface<Iface> { Iface * operator()(Iface const * e) const { if (dynamic_cast<Var const *>(e)) return new BExpr(e->clone(), new OpPlus(), new Const(1)); return e->clone(); } bool modifies(Iface const * e) const { return dynamic_cast<Var const *>(e) != NULL; } };
static std::string num(double d) { return fmt(d); }
static std::string perform(Shared const & s, Op const & o) {
  Expr const & e = s.e[o.a % s.e.size()]; Expr const & f = s.e[o.b % s.e.size()];
  try {
    switch (o.kind) {
      case 0: { double d = e(s.pts[o.c % s.pts.size()]), g = vmath::eval(e, s.pts[o.c % s.pts.size()]); return num(d) + " " + num(g); }
      case 1: return num(vmath::eval(e, 0.25 * (o.c % 9)));
      case 2: { Expr c(e); Expr d; d = c; std::unique_ptr<Iface> k(d.get()->clone()); return k->deep_str(); }
      case 3: { Expr c(f); return std::string(e.get()->deep_equal(f.get()) ? "1" : "0") + (e.get()->shallow_equal(f.get()) ? "1" : "0") + (f.get()->deep_equal(c.get()) ? "1" : "0"); }
      case 4: return e.get()->deep_str() + e.get()->shallow_str();
      case 5: { std::ostringstream os; os << e << s.x << s.u; if (!s.v.empty()) os << s.v[0]; return os.str(); }
      case 6: return s.tex[0](e);
      case 7: return vmath::simplify(e).get()->deep_str() + (e.get()->can_simplify() ? "1" : "0");
      case 8: return vmath::diff(e, o.c & 1 ? s.x : s.y).get()->deep_str();
      case 9: return vmath::diff(e, s.u).get()->deep_str();
      case 10: { Expr t = vmath::substitute(s.x, f, e); return t.get()->deep_str(); }
      case 11: { std::vector<Expr> a, b; a.push_back(Expr(s.x)); b.push_back(Expr(s.y)); a.push_back(Expr(s.y)); b.push_back(f); return vmath::substitute(a, b, e).get()->deep_str(); }
      case 12: { long n = 1; e.get()->recursive_traversal(vmath::rt_traversal_wrapper<Iface>(new Counter(&n))); return std::to_string(n); }
      case 13: { Expr r(e.get()->recursive_manipulation(vmath::rt_manipulation_wrapper<Iface>(new Rewrite()))); return r.get()->deep_str(); }
      case 14: return std::string(e.get()->is_constant() ? "c" : "-") + (e.get()->is_constant() ? num(e.get()->unwrap()) : "") + (e.get()->is_unary() ? "u" : "b");
      case 15: { Expr r = e + f; Expr t = e * f - s.x / 2.0; Expr w = 3.0 * e; return r.get()->deep_str() + t.get()->deep_str() + w.get()->deep_str(); }
      case 16: { std::string t; if (BExpr const * b = dynamic_cast<BExpr const *>(e.get())) { BExpr c(*b); t = b->lhs()->deep_str() + b->op()->str() + b->rhs()->deep_str() + c.deep_str(); } if (UExpr const * b = dynamic_cast<UExpr const *>(e.get())) { UExpr c(*b); t = b->op()->str() + b->lhs()->deep_str() + c.deep_str(); } return t; }
      case 17: { VExpr const & v = s.v[o.c % s.v.size()]; VExpr w(v); VExpr z = v + w; Expr p = v * w; Expr vs = vmath::simplify(Expr(v)); return z.deep_str() + p.get()->deep_str() + vs.get()->deep_str() + (v.deep_equal(&w) ? "1" : "0"); }
      case 18: { Eqn const & q = s.q[o.c % s.q.size()]; Eqn c(q); Eqn d; d = q; std::ostringstream os; os << q << d; return os.str() + s.tex[0](q) + c.lhs().get()->deep_str(); }
      case 19: { Ival const & q = s.iv[o.c % s.iv.size()]; Ival c(q); std::ostringstream os; os << q << c; return os.str() + s.tex[0](q); }
      case 20: { Expr g = vmath::integral(s.iv[0], f, s.x); return num(s.quad[0](g)) + " " + num(s.quad[0](s.iv[0], f, s.x)); }
      case 21: switch (o.c % 3) { case 0: return vmath::apply_coordinate_system(vmath::cartesian<1>(), e).get()->deep_str(); case 1: return vmath::apply_coordinate_system(vmath::cartesian<2>(), e).get()->deep_str(); default: { Eqn t = vmath::apply_coordinate_system(vmath::cartesian<3>(), s.q[o.c % s.q.size()]); return t.lhs().get()->deep_str() + t.rhs().get()->deep_str(); } }
      case 22: return vmath::substitute(s.si[o.c % s.si.size()], std::make_pair(s.iv[0], s.x), e).get()->deep_str();
      case 23: { Rng r(o.seed); Gen g(r); g.budget = 12; g.fabs_ok = false; M m = g(); Expr p = wrap(m); Expr d = vmath::diff(p, s.x); d = vmath::substitute(s.y, 2.5, d); vmath::inplace_simplify(p); p = p + d; return p.get()->deep_str() + num(vmath::eval(p, s.pts[0])); }
      case 24: { std::string t; try { Expr w(s.u); t = num(vmath::eval(w, s.pts[0])); } catch (std::exception const & x) { t = x.what(); } try { Var w(50); t += num(vmath::eval(Expr(w), s.pts[0])); } catch (std::exception const & x) { t += x.what(); } try { t += vmath::diff(Expr(vmath::fabs(s.x)), s.x).get()->deep_str(); } catch (std::exception const & x) { t += x.what(); } return t; }
      case 25: { Expr t(f); t = e; t = t + f; BExpr b = e + f; b = e * s.x; Expr c; c = b; return t.get()->deep_str() + c.get()->deep_str(); }
      case 26: { vmath::latex_translator own(s.tex[0]); own.customize(s.x, "\\xi"); vmath::latex_translator other; other = own; return other(e) + own(s.u); }
      case 27: { vmath::ct_variable<0> cx; vmath::ct_variable<1> cy; vmath::ct_constant<3> c3; Expr t = cx * cy + c3; t = t + e; return t.get()->deep_str() + num(vmath::eval(cx * cy + c3, s.pts[0])); }
      case 29: { Expr a = vmath::integral(s.iv[o.c % 2], e, s.x), b = vmath::integral(s.si[o.b % 2], e * s.u); Expr c(vmath::diff(s.u, s.x)), d(wrap(mu(U_GRAD, read(e)))), g(wrap(mu(U_DIVG, read(e)))); std::ostringstream os; os << a << b << c << d << g; return os.str() + (a.get()->deep_equal(b.get()) ? "1" : "0") + (c.get()->deep_equal(d.get()) ? "1" : "0") + s.tex[0](a + b); }
      case 30: { std::vector<double> const & p = s.pts[o.c % s.pts.size()]; return num(e(vmath::make_vector(p[0], p[1], p[2]))) + num(vmath::eval(e, vmath::make_vector(p[0], p[1]))) + num(e(Const(p[0]))) + num(e(vmath::ct_constant<3>())); }
      case 31: { std::string t; Quiet q;
        try { t += num(s.v[0].unwrap()); } catch (std::exception const & x) { t += x.what(); } try { t += num(s.quad[0](Expr(e * s.x))); } catch (std::exception const & x) { t += x.what(); }
        try { t += vmath::diff(e * s.u, s.x).get()->deep_str(); } catch (std::exception const & x) { t += x.what(); } try { t += num(e.get()->unwrap()); } catch (std::exception const & x) { t += x.what(); }
        try { t += num(vmath::eval(Expr(vmath::grad(s.u)), s.pts[0])); } catch (std::exception const & x) { std::string w = x.what(); t += w; }
        try { vmath::function_symbol z(3); t += num(vmath::eval(z * s.x, s.pts[0])); } catch (std::exception const & x) { t += x.what(); } return t; }
      case 32: { Expr a(vmath::rt_constant<long>(7)), b(vmath::rt_constant<float>(0.5f)), c(3); c = 2.5; c = c * a - b / e; Const k(1.5); Expr d = k * s.x + k; return c.get()->deep_str() + d.get()->deep_str() + num(a(s.pts[0])) + s.tex[0](a) + (a.get()->deep_equal(b.get()) ? "1" : "0"); }
      case 33: { vmath::ct_variable<0> cx; vmath::ct_variable<1> cy; vmath::ct_constant<3> c3; vmath::ct_constant<0> c0; vmath::ct_constant<1> c1; std::ostringstream os; os << Expr(vmath::diff((cx * cx + c3) * cy, cx)) << Expr(vmath::simplify(cx * cx - cx * cx + cy)) << Expr(vmath::expand((cx + cy) * (cx - c3))) << Expr(vmath::substitute(cx, cy + c3, cx * cx)) << Expr(vmath::coefficient(cx, cx * cy + c3)) << Expr(vmath::drop_dependent_terms(cx, cx * cy + c3)) << Expr(vmath::integrate(vmath::make_interval(c0, c1), cx * cx, cx)) << make_equation(cx, cy + c3) << make_interval(cx, s.x); return os.str(); }
      case 34: { std::string t = s.q[0].lhs().get()->deep_str() + s.q[1].rhs().get()->shallow_str() + s.iv[1].lower().get()->deep_str() + s.iv[1].upper().get()->shallow_str(); std::ostringstream os; os << s.iv[0].lower() << s.v[1][0] << s.v[1].size() << s.x.id() << s.u.id() << s.si[1].id(); Eqn w = vmath::make_equation(vmath::sin(s.x), s.x * s.y); os << w; return t + os.str(); }
      case 35: { vmath::numerical_quadrature own(new vmath::gauss_quad_1()), other(s.quad[0]); own = s.quad[0]; Expr g = vmath::integral(s.iv[0], f, s.x) + vmath::integral(s.iv[0], Expr(f * 2.0), s.x); return num(own(g)) + num(other(g)); }
      default: { Expr a(vmath::exp(e)), b(vmath::sin(e)), c(vmath::sqrt(s.x)), d(vmath::log(s.x * s.y)), g(vmath::grad(s.u)), h(vmath::div(s.u)); return a.get()->deep_str() + b.get()->deep_str() + c.get()->deep_str() + d.get()->deep_str() + g.get()->deep_str() + h.get()->deep_str(); }
    }
  }
  catch (std::exception const & x) { return std::string("exception: ") + x.what(); }
  catch (const char * x) { return std::string("exception: ") + x; }
}
static const int MAXT = 8;
static std::atomic<int> ready, now_op[MAXT], now_e[MAXT];
static std::atomic<bool> go;
struct Log { std::vector<std::string> out; std::vector<int> overlap; };
static void worker(Shared const * s, std::vector<Op> const * plan, Log * log, int me, int nt) {
  ready.fetch_add(1, std::memory_order_relaxed);
  while (!go.load(std::memory_order_relaxed)) { }
  for (size_t i = 0; i < plan->size(); ++i) {
    Op const & o = (*plan)[i];
    now_e[me].store((int)(o.a % s->e.size()), std::memory_order_relaxed); now_op[me].store(o.kind, std::memory_order_relaxed);
    // occasional delay so that the threads drift against each other
    if (o.seed % 5 == 0) std::this_thread::yield();
    if (o.seed % 7 == 0) for (volatile int k = 0; k < (int)(o.seed % 3001); ++k) { }
    log->out[i] = perform(*s, o);
    for (int t = 0; t < nt; ++t) if (t != me) { int k = now_op[t].load(std::memory_order_relaxed); if (k >= 0) log->overlap.push_back((o.kind * NK + k) * 2 + (now_e[t].load(std::memory_order_relaxed) == (int)(o.a % s->e.size()))); }
    now_op[me].store(-1, std::memory_order_relaxed);
  }
}
static void one(long i, Rng & r) {
  Shared s;
  { Gen g(r); g.nvars = 3; g.symbols = r.chance(0.5); g.opaque = r.chance(0.4); g.budget = 4 + r.below(14); g.fabs_ok = r.chance(0.2);
    int n = 3 + r.below(4); std::string d;
    for (int k = 0; k < n; ++k) { Gen h(r); h.nvars = 3; h.budget = 10; h.fabs_ok = false; M m = r.chance(0.5) ? g() : h(); if (m->size > 60) m = h.gen(8); s.e.push_back(wrap(m)); d += str(m) + "; "; }
    s.e.push_back(wrap(mu(U_SYM, mb(MUL, mu(U_GRAD, mf(0, TAG_UNKNOWN())), mu(U_GRAD, mf(0, TAG_TEST()))), 0)));
    for (int k = 0; k < 2; ++k) { std::vector<M> v; for (int j = 0; j < 3; ++j) v.push_back(g.gen(4)); VExpr x(3); for (int j = 0; j < 3; ++j) x[j] = wrap(v[j]); s.v.push_back(x); }
    for (int k = 0; k < 2; ++k) s.q.push_back(Eqn(s.e[r.below(s.e.size())], s.e[r.below(s.e.size())]));
    s.iv.push_back(Ival(Expr(Const(0)), Expr(Const(2)))); s.iv.push_back(Ival(s.e[0], s.e[1]));
    s.si.push_back(SIval(0)); s.si.push_back(SIval(1));
    s.tex.resize(1); if (r.chance(0.5)) s.tex[0].customize(s.y, "\\eta");
    vmath::numerical_quadrature qd(new vmath::gauss_quad_1()); s.quad.push_back(qd);
    for (int k = 0; k < 3; ++k) s.pts.push_back(g.point(4));
    desc(d); }
  int nt = 2 + r.below(5), ops = 12 + r.below(20);
  int focus = r.chance(0.4) ? (int)r.below(NK) : -1;           // many threads doing the same thing, or everything at random
  std::vector<std::vector<Op> > plan(nt); std::vector<Log> log(nt);
  for (int t = 0; t < nt; ++t) { for (int k = 0; k < ops; ++k) { Op o; o.kind = (focus >= 0 && r.chance(0.6)) ? focus : (int)r.below(NK); o.a = r.below(100); o.b = r.below(100); o.c = r.below(100); o.seed = r.next(); if (focus >= 0 && r.chance(0.5)) o.a = 0; plan[t].push_back(o); } log[t].out.resize(ops); }
  phase("threads");
  ready = 0; go = false; for (int t = 0; t < MAXT; ++t) now_op[t] = -1;
  { Quiet q; std::vector<std::thread> th; Shared const & cs = s; for (int t = 0; t < nt; ++t) th.push_back(std::thread(worker, &cs, &plan[t], &log[t], t, nt)); while (ready.load(std::memory_order_relaxed) < nt) { } go.store(true, std::memory_order_relaxed); for (int t = 0; t < nt; ++t) th[t].join(); }
  phase("alone");
  for (int t = 0; t < nt; ++t) for (int k = 0; k < ops; ++k) {
    std::string w; { Quiet q; w = perform(s, plan[t][k]); } cnt("results compared");
    if (w != log[t].out[k]) viol(std::string("result:") + KIND[plan[t][k].kind], "thread " + std::to_string(t) + " got \"" + log[t].out[k].substr(0, 500) + "\" from " + KIND[plan[t][k].kind] + ", alone: \"" + w.substr(0, 500) + "\"");
    if (w.compare(0, 10, "exception:") == 0) cnt("rejected requests"); else nontrivial(KIND[plan[t][k].kind] + w.substr(0, 60));
  }
  for (int t = 0; t < nt; ++t) for (size_t k = 0; k < log[t].overlap.size(); ++k) { int o = log[t].overlap[k]; cnt(o & 1 ? "overlapping operations on the same expression" : "overlapping operations"); state(std::string(KIND[o / 2 / NK]) + "|" + KIND[o / 2 % NK] + (o & 1 ? "!" : "")); }
  cnt("threads", nt); (void)i;
}
int main(int c, char ** v) { return drive(c, v, "P25", one, 0); }
