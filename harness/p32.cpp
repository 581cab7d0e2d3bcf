// P32: memory and work do not grow with use. Memory allocated while the library works is counted; after every iteration everything the iteration made
// is destroyed, so whatever stays is held by the library (or by an object which was only used). Rejected requests are not counted.
#include <new>
#include <atomic>
#include <thread>
#include "answers.hpp"
#include "viennamath/compiletime/ct_variable.hpp"
namespace vmath = viennamath;

static std::atomic<bool> counting(false);
static std::atomic<long> held(0), blocks(0), allocs(0), ticks(0);
static std::atomic<long> budget(0);   // work (allocations and visits of leaves) which is more than enough
struct TooMuch {};
static void spend() { long b = budget.load(std::memory_order_relaxed); if (b && allocs.load(std::memory_order_relaxed) + ticks.load(std::memory_order_relaxed) > b) { budget = 0; throw TooMuch(); } }
static void * get(size_t n) {
  bool c = counting.load(std::memory_order_relaxed);
  if (c) { spend(); held += (long)n; ++blocks; ++allocs; }
  size_t * p = (size_t *)malloc(n + 16); if (!p) throw std::bad_alloc();
  p[0] = c; p[1] = n; return p + 2;
}
static void put(void * q) { if (!q) return; size_t * p = (size_t *)q - 2; if (p[0]) { held -= (long)p[1]; --blocks; } free(p); }
void * operator new(size_t n) { return get(n); }
void * operator new[](size_t n) { return get(n); }
void operator delete(void * p) noexcept { put(p); }
void operator delete[](void * p) noexcept { put(p); }
void operator delete(void * p, size_t) noexcept { put(p); }
void operator delete[](void * p, size_t) noexcept { put(p); }

// a user-defined leaf which behaves like a variable (or, above 8, like a constant) and counts how often it is asked anything
struct Tick : Iface {
  unsigned long id; explicit Tick(unsigned long i) : id(i) {}
  static void t() { ++ticks; if (counting) spend(); }
  Iface * clone() const { t(); return new Tick(id); }
  std::string deep_str() const { t(); return "t" + std::to_string(id); }
  std::string shallow_str() const { t(); return "t" + std::to_string(id); }
  double eval(std::vector<double> const & v) const { t(); return id > 8 ? 1.0 + 0.25 * (double)(id & 3) : v.at(id); }
  double eval(double v) const { t(); return id > 8 ? 1.0 + 0.25 * (double)(id & 3) : v; }
  bool is_unary() const { t(); return true; }
  bool is_constant() const { t(); return id > 8; }
  double unwrap() const { t(); if (id > 8) return 1.0 + 0.25 * (double)(id & 3); throw vmath::expression_not_unwrappable_exception("tick"); }
  bool shallow_equal(Iface const * o) const { t(); return dynamic_cast<Tick const *>(o) != NULL; }
  bool deep_equal(Iface const * o) const { t(); Tick const * k = dynamic_cast<Tick const *>(o); return k && k->id == id; }
  Iface * recursive_manipulation(vmath::rt_manipulation_wrapper<Iface> const & fw) const { t(); return fw(this); }
  void recursive_traversal(vmath::rt_traversal_wrapper<Iface> const & fw) const { t(); fw(this); }
  Iface * substitute(Iface const * e, Iface const * r) const { t(); return deep_equal(e) ? r->clone() : clone(); }
  Iface * substitute(std::vector<Iface const *> const & e, std::vector<Iface const *> const & r) const { t(); for (size_t i = 0; i < e.size(); ++i) if (deep_equal(e[i])) return r[i]->clone(); return clone(); }
  bool can_simplify() const { t(); return false; }
  Iface * simplify() const { t(); return clone(); }
  Iface * diff(Iface const * v) const { t(); Var const * x = dynamic_cast<Var const *>(v); return new Const(x && x->id() == id ? 1 : 0); }
};
static M tick(unsigned long id) { return mu(U_LEAF, mc(0), id); }
static Iface * tick_raw(M const & m) { return new Tick(m->id); }
static M tick_read(Iface const * e) { Tick const * t = dynamic_cast<Tick const *>(e); return t ? tick(t->id) : M(); }
static M with_ticks(M const & m, Rng & r) { // some variables become counting leaves
  if (m->k == VAR && m->id < 3 && r.chance(0.6)) return tick(m->id);
  if (m->kids.empty()) return m;
  std::vector<M> k(m->kids); size_t n = m->k == UN && m->op == U_INT ? 1 : k.size(); for (size_t i = 0; i < n; ++i) k[i] = with_ticks(k[i], r);
  return with_kids(m, k);
}

// --- what is repeated
enum { EQUAL = NOPS, BUILD, EQUATION, INTERVAL, DOMAIN_, VECTOR, CUSTOM, CONVERT, ASSIGN, RULES, SHARED, HISTORY, NKIND };
static const char * kind(int o) { static const char * const n[] = { "comparison", "operators", "equation", "interval", "domain replacement", "vector", "LaTeX customization", "compiletime conversion", "assignment", "quadrature rules", "reuse of old objects", "history" }; return o < NOPS ? ONAME[o] : n[o - NOPS]; }
struct Kept { // objects which live as long as the case
  vmath::latex_translator tr; vmath::numerical_quadrature quad, none; Expr e, f; VExpr v; Ival iv; Eqn q; BExpr b; UExpr u;
  Kept() : quad(new vmath::gauss_quad_1()), e(Var(0)), f(Var(1)), v(2), iv(Expr(0.0), Expr(1.0)), q(Expr(Var(0)), Expr(0.0)), b(new Var(0), new OpPlus(), new Const(1.0)), u(new Var(0), new OpExp()) {}
};
struct Foo_ : vmath::rt_latex_processor_interface<Iface> { // a user-supplied processor
  vmath::rt_latex_processor_interface<Iface> * clone() const { return new Foo_(); }
  std::string process(Iface const *, bool, vmath::rt_latex_translator<Iface> const &) const { return "foo"; }
  bool customize(Iface const *, std::string const &) { return false; }
};
struct Work { M m, m2; uint64_t seed; unsigned long base; bool fresh; };
// one iteration; false: the request was rejected
static bool perform(int o, Work const & z, Pool & w, Kept & s) {
  Rng r(z.seed); int k = r.below(12);
  if (o < NOPS) {
    bool rejected = false;
    Expr e = wrap(z.m);
    vmath::latex_translator mine;
    Ans a = answer(e.get(), r.chance(0.5) ? &e : NULL, o, k, w, z.fresh ? mine : s.tr); rejected = a.s == "rejected";
    return !rejected;
  }
  try { switch (o) {
    case EQUAL: { Expr a = wrap(z.m), b = wrap(z.m2); (void)a.get()->deep_equal(b.get()); (void)a.get()->shallow_equal(b.get()); (void)a.get()->deep_equal(a.get()); (void)s.e.get()->deep_equal(a.get()); break; }
    case BUILD: { Expr a = wrap(z.m), b = wrap(z.m2); Var x(z.base); Expr c = a + b * x - a / Expr(3.0) + 2.0 * x; c = vmath::sin(c) + vmath::exp(a) * vmath::sqrt(b) - vmath::fabs(x) + vmath::log(a) + vmath::log10(b) + vmath::tan(a) - vmath::cos(b); c = c + a; c = c - b; c = Expr(2.0) * c; c = c / x; FSym u(z.base, TAG_TEST()); c = c + u * vmath::grad(u); Expr d(c); d = a; c = 2.0; break; }
    case EQUATION: { Eqn a(wrap(z.m), wrap(z.m2)), b(a); b = Eqn(wrap(z.m2), wrap(z.m)); a = b; std::ostringstream t; t << a; vmath::latex_translator mine; if (vecless(z.m) && vecless(z.m2)) (z.fresh ? mine : s.tr)(a); break; }
    case INTERVAL: { Ival a(wrap(z.m), wrap(z.m2)), b(a); b = Ival(Expr(0.0), Expr((double)z.base)); a = b; if (vecless(z.m)) { Expr i = vmath::integral(b, wrap(z.m), Var(z.base % 5)); std::ostringstream t; t << i; Expr j = vmath::simplify(i); vmath::latex_translator mine; (z.fresh ? mine : s.tr)(i); } break; }
    case DOMAIN_: { SIval d(z.base); Expr i = vmath::integral(d, wrap(z.m)); Expr j = i + Expr(1.0) * i; Ival v(Expr(0.0), Expr(1.0)); Expr a = vmath::substitute(d, std::make_pair(v, Var(0)), j); Expr b = vmath::substitute(SIval(z.base + 1), std::make_pair(v, Var(1)), j); Expr c = vmath::apply_coordinate_system(vmath::cartesian<3>(), j); break; }
    case VECTOR: { VExpr v(3), q(3); for (int i = 0; i < 3; ++i) { v[i] = wrap(z.m); q[i] = wrap(z.m2); } VExpr c(v); c = q; Expr d = v * q; Expr e = v; Expr f = e * Expr(2.0); std::vector<double> p(3, 0.5); if (evaluable(z.m) && evaluable(z.m2) && !any(z.m, [](M const & m) { return m->k == VAR && m->id > 2; }) && !any(z.m2, [](M const & m) { return m->k == VAR && m->id > 2; })) { (void)d(p); } Expr h = vmath::grad(FSym(0)) * vmath::grad(FSym(1)); h = vmath::apply_coordinate_system(vmath::cartesian<2>(), h); break; }
    case CUSTOM: { vmath::latex_translator mine; vmath::latex_translator & t = z.fresh ? mine : s.tr; if (z.fresh) t.add_processor(new Foo_()); std::string n = "n" + std::to_string(z.base); t.customize(Var(k % 3), n); t.customize(FSym(k % 3, TAG_TEST()), n); vmath::latex_translator other(t); vmath::latex_translator third; third = t; third.customize(Var(z.base), n); if (vecless(z.m)) { Expr e = wrap(z.m); third(e); other(e); t(e); } break; }
    case CONVERT: { vmath::ct_variable<1> y; vmath::ct_constant<3> c; Expr a = y + c; Expr b = vmath::ct_variable<0>() * y - c; a = b; BExpr d = a * c; Expr e = wrap(z.m) + c; e = y; e = c; e = e + y; break; }
    case ASSIGN: { s.e = wrap(z.m); s.f = s.e; s.e = s.f + s.e; s.b = s.e + s.f; s.u = vmath::exp(s.f); s.e = s.b; s.e = s.u; s.v[0] = s.e; s.v[1] = s.v[0]; s.iv = Ival(s.v[0], s.f); s.q = Eqn(s.iv.lower(), s.v[1]); s.e = s.e; s.f = wrap(z.m2); s.e = s.e + s.f; s.e = Expr(Var(0)); s.f = Expr(Var(1)); s.b = Expr(Var(0)) + Expr(1.0); s.u = vmath::exp(Expr(Var(0))); s.v[0] = 0.0; s.v[1] = 0.0; s.iv = Ival(Expr(0.0), Expr(1.0)); s.q = Eqn(Expr(Var(0)), Expr(0.0)); break; }
    case RULES: { vmath::numerical_quadrature a(new vmath::gauss_quad_1()), b(a), c; c = b; s.none = c; s.quad = a; vmath::numerical_quadrature & u = z.fresh ? c : s.none; double lo = (double)(z.base % 1000) / 64.0; Var x(0); Expr e = wrap(z.m); if (evaluable(z.m) && !any(z.m, [](M const & m) { return m->k == VAR && m->id; })) { u(Ival(Expr(lo), Expr(lo + 1)), e, x); Expr i = vmath::integral(Ival(Expr(lo), Expr(2.0)), e, x); u(i); u(Expr(i + i)); } break; }
    case SHARED: { // questions to objects which live on
      std::vector<double> p(3); for (int i = 0; i < 3; ++i) p[i] = 0.125 * (double)(z.base % 4096) + i; (void)s.e(p); (void)vmath::eval(s.f, p); (void)s.b(p); (void)s.u(p); (void)s.e(p[0]); Expr a = vmath::simplify(s.e), d = vmath::diff(s.b, Var(z.base % 7)), c = vmath::substitute(Expr(Var(0)), wrap(z.m), s.e), g = vmath::diff(s.u, FSym(z.base)); s.tr(s.q); s.tr(s.b); s.tr(s.u); std::ostringstream t; t << s.e << s.b << s.u << s.v << s.q << s.iv; s.quad(Ival(Expr(p[0]), Expr(p[1])), s.e, Var(0)); (void)s.v.eval(p); break; }
    default: { Machine m(r, false); for (int i = 0; i < 12; ++i) m.step(); }
  } }
  catch (ReadError const &) { throw; } catch (TooMuch const &) { throw; }
  catch (std::exception const &) { return false; } catch (const char *) { return false; }
  return true;
}
struct Stash { // the recorder's own memory does not count
  std::map<std::string, long> c; std::set<std::string> s; std::set<uint64_t> h; std::vector<std::string> t; std::string d, p;
  Stash() { flip(); }
  void flip() { Run & u = R(); c.swap(u.counters); s.swap(u.shapes); h.swap(u.hashes); t.swap(u.samples); d.swap(u.desc); p.swap(u.phase); }
  bool rejected() { return R().counters.count("rejected"); }
};
static bool iteration(int o, Work const & z, Pool & w, Kept & s, bool in_thread) {
  bool ok = true;
  counting = true;
  {
    Stash st; Quiet q;
    try {
      if (in_thread) { bool over = false; std::thread t([&]() { try { ok = perform(o, z, w, s); } catch (TooMuch const &) { over = true; } catch (...) { ok = false; } }); t.join(); if (over) throw TooMuch(); }
      else ok = perform(o, z, w, s);
    } catch (...) { counting = false; st.flip(); throw; }
    if (st.rejected()) ok = false;
    st.flip();
  }
  counting = false;
  return ok;
}
static void repeat(Rng & r) {
  int o = r.below(NKIND + 4); if (o >= NKIND) o = r.chance(0.5) ? SHARED : EVAL;
  bool same = r.chance(0.25), in_thread = !same && r.chance(0.12), fresh = r.chance(0.5), ids = !same && r.chance(0.3) && o != EVAL && o != EVAL1 && o != SHARED && o != QUAD, ticking = r.chance(0.3) && o != LATEX && o != CUSTOM && o != EQUATION && o != INTERVAL && o != HISTORY && o != SHARED && o != ASSIGN;
  int N = o == HISTORY ? 400 : 1170; double stop = N / 97.66; // looks at the memory after every 2.5 times as many iterations: a growing array takes new memory at least once
  std::string name = std::string(kind(o)) + (same ? ", the same every time" : "") + (in_thread ? ", in threads" : "") + (ids ? ", new identifiers" : "");
  phase(name); desc(name); state(name + (fresh ? ", new translators" : "") + (ticking ? ", user-defined leaves" : ""));
  Gen g(r); g.symbols = o != EVAL && o != EVAL1 && o != QUAD && o != RULES && o != EQUAL && r.chance(0.5); g.opaque = g.symbols && r.chance(0.5); g.nvars = o == RULES ? 1 : 3; int size = 2 + r.below(9);
  Kept s; Pool w; for (int i = 0; i < 3; ++i) w.pts.push_back(g.point(3));
  Work z; long base0 = held, work0 = 0, rejected = 0; long at[6] = { 0 }, bl[6] = { 0 }; double work[6] = { 0 }; int n = 0, n0 = 0; double sum = 0; int win = 0;
  Work first; bool have = false; (void)work0;
  for (int i = 0; i < N; ++i) {
    if (!same || !have) {
      for (int t = 0; t < 60; ++t) { g.budget = size; z.m = g.gen(1 + r.below(size)); if (o >= NOPS || allowed(z.m, o)) break; z.m = mv(r.below(g.nvars)); }
      z.m2 = r.chance(0.3) ? g.twin(z.m) : g.gen(1 + r.below(size));
      if (ids) { z.m = far_ids(z.m, r, 10 + i); z.m2 = far_ids(z.m2, r, 10 + i); }
      if (ticking) { z.m = with_ticks(z.m, r); z.m2 = with_ticks(z.m2, r); }
      z.seed = r.next(); z.base = ids ? 10 + i : 3 + r.below(same ? 20 : 100000); z.fresh = fresh; if (o == DOMAIN_ || o == BUILD || o == CUSTOM) z.base = 10 + i;
      w.pts.clear(); for (int j = 0; j < 3; ++j) w.pts.push_back(g.point(3));
      w.from.clear(); w.to.clear(); w.fe.clear(); w.te.clear();
      for (int j = 0; j < 3; ++j) { M f = j == 0 ? mv(r.below(3)) : j == 1 ? mc(g.cst()) : g.gen(1 + r.below(3)); if (has_nan(f)) f = mv(1); w.from.push_back(f); w.to.push_back(g.gen(1 + r.below(3))); w.fe.push_back(wrap(f)); w.te.push_back(wrap(w.to.back())); }
      have = true;
    }
    long before = held, nb = blocks, wk = allocs + ticks;
    bool ok = iteration(o, z, w, s, in_thread);
    wk = allocs + ticks - wk;
    if (!ok) { ++rejected; held = before; blocks = nb; continue; } // what a rejected request leaves behind is not judged here
    ++n; sum += (double)wk; cnt("iterations");
    if (i + 1 >= stop && win < 5) { stop *= 2.5; at[win] = held; bl[win] = blocks; work[win] = n > n0 ? sum / (n - n0) : 0; n0 = n; sum = 0; ++win; }
  }
  at[5] = held; bl[5] = blocks; work[5] = n > n0 ? sum / (n - n0) : work[4];
  cnt(std::string("  ") + kind(o)); cnt("rejected iterations", rejected); cnt("rounds");
  if (win < 5) { cnt("rounds with mostly rejected requests"); return; }
  bool grows = true, more = same; for (int i = 0; i < 5; ++i) { if (at[i + 1] <= at[i]) grows = false; if (work[i + 1] <= work[i]) more = false; }
  nontrivial(name + std::to_string(r.s));
  if (grows) viol("memory grows: " + std::string(kind(o)), name + " (last: " + str(z.m) + ", " + str(z.m2) + "): after " + std::to_string(N) + " iterations, all objects of which are destroyed, " + std::to_string(at[5] - base0) + " bytes in " + std::to_string(bl[5]) + " blocks are held, " + std::to_string(at[4] - base0) + " " + std::to_string(at[3] - base0) + " " + std::to_string(at[2] - base0) + " after 0.4, 0.16, 0.064 of them");
  if (more) viol("work grows: " + std::string(kind(o)), name + " (" + str(z.m) + ") needs more and more work: " + fmt(work[0]) + " " + fmt(work[1]) + " " + fmt(work[3]) + " " + fmt(work[5]));
}

// --- work for larger and larger expressions
static const char * const SHAPE[] = { "left chain", "right chain", "balanced", "functions", "mixed", "zigzag", "same operator left", "same operator right", "fraction", "nested fraction" };
static M chain(int shape, int n, std::function<M()> leaf, uint64_t seed) {
  Rng r(seed); M m = leaf();
  static const int FN[] = { U_SIN, U_EXP, U_COS, U_TAN, U_ID, U_SQRT, U_LOG }; int same = r.below(3);
  if (shape == 2) { std::vector<M> v; for (int i = 0; i < n; ++i) v.push_back(leaf()); while (v.size() > 1) { std::vector<M> q; for (size_t i = 0; i + 1 < v.size(); i += 2) q.push_back(mb(r.below(4), v[i], v[i + 1])); if (v.size() & 1) q.push_back(v.back()); v.swap(q); } return v[0]; }
  for (int i = 0; i < n; ++i) switch (shape) {
    case 0: m = mb(r.below(4), m, leaf()); break;
    case 1: m = mb(r.below(4), leaf(), m); break;
    case 3: m = mu(FN[r.below(7)], m); break;
    case 4: switch (r.below(4)) { case 0: m = mb(r.below(4), m, leaf()); break; case 1: m = mb(r.below(4), leaf(), m); break; case 2: m = mu(FN[r.below(7)], m); break; default: m = mb(ADD, mb(MUL, leaf(), m), leaf()); } break;
    case 5: m = i & 1 ? mb(r.below(3), m, leaf()) : mb(r.below(3), leaf(), m); break;
    case 6: m = mb(same, m, leaf()); break;
    case 7: m = mb(same, leaf(), m); break;
    case 8: m = mb(DIV, m, leaf()); break;
    default: m = mb(DIV, leaf(), mb(ADD, leaf(), m));
  }
  return m;
}
static void scale(Rng & r) {
  int o, shape = r.below(10); do o = r.below(NOPS + 2); while (o == FLAGS + 100);
  if (o == NOPS) o = EQUAL; else if (o == NOPS + 1) o = EQUATION;
  bool ticking = o != LATEX && o != EQUATION && o != COORD && r.chance(0.7); int leaves = r.below(6); uint64_t seed = r.next(), ls = r.next();
  std::string name = std::string(kind(o)) + " of a " + SHAPE[shape] + (ticking ? " with user-defined leaves" : "");
  phase(name); desc(name); state(name);
  Kept s; Pool w; Gen g(r); for (int i = 0; i < 3; ++i) { std::vector<double> p; for (int j = 0; j < 3; ++j) p.push_back(r.real(0.5, 1.5)); w.pts.push_back(p); }
  for (int j = 0; j < 3; ++j) { M f = j == 2 ? mb(ADD, mv(0), mv(1)) : mv(j); w.from.push_back(f); w.to.push_back(j ? mc(2) : mv(2)); w.fe.push_back(wrap(f)); w.te.push_back(wrap(w.to.back())); }
  double last = 0; Work z; z.seed = r.next(); z.base = 7; z.fresh = true; std::string seen;
  for (int n = 6; n <= (o == DIFFV || o == DIFFF ? 24 : 48); n *= 2) {
    Rng l(ls);
    auto leaf = [&]() -> M { unsigned k = l.below(6); unsigned long id = o == QUAD ? Rng(z.seed).below(12) % 3 : leaves == 0 ? 0 : l.below(3); if (leaves == 2 && k < 2) return mc(k ? 1.0 : 0.0); if (leaves == 3 && k < 3) return mc(l.real(0.5, 1.5)); if (leaves >= 4 && (leaves == 4 || k < 4)) return ticking ? tick(9 + l.below(4)) : mc(l.real(0.5, 1.5)); return ticking && k != 5 ? tick(id) : mv(id); };
    z.m = chain(shape, n, leaf, seed); z.m2 = r.chance(0.5) ? z.m : mb(ADD, z.m, mv(0));
    long before = held, nb = blocks, wk = allocs + ticks;
    double limit = n > 6 ? 40.0 * last + 20000 : 4e6; budget = (long)(wk + limit);
    bool over = false, ok = false;
    try { ok = iteration(o, z, w, s, false); } catch (TooMuch const &) { over = true; }
    budget = 0; double used = (double)(allocs + ticks - wk);
    long keeps = held - before; held = before; blocks = nb;
    seen += " " + std::to_string(n) + ": " + fmt(used);
    if (over) { viol("work explodes: " + std::string(kind(o)), name + " needs (allocations and visits of leaves)" + seen + " or more for lengths up to " + std::to_string(n)); return; }
    if (!ok) { cnt("scaling stopped by a rejected request"); return; }
    if (keeps) { cnt("memory kept after one request"); }
    cnt("scaling steps"); if (last > 0) { double q = used / last; cnt(std::string("  twice the length: ") + (q < 2.5 ? "up to 2.5" : q < 5 ? "up to 5" : q < 10 ? "up to 10" : q < 20 ? "up to 20" : "more than 20") + " times the work"); }
    last = used;
  }
  cnt("scaling rounds"); nontrivial(name + std::to_string(seed));
}
static void one(long, Rng & r) { if (r.chance(0.5)) scale(r); else repeat(r); }
int main(int c, char ** v) { hooks().raw = tick_raw; hooks().read = tick_read; return drive(c, v, "P32", one, 0); }
