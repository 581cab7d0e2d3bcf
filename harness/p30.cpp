// P30: failures are clean. Every operation is repeated with a failure injected at its first, second, third, ... opportunity (an allocation, or a call
// of a user-supplied visitor, manipulator, quadrature rule or LaTeX processor) until it succeeds; after each failure all objects have to denote what
// they did before (the target of an assignment: its old or its new value), and the final success has to have the ordinary result.
#include <new>
#include "machine.hpp"
using namespace vm;

static long fuse = -1, blown = 0, allocs = 0;      // allocations left; -1: no failures
static void * grab(size_t n) {
  if (fuse >= 0) { ++allocs; if (fuse-- == 0) { fuse = -1; ++blown; throw std::bad_alloc(); } }
  void * p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p;
}
void * operator new(size_t n) { return grab(n); }
void * operator new[](size_t n) { return grab(n); }
void operator delete(void * p) noexcept { free(p); }
void operator delete[](void * p) noexcept { free(p); }
void operator delete(void * p, size_t) noexcept { free(p); }
void operator delete[](void * p, size_t) noexcept { free(p); }
struct Fuse { explicit Fuse(long n) { blown = 0; allocs = 0; fuse = n; } ~Fuse() { fuse = -1; } };

// user-supplied parts which fail at a given call
struct UserFault : std::exception { const char * what() const throw() { return "user fault"; } };
static long calls_left = -1, user_failed = 0;
static void user_call() { if (calls_left >= 0 && calls_left-- == 0) { ++user_failed; calls_left = -1; throw UserFault(); } }
struct BadVisit : viennamath::rt_traversal_interface<Iface> { std::string * s; explicit BadVisit(std::string * p) : s(p) {} void operator()(Iface const *) const { user_call(); } bool step_into(Iface const *) const { user_call(); return true; } };
struct BadManip : viennamath::rt_manipulation_interface<Iface> { Swap01 m; Iface * operator()(Iface const * e) const { user_call(); return m(e); } bool modifies(Iface const * e) const { user_call(); return m.modifies(e); } };
struct BadRule : viennamath::numerical_quadrature_interface<Iface> {
  viennamath::gauss_quad_1 g;
  BadRule * clone() const { return new BadRule(); }
  double eval(Ival const & i, Expr const & e, Var const & v) const { user_call(); return g.eval(i, e, v); }
};
struct BadProc : viennamath::rt_latex_processor_interface<Iface> {
  viennamath::rt_latex_processor_interface<Iface> * clone() const { user_call(); return new BadProc(); }
  std::string process(Iface const * e, bool, viennamath::latex_translator const &) const { if (dynamic_cast<VExpr const *>(e)) { user_call(); return "V"; } return ""; }
};

struct World {
  Machine m; Rng & r; viennamath::numerical_quadrature quad; viennamath::latex_translator tr; std::string names[2];
  explicit World(Rng & rr) : m(rr, true), r(rr), quad(new BadRule()) { names[0] = tr(Expr(Var(0))); }
  std::string what;
  void say(std::string const & s) { what = s; m.act(s); }

  // the operation f, whose target (if any) is described by slot: model to be replaced by `want`; after success the model is updated
  typedef std::function<std::vector<M>()> Look;   // reads the target
  template <typename F> void attempt(F f, std::vector<M *> slots = std::vector<M *>(), std::vector<M> want = std::vector<M>(), Look look = Look()) {
    bool user = false; long k = 0, last = -1; std::vector<M> old; for (size_t i = 0; i < slots.size(); ++i) old.push_back(*slots[i]);
    for (;; ) {
      bool ok = false, fired; std::string err; { Fuse z(user ? -1 : k); calls_left = user ? k : -1; user_failed = 0;
        try { f(); ok = true; } catch (std::bad_alloc const &) { } catch (UserFault const &) { } catch (std::exception const &) { err = "rejected"; } catch (const char *) { err = "rejected"; } }
      calls_left = -1; fired = user ? user_failed > 0 : blown > 0;
      if (!ok && !fired && err == "") viol("failure without cause: " + pat(), "failed although nothing was injected");
      cnt(fired ? (user ? "user failures injected" : "allocation failures injected") : "operations completed");
      if (fired) state(pat() + (user ? "u" : "a") + std::to_string(std::min(k, 40l)));
      std::string after = what + (fired ? (user ? " failing at user call " : " failing at allocation ") + std::to_string(k) : "");
      phase(after);
      if (fired && ok) cnt("failures absorbed");
      if (slots.size()) {
        if (ok) for (size_t i = 0; i < slots.size(); ++i) *slots[i] = want[i];
        else { try { std::vector<M> now = look(); bool kept = true, got = true; for (size_t i = 0; i < slots.size(); ++i) { kept = kept && (now[i] == old[i] || (now[i] && old[i] && equal(now[i], old[i]))); got = got && now[i] && equal(now[i], want[i]); if (old[i] && !now[i]) viol("emptied target: " + pat(), "the target is empty after " + after); *slots[i] = now[i]; } cnt(kept ? "targets kept" : got ? "targets set" : "targets half set"); }
          catch (ReadError const & x) { viol("broken target: " + pat(), "the target is " + x.what + " after " + after); return; } }
      }
      m.check(after);
      if (R().violations > 9) return;
      if (!fired) { if (!user) { user = true; k = 0; calls_left = 0; user_failed = 0; { bool uses = false; long keep = k; (void)keep; try { f(); } catch (UserFault const &) { uses = true; } catch (std::exception const &) {} catch (const char *) {} calls_left = -1; if (!uses) return; } k = 1; cnt("operations with user parts"); continue; } return; }
      last = k; k += k < 60 ? 1 : 1 + r.below(1 + k / 8); (void)last;
    }
  }
  static M ex(Expr const & e) { return e.get() ? read(e) : M(); }
  static std::vector<M> two(Expr const & a, Expr const & b) { std::vector<M> v; v.push_back(ex(a)); v.push_back(ex(b)); return v; }
  std::string pat() { return Machine::pattern(what); }
  template <typename F, typename G> void assign(M & slot, M const & want, F f, G g) { std::vector<M *> s(1, &slot); std::vector<M> w(1, want); attempt(f, s, w, [=]() { return std::vector<M>(1, g()); }); }
  // an operation whose result is a tree; the result of the undisturbed run has to be `want` (if given)
  template <typename F> void result(F f, M const & want = M()) {
    Expr out; M first;
    { Expr z; calls_left = -1; try { z = f(); first = read(z); } catch (std::exception const &) { } catch (const char *) { } }
    attempt([&]() { Expr z = f(); fuse = -1; out = z; });
    if (out.get()) { M got = read(out); cnt("results compared"); if (!equal(got, want ? want : first)) viol("result after failures: " + pat(), what + " gives " + str(got) + " instead of " + str(want ? want : first)); }
    else if (first) viol("no result after failures: " + pat(), what + " is rejected");
  }
  template <typename F> void number(F f) {
    std::string first, got; auto g = [&]() -> std::string { try { double d = f(); return d != d ? "nan" : fmt(d); } catch (std::bad_alloc const &) { throw; } catch (UserFault const &) { throw; } catch (std::exception const &) { return "rejected"; } catch (const char *) { return "rejected"; } };
    calls_left = -1; first = g();
    attempt([&]() { double d = 0; bool rej = false; try { d = f(); } catch (std::bad_alloc const &) { throw; } catch (UserFault const &) { throw; } catch (std::exception const &) { rej = true; } catch (const char *) { rej = true; } long q = fuse; fuse = -1; got = rej ? "rejected" : d != d ? "nan" : fmt(d); fuse = q; });
    cnt("results compared"); if (got != first) viol("number after failures: " + pat(), what + " gives " + got + " instead of " + first);
  }
  template <typename F> void text(F f) { // streams absorb failed allocations: only the undisturbed text counts
    std::string first = f(), got;
    attempt([&]() { got = f(); });
    cnt("results compared"); if (got != first) viol("text after failures: " + pat(), what + " gives " + got + " instead of " + first);
  }
  static std::string n(const char * a, int i) { return std::string(a) + std::to_string(i); }
  static bool plain(M const & m) { return !has_kind(m, VEC); }

  void step() {
    m.limit();
    int i = m.E_(), j = m.nonempty(), k = m.nonempty(), t = m.B_(), t2 = (t + 1) % Machine::NB, s = m.U_(), s2 = (s + 1) % Machine::NU, w = m.V_();
    if (i == j) i = (j + 1) % Machine::NE;
    M mj = m.me[j], mk = m.me[k];
    switch (r.below(56)) {
      case 0: say(n("e", i) + "=" + n("e", j)); assign(m.me[i], mj, [&]() { m.e[i] = m.e[j]; }, [this, i, j, k, t, s, w]() { return ex(m.e[i]); }); break;
      case 1: say(n("e", i) + "=" + n("b", t)); assign(m.me[i], m.mb_[t], [&]() { m.e[i] = m.b[t]; }, [this, i, j, k, t, s, w]() { return ex(m.e[i]); }); break;
      case 2: say(n("e", i) + "=" + n("v", w)); assign(m.me[i], m.mv_[w], [&]() { m.e[i] = m.v[w]; }, [this, i, j, k, t, s, w]() { return ex(m.e[i]); }); break;
      case 3: { int a = r.below(3); say(n("e", i) + "=leaf"); if (a == 0) assign(m.me[i], m.mx[1], [&]() { m.e[i] = m.x[1]; }, [this, i, j, k, t, s, w]() { return ex(m.e[i]); }); else if (a == 1) assign(m.me[i], m.mcn[0], [&]() { m.e[i] = m.c[0]; }, [this, i, j, k, t, s, w]() { return ex(m.e[i]); }); else assign(m.me[i], m.mfs[0], [&]() { m.e[i] = m.f[0]; }, [this, i, j, k, t, s, w]() { return ex(m.e[i]); }); } break;
      case 4: { double d = m.g.cst(); say(n("e", i) + "=number " + fmt(d)); assign(m.me[i], mc(d), [&]() { m.e[i] = d; }, [this, i, j, k, t, s, w]() { return ex(m.e[i]); }); } break;
      case 5: say(n("e", i) + "=ct"); assign(m.me[i], mb(SUB, mb(MUL, mv(1), mv(0)), mv(2)), [&]() { m.e[i] = viennamath::ct_variable<1>() * viennamath::ct_variable<0>() - viennamath::ct_variable<2>(); }, [this, i, j, k, t, s, w]() { return ex(m.e[i]); }); break;
      case 6: case 7: say(n("b", t) + "=" + n("b", t2)); assign(m.mb_[t], m.mb_[t2], [&]() { m.b[t] = m.b[t2]; }, [this, i, j, k, t, s, w]() { return read(&m.b[t]); }); break;
      case 8: { double d = m.g.cst(); say(n("b", t) + "=number"); assign(m.mb_[t], mb(MUL, mc(d), mc(1)), [&]() { m.b[t] = d; }, [this, i, j, k, t, s, w]() { return read(&m.b[t]); }); } break;
      case 9: say(n("b", t) + "=constant"); assign(m.mb_[t], mb(MUL, m.mcn[1], mc(1)), [&]() { m.b[t] = m.c[1]; }, [this, i, j, k, t, s, w]() { return read(&m.b[t]); }); break;
      case 10: { int a = r.below(3); say(n("b", t) + "=ct" + std::string(1, 'a' + a)); if (a == 0) assign(m.mb_[t], mb(DIV, mv(0), mc(3)), [&]() { m.b[t] = viennamath::ct_variable<0>() / viennamath::ct_constant<3>(); }, [this, i, j, k, t, s, w]() { return read(&m.b[t]); }); else if (a == 1) assign(m.mb_[t], mb(MUL, mb(ADD, mv(1), mv(0)), mv(2)), [&]() { m.b[t] = (viennamath::ct_variable<1>() + viennamath::ct_variable<0>()) * viennamath::ct_variable<2>(); }, [this, i, j, k, t, s, w]() { return read(&m.b[t]); }); else assign(m.mb_[t], mb(SUB, mc(7), mv(2)), [&]() { m.b[t] = viennamath::ct_constant<7>() - viennamath::ct_variable<2>(); }, [this, i, j, k, t, s, w]() { return read(&m.b[t]); }); } break;
      case 11: case 12: say(n("u", s) + "=" + n("u", s2)); assign(m.mu_[s], m.mu_[s2], [&]() { m.u[s] = m.u[s2]; }, [this, i, j, k, t, s, w]() { return read(&m.u[s]); }); break;
      case 13: { double d = m.g.cst(); say(n("u", s) + "=number"); assign(m.mu_[s], mu(U_ID, mc(d)), [&]() { m.u[s] = d; }, [this, i, j, k, t, s, w]() { return read(&m.u[s]); }); } break;
      case 14: say(n("u", s) + "=constant"); assign(m.mu_[s], mu(U_ID, m.mcn[1]), [&]() { m.u[s] = m.c[1]; }, [this, i, j, k, t, s, w]() { return read(&m.u[s]); }); break;
      case 15: case 16: say(n("v", w) + "=" + n("v", 1 - w)); assign(m.mv_[w], m.mv_[1 - w], [&]() { m.v[w] = m.v[1 - w]; }, [this, i, j, k, t, s, w]() { return read(&m.v[w]); }); break;
      case 17: if (m.mv_[w]->kids.size()) { size_t a = r.below(m.mv_[w]->kids.size()); say(n("v", w) + "[]=" + n("e", j)); std::vector<M> kk(m.mv_[w]->kids); kk[a] = mj; assign(m.mv_[w], mvec(kk), [&]() { m.v[w][a] = m.e[j]; }, [this, i, j, k, t, s, w]() { return read(&m.v[w]); }); } break;
      case 18: { say(n("i", 0) + "=" + n("i", 1)); std::vector<M *> sl; std::vector<M> wt; sl.push_back(&m.mlo[0]); sl.push_back(&m.mhi[0]); wt.push_back(m.mlo[1]); wt.push_back(m.mhi[1]); attempt([&]() { m.iv[0] = m.iv[1]; }, sl, wt, [this, i, j, k, t, s, w]() { return two(m.iv[0].lower(), m.iv[0].upper()); }); } break;
      case 19: { say(n("i", 1) + "=[" + n("e", j) + "," + n("e", k) + "]"); std::vector<M *> sl; std::vector<M> wt; sl.push_back(&m.mlo[1]); sl.push_back(&m.mhi[1]); wt.push_back(mj); wt.push_back(mk); attempt([&]() { m.iv[1] = Ival(m.e[j], m.e[k]); }, sl, wt, [this, i, j, k, t, s, w]() { return two(m.iv[1].lower(), m.iv[1].upper()); }); } break;
      case 20: { say(n("q", 0) + "=" + n("q", 1)); std::vector<M *> sl; std::vector<M> wt; sl.push_back(&m.ml[0]); sl.push_back(&m.mr[0]); wt.push_back(m.ml[1]); wt.push_back(m.mr[1]); attempt([&]() { m.q[0] = m.q[1]; }, sl, wt, [this, i, j, k, t, s, w]() { return two(m.q[0].lhs(), m.q[0].rhs()); }); } break;
      case 21: { say(n("q", 1) + "=make_equation(" + n("e", j) + "," + n("e", k) + ")"); std::vector<M *> sl; std::vector<M> wt; sl.push_back(&m.ml[1]); sl.push_back(&m.mr[1]); wt.push_back(mj); wt.push_back(mk); attempt([&]() { m.q[1] = viennamath::make_equation(m.e[j], m.e[k]); }, sl, wt, [this, i, j, k, t, s, w]() { return two(m.q[1].lhs(), m.q[1].rhs()); }); } break;
      case 22: { // a node inside the object assigned to
        std::vector<Iface const *> ps; parts(&m.b[t], ps); for (int z = 0; z < 8; ++z) if (BExpr const * a = dynamic_cast<BExpr const *>(r.pick(ps))) { say(n("b", t) + "=part of itself"); M want = read(a); bool done = false, hurt = false; M old = m.mb_[t]; BExpr spare(*a); /* the part may be gone if the target is half set */
          assign(m.mb_[t], want, [&]() { if (done) return; try { if (hurt) m.b[t] = spare; else m.b[t] = *a; done = true; } catch (...) { hurt = hurt || !equal(read(&m.b[t]), old); throw; } }, [this, i, j, k, t, s, w]() { return read(&m.b[t]); }); break; } } break;
      case 23: { std::vector<Iface const *> ps; parts(&m.u[s], ps); for (int z = 0; z < 8; ++z) if (UExpr const * a = dynamic_cast<UExpr const *>(r.pick(ps))) { say(n("u", s) + "=part of itself"); M want = read(a); bool done = false, hurt = false; M old = m.mu_[s]; UExpr spare(*a);
          assign(m.mu_[s], want, [&]() { if (done) return; try { if (hurt) m.u[s] = spare; else m.u[s] = *a; done = true; } catch (...) { hurt = hurt || !equal(read(&m.u[s]), old); throw; } }, [this, i, j, k, t, s, w]() { return read(&m.u[s]); }); break; } } break;
      case 24: if (m.me[i]) { std::vector<Iface const *> ps; parts(m.e[i].get(), ps); Iface const * p = r.pick(ps); say(n("e", i) + "=part of itself"); M want = read(p); bool done = false, hurt = false; M old = m.me[i]; Expr spare(p->clone());
        assign(m.me[i], want, [&]() { if (done) return; try { if (hurt) m.e[i] = spare; else if (BExpr const * a = dynamic_cast<BExpr const *>(p)) m.e[i] = *a; else if (UExpr const * a = dynamic_cast<UExpr const *>(p)) m.e[i] = *a; else if (VExpr const * a = dynamic_cast<VExpr const *>(p)) m.e[i] = *a; else if (Var const * a = dynamic_cast<Var const *>(p)) m.e[i] = *a; else if (FSym const * a = dynamic_cast<FSym const *>(p)) m.e[i] = *a; else if (Const const * a = dynamic_cast<Const const *>(p)) m.e[i] = *a; else { m.e[i] = p->clone(); } done = true; } catch (...) { hurt = hurt || !m.e[i].get() || !equal(read(m.e[i]), old); throw; } }, [this, i, j, k, t, s, w]() { return ex(m.e[i]); }); } break;
      case 25: say("copies"); result([&]() { return Expr(m.e[j]); }, mj); result([&]() { return Expr(BExpr(m.b[t])); }, m.mb_[t]); result([&]() { return Expr(UExpr(m.u[s])); }, m.mu_[s]); result([&]() { return Expr(VExpr(m.v[w])); }, m.mv_[w]); result([&]() { Ival z(m.iv[0]); return z.upper(); }, m.mhi[0]); break;
      case 26: say("clone"); result([&]() { return Expr(m.e[j].get()->clone()); }, mj); break;
      case 27: case 28: { int o = r.below(4); if (!plain(mj) || !plain(mk)) break; say(n("e", j) + BNAME[o] + n("e", k)); result([&]() -> Expr { switch (o) { case 0: return m.e[j] + m.e[k]; case 1: return m.e[j] - m.e[k]; case 2: return m.e[j] * m.e[k]; default: return m.e[j] / m.e[k]; } }, mb(o, mj, mk)); } break;
      case 29: { int o = r.below(4); say(n("b", t) + BNAME[o] + n("u", s)); result([&]() -> Expr { switch (o) { case 0: return m.b[t] + m.u[s]; case 1: return m.b[t] - m.u[s]; case 2: return m.b[t] * m.u[s]; default: return m.b[t] / m.u[s]; } }, mb(o, m.mb_[t], m.mu_[s])); } break;
      case 30: { if (!plain(mj)) break; int o = r.below(4); say("function of " + n("e", j)); result([&]() -> Expr { switch (o) { case 0: return viennamath::exp(m.e[j]); case 1: return viennamath::sqrt(m.e[j]); case 2: return viennamath::log10(m.e[j]); default: return viennamath::fabs(m.e[j]); } }, mu(o == 0 ? U_EXP : o == 1 ? U_SQRT : o == 2 ? U_LOG10 : U_FABS, mj)); } break;
      case 31: { say("integral of " + n("e", j)); if (r.chance(0.5)) result([&]() -> Expr { return viennamath::integral(m.iv[0], m.e[j], m.x[0]); }, mint(mj, m.mlo[0], m.mhi[0], 0)); else { SIval d(2); result([&]() -> Expr { return viennamath::integral(d, m.e[j]); }, mu(U_SYM, mj, 2)); } } break;
      case 32: case 33: if (plain(mj)) { say("simplify(" + n("e", j) + ")"); result([&]() { return viennamath::simplify(m.e[j]); }); } break;
      case 34: if (plain(m.mb_[t])) { say("simplify(" + n("b", t) + ")"); result([&]() { return viennamath::simplify(m.b[t]); }); } break;
      case 35: if (plain(mj)) { // every stage in between denotes the same; which one it is depends on the place of the failure
        say("inplace_simplify(" + n("e", j) + ")"); std::vector<M> stages; { Expr z(m.e[j]); stages.push_back(read(z)); while (z.get()->can_simplify()) { z = z.get()->simplify(); stages.push_back(read(z)); } }
        size_t at = 0; std::vector<M *> sl(1, &m.me[j]);
        for (long c = 0; ; ++c) { bool ok = false; { Fuse z(c); try { viennamath::inplace_simplify(m.e[j]); ok = true; } catch (std::bad_alloc const &) {} } cnt("allocation failures injected", blown); M now = read(m.e[j]); bool known = false; for (size_t q = at; q < stages.size(); ++q) if (equal(now, stages[q])) { known = true; at = q; break; } if (!known || (ok && !blown && at + 1 != stages.size())) { viol("interrupted simplification", "failing at allocation " + std::to_string(c) + " leaves " + str(now)); m.me[j] = now; break; } m.me[j] = now; m.check(what); if (ok || R().violations > 9) break; } } break;
      case 36: case 37: if (plain(mj) && mj->size < 16) { int a = r.below(3); say("diff(" + n("e", j) + ",x)"); result([&]() { return viennamath::diff(m.e[j], Var(a)); }); } break;
      case 38: if (plain(mj) && mj->size < 14) { say("diff(" + n("e", j) + ",f)"); result([&]() { return viennamath::diff(m.e[j], m.f[0]); }); } break;
      case 39: if (plain(mj) && plain(mk) && mk->size < 20) { say("substitute x0 in " + n("e", j)); result([&]() { return viennamath::substitute(m.x[0], m.e[k], m.e[j]); }); } break;
      case 40: if (plain(mj) && plain(mk) && mk->size < 20 && !has_nan(mj)) { say("substitute nodes in " + n("e", j)); std::vector<M> sub; subtrees(mj, sub); M what_ = r.pick(sub); Expr from = wrap(what_); result([&]() { return Expr(m.e[j].get()->substitute(from.get(), m.e[k].get())); }, subst1(mj, what_, mk)); } break;
      case 41: if (plain(mj)) { say("substitute many in " + n("e", j)); std::vector<Expr> a, bb; a.push_back(m.x[0]); bb.push_back(m.x[1]); a.push_back(m.x[1]); bb.push_back(m.f[0]); result([&]() { return viennamath::substitute(a, bb, m.e[j]); }); } break;
      case 42: if (plain(mj)) { say("coordinate system " + n("e", j)); int d = 1 + r.below(3); result([&]() -> Expr { return d == 1 ? viennamath::apply_coordinate_system(viennamath::cartesian<1>(), m.e[j]) : d == 2 ? viennamath::apply_coordinate_system(viennamath::cartesian<2>(), m.e[j]) : viennamath::apply_coordinate_system(viennamath::cartesian<3>(), m.e[j]); }); } break;
      case 43: if (plain(mj)) { say("domain in " + n("e", j)); Ival one((Expr(0.0)), Expr(1.0)); SIval d(1); result([&]() -> Expr { return viennamath::substitute(d, std::make_pair(one, m.x[1]), m.e[j]); }); } break;
      case 44: if (plain(mj)) { say("evaluate " + n("e", j)); std::vector<double> p = m.g.point(3); number([&]() { return m.e[j](p); }); number([&]() { return m.b[t](p[0]); }); } break;
      case 45: if (plain(mj) && !any(mj, [](M const & q) { return q->k == UN && q->op == U_INT; })) { say("quadrature of " + n("e", j)); Ival one((Expr(0.0)), Expr(2.0)); number([&]() { return quad(one, m.e[j], m.x[0]); }); } break;
      case 46: { say("quadrature of a sum"); Gen g(r); g.nvars = 1; M acc = mint(g.poly(), mc(-1), mc(2), 0); for (int z = r.below(3); z > 0; --z) acc = mb(r.below(2), acc, mint(g.poly(), mc(0), mc(r.range(1, 3)), 0)); Expr sum = wrap(acc); number([&]() { return quad(sum); }); } break;
      case 47: { say("print " + n("e", j)); text([&]() { return m.e[j].get()->deep_str(); }); text([&]() { return m.v[w].deep_str() + m.u[s].shallow_str(); }); } break;
      case 48: if (plain(mj)) { say("LaTeX " + n("e", j)); text([&]() { return tr(m.e[j]); }); if (plain(m.mb_[t])) text([&]() { return tr(m.b[t]); }); } break;
      case 49: { say("translators"); viennamath::latex_translator t3; t3.add_processor(new BadProc()); t3.customize(m.x[0], "XX"); std::string before = t3(m.x[0]) + t3(m.v.empty() ? Expr(1.0) : Expr(m.v[0])), old = tr(m.x[0]);
        attempt([&]() { viennamath::latex_translator t2(t3); });
        viennamath::latex_translator t4; std::string plain4 = t4(m.x[0]);
        attempt([&]() { t4 = t3; }); 
        std::string after = t3(m.x[0]) + t3(m.v.empty() ? Expr(1.0) : Expr(m.v[0])), target = t4(m.x[0]);
        if (after != before) viol("translator changed", "the source of a failed copy prints " + after + " instead of " + before);
        if (target != "XX" ) viol("translator assignment after failures", "prints " + target);
        viennamath::latex_translator t5;
        for (long c = 0; c < 500; ++c) { bool ok = false; { Fuse z(c); try { t5 = t3; ok = true; } catch (std::bad_alloc const &) {} } std::string now = t5(m.x[0]); if (now != (ok ? "XX" : plain4)) { viol("half assigned translator", "prints " + now); break; } if (ok) break; }
        cnt("results compared", 4); } break;
      case 50: { say("traverse " + n("e", j)); std::string dummy; attempt([&]() { m.e[j].get()->recursive_traversal(viennamath::rt_traversal_wrapper<Iface>(new BadVisit(&dummy))); }); } break;
      case 51: { int a = r.below(6); say(n("v", w) + ".resize"); std::vector<M> kk(m.mv_[w]->kids); kk.resize(a, mc(1.5)); Expr fill(1.5); assign(m.mv_[w], mvec(kk), [&]() { m.v[w].resize(a, fill); }, [this, w]() { return read(&m.v[w]); }); } break;
      case 52: { if (!m.mv_[w]->kids.size() || !plain(mj)) break; bool flat = true; for (size_t z = 0; z < m.mv_[w]->kids.size(); ++z) if (!plain(m.mv_[w]->kids[z])) flat = false; if (!flat) break;
        say("vector arithmetic " + n("v", w)); std::vector<M> a, b, c; M dot; for (size_t z = 0; z < m.mv_[w]->kids.size(); ++z) { M q = m.mv_[w]->kids[z]; a.push_back(mb(MUL, mj, q)); b.push_back(mb(ADD, q, q)); c.push_back(mb(SUB, q, q)); M p = mb(MUL, q, q); dot = dot ? mb(ADD, dot, p) : p; }
        result([&]() { return Expr(m.e[j] * m.v[w]); }, mvec(a)); result([&]() { return Expr(m.v[w] + m.v[w]); }, mvec(b)); result([&]() { return Expr(m.v[w] - m.v[w]); }, mvec(c)); if (dot->size < 200) result([&]() { return m.v[w] * m.v[w]; }, dot); } break;
      case 53: { say("box.push_back(" + n("e", j) + ")"); if (m.box.size() > 6) { m.box.clear(); m.mbox.clear(); } size_t had = m.box.size(); m.mbox.push_back(mj);
        for (long c = 0; ; ++c) { bool ok = false; { Fuse z(c); try { m.box.push_back(m.e[j]); ok = true; } catch (std::bad_alloc const &) {} } cnt("allocation failures injected", blown); if (ok) break; M keep = m.mbox.back(); m.mbox.pop_back(); m.check(what); m.mbox.push_back(keep); if (m.box.size() != had) { viol("container size", what); break; } }
        m.check(what); } break;
      case 54: { say("copies of a quadrature"); Expr lin = wrap(mint(mb(MUL, mc(3), mv(0)), mc(0), mc(2), 0)); number([&]() { viennamath::numerical_quadrature q2(quad), q3(new viennamath::gauss_quad_1()); q3 = q2; return q3(lin); }); double d = quad(lin); if (d != 6) viol("quadrature changed", fmt(d)); } break;
      default: if (plain(mj)) { say("manipulate " + n("e", j)); result([&]() { return Expr(m.e[j].get()->recursive_manipulation(viennamath::rt_manipulation_wrapper<Iface>(new BadManip()))); }); } break;
    }
    if (tr(Expr(Var(0))) != names[0]) viol("translator changed", "x0 is printed as " + tr(Expr(Var(0))));
  }
};
static void one(long, Rng & r) {
  Quiet q; // what leaks in a failed operation is P06's matter
  desc("start"); phase("start");
  World w(r);
  for (int i = 0; i < 30 && R().violations < 10; ++i) w.step();
  nontrivial(w.m.log);
  phase("destruction");
}
int main(int c, char ** v) { return drive(c, v, "P30", one, 0); }
