// P08: every pair of operand types, every operation: the result has to denote this operation on these operands in this order.
// OPSEL 0..3: binary operation; 4: elementary functions and mixed formulas.
#include "operands.hpp"
#ifndef OPSEL
#define OPSEL 0
#endif
template <int op> struct Do;
template <> struct Do<0> { template <typename A, typename B> static auto f(A const & a, B const & b) -> decltype(a + b) { return a + b; } };
template <> struct Do<1> { template <typename A, typename B> static auto f(A const & a, B const & b) -> decltype(a - b) { return a - b; } };
template <> struct Do<2> { template <typename A, typename B> static auto f(A const & a, B const & b) -> decltype(a * b) { return a * b; } };
template <> struct Do<3> { template <typename A, typename B> static auto f(A const & a, B const & b) -> decltype(a / b) { return a / b; } };

// gcc's overload resolution decides the result type; only pairs of plain numbers are excluded
template <int op, typename A, typename B, bool numeric> struct Pair {
  static void go(std::string const & what, A const & a, M const & ma, B const & b, M const & mb2) {
    desc(str(ma) + " " + BNAME[op] + " " + str(mb2) + " as " + what);
    phase(what);
    Expr * res;
    { auto z = Do<op>::f(a, b); res = new Expr(z); }
    std::unique_ptr<Expr> hold(res);
    M want = mb(op, ma, mb2), got = read(*res);
    bool ct = (IsCt<A>::v || IsNum<A>::v || IsConst<A>::v) && (IsCt<B>::v || IsNum<B>::v || IsConst<B>::v);   // numbers may be combined at once
    judge(what, want, got, !ct);
    // both orders of construction: direct initialisation and assignment of an existing expression
    Expr e2(1.0); e2 = Do<op>::f(a, b);
    judge(what + " (assigned)", want, read(e2), !ct);
    if (!equal(model_of(a), ma) || !equal(model_of(b), mb2)) viol("operand changed:" + what, what + " changed an operand: " + str(model_of(a)) + ", " + str(model_of(b)) + " instead of " + str(ma) + ", " + str(mb2));
    // value at a point through the library
    if (evaluable(want)) {
      std::vector<double> x; for (int i = 0; i < 12; ++i) x.push_back(0.9 + 0.21 * i);
      E ref = ev(want, plain_env(x));
      if (reliable(ref)) { double v = (*res)(x); cnt("values compared"); if (!agree(v, ref)) viol("value:" + what, what + " evaluates to " + fmt(v) + " instead of " + fmt((double)ref.v)); }
    }
    nontrivial(str(want) + what); state(what);
  }
};
template <int op, typename A, typename B> struct Pair<op, A, B, true> { static void go(std::string const &, A const &, M const &, B const &, M const &) {} };
template <int op, typename A> struct Right {
  A const & a; M ma; std::string what; int kb;
  Right(A const & x, M const & m, std::string const & w) : a(x), ma(m), what(w), kb(0) {}
  template <typename B> void operator()(B const & b, M const & m) { Pair<op, A, B, IsNum<A>::v && IsNum<B>::v>::go(what, a, ma, b, m); }
};
template <int op> struct Left {
  Rng & r; int ka, kb;
  Left(Rng & x, int i, int j) : r(x), ka(i), kb(j) {}
  template <typename A> void operator()(A const & a, M const & m) { Right<op, A> f(a, m, std::string(KN[ka]) + " " + BNAME[op] + " " + KN[kb]); operand(kb, r, f); }
};
#if OPSEL < 4
static void one(long i, Rng & r) {
  // all pairs of kinds in turn
  int ka = (int)(i / NK) % NK, kb = (int)(i % NK);
  Left<OPSEL> l(r, ka, kb);
  operand(ka, r, l);
}
#elif OPSEL == 4
// elementary functions
template <typename A, typename R> static void fn(const char * name, int op, A const & a, M const & m, R const & res) {
  (void)a;
  judge(std::string(name) + "()", mu(op, m), read(Expr(res)), true);
}
struct Fun {
  Rng & r; std::string kind;
  Fun(Rng & x, std::string const & k) : r(x), kind(k) {}
  template <typename A> void go(A const & a, M const & m) {
    desc("function of " + str(m) + " as " + kind); phase(kind);
    { auto z = vmath::exp(a); fn(("exp " + kind).c_str(), U_EXP, a, m, z); }
    { auto z = vmath::sin(a); fn(("sin " + kind).c_str(), U_SIN, a, m, z); }
    { auto z = vmath::cos(a); fn(("cos " + kind).c_str(), U_COS, a, m, z); }
    { auto z = vmath::tan(a); fn(("tan " + kind).c_str(), U_TAN, a, m, z); }
    { auto z = vmath::fabs(a); fn(("fabs " + kind).c_str(), U_FABS, a, m, z); }
    { auto z = vmath::sqrt(a); fn(("sqrt " + kind).c_str(), U_SQRT, a, m, z); }
    { auto z = vmath::log(a); fn(("log " + kind).c_str(), U_LOG, a, m, z); }
    { auto z = vmath::log10(a); fn(("log10 " + kind).c_str(), U_LOG10, a, m, z); }
    // with an expression around it
    { Expr z = vmath::sin(a) * vmath::exp(a) - vmath::cos(a) / 2.0; judge("composed " + kind, mb(SUB, mb(MUL, mu(U_SIN, m), mu(U_EXP, m)), mb(DIV, mu(U_COS, m), mc(2))), read(z), true); }
    if (!equal(model_of(a), m)) viol("operand changed:" + kind, "a function changed its operand " + str(m));
    nontrivial(str(m) + kind); state(kind);
  }
  template <typename A> void operator()(A const & a, M const & m) { sel(a, m); }
  // plain numbers, function symbols and compiletime constants are not accepted by the functions
  void sel(double, M const &) {} void sel(int, M const &) {} void sel(long, M const &) {} void sel(float, M const &) {} void sel(unsigned, M const &) {}
  void sel(FSym const &, M const &) {} void sel(C3 const &, M const &) {} void sel(CM2 const &, M const &) {} void sel(CZ const &, M const &) {}
  template <typename A> void sel(A const & a, M const & m) { go(a, m); }
};
static void one(long i, Rng & r) { int k = (int)(i % NK); Fun f(r, KN[k]); operand(k, r, f); }
#else
// the same formula spelled with different operand types at every node
static Expr spell(M const & m, Rng & r);
template <int op, typename A> struct S2 { A const & a; Expr res; S2(A const & x) : a(x) {} template <typename B> void operator()(B const & b) { res = Do<op>::f(a, b); } };
template <typename F> static void typed(M const & m, Rng & r, F & f) {
  switch (m->k) {
    case CONST: switch (r.below(3)) { case 0: { Const c(m->c); f(c); return; } default: { Expr e(m->c); f(e); return; } }
    case VAR: if (m->id == 1 && r.chance(0.4)) { CY c; f(c); return; } if (r.chance(0.7)) { Var v(m->id); f(v); return; } break;
    case FSYM: if (r.chance(0.7)) { FSym s(m->id, m->tag); f(s); return; } break;
    case BIN: { Expr e = spell(m, r); if (r.chance(0.6)) if (BExpr const * p = dynamic_cast<BExpr const *>(e.get())) { BExpr b(*p); f(b); return; } f(e); return; }
    case UN: { Expr e = spell(m, r); if (r.chance(0.6)) if (UExpr const * p = dynamic_cast<UExpr const *>(e.get())) { UExpr b(*p); f(b); return; } f(e); return; }
    default: break;
  }
  Expr e = wrap(m); f(e);
}
template <int op> struct S1 { M mb_; Rng & r; Expr res; S1(M const & b, Rng & x) : mb_(b), r(x) {} template <typename A> void operator()(A const & a) { S2<op, A> s(a); typed(mb_, r, s); res = s.res; } };
struct SU { int op; Expr res; SU(int o) : op(o) {}
  template <typename A> void operator()(A const & a) { go(Expr(a)); }
  void go(Expr const & a) { switch (op) { case U_EXP: res = Expr(vmath::exp(a)); break; case U_SIN: res = Expr(vmath::sin(a)); break; case U_COS: res = Expr(vmath::cos(a)); break; case U_TAN: res = Expr(vmath::tan(a)); break; case U_FABS: res = Expr(vmath::fabs(a)); break; case U_SQRT: res = Expr(vmath::sqrt(a)); break; case U_LOG: res = Expr(vmath::log(a)); break; default: res = Expr(vmath::log10(a)); } } };
static Expr spell(M const & m, Rng & r) {
  if (m->k == BIN) switch (m->op) {
    case 0: { S1<0> s(m->kids[1], r); typed(m->kids[0], r, s); return s.res; }
    case 1: { S1<1> s(m->kids[1], r); typed(m->kids[0], r, s); return s.res; }
    case 2: { S1<2> s(m->kids[1], r); typed(m->kids[0], r, s); return s.res; }
    default: { S1<3> s(m->kids[1], r); typed(m->kids[0], r, s); return s.res; }
  }
  if (is_plain_un(m) && m->op != U_ID) { SU s(m->op); typed(m->kids[0], r, s); return s.res; }
  return wrap(m);
}
static void one(long i, Rng & r) {
  (void)i;
  Gen g(r); g.nvars = 3; g.symbols = r.chance(0.3); g.idop = false; g.budget = 3 + r.below(14);
  M m = g();
  desc("spelling of " + str(m)); phase("spelling");
  Expr a = spell(m, r), b = spell(m, r), c = wrap(m);
  M ma = read(a), mb2 = read(b);
  // numbers spelled with different types may be combined at once (constant op constant); everything else is the same tree
  if (!equal(ma, m)) judge("spelling", m, ma, false);
  if (!equal(mb2, m)) judge("spelling", m, mb2, false);
  cnt(equal(ma, m) ? "identical spellings" : "folded spellings");
  if (evaluable(m)) for (int k = 0; k < 3; ++k) { std::vector<double> x = g.point(3); E ref = ev(m, plain_env(x)); if (!reliable(ref)) continue; double va = a(x), vb = b(x), vc = c(x); cnt("values compared"); if (!agree(va, ref) || !agree(vb, ref) || !agree(vc, ref)) viol("spelling value", "spellings of " + str(m) + " evaluate to " + fmt(va) + ", " + fmt(vb) + ", " + fmt(vc)); }
  nontrivial(str(m)); state(shape(m));
}
#endif
int main(int c, char ** v) { return drive(c, v, "P08", one); }
