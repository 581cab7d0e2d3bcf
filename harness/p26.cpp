// P26: equations and intervals keep both sides, in order, for all operand types; copies are independent.
// FN 0: make_equation over all type pairs, 1: make_interval over all type pairs, 2: histories of equations and intervals.
#include "operands.hpp"
#include "viennamath/manipulation/latex.hpp"
#ifndef FN
#define FN 0
#endif
template <typename T> struct IsRt { enum { v = !IsNum<T>::v && !IsCt<T>::v }; };
template <typename T> struct IsCtBin { enum { v = 0 }; };
template <typename A, typename O, typename B> struct IsCtBin<vmath::ct_binary_expr<A, O, B> > { enum { v = 1 }; };
template <typename T> struct IsCtConst { enum { v = 0 }; };
template <long k> struct IsCtConst<vmath::ct_constant<k> > { enum { v = 1 }; };
#if FN == 0
static const char * const NAME = "equation";
template <typename A, typename B> struct Ok { enum { v = IsNum<A>::v ? (IsRt<B>::v && !std::is_same<B, FSym>::value) || (IsCt<B>::v && !IsCtBin<B>::v && !IsCtConst<B>::v) : 1 }; };
#define MAKE vmath::make_equation
#define CTYPE vmath::ct_equation
typedef Eqn Obj;
static M first(Eqn const & e) { return read(e.lhs()); } static M second(Eqn const & e) { return read(e.rhs()); }
#elif FN == 1
static const char * const NAME = "interval";
template <typename A, typename B> struct Ok { enum { v = IsNum<A>::v ? !std::is_same<B, FSym>::value && !IsCtBin<B>::v : !(IsCtBin<A>::v && IsNum<B>::v) }; };
#define MAKE vmath::make_interval
#define CTYPE vmath::ct_interval
typedef Ival Obj;
static M first(Ival const & e) { return read(e.lower()); } static M second(Ival const & e) { return read(e.upper()); }
#endif
#if FN < 2
template <typename T> static std::string text(T const & t) { std::ostringstream o; o << t; return o.str(); }
// the printed text of an equation or interval has to consist of the texts of both sides, in order
static std::string expected_text(std::string const & a, std::string const & b) { return FN == 0 ? "equation(" + a + " = " + b + ")" : "interval(" + a + ", " + b + ")"; }
// mode 0: unsupported pair, 1: runtime result, 2: compiletime result
template <int mode> struct Pair {
  template <typename A, typename B> static void go(std::string const & what, A const & a, M const & ma, B const & b, M const & mb2) {
    Obj q = MAKE(a, b);
    cnt("constructions compared");
    M ga = first(q), gb = second(q);
    judge(what + " first", ma, ga, true); judge(what + " second", mb2, gb, true);
    if (text(q) != expected_text(str_of(q, true), str_of(q, false))) viol("text:" + what, "printed as " + text(q));
    Obj c(q), d(MAKE(b_(mb2), a_(ma))); d = q;
    if (!equal(first(c), ga) || !equal(second(c), gb) || !equal(first(d), ga) || !equal(second(d), gb)) viol("copy:" + what, "copy of " + str(ga) + " | " + str(gb) + " denotes " + str(first(c)) + " | " + str(second(c)));
#if FN == 1
    { Expr body = wrap(mb(ADD, mv(0), mv(1))); Expr in(vmath::integral(q, body, vmath::ct_variable<0>())); M want = mint(mb(ADD, mv(0), mv(1)), ga, gb, 0); if (!equal(read(in), want)) viol("integral:" + what, "integral over the interval is " + str(read(in))); }
#endif
    if (!equal(model_of(a), ma) || !equal(model_of(b), mb2)) viol("operand changed:" + what, what + " changed an operand");
    nontrivial(str(ma) + what + str(mb2)); state(what);
  }
  static Expr a_(M const & m) { return wrap(m); } static Expr b_(M const & m) { return wrap(m); }
  static std::string str_of(Obj const & q, bool one) {
#if FN == 0
    return text(one ? q.lhs() : q.rhs());
#else
    return text(one ? q.lower() : q.upper());
#endif
  }
};
template <> struct Pair<0> { template <typename A, typename B> static void go(std::string const &, A const &, M const &, B const &, M const &) { cnt("pairs without an overload"); } };
template <> struct Pair<2> {
  template <typename A, typename B> static void go(std::string const & what, A const & a, M const &, B const & b, M const &) {
    auto q = MAKE(a, b);
    cnt("constructions compared");
    if (!std::is_same<decltype(q), CTYPE<A, B> >::value) viol("compiletime type:" + what, std::string("type is ") + typeid(q).name() + " instead of " + typeid(CTYPE<A, B>).name());
    std::string want = std::string("ct_") + (FN == 0 ? "equation(" : "interval(") + text(a) + (FN == 0 ? " = " : ", ") + text(b) + ")";
    if (text(q) != want) viol("compiletime text:" + what, "printed as " + text(q) + " instead of " + want);
    nontrivial(what); state(what);
  }
};
template <typename A> struct Right {
  A const & a; M ma; std::string what;
  Right(A const & x, M const & m, std::string const & w) : a(x), ma(m), what(w) {}
  template <typename B> void operator()(B const & b, M const & m) {
    desc(what + " of " + str(ma) + " and " + str(m)); phase(what);
    Pair<!Ok<A, B>::v ? 0 : IsCt<A>::v && IsCt<B>::v ? 2 : 1>::go(what, a, ma, b, m);
  }
};
struct Left {
  Rng & r; int ka, kb;
  Left(Rng & x, int i, int j) : r(x), ka(i), kb(j) {}
  template <typename A> void operator()(A const & a, M const & m) { Right<A> f(a, m, std::string(NAME) + "(" + KN[ka] + ", " + KN[kb] + ")"); operand(kb, r, f); }
};
static void one(long i, Rng & r) {
  int ka = (int)(i / NK) % NK, kb = (int)(i % NK);
  Left l(r, ka, kb);
  operand(ka, r, l);
}
#else
// histories: every live object is compared with its shadow after every step
struct Pool {
  Rng & r; Gen g;
  std::vector<Eqn *> eq; std::vector<std::pair<M, M> > me; std::vector<Ival *> iv; std::vector<std::pair<M, M> > mi;
  std::string log;
  Pool(Rng & x) : r(x), g(x) { g.nvars = 3; g.symbols = true; g.opaque = true; }
  ~Pool() { for (size_t i = 0; i < eq.size(); ++i) delete eq[i]; for (size_t i = 0; i < iv.size(); ++i) delete iv[i]; }
  M tree() { g.budget = 1 + r.below(7); return g(); }
  void check(std::string const & op) {
    for (size_t i = 0; i < eq.size(); ++i) { M a = read(eq[i]->lhs()), b = read(eq[i]->rhs()); cnt("sides compared", 2); if (!equal(a, me[i].first) || !equal(b, me[i].second)) { viol("equation:" + op, "equation " + std::to_string(i) + " denotes " + str(a) + " = " + str(b) + " instead of " + str(me[i].first) + " = " + str(me[i].second) + " after " + op); return; } }
    for (size_t i = 0; i < iv.size(); ++i) { M a = read(iv[i]->lower()), b = read(iv[i]->upper()); cnt("sides compared", 2); if (!equal(a, mi[i].first) || !equal(b, mi[i].second)) { viol("interval:" + op, "interval " + std::to_string(i) + " denotes [" + str(a) + ", " + str(b) + "] instead of [" + str(mi[i].first) + ", " + str(mi[i].second) + "] after " + op); return; } }
  }
  void adde(Eqn * p, M const & a, M const & b) { eq.push_back(p); me.push_back(std::make_pair(a, b)); }
  void addi(Ival * p, M const & a, M const & b) { iv.push_back(p); mi.push_back(std::make_pair(a, b)); }
  template <typename T> void assign(T & t, T const & s) { t = s; }
  void step() {
    std::string op;
    if (eq.size() < 2) { M a = tree(), b = tree(); adde(new Eqn(wrap(a), wrap(b)), a, b); return; }
    if (iv.size() < 2) { M a = tree(), b = tree(); addi(new Ival(wrap(a), wrap(b)), a, b); return; }
    size_t i = r.below(eq.size()), j = r.below(eq.size()), k = r.below(iv.size()), l = r.below(iv.size());
    switch (r.below(18)) {
      case 0: op = "copy of an equation"; adde(new Eqn(*eq[i]), me[i].first, me[i].second); break;
      case 1: op = i == j ? "self assignment of an equation" : "assignment of an equation"; assign(*eq[i], *eq[j]); me[i] = me[j]; break;
      case 2: op = "equation from own sides"; *eq[i] = vmath::make_equation(eq[i]->rhs(), eq[i]->lhs()); std::swap(me[i].first, me[i].second); break;
      case 3: { op = "equation from combined sides"; *eq[i] = Eqn(eq[i]->lhs() + eq[j]->rhs(), eq[j]->lhs() * eq[i]->rhs()); M a = mb(ADD, me[i].first, me[j].second), b = mb(MUL, me[j].first, me[i].second); me[i] = std::make_pair(a, b); break; }
      case 4: { op = "equation from bounds"; adde(new Eqn(iv[k]->upper(), iv[k]->lower()), mi[k].second, mi[k].first); break; }
      case 5: { op = "empty equation assigned"; Eqn * e = new Eqn(); *e = *eq[i]; adde(e, me[i].first, me[i].second); break; }
      case 6: { op = "equation from temporaries"; M a = tree(), b = tree(); adde(new Eqn(vmath::make_equation(wrap(a), wrap(b))), a, b); break; }
      case 7: { op = "equation destroyed"; delete eq[i]; eq.erase(eq.begin() + i); me.erase(me.begin() + i); break; }
      case 8: { op = "side copied and modified"; Expr s(eq[i]->lhs()); s = s + Expr(1.0); break; }
      case 9: { op = "transformation of an equation"; unsigned d = 1 + r.below(3); Quiet q;
        try {
          M a = me[i].first, b = me[i].second;
          if (any(a, [](M const & n) { return n->k == VEC; }) || any(b, [](M const & n) { return n->k == VEC; })) break;   // products of vectors of different lengths have no meaning
          Eqn t = d == 1 ? vmath::apply_coordinate_system(vmath::cartesian<1>(), *eq[i]) : d == 2 ? vmath::apply_coordinate_system(vmath::cartesian<2>(), *eq[i]) : vmath::apply_coordinate_system(vmath::cartesian<3>(), *eq[i]);
          Expr ea = wrap(a), eb = wrap(b);
          Expr sa = d == 1 ? vmath::apply_coordinate_system(vmath::cartesian<1>(), ea) : d == 2 ? vmath::apply_coordinate_system(vmath::cartesian<2>(), ea) : vmath::apply_coordinate_system(vmath::cartesian<3>(), ea);
          Expr sb = d == 1 ? vmath::apply_coordinate_system(vmath::cartesian<1>(), eb) : d == 2 ? vmath::apply_coordinate_system(vmath::cartesian<2>(), eb) : vmath::apply_coordinate_system(vmath::cartesian<3>(), eb);
          cnt("transformed equations");
          if (!equal(read(t.lhs()), read(sa)) || !equal(read(t.rhs()), read(sb))) viol("transformation", "transforming " + str(a) + " = " + str(b) + " gives " + str(read(t.lhs())) + " = " + str(read(t.rhs())) + ", separately " + str(read(sa)) + " = " + str(read(sb)));
        } catch (std::exception const &) { cnt("transformations rejected"); }
        break; }
      case 10: op = "copy of an interval"; addi(new Ival(*iv[k]), mi[k].first, mi[k].second); break;
      case 11: op = k == l ? "self assignment of an interval" : "assignment of an interval"; assign(*iv[k], *iv[l]); mi[k] = mi[l]; break;
      case 12: op = "interval from own bounds"; *iv[k] = vmath::make_interval(iv[k]->upper(), iv[k]->lower()); std::swap(mi[k].first, mi[k].second); break;
      case 13: { op = "interval from sides"; addi(new Ival(eq[i]->lhs(), eq[j]->rhs()), me[i].first, me[j].second); break; }
      case 14: { op = "default interval"; addi(new Ival(), mc(0), mc(1)); break; }
      case 15: { op = "interval destroyed"; delete iv[k]; iv.erase(iv.begin() + k); mi.erase(mi.begin() + k); break; }
      case 16: { op = "interval nested in a bound"; M body = tree(); Expr in(vmath::integral(*iv[k], wrap(body), vmath::ct_variable<2>())); *iv[k] = Ival(in, iv[k]->upper()); M lo = mint(body, mi[k].first, mi[k].second, 2); if (1) mi[k] = std::make_pair(lo, mi[k].second); if (str(lo).size() > 3000) { delete iv[k]; iv.erase(iv.begin() + k); mi.erase(mi.begin() + k); } break; }
      default: { op = "interval of integral taken out"; M body = tree(); Expr in(vmath::integral(*iv[k], wrap(body), vmath::ct_variable<1>()));
        vmath::rt_unary_expr<> const * u = dynamic_cast<UExpr const *>(in.get()); typedef vmath::op_unary<vmath::op_rt_integral<Iface>, Iface> OI;
        OI const * o = u ? dynamic_cast<OI const *>(u->op()) : 0;
        if (!o) { viol("integral operation", "no integral operation in " + str(read(in))); break; }
        addi(new Ival(o->op().interval()), mi[k].first, mi[k].second); break; }
    }
    desc(op); phase(op);
    cnt("operations"); state(op + (i == j ? " i=j" : "") + (k == l ? " k=l" : ""));
    // keep sizes bounded
    for (size_t q = 0; q < eq.size(); ++q) if (size_of(me[q].first) + size_of(me[q].second) > 120) { delete eq[q]; eq.erase(eq.begin() + q); me.erase(me.begin() + q); --q; }
    for (size_t q = 0; q < iv.size(); ++q) if (size_of(mi[q].first) + size_of(mi[q].second) > 120) { delete iv[q]; iv.erase(iv.begin() + q); mi.erase(mi.begin() + q); --q; }
    while (eq.size() > 7) { delete eq.front(); eq.erase(eq.begin()); me.erase(me.begin()); }
    while (iv.size() > 7) { delete iv.front(); iv.erase(iv.begin()); mi.erase(mi.begin()); }
    check(op);
  }
  static size_t size_of(M const & m) { size_t n = 0; walk(m, [&n](M const &) { ++n; }); return n; }
};
static void one(long i, Rng & r) {
  Pool p(r);
  for (int k = 0; k < 60; ++k) p.step();
  nontrivial("history " + std::to_string(i));
}
#endif
int main(int c, char ** v) { return drive(c, v, "P26", one); }
