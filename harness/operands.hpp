// operands of every type with their models (P08, P26)
#ifndef VM_OPERANDS
#define VM_OPERANDS
#include "vm.hpp"
using namespace vm;
namespace vmath = viennamath;
typedef vmath::ct_variable<0> CX; typedef vmath::ct_variable<1> CY; typedef vmath::ct_constant<3> C3; typedef vmath::ct_constant<-2> CM2; typedef vmath::ct_constant<0> CZ;
static CX cx_; static CY cy_; static C3 c3_; static CM2 cm2_;
typedef decltype(c3_ - cx_) CE; typedef decltype(cm2_ + cy_) CF; typedef decltype(cy_ + c3_) CA; typedef decltype(cx_ * cy_) CB; typedef decltype((cx_ - cm2_) / cy_) CD;

template <typename T> struct IsNum { enum { v = std::is_arithmetic<T>::value }; };
template <typename T> struct IsConst { enum { v = 0 }; }; template <typename T> struct IsConst<vmath::rt_constant<T> > { enum { v = 1 }; };
template <typename T> struct IsCt { enum { v = 0 }; };
template <> struct IsCt<CX> { enum { v = 1 }; }; template <> struct IsCt<CY> { enum { v = 1 }; }; template <> struct IsCt<C3> { enum { v = 1 }; }; template <> struct IsCt<CM2> { enum { v = 1 }; }; template <> struct IsCt<CZ> { enum { v = 1 }; };
template <> struct IsCt<CA> { enum { v = 1 }; }; template <> struct IsCt<CB> { enum { v = 1 }; }; template <> struct IsCt<CD> { enum { v = 1 }; }; template <> struct IsCt<CE> { enum { v = 1 }; }; template <> struct IsCt<CF> { enum { v = 1 }; };

template <typename T> M model_of(T const & t) { return read(Expr(t)); }
static M model_of(Var const & t) { return mv(t.id()); }
static M model_of(FSym const & t) { return mf(t.id(), t.tag_id()); }
static M model_of(UExpr const & t) { return read(&t); }
static M model_of(BExpr const & t) { return read(&t); }

// calls f(object, model, type name) with an operand of kind k
enum { NK = 24 };
static const char * const KN[NK] = { "double", "int", "long", "float", "unsigned", "constant", "variable", "function_symbol", "unary_expr", "binary_expr", "expr", "ct_variable<0>", "ct_variable<1>", "ct_constant<3>", "ct_constant<-2>", "ct_constant<0>", "ct sum", "ct product", "ct quotient", "ct constant - variable", "ct constant + variable", "rt_constant<long>", "rt_constant<int>", "rt_constant<float>" };
template <typename F> void operand(int k, Rng & r, F & f) {
  Gen g(r); g.nvars = 3; g.symbols = r.chance(0.3); g.opaque = r.chance(0.15);
  switch (k) {
    case 0: { double d = g.cst(); M m = mc(d); f(d, m); break; }
    case 1: { int d = r.range(-9, 9); M m = mc(d); f(d, m); break; }
    case 2: { long d = r.chance(0.3) ? 123456789012345L : r.range(-9, 9); M m = mc((double)d); f(d, m); break; }
    case 3: { float d = r.range(-9, 9) * 0.375f; M m = mc(d); f(d, m); break; }
    case 4: { unsigned d = r.chance(0.3) ? 4000000000u : r.below(9); M m = mc(d); f(d, m); break; }
    case 5: { double d = g.cst(); Const o(d); M m = mc(d); f(o, m); break; }
    case 6: { unsigned long id = r.below(12); Var o(id); M m = mv(id); f(o, m); break; }
    case 7: { unsigned long id = r.below(5); M m = mf(id, r.chance(0.5) ? TAG_UNKNOWN() : TAG_TEST()); FSym o(m->id, m->tag); f(o, m); break; }
    case 8: { M a = g.gen(1 + r.below(5)); M m = r.chance(0.75) ? mu(r.below(9), a) : r.chance(0.3) ? mint(a, mc(g.cst()), g.leaf(), r.below(3)) : r.chance(0.5) ? mu(r.chance(0.5) ? U_GRAD : U_DIVG, a) : mu(r.chance(0.5) ? U_PD : U_SYM, a, r.below(4)); std::unique_ptr<Iface> p(raw(m)); UExpr u(*static_cast<UExpr *>(p.get())); p.reset(); f(u, m); break; }
    case 9: { M m = mb(r.below(4), g.gen(1 + r.below(4)), g.gen(1 + r.below(4))); std::unique_ptr<Iface> p(raw(m)); BExpr u(*static_cast<BExpr *>(p.get())); p.reset(); f(u, m); break; }
    case 10: { M m = g.gen(1 + r.below(6)); Expr e = wrap(m); f(e, m); break; }
    case 11: { M m = mv(0); CX o; f(o, m); break; }
    case 12: { M m = mv(1); CY o; f(o, m); break; }
    case 13: { M m = mc(3); C3 o; f(o, m); break; }
    case 14: { M m = mc(-2); CM2 o; f(o, m); break; }
    case 15: { M m = mc(0); CZ o; f(o, m); break; }
    case 16: { M m = mb(ADD, mv(1), mc(3)); CA o; f(o, m); break; }
    case 17: { M m = mb(MUL, mv(0), mv(1)); CB o; f(o, m); break; }
    case 19: { M m = mb(SUB, mc(3), mv(0)); CE o; f(o, m); break; }
    case 20: { M m = mb(ADD, mc(-2), mv(1)); CF o; f(o, m); break; }
    case 21: { long d = r.chance(0.2) ? 123456789012345L : r.range(-9, 9); vmath::rt_constant<long> o(d); M m = mc((double)d); f(o, m); break; }
    case 22: { int d = r.range(-9, 9); vmath::rt_constant<int> o(d); M m = mc(d); f(o, m); break; }
    case 23: { float d = r.range(-9, 9) * 0.375f; vmath::rt_constant<float> o(d); M m = mc(d); f(o, m); break; }
    default: { M m = mb(DIV, mb(SUB, mv(0), mc(-2)), mv(1)); CD o; f(o, m); break; }
  }
}
static bool numbers_only(M const & m) { return !any(m, [](M const & n) { return n->k != CONST && n->k != BIN; }); }
static void judge(std::string const & what, M const & want, M const & got, bool exact) {
  cnt("results compared");
  if (equal(want, got)) return;
  if (!exact || numbers_only(want)) { // folding of numbers and of compiletime operands is allowed, the formula has to be the same
    bool ok = true; int n = 0;
    for (int k = 0; k < 6; ++k) {
      std::vector<double> x; for (int i = 0; i < 12; ++i) x.push_back(0.3 + 0.37 * i + 0.11 * k * (i % 3) - 0.5 * (k % 2));
      E a = ev(want, opaque_env(x, k)), b = ev(got, opaque_env(x, k));
      if (!reliable(a)) continue;
      ++n;
      if (!b.ok || !agree2(a, b)) ok = false;
    }
    if (ok && n) return;
    if (ok && any(want, [](M const & q) { return q->k == BIN && q->op == DIV; })) { cnt("undefined results"); return; }
  }
  viol("operands:" + what, what + ": expected " + str(want) + ", got " + str(got));
}
#endif
