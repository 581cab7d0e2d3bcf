// Shared machinery of the runtime monitors: model trees, generators, builders, read-back,
// reference evaluation with running error bounds, and the reporting/recording runtime.
// Uses only the public interface of ViennaMath.
#ifndef VM_HPP
#define VM_HPP
#include <iostream>
#include <cassert>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cfloat>
#include <stdint.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <sstream>
#include <limits>
#include <functional>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/time.h>

#include "viennamath/expression.hpp"
#include "viennamath/manipulation/eval.hpp"
#include "viennamath/manipulation/simplify.hpp"
#include "viennamath/manipulation/substitute.hpp"
#include "viennamath/manipulation/diff.hpp"
#include "viennamath/manipulation/latex.hpp"
#include "viennamath/manipulation/apply_coordinate_system.hpp"
#include "viennamath/runtime/numerical_quadrature.hpp"

namespace vm {

// ---------------------------------------------------------------- library shorthands
typedef viennamath::default_interface_type  Iface;
typedef viennamath::expr                    Expr;
typedef viennamath::binary_expr             BExpr;
typedef viennamath::unary_expr              UExpr;
typedef viennamath::variable                Var;
typedef viennamath::constant                Const;
typedef viennamath::function_symbol         FSym;
typedef viennamath::vector_expr             VExpr;
typedef viennamath::interval                Ival;
typedef viennamath::symbolic_interval       SIval;
typedef viennamath::equation                Eqn;
typedef viennamath::op_interface<Iface>     OpI;

// ---------------------------------------------------------------- random numbers
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  unsigned below(unsigned n) { return n ? (unsigned)(next() % n) : 0; }
  int range(int a, int b) { return a + (int)below((unsigned)(b - a + 1)); }
  double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
  double real(double a, double b) { return a + (b - a) * unit(); }
  bool chance(double p) { return unit() < p; }
  template <typename T> T const & pick(std::vector<T> const & v) { return v[below((unsigned)v.size())]; }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0x9E3779B97F4A7C15ull + 0x7F4A7C15ull)); r.next(); return r.next(); }
inline uint64_t hash_str(std::string const & s) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < s.size(); ++i) { h ^= (unsigned char)s[i]; h *= 1099511628211ull; } return h; }

// ---------------------------------------------------------------- model trees
enum Kind { CONST, VAR, FSYM, UN, BIN, VEC };
enum BOp { ADD, SUB, MUL, DIV, HYP };             // HYP: user-defined (P31)
enum UOp { U_ID, U_EXP, U_SIN, U_COS, U_TAN, U_FABS, U_SQRT, U_LOG, U_LOG10, U_GRAD, U_DIVG, U_PD, U_INT, U_SYM, U_LEAF, U_NODE, U_CUBE }; // last three: user-defined (P31)
static const char * const UNAME[] = { "id", "exp", "sin", "cos", "tan", "fabs", "sqrt", "log", "log10", "grad", "div", "pd", "int", "sym", "leaf", "node", "cube" };
static const char * const BNAME[] = { "+", "-", "*", "/", "~" };

struct Node;
typedef std::shared_ptr<const Node> M;
struct Node {
  Kind k; int op; double c; unsigned long id; unsigned long tag; // id: variable/function/pd/interval/integration variable id
  std::vector<M> kids;                                           // U_INT: operand, lower, upper
  int size; int depth;
  Node() : k(CONST), op(0), c(0), id(0), tag(0), size(1), depth(1) {}
};
inline M fin(Node * n) { n->size = 1; n->depth = 1; for (size_t i = 0; i < n->kids.size(); ++i) { n->size += n->kids[i]->size; n->depth = std::max(n->depth, 1 + n->kids[i]->depth); } return M(n); }
inline M mc(double c) { Node * n = new Node; n->k = CONST; n->c = c; return fin(n); }
inline M mv(unsigned long id) { Node * n = new Node; n->k = VAR; n->id = id; return fin(n); }
inline M mf(unsigned long id, unsigned long tag) { Node * n = new Node; n->k = FSYM; n->id = id; n->tag = tag; return fin(n); }
inline M mu(int op, M a, unsigned long id = 0) { Node * n = new Node; n->k = UN; n->op = op; n->id = id; n->kids.push_back(a); return fin(n); }
inline M mint(M a, M lo, M hi, unsigned long var) { Node * n = new Node; n->k = UN; n->op = U_INT; n->id = var; n->kids.push_back(a); n->kids.push_back(lo); n->kids.push_back(hi); return fin(n); }
inline M mb(int op, M a, M b) { Node * n = new Node; n->k = BIN; n->op = op; n->kids.push_back(a); n->kids.push_back(b); return fin(n); }
inline M mvec(std::vector<M> const & v) { Node * n = new Node; n->k = VEC; n->kids = v; return fin(n); }
inline unsigned long TAG_UNKNOWN() { return viennamath::unknown_tag<>::tag_id(); }
inline unsigned long TAG_TEST() { return viennamath::test_tag<>::tag_id(); }

inline void str_(M const & m, std::string & o) {
  char b[64];
  switch (m->k) {
    case CONST: snprintf(b, sizeof b, "%.17g", m->c); o += b; break;
    case VAR: snprintf(b, sizeof b, "x%lu", m->id); o += b; break;
    case FSYM: snprintf(b, sizeof b, "%s%lu", m->tag == TAG_UNKNOWN() ? "u" : (m->tag == TAG_TEST() ? "v" : "w"), m->id); o += b; break;
    case BIN: o += "("; str_(m->kids[0], o); o += BNAME[m->op]; str_(m->kids[1], o); o += ")"; break;
    case VEC: o += "["; for (size_t i = 0; i < m->kids.size(); ++i) { if (i) o += ","; str_(m->kids[i], o); } o += "]"; break;
    case UN:
      o += UNAME[m->op];
      if (m->op == U_PD || m->op == U_SYM || m->op >= U_LEAF) { snprintf(b, sizeof b, "<%lu>", m->id); o += b; }
      if (m->op == U_INT) { snprintf(b, sizeof b, "<x%lu:", m->id); o += b; str_(m->kids[1], o); o += ".."; str_(m->kids[2], o); o += ">"; }
      o += "("; str_(m->kids[0], o); o += ")"; break;
  }
}
inline std::string str(M const & m) { std::string o; if (!m) return "<null>"; str_(m, o); return o; }

inline bool ceq(double a, double b) { return a == b || (a != a && b != b); }
inline bool equal(M const & a, M const & b) {
  if (a == b) return true;
  if (!a || !b) return false;
  if (a->k != b->k || a->kids.size() != b->kids.size()) return false;
  if (a->k == CONST) return ceq(a->c, b->c);
  if (a->k == VAR) return a->id == b->id;
  if (a->k == FSYM) return a->id == b->id && a->tag == b->tag;
  if (a->k == BIN && a->op != b->op) return false;
  if (a->k == UN) {
    if (a->op != b->op) return false;
    if ((a->op == U_PD || a->op == U_SYM || a->op == U_INT || a->op >= U_LEAF) && a->id != b->id) return false;
  }
  for (size_t i = 0; i < a->kids.size(); ++i) if (!equal(a->kids[i], b->kids[i])) return false;
  return true;
}
inline bool has_nan(M const & m) { if (m->k == CONST && m->c != m->c) return true; for (size_t i = 0; i < m->kids.size(); ++i) if (has_nan(m->kids[i])) return true; return false; }

template <typename F> inline void walk(M const & m, F f) { f(m); for (size_t i = 0; i < m->kids.size(); ++i) walk(m->kids[i], f); }
inline bool any(M const & m, std::function<bool(M const &)> f) { if (f(m)) return true; for (size_t i = 0; i < m->kids.size(); ++i) if (any(m->kids[i], f)) return true; return false; }
inline bool has_var(M const & m) { return any(m, [](M const & n) { return n->k == VAR; }); }
inline bool has_kind(M const & m, Kind k) { return any(m, [=](M const & n) { return n->k == k; }); }
inline bool is_plain_un(M const & m) { return m->k == UN && m->op <= U_LOG10; }
inline bool evaluable(M const & m) { return !any(m, [](M const & n) { return n->k == FSYM || n->k == VEC || (n->k == UN && n->op >= U_GRAD); }); }
inline unsigned long max_var(M const & m) { unsigned long r = 0; walk(m, [&](M const & n) { if (n->k == VAR && n->id + 1 > r) r = n->id + 1; }); return r; }

// rebuild with new kids
inline M with_kids(M const & m, std::vector<M> const & kids) { Node * n = new Node(*m); n->kids = kids; return fin(n); }
// collect subtrees (pre-order); integration bounds are not part of the expression tree proper
inline void subtrees(M const & m, std::vector<M> & out) {
  out.push_back(m);
  size_t n = (m->k == UN) ? 1 : m->kids.size();
  for (size_t i = 0; i < n; ++i) subtrees(m->kids[i], out);
}
// reference substitution (top-down, replaced parts are not searched again; bounds of integrals are part of the operation, not of the tree)
inline M subst(M const & m, std::vector<M> const & from, std::vector<M> const & to) {
  for (size_t i = 0; i < from.size(); ++i) if (equal(m, from[i])) return to[i];
  if (m->kids.empty()) return m;
  std::vector<M> k(m->kids);
  size_t n = (m->k == UN) ? 1 : k.size();
  bool ch = false;
  for (size_t i = 0; i < n; ++i) { k[i] = subst(m->kids[i], from, to); if (k[i] != m->kids[i]) ch = true; }
  return ch ? with_kids(m, k) : m;
}
inline M subst1(M const & m, M const & a, M const & b) { return subst(m, std::vector<M>(1, a), std::vector<M>(1, b)); }

// indices far apart: distances which any narrower index type takes for none
inline unsigned long away(Rng & r) { static const unsigned long d[] = { 1ul << 8, 1ul << 16, 1ul << 32, 1ul << 8, 3ul << 16 }; return d[r.below(5)]; }
// numbers at which narrower number types, printed digits or arithmetic shortcuts change their mind
inline double odd_number(Rng & r) {
  static const double T[] = { -0.0, 5e-324, -1e-310, 2.3e-308, 1e-250, -1e-100, 1e20, -1e100, 1e300, 1.7e308, 2147483647., 2147483648., -2147483648., -2147483649., 4294967295., 4294967296., -4294967297., 9007199254740991., 9007199254740992., -9007199254740994., 9223372036854775807., 1e19, 16777217., 0.1f, 1. / 3, 65535., 65536., 65537., 32768., 255., 256., 127., -129., 1e6, 999999.5, 100000., 123456.5, -1e-5, 1e-4, 0.5 - 1e-17, 0.49999999999999994, 2.2250738585072014e-308 };
  return T[r.below(sizeof T / sizeof *T)];
}
inline M odd_consts(M const & m, Rng & r) {
  if (m->k == CONST) return r.chance(0.5) ? mc(odd_number(r)) : m;
  if (m->kids.empty()) return m;
  std::vector<M> k; for (size_t i = 0; i < m->kids.size(); ++i) k.push_back(odd_consts(m->kids[i], r));
  return with_kids(m, k);
}
inline M far_ids(M const & m, Rng & r, unsigned long step = 0) {
  std::vector<M> k; for (size_t i = 0; i < m->kids.size(); ++i) k.push_back(far_ids(m->kids[i], r, step));
  M q = k.empty() ? m : with_kids(m, k);
  bool has = q->k == VAR || q->k == FSYM || (q->k == UN && (q->op == U_PD || q->op == U_INT || q->op == U_SYM));
  if (!has || r.chance(0.5)) return q;
  Node * n = new Node(*q); n->id += step ? step : away(r); return fin(n);
}

// ---------------------------------------------------------------- building library objects
typedef viennamath::op_binary<viennamath::op_plus<double>, Iface>  OpPlus;
typedef viennamath::op_binary<viennamath::op_minus<double>, Iface> OpMinus;
typedef viennamath::op_binary<viennamath::op_mult<double>, Iface>  OpMult;
typedef viennamath::op_binary<viennamath::op_div<double>, Iface>   OpDiv;
struct Hooks { Iface * (*raw)(M const &); M (*read)(Iface const *); OpI * (*op)(int, unsigned long); bool (*is)(OpI const *, int, unsigned long &); Hooks() : raw(NULL), read(NULL), op(NULL), is(NULL) {} }; // user-defined types
inline Hooks & hooks() { static Hooks h; return h; }
inline OpI * new_bop(int op) {
  if (op == HYP) return hooks().op(HYP, 0);
  switch (op) { case ADD: return new OpPlus(); case SUB: return new OpMinus(); case MUL: return new OpMult(); default: return new OpDiv(); }
}
template <typename T> struct UOf { typedef viennamath::op_unary<T, Iface> type; };
typedef UOf<viennamath::op_id<double> >::type OpId;       typedef UOf<viennamath::op_exp<double> >::type OpExp;
typedef UOf<viennamath::op_sin<double> >::type OpSin;     typedef UOf<viennamath::op_cos<double> >::type OpCos;
typedef UOf<viennamath::op_tan<double> >::type OpTan;     typedef UOf<viennamath::op_fabs<double> >::type OpFabs;
typedef UOf<viennamath::op_sqrt<double> >::type OpSqrt;   typedef UOf<viennamath::op_log<double> >::type OpLog;
typedef UOf<viennamath::op_log10<double> >::type OpLog10; typedef UOf<viennamath::op_gradient<double> >::type OpGrad;
typedef UOf<viennamath::op_divergence<double> >::type OpDivg; typedef UOf<viennamath::op_partial_deriv<double> >::type OpPd;
typedef UOf<viennamath::op_rt_integral<Iface> >::type OpInt;  typedef UOf<viennamath::op_rt_symbolic_integral<Iface> >::type OpSym;

// numbers enter an expression as constants of all scalar types; which one alternates (the count starts anew in every case)
static thread_local unsigned long raw_count = 0;
inline Iface * raw_const(double c) {
  if (mix(++raw_count, 3) % 3 == 0 && c == c && fabs(c) < 1e9 && !(c == 0 && std::signbit(c))) {
    if (c == (long)c) { long k = (long)c; if (raw_count & 1) return Expr(viennamath::rt_constant<long>(k)).get()->clone(); return Expr(viennamath::rt_constant<int>((int)k)).get()->clone(); }
    else if (c == (double)(float)c) return Expr(viennamath::rt_constant<float>((float)c)).get()->clone();
  }
  return new Const(c);
}
inline Iface * raw(M const & m);
inline Expr wrap(M const & m) { return Expr(raw(m)); }
inline OpI * new_uop(M const & m) {
  if (m->op == U_CUBE) return hooks().op(U_CUBE, m->id);
  switch (m->op) {
    case U_ID: return new OpId(); case U_EXP: return new OpExp(); case U_SIN: return new OpSin(); case U_COS: return new OpCos();
    case U_TAN: return new OpTan(); case U_FABS: return new OpFabs(); case U_SQRT: return new OpSqrt(); case U_LOG: return new OpLog();
    case U_LOG10: return new OpLog10(); case U_GRAD: return new OpGrad(); case U_DIVG: return new OpDivg();
    case U_PD: return new OpPd(viennamath::op_partial_deriv<double>(m->id));
    case U_INT: return new OpInt(viennamath::op_rt_integral<Iface>(Ival(wrap(m->kids[1]), wrap(m->kids[2])), Var(m->id)));
    default: return new OpSym(viennamath::op_rt_symbolic_integral<Iface>(SIval(m->id)));
  }
}
inline Iface * raw(M const & m) {
  switch (m->k) {
    case CONST: return raw_const(m->c);
    case VAR: return new Var(m->id);
    case FSYM: return new FSym(m->id, m->tag);
    case BIN: { Iface * l = raw(m->kids[0]); Iface * r = raw(m->kids[1]); return new BExpr(l, new_bop(m->op), r); }
    case UN: { if (m->op == U_LEAF || m->op == U_NODE) return hooks().raw(m); Iface * l = raw(m->kids[0]); return new UExpr(l, new_uop(m)); }
    default: { VExpr * v = new VExpr(m->kids.size()); for (size_t i = 0; i < m->kids.size(); ++i) (*v)[i] = wrap(m->kids[i]); return v; }
  }
}

// ---------------------------------------------------------------- reading library objects back
struct ReadError { std::string what; explicit ReadError(std::string const & w) : what(w) {} };
template <typename T> inline bool is_op(OpI const * op) { return dynamic_cast<T const *>(op) != NULL; }
inline M read(Iface const * e) {
  if (e == NULL) throw ReadError("null node");
  if (Const const * p = dynamic_cast<Const const *>(e)) return mc(static_cast<double>(*p));
  if (Var const * p = dynamic_cast<Var const *>(e)) return mv(p->id());
  if (FSym const * p = dynamic_cast<FSym const *>(e)) return mf(p->id(), p->tag_id());
  if (BExpr const * p = dynamic_cast<BExpr const *>(e)) {
    OpI const * op = p->op();
    unsigned long uid = 0;
    int o = is_op<OpPlus>(op) ? ADD : is_op<OpMinus>(op) ? SUB : is_op<OpMult>(op) ? MUL : is_op<OpDiv>(op) ? DIV : hooks().is && hooks().is(op, HYP, uid) ? HYP : -1;
    if (o < 0) throw ReadError(std::string("unknown binary operation ") + (op ? op->str() : "null"));
    M l = read(p->lhs()); M r = read(p->rhs());
    return mb(o, l, r);
  }
  if (UExpr const * p = dynamic_cast<UExpr const *>(e)) {
    OpI const * op = p->op();
    M a = read(p->lhs());
    if (is_op<OpId>(op)) return mu(U_ID, a);
    if (is_op<OpExp>(op)) return mu(U_EXP, a);
    if (is_op<OpSin>(op)) return mu(U_SIN, a);
    if (is_op<OpCos>(op)) return mu(U_COS, a);
    if (is_op<OpTan>(op)) return mu(U_TAN, a);
    if (is_op<OpFabs>(op)) return mu(U_FABS, a);
    if (is_op<OpSqrt>(op)) return mu(U_SQRT, a);
    if (is_op<OpLog>(op)) return mu(U_LOG, a);
    if (is_op<OpLog10>(op)) return mu(U_LOG10, a);
    if (is_op<OpGrad>(op)) return mu(U_GRAD, a);
    if (is_op<OpDivg>(op)) return mu(U_DIVG, a);
    if (OpPd const * q = dynamic_cast<OpPd const *>(op)) return mu(U_PD, a, q->op().id());
    if (OpInt const * q = dynamic_cast<OpInt const *>(op)) return mint(a, read(q->op().interval().lower().get()), read(q->op().interval().upper().get()), q->op().variable().id());
    if (OpSym const * q = dynamic_cast<OpSym const *>(op)) return mu(U_SYM, a, q->op().interval().id());
    unsigned long uid = 0;
    if (hooks().is && hooks().is(op, U_CUBE, uid)) return mu(U_CUBE, a, uid);
    throw ReadError(std::string("unknown unary operation ") + (op ? op->str() : "null"));
  }
  if (VExpr const * p = dynamic_cast<VExpr const *>(e)) {
    std::vector<M> k;
    for (size_t i = 0; i < p->size(); ++i) k.push_back(read((*p)[i].get()));
    return mvec(k);
  }
  // constants of other scalar types
  if (dynamic_cast<viennamath::rt_constant<int> const *>(e) || dynamic_cast<viennamath::rt_constant<long> const *>(e) || dynamic_cast<viennamath::rt_constant<float> const *>(e)) return mc(e->unwrap());
  if (hooks().read) { M m = hooks().read(e); if (m) return m; }
  throw ReadError("unknown node type: " + e->deep_str());
}
inline M read(Expr const & e) { return read(e.get()); }

// ---------------------------------------------------------------- reference arithmetic with error bounds
typedef long double LD;
struct E {                 // value, bound on the error of a double computation in the given operation order, reliability
  LD v, e; bool ok;
  E() : v(0), e(0), ok(true) {}
  E(LD x) : v(x), e(0), ok(true) {}
  E(LD x, LD er, bool o);
};
static LD EMAX = 1e150L, EMIN = 1e-150L; // range within which no intermediate result can over- or underflow
inline E::E(LD x, LD er, bool o) : v(x), e(er), ok(o && x == x && er == er && fabsl(x) < EMAX && er < EMAX) {}
struct Extremes { // wider range: for comparisons of computations in the same order only
  bool on; Extremes(bool o) : on(o) { if (on) { EMAX = 1e304L; EMIN = 0; } }
  ~Extremes() { EMAX = 1e150L; EMIN = 1e-150L; }
};
static const LD EPS = 1.1102230246251565e-16L, TINY = 5e-324L;
inline E rnd(LD v, LD e, bool ok) { return E(v, e + EPS * fabsl(v) + TINY, ok); }
inline E operator+(E const & a, E const & b) { return rnd(a.v + b.v, a.e + b.e, a.ok && b.ok); }
inline E operator-(E const & a, E const & b) { return rnd(a.v - b.v, a.e + b.e, a.ok && b.ok); }
inline E operator*(E const & a, E const & b) { return rnd(a.v * b.v, fabsl(a.v) * b.e + fabsl(b.v) * a.e + a.e * b.e, a.ok && b.ok); }
inline E operator/(E const & a, E const & b) {
  LD den = fabsl(b.v) - b.e;
  if (!(den > 0) || fabsl(b.v) < EMIN || b.e > 1e-3L * fabsl(b.v)) return E(0, 0, false);
  LD q = a.v / b.v;
  return rnd(q, (a.e + fabsl(q) * b.e) / den, a.ok && b.ok);
}
// generic unary function: error propagated by sampling the function at the ends of the error interval
template <typename F> inline E app(E const & a, F f) {
  if (!a.ok) return E(0, 0, false);
  LD v = f(a.v), hi = f(a.v + a.e), lo = f(a.v - a.e);
  if (!(v == v && hi == hi && lo == lo)) return E(0, 0, false);
  LD p = std::max(fabsl(hi - v), fabsl(lo - v));
  return E(v, 2 * p + 4 * EPS * fabsl(v) + TINY, true);
}
inline E e_exp(E const & a) { if (a.v > 300 || a.v < -300) return E(0, 0, false); return app(a, [](LD x) { return expl(x); }); }
inline E e_sin(E const & a) { if (fabsl(a.v) > 1e6L) return E(0, 0, false); E r = app(a, [](LD x) { return sinl(x); }); r.e += a.e; return r; }
inline E e_cos(E const & a) { if (fabsl(a.v) > 1e6L) return E(0, 0, false); E r = app(a, [](LD x) { return cosl(x); }); r.e += a.e; return r; }
inline E e_tan(E const & a) { if (fabsl(a.v) > 1e6L || fabsl(cosl(a.v)) < 1e-3L + 10 * a.e) return E(0, 0, false); return app(a, [](LD x) { return tanl(x); }); }
inline E e_fabs(E const & a) { return E(fabsl(a.v), a.e, a.ok); }
inline E e_sqrt(E const & a) { if (a.v < 0 || (a.e > 0 && a.v < 4 * a.e)) return E(0, 0, false); return app(a, [](LD x) { return sqrtl(x); }); }
inline E e_log(E const & a) { if (!(a.v > 0) || a.v < 4 * a.e || a.v < 1e-300L) return E(0, 0, false); return app(a, [](LD x) { return logl(x); }); }
inline E e_log10(E const & a) { if (!(a.v > 0) || a.v < 4 * a.e || a.v < 1e-300L) return E(0, 0, false); return app(a, [](LD x) { return log10l(x); }); }

// first-order dual numbers over E
struct D { E v, d; D() {} D(LD c) : v(c), d(0) {} D(E const & a, E const & b) : v(a), d(b) {} };
inline D operator+(D const & a, D const & b) { return D(a.v + b.v, a.d + b.d); }
inline D operator-(D const & a, D const & b) { return D(a.v - b.v, a.d - b.d); }
inline D operator*(D const & a, D const & b) { return D(a.v * b.v, a.d * b.v + a.v * b.d); }
inline D operator/(D const & a, D const & b) { return D(a.v / b.v, a.d / b.v - a.v * b.d / (b.v * b.v)); }
inline D e_exp(D const & a) { E x = e_exp(a.v); return D(x, x * a.d); }
inline D e_sin(D const & a) { return D(e_sin(a.v), e_cos(a.v) * a.d); }
inline D e_cos(D const & a) { return D(e_cos(a.v), E(0) - e_sin(a.v) * a.d); }
inline D e_tan(D const & a) { E t = e_tan(a.v); return D(t, (E(1) + t * t) * a.d); }
inline D e_fabs(D const & a) { E s = a.v.v > 0 ? E(1) : E(-1); if (fabsl(a.v.v) <= a.v.e) s.ok = false; return D(e_fabs(a.v), s * a.d); }
inline D e_sqrt(D const & a) { E s = e_sqrt(a.v); return D(s, a.d / (E(2) * s)); }
inline D e_log(D const & a) { return D(e_log(a.v), a.d / a.v); }
inline D e_log10(D const & a) { return D(e_log10(a.v), a.d / (a.v * E(logl(10.0L)))); }

template <typename T> struct Env {
  std::vector<T> x;                                             // variables
  std::function<T(M const &)> fsym;                             // function symbols
  std::function<T(M const &, T const &, Env<T> const &)> opaque; // grad, div, pd, integrals: interpretation given operand value
};
// opaque operations as fixed smooth functions of the operand value (sound for value-preserving rewriting below them)
inline LD h01(uint64_t h) { return (LD)(mix(h, 77) >> 11) / 9007199254740992.0L; }

template <typename T> T ev(M const & m, Env<T> const & env);
template <typename T> struct Bad { static T get(); };
template <> struct Bad<E> { static E get() { return E(0, 0, false); } };
template <> struct Bad<D> { static D get() { return D(E(0, 0, false), E(0, 0, false)); } };

template <typename T> T ev(M const & m, Env<T> const & env) {
  switch (m->k) {
    case CONST: { if (!((LD)fabs(m->c) < EMAX)) return Bad<T>::get(); return T((LD)m->c); }
    case VAR: if (m->id >= env.x.size()) return Bad<T>::get(); return env.x[m->id];
    case FSYM: if (!env.fsym) return Bad<T>::get(); return env.fsym(m);
    case VEC: return Bad<T>::get();
    case BIN: {
      T a = ev(m->kids[0], env), b = ev(m->kids[1], env);
      switch (m->op) { case ADD: return a + b; case SUB: return a - b; case MUL: return a * b; default: return a / b; }
    }
    case UN: {
      T a = ev(m->kids[0], env);
      switch (m->op) {
        case U_ID: return a; case U_EXP: return e_exp(a); case U_SIN: return e_sin(a); case U_COS: return e_cos(a); case U_TAN: return e_tan(a);
        case U_FABS: return e_fabs(a); case U_SQRT: return e_sqrt(a); case U_LOG: return e_log(a); case U_LOG10: return e_log10(a);
        default: if (!env.opaque) return Bad<T>::get(); return env.opaque(m, a, env);
      }
    }
  }
  return Bad<T>::get();
}
// standard interpretation of opaque parts for value comparison
inline Env<E> opaque_env(std::vector<double> const & x, uint64_t salt) {
  Env<E> en;
  for (size_t i = 0; i < x.size(); ++i) en.x.push_back(E((LD)x[i]));
  en.fsym = [salt](M const & m) { return E(0.3L + h01(mix(salt, m->id * 131 + m->tag * 7919 + 17)) * 1.4L); };
  en.opaque = [salt](M const & m, E const & a, Env<E> const & env) {
    uint64_t h = mix(salt, 1000003ull * m->op + 31 * (m->op == U_PD || m->op == U_SYM || m->op == U_INT ? m->id : 0));
    E p = E(0.4L + h01(h)), q = E(h01(h ^ 5) - 0.5L), r = E(0.3L * h01(h ^ 9));
    E t = p * a + q + r * a * a;
    if (m->op == U_INT) t = t + E(0.37L) * ev(m->kids[1], env) - E(0.59L) * ev(m->kids[2], env);
    return t;
  };
  return en;
}
inline Env<E> plain_env(std::vector<double> const & x) { Env<E> en; for (size_t i = 0; i < x.size(); ++i) en.x.push_back(E((LD)x[i])); return en; }
// does the double computation of value `got` agree with the reference?
inline bool reliable(E const & r) { return r.ok && r.e <= 1e-5L * (1 + fabsl(r.v)); }
inline bool agree(double got, E const & r, LD k = 16) { return got == got && fabsl((LD)got - r.v) <= k * r.e + 1e-300L; }
inline bool agree2(E const & a, E const & b, LD k = 16) { return fabsl(a.v - b.v) <= k * (a.e + b.e) + 1e-300L; }
// plain double evaluation in tree order (used for the class nan/inf/finite only)
inline double dbl(M const & m, std::vector<double> const & x) {
  switch (m->k) {
    case CONST: return m->c;
    case VAR: return x[m->id];
    case BIN: { double a = dbl(m->kids[0], x), b = dbl(m->kids[1], x); switch (m->op) { case ADD: return a + b; case SUB: return a - b; case MUL: return a * b; default: return a / b; } }
    case UN: { double a = dbl(m->kids[0], x); switch (m->op) { case U_ID: return a; case U_EXP: return ::exp(a); case U_SIN: return ::sin(a); case U_COS: return ::cos(a); case U_TAN: return ::tan(a); case U_FABS: return ::fabs(a); case U_SQRT: return ::sqrt(a); case U_LOG: return ::log(a); case U_LOG10: return ::log10(a); default: return NAN; } }
    default: return NAN;
  }
}

// ---------------------------------------------------------------- generator
struct Gen {
  Rng & r;
  unsigned nvars; int budget;
  bool functions, transc, fabs_ok, symbols, opaque, div_ok, ints_only, special_consts, vecs, idop, extremes, twins;
  Gen(Rng & rr) : r(rr), nvars(3), budget(12), functions(true), transc(true), fabs_ok(true), symbols(false), opaque(false), div_ok(true), ints_only(false), special_consts(true), vecs(false), idop(true), extremes(false), twins(true) {}
  double cst() {
    if (ints_only) return (double)r.range(-4, 6);
    if (extremes && r.chance(0.2)) { static const double x[] = { 1e-310, -3e-309, 5e-324, 2.5e-308, 1e300, -1e303, 8.9e302, 1e-300, 1e200, -1e-200, 1e160, 1e-160 }; return x[r.below(12)]; }
    switch (r.below(special_consts ? 14 : 9)) {
      case 0: return 0; case 1: return 1; case 2: return -1; case 3: return 2; case 4: return (double)r.range(-9, 12);
      case 5: return r.range(-40, 40) * 0.25; case 6: case 7: case 8: return r.real(-3, 3);
      case 9: return 0.5; case 10: return r.real(-1, 1) * ::pow(10.0, r.range(-14, -5)); case 11: return 1 + r.real(-1, 1) * ::pow(10.0, r.range(-13, -4));
      case 12: return r.chance(0.5) ? r.real(-1, 1) * ::pow(10.0, r.range(3, 9)) : 1000000 + 0.25 * r.range(-9, 9); default: return -0.5;
    }
  }
  M leaf() {
    double p = r.unit();
    if (symbols && p < 0.25) return mf(r.below(3), r.chance(0.5) ? TAG_UNKNOWN() : TAG_TEST());
    if (p < 0.62 && nvars) return mv(r.below(nvars));
    return mc(cst());
  }
  // keeps arguments of sqrt/log mostly in their domain
  M positive(int b) {
    switch (r.below(4)) {
      case 0: return mb(ADD, mb(MUL, leafv(), mv_or_c()), mc(r.real(4, 20)));
      case 1: { M a = gen(std::max(1, b - 4)); return mb(ADD, mb(MUL, a, a), mc(r.real(0.25, 2))); }
      case 2: return mu(U_EXP, mb(MUL, mc(r.real(-1, 1)), leafv()));
      default: return gen(b);
    }
  }
  M leafv() { return nvars ? mv(r.below(nvars)) : mc(r.real(0.3, 2)); }
  M mv_or_c() { return leafv(); }
  M gen(int b) {
    if (b <= 1) return leaf();
    if (functions && r.chance(0.30)) {
      int o;
      for (;;) {
        o = r.below(9);
        if (o == U_ID && !idop) continue;
        if (o == U_FABS && !fabs_ok) continue;
        if (!transc && o != U_ID) { o = U_ID; if (!idop) return leaf(); }
        break;
      }
      if (opaque && r.chance(0.35)) {
        switch (r.below(5)) {
          case 0: return mu(U_GRAD, gen(b - 1)); case 1: return mu(U_DIVG, gen(b - 1)); case 2: return mu(U_PD, gen(b - 1), r.below(4));
          case 3: return mu(U_SYM, gen(b - 1), r.below(3));
          default: return mint(gen(b - 1), mc(r.range(-2, 2)), r.chance(0.7) ? mc(r.range(1, 4)) : leaf(), r.below(nvars ? nvars : 1));
        }
      }
      if (o == U_SQRT || o == U_LOG || o == U_LOG10) return mu(o, positive(b - 1));
      if (o == U_EXP && r.chance(0.5)) return mu(U_EXP, mb(MUL, mc(r.real(-1, 1)), gen(std::max(1, b - 3))));
      return mu(o, gen(b - 1));
    }
    int l = 1 + r.below(b - 1);
    if (b - 1 - l < 1) l = std::max(1, b - 2);
    int rr = std::max(1, b - 1 - l);
    int o = r.below(div_ok ? 4 : 3);
    M a = gen(l), c = twins && r.chance(0.06) ? twin(a) : gen(rr);
    return mb(o, a, c);
  }
  // a copy of m, or one that differs from it in a single place only
  M twin(M const & m) {
    if (r.chance(0.35)) return m;
    int n = r.below((unsigned)m->size);
    for (int i = 0; i < 20; ++i) { int k = n; M t = alter(m, k); if (!equal(t, m)) return t; n = r.below((unsigned)m->size); }
    return m;
  }
  M alter(M const & m, int & n) {
    if (n-- == 0) switch (m->k) {
      case CONST:
        if (ints_only) return mc(m->c + r.range(1, 3));
        switch (r.below(5)) { case 0: return mc(m->c + 0.25); case 1: return mc(::nextafter(m->c, 1e300)); case 2: return mc(-m->c); case 3: return mc(m->c + ::pow(10.0, -(double)r.range(6, 13))); default: return mc(m->c * (1 + ::pow(2.0, -(double)r.range(8, 50)))); }
      case VAR: return nvars ? mv(r.below(nvars)) : m;
      case FSYM: return r.chance(0.5) ? mf(m->id, m->tag == TAG_TEST() ? TAG_UNKNOWN() : TAG_TEST()) : mf(r.below(3), m->tag);
      case BIN: if (r.chance(0.5)) return mb(m->op, m->kids[1], m->kids[0]); return mb(r.below(div_ok ? 4 : 3), m->kids[0], m->kids[1]);
      case UN:
        if (m->op == U_SIN) return mu(U_COS, m->kids[0]);
        if (m->op == U_COS) return mu(U_SIN, m->kids[0]);
        if (m->op == U_LOG) return mu(U_LOG10, m->kids[0]);
        if (m->op == U_LOG10) return mu(U_LOG, m->kids[0]);
        if (m->op == U_PD || m->op == U_SYM) return mu(m->op, m->kids[0], (m->id + 1) % 3);
        return m;
      default: return m;
    }
    if (m->kids.empty() || m->k == VEC) return m;
    std::vector<M> k(m->kids);
    size_t lim = m->k == UN ? 1 : k.size();
    for (size_t i = 0; i < lim && n >= 0; ++i) k[i] = alter(k[i], n);
    return with_kids(m, k);
  }
  M operator()() {
    switch (r.below(12)) {
      case 0: return chain(2 + r.below(budget * 2));
      case 1: return poly();
      default: return gen(1 + r.below(budget));
    }
  }
  // m below many levels, most of them functions
  M tower(M m) {
    int n = 20 + r.below(130);
    for (int i = 0; i < n; ++i) {
      if (r.chance(0.85)) m = mu(r.chance(0.4) ? U_SIN : r.chance(0.6) ? U_COS : U_ID, m);
      else { M l = leaf(); int o = r.below(3); m = r.chance(0.5) ? mb(o, l, m) : mb(o, m, l); }
    }
    return m;
  }
  // long left- or right-leaning chains
  M chain(int n) {
    M m = leaf();
    bool right = r.chance(0.5);
    for (int i = 0; i < n; ++i) {
      M l = leaf();
      int o = r.below(div_ok ? 4 : 3);
      if (o == DIV && l->k == CONST && l->c == 0) l = mc(3);
      m = (right && o != DIV) ? mb(o, l, m) : mb(o, m, l);
      if (functions && transc && r.chance(0.1)) m = mu(r.chance(0.5) ? U_SIN : U_COS, m);
    }
    return m;
  }
  M poly() {
    M m = mc(cst());
    int terms = 1 + r.below(4);
    for (int t = 0; t < terms; ++t) {
      M p = mc(cst());
      int deg = r.below(5);
      for (int i = 0; i < deg; ++i) p = r.chance(0.5) ? mb(MUL, p, leafv()) : mb(MUL, leafv(), p);
      m = mb(r.below(2) ? ADD : SUB, m, p);
    }
    return m;
  }
  std::vector<double> point(unsigned n) {
    std::vector<double> x(n);
    int style = r.below(8);
    for (unsigned i = 0; i < n; ++i) {
      switch (style) {
        case 0: x[i] = r.range(-4, 5); break;
        case 1: x[i] = r.real(-3, 3); break;
        case 2: x[i] = r.real(-50, 50); break;
        case 3: x[i] = ::pow(10.0, r.real(-4, 3)); break;
        default: x[i] = r.real(0.15, 3); break;
      }
    }
    return x;
  }
};

// ---------------------------------------------------------------- monitor runtime
struct Run {
  std::string prop; uint64_t seed; long first, count, cur; bool verbose;
  std::map<std::string, long> counters; std::set<uint64_t> hashes; std::vector<std::string> samples; std::set<std::string> shapes;
  long violations; std::string desc; std::string phase; std::set<std::string> vkeys;
};
inline Run & R() { static Run * r = new Run; return *r; }
inline void cnt(std::string const & name, long n = 1) { R().counters[name] += n; }
inline void state(std::string const & s) { if (R().shapes.size() < 200000) R().shapes.insert(s); }   // distinct situations observed
inline std::string esc(std::string const & s) { std::string o; for (size_t i = 0; i < s.size(); ++i) { char c = s[i]; if (c == '\\' || c == '"') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32 || (unsigned char)c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", (unsigned char)c); o += b; } else o += c; } return o; }
// a violation of the property: key identifies the kind of failure (for grouping and for known findings)
inline void viol(std::string const & key, std::string const & detail) {
  R().violations++;
  if (R().vkeys.size() < 40 && R().vkeys.insert(key).second)
    printf("@VIOL {\"case\": %ld, \"key\": \"%s\", \"detail\": \"%s\", \"input\": \"%s\"}\n", R().cur, esc(key).c_str(), esc(detail.substr(0, 1500)).c_str(), esc(R().desc.substr(0, 3000)).c_str());
  fflush(stdout);
}
inline void nontrivial(std::string const & id) { R().hashes.insert(hash_str(id)); if (R().samples.size() < 6 && id.size() < 400) R().samples.push_back(id); }
inline std::string fmt(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
inline std::string fmt(std::vector<double> const & v) { std::string s = "("; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ", "; s += fmt(v[i]); } return s + ")"; }
inline void desc(std::string const & s) { R().desc = s; }
inline void phase(std::string const & s) { R().phase = s; }

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
extern "C" int __lsan_do_recoverable_leak_check(void) __attribute__((weak));
extern "C" void __lsan_disable(void) __attribute__((weak));
extern "C" void __lsan_enable(void) __attribute__((weak));
inline void put(const char * s) { ssize_t n = write(2, s, strlen(s)); (void)n; }
inline void where_line(const char * tag) {
  char b[64]; snprintf(b, sizeof b, "\n@%s case=%ld\n@PHASE ", tag, R().cur); put(b); put(R().phase.substr(0, 300).c_str()); put("\n@INPUT "); put(R().desc.substr(0, 3000).c_str()); put("\n");
}
inline void on_death() { where_line("DIED"); }
inline void on_alarm(int) { where_line("HANG"); _exit(78); }
inline void on_abrt(int) { where_line("DIED"); _exit(79); }
inline void arm(int secs) { struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = secs; setitimer(ITIMER_VIRTUAL, &t, NULL); }

struct Quiet { // leak checker exemption for a scope
  Quiet() { if (__lsan_disable) __lsan_disable(); }
  ~Quiet() { if (__lsan_enable) __lsan_enable(); }
};

// usage: prog SEED FIRST COUNT OUT.json [CPU_LIMIT_PER_CASE]
inline int drive(int argc, char ** argv, const char * prop, void (*one)(long i, Rng & r), int leak_every = 200) {
  Run & run = R();
  run.prop = prop; run.seed = argc > 1 ? strtoull(argv[1], NULL, 10) : 1; run.first = argc > 2 ? atol(argv[2]) : 0; run.count = argc > 3 ? atol(argv[3]) : 100; run.violations = 0; run.cur = -1;
  const char * out = argc > 4 ? argv[4] : NULL;
  int lim = argc > 5 ? atoi(argv[5]) : 30;
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
  else signal(SIGABRT, on_abrt);
  signal(SIGVTALRM, on_alarm);
  std::ios_base::fmtflags fl = std::cout.flags(); (void)fl;
  for (long i = run.first; i < run.first + run.count; ++i) {
    run.cur = i; run.desc = ""; run.phase = "";  raw_count = 0;
    Rng r(mix(mix(run.seed, hash_str(prop)), (uint64_t)i));
    arm(lim);
    bool threw = true; std::string what;
    try { one(i, r); threw = false; }
    catch (ReadError const & x) { what = "result is not a valid expression: " + x.what; }
    catch (std::exception const & x) { what = std::string("unexpected exception: ") + x.what(); }
    catch (const char * x) { what = std::string("unexpected exception: ") + x; }
    catch (...) { what = "unexpected exception of unknown type"; }
    arm(0);
    if (threw) viol("exception:" + run.phase, what);
    if (run.violations > 60) break;
    if (leak_every && __lsan_do_recoverable_leak_check && ((i + 1 - run.first) % leak_every == 0 || i + 1 == run.first + run.count)) {
      static int reported = 0;
      if (!reported && __lsan_do_recoverable_leak_check()) {
        reported = 1;
        char b[100]; snprintf(b, sizeof b, "leaked memory detected after cases %ld..%ld", std::max(run.first, i + 1 - leak_every), i);
        run.desc = b; viol("leak", b);
      }
      cnt("leak_checks");
    }
  }
  if (out) {
    FILE * f = fopen(out, "w");
    if (!f) return 3;
    fprintf(f, "{\"done\": %ld, \"violations\": %ld, \"counters\": {", run.cur - run.first + 1, run.violations);
    bool c = false;
    for (std::map<std::string, long>::iterator it = run.counters.begin(); it != run.counters.end(); ++it) { fprintf(f, "%s\"%s\": %ld", c ? ", " : "", esc(it->first).c_str(), it->second); c = true; }
    fprintf(f, "}, \"samples\": [");
    for (size_t i = 0; i < run.samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? ", " : "", esc(run.samples[i]).c_str());
    fprintf(f, "], \"states\": [");
    c = false;
    for (std::set<std::string>::iterator it = run.shapes.begin(); it != run.shapes.end(); ++it) { fprintf(f, "%s\"%016llx\"", c ? ", " : "", (unsigned long long)hash_str(*it)); c = true; }
    fprintf(f, "], \"hashes\": [");
    c = false;
    for (std::set<uint64_t>::iterator it = run.hashes.begin(); it != run.hashes.end(); ++it) { fprintf(f, "%s\"%016llx\"", c ? ", " : "", (unsigned long long)*it); c = true; }
    fprintf(f, "]}\n");
    fclose(f);
  }
  return run.violations ? 1 : 0;
}

// common checks -------------------------------------------------------------------
// shape of a tree: operations only (evidence of structural diversity)
inline void shape_(M const & m, std::string & o, int d) {
  if (d == 0) { o += "."; return; }
  switch (m->k) { case CONST: o += "c"; break; case VAR: o += "x"; break; case FSYM: o += "f"; break;
    case BIN: o += BNAME[m->op]; shape_(m->kids[0], o, d - 1); shape_(m->kids[1], o, d - 1); break;
    case UN: o += UNAME[m->op][0]; o += UNAME[m->op][1]; shape_(m->kids[0], o, d - 1); break;
    case VEC: o += "V"; break; }
}
inline std::string shape(M const & m, int d = 4) { std::string o; shape_(m, o, d); return o; }
inline bool same(M const & a, M const & b) { return equal(a, b); }

} // namespace vm
#endif
