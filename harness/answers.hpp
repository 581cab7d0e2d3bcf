// Requests to an expression and their answers in a comparable form (P29, P32).
#ifndef ANSWERS_HPP
#define ANSWERS_HPP
#include "machine.hpp"
using namespace vm;

// fresh nodes with the same contents and the same scalar types
static Iface * rebuild(Iface const * e) {
  if (viennamath::rt_constant<int> const * p = dynamic_cast<viennamath::rt_constant<int> const *>(e)) return Expr(viennamath::rt_constant<int>((int)p->unwrap())).get()->clone();
  if (viennamath::rt_constant<long> const * p = dynamic_cast<viennamath::rt_constant<long> const *>(e)) return Expr(viennamath::rt_constant<long>((long)p->unwrap())).get()->clone();
  if (viennamath::rt_constant<float> const * p = dynamic_cast<viennamath::rt_constant<float> const *>(e)) return Expr(viennamath::rt_constant<float>((float)p->unwrap())).get()->clone();
  if (BExpr const * p = dynamic_cast<BExpr const *>(e)) { M m = read(e); Iface * l = rebuild(p->lhs()); Iface * r = rebuild(p->rhs()); return new BExpr(l, new_bop(m->op), r); }
  if (UExpr const * p = dynamic_cast<UExpr const *>(e)) {
    M m = read(e); OpI * op;
    if (OpInt const * q = dynamic_cast<OpInt const *>(p->op())) op = new OpInt(viennamath::op_rt_integral<Iface>(Ival(Expr(rebuild(q->op().interval().lower().get())), Expr(rebuild(q->op().interval().upper().get()))), Var(m->id)));
    else op = new_uop(m);
    Iface * l = rebuild(p->lhs()); return new UExpr(l, op);
  }
  if (VExpr const * p = dynamic_cast<VExpr const *>(e)) { VExpr * v = new VExpr(p->size()); for (size_t i = 0; i < p->size(); ++i) (*v)[i] = Expr(rebuild((*p)[i].get())); return v; }
  M m = read(e);
  return m->k == CONST ? new Const(m->c) : m->k == VAR ? static_cast<Iface *>(new Var(m->id)) : static_cast<Iface *>(new FSym(m->id, m->tag));
}

struct Ans { // an answer, in a form which can be compared
  std::string s; bool num; double d; M t;
  Ans() : num(false), d(0) {}
};
static Ans num(double d) { Ans a; a.num = true; a.d = d; a.s = d != d ? "nan" : fmt(d); return a; }
static Ans txt(std::string const & s) { Ans a; a.s = s; return a; }
static Ans tree(M const & m) { Ans a; a.t = m; a.s = str(m); return a; }
static M take(Iface * p) { Expr q(p); return read(q); }
template <typename F> static Ans ask(F f) {
  try { return f(); }
  catch (ReadError const &) { throw; }
  catch (std::exception const &) { return txt("rejected"); }
  catch (const char *) { return txt("rejected"); }
}

struct Pool { // the few requests which are repeated over the whole history
  std::vector<std::vector<double> > pts; std::vector<M> from, to; std::vector<Expr> fe, te; viennamath::latex_translator tr; viennamath::numerical_quadrature quad;
  Pool() : quad(new viennamath::gauss_quad_1()) {}
};
enum { EVAL, EVAL1, TEXT, LATEX, SIMPLE, FLAGS, DIFFV, DIFFF, SUBST, SUBSTN, VISIT, MANIP, COORD, QUAD, CLONE, STEP, NOPS };
static const char * const ONAME[] = { "evaluation", "scalar evaluation", "printing", "LaTeX", "simplify", "queries", "derivative", "derivative by a function", "substitution", "list substitution", "traversal", "manipulation", "coordinate system", "quadrature", "copy", "one simplification step" };
struct Log : viennamath::rt_traversal_interface<Iface> { std::string * s; explicit Log(std::string * p) : s(p) {} void operator()(Iface const * e) const { *s += e->shallow_str(); *s += '|'; } bool step_into(Iface const *) const { return true; } };

// intervals with bounds, midpoints or lengths in common
static void span(int k, double & a, double & b) { static const double s[][2] = { { 0, 1 }, { -1, 2 }, { 0.5, 1 }, { 0, 0.5 }, { 1, 0 }, { 0.25, 0.75 }, { -1, 0 }, { 1, 1.5 }, { 0, 1e-3 }, { 0, 2 }, { -2, 4 }, { 2, 0 } }; a = s[k % 12][0]; b = s[k % 12][1]; }
// request o with parameter k to the node p
static Ans answer(Iface const * p, Expr const * own, int o, int k, Pool & w, viennamath::latex_translator & tr) {
  return ask([&]() -> Ans {
    Expr tmp; if (!own) tmp = Expr(p->clone()); Expr const & e = own ? *own : tmp; // the expression object itself, if there is one
    switch (o) {
      case EVAL: return num(k & 4 ? e(w.pts[k % w.pts.size()]) : k & 8 ? viennamath::eval(e, w.pts[k % w.pts.size()]) : p->eval(w.pts[k % w.pts.size()]));
      case EVAL1: return num(p->eval(w.pts[k % w.pts.size()][0]));
      case TEXT: { std::ostringstream s; s << e; return txt(p->deep_str() + " " + p->shallow_str() + " " + s.str()); }
      case LATEX: { if (BExpr const * b = dynamic_cast<BExpr const *>(p)) return txt(tr(*b)); if (UExpr const * b = dynamic_cast<UExpr const *>(p)) return txt(tr(*b)); return txt(tr(e)); }
      case SIMPLE: { if (k % 3 == 0) if (BExpr const * b = dynamic_cast<BExpr const *>(p)) return tree(read(Expr(viennamath::simplify(*b)))); if (k % 3 == 1) if (UExpr const * b = dynamic_cast<UExpr const *>(p)) return tree(read(Expr(viennamath::simplify(*b)))); if (k % 3 == 2) { Expr c(e); viennamath::inplace_simplify(c); return tree(read(c)); } return tree(read(viennamath::simplify(e))); }
      case FLAGS: { std::string s = std::string(p->can_simplify() ? "s" : "-") + (p->is_constant() ? "c" : "-") + (p->is_unary() ? "u" : "-"); if (p->is_constant()) { double d = p->unwrap(); s += d != d ? "nan" : fmt(d); } return txt(s); }
      case DIFFV: { Var v(k % 3); if (k % 2) { return tree(read(viennamath::diff(e, v))); } return tree(take(p->diff(&v))); }
      case DIFFF: { FSym v(k % 3, k % 2 ? TAG_TEST() : TAG_UNKNOWN()); return tree(read(viennamath::diff(e, v))); }
      case SUBST: { size_t j = k % w.fe.size(); if (k % 2) { return tree(read(viennamath::substitute(w.fe[j], w.te[j], e))); } return tree(take(p->substitute(w.fe[j].get(), w.te[j].get()))); }
      case SUBSTN: { std::vector<const Iface *> a, b; for (size_t j = 0; j < w.fe.size(); ++j) if (k >> j & 1) { a.push_back(w.fe[j].get()); b.push_back(w.te[j].get()); } return tree(take(p->substitute(a, b))); }
      case VISIT: { std::string s; p->recursive_traversal(viennamath::rt_traversal_wrapper<Iface>(new Log(&s))); return txt(s); }
      case MANIP: return tree(take(p->recursive_manipulation(viennamath::rt_manipulation_wrapper<Iface>(new Swap01()))));
      case COORD: { if (k % 3 == 0) return tree(read(viennamath::apply_coordinate_system(viennamath::cartesian<1>(), e))); if (k % 3 == 1) return tree(read(viennamath::apply_coordinate_system(viennamath::cartesian<2>(), e))); return tree(read(viennamath::apply_coordinate_system(viennamath::cartesian<3>(), e))); }
      case QUAD: { Var x(k % 3); double a, b; span(k, a, b); Ival one((Expr(a)), Expr(b)); return num(w.quad(one, e, x)); }
      case CLONE: return tree(take(p->clone()));
      default: return tree(take(p->simplify()));
    }
  });
}
static M swap01(M const & m) { // bounds are not part of the tree, vectors are leaves
  if (m->k == VAR) return m->id < 2 ? mv(1 - m->id) : m;
  if (m->k == VEC || m->kids.empty()) return m;
  std::vector<M> k(m->kids); size_t n = m->k == UN ? 1 : k.size();
  for (size_t i = 0; i < n; ++i) k[i] = swap01(k[i]);
  return with_kids(m, k);
}
static bool vecless(M const & m) { return !has_kind(m, VEC); }
static bool allowed(M const & m, int o) {
  switch (o) {
    case DIFFV: return m->size < 18;
    case DIFFF: return m->size < 14 && vecless(m);
    case LATEX: case COORD: return vecless(m);
    case SIMPLE: case STEP: case SUBST: case SUBSTN: return vecless(m);   // combinations of vectors of different lengths are out of bounds
    case QUAD: return vecless(m) && !any(m, [](M const & k) { return k->k == UN && k->op == U_INT; });
    case EVAL: case EVAL1: case FLAGS: return vecless(m);
  }
  return true;
}
#endif
