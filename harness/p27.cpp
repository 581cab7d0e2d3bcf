// P27: chains of manipulations against an independent denotational reference (Taylor series), Newton iterations, algebraic laws, weak forms.
#include "jets.hpp"
using namespace vm;
namespace vmath = viennamath;
typedef std::vector<E> Pt;
typedef std::function<J(Pt const &)> Ref;
static Pt pt(std::vector<double> const & x) { Pt p; for (size_t i = 0; i < x.size(); ++i) p.push_back(E((LD)x[i])); return p; }
static bool rel(E const & r) { return r.ok && r.e <= 1e-6L * (1 + fabsl(r.v)); }

// the library's expression against the reference value at a point: tree (with its own error bound) and library evaluation
static bool check(std::string const & key, std::string const & what, Expr const & e, M const & m, std::vector<double> const & x, E const & ref) {
  if (!rel(ref)) { cnt("skipped points"); return false; }
  E got = ev(m, plain_env(x));
  if (!rel(got)) { cnt("skipped points"); return false; }
  cnt("values compared");
  if (!agree2(ref, got, 64)) { viol(key, what + " is " + str(m).substr(0, 600) + " with value " + fmt((double)got.v) + " at " + fmt(x) + ", expected " + fmt((double)ref.v)); return true; }
  double v = e(x);
  if (!agree(v, got, 32)) viol(key + ":evaluation", what + " evaluates to " + fmt(v) + " at " + fmt(x) + ", expected " + fmt((double)ref.v));
  return true;
}
static Expr dvar(Expr const & e, unsigned j, Rng & r) {
  switch (r.below(4)) {
    case 0: if (j == 0) return vmath::diff(e, vmath::ct_variable<0>()); if (j == 1) return vmath::diff(e, vmath::ct_variable<1>()); return vmath::diff(e, vmath::ct_variable<2>());
    case 1: if (BExpr const * b = dynamic_cast<BExpr const *>(e.get())) return vmath::diff(*b, Var(j)); if (UExpr const * b = dynamic_cast<UExpr const *>(e.get())) return vmath::diff(*b, Var(j)); break;
    default: break;
  }
  return vmath::diff(e, Var(j));
}
static M gtree(Gen & g, int b) { g.budget = b; return g.gen(1 + g.r.below(b)); }
static Gen mk(Rng & r, int nv, int budget) { Gen g(r); g.nvars = nv; g.fabs_ok = false; g.special_consts = r.chance(0.3); g.idop = r.chance(0.3); g.budget = budget; g.transc = r.chance(0.75); return g; }

// ---- random pipelines
static void pipeline(Rng & r) {
  Gen g = mk(r, 3, 4 + r.below(7));
  M m0 = g.gen(2 + r.below(g.budget));
  Expr e = wrap(m0);
  Ref ref = [m0](Pt const & x) { return jeval(m0, x); };
  std::string log = str(m0); int diffs = 0;
  int stages = 2 + r.below(6); size_t size = m0->size; bool did = false;
  for (int s = 0; s < stages; ++s) {
    std::string op; Ref prev = ref;
    int k = r.below(12);
    if ((k < 3 && diffs >= 3) || (k < 3 && size > 250)) k = 8;
    if (k < 3) { unsigned j = r.below(3); op = "d/dx" + std::to_string(j); phase(op + " of " + str(read(e)).substr(0, 250)); e = dvar(e, j, r); ref = [prev, j](Pt const & x) { return jdiff(prev(x), (int)j); }; ++diffs; }
    else if (k < 6) {
      unsigned j = r.below(3); M gm = gtree(g, 5);
      if (size * gm->size > 4000) continue;
      op = "x" + std::to_string(j) + " := " + str(gm); phase(op);
      Expr ge = wrap(gm); Var v(j);
      if (gm->k == CONST && r.chance(0.5)) e = vmath::substitute(v, gm->c, e); else e = vmath::substitute(v, ge, e);
      ref = [prev, j, gm](Pt const & x) { Pt y = x; J gj[JV]; for (int q = 0; q < JV; ++q) gj[q] = jvar(x[q], q); gj[j] = jeval(gm, x); y[j] = gj[j].c[0]; if (!y[j].ok) return bad_jet(); return jcompose(prev(y), gj); };
    }
    else if (k == 6) {  // simultaneous
      M ga = gtree(g, 4), gb = gtree(g, 4); if (r.chance(0.4)) { ga = mv(1); gb = mv(0); }
      if (size * std::max(ga->size, gb->size) > 4000) continue;
      op = "(x0, x1) := (" + str(ga) + ", " + str(gb) + ")"; phase(op);
      std::vector<Expr> to; to.push_back(wrap(ga)); to.push_back(wrap(gb));
      std::vector<Expr> from; from.push_back(Expr(Var(0))); from.push_back(Expr(Var(1)));
      e = vmath::substitute(from, to, e);
      ref = [prev, ga, gb](Pt const & x) { Pt y = x; J gj[JV]; for (int q = 0; q < JV; ++q) gj[q] = jvar(x[q], q); gj[0] = jeval(ga, x); gj[1] = jeval(gb, x); y[0] = gj[0].c[0]; y[1] = gj[1].c[0]; if (!y[0].ok || !y[1].ok) return bad_jet(); return jcompose(prev(y), gj); };
    }
    else if (k == 7) { op = "simplify"; phase(op); if (r.chance(0.5)) e = vmath::simplify(e); else vmath::inplace_simplify(e); }
    else if (k < 10) {
      M gm = gtree(g, 4); int o = r.below(4); bool left = r.chance(0.5);
      op = (left ? str(gm) + BNAME[o] : std::string(BNAME[o]) + str(gm)); phase(op);
      Expr ge = wrap(gm);
      Expr const & a = left ? ge : e; Expr const & b = left ? e : ge;
      switch (o) { case ADD: e = a + b; break; case SUB: e = a - b; break; case MUL: e = a * b; break; default: e = a / b; }
      ref = [prev, gm, o, left](Pt const & x) { J p = prev(x), q = jeval(gm, x); if (left) std::swap(p, q); switch (o) { case ADD: return p + q; case SUB: return p - q; case MUL: return p * q; default: return p / q; } };
    }
    else if (k == 10) { op = "sin/exp/cos"; int o = r.below(3); phase(op); switch (o) { case 0: e = vmath::sin(e); break; case 1: e = vmath::cos(e); break; default: { Expr h = e * 0.25; e = vmath::exp(vmath::sin(h)); } }
      ref = [prev, o](Pt const & x) { J p = prev(x); switch (o) { case 0: return e_sin(p); case 1: return e_cos(p); default: return e_exp(e_sin(p * J(0.25L))); } }; }
    else { op = "copied"; phase(op); Expr t(e); e = Expr(1.0); e = t; if (BExpr const * b = dynamic_cast<BExpr const *>(e.get())) { BExpr bb(*b); Expr w; w = bb; e = w; } }
    log += " | " + op; desc(log);
    M m = read(e); size = m->size; cnt("pipeline stages");
    if (size > 1200) { cnt("pipelines cut"); break; }
    phase("values after " + op);
    for (int q = 0; q < 2; ++q) { std::vector<double> x(3); for (int i = 0; i < 3; ++i) x[i] = r.chance(0.7) ? r.real(0.2, 2.5) : r.real(-3, 3); did = check("pipeline", "the result of " + log, e, m, x, ref(pt(x)).c[0]) || did; }
    state("stage " + std::to_string(k) + " after " + std::to_string(diffs) + " derivatives");
  }
  if (did) { nontrivial(log); if (diffs) cnt("pipelines with derivatives"); }
}
// ---- laws
static Expr D_(Expr const & e, unsigned j) { return vmath::diff(e, Var(j)); }
static void same(std::string const & law, Expr const & a, Expr const & b, Rng & r, bool & did) {
  M ma = read(a), mb_ = read(b);
  for (int q = 0; q < 3; ++q) {
    std::vector<double> x(3); for (int i = 0; i < 3; ++i) x[i] = r.chance(0.7) ? r.real(0.2, 2.5) : r.real(-3, 3);
    E u = ev(ma, plain_env(x)), v = ev(mb_, plain_env(x));
    if (!rel(u) || !rel(v)) { cnt("skipped points"); continue; }
    cnt("laws compared"); did = true;
    if (!agree2(u, v, 64)) { viol("law:" + law, law + ": " + str(ma).substr(0, 500) + " gives " + fmt((double)u.v) + ", " + str(mb_).substr(0, 500) + " gives " + fmt((double)v.v) + " at " + fmt(x)); return; }
    double du = a(x), dv = b(x);
    if (!agree(du, u, 32) || !agree(dv, v, 32)) { viol("law:" + law + ":evaluation", law + ": evaluates to " + fmt(du) + " and " + fmt(dv)); return; }
  }
  state(law);
}
static void laws(Rng & r) {
  Gen g = mk(r, 3, 9);
  M mf_ = g.gen(2 + r.below(9)), mg = g.gen(1 + r.below(9)), mh = g.gen(1 + r.below(6));
  desc("laws for f=" + str(mf_) + " g=" + str(mg) + " h=" + str(mh));
  Expr f = wrap(mf_), G = wrap(mg), h = wrap(mh); unsigned i = r.below(3), j = r.below(3); Var X(i), Y(j); bool did = false;
  double c = g.cst();
  phase("sum"); same("sum rule", D_(f + G, i), D_(f, i) + D_(G, i), r, did);
  phase("difference"); same("difference rule", D_(f - G, i), D_(f, i) - D_(G, i), r, did);
  phase("product"); same("product rule", D_(f * G, i), D_(f, i) * G + f * D_(G, i), r, did);
  phase("quotient"); same("quotient rule", D_(f / G, i), (D_(f, i) * G - f * D_(G, i)) / (G * G), r, did);
  phase("constant factor"); same("constant factor", D_(c * f, i), c * D_(f, i), r, did);
  phase("mixed"); same("mixed derivatives", D_(D_(f, i), j), D_(D_(f, j), i), r, did);
  phase("chain"); { Expr fg = vmath::substitute(X, G, f), t = vmath::substitute(X, G, D_(f, i)) * D_(G, j); if (i != j) t = t + vmath::substitute(X, G, D_(f, j)); same("chain rule", D_(fg, j), t, r, did); }
  phase("composition"); { Expr a = vmath::substitute(Y, h, vmath::substitute(X, G, f)), gh = vmath::substitute(Y, h, G);
    std::vector<Expr> from, to; from.push_back(Expr(X)); to.push_back(gh); if (i != j) { from.push_back(Expr(Y)); to.push_back(h); }
    same("composed substitutions", a, vmath::substitute(from, to, f), r, did); }
  phase("distribution"); { Expr s = f + G, p = f * G; same("substitution in a sum", vmath::substitute(X, h, s), vmath::substitute(X, h, f) + vmath::substitute(X, h, G), r, did); same("substitution in a product", vmath::substitute(X, h, p), vmath::substitute(X, h, f) * vmath::substitute(X, h, G), r, did); }
  phase("partial evaluation"); { double v = r.real(0.3, 2); Expr a = vmath::substitute(X, v, f); std::vector<double> x(3); for (int q = 0; q < 3; ++q) x[q] = r.real(0.3, 2); std::vector<double> y = x; y[i] = v; E u = ev(mf_, plain_env(y)); if (reliable(u)) { cnt("laws compared"); double w = a(x); if (!agree(w, u, 64)) viol("law:partial evaluation", "substituting " + fmt(v) + " for x" + std::to_string(i) + " and evaluating gives " + fmt(w) + ", expected " + fmt((double)u.v)); } }
  if (!equal(read(f), mf_) || !equal(read(G), mg) || !equal(read(h), mh)) viol("law:mutated", "an operand was changed");
  if (did) nontrivial(str(mf_) + str(mg));
}
// ---- Newton iterations on equations, stepped against a long double reference
static bool solve(std::vector<std::vector<LD> > a, std::vector<LD> b, std::vector<LD> & x, LD & cond) {
  size_t n = b.size(); cond = 1e300L;
  for (size_t k = 0; k < n; ++k) {
    size_t p = k; for (size_t i = k + 1; i < n; ++i) if (fabsl(a[i][k]) > fabsl(a[p][k])) p = i;
    std::swap(a[k], a[p]); std::swap(b[k], b[p]);
    LD row = 0; for (size_t j = k; j < n; ++j) row = std::max(row, fabsl(a[k][j]));
    if (!(fabsl(a[k][k]) > 1e-3L * row) || !(fabsl(a[k][k]) > 1e-3L)) return false;
    for (size_t i = k + 1; i < n; ++i) { LD q = a[i][k] / a[k][k]; for (size_t j = k; j < n; ++j) a[i][j] -= q * a[k][j]; b[i] -= q * b[k]; }
  }
  x.assign(n, 0);
  for (size_t i = n; i-- > 0;) { LD s = b[i]; for (size_t j = i + 1; j < n; ++j) s -= a[i][j] * x[j]; x[i] = s / a[i][i]; }
  return true;
}
static void newton(Rng & r) {
  unsigned n = 1 + r.below(3);
  Gen g = mk(r, n, 7);
  std::vector<M> f; std::vector<LD> rhs; std::vector<double> root(n), start(n);
  for (unsigned i = 0; i < n; ++i) { root[i] = r.real(0.5, 2); start[i] = root[i] + r.real(-0.15, 0.15); }
  std::vector<Eqn> eqs; std::string d = "system:";
  for (unsigned i = 0; i < n; ++i) {
    M t = mb(ADD, mb(MUL, mc(r.real(2, 5)), mv(i)), g.gen(2 + r.below(8)));
    E v = ev(t, plain_env(root)); if (!reliable(v) || fabsl(v.v) > 1e4L) { cnt("skipped systems"); return; }
    double c = (double)v.v; f.push_back(t); rhs.push_back(c); d += " " + str(t) + " = " + fmt(c) + ";";
    if (r.chance(0.5)) eqs.push_back(vmath::make_equation(wrap(t), c)); else eqs.push_back(vmath::make_equation(c, wrap(t)));
  }
  desc(d + " from " + fmt(start)); phase("Newton set-up");
  std::vector<Expr> F; std::vector<std::vector<Expr> > Jx(n); std::vector<M> mF; std::vector<std::vector<M> > mJ(n);
  for (unsigned i = 0; i < n; ++i) {
    F.push_back(eqs[i].lhs() - eqs[i].rhs()); mF.push_back(read(F[i]));
    for (unsigned j = 0; j < n; ++j) { Expr q = vmath::diff(F[i], Var(j)); Jx[i].push_back(q); mJ[i].push_back(read(q)); }
  }
  std::vector<double> x = start; std::vector<LD> y(start.begin(), start.end()); bool refok = true, libok = true; LD last = 1e9;
  for (int it = 0; it < 12 && refok; ++it) {
    phase("Newton step " + std::to_string(it));
    // reference iterate
    std::vector<double> yd(y.begin(), y.end());
    std::vector<std::vector<LD> > A(n, std::vector<LD>(n)); std::vector<LD> b(n), dx; LD cond;
    Pt p; for (unsigned i = 0; i < 3; ++i) p.push_back(i < n ? E(y[i]) : E(0));
    for (unsigned i = 0; i < n; ++i) { J q = jeval(f[i], p); if (!q.c[0].ok) refok = false; b[i] = q.c[0].v - rhs[i]; for (unsigned j = 0; j < n; ++j) { E t = jdiff(q, (int)j).c[0]; if (!t.ok || fabsl(t.v) > 1e5L) refok = false; A[i][j] = t.v; } }
    if (!refok || !solve(A, b, dx, cond)) { refok = false; break; }
    // the library's residual and Jacobian at its own iterate against the reference at that iterate
    std::vector<std::vector<LD> > B(n, std::vector<LD>(n)); std::vector<LD> res(n), dl;
    Pt lp; for (unsigned i = 0; i < 3; ++i) lp.push_back(i < n ? E((LD)x[i]) : E(0));
    for (unsigned i = 0; i < n; ++i) {
      J q = jeval(f[i], lp); int sgn = 0;
      res[i] = F[i](x); { E a = q.c[0] - E(rhs[i]); E z = ev(mF[i], plain_env(x)); if (rel(z) && q.c[0].ok) { sgn = mF[i]->k == BIN && equal(mF[i]->kids[0], f[i]) ? 1 : -1; cnt("residuals compared"); if (!agree((double)(sgn * res[i]), a, 64)) { viol("newton:residual", "residual " + std::to_string(i) + " evaluates to " + fmt((double)res[i]) + " at " + fmt(x) + ", expected " + fmt((double)(sgn * a.v))); return; } } }
      for (unsigned j = 0; j < n; ++j) { B[i][j] = Jx[i][j](x); E a = jdiff(q, (int)j).c[0], z = ev(mJ[i][j], plain_env(x)); if (!rel(z) || !rel(a) || !sgn) continue; E w = a; w.v *= sgn; cnt("Jacobian entries compared"); if (!agree2(w, z, 64) || !agree((double)B[i][j], z, 32)) { viol("newton:jacobian", "entry " + std::to_string(i) + "," + std::to_string(j) + " is " + fmt((double)B[i][j]) + " at " + fmt(x) + ", expected " + fmt((double)w.v)); return; } }
    }
    if (!solve(B, res, dl, cond)) libok = false;
    LD step = 0; for (unsigned i = 0; i < n; ++i) { y[i] -= dx[i]; step = std::max(step, fabsl(dx[i])); if (libok) x[i] = (double)(x[i] - dl[i]); }
    cnt("Newton steps"); last = step;
    if (step > 0.6) { refok = false; break; }
    if (step < 1e-13L) break;
  }
  if (!refok || last > 1e-10L) { cnt("reference diverged"); return; }
  LD dist = 0; for (unsigned i = 0; i < n; ++i) dist = std::max(dist, fabsl((LD)x[i] - y[i]));
  cnt("converged systems");
  if (!libok || !(dist < 1e-6L)) viol("newton:limit", "iteration with symbolic derivatives ends at " + fmt(x) + ", reference " + fmt(std::vector<double>(y.begin(), y.end())));
  nontrivial(d); state("newton " + std::to_string(n));
}
// ---- weak forms: from the equation to the numbers of an element matrix
static E jd(M const & m, Pt const & x, int v) { return jdiff(jeval(m, x), v).c[0]; }
static E midpoint(M const & m, E const & x) {
  if (m->k == UN && m->op == U_INT) { Env<E> en; en.x.push_back(x); return ev(m->kids[0], en); }
  if (m->k == BIN) { E a = midpoint(m->kids[0], x), b = midpoint(m->kids[1], x); return m->op == ADD ? a + b : a - b; }
  return E(0);
}
static void weak(Rng & r) {
  unsigned dim = 1 + r.below(3); unsigned long id = r.below(4);
  Gen g = mk(r, dim, 6); g.transc = r.chance(0.5);
  FSym u(0, vmath::unknown_tag<>()), v(0, vmath::test_tag<>());
  M ca = r.chance(0.5) ? mc(r.range(1, 4)) : g.gen(1 + r.below(4)), cb = g.gen(1 + r.below(4)), cf = g.gen(1 + r.below(6));
  bool adv = r.chance(0.5), mass = r.chance(0.7);
  double a = r.real(0.2, 1.5), b = a + r.real(-0.5, 1.2);
  SIval om(id); Expr ea = wrap(ca), eb = wrap(cb), ef = wrap(cf);
  desc("weak form dim=" + std::to_string(dim) + " a=" + str(ca) + " b=" + str(cb) + " f=" + str(cf)); phase("weak form");
  Expr lhs = vmath::integral(om, ea * (vmath::grad(u) * vmath::grad(v)));
  if (mass) lhs = lhs + vmath::integral(om, eb * (u * v));
  if (adv) lhs = lhs - vmath::integral(om, vmath::div(u) * v);
  Eqn wf = vmath::make_equation(lhs, vmath::integral(om, ef * v));
  Eqn t = dim == 1 ? vmath::apply_coordinate_system(vmath::cartesian<1>(), wf) : dim == 2 ? vmath::apply_coordinate_system(vmath::cartesian<2>(), wf) : vmath::apply_coordinate_system(vmath::cartesian<3>(), wf);
  std::vector<M> phi; int nb = 2 + r.below(2); for (int i = 0; i < nb; ++i) phi.push_back(g.gen(2 + r.below(6)));
  std::vector<double> others; for (int i = 0; i < 3; ++i) others.push_back(r.real(0.3, 1.5));
  Pt mid; mid.push_back((E((LD)a) + E((LD)b)) / E(2)); mid.push_back(E((LD)others[1])); mid.push_back(E((LD)others[2]));
  vmath::numerical_quadrature quad(new vmath::rt_gauss_quad_1<Iface>());
  bool did = false;
  for (int i = 0; i < nb; ++i) for (int j = 0; j < nb; ++j) {
    Expr L = t.lhs(), Rr = t.rhs(); Expr pi = wrap(phi[i]), pj = wrap(phi[j]);
    phase("basis functions inserted");
    bool at_once = r.chance(0.5);
    if (at_once) {
      std::vector<Expr> from, to;
      for (unsigned k = 0; k < dim; ++k) { from.push_back(Expr(vmath::diff(u, Var(k)))); to.push_back(vmath::diff(pi, Var(k))); from.push_back(Expr(vmath::diff(v, Var(k)))); to.push_back(vmath::diff(pj, Var(k))); }
      from.push_back(Expr(u)); to.push_back(pi); from.push_back(Expr(v)); to.push_back(pj);
      L = vmath::substitute(from, to, L); Rr = vmath::substitute(from, to, Rr);
    } else {
      for (unsigned k = 0; k < dim; ++k) { L = vmath::substitute(Expr(vmath::diff(u, Var(k))), vmath::diff(pi, Var(k)), L); L = vmath::substitute(Expr(vmath::diff(v, Var(k))), vmath::diff(pj, Var(k)), L); }
      L = vmath::substitute(u, pi, L); L = vmath::substitute(v, pj, L); Rr = vmath::substitute(v, pj, Rr);
    }
    for (unsigned k = 1; k < dim; ++k) { L = vmath::substitute(Var(k), others[k], L); Rr = vmath::substitute(Var(k), others[k], Rr); }
    phase("domain replaced"); Ival iv = vmath::make_interval(a, b); Var x0(0);
    L = vmath::substitute(om, std::make_pair(iv, x0), L); Rr = vmath::substitute(om, std::make_pair(iv, x0), Rr);
    phase("reference");
    E len = E((LD)b) - E((LD)a), s(0); J Ji = jeval(phi[i], mid), Jj = jeval(phi[j], mid);
    for (unsigned k = 0; k < dim; ++k) s = s + jdiff(Ji, (int)k).c[0] * jdiff(Jj, (int)k).c[0];
    E val = jeval(ca, mid).c[0] * s; E mag = E(fabsl(val.v), val.e, val.ok);
    if (mass) { E q = jeval(cb, mid).c[0] * Ji.c[0] * Jj.c[0]; val = val + q; }
    if (adv) { E dv(0); for (unsigned k = 0; k < dim; ++k) dv = dv + jdiff(Ji, (int)k).c[0]; val = val - dv * Jj.c[0]; }
    val = val * len; E rv = jeval(cf, mid).c[0] * Jj.c[0] * len;
    if (!rel(val) || !rel(rv)) { cnt("skipped entries"); continue; }
    phase("numerical quadrature of " + str(read(L)).substr(0, 200));
    // the integrands as written, in double precision: undefined or ill conditioned ones are not judged
    if (!rel(midpoint(read(L), mid[0])) || !rel(midpoint(read(Rr), mid[0]))) { cnt("skipped entries"); continue; }
    double dl, dr; Quiet q;
    try { dl = quad(L); dr = quad(Rr); } catch (std::exception const & ex) { viol("weak:rejected", std::string("quadrature of the assembled form is rejected: ") + ex.what() + ": " + str(read(L)).substr(0, 400)); return; } catch (const char * ex) { viol("weak:rejected", std::string("quadrature of the assembled form is rejected: ") + ex + ": " + str(read(L)).substr(0, 400)); return; }
    cnt("matrix entries compared"); did = true;
    LD tl = 1e-7L * (1 + fabsl(val.v)) + 4096 * val.e, tr = 1e-7L * (1 + fabsl(rv.v)) + 4096 * rv.e;
    if (!(fabsl(dl - val.v) <= tl)) { viol("weak:matrix", "matrix entry " + std::to_string(i) + "," + std::to_string(j) + " is " + fmt(dl) + ", expected " + fmt((double)val.v) + " for " + str(phi[i]) + " and " + str(phi[j])); return; }
    if (!(fabsl(dr - rv.v) <= tr)) { viol("weak:vector", "right hand side entry " + std::to_string(j) + " is " + fmt(dr) + ", expected " + fmt((double)rv.v) + " for " + str(phi[j])); return; }
  }
  if (did) { nontrivial(str(ca) + str(cf) + str(phi[0]) + std::to_string(dim)); state("weak form " + std::to_string(dim) + (mass ? " mass" : "") + (adv ? " div" : "")); }
}
static void one(long i, Rng & r) { switch (i % 10) { case 0: laws(r); break; case 1: case 2: newton(r); break; case 3: case 4: weak(r); break; default: pipeline(r); } }
int main(int c, char ** v) { return drive(c, v, "P27", one); }
