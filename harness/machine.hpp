// A random machine over a pool of named objects of every public runtime type, with a model of what each denotes.
// Used with the shadow comparison after every step (values and independence) and without (long histories under sanitizers).
#ifndef MACHINE_HPP
#define MACHINE_HPP
#include "vm.hpp"
namespace vm {

// the parts of an expression object, found through the public accessors (not part of vectors' entries unless asked)
inline void parts(Iface const * e, std::vector<Iface const *> & out) {
  out.push_back(e);
  if (BExpr const * b = dynamic_cast<BExpr const *>(e)) { parts(b->lhs(), out); parts(b->rhs(), out); }
  else if (UExpr const * u = dynamic_cast<UExpr const *>(e)) parts(u->lhs(), out);
  else if (VExpr const * v = dynamic_cast<VExpr const *>(e)) for (size_t i = 0; i < v->size(); ++i) parts((*v)[i].get(), out);
}
struct Count : viennamath::rt_traversal_interface<Iface> {
  long * n; explicit Count(long * p) : n(p) {}
  void operator()(Iface const * e) const { if (e->shallow_str().size()) ++*n; }
  bool step_into(Iface const *) const { return true; }
};
struct Swap01 : viennamath::rt_manipulation_interface<Iface> { // swaps the first two variables
  Iface * operator()(Iface const * e) const { Var const * v = dynamic_cast<Var const *>(e); if (v && v->id() < 2) return new Var(1 - v->id()); return e->clone(); }
  bool modifies(Iface const * e) const { return dynamic_cast<Var const *>(e) != NULL; }
};

struct Machine {
  enum { NE = 6, NB = 3, NU = 3, NV = 2, NI = 2, NQ = 2, NX = 2, NC = 2, NF = 2 };
  Rng & r; bool shadow;
  std::vector<Expr> e; std::vector<BExpr> b; std::vector<UExpr> u; std::vector<VExpr> v; std::vector<Ival> iv; std::vector<Eqn> q;
  std::vector<Var> x; std::vector<Const> c; std::vector<FSym> f; std::vector<Expr> box;
  std::vector<M> me, mb_, mu_, mv_, mlo, mhi, ml, mr, mx, mcn, mfs, mbox;   // models; null = empty object
  std::string log; int steps; bool rejected_ok;
  long changed;
  viennamath::latex_translator tr; viennamath::numerical_quadrature quad;
  Gen g;

  explicit Machine(Rng & rr, bool sh) : r(rr), shadow(sh), steps(0), rejected_ok(true), changed(0), quad(new viennamath::gauss_quad_1()), g(rr) {
    g.nvars = 3; g.budget = 6; g.symbols = true; g.opaque = r.chance(0.5); g.special_consts = true;
    for (int i = 0; i < NE; ++i) { M m = fresh(); me.push_back(m); e.push_back(wrap(m)); }
    for (int i = 0; i < NB; ++i) { M m = fresh_bin(); mb_.push_back(m); Iface * p = raw(m); b.push_back(*static_cast<BExpr *>(p)); delete p; }
    for (int i = 0; i < NU; ++i) { M m = fresh_un(); mu_.push_back(m); Iface * p = raw(m); u.push_back(*static_cast<UExpr *>(p)); delete p; }
    for (int i = 0; i < NV; ++i) { M m = fresh_vec(); mv_.push_back(m); Iface * p = raw(m); v.push_back(*static_cast<VExpr *>(p)); delete p; }
    for (int i = 0; i < NI; ++i) { M lo = fresh(), hi = fresh(); mlo.push_back(lo); mhi.push_back(hi); iv.push_back(Ival(wrap(lo), wrap(hi))); }
    for (int i = 0; i < NQ; ++i) { M lo = fresh(), hi = fresh(); ml.push_back(lo); mr.push_back(hi); q.push_back(Eqn(wrap(lo), wrap(hi))); }
    for (int i = 0; i < NX; ++i) { mx.push_back(mv(i)); x.push_back(Var(i)); }
    for (int i = 0; i < NC; ++i) { double d = g.cst(); mcn.push_back(mc(d)); c.push_back(Const(d)); }
    for (int i = 0; i < NF; ++i) { mfs.push_back(mf(i, i ? TAG_TEST() : TAG_UNKNOWN())); f.push_back(i ? FSym(i, viennamath::test_tag<>()) : FSym(i, viennamath::unknown_tag<>())); }
  }
  M fresh() { M m = g.gen(1 + r.below(6)); return r.chance(0.04) ? far_ids(m, r) : r.chance(0.04) ? odd_consts(m, r) : m; }
  M fresh_bin() { return mb(r.below(4), fresh(), fresh()); }
  M fresh_un() { int o = r.below(9); return mu(o, fresh()); }
  M fresh_vec() { std::vector<M> k; int n = r.below(4); for (int i = 0; i < n; ++i) k.push_back(fresh()); return mvec(k); }
  // operation with its aliasing pattern: indices replaced by letters in order of appearance
  static std::string pattern(std::string const & s) { std::string o; std::map<char, char> nm; size_t lim = s.find("number"); for (size_t i = 0; i < s.size() && i < lim; ++i) { char c = s[i]; if (c >= '0' && c <= '9') { if (!nm.count(c)) { char l = 'A' + (char)nm.size(); nm[c] = l; } o += nm[c]; } else o += c; } return o; }
  void act(std::string const & s) { log += "; " + s; if (log.size() > 2500) log = "..." + log.substr(log.size() - 2000); desc(log); state(pattern(s)); cnt("operations"); phase(s); }
  std::string n(const char * a, int i) const { return std::string(a) + std::to_string(i); }

  // --- the shadow comparison
  void same(const char * a, int i, M const & want, Expr const & ex, std::string const & after, bool target) {
    if (!want) { if (ex.get() != NULL) viol("not empty", n(a, i) + " should be empty after " + after); return; }
    M got;
    try { got = read(ex); } catch (ReadError const & w) { viol(std::string("broken object after ") + pattern(after), n(a, i) + ": " + w.what + " after " + after); return; }
    cnt("objects compared");
    if (!equal(got, want)) viol(std::string(target ? "wrong value: " : "side effect: ") + pattern(after), n(a, i) + " denotes " + str(got) + " instead of " + str(want) + " after " + after);
  }
  void samep(const char * a, int i, M const & want, Iface const * p, std::string const & after) {
    M got;
    try { got = read(p); } catch (ReadError const & w) { viol(std::string("broken object after ") + pattern(after), n(a, i) + ": " + w.what + " after " + after); return; }
    cnt("objects compared");
    if (!equal(got, want)) viol(std::string("wrong value or side effect: ") + pattern(after), n(a, i) + " denotes " + str(got) + " instead of " + str(want) + " after " + after);
  }
  void check(std::string const & after) {
    for (int i = 0; i < NE; ++i) same("e", i, me[i], e[i], after, false);
    for (int i = 0; i < NB; ++i) samep("b", i, mb_[i], &b[i], after);
    for (int i = 0; i < NU; ++i) samep("u", i, mu_[i], &u[i], after);
    for (int i = 0; i < NV; ++i) { M want = mv_[i]; if (v[i].size() != want->kids.size()) { viol("vector size", n("v", i) + " has " + std::to_string(v[i].size()) + " entries instead of " + std::to_string(want->kids.size()) + " after " + after); continue; } for (size_t k = 0; k < want->kids.size(); ++k) same("v", i, want->kids[k], v[i][k], after, false); }
    for (int i = 0; i < NI; ++i) { same("interval lower ", i, mlo[i], iv[i].lower(), after, false); same("interval upper ", i, mhi[i], iv[i].upper(), after, false); }
    for (int i = 0; i < NQ; ++i) { same("equation lhs ", i, ml[i], q[i].lhs(), after, false); same("equation rhs ", i, mr[i], q[i].rhs(), after, false); }
    for (int i = 0; i < NX; ++i) samep("x", i, mx[i], &x[i], after);
    for (int i = 0; i < NC; ++i) samep("c", i, mcn[i], &c[i], after);
    for (int i = 0; i < NF; ++i) samep("f", i, mfs[i], &f[i], after);
    if (box.size() != mbox.size()) viol("container size", "after " + after);
    else for (size_t i = 0; i < box.size(); ++i) same("box", i, mbox[i], box[i], after, false);
  }
  // --- helpers
  int E_() { return r.below(NE); } int B_() { return r.below(NB); } int U_() { return r.below(NU); } int V_() { return r.below(NV); }
  static bool clean(M const & m) { return !any(m, [](M const & k) { return (k->k == UN && (k->op == U_FABS || k->op >= U_GRAD)) || k->k == VEC || k->k == FSYM; }); }
  static bool plainfun(M const & m) { return !any(m, [](M const & k) { return k->k == VEC; }); }
  int nonempty() { for (int t = 0; t < 20; ++t) { int i = E_(); if (me[i]) return i; } me[0] = mc(1); e[0] = wrap(me[0]); return 0; }
  void limit() { // keep the objects small
    for (int i = 0; i < NE; ++i) if (me[i] && (me[i]->size > 45 || me[i]->depth > 22)) { me[i] = fresh(); e[i] = wrap(me[i]); }
    for (int i = 0; i < NB; ++i) if (mb_[i]->size > 45) { mb_[i] = fresh_bin(); Iface * p = raw(mb_[i]); b[i] = *static_cast<BExpr *>(p); delete p; }
    for (int i = 0; i < NU; ++i) if (mu_[i]->size > 45) { mu_[i] = fresh_un(); Iface * p = raw(mu_[i]); u[i] = *static_cast<UExpr *>(p); delete p; }
    for (int i = 0; i < NV; ++i) if (mv_[i]->size > 60) { mv_[i] = fresh_vec(); Iface * p = raw(mv_[i]); v[i] = *static_cast<VExpr *>(p); delete p; }
    for (int i = 0; i < NI; ++i) if (mlo[i]->size + mhi[i]->size > 60) { mlo[i] = mc(0); mhi[i] = mc(1); iv[i] = Ival(wrap(mlo[i]), wrap(mhi[i])); }
    for (int i = 0; i < NQ; ++i) if ((ml[i] ? ml[i]->size : 0) + (mr[i] ? mr[i]->size : 0) > 80) { ml[i] = mc(0); mr[i] = mc(1); q[i] = Eqn(wrap(ml[i]), wrap(mr[i])); }
    if (box.size() > 8) { box.clear(); mbox.clear(); }
  }
  // assign a node found inside some object to target (target may own the node)
  void assign_part_to_expr(Expr & t, M & m, Iface const * p) {
    m = read(p);
    if (BExpr const * a = dynamic_cast<BExpr const *>(p)) t = *a;
    else if (UExpr const * a = dynamic_cast<UExpr const *>(p)) t = *a;
    else if (VExpr const * a = dynamic_cast<VExpr const *>(p)) t = *a;
    else if (Var const * a = dynamic_cast<Var const *>(p)) t = *a;
    else if (FSym const * a = dynamic_cast<FSym const *>(p)) t = *a;
    else if (Const const * a = dynamic_cast<Const const *>(p)) t = *a;
  }
  // --- one step
  void step() {
    ++steps; limit();
    int i = E_(), j = nonempty(), k = nonempty(), t = B_(), s = U_(), w = V_();
    std::string after;
#define ACT(S) { after = (S); act(after); }
    int op = r.below(58);
    // products of vectors of different length are a violated precondition (documented assertion): vectors are stored, copied, compared, but not combined
    if (op >= 41 && op <= 56 && op != 43 && op != 53 && op != 54 && op != 55 && (!plainfun(me[j]) || !plainfun(me[k]) || (me[i] && !plainfun(me[i])))) op = 53;
    if (op == 57 && !plainfun(me[j])) op = 54;
    switch (op) {
      // copies and assignments
      case 0: ACT(n("e", i) + "=" + n("e", j)); e[i] = e[j]; me[i] = me[j]; break;
      case 1: ACT(n("e", i) + "=" + n("b", t)); e[i] = b[t]; me[i] = mb_[t]; break;
      case 2: ACT(n("e", i) + "=" + n("u", s)); { Expr tmp(u[s]); e[i] = tmp; me[i] = mu_[s]; } break;
      case 3: ACT(n("e", i) + "=" + n("v", w)); e[i] = v[w]; me[i] = mv_[w]; if (r.chance(0.7)) { e[i] = wrap(mc(2)); me[i] = mc(2); } break;
      case 4: { int a = r.below(NX); ACT(n("e", i) + "=" + n("x", a)); e[i] = x[a]; me[i] = mx[a]; } break;
      case 5: { int a = r.below(NC); ACT(n("e", i) + "=" + n("c", a)); switch (r.below(5)) { case 0: { long k = r.range(-9, 9); e[i] = viennamath::rt_constant<long>(k); me[i] = mc(k); break; } case 1: { int k = r.range(-9, 9); e[i] = viennamath::rt_constant<float>(k * 0.5f); me[i] = mc(k * 0.5); break; } default: e[i] = c[a]; me[i] = mcn[a]; } } break;
      case 6: { int a = r.below(NF); ACT(n("e", i) + "=" + n("f", a)); e[i] = f[a]; me[i] = mfs[a]; } break;
      case 7: { double d = g.cst(); ACT(n("e", i) + "=number " + fmt(d)); e[i] = d; me[i] = mc(d); } break;
      case 8: { ACT(n("e", i) + "=ct"); switch (r.below(4)) { case 0: e[i] = viennamath::ct_constant<5>(); me[i] = mc(5); break; case 1: e[i] = viennamath::ct_variable<2>(); me[i] = mv(2); break; case 2: e[i] = viennamath::ct_variable<0>() + viennamath::ct_constant<3>(); me[i] = mb(ADD, mv(0), mc(3)); break; default: e[i] = viennamath::ct_variable<1>() * viennamath::ct_variable<0>() - viennamath::ct_variable<2>(); me[i] = mb(SUB, mb(MUL, mv(1), mv(0)), mv(2)); } } break;
      case 9: { ACT(n("e", i) + "=own clone pointer of " + n("e", j)); Iface * p = e[j].get()->clone(); M m = me[j]; e[i] = p; me[i] = m; } break;
      case 10: ACT(n("b", t) + "=" + n("b", (t + 1) % NB)); b[t] = b[(t + 1) % NB]; mb_[t] = mb_[(t + 1) % NB]; break;
      case 11: ACT(n("b", t) + "=itself"); { BExpr & alias = b[t]; b[t] = alias; } break;
      case 12: { double d = g.cst(); ACT(n("b", t) + "=number"); b[t] = d; mb_[t] = mb(MUL, mc(d), mc(1)); } break;
      case 13: { int a = r.below(NC); ACT(n("b", t) + "=" + n("c", a)); if (r.chance(0.3)) { long k = r.range(-9, 9); b[t] = viennamath::rt_constant<long>(k); mb_[t] = mb(MUL, mc(k), mc(1)); } else { b[t] = c[a]; mb_[t] = mb(MUL, mcn[a], mc(1)); } } break;
      case 14: { ACT(n("b", t) + "=ct"); switch (r.below(3)) { case 0: b[t] = viennamath::ct_variable<0>() / viennamath::ct_constant<3>(); mb_[t] = mb(DIV, mv(0), mc(3)); break; case 1: b[t] = (viennamath::ct_variable<1>() + viennamath::ct_variable<0>()) * viennamath::ct_variable<2>(); mb_[t] = mb(MUL, mb(ADD, mv(1), mv(0)), mv(2)); break; default: b[t] = viennamath::ct_constant<7>() - viennamath::ct_variable<2>(); mb_[t] = mb(SUB, mc(7), mv(2)); } } break;
      case 15: ACT(n("u", s) + "=" + n("u", (s + 1) % NU)); u[s] = u[(s + 1) % NU]; mu_[s] = mu_[(s + 1) % NU]; break;
      case 16: ACT(n("u", s) + "=itself"); { UExpr & alias = u[s]; u[s] = alias; } break;
      case 17: { double d = g.cst(); ACT(n("u", s) + "=number"); u[s] = d; mu_[s] = mu(U_ID, mc(d)); } break;
      case 18: { int a = r.below(NC); ACT(n("u", s) + "=" + n("c", a)); if (r.chance(0.3)) { long k = r.range(-9, 9); u[s] = viennamath::rt_constant<long>(k); mu_[s] = mu(U_ID, mc(k)); } else { u[s] = c[a]; mu_[s] = mu(U_ID, mcn[a]); } } break;
      case 19: ACT(n("v", w) + "=" + n("v", 1 - w)); v[w] = v[1 - w]; mv_[w] = mv_[1 - w]; break;
      case 20: ACT(n("v", w) + "=itself"); { VExpr & alias = v[w]; v[w] = alias; } break;
      case 21: if (mv_[w]->kids.size()) { size_t a = r.below(mv_[w]->kids.size()); ACT(n("v", w) + "[" + std::to_string(a) + "]=" + n("e", j)); v[w][a] = e[j]; std::vector<M> kk(mv_[w]->kids); kk[a] = me[j]; mv_[w] = mvec(kk); } break;
      case 22: if (mv_[w]->kids.size()) { size_t a = r.below(mv_[w]->kids.size()); ACT(n("e", i) + "=" + n("v", w) + "[]"); e[i] = v[w][a]; me[i] = mv_[w]->kids[a]; } break;
      case 23: { int a = r.below(5); ACT(n("v", w) + ".resize"); size_t old = mv_[w]->kids.size(); if ((size_t)a > old) v[w].resize(a, Expr(1.5)); else v[w].resize(a); std::vector<M> kk(mv_[w]->kids); kk.resize(a, mc(1.5)); mv_[w] = mvec(kk); } break;
      case 24: { int a = r.below(NI); ACT(n("i", a) + "=" + n("i", 1 - a)); iv[a] = iv[1 - a]; mlo[a] = mlo[1 - a]; mhi[a] = mhi[1 - a]; } break;
      case 25: { int a = r.below(NI); ACT(n("i", a) + "=[" + n("e", j) + "," + n("e", k) + "]"); iv[a] = Ival(e[j], e[k]); mlo[a] = me[j]; mhi[a] = me[k]; } break;
      case 26: { int a = r.below(NI); ACT(n("i", a) + "=swapped self"); iv[a] = Ival(iv[a].upper(), iv[a].lower()); std::swap(mlo[a], mhi[a]); } break;
      case 27: { int a = r.below(NI); ACT(n("e", i) + "=bound of " + n("i", a)); if (r.chance(0.5)) { e[i] = iv[a].lower(); me[i] = mlo[a]; } else { e[i] = iv[a].upper(); me[i] = mhi[a]; } } break;
      case 28: { int a = r.below(NQ); ACT(n("q", a) + "=" + n("q", 1 - a)); q[a] = q[1 - a]; ml[a] = ml[1 - a]; mr[a] = mr[1 - a]; } break;
      case 29: { int a = r.below(NQ); ACT(n("q", a) + "=make_equation(" + n("e", j) + "," + n("e", k) + ")"); q[a] = viennamath::make_equation(e[j], e[k]); ml[a] = me[j]; mr[a] = me[k]; } break;
      case 30: { int a = r.below(NQ); if (ml[a]) { ACT(n("e", i) + "=side of " + n("q", a)); if (r.chance(0.5)) { e[i] = q[a].lhs(); me[i] = ml[a]; } else { e[i] = q[a].rhs(); me[i] = mr[a]; } } } break;
      case 31: { int a = r.below(NQ); ACT(n("q", a) + "=itself"); Eqn & alias = q[a]; q[a] = alias; } break;
      case 32: { // a part of the object itself (or of another object) is assigned
        std::vector<Iface const *> ps; int from = r.chance(0.6) && me[i] ? i : j; parts(e[from].get(), ps);
        ACT(n("e", i) + "=part of " + n("e", from)); M m; assign_part_to_expr(e[i], m, ps[r.below(ps.size())]); me[i] = m; } break;
      case 33: { std::vector<Iface const *> ps; int from = r.chance(0.7) ? t : B_(); parts(&b[from], ps);
        for (int z = 0; z < 8; ++z) if (BExpr const * a = dynamic_cast<BExpr const *>(ps[r.below(ps.size())])) { ACT(n("b", t) + "=part of " + n("b", from)); M m = read(a); b[t] = *a; mb_[t] = m; break; } } break;
      case 34: { std::vector<Iface const *> ps; int from = r.chance(0.7) ? s : U_(); parts(&u[from], ps);
        for (int z = 0; z < 8; ++z) if (UExpr const * a = dynamic_cast<UExpr const *>(ps[r.below(ps.size())])) { ACT(n("u", s) + "=part of " + n("u", from)); M m = read(a); u[s] = *a; mu_[s] = m; break; } } break;
      case 35: { std::vector<Iface const *> ps; for (size_t z = 0; z < v[w].size(); ++z) parts(v[w][z].get(), ps); for (size_t z = 0; z < ps.size(); ++z) if (VExpr const * a = dynamic_cast<VExpr const *>(ps[z])) { ACT(n("v", w) + "=part of itself"); M m = read(a); v[w] = *a; mv_[w] = m; break; } } break;
      case 36: { ACT(n("e", i) + " emptied"); e[i] = Expr(); me[i] = M(); if (r.chance(0.8)) { e[i] = e[j == i ? (i + 1) % NE : j]; me[i] = me[j == i ? (i + 1) % NE : j]; } } break;
      case 37: { ACT("box.push_back(" + n("e", j) + ")"); box.push_back(e[j]); mbox.push_back(me[j]); } break;
      case 38: if (box.size()) { size_t a = r.below(box.size()); ACT("box.erase/insert"); if (r.chance(0.5)) { box.erase(box.begin() + a); mbox.erase(mbox.begin() + a); } else { Expr tmp(box[a]); M mt = mbox[a]; box.insert(box.begin(), tmp); mbox.insert(mbox.begin(), mt); } } break;
      case 39: if (box.size()) { size_t a = r.below(box.size()); ACT(n("e", i) + "=box"); e[i] = box[a]; me[i] = mbox[a]; } break;
      case 40: { ACT("copy constructions"); Expr a(e[j]); BExpr bb(b[t]); UExpr uu(u[s]); Expr a2(b[t]), a3(u[s]), a4(v[w]); Ival ii(iv[0]); Eqn qq(q[0]); Expr cc(c[0]), xx(x[1]), ff(f[0]);
        samep("copy of e", j, me[j], a.get(), after); samep("copy of b", t, mb_[t], &bb, after); samep("copy of u", s, mu_[s], &uu, after); samep("wrapped b", t, mb_[t], a2.get(), after); samep("wrapped u", s, mu_[s], a3.get(), after); samep("wrapped v", w, mv_[w], a4.get(), after); samep("copied lower", 0, mlo[0], ii.lower().get(), after); samep("copied upper", 0, mhi[0], ii.upper().get(), after);
        samep("wrapped c", 0, mcn[0], cc.get(), after); samep("wrapped x", 1, mx[1], xx.get(), after); samep("wrapped f", 0, mfs[0], ff.get(), after); a = a2; bb = b[0]; uu = u[0]; ii = iv[1]; qq = q[1]; } break;
      // building
      case 41: case 42: { int o = r.below(4); ACT(n("e", i) + "=" + n("e", j) + BNAME[o] + n("e", k)); M m = mb(o, me[j], me[k]); switch (o) { case 0: e[i] = e[j] + e[k]; break; case 1: e[i] = e[j] - e[k]; break; case 2: e[i] = e[j] * e[k]; break; default: e[i] = e[j] / e[k]; } me[i] = m; } break;
      case 43: { int o = r.below(4); ACT(n("b", t) + "=" + n("b", t) + BNAME[o] + n("u", s)); M m = mb(o, mb_[t], mu_[s]); switch (o) { case 0: b[t] = b[t] + u[s]; break; case 1: b[t] = b[t] - u[s]; break; case 2: b[t] = b[t] * u[s]; break; default: b[t] = b[t] / u[s]; } mb_[t] = m; } break;
      case 44: { ACT(n("e", i) + "=fn(" + n("e", j) + ")"); M m; switch (r.below(8)) { case 0: m = mu(U_EXP, me[j]); e[i] = viennamath::exp(e[j]); break; case 1: m = mu(U_SIN, me[j]); e[i] = viennamath::sin(e[j]); break; case 2: m = mu(U_COS, me[j]); e[i] = viennamath::cos(e[j]); break; case 3: m = mu(U_TAN, me[j]); e[i] = viennamath::tan(e[j]); break; case 4: m = mu(U_FABS, me[j]); e[i] = viennamath::fabs(e[j]); break; case 5: m = mu(U_SQRT, me[j]); e[i] = viennamath::sqrt(e[j]); break; case 6: m = mu(U_LOG, me[j]); e[i] = viennamath::log(e[j]); break; default: m = mu(U_LOG10, me[j]); e[i] = viennamath::log10(e[j]); } me[i] = m; } break;
      case 45: { int a = r.below(NI); ACT(n("e", i) + "=integral(" + n("i", a) + "," + n("e", j) + ",x0)"); M m = mint(me[j], mlo[a], mhi[a], 0); e[i] = viennamath::integral(iv[a], e[j], x[0]); me[i] = m; } break;
      case 46: { ACT(n("e", i) + "=integral(Omega_1," + n("e", j) + ")"); SIval si(1); M m = mu(U_SYM, me[j], 1); e[i] = viennamath::integral(si, e[j]); me[i] = m; } break;
      // computing; the result is read back (other properties check it), everything else has to stay as it was
      case 47: { ACT(n("e", i) + "=simplify(" + n("e", j) + ")"); Expr z = viennamath::simplify(e[j]); M m = read(z); e[i] = z; me[i] = m; } break;
      case 48: { ACT("inplace_simplify(" + n("e", j) + ")"); viennamath::inplace_simplify(e[j]); me[j] = read(e[j]); } break;
      case 49: { int a = r.below(NX); ACT(n("e", i) + "=diff(" + n("e", j) + "," + n("x", a) + ")"); if (clean(me[j]) && me[j]->size < 16) { e[i] = viennamath::diff(e[j], x[a]); me[i] = read(e[i]); } else { Quiet qq; try { Expr z = viennamath::diff(e[j], x[a]); cnt("answered"); } catch (std::exception const &) { cnt("rejected"); } catch (const char *) { cnt("rejected"); } } } break;
      case 50: { ACT(n("e", i) + "=substitute(" + n("e", j) + "," + n("e", k) + "," + n("e", i) + ")"); if (me[i] && me[i]->size < 25) { Expr z = viennamath::substitute(e[j], e[k], e[i]); M m = read(z); e[i] = z; me[i] = m; } } break;
      case 51: { ACT("substitute x0 in " + n("e", j)); int a = r.below(NC); Expr z1 = viennamath::substitute(x[0], c[a], e[j]), z2 = viennamath::substitute(x[0], e[j], e[j]), z3 = viennamath::substitute(f[0], e[k], e[j]), z4 = viennamath::substitute(x[0], 2.5, e[j]); if (r.chance(0.5)) { me[i] = read(z4); e[i] = z4; } else { me[i] = read(z3); e[i] = z3; } } break;
      case 52: { ACT("substitute many in " + n("e", j)); std::vector<Expr> a, bb; a.push_back(x[0]); bb.push_back(x[1]); a.push_back(x[1]); bb.push_back(x[0]); a.push_back(e[k]); bb.push_back(e[j]); Expr z = viennamath::substitute(a, bb, e[j]); M m = read(z); e[i] = z; me[i] = m; } break;
      case 53: { ACT("compare"); for (int a = 0; a < NE; ++a) if (me[a]) for (int d = 0; d < NE; ++d) if (me[d]) { bool eq = e[a].get()->deep_equal(e[d].get()); e[a].get()->shallow_equal(e[d].get()); if (shadow && !has_nan(me[a]) && !has_nan(me[d]) && eq != equal(me[a], me[d])) viol("comparison", str(me[a]) + " and " + str(me[d]) + " compare " + (eq ? "equal" : "different")); } b[0].deep_equal(e[j].get()); u[0].deep_equal(&b[0]); v[0].deep_equal(&v[1]); v[1].deep_equal(e[k].get()); } break;
      case 54: { ACT("evaluate " + n("e", j)); std::vector<double> p = g.point(3); try { double d = e[j](p); cnt(d == d ? "answered" : "answered nan"); } catch (std::exception const &) { cnt("rejected"); } catch (const char *) { cnt("rejected"); }
        try { b[t](p); u[s](p); e[j](1.5); } catch (std::exception const &) { cnt("rejected"); } catch (const char *) { cnt("rejected"); }
        try { e[j].get()->unwrap(); } catch (std::exception const &) { cnt("rejected"); } catch (const char *) { cnt("rejected"); }
        try { v[w].eval(p); } catch (std::exception const &) { cnt("rejected"); } } break;
      case 55: { ACT("print " + n("e", j)); std::ostringstream o; o << e[j] << b[t] << u[s] << iv[0] << v[w]; if (ml[0]) o << q[0]; o << e[j].get()->deep_str() << b[t].shallow_str() << x[0] << c[0] << f[0];
        std::string txt = plainfun(me[j]) ? tr(e[j]) : std::string(); txt += tr(x[0]) + tr(c[0]) + tr(f[1]); if (plainfun(mb_[t])) txt += tr(b[t]); if (plainfun(mu_[s])) txt += tr(u[s]); if (plainfun(mlo[0]) && plainfun(mhi[0])) txt += tr(iv[0]);
        viennamath::latex_translator t2(tr), t3; t3 = tr; t2 = t2; tr.customize(x[0], "X"); tr.customize(f[0], "F"); cnt("text length", o.str().size() + txt.size()); } break;
      case 56: { ACT("traverse and manipulate " + n("e", j)); long cc = 0; e[j].get()->recursive_traversal(viennamath::rt_traversal_wrapper<Iface>(new Count(&cc))); Expr z(e[j].get()->recursive_manipulation(viennamath::rt_manipulation_wrapper<Iface>(new Swap01()))); M m = read(z); e[i] = z; me[i] = m; cnt("nodes visited", cc); } break;
      case 57: { ACT("integrate " + n("e", j)); viennamath::numerical_quadrature q2(quad), q3; q3 = q2; q2 = q2;
        { M acc; Gen g(r); g.nvars = 1; int parts_ = 1 + r.below(4); for (int z = 0; z < parts_; ++z) { M p = r.chance(0.3) ? mc(r.chance(0.5) ? 0.0 : -0.0) : mint(g.poly(), mc(r.range(-3, 1)), mc(r.range(0, 4)), 0); acc = acc ? (r.chance(0.5) ? mb(r.below(2), acc, p) : mb(r.below(2), p, acc)) : p; } Expr sum = wrap(acc); q3(sum); cnt("answered"); }
        if (plainfun(me[j])) { try { Ival one(Expr(0.0), Expr(1.0)); Quiet qq; q3(one, e[j], x[0]); cnt("answered"); } catch (std::exception const &) { cnt("rejected"); } catch (const char *) { cnt("rejected"); }
          if (!any(me[j], [](M const & k) { return k->k == UN && k->op == U_INT; })) { try { Quiet qq; q2(e[j]); cnt("answered"); } catch (std::exception const &) { cnt("rejected"); } }
          Ival one2(Expr(0.0), Expr(1.0)); Expr z = viennamath::substitute(SIval(1), std::make_pair(one2, x[1]), e[j]); M m = read(z); e[i] = z; me[i] = m;
          Expr z2 = viennamath::apply_coordinate_system(viennamath::cartesian<2>(), e[j]); Expr z3 = viennamath::apply_coordinate_system(viennamath::cartesian<3>(), b[t]); cnt("answered"); (void)z2; (void)z3; } } break;
    }
#undef ACT
    if (shadow && after.size()) check(after);
  }
};
} // namespace vm
#endif
