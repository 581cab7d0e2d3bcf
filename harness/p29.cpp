// P29: the answer of an operation depends on the denoted formulas only: every answer given by an object with a history (assigned, mutated,
// copied, queried before, stored where other objects lived) has to be the answer of a freshly built twin and the one of the independent reference.
#include "answers.hpp"
// the independent references
static void refer(M const & m, int o, int k, Ans const & a, Pool & w, std::string const & who) {
  if (o == EVAL && evaluable(m) && max_var(m) <= w.pts[0].size()) {
    E ref = ev(m, plain_env(w.pts[k % w.pts.size()]));
    if (reliable(ref)) { cnt("values checked"); if (!a.num || !agree(a.d, ref)) viol("value with a history", who + " " + str(m) + " evaluates to " + a.s + " at " + fmt(w.pts[k % w.pts.size()]) + " instead of " + fmt((double)ref.v)); }
  }
  if (o == QUAD && evaluable(m) && !any(m, [&](M const & n) { return n->k == VAR && n->id != (unsigned long)(k % 3); })) {
    double lo, hi; span(k, lo, hi); E ref = ev(m, plain_env(std::vector<double>(3, (lo + hi) / 2))) * E((LD)hi - (LD)lo); cnt("integrals asked");
    if (reliable(ref)) { cnt("values checked"); if (!a.num || !agree(a.d, ref, 64)) viol("quadrature with a history", who + " " + str(m) + " integrated from " + fmt(lo) + " to " + fmt(hi) + " gives " + a.s + " instead of " + fmt((double)ref.v)); }
  }
  if ((o == SIMPLE || o == STEP) && a.t) for (size_t i = 0; i < w.pts.size(); ++i) {
    Env<E> env = opaque_env(w.pts[i], 4711 + i); E x = ev(m, env); if (!reliable(x)) continue; E y = ev(a.t, env); if (!y.ok) continue;
    cnt("values checked"); if (!agree2(x, y)) viol(std::string(ONAME[o]) + " with a history", who + " " + str(m) + " becomes " + a.s);
  }
  if (o == DIFFV && a.t && Machine::clean(m) && evaluable(m) && max_var(m) <= w.pts[0].size()) for (size_t i = 0; i < w.pts.size(); ++i) {
    Env<D> env; for (size_t j = 0; j < w.pts[i].size(); ++j) env.x.push_back(D(E((LD)w.pts[i][j]), E((int)j == k % 3 ? 1.0L : 0.0L)));
    D ref = ev(m, env); if (!(ref.v.ok && ref.d.ok && ref.d.e <= 1e-5L * (1 + fabsl(ref.d.v)) && ref.v.e <= 1e-4L * (1 + fabsl(ref.v.v)))) continue;
    E got = ev(a.t, plain_env(w.pts[i])); if (!got.ok || got.e > 1e-4L * (1 + fabsl(got.v))) continue;
    cnt("values checked"); if (!agree2(ref.d, got, 64)) viol("derivative with a history", "the derivative of " + who + " " + str(m) + " by x" + std::to_string(k % 3) + " is " + a.s);
  }
  if (o == SUBST && k % 2 == 0 && a.t && !has_nan(m)) { M want = subst1(m, w.from[k % w.from.size()], w.to[k % w.from.size()]); cnt("trees checked"); if (!equal(a.t, want)) viol("substitution with a history", who + " " + str(m) + " becomes " + a.s + " instead of " + str(want)); }
  if (o == SUBSTN && a.t && !has_nan(m)) { std::vector<M> f, t; for (size_t j = 0; j < w.from.size(); ++j) if (k >> j & 1) { f.push_back(w.from[j]); t.push_back(w.to[j]); } M want = subst(m, f, t); cnt("trees checked"); if (!equal(a.t, want)) viol("list substitution with a history", who + " " + str(m) + " becomes " + a.s + " instead of " + str(want)); }
  if (o == MANIP && a.t) { M want = swap01(m); cnt("trees checked"); if (!equal(a.t, want)) viol("manipulation with a history", who + " " + str(m) + " becomes " + a.s + " instead of " + str(want)); }
  if (o == CLONE && a.t) { cnt("trees checked"); if (!equal(a.t, m)) viol("copy with a history", "the copy of " + who + " " + str(m) + " is " + a.s); }
}
// a live object: node, what it denotes, its name
struct Live { Iface const * p; Expr const * e; M m; std::string who; };
static void live(Machine & m, std::vector<Live> & out) {
  auto add = [&](Iface const * p, M const & q, const char * n, size_t i) { if (p && q) { Live l = { p, NULL, q, std::string(n) + std::to_string(i) }; out.push_back(l); } };
  auto adde = [&](Expr const & e, M const & q, const char * n, size_t i) { if (e.get() && q) { Live l = { e.get(), &e, q, std::string(n) + std::to_string(i) }; out.push_back(l); } };
  for (size_t i = 0; i < m.e.size(); ++i) adde(m.e[i], m.me[i], "e", i);
  for (size_t i = 0; i < m.b.size(); ++i) add(&m.b[i], m.mb_[i], "b", i);
  for (size_t i = 0; i < m.u.size(); ++i) add(&m.u[i], m.mu_[i], "u", i);
  for (size_t i = 0; i < m.v.size(); ++i) { add(&m.v[i], m.mv_[i], "v", i); for (size_t j = 0; j < m.v[i].size() && j < m.mv_[i]->kids.size(); ++j) adde(m.v[i][j], m.mv_[i]->kids[j], "entry of v", i); }
  for (size_t i = 0; i < m.iv.size(); ++i) { adde(m.iv[i].lower(), m.mlo[i], "lower bound ", i); adde(m.iv[i].upper(), m.mhi[i], "upper bound ", i); }
  for (size_t i = 0; i < m.q.size(); ++i) if (m.ml[i]) { adde(m.q[i].lhs(), m.ml[i], "left side ", i); adde(m.q[i].rhs(), m.mr[i], "right side ", i); }
  for (size_t i = 0; i < m.x.size(); ++i) add(&m.x[i], m.mx[i], "x", i);
  for (size_t i = 0; i < m.c.size(); ++i) add(&m.c[i], m.mcn[i], "c", i);
  for (size_t i = 0; i < m.f.size(); ++i) add(&m.f[i], m.mfs[i], "f", i);
  for (size_t i = 0; i < m.box.size(); ++i) adde(m.box[i], m.mbox[i], "box", i);
}
static void question(Machine & mc_, Pool & w, Live const & l, Rng & r) {
  int o, k = r.below(12);
  do o = r.below(NOPS); while (!allowed(l.m, o));
  Quiet q; // rejected operations
  phase(std::string(ONAME[o]) + " of " + l.who);
  desc(mc_.log + "; " + ONAME[o] + " of " + l.who + " = " + str(l.m));
  M now = read(l.p);
  if (!equal(now, l.m)) { viol("denotation", l.who + " denotes " + str(now) + " instead of " + str(l.m)); return; }
  // something which is nearly the same gets the question first
  int style = r.below(6);
  if (style < 2) { M near = style ? mc_.g.twin(l.m) : far_ids(l.m, r); if (allowed(near, o)) { Expr c = wrap(near); Ans a = answer(c.get(), &c, o, k, w, w.tr); refer(near, o, k, a, w, "the similar expression"); cnt("similar expressions asked before"); } }
  if (style == 2) answer(l.p, l.e, o, k + 1, w, w.tr); // the same object got another question
  if (style == 3) { int o2 = r.below(NOPS); if (allowed(l.m, o2)) answer(l.p, l.e, o2, r.below(12), w, w.tr); }
  Ans a = answer(l.p, l.e, o, k, w, w.tr);
  Ans again = r.chance(0.3) ? answer(l.p, l.e, o, k, w, w.tr) : a;
  if (again.s != a.s) viol(std::string("second answer: ") + ONAME[o], l.who + " " + str(l.m) + " answers " + again.s + " after " + a.s);
  // the twin
  Iface * t = rebuild(l.p);
  viennamath::latex_translator fresh; Pool * pw = &w;
  Ans b = answer(t, NULL, o, k, *pw, o == LATEX ? fresh : w.tr);
  cnt("answers compared with a fresh object"); cnt(std::string("  ") + ONAME[o]);
  if (a.s != b.s) viol(std::string("history: ") + ONAME[o], l.who + " " + str(l.m) + " answers " + a.s + ", a freshly built one " + b.s);
  if (!has_nan(l.m)) {
    phase("comparison of " + l.who);
    if (!l.p->deep_equal(t) || !t->deep_equal(l.p)) viol("history: comparison", l.who + " " + str(l.m) + " differs from a freshly built one");
    M near = mc_.g.twin(l.m); if (!has_nan(near)) { Expr c = wrap(near); bool same = equal(near, l.m); if (l.p->deep_equal(c.get()) != same || c.get()->deep_equal(l.p) != same) viol("history: comparison", l.who + " " + str(l.m) + (same ? " differs from " : " equals ") + str(near)); }
    cnt("comparisons", 2);
  }
  delete t;
  refer(l.m, o, k, a, w, l.who);
  if (a.s == "rejected") cnt("rejected by both");
  state(std::string(ONAME[o]) + " after " + Machine::pattern(mc_.log.substr(mc_.log.rfind(';') == std::string::npos ? 0 : mc_.log.rfind(';'))));
  phase("after"); now = read(l.p);
  if (!equal(now, l.m)) viol("question changed the object", l.who + " denotes " + str(now) + " instead of " + str(l.m));
}
static void one(long, Rng & r) {
  desc("start"); phase("start");
  Machine m(r, false);
  Pool w;
  for (int i = 0; i < 3; ++i) w.pts.push_back(m.g.point(3));
  if (r.chance(0.3)) { w.pts[1] = w.pts[0]; w.pts[1][r.below(3)] = ::nextafter(w.pts[1][r.below(3)], 10); } // neighbours
  for (int i = 0; i < 3; ++i) { M f = i == 0 ? mv(r.below(3)) : i == 1 ? (r.chance(0.5) ? mf(r.below(3), r.chance(0.5) ? TAG_TEST() : TAG_UNKNOWN()) : mc(m.g.cst())) : m.g.gen(1 + r.below(3)); if (has_nan(f)) f = mv(1); w.from.push_back(f); w.to.push_back(m.g.gen(1 + r.below(3))); w.fe.push_back(wrap(f)); w.te.push_back(wrap(w.to.back())); }
  int n = 40;
  for (int i = 0; i < n && R().violations < 10; ++i) {
    m.step();
    int qs = 1 + r.below(4);
    for (int z = 0; z < qs; ++z) { std::vector<Live> l; live(m, l); Live x = r.pick(l);
      if (r.chance(0.3)) { std::vector<Iface const *> ps; parts(x.p, ps); x.p = r.pick(ps); x.m = read(x.p); x.e = NULL; x.who = "part of " + x.who; } // a node inside
      question(m, w, x, r); }
  }
  nontrivial(m.log);
  phase("destruction");
}
int main(int c, char ** v) { return drive(c, v, "P29", one, 20); }
