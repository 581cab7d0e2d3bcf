// Truncated multivariate Taylor series with error bounds: reference for chains of derivatives and substitutions.
#ifndef VM_JETS
#define VM_JETS
#include "vm.hpp"
namespace vm {
static const int JV = 3, JO = 4, JN = 35;   // three variables, total degree up to four
struct JTab {
  int e[JN][JV], prod[JN][JN], dv[JN][JV]; int deg[JN];
  JTab() {
    int n = 0;
    for (int d = 0; d <= JO; ++d) for (int a = d; a >= 0; --a) for (int b = d - a; b >= 0; --b) { e[n][0] = a; e[n][1] = b; e[n][2] = d - a - b; deg[n] = d; ++n; }
    for (int i = 0; i < JN; ++i) for (int j = 0; j < JN; ++j) prod[i][j] = find(e[i][0] + e[j][0], e[i][1] + e[j][1], e[i][2] + e[j][2]);
    for (int i = 0; i < JN; ++i) for (int v = 0; v < JV; ++v) { int q[3] = { e[i][0], e[i][1], e[i][2] }; ++q[v]; dv[i][v] = find(q[0], q[1], q[2]); }
  }
  int find(int a, int b, int c) const { for (int i = 0; i < JN; ++i) if (e[i][0] == a && e[i][1] == b && e[i][2] == c) return i; return -1; }
};
inline JTab const & jt() { static JTab * t = new JTab; return *t; }
struct J {
  E c[JN]; int o;            // valid up to degree o
  J() : o(JO) {}
  J(LD x) : o(JO) { c[0] = E(x); }
  explicit J(E const & x) : o(JO) { c[0] = x; }
};
inline J bad_jet() { J j; for (int i = 0; i < JN; ++i) j.c[i] = E(0, 0, false); return j; }
inline bool sick(J const & a) { for (int i = 0; i < JN; ++i) if (!a.c[i].ok) return true; return false; }   // undefined anywhere: undefined everywhere
template <> struct Bad<J> { static J get() { return bad_jet(); } };
inline J operator+(J const & a, J const & b) { J r; r.o = std::min(a.o, b.o); for (int i = 0; i < JN; ++i) r.c[i] = a.c[i] + b.c[i]; return r; }
inline J operator-(J const & a, J const & b) { J r; r.o = std::min(a.o, b.o); for (int i = 0; i < JN; ++i) r.c[i] = a.c[i] - b.c[i]; return r; }
inline bool nil(E const & x) { return x.ok && x.v == 0 && x.e == 0; }
inline J operator*(J const & a, J const & b) {
  if (sick(a) || sick(b)) return bad_jet();
  J r; r.o = std::min(a.o, b.o); JTab const & t = jt();
  for (int i = 0; i < JN; ++i) { if (t.deg[i] > r.o || nil(a.c[i])) continue; for (int j = 0; j < JN; ++j) { int k = t.prod[i][j]; if (k < 0 || t.deg[k] > r.o || nil(b.c[j])) continue; r.c[k] = r.c[k] + a.c[i] * b.c[j]; } }
  return r;
}
// sum of d[k] * delta^k, delta the non-constant part of a, d[k] the Taylor coefficients of the function at the constant part
inline J compose1(J const & a, E const * d) {
  if (sick(a)) return bad_jet();
  for (int k = 0; k <= JO; ++k) if (!d[k].ok) return bad_jet();
  J del = a; del.c[0] = E(0);
  J r(d[0]); r.o = a.o; J p(1.0L);
  for (int k = 1; k <= a.o; ++k) { p = p * del; for (int i = 0; i < JN; ++i) if (!nil(p.c[i])) r.c[i] = r.c[i] + d[k] * p.c[i]; }
  return r;
}
inline J jinv(J const & a) { E i = E(1) / a.c[0]; E d[5] = { i, E(0) - i * i, i * i * i, E(0) - i * i * i * i, i * i * i * i * i }; return compose1(a, d); }
inline J operator/(J const & a, J const & b) { return a * jinv(b); }
inline J e_exp(J const & a) { E x = e_exp(a.c[0]); E d[5] = { x, x, x / E(2), x / E(6), x / E(24) }; return compose1(a, d); }
inline J e_sin(J const & a) { E s = e_sin(a.c[0]), c = e_cos(a.c[0]), z(0); E d[5] = { s, c, z - s / E(2), z - c / E(6), s / E(24) }; return compose1(a, d); }
inline J e_cos(J const & a) { E s = e_sin(a.c[0]), c = e_cos(a.c[0]), z(0); E d[5] = { c, z - s, z - c / E(2), s / E(6), c / E(24) }; return compose1(a, d); }
inline J e_tan(J const & a) {
  E t = e_tan(a.c[0]), q = E(1) + t * t;
  E d[5] = { t, q, t * q, q * (E(1) + E(3) * t * t) / E(3), q * t * (E(2) + E(3) * t * t) / E(3) };
  return compose1(a, d);
}
inline J e_log(J const & a) { E i = E(1) / a.c[0], z(0); E d[5] = { e_log(a.c[0]), i, z - i * i / E(2), i * i * i / E(3), z - i * i * i * i / E(4) }; return compose1(a, d); }
inline J e_log10(J const & a) { J l = e_log(a); E k = E(1) / E(logl(10.0L)); for (int i = 0; i < JN; ++i) l.c[i] = l.c[i] * k; l.c[0] = e_log10(a.c[0]); return l; }
inline J e_sqrt(J const & a) { E s = e_sqrt(a.c[0]), i = E(1) / a.c[0], z(0); E d[5] = { s, s * i / E(2), z - s * i * i / E(8), s * i * i * i / E(16), z - E(5) * s * i * i * i * i / E(128) }; return compose1(a, d); }
inline J e_fabs(J const & a) { E s = a.c[0].v > 0 ? E(1) : E(-1); if (fabsl(a.c[0].v) <= a.c[0].e) s.ok = false; J r = a; for (int i = 0; i < JN; ++i) r.c[i] = r.c[i] * s; return r; }
inline J jdiff(J const & a, int v) { if (sick(a)) return bad_jet(); J r; r.o = a.o - 1; JTab const & t = jt(); for (int i = 0; i < JN; ++i) if (t.dv[i][v] >= 0 && t.deg[i] <= r.o) r.c[i] = a.c[t.dv[i][v]] * E((LD)(t.e[i][v] + 1)); return r; }
// inner series around the values of g, composed with the series g
inline J jcompose(J const & f, J const * g) {
  if (sick(f)) return bad_jet();
  for (int v = 0; v < JV; ++v) if (sick(g[v])) return bad_jet();
  J r; r.o = f.o; JTab const & t = jt(); J del[JV];
  for (int v = 0; v < JV; ++v) { r.o = std::min(r.o, g[v].o); del[v] = g[v]; del[v].c[0] = E(0); }
  J pw[JV][JO + 1];
  for (int v = 0; v < JV; ++v) { pw[v][0] = J(1.0L); for (int k = 1; k <= JO; ++k) pw[v][k] = pw[v][k - 1] * del[v]; }
  J out; out.o = r.o;
  for (int i = 0; i < JN; ++i) {
    if (t.deg[i] > r.o || nil(f.c[i])) continue;
    J m = pw[0][t.e[i][0]] * pw[1][t.e[i][1]] * pw[2][t.e[i][2]];
    for (int k = 0; k < JN; ++k) if (!nil(m.c[k])) out.c[k] = out.c[k] + f.c[i] * m.c[k];
  }
  return out;
}
inline J jvar(E const & x, int v) { J j(x); int q[3] = { 0, 0, 0 }; q[v] = 1; j.c[jt().find(q[0], q[1], q[2])] = E(1); return j; }
inline J jeval(M const & m, std::vector<E> const & x) { Env<J> en; for (int v = 0; v < JV; ++v) en.x.push_back(jvar(x[v], v)); return ev(m, en); }
}
#endif
