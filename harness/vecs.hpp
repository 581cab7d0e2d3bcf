// Reference evaluation in which vectors have componentwise meaning (product of vectors: inner product).
#ifndef VECS_HPP
#define VECS_HPP
#include "vm.hpp"
namespace vm {
struct VV { bool vec; std::vector<E> c; VV() : vec(false), c(1, E(0)) {} VV(E const & e) : vec(false), c(1, e) {} static VV bad() { return VV(E(0, 0, false)); } bool ok() const { for (size_t i = 0; i < c.size(); ++i) if (!c[i].ok) return false; return true; } };
inline bool nought(VV const & a) { for (size_t i = 0; i < a.c.size(); ++i) if (!(a.c[i].ok && fabsl(a.c[i].v) <= a.c[i].e + 1e-300L)) return false; return true; }
struct VEnv {
  Env<E> base;                                                    // variables, function symbols, opaque scalar operations
  std::function<bool(M const &, VEnv const &, VV &)> special;     // interpretation of particular nodes (gradients, divergences)
  uint64_t salt;
};
inline E squash(VV const & a, uint64_t salt) { E t(0); for (size_t i = 0; i < a.c.size(); ++i) t = t + E(0.3L + h01(mix(salt, i))) * a.c[i]; return t; }   // a linear functional: 0 for the zero vector
inline VV vev(M const & m, VEnv const & en) {
  VV out;
  if (en.special && en.special(m, en, out)) return out;
  switch (m->k) {
    case CONST: case VAR: case FSYM: return VV(ev(m, en.base));
    case VEC: { VV r; r.vec = true; r.c.clear(); for (size_t i = 0; i < m->kids.size(); ++i) { VV k = vev(m->kids[i], en); if (k.vec) return VV::bad(); r.c.push_back(k.c[0]); } return r; }
    case BIN: {
      VV a = vev(m->kids[0], en), b = vev(m->kids[1], en);
      if (!a.ok() || !b.ok()) return VV::bad();
      if (!a.vec && !b.vec) switch (m->op) { case ADD: return VV(a.c[0] + b.c[0]); case SUB: return VV(a.c[0] - b.c[0]); case MUL: return VV(a.c[0] * b.c[0]); default: return VV(a.c[0] / b.c[0]); }
      if (m->op == ADD || m->op == SUB) {
        if (!a.vec) { if (!nought(a)) return VV::bad(); a = b; if (m->op == SUB) for (size_t i = 0; i < a.c.size(); ++i) a.c[i] = E(0) - b.c[i]; return a; }
        if (!b.vec) { if (!nought(b)) return VV::bad(); return a; }
        if (a.c.size() != b.c.size()) return VV::bad();
        for (size_t i = 0; i < a.c.size(); ++i) a.c[i] = m->op == ADD ? a.c[i] + b.c[i] : a.c[i] - b.c[i];
        return a;
      }
      if (m->op == MUL) {
        if (a.vec && b.vec) { if (a.c.size() != b.c.size()) return VV::bad(); E t(0); for (size_t i = 0; i < a.c.size(); ++i) t = t + a.c[i] * b.c[i]; return VV(t); }
        if (!a.vec) std::swap(a, b);
        for (size_t i = 0; i < a.c.size(); ++i) a.c[i] = a.c[i] * b.c[0];
        return a;
      }
      if (b.vec) return VV::bad();
      for (size_t i = 0; i < a.c.size(); ++i) a.c[i] = a.c[i] / b.c[0];
      return a;
    }
    case UN: {
      VV a = vev(m->kids[0], en);
      if (!a.ok()) return VV::bad();
      if (m->op == U_ID) return a;
      if (m->op <= U_LOG10) {
        if (a.vec) return VV::bad();
        E x = a.c[0];
        switch (m->op) { case U_EXP: return VV(e_exp(x)); case U_SIN: return VV(e_sin(x)); case U_COS: return VV(e_cos(x)); case U_TAN: return VV(e_tan(x)); case U_FABS: return VV(e_fabs(x)); case U_SQRT: return VV(e_sqrt(x)); case U_LOG: return VV(e_log(x)); default: return VV(e_log10(x)); }
      }
      return VV(en.base.opaque(m, a.vec ? squash(a, en.salt) : a.c[0], en.base));
    }
  }
  return VV::bad();
}
inline bool vreliable(VV const & a) { for (size_t i = 0; i < a.c.size(); ++i) if (!reliable(a.c[i])) return false; return true; }
inline bool vagree(VV a, VV b) {
  if (a.vec != b.vec) return nought(a) && nought(b);     // 0 * vector is simplified to the number 0
  if (a.c.size() != b.c.size()) return false;
  for (size_t i = 0; i < a.c.size(); ++i) if (!agree2(a.c[i], b.c[i], 64)) return false;
  return true;
}
inline std::string vstr(VV const & a) { std::string s = a.vec ? "[" : ""; for (size_t i = 0; i < a.c.size(); ++i) { if (i) s += ", "; s += fmt((double)a.c[i].v); } return s + (a.vec ? "]" : ""); }
}
#endif
