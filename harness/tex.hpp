// Reads LaTeX text back by the usual conventions.
#ifndef TEX_HPP
#define TEX_HPP
#include "vm.hpp"
namespace vm {
struct TexError { std::string what; explicit TexError(std::string const & w) : what(w) {} };
// tokens: \word, \:, numbers, names with index (x_{3}), single characters; white space separates only
inline std::vector<std::string> tex_tokens(std::string const & s) {
  std::vector<std::string> t;
  for (size_t i = 0; i < s.size();) {
    char c = s[i];
    if (isspace((unsigned char)c)) { ++i; continue; }
    size_t j = i + 1;
    if (c == '\\') { if (j < s.size() && !isalpha((unsigned char)s[j])) ++j; else while (j < s.size() && isalnum((unsigned char)s[j])) ++j; }
    else if (isdigit((unsigned char)c) || c == '.') {
      while (j < s.size() && (isdigit((unsigned char)s[j]) || s[j] == '.')) ++j;
      if (j < s.size() && s[j] == 'e') { size_t k = j + 1; if (k < s.size() && (s[k] == '+' || s[k] == '-')) ++k; if (k < s.size() && isdigit((unsigned char)s[k])) { j = k; while (j < s.size() && isdigit((unsigned char)s[j])) ++j; } }
    }
    else if (isalpha((unsigned char)c)) while (j < s.size() && isalnum((unsigned char)s[j])) ++j;
    std::string w = s.substr(i, j - i);
    // attach an index
    if (j + 1 < s.size() && s[j] == '_' && s[j + 1] == '{' && (w == "x" || w == "u" || w == "v" || w == "\\Omega")) { size_t k = s.find('}', j); if (k != std::string::npos) { w += s.substr(j, k + 1 - j); j = k + 1; } }
    t.push_back(w); i = j;
  }
  return t;
}
struct Tex {
  std::vector<std::string> t; size_t p;
  explicit Tex(std::string const & s) : t(tex_tokens(s)), p(0) {}
  std::string const & peek() const { static const std::string end = "<end>"; return p < t.size() ? t[p] : end; }
  bool is(const char * s) const { return p < t.size() && t[p] == s; }
  bool eat(const char * s) { if (is(s)) { ++p; return true; } return false; }
  void need(const char * s) { if (!eat(s)) throw TexError("expected " + std::string(s) + " before " + rest()); }
  std::string rest() const { std::string o; for (size_t i = p; i < t.size() && i < p + 12; ++i) o += t[i] + " "; return o == "" ? "the end" : o; }
  unsigned long index(std::string const & w) { size_t b = w.find('{'); if (b == std::string::npos) throw TexError("index missing in " + w); char * e; unsigned long r = strtoul(w.c_str() + b + 1, &e, 10); if (*e != '}') throw TexError("bad index in " + w); return r; }
  M sum() {
    bool neg = false;
    if (is("-") && !(p + 1 < t.size() && num(t[p + 1]))) { ++p; neg = true; }
    M a = prod();
    if (neg) a = mb(SUB, mc(0), a);
    for (;;) { if (eat("+")) { M b = prod(); a = mb(ADD, a, b); } else if (eat("-")) { M b = prod(); a = mb(SUB, a, b); } else return a; }
  }
  M prod() { M a = atom(); while (eat("\\cdot")) { M b = atom(); a = mb(MUL, a, b); } return a; }
  static bool num(std::string const & s) { return isdigit((unsigned char)s[0]) || s[0] == '.'; }
  M atom() {
    if (p >= t.size()) throw TexError("text ends where an operand is expected");
    std::string w = t[p++];
    if (w == "-" && p < t.size() && num(t[p])) { M a = atom(); return mc(-a->c); }
    if (num(w)) { char * e; double d = strtod(w.c_str(), &e); if (*e) throw TexError("bad number " + w); return mc(d); }
    if (w.compare(0, 3, "x_{") == 0) return mv(index(w));
    if (w.compare(0, 3, "u_{") == 0) return mf(index(w), TAG_UNKNOWN());
    if (w.compare(0, 3, "v_{") == 0) return mf(index(w), TAG_TEST());
    if (w == "(") { M a = sum(); need(")"); return a; }
    if (w == "\\left") {
      if (eat("(")) { M a = sum(); need("\\right"); need(")"); return a; }
      need("|"); M a = sum(); need("\\right"); need("|"); return mu(U_FABS, a);
    }
    if (w == "\\frac") {
      need("{");
      if (eat("\\partial")) { M a = atom(); need("}"); need("{"); need("\\partial"); M x = atom(); need("}"); if (x->k != VAR) throw TexError("derivative by something else than a variable"); return mu(U_PD, a, x->id); }
      M a = sum(); need("}"); need("{"); M b = sum(); need("}"); return mb(DIV, a, b);
    }
    if (w == "\\sqrt") { need("{"); M a = sum(); need("}"); return mu(U_SQRT, a); }
    if (w == "\\exp") return mu(U_EXP, atom());
    if (w == "\\sin") return mu(U_SIN, atom());
    if (w == "\\cos") return mu(U_COS, atom());
    if (w == "\\tan") return mu(U_TAN, atom());
    if (w == "\\ln") return mu(U_LOG, atom());
    if (w == "\\log") return mu(U_LOG10, atom());
    if (w == "\\nabla") { if (eat("\\cdot")) return mu(U_DIVG, atom()); return mu(U_GRAD, atom()); }
    if (w == "\\int") {
      need("_"); need("{");
      if (p < t.size() && t[p].compare(0, 6, "\\Omega") == 0) {
        unsigned long id = index(t[p]); ++p; need("}");
        M f = sum(); need("\\:"); need("\\mathrm"); need("{"); need("d"); need("}"); need("\\Omega");
        return mu(U_SYM, f, id);
      }
      need("["); M lo = sum(); need(";"); M hi = sum(); need("]"); need("}");
      M f = sum(); need("\\:"); need("\\mathrm"); need("{"); need("d"); need("}");
      M x = atom(); if (x->k != VAR) throw TexError("integration variable is not a variable");
      return mint(f, lo, hi, x->id);
    }
    throw TexError("unexpected " + w + " before " + rest());
  }
  M whole() { M a = sum(); if (p != t.size()) throw TexError("unexpected " + rest()); return a; }
};
// canonical form: sums as lists of signed terms, products as lists of factors (grouping within them does not change the meaning)
struct Term { bool neg; M m; };
inline void flat_sum(M const & m, bool neg, std::vector<Term> & out) {
  if (m->k == UN && m->op == U_ID) { flat_sum(m->kids[0], neg, out); return; }
  if (m->k == BIN && m->op == ADD) { flat_sum(m->kids[0], neg, out); flat_sum(m->kids[1], neg, out); return; }
  if (m->k == BIN && m->op == SUB) { flat_sum(m->kids[0], neg, out); flat_sum(m->kids[1], !neg, out); return; }
  Term t; t.neg = neg; t.m = m;
  if (m->k == CONST && neg) { t.neg = false; t.m = mc(-m->c); }
  out.push_back(t);
}
inline void flat_prod(M const & m, std::vector<M> & out) {
  if (m->k == UN && m->op == U_ID) { flat_prod(m->kids[0], out); return; }
  if (m->k == BIN && m->op == MUL) { flat_prod(m->kids[0], out); flat_prod(m->kids[1], out); return; }
  out.push_back(m);
}
inline bool about(double a, double b) { return a == b || std::fabs(a - b) <= 5.1e-6 * std::max(std::fabs(a), std::fabs(b)); }
inline bool is_zero(M const & m) { return m->k == CONST && m->c == 0; }
// same formula up to grouping of sums and of products and up to the displayed precision of numbers
inline bool same_formula(M a, M b) {
  while (a->k == UN && a->op == U_ID) a = a->kids[0];
  while (b->k == UN && b->op == U_ID) b = b->kids[0];
  bool sa = a->k == BIN && a->op <= SUB, sb = b->k == BIN && b->op <= SUB;
  if (sa || sb) {
    std::vector<Term> x, y; flat_sum(a, false, x); flat_sum(b, false, y);
    if (x.size() != y.size()) return false;
    for (size_t i = 0; i < x.size(); ++i) if (x[i].neg != y[i].neg || !same_formula(x[i].m, y[i].m)) return false;
    return true;
  }
  bool pa = a->k == BIN && a->op == MUL, pb = b->k == BIN && b->op == MUL;
  if (pa || pb) {
    std::vector<M> x, y; flat_prod(a, x); flat_prod(b, y);
    if (x.size() != y.size()) return false;
    for (size_t i = 0; i < x.size(); ++i) if (!same_formula(x[i], y[i])) return false;
    return true;
  }
  if (a->k != b->k || a->kids.size() != b->kids.size()) return false;
  if (a->k == CONST) return about(a->c, b->c);
  if (a->k == VAR) return a->id == b->id;
  if (a->k == FSYM) return a->id == b->id && a->tag == b->tag;
  if (a->op != b->op) return false;
  if (a->k == UN && a->op >= U_PD && a->id != b->id) return false;
  for (size_t i = 0; i < a->kids.size(); ++i) if (!same_formula(a->kids[i], b->kids[i])) return false;
  return true;
}
}
#endif
