// Reads compiletime expressions back: prints the type of an expression as a prefix formula.
#ifndef CT_HPP
#define CT_HPP
#include <iostream>
#include <cassert>
#include <cmath>
#include <cstdio>
#include <string>
#include <vector>
#include "viennamath/expression.hpp"
#include "viennamath/manipulation/eval.hpp"
#include "viennamath/manipulation/simplify.hpp"
#include "viennamath/manipulation/expand.hpp"
#include "viennamath/manipulation/substitute.hpp"
#include "viennamath/manipulation/diff.hpp"
#include "viennamath/manipulation/integrate.hpp"
#include "viennamath/manipulation/coefficient.hpp"
#include "viennamath/manipulation/drop_dependent_terms.hpp"
using namespace viennamath;
typedef viennamath::default_numeric_type NT;
template <typename T> struct Ty { static std::string s() { return "?"; } };
inline std::string num(long v) { char b[40]; snprintf(b, sizeof b, "%ld", v); return b; }
template <long v> struct Ty<ct_constant<v> > { static std::string s() { return num(v); } };
template <unsigned long id> struct Ty<ct_variable<id> > { static std::string s() { return "x" + num((long)id); } };
template <typename L, typename R> struct Ty<ct_binary_expr<L, op_plus<NT>, R> > { static std::string s() { return "(+ " + Ty<L>::s() + " " + Ty<R>::s() + ")"; } };
template <typename L, typename R> struct Ty<ct_binary_expr<L, op_minus<NT>, R> > { static std::string s() { return "(- " + Ty<L>::s() + " " + Ty<R>::s() + ")"; } };
template <typename L, typename R> struct Ty<ct_binary_expr<L, op_mult<NT>, R> > { static std::string s() { return "(* " + Ty<L>::s() + " " + Ty<R>::s() + ")"; } };
template <typename L, typename R> struct Ty<ct_binary_expr<L, op_div<NT>, R> > { static std::string s() { return "(/ " + Ty<L>::s() + " " + Ty<R>::s() + ")"; } };
template <typename T> std::string ty(T const &) { return Ty<T>::s(); }
// numerical value of any result, including plain constants
template <typename T> double val(T const & t, std::vector<double> const & v) { return static_cast<double>(viennamath::eval(t, v)); }
template <typename T> void out(int k, const char * label, T const & t, std::vector<double> const & a, std::vector<double> const & b) {
  printf("%d|%s|%s|%.17g|%.17g\n", k, label, Ty<T>::s().c_str(), val(t, a), val(t, b));
}
template <typename L, typename R> struct Pl { typedef ct_binary_expr<L, op_plus<NT>, R> t; };
template <typename L, typename R> struct Mi { typedef ct_binary_expr<L, op_minus<NT>, R> t; };
template <typename L, typename R> struct Mu { typedef ct_binary_expr<L, op_mult<NT>, R> t; };
template <typename L, typename R> struct Di { typedef ct_binary_expr<L, op_div<NT>, R> t; };
#endif
