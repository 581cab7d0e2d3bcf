// Table of operations every translation unit offers (P28).
#ifndef P28_HPP
#define P28_HPP
#include <string>
#include <vector>
namespace p28 {
typedef viennamath::rt_expr<> Expr;
typedef viennamath::default_interface_type Iface;
typedef void (*Thunk)();
struct Ops {
  const char * info;
  Expr (*num)(double); Expr (*var)(unsigned long); Expr (*sym)(unsigned long, int); Expr (*bin)(int, Expr const &, Expr const &); Expr (*un)(int, Expr const &, unsigned long);
  Expr (*integral)(double, double, Expr const &, unsigned long); Expr (*symint)(unsigned long, Expr const &); Expr (*vec)(std::vector<Expr> const &);
  double (*call)(Expr const &, std::vector<double> const &); bool (*equal)(Expr const &, Expr const &); std::string (*text)(Expr const &);
  std::string (*kind)(Iface const *);              // dispatch by dynamic type
  std::string (*walk)(Expr const &);               // recursive traversal with type filtered callbacks
  Expr (*rewrite)(Expr const &);                   // recursive manipulation: variables get index + 1
  Iface * (*clone)(Expr const &); void (*destroy)(Iface *);
  std::string (*caught)(Thunk); Thunk throwers[5];
  Expr (*global)();                                // expression built during static initialisation of the unit
  // only where the header is included
  double (*eval)(Expr const &, std::vector<double> const &); Expr (*simplify)(Expr const &); Expr (*diff)(Expr const &, unsigned long); Expr (*subst)(Expr const &, Expr const &, Expr const &);
  std::string (*latex)(Expr const &); Expr (*coords)(int, Expr const &); double (*quad)(Expr const &); double (*ct)(double);
};
}
#endif
