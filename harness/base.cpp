#include "vm.hpp"
static void one(long, vm::Rng & r) { vm::Gen g(r); vm::Expr e = vm::wrap(g()); vm::read(e); }
int main(int c, char ** v) { return vm::drive(c, v, "base", one); }
