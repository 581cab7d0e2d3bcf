// P06: long random histories of all public operations with arbitrary aliasing under the sanitizers; the oracle is the instrumentation.
#include "machine.hpp"
using namespace vm;
static void one(long i, Rng & r) {
  Machine m(r, false);
  desc("start"); phase("start");
  int n = (i % 10 == 0) ? 600 : 150;
  for (int k = 0; k < n && R().violations < 10; ++k) m.step();
  phase("use after history"); m.check("the history");
  nontrivial(m.log);
  phase("destruction");
}
int main(int c, char ** v) { return drive(c, v, "P06", one, 10); }
