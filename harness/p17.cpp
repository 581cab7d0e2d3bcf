// P17: customization of LaTeX translators: exactly the customized symbols change, copies are independent.
#include "tex.hpp"
using namespace vm;
namespace vmath = viennamath;
typedef vmath::latex_translator LT;
typedef std::pair<int, std::pair<unsigned long, unsigned long> > Key; // 0 variable, 1 function symbol
static long live = 0;
// an own node type and its processor
struct Foo : public Iface {
  M inner;
  explicit Foo(M const & m) : inner(m) {}
  Iface * clone() const { return new Foo(inner); }
  std::string deep_str() const { return "foo(" + str(inner) + ")"; }
  double eval(std::vector<double> const &) const { return 0; }
  double eval(double) const { return 0; }
  double unwrap() const { return 0; }
  bool shallow_equal(Iface const * o) const { return dynamic_cast<Foo const *>(o) != NULL; }
  bool deep_equal(Iface const * o) const { Foo const * f = dynamic_cast<Foo const *>(o); return f && equal(f->inner, inner); }
  Iface * substitute(Iface const *, Iface const *) const { return clone(); }
  Iface * substitute(std::vector<Iface const *> const &, std::vector<Iface const *> const &) const { return clone(); }
  Iface * diff(Iface const *) const { return clone(); }
};
static std::ostream & operator<<(std::ostream & s, Foo const & f) { return s << f.deep_str(); }
struct FooProc : public vmath::rt_latex_processor_interface<Iface> {
  std::string name; long * calls;
  FooProc(std::string const & n) : name(n) { ++live; }
  FooProc(FooProc const & o) : vmath::rt_latex_processor_interface<Iface>(), name(o.name) { ++live; }
  ~FooProc() { --live; }
  vmath::rt_latex_processor_interface<Iface> * clone() const { return new FooProc(*this); }
  std::string process(Iface const * e, bool par, LT const & t) const { Foo const * f = dynamic_cast<Foo const *>(e); if (!f) return ""; (void)par; return " " + name + "{" + t(wrap(f->inner)) + "} "; }
  bool customize(Iface const * e, std::string const & s) { if (!dynamic_cast<Foo const *>(e)) return false; name = s; return true; }
};
struct Model { std::map<Key, std::string> text; std::string foo; };
static std::string key_token(Key const & k) { char b[40]; snprintf(b, sizeof b, "%s_{%lu}", k.first == 0 ? "x" : (k.second.second == TAG_TEST() ? "v" : "u"), k.second.first); return b; }
static std::vector<std::string> expected(std::string const & plain, Model const & md) {
  std::vector<std::string> t = tex_tokens(plain);
  std::map<std::string, std::string> by;
  for (std::map<Key, std::string>::const_iterator it = md.text.begin(); it != md.text.end(); ++it) if (it->first.first == 0 || it->first.second.second == TAG_TEST() || it->first.second.second == TAG_UNKNOWN()) by[key_token(it->first)] = it->second; // symbols of other tags occur only on their own
  for (size_t i = 0; i < t.size(); ++i) if (by.count(t[i])) t[i] = by[t[i]];
  return t;
}
static std::string join(std::vector<std::string> const & v) { std::string o; for (size_t i = 0; i < v.size(); ++i) o += v[i] + " "; return o; }
static void compare(LT const & t, Model const & md, Expr const & e, M const & m, std::string const & plain, const char * what) {
  std::vector<std::string> want = expected(plain, md), got = tex_tokens(t(e));
  cnt("outputs compared"); cnt("customized symbols in outputs", 0);
  for (size_t i = 0; i < want.size(); ++i) if (want[i].compare(0, 5, "\\cust") == 0) cnt("customized symbols in outputs");
  if (got != want) viol(what, "prints " + join(got) + " instead of " + join(want) + " for " + str(m));
}
static const unsigned long FAR[3] = { 256, 65536, 4294967296ul };   // identifiers that agree in the lower bits
static Key random_key(Rng & r) { unsigned long far = r.chance(0.12) ? FAR[r.below(3)] : 0; if (r.chance(0.55)) return Key(0, std::make_pair((unsigned long)r.below(5) + far, 0ul)); return Key(1, std::make_pair((unsigned long)r.below(3) + far, r.chance(0.2) ? 7ul : r.chance(0.5) ? TAG_UNKNOWN() : TAG_TEST())); }
static void one(long i, Rng & r) {
  bool many = r.chance(0.02); Gen g(r); g.nvars = many ? 60 : 5; g.symbols = true; g.opaque = r.chance(0.5); g.budget = 4 + r.below(20);
  static long serial = 0;
  std::streambuf * old = std::cerr.rdbuf(NULL);
  {
    std::vector<std::unique_ptr<LT> > ts; std::vector<Model> ms;
    ts.push_back(std::unique_ptr<LT>(new LT())); ms.push_back(Model());
    LT fresh;
    std::string hist;
    int steps = many ? 90 : 6 + r.below(20);
    for (int s = 0; s < steps; ++s) {
      unsigned k = r.below(ts.size());
      char nm[40]; snprintf(nm, sizeof nm, "\\cust%ld", serial++);
      int op = r.below(10);
      char h[80];
      if (op < 4) {
        Key key = many && r.chance(0.8) ? Key(0, std::make_pair((unsigned long)r.below(60), 0ul)) : random_key(r);
        phase("customize");
        if (key.first == 0) ts[k]->customize(Var(key.second.first), nm); else ts[k]->customize(FSym(key.second.first, key.second.second), nm);
        ms[k].text[key] = nm; snprintf(h, sizeof h, "customize(%u, %s, %s) ", k, key_token(key).c_str(), nm);
      } else if (op == 4) { phase("copy"); ts.push_back(std::unique_ptr<LT>(new LT(*ts[k]))); ms.push_back(Model(ms[k])); snprintf(h, sizeof h, "copy(%u) ", k); }
      else if (op == 5) { phase("assign"); unsigned j = r.below(ts.size()); LT & rhs = *ts[j]; *ts[k] = rhs; Model c = ms[j]; ms[k] = c; snprintf(h, sizeof h, "assign(%u <- %u) ", k, j); }
      else if (op == 6 && ms[k].foo == "") { phase("add processor"); ts[k]->add_processor(new FooProc(nm)); ms[k].foo = nm; snprintf(h, sizeof h, "add_processor(%u, %s) ", k, nm); }
      else if (op == 7 && ts.size() > 1) { phase("destroy"); ts.erase(ts.begin() + k); ms.erase(ms.begin() + k); snprintf(h, sizeof h, "destroy(%u) ", k); }
      else if (op == 8 && ms[k].foo != "") { phase("customize own node type"); ts[k]->customize(Foo(mv(0)), nm); ms[k].foo = nm; snprintf(h, sizeof h, "customize(%u, own node, %s) ", k, nm); }
      else { phase("customize a number"); ts[k]->customize(Const(r.range(1, 5)), nm); snprintf(h, sizeof h, "customize(%u, number) ", k); }
      hist += h; desc(hist);
      phase("output");
      // every translator prints what its own history says
      M m = g.gen(2 + r.below(10));
      if (r.chance(0.15)) m = far_ids(m, r, FAR[r.below(3)]);
      Expr e = wrap(m);
      std::string plain = fresh(e);
      for (size_t j = 0; j < ts.size(); ++j) {
        compare(*ts[j], ms[j], e, m, plain, j == k ? "customized output" : "output of another translator");
        if (ms[j].foo != "") {
          M in = g.gen(3);
          Expr f(new BExpr(new Foo(in), new OpMult(), raw(m)));
          std::vector<std::string> want; want.push_back(ms[j].foo); want.push_back("{"); std::vector<std::string> a = expected(fresh(wrap(in)), ms[j]); want.insert(want.end(), a.begin(), a.end()); want.push_back("}"); want.push_back("\\cdot");
          std::vector<std::string> b = expected(fresh(wrap(m), true), ms[j]); want.insert(want.end(), b.begin(), b.end());
          std::vector<std::string> got = tex_tokens((*ts[j])(f));
          cnt("own node types printed");
          if (got != want) viol("own node type", "prints " + join(got) + " instead of " + join(want));
        }
      }
      // single symbols
      for (int q = 0; q < 2; ++q) {
        Key key = many && r.chance(0.8) ? Key(0, std::make_pair((unsigned long)r.below(60), 0ul)) : random_key(r);
        unsigned j = r.below(ts.size());
        std::string got = key.first == 0 ? (*ts[j])(Var(key.second.first)) : (*ts[j])(FSym(key.second.first, key.second.second));
        std::vector<std::string> gt = tex_tokens(got);
        std::string w = ms[j].text.count(key) ? ms[j].text[key] : key_token(key);
        cnt("single symbols compared");
        if (gt.size() != 1 || gt[0] != w) viol("symbol", key_token(key) + " prints " + got + " instead of " + w + " on translator " + fmt((double)j));
      }
      // equation and interval use the customized names too
      if (r.chance(0.3)) {
        unsigned j = r.below(ts.size()); M n = g.gen(3); Expr en = wrap(n);
        std::vector<std::string> want = expected(fresh(Eqn(e, en)), ms[j]), got = tex_tokens((*ts[j])(Eqn(e, en)));
        if (got != want) viol("equation", "prints " + join(got) + " instead of " + join(want));
        want = expected(fresh(Ival(e, en)), ms[j]); got = tex_tokens((*ts[j])(Ival(e, en)));
        if (got != want) viol("interval", "prints " + join(got) + " instead of " + join(want));
      }
      cnt("operations");
      char st[80]; snprintf(st, sizeof st, "%d/%d/%d/%d", op, (int)ts.size(), (int)ms[std::min((size_t)k, ms.size() - 1)].text.size(), (int)(ms[std::min((size_t)k, ms.size() - 1)].foo != "")); state(st);
    }
    nontrivial(hist);
  }
  std::cerr.rdbuf(old);
  if (live != 0) { viol("processor lifetime", fmt((double)live) + " processors alive after all translators are gone"); live = 0; }
  (void)i;
}
int main(int c, char ** v) { return drive(c, v, "P17", one); }
