// Sessions of involutive basis computations: push / build / reduce / query in any interleaving,
// against Buchberger, the Janet division by definition and counting.
#include "core.h"
#include "sutil.h"
#include "util/hilbertpoly.h"

namespace sim {
using namespace GInv;
void checkHilbert(HilbertPoly& hp, const std::vector<ref::Mon>& lead, int n, const std::vector<int>& comps, const std::string& what);
namespace {

// ------------------------------------------------------------------ generation
struct Fam { int n, ord, comps, terms, deg, polys, coef, kind; std::vector<ref::Poly> classic; };
// well known systems, with the variables permuted and the equations scaled and shuffled
std::vector<ref::Poly> classic(Rng& r, int ord, int& n) {
  typedef std::vector<int> E;
  std::vector<std::vector<std::pair<long, E>>> F;
  int which=r.in(0, 6);
  if (which == 0) {                    // cyclic
    n = r.in(3, 4);
    for(int d=1; d <= n; d++) {
      std::vector<std::pair<long, E>> p;
      for(int i=0; i < (d < n ? n : 1); i++) {
        E e(n, 0);
        for(int k=0; k < d; k++) e[(i + k)%n]++;
        p.push_back({1, e});
      }
      if (d == n) p.push_back({-1, E(n, 0)});
      F.push_back(p);
    }
  }
  else if (which == 1) {               // katsura
    n = r.in(3, 4);
    for(int m=0; m < n - 1; m++) {
      std::vector<std::pair<long, E>> p;
      for(int l=-(n - 1); l <= n - 1; l++) {
        int a=std::abs(l), b=std::abs(m - l);
        if (b > n - 1) continue;
        E e(n, 0);
        e[a]++;
        e[b]++;
        p.push_back({1, e});
      }
      E e(n, 0);
      e[m]++;
      p.push_back({-1, e});
      F.push_back(p);
    }
    std::vector<std::pair<long, E>> p;
    for(int l=0; l < n; l++) { E e(n, 0); e[l]++; p.push_back({l ? 2 : 1, e}); }
    p.push_back({-1, E(n, 0)});
    F.push_back(p);
  }
  else if (which == 2) {               // noon
    n = 3;
    for(int i=0; i < n; i++) {
      std::vector<std::pair<long, E>> p;
      for(int k=0; k < n; k++) if (k != i) { E e(n, 0); e[i]++; e[k] += 2; p.push_back({10, e}); }
      E e(n, 0);
      e[i]++;
      p.push_back({-11, e});
      p.push_back({10, E(n, 0)});
      F.push_back(p);
    }
  }
  else if (which == 3) {               // elementary symmetric functions equal to numbers
    n = r.in(2, 4);
    for(int d=1; d <= n; d++) {
      std::vector<std::pair<long, E>> p;
      for(int m=1; m < 1 << n; m++) if (__builtin_popcount(m) == d) {
        E e(n, 0);
        for(int v=0; v < n; v++) e[v] = m >> v & 1;
        p.push_back({1, e});
      }
      p.push_back({(long)r.in(-3, 3), E(n, 0)});
      F.push_back(p);
    }
  }
  else if (which == 4) {               // powers sums
    n = r.in(2, 3);
    for(int d=1; d <= n + 1; d++) {
      std::vector<std::pair<long, E>> p;
      for(int v=0; v < n; v++) { E e(n, 0); e[v] = d; p.push_back({1, e}); }
      p.push_back({(long)r.in(-2, 2), E(n, 0)});
      if (d <= n || r.p(30)) F.push_back(p);
    }
  }
  else if (which == 5) {               // the twisted curve: 2x2 minors of a Hankel matrix
    n = r.in(4, 5);
    for(int i=0; i + 1 < n - 1; i++) for(int k=i + 1; k < n - 1; k++) {
      E a(n, 0), b(n, 0);
      a[i]++; a[k + 1]++;
      b[i + 1]++; b[k]++;
      F.push_back({{1, a}, {-1, b}});
    }
  }
  else {                               // neighbours of a graph share no colour: x^3 - 1 and x^2 + xy + y^2
    n = r.in(3, 4);
    int col=r.in(2, 3);
    for(int v=0; v < n; v++) { E e(n, 0); e[v] = col; F.push_back({{1, e}, {-1, E(n, 0)}}); }
    for(int a=0; a < n; a++) for(int b=a + 1; b < n; b++) if (r.p(45)) {
      std::vector<std::pair<long, E>> p;
      for(int k=0; k < col; k++) { E e(n, 0); e[a] += k; e[b] += col - 1 - k; p.push_back({1, e}); }
      F.push_back(p);
    }
  }
  std::vector<int> perm(n);
  for(int v=0; v < n; v++) perm[v] = v;
  for(int v=n; v > 1; v--) std::swap(perm[v - 1], perm[r.in(0, v - 1)]);
  std::vector<ref::Poly> R;
  for(auto& p: F) {
    ref::Poly q(ord);
    long c=r.p(70) ? 1 : r.p(50) ? -1 : r.in(2, 30);
    for(auto& t: p) {
      ref::Mon m(n, -1);
      for(int v=0; v < n; v++) m.e[perm[v]] = t.second[v];
      if (t.first) q.t.push_back({m, mpz_class(t.first*c)});
    }
    q.normalise();
    R.push_back(q);
  }
  for(size_t i=R.size(); i > 1; i--) if (r.p(70)) std::swap(R[i - 1], R[r.in(0, (int)i - 1)]);
  return R;
}
Fam family(const std::string& prop, Rng& r) {
  Fam f;
  static const int orders[]={0x11, 0x12, 0x12, 0x12, 0x21, 0x22};
  f.ord = orders[r.in(0, 5)];
  bool lex=(f.ord & 0xf) == 1;
  bool module=prop == "P17" || ((prop == "P14" || prop == "P16" || prop == "P19" || prop == "P20" || prop == "P05" || prop == "P02" || prop == "P03") && r.p(30))
    || (prop == "P15" && r.p(25)) || (prop == "P18" && r.p(25));
  f.comps = module ? r.in(1, 3) : 0;
  f.n = r.in(1, module ? 3 : 4);
  f.kind = r.in(0, 9);
  f.terms = r.in(2, 4);
  f.deg = r.in(2, lex ? 3 : 4);
  if (f.n >= 4 || (f.n == 3 && module)) f.deg = r.in(2, 3);
  f.polys = r.in(1, f.n + 1);
  f.coef = r.p(70) ? 3 : r.p(70) ? 12 : 5000;
  if (f.kind == 0) { f.terms = 1; f.deg += 2; f.polys += 2; }                  // monomials
  if (f.kind == 1) { f.terms = 2; f.deg += lex ? 0 : 1; }                      // binomials
  if (f.kind == 2) { f.deg = 1; f.terms = 5; f.polys = r.in(1, f.n + 2); f.n = r.in(2, 6); }   // linear
  if (f.kind == 3) { f.n = 1; f.deg = 7; f.terms = 5; f.polys = r.in(2, 4); }  // one variable
  if (f.kind == 4 && !lex) { f.terms = 6; f.deg = 2; f.n = std::min(f.n, 3); } // dense quadrics
  if (f.kind == 5) { f.n = 2; f.deg = lex ? 3 : 5; f.terms = 3; }
  if (f.kind == 7 && r.p(prop == "P18" ? 100 : 20)) {                           // few variables, high degrees
    f.n = r.in(1, 2);
    f.deg = f.n == 1 ? r.in(8, 150) : r.in(6, 30);
    f.terms = r.in(1, 2);
    f.polys = r.in(1, 3);
  }
  if (f.kind == 8 && !module && r.p(35)) {
    f.classic = classic(r, f.ord, f.n);
    f.polys = (int)f.classic.size();
    f.terms = 3;
    f.deg = 2;
  }
  return f;
}
ref::Poly drawPoly(Rng& r, const Fam& f, bool konst) {
  ref::Poly p=randomPoly(r, f.ord, f.n, f.terms, f.deg, f.comps, f.coef, konst);
  if (f.kind == 6) {                 // homogeneous
    int d=std::min(3, f.deg);
    for(auto& t: p.t) { int g=t.m.deg(); while(g < d) { t.m.e[r.in(0, f.n - 1)]++; g++; } }
    p.normalise();
  }
  return p;
}
std::string textOf(Rng& r, Fam& f, std::vector<ref::Poly>& have) {
  ref::Poly p;
  if (!f.classic.empty()) {
    p = f.classic.back();
    f.classic.pop_back();
    have.push_back(p);
    return ptext(p);
  }
  int w=r.in(0, 99);
  if (!have.empty() && w < 5) p = r.pick(have);                                // repeated
  else if (!have.empty() && w < 9) p = ref::scale(r.pick(have), r.in(0, 1) ? -2 : 3);
  else if (have.size() > 1 && w < 16) {                                        // redundant combination
    ref::Mon a(f.n, -1), b(f.n, -1);
    a.e[r.in(0, f.n - 1)]++;
    if (r.p(50)) b.e[r.in(0, f.n - 1)]++;
    p = ref::add(ref::mulmon(r.pick(have), a, r.in(1, 3)), ref::mulmon(r.pick(have), b, -r.in(1, 3)));
  }
  else if (!have.empty() && w < 24) {                                          // same leading monomial
    p = drawPoly(r, f, true);
    const ref::Poly& q=r.pick(have);
    if (!q.zero()) {
      ref::Term t=q.t[0];
      t.c = r.in(1, 5);
      p.t.push_back(t);
      p.normalise();
    }
  }
  else p = drawPoly(r, f, r.p(40));
  if (p.t.size() > 10) p = drawPoly(r, f, false);
  have.push_back(p);
  return ptext(p);
}

void gen(const std::string& prop, Rng& r, Scenario& s) {
  auto T=[](long x) { return std::to_string(x); };
  int sessions=prop == "P19" ? r.in(2, 3) : (prop == "P02" && r.p(40)) ? 2 : 1;
  std::vector<std::vector<std::pair<std::string, std::vector<std::string>>>> prog(sessions);
  for(int q=0; q < sessions; q++) {
    auto& o=prog[q];
    auto add=[&](const std::string& op, std::vector<std::string> a) { a.insert(a.begin(), T(q)); o.push_back({op, a}); };
    Fam f=family(prop, r);
    std::vector<ref::Poly> have;
    add("open", {T(f.ord), T(f.n)});
    int rounds=prop == "P14" ? r.in(2, 4) : prop == "P13" ? 1 : prop == "P17" || prop == "P15" ? r.in(1, 3) : r.p(65) ? 1 : r.in(2, 3);
    if (prop == "P14" && r.p(30)) { f.terms = std::min(f.terms, 2); f.deg = std::min(f.deg, 3); }
    int left=std::max(f.polys, rounds > 1 ? rounds : 1);
    for(int k=0; k < rounds; k++) {
      int m=k + 1 == rounds ? left : std::min(left, r.in(0, 2));
      if (k == 0 && m == 0) m = std::min(left, 1);
      left -= m;
      std::vector<std::string> in;
      for(int i=0; i < m; i++) in.push_back(textOf(r, f, have));
      if (prop == "P15" && f.comps == 0 && k + 1 == rounds && r.p(70)) {       // make 1 appear
        int way=r.in(0, 5);
        ref::Poly one(f.ord);
        one.t.push_back({ref::Mon(f.n, -1), r.in(1, 7)});
        ref::Poly p=have.empty() || have.back().zero() ? drawPoly(r, f, true) : r.pick(have);
        if (way == 0) in.push_back(ptext(one));
        else if (way <= 2) in.push_back(ptext(ref::add(p, one)));              // p and p + c
        else if (way == 3) {                                                   // m and m*q - 1
          ref::Mon x(f.n, -1), y(f.n, -1);
          x.e[r.in(0, f.n - 1)] = 1;
          y.e[r.in(0, f.n - 1)] = r.in(1, 2);
          ref::Poly a(f.ord);
          a.t.push_back({ref::mulm(x, y), 1});
          a.t.push_back({ref::Mon(f.n, -1), -1});
          a.normalise();
          ref::Poly b(f.ord);
          b.t.push_back({r.p(50) ? x : y, r.in(1, 3)});
          in.push_back(ptext(a));
          in.push_back(ptext(b));
        }
        else if (way == 4) {                                                   // inconsistent linear equations
          ref::Poly a=randomPoly(r, f.ord, f.n, 3, 1, 0, 5, false);
          in.push_back(ptext(a));
          in.push_back(ptext(ref::add(ref::scale(a, 2), one)));
        }
        else {                                                                 // p*m + c with p implied
          ref::Mon x(f.n, -1);
          x.e[r.in(0, f.n - 1)] = r.in(1, 2);
          in.push_back(ptext(ref::add(ref::mulmon(p, x, 1), one)));
          if (have.empty()) in.push_back(ptext(p));
        }
        for(size_t i=in.size(); i > 1; i--) if (r.p(60)) std::swap(in[i - 1], in[r.in(0, (int)i - 1)]);
      }
      if ((prop == "P15" || prop == "P17") && f.comps > 0 && r.p(40)) {        // generators of degree zero
        ref::Poly p(f.ord);
        p.t.push_back({ref::Mon(f.n, r.in(0, f.comps - 1)), r.in(1, 4)});
        if (r.p(40)) p = ref::add(p, drawPoly(r, f, false));
        in.insert(in.begin() + r.in(0, (int)in.size()), ptext(p));
      }
      for(auto& x: in) {
        std::string keep=T(r.p(30));
        add("push", {x, keep});
        if (prop == "P15" && r.p(15)) add("push", {"0", "0"});
      }
      if (prop == "P19" && k + 1 == rounds && r.p(15)) { add("abandon", {}); break; }
      if (prop == "P02" && r.p(15)) { add("abandon", {}); break; }
      add("build", {T(r.in(0, 3))});
      if (prop == "P14" && r.p(20)) add("build", {T(r.in(0, 3))});
      int queries=prop == "P16" ? r.in(3, 7) : prop == "P15" ? 2 : r.in(0, 3);
      for(int i=0; i < queries; i++) {
        if (prop == "P18" || r.p(15)) add("hp", {});
        if (r.p(50) || prop == "P16" || prop == "P15") {
          ref::Poly p=drawPoly(r, f, true);
          if (r.p(30)) { Fam g(f); g.terms += 3; g.deg += 2; p = drawPoly(r, g, true); }
          if (r.p(45) && !have.empty()) {                                      // a member, sometimes disturbed
            ref::Poly q(f.ord);
            for(int c=r.in(1, 3); c > 0; c--) {
              ref::Mon m(f.n, -1);
              for(int e=r.in(0, 2); e > 0; e--) m.e[r.in(0, f.n - 1)]++;
              q = ref::add(q, ref::mulmon(r.pick(have), m, r.in(1, 9) - (r.p(50) ? 10 : 0)));
            }
            p = r.p(75) ? q : ref::add(p, q);
          }
          if (p.t.size() <= 30) add("nf", {ptext(p)});
        }
        if (r.p(50)) {
          std::string m=T(f.comps ? r.in(0, f.comps) : r.p(20) ? r.in(0, 2) : -1) + ":";
          for(int v=0; v < f.n; v++) m += (v ? "," : "") + T(r.p(40) ? 0 : r.in(0, f.deg + 1));
          add("find", {m});
        }
        if (r.p(20)) add("compact", {T(r.in(0, 30))});
      }
      if (prop == "P18") add("hp", {});
    }
    if (sessions > 1 && r.p(50)) add("end", {});
  }
  if (prop == "P03") s.addn("limit", {-1, 0});
  // interleave
  std::vector<size_t> at(sessions, 0);
  for(;;) {
    std::vector<int> ready;
    for(int q=0; q < sessions; q++) if (at[q] < prog[q].size()) ready.push_back(q);
    if (ready.empty()) break;
    int q=r.pick(ready);
    auto& x=prog[q][at[q]++];
    if (prop == "P03" && r.p(15)) s.addn("limit", {-1, r.p(10) ? 0 : s.num("page", 4096)*r.in(2, 60)});
    s.add(x.first, x.second);
  }
  if (prop == "P20") {
    s.set("stderr", r.p(50));
    if (r.p(25)) { static const int pages[]={4096, 8192, 16384, 65536}; s.set("page2", pages[r.in(0, 3)]); }
  }
}

// ------------------------------------------------------------------ execution
struct Kept { Allocator* a; PolyInt* p; ref::Poly v; };
struct Session {
  JanetPolyInt* b=nullptr;
  int ord=0x12, n=2, id=0;
  std::vector<ref::Poly> in;
  std::vector<ref::Poly> G;          // reduced Groebner basis of everything pushed before the last build
  bool built=false, pending=false;
  std::string last;                  // text of the basis after the last build
  std::vector<Kept> kept;
};

void run(const Scenario& s) {
  std::map<int, Session> SS;
  size_t start=Allocator::currMemory(), limit=0;
  long lv0=liveRequests();
  uint64_t nb=newBlocks;
  bool ignore=s.num("ignore_limit", 0), model=on("P13 P14 P15 P16 P17 P18") != 0;
  Rng q(s.seed);
  auto wraps=[](Session& x) {
    std::vector<WrapPolyInt*> w;
    for(GCListWrapPolyInt::ConstIterator j(x.b->begin()); j; ++j) { w.push_back(j.data()); if (w.size() > 3000) break; }
    return w;
  };
  auto basisText=[&](Session& x) {
    std::string t=x.b->isOne() ? "one " : "";
    t += std::to_string(x.b->size()) + " ";
    if (!x.b->isOne())
      for(auto w: wraps(x)) {
        t += ref::str(toPoly(w->poly())) + " ";
        for(int v=0; v < x.n; v++) t += w->NM(v) ? '*' : '.';
        t += "\n";
      }
    return t;
  };
  auto keptOk=[&](Session& x, const std::string& op) {
    for(auto& k: x.kept) {
      ref::Poly v=toPoly(*k.p);
      if (v != k.v) fail("input-changed", op + ": a polynomial handed to the session changed from " + ref::str(k.v) + " to " + ref::str(v));
    }
  };
  auto unit=[](Session& x) { return x.G.size() == 1 && x.G[0].lm().pos < 0 && x.G[0].lm().deg() == 0; };
  auto judgeBasis=[&](Session& x) {
    std::string ctx="\n  input:";
    for(auto& p: x.in) ctx += "\n    " + ref::str(p);
    bool one=x.b->isOne();
    if (on("P13 P14 P15 P17") && one != unit(x))
      fail("trivial", std::string(one ? "reported trivial but it is not" : "contains a constant but is not reported trivial") + ctx);
    std::vector<WrapPolyInt*> W;
    if (!one) W = wraps(x);
    if (one) {
      probe(20);
      if (x.b->size() != 1) fail("trivial", "size of the trivial basis is " + std::to_string(x.b->size()));
      return;
    }
    std::vector<ref::Poly> B;
    std::vector<ref::Mon> U;
    for(auto w: W) {
      B.push_back(toPoly(w->poly()));
      std::string why;
      if (on("P13 P14 P17 P20")) {
        if (B.back().zero()) fail("basis-form", "zero in the basis" + ctx);
        if (!canonicalForm(B.back(), why)) fail("basis-form", why + ctx);
      }
      if (B.back().zero()) skipRun("zero in the basis");
      U.push_back(B.back().lm());
      if (on("P13 P14 P17") && toMon(w->lm()) != U.back()) fail("basis-form", "the leading monomial kept with an element is not its own" + ctx);
    }
    state("B" + std::to_string(x.ord) + std::to_string(U.size()) + (U.empty() ? "" : ref::str(U[0]) + ref::str(U.back())));
    if (U.size() > 12) probe(21);
    if (on("P13 P14 P17 P20") && x.b->size() != (int)W.size()) fail("basis-form", "size " + std::to_string(x.b->size()) + " of " + std::to_string(W.size()) + " elements" + ctx);
    if (on("P20")) {
      for(size_t i=0; i < B.size(); i++) {
        if (i && ref::cmp(x.ord, U[i - 1], U[i]) >= 0) fail("basis-order", "leading monomials not ascending: " + ref::str(U[i - 1]) + " then " + ref::str(U[i]) + ctx);
        if (B[i].content() != 1) fail("basis-content", "element with common factor " + B[i].content().get_str() + ctx);
        for(size_t t=1; t < B[i].t.size(); t++)
          if (ref::janetFind(U, B[i].t[t].m) >= 0) fail("basis-tail", "tail term " + ref::str(B[i].t[t].m) + " of element " + std::to_string(i) + " is involutively reducible" + ctx);
      }
    }
    if (!on("P13 P14 P17")) return;
    ref::Budget bud(300000);
    for(auto& p: B)
      if (!ref::nf(p, x.G, bud).zero()) { if (bud.out()) skipRun("reference out of budget"); fail("basis-ideal", "element outside the ideal: " + ref::str(p) + ctx); }
    for(auto& g: x.G) {
      bool ok=false;
      for(auto& u: U) ok = ok || ref::divides(u, g.lm());
      if (!ok) fail("basis-ideal", "leading monomial " + ref::str(g.lm()) + " of the ideal is not covered" + ctx);
    }
    for(size_t i=0; i < U.size(); i++)
      for(size_t j=0; j < i; j++) if (U[i] == U[j]) fail("basis-involutive", "leading monomial " + ref::str(U[i]) + " twice" + ctx);
    ref::Mon miss;
    if (!ref::janetComplete(U, &miss)) fail("basis-involutive", "prolongation " + ref::str(miss) + " has no involutive divisor" + ctx);
    for(size_t i=0; i < U.size(); i++)
      for(int v=0; v < x.n; v++)
        if (W[i]->NM(v) != ref::janetNM(U, U[i], v)) fail("basis-involutive", "variable " + std::to_string(v) + " of " + ref::str(U[i]) + " is marked " + (W[i]->NM(v) ? "non-multiplicative" : "multiplicative") + ctx);
  };
  auto findIn=[&](Session& x, const ref::Mon& m, const std::string& op) {
    Allocator al[1];
    Monom* mm=mkMon(al, m);
    WrapPolyInt* w=sut([&] { return x.b->find(*mm); });
    { Sut g; delete mm; }
    obs(op + " " + ref::str(m) + " " + (w ? ref::str(toMon(w->poly().lm())) : "-"));
    if (!on("P13 P14 P15 P16 P17")) return;
    if (x.b->isOne()) { if (!w) fail("basis-find", "nothing found in a trivial basis"); return; }
    std::vector<WrapPolyInt*> W=wraps(x);
    std::vector<ref::Mon> U;
    for(auto y: W) U.push_back(toMon(y->poly().lm()));
    int e=ref::janetFind(U, m);
    if ((e < 0) != (w == nullptr) || (w && W[e] != w))
      fail("basis-find", "looking up " + ref::str(m) + " gives " + (w ? ref::str(toMon(w->poly().lm())) : "nothing") + " instead of " + (e < 0 ? "nothing" : ref::str(U[e])));
  };
  auto drop=[&](Session& x) {
    { Sut g; delete x.b; }
    x.b = nullptr;
    keptOk(x, "end");
    for(auto& k: x.kept) { Sut g; delete k.p; delete k.a; }
    x.kept.clear();
  };
  for(size_t k=0; k < s.steps.size(); k++) {
    q = Rng(mix2(s.seed, s.steps[k].id));
    const Step& st=s.steps[k];
    beginStep(st, (int)k);
    obsTag = (int)st.num(0);
    if (st.op == "limit") {
      limit = (size_t)std::max(0l, st.num(1));
      if (!ignore) Allocator::setLimitMemory(limit);
    }
    else if (st.op == "open") {
      Session& x=SS[obsTag];
      if (x.b) continue;
      int o=(int)st.num(1), n=(int)st.num(2);
      x.ord = o == 0x11 || o == 0x12 || o == 0x21 || o == 0x22 ? o : 0x12;
      x.n = std::max(1, std::min(8, n));
      x.id = obsTag;
      x.in.clear();
      x.G.clear();
      x.built = x.pending = false;
      x.b = sut([] { return new JanetPolyInt; });
    }
    else if (SS.count(obsTag) && SS[obsTag].b) {
      Session& x=SS[obsTag];
      if (st.op == "push") {
        ref::Poly v=pparse(st.str(1), x.ord, x.n);
        bool ring=false, mod=false;    // one kind of element per session
        for(auto& p: x.in) for(auto& t: p.t) (t.m.pos < 0 ? ring : mod) = true;
        for(auto& t: v.t) (t.m.pos < 0 ? ring : mod) = true;
        if (ring && mod) continue;
        Allocator* al=sut([] { return new Allocator; });
        PolyInt* p=sut([&] { return new PolyInt(al, x.ord, x.n); });
        fillPoly(*p, v);
        { Sut g; x.b->push(*p); }
        if (v.zero()) probe(22);
        ref::Poly w=toPoly(*p);
        if (w != v) fail("input-changed", "push changed its argument from " + ref::str(v) + " to " + ref::str(w));
        if (st.num(2) && x.kept.size() < 4) x.kept.push_back({al, p, v});
        else { Sut g; delete p; delete al; }
        x.in.push_back(v);
        x.pending = true;
      }
      else if (st.op == "build") {
        if (x.in.empty()) { Sut g; x.b->build(); continue; }
        ref::Budget bud(9000);
        std::vector<ref::Poly> G;
        if (!ref::groebner(x.in, G, bud)) skipRun("reference out of budget");
        std::vector<ref::Mon> L, J;
        size_t big=0;
        for(auto& g: G) { L.push_back(g.lm()); for(auto& t: g.t) big = std::max(big, mpz_sizeinbase(t.c.get_mpz_t(), 2)); }
        if (big > 3000 || G.size() > 40 || !ref::janetMinimal(L, J, 90)) skipRun("system too large");
        x.G = G;
        setWorkLimit(60000000);
        setSwellLimit(6000);
        int alg=(int)(std::max(0l, st.num(1))%4);
        {
          Sut g;
          switch(alg) {
          case 0: x.b->build(); break;
          case 1: x.b->algorithmTQ(); break;
          case 2: x.b->algorithmTQ1(); break;
          default: x.b->algorithmTQ2();
          }
        }
        setWorkLimit(0);
        setSwellLimit(0);
        probe(24 + alg);
        bool again=x.built && !x.pending;
        if (x.built && x.pending) { probe(23); fault(F_SPLIT_ROUND); }
        judgeBasis(x);
        std::string t=basisText(x);
        if (again && on("P14") && t != x.last) fail("rebuild", "building again without new input changes the basis\n  " + x.last + "\n  " + t);
        x.last = t;
        x.built = true;
        x.pending = false;
        obs("basis " + t);
        obs("counters " + std::to_string(x.b->reduction()) + " " + std::to_string(x.b->maxEqualLm()) + " " + std::to_string(x.b->critI())
            + " " + std::to_string(x.b->critII()) + " " + std::to_string(x.b->isZeroNf()));
        if (!x.b->isOne())
          for(int t=0; t < 3; t++) {
            ref::Mon m(x.n, -1);
            std::vector<WrapPolyInt*> W=wraps(x);
            if (!W.empty()) m = toMon(W[q.next()%W.size()]->poly().lm());
            for(int c=q.in(0, 3); c > 0; c--) m.e[q.in(0, x.n - 1)]++;
            findIn(x, m, "find");
          }
      }
      else if (st.op == "nf") {
        if (!x.built) continue;
        ref::Poly v=pparse(st.str(1), x.ord, x.n);
        bool ring=false, mod=false;
        for(auto& p: x.in) for(auto& t: p.t) (t.m.pos < 0 ? ring : mod) = true;
        for(auto& t: v.t) (t.m.pos < 0 ? ring : mod) = true;
        if (ring && mod) continue;
        // elements pushed but not built yet play no part
        ref::Budget bud(60000);
        ref::Poly e=ref::nf(v, x.G, bud);
        if (bud.out()) continue;
        Allocator al[1];
        PolyInt p(al, x.ord, x.n);
        fillPoly(p, v);
        setWorkLimit(60000000);
        setSwellLimit(6000);
        { Sut g; x.b->nf(p); }
        setWorkLimit(0);
        setSwellLimit(0);
        ref::Poly r=toPoly(p);
        obs("nf " + ref::str(r));
        if (on("P15") && unit(x) && x.b->isOne() && !r.zero()) fail("trivial", "normal form modulo the whole ring is " + ref::str(r));
        if (on("P16")) {
          std::string why;
          if (!canonicalForm(r, why)) fail("normal-form", why);
          if (e.zero()) probe(28);
          else probe(29);
          if (canon(r) != canon(e)) fail("normal-form", "normal form of\n  " + ref::str(v) + "\n  is\n  " + ref::str(r) + "\n  instead of a multiple of\n  " + ref::str(canon(e)));
          if (!r.zero() && r.content() != 1) fail("normal-form", "normal form with common factor " + r.content().get_str());
        }
      }
      else if (st.op == "find") {
        if (!x.built) continue;
        findIn(x, mparse(st.str(1), x.n), "find");
      }
      else if (st.op == "compact") {
        if (!x.built || x.b->isOne()) continue;
        std::vector<WrapPolyInt*> W=wraps(x);
        if (W.empty()) continue;
        Sut g;
        W[(size_t)std::max(0l, st.num(1))%W.size()]->reallocate();
      }
      else if (st.op == "hp") {
        if (!x.built || x.b->isOne() || x.b->size() == 0 || x.n > 4) continue;
        std::vector<WrapPolyInt*> W=wraps(x);
        std::vector<ref::Mon> U, L;
        std::set<int> comps;
        for(auto w: W) { U.push_back(toMon(w->poly().lm())); comps.insert(U.back().pos); }
        for(auto& g: x.G) L.push_back(g.lm());
        int s0=0;
        for(int v=0; v < x.n; v++) { int m=0; for(auto& l: L) m = std::max(m, l.e[v]); s0 += m; }
        if (s0 > 24) continue;
        auto text=[](HilbertPoly& h) { std::string t; for(int k=0; k <= h.dim(); k++) { const char* p=sut([&] { return h[k]; }); t += std::string(p ? p : "?") + " "; } return t; };
        if (comps.count(-1)) {
          HilbertPoly* h=sut([] { return new HilbertPoly; });
          { Sut g; x.b->buildHP(*h); }
          obs("hp " + text(*h));
          if (on("P18")) { checkHilbert(*h, L, x.n, {-1}, "basis"); probe(30); }
          Sut g;
          delete h;
        }
        for(int c: comps) {
          HilbertPoly* h=sut([] { return new HilbertPoly; });
          { Sut g; x.b->janet(c).buildHP(*h); }
          obs("hp of component " + std::to_string(c) + " " + text(*h));
          if (on("P18")) { checkHilbert(*h, L, x.n, {c}, "component " + std::to_string(c)); probe(31); }
          Sut g;
          delete h;
        }
      }
      else if (st.op == "end" || st.op == "abandon") {
        if (st.op == "abandon") fault(F_ABANDON);
        drop(x);
        obs("closed");
      }
      if (x.b) keptOk(x, st.op);
    }
    if (on("P19") && k%3 == 0)
      for(auto& y: SS)
        if (y.second.b && y.second.built && y.first != obsTag) {
          std::string t=basisText(y.second);
          if (t != y.second.last) fail("session-interference", st.op + " of session " + std::to_string(obsTag) + " changed the basis of session " + std::to_string(y.first));
        }
    if (on("P03") && newBlocks != nb) { nb = newBlocks; record((int64_t)k); record((int64_t)limit); record((int64_t)Allocator::maxMemory()); }
  }
  if (!ignore) Allocator::setLimitMemory(0);
  (void)model;
  for(auto& y: SS) if (y.second.b) { obsTag = y.first; drop(y.second); }
  if (on("P02")) {
    if (Allocator::currMemory() != start) fail("accounting", "current memory is " + std::to_string(Allocator::currMemory()) + " instead of " + std::to_string(start) + " after all sessions ended");
    if (liveRequests() != lv0) fail("leak", std::to_string(liveRequests() - lv0) + " system requests never returned");
    if (errText.find("mSize") != std::string::npos) fail("accounting", "diagnostic: " + errText.substr(0, 300));
  }
}
Reg r1("gb", gen, run);
}
}
