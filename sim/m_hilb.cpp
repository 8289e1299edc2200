// Hilbert polynomials as numbers: exact rational coefficients in lowest terms under every history of operations.
#include "core.h"
#include "sutil.h"
#include "ginv/wrap.h"
#include "ginv/gb.h"
#include "util/hilbertpoly.h"
#include <gmpxx.h>
#include <sstream>
#include <set>

namespace sim {
namespace {
using GInv::HilbertPoly;

struct H { HilbertPoly* h; std::vector<mpq_class> c; };

void genHilb(const std::string&, Rng& r, Scenario& s) {
  int n=r.in(10, 50), dim=r.p(20) ? r.in(7, 16) : r.in(1, 6);
  s.set("dim", dim);
  for(int i=0; i < 2; i++) s.addn("new", {r.in(0, 1)});
  for(int i=0; i < n; i++) {
    int k=r.in(0, 99), a=r.in(0, 4), b=r.in(0, 4);
    long sh=r.p(70) ? r.in(-12, 12) : r.p(60) ? r.in(-300, 300) : r.p(50) ? r.in(-2000000000, 2000000000) : (long)r.in(-2000000000, 2000000000)*4000000l;
    if (k < 8) s.addn("new", {r.in(0, 1)});
    else if (k < 12) s.addn("destroy", {a});
    else if (k < 45) s.addn("binomial", {a, sh, r.in(0, dim)});
    else if (k < 62) s.addn("add", {a, b});
    else if (k < 82) s.addn("sub", {a, b});
    else if (k < 95 || dim > 3) s.addn("mult", {a, r.p(10) ? 0 : r.p(70) ? r.in(-20, 20) : r.in(-2147483647, 2147483647), 1});
    else s.addn("mult", {a, r.p(50) ? 2147483647 : -2147483647, r.p(50) ? r.in(2, 200) : r.in(7000, 9000)});
  }
}

void runHilb(const Scenario& s) {
  int dim=(int)std::max(0l, std::min(20l, s.num("dim", 3)));
  std::vector<H> P;
  const long lv0=liveRequests();
  auto check=[&](const std::string& op) {
    for(size_t i=0; i < P.size(); i++) {
      H& x=P[i];
      int d=sut([&] { return x.h->dim(); });
      if (d != dim) fail("hilbert-number", op + ": dimension " + std::to_string(d) + " instead of " + std::to_string(dim));
      for(int k=0; k <= dim; k++) {
        std::string t=sut([&] { return (*x.h)[k]; });
        if (t.size() > 65536) probe(8);
        if (t != x.c[k].get_str())
          fail("hilbert-number", op + ": object " + std::to_string(i) + " coefficient " + std::to_string(k) + " is " + t.substr(0, 200) + " instead of " + x.c[k].get_str().substr(0, 200));
        bool z=sut([&] { return x.h->isZero(k); });
        if (z != (x.c[k] == 0)) fail("hilbert-number", op + ": coefficient " + std::to_string(k) + " zero test is wrong");
      }
    }
  };
  for(size_t q=0; q < s.steps.size(); q++) {
    const Step& st=s.steps[q];
    beginStep(st, (int)q);
    if (st.op == "new") {
      if (P.size() >= 5) continue;
      HilbertPoly* h;
      if (st.num(0)) h = sut([&] { return new HilbertPoly(dim); });
      else { h = sut([] { return new HilbertPoly; }); Sut g; h->setDim(dim); }
      P.push_back({h, std::vector<mpq_class>(dim + 1, 0)});
    }
    else if (P.empty()) continue;
    else {
      size_t j=(size_t)std::max(0l, st.num(0))%P.size();
      H& x=P[j];
      if (st.op == "destroy") {
        { Sut g; delete x.h; }
        P.erase(P.begin() + j);
      }
      else if (st.op == "binomial") {            // (s + a)(s + a - 1)...(s + a - b + 1)/b!
        long a=st.num(1), b=std::max(0l, std::min((long)dim, st.num(2)));
        { Sut g; x.h->binomial(a, (unsigned long)b); }
        std::vector<mpq_class> c(dim + 1, 0);
        c[0] = 1;
        for(long p=1; p <= b; p++) {
          mpq_class f(mpz_class(a) - (p - 1), mpz_class(p)), g(1, (unsigned long)p);
          f.canonicalize();
          for(int k=dim; k >= 0; k--) c[k] = c[k]*f + (k ? c[k - 1]*g : mpq_class(0));
        }
        x.c = c;
      }
      else if (st.op == "add" || st.op == "sub") {
        H& y=P[(size_t)std::max(0l, st.num(1))%P.size()];
        std::vector<mpq_class> c=y.c;
        if (st.op == "add") { { Sut g; x.h->add(*y.h); } for(int k=0; k <= dim; k++) x.c[k] += c[k]; }
        else { { Sut g; x.h->sub(*y.h); } for(int k=0; k <= dim; k++) x.c[k] -= c[k]; }
      }
      else if (st.op == "mult") {
        for(long k=0; k < st.num(2, 1); k++) { Sut g; x.h->mult((int)st.num(1)); }
        mpz_class f;
        mpz_pow_ui(f.get_mpz_t(), mpz_class(st.num(1)).get_mpz_t(), (unsigned long)std::max(0l, st.num(2, 1)));
        for(auto& c: x.c) c *= f;
      }
    }
    check(st.op);
    std::string o;
    for(auto& x: P) o += (x.c[0] == 0 ? "0" : sgn(x.c[0]) < 0 ? "-" : "+") + std::to_string(mpz_sizeinbase(x.c[0].get_num_mpz_t(), 2)) + " ";
    obs(o);
  }
  for(auto& x: P) { Sut g; delete x.h; }
  // the shared text buffer may have been replaced by a larger one
  if (on("P02") && liveRequests() > lv0 + 1) fail("leak", std::to_string(liveRequests() - lv0) + " system requests never returned");
}
Reg r1("hilb", genHilb, runHilb);

// Elements of a set of monomials: leading monomial, ancestor and marks under every history of operations.
using GInv::Wrap;
using GInv::Allocator;
struct El { Wrap* w; ref::Mon lm, an; std::vector<bool> nm, nmd, bd; };
std::string markedMon(Rng& r, int n, int comps) {
  ref::Mon m(n, comps && r.p(60) ? r.in(0, comps - 1) : -1);
  for(int& e: m.e) e = r.p(40) ? 0 : r.in(0, 5);
  return mtext(m);
}
void genWrap(const std::string&, Rng& r, Scenario& s) {
  int n=r.p(15) ? r.in(6, 30) : r.in(1, 5), k=r.in(10, 70), comps=r.p(50) ? 0 : r.in(1, 3);
  s.set("n", n);
  auto T=[](long x) { return std::to_string(x); };
  for(int i=0; i < 2; i++) s.add("new", {markedMon(r, n, comps)});
  for(int i=0; i < k; i++) {
    int w=r.in(0, 99), a=r.in(0, 5), v=r.in(0, n - 1);
    if (w < 10) s.add("new", {markedMon(r, n, comps)});
    else if (w < 18) s.addn("copy", {a});
    else if (w < 34) s.addn("prolong", {a, v});
    else if (w < 46) s.add("update", {T(a), r.p(25) ? "same" : markedMon(r, n, comps)});
    else if (w < 64) s.addn("nm", {a, v});
    else if (w < 72) s.addn("nmd", {a, v});
    else if (w < 80) s.addn("built", {a, v});
    else if (w < 86) s.addn("clear", {a});
    else s.addn("destroy", {a});
  }
}
void runWrap(const Scenario& s) {
  int n=(int)std::max(1l, std::min(40l, s.num("n", 3)));
  std::vector<El> P;
  const long lv0=liveRequests();
  const size_t start=Allocator::currMemory();
  for(size_t q=0; q < s.steps.size(); q++) {
    const Step& st=s.steps[q];
    beginStep(st, (int)q);
    std::vector<bool> none(n, false);
    auto mon=[&](const ref::Mon& v, const std::function<void(const Monom&)>& f) {
      Allocator* al=sut([] { return new Allocator; });
      Monom* m=mkMon(al, v);
      { Sut g; f(*m); delete m; delete al; }
    };
    if (st.op == "new") {
      if (P.size() >= 6) continue;
      ref::Mon v=mparse(st.str(0), n);
      Wrap* w=nullptr;
      mon(v, [&](const Monom& m) { w = new Wrap(m); });
      P.push_back({w, v, v, none, none, none});
    }
    else if (P.empty()) continue;
    else {
      size_t j=(size_t)std::max(0l, st.num(0))%P.size();
      El& x=P[j];
      int v=(int)(std::max(0l, st.num(1))%n);
      if (st.op == "copy") {
        if (P.size() >= 6) continue;
        El y=x;
        y.w = sut([&] { return new Wrap(*x.w); });
        P.push_back(y);
      }
      else if (st.op == "prolong") {
        if (P.size() >= 6 || x.bd[v] || !(x.nm[v] || x.nmd[v])) continue;
        El y{nullptr, x.lm, x.an, none, none, none};
        y.lm.e[v]++;
        y.w = sut([&] { return new Wrap(v, (const Wrap*)x.w); });
        x.bd[v] = true;
        P.push_back(y);
      }
      else if (st.op == "update") {
        ref::Mon m=st.str(1) == "same" ? x.lm : mparse(st.str(1), n);
        mon(m, [&](const Monom& t) { x.w->update(t); });
        if (m != x.lm) { x.lm = x.an = m; x.nm = x.nmd = x.bd = none; }
      }
      else if (st.op == "nm") { { Sut g; x.w->setNM(v); } x.nm[v] = true; }
      else if (st.op == "nmd") { { Sut g; x.w->setNMd(v); } x.nmd[v] = true; }
      else if (st.op == "built") { { Sut g; x.w->setBuild(v); } x.bd[v] = true; }
      else if (st.op == "clear") { { Sut g; x.w->clearNM(); } x.nm = none; }
      else if (st.op == "destroy") {
        { Sut g; delete x.w; }
        P.erase(P.begin() + j);
      }
    }
    std::string o;
    for(size_t i=0; i < P.size(); i++) {
      El& x=P[i];
      std::string w=st.op + ": element " + std::to_string(i);
      if (toMon(x.w->lm()) != x.lm) fail("element", w + " is " + ref::str(toMon(x.w->lm())) + " instead of " + ref::str(x.lm));
      if (toMon(x.w->ansector()) != x.an) fail("element", w + " descends from " + ref::str(toMon(x.w->ansector())) + " instead of " + ref::str(x.an));
      int multi=0;
      for(int k=0; k < n; k++) {
        if (x.w->NM(k) != x.nm[k]) fail("element", w + ": non-multiplicative mark of variable " + std::to_string(k) + " is wrong");
        if (x.w->NMd(k) != x.nmd[k]) fail("element", w + ": second mark of variable " + std::to_string(k) + " is wrong");
        if (x.w->build(k) != x.bd[k]) fail("element", w + ": mark of the prolongation by variable " + std::to_string(k) + " is wrong");
        multi += !x.nm[k];
      }
      if (x.w->multi() != multi) fail("element", w + " counts " + std::to_string(x.w->multi()) + " multiplicative variables instead of " + std::to_string(multi));
      if (x.w->isGB() != (x.lm.deg() == x.an.deg())) fail("element", w + " is wrongly (not) its own ancestor");
      o += ref::str(x.lm) + (multi ? " " : "!");
      state(ref::str(x.lm) + ref::str(x.an) + std::to_string(multi));
    }
    obs(o);
  }
  for(auto& x: P) { Sut g; delete x.w; }
  if (on("P02")) {
    if (Allocator::currMemory() != start) fail("accounting", "current memory is " + std::to_string(Allocator::currMemory()) + " instead of " + std::to_string(start) + " after all elements are gone");
    if (liveRequests() != lv0) fail("leak", std::to_string(liveRequests() - lv0) + " system requests never returned");
  }
}
Reg r2("wrap", genWrap, runWrap);
// A forest of divisor trees, one for every degree of ancestor: lookup and marks against their definitions.
using GInv::GB;
void genForest(const std::string&, Rng& r, Scenario& s) {
  int n=r.p(12) ? r.in(5, 9) : r.in(1, 4), k=r.in(15, 90), big=r.p(30) ? r.in(12, 60) : 0;
  s.set("n", n);
  auto mon=[&](int far) {
    ref::Mon m(n, -1);
    for(int& e: m.e) e = r.p(40) ? 0 : r.in(0, 4);
    if (far && r.p(30)) m.e[(size_t)r.in(0, n - 1)] += r.in(0, far);
    return mtext(m);
  };
  for(int i=0; i < k; i++) {
    int w=r.in(0, 99);
    if (w < 30) s.add("new", {mon(big)});
    else if (w < 70) s.add("prolong", {std::to_string(r.in(0, 60)), std::to_string(r.in(0, n - 1))});
    else s.add("find", {mon(big), std::to_string(r.in(0, 60))});
  }
}
void runForest(const Scenario& s) {
  int n=(int)std::max(1l, std::min(12l, s.num("n", 3)));
  const long lv0=liveRequests();
  const size_t start=Allocator::currMemory();
  Allocator* A=sut([] { return new Allocator; });
  GB* f=sut([&] { return new GB(A); });
  std::vector<El> T;
  auto divides=[&](const El& u, const ref::Mon& m) {     // Janet division in the tree of u
    for(int v=0; v < n; v++) if (u.lm.e[v] > m.e[v] || (u.lm.e[v] < m.e[v] && u.nm[v])) return false;
    return true;
  };
  auto inTree=[&](int d, const ref::Mon& m) -> int {
    for(size_t i=0; i < T.size(); i++) if (T[i].an.deg() == d && divides(T[i], m)) return (int)i;
    return -1;
  };
  auto expect=[&](const ref::Mon& m) -> int {
    std::set<int> degs;
    for(auto& u: T) degs.insert(u.an.deg());
    for(int d: degs) {
      int i=inTree(d, m);
      if (i < 0) continue;
      bool ok=true;
      for(int v=0; v < n; v++) if (m.e[v] > T[i].lm.e[v] && T[i].nmd[v]) ok = false;
      if (ok) return i;
    }
    return -1;
  };
  auto lookup=[&](const ref::Mon& m, const std::string& op) -> int {
    Allocator* al=sut([] { return new Allocator; });
    Monom* x=mkMon(al, m);
    const Wrap* w=sut([&] { return f->find(*x); });
    { Sut g; delete x; delete al; }
    int want=expect(m), got=-1;
    for(size_t i=0; i < T.size(); i++) if (T[i].w == w) got = (int)i;
    if (w && got < 0) fail("forest", op + ": looking up " + ref::str(m) + " returned an element that is not in the forest");
    if (got != want)
      fail("forest", op + ": looking up " + ref::str(m) + " returned " + (got < 0 ? "nothing" : ref::str(T[got].lm)) + " instead of " + (want < 0 ? "nothing" : ref::str(T[want].lm)));
    return want;
  };
  for(size_t q=0; q < s.steps.size(); q++) {
    const Step& st=s.steps[q];
    beginStep(st, (int)q);
    std::vector<bool> none(n, false);
    if (st.op == "find") {
      ref::Mon m=mparse(st.str(0), n);
      m.pos = -1;
      if (!T.empty() && st.num(1) % 3 == 0) {            // a multiple of an element
        const ref::Mon& u=T[(size_t)st.num(1) % T.size()].lm;
        for(int v=0; v < n; v++) m.e[v] += u.e[v];
      }
      obs(std::to_string(lookup(m, "find")));
      continue;
    }
    El x{nullptr, ref::Mon(n, -1), ref::Mon(n, -1), none, none, none};
    if (st.op == "prolong") {
      if (T.empty() || T.size() >= 60) continue;
      El& p=T[(size_t)std::max(0l, st.num(0)) % T.size()];
      int v=(int)(std::max(0l, st.num(1)) % n), k=0;
      for(; k < n; k++, v = (v + 1) % n) if (!p.bd[v] && (p.nm[v] || p.nmd[v])) break;
      if (k == n) continue;
      x.lm = p.lm; x.an = p.an; x.lm.e[v]++;
      x.w = sut([&] { return new Wrap((Monom::Variable)v, (const Wrap*)p.w); });
      p.bd[v] = true;
    }
    else {
      if (T.size() >= 60) continue;
      ref::Mon m=mparse(st.str(0), n);
      m.pos = -1;
      if (m.deg() == 0) continue;
      x.lm = x.an = m;
      Allocator* al=sut([] { return new Allocator; });
      Monom* y=mkMon(al, m);
      x.w = sut([&] { return new Wrap(*y); });
      { Sut g; delete y; delete al; }
    }
    int d=x.an.deg(), c=inTree(d, x.lm);
    if (lookup(x.lm, "before insertion") >= 0 || c >= 0) { Sut g; delete x.w; obs("known"); continue; }
    { Sut g; f->insert(x.w); }
    for(auto& u: T) {
      int v=0;
      if (u.an.deg() < d) {                               // elements of earlier trees
        for(v=0; v < n && u.lm.e[v] <= x.lm.e[v]; v++);
        if (v < n) x.nmd[v] = true;
      }
      else if (u.an.deg() == d) {                         // Janet division inside the tree
        while(v < n && u.lm.e[v] == x.lm.e[v]) v++;
        if (v < n) { if (u.lm.e[v] > x.lm.e[v]) x.nm[v] = true; else u.nm[v] = true; }
      }
    }
    T.push_back(x);
    if ((size_t)f->size() != T.size()) fail("forest", "the forest counts " + std::to_string(f->size()) + " elements instead of " + std::to_string(T.size()));
    size_t inD=0;
    for(auto& u: T) {
      inD += u.an.deg() == d;
      std::string w="after inserting " + ref::str(x.lm) + ": element " + ref::str(u.lm);
      if (toMon(u.w->lm()) != u.lm || toMon(u.w->ansector()) != u.an) fail("forest", w + " has changed");
      for(int v=0; v < n; v++) {
        if (u.w->NM(v) != u.nm[v]) fail("forest", w + ": non-multiplicative mark of variable " + std::to_string(v) + " is wrong");
        if (u.w->NMd(v) != u.nmd[v]) fail("forest", w + ": mark of variable " + std::to_string(v) + " against the earlier trees is wrong");
      }
    }
    if ((*f)[d]->size() != inD) fail("forest", "the tree of degree " + std::to_string(d) + " counts " + std::to_string((*f)[d]->size()) + " elements instead of " + std::to_string(inD));
    state(ref::str(x.lm) + std::to_string(d) + "/" + std::to_string(T.size()));
    obs(ref::str(x.lm));
  }
  { Sut g; delete f; delete A; for(auto& u: T) delete u.w; }
  if (Allocator::currMemory() != start) fail("accounting", "current memory is " + std::to_string(Allocator::currMemory()) + " instead of " + std::to_string(start) + " after the forest is gone");
  if (liveRequests() != lv0) fail("leak", std::to_string(liveRequests() - lv0) + " system requests never returned");
}
Reg r3("forest", genForest, runForest);
}
}
