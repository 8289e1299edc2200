// Integers in several arenas against GMP, monomials against exponent vectors.
#include "core.h"
#include "sutil.h"
#include "util/integer.h"
#include "ginv/monom.h"

namespace sim {
using namespace GInv;
namespace {
uint64_t forced() { return S->faults[F_GC_FORCED]; }

template <class F> bool refusedCall(long nth, const char* what, F f) {
  armFailure(std::max(1l, nth));
  bool threw=false;
  long lv=liveRequests();
  size_t cur=Allocator::currMemory();
  try { Sut g; f(); }
  catch(const std::bad_alloc&) { threw = true; }
  bool was=failureFired();
  disarm();
  if (was) probe(3);
  if (was && !threw) fail("refusal-hidden", std::string(what) + ": memory was refused but nothing was reported");
  if (!was && threw) fail("false-refusal", std::string(what) + ": out of memory reported without a refusal");
  if (threw && Allocator::currMemory() != cur) fail("refusal-accounting", std::string(what) + ": current memory changed");
  if (threw && liveRequests() != lv) fail("refusal-leak", std::string(what) + ": " + std::to_string(liveRequests() - lv) + " system requests left outstanding");
  return threw;
}

// ------------------------------------------------------------------ integers
typedef GC<Integer> GI;
struct Obj { Integer* p; GI* g; int arena; mpz_class v; Integer& i() { return g ? *(Integer*)g : *p; } };

std::string bigText(Rng& r, int limbs) {
  if (limbs <= 0) return "0";
  std::string s="0x";
  int d=limbs*16 - r.in(0, 15), pat=r.in(0, 3);
  for(int i=0; i < d; i++) {
    int x=pat == 0 ? 15 : pat == 1 ? 0 : r.in(0, 15);
    if (i == 0 && x == 0) x = 1;
    s += "0123456789abcdef"[x];
  }
  return r.p(40) ? "-" + s : s;
}
int limbsOf(Rng& r, int most) { return r.p(10) ? 0 : r.p(40) ? 1 : r.p(60) ? r.in(1, 4) : r.in(1, most); }

void genInt(const std::string& prop, Rng& r, Scenario& s) {
  int n=r.in(12, 90), failing=prop == "P04", gconly=prop == "P05";
  int most=r.p(15) ? 300 : r.p(40) ? 40 : 8;
  s.set("gconly", gconly);
  s.set("cap", r.p(20) ? 1600 : 120);
  s.add("arena");
  for(int i=0; i < 3; i++) s.add(gconly || r.p(30) ? "newgc" : "new", {std::to_string(r.in(0, 2)), bigText(r, limbsOf(r, most))});
  static const char* ops[]={"add", "sub", "mult", "div", "gcd"};
  for(int i=0; i < n; i++) {
    int k=r.in(0, 99), a=r.in(0, 7), b=r.in(0, 7), c=r.in(0, 7);
    if (k < 2) s.add("arena");
    else if (k < 7) s.add("new", {std::to_string(r.in(0, 2)), bigText(r, limbsOf(r, most))});
    else if (k < 12) s.add("newgc", {std::to_string(r.in(0, 2)), bigText(r, limbsOf(r, most))});
    else if (k < 16) s.addn("set", {a, r.p(30) ? 0 : r.p(30) ? r.in(-1, 1) : (long)(r.next()), r.in(0, 1)});
    else if (k < 20) s.addn("copy", {a, r.in(0, 2), r.in(0, 2)});
    else if (k < 26) s.addn("assign", {a, b});
    else if (k < 29) s.addn("move", {a, b});
    else if (k < 32) s.addn("swap", {a, b});
    else if (k < 36) s.addn("neg", {a});
    else if (k < 58) {
      if (failing && r.p(60)) s.add("failop", {ops[r.in(0, 4)], std::to_string(a), std::to_string(b), "0", std::to_string(r.in(1, 2))});
      else s.add("op", {ops[r.in(0, 4)], std::to_string(a), std::to_string(b)});
    }
    else if (k < 76) s.add("op3", {ops[r.in(0, 4)], std::to_string(a), std::to_string(b), std::to_string(c)});
    else if (k < 79) s.addn("pow", {a, r.in(1, 5)});
    else if (k < 82) s.addn("destroy", {a});
    else if (k < 92) s.addn("text", {a, r.p(25) ? 2 : r.in(2, 62)});
    else if (failing && k < 96) s.addn("failcompact", {a, r.in(1, 4)});
    else s.addn("compact", {a});
  }
}
size_t limbs(const mpz_class& v) { return mpz_size(v.get_mpz_t()); }

void runInt(const Scenario& s) {
  std::vector<Allocator*> A;
  std::vector<Obj> P;
  bool gconly=s.num("gconly", 0);
  size_t cap=(size_t)s.num("cap", 120), start=Allocator::currMemory();
  long lv0=liveRequests();
  auto value=[&](Integer& i, int base) {
    const char* t;
    { Sut g; t = i.get_str(base); }
    mpz_class v;
    if (v.set_str(t, base)) fail("integer-text", "not a number in base " + std::to_string(base) + ": " + std::string(t).substr(0, 200));
    return v;
  };
  auto check=[&](const std::string& op) {
    for(size_t k=0; k < P.size(); k++) {
      Obj& x=P[k];
      mpz_class v=value(x.i(), 16);
      if (v != x.v) fail("integer-value", op + ": integer " + std::to_string(k) + " is " + v.get_str(16).substr(0, 300) + " instead of " + x.v.get_str(16).substr(0, 300) + " (hex)");
      if (x.i().sgn() != sgn(x.v) || x.i().isZero() != (x.v == 0) || x.i().isOne() != (x.v == 1) || x.i().isAbsOne() != (abs(x.v) == 1))
        fail("integer-query", op + ": sign or unit test of " + x.v.get_str(16).substr(0, 100) + " is wrong");
      if (x.i().norm() != (int)limbs(x.v)) fail("integer-query", op + ": norm " + std::to_string(x.i().norm()) + " of a number of " + std::to_string(limbs(x.v)) + " words");
      obs(op + " " + x.v.get_str(16));
      state("I" + std::to_string(limbs(x.v)) + (sgn(x.v) < 0 ? "-" : "+") + (x.g ? "g" : "p"));
    }
    if (limbsInArena && on("P02 P04"))
      for(size_t a=0; a < A.size(); a++) {
        size_t need=0, cnt=0;
        for(auto& x: P) if (x.arena == (int)a) { need += 8*limbs(x.v); cnt++; }
        if (A[a]->size() < need) fail("accounting", op + ": an arena reports " + std::to_string(A[a]->size()) + " bytes in use for " + std::to_string(need) + " bytes of limbs");
        if (!cnt && A[a]->size() != 0) fail("accounting", op + ": no integer left in an arena that reports " + std::to_string(A[a]->size()) + " bytes in use");
      }
  };
  auto apply=[&](const std::string& o, Integer& x, const Integer& y) {
    Sut g;
    if (o == "add") x.add(y); else if (o == "sub") x.sub(y); else if (o == "mult") x.mult(y);
    else if (o == "div") x.div(y); else x.gcd(y);
  };
  auto legal=[&](const std::string& o, const mpz_class& a, const mpz_class& b) {
    if (o == "div") return b != 0 && mpz_divisible_p(a.get_mpz_t(), b.get_mpz_t()) != 0;
    if (o == "gcd") return a != 0 && b != 0;
    if (o == "mult") return limbs(a) + limbs(b) <= cap;
    return true;
  };
  auto model=[&](const std::string& o, const mpz_class& a, const mpz_class& b) -> mpz_class {
    if (o == "add") return a + b;
    if (o == "sub") return a - b;
    if (o == "mult") return a*b;
    if (o == "div") return a/b;
    return gcd(a, b);
  };
  for(size_t n=0; n < s.steps.size(); n++) {
    const Step& st=s.steps[n];
    beginStep(st, (int)n);
    auto at=[&](size_t k) -> Obj& { return P[(size_t)std::max(0l, st.num(k))%P.size()]; };
    if (st.op == "arena") {
      if (A.size() < 3) A.push_back(sut([] { return new Allocator; }));
    }
    else if (st.op == "new" || st.op == "newgc") {
      if (P.size() >= 8 || A.empty()) continue;
      mpz_class v;
      if (v.set_str(st.str(1), 0)) continue;
      bool gc=st.op == "newgc" || gconly;
      std::string text=v == 0 ? "0" : hex(v);
      int a=(int)(st.num(0)%A.size());
      if (gc) {
        Integer* tmp=sut([&] { return new Integer(A[a], text.c_str()); });
        P.push_back({nullptr, sut([&] { return new GI(*tmp); }), -1, v});
        Sut g;
        delete tmp;
      }
      else P.push_back({sut([&] { return new Integer(A[a], text.c_str()); }), nullptr, a, v});
    }
    else if (!P.empty()) {
      if (st.op == "set") {
        Obj& x=at(0);
        if (st.num(2)) { unsigned long u=(unsigned long)st.num(1); { Sut g; x.i().set_ui(u); } x.v = mpz_class(u); }
        else { { Sut g; x.i().set_si(st.num(1)); } x.v = mpz_class(st.num(1)); }
      }
      else if (st.op == "copy") {
        if (P.size() >= 8) continue;
        Obj y{nullptr, nullptr, -1, at(0).v};
        Obj& x=at(0);
        if (gconly || st.num(2) == 2) y.g = sut([&] { return x.g ? new GI(*x.g) : new GI((const Integer&)*x.p); });
        else { y.arena = (int)(st.num(1)%A.size()); y.p = sut([&] { return new Integer(A[y.arena], x.i()); }); }
        P.push_back(y);
      }
      else if (st.op == "assign") {
        Obj &x=at(0), &y=at(1);
        if (&x == &y) continue;
        { Sut g; x.i() = (const Integer&)y.i(); }
        x.v = y.v;
      }
      else if (st.op == "move") {  // y is gone afterwards
        Obj &x=at(0), &y=at(1);
        if (&x == &y || x.g || y.g) continue;
        { Sut g; *x.p = std::move(*y.p); }
        x.v = y.v;
        x.arena = y.arena;
        { Sut g; delete y.p; }
        P.erase(P.begin() + (&y - &P[0]));
      }
      else if (st.op == "swap") {
        Obj &x=at(0), &y=at(1);
        if (&x == &y || !x.g != !y.g) continue;
        { Sut g; if (x.g) x.g->swap(*y.g); else x.p->swap(*y.p); }
        std::swap(x.v, y.v);
        std::swap(x.arena, y.arena);
      }
      else if (st.op == "neg") { Obj& x=at(0); { Sut g; x.i().set_neg(); } x.v = -x.v; }
      else if (st.op == "op" || st.op == "failop") {
        std::string o=st.str(0);
        Obj &x=at(1), &y=at(2);
        if (!legal(o, x.v, y.v)) {  // make it legal: multiply up, or fall back
          if (o == "div" && y.v != 0 && limbs(x.v) + limbs(y.v) <= cap && &x != &y) { apply("mult", x.i(), y.i()); x.v *= y.v; }
          else o = "add";
        }
        if (&x == &y && o == "div") o = "sub";
        if (st.op == "failop") {
          const Allocator* al=x.g ? nullptr : A[x.arena];
          void* filler=nullptr;
          size_t fsz=(size_t)simPage + 15;
          if (al) { Sut g; filler = const_cast<Allocator*>(al)->allocate(fsz); }
          size_t sz=x.g ? x.g->size() : al->size(), ac=x.g ? x.g->alloc() : al->alloc();
          bool threw=refusedCall(st.num(4), "an in-place operation", [&] { apply(o, x.i(), y.i()); });
          if (threw && ((x.g ? x.g->size() : al->size()) != sz || (x.g ? x.g->alloc() : al->alloc()) != ac))
            fail("refusal-accounting", "a refused " + o + " changed the arena: " + std::to_string(sz) + " -> " + std::to_string(x.g ? x.g->size() : al->size()) + " bytes used");
          if (al) { Sut g; const_cast<Allocator*>(al)->deallocate(filler, fsz); }
          if (threw) {
            check("refused " + o);
            apply(o, x.i(), y.i());
          }
        }
        else apply(o, x.i(), y.i());
        x.v = model(o, x.v, y.v);
      }
      else if (st.op == "op3") {
        std::string o=st.str(0);
        Obj &x=at(1), &y=at(2), &z=at(3);
        if (&x == &y || &x == &z) continue;
        if (!legal(o, y.v, z.v)) {
          if (o == "div" && z.v != 0 && limbs(y.v) + limbs(z.v) <= cap && &y != &z) { apply("mult", y.i(), z.i()); y.v *= z.v; }
          else o = "sub";
        }
        {
          Sut g;
          if (o == "add") x.i().add(y.i(), z.i()); else if (o == "sub") x.i().sub(y.i(), z.i());
          else if (o == "mult") x.i().mult(y.i(), z.i()); else if (o == "div") x.i().div(y.i(), z.i());
          else x.i().gcd(y.i(), z.i());
        }
        x.v = model(o, y.v, z.v);
        if (z.v != 0 && y.i().divisible(z.i()) != (mpz_divisible_p(y.v.get_mpz_t(), z.v.get_mpz_t()) != 0))
          fail("integer-query", "divisibility test is wrong");
      }
      else if (st.op == "pow") {
        Obj& x=at(0);
        for(long k=0; k < st.num(1) && 2*limbs(x.v) <= cap; k++) { { Sut g; x.i().mult(x.i()); } x.v = x.v*x.v; }
      }
      else if (st.op == "text") {
        Obj& x=at(0);
        int base=(int)std::min(62l, std::max(2l, st.num(1)));
        const char* t;
        { Sut g; t = x.i().get_str(base); }
        std::string got(t), want=x.v.get_str(base);
        if (got.size() > 65536) probe(8);
        if (got != want) fail("integer-text", "base " + std::to_string(base) + ": " + got.substr(0, 200) + " instead of " + want.substr(0, 200));
        obs("text", got);
        // and back, where the constructor can read it
        std::string pre=base == 2 ? "0b" : base == 8 ? "0" : base == 10 ? "" : base == 16 ? "0x" : "?";
        if (pre != "?" && x.v != 0) {
          std::string lit=got[0] == '-' ? "-" + pre + got.substr(1) : pre + got;
          Integer* y=sut([&] { return new Integer(A[0], lit.c_str()); });
          mpz_class v=value(*y, 16);
          { Sut g; delete y; }
          if (v != x.v) fail("integer-text", "text in base " + std::to_string(base) + " does not read back");
        }
      }
      else if (st.op == "destroy") {
        Obj& x=at(0);
        { Sut g; delete x.p; delete x.g; }
        P.erase(P.begin() + (&x - &P[0]));
      }
      else if (st.op == "compact") {
        Obj& x=at(0);
        if (!x.g) continue;
        uint64_t f=forced();
        { Sut g; x.g->reallocate(); }
        if (forced() > f) {
          probe(4);
          if (on("P05 P02") && (x.g->size() > 8*limbs(x.v) + 32 || x.g->alloc() > x.g->size() + 2*(size_t)simPage + 128))
            fail("compaction-keeps-memory", "after a compaction a number of " + std::to_string(limbs(x.v)) + " words takes " + std::to_string(x.g->size()) + " bytes of " + std::to_string(x.g->alloc()));
        }
      }
      else if (st.op == "failcompact") {
        Obj& x=at(0);
        if (!x.g) continue;
        size_t sz=x.g->size(), ac=x.g->alloc();
        int mode=env.gcMode;
        env.gcMode = 1;
        bool threw=refusedCall(st.num(1), "compaction of an integer", [&] { x.g->reallocate(); });
        if (threw) {
          probe(2);
          if (x.g->size() != sz || x.g->alloc() != ac) fail("refusal-accounting", "a refused compaction changed the object's memory");
          check("refused compaction");
          Sut g;
          x.g->reallocate();
        }
        env.gcMode = mode;
      }
    }
    check(st.op);
  }
  for(auto& x: P) { Sut g; delete x.p; delete x.g; }
  for(auto a: A) {
    if (on("P02 P04") && a->size() != 0) fail("accounting", "all integers gone but an arena reports " + std::to_string(a->size()) + " bytes in use");
    Sut g;
    delete a;
  }
  if (on("P02 P04")) {
    if (Allocator::currMemory() != start) fail("accounting", "current memory is not back where it started");
    // the shared text buffer may have been replaced by a larger one
    if (liveRequests() > lv0 + 1) fail("leak", std::to_string(liveRequests() - lv0) + " system requests never returned");
    if (!errText.empty()) fail("accounting", "diagnostic: " + errText);
  }
}
Reg r1("int", genInt, runInt);

// ------------------------------------------------------------------ monomials
typedef GC<Monom> GM;
struct Mo { Monom* p; GM* g; int arena; ref::Mon v; Monom& m() { return g ? *(Monom*)g : *p; } };
std::string monText(Rng& r, int n, int comps, int big) {
  std::string s=std::to_string(comps && r.p(60) ? r.in(0, comps - 1) : -1) + ":";
  for(int i=0; i < n; i++) s += (i ? "," : "") + std::to_string(r.p(35) ? 0 : r.p(95) ? r.in(0, 4) : r.in(0, big));
  return s;
}
void genMonom(const std::string& prop, Rng& r, Scenario& s) {
  int n=r.p(15) ? r.in(6, 30) : r.in(1, 5), k=r.in(12, 80), failing=prop == "P04", gconly=prop == "P05";
  int comps=r.p(50) ? 0 : r.in(1, 4), big=r.p(20) ? 1000 : r.p(12) ? 1000000 : 6;
  s.set("n", n);
  s.set("gconly", gconly);
  s.add("arena");
  for(int i=0; i < 3; i++) s.add(gconly || r.p(30) ? "newgc" : "new", {std::to_string(r.in(0, 2)), monText(r, n, comps, big)});
  for(int i=0; i < k; i++) {
    int q=r.in(0, 99), a=r.in(0, 7), b=r.in(0, 7), c=r.in(0, 7);
    if (q < 2) s.add("arena");
    else if (q < 8) s.add("new", {std::to_string(r.in(0, 2)), monText(r, n, comps, big)});
    else if (q < 12) s.add("newgc", {std::to_string(r.in(0, 2)), monText(r, n, comps, big)});
    else if (q < 18) s.addn("copy", {a, r.in(0, 2), r.in(0, 2)});
    else if (q < 25) s.addn("assign", {a, b});
    else if (q < 29) s.addn("move", {a, b});
    else if (q < 34) s.addn("swap", {a, b});
    else if (q < 42) s.addn("mult", {a, b});
    else if (q < 49) s.addn("multvar", {a, b, r.in(0, n - 1)});
    else if (q < 57) s.addn("div", {a, b});
    else if (q < 63) s.addn("product", {a, b, r.in(0, 2)});
    else if (q < 68) s.addn("prolong", {a, r.in(0, n - 1), r.in(0, 2)});
    else if (q < 72) s.addn("power", {a, r.in(0, 4), r.in(0, 2)});
    else if (q < 76) s.addn("setpos", {a, r.in(-1, std::max(0, comps))});
    else if (q < 84) s.addn("compare", {a, b, c});
    else if (q < 87) s.addn("destroy", {a});
    else if (failing && q < 96) s.addn("failcompact", {a, r.in(1, 4)});
    else s.addn("compact", {a});
  }
}
void runMonom(const Scenario& s) {
  std::vector<Allocator*> A;
  std::vector<Mo> P;
  int n=(int)std::max(1l, std::min(40l, s.num("n", 3)));
  bool gconly=s.num("gconly", 0);
  size_t start=Allocator::currMemory();
  long lv0=liveRequests();
  auto check=[&](const std::string& op) {
    for(size_t k=0; k < P.size(); k++) {
      Mo& x=P[k];
      ref::Mon v=toMon(x.m());
      if (v != x.v) fail("monomial-value", op + ": monomial " + std::to_string(k) + " is " + ref::str(v) + " instead of " + ref::str(x.v));
      if (x.m().degree() != x.v.deg()) fail("monomial-degree", op + ": degree " + std::to_string(x.m().degree()) + " of " + ref::str(x.v));
      if ((bool)x.m() != (x.v.deg() > 0) || x.m().isZero() != (x.v.deg() == 0)) fail("monomial-degree", op + ": degree-zero test of " + ref::str(x.v) + " is wrong");
      obs(op + " " + ref::str(v));
      state(ref::str(v));
    }
    if (on("P02 P04"))
      for(size_t a=0; a < A.size(); a++) {
        size_t cnt=0;
        for(auto& x: P) if (x.arena == (int)a) cnt++;
        if (A[a]->size() < cnt*n*sizeof(int)) fail("accounting", op + ": fewer bytes in use than exponents stored");
        if (!cnt && A[a]->size() != 0) fail("accounting", op + ": no monomial left in an arena that reports " + std::to_string(A[a]->size()) + " bytes in use");
      }
  };
  auto compare=[&](const ref::Mon& a, Monom& x, const ref::Mon& b, Monom& y) {
    auto sg=[](int k) { return k > 0 ? 1 : k < 0 ? -1 : 0; };
    int l, d, al;
    bool eq, dv, ne;
    { Sut g; l = x.lex(y); d = x.deglex(y); al = x.alex(y); eq = x == y; ne = x != y; dv = x.divisiable(y); }
    std::string w=ref::str(a) + " and " + ref::str(b);
    if (sg(l) != ref::cmpExp(ref::LEX, a.e, b.e)) fail("monomial-order", "lex of " + w + " gives " + std::to_string(l));
    if (sg(d) != ref::cmpExp(ref::DEGLEX, a.e, b.e)) fail("monomial-order", "deglex of " + w + " gives " + std::to_string(d));
    if (sg(al) != ref::cmpExp(ref::ALEX, a.e, b.e)) fail("monomial-order", "alex of " + w + " gives " + std::to_string(al));
    if (eq != (a == b) || ne == eq) fail("monomial-order", "equality of " + w + " is wrong");
    if (dv != ref::divides(b, a)) fail("monomial-divides", "divisibility of " + w + " gives " + std::to_string(dv));
    if (a.pos == -1 || b.pos == -1) {
      int gc, lc;
      { Sut g; gc = x.gcd(y); lc = x.lcm(y); }
      int eg=0, el=0;
      for(int i=0; i < n; i++) { eg += std::min(a.e[i], b.e[i]); el += std::max(a.e[i], b.e[i]); }
      if (gc != eg) fail("monomial-gcd", "degree of the gcd of " + w + " given as " + std::to_string(gc));
      if (lc != el) fail("monomial-gcd", "degree of the lcm of " + w + " given as " + std::to_string(lc));
    }
  };
  auto small=[](const ref::Mon& a) { return a.deg() < 100000000; };
  for(size_t k=0; k < s.steps.size(); k++) {
    const Step& st=s.steps[k];
    beginStep(st, (int)k);
    auto at=[&](size_t q) -> Mo& { return P[(size_t)std::max(0l, st.num(q))%P.size()]; };
    auto keep=[&](std::function<Monom*(Allocator*)> f, const ref::Mon& v, long where) {
      if (P.size() >= 8) return;
      int a=(int)(std::max(0l, where)%A.size());
      if (gconly) {
        Monom* t=sut([&] { return f(A[a]); });
        P.push_back({nullptr, sut([&] { return new GM((const Monom&)*t); }), -1, v});
        Sut g;
        delete t;
      }
      else P.push_back({sut([&] { return f(A[a]); }), nullptr, a, v});
    };
    if (st.op == "arena") {
      if (A.size() < 3) A.push_back(sut([] { return new Allocator; }));
    }
    else if (A.empty()) continue;
    else if (st.op == "new" || st.op == "newgc") {
      if (P.size() >= 8) continue;
      ref::Mon v=mparse(st.str(1), n);
      if (v.pos < -1) v.pos = -1;
      int a=(int)(st.num(0)%A.size());
      if (st.op == "newgc" || gconly) {
        Monom* t=mkMon(A[a], v);
        P.push_back({nullptr, sut([&] { return new GM((const Monom&)*t); }), -1, v});
        Sut g;
        delete t;
      }
      else P.push_back({mkMon(A[a], v), nullptr, a, v});
    }
    else if (!P.empty()) {
      if (st.op == "copy") {
        Mo& x=at(0);
        if (P.size() >= 8) continue;
        if (st.num(2) == 2 || gconly) { Mo y{nullptr, sut([&] { return x.g ? new GM(*x.g) : new GM((const Monom&)*x.p); }), -1, x.v}; P.push_back(y); }
        else { ref::Mon v=x.v; Monom* src=&x.m(); keep([src](Allocator* al) { return new Monom(al, *src); }, v, st.num(1)); }
      }
      else if (st.op == "assign") {
        Mo &x=at(0), &y=at(1);
        if (&x == &y) continue;
        { Sut g; if (x.g) (Monom&)*x.g = (const Monom&)y.m(); else *x.p = (const Monom&)y.m(); }
        x.v = y.v;
      }
      else if (st.op == "move") {
        Mo &x=at(0), &y=at(1);
        if (&x == &y || x.g || y.g) continue;
        { Sut g; *x.p = std::move(*y.p); delete y.p; }
        x.v = y.v;
        x.arena = y.arena;
        P.erase(P.begin() + (&y - &P[0]));
      }
      else if (st.op == "swap") {
        Mo &x=at(0), &y=at(1);
        if (&x == &y || !x.g != !y.g) continue;
        { Sut g; if (x.g) x.g->swap(*y.g); else x.p->swap(*y.p); }
        std::swap(x.v, y.v);
        std::swap(x.arena, y.arena);
      }
      else if (st.op == "mult") {
        Mo &x=at(0), &y=at(1);
        if (&x == &y || (x.v.pos != -1 && y.v.pos != -1) || !small(x.v)) continue;
        { Sut g; x.m().mult(y.m()); }
        x.v = ref::mulm(x.v, y.v);
      }
      else if (st.op == "multvar") {
        Mo &x=at(0), &y=at(1);
        if (&x == &y) continue;
        int v=(int)(std::max(0l, st.num(2))%n);
        { Sut g; x.m().mult(v, y.m()); }
        x.v = y.v;
        x.v.e[v]++;
      }
      else if (st.op == "div") {
        Mo &x=at(0), &y=at(1);
        if (&x == &y || !ref::divides(y.v, x.v)) continue;
        { Sut g; x.m().div(y.m()); }
        x.v = ref::quo(x.v, y.v);
      }
      else if (st.op == "product") {
        Mo &x=at(0), &y=at(1);
        if ((x.v.pos != -1 && y.v.pos != -1) || !small(x.v) || !small(y.v)) continue;
        Monom *a=&x.m(), *b=&y.m();
        keep([a, b](Allocator* al) { return new Monom(al, *a, *b); }, ref::mulm(x.v, y.v), st.num(2));
      }
      else if (st.op == "prolong") {
        Mo& x=at(0);
        int v=(int)(std::max(0l, st.num(1))%n);
        ref::Mon m(x.v);
        m.e[v]++;
        Monom* a=&x.m();
        keep([a, v](Allocator* al) { return new Monom(al, v, *a); }, m, st.num(2));
      }
      else if (st.op == "power") {
        Mo& x=at(0);
        int e=(int)std::max(0l, std::min(6l, st.num(1)));
        if (!small(x.v)) continue;
        ref::Mon m(x.v);
        for(int& q: m.e) q *= e;
        Monom* a=&x.m();
        keep([a, e](Allocator* al) { return new Monom(al, *a, e); }, m, st.num(2));
      }
      else if (st.op == "setpos") {
        Mo& x=at(0);
        int p=(int)std::max(-1l, std::min(9l, st.num(1)));
        { Sut g; x.m().setPos(p); }
        x.v.pos = p;
      }
      else if (st.op == "compare") {
        Mo &x=at(0), &y=at(1), &z=at(2);
        compare(x.v, x.m(), y.v, y.m());
        // comparing with a product, without and with making the product
        auto sg=[](int q) { return q > 0 ? 1 : q < 0 ? -1 : 0; };
        int l, d, al;
        int zp=y.v.pos >= 0 ? z.v.pos : -1;          // two vector monomials have no product
        if (zp >= 0) { Sut g; z.m().setPos(-1); }
        { Sut g; l = x.m().lex(y.m(), z.m()); d = x.m().deglex(y.m(), z.m()); al = x.m().alex(y.m(), z.m()); }
        if (zp >= 0) { Sut g; z.m().setPos(zp); }
        std::vector<int> yz(n);
        for(int i=0; i < n; i++) yz[i] = y.v.e[i] + z.v.e[i];
        std::string w=ref::str(x.v) + " with " + ref::str(y.v) + "*" + ref::str(z.v);
        if (sg(l) != ref::cmpExp(ref::LEX, x.v.e, yz)) fail("monomial-order", "lex of " + w + " gives " + std::to_string(l));
        if (sg(d) != ref::cmpExp(ref::DEGLEX, x.v.e, yz)) fail("monomial-order", "deglex of " + w + " gives " + std::to_string(d));
        if (sg(al) != ref::cmpExp(ref::ALEX, x.v.e, yz)) fail("monomial-order", "alex of " + w + " gives " + std::to_string(al));
      }
      else if (st.op == "destroy") {
        Mo& x=at(0);
        { Sut g; delete x.p; delete x.g; }
        P.erase(P.begin() + (&x - &P[0]));
      }
      else if (st.op == "compact") {
        Mo& x=at(0);
        if (!x.g) continue;
        uint64_t f=forced();
        { Sut g; x.g->reallocate(); }
        if (forced() > f) {
          probe(4);
          if (on("P05 P02") && (x.g->GM::size() > n*sizeof(int) + 64 || x.g->alloc() > 2*(size_t)simPage + 1024))
            fail("compaction-keeps-memory", "after a compaction a monomial takes " + std::to_string(x.g->GM::size()) + " bytes of " + std::to_string(x.g->alloc()));
        }
      }
      else if (st.op == "failcompact") {
        Mo& x=at(0);
        if (!x.g) continue;
        size_t sz=x.g->GM::size(), ac=x.g->alloc();
        int mode=env.gcMode;
        env.gcMode = 1;
        bool threw=refusedCall(st.num(1), "compaction of a monomial", [&] { x.g->reallocate(); });
        if (threw) {
          probe(2);
          if (x.g->GM::size() != sz || x.g->alloc() != ac) fail("refusal-accounting", "a refused compaction changed the object's memory");
          check("refused compaction");
          Sut g;
          x.g->reallocate();
        }
        env.gcMode = mode;
      }
    }
    check(st.op);
  }
  for(auto& x: P) { Sut g; delete x.p; delete x.g; }
  for(auto a: A) {
    if (on("P02 P04") && a->size() != 0) fail("accounting", "all monomials gone but an arena reports " + std::to_string(a->size()) + " bytes in use");
    Sut g;
    delete a;
  }
  if (on("P02 P04")) {
    if (Allocator::currMemory() != start) fail("accounting", "current memory is not back where it started");
    if (liveRequests() != lv0) fail("leak", std::to_string(liveRequests() - lv0) + " system requests never returned");
    if (!errText.empty()) fail("accounting", "diagnostic: " + errText);
  }
}
Reg r2("monom", genMonom, runMonom);
}
}
