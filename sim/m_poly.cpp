// Pools of polynomials (several sessions, arenas, compacting owners) against exact polynomial arithmetic,
// and reduction by sets of divisors against division by definition.
#include <algorithm>
#include "core.h"
#include "sutil.h"
#include "ginv/janet.h"

namespace sim {
using namespace GInv;
namespace {
uint64_t forced() { return S->faults[F_GC_FORCED]; }
const int ORD[6]={0x11, 0x12, 0x14, 0x21, 0x22, 0x24};
struct Peek: GCPolyInt { static const Allocator* of(GCPolyInt& g) { return static_cast<Peek&>(g).allocator(); } };

struct PO { PolyInt* p; GCPolyInt* g; int arena; ref::Poly v; PolyInt& i() { return g ? *(PolyInt*)g : *p; } const PolyInt& c() { return i(); } };
struct Session { std::vector<Allocator*> A; std::vector<PO> P; };

bool ringOnly(const ref::Poly& p) { for(auto& t: p.t) if (t.m.pos != -1) return false; return true; }
size_t bits(const ref::Poly& p) { size_t b=0; for(auto& t: p.t) b = std::max(b, mpz_sizeinbase(t.c.get_mpz_t(), 2)); return b; }
int maxExp(const ref::Poly& p) { int b=0; for(auto& t: p.t) for(int e: t.m.e) b = std::max(b, e); return b; }
size_t limbsOf(const ref::Poly& p) { size_t b=0; for(auto& t: p.t) b += mpz_size(t.c.get_mpz_t()); return b; }
ref::Poly constant(int ord, int n, const mpz_class& c) {
  ref::Poly p(ord);
  if (c != 0) p.t.push_back({ref::Mon(n, -1), c});
  return p;
}
// everything a caller can ask a polynomial
void queries(PolyInt& p, const ref::Poly& v, const std::string& op) {
  int len, mp, nm;
  bool z, b, pp=false;
  { Sut g; len = p.length(); mp = p.maxPos(); nm = p.norm(); z = p.isZero(); b = (bool)p; }
  int emp=-1;
  for(auto& t: v.t) emp = std::max(emp, t.m.pos);
  if (len != (int)v.t.size()) fail("poly-query", op + ": length " + std::to_string(len) + " of " + ref::str(v));
  if (mp != emp) fail("poly-query", op + ": largest component " + std::to_string(mp) + " of " + ref::str(v));
  if (nm != (int)limbsOf(v)) fail("poly-query", op + ": norm " + std::to_string(nm) + " of " + ref::str(v));
  if (z != v.zero() || b == z) fail("poly-query", op + ": zero test of " + ref::str(v));
  if (!v.zero()) {
    ref::Mon lm=toMon(p.lm());
    if (lm != v.lm() || toInt(p.lc()) != v.lc() || p.degree() != v.lm().deg()) fail("poly-query", op + ": leading term of " + ref::str(v) + " given as " + ref::str(lm));
  }
  { Sut g; pp = p.isPp(); }
  mpz_class c=v.content();
  if (on("P09 P10") && pp != (c == 1 || c == 0)) fail("poly-query", op + ": primitivity of " + ref::str(v) + " given as " + std::to_string(pp));
}

// ------------------------------------------------------------------ arithmetic
void gen(const std::string& prop, Rng& r, Scenario& s) {
  int n=r.p(10) ? r.in(5, 12) : r.in(1, 4), comps=r.p(45) ? r.in(1, 3) : 0, k=r.in(12, 70), failing=prop == "P04", gconly=prop == "P05";
  int ord=ORD[r.in(0, 5)], sess=prop == "P19" ? r.in(2, 3) : 1, coef=r.p(50) ? 9 : 1000000, terms=r.p(20) ? 12 : 5, deg=r.p(20) ? 12 : 4;
  s.set("n", n);
  s.set("ord", ord);
  s.set("gconly", gconly);
  auto T=[](long x) { return std::to_string(x); };
  auto poly=[&]() {
    if (r.p(4)) return std::string("0");
    bool ring=r.p(60);
    return ptext(randomPoly(r, ord, n, r.p(35) ? 1 : terms, deg, ring ? 0 : comps, coef, true));
  };
  auto konst=[&]() {
    mpz_class c=r.p(12) ? 0 : r.p(70) ? r.in(1, 20) : r.in(1, 2000000000);
    if (r.p(10)) mpz_mul_2exp(c.get_mpz_t(), c.get_mpz_t(), r.in(1, 200));
    if (r.p(50)) c = -c;
    return hex(c);
  };
  for(int q=0; q < sess; q++) {
    s.addn("arena", {q});
    for(int i=0; i < 3; i++) s.add(gconly || r.p(35) ? "newgc" : "new", {T(q), T(r.in(0, 2)), poly()});
  }
  if (prop == "P03") s.addn("limit", {0, 0});
  for(int i=0; i < k; i++) {
    int w=r.in(0, 99), a=r.in(0, 6), b=r.in(0, 6), q=r.in(0, sess - 1);
    if (prop == "P03" && r.p(10)) {
      long page=s.num("page", 4096);
      s.addn("limit", {0, r.p(15) ? 0 : page*(1 + (1 << r.in(0, 5))*r.in(1, 4)/2) + r.in(-1, 1)});
    }
    if (w < 2) s.addn("arena", {q});
    else if (w < 8) s.add("new", {T(q), T(r.in(0, 2)), poly()});
    else if (w < 13) s.add("newgc", {T(q), T(r.in(0, 2)), poly()});
    else if (w < 15) s.add("newint", {T(q), T(r.in(0, 2)), konst()});
    else if (w < 18) s.addn("prolong", {q, a, r.in(0, n - 1), r.in(0, 2)});
    else if (w < 29) s.addn("add", {q, a, b});
    else if (w < 40) s.addn("sub", {q, a, b});
    else if (w < 51) s.addn("mult", {q, a, b});
    else if (w < 54) s.add("addc", {T(q), T(a), konst()});
    else if (w < 57) s.add("subc", {T(q), T(a), konst()});
    else if (w < 61) s.add("multc", {T(q), T(a), konst()});
    else if (w < 64) s.addn("pow", {q, a, r.in(0, 4)});
    else if (w < 67) s.addn("minus", {q, a});
    else if (w < 70) s.addn("expr", {q, a, b, r.in(0, 4), r.in(0, 2)});
    else if (w < 74) s.addn("copy", {q, a, r.in(0, 2), r.in(0, 2)});
    else if (w < 78) s.addn("assign", {q, a, b});
    else if (w < 80) s.addn("move", {q, a, b});
    else if (w < 81) {
      int fo=ORD[r.in(0, 5)], fn=r.in(1, 5);
      s.add("foreign", {T(q), T(a), T(r.in(0, 2)), T(fo), T(fn), T(r.in(0, 3)), ptext(randomPoly(r, fo, fn, r.in(1, 4), deg, comps, coef, true))});
    }
    else if (w < 84) s.addn("swap", {q, a, b});
    else if (w < 86) s.addn("pp", {q, a});
    else if (w < 90) s.addn("destroy", {q, a});
    else if (failing) s.addn("failcompact", {q, a, r.in(1, 6)});
    else s.addn("compact", {q, a});
  }
}

void run(const Scenario& s) {
  int n=(int)std::max(1l, std::min(12l, s.num("n", 2))), ord=(int)s.num("ord", 0x12);
  bool gconly=s.num("gconly", 0), ignore=s.num("ignore_limit", 0);
  std::map<int, Session> SS;
  size_t start=Allocator::currMemory();
  long lv0=liveRequests();
  size_t limit=0;
  uint64_t nb=newBlocks;
  auto check=[&](Session& x, const std::string& op, bool all) {
    for(size_t k=0; k < x.P.size(); k++) {
      PO& o=x.P[k];
      ref::Poly v=toPoly(o.c());
      std::string why;
      if (!canonicalForm(v, why)) fail("poly-form", op + ": polynomial " + std::to_string(k) + ": " + why);
      if (v != o.v) fail("poly-value", op + ": polynomial " + std::to_string(k) + " is\n  " + ref::str(v) + "\n  instead of\n  " + ref::str(o.v));
      if (o.c().order() != ord || o.c().size() != n) fail("poly-query", op + ": order or number of variables changed");
      queries(o.i(), o.v, op);
      if (all) obs(op + " " + ref::str(v));
      state("P" + std::to_string(v.t.size()) + ":" + std::to_string(bits(v)/64) + (o.g ? "g" : "l") + op);
    }
    if (on("P02"))
      for(size_t a=0; a < x.A.size(); a++) {
        size_t terms=0;
        for(auto& o: x.P) if (!o.g && o.arena == (int)a) terms += o.v.t.size();
        if (!terms && x.A[a]->size() != 0) fail("accounting", op + ": only zero polynomials in an arena that reports " + std::to_string(x.A[a]->size()) + " bytes in use");
        if (x.A[a]->size() < terms*sizeof(int)*n) fail("accounting", op + ": fewer bytes in use than terms stored");
      }
  };
  auto room=[](const ref::Poly& p) { return p.t.size() <= 70 && bits(p) < 4000 && maxExp(p) < 200; };
  for(size_t k=0; k < s.steps.size(); k++) {
    const Step& st=s.steps[k];
    beginStep(st, (int)k);
    obsTag = (int)st.num(0);
    Session& x=SS[obsTag];
    auto pick=[&](size_t q) -> PO& { return x.P[(size_t)std::max(0l, st.num(q))%x.P.size()]; };
    auto place=[&](std::function<PolyInt*(Allocator*)> f, const ref::Poly& v, long where) {
      if (x.P.size() >= 7 || x.A.empty()) return;
      int a=(int)(std::max(0l, where)%x.A.size());
      if (gconly) {
        PolyInt* t=sut([&] { return f(x.A[a]); });
        x.P.push_back({nullptr, sut([&] { return new GCPolyInt((const PolyInt&)*t); }), -1, v});
        Sut g;
        delete t;
      }
      else x.P.push_back({sut([&] { return f(x.A[a]); }), nullptr, a, v});
    };
    if (st.op == "limit") {
      limit = (size_t)std::max(0l, st.num(1));
      if (!ignore) Allocator::setLimitMemory(limit);
    }
    else if (st.op == "arena") {
      if (x.A.size() < 3) x.A.push_back(sut([] { return new Allocator; }));
    }
    else if (x.A.empty()) continue;
    else if (st.op == "new" || st.op == "newgc") {
      if (x.P.size() >= 7) continue;
      ref::Poly v=pparse(st.str(2), ord, n);
      if (!room(v)) continue;
      int a=(int)(std::max(0l, st.num(1))%x.A.size());
      PolyInt* t=sut([&] { return new PolyInt(x.A[a], ord, n); });
      fillPoly(*t, v);
      if (st.op == "newgc" || gconly) {
        x.P.push_back({nullptr, sut([&] { return new GCPolyInt((const PolyInt&)*t); }), -1, v});
        Sut g;
        delete t;
      }
      else x.P.push_back({t, nullptr, a, v});
    }
    else if (st.op == "newint") {
      std::string h=st.str(2);
      mpz_class c;
      if (c.set_str(h, 0) || c == 0) continue;
      place([&](Allocator* al) { return new PolyInt(al, ord, n, h.c_str()); }, constant(ord, n, c), st.num(1));
    }
    else if (!x.P.empty()) {
      PO& o=pick(1);
      if (st.op == "prolong") {
        int v=(int)(std::max(0l, st.num(2))%n);
        ref::Mon m(n, -1);
        m.e[v] = 1;
        ref::Poly e=ref::mulmon(o.v, m, 1);
        const PolyInt* a=&o.c();
        if (st.num(3) == 2 && x.P.size() < 7) x.P.push_back({nullptr, sut([&] { return new GCPolyInt(v, *a); }), -1, e});
        else place([a, v](Allocator* al) { return new PolyInt(al, v, *a); }, e, st.num(3));
      }
      else if (st.op == "add" || st.op == "sub" || st.op == "mult" || st.op == "expr") {
        PO& b=pick(2);
        if (&o == &b) continue;
        std::string op=st.op;
        if (op == "expr") { static const char* names[]={"add", "sub", "mult", "minus", "add"}; op = names[std::max(0l, st.num(3))%5]; }
        if (op == "mult" && ((!ringOnly(o.v) && !ringOnly(b.v)) || o.v.t.size()*b.v.t.size() > 300)) continue;
        ref::Poly e=op == "add" ? ref::add(o.v, b.v) : op == "sub" ? ref::sub(o.v, b.v) : op == "mult" ? ref::mul(o.v, b.v) : ref::scale(o.v, -1);
        if (!room(e)) continue;
        if (st.op == "expr") {
          const PolyInt *u=&o.c(), *w=&b.c();
          place([u, w, op](Allocator* al) {
            PolyInt t(al, *u);
            return op == "add" ? new PolyInt(std::move(t) + *w) : op == "sub" ? new PolyInt(std::move(t) - *w)
                 : op == "mult" ? new PolyInt(std::move(t) * *w) : new PolyInt(-std::move(t));
          }, e, st.num(4));
        }
        else {
          { Sut g; if (op == "add") o.i().add(b.c()); else if (op == "sub") o.i().sub(b.c()); else o.i().mult(b.c()); }
          o.v = e;
        }
      }
      else if (st.op == "addc" || st.op == "subc" || st.op == "multc") {
        std::string h=st.str(2);
        mpz_class c;
        if (c.set_str(h, 0)) continue;
        ref::Poly e=st.op == "multc" ? ref::scale(o.v, c) : ref::add(o.v, constant(ord, n, st.op == "addc" ? c : mpz_class(-c)));
        if (!room(e)) continue;
        { Sut g; if (st.op == "addc") o.i().add(h.c_str()); else if (st.op == "subc") o.i().sub(h.c_str()); else o.i().mult(h.c_str()); }
        o.v = e;
      }
      else if (st.op == "pow") {
        int d=(int)std::max(0l, std::min(4l, st.num(2)));
        if (!ringOnly(o.v) || o.v.t.size() > 6 || (o.v.t.size() > 3 && d > 3)) continue;
        ref::Poly e=constant(ord, n, 1);
        for(int q=0; q < d; q++) e = ref::mul(e, o.v);
        if (!room(e)) continue;
        { Sut g; o.i().pow(d); }
        o.v = e;
      }
      else if (st.op == "minus") {
        { Sut g; o.i().minus(); }
        o.v = ref::scale(o.v, -1);
      }
      else if (st.op == "pp") {
        { Sut g; o.i().pp(); }
        ref::Poly v=toPoly(o.c());
        mpz_class c=o.v.content();
        ref::Poly e(o.v);
        if (!e.zero()) {
          e.primitive(false);
          if (!v.zero() && sgn(v.lc()) != sgn(e.lc())) e = ref::scale(e, -1);
        }
        o.v = e;
      }
      else if (st.op == "copy") {
        const PolyInt* u=&o.c();
        ref::Poly v=o.v;
        if (x.P.size() >= 7) continue;
        if (st.num(3) == 2) {
          GCPolyInt* src=o.g;
          x.P.push_back({nullptr, sut([&] { return src ? new GCPolyInt((const GCPolyInt&)*src) : new GCPolyInt(*u); }), -1, v});
        }
        else place([u](Allocator* al) { return new PolyInt(al, *u); }, v, st.num(2));
      }
      else if (st.op == "assign") {
        PO& b=pick(2);
        if (&o == &b) continue;
        { Sut g; if (o.g && b.g && st.num(2)%2) *o.g = (const GCPolyInt&)*b.g; else o.i() = b.c(); }
        o.v = b.v;
      }
      else if (st.op == "foreign") {  // a polynomial of another order or ring takes over a value of this one
        if (x.P.size() >= 7 || st.a.size() < 7) continue;
        int fo=(int)st.num(3), fn=(int)std::max(1l, std::min(6l, st.num(4)));
        if (std::find(ORD, ORD + 6, fo) == ORD + 6) continue;
        ref::Poly w=pparse(st.str(6), fo, fn), v=o.v;
        const PolyInt* u=&o.c();
        Allocator* al=x.A[(size_t)std::max(0l, st.num(2))%x.A.size()];
        PolyInt* f=sut([&] { return new PolyInt(al, fo, fn); });
        fillPoly(*f, w);
        if (st.num(5) == 3 || gconly) {
          GCPolyInt* g=sut([&] { return new GCPolyInt((const PolyInt&)*f); });
          { Sut q; GCPolyInt h(*u); if (st.num(5)%2) *g = (const GCPolyInt&)h; else g->swap(h); }
          { Sut q; delete f; }
          x.P.push_back({nullptr, g, -1, v});
        }
        else {
          {
            Sut q;
            if (st.num(5) == 0) *f = *u;
            else {
              PolyInt h(al, *u);
              if (st.num(5) == 1) *f = std::move(h); else f->swap(h);
            }
          }
          x.P.push_back({f, nullptr, (int)((size_t)std::max(0l, st.num(2))%x.A.size()), v});
        }
      }
      else if (st.op == "move") {
        PO& b=pick(2);
        if (&o == &b || o.g || b.g) continue;
        if (st.num(2)%2) {
          { Sut g; *o.p = std::move(*b.p); }
          o.v = b.v;
          std::swap(o.arena, b.arena);
          b.v.t.clear();
          // what is left of the source may only be destroyed
          { Sut g; delete b.p; }
          x.P.erase(x.P.begin() + (&b - &x.P[0]));
        }
        else {                       // into a new object
          PolyInt* t=sut([&] { return new PolyInt(std::move(*b.p)); });
          Sut g;
          delete b.p;
          b.p = t;
        }
      }
      else if (st.op == "swap") {
        PO& b=pick(2);
        if (&o == &b || !o.g != !b.g) continue;
        { Sut g; if (o.g) o.g->swap(*b.g); else o.p->swap(*b.p); }
        std::swap(o.v, b.v);
        std::swap(o.arena, b.arena);
      }
      else if (st.op == "destroy") {
        { Sut g; delete o.p; delete o.g; }
        x.P.erase(x.P.begin() + (&o - &x.P[0]));
      }
      else if (st.op == "compact") {
        if (!o.g) continue;
        uint64_t f=forced();
        size_t had=Peek::of(*o.g)->alloc(), used=Peek::of(*o.g)->size();
        { Sut g; o.g->reallocate(); }
        if (on("P05") && env.gcMode < 0 && had > 4*(size_t)simPage && had > 16384 && 8*used < had && Peek::of(*o.g)->alloc() >= had)
          fail("compaction-keeps-memory", "an arena of " + std::to_string(had) + " bytes of which " + std::to_string(used) + " are in use keeps all of them");
        if (forced() > f) {
          if (!o.v.zero()) probe(4);
          const Allocator* al=Peek::of(*o.g);
          size_t need=o.v.t.size()*(160 + n*sizeof(int)) + limbsOf(o.v)*16 + 256;
          if (on("P05 P02") && (al->size() > need || al->alloc() > 2*need + 2*(size_t)simPage + 1024))
            fail("compaction-keeps-memory", "after a compaction a polynomial of " + std::to_string(o.v.t.size()) + " terms takes " + std::to_string(al->size()) + " bytes of " + std::to_string(al->alloc()));
        }
      }
      else if (st.op == "failcompact") {
        if (!o.g) continue;
        const Allocator* al=Peek::of(*o.g);
        size_t sz=al->size(), ac=al->alloc(), cur=Allocator::currMemory();
        long lv=liveRequests();
        int mode=env.gcMode;
        env.gcMode = 1;
        armFailure(std::max(1l, st.num(2)));
        bool threw=false;
        try { Sut g; o.g->reallocate(); } catch(const std::bad_alloc&) { threw = true; }
        bool was=failureFired();
        disarm();
        if (was != threw) fail("refusal-hidden", threw ? "out of memory reported without a refusal" : "compaction: memory was refused but nothing was reported");
        if (threw) {
          probe(2);
          al = Peek::of(*o.g);
          if (al->size() != sz || al->alloc() != ac || Allocator::currMemory() != cur) fail("refusal-accounting", "a refused compaction changed the memory accounting");
          if (liveRequests() != lv) fail("refusal-leak", "a refused compaction left system requests outstanding");
          if (!errText.empty()) fail("refusal-diagnostic", "a refused compaction reports a leak: " + errText.substr(0, 200));
          check(x, "refused compaction", true);
          Sut g;
          o.g->reallocate();
        }
        env.gcMode = mode;
      }
    }
    check(x, st.op, true);
    if (on("P19") && k%5 == 0) for(auto& y: SS) check(y.second, "other session", false);
    if (on("P03") && newBlocks != nb) { nb = newBlocks; record((int64_t)k); record((int64_t)limit); record((int64_t)Allocator::maxMemory()); }
  }
  if (!ignore) Allocator::setLimitMemory(0);
  for(auto& y: SS) {
    Session& x=y.second;
    for(auto& o: x.P) { Sut g; delete o.p; delete o.g; }
    for(auto a: x.A) {
      if (on("P02 P04") && a->size() != 0) fail("accounting", "all polynomials gone but an arena reports " + std::to_string(a->size()) + " bytes in use");
      Sut g;
      delete a;
    }
  }
  if (on("P02 P04")) {
    if (Allocator::currMemory() != start) fail("accounting", "current memory is " + std::to_string(Allocator::currMemory()) + " instead of " + std::to_string(start) + " at the end");
    if (liveRequests() != lv0) fail("leak", std::to_string(liveRequests() - lv0) + " system requests never returned");
    if (!errText.empty()) fail("accounting", "diagnostic: " + errText);
  }
}
Reg r1("poly", gen, run);

// ------------------------------------------------------------------ reduction
struct Divisors {                  // what PolyInt::nf asks for divisors
  std::vector<WrapPolyInt*> w;
  std::map<int, GCJanet*> t;
  bool janet=false;
  WrapPolyInt* find(const Monom& m) {
    if (janet) {
      auto i=t.find(m.pos());
      return i == t.end() ? nullptr : (WrapPolyInt*)i->second->find(m);
    }
    for(auto x: w) if (x->poly().lm().pos() == m.pos() && m.divisiable(x->poly().lm())) return x;
    return nullptr;
  }
};

void genRed(const std::string&, Rng& r, Scenario& s) {
  int n=r.p(10) ? r.in(5, 9) : r.in(1, 4), comps=r.p(40) ? r.in(1, 3) : 0, k=r.in(10, 60);
  static const int admissible[]={0x11, 0x12, 0x21, 0x22};
  int ord=admissible[r.in(0, 3)], coef=r.p(60) ? 6 : 100000, terms=r.in(2, 6), deg=r.in(2, 5);
  s.set("n", n);
  s.set("ord", ord);
  s.set("janet", r.p(50));
  auto T=[](long x) { return std::to_string(x); };
  auto poly=[&](int d, bool konst) { return ptext(randomPoly(r, ord, n, r.p(20) ? 1 : terms, d, comps, coef, konst)); };
  s.add("arena");
  for(int i=0; i < 2; i++) s.add("new", {T(r.in(0, 1)), poly(deg + 2, true)});
  for(int i=0; i < 3; i++) s.add("divisor", {poly(deg, r.p(10))});
  for(int i=0; i < k; i++) {
    int w=r.in(0, 99), a=r.in(0, 5), b=r.in(0, 5);
    if (w < 14) s.add(r.p(40) ? "newgc" : "new", {T(r.in(0, 1)), poly(deg + r.in(0, 3), true)});
    else if (w < 26) s.add("divisor", {poly(deg, r.p(5))});
    else if (w < 30) s.addn("undivisor", {a});
    else if (w < 38) s.addn("multiple", {a, b, r.in(0, n - 1), r.in(-30, 30)});
    else if (w < 48) s.addn("reduce", {a, b});
    else if (w < 56) s.addn("maybe", {a, b});
    else if (w < 66) s.addn("nf", {a});
    else if (w < 74) s.addn("tail", {a});
    else if (w < 80) s.addn("full", {a});
    else if (w < 84) s.addn("isnf", {a});
    else if (w < 90) s.addn("pp", {a});
    else if (w < 94) s.addn("compact", {a});
    else if (w < 97) s.addn("compactd", {a});
    else s.addn("destroy", {a});
  }
}
void runRed(const Scenario& s) {
  int n=(int)std::max(1l, std::min(12l, s.num("n", 2))), ord=(int)s.num("ord", 0x12);
  if (ord != 0x11 && ord != 0x12 && ord != 0x21 && ord != 0x22) ord = 0x12;
  std::vector<Allocator*> A;
  std::vector<PO> P;
  Divisors D;
  D.janet = s.num("janet", 0);
  std::vector<ref::Poly> M;          // model of the divisors
  auto rebuild=[&] {
    for(auto& i: D.t) { Sut g; delete i.second; }
    D.t.clear();
    for(size_t i=0; i < D.w.size();) {
      auto w=D.w[i];
      int pos=w->lm().pos();
      if (!D.t.count(pos)) D.t[pos] = sut([] { return new GCJanet; });
      if (D.janet && sut([&] { return D.t[pos]->find(w->lm()); })) {     // a tree takes only monomials without a divisor in it
        { Sut g; delete w; }
        D.w.erase(D.w.begin() + i);
        M.erase(M.begin() + i);
        continue;
      }
      i++;
      Sut g;
      w->clearNM();
      if (D.janet) D.t[pos]->insert(w);
    }
  };
  auto rule=[&](const ref::Mon& m) -> int {
    if (D.janet) {
      std::vector<ref::Mon> U;
      for(auto& p: M) U.push_back(p.lm());
      return ref::janetFind(U, m);
    }
    for(size_t i=0; i < M.size(); i++) if (M[i].lm().pos == m.pos && ref::divides(M[i].lm(), m)) return (int)i;
    return -1;
  };
  auto check=[&](const std::string& op) {
    for(size_t k=0; k < P.size(); k++) {
      ref::Poly v=toPoly(P[k].c());
      std::string why;
      if (!canonicalForm(v, why)) fail("poly-form", op + ": polynomial " + std::to_string(k) + ": " + why);
      if (v != P[k].v) fail("poly-value", op + ": polynomial " + std::to_string(k) + " is\n  " + ref::str(v) + "\n  instead of\n  " + ref::str(P[k].v));
      queries(P[k].i(), v, op);
    }
    for(size_t k=0; k < M.size(); k++) {
      ref::Poly v=toPoly(D.w[k]->poly());
      if (v != M[k]) fail("divisor-changed", op + ": divisor " + std::to_string(k) + " is\n  " + ref::str(v) + "\n  instead of\n  " + ref::str(M[k]));
    }
    state("R" + std::to_string(P.size()) + ":" + std::to_string(M.size()) + op);
  };
  // the new value must be a nonzero multiple of e; takes over the representative the code chose
  auto same=[&](PO& o, ref::Poly e, const std::string& op, const ref::Poly& was) {
    ref::Poly v=toPoly(o.c());
    std::string why;
    if (!canonicalForm(v, why)) fail("poly-form", op + ": " + why + " in " + ref::str(v));
    if (canon(v) != canon(e)) fail("residue", op + " of\n  " + ref::str(was) + "\n  gives\n  " + ref::str(v) + "\n  instead of a multiple of\n  " + ref::str(canon(e)));
    obs(op + " " + ref::str(canon(v)));
    o.v = v;
  };
  auto room=[](const ref::Poly& p) { return p.t.size() <= 120 && bits(p) < 6000 && maxExp(p) < 60; };
  auto modelNf=[&](ref::Poly& p, bool lead, bool tail) {  // false: outside the budget
    long left=200;
    if (lead)
      while(!p.zero()) {
        int d=rule(p.lm());
        if (d < 0) break;
        ref::cancel(p, 0, M[d]);
        p.primitive(false);
        if (--left < 0 || !room(p)) return false;
      }
    if (tail)
      for(size_t k=1; k < p.t.size();) {
        int d=rule(p.t[k].m);
        if (d < 0) { ++k; continue; }
        ref::cancel(p, k, M[d]);
        p.primitive(false);
        if (--left < 0 || !room(p)) return false;
      }
    return true;
  };
  for(size_t k=0; k < s.steps.size(); k++) {
    const Step& st=s.steps[k];
    beginStep(st, (int)k);
    if (st.op == "arena") { if (A.size() < 2) A.push_back(sut([] { return new Allocator; })); continue; }
    if (A.empty()) continue;
    if (st.op == "new" || st.op == "newgc") {
      if (P.size() >= 5) { PO& o=P[0]; Sut g; delete o.p; delete o.g; P.erase(P.begin()); }
      ref::Poly v=pparse(st.str(1), ord, n);
      if (!room(v)) continue;
      int a=(int)(std::max(0l, st.num(0))%A.size());
      PolyInt* t=sut([&] { return new PolyInt(A[a], ord, n); });
      fillPoly(*t, v);
      if (st.op == "newgc") {
        P.push_back({nullptr, sut([&] { return new GCPolyInt((const PolyInt&)*t); }), -1, v});
        Sut g;
        delete t;
      }
      else P.push_back({t, nullptr, a, v});
    }
    else if (st.op == "divisor") {
      ref::Poly v=pparse(st.str(0), ord, n);
      if (v.zero() || !room(v) || M.size() >= 8) continue;
      bool dup=false;
      for(auto& m: M) dup = dup || m.lm() == v.lm();
      if (dup) continue;
      Allocator al[1];
      PolyInt t(al, ord, n);
      fillPoly(t, v);
      M.push_back(v);
      D.w.push_back(sut([&] { return new WrapPolyInt(t); }));
      rebuild();
    }
    else if (st.op == "undivisor") {
      if (M.empty()) continue;
      size_t i=(size_t)std::max(0l, st.num(0))%M.size();
      { Sut g; delete D.w[i]; }
      D.w.erase(D.w.begin() + i);
      M.erase(M.begin() + i);
      rebuild();
    }
    else if (st.op == "compactd") {
      if (M.empty()) continue;
      Sut g;
      D.w[(size_t)std::max(0l, st.num(0))%M.size()]->reallocate();
    }
    else if (!P.empty()) {
      PO& o=P[(size_t)std::max(0l, st.num(0))%P.size()];
      ref::Poly was=o.v;
      if (st.op == "multiple") {       // adds a multiple of a divisor
        if (M.empty() || st.num(3) == 0) continue;
        ref::Poly& d=M[(size_t)std::max(0l, st.num(1))%M.size()];
        ref::Mon m(n, -1);
        m.e[std::max(0l, st.num(2))%n] = 1;
        ref::Poly q=ref::mulmon(d, m, st.num(3));
        if (!room(ref::add(o.v, q))) continue;
        Allocator al[1];
        PolyInt t(al, ord, n);
        fillPoly(t, q);
        { Sut g; o.i().add(t); }
        o.v = ref::add(o.v, q);
      }
      else if (st.op == "reduce" || st.op == "maybe") {
        bool byDiv=M.size() && st.num(1)%2;
        ref::Poly q;
        const PolyInt* b;
        if (byDiv) { size_t i=(size_t)std::max(0l, st.num(1))/2%M.size(); q = M[i]; b = &D.w[i]->poly(); }
        else { PO& y=P[(size_t)std::max(0l, st.num(1))/2%P.size()]; if (&y == &o) continue; q = y.v; b = &y.c(); }
        if (o.v.zero() || q.zero()) continue;
        ref::Poly e(o.v);
        if (st.op == "reduce") {
          if (q.lm().pos != o.v.lm().pos || !ref::divides(q.lm(), o.v.lm())) continue;
          ref::cancel(e, 0, q);
          if (!room(e)) continue;
          { Sut g; o.i().reduction(*b); }
          probe(10);
        }
        else {
          for(size_t t=0; t < e.t.size(); t++) if (e.t[t].m == q.lm()) { ref::cancel(e, t, q); probe(11); break; }
          if (!room(e)) continue;
          { Sut g; o.i().redMaybe(*b); }
        }
        same(o, e, st.op, was);
      }
      else if (st.op == "nf" || st.op == "tail" || st.op == "full") {
        ref::Poly e(o.v);
        bool lead=st.op != "tail", tail=st.op != "nf";
        if (!modelNf(e, lead, tail)) continue;
        int cnt=0;
        { Sut g; if (lead) cnt += o.i().nf(D); if (tail) cnt += o.i().nfTail(D); }
        if (cnt) probe(12);
        if (cnt > 5) probe(13);
        same(o, e, st.op, was);
        bool isnf=sut([&] { return o.c().isNf(D); });
        if (tail && !isnf) fail("residue", "a tail-reduced polynomial is reported as reducible: " + ref::str(o.v));
      }
      else if (st.op == "isnf") {
        bool e=true;
        for(size_t t=1; t < o.v.t.size(); t++) if (rule(o.v.t[t].m) >= 0) e = false;
        bool v=sut([&] { return o.c().isNf(D); });
        if (e != v) fail("residue", "tail irreducibility of " + ref::str(o.v) + " given as " + std::to_string(v));
      }
      else if (st.op == "pp") {
        { Sut g; o.i().pp(); }
        ref::Poly v=toPoly(o.c());
        if (v.zero() != was.zero() || (!v.zero() && (v.content() != 1 || canon(v) != canon(was))))
          fail("content", "primitive part of\n  " + ref::str(was) + "\n  given as\n  " + ref::str(v));
        o.v = v;
      }
      else if (st.op == "compact") {
        if (!o.g) continue;
        Sut g;
        o.g->reallocate();
      }
      else if (st.op == "destroy") {
        { Sut g; delete o.p; delete o.g; }
        P.erase(P.begin() + (&o - &P[0]));
      }
    }
    check(st.op);
  }
  for(auto& o: P) { Sut g; delete o.p; delete o.g; }
  for(auto& i: D.t) { Sut g; delete i.second; }
  for(auto w: D.w) { Sut g; delete w; }
  for(auto a: A) { Sut g; delete a; }
}
Reg r2("red", genRed, runRed);
}
}
