// Lists, stacks and red-black trees sharing arenas, against plain sequences and sets.
#include "core.h"
#include "util/allocator.h"
#include "util/list.h"
#include "util/stack.h"
#include "util/rbtree.h"
#include <algorithm>

namespace sim {
using namespace GInv;
namespace {

uint64_t forced() { return S->faults[F_GC_FORCED]; }
std::string show(const std::vector<long>& v) {
  std::string s="[";
  for(size_t i=0; i < v.size(); i++) {
    if (i > 60) { s += "..."; break; }
    s += (i ? " " : "") + std::to_string(v[i]);
  }
  return s + "]";
}
// runs f, one of whose memory requests is refused; true if it reported that to us
template <class F> bool refused(const Step& st, size_t k, const char* what, F f) {
  armFailure(std::max(1l, st.num(k, 1)));
  bool threw=false;
  long lv=liveRequests();
  size_t cur=Allocator::currMemory();
  try { Sut g; f(); }
  catch(const std::bad_alloc&) { threw = true; }
  bool was=failureFired();
  disarm();
  if (was) probe(1);
  if (was && !threw) fail("refusal-hidden", std::string(what) + ": memory was refused but nothing was reported");
  if (!was && threw) fail("false-refusal", std::string(what) + ": out of memory reported without a refusal");
  if (threw && Allocator::currMemory() != cur) fail("refusal-accounting", std::string(what) + ": current memory changed from " + std::to_string(cur) + " to " + std::to_string(Allocator::currMemory()));
  if (threw && liveRequests() != lv) fail("refusal-leak", std::string(what) + ": " + std::to_string(liveRequests() - lv) + " system requests left outstanding");
  return threw;
}

// ------------------------------------------------------------------ lists
typedef List<long> L;
typedef GC<L> G;
struct Lst { L* l; G* g; int arena; std::vector<long> v; L& list() { return g ? *(L*)g : *l; } };

void genList(const std::string& prop, Rng& r, Scenario& s) {
  int n=r.in(10, 80), failing=prop == "P04", gc=prop == "P05" || r.p(25);
  s.set("gconly", prop == "P05");
  s.add("arena");
  for(int i=0; i < 2; i++) s.addn(gc && (prop == "P05" || r.p(50)) ? "newgc" : "new", {r.in(0, 2)});
  int burst=prop == "P05" && r.p(40) ? 2000 : r.p(30) ? 200 : 12;
  for(int i=0; i < n; i++) {
    int k=r.in(0, 99), a=r.in(0, 5), b=r.in(0, 5);
    if (k < 3) s.add("arena");
    else if (k < 8) s.addn(gc ? "newgc" : "new", {r.in(0, 2)});
    else if (k < 28) s.addn("push", {a, r.in(-1000, 1000), r.p(25) ? r.in(1, burst) : 1});
    else if (k < 38) s.addn("ins", {a, r.in(0, 30), r.in(-1000, 1000)});
    else if (k < 46) s.addn("del", {a, r.in(0, 30)});
    else if (k < 54) s.addn("pop", {a, r.p(20) ? r.in(1, burst > 200 ? burst : 20) : 1});
    else if (k < 60) s.addn("splice", {a, r.in(0, 30), b, r.in(0, 30)});
    else if (k < 63) s.addn("clear", {a});
    else if (k < 67) s.addn("copy", {a, r.in(0, 2)});
    else if (k < 71) s.addn("assign", {a, b});
    else if (k < 74) s.addn("move", {a});
    else if (k < 79) s.addn("swap", {a, b});
    else if (k < 82) s.addn("destroy", {a});
    else if (k < 85) s.addn("cursor", {a, r.in(0, 99), r.in(3, 25)});
    else if (failing && k < 93) s.addn("failins", {a, r.in(0, 30), r.in(-1000, 1000), r.in(1, 2)});
    else if (failing && gc) s.addn("failcompact", {a, r.in(1, 6)});
    else s.addn("compact", {a});
  }
}

void runList(const Scenario& s) {
  std::vector<Allocator*> A;
  std::vector<Lst> P;
  bool gconly=s.num("gconly", 0);
  size_t start=Allocator::currMemory();
  long lv0=liveRequests();
  auto read=[&](Lst& x) {
    std::vector<long> v;
    const L& l=x.list();
    for(L::ConstIterator i(l.begin()); i; ++i) {
      v.push_back(i.data());
      if (v.size() > x.v.size() + 5) break;
    }
    return v;
  };
  auto check=[&](const std::string& op) {
    for(size_t i=0; i < P.size(); i++) {
      Lst& x=P[i];
      std::vector<long> v=read(x);
      if (v != x.v) fail("list-content", op + ": list " + std::to_string(i) + " holds " + show(v) + " instead of " + show(x.v));
      if (x.list().length() != x.v.size()) fail("list-length", op + ": length " + std::to_string(x.list().length()) + " of " + std::to_string(x.v.size()) + " items");
      if ((bool)x.list() != !x.v.empty()) fail("list-empty", op + ": emptiness test is wrong");
      if (!x.v.empty() && x.list().head() != x.v[0]) fail("list-head", op + ": wrong first item");
      obs(op + " " + show(v));
      state("L" + std::to_string(x.v.size()) + (x.g ? "g" : "l"));
    }
    if (on("P02 P04"))
      for(size_t a=0; a < A.size(); a++) {
        size_t items=0;
        for(auto& x: P) if (!x.g && x.arena == (int)a) items += x.v.size();
        if (items == 0 && A[a]->size() != 0) fail("accounting", op + ": all lists of an arena are empty but it reports " + std::to_string(A[a]->size()) + " bytes in use");
        if (A[a]->size() < items*sizeof(long)) fail("accounting", op + ": fewer bytes in use than items stored");
      }
    if (on("P02"))
      for(auto& x: P) if (x.g && x.v.empty() && x.g->size() != 0) fail("accounting", op + ": an empty list still uses " + std::to_string(x.g->size()) + " bytes");
  };
  for(size_t i=0; i < s.steps.size(); i++) {
    const Step& st=s.steps[i];
    beginStep(st, (int)i);
    if (st.op == "arena") {
      if (A.size() < 3) A.push_back(sut([] { return new Allocator; }));
    }
    else if (st.op == "new") {
      if (P.size() >= 6 || A.empty() || gconly) continue;
      int a=(int)(st.num(0)%A.size());
      P.push_back({sut([&] { return new L(A[a]); }), nullptr, a, {}});
    }
    else if (st.op == "newgc") {
      if (P.size() >= 6) continue;
      P.push_back({nullptr, sut([] { return new G; }), -1, {}});
    }
    else if (!P.empty()) {
      size_t j=(size_t)st.num(0)%P.size();
      Lst& x=P[j];
      if (st.op == "push") {
        long n=std::max(1l, std::min(400l, st.num(2, 1)));
        for(long k=0; k < n && x.v.size() < 2000; k++) {
          { Sut g; x.list().push(st.num(1) + k); }
          x.v.insert(x.v.begin(), st.num(1) + k);
        }
      }
      else if (st.op == "ins" || st.op == "failins") {
        bool front=st.num(2)%3 == 0;                 // push instead of an iterator
        size_t p=front ? 0 : (size_t)std::max(0l, st.num(1))%(x.v.size() + 1);
        bool threw=false;
        auto go=[&] {
          if (front) { x.list().push(st.num(2)); return; }
          L::Iterator it(&x.list());
          for(size_t k=0; k < p; k++) ++it;
          it.insert(st.num(2));
        };
        if (st.op == "ins") { Sut g; go(); }
        else {
          // fill the current block so that the next insertion needs memory
          Allocator* al=x.g ? nullptr : A[x.arena];
          void* filler=nullptr;
          size_t fsz=(size_t)simPage + 15;
          if (al) { Sut g; filler = al->allocate(fsz); }
          size_t sz=x.g ? x.g->size() : al->size(), ac=x.g ? x.g->alloc() : al->alloc();
          threw = refused(st, 3, "insertion into a list", go);
          if (threw) {
            if ((x.g ? x.g->size() : al->size()) != sz || (x.g ? x.g->alloc() : al->alloc()) != ac)
              fail("refusal-accounting", "a refused insertion changed the arena's counters");
            if (filler) { Sut g; al->deallocate(filler, fsz); filler = nullptr; }
            check("refused insertion");
            Sut g;
            go();                  // memory is available again
          }
          if (filler) { Sut g; al->deallocate(filler, fsz); }
        }
        x.v.insert(x.v.begin() + p, st.num(2));
      }
      else if (st.op == "del") {
        if (x.v.empty()) continue;
        size_t p=(size_t)std::max(0l, st.num(1))%x.v.size();
        { Sut g; L::Iterator it(&x.list()); for(size_t k=0; k < p; k++) ++it; it.del(); }
        x.v.erase(x.v.begin() + p);
      }
      else if (st.op == "pop") {
        for(long k=0; k < st.num(1, 1) && !x.v.empty(); k++) {
          long got;
          { Sut g; got = x.list().pop(); }
          if (got != x.v[0]) fail("list-pop", "pop gives " + std::to_string(got) + " instead of " + std::to_string(x.v[0]));
          obs("pop " + std::to_string(got));
          x.v.erase(x.v.begin());
        }
      }
      else if (st.op == "splice") {
        size_t k=(size_t)st.num(2)%P.size();
        Lst& y=P[k];
        if (y.v.empty() || (x.g || y.g ? j != k : x.arena != y.arena)) continue;
        size_t q=(size_t)std::max(0l, st.num(3))%y.v.size();
        long val=y.v[q];
        y.v.erase(y.v.begin() + q);
        size_t p=(size_t)std::max(0l, st.num(1))%(x.v.size() + 1);
        {
          Sut g;
          L::Iterator from(&y.list());
          for(size_t t=0; t < q; t++) ++from;
          L::ConstIterator node=from.get();
          L::Iterator to(&x.list());
          for(size_t t=0; t < p; t++) ++to;
          to.insert(node);
        }
        x.v.insert(x.v.begin() + p, val);
        probe(5);
      }
      else if (st.op == "cursor") { // edits through one cursor moving along the list
        Rng r(mix2(st.num(1), 99));
        size_t p=0;
        L::Iterator it(&x.list());
        for(long k=0; k < std::min(60l, st.num(2)); k++) {
          int c=r.in(0, 3);
          if (c == 0 && x.v.size() < 2000) { sut([&] { it.insert(k); }); x.v.insert(x.v.begin() + p, k); }
          else if (p >= x.v.size()) break;
          else if (c == 1) { sut([&] { it.del(); }); x.v.erase(x.v.begin() + p); }
          else if (c == 2) { it.data() = 7000 + k; x.v[p] = 7000 + k; }
          else { ++it; ++p; }
          if ((bool)it != (p < x.v.size())) fail("list-cursor", "the cursor's end test is wrong");
          if (it && it.data() != x.v[p]) fail("list-cursor", "the cursor shows " + std::to_string(it.data()) + " instead of " + std::to_string(x.v[p]));
        }
      }
      else if (st.op == "clear") { { Sut g; x.list().clear(); } x.v.clear(); }
      else if (st.op == "copy") {
        if (P.size() >= 6) continue;
        Lst y{nullptr, nullptr, -1, x.v};
        {
          Sut g;
          if (A.empty() || gconly || x.g) y.g = x.g && st.num(1)%2 ? new G(*x.g) : new G((const L&)x.list());
          else { y.arena = (int)(st.num(1)%A.size()); y.l = new L(A[y.arena], x.list()); }
        }
        P.push_back(y);
      }
      else if (st.op == "assign") {
        size_t k=(size_t)st.num(1)%P.size();
        if (k == j) continue;
        { Sut g; if (x.g && P[k].g) *x.g = *P[k].g; else x.list() = (const L&)P[k].list(); }
        x.v = P[k].v;
      }
      else if (st.op == "move") {
        if (x.g || P.size() >= 6) continue;
        Lst y{nullptr, nullptr, x.arena, x.v};
        { Sut g; y.l = new L(std::move(*x.l)); }
        x.v.clear();
        P.push_back(y);
      }
      else if (st.op == "swap") {
        size_t k=(size_t)st.num(1)%P.size();
        Lst& y=P[k];
        if (k == j || !x.g != !y.g) continue;
        { Sut g; if (x.g) x.g->swap(*y.g); else x.l->swap(*y.l); }
        std::swap(x.v, y.v);
        std::swap(x.arena, y.arena);
      }
      else if (st.op == "destroy") {
        { Sut g; delete x.l; delete x.g; }
        P.erase(P.begin() + j);
      }
      else if (st.op == "compact") {
        if (!x.g) continue;
        uint64_t f=forced();
        size_t had=x.g->alloc(), used=x.g->size();
        { Sut g; x.g->reallocate(); }
        if (on("P05") && env.gcMode < 0 && had > 4*(size_t)simPage && had > 16384 && 8*used < had) {
          if (x.g->alloc() >= had) fail("compaction-keeps-memory", "an arena of " + std::to_string(had) + " bytes of which " + std::to_string(used) + " are in use keeps all of them");
        }
        if (forced() > f) {
          if (!x.v.empty()) probe(4);
          if (on("P05 P02")) {
            if (x.g->alloc() > 2*x.g->size() + 2*(size_t)simPage + 256) fail("compaction-keeps-memory", "after a compaction " + std::to_string(x.g->alloc()) + " bytes are reserved for " + std::to_string(x.g->size()));
            if (x.g->size() > 64*x.v.size()) fail("compaction-keeps-memory", "after a compaction " + std::to_string(x.v.size()) + " items take " + std::to_string(x.g->size()) + " bytes");
          }
        }
      }
      else if (st.op == "failcompact") {
        if (!x.g) continue;
        size_t sz=x.g->size(), ac=x.g->alloc();
        int mode=env.gcMode;
        env.gcMode = 1;
        bool threw=refused(st, 1, "compaction of a list", [&] { x.g->reallocate(); });
        if (threw) {
          probe(2);
          if (x.g->size() != sz || x.g->alloc() != ac) fail("refusal-accounting", "a refused compaction changed the object's memory");
          check("refused compaction");
          Sut g;
          x.g->reallocate();
        }
        env.gcMode = mode;
        if (!errText.empty()) fail("refusal-diagnostic", "a refused compaction reports a leak: " + errText.substr(0, 200));
      }
    }
    check(st.op);
  }
  for(auto& x: P) { Sut g; delete x.l; delete x.g; }
  for(auto a: A) {
    if (on("P02 P04") && a->size() != 0) fail("accounting", "all lists gone but an arena reports " + std::to_string(a->size()) + " bytes in use");
    Sut g;
    delete a;
  }
  if (on("P02 P04")) {
    if (Allocator::currMemory() != start) fail("accounting", "current memory is not back where it started");
    if (liveRequests() != lv0) fail("leak", std::to_string(liveRequests() - lv0) + " system requests never returned");
    if (!errText.empty()) fail("accounting", "diagnostic: " + errText);
  }
}
Reg r1("list", genList, runList);

// ------------------------------------------------------------------ stacks
typedef Stack<long> K;
struct Stk { K* k; int arena; std::vector<long> v; };

void genStack(const std::string& prop, Rng& r, Scenario& s) {
  int n=r.in(10, 80), failing=prop == "P04";
  s.add("arena");
  s.addn("new", {0, r.in(1, 4)});
  for(int i=0; i < n; i++) {
    int k=r.in(0, 99), a=r.in(0, 4), b=r.in(0, 4);
    if (k < 4) s.add("arena");
    else if (k < 12) s.addn("new", {r.in(0, 2), r.p(20) ? r.in(1, 300) : r.in(1, 6)});
    else if (k < 18) s.addn("copy", {a, r.in(0, 2)});
    else if (k < 48) s.addn("push", {a, r.in(-1000, 1000), r.p(25) ? r.in(1, r.p(20) ? 700 : 30) : 1});
    else if (k < 62) s.addn("pop", {a, r.p(30) ? r.in(1, 40) : 1});
    else if (k < 66) s.addn("reset", {a});
    else if (k < 76) s.addn("assign", {a, b});
    else if (k < 84) s.addn("swap", {a, b});
    else if (k < 88) s.addn("destroy", {a});
    else if (failing) s.addn("failpush", {a, r.in(-99, 99), r.in(1, 2), r.in(0, 1)});
    else s.addn("push", {a, r.in(-9, 9), 1});
  }
}
void runStack(const Scenario& s) {
  std::vector<Allocator*> A;
  std::vector<Stk> P;
  size_t start=Allocator::currMemory();
  long lv0=liveRequests();
  auto check=[&](const std::string& op) {
    for(size_t i=0; i < P.size(); i++) {
      Stk& x=P[i];
      if (x.k->deep() != x.v.size()) fail("stack-depth", op + ": depth " + std::to_string(x.k->deep()) + " instead of " + std::to_string(x.v.size()));
      if ((bool)*x.k != !x.v.empty()) fail("stack-empty", op + ": emptiness test is wrong");
      if (x.k->size() < x.v.size()) fail("stack-size", op + ": capacity below depth");
      for(size_t k=0; k < x.v.size(); k++)
        if ((*x.k)[k] != x.v[k]) fail("stack-content", op + ": item " + std::to_string(k) + " of stack " + std::to_string(i) + " is " + std::to_string((*x.k)[k]) + " instead of " + std::to_string(x.v[k]));
      if (!x.v.empty() && x.k->top() != x.v.back()) fail("stack-top", op + ": wrong top");
      obs(op + " " + show(x.v));
      state("S" + std::to_string(x.v.size()));
    }
    if (on("P02"))
      for(size_t a=0; a < A.size(); a++) {
        size_t need=0, cnt=0;
        for(auto& x: P) if (x.arena == (int)a) { need += x.v.size()*sizeof(long); cnt++; }
        if (A[a]->size() < need) fail("accounting", op + ": fewer bytes in use than items stored");
        if (!cnt && A[a]->size() != 0) fail("accounting", op + ": no stack left in an arena that reports " + std::to_string(A[a]->size()) + " bytes in use");
      }
  };
  for(size_t i=0; i < s.steps.size(); i++) {
    const Step& st=s.steps[i];
    beginStep(st, (int)i);
    if (st.op == "arena") {
      if (A.size() < 3) A.push_back(sut([] { return new Allocator; }));
    }
    else if (st.op == "new") {
      if (P.size() >= 5 || A.empty()) continue;
      int a=(int)(st.num(0)%A.size());
      P.push_back({sut([&] { return new K((size_t)std::max(1l, std::min(2000l, st.num(1))), A[a]); }), a, {}});
    }
    else if (!P.empty()) {
      size_t j=(size_t)st.num(0)%P.size();
      Stk& x=P[j];
      if (st.op == "push") {
        for(long k=0; k < std::max(1l, std::min(1000l, st.num(2, 1))); k++) {
          { Sut g; x.k->push(st.num(1) + k); }
          x.v.push_back(st.num(1) + k);
        }
      }
      else if (st.op == "failpush") {
        // to the brim first, so that the push has to grow
        if (st.num(3)) while(x.v.size() < x.k->size()) { { Sut g; x.k->push(5); } x.v.push_back(5); }
        Allocator* al=A[x.arena];
        // a large filler makes the arena's current block full
        void* filler=nullptr;
        size_t fsz=(size_t)simPage + 15;
        { Sut g; filler = al->allocate(fsz); }
        size_t sz=al->size(), ac=al->alloc();
        bool threw=refused(st, 2, "push", [&] { x.k->push(st.num(1)); });
        if (threw) {
          if (al->size() != sz || al->alloc() != ac) fail("refusal-accounting", "a refused push changed the arena's counters");
          check("refused push");
          Sut g;
          x.k->push(st.num(1));
        }
        x.v.push_back(st.num(1));
        { Sut g; al->deallocate(filler, fsz); }
      }
      else if (st.op == "pop") {
        for(long k=0; k < st.num(1, 1) && !x.v.empty(); k++) {
          long top;
          { Sut g; top = x.k->top(); x.k->pop(); }
          if (top != x.v.back()) fail("stack-pop", "top was " + std::to_string(top) + " instead of " + std::to_string(x.v.back()));
          x.v.pop_back();
        }
      }
      else if (st.op == "reset") { { Sut g; x.k->reset(); } x.v.clear(); }
      else if (st.op == "copy") {
        if (P.size() >= 5) continue;
        Stk y{nullptr, (int)(st.num(1)%A.size()), x.v};
        { Sut g; y.k = new K(*x.k, A[y.arena]); }
        P.push_back(y);
      }
      else if (st.op == "assign") {
        size_t k=(size_t)st.num(1)%P.size();
        if (k == j) continue;
        { Sut g; *x.k = *P[k].k; }
        x.v = P[k].v;
      }
      else if (st.op == "swap") {
        size_t k=(size_t)st.num(1)%P.size();
        if (k == j) continue;
        { Sut g; x.k->swap(*P[k].k); }
        std::swap(x.v, P[k].v);
        std::swap(x.arena, P[k].arena);
      }
      else if (st.op == "destroy") {
        { Sut g; delete x.k; }
        P.erase(P.begin() + j);
      }
    }
    check(st.op);
  }
  for(auto& x: P) { Sut g; delete x.k; }
  for(auto a: A) {
    if (on("P02 P04") && a->size() != 0) fail("accounting", "all stacks gone but an arena reports " + std::to_string(a->size()) + " bytes in use");
    Sut g;
    delete a;
  }
  if (on("P02 P04")) {
    if (Allocator::currMemory() != start) fail("accounting", "current memory is not back where it started");
    if (liveRequests() != lv0) fail("leak", std::to_string(liveRequests() - lv0) + " system requests never returned");
    if (!errText.empty()) fail("accounting", "diagnostic: " + errText);
  }
}
Reg r2("stack", genStack, runStack);

// ------------------------------------------------------------------ red-black trees
int up(const long a, const long b) { return a < b ? -1 : a > b; }
int down(const long a, const long b) { return a > b ? -7 : a < b ? 5 : 0; }   // any negative or positive number will do

void genTree(const std::string& prop, Rng& r, Scenario& s) {
  int n=r.in(10, 90), failing=prop == "P04";
  s.set("down", r.in(0, 1));
  s.add("arena");
  s.addn("new", {0});
  int range=r.p(40) ? 20 : r.p(50) ? 100 : 1000;
  for(int i=0; i < n; i++) {
    int k=r.in(0, 99), a=r.in(0, 3), b=r.in(0, 3);
    if (k < 3) s.add("arena");
    else if (k < 6) s.addn("new", {r.in(0, 2)});
    else if (k < 36) s.addn("ins", {a, r.in(0, range)});
    else if (k < 58) s.addn("rem", {a, r.in(0, range), r.in(0, 1)});
    else if (k < 64) s.addn("many", {a, r.in(0, range), r.in(1, 40), r.in(-7, 7)});
    else if (k < 70) s.addn("fewer", {a, r.in(1, 40), r.in(0, 9999)});
    else if (k < 75) s.addn("copy", {a, r.in(0, 2)});
    else if (k < 80) s.addn("assign", {a, b});
    else if (k < 83) s.addn("move", {a});
    else if (k < 88) s.addn("swap", {a, b});
    else if (k < 90) s.addn("clear", {a});
    else if (k < 92) s.addn("destroy", {a});
    else if (failing) s.addn("failins", {a, r.in(0, range), r.in(1, 2)});
    else s.addn("query", {a, r.in(-3, range + 3)});
  }
}
template <int cmp(const long, const long)> struct TreeSim {
  typedef RBTree<long, cmp> R;
  struct Less { bool operator()(long a, long b) const { return cmp(a, b) < 0; } };
  typedef std::set<long, Less> M;
  struct Tr { R* t; int arena; M m; };
  std::vector<Allocator*> A;
  std::vector<Tr> P;
  std::string op;

  static int height(typename R::ConstIterator x, bool redParent, std::string& why, size_t& nodes) {
    if (!x) return 0;
    nodes++;
    bool red=x.color() == R::Red;
    if (red && redParent) why = "a red node has a red parent at key " + std::to_string(x.key());
    int a=height(x.left(), red, why, nodes), b=height(x.right(), red, why, nodes);
    if (a != b) why = "paths with different numbers of black nodes below key " + std::to_string(x.key());
    return std::max(a, b) + !red;
  }
  void query(Tr& x, long key) {
    typename M::iterator f=x.m.find(key), lo=x.m.lower_bound(key), hi=x.m.upper_bound(key);
    auto it=[&](typename R::ConstIterator i, bool has, long want, const char* what) {
      if ((bool)i != has) fail("tree-query", op + ": " + what + " of " + std::to_string(key) + (has ? " not found" : " found although there is none"));
      if (has && i.key() != want) fail("tree-query", op + ": " + what + " of " + std::to_string(key) + " is " + std::to_string(i.key()) + " instead of " + std::to_string(want));
    };
    it(x.t->find(key), f != x.m.end(), key, "key");
    long p=0;
    bool has=lo != x.m.begin();
    if (has) { typename M::iterator q=lo; --q; p = *q; }
    it(x.t->findPrev(key), has, p, "predecessor");
    it(x.t->findNext(key), hi != x.m.end(), hi != x.m.end() ? *hi : 0, "successor");
  }
  void check(size_t touched) {
    for(size_t i=0; i < P.size(); i++) {
      Tr& x=P[i];
      if (x.t->length() != (int)x.m.size()) fail("tree-length", op + ": length " + std::to_string(x.t->length()) + " instead of " + std::to_string(x.m.size()));
      if ((bool)*x.t != !x.m.empty()) fail("tree-empty", op + ": emptiness test is wrong");
      std::string why;
      size_t nodes=0;
      typename R::ConstIterator root=x.t->root();
      if (root && root.color() == R::Red) why = "red root";
      height(root, false, why, nodes);
      if (!why.empty()) fail("tree-balance", op + ": tree " + std::to_string(i) + ": " + why);
      if (nodes != x.m.size()) fail("tree-content", op + ": " + std::to_string(nodes) + " nodes for " + std::to_string(x.m.size()) + " keys");
      typename R::ConstIterator it=x.t->minimum();
      for(typename M::iterator k=x.m.begin(); k != x.m.end(); ++k) {
        if (!it || it.key() != *k) fail("tree-order", op + ": enumeration differs at key " + std::to_string(*k));
        ++it;
      }
      if (it) fail("tree-order", op + ": enumeration goes on after the last key");
      it = x.t->maximum();
      for(typename M::reverse_iterator k=x.m.rbegin(); k != x.m.rend(); ++k) {
        if (!it || it.key() != *k) fail("tree-order", op + ": backward enumeration differs at key " + std::to_string(*k));
        --it;
      }
      if (it) fail("tree-order", op + ": backward enumeration goes on after the first key");
      if (!x.m.empty()) {
        if (x.t->minimumKey() != *x.m.begin() || x.t->maximumKey() != *x.m.rbegin()) fail("tree-ends", op + ": wrong smallest or largest key");
      }
      if (!x.t->assertValid()) fail("tree-selfcheck", op + ": the tree's own validity test fails");
      state("R" + std::to_string(x.m.size()) + "h" + (root ? std::to_string(root.key()) : "-"));
    }
    if (touched < P.size()) {
      Tr& x=P[touched];
      std::string d=op;
      for(long k: x.m) d += " " + std::to_string(k);
      obs(d);
      long lo=x.m.empty() ? 0 : *x.m.begin();
      query(x, lo); query(x, lo - 1);
      if (!x.m.empty()) { typename M::iterator q=x.m.begin(); std::advance(q, (long)x.m.size()/2); query(x, *q); query(x, *q + 1); query(x, *x.m.rbegin()); query(x, *x.m.rbegin() + 1); }
    }
    if (on("P02 P04"))
      for(size_t a=0; a < A.size(); a++) {
        size_t keys=0;
        for(auto& x: P) if (x.arena == (int)a) keys += x.m.size();
        if (!keys && A[a]->size() != 0) fail("accounting", op + ": all trees of an arena are empty but it reports " + std::to_string(A[a]->size()) + " bytes in use");
        if (A[a]->size() < keys*sizeof(long)) fail("accounting", op + ": fewer bytes in use than keys stored");
      }
  }
  void run(const Scenario& s) {
    size_t start=Allocator::currMemory();
    long lv0=liveRequests();
    for(size_t i=0; i < s.steps.size(); i++) {
      const Step& st=s.steps[i];
      beginStep(st, (int)i);
      op = st.op;
      size_t j=(size_t)-1;
      if (st.op == "arena") {
        if (A.size() < 3) A.push_back(sut([] { return new Allocator; }));
      }
      else if (st.op == "new") {
        if (P.size() >= 4 || A.empty()) continue;
        int a=(int)(st.num(0)%A.size());
        P.push_back({sut([&] { return new R(A[a]); }), a, M()});
      }
      else if (!P.empty()) {
        j = (size_t)st.num(0)%P.size();
        Tr& x=P[j];
        if (st.op == "ins") {
          if (x.m.count(st.num(1))) continue;
          { Sut g; x.t->insert(st.num(1)); }
          x.m.insert(st.num(1));
        }
        else if (st.op == "failins") {
          if (x.m.count(st.num(1))) continue;
          Allocator* al=A[x.arena];
          void* filler=nullptr;
          size_t fsz=(size_t)simPage + 15;
          { Sut g; filler = al->allocate(fsz); }
          size_t sz=al->size(), ac=al->alloc();
          bool threw=refused(st, 2, "insertion into a tree", [&] { x.t->insert(st.num(1)); });
          if (threw) {
            if (al->size() != sz || al->alloc() != ac) fail("refusal-accounting", "a refused insertion changed the arena's counters");
            { Sut g; al->deallocate(filler, fsz); }
            check(j);
            Sut g;
            x.t->insert(st.num(1));
          }
          else { Sut g; al->deallocate(filler, fsz); }
          x.m.insert(st.num(1));
        }
        else if (st.op == "rem") {
          if (x.m.empty()) continue;
          typename M::iterator k=x.m.lower_bound(st.num(1));
          if (k == x.m.end()) k = x.m.begin();
          long key=*k;
          {
            Sut g;
            typename R::ConstIterator it=x.t->find(key);
            if (it && it.left() && it.right()) probe(6);
            if (st.num(2)) x.t->remove(it); else x.t->remove(key);
          }
          x.m.erase(key);
        }
        else if (st.op == "many") {
          long k=st.num(1), d=st.num(3) ? st.num(3) : 1;
          for(long q=0; q < std::min(60l, st.num(2)) && x.m.size() < 400; q++, k += d)
            if (!x.m.count(k)) { { Sut g; x.t->insert(k); } x.m.insert(k); }
          if (x.m.size() > 60) probe(7);
        }
        else if (st.op == "fewer") {
          Rng r(mix2(st.num(2), 5));
          for(long q=0; q < std::min(60l, st.num(1)) && !x.m.empty(); q++) {
            typename M::iterator k=x.m.begin();
            std::advance(k, r.in(0, (int)x.m.size() - 1));
            long key=*k;
            { Sut g; x.t->remove(key); }
            x.m.erase(key);
          }
        }
        else if (st.op == "copy") {
          if (P.size() >= 4) continue;
          Tr y{nullptr, (int)(st.num(1)%A.size()), x.m};
          { Sut g; y.t = new R(*x.t, A[y.arena]); }
          P.push_back(y);
        }
        else if (st.op == "assign") {
          size_t k=(size_t)st.num(1)%P.size();
          if (k == j) continue;
          { Sut g; *x.t = *P[k].t; }
          x.m = P[k].m;
        }
        else if (st.op == "move") {
          if (P.size() >= 4) continue;
          Tr y{nullptr, x.arena, x.m};
          { Sut g; y.t = new R(std::move(*x.t)); }
          x.m.clear();
          P.push_back(y);
        }
        else if (st.op == "swap") {
          size_t k=(size_t)st.num(1)%P.size();
          if (k == j) continue;
          { Sut g; x.t->swap(*P[k].t); }
          std::swap(x.m, P[k].m);
          std::swap(x.arena, P[k].arena);
        }
        else if (st.op == "clear") { { Sut g; x.t->clear(); } x.m.clear(); }
        else if (st.op == "destroy") {
          { Sut g; delete x.t; }
          P.erase(P.begin() + j);
        }
        else if (st.op == "query") query(x, st.num(1));
      }
      check(j);
    }
    for(auto& x: P) { Sut g; delete x.t; }
    for(auto a: A) {
      if (on("P02 P04") && a->size() != 0) fail("accounting", "all trees gone but an arena reports " + std::to_string(a->size()) + " bytes in use");
      Sut g;
      delete a;
    }
    if (on("P02 P04")) {
      if (Allocator::currMemory() != start) fail("accounting", "current memory is not back where it started");
      if (liveRequests() != lv0) fail("leak", std::to_string(liveRequests() - lv0) + " system requests never returned");
      if (!errText.empty()) fail("accounting", "diagnostic: " + errText);
    }
  }
};
void runTree(const Scenario& s) {
  if (s.num("down")) { TreeSim<down> t; t.run(s); }
  else { TreeSim<up> t; t.run(s); }
}
Reg r3("rbtree", genTree, runTree);
}
}
