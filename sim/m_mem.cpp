// Arenas: several live arenas, blocks of every size, swaps, refusals of memory, memory limits.
#include "core.h"
#include "util/allocator.h"
#include <algorithm>
#include <memory>

namespace sim {
using GInv::Allocator;
namespace {

struct Block { char* p; size_t n; uint64_t seed; size_t delta; };
struct Arena { Allocator* a; std::vector<Block> b; size_t base; };

void paint(const Block& b) {
  uint64_t x=b.seed;
  for(size_t i=0; i < b.n; i++) { if (i%8 == 0) x = mix(x); b.p[i] = (char)(x >> (i%8*8)); }
}
bool intact(const Block& b, size_t& at) {
  uint64_t x=b.seed;
  for(size_t i=0; i < b.n; i++) {
    if (i%8 == 0) x = mix(x);
    if (b.p[i] != (char)(x >> (i%8*8))) { at = i; return false; }
  }
  return true;
}

void generate(const std::string& prop, Rng& r, Scenario& s) {
  int n=r.in(10, 70), page=(int)s.num("page", 4096);
  int big=r.in(1, 4), failing=prop == "P04", limits=prop == "P03";
  s.add("new");
  for(int i=0; i < n; i++) {
    int k=r.in(0, 99);
    long size;
    switch(r.in(0, 9)) {
    case 0: size = page*r.in(1, big) + r.in(-40, 40); break;
    case 1: size = page/2 + r.in(-40, 40); break;
    case 2: size = 16*r.in(1, 20) + r.in(-1, 1); break;
    case 3: size = r.in(1, 33); break;
    case 4: size = page*r.in(1, big) + 16*r.in(-4, 4); break;
    default: size = r.in(1, page/4);
    }
    if (size < 1) size = 1;
    if (k < 4) s.add("new");
    else if (k < 6) s.addn("newcopy", {r.in(0, 5)});
    else if (k < 56) {
      if (failing && r.p(40)) s.addn("allocfail", {r.in(0, 5), size, r.in(1, 2)});
      else s.addn("alloc", {r.in(0, 5), size});
    }
    else if (k < 80) s.addn("free", {r.in(0, 5), r.in(0, 99)});
    else if (k < 90) s.addn("swap", {r.in(0, 5), r.in(0, 5)});
    else if (k < 95) s.addn("destroy", {r.in(0, 5)});
    else if (limits) s.addn("limit", {r.p(25) ? 0 : (long)page*r.in(1, 40) + r.in(-64, 4096)});
    else s.addn("freeall", {r.in(0, 5)});
    if (limits && r.p(10)) {
      s.addn("limitat", {r.p(60) ? 1 : r.in(1, 6), r.in(-1, 1)});
      if (r.p(70)) s.addn("newcopy", {r.in(0, 5)});
    }
    if (limits && r.p(4)) { s.addn("limitbelow", {r.in(1, 99)}); continue; }
    if (limits && r.p(4)) s.addn("limit", {r.p(20) ? 0 : (long)page*r.in(1, 60)});
  }
}

void run(const Scenario& s) {
  std::vector<Arena> A;
  size_t peak=Allocator::maxMemory(), start=Allocator::currMemory();
  long live0=liveRequests();
  long limit=0;
  bool ignore=s.num("ignore_limit", 0);
  auto checkAll=[&](const std::string& op) {
    size_t cur=0;
    std::vector<std::pair<char*, char*> > all;
    std::string dig;
    for(auto& x: A) {
      size_t need=0, at=0, delta=0;
      for(auto& b: x.b) {
        need += b.n;
        delta += b.delta;
        if (on("P01") && ((uintptr_t)b.p & 15)) fail("misaligned", op + ": a block is not 16-byte aligned");
        if (on("P01 P04 P02")) {
          if (!intact(b, at)) fail("content", op + ": byte " + std::to_string(at) + " of a live block of " + std::to_string(b.n) + " bytes changed");
        }
        all.push_back({b.p, b.p + b.n});
      }
      if (on("P02 P04")) {
        if (x.a->size() < need) fail("accounting", op + ": an arena reports " + std::to_string(x.a->size()) + " bytes used with " + std::to_string(need) + " live");
        if (x.a->size() != delta) fail("accounting", op + ": used bytes " + std::to_string(x.a->size()) + " instead of " + std::to_string(delta));
        if (x.a->alloc() < x.a->size()) fail("accounting", op + ": less reserved than used");
      }
      cur += x.a->alloc();
      dig += std::to_string(x.b.size()) + "/" + std::to_string(x.a->alloc()) + " ";
    }
    if (on("P01")) {
      std::sort(all.begin(), all.end());
      for(size_t i=1; i < all.size(); i++)
        if (all[i].first < all[i - 1].second) fail("overlap", op + ": two live blocks overlap");
    }
    if (on("P02 P04")) {
      if (Allocator::currMemory() - start != cur) fail("accounting", op + ": current memory " + std::to_string(Allocator::currMemory() - start) + ", arenas hold " + std::to_string(cur));
      peak = std::max(peak, Allocator::currMemory());
      if (Allocator::maxMemory() != peak) fail("accounting", op + ": peak " + std::to_string(Allocator::maxMemory()) + " instead of " + std::to_string(peak));
    }
    obs(op + " " + dig);
    state(dig);
  };
  auto take=[&](Arena& x, size_t n) {
    size_t before=x.a->size();
    void* p;
    { Sut g; p = x.a->allocate(n); }
    Block b{(char*)p, n, mix2(s.seed, x.b.size()*7919 + n), x.a->size() - before};
    paint(b);
    x.b.push_back(b);
  };
  auto drop=[&](Arena& x, size_t k) {
    size_t at;
    if (on("P01 P04") && !intact(x.b[k], at)) fail("content", "byte " + std::to_string(at) + " of a block changed before it was freed");
    { Sut g; x.a->deallocate(x.b[k].p, x.b[k].n); }
    x.b.erase(x.b.begin() + k);
  };
  for(size_t i=0; i < s.steps.size(); i++) {
    const Step& st=s.steps[i];
    beginStep(st, (int)i);
    uint64_t nb=newBlocks;
    if (st.op == "new") {
      if (A.size() >= 6) continue;
      A.push_back({sut([] { return new Allocator; }), {}, 0});
    }
    else if (st.op == "limit") {
      limit = st.num(0);
      if (!ignore) Allocator::setLimitMemory((size_t)limit);
    }
    else if (st.op == "limitbelow") {  // between what is in use and the peak
      size_t m=Allocator::maxMemory(), c=Allocator::currMemory();
      if (m <= c + 1) continue;
      limit = (long)(c + std::max((size_t)1, (m - c)*(size_t)std::max(1l, std::min(99l, st.num(0)))/100));
      if (!ignore) Allocator::setLimitMemory((size_t)limit);
    }
    else if (st.op == "limitat") {   // reached exactly, or missed by one byte, by the blocks that come next
      limit = (long)(std::max(Allocator::maxMemory(), Allocator::currMemory() + (size_t)st.num(0, 1)*(size_t)(s.num("page", 4096) + 32))) + st.num(1);
      if (!ignore) Allocator::setLimitMemory((size_t)limit);
    }
    else {
      if (A.empty()) continue;
      size_t j=(size_t)st.num(0)%A.size();
      if (st.op == "newcopy") {
        if (A.size() >= 6) continue;
        Allocator* c=sut([&] { return new Allocator(*A[j].a); });
        A.push_back({c, {}, 0});
      }
      else if (st.op == "alloc") {
        if (A[j].b.size() < 40) take(A[j], (size_t)std::max(1l, st.num(1)));
      }
      else if (st.op == "allocfail") {
        if (A[j].b.size() >= 40) continue;
        size_t n=(size_t)std::max(1l, st.num(1)), size=A[j].a->size(), alloc=A[j].a->alloc(), cur=Allocator::currMemory(), mx=Allocator::maxMemory();
        long lv=liveRequests();
        armFailure(st.num(2, 1));
        bool threw=false;
        void* p=nullptr;
        try { Sut g; p = A[j].a->allocate(n); }
        catch(const std::bad_alloc&) { threw = true; }
        bool was=failureFired();
        disarm();
        if (was) probe(0);
        if (was && !threw) fail("refusal-hidden", "memory was refused but the request for " + std::to_string(n) + " bytes returned " + (p ? "a block" : "null"));
        if (!was && threw) fail("false-refusal", "out of memory reported without a refusal");
        if (threw) {
          if (A[j].a->size() != size || A[j].a->alloc() != alloc || Allocator::currMemory() != cur || Allocator::maxMemory() != mx)
            fail("refusal-accounting", "counters changed by a refused request: used " + std::to_string(size) + " -> " + std::to_string(A[j].a->size())
                 + ", reserved " + std::to_string(alloc) + " -> " + std::to_string(A[j].a->alloc()) + ", current " + std::to_string(cur) + " -> " + std::to_string(Allocator::currMemory()));
          if (liveRequests() != lv) fail("refusal-leak", "a refused request leaves " + std::to_string(liveRequests() - lv) + " system requests outstanding");
          take(A[j], n);           // memory is available again
        }
        else {
          Block b{(char*)p, n, mix2(s.seed, A[j].b.size()*7919 + n), A[j].a->size() - size};
          paint(b);
          A[j].b.push_back(b);
        }
      }
      else if (st.op == "free") {
        if (!A[j].b.empty()) drop(A[j], (size_t)st.num(1)%A[j].b.size());
      }
      else if (st.op == "freeall") {
        while(!A[j].b.empty()) drop(A[j], A[j].b.size() - 1);
        if (on("P02") && A[j].a->size() != 0) fail("accounting", "every block freed but " + std::to_string(A[j].a->size()) + " bytes in use");
      }
      else if (st.op == "swap") {
        size_t k=(size_t)st.num(1)%A.size();
        if (k == j) continue;
        { Sut g; A[j].a->swap(*A[k].a); }
        std::swap(A[j].b, A[k].b);
      }
      else if (st.op == "destroy") {
        while(!A[j].b.empty()) drop(A[j], 0);
        { Sut g; delete A[j].a; }
        A.erase(A.begin() + j);
      }
    }
    if (newBlocks != nb) { record((long)i); record(limit); record((long)Allocator::maxMemory()); }
    checkAll(st.op);
  }
  while(!A.empty()) {
    while(!A.back().b.empty()) drop(A.back(), 0);
    { Sut g; delete A.back().a; }
    A.pop_back();
  }
  if (on("P02 P04")) {
    if (Allocator::currMemory() != start) fail("accounting", "all arenas gone but current memory is " + std::to_string((long)Allocator::currMemory() - (long)start));
    if (liveRequests() != live0) fail("leak", std::to_string(liveRequests() - live0) + " system requests never returned");
    if (!errText.empty()) fail("accounting", "diagnostic: " + errText);
  }
}
Reg reg("mem", generate, run);
}
}
