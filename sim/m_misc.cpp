// Timers under a simulated clock; random monomials and permutations under simulated entropy.
#include "core.h"
#include "util/timer.h"
#include "sutil.h"
#include "util/randpermutation.h"
#include <cmath>
#include <memory>

namespace sim {
namespace {

void genTimer(const std::string&, Rng& r, Scenario& s) {
  int n=r.in(8, 60);
  s.set("t0", r.p(20) ? 0 : r.p(30) ? 2000000000l + r.in(0, 1000000) : r.in(0, 1000000));
  s.add("new");
  for(int i=0; i < n; i++) {
    int k=r.in(0, 99);
    if (k < 5) s.add("new");
    else if (k < 45) {
      long a=r.p(15) ? 0 : r.p(10) ? r.in(1, 100000000) : r.in(1, 400);
      s.addn("advance", {a, r.in(0, (int)std::min(a, 1000000l)), r.in(0, 50)});
    }
    else if (k < 55) s.addn("start", {r.in(0, 3)});
    else if (k < 70) s.addn("cont", {r.in(0, 3)});
    else if (k < 88) s.addn("stop", {r.in(0, 3)});
    else if (k < 91) s.addn("jump", {r.in(-100000, 100000)});
    else if (k < 94) s.addn("copy", {r.in(0, 3)});
    else if (k < 97) s.addn("print", {r.in(0, 3)});
    else s.addn("compute", {r.in(1, 5)});
  }
}
struct T { GInv::Timer* t; Clock mark, sum; };
void runTimer(const Scenario& s) {
  simClock.real = s.num("t0", 1000);
  simClock.user = s.num("t0", 1000)/3;
  simClock.sys = s.num("t0", 1000)/7;
  env.clockMode = 1;               // time passes only at explicit steps
  std::vector<T> ts;
  auto check=[&](const std::string& op) {
    for(size_t i=0; i < ts.size(); i++) {
      double r=ts[i].t->realTime(), u=ts[i].t->userTime(), y=ts[i].t->sysTime();
      double er=(double)ts[i].sum.real/simHZ, eu=(double)ts[i].sum.user/simHZ, es=(double)ts[i].sum.sys/simHZ;
      double tol=1e-5;
      auto bad=[&](double a, double b) { return !(std::fabs(a - b) <= tol*(1 + std::fabs(b)*1e-6) + 1e-9*std::fabs((double)simClock.real)); };
      if (bad(r, er)) fail("timer-real", op + ": timer " + std::to_string(i) + " reports " + std::to_string(r) + " s real time instead of " + std::to_string(er));
      if (bad(u, eu)) fail("timer-user", op + ": timer " + std::to_string(i) + " reports " + std::to_string(u) + " s user time instead of " + std::to_string(eu));
      if (bad(y, es)) fail("timer-sys", op + ": timer " + std::to_string(i) + " reports " + std::to_string(y) + " s system time instead of " + std::to_string(es));
      state(mix2(ts[i].sum.real, ts[i].sum.user));
    }
  };
  for(size_t i=0; i < s.steps.size(); i++) {
    const Step& st=s.steps[i];
    beginStep(st, (int)i);
    if (st.op == "new") {
      if (ts.size() < 4) ts.push_back({sut([] { return new GInv::Timer; }), {0, 0, 0}, {0, 0, 0}});
    }
    else if (st.op == "advance") {
      simClock.real += std::max(0l, st.num(0));
      simClock.user += std::max(0l, st.num(1));
      simClock.sys += std::max(0l, st.num(2));
      S->ticks += std::max(0l, st.num(0));
      fault(F_CLOCK_TICK);
    }
    else if (st.op == "jump") {
      simClock.real = std::max(0l, simClock.real + st.num(0));
      fault(F_CLOCK_JUMP);
    }
    else if (st.op == "compute") { // other work must not touch running timers
      Sut g;
      GInv::GC<GInv::List<long> > l;
      for(int k=0; k < 50*st.num(0); k++) l.push(k);
      l.reallocate();
    }
    else if (!ts.empty()) {
      T& t=ts[(size_t)st.num(0)%ts.size()];
      if (st.op == "start") { Sut g; t.t->start(); t.mark = simClock; t.sum = {0, 0, 0}; }
      else if (st.op == "cont") { Sut g; t.t->cont(); t.mark = simClock; }
      else if (st.op == "stop") {
        // a stop without a preceding start has no interval to measure
        if (t.mark.real == 0 && t.mark.user == 0) continue;
        Sut g;
        t.t->stop();
        t.sum.real += simClock.real - t.mark.real;
        t.sum.user += simClock.user - t.mark.user;
        t.sum.sys += simClock.sys - t.mark.sys;
        t.mark = simClock;
      }
      else if (st.op == "copy") {
        if (ts.size() < 4) { T c=t; c.t = sut([&] { return new GInv::Timer(*t.t); }); ts.push_back(c); }
      }
      else if (st.op == "print") {
        std::ostringstream o;
        { Sut g; o << *t.t; }
        ev(o.str());
        char want[200];
        snprintf(want, sizeof want, "%.2f", (double)t.sum.real/simHZ);
        // printed to two decimals; only the presence of the rounded figure is asked for
        if (std::fabs((double)t.sum.real/simHZ) < 1e6 && o.str().find("real") == std::string::npos) fail("timer-print", "no real time in: " + o.str());
      }
    }
    check(st.op);
  }
  for(auto& t: ts) { Sut g; delete t.t; }
}
Reg r1("timer", genTimer, runTimer);

void genRandom(const std::string&, Rng& r, Scenario& s) {
  int n=r.in(5, 30);
  int d1=r.in(1, 6);
  s.addn("init", {r.in(1, 8), d1, d1 + r.in(0, 10)});
  for(int i=0; i < n; i++) {
    int k=r.in(0, 99);
    if (k < 12) { int a=r.p(20) ? r.in(1, 60) : r.in(1, 6); s.addn("init", {r.in(1, 12), a, a + r.in(0, r.p(20) ? 60 : 6)}); }
    else if (k < 42) s.add("next");
    else if (k < 55) s.addn("renext", {r.in(0, 9)});
    else if (k < 65) s.addn("perm", {r.p(25) ? r.in(1, 2) : r.in(1, 40)});
    else if (k < 82) s.addn("step", {r.in(0, 9)});
    else if (k < 86) s.addn("drop", {r.in(0, 9)});
    else s.addn("permute", {r.in(0, 9), r.in(0, 9), r.in(0, 1), r.in(-1, 4)});
  }
}
struct Perm { GInv::RandPermutation_mt19937* p; int n; std::vector<int> v; long blocks; };
std::string pstr(const std::vector<int>& v) { std::string s; for(int x: v) s += std::to_string(x) + " "; return s; }
void runRandom(const Scenario& s) {
  Allocator* al;
  { Sut g; al = new Allocator; }
  std::vector<std::pair<Monom*, ref::Mon> > ms;
  std::vector<Perm> ps;
  int n=0, lo=0, hi=0;
  auto well=[&](const Monom& m, const char* what) {
    ref::Mon x=toMon(m);
    int d=0;
    if (m.size() != n) fail("random-size", std::string(what) + ": " + std::to_string(m.size()) + " variables instead of " + std::to_string(n));
    for(int e: x.e) { if (e < 0) fail("random-exponent", std::string(what) + ": negative exponent " + ref::str(x)); d += e; }
    if (d != m.degree()) fail("random-degree", std::string(what) + ": reported degree " + std::to_string(m.degree()) + " of " + ref::str(x));
    if (d < lo || d > hi) fail("random-range", std::string(what) + ": degree " + std::to_string(d) + " outside " + std::to_string(lo) + ".." + std::to_string(hi));
    obs(what, ref::str(x));
    state(ref::str(x));
    return x;
  };
  auto read=[&](Perm& p, const char* what) {
    p.v.clear();
    std::set<int> seen;
    if (p.p->size() != p.n) fail("perm-size", "wrong size");
    for(int i=0; i < p.n; i++) { p.v.push_back((*p.p)[i]); seen.insert((*p.p)[i]); }
    if ((int)seen.size() != p.n || *seen.begin() != 0 || *seen.rbegin() != p.n - 1)
      fail("perm-bijection", std::string(what) + ": not a permutation: " + pstr(p.v));
    obs(what, pstr(p.v));
  };
  auto drop=[&](Perm& p) {
    long lv=liveRequests();
    { Sut g; delete p.p; }
    if (lv - liveRequests() != p.blocks) fail("perm-leak", "a permutation took " + std::to_string(p.blocks) + " blocks and returned " + std::to_string(lv - liveRequests()));
  };
  for(size_t i=0; i < s.steps.size(); i++) {
    const Step& st=s.steps[i];
    beginStep(st, (int)i);
    if (st.op == "init") {
      int a=(int)std::max(1l, st.num(0)), b=(int)std::max(1l, st.num(1)), c=(int)std::max((long)b, st.num(2));
      { Sut g; Monom::rand_init(a, b, c); }
      n = a; lo = b; hi = c;
    }
    else if (st.op == "next") {
      if (!n || ms.size() >= 10) continue;
      Monom* m;
      { Sut g; m = Monom::rand_next(al); }
      ref::Mon x=well(*m, "next");
      if (x.pos != -1) fail("random-component", "a random monomial has component " + std::to_string(x.pos));
      // the monomial object itself may live in the arena or on the heap: the arena frees its variables
      ms.push_back({m, x});
    }
    else if (st.op == "renext") {
      if (ms.empty()) continue;
      auto& m=ms[(size_t)st.num(0)%ms.size()];
      if ((int)m.second.e.size() != n) continue;
      { Sut g; Monom::rand_next(*m.first); }
      int pos=m.second.pos;
      m.second = well(*m.first, "renext");
      if (m.second.pos != pos) fail("random-component", "component changed");
    }
    else if (st.op == "perm") {
      int k=(int)std::max(1l, st.num(0));
      if (ps.size() >= 8) continue;
      GInv::RandPermutation_mt19937* p;
      long lv=liveRequests();
      { Sut g; p = new GInv::RandPermutation_mt19937(k); }
      ps.push_back({p, k, {}, liveRequests() - lv});
      read(ps.back(), "perm");
      for(int j=0; j < k; j++) if (ps.back().v[j] != j) fail("perm-initial", "a new permutation is not the identity: " + pstr(ps.back().v));
    }
    else if (st.op == "step") {
      if (ps.empty()) continue;
      Perm& p=ps[(size_t)st.num(0)%ps.size()];
      std::vector<std::vector<int> > before;
      for(auto& q: ps) before.push_back(q.v);
      { Sut g; p.p->next(); }
      for(size_t q=0; q < ps.size(); q++)
        if (&ps[q] != &p) { read(ps[q], "other"); if (ps[q].v != before[q]) fail("perm-interference", "stepping one permutation changed another"); }
      read(p, "step");
    }
    else if (st.op == "drop") {
      if (ps.empty()) continue;
      size_t k=(size_t)st.num(0)%ps.size();
      drop(ps[k]);
      ps.erase(ps.begin() + k);
      for(auto& q: ps) { std::vector<int> was(q.v); read(q, "left"); if (q.v != was) fail("perm-interference", "dropping one permutation changed another"); }
    }
    else if (st.op == "permute") {
      if (ms.empty()) continue;
      auto& m=ms[(size_t)st.num(0)%ms.size()];
      int sz=(int)m.second.e.size();
      Perm* p=nullptr;
      for(auto& q: ps) if (q.n == sz) { p = &q; break; }
      if (!p) {
        if (ps.size() >= 8) continue;
        GInv::RandPermutation_mt19937* x;
        long lv=liveRequests();
        { Sut g; x = new GInv::RandPermutation_mt19937(sz); x->next(); }
        ps.push_back({x, sz, {}, liveRequests() - lv});
        p = &ps.back();
        read(*p, "perm");
      }
      { Sut g; m.first->setPos((int)std::max(-1l, std::min(5l, st.num(3)))); }
      ref::Mon src=toMon(*m.first);
      m.second = src;
      Monom* r;
      { Sut g; r = new Monom(al, *m.first); r->permutation(*m.first, *p->p); }
      ref::Mon got=toMon(*r), want(src);
      for(int j=0; j < sz; j++) want.e[j] = src.e[p->v[j]];
      ref::Mon inv(src);
      for(int j=0; j < sz; j++) inv.e[p->v[j]] = src.e[j];
      int deg=r->degree();
      if (toMon(*m.first) != src) fail("permute-source", "permuting changed the source");
      { Sut g; delete r; }
      if (got.e != want.e && got.e != inv.e) fail("permute-value", ref::str(src) + " by " + pstr(p->v) + " gives " + ref::str(got));
      if (got.pos != src.pos) fail("permute-component", ref::str(src) + " gives " + ref::str(got));
      if (deg != src.deg()) fail("permute-degree", "degree " + std::to_string(deg) + " of " + ref::str(got));
      obs("permute", ref::str(got));
    }
    for(auto& m: ms) if (toMon(*m.first) != m.second) fail("random-interference", "another monomial changed: " + ref::str(m.second) + " -> " + ref::str(toMon(*m.first)));
  }
  for(auto& p: ps) drop(p);
}
Reg r2("random", genRandom, runRandom);
}
}
