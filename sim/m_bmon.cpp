// Boolean monomials (sets of variables): every history of operations against sets.
#include "core.h"
#include "sutil.h"
#include "ginv/bmonom.h"
#include <set>
#include <sstream>

namespace sim {
namespace {
using GInv::BMonom;
using GInv::Allocator;
typedef std::set<int, std::greater<int> > Vars;
struct Bo { BMonom* p; int arena; Vars v; };

void genBool(const std::string&, Rng& r, Scenario& s) {
  int k=r.in(15, 80), top=r.p(15) ? 60 : r.p(50) ? 4 : 9;
  bool wide=r.p(10);
  auto var=[&] { return wide && r.p(50) ? (long)r.in(-2147483647, 2147483647) : (long)r.in(0, top); };
  for(int i=0; i < 3; i++) s.addn("var", {r.in(0, 1), var()});
  for(int i=0; i < k; i++) {
    int w=r.in(0, 99), a=r.in(0, 8), b=r.in(0, 8), c=r.in(0, 8);
    if (w < 4) s.addn("unit", {r.in(0, 1)});
    else if (w < 14) s.addn("var", {r.in(0, 1), var()});
    else if (w < 20) s.addn("copy", {r.in(0, 1), a});
    else if (w < 38) s.addn("times", {r.in(0, 1), a, var()});
    else if (w < 54) s.addn("product", {r.in(0, 1), a, b});
    else if (w < 60) s.addn("swap", {a, b});
    else if (w < 70) s.addn("assign", {a, b});
    else if (w < 84) s.addn("div", {a, b, c});
    else s.addn("destroy", {a});
  }
}
std::string text(const Vars& v) {
  std::string r;
  for(int x: v) r += (r.empty() ? "[" : " ") + std::to_string(x);
  return r.empty() ? "1" : r + "]";
}
int order(const Vars& a, const Vars& b) {        // by number of variables, then by the smallest variable that differs
  if (a.size() != b.size()) return a.size() > b.size() ? 1 : -1;
  for(auto i=a.rbegin(), j=b.rbegin(); i != a.rend(); ++i, ++j) if (*i != *j) return *i > *j ? 1 : -1;
  return 0;
}
void runBool(const Scenario& s) {
  const long lv0=liveRequests();
  const size_t start=Allocator::currMemory();
  Allocator* A[2];
  { Sut g; A[0] = new Allocator; A[1] = new Allocator; }
  std::vector<Bo> P;
  auto add=[&](int ar, const Vars& v, const std::function<BMonom*(Allocator*)>& f) {
    if (P.size() >= 10) return;
    BMonom* p=sut([&] { return f(A[ar]); });
    P.push_back({p, ar, v});
  };
  for(size_t q=0; q < s.steps.size(); q++) {
    const Step& st=s.steps[q];
    beginStep(st, (int)q);
    int ar=(int)(std::max(0l, st.num(0))%2);
    auto at=[&](int k) -> Bo& { return P[(size_t)std::max(0l, st.num(k))%P.size()]; };
    if (st.op == "unit") add(ar, {}, [](Allocator* a) { return new BMonom(a); });
    else if (st.op == "var") add(ar, {(int)st.num(1)}, [&](Allocator* a) { return new BMonom((int)st.num(1), a); });
    else if (P.empty()) continue;
    else if (st.op == "copy") { Vars v=at(1).v; BMonom* x=at(1).p; add(ar, v, [&](Allocator* a) { return new BMonom(*x, a); }); }
    else if (st.op == "times") {
      Vars v=at(1).v;
      BMonom* x=at(1).p;
      v.insert((int)st.num(2));
      add(ar, v, [&](Allocator* a) { return new BMonom(*x, (int)st.num(2), a); });
    }
    else if (st.op == "product") {
      Vars v=at(1).v;
      BMonom *x=at(1).p, *y=at(2).p;
      v.insert(at(2).v.begin(), at(2).v.end());
      if (v.size() > 200) continue;
      add(ar, v, [&](Allocator* a) { return new BMonom(*x, *y, a); });
    }
    else if (st.op == "swap") {
      Bo &x=at(0), &y=at(1);
      if (&x == &y) continue;
      { Sut g; x.p->swap(*y.p); }
      std::swap(x.v, y.v);
      std::swap(x.arena, y.arena);
    }
    else if (st.op == "assign") {
      Bo &x=at(0), &y=at(1);
      if (&x == &y) continue;
      { Sut g; *x.p = *y.p; }
      x.v = y.v;
    }
    else if (st.op == "div") {
      Bo &x=at(0), &y=at(1), &z=at(2);
      if (&x == &y || &x == &z) continue;
      bool ok=true;
      for(int v: z.v) ok = ok && y.v.count(v);
      if (!ok) continue;
      { Sut g; x.p->div(*y.p, *z.p); }
      Vars v=y.v;
      for(int u: z.v) v.erase(u);
      x.v = v;
    }
    else if (st.op == "destroy") {
      Bo x=at(0);
      { Sut g; delete x.p; }
      P.erase(P.begin() + (&at(0) - &P[0]));
    }
    std::string o;
    size_t need[2]={0, 0};
    for(size_t i=0; i < P.size(); i++) {
      Bo& x=P[i];
      std::string w=st.op + ": monomial " + std::to_string(i) + " " + text(x.v);
      if (x.p->degree() != (int)x.v.size() || x.p->isZero() != x.v.empty() || (bool)*x.p == x.v.empty()) fail("bool-monomial", w + " reports degree " + std::to_string(x.p->degree()));
      int k=0;
      for(int v: x.v) if ((*x.p)[k++] != v) fail("bool-monomial", w + " has the variable " + std::to_string((*x.p)[k - 1]) + " in place " + std::to_string(k - 1));
      if (!x.p->assertValid()) fail("bool-monomial", w + " calls itself invalid");
      std::ostringstream t;
      { Sut g; t << *x.p; }
      if (t.str() != text(x.v)) fail("bool-monomial", w + " is written " + t.str());
      for(size_t j=0; j < P.size(); j++) {
        Bo& y=P[j];
        bool d=true;
        for(int v: y.v) d = d && x.v.count(v);
        if (x.p->divisible(*y.p) != d) fail("bool-monomial", w + (d ? " is not" : " is") + " found divisible by " + text(y.v));
        int c=x.p->compare(*y.p), e=order(x.v, y.v);
        if ((c > 0) - (c < 0) != e) fail("bool-monomial", w + " compares " + std::to_string(c) + " with " + text(y.v));
      }
      need[x.arena] += 4*x.v.size();
      o += text(x.v) + " ";
      state(text(x.v));
    }
    for(int a=0; a < 2; a++) {
      bool any=false;
      for(auto& x: P) if (x.arena == a) any = true;
      if (A[a]->size() < need[a] || (!any && A[a]->size())) fail("bool-accounting", st.op + ": an arena reports " + std::to_string(A[a]->size()) + " bytes in use");
    }
    obs(o);
  }
  for(auto& x: P) { Sut g; delete x.p; }
  for(int a=0; a < 2; a++) if (A[a]->size()) fail("bool-accounting", "all monomials gone but an arena reports " + std::to_string(A[a]->size()) + " bytes in use");
  { Sut g; delete A[0]; delete A[1]; }
  if (Allocator::currMemory() != start) fail("accounting", "current memory is " + std::to_string(Allocator::currMemory()) + " instead of " + std::to_string(start));
  if (liveRequests() != lv0) fail("leak", std::to_string(liveRequests() - lv0) + " system requests never returned");
}
Reg r1("bool", genBool, runBool);
}
}
