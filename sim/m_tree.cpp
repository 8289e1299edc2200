// Divisor trees against the Janet division by definition, and monomial completion.
#include "core.h"
#include "sutil.h"
#include "ginv/janet.h"
#include "ginv/mcompletion.h"
#include "util/hilbertpoly.h"

namespace sim {
using namespace GInv;
namespace {
uint64_t forced() { return S->faults[F_GC_FORCED]; }

std::string monText(Rng& r, int n, int deg, int comp) {
  std::vector<int> e(n, 0);
  int d=r.in(0, 99) < 3 ? 0 : r.in(1, deg);
  bool heavy=r.p(30);
  int v=r.in(0, n - 1);
  while(d--) { e[v]++; if (!heavy || r.p(30)) v = r.in(0, n - 1); }
  std::string s=std::to_string(comp) + ":";
  for(int i=0; i < n; i++) s += (i ? "," : "") + std::to_string(e[i]);
  return s;
}
std::string setText(const std::vector<ref::Mon>& u) {
  std::string s="{";
  for(auto& m: u) s += ref::str(m) + " ";
  return s + "}";
}
}
// the reported polynomial must agree with counting, from the degree on where both are polynomial
void checkHilbert(HilbertPoly& hp, const std::vector<ref::Mon>& lead, int n, const std::vector<int>& comps, const std::string& what) {
  std::vector<mpq_class> c;
  for(int k=0; k <= hp.dim(); k++) {
    std::string t;
    const char* p=sut([&] { return hp[k]; });
    t.assign(p ? p : "0");
    mpq_class q;
    if (q.set_str(t, 10)) fail("hilbert", what + ": coefficient '" + t + "' is not a number");
    q.canonicalize();
    c.push_back(q);
  }
  int s0=0;
  for(int v=0; v < n; v++) {
    int m=0;
    for(auto& l: lead) m = std::max(m, l.e[v]);
    s0 += m;
  }
  std::vector<long> tot(s0 + n + 3, 0);
  for(int pos: comps) {
    std::vector<long> per;
    ref::countStd(lead, n, pos, s0 + n + 2, per);
    long sum=0;
    for(size_t d=0; d < per.size(); d++) { sum += per[d]; tot[d] += sum; }
  }
  for(int s=s0; s <= s0 + n + 1; s++) {
    mpq_class v=0, x=1;
    for(auto& q: c) { v += q*x; x *= s; }
    if (v != mpq_class(tot[s])) fail("hilbert", what + ": value at " + std::to_string(s) + " is " + v.get_str() + " but " + std::to_string(tot[s]) + " monomials up to that degree are outside " + setText(lead));
  }
}
namespace {
// ------------------------------------------------------------------ trees
struct Tree { GCJanet* t; std::vector<Wrap*> w; std::vector<ref::Mon> u; int comp; };

void genTree(const std::string& prop, Rng& r, Scenario& s) {
  int n=r.in(1, 4), k=r.in(12, 80), failing=prop == "P04", deg=r.p(25) ? 12 : r.in(2, 6), trees=r.in(1, 3);
  if (r.p(15)) { n = r.in(5, 8); deg = 4; }
  if (prop == "P18") { n = r.in(1, 3); deg = r.p(30) ? (n == 1 ? r.in(5, 200) : n == 2 ? r.in(5, 40) : r.in(5, 12)) : r.in(1, 5); trees = 1; }
  s.set("n", n);
  auto T=[](long x) { return std::to_string(x); };
  for(int i=0; i < trees; i++) s.addn("tree", {r.p(50) ? -1 : r.in(0, 3)});
  for(int i=0; i < k; i++) {
    int w=r.in(0, 99), a=r.in(0, 3);
    if (w < 45) s.add("insert", {T(a), monText(r, n, deg, -1)});
    else if (w < 62) s.add("find", {T(a), monText(r, n, deg + 3, -1)});
    else if (w < 66) s.addn("swap", {a, r.in(0, 3)});
    else if (w < 70) s.addn("copy", {a, r.in(0, 1)});
    else if (w < 72) s.addn("tree", {r.in(-1, 3)});
    else if (w < 74) s.addn("destroy", {a});
    else if (w < 79) s.addn("fill", {a, r.in(1, 6)});
    else if (w < (prop == "P18" ? 86 : 80)) s.addn("finish", {a});
    else if (failing && w < 92) s.addn("failcompact", {a, r.in(1, 6)});
    else s.addn("compact", {a});
  }
  if (prop == "P18") s.addn("finish", {0});
}

void walk(Janet::ConstIterator j, std::vector<const Wrap*>& out, int depth=0) {
  while(j) {
    if (j.wrap()) out.push_back(j.wrap());
    if (out.size() > 5000 || depth > 200) return;
    if (j.nextVar()) walk(j.nextVar(), out, depth + 1);
    j.deg();
  }
}

void runTree(const Scenario& s) {
  int n=(int)std::max(1l, std::min(10l, s.num("n", 3)));
  std::vector<Tree> T;
  size_t start=Allocator::currMemory();
  long lv0=liveRequests();
  Rng q(s.seed);
  auto lookup=[&](Tree& t, const ref::Mon& m, const std::string& op) {
    Allocator al[1];
    Monom* x=mkMon(al, m);
    const Wrap* w=sut([&] { return t.t->find(*x); });
    { Sut g; delete x; }
    int e=ref::janetFind(t.u, m);
    int v=-2;
    for(size_t i=0; i < t.w.size(); i++) if (t.w[i] == w) v = (int)i;
    if (!w) v = -1;
    if (v != e) fail("janet-find", op + ": looking up " + ref::str(m) + " in " + setText(t.u) + " gives " + (v == -1 ? "nothing" : v < 0 ? "a stranger" : ref::str(t.u[v])) + " instead of " + (e < 0 ? "nothing" : ref::str(t.u[e])));
    obs("find " + ref::str(m) + " " + std::to_string(v));
    return e;
  };
  auto check=[&](const std::string& op) {
    for(auto& t: T) {
      if (((Janet*)t.t)->size() != (int)t.u.size()) fail("janet-tree", op + ": size " + std::to_string(((Janet*)t.t)->size()) + " of a tree of " + std::to_string(t.u.size()));
      std::string marks;
      for(size_t i=0; i < t.u.size(); i++) {
        ref::Mon lm=toMon(t.w[i]->lm());
        if (lm != t.u[i]) fail("janet-tree", op + ": leading monomial " + ref::str(lm) + " instead of " + ref::str(t.u[i]));
        int multi=0;
        for(int v=0; v < n; v++) {
          bool nm=t.w[i]->NM(v), e=ref::janetNM(t.u, t.u[i], v);
          if (nm != e) fail("janet-nm", op + ": variable " + std::to_string(v) + " of " + ref::str(t.u[i]) + " in " + setText(t.u) + " is marked " + (nm ? "non-multiplicative" : "multiplicative"));
          marks += nm ? '*' : '.';
          multi += !nm;
        }
        if (t.w[i]->multi() != multi) fail("janet-nm", op + ": number of multiplicative variables");
      }
      std::vector<const Wrap*> in;
      walk(t.t->begin(), in);
      std::set<const Wrap*> a(in.begin(), in.end()), b(t.w.begin(), t.w.end());
      if (in.size() != t.w.size() || a != b) fail("janet-tree", op + ": walking the tree meets " + std::to_string(in.size()) + " elements, " + std::to_string(t.w.size()) + " were inserted");
      obs(op + " " + std::to_string(t.u.size()) + marks);
      std::vector<ref::Mon> sorted(t.u);
      std::sort(sorted.begin(), sorted.end());
      state("T" + setText(sorted));
      if (on("P02 P05") && t.u.empty() && t.t->size() != 0) fail("accounting", op + ": an empty tree still uses memory");
      // elements find themselves; random monomials around them
      for(size_t i=0; i < t.u.size(); i++) if (t.u.size() < 12 || i%4 == 0) lookup(t, t.u[i], op);
      if (!t.u.empty())
        for(int i=0; i < 4; i++) {
          ref::Mon m(q.pick(t.u));
          for(int k=q.in(0, 3); k > 0; k--) m.e[q.in(0, n - 1)]++;
          if (q.p(30)) { int v=q.in(0, n - 1); if (m.e[v]) m.e[v]--; }
          lookup(t, m, op);
        }
    }
  };
  auto insert=[&](Tree& t, ref::Mon m, const std::string& op) {
    if (t.u.size() >= 60) return;
    m.pos = t.comp;
    if (lookup(t, m, op) >= 0) return;
    if (m.deg() == 0 && !t.u.empty()) return;
    Allocator al[1];
    Monom* x=mkMon(al, m);
    Wrap* w=sut([&] { return new Wrap(*x); });
    { Sut g; t.t->insert(w); delete x; }
    t.w.push_back(w);
    t.u.push_back(m);
  };
  auto alloc=[](Tree& t) { return t.t->alloc(); };
  for(size_t k=0; k < s.steps.size(); k++) {
    q = Rng(mix2(s.seed, s.steps[k].id));
    const Step& st=s.steps[k];
    beginStep(st, (int)k);
    if (st.op == "tree") {
      if (T.size() < 3) T.push_back({sut([] { return new GCJanet; }), {}, {}, (int)std::max(-1l, std::min(9l, st.num(0)))});
      continue;
    }
    if (T.empty()) continue;
    size_t ti=(size_t)std::max(0l, st.num(0))%T.size();
    Tree& t=T[ti];
    if (st.op == "insert") insert(t, mparse(st.str(1), n), "insert");
    else if (st.op == "find") {
      ref::Mon m=mparse(st.str(1), n);
      m.pos = t.comp;
      lookup(t, m, "find");
    }
    else if (st.op == "fill") {        // adds missing prolongations of elements, as completion does
      for(long c=std::min(10l, st.num(1)); c > 0; c--) {
        bool done=false;
        for(size_t i=0; i < t.u.size() && !done; i++)
          for(int v=0; v < n && !done; v++)
            if (t.w[i]->NM(v)) {
              ref::Mon m(t.u[i]);
              m.e[v]++;
              if (ref::janetFind(t.u, m) < 0) { insert(t, m, "fill"); done = true; }
            }
        if (!done) break;
      }
    }
    else if (st.op == "finish") {
      std::vector<ref::Mon> u(t.u);
      bool fits=true;
      for(;;) {                        // smallest missing prolongation first: terminates
        ref::Mon best;
        bool found=false;
        for(auto& x: u)
          for(int v=0; v < n; v++)
            if (ref::janetNM(u, x, v)) {
              ref::Mon m(x);
              m.e[v]++;
              if (ref::janetFind(u, m) < 0 && (!found || m.deg() < best.deg())) { best = m; found = true; }
            }
        if (!found) break;
        u.push_back(best);
        if (u.size() > 50) { fits = false; break; }
      }
      if (!fits) continue;
      for(size_t i=t.u.size(); i < u.size(); i++) insert(t, u[i], "finish");
      if (t.u.empty() || n > 4) continue;
      int s0=0;
      for(int v=0; v < n; v++) { int m=0; for(auto& l: t.u) m = std::max(m, l.e[v]); s0 += m; }
      if (s0 > 22) continue;
      HilbertPoly* hp=sut([] { return new HilbertPoly; });
      { Sut g; t.t->buildHP(*hp); }
      probe(14);
      checkHilbert(*hp, t.u, n, {t.comp}, "tree");
      Sut g;
      delete hp;
    }
    else if (st.op == "swap") {
      size_t u=(size_t)std::max(0l, st.num(1))%T.size();
      if (u == ti) continue;
      { Sut g; t.t->swap(*T[u].t); }
      std::swap(t.w, T[u].w);
      std::swap(t.u, T[u].u);
      std::swap(t.comp, T[u].comp);
    }
    else if (st.op == "copy") {          // marks live in the elements, so only one of the two goes on
      GCJanet* c=sut([&] { return new GCJanet((const GCJanet&)*t.t); });
      GCJanet* old=t.t;
      if (st.num(1)) t.t = c;
      else { t.t = c; check("copy"); t.t = old; }
      Sut g;
      delete (st.num(1) ? old : c);
    }
    else if (st.op == "destroy") {
      { Sut g; delete t.t; for(auto w: t.w) delete w; }
      T.erase(T.begin() + ti);
    }
    else if (st.op == "compact") {
      uint64_t f=forced();
      { Sut g; t.t->reallocate(); }
      if (forced() > f) {
        if (!t.u.empty()) probe(4);
        size_t need=t.u.size()*(n + 1)*64 + 128;
        if (on("P05 P02") && (t.t->size() > need || alloc(t) > 2*need + 2*(size_t)simPage + 1024))
          fail("compaction-keeps-memory", "after a compaction a tree of " + std::to_string(t.u.size()) + " elements takes " + std::to_string(alloc(t)) + " bytes");
      }
    }
    else if (st.op == "failcompact") {
      size_t ac=alloc(t), cur=Allocator::currMemory();
      long lv=liveRequests();
      int mode=env.gcMode;
      env.gcMode = 1;
      armFailure(std::max(1l, st.num(1)));
      bool threw=false;
      try { Sut g; t.t->reallocate(); } catch(const std::bad_alloc&) { threw = true; }
      bool was=failureFired();
      disarm();
      if (was != threw) fail("refusal-hidden", "compaction of a tree: refusal and report do not match");
      if (threw) {
        probe(2);
        if (alloc(t) != ac || Allocator::currMemory() != cur) fail("refusal-accounting", "a refused compaction of a tree changed the memory accounting");
        if (liveRequests() != lv) fail("refusal-leak", "a refused compaction left system requests outstanding");
        if (!errText.empty()) fail("refusal-diagnostic", "a refused compaction reports a leak: " + errText.substr(0, 200));
        check("refused compaction");
        Sut g;
        t.t->reallocate();
      }
      env.gcMode = mode;
    }
    check(st.op);
  }
  for(auto& t: T) { Sut g; delete t.t; for(auto w: t.w) delete w; }
  if (on("P02 P04")) {
    if (Allocator::currMemory() != start) fail("accounting", "current memory is not back where it started");
    if (liveRequests() != lv0) fail("leak", std::to_string(liveRequests() - lv0) + " system requests never returned");
    if (!errText.empty()) fail("accounting", "diagnostic: " + errText);
  }
}
Reg r1("tree", genTree, runTree);

// ------------------------------------------------------------------ monomial completion
typedef int (*Cmp)(const Wrap&, const Wrap&);
const Cmp CMP[7]={MCompletion::lex, MCompletion::deglex, MCompletion::alex, MCompletion::lexGB, MCompletion::deglexGB, MCompletion::alexGB, MCompletion::GB};
struct Compl { MCompletion* c; MJanet* j; int alg, arena; std::vector<ref::Mon> in; bool built; };

void genCompl(const std::string&, Rng& r, Scenario& s) {
  int n=r.p(8) ? r.in(5, 6) : r.in(1, 4), k=r.in(8, n > 4 ? 16 : 40), deg=r.in(2, n > 4 ? 2 : n > 3 ? 4 : 6);
  s.set("n", n);
  auto T=[](long x) { return std::to_string(x); };
  s.add("arena");
  s.addn("new", {r.in(0, 7), 0});
  for(int i=0; i < k; i++) {
    int w=r.in(0, 99), a=r.in(0, 3);
    if (w < 3) s.add("arena");
    else if (w < 13) s.addn("new", {r.in(0, 7), r.in(0, 2)});
    else if (w < 60) s.add("push", {T(a), monText(r, n, deg, -1)});
    else if (w < 72) s.addn("build", {a});
    else if (w < 95) s.add("find", {T(a), monText(r, n, deg + 4, -1)});
    else s.addn("destroy", {a});
  }
  for(int a=0; a < 3; a++) s.addn("build", {a});
}
void runCompl(const Scenario& s) {
  int n=(int)std::max(1l, std::min(6l, s.num("n", 3)));
  std::vector<Allocator*> A;
  std::vector<Compl> C;
  size_t start=Allocator::currMemory();
  long lv0=liveRequests();
  Rng q(s.seed);
  auto elements=[&](Compl& c) {
    std::vector<const Wrap*> w;
    if (c.j) walk(c.j->tree().begin(), w);
    else for(ListWrap::ConstIterator j(c.c->T().begin()); j && w.size() < 5000; ++j) w.push_back(j.data());
    return w;
  };
  auto lookup=[&](Compl& c, const ref::Mon& m) {
    Allocator al[1];
    Monom* x=mkMon(al, m);
    const Wrap* w=sut([&]() -> const Wrap* { return c.j ? c.j->tree().find(*x) : c.c->find(*x); });
    { Sut g; delete x; }
    bool in=false;
    for(auto& g: c.in) in = in || ref::divides(g, m);
    if (in != (w != nullptr)) fail("completion-find", "looking up " + ref::str(m) + (in ? " finds nothing although a generator divides it" : " finds " + ref::str(toMon(w->lm())) + " although no generator divides it"));
    if (w && !ref::divides(toMon(w->lm()), m)) fail("completion-find", "looking up " + ref::str(m) + " gives " + ref::str(toMon(w->lm())) + " which does not divide it");
    obs("find " + ref::str(m) + (w ? ref::str(toMon(w->lm())) : "-"));
  };
  auto judgeBuilt=[&](Compl& c) {
    std::vector<const Wrap*> w=elements(c);
    std::vector<ref::Mon> u;
    for(auto x: w) u.push_back(toMon(x->lm()));
    int len=c.j ? c.j->tree().size() : c.c->length();
    if (len != (int)u.size()) fail("completion-size", "length " + std::to_string(len) + " of " + std::to_string(u.size()) + " elements");
    for(auto& x: u) {
      bool ok=false;
      for(auto& g: c.in) ok = ok || ref::divides(g, x);
      if (!ok) fail("completion-ideal", ref::str(x) + " is not a multiple of a generator of " + setText(c.in));
    }
    for(auto& g: c.in)
      if (std::find(u.begin(), u.end(), g) == u.end()) {
        bool ok=false;
        for(auto& x: u) ok = ok || ref::divides(x, g);
        if (!ok) fail("completion-ideal", "generator " + ref::str(g) + " is lost");
      }
    std::set<ref::Mon> uniq(u.begin(), u.end());
    bool janet=c.j || c.alg == 0;
    if (janet && uniq.size() != u.size()) fail("completion-size", "an element appears twice");
    for(size_t i=0; i < w.size(); i++)
      for(int v=0; v < n && janet; v++)
        if (w[i]->NM(v) != ref::janetNM(u, u[i], v)) fail("completion-nm", "variable " + std::to_string(v) + " of " + ref::str(u[i]) + " in " + setText(u) + " is marked " + (w[i]->NM(v) ? "non-multiplicative" : "multiplicative"));
    // marks make every member findable, by the elements' own marks too
    for(int t=0; t < 12 && !u.empty(); t++) {
      ref::Mon m(q.pick(u));
      for(int k=q.in(0, 5); k > 0; k--) m.e[q.in(0, n - 1)]++;
      lookup(c, m);
      int cnt=0;
      for(size_t i=0; i < w.size(); i++) {
        bool ok=true;
        for(int v=0; ok && v < n; v++) ok = u[i].e[v] == m.e[v] || (u[i].e[v] < m.e[v] && !w[i]->NM(v));
        cnt += ok;
      }
      if (cnt == 0 || (janet && cnt > 1)) fail("completion-nm", ref::str(m) + " has " + std::to_string(cnt) + " involutive divisors among " + setText(u));
    }
    for(int t=0; t < 6; t++) {
      ref::Mon m(n, -1);
      for(int k=q.in(0, 7); k > 0; k--) m.e[q.in(0, n - 1)]++;
      lookup(c, m);
    }
    std::sort(u.begin(), u.end());
    state("C" + std::to_string(c.alg) + setText(u));
    obs("built " + std::to_string(len));
    if (u.size() > c.in.size()) probe(15);
  };
  for(size_t k=0; k < s.steps.size(); k++) {
    q = Rng(mix2(s.seed, s.steps[k].id));
    const Step& st=s.steps[k];
    beginStep(st, (int)k);
    if (st.op == "arena") { if (A.size() < 2) A.push_back(sut([] { return new Allocator; })); continue; }
    if (A.empty()) continue;
    if (st.op == "new") {
      if (C.size() >= 4) continue;
      int alg=(int)(std::max(0l, st.num(0))%8), a=(int)(std::max(0l, st.num(1))%A.size());
      Compl c{nullptr, nullptr, alg, a, {}, false};
      { Sut g; if (alg == 7) c.j = new MJanet(A[a]); else c.c = new MCompletion(A[a], CMP[alg]); }
      C.push_back(c);
    }
    else if (!C.empty()) {
      size_t ci=(size_t)std::max(0l, st.num(0))%C.size();
      Compl& c=C[ci];
      if (st.op == "push") {
        ref::Mon m=mparse(st.str(1), n);
        m.pos = -1;
        if (c.in.size() >= 7 || c.built) continue;
        if (c.j) {
          std::vector<ref::Mon> u;
          for(auto x: elements(c)) u.push_back(toMon(x->lm()));
          if (ref::janetFind(u, m) >= 0 || (m.deg() == 0 && !u.empty())) continue;
        }
        else if (std::find(c.in.begin(), c.in.end(), m) != c.in.end()) { probe(16); fault(F_DUPLICATE); }
        Allocator al[1];
        Monom* x=mkMon(al, m);
        { Sut g; if (c.j) c.j->push(*x); else c.c->push(*x); delete x; }
        c.in.push_back(m);
      }
      else if (st.op == "build") {
        setWorkLimit(4000000);
        { Sut g; if (c.j) c.j->build(); else c.c->build(); }
        setWorkLimit(0);
        c.built = true;
        judgeBuilt(c);
      }
      else if (st.op == "find") {
        if (!c.built) continue;
        ref::Mon m=mparse(st.str(1), n);
        m.pos = -1;
        lookup(c, m);
      }
      else if (st.op == "destroy") {
        { Sut g; delete c.c; delete c.j; }
        C.erase(C.begin() + ci);
      }
    }
    if (on("P02"))
      for(size_t a=0; a < A.size(); a++) {
        bool used=false;
        for(auto& c: C) if (c.arena == (int)a) used = true;
        if (!used && A[a]->size() != 0) fail("accounting", st.op + ": no completion left in an arena that reports " + std::to_string(A[a]->size()) + " bytes in use");
      }
  }
  for(auto& c: C) { Sut g; delete c.c; delete c.j; }
  for(auto a: A) {
    if (on("P02") && a->size() != 0) fail("accounting", "all completions gone but an arena reports " + std::to_string(a->size()) + " bytes in use");
    Sut g;
    delete a;
  }
  if (on("P02")) {
    if (Allocator::currMemory() != start) fail("accounting", "current memory is not back where it started");
    if (liveRequests() != lv0) fail("leak", std::to_string(liveRequests() - lv0) + " system requests never returned");
    if (!errText.empty()) fail("accounting", "diagnostic: " + errText);
  }
}
Reg r2("compl", genCompl, runCompl);
}
}
