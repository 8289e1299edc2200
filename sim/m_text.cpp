// Texts written for objects: what a stream receives denotes the object; streams that refuse output in the middle change nothing.
#include "sutil.h"
#include "ginv/wrap.h"
#include "util/hilbertpoly.h"
#include "util/randpermutation.h"
#include "util/timer.h"
#include "util/integer.h"
#include <gmpxx.h>
#include <streambuf>
#include <iomanip>
#include <sstream>

namespace sim {
namespace {
using GInv::HilbertPoly;
using GInv::Integer;
using GInv::Timer;
using GInv::Wrap;
using GInv::GCPolyInt;

// --- texts read back, written from the format alone
struct Reader {
  const std::string& s;
  size_t i=0;
  bool ok=true;
  explicit Reader(const std::string& t): s(t) {}
  bool lit(const char* t) { size_t n=strlen(t); if (ok && s.compare(i, n, t) == 0) { i += n; return true; } return ok = false; }
  bool at(char c) { return i < s.size() && s[i] == c; }
  bool ats(const char* t) { return s.compare(i, strlen(t), t) == 0; }
  std::string digits() { size_t b=i; while(i < s.size() && isdigit((unsigned char)s[i])) i++; if (b == i) ok = false; return s.substr(b, i - b); }
  std::string number() { std::string g=at('-') ? (i++, "-") : ""; return g + digits(); }
  long integer() { std::string t=number(); return ok ? strtol(t.c_str(), nullptr, 10) : 0; }
  ref::Mon mon() {
    ref::Mon m;
    lit("[");
    long a=integer();
    if (at(':')) { i++; m.pos = (int)a; a = integer(); if (m.pos < 0) ok = false; }
    m.e.push_back((int)a);
    while(ok && at(' ')) { i++; m.e.push_back((int)integer()); }
    lit("]");
    return m;
  }
  bool end() { return ok && i == s.size(); }
};

// --- sinks
struct Sink: std::streambuf {
  std::string got;
  size_t room;
  explicit Sink(size_t n): room(n) {}
  int_type overflow(int_type c) override {
    if (got.size() >= room) { fault(F_WRITE_FAIL); return traits_type::eof(); }
    if (c != traits_type::eof()) { Out o; got.push_back((char)c); }
    return c;
  }
  std::streamsize xsputn(const char* p, std::streamsize n) override {
    size_t k=std::min((size_t)n, room - std::min(room, got.size()));
    { Out o; got.append(p, k); }
    if (k < (size_t)n) fault(F_WRITE_FAIL);
    return (std::streamsize)k;
  }
  struct Out { bool was; Out(); ~Out(); };
};
Sink::Out::Out(): was(pauseSut()) {}
Sink::Out::~Out() { resumeSut(was); }

// --- objects
struct Obj {
  char kind;                        // m monomial, p polynomial, w basis element, h Hilbert polynomial, r permutation, t timer, i integer
  Allocator* al=nullptr;
  Monom* m=nullptr;
  PolyInt* p=nullptr;
  GCPolyInt* g=nullptr;
  Wrap *w=nullptr, *w2=nullptr;
  HilbertPoly* h=nullptr;
  GInv::RandPermutation_mt19937* r=nullptr;
  Timer* t=nullptr;
  Integer* z=nullptr;
  ref::Poly v;
  ref::Mon mv, av;
  std::vector<bool> nm;
  std::vector<mpq_class> c;
  mpz_class n;
  int base=10;
};
void write(std::ostream& o, const Obj& x) {       // runs under the guard
  switch(x.kind) {
  case 'm': o << *x.m; break;
  case 'p': if (x.g) o << *x.g; else o << *x.p; break;
  case 'w': o << *(x.w2 ? x.w2 : x.w); break;
  case 'h': o << *x.h; break;
  case 'r': o << *x.r; break;
  case 't': o << *x.t; break;
  default: o << x.z->get_str(x.base);
  }
}
void denotes(const Obj& x, const std::string& s) {
  Reader q(s);
  std::string cut=s.substr(0, 300);
  switch(x.kind) {
  case 'm': {
    ref::Mon m=q.mon();
    if (!q.end() || m != x.mv) fail("text", "monomial " + ref::str(x.mv) + " is written " + cut);
    break;
  }
  case 'p': {
    ref::Poly v(x.v.ord);
    if (s == "0") q.i = 1;
    else
      do {
        if (!v.t.empty()) q.lit(" + ");
        ref::Mon m=q.mon();
        q.lit("*");
        std::string k=q.number();
        if (q.ok) v.t.push_back({m, mpz_class(k)});
      } while(q.ok && q.i < s.size());
    if (!q.end() || v != x.v) fail("text", "polynomial " + ref::str(x.v).substr(0, 300) + " is written " + cut);
    break;
  }
  case 'w': {
    ref::Mon m=q.mon(), a=q.mon();
    std::vector<bool> nm;
    q.lit("[");
    while(q.ok && q.i < s.size() && !q.at(']')) { if (!q.at('*') && !q.at(' ')) q.ok = false; nm.push_back(q.at('*')); q.i++; }
    q.lit("]");
    if (!q.end() || m != x.mv || a != x.av || nm != x.nm) fail("text", "element " + ref::str(x.mv) + " with ancestor " + ref::str(x.av) + " is written " + cut);
    break;
  }
  case 'h': {
    std::vector<mpq_class> c(x.c.size(), 0);
    std::vector<bool> seen(x.c.size(), false);
    bool first=true;
    while(q.ok && (first || q.i < s.size())) {
      std::string g;
      if (first) { if (q.at('-')) { q.i++; g = "-"; } }
      else if (q.ats(" - ")) { q.i += 3; g = "-"; }
      else q.lit(" + ");
      std::string k=g + q.digits();
      if (q.at('/')) { q.i++; k += "/" + q.digits(); }
      size_t e=0;
      if (q.at('s')) { q.lit("s^"); e = (size_t)q.integer(); }
      if (!q.ok || e >= c.size() || seen[e]) { q.ok = false; break; }
      seen[e] = true;
      if (c[e].set_str(k, 10)) q.ok = false;
      first = false;
    }
    if (!q.end() || c != x.c) fail("text", "a Hilbert polynomial with constant term " + x.c[0].get_str().substr(0, 100) + " is written '" + cut + "'");
    break;
  }
  case 'r': {
    std::vector<long> v;
    q.lit("(");
    v.push_back(q.integer());
    while(q.ok && q.at(' ')) { q.i++; v.push_back(q.integer()); }
    q.lit(")");
    bool same=(int)v.size() == x.r->size();
    for(size_t i=0; same && i < v.size(); i++) same = v[i] == (*x.r)[(int)i];
    if (!q.end() || !same) fail("text", "a permutation is written " + cut);
    break;
  }
  case 't': {
    char b[300];
    snprintf(b, sizeof b, "  real time: %.2f sec\n  user time: %.2f sec\nsystem time: %.2f sec\n", x.t->realTime(), x.t->userTime(), x.t->sysTime());
    if (s != b) fail("text", "a timer is written\n" + s + "instead of\n" + b);
    break;
  }
  default: {
    mpz_class n;
    if (s.empty() || n.set_str(s, x.base) || n != x.n) fail("text", "integer " + x.n.get_str().substr(0, 100) + " in base " + std::to_string(x.base) + " is written " + cut);
    if (x.base == 10 && s != x.n.get_str()) fail("text", "integer " + x.n.get_str().substr(0, 100) + " is written " + cut);
  }
  }
}

const int ORD[]={0x11, 0x12, 0x14, 0x21, 0x22, 0x24};

void genText(const std::string&, Rng& r, Scenario& s) {
  int n=r.p(15) ? r.in(7, 20) : r.in(1, 6), comps=r.p(45) ? r.in(1, 12) : 0, k=r.in(10, 60);
  s.set("n", n);
  s.set("ord", ORD[r.in(0, 5)]);
  auto T=[](long x) { return std::to_string(x); };
  auto mon=[&] {
    ref::Mon m(n, r.p(45) ? r.in(0, 12) : -1);
    for(int i=0; i < n; i++) m.e[i] = r.p(40) ? 0 : r.p(85) ? r.in(0, 12) : r.in(0, 20000);
    return m;
  };
  for(int i=0; i < k; i++) {
    int w=r.in(0, 99), a=r.in(0, 5), b=r.in(0, 5);
    if (w < 6 || i < 2) s.add("monom", {mtext(mon())});
    else if (w < 16) s.add("poly", {r.p(12) ? "0" : ptext(randomPoly(r, (int)s.num("ord"), n, 6, 6, comps, r.p(50) ? 9 : 1000000, true)), T(r.in(0, 1))});
    else if (w < 22) { ref::Mon m=mon(); for(int& e: m.e) e = e%50; s.add("wrap", {mtext(m), T(r.in(0, 65535)), T(r.in(-1, n - 1)), T(r.in(0, 65535)), T(r.p(50) ? 0 : r.in(0, 65535))}); }
    else if (w < 28) s.addn("hilbert", {r.in(0, 6)});
    else if (w < 31) s.addn("perm", {r.p(20) ? 1 : r.in(1, 30), r.in(0, 3)});
    else if (w < 34) s.add("timer");
    else if (w < 38) s.addn("integer", {r.p(8) ? 0 : r.p(96) ? r.in(-3, 300) : r.in(200000, 260000), r.in(0, 1000000), r.in(2, 62)});
    else if (w < 46) s.addn("change", {a, r.in(-9, 9), r.in(0, 9)});
    else if (w < 49) s.addn("compact", {a});
    else if (w < 52) s.addn("destroy", {a});
    else if (w < 55) s.addn("tick", {r.in(0, 100000), r.in(0, 1000)});
    else if (w < 75) s.addn("write", {a, r.in(0, 5), r.in(0, 17)});
    else if (w < 85) s.addn("two", {a, b});
    else s.addn("broken", {a, r.p(50) ? r.in(0, 12) : r.in(0, 200), r.in(0, 1)});
  }
  if (r.p(1)) {   // coefficients that outgrow the text buffer
    s.addn("destroy", {0});
    s.addn("hilbert", {r.in(0, 2)});
    s.addn("change", {-1, r.p(50) ? 7 : -3, r.in(0, 2)});
    s.addn("grow", {r.in(7200, 9000)});
    s.addn("two", {r.in(0, 5), r.in(0, 5)});
    if (r.p(50)) s.addn("grow", {r.in(2000, 5000)});
  }
}

void runText(const Scenario& s) {
  int n=(int)std::max(1l, std::min(20l, s.num("n", 2))), ord=(int)s.num("ord", 0x12);
  std::vector<Obj> P;
  auto drop=[&](Obj& x) {
    Sut g;
    delete x.m; delete x.p; delete x.g; delete x.w2; delete x.w; delete x.h; delete x.r; delete x.t; delete x.z;
    delete x.al;
  };
  auto text=[&](const Obj& x) {
    std::ostringstream o;
    { Sut g; write(o, x); }
    return o.str();
  };
  for(size_t i=0; i < s.steps.size(); i++) {
    const Step& st=s.steps[i];
    beginStep(st, (int)i);
    Obj x;
    if (st.op == "tick") { simClock.real += std::max(0l, st.num(0)); simClock.user += std::max(0l, st.num(1)); simClock.sys += std::max(0l, st.num(1))/3; fault(F_CLOCK_TICK); continue; }
    bool made=true;
    if (P.size() >= 6) made = false;
    else if (st.op == "monom") {
      x.kind = 'm';
      x.mv = mparse(st.str(0), n);
      x.al = sut([] { return new Allocator; });
      x.m = mkMon(x.al, x.mv);
    }
    else if (st.op == "poly") {
      x.kind = 'p';
      x.v = pparse(st.str(0), ord, n);
      x.al = sut([] { return new Allocator; });
      PolyInt* p=sut([&] { return new PolyInt(x.al, ord, n); });
      fillPoly(*p, x.v);
      if (st.num(1)) { x.g = sut([&] { return new GCPolyInt((const PolyInt&)*p); }); Sut g; delete p; }
      else x.p = p;
    }
    else if (st.op == "wrap") {
      x.kind = 'w';
      x.mv = x.av = mparse(st.str(0), n);
      Allocator* al=sut([] { return new Allocator; });
      Monom* m=mkMon(al, x.mv);
      x.w = sut([&] { return new Wrap(*m); });
      { Sut g; delete m; delete al; }
      int v=(int)st.num(2);
      auto flags=[&](Wrap* w, long bits) { x.nm.assign(n, false); Sut g; for(int k=0; k < n; k++) if (bits >> (k%16) & 1) { w->setNM(k); x.nm[k] = true; } };
      flags(x.w, st.num(1));
      if (v >= 0 && v < n) {
        { Sut g; x.w->setNM(v); }
        x.w2 = sut([&] { return new Wrap(v, x.w); });
        x.mv.e[v]++;
        flags(x.w2, st.num(3));
      }
      Wrap* w=x.w2 ? x.w2 : x.w;
      Sut g;
      for(int k=0; k < n; k++) if (st.num(4) >> (k%16) & 1) { if (k%3) w->setNMd(k); else w->setBuild(k); }   // marks the text does not show
    }
    else if (st.op == "hilbert") {
      x.kind = 'h';
      int d=(int)std::max(0l, std::min(8l, st.num(0)));
      x.h = sut([&] { return new HilbertPoly(d); });
      x.c.assign(d + 1, 0);
    }
    else if (st.op == "perm") {
      x.kind = 'r';
      int k=(int)std::max(1l, std::min(60l, st.num(0)));
      x.r = sut([&] { return new GInv::RandPermutation_mt19937(k); });
      for(long q=0; q < st.num(1); q++) { Sut g; x.r->next(); }
    }
    else if (st.op == "timer") { x.kind = 't'; x.t = sut([] { return new Timer; }); Sut g; x.t->start(); }
    else if (st.op == "integer") {
      x.kind = 'i';
      x.base = (int)std::max(2l, std::min(62l, st.num(2, 10)));
      mpz_class two=2;
      mpz_pow_ui(x.n.get_mpz_t(), two.get_mpz_t(), (unsigned long)std::max(0l, std::min(300000l, st.num(0))));
      x.n = st.num(0) < 0 ? mpz_class(-st.num(1)) : st.num(0) == 0 ? mpz_class(0) : mpz_class((x.n + st.num(1))*(st.num(1)%2 ? -1 : 1));
      x.al = sut([] { return new Allocator; });
      std::string h=hex(x.n);
      x.z = sut([&] { return new Integer(x.al, h.c_str()); });
    }
    else made = false;
    if (made) { P.push_back(x); if (x.kind != 't') denotes(P.back(), text(P.back())); }
    else if (!P.empty()) {
      size_t k=st.num(0) < 0 ? P.size() - 1 : (size_t)st.num(0)%P.size();
      Obj& y=P[k];
      if (st.op == "grow") {
        Obj& h=P.back();
        if (h.kind != 'h') continue;
        long q=std::min(12000l, std::max(0l, st.num(0)));
        { Sut g; for(long j=0; j < q; j++) h.h->mult(1000000007); }
        mpz_class f=1000000007;
        mpz_pow_ui(f.get_mpz_t(), f.get_mpz_t(), (unsigned long)q);
        for(auto& c: h.c) c *= f;
        if (h.c[0].get_num() != 0) probe(8);
      }
      else if (st.op == "destroy") { drop(y); P.erase(P.begin() + k); }
      else if (st.op == "change") {
        long a=st.num(1), b=st.num(2);
        if (y.kind == 'h') {
          Obj u;
          int d=(int)y.c.size() - 1;
          HilbertPoly* q=sut([&] { return new HilbertPoly(d); });
          b = b%(d + 1);
          { Sut g; q->binomial(a, (unsigned long)b); if (a%2) y.h->add(*q); else y.h->sub(*q); delete q; }
          std::vector<mpq_class> c(d + 1, 0);
          c[0] = 1;
          for(long p=1; p <= b; p++) {
            mpq_class f(mpz_class(a) - (p - 1), mpz_class(p)), g(1, (unsigned long)p);
            f.canonicalize();
            for(int j=d; j >= 0; j--) c[j] = c[j]*f + (j ? c[j - 1]*g : mpq_class(0));
          }
          for(int j=0; j <= d; j++) if (a%2) y.c[j] += c[j]; else y.c[j] -= c[j];
        }
        else if (y.kind == 'r') { Sut g; y.r->next(); }
        else if (y.kind == 'w') {
          Wrap* w=y.w2 ? y.w2 : y.w;
          int v=(int)(b%n);
          { Sut g; if (a < -4) w->clearNM(); else if (a < 0) w->setNMd(v); else if (a < 4) w->setBuild(v); else w->setNM(v); }
          if (a < -4) y.nm.assign(n, false);
          else if (a >= 4) y.nm[v] = true;
        }
        else if (y.kind == 't') { Sut g; if (a > 3) y.t->start(); else if (a > 0) y.t->cont(); else y.t->stop(); }
        else if (y.kind == 'p') {
          PolyInt& p=y.g ? *(PolyInt*)y.g : *y.p;
          if (a) { std::string t=std::to_string(a); { Sut g; p.mult(t.c_str()); } for(auto& q: y.v.t) q.c *= a; }
        }
      }
      else if (st.op == "compact") { if (y.g) { Sut g; y.g->reallocate(); } }
      else if (st.op == "write") {
        static const std::ios::fmtflags F[]={std::ios::fmtflags(0), std::ios::scientific, std::ios::fixed, std::ios::boolalpha, std::ios::uppercase, std::ios::scientific | std::ios::left};
        std::ostringstream o;
        o.setf(F[std::max(0l, st.num(1))%6], F[std::max(0l, st.num(1))%6] & (std::ios::floatfield | std::ios::adjustfield) ? std::ios::floatfield | std::ios::adjustfield : std::ios::fmtflags(0));
        o.setf(F[std::max(0l, st.num(1))%6]);
        o.precision(st.num(2));
        o.fill('#');
        auto f=o.flags();
        { Sut g; write(o, y); }
        if (o.flags() != f || o.precision() != st.num(2) || o.fill() != '#' || !o.good()) fail("text-format", std::string("writing object of kind ") + y.kind + " leaves the stream with other formatting");
        denotes(y, o.str());
        obs("write", y.kind == 'r' || y.kind == 't' ? "" : o.str().substr(0, 200));
        probe(36);
      }
      else if (st.op == "two") {
        Obj& z=P[(size_t)std::max(0l, st.num(1))%P.size()];
        std::ostringstream o, o2;
        std::string a, b;
        { Sut g; write(o, y); write(o2, z); write(o, z); }
        b = o2.str();
        a = o.str();
        if (a.size() < b.size() || a.substr(a.size() - b.size()) != b) fail("text", "the second of two texts on one stream differs from the text on its own");
        denotes(z, b);
        denotes(y, a.substr(0, a.size() - b.size()));
      }
      else if (st.op == "broken") {
        std::string full=text(y);
        denotes(y, full);
        long live=liveRequests();
        size_t mem=Allocator::currMemory();
        Sink k((size_t)std::max(0l, st.num(1)));
        bool threw=false;
        {
          std::ostream o(&k);
          if (st.num(2)) o.exceptions(std::ios::badbit | std::ios::failbit);
          Sut g;
          try { write(o, y); }
          catch(const std::ios_base::failure&) { threw = true; }
        }
        if (full.compare(0, k.got.size(), k.got) != 0 || (k.room >= full.size() && k.got != full)) fail("text", "a stream that takes " + std::to_string(k.room) + " characters got " + k.got.substr(0, 200) + " of " + full.substr(0, 200));
        if (threw) probe(37);
        if (!threw && liveRequests() != live) fail("text-leak", "writing to a stream that refuses holds on to memory");
        if (Allocator::currMemory() != mem) fail("text-leak", "writing to a stream changes the memory in use");
        denotes(y, text(y));
      }
    }
    for(auto& y: P) denotes(y, text(y));
  }
  for(auto& x: P) drop(x);
}
Reg r1("text", genText, runText);
}
}
