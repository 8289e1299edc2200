// Conversions between the code under test and the reference model.
#ifndef SIM_SUTIL_H
#define SIM_SUTIL_H
#include "core.h"
#include "ref.h"
#include "ginv/poly_int.h"
#include "ginv/mcompletion.h"

namespace sim {
using GInv::Allocator;
using GInv::Monom;
using GInv::PolyInt;

inline ref::Mon toMon(const Monom& m) {
  ref::Mon r(m.size(), m.pos());
  for(int i=0; i < m.size(); i++) r.e[i] = m[i];
  return r;
}
inline mpz_class toInt(const GInv::Integer& a) { return mpz_class(a.get_str(16), 16); }
inline ref::Poly toPoly(const PolyInt& p) {   // as the code shows it, not normalised
  ref::Poly r(p.order());
  for(PolyInt::ConstIterator i(p.begin()); i; ++i) r.t.push_back({toMon(i.monom()), toInt(i.coeff())});
  return r;
}
// allocated with ordinary new; the variables live in the arena
inline Monom* mkMon(Allocator* a, const ref::Mon& m) {
  Sut g;
  Monom* r=new Monom(a, (int)m.e.size(), m.pos);
  for(int v=0; v < (int)m.e.size(); v++) {
    if (m.e[v] > 2000) {                        // too far to walk
      Monom one(a, (Monom::Variable)v, (int)m.e.size(), -1), far(a, one, m.e[v]);
      r->mult(far);
      continue;
    }
    for(int k=0; k < m.e[v]; k++) {
      Monom* t=new Monom(a, v, *r);
      delete r;
      r = t;
    }
  }
  return r;
}
inline std::string hex(const mpz_class& c) {
  std::string h=c.get_str(16);
  return h[0] == '-' ? "-0x" + h.substr(1) : "0x" + h;
}
inline void fillPoly(PolyInt& r, const ref::Poly& p) {
  Sut g;
  Allocator al[1];
  for(auto& x: p.t) {
    Monom* m=mkMon(al, x.m);
    {
      PolyInt q(al, p.ord, *m);
      if (x.c != 1) q.mult(hex(x.c).c_str());
      r.add(q);
    }
    delete m;
  }
}
// text form: coeff:pos:e,e,e;coeff:pos:e,e,e   ("0" for zero)
inline std::string ptext(const ref::Poly& p) {
  if (p.zero()) return "0";
  std::string s;
  for(auto& x: p.t) {
    if (!s.empty()) s += ";";
    s += x.c.get_str() + ":" + std::to_string(x.m.pos) + ":";
    for(size_t i=0; i < x.m.e.size(); i++) s += (i ? "," : "") + std::to_string(x.m.e[i]);
  }
  return s;
}
inline std::string mtext(const ref::Mon& m) {
  std::string s=std::to_string(m.pos) + ":";
  for(size_t i=0; i < m.e.size(); i++) s += (i ? "," : "") + std::to_string(m.e[i]);
  return s;
}
inline ref::Mon mparse(const std::string& s, int n) {
  ref::Mon m(n, -1);
  size_t c=s.find(':');
  if (c == std::string::npos) return m;
  m.pos = atoi(s.c_str());
  size_t p=c + 1;
  for(int i=0; i < n && p < s.size(); i++) {
    m.e[i] = std::max(0, atoi(s.c_str() + p));
    size_t q=s.find(',', p);
    if (q == std::string::npos) break;
    p = q + 1;
  }
  return m;
}
inline ref::Poly pparse(const std::string& s, int ord, int n) {
  ref::Poly p(ord);
  std::istringstream in(s);
  std::string t;
  while(std::getline(in, t, ';')) {
    size_t c=t.find(':');
    if (c == std::string::npos) continue;
    mpz_class k;
    if (k.set_str(t.substr(0, c), 10)) continue;
    if (k != 0) p.t.push_back({mparse(t.substr(c + 1), n), k});
  }
  p.normalise();
  return p;
}
// lets the reference spend the time it needs without the limits of the code under test
inline ref::Poly randomPoly(Rng& r, int ord, int n, int terms, int deg, int comps, int coef, bool konst) {
  ref::Poly p(ord);
  int k=r.in(1, terms);
  for(int i=0; i < k; i++) {
    ref::Mon m(n, comps ? r.in(0, comps - 1) : -1);
    int d=r.in(konst ? 0 : 1, deg);
    while(d--) m.e[r.in(0, n - 1)]++;
    mpz_class c=r.in(1, coef);
    if (r.p(4)) { mpz_class big=1; mpz_mul_2exp(big.get_mpz_t(), big.get_mpz_t(), 40 + r.in(0, 60)); c = big + r.in(-3, 3); }
    if (r.p(50)) c = -c;
    p.t.push_back({m, c});
  }
  p.normalise();
  return p;
}
// canonical representative up to a nonzero rational factor
inline ref::Poly canon(ref::Poly p) { p.primitive(); return p; }
inline bool canonicalForm(const ref::Poly& p, std::string& why) {
  for(size_t i=0; i < p.t.size(); i++) {
    if (p.t[i].c == 0) { why = "zero coefficient at " + ref::str(p.t[i].m); return false; }
    for(int e: p.t[i].m.e) if (e < 0) { why = "negative exponent"; return false; }
    if (i && ref::cmp(p.ord, p.t[i - 1].m, p.t[i].m) <= 0) {
      why = "terms not strictly descending: " + ref::str(p.t[i - 1].m) + " then " + ref::str(p.t[i].m);
      return false;
    }
  }
  return true;
}
}
#endif
