// Independent executable reference model: multivariate polynomials over Z (ideals over Q) and
// free modules, term orders, division, Buchberger, Janet division by definition, Hilbert function.
// Shares no code with the system under test (plain GMP + STL).
#ifndef SIM_REF_H
#define SIM_REF_H
#include <gmpxx.h>
#include <algorithm>
#include <cstdio>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace ref {

struct Budget {            // deterministic work budget of the reference (not wall time)
  long left;
  explicit Budget(long n): left(n) {}
  bool spend(long n=1) { left -= n; return left >= 0; }
  bool out() const { return left < 0; }
};

enum { TOP=0x10, POT=0x20, LEX=1, DEGLEX=2, ALEX=4 };

struct Mon {
  int pos=-1;
  std::vector<int> e;
  Mon() {}
  Mon(int n, int p=-1): pos(p), e(n, 0) {}
  int deg() const { int s=0; for(int x: e) s += x; return s; }
  bool operator==(const Mon& o) const { return pos == o.pos && e == o.e; }
  bool operator!=(const Mon& o) const { return !(*this == o); }
  bool operator<(const Mon& o) const { return pos != o.pos ? pos < o.pos : e < o.e; }
};
inline int cmpExp(int ord, const std::vector<int>& a, const std::vector<int>& b) {
  int n=(int)a.size(), da=0, db=0;
  for(int i=0; i < n; i++) { da += a[i]; db += b[i]; }
  switch(ord & 0xf) {
  case LEX:
    for(int i=0; i < n; i++) if (a[i] != b[i]) return a[i] > b[i] ? 1 : -1;
    return 0;
  case DEGLEX:                       // degree, then reverse lexicographic
    if (da != db) return da > db ? 1 : -1;
    for(int i=n-1; i >= 0; i--) if (a[i] != b[i]) return a[i] > b[i] ? -1 : 1;
    return 0;
  default:                           // alex: smaller degree first
    if (da != db) return da > db ? -1 : 1;
    for(int i=0; i < n; i++) if (a[i] != b[i]) return a[i] > b[i] ? 1 : -1;
    return 0;
  }
}
inline int cmp(int ord, const Mon& a, const Mon& b) {
  if (ord & POT) {
    if (a.pos != b.pos) return a.pos > b.pos ? 1 : -1;
    return cmpExp(ord, a.e, b.e);
  }
  int r=cmpExp(ord, a.e, b.e);
  if (r) return r;
  if (a.pos != b.pos) return a.pos > b.pos ? 1 : -1;
  return 0;
}
inline bool divides(const Mon& d, const Mon& m) {   // same component, or d is a ring monomial
  if (d.pos != -1 && d.pos != m.pos) return false;
  for(size_t i=0; i < d.e.size(); i++) if (d.e[i] > m.e[i]) return false;
  return true;
}
inline Mon quo(const Mon& m, const Mon& d) {
  Mon r(m);
  for(size_t i=0; i < r.e.size(); i++) r.e[i] -= d.e[i];
  if (d.pos != -1) r.pos = -1;
  return r;
}
inline Mon mulm(const Mon& a, const Mon& b) {
  Mon r(a);
  for(size_t i=0; i < r.e.size(); i++) r.e[i] += b.e[i];
  if (r.pos == -1) r.pos = b.pos;
  return r;
}
inline Mon lcmm(const Mon& a, const Mon& b) {
  Mon r(a);
  for(size_t i=0; i < r.e.size(); i++) r.e[i] = std::max(a.e[i], b.e[i]);
  if (r.pos == -1) r.pos = b.pos;
  return r;
}
inline std::string str(const Mon& m) {
  std::string s="[";
  if (m.pos >= 0) s += std::to_string(m.pos) + ":";
  for(size_t i=0; i < m.e.size(); i++) s += (i ? " " : "") + std::to_string(m.e[i]);
  return s + "]";
}

struct Term { Mon m; mpz_class c; };

struct Poly {
  int ord=TOP|DEGLEX;
  std::vector<Term> t;               // strictly descending
  Poly() {}
  explicit Poly(int o): ord(o) {}
  bool zero() const { return t.empty(); }
  const Mon& lm() const { return t.front().m; }
  const mpz_class& lc() const { return t.front().c; }
  int deg() const { int d=0; for(auto& x: t) d = std::max(d, x.m.deg()); return d; }
  void normalise() {                 // sort + merge
    std::sort(t.begin(), t.end(), [this](const Term& a, const Term& b) { return cmp(ord, a.m, b.m) > 0; });
    std::vector<Term> r;
    for(auto& x: t) {
      if (!r.empty() && r.back().m == x.m) r.back().c += x.c;
      else r.push_back(x);
      if (r.back().c == 0) r.pop_back();
    }
    t.swap(r);
    // a cancelled monomial may be followed by the same monomial again
    bool again=false;
    for(size_t i=1; i < t.size(); i++) if (t[i].m == t[i-1].m) again = true;
    if (again) normalise();
  }
  bool operator==(const Poly& o) const {
    if (t.size() != o.t.size()) return false;
    for(size_t i=0; i < t.size(); i++) if (t[i].m != o.t[i].m || t[i].c != o.t[i].c) return false;
    return true;
  }
  bool operator!=(const Poly& o) const { return !(*this == o); }
  mpz_class content() const {
    mpz_class g=0;
    for(auto& x: t) { g = gcd(g, x.c); if (g == 1) break; }
    return g;
  }
  void primitive(bool sign=true) {
    if (t.empty()) return;
    mpz_class g=content();
    if (sign && lc() < 0) g = -g;
    if (g != 1) for(auto& x: t) mpz_divexact(x.c.get_mpz_t(), x.c.get_mpz_t(), g.get_mpz_t());
  }
};
inline std::string str(const Poly& p) {
  if (p.zero()) return "0";
  std::string s;
  for(size_t i=0; i < p.t.size(); i++) s += (i ? " + " : "") + str(p.t[i].m) + "*" + p.t[i].c.get_str();
  return s;
}
// r = a*ca*ma + b*cb*mb
inline Poly lin(const Poly& a, const mpz_class& ca, const Mon* ma, const Poly& b, const mpz_class& cb, const Mon* mb) {
  Poly r(a.ord);
  r.t.reserve(a.t.size() + b.t.size());
  size_t i=0, j=0;
  Mon x, y;
  bool hx=false, hy=false;
  while(i < a.t.size() || j < b.t.size()) {
    if (i < a.t.size() && !hx) { x = ma ? mulm(a.t[i].m, *ma) : a.t[i].m; hx = true; }
    if (j < b.t.size() && !hy) { y = mb ? mulm(b.t[j].m, *mb) : b.t[j].m; hy = true; }
    int c = i >= a.t.size() ? -1 : j >= b.t.size() ? 1 : cmp(a.ord, x, y);
    if (c > 0) { mpz_class v=a.t[i].c*ca; if (v != 0) r.t.push_back({x, v}); ++i; hx = false; }
    else if (c < 0) { mpz_class v=b.t[j].c*cb; if (v != 0) r.t.push_back({y, v}); ++j; hy = false; }
    else {
      mpz_class v=a.t[i].c*ca + b.t[j].c*cb;
      if (v != 0) r.t.push_back({x, v});
      ++i; ++j; hx = hy = false;
    }
  }
  return r;
}
inline Poly add(const Poly& a, const Poly& b) { return lin(a, 1, nullptr, b, 1, nullptr); }
inline Poly sub(const Poly& a, const Poly& b) { return lin(a, 1, nullptr, b, -1, nullptr); }
inline Poly scale(const Poly& a, const mpz_class& c) { return lin(a, c, nullptr, Poly(a.ord), 0, nullptr); }
inline Poly mulmon(const Poly& a, const Mon& m, const mpz_class& c) { return lin(a, c, &m, Poly(a.ord), 0, nullptr); }
inline Poly mul(const Poly& a, const Poly& b) {
  Poly r(a.ord);
  for(auto& x: b.t) r = add(r, mulmon(a, x.m, x.c));
  return r;
}

// fraction free: cancels term k of p with leading term of q: p <- k1*p + k2*m*q
inline void cancel(Poly& p, size_t k, const Poly& q) {
  mpz_class g=gcd(p.t[k].c, q.lc());
  mpz_class k1=q.lc()/g, k2=-(p.t[k].c/g);
  Mon m=quo(p.t[k].m, q.lm());
  p = lin(p, k1, nullptr, q, k2, &m);
}
// full normal form w.r.t. arbitrary set (fraction free, primitive result)
inline Poly nf(Poly p, const std::vector<Poly>& G, Budget& b, const std::vector<char>* skip=nullptr) {
  size_t k=0;
  int since=0;
  while(k < p.t.size()) {
    bool hit=false;
    for(size_t g=0; g < G.size(); g++)
      if (!G[g].zero() && !(skip && (*skip)[g]) && divides(G[g].lm(), p.t[k].m)) {
        if (!b.spend(1 + (long)(p.t.size() + G[g].t.size())/4)) return p;
        cancel(p, k, G[g]);
        if (++since > 4) { p.primitive(false); since = 0; }
        if (!p.t.empty() && mpz_sizeinbase(p.lc().get_mpz_t(), 2) > 20000) { b.left = -1; return p; }
        hit = true;
        break;
      }
    if (!hit) ++k;
  }
  p.primitive();
  return p;
}
inline bool coprime(const Mon& a, const Mon& b) {
  for(size_t i=0; i < a.e.size(); i++) if (a.e[i] && b.e[i]) return false;
  return true;
}
inline Poly spoly(const Poly& f, const Poly& g) {
  Mon l=lcmm(f.lm(), g.lm());
  Mon mf=quo(l, f.lm()), mg=quo(l, g.lm());
  mpz_class d=gcd(f.lc(), g.lc());
  return lin(f, g.lc()/d, &mf, g, -(f.lc()/d), &mg);
}
// reduced, primitive, positive-lc Groebner basis, ascending by lm.  Plain Buchberger.
inline bool groebner(const std::vector<Poly>& in, std::vector<Poly>& out, Budget& b) {
  std::vector<Poly> G;
  struct Pair { int i, j; Mon l; };
  std::vector<Pair> P;
  int ord=in.empty() ? (TOP|DEGLEX) : in[0].ord;
  auto addp=[&](const Poly& f) {
    int n=(int)G.size();
    G.push_back(f);
    for(int i=0; i < n; i++)
      if (G[i].lm().pos == f.lm().pos) {
        // Buchberger's product criterion: rings only
        if (f.lm().pos == -1 && coprime(G[i].lm(), f.lm())) continue;
        P.push_back({i, n, lcmm(G[i].lm(), f.lm())});
      }
  };
  for(auto& p: in) {
    if (p.zero()) continue;
    Poly r=nf(p, G, b);
    if (b.out()) return false;
    if (!r.zero()) addp(r);
  }
  while(!P.empty()) {
    size_t best=0;
    for(size_t k=1; k < P.size(); k++) {
      int da=P[k].l.deg(), db=P[best].l.deg();
      if (da < db || (da == db && cmp(ord, P[k].l, P[best].l) < 0)) best = k;
    }
    Pair pr=P[best];
    P[best] = P.back();
    P.pop_back();
    Poly s=spoly(G[pr.i], G[pr.j]);
    if (!b.spend(1)) return false;
    s = nf(s, G, b);
    if (b.out() || G.size() > 120) { b.left = -1; return false; }
    if (!s.zero()) addp(s);
  }
  // minimal + interreduce
  std::vector<Poly> M;
  for(size_t i=0; i < G.size(); i++) {
    bool keep=true;
    for(size_t j=0; keep && j < G.size(); j++)
      if (i != j && divides(G[j].lm(), G[i].lm()) && (G[j].lm() != G[i].lm() || j < i)) keep = false;
    if (keep) M.push_back(G[i]);
  }
  out.clear();
  for(size_t i=0; i < M.size(); i++) {
    std::vector<char> skip(M.size(), 0);
    skip[i] = 1;
    Poly r=nf(M[i], M, b, &skip);
    if (b.out()) return false;
    out.push_back(r);
  }
  std::sort(out.begin(), out.end(), [](const Poly& a, const Poly& c) { return cmp(a.ord, a.lm(), c.lm()) < 0; });
  return true;
}

// ---- Janet division by definition
// variable i is non-multiplicative for u in U iff some v in U (same component) has
// v_j == u_j for all j < i and v_i > u_i
inline bool janetNM(const std::vector<Mon>& U, const Mon& u, int i) {
  for(auto& v: U) {
    if (v.pos != u.pos) continue;
    bool eq=true;
    for(int j=0; eq && j < i; j++) eq = v.e[j] == u.e[j];
    if (eq && v.e[i] > u.e[i]) return true;
  }
  return false;
}
inline int janetFind(const std::vector<Mon>& U, const Mon& m) {
  for(size_t k=0; k < U.size(); k++) {
    if (U[k].pos != m.pos) continue;
    bool ok=true;
    for(size_t i=0; ok && i < m.e.size(); i++)
      ok = U[k].e[i] == m.e[i] || (U[k].e[i] < m.e[i] && !janetNM(U, U[k], (int)i));
    if (ok) return (int)k;
  }
  return -1;
}
inline bool janetComplete(const std::vector<Mon>& U, Mon* witness=nullptr) {
  for(auto& u: U)
    for(size_t i=0; i < u.e.size(); i++)
      if (janetNM(U, u, (int)i)) {
        Mon p(u);
        p.e[i]++;
        if (janetFind(U, p) < 0) { if (witness) *witness = p; return false; }
      }
  return true;
}
// minimal Janet basis of the monomial ideal generated by U (minimal completion of the autoreduced set)
inline bool janetMinimal(std::vector<Mon> U, std::vector<Mon>& out, size_t cap) {
  std::vector<Mon> A;
  for(size_t i=0; i < U.size(); i++) {
    bool keep=true;
    for(size_t j=0; keep && j < U.size(); j++)
      if (i != j && divides(U[j], U[i]) && (U[j] != U[i] || j < i)) keep = false;
    if (keep) A.push_back(U[i]);
  }
  for(;;) {
    // smallest missing prolongation first
    bool found=false;
    Mon best;
    for(auto& u: A)
      for(size_t i=0; i < u.e.size(); i++)
        if (janetNM(A, u, (int)i)) {
          Mon p(u);
          p.e[i]++;
          if (janetFind(A, p) < 0 && (!found || p.deg() < best.deg())) { best = p; found = true; }
        }
    if (!found) break;
    A.push_back(best);
    if (A.size() > cap) return false;
  }
  std::sort(A.begin(), A.end());
  out = A;
  return true;
}

// number of monomials of degree <= s (component pos of rank comps listed) not divisible by any of L
inline void countStd(const std::vector<Mon>& L, int n, int pos, int s, std::vector<long>& perDeg) {
  perDeg.assign(s + 1, 0);
  std::vector<int> e(n, 0);
  // enumerate exponents with total degree <= s
  struct R {
    const std::vector<Mon>& L; int n, pos, s; std::vector<long>& out;
    void go(Mon& m, int v, int d) {
      if (v == n) {
        for(auto& l: L) if (l.pos == pos && divides(l, m)) return;
        out[d]++;
        return;
      }
      for(int k=0; d + k <= s; k++) { m.e[v] = k; go(m, v + 1, d + k); }
      m.e[v] = 0;
    }
  } r{L, n, pos, s, perDeg};
  Mon m(n, pos);
  r.go(m, 0, 0);
}

}
#endif
