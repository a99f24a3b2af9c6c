// Exact arithmetic for llsym: polynomials and rational functions over solver variables.
#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <cmath>
#include <map>
#include <string>
#include <vector>
#include <algorithm>
#include <unordered_map>

struct RC { int rc = 0; virtual ~RC() {} };
template <class T> struct Ref {
  T *p = nullptr;
  Ref() {}
  Ref(T *q) : p(q) { if (p) p->rc++; }
  Ref(const Ref &o) : p(o.p) { if (p) p->rc++; }
  Ref(Ref &&o) noexcept : p(o.p) { o.p = nullptr; }
  ~Ref() { if (p && --p->rc == 0) delete p; }
  Ref &operator=(const Ref &o) { if (o.p) o.p->rc++; if (p && --p->rc == 0) delete p; p = o.p; return *this; }
  Ref &operator=(Ref &&o) noexcept { std::swap(p, o.p); return *this; }
  T *operator->() const { return p; }
  T &operator*() const { return *p; }
  explicit operator bool() const { return p != nullptr; }
};

// monomial: sorted list of variable ids with repetition
typedef std::vector<int> Mono;
struct Term { Mono m; mpq_class c; };

struct Poly {               // sorted by monomial, no zero coefficients
  std::vector<Term> t;
  Poly() {}
  explicit Poly(const mpq_class &c) { if (c != 0) t.push_back({Mono(), c}); }
  static Poly var(int v) { Poly p; p.t.push_back({Mono{v}, mpq_class(1)}); return p; }
  bool isZero() const { return t.empty(); }
  bool isConst() const { return t.empty() || (t.size() == 1 && t[0].m.empty()); }
  mpq_class constVal() const { return t.empty() ? mpq_class(0) : t[0].c; }
  bool operator==(const Poly &o) const {
    if (t.size() != o.t.size()) return false;
    for (size_t i = 0; i < t.size(); i++) if (t[i].m != o.t[i].m || t[i].c != o.t[i].c) return false;
    return true;
  }
  bool operator<(const Poly &o) const {
    if (t.size() != o.t.size()) return t.size() < o.t.size();
    for (size_t i = 0; i < t.size(); i++) {
      if (t[i].m != o.t[i].m) return t[i].m < o.t[i].m;
      if (t[i].c != o.t[i].c) return t[i].c < o.t[i].c;
    }
    return false;
  }
  void vars(std::vector<int> &out) const {
    for (auto &x : t) for (int v : x.m) out.push_back(v);
    std::sort(out.begin(), out.end());
    out.erase(std::unique(out.begin(), out.end()), out.end());
  }
};
inline Poly padd(const Poly &a, const Poly &b, int sgn = 1) {
  Poly r; r.t.reserve(a.t.size() + b.t.size());
  size_t i = 0, j = 0;
  while (i < a.t.size() || j < b.t.size()) {
    if (j >= b.t.size() || (i < a.t.size() && a.t[i].m < b.t[j].m)) r.t.push_back(a.t[i++]);
    else if (i >= a.t.size() || b.t[j].m < a.t[i].m) {
      r.t.push_back(b.t[j++]);
      if (sgn < 0) r.t.back().c = -r.t.back().c;
    } else {
      mpq_class c = sgn < 0 ? mpq_class(a.t[i].c - b.t[j].c) : mpq_class(a.t[i].c + b.t[j].c);
      if (c != 0) r.t.push_back({a.t[i].m, c});
      i++; j++;
    }
  }
  return r;
}
inline Poly pscale(const Poly &a, const mpq_class &c) {
  Poly r; if (c == 0) return r;
  r = a; for (auto &x : r.t) x.c *= c; return r;
}
inline Poly pmul(const Poly &a, const Poly &b) {
  if (a.isConst()) return pscale(b, a.constVal());
  if (b.isConst()) return pscale(a, b.constVal());
  std::map<Mono, mpq_class> acc;
  for (auto &x : a.t) for (auto &y : b.t) {
    Mono m(x.m.size() + y.m.size());
    std::merge(x.m.begin(), x.m.end(), y.m.begin(), y.m.end(), m.begin());
    acc[m] += x.c * y.c;
  }
  Poly r; for (auto &kv : acc) if (kv.second != 0) r.t.push_back({kv.first, kv.second});
  return r;
}
// exact division by leading-term reduction; returns false if not divisible
inline bool pdivexact(const Poly &a, const Poly &b, Poly &q) {
  if (b.isZero()) return false;
  if (b.isConst()) { q = pscale(a, 1 / b.constVal()); return true; }
  Poly r = a; q = Poly();
  auto lead = [](const Poly &p) -> const Term & {  // graded-lex leading term
    size_t k = 0;
    for (size_t i = 1; i < p.t.size(); i++)
      if (p.t[i].m.size() > p.t[k].m.size() || (p.t[i].m.size() == p.t[k].m.size() && p.t[k].m < p.t[i].m)) k = i;
    return p.t[k];
  };
  const Term lb = lead(b);
  int guard = 0;
  while (!r.isZero()) {
    if (++guard > 200) return false;
    const Term lr = lead(r);
    if (!std::includes(lr.m.begin(), lr.m.end(), lb.m.begin(), lb.m.end())) return false;
    Mono m; std::set_difference(lr.m.begin(), lr.m.end(), lb.m.begin(), lb.m.end(), std::back_inserter(m));
    Poly f; f.t.push_back({m, lr.c / lb.c});
    q = padd(q, f);
    r = padd(r, pmul(f, b), -1);
  }
  return true;
}

// Rational function: num / prod(den); every den factor is known > 0 on the path.
struct Rat {
  Poly num;
  std::vector<Poly> den;  // sorted, no constants
};
inline void rnorm(Rat &r) {
  if (r.num.isZero()) { r.den.clear(); return; }
  for (size_t i = 0; i < r.den.size();) {
    Poly q;
    if (r.num.t.size() >= r.den[i].t.size() && pdivexact(r.num, r.den[i], q)) { r.num = q; r.den.erase(r.den.begin() + i); }
    else i++;
  }
}
inline Poly pprod(const std::vector<Poly> &v) { Poly p(mpq_class(1)); for (auto &x : v) p = pmul(p, x); return p; }
inline Rat radd(const Rat &a, const Rat &b, int sgn) {
  Rat r;
  if (a.den == b.den) { r.num = padd(a.num, b.num, sgn); r.den = a.den; if (!r.den.empty()) rnorm(r); return r; }
  std::vector<Poly> ea, eb;  // extra factors each side must be multiplied with
  std::set_difference(b.den.begin(), b.den.end(), a.den.begin(), a.den.end(), std::back_inserter(ea));
  std::set_difference(a.den.begin(), a.den.end(), b.den.begin(), b.den.end(), std::back_inserter(eb));
  r.num = padd(pmul(a.num, pprod(ea)), pmul(b.num, pprod(eb)), sgn);
  std::set_union(a.den.begin(), a.den.end(), b.den.begin(), b.den.end(), std::back_inserter(r.den));
  rnorm(r);
  return r;
}
inline Rat rmul(const Rat &a, const Rat &b) {
  Rat r; r.num = pmul(a.num, b.num);
  std::merge(a.den.begin(), a.den.end(), b.den.begin(), b.den.end(), std::back_inserter(r.den));
  if (!r.den.empty()) rnorm(r);
  return r;
}
// numerator of (a - b) over the positive common denominator
inline Poly rdiffnum(const Rat &a, const Rat &b) {
  if (a.den.empty() && b.den.empty()) return padd(a.num, b.num, -1);
  return radd(a, b, -1).num;
}
