// Linear expressions over symbols and a zone (difference-bound) domain.
#pragma once
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>

namespace irx {
using Sym = uint32_t;                       // 0 is reserved (the constant zero in the zone)
using i64 = long long;
constexpr i64 INF = (i64)1 << 60;

inline i64 sat_add(i64 a, i64 b) {
  if (a >= INF || b >= INF) return INF;
  __int128 r = (__int128)a + b;
  if (r >= INF) return INF;
  if (r <= -INF) return -INF;
  return (i64)r;
}
inline i64 sat_mul(i64 a, i64 k) {          // k > 0
  if (a >= INF) return INF;
  __int128 r = (__int128)a * k;
  if (r >= INF) return INF;
  if (r <= -INF) return -INF;
  return (i64)r;
}

struct Lin {                                 // c + sum coef*sym
  i64 c = 0;
  std::vector<std::pair<Sym, i64>> t;
  Lin() = default;
  Lin(i64 k) : c(k) {}
  static Lin sym(Sym s) { Lin l; l.t.push_back({s, 1}); return l; }
  bool isConst() const { return t.empty(); }
  bool operator==(const Lin &o) const { return c == o.c && t == o.t; }
  bool operator!=(const Lin &o) const { return !(*this == o); }
  bool operator<(const Lin &o) const { return t != o.t ? t < o.t : c < o.c; }
  Lin &addScaled(const Lin &o, i64 k) {
    c = (i64)((uint64_t)c + (uint64_t)o.c * (uint64_t)k);
    std::vector<std::pair<Sym, i64>> r;
    size_t i = 0, j = 0;
    while (i < t.size() || j < o.t.size()) {
      if (j >= o.t.size() || (i < t.size() && t[i].first < o.t[j].first)) r.push_back(t[i++]);
      else if (i >= t.size() || o.t[j].first < t[i].first) { r.push_back({o.t[j].first, o.t[j].second * k}); j++; }
      else { i64 v = t[i].second + o.t[j].second * k; if (v) r.push_back({t[i].first, v}); i++; j++; }
    }
    t.swap(r);
    return *this;
  }
  friend Lin operator+(Lin a, const Lin &b) { a.addScaled(b, 1); return a; }
  friend Lin operator-(Lin a, const Lin &b) { a.addScaled(b, -1); return a; }
  Lin times(i64 k) const { Lin r; if (k) r.addScaled(*this, k); return r; }
  bool divisible(i64 k) const {
    if (k == 0) return false;
    if (c % k) return false;
    for (auto &p : t) if (p.second % k) return false;
    return true;
  }
  bool coefsDivisible(i64 k) const { for (auto &p : t) if (p.second % k) return false; return true; }
  Lin divBy(i64 k) const { Lin r; r.c = c / k; for (auto &p : t) r.t.push_back({p.first, p.second / k}); return r; }
  std::string str() const {
    std::string s = std::to_string(c);
    for (auto &p : t) s += (p.second >= 0 ? "+" : "") + (p.second == 1 ? std::string() : std::to_string(p.second) + "*") + "s" + std::to_string(p.first);
    return s;
  }
};

struct Zone {
  std::vector<Sym> ids{0};                   // row -> symbol
  std::map<Sym, int> row{{0, 0}};
  std::vector<i64> m{0};                     // m[i*n+j] = upper bound of ids[i]-ids[j]; kept closed
  bool bottom = false;
  int n() const { return (int)ids.size(); }
  i64 at(int i, int j) const { return m[(size_t)i * n() + j]; }
  int add(Sym s) {
    auto it = row.find(s);
    if (it != row.end()) return it->second;
    int k = n();
    std::vector<i64> r((size_t)(k + 1) * (k + 1), INF);
    for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) r[(size_t)i * (k + 1) + j] = at(i, j);
    r[(size_t)k * (k + 1) + k] = 0;
    ids.push_back(s); row[s] = k; m.swap(r);
    return k;
  }
  int find(Sym s) const { auto it = row.find(s); return it == row.end() ? -1 : it->second; }
  i64 ub(Sym x, Sym y) const {               // upper bound of x-y
    if (x == y) return 0;
    int i = find(x), j = find(y);
    if (i < 0 || j < 0) return INF;
    return at(i, j);
  }
  bool constrain(Sym x, Sym y, i64 c) {      // x - y <= c
    if (bottom) return false;
    int i = add(x), j = add(y);
    if (i == j) { if (c < 0) bottom = true; return !bottom; }
    int N = n();
    if (at(i, j) <= c) return true;
    if (sat_add(at(j, i), c) < 0) { bottom = true; return false; }
    m[(size_t)i * N + j] = c;
    for (int a = 0; a < N; a++) {
      i64 ai = at(a, i); if (ai >= INF) continue;
      i64 aij = sat_add(ai, c);
      for (int b = 0; b < N; b++) {
        i64 jb = at(j, b); if (jb >= INF) continue;
        i64 v = sat_add(aij, jb);
        if (v < m[(size_t)a * N + b]) m[(size_t)a * N + b] = v;
      }
    }
    for (int a = 0; a < N; a++) if (at(a, a) < 0) { bottom = true; return false; }
    return true;
  }
  // upper bound of a linear expression
  i64 ub(const Lin &l) const {
    if (l.isConst()) return l.c;
    std::vector<std::pair<Sym, i64>> pos, neg;
    for (auto &p : l.t) (p.second > 0 ? pos : neg).push_back({p.first, p.second > 0 ? p.second : -p.second});
    i64 best = INF;
    // greedy pairing of positive and negative parts, each pairing order tried for small sizes
    std::sort(neg.begin(), neg.end());
    int tries = 0;
    do {
      i64 s = l.c; auto P = pos, N = neg;
      for (auto &p : P) for (auto &q : N) {
        i64 k = std::min(p.second, q.second);
        if (k > 0) {
          i64 pairb = ub(p.first, q.first), sepb = sat_add(ub(p.first, 0), ub(0, q.first));
          i64 u = std::min(pairb, sepb);
          s = sat_add(s, sat_mul(u, k)); p.second -= k; q.second -= k;
        }
      }
      for (auto &p : P) if (p.second) s = sat_add(s, sat_mul(ub(p.first, 0), p.second));
      for (auto &q : N) if (q.second) s = sat_add(s, sat_mul(ub(0, q.first), q.second));
      best = std::min(best, s);
    } while (++tries < 24 && std::next_permutation(neg.begin(), neg.end()));
    return best;
  }
  i64 lb(const Lin &l) const { i64 u = ub(l.times(-1)); return u >= INF ? -INF : -u; }
  bool representable(const Lin &l) const {
    if (l.t.size() == 1) return true;
    return l.t.size() == 2 && l.t[0].second == -l.t[1].second;
  }
  // assume l <= 0 ; returns false if infeasible. l must be representable or constant
  bool assumeLE0(const Lin &l) {
    if (bottom) return false;
    if (l.isConst()) { if (l.c > 0) bottom = true; return !bottom; }
    auto fdiv = [](i64 a, i64 b) { i64 q = a / b; if ((a % b) && ((a < 0) != (b < 0))) q--; return q; };
    if (l.t.size() == 1) {
      i64 k = l.t[0].second;
      if (k > 0) return constrain(l.t[0].first, 0, fdiv(-l.c, k));
      return constrain(0, l.t[0].first, fdiv(-l.c, -k));
    }
    i64 k = l.t[0].second;
    if (k > 0) return constrain(l.t[0].first, l.t[1].first, fdiv(-l.c, k));
    return constrain(l.t[1].first, l.t[0].first, fdiv(-l.c, -k));
  }
  void keepOnly(const std::set<Sym> &keep) {
    std::vector<int> k;
    for (int i = 0; i < n(); i++) if (i == 0 || keep.count(ids[i])) k.push_back(i);
    if ((int)k.size() == n()) return;
    Zone z; z.ids.clear(); z.row.clear(); z.m.assign(k.size() * k.size(), 0);
    for (size_t a = 0; a < k.size(); a++) {
      z.row[ids[k[a]]] = (int)a; z.ids.push_back(ids[k[a]]);
    }
    for (size_t a = 0; a < k.size(); a++) for (size_t b = 0; b < k.size(); b++) z.m[a * k.size() + b] = at(k[a], k[b]);
    z.bottom = bottom;
    *this = std::move(z);
  }
};
}
