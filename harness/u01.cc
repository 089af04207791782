// U01: sparse vectors, small vectors, 2-d arrays and value arrays against ordinary containers, operation by operation.
#include "vh.h"
#include "hash.h"
#include "sparse_vector.h"
#include "small_vector.h"
#include "array2d.h"
#include <boost/type_traits.hpp>
#include "value_array.h"
#include "prob.h"
#include "fdict.h"
#include <sstream>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
using namespace std;

static const int NF = 60;
template <class T> struct Ops {
  static bool Eq(const T& a, const T& b) { return a == b || vh::Near(a, b, 1e-12, 1e-12); }
  static bool Same(const T& a, const T& b) { return a == b; }
  static T Rand(vh::Rng& r) { switch (r.below(6)) { case 0: return T(0); case 1: return T(1); case 2: return T(-1); case 3: return T(r.range(-9, 9)); default: return T(r.real(-3, 3)); } }
  static T NZ(vh::Rng& r) { return T(r.range(1, 9)); }
  static string Str(const T& a) { return vh::Fmt("%.17g", (double)a); }
};
template <> struct Ops<prob_t> {
  static bool Eq(const prob_t& a, const prob_t& b) { return Same(a, b) || vh::Near(a.as_float(), b.as_float(), 1e-9, 1e-9); }
  static bool Same(const prob_t& a, const prob_t& b) { return a.v_ == b.v_ && (a.s_ == b.s_ || a.v_ == -INFINITY); }
  static prob_t Rand(vh::Rng& r) { return r.chance(0.15) ? prob_t() : prob_t(r.real(0, 3)); }
  static prob_t NZ(vh::Rng& r) { return prob_t(r.range(1, 9)); }
  static string Str(const prob_t& a) { return vh::Fmt("%.17g", a.as_float()); }
};

template <class T> struct SV {
  typedef FastSparseVector<T> V; typedef map<unsigned, T> M;
  vector<V> v; vector<M> m; string trace; bool bad = false; const char* tn;
  SV(const char* n) : v(4), m(4), tn(n) {}
  void Fail(const char* key, const string& s) { if (bad) return; bad = true; vh::Viol(key, string(tn) + ": " + s + " after " + (trace.size() > 500 ? trace.substr(trace.size() - 500) : trace)); }
  static T Get(const M& m, unsigned k) { auto it = m.find(k); return it == m.end() ? T() : it->second; }
  void Audit(int i, bool full) {
    const V& c = v[i]; const M& q = m[i];
    if (c.size() != q.size()) Fail("sv:size", vh::Fmt("size %zu expected %zu", c.size(), q.size()));
    if (c.empty() != q.empty()) Fail("sv:empty", "empty() wrong");
    M seen; unsigned n = 0;
    for (typename V::const_iterator it = c.begin(); it != c.end(); ++it) { if (++n > q.size()) break; if (seen.count(it->first)) Fail("sv:iterate_twice", "a key is visited twice"); seen[it->first] = it->second; }
    if (seen.size() != q.size()) Fail("sv:iterate", vh::Fmt("%zu keys visited, %zu stored", seen.size(), q.size()));
    for (auto& p : q) if (!seen.count(p.first) || !Ops<T>::Same(seen[p.first], p.second)) Fail("sv:iterate_value", vh::Fmt("key %u visited as %s expected %s", p.first, seen.count(p.first) ? Ops<T>::Str(seen[p.first]).c_str() : "absent", Ops<T>::Str(p.second).c_str()));
    if (full) for (unsigned k = 0; k <= NF; ++k) {
      if (!Ops<T>::Same(c.value(k), Get(q, k)) || !Ops<T>::Same(c.get(k), Get(q, k))) Fail("sv:value", vh::Fmt("value(%u) is %s expected %s", k, Ops<T>::Str(c.value(k)).c_str(), Ops<T>::Str(Get(q, k)).c_str()));
      bool have = c.find(k) != c.end(); if (have != (q.count(k) > 0)) Fail("sv:find", vh::Fmt("find(%u) %d", k, have));
      typename V::iterator fi = v[i].find(k); if ((fi != v[i].end()) != have || (have && (fi->first != k || !Ops<T>::Same(fi->second, q.at(k))))) Fail("sv:find_mutable", "mutable find differs");
    }
    vh::Count("audits");
  }
  void Run(vh::Rng& r, int steps) {
    unsigned span = r.chance(0.3) ? 6 : r.chance(0.5) ? 16 : NF;
    for (int s = 0; s < steps && !bad; ++s) {
      int a = r.below(4), b = r.below(4); unsigned k = 1 + r.below(span); T x = Ops<T>::Rand(r);
      int op = r.below(20); if (r.chance(0.25)) op = 0;
      trace += vh::Fmt(" %d(%d,%d,%u,%s)", op, a, b, k, Ops<T>::Str(x).c_str());
      switch (op) {
        case 0: v[a].set_value(k, x); m[a][k] = x; break;
        case 1: { T& y = v[a].add_value(k, x); T& z = m[a].insert(make_pair(k, T())).first->second; z += x; if (!Ops<T>::Same(y, z)) Fail("sv:add_value", "add_value returns another value"); break; }
        case 2: v[a][k] = x; m[a][k] = x; break;
        case 3: v[a] += v[b]; { M t = m[b]; for (auto& p : t) { T& z = m[a].insert(make_pair(p.first, T())).first->second; z += p.second; } } break;
        case 4: v[a] -= v[b]; { M t = m[b]; for (auto& p : t) { T& z = m[a].insert(make_pair(p.first, T())).first->second; z -= p.second; } } break;
        case 5: v[a] *= x; for (auto& p : m[a]) p.second *= x; break;
        case 6: { T y = Ops<T>::NZ(r); v[a] /= y; for (auto& p : m[a]) p.second /= y; break; }
        case 7: if (r.chance(0.7) && !m[a].empty()) { auto it = m[a].begin(); advance(it, r.below(m[a].size())); k = it->first; } trace += vh::Fmt("erase%u", k); v[a].erase(k); m[a].erase(k); break;
        case 8: v[a] = v[b]; m[a] = m[b]; break;
        case 9: v[a].swap(v[b]); if (a != b) swap(m[a], m[b]); break;
        case 10: if (r.chance(0.4)) { v[a].clear(); m[a].clear(); } break;
        case 11: { V c(v[b]); v[a] = c; m[a] = m[b]; break; }
        case 12: { V c = v[a] + v[b]; M t = m[a]; for (auto& p : m[b]) { T& z = t.insert(make_pair(p.first, T())).first->second; z += p.second; } 
                   if (c.size() != t.size()) Fail("sv:plus", "operator+ size"); for (auto& p : t) if (!Ops<T>::Eq(c.value(p.first), p.second)) Fail("sv:plus", "operator+ value"); break; }
        case 13: { V c = v[a] - v[b]; M t = m[a]; for (auto& p : m[b]) { T& z = t.insert(make_pair(p.first, T())).first->second; z -= p.second; }
                   if (c.size() != t.size()) Fail("sv:minus", "operator- size"); for (auto& p : t) if (!Ops<T>::Eq(c.value(p.first), p.second)) Fail("sv:minus", "operator- value"); break; }
        case 14: { v[a].plus_eq_v_times_s(v[b], x); M t = m[b]; for (auto& p : t) { T& z = m[a].insert(make_pair(p.first, T())).first->second; z += p.second * x; } break; }
        case 15: { T d = v[a].dot(v[b]); T want = T(), mag = T(); for (auto& p : m[a]) { want += p.second * Get(m[b], p.first); }
                   if (!Ops<T>::Eq(d, want)) { double sc = 0; for (auto& p : m[a]) sc = max(sc, fabs(atof(Ops<T>::Str(p.second * Get(m[b], p.first)).c_str()))); if (!vh::Near(atof(Ops<T>::Str(d).c_str()), atof(Ops<T>::Str(want).c_str()), 1e-9, 1e-9 * sc + (sizeof(T) == 4 ? 1e-4 * sc : 0))) Fail("sv:dot", "dot is " + Ops<T>::Str(d) + " expected " + Ops<T>::Str(want)); }
                   break; }
        case 16: { vector<T> w(r.below(NF)); for (auto& y : w) y = Ops<T>::NZ(r); T d = v[a].dot(w), want = T(); double sc = 0; for (auto& p : m[a]) if (p.first < w.size()) { want += p.second * w[p.first]; sc += fabs(atof(Ops<T>::Str(p.second * w[p.first]).c_str())); }
                   if (!vh::Near(atof(Ops<T>::Str(d).c_str()), atof(Ops<T>::Str(want).c_str()), 1e-9, (sizeof(T) == 4 ? 1e-4 : 1e-9) * sc)) Fail("sv:dotvec", "dense dot is " + Ops<T>::Str(d) + " expected " + Ops<T>::Str(want)); break; }
        case 17: { bool e = v[a] == v[b]; bool same = m[a].size() == m[b].size(); bool keys = same; for (auto& p : m[a]) { if (!m[b].count(p.first)) { keys = same = false; } else if (!Ops<T>::Same(p.second, m[b][p.first])) same = false; }
                   if (same && !e) Fail("sv:equal", "equal vectors compare different"); if (keys && !same && e) Fail("sv:unequal", "different vectors compare equal"); 
                   bool differ = false; for (unsigned q = 1; q <= NF; ++q) if (!Ops<T>::Same(Get(m[a], q), Get(m[b], q))) differ = true; if (differ && e) Fail("sv:unequal", "vectors with different values compare equal"); break; }
        case 18: { vector<T> d; d.push_back(Ops<T>::NZ(r)); v[a].init_vector(&d); unsigned hi = 0; for (auto& p : m[a]) hi = max(hi, p.first + 1); if (d.size() != hi) Fail("sv:init_vector", vh::Fmt("%zu entries expected %u", d.size(), hi)); else for (unsigned q = 0; q < hi; ++q) if (!Ops<T>::Same(d[q], Get(m[a], q))) Fail("sv:init_vector", "value differs"); break; }
        case 19: { size_t nz = 0; for (auto& p : m[a]) if (!Ops<T>::Same(p.second, T())) ++nz; (void)nz; Extra(r, a, nz); break; }
      }
      vh::Max("entries", m[a].size());
      Audit(a, r.chance(0.3)); if (op == 3 || op == 9 || op == 8) Audit(b, false);
    }
    uint64_t h = 0; for (int i = 0; i < 4; ++i) { Audit(i, true); for (auto& p : m[i]) h = h * 1000003 + p.first * 31 + vh::HashStr(Ops<T>::Str(p.second)); }
    vh::Distinct("nontrivial", h);
  }
  void Extra(vh::Rng& r, int a, size_t nz);
};
template <class T> void SV<T>::Extra(vh::Rng& r, int a, size_t nz) {
  if (v[a].num_nonzero() != nz) Fail("sv:num_nonzero", vh::Fmt("num_nonzero %zu expected %zu", v[a].num_nonzero(), nz));
  V z = v[a].erase_zeros(); for (auto& p : m[a]) { bool keep = fabs(p.second) > 1e-4; if (!Ops<T>::Same(z.value(p.first), keep ? p.second : T())) Fail("sv:erase_zeros", "erase_zeros"); }
  T n = T(); for (auto& p : m[a]) n += p.second * p.second;
  if (!vh::Near(v[a].l2norm_sq(), n, sizeof(T) == 4 ? 1e-4 : 1e-9, 1e-12)) Fail("sv:l2", "squared norm");
  if (!vh::Near(v[a].l2norm(), sqrt(n), sizeof(T) == 4 ? 1e-4 : 1e-9, 1e-12)) Fail("sv:l2", "norm");
  double p1 = 0; for (auto& p : m[a]) p1 += fabs(p.second); if (!m[a].empty() && !vh::Near(v[a].pnorm(1), p1, sizeof(T) == 4 ? 1e-4 : 1e-9, 1e-12)) Fail("sv:l1", "1-norm");
  // serialise
  V back; back.set_value(3, T(7)); 
  if (r.chance(0.5)) { stringstream ss; { boost::archive::text_oarchive oa(ss); oa << v[a]; } boost::archive::text_iarchive ia(ss); ia >> back; }
  else { stringstream ss; { boost::archive::binary_oarchive oa(ss); oa << v[a]; } boost::archive::binary_iarchive ia(ss); ia >> back; }
  if (!(back == v[a]) || back.size() != v[a].size()) Fail("sv:archive", "vector changes when serialised and read back");
  vh::Count("archives");
}
template <> void SV<prob_t>::Extra(vh::Rng&, int, size_t) {}

template <int N> static void Small(vh::Rng& r, int steps) {
  typedef SmallVector<int, N> V; vector<V> v(3); vector<vector<int> > m(3); string trace;
  for (int s = 0; s < steps; ++s) {
    int a = r.below(3), b = r.below(3), x = r.range(-1000, 1000), op = r.below(16);
    trace += vh::Fmt(" %d(%d,%d,%d)", op, a, b, x);
    switch (op) {
      case 0: case 1: case 2: v[a].push_back(x); m[a].push_back(x); break;
      case 3: if (!m[a].empty()) { v[a].pop_back(); m[a].pop_back(); } break;
      case 4: { size_t n = r.chance(0.05) ? r.range(0, 3000) : r.below(4 * N + 3); v[a].resize(n, x); m[a].resize(n, x); break; }
      case 5: v[a] = v[b]; m[a] = m[b]; break;
      case 6: { V c(v[b]); v[a].swap(c); m[a] = m[b]; break; }
      case 7: if (a != b) { swap(v[a], v[b]); swap(m[a], m[b]); } break;
      case 8: if (r.chance(0.3)) { v[a].clear(); m[a].clear(); } break;
      case 9: if (!m[a].empty()) { int i = r.below(m[a].size()); int* e = v[a].erase(v[a].begin() + i); auto it = m[a].erase(m[a].begin() + i); VCHECK(e - v[a].begin() == it - m[a].begin(), "small:erase_pos", "erase returns another position"); } break;
      case 10: { int i = r.below(m[a].size() + 1), j = i + r.below(m[a].size() - i + 1); v[a].erase(v[a].begin() + i, v[a].begin() + j); m[a].erase(m[a].begin() + i, m[a].begin() + j); break; }
      case 11: { size_t n = r.below(3 * N); V c(n, x); v[a] = c; m[a].assign(n, x); break; }
      case 12: { const int* p = m[b].data(); V c(p, p + m[b].size()); v[a] = c; m[a] = m[b]; break; }
      case 13: if (!m[a].empty()) { int i = r.below(m[a].size()); v[a].push_back(v[a][i]); m[a].push_back(int(m[a][i])); } break;
      case 14: if (!m[a].empty()) { int i = r.below(m[a].size()); v[a][i] = x; m[a][i] = x; v[a].back() += 1; m[a].back() += 1; v[a].front() -= 2; m[a].front() -= 2; } break;
      case 15: { size_t n = r.below(m[a].size() + 1); v[a].compact(n); m[a].resize(n); break; }
    }
    for (int q = 0; q < 3; ++q) {
      const V& c = v[q]; bool ok = c.size() == m[q].size() && c.empty() == m[q].empty() && (size_t)(c.end() - c.begin()) == m[q].size();
      if (ok) for (size_t i = 0; i < m[q].size(); ++i) if (c[i] != m[q][i] || c.begin()[i] != m[q][i]) ok = false;
      if (!ok) { vh::Viol("small:content", vh::Fmt("SmallVector<int,%d> differs from the sequence after", N) + (trace.size() > 500 ? trace.substr(trace.size() - 500) : trace)); return; }
    }
    VCHECK((v[a] == v[b]) == (m[a] == m[b]) && (v[a] != v[b]) == (m[a] != m[b]), "small:equal", "comparison of small vectors");
    if (m[a] == m[b]) VCHECK(hash_value(v[a]) == hash_value(v[b]), "small:hash", "equal small vectors hash differently");
    if (s % 16 == 0) { stringstream ss; { boost::archive::text_oarchive oa(ss); const V& c = v[a]; oa << c; } V back(2, 5); boost::archive::text_iarchive ia(ss); ia >> back; VCHECK(back == v[a], "small:archive", "small vector changes when serialised"); }
    vh::Count("small_ops"); vh::Max("small_len", m[a].size());
  }
}
static void Arrays(vh::Rng& r) {
  unsigned w = r.range(1, 9), h = r.range(1, 9);
  Array2D<double> a(w, h, 1.5), b(w, h); vector<vector<double> > ma(w, vector<double>(h, 1.5)), mb(w, vector<double>(h, 0));
  for (int s = 0; s < 40; ++s) {
    unsigned i = r.below(w), j = r.below(h); double x = r.range(1, 9) / 4.0;
    switch (r.below(14)) {
      case 0: case 1: a(i, j) = x; ma[i][j] = x; break;
      case 2: b(i, j) = -x; mb[i][j] = -x; break;
      case 3: a += b; for (unsigned p = 0; p < w; ++p) for (unsigned q = 0; q < h; ++q) ma[p][q] += mb[p][q]; break;
      case 4: a -= b; for (unsigned p = 0; p < w; ++p) for (unsigned q = 0; q < h; ++q) ma[p][q] -= mb[p][q]; break;
      case 5: { const Array2D<double>& t = (a *= x); (void)t; for (auto& c : ma) for (auto& d : c) d *= x; break; }
      case 6: a /= x; for (auto& c : ma) for (auto& d : c) d /= x; break;
      case 7: b = a + b; for (unsigned p = 0; p < w; ++p) for (unsigned q = 0; q < h; ++q) mb[p][q] += ma[p][q]; break;
      case 8: b = a - b; for (unsigned p = 0; p < w; ++p) for (unsigned q = 0; q < h; ++q) mb[p][q] = ma[p][q] - mb[p][q]; break;
      case 9: b = a; mb = ma; break;
      case 10: { Array2D<double> c(b); a = c; ma = mb; break; }
      case 11: if (r.chance(0.3)) { a.fill(x); for (auto& c : ma) for (auto& d : c) d = x; } break;
      case 12: { double t = 0, want = 0; for (auto it = a.begin_col(j); it != a.end_col(j); ++it) t += *it; for (unsigned p = 0; p < w; ++p) want += ma[p][j]; VCHECK(t == want, "array:col", "column iteration"); break; }
      case 13: if (r.chance(0.3)) { w = r.range(1, 9); h = r.range(1, 9); a.clear(); a.resize(w, h, x); b.resize(w, h); b.fill(0); ma.assign(w, vector<double>(h, x)); mb.assign(w, vector<double>(h, 0)); } break;
    }
    bool ok = a.width() == w && a.height() == h && b.width() == w && b.height() == h; const Array2D<double>&ca = a, &cb = b;
    for (unsigned p = 0; ok && p < w; ++p) for (unsigned q = 0; q < h; ++q) if (ca(p, q) != ma[p][q] || cb(p, q) != mb[p][q]) ok = false;
    if (!ok) { vh::Viol("array:content", vh::Fmt("Array2D %ux%u differs from the matrix", w, h)); return; }
    vh::Count("array_ops");
  }
  ValueArray<double> x(w), y(w, 2.5); vector<double> mx(w, 0), my(w, 2.5);
  for (int s = 0; s < 30; ++s) {
    unsigned i = r.below(w);
    switch (r.below(10)) {
      case 0: if (w) { x[i] = s; mx[i] = s; } break;
      case 1: x += y; for (unsigned k = 0; k < w; ++k) mx[k] += my[k]; break;
      case 2: x -= y; for (unsigned k = 0; k < w; ++k) mx[k] -= my[k]; break;
      case 3: y = x; my = mx; break;
      case 4: x.swap(y); mx.swap(my); break;
      case 5: { ValueArray<double> c(x); y = c; my = mx; break; }
      case 6: if (r.chance(0.3)) { w = r.range(1, 12); x.resize(w, 0.5); mx.resize(w, 0.5); y.resize(w, 1.5); my.resize(w, 1.5); } break;
      case 7: if (r.chance(0.3)) { x.reinit(w, 3.0); mx.assign(w, 3.0); } break;
      case 8: x *= y; for (unsigned k = 0; k < w; ++k) mx[k] *= my[k]; break;
      case 9: { vector<double> c(my.begin(), my.end()); ValueArray<double> d(c.begin(), c.end()); x = d; mx = my; break; }
    }
    VCHECK(x.size() == mx.size() && equal(mx.begin(), mx.end(), x.begin()) && y.size() == my.size() && equal(my.begin(), my.end(), y.begin()), "valarray:content", "ValueArray differs from the sequence");
    VCHECK((x == y) == (mx == my) && (x < y) == (mx < my), "valarray:order", "ValueArray comparison");
  }
}
int main(int argc, char** argv) {
  for (int i = 1; i <= NF; ++i) FD::Convert(vh::Fmt("Feat_%d", i));
  return vh::Main(argc, argv, [](vh::Rng& r, long c) {
    int steps = r.chance(0.1) ? 600 : 120;
    switch (c % 5) {
      case 0: case 1: { SV<double> s("double"); s.Run(r, steps); vh::Sample(s.trace.substr(0, 300)); break; }
      case 2: { SV<float> s("float"); s.Run(r, steps); break; }
      case 3: { SV<prob_t> s("prob"); s.Run(r, steps); break; }
      case 4: { SV<int> s("int"); (void)s; SV<double> t("double"); t.Run(r, steps); break; }
    }
    Small<2>(r, steps); if (r.chance(0.5)) Small<1>(r, steps); else Small<5>(r, steps);
    Arrays(r);
  });
}
