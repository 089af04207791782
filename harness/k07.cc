// K07: probing hash table, bit packing, searching sorted arrays, joint and fixed-size sorting, intersections, tokens, pools, hashes, pointer compression.
#include "vh.h"
#include "util/probing_hash_table.hh"
#include "util/bit_packing.hh"
#include "util/sorted_uniform.hh"
#include "util/joint_sort.hh"
#include "util/sized_iterator.hh"
#include "util/multi_intersection.hh"
#include "util/tokenize_piece.hh"
#include "util/pool.hh"
#include "util/fixed_array.hh"
#include "util/murmur_hash.hh"
#include "lm/bhiksha.hh"
#include "lm/config.hh"
#include <boost/range/iterator_range.hpp>
#include <functional>
#include <memory>
using namespace std; using namespace util;
// ---------- probing hash tables
struct Ent { typedef uint64_t Key; uint64_t key; uint32_t val; Key GetKey() const { return key; } void SetKey(Key k) { key = k; } };
struct HashBy { int mode; uint64_t salt; explicit HashBy(int m = 0, uint64_t s = 0) : mode(m), salt(s) {}
  uint64_t operator()(uint64_t k) const { switch (mode) { case 0: return k; case 1: return k % 7; case 2: return ~0ull - (k % 5); case 3: return salt; case 4: return (k * 0x9E3779B97F4A7C15ull) ^ salt; default: return k << 20; } } };
typedef ProbingHashTable<Ent, HashBy> Table; typedef AutoProbing<Ent, HashBy> Auto;
static uint64_t NewKey(vh::Rng& r, uint64_t invalid, int kind) { for (;;) { uint64_t k = kind == 0 ? r.below(40) : kind == 1 ? r.next() : r.below(3000); if (k != invalid) return k; } }
template <class T> static void Agree(T& t, const map<uint64_t, uint32_t>& m, vh::Rng& r, uint64_t invalid, int kind, const char* w) {
  const Ent* f; Ent* g;
  for (auto& p : m) { bool ok = t.Find(p.first, f) && f->key == p.first && f->val == p.second && t.UnsafeMutableFind(p.first, g) && g == f && t.MustFind(p.first) == f && t.UnsafeMutableMustFind(p.first) == f;
    VCHECK(ok, string(w) + ":lost", "%zu keys, key %llu not found with its value", m.size(), (unsigned long long)p.first); if (!ok) return; }
  for (int i = 0; i < 20; ++i) { uint64_t k = NewKey(r, invalid, kind); if (!m.count(k)) VCHECK(!t.Find(k, f) && !t.UnsafeMutableFind(k, g), string(w) + ":phantom", "key %llu was never inserted but is found", (unsigned long long)k); }
  vh::Count("lookups", m.size() + 20);
}
static void Fixed(vh::Rng& r) {
  uint64_t n = r.range(0, r.chance(0.2) ? 300 : 20), sz = Table::Size(n, r.pick(vector<float>{1.0f, 1.1f, 1.5f, 2.0f, 4.0f}));
  size_t buckets = sz / sizeof(Ent); VCHECK(buckets > n, "probing:size", "Size(%llu) has room for %zu buckets", (unsigned long long)n, buckets);
  uint64_t invalid = r.chance(0.5) ? 0 : r.chance(0.5) ? ~0ull : r.below(50); HashBy h(r.below(6), r.next()); int kind = r.below(3);
  vector<char> mem(sz + 8, 0x5a); void* base = mem.data() ;
  unique_ptr<uint64_t[]> a(new uint64_t[sz / 8 + 1]); base = a.get();
  Table t(base, sz, invalid, h); t.Clear(); map<uint64_t, uint32_t> m; bool threw = false; vector<unique_ptr<uint64_t[]>> keep;
  int ops = r.range(0, 3 * (int)n + 3);
  for (int i = 0; i < ops && !threw; ++i) {
    uint64_t k = NewKey(r, invalid, kind); Ent e; e.key = k; e.val = r.next(); Ent* out = nullptr;
    bool had = m.count(k), room = m.size() + 1 < buckets;
    try {
      if (!had && r.chance(0.5)) { out = t.Insert(e); VCHECK(room, "probing:overfull", "insertion of key number %zu into %zu buckets was accepted", m.size() + 1, buckets); }
      else { bool found = t.FindOrInsert(e, out); VCHECK(found == had, "probing:found", "FindOrInsert says %d for a key that is %s", found, had ? "present" : "absent"); if (!found) VCHECK(room, "probing:overfull", "a full table accepted a key"); }
      if (had) { VCHECK(out->key == k && out->val == m[k], "probing:value", "found entry has another value"); if (r.chance(0.3)) { out->val = e.val; m[k] = e.val; } }
      else { VCHECK(out->key == k && out->val == e.val, "probing:inserted", "inserted entry differs"); m[k] = e.val; }
    } catch (const ProbingSizeException&) { VCHECK(!had && !room, "probing:throw", "table with %zu of %zu buckets refuses", m.size(), buckets); threw = true; vh::Count("full tables"); }
    if (r.chance(0.03)) { t.Clear(); m.clear(); }
    if (r.chance(0.06) && buckets < 3000) { VCHECK(t.DoubleTo() == 2 * buckets * sizeof(Ent), "probing:doubleto", "DoubleTo"); unique_ptr<uint64_t[]> b(new uint64_t[2 * sz / 8 + 1]); memcpy(b.get(), base, buckets * sizeof(Ent)); bool clear = r.chance(0.5);
      if (!clear) { Ent x; memset(&x, 0, sizeof x); x.key = invalid; for (size_t j = buckets; j < 2 * buckets; ++j) ((Ent*)b.get())[j] = x; }
      sz = 2 * buckets * sizeof(Ent); t.Double(b.get(), clear); base = b.get(); keep.push_back(move(b)); buckets *= 2; vh::Count("doublings"); Agree(t, m, r, invalid, kind, "double"); }
    else if (r.chance(0.02)) { unique_ptr<uint64_t[]> b(new uint64_t[sz / 8 + 1]); memcpy(b.get(), base, buckets * sizeof(Ent)); t.Relocate(b.get()); base = b.get(); keep.push_back(move(b)); }
    if (r.chance(0.1) && !threw) { try { if (m.size() + 1 < buckets) t.CheckConsistency(); } catch (const Exception& e) { VCHECK(false, "probing:inconsistent", "%s", e.what()); } }
    if (!threw) VCHECK(t.SizeNoSerialization() == m.size(), "probing:count", "%zu entries reported, %zu inserted", t.SizeNoSerialization(), m.size());
  }
  Agree(t, m, r, invalid, kind, "probing"); if (m.size() > 2) vh::Distinct("nontrivial", r.next());
}
static void Growing(vh::Rng& r) {
  size_t init = r.range(1, r.chance(0.5) ? 4 : 60); uint64_t invalid = r.chance(0.5) ? 0 : ~0ull; int kind = 1 + r.below(2); HashBy h(r.pick(vector<int>{0, 1, 2, 4, 4, 4, 5}), r.next());
  Auto t(init, invalid, h); map<uint64_t, uint32_t> m; int ops = r.range(1, h.mode == 4 || h.mode == 0 ? 2000 : 150); double ins = r.unit();
  alarm(60);
  for (int i = 0; i < ops; ++i) {
    uint64_t k = NewKey(r, invalid, kind); Ent e; e.key = k; e.val = r.next(); Ent* out = nullptr; bool had = m.count(k);
    if (!had && r.chance(ins)) { out = t.Insert(e); VCHECK(out->key == k && out->val == e.val, "auto:inserted", "inserted entry differs"); m[k] = e.val; }
    else { bool f = t.FindOrInsert(e, out); VCHECK(f == had, "auto:found", "FindOrInsert says %d for a key that is %s", f, had ? "present" : "absent"); VCHECK(out->key == k && out->val == (had ? m[k] : e.val), "auto:value", "entry with another value"); if (!had) m[k] = e.val; }
    VCHECK(t.Size() == m.size(), "auto:count", "Size() %zu after %zu insertions", t.Size(), m.size());
    if (r.chance(0.005)) { t.Clear(); m.clear(); VCHECK(t.Size() == 0, "auto:clear", "Size after Clear"); }
    if (r.chance(0.01)) Agree(t, m, r, invalid, kind, "auto");
  }
  alarm(0);
  Agree(t, m, r, invalid, kind, "auto"); vh::Max("largest table", m.size()); vh::Distinct("nontrivial", r.next());
}
// ---------- bit packing: against an array of bits
static void Bits(vh::Rng& r) {
  struct F { uint64_t off; int len, kind; uint64_t v; }; vector<F> fs; uint64_t off = r.below(70); int n = r.range(1, 60);
  for (int i = 0; i < n; ++i) { F f; f.kind = r.below(4); f.len = f.kind == 0 ? r.range(0, 57) : f.kind == 1 ? r.range(0, 25) : f.kind == 2 ? 32 : 31; f.off = off; off += f.len; if (r.chance(0.2)) off += r.below(20);
    uint64_t full = f.len ? (f.len == 64 ? ~0ull : (1ull << f.len) - 1) : 0; f.v = r.chance(0.2) ? full : r.chance(0.2) ? 0 : r.next() & full;
    if (f.kind >= 2) { float x = r.chance(0.1) ? -INFINITY : r.chance(0.1) ? -0.0f : (float)(-r.unit() * pow(10, r.range(-30, 20))); if (f.kind == 2 && r.chance(0.5)) x = -x; uint32_t u; memcpy(&u, &x, 4); f.v = f.kind == 3 ? u & 0x7fffffffu : u; }
    fs.push_back(f); }
  size_t bytes = off / 8 + 8 + 1; vector<uint8_t> mem(bytes, 0), want(bytes, 0); auto order = fs; r.shuffle(order);
  for (auto& f : order) {
    for (int b = 0; b < f.len; ++b) if (f.v >> b & 1) want[(f.off + b) / 8] |= 1 << ((f.off + b) % 8);
    float x; uint32_t u = f.v; memcpy(&x, &u, 4); if (f.kind == 3) SetSign(x);
    if (f.kind == 0) WriteInt57(mem.data(), f.off, f.len, f.v); else if (f.kind == 1) WriteInt25(mem.data(), f.off, f.len, f.v); else if (f.kind == 2) WriteFloat32(mem.data(), f.off, x); else WriteNonPositiveFloat31(mem.data(), f.off, x);
  }
  VCHECK(mem == want, "bits:layout", "%d fields over %llu bits: memory differs from the reference bit array", n, (unsigned long long)off);
  for (auto& f : fs) {
    uint64_t got; float x = 0;
    if (f.kind < 2) { BitsMask k = BitsMask::ByBits(f.len); VCHECK(k.bits == f.len && k.mask == (1ull << f.len) - 1, "bits:mask", "mask of %d bits", f.len); got = f.kind == 0 ? ReadInt57(mem.data(), f.off, f.len, k.mask) : ReadInt25(mem.data(), f.off, f.len, k.mask); }
    else { x = f.kind == 2 ? ReadFloat32(mem.data(), f.off) : ReadNonPositiveFloat31(mem.data(), f.off); uint32_t u; memcpy(&u, &x, 4); if (f.kind == 3) VCHECK(u >> 31, "bits:sign", "31 bit float read positive"); got = f.kind == 3 ? u & 0x7fffffffu : u; }
    VCHECK(got == f.v, "bits:value", "kind %d, %d bits at offset %llu: wrote %llx, read %llx", f.kind, f.len, (unsigned long long)f.off, (unsigned long long)f.v, (unsigned long long)got);
    vh::Count("fields");
  }
  uint64_t v = r.next() >> r.below(64); if (r.chance(0.3)) v = 1ull << r.below(63); if (r.chance(0.3)) --v; if (r.chance(0.02)) v = 0; if (r.chance(0.02)) v = ~0ull;
  int need = 0; for (uint64_t w = v; w; w >>= 1) ++need; VCHECK(RequiredBits(v) == need, "bits:required", "RequiredBits(%llu)=%d", (unsigned long long)v, RequiredBits(v));
  if (need < 64) { BitsMask k = BitsMask::ByMax(v); VCHECK(k.bits == need && k.mask == (1ull << need) - 1, "bits:bymax", "ByMax"); }
  float y = r.normal(); if (r.chance(0.1)) y = 0; float a = y, b = y; SetSign(a); UnsetSign(b); VCHECK(signbit(a) && fabsf(a) == fabsf(y) && !signbit(b) && b == fabsf(y), "bits:setsign", "SetSign/UnsetSign %g", y);
  vh::Distinct("nontrivial", r.next());
}
// ---------- searching
template <class T> static void Search(vh::Rng& r) {
  int n = r.range(0, r.chance(0.2) ? 400 : 30); vector<T> v; uint64_t top = numeric_limits<T>::max(); int shape = r.below(6);
  for (int i = 0; i < n; ++i) { uint64_t x = shape == 0 ? r.next() : shape == 1 ? r.below(50) : shape == 2 ? (r.chance(0.5) ? top - r.below(40) : r.below(40)) : shape == 3 ? (uint64_t)pow(2, r.unit() * 8 * sizeof(T)) : shape == 4 ? 1000 + 3 * i : top; v.push_back((T)(x & top)); }
  sort(v.begin(), v.end()); if (r.chance(0.7)) v.erase(unique(v.begin(), v.end()), v.end());
  IdentityAccessor<T> acc; typedef const T* It; It b = v.data(), e = b + v.size();
  int q = r.range(5, 40);
  for (int i = 0; i < q; ++i) {
    T k = v.empty() || r.chance(0.4) ? (T)(r.chance(0.5) ? r.next() : r.below(60)) : (T)(v[r.below(v.size())] + (r.chance(0.6) ? 0 : r.chance(0.5) ? 1 : -1)); bool has = binary_search(v.begin(), v.end(), k); It out = nullptr; 
    bool f = BinaryFind(acc, b, e, k, out); VCHECK(f == has && (!f || (out >= b && out < e && *out == k)), "search:binary", "BinaryFind of %llu among %zu", (unsigned long long)k, v.size());
    out = nullptr; f = SortedUniformFind<It, IdentityAccessor<T>, typename PivotSelect<sizeof(T)>::T>(acc, b, e, k, out); VCHECK(f == has && (!f || (out >= b && out < e && *out == k)), "search:uniform", "SortedUniformFind of %llu among %zu (width %zu) says %d", (unsigned long long)k, v.size(), sizeof(T), f);
    // the range between two virtual ends, as the trie's unigram-to-bigram search uses it
    T lo = 0, hi = (T)top; if (!v.empty() && r.chance(0.5)) { lo = (T)(v.front() ? v.front() - r.below(2) : 0); hi = (T)(v.back() < (T)top ? v.back() + (T)r.below(2) : v.back()); }
    if (lo <= k && k <= hi && lo < hi) { // one slot either side of the array exists so that the ends can be pointed at
      vector<T> pad; pad.push_back(lo); pad.insert(pad.end(), v.begin(), v.end()); pad.push_back(hi); It pb = pad.data(), pe = pb + pad.size() - 1; out = nullptr;
      f = BoundedSortedUniformFind<It, IdentityAccessor<T>, typename PivotSelect<sizeof(T)>::T>(acc, pb, lo, pe, hi, k, out); VCHECK(f == has && (!f || (out > pb && out < pe && *out == k)), "search:bounded", "BoundedSortedUniformFind of %llu in [%llu,%llu] among %zu says %d", (unsigned long long)k, (unsigned long long)lo, (unsigned long long)hi, v.size(), f); }
    vh::Count("searches");
  }
  if (n > 2) vh::Distinct("nontrivial", r.next());
}
static void Pivots(vh::Rng& r) { // any pivot inside the range keeps the search correct: the offset must stay inside for all admissible arguments
  for (int i = 0; i < 30; ++i) { uint64_t range = r.next() >> r.below(63); if (range < 2) range = 2; uint64_t off = r.chance(0.3) ? range : r.chance(0.2) ? 0 : r.next() % range; uint64_t width = 1 + (r.next() >> r.range(10, 63));
    size_t p = Pivot64::Calc(off, range, width); VCHECK(p < width, "pivot:64", "Pivot64(%llu,%llu,%llu)=%zu", (unsigned long long)off, (unsigned long long)range, (unsigned long long)width, p);
    uint64_t r32 = range >> 32 ? range >> 32 : range; uint64_t o32 = off % (r32 + 1), w32 = 1 + width % 0xffffffffull; p = Pivot32::Calc(o32, r32, w32); VCHECK(p < w32, "pivot:32", "Pivot32(%llu,%llu,%llu)=%zu", (unsigned long long)o32, (unsigned long long)r32, (unsigned long long)w32, p); }
}
// ---------- sorting parallel arrays and fixed-size records
static void Sorts(vh::Rng& r) {
  int n = r.range(0, r.chance(0.3) ? 200 : 24); int spread = r.pick(vector<int>{1, 3, 20, 1000000}); vector<int> key; vector<string> val; vector<pair<int, string>> ref;
  for (int i = 0; i < n; ++i) { key.push_back(r.below(spread)); val.push_back(vh::Fmt("v%d", i)); ref.push_back({key[i], val[i]}); }
  auto by = [&](bool down) { vector<pair<int, string>> got; for (int i = 0; i < n; ++i) got.push_back({key[i], val[i]}); for (int i = 1; i < n; ++i) VCHECK(down ? key[i - 1] >= key[i] : key[i - 1] <= key[i], "joint:order", "keys out of order at %d of %d", i, n); auto w = ref; sort(w.begin(), w.end()); sort(got.begin(), got.end()); VCHECK(got == w, "joint:pairs", "%d pairs: some key lost its value", n); };
  JointSort(key.begin(), key.end(), val.begin()); by(false); JointSort(key.begin(), key.end(), val.begin(), greater<int>()); by(true);
  if (n) { size_t a = r.below(n), b = a + r.below(n - a + 1); auto k0 = key; auto v0 = val; vector<int> sk(key.begin() + a, key.begin() + b); sort(sk.begin(), sk.end()); JointSort(key.begin() + a, key.begin() + b, val.begin() + a); VCHECK(equal(sk.begin(), sk.end(), key.begin() + a), "joint:part", "part not sorted"); for (size_t i = 0; i < (size_t)n; ++i) if (i < a || i >= b) VCHECK(key[i] == k0[i] && val[i] == v0[i], "joint:outside", "element %zu outside [%zu,%zu) changed", i, a, b);
    PairedIterator<int*, string*> pi(key.data(), val.data()); size_t at = r.below(n); VCHECK((*(pi + at)).GetKey() == key[at] && (pi + at) - pi == (ptrdiff_t)at, "joint:iter", "paired iterator"); }
  size_t w = r.range(1, 24); vector<uint8_t> mem(n * w); for (auto& x : mem) x = r.below(spread < 256 ? spread + 1 : 256); vector<string> rec; for (int i = 0; i < n; ++i) rec.push_back(string((char*)&mem[i * w], w));
  struct L { size_t w; bool operator()(const void* a, const void* b) const { return memcmp(a, b, w) < 0; } }; SizedCompare<L> cmp(L{w}); SizedIterator beg = SizedIt(mem.data(), w), end = SizedIt(mem.data() + n * w, w); VCHECK(end - beg == n, "sized:count", "%d records counted as %ld", n, (long)(end - beg));
  auto chk = [&](const char* k) { for (int i = 0; i < n; ++i) VCHECK(rec[i] == string((char*)&mem[i * w], w), k, "record %d of %d, width %zu", i, n, w); };
  if (n > 1 && r.chance(0.5)) { int m = r.below(n); SizedIterator mid = beg; mid += m; nth_element(beg, mid, end, cmp); auto s = rec; sort(s.begin(), s.end()); VCHECK(s[m] == string((const char*)mid->Data(), w), "sized:nth", "nth element"); vector<string> g; for (int i = 0; i < n; ++i) g.push_back(string((char*)&mem[i * w], w)); sort(g.begin(), g.end()); VCHECK(g == s, "sized:permutation", "records changed"); }
  sort(beg, end, cmp); sort(rec.begin(), rec.end()); chk("sized:sort"); if (n > 2) vh::Distinct("nontrivial", r.next());
}
// ---------- intersections
static void Meet(vh::Rng& r) {
  int k = r.range(1, 6); int top = r.pick(vector<int>{5, 30, 300}); vector<vector<unsigned>> sets(k); double p = r.unit(); for (auto& s : sets) for (int i = 0; i < top; ++i) if (r.chance(r.chance(0.1) ? 0 : sqrt(p))) s.push_back(i);
  bool down = r.chance(0.3); if (down) for (auto& s : sets) reverse(s.begin(), s.end());
  vector<unsigned> want; for (unsigned x : sets[0]) { bool all = true; for (auto& s : sets) all &= find(s.begin(), s.end(), x) != s.end(); if (all) want.push_back(x); }
  typedef boost::iterator_range<vector<unsigned>::const_iterator> R; vector<R> rs; for (auto& s : sets) rs.push_back(R(s.begin(), s.end())); auto rs2 = rs;
  boost::optional<unsigned> f = down ? FirstIntersection(rs, greater<unsigned>()) : FirstIntersection(rs); VCHECK(bool(f) == !want.empty() && (!f || *f == want[0]), "meet:first", "first of the intersection of %d sets: %d instead of %d", k, f ? (int)*f : -1, want.empty() ? -1 : (int)want[0]);
  vector<unsigned> got; auto put = [&](unsigned x) { got.push_back(x); }; if (down) AllIntersection(rs2, put, greater<unsigned>()); else AllIntersection(rs2, put); VCHECK(got == want, "meet:all", "intersection of %d sets has %zu members instead of %zu", k, got.size(), want.size());
  if (k > 1 && !want.empty()) vh::Distinct("nontrivial", r.next());
}
// ---------- tokens
template <class It> static vector<string> Toks(It i) { vector<string> o; for (; i; ++i) { if (!!i != !(!i)) break; o.push_back(string(i->data(), i->size())); } return o; }
static void Tokens(vh::Rng& r) {
  string s; int n = r.below(25); for (int i = 0; i < n; ++i) s += r.pick(vector<char>{'a', 'b', ' ', ' ', '|', '|', '\t', (char)0xe9, '\0'}); string held = s; StringPiece sp(held.data(), held.size());
  auto split = [&](const string& text, function<pair<size_t, size_t>(const string&, size_t)> next, bool skip) { vector<string> o; size_t at = 0; for (;;) { auto p = next(text, at); string t = text.substr(at, (p.first == string::npos ? text.size() : p.first) - at); if (!skip || !t.empty()) o.push_back(t); if (p.first == string::npos) return o; at = p.first + p.second; } };
  string chars; for (int i = r.range(1, 3); i--;) chars += r.pick(vector<char>{' ', '|', 'a', '\t'}); char one = chars[0]; string multi = r.pick(vector<string>{"||", "|||", " ", "ab", "| "});
  auto f1 = [&](const string& t, size_t a) { size_t p = t.find(one, a); return make_pair(p, size_t(1)); }; auto fm = [&](const string& t, size_t a) { return make_pair(t.find(multi, a), multi.size()); }; auto fa = [&](const string& t, size_t a) { return make_pair(t.find_first_of(chars, a), size_t(1)); };
  auto fb = [&](const string& t, size_t a) { return make_pair(t.find_first_of(string(" |\0", 3), a), size_t(1)); };
  if (s.empty()) sp = StringPiece(held.c_str(), 0);
  VCHECK(Toks(TokenIter<SingleCharacter>(sp, one)) == split(s, f1, false), "token:single", "splitting '%s' at '%c'", s.c_str(), one); VCHECK(Toks(TokenIter<SingleCharacter, true>(sp, one)) == split(s, f1, true), "token:single-skip", "splitting '%s' at '%c'", s.c_str(), one);
  StringPiece mp(multi), cp(chars); VCHECK(Toks(TokenIter<MultiCharacter>(sp, mp)) == split(s, fm, false), "token:multi", "splitting '%s' at '%s'", s.c_str(), multi.c_str()); VCHECK(Toks(TokenIter<MultiCharacter, true>(sp, mp)) == split(s, fm, true), "token:multi-skip", "splitting '%s' at '%s'", s.c_str(), multi.c_str());
  VCHECK(Toks(TokenIter<AnyCharacter>(sp, cp)) == split(s, fa, false), "token:any", "splitting '%s' at any of '%s'", s.c_str(), chars.c_str()); VCHECK(Toks(TokenIter<AnyCharacter, true>(sp, cp)) == split(s, fa, true), "token:any-skip", "splitting '%s' at any of '%s'", s.c_str(), chars.c_str());
  bool tab[256]; BoolCharacter::Build(" |", tab); VCHECK(Toks(TokenIter<BoolCharacter>(sp, tab)) == split(s, fb, false), "token:bool", "splitting '%s'", s.c_str()); VCHECK(Toks(TokenIter<BoolCharacter, true>(sp, tab)) == split(s, fb, true), "token:bool-skip", "splitting '%s'", s.c_str());
  TokenIter<SingleCharacter> end = TokenIter<SingleCharacter>::end(); bool threw = false; try { (void)*end; } catch (const OutOfTokens&) { threw = true; } VCHECK(threw, "token:end", "dereferencing the end did not throw"); if (n > 3) vh::Distinct("nontrivial", vh::HashStr(s));
}
// ---------- pools, fixed arrays, hashes
static void Pools(vh::Rng& r) {
  Pool p; int rounds = r.range(1, 3);
  while (rounds--) { struct A { uint8_t* at; size_t n; uint8_t f; }; vector<A> v; int n = r.range(1, 150); for (int i = 0; i < n; ++i) { size_t s = r.chance(0.05) ? r.below(5000) : r.range(1, 70); if (r.chance(0.03)) s = 0; A a{(uint8_t*)p.Allocate(s), s, (uint8_t)r.next()}; memset(a.at, a.f, a.n); v.push_back(a); }
    for (auto& a : v) for (size_t i = 0; i < a.n; ++i) if (a.at[i] != a.f) { VCHECK(false, "pool:overlap", "an allocation of %zu bytes was overwritten by another", a.n); break; }
    vh::Count("allocations", n); p.FreeAll(); } vh::Count("oracle_checks");
  static int live; live = 0; struct C { int v; C(int x) : v(x) { ++live; } C(const C& o) : v(o.v) { ++live; } ~C() { --live; } };
  { int cap = r.range(0, 20), n = r.below(cap + 1); FixedArray<C> a(cap); for (int i = 0; i < n; ++i) a.push_back(i * 3); VCHECK((int)a.size() == n && live == n && a.empty() == !n, "fixed:size", "%d pushed, %zu held, %d alive", n, a.size(), live); for (int i = 0; i < n; ++i) VCHECK(a[i].v == i * 3, "fixed:value", "element %d", i); if (n) VCHECK(a.back().v == (n - 1) * 3, "fixed:back", "back");
    if (n) { FixedArray<C> b(a); VCHECK((int)b.size() == n && live == 2 * n, "fixed:copy", "copy of %d holds %zu, alive %d", n, b.size(), live); for (int i = 0; i < n; ++i) VCHECK(b[i].v == i * 3, "fixed:copy-value", "element %d", i); }
    VCHECK(live == n, "fixed:alive", "%d alive instead of %d", live, n); if (r.chance(0.5)) { a.clear(); VCHECK(live == 0 && a.empty(), "fixed:clear", "%d alive after clear", live); } }
  VCHECK(live == 0, "fixed:leak", "%d objects never destroyed", live);
}
static uint64_t Ref64A(const uint8_t* p, size_t n, uint64_t seed) { const uint64_t m = 0xc6a4a7935bd1e995ull; auto mix = [&](uint64_t k) { k *= m; k ^= k >> 47; return k * m; }; uint64_t h = seed ^ (n * m); size_t i = 0; for (; i + 8 <= n; i += 8) { uint64_t k = 0; for (int j = 7; j >= 0; --j) k = k << 8 | p[i + j]; h = (h ^ mix(k)) * m; } if (i < n) { uint64_t k = 0; for (size_t j = n; j-- > i;) k = k << 8 | p[j]; h = (h ^ k) * m; } h ^= h >> 47; h *= m; return h ^ h >> 47; }
static void Hashes(vh::Rng& r) { for (int i = 0; i < 20; ++i) { size_t n = r.below(70), o = r.below(8); vector<uint8_t> b(n + o); for (auto& x : b) x = r.next(); uint64_t s = r.chance(0.5) ? 0 : r.next(); uint64_t w = Ref64A(b.data() + o, n, s); VCHECK(MurmurHash64A(b.data() + o, n, s) == w && MurmurHashNative(b.data() + o, n, s) == w, "hash:murmur", "hash of %zu bytes at alignment %zu", n, o); vector<uint8_t> q(b.begin() + o, b.end()); if (n) { uint64_t h2 = MurmurHash64B(b.data() + o, n, s); unique_ptr<uint8_t[]> t(new uint8_t[n]); memcpy(t.get(), q.data(), n); VCHECK(MurmurHash64B(t.get(), n, s) == h2, "hash:place", "hash depends on where the bytes are"); } } }
// ---------- pointer compression
template <class B> static void Pointers(vh::Rng& r, const char* w) {
  lm::ngram::Config cfg; cfg.pointer_bhiksha_bits = r.chance(0.3) ? 255 : r.below(65); int n = r.range(0, r.chance(0.2) ? 400 : 40); vector<uint64_t> v; uint64_t step = r.chance(0.2) ? 1ull << r.range(0, 45) : r.pick(vector<uint64_t>{1, 2, 5, 100, 5000}); uint64_t at = r.chance(0.3) ? 0 : r.below(100);
  for (int i = 0; i <= n; ++i) { v.push_back(at); if (!r.chance(0.3)) at += r.chance(0.05) ? step * r.below(50) : r.next() % (step + 1); } uint64_t mx = v.back(); uint64_t off = n + 1;
  uint8_t inl = B::InlineBits(off, mx, cfg); if (inl > 57) return; uint64_t size = B::Size(off, mx, cfg); if (size > (64u << 20)) { vh::Count("large tables skipped"); return; }
  size_t mis = r.below(8); unique_ptr<uint8_t[]> side(new uint8_t[size + mis]); memset(side.get(), 0, size + mis); int extra = r.below(40); int total = inl + extra; uint64_t start = r.below(64); vector<uint8_t> bits((start + (uint64_t)total * (n + 1)) / 8 + 9, 0);
  { B b(side.get() + mis, off, mx, cfg); VCHECK(b.InlineBits() == inl, string(w) + ":bits", "inline bits"); for (int i = 0; i <= n; ++i) b.WriteNext(bits.data(), start + (uint64_t)i * total, i, v[i]); try { b.FinishedLoading(cfg); } catch (const Exception& e) { VCHECK(false, string(w) + ":finish", "%s", e.what()); return; }
    for (int i = 0; i < n; ++i) { lm::ngram::trie::NodeRange g; b.ReadNext(bits.data(), start + (uint64_t)i * total, i, total, g); VCHECK(g.begin == v[i] && g.end == v[i + 1], string(w) + ":range", "pointer %d of %d (max %llu, %d inline bits, limit %d): [%llu,%llu) instead of [%llu,%llu)", i, n, (unsigned long long)mx, inl, cfg.pointer_bhiksha_bits, (unsigned long long)g.begin, (unsigned long long)g.end, (unsigned long long)v[i], (unsigned long long)v[i + 1]); } }
  B again(side.get() + mis, off, mx, cfg); int k = n ? r.below(n) : -1; if (k >= 0) { lm::ngram::trie::NodeRange g; again.ReadNext(bits.data(), start + (uint64_t)k * total, k, total, g); VCHECK(g.begin == v[k] && g.end == v[k + 1], string(w) + ":reload", "pointer %d over the same memory", k); }
  vh::Count("pointers", n); if (n > 2) vh::Distinct("nontrivial", r.next());
}
int main(int c, char** v) { return vh::Main(c, v, [](vh::Rng& r, long) {
  Fixed(r); Growing(r); Bits(r); Bits(r); Search<uint64_t>(r); Search<uint32_t>(r); Search<uint16_t>(r); Pivots(r); Sorts(r); Meet(r); Tokens(r); Pools(r); Hashes(r); Pointers<lm::ngram::trie::ArrayBhiksha>(r, "bhiksha"); Pointers<lm::ngram::trie::DontBhiksha>(r, "plain"); }); }
