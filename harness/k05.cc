// K05: chains of concurrent workers, external sorting, the bounded queue and the thread pool under random schedules.
#include "vh.h"
#include "util/stream/chain.hh"
#include "util/stream/io.hh"
#include "util/stream/sort.hh"
#include "util/stream/stream.hh"
#include "util/stream/multi_stream.hh"
#include "util/pcqueue.hh"
#include "util/thread_pool.hh"
#include "util/file.hh"
#include <boost/thread.hpp>
#include <boost/ref.hpp>
#include <thread>
#include <atomic>
#include <sched.h>
#include <unistd.h>
#include <fcntl.h>
using namespace std; using namespace util; using namespace util::stream;
// ---- schedule noise
struct Noise { uint64_t s; int mode; explicit Noise(uint64_t seed = 1, int m = 0) : s(seed | 1), mode(m) {}
  void operator()() { if (!mode) return; s ^= s << 13; s ^= s >> 7; s ^= s << 17; unsigned k = s % 64; if (k < 4u * mode) sched_yield(); else if (k == 60 && mode > 1) usleep(s / 64 % 200); } };
// ---- records: 8 byte index, then filler that follows from it
static void Fill(uint8_t* p, size_t e, uint64_t i) { uint64_t v = i * 0x9E3779B97F4A7C15ull; for (size_t k = 0; k < e; ++k) { p[k] = k < 8 && k < e ? uint8_t(i >> (8 * k)) : uint8_t(v >> (8 * (k % 8))) + k; } }
static uint64_t Index(const uint8_t* p, size_t e) { uint64_t i = 0; for (size_t k = 0; k < 8 && k < e; ++k) i |= uint64_t(p[k]) << (8 * k); return i; }
static bool Good(const uint8_t* p, size_t e) { vector<uint8_t> w(e); Fill(w.data(), e, Index(p, e)); return memcmp(p, w.data(), e) == 0; }
typedef vector<uint64_t> Seen;
struct Plan { vector<uint64_t> recs; Noise noise; Seen* seen; uint64_t blocks; };
// sources
struct LinkSource { Seen recs; Noise n; vector<int> sizes;
  void Run(const ChainPosition& pos) { size_t e = pos.GetChain().EntrySize(), per = pos.GetChain().BlockSize() / e; Link l(pos); size_t at = 0, b = 0;
    while (at < recs.size()) { size_t want = sizes.empty() ? per : min<size_t>(per, sizes[b++ % sizes.size()]); if (!want && b > 2 * sizes.size() + 2 && sizes.size() == 1) want = 1;
      want = min(want, recs.size() - at); for (size_t k = 0; k < want; ++k) Fill((uint8_t*)l->Get() + k * e, e, recs[at++]); l->SetValidSize(want * e); n(); ++l; }
    l.Poison(); } };
struct StreamSource { Seen recs; Noise n;
  void Run(const ChainPosition& pos) { size_t e = pos.GetChain().EntrySize(); Stream s(pos); for (uint64_t i : recs) { Fill((uint8_t*)s.Get(), e, i); n(); ++s; } s.Poison(); } };
// observers: the record sequence as one stage sees it
struct LinkWatch { Seen* seen; bool* bad; Noise n;
  void Run(const ChainPosition& pos) { size_t e = pos.GetChain().EntrySize(); for (Link l(pos); l; ++l) { if (l->ValidSize() % e) *bad = true; for (size_t o = 0; o + e <= l->ValidSize(); o += e) { const uint8_t* p = (const uint8_t*)l->Get() + o; if (!Good(p, e)) *bad = true; seen->push_back(Index(p, e)); } n(); } } };
struct StreamWatch { Seen* seen; bool* bad; Noise n;
  void Run(const ChainPosition& pos) { size_t e = pos.GetChain().EntrySize(); for (Stream s(pos); s; ++s) { const uint8_t* p = (const uint8_t*)s.Get(); if (!Good(p, e)) *bad = true; seen->push_back(Index(p, e)); n(); } } };
// rewrites each record to 3i+1 in place
struct Rewrite { Noise n; void Run(const ChainPosition& pos) { size_t e = pos.GetChain().EntrySize(); for (Stream s(pos); s; ++s) { uint8_t* p = (uint8_t*)s.Get(); Fill(p, e, Index(p, e) * 3 + 1); n(); } } };
// drops records with index % m == 0 by closing the gap
struct Compact { uint64_t m; Noise n; void Run(const ChainPosition& pos) { size_t e = pos.GetChain().EntrySize(); for (Link l(pos); l; ++l) { uint8_t *b = (uint8_t*)l->Get(), *to = b; for (size_t o = 0; o < l->ValidSize(); o += e) if (Index(b + o, e) % m) { memmove(to, b + o, e); to += e; } l->SetValidSize(to - b); n(); } } };
static int Temp() { string t = vh::S().dir + "/tXXXXXX"; int fd = mkstemp(&t[0]); if (fd < 0) { perror("mkstemp"); _exit(3); } unlink(t.c_str()); return fd; }
static Seen FileSeq(int fd, size_t e, bool* bad) { Seen r; uint64_t sz = SizeOrThrow(fd); if (sz % e) *bad = true; vector<uint8_t> b(sz); if (sz) ErsatzPRead(fd, b.data(), sz, 0); for (size_t o = 0; o + e <= sz; o += e) { if (!Good(&b[o], e)) *bad = true; r.push_back(Index(&b[o], e)); } return r; }
static string Diff(const Seen& got, const Seen& want) { size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i; return vh::Fmt("%zu records, expected %zu; first difference at %zu: %lld instead of %lld", got.size(), want.size(), i, i < got.size() ? (long long)got[i] : -1LL, i < want.size() ? (long long)want[i] : -1LL); }
static void Chains1(vh::Rng& r) {
  size_t e = r.pick(vector<size_t>{8, 9, 12, 16, 20, 24, 33}); size_t blocks = r.range(1, 6); size_t per = r.chance(0.2) ? 1 : r.range(1, 40);
  size_t mem = e * per * blocks + r.below(e * blocks);
  ChainConfig cfg(e, blocks, mem); Chain chain(cfg);
  VCHECK(chain.BlockSize() % e == 0 && chain.BlockSize() * blocks <= mem && chain.BlockSize() >= e, "chain:block", "block size %zu for %zu entries of %zu in %zu", chain.BlockSize(), blocks, e, mem);
  int rounds = r.chance(0.3) ? r.range(2, 4) : 1;
  for (int round = 0; round < rounds; ++round) {
    int N = r.chance(0.1) ? 0 : r.chance(0.3) ? (int)(chain.BlockSize() / e) * r.range(1, 8) : r.range(1, 600);
    Seen cur; uint64_t base = r.below(1u << 20); for (int i = 0; i < N; ++i) cur.push_back(base + i);
    int mode = r.below(4); auto nz = [&] { return Noise(r.next(), r.chance(0.3) ? 0 : mode); };
    struct Exp { Seen want, got; bool bad; const char* what; int fd; }; vector<unique_ptr<Exp>> ex; string desc = vh::Fmt("entry %zu blocks %zu per %zu N %d:", e, blocks, per, N);
    bool empties = false;
    auto watch = [&](const char* w) { ex.emplace_back(new Exp{cur, {}, false, w, -1}); desc += string(" ") + w; return ex.back().get(); };
    scoped_fd in;
    switch (r.below(5)) {
      case 0: { LinkSource s; s.recs = cur; s.n = nz(); int k = r.below(6); bool any = false; while (k--) { s.sizes.push_back(r.chance(0.3) ? 0 : r.range(1, 30)); any |= s.sizes.back() != 0; } if (!any) s.sizes.clear(); empties = true; chain >> s; desc += " link-source"; break; }
      case 1: { StreamSource s; s.recs = cur; s.n = nz(); empties = !N; chain >> s; desc += " stream-source"; break; }
      default: { in.reset(Temp()); vector<uint8_t> b(N * e + 1); for (int i = 0; i < N; ++i) Fill(&b[i * e], e, cur[i]); WriteOrThrow(in.get(), b.data(), N * e); SeekOrThrow(in.get(), 0);
        int k = r.below(3); if (k == 0) { chain >> Read(in.get()); desc += " read"; } else if (k == 1) { chain >> PRead(in.get()); desc += " pread"; } else { chain >> PRead(in.release(), true); desc += " pread-own"; } } }
    int stages = r.below(5);
    for (int i = 0; i < stages; ++i) switch (r.below(6)) {
      case 0: { Exp* x = watch("link"); chain >> LinkWatch{&x->got, &x->bad, nz()}; break; }
      case 1: { Exp* x = watch("stream"); chain >> StreamWatch{&x->got, &x->bad, nz()}; break; }
      case 2: { chain >> Rewrite{nz()}; for (auto& v : cur) v = v * 3 + 1; desc += " rewrite"; break; }
      case 3: { uint64_t m = r.range(1, 4); chain >> Compact{m, nz()}; Seen nx; for (auto v : cur) if (v % m) nx.push_back(v); cur = nx; desc += vh::Fmt(" compact%d", (int)m); break; }
      case 4: { Exp* x = watch("write"); x->fd = Temp(); chain >> Write(x->fd); break; }
      default: { Exp* x = watch("ref"); LinkWatch w{&x->got, &x->bad, nz()}; /* by reference: must outlive the chain */ static thread_local vector<unique_ptr<LinkWatch>> keep; if (keep.size() > 4096) keep.clear(); keep.emplace_back(new LinkWatch(w)); chain >> boost::ref(*keep.back()); break; }
    }
    unique_ptr<FileBuffer> fb; Exp* fbx = 0; bool done = false;
    int end = r.below(6); if (end == 2 && (empties || desc.find("compact") != string::npos)) end = 3;  // a Stream looks for its first record before the loop is closed, so empty blocks have nowhere to go
    switch (end) {
      case 0: { Exp* x = watch("write-recycle"); x->fd = Temp(); chain >> WriteAndRecycle(x->fd); break; }
      case 1: { fb.reset(new FileBuffer(Temp())); fbx = watch("file-buffer"); chain >> fb->Sink(); break; }
      case 2: { Exp* x = watch("main-stream"); { Stream s; chain >> s >> kRecycle; Noise n = nz(); for (; s; ++s) { const uint8_t* p = (const uint8_t*)s.Get(); if (!Good(p, e)) x->bad = true; x->got.push_back(Index(p, e)); n(); } } chain.Wait(r.chance(0.5)); done = true; break; }
      case 3: { Exp* x = watch("main-link"); { Link l; chain >> l; if (r.chance(0.5)) chain >> kRecycle; else chain.CompleteLoop(); Noise n = nz(); for (; l; ++l) { for (size_t o = 0; o + e <= l->ValidSize(); o += e) { const uint8_t* p = (const uint8_t*)l->Get() + o; if (!Good(p, e)) x->bad = true; x->got.push_back(Index(p, e)); } n(); } } chain.Wait(r.chance(0.5)); done = true; break; }
      case 4: chain >> kRecycle; break;
      default: break; // Wait completes the loop
    }
    if (!done) chain.Wait(r.chance(0.5));
    VCHECK(!chain.Running(), "chain:running", "the chain runs after Wait");
    if (fb) { VCHECK(fb->Size() == fbx->want.size() * e, "chain:buffer-size", "%s: file buffer holds %llu bytes, expected %zu", desc.c_str(), (unsigned long long)fb->Size(), fbx->want.size() * e);
      int reads = r.range(1, 2); while (reads--) { size_t b2 = r.range(1, 4); Chain c2(ChainConfig(e, b2, b2 * e * r.range(1, 50))); Seen got; bool bad = false; c2 >> fb->Source() >> StreamWatch{&got, &bad, nz()} >> kRecycle; c2.Wait(); VCHECK(got == fbx->want && !bad, "chain:file-buffer", "%s: %s", desc.c_str(), Diff(got, fbx->want).c_str()); }
      fbx->got = fbx->want; }
    for (auto& x : ex) { if (x->fd >= 0) { x->got = FileSeq(x->fd, e, &x->bad); close(x->fd); }
      VCHECK(!x->bad, "chain:content", "%s: a stage (%s) saw a damaged record", desc.c_str(), x->what);
      VCHECK(x->got == x->want, "chain:sequence", "%s: stage %s saw %s", desc.c_str(), x->what, Diff(x->got, x->want).c_str()); vh::Count("records_checked_at_a_stage", x->got.size()); }
    vh::Count("chain_runs"); vh::Distinct("nontrivial", vh::HashStr(desc)); vh::Count(vh::Fmt("noise_mode_%d", mode).c_str());
  }
}
// ---- several chains driven by one worker (as the estimator does)
struct Fan { Seen recs; int k; Noise n; void Run(const ChainPositions& p) { Streams s(p); for (uint64_t i : recs) { Stream& t = s[i % k]; Fill((uint8_t*)t.Get(), p[i % k].GetChain().EntrySize(), i); n(); ++t; } for (Stream* t = s.begin(); t != s.end(); ++t) t->Poison(); } };
struct Join { Seen* seen; bool* bad; int k; Noise n; void Run(const ChainPositions& p) { Streams s(p); vector<size_t> es; for (auto& q : p) es.push_back(q.GetChain().EntrySize());
  while (1) { int best = -1; for (int i = 0; i < k; ++i) if (s[i] && (best < 0 || Index((uint8_t*)s[i].Get(), 8) < Index((uint8_t*)s[best].Get(), 8))) best = i; if (best < 0) break; uint8_t* q = (uint8_t*)s[best].Get(); if (!Good(q, es[best])) *bad = true; seen->push_back(Index(q, 8)); n(); ++s[best]; } } };
static void Chains2(vh::Rng& r) {
  int k = r.range(1, 4); Chains chains(k); size_t per = r.range(1, 30), nb = r.range(4, 6); for (int i = 0; i < k; ++i) { size_t e = 8 + 4 * i; chains.push_back(ChainConfig(e, nb, nb * e * per)); }  // equal depth: otherwise a join may wait for a chain the fan cannot fill
  Seen recs; int N = r.range(0, 800); for (int i = 0; i < N; ++i) recs.push_back(i); int mode = r.below(4); Seen a, b; bool bad = false;
  chains >> Fan{recs, k, Noise(r.next(), mode)};
  chains >> Join{&a, &bad, k, Noise(r.next(), mode)};
  if (r.chance(0.5)) chains >> Join{&b, &bad, k, Noise(r.next(), mode)}; else b = recs;
  chains >> kRecycle; chains.Wait();
  VCHECK(!bad && a == recs && b == recs, "chains:sequence", "%d chains: %s / %s", k, Diff(a, recs).c_str(), Diff(b, recs).c_str()); vh::Count("multi_chain_runs"); vh::Count("records_checked_at_a_stage", a.size());
}
// ---- sorting: 4 byte key, 4 byte count, 8 byte tag
struct Cmp { int mod; explicit Cmp(int m = 0) : mod(m) {} static uint32_t Key(const void* p) { uint32_t k; memcpy(&k, p, 4); return k; } bool operator()(const void* a, const void* b) const { return mod ? Key(b) < Key(a) : Key(a) < Key(b); } };
struct Add { bool operator()(void* into, const void* opt, const Cmp& c) const { if (c(into, opt) || c(opt, into)) return false; uint32_t x, y; memcpy(&x, (char*)into + 4, 4); memcpy(&y, (const char*)opt + 4, 4); x += y; memcpy((char*)into + 4, &x, 4); uint64_t s, t; memcpy(&s, (char*)into + 8, 8); memcpy(&t, (const char*)opt + 8, 8); s += t; memcpy((char*)into + 8, &s, 8); return true; } };
struct RawSource { const vector<string>* recs; size_t blocks_of; Noise n;
  void Run(const ChainPosition& pos) { size_t e = pos.GetChain().EntrySize(), per = pos.GetChain().BlockSize() / e; if (blocks_of) per = min(per, blocks_of); Link l(pos); for (size_t at = 0; at < recs->size();) { size_t w = min(per, recs->size() - at); for (size_t k = 0; k < w; ++k) memcpy((char*)l->Get() + k * e, (*recs)[at++].data(), e); l->SetValidSize(w * e); n(); ++l; } l.Poison(); } };
struct RawWatch { vector<string>* got; Noise n; void Run(const ChainPosition& pos) { size_t e = pos.GetChain().EntrySize(); for (Stream s(pos); s; ++s) { got->push_back(string((char*)s.Get(), e)); n(); } } };
static uint32_t CountOf(const string& s) { uint32_t c; memcpy(&c, &s[4], 4); return c; }
static uint64_t TagOf(const string& s) { uint64_t c; memcpy(&c, &s[8], 8); return c; }
template <class Comb> static void SortCase(vh::Rng& r, bool combine) {
  size_t e = 16 + 4 * r.below(4); int N = r.chance(0.05) ? 0 : r.chance(0.1) ? 1 : r.range(2, r.chance(0.1) ? 6000 : 900); uint32_t keys = r.pick(vector<uint32_t>{1, 3, 20, 500, 1u << 30});
  vector<string> recs(N); for (int i = 0; i < N; ++i) { string s(e, 0); uint32_t k = r.below(keys), c = 1 + r.below(3); uint64_t t = i + 1; memcpy(&s[0], &k, 4); memcpy(&s[4], &c, 4); memcpy(&s[8], &t, 8); for (size_t j = 16; j < e; ++j) s[j] = combine ? 7 : (char)r.below(256); recs[i] = s; }
  if (r.chance(0.15)) std::sort(recs.begin(), recs.end(), [](const string& a, const string& b) { return Cmp::Key(a.data()) < Cmp::Key(b.data()); }); else if (r.chance(0.1)) std::sort(recs.begin(), recs.end(), [](const string& a, const string& b) { return Cmp::Key(b.data()) < Cmp::Key(a.data()); });
  size_t blocks = r.range(1, 4), per = r.chance(0.3) ? r.range(1, 4) : r.range(1, 80); Chain in(ChainConfig(e, blocks, e * per * blocks)); size_t of = r.chance(0.3) ? r.range(1, 20) : 0; int mode = r.below(3);
  SortConfig sc; sc.temp_prefix = vh::S().dir + "/srt"; size_t buf = e * r.range(1, r.chance(0.5) ? 3 : 20) + r.below(e); sc.buffer_size = buf; sc.total_memory = buf * r.range(4, 9) + r.below(e);
  Cmp cmp(r.below(2)); size_t eff = of ? min(of, per) : per, nblocks = (N + eff - 1) / eff;
  string desc = vh::Fmt("entry %zu N %d keys %u blocks of %zu (%zu) buffer %zu total %zu combine %d:", e, N, keys, eff, nblocks, buf, sc.total_memory, (int)combine);
  vector<string> got; bool strict = false;
  { Noise n1(r.next(), mode); in >> RawSource{&recs, of, n1};
    Sort<Cmp, Comb> sorter(in, sc, cmp, Comb()); in.Wait(r.chance(0.5));
    VCHECK(sorter.Size() == uint64_t(N) * e, "sort:size", "%s the sorter holds %llu bytes", desc.c_str(), (unsigned long long)sorter.Size());
    if (r.chance(0.4)) { size_t lm = r.chance(0.3) ? 0 : r.below(2 * N * e + 100); size_t need = sorter.Merge(lm); desc += vh::Fmt(" merge(%zu)=%zu", lm, need); VCHECK(need <= max<size_t>(lm, 0) , "sort:need", "%s merging within %zu bytes leaves a need of %zu", desc.c_str(), lm, need); }
    Noise n2(r.next(), mode); size_t ob = r.range(1, 4), op = r.range(1, 60);
    if (r.chance(0.3)) { int fd = sorter.StealCompleted(); desc += " steal"; VCHECK(lseek(fd, 0, SEEK_CUR) == 0, "sort:offset", "%s file not at its start", desc.c_str()); uint64_t sz = SizeOrThrow(fd); string b(sz, 0); if (sz) ErsatzPRead(fd, &b[0], sz, 0); close(fd); VCHECK(sz % e == 0, "sort:size", "%s stolen file has %llu bytes", desc.c_str(), (unsigned long long)sz); for (size_t o = 0; o + e <= sz; o += e) got.push_back(b.substr(o, e)); }
    else { Chain out(ChainConfig(e, ob, ob * op * e)); if (r.chance(0.4)) { sorter.Output(out); desc += " output"; } else { size_t lm = r.chance(0.3) ? r.below(3 * buf) : r.below(2 * N * e + 100); desc += vh::Fmt(" output(%zu)", lm); sorter.Output(out, lm); } out >> RawWatch{&got, n2} >> kRecycle; out.Wait(); } }
  strict = combine && nblocks > 1;
  for (size_t i = 1; i < got.size(); ++i) { VCHECK(!cmp(got[i].data(), got[i - 1].data()), "sort:order", "%s record %zu is out of order", desc.c_str(), i); if (strict) VCHECK(cmp(got[i - 1].data(), got[i].data()), "sort:combined", "%s equal records %zu and %zu were not combined", desc.c_str(), i - 1, i); }
  if (!combine) { vector<string> a = recs, b = got; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); VCHECK(a == b, "sort:permutation", "%s %zu records in, %zu out, not a permutation", desc.c_str(), a.size(), b.size()); }
  else { map<uint32_t, pair<uint64_t, uint64_t>> a, b; for (auto& s : recs) { auto& p = a[Cmp::Key(s.data())]; p.first += CountOf(s); p.second += TagOf(s); } for (auto& s : got) { auto& p = b[Cmp::Key(s.data())]; p.first += CountOf(s); p.second += TagOf(s); } VCHECK(a == b, "sort:sums", "%s the sums per key differ (%zu keys, %zu expected)", desc.c_str(), b.size(), a.size()); }
  vh::Count("sorts"); vh::Count("records_sorted", N); if (nblocks > 1) vh::Count("sorts_with_merging"); vh::Distinct("nontrivial", vh::HashStr(desc));
}
static void BlockingCase(vh::Rng& r) {
  size_t e = 16; int N = r.range(0, 700); vector<string> recs(N), got; for (int i = 0; i < N; ++i) { string s(e, 0); uint32_t k = r.below(50); uint64_t t = i; memcpy(&s[0], &k, 4); memcpy(&s[8], &t, 8); recs[i] = s; }
  size_t b = r.range(1, 3); Chain chain(ChainConfig(e, b, e * b * r.range(1, 60))); SortConfig sc; sc.temp_prefix = vh::S().dir + "/srt"; sc.buffer_size = e * r.range(1, 8); sc.total_memory = sc.buffer_size * r.range(4, 8);
  chain >> RawSource{&recs, 0, Noise(r.next(), 1)}; uint64_t sz = BlockingSort<Cmp, NeverCombine>(chain, sc); chain >> RawWatch{&got, Noise(r.next(), 1)} >> kRecycle; chain.Wait();
  VCHECK(sz == N * e && got.size() == recs.size(), "sort:blocking", "%llu bytes announced, %zu of %zu records", (unsigned long long)sz, got.size(), recs.size()); Cmp cmp;
  for (size_t i = 1; i < got.size(); ++i) VCHECK(!cmp(got[i].data(), got[i - 1].data()), "sort:blocking", "out of order at %zu", i);
  sort(got.begin(), got.end()); sort(recs.begin(), recs.end()); VCHECK(got == recs, "sort:blocking", "not a permutation"); vh::Count("sorts"); vh::Count("records_sorted", N);
}
// ---- queue
struct Oops {};
static atomic<long> live_peak(0);
struct Item { uint64_t v; static thread_local uint64_t fail; Item() : v(0) {} explicit Item(uint64_t x) : v(x) {} Item(const Item& o) : v(o.v) {} Item& operator=(const Item& o) { if (fail) { fail = fail * 6364136223846793005ull + 1442695040888963407ull; if ((fail >> 33) % 8 == 0) throw Oops(); } v = o.v; return *this; } };
thread_local uint64_t Item::fail = 0;
static void QueueCase(vh::Rng& r) {
  int P = r.range(1, 4), C = r.range(1, 4), per = r.range(1, 400), cap = r.chance(0.3) ? 1 : r.range(1, 12), mode = r.below(4); bool throwing = r.chance(0.3);
  PCQueue<Item> q(cap); vector<vector<uint64_t>> got(C); atomic<long> inside(0), peak(0), throws(0); vector<thread> ps, cs; vector<uint64_t> seeds; for (int i = 0; i < P + C; ++i) seeds.push_back(r.next() | 1);
  for (int i = 0; i < C; ++i) cs.emplace_back([&, i] { Noise n(seeds[i], mode); if (throwing) Item::fail = seeds[i]; while (1) { Item it; while (1) { try { q.Consume(it); break; } catch (Oops&) { ++throws; } } --inside; if (it.v == ~0ull) break; got[i].push_back(it.v); n(); } Item::fail = 0; });
  for (int i = 0; i < P; ++i) ps.emplace_back([&, i] { Noise n(seeds[C + i], mode); if (throwing) Item::fail = seeds[C + i]; for (int k = 0; k < per; ++k) { Item it(uint64_t(i) << 32 | k); while (1) { try { q.Produce(it); break; } catch (Oops&) { ++throws; } } long now = ++inside; long p = peak; while (now > p && !peak.compare_exchange_weak(p, now)) {} n(); } Item::fail = 0; });
  for (auto& t : ps) t.join(); for (int i = 0; i < C; ++i) q.Produce(Item(~0ull)); for (auto& t : cs) t.join();
  map<uint64_t, int> times; for (auto& g : got) { map<int, long> last; for (uint64_t v : g) { ++times[v]; int p = v >> 32; long k = v & 0xffffffff; if (last.count(p)) VCHECK(k > last[p], "queue:order", "a consumer saw item %ld of a producer after item %ld (capacity %d)", k, last[p], cap); last[p] = k; } }
  for (int i = 0; i < P; ++i) for (int k = 0; k < per; ++k) { int t = times[uint64_t(i) << 32 | k]; VCHECK(t == 1, "queue:once", "item %d of producer %d was delivered %d times (%d producers, %d consumers, capacity %d%s)", k, i, t, P, C, cap, throwing ? ", assignments throw" : ""); }
  VCHECK(times.size() == size_t(P) * per, "queue:invented", "%zu items delivered of %d", times.size(), P * per);
  // `inside` counts after Produce and before the matching Consume is seen by the monitor, so it may exceed the capacity by the number of threads
  VCHECK(peak <= cap + P + C, "queue:bound", "%ld items in a queue of %d", (long)peak, cap);
  vh::Count("queue_runs"); vh::Count("queue_items", P * per); vh::Count("throwing_assignments", throws); vh::Max("threads", P + C); vh::Distinct("nontrivial", (P * 7 + C) * 1000003ull + per * 31 + cap);
}
// capacity, seen by a single thread that never consumes: the (cap+1)th Produce has to wait
static void BoundCase(vh::Rng& r) {
  int cap = r.range(1, 6); PCQueue<int> q(cap); atomic<int> produced(0); thread t([&] { for (int i = 0; i < cap + 3; ++i) { q.Produce(i); ++produced; } });
  for (int k = 0; k < 200 && produced < cap; ++k) usleep(100); usleep(500); int p = produced; bool over = p > cap; for (int i = 0; i < cap + 3; ++i) { int v; q.Consume(v); VCHECK(v == i, "queue:fifo", "single consumer got %d, expected %d", v, i); } t.join();
  VCHECK(!over, "queue:bound", "a queue of %d accepted %d items", cap, p); vh::Count("bound_runs");
}
static mutex pool_mu; static map<int, int> pool_seen; static set<thread::id> pool_threads;
struct Handler { typedef int Request; uint64_t s; Noise n; explicit Handler(uint64_t seed) : s(seed), n(seed, 2) {} void operator()(int v) { n(); lock_guard<mutex> l(pool_mu); ++pool_seen[v]; pool_threads.insert(this_thread::get_id()); } };
static void PoolCase(vh::Rng& r) {
  pool_seen.clear(); pool_threads.clear(); int N = r.range(0, 300), W = r.range(1, 5), Q = r.range(1, 8); { ThreadPool<Handler> pool(Q, W, (uint64_t)r.next(), -1); Noise n(r.next(), 1); for (int i = 0; i < N; ++i) { if (r.chance(0.5)) pool.Produce(i); else pool.In().Produce(i); n(); } }
  bool ok = (int)pool_seen.size() == N; for (auto& p : pool_seen) ok = ok && p.second == 1; VCHECK(ok, "pool:once", "%d requests, %zu handled (%d workers, queue %d)", N, pool_seen.size(), W, Q); vh::Count("pool_requests", N); vh::Max("pool_threads_seen", pool_threads.size());
}
static void Case(vh::Rng& r, long c) {
  switch (c % 10) { case 0: case 1: case 2: case 3: Chains1(r); break; case 4: Chains2(r); break; case 5: case 6: if (r.chance(0.15)) BlockingCase(r); else SortCase<NeverCombine>(r, false); break; case 7: SortCase<Add>(r, true); break; case 8: QueueCase(r); break; default: if (r.chance(0.4)) BoundCase(r); else PoolCase(r); }
}
int main(int argc, char** argv) { return vh::Main(argc, argv, Case); }
