// X01: the suffix array, phrase lookup, gapped intersection, the precomputed collocations and the samplers against a scan of the corpus.
#include "ext.h"
#include <functional>
#include <unordered_set>
#include "matchings_finder.h"
#include "fast_intersector.h"
#include "suffix_array_sampler.h"
#include "matchings_sampler.h"
#include "phrase_location_sampler.h"
using namespace ex;
static void Case(vh::Rng& r, long) {
  Quiet q; Corpus c = Random(r, r.chance(0.3) ? 40 : 8, r.chance(0.2) ? 30 : 10); Files f = Write(r, c);
  bool both = r.chance(0.3); shared_ptr<DataArray> d(both ? new DataArray(f.both, SOURCE) : new DataArray(f.src));
  // data array
  vector<string> flat; vector<int> sent, start; for (size_t i = 0; i < c.src.size(); ++i) { start.push_back(flat.size()); for (auto& w : c.src[i]) { flat.push_back(w); sent.push_back(i); } flat.push_back(""); sent.push_back(i); } start.push_back(flat.size());
  bool ok = d->GetSize() == (int)flat.size() && d->GetNumSentences() == (int)c.src.size(); VCHECK(ok, "data:size", "%d words in %d sentences, expected %zu in %zu", d->GetSize(), d->GetNumSentences(), flat.size(), c.src.size()); if (!ok) return;
  for (size_t i = 0; i < flat.size(); ++i) { if (!flat[i].empty()) { VCHECK(d->GetWordAtIndex(i) == flat[i] && d->GetWord(d->GetWordId(flat[i])) == flat[i] && d->GetWordId(flat[i]) == d->AtIndex(i), "data:word", "position %zu", i); } else VCHECK(d->AtIndex(i) == DataArray::END_OF_LINE, "data:eol", "position %zu", i); VCHECK(d->GetSentenceId(i) == sent[i], "data:sentence", "position %zu", i); }
  for (size_t i = 0; i < c.src.size(); ++i) VCHECK(d->GetSentenceStart(i) == start[i] && d->GetSentenceLength(i) == (int)c.src[i].size(), "data:start", "sentence %zu", i);
  if (both) { { DataArray t(f.both, TARGET); size_t at = 0; for (auto& s : c.tgt) for (auto& w : s) { while (at < (size_t)t.GetSize() && t.AtIndex(at) == DataArray::END_OF_LINE) ++at; VCHECK(at < (size_t)t.GetSize() && t.GetWordAtIndex(at) == w, "data:target", "target word %zu", at); ++at; } } }
  Alignment al(f.al); for (size_t i = 0; i < c.links.size(); ++i) VCHECK(al.GetLinks(i) == c.links[i], "alignment", "links of sentence %zu", i);
  // suffix array: a permutation of all positions (and one past the end), in order
  shared_ptr<SuffixArray> sa(new SuffixArray(d)); vector<int> data = d->GetData(); int n = data.size();
  VCHECK(sa->GetSize() == n + 1, "sa:size", "%d entries for %d words", sa->GetSize(), n); vector<char> seen(n + 1, 0);
  for (int i = 0; i <= n; ++i) { int p = sa->GetSuffix(i); bool in = p >= 0 && p <= n && !seen[p]; VCHECK(in, "sa:permutation", "entry %d is %d", i, p); if (!in) return; seen[p] = 1; }
  vector<int> lcp = sa->BuildLCPArray();
  for (int i = 1; i <= n; ++i) { int a = sa->GetSuffix(i - 1), b = sa->GetSuffix(i), k = 0; while (a + k < n && b + k < n && data[a + k] == data[b + k]) ++k; bool less = a + k == n || (b + k < n && data[a + k] < data[b + k]); VCHECK(less, "sa:order", "suffixes %d and %d out of order", a, b); VCHECK(lcp[i] == k, "sa:lcp", "lcp of entry %d is %d, not %d", i, lcp[i], k); }
  // parameters, index
  int gap = r.range(1, 3), span = r.range(2, 12), syms = r.range(3, 8); shared_ptr<Vocabulary> voc(new Vocabulary); if (r.chance(0.5)) for (int i = r.below(6); i--;) voc->GetTerminalIndex(vh::Fmt("pre%d", i));
  int nf = r.below(20), nsf = nf ? r.below(nf + 1) : 0; shared_ptr<Precomputation> pre(new Precomputation(voc, sa, nf, nsf, span, syms, gap, r.range(1, 4), r.range(1, 4)));
  PhraseBuilder pb(voc); MatchingsFinder mf(sa); FastIntersector fi(sa, pre, voc, span, gap);
  auto truth = [&](const Pattern& p) { vector<vector<int>> o; auto ch = Chunks(p); for (size_t i = 0; i < c.src.size(); ++i) { vector<Starts> m; Starts at; ex::Find(c.src[i], ch, 0, at, gap, span, &m); for (auto& s : m) { vector<int> v; for (int x : s) v.push_back(start[i] + x); o.push_back(v); } } sort(o.begin(), o.end()); return o; };
  auto rows = [&](const PhraseLocation& l, int k) { vector<vector<int>> o; if (!l.matchings) { for (int i = l.sa_low; i < l.sa_high; ++i) o.push_back({sa->GetSuffix(i)}); } else for (size_t i = 0; i + k <= l.matchings->size(); i += k) o.push_back(vector<int>(l.matchings->begin() + i, l.matchings->begin() + i + k)); sort(o.begin(), o.end()); return o; };
  auto phrase = [&](const Pattern& p) { vector<int> s; int x = 0; for (auto& w : p) s.push_back(w.empty() ? voc->GetNonterminalIndex(++x) : voc->GetTerminalIndex(w)); return pb.Build(s); };
  // location of any pattern by the operations the extractor performs, prefix and suffix first
  map<Pattern, PhraseLocation> memo; bool bad = false;
  function<PhraseLocation(const Pattern&)> locate = [&](const Pattern& p) -> PhraseLocation {
    auto it = memo.find(p); if (it != memo.end()) return it->second; PhraseLocation l; bool gaps = count(p.begin(), p.end(), string()) > 0;
    if (!gaps) { PhraseLocation cur; for (size_t k = 0; k < p.size(); ++k) { cur = mf.Find(cur, p[k], k); if (cur.IsEmpty()) break; } l = cur; }
    else { // the prefix with a trailing gap is found where the prefix without it is, and the suffix likewise
      Pattern pre_(p.begin(), p.end() - 1), suf(p.begin() + 1, p.end()); if (pre_.back().empty()) pre_.pop_back(); if (suf.front().empty()) suf.erase(suf.begin()); PhraseLocation a = locate(pre_), b = locate(suf);
      if (a.IsEmpty() || b.IsEmpty()) l = PhraseLocation(vector<int>(), 1 + count(p.begin(), p.end(), string())); else l = fi.Intersect(a, b, phrase(p)); }
    auto want = truth(p); int k = 1 + count(p.begin(), p.end(), string()); auto got = rows(l, k); if (want != got && !bad) { bad = true; vector<vector<int>> u = got; u.erase(unique(u.begin(), u.end()), u.end()); VCHECK(false, u.size() != got.size() ? "find:repeated" : gaps ? "find:gapped" : "find:phrase", "'%s' (gap %d, span %d): %zu places reported, %zu in the corpus (%s)", Show(p).c_str(), gap, span, got.size(), want.size(), pre->Contains(phrase(p).Get()) ? "precomputed" : "searched"); }
    vh::Count("oracle_checks"); if (gaps) vh::Count("gapped patterns"); else vh::Count("phrases"); if (gaps && pre->Contains(phrase(p).Get())) vh::Count("precomputed patterns"); if (want.size() > 1 && gaps) vh::Distinct("nontrivial", vh::HashStr(Show(p) + f.src) ^ r.s); vh::Count("places", want.size()); memo[p] = l; return l; };
  vector<string> all; for (auto& w : flat) if (!w.empty()) all.push_back(w); all.push_back("unseen");
  for (int t = r.range(5, 40); t--;) { Pattern p; int terms = r.range(1, syms - 1), nt = 0; Sent base = r.chance(0.85) ? r.pick(c.src) : RandomSent(r, 8, 4, "f"); if (base.empty()) continue; size_t at = r.below(base.size()); p.push_back(base[at]);
    for (int k = 1; k < terms && at + 1 < base.size(); ++k) { if ((int)p.size() + 2 <= syms && nt < 3 && r.chance(0.4)) { size_t nx = at + 1 + gap + r.below(3); if (nx >= base.size()) break; p.push_back(""); ++nt; at = nx; } else ++at; if ((int)p.size() >= syms) break; p.push_back(r.chance(0.05) ? r.pick(all) : base[at]); }
    if (p.back().empty()) p.pop_back(); if (count(p.begin(), p.end(), string()) > 0 || p.size() >= 1) locate(p); }
  // samples
  for (int t = 0; t < 6 && !memo.empty(); ++t) { auto it = memo.begin(); advance(it, r.below(memo.size())); if (it->second.IsEmpty()) continue; int k = 1 + count(it->first.begin(), it->first.end(), string()); int mx = r.chance(0.3) ? r.range(1, 3) : r.range(1, 30); PhraseLocationSampler ps(sa, mx); auto full = rows(it->second, k); unordered_set<int> black; if (r.chance(0.5)) for (int i = r.below(4); i--;) black.insert(r.below(c.src.size()));
    PhraseLocation s1 = ps.Sample(it->second, black), s2 = ps.Sample(it->second, black); auto g = rows(s1, k); VCHECK(s1 == s2 && s1.matchings && s1.num_subpatterns == k, "sample:deterministic", "two samples of '%s' differ", Show(it->first).c_str());
    auto u = g; u.erase(unique(u.begin(), u.end()), u.end()); VCHECK(u.size() == g.size(), "sample:repeated", "a sample of '%s' repeats a place", Show(it->first).c_str()); VCHECK(includes(full.begin(), full.end(), u.begin(), u.end()), "sample:subset", "a sample of '%s' is not among its places", Show(it->first).c_str()); size_t usable = 0; for (auto& v : full) usable += !black.count(sent[v[0]]);
    for (auto& v : g) VCHECK(!black.count(sent[v[0]]), "sample:excluded", "'%s' sampled from an excluded sentence", Show(it->first).c_str()); VCHECK((int)g.size() <= mx, "sample:size", "%zu samples, limit %d", g.size(), mx);
    if (black.empty()) VCHECK(g.size() == min<size_t>(mx, full.size()), "sample:count", "%zu of %zu places sampled, limit %d", g.size(), full.size(), mx); else if ((int)full.size() <= mx) VCHECK(g.size() == usable, "sample:all", "%zu of %zu usable places sampled, limit %d", g.size(), usable, mx); else if (usable) VCHECK(g.size() > 0 || full.size() > 2 * usable, "sample:some", "nothing sampled of %zu usable places", usable); vh::Count("samples"); }
  vh::Sample(vh::Fmt("%zu sentences, %d words, gap %d span %d, %d/%d frequent, %zu patterns", c.src.size(), n, gap, span, nf, nsf, memo.size()));
}
int main(int c, char** v) { return vh::Main(c, v, Case); }
