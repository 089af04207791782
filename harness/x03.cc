// X03: every component of a compiled corpus, read back, against the object written.
#include "ext.h"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include "matchings_finder.h"
#include "fast_intersector.h"
#include "translation_table.h"
using namespace ex;
template <class T> static shared_ptr<T> Back(const T& x, const char* name, bool file) { shared_ptr<T> y(new T());
  if (file) { string f = vh::S().dir + "/" + name; { ofstream o(f.c_str()); boost::archive::binary_oarchive a(o); a << x; } ifstream i(f.c_str()); boost::archive::binary_iarchive b(i); b >> *y; }
  else { stringstream s; { boost::archive::binary_oarchive a(s); a << x; } boost::archive::binary_iarchive b(s); b >> *y; }
  VCHECK(*y == x, string("equal:") + name, "%s read back differs", name); vh::Count("oracle_checks"); vh::Count("objects"); return y; }
static void Same(const DataArray& a, const DataArray& b, const char* what) { bool ok = a.GetSize() == b.GetSize() && a.GetNumSentences() == b.GetNumSentences() && a.GetVocabularySize() == b.GetVocabularySize() && a.GetData() == b.GetData(); VCHECK(ok, string("content:") + what, "sizes or words differ"); if (!ok) return; int z = 0; for (int i = 0; i < a.GetSize() && !z; ++i) { z += a.GetSentenceId(i) != b.GetSentenceId(i); if (a.AtIndex(i) != DataArray::END_OF_LINE) z += a.GetWordAtIndex(i) != b.GetWordAtIndex(i) || b.GetWordId(a.GetWordAtIndex(i)) != a.AtIndex(i); } for (int i = 0; i < a.GetNumSentences(); ++i) z += a.GetSentenceStart(i) != b.GetSentenceStart(i) || a.GetSentenceLength(i) != b.GetSentenceLength(i); VCHECK(z == 0 && b.GetWordId("nowhere to be found") == -1, string("content:") + what, "the text differs"); }
static void Case(vh::Rng& r, long) {
  Quiet q; Corpus c = Random(r, r.chance(0.3) ? 40 : 8, r.chance(0.2) ? 30 : 10); Files f = Write(r, c); bool file = r.chance(0.5);
  shared_ptr<DataArray> s(new DataArray(f.src)), t(new DataArray(f.tgt)); shared_ptr<Alignment> al(new Alignment(f.al)); shared_ptr<SuffixArray> sa(new SuffixArray(s)); shared_ptr<Vocabulary> voc(new Vocabulary);
  int gap = r.range(1, 3), span = r.range(2, 12), syms = r.range(3, 7); shared_ptr<Precomputation> pre(new Precomputation(voc, sa, r.below(20), r.below(6), span, syms, gap, r.range(1, 4), r.range(1, 4))); shared_ptr<TranslationTable> tt(new TranslationTable(s, t, al));
  for (int i = r.below(4); i--;) voc->GetTerminalIndex(vh::Fmt("\xc3\xa9 %d\t\"x\"", i));
  auto t2 = Back(*t, "target", file); Same(*t, *t2, "target"); auto sa2 = Back(*sa, "source", file); Same(*s, *sa2->GetData(), "source"); VCHECK(sa2->GetSize() == sa->GetSize(), "content:suffixes", "size"); for (int i = 0; i < sa->GetSize() && i < sa2->GetSize(); ++i) if (sa->GetSuffix(i) != sa2->GetSuffix(i)) { VCHECK(false, "content:suffixes", "entry %d", i); break; }
  auto al2 = Back(*al, "alignment", file); for (size_t i = 0; i < c.links.size(); ++i) VCHECK(al2->GetLinks(i) == c.links[i], "content:alignment", "sentence %zu", i);
  auto pre2 = Back(*pre, "precomp", file); auto voc2 = Back(*voc, "vocab", file); auto tt2 = Back(*tt, "bilex", file);
  set<string> fw, ew; for (auto& x : c.src) fw.insert(x.begin(), x.end()); for (auto& x : c.tgt) ew.insert(x.begin(), x.end()); fw.insert(DataArray::NULL_WORD_STR); ew.insert(DataArray::NULL_WORD_STR); for (auto& a : fw) for (auto& b : ew) VCHECK(tt->GetTargetGivenSourceScore(a, b) == tt2->GetTargetGivenSourceScore(a, b) && tt->GetSourceGivenTargetScore(a, b) == tt2->GetSourceGivenTargetScore(a, b), "content:bilex", "scores of %s/%s", a.c_str(), b.c_str());
  for (auto& a : fw) { int i = voc->GetTerminalIndex(a), j = voc2->GetTerminalIndex(a); VCHECK(i == j && voc2->GetTerminalValue(j) == a, "content:vocab", "'%s' is %d, was %d", a.c_str(), j, i); }
  // lookups through the loaded index give the same places
  PhraseBuilder pb(voc); MatchingsFinder m1(sa), m2(sa2); FastIntersector f1(sa, pre, voc, span, gap), f2(sa2, pre2, voc2, span, gap); fw.erase(DataArray::NULL_WORD_STR); vector<string> words(fw.begin(), fw.end()); int found = 0;
  for (int k = 0; k < 60 && !words.empty(); ++k) { string a = r.pick(words), b = r.pick(words), d = r.pick(words); PhraseLocation e; auto x = m1.Find(e, a, 0), y = m2.Find(e, a, 0), x2 = m1.Find(e, b, 0), y2 = m2.Find(e, b, 0); VCHECK(x == y, "lookup:word", "'%s'", a.c_str()); if (x.IsEmpty() || x2.IsEmpty()) continue; vector<int> p = {voc->GetTerminalIndex(a), voc->GetNonterminalIndex(1), voc->GetTerminalIndex(b)}; Phrase ph = pb.Build(p); VCHECK(pre->Contains(p) == pre2->Contains(p), "lookup:precomputed", "%s X %s", a.c_str(), b.c_str()); found += pre->Contains(p); auto u = f1.Intersect(x, x2, ph), v = f2.Intersect(y, y2, ph); auto sort2 = [](PhraseLocation& l) { vector<pair<int, int>> o; if (l.matchings) for (size_t i = 0; i + 1 < l.matchings->size(); i += 2) o.push_back({(*l.matchings)[i], (*l.matchings)[i + 1]}); sort(o.begin(), o.end()); return o; }; VCHECK(sort2(u) == sort2(v), "lookup:gapped", "%s X %s", a.c_str(), b.c_str()); }
  vh::Count("precomputed patterns", found); vh::Distinct("nontrivial", r.s ^ s->GetSize()); vh::Sample(vh::Fmt("%zu sentences, %d words, %zu word types", c.src.size(), s->GetSize(), fw.size()));
}
int main(int c, char** v) { return vh::Main(c, v, Case); }
