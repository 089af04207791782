// X02 and X05: extracted rules, their alignments and their scores, against every rule the links of the sampled occurrences allow.
#include "ext.h"
#include <functional>
#include <unordered_set>
#include "matchings_finder.h"
#include "grammar_extractor.h"
#include "grammar.h"
#include "rule.h"
#include "rule_extractor.h"
#include "scorer.h"
#include "translation_table.h"
#include "features/count_source_target.h"
#include "features/feature.h"
#include "features/is_source_singleton.h"
#include "features/is_source_target_singleton.h"
#include "features/max_lex_source_given_target.h"
#include "features/max_lex_target_given_source.h"
#include "features/sample_source_count.h"
#include "features/target_given_source_coherent.h"
using namespace ex;
struct Lex { map<pair<string, string>, double> n; map<string, double> f, e;
  Lex(const Corpus& c) { for (size_t i = 0; i < c.src.size(); ++i) { set<int> a, b; for (auto& l : c.links[i]) { Add(c.src[i][l.first], c.tgt[i][l.second]); a.insert(l.first); b.insert(l.second); } for (size_t j = 0; j < c.src[i].size(); ++j) if (!a.count(j)) Add(c.src[i][j], ""); for (size_t j = 0; j < c.tgt[i].size(); ++j) if (!b.count(j)) Add("", c.tgt[i][j]); } }
  void Add(const string& a, const string& b) { ++n[{a, b}]; ++f[a]; ++e[b]; }
  double Max(const vector<string>& given, const string& w, bool srcword) const { double best = 0; for (auto g : given) { auto it = n.find(srcword ? make_pair(w, g) : make_pair(g, w)); if (it != n.end()) best = max(best, it->second / (srcword ? e.at(g) : f.at(g))); } return best; }
  double Score(const string& src, const string& tgt, bool srcwords) const { auto words = [](const string& s) { vector<string> o; istringstream i(s); string w; while (i >> w) if (!(w.size() > 4 && w[0] == '[' && w[1] == 'X' && w[2] == ',')) o.push_back(w); return o; }; vector<string> a = words(srcwords ? src : tgt), b = words(srcwords ? tgt : src); b.push_back(""); double s = 0; for (auto& w : a) { double p = Max(b, w, srcwords); s += p > 0 ? -log10(p) : 99.0; } return s; } };
static void Judge(const vector<Line>& got, const Expected& x, const map<string, int>* samples, int whole, const Lex& lex, const Limits& m, bool scores, bool complete, const string& what) {
  set<pair<string, string>> seen; int bad = 0;
  for (auto& g : got) { auto key = make_pair(g.src, g.tgt); string name = g.src + " ||| " + g.tgt; VCHECK(seen.insert(key).second, "repeated", "%s: rule '%s' listed twice", what.c_str(), name.c_str()); auto it = x.pair.find(key); if (it == x.pair.end()) { if (!bad++) VCHECK(false, "unsupported", "%s: rule '%s' is not supported by any occurrence (gap %d span %d nts %d syms %d tight %d)", what.c_str(), name.c_str(), m.gap, m.span, m.nts, m.syms, m.tight); continue; }
    const Stat& s = it->second; auto a = s.al.find(g.al); VCHECK(a != s.al.end(), "alignment", "%s: rule '%s' with links '%s', never seen", what.c_str(), name.c_str(), LinkText(g.al).c_str()); vh::Count("oracle_checks");
    if (m.tight && complete && a != s.al.end()) { int top = 0; for (auto& q : s.al) top = max(top, q.second); VCHECK(a->second == top, "alignment:frequent", "%s: rule '%s' with links '%s' seen %d times, others up to %d", what.c_str(), name.c_str(), LinkText(g.al).c_str(), a->second, top); }
    if (scores && m.tight) { string core; { istringstream is(g.src); string w; while (is >> w) if (w[0] == '[' && w[1] == 'X' && w[2] == ',') { if (!core.empty()) core += " X"; } else core += (core.empty() ? "" : " ") + w; while (core.size() > 2 && core.compare(core.size() - 2, 2, " X") == 0) core.resize(core.size() - 2); } int n = whole; if (samples) { auto z = samples->find(core); n = z == samples->end() ? 0 : z->second; }
      auto sc = [&](const char* k, double v) { auto q = g.score.find(k); VCHECK(q != g.score.end() && vh::Near(q->second, v, 1e-9, 1e-9), string("score:") + k, "%s: rule '%s': %s is %.12g, expected %.12g (pair %d, source %g, samples %d)", what.c_str(), name.c_str(), k, q == g.score.end() ? -1.0 : q->second, v, s.count, x.source.at(g.src), n); };
      VCHECK(g.score.size() == 7, "score:names", "%zu scores", g.score.size()); sc("EgivenFCoherent", -log10((double)s.count / n)); sc("SampleCountF", log10(1.0 + n)); sc("CountEF", log10(1.0 + s.count)); sc("IsSingletonF", x.source.at(g.src) == 1); sc("IsSingletonFE", s.count == 1); sc("MaxLexFgivenE", lex.Score(g.src, g.tgt, true)); sc("MaxLexEgivenF", lex.Score(g.src, g.tgt, false)); vh::Count("rules scored"); vh::Distinct("nontrivial", vh::HashStr(name + vh::Fmt("%d/%d", s.count, n)) ^ (uint64_t)(x.source.at(g.src) * 977)); }
    else vh::Distinct("nontrivial", vh::HashStr(name + LinkText(g.al)) ^ m.span); }
  if (complete) for (auto& p : x.pair) if (p.second.must && !seen.count(p.first)) { VCHECK(false, "missing", "%s: rule '%s ||| %s' (links '%s') not extracted (gap %d span %d nts %d syms %d tight %d)", what.c_str(), p.first.first.c_str(), p.first.second.c_str(), LinkText(p.second.al.begin()->first).c_str(), m.gap, m.span, m.nts, m.syms, m.tight); break; }
  vh::Count("rules", got.size()); if (vh::S().verbose) { for (auto& g : got) printf("  got %s ### %s ### %s\n", g.src.c_str(), g.tgt.c_str(), LinkText(g.al).c_str()); for (auto& p : x.pair) printf("  ref %s ### %s %d\n", p.first.first.c_str(), p.first.second.c_str(), p.second.must); }
}
static void Case(vh::Rng& r, long) {
  bool scores = getenv("X_SCORES") != NULL; Quiet q; Corpus c = Random(r, r.chance(0.2) ? 25 : 7, r.chance(0.2) ? 16 : 9); Files f = Write(r, c);
  if (r.chance(0.3)) for (auto& l : c.links) { for (int i = r.below(3); i-- && !l.empty();) l.erase(l.begin() + r.below(l.size())); } { string t; for (auto& l : c.links) t += LinkText(l) + "\n"; f.al = Put("c.al", t); }
  shared_ptr<DataArray> s(new DataArray(f.src)), t(new DataArray(f.tgt)); shared_ptr<Alignment> al(new Alignment(f.al)); shared_ptr<SuffixArray> sa(new SuffixArray(s)); shared_ptr<Vocabulary> voc(new Vocabulary); shared_ptr<PhraseBuilder> pb(new PhraseBuilder(voc));
  Limits m; m.gap = r.chance(0.6) ? 1 : r.range(1, 3); m.span = r.chance(0.5) ? r.range(6, 15) : r.range(1, 8); m.nts = r.pick(vector<int>{0, 1, 2, 2, 2, 3}); m.syms = r.range(1, 7); m.tight = scores || r.chance(0.7);
  if (!m.tight) m.span = min(m.span, 8);
  shared_ptr<Precomputation> pre(new Precomputation(voc, sa, r.below(12), r.below(4), m.span, m.syms, m.gap, r.range(1, 3), r.range(1, 3))); shared_ptr<TranslationTable> tt(new TranslationTable(s, t, al));
  vector<shared_ptr<features::Feature>> fs = {make_shared<features::TargetGivenSourceCoherent>(), make_shared<features::SampleSourceCount>(), make_shared<features::CountSourceTarget>(), make_shared<features::MaxLexSourceGivenTarget>(tt), make_shared<features::MaxLexTargetGivenSource>(tt), make_shared<features::IsSourceSingleton>(), make_shared<features::IsSourceTargetSingleton>()};
  shared_ptr<Scorer> sc(new Scorer(fs)); Lex lex(c); vector<int> start; { int k = 0; for (auto& x : c.src) { start.push_back(k); k += x.size() + 1; } }
  auto lines = [&](const vector<Rule>& rules, vector<Line>* o) { ostringstream os; os << Grammar(rules, sc->GetFeatureNames()); istringstream is(os.str()); string w; while (getline(is, w)) { Line l; bool ok = Parse(w, &l); VCHECK(ok, "format", "unreadable rule '%s'", w.c_str()); if (ok) o->push_back(l); } VCHECK(o->size() == rules.size(), "format", "%zu rules printed as %zu lines", rules.size(), o->size()); };
  // one pattern over a chosen set of its occurrences
  for (int k = r.range(3, 12); k--;) { const Sent& base = r.pick(c.src); if (base.empty()) continue; Limits mm = m; mm.aligned = !r.chance(0.15); mm.chunks = mm.aligned && r.chance(0.15); Pattern p; int at = r.below(base.size()); p.push_back(base[at]); int nt = 0;
    for (int j = r.below(m.syms); j-- && (int)p.size() < m.syms;) { if (nt < m.nts && r.chance(0.45) && (int)p.size() + 2 <= m.syms) { int nx = at + 1 + m.gap + r.below(2); if (nx >= (int)base.size()) break; p.push_back(""); p.push_back(base[nx]); at = nx; ++nt; } else { if (at + 1 >= (int)base.size()) break; p.push_back(base[++at]); } }
    auto ch = Chunks(p); vector<pair<int, Starts>> occ; for (size_t i = 0; i < c.src.size(); ++i) { vector<Starts> o; Starts a; ex::Find(c.src[i], ch, 0, a, m.gap, m.span, &o); for (auto& x : o) occ.push_back({(int)i, x}); } if (occ.empty()) continue; bool part = r.chance(0.4); if (part) { r.shuffle(occ); occ.resize(r.range(1, occ.size())); }
    vector<int> ms, sym; Expected x; for (auto& o : occ) { for (int v : o.second) ms.push_back(start[o.first] + v); Add(Rules(c, mm, o.first, p, o.second), &x); } int g = 0; for (auto& w : p) sym.push_back(w.empty() ? voc->GetNonterminalIndex(++g) : voc->GetTerminalIndex(w));
    RuleExtractor re(s, t, al, pb, sc, voc, m.span, m.gap, m.nts, m.syms, mm.aligned, mm.chunks, m.tight); vector<Line> got; lines(re.ExtractRules(pb->Build(sym), PhraseLocation(ms, ch.size())), &got);
    Judge(got, x, NULL, occ.size(), lex, mm, scores, true, vh::Fmt("'%s' at %zu places", Show(p).c_str(), occ.size())); vh::Count("patterns"); }
  // the grammar of a whole sentence
  int mx = r.chance(0.25) ? r.range(1, 4) : 100000; GrammarExtractor ge(sa, t, al, pre, sc, voc, m.gap, m.span, m.nts, m.syms, mx, m.tight);
  for (int k = r.range(1, 3); k--;) { Sent in = r.chance(0.5) ? r.pick(c.src) : RandomSent(r, r.range(0, 8), 5, "f"); if (in.size() > 10) in.resize(10); unordered_set<int> black; if (r.chance(0.3)) for (int j = r.range(1, 3); j--;) black.insert(r.below(c.src.size())); vector<Line> got; Grammar gr = ge.GetGrammar(Join(in), black); lines(gr.GetRules(), &got);
    Sent full = in; full.insert(full.begin(), "<s>"); full.push_back("</s>"); Expected x; map<string, int> n; for (auto& p : Queries(full, m)) { auto ch = Chunks(p); int hits = 0; for (size_t i = 0; i < c.src.size(); ++i) { if (black.count(i)) continue; vector<Starts> o; Starts a; ex::Find(c.src[i], ch, 0, a, m.gap, m.span, &o); hits += o.size(); for (auto& z : o) Add(Rules(c, m, i, p, z), &x); } n[Show(p)] = hits; }
    Judge(got, x, &n, 0, lex, m, scores && mx == 100000, mx == 100000, vh::Fmt("grammar of '%s'%s", Join(in).c_str(), black.empty() ? "" : ", some sentences left out")); vh::Count("grammars"); }
  vh::Sample(vh::Fmt("%zu sentence pairs, gap %d span %d nts %d syms %d %s", c.src.size(), m.gap, m.span, m.nts, m.syms, m.tight ? "tight" : "loose"));
}
int main(int c, char** v) { return vh::Main(c, v, Case); }
