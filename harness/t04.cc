// T04: pools of candidates against all derivations; ranking examples against the pool they were drawn from.
#include "forest.h"
#include "candidate_set.h"
#include "hg_io.h"
#include "filelib.h"
#include "ns.h"
#include "verbose.h"
#include <fstream>
#include <sys/stat.h>
using namespace fo;
using namespace std;
struct Cand { vector<WordID> e; map<int, double> f; SufficientStats st; };
typedef vector<Cand> Pool;
static bool Same(const map<int, double>& a, const map<int, double>& b, double* worst) {
  auto one = [&](const map<int, double>& x, const map<int, double>& y) { for (auto& p : x) { auto it = y.find(p.first); double o = it == y.end() ? 0 : it->second; *worst = max(*worst, fabs(p.second - o) / max(1e-3, max(fabs(o), fabs(p.second)))); } };
  *worst = 0; one(a, b); one(b, a); return *worst < 1e-9;
}
static map<int, double> Map(const SparseVector<double>& v) { map<int, double> m; for (auto& p : v) if (p.second) m[p.first] = p.second; return m; }
static map<int, double> Map(const Deriv& d) { map<int, double> m; for (auto& p : d.feats) if (p.second) m[p.first] = (double)p.second; return m; }
// adds a candidate unless it is there; false when it is too close to another one to tell
static bool Add(Pool* p, const Deriv& d) { Cand c; c.e = d.e; c.f = Map(d); for (auto& x : *p) if (x.e == c.e) { double w; if (Same(x.f, c.f, &w)) return true; if (w < 1e-5) return false; } p->push_back(c); return true; }
static string Show(const Cand& c) { string s = "'" + Words(c.e) + "' {"; for (auto& p : c.f) s += vh::Fmt(" %s=%.9g", FD::Convert(p.first).c_str(), p.second); return s + " }"; }
static bool SameStats(const SufficientStats& a, const SufficientStats& b) { if (a.id_ != b.id_) return false; for (size_t i = 0; i < max(a.size(), b.size()); ++i) if (!vh::Near(a[i], b[i], 1e-5, 1e-6)) return false; return true; }
static void Judge(const char* where, const training::CandidateSet& got, const Pool& want, bool stats) {
  vector<int> hits(want.size());
  for (size_t i = 0; i < got.size(); ++i) { Cand c; c.e = got[i].ewords; c.f = Map(got[i].fmap); int found = -1; double w; for (size_t j = 0; j < want.size() && found < 0; ++j) if (want[j].e == c.e && Same(want[j].f, c.f, &w)) found = j; VCHECK(found >= 0, "pool:extra", "%s: the pool holds %s, which was never added", where, Show(c).c_str()); if (found < 0) continue; ++hits[found]; if (stats) VCHECK(SameStats(got[i].eval_feats, want[found].st), "pool:stats", "%s: statistics of %s are not its own (%g,%g,... instead of %g,%g,...)", where, Show(c).c_str(), (double)got[i].eval_feats[0], (double)got[i].eval_feats[1], (double)want[found].st[0], (double)want[found].st[1]); }
  for (size_t j = 0; j < want.size(); ++j) { VCHECK(hits[j] > 0, "pool:lost", "%s: %s is missing from the pool of %d", where, Show(want[j]).c_str(), (int)got.size()); VCHECK(hits[j] < 2, "pool:twice", "%s: %s is in the pool %d times", where, Show(want[j]).c_str(), hits[j]); }
  vh::Count("candidates compared", want.size()); vh::Max("pool", want.size());
}
static bool TopK(vector<Deriv> ds, size_t k, bool uniq, Pool* p) {  // the k best (of different yield); false when a tie decides
  stable_sort(ds.begin(), ds.end(), [](const Deriv& a, const Deriv& b) { return a.logw > b.logw; }); vector<const Deriv*> take; set<vector<WordID>> seen; bool clear = true; double w;
  for (auto& d : ds) { if (uniq && seen.count(d.e)) { for (auto t : take) if (t->e == d.e && t->logw - d.logw < 1e-9 && !Same(Map(*t), Map(d), &w)) clear = false; continue; } if (take.size() >= k) { if (take.back()->logw - d.logw < 1e-9) clear = false; break; } take.push_back(&d); seen.insert(d.e); }
  if (!clear) return false; for (auto d : take) if (!Add(p, *d)) return false; return true;
}
static void Fresh(vh::Rng& r, Hypergraph* hg, int* goal, bool coarse, int nf) {
  GenOpt o; o.max_nodes = r.range(2, 8); o.vocab = r.range(1, 4); o.max_derivs = 200; o.eps = r.chance(0.6); if (r.chance(0.3)) o.max_in = 7; Shape sh = RandomShape(r, o); *goal = BuildForest(r, sh, o, hg); bool none = r.chance(0.05);
  for (auto& e : hg->edges_) { e.feature_values_.clear(); if (none) continue; int n = r.range(0, nf); for (int i = 0; i < n; ++i) { int f = r.below(nf); double v = coarse ? r.range(0, 12) / 10.0 : r.chance(0.3) ? r.range(1, 4000) / 1000.0 : r.real(0.01, 3); e.feature_values_.set_value(Feats()[f], f % 2 ? -v : v); } }
}
static vector<double> Weights1(vh::Rng& r) { Feats(); vector<double> w(FD::NumFeats() + 1); for (int f : Feats()) w[f] = r.real(-1, 1); return w; }
static const char* kMet[] = {"IBM_BLEU", "TER", "WER", "KOEHN_BLEU"};
static void Case(vh::Rng& r, long) {
  string D = vh::S().dir, name = kMet[r.below(4)]; EvaluationMetric* m = EvaluationMetric::Instance(name); const bool coarse = r.chance(0.6); const int nf = r.chance(0.3) ? 12 : r.range(1, 6); const bool tools = getenv("MAP") && r.chance(0.12); const int ns = tools ? r.range(1, 4) : 1, rounds = r.range(1, 4);
  vector<vector<vector<WordID>>> refs(ns); vector<boost::shared_ptr<SegmentEvaluator>> ev(ns); ofstream rf(D + "/ref");
  for (int q = 0; q < ns; ++q) { for (int i = r.range(1, 2); i > 0; --i) { vector<WordID> ref; for (int j = r.range(1, 6); j > 0; --j) ref.push_back(EWord(r.below(4))); refs[q].push_back(ref); } string line; for (auto& x : refs[q]) line += (line.empty() ? "" : " ||| ") + Words(x); rf << line << "\n"; ev[q] = m->CreateSegmentEvaluator(refs[q]); } rf.close();
  vector<Pool> pool(ns); const int tool = r.below(3); bool uniq = !tools && r.chance(0.3), stats = tools || r.chance(0.8); string repo = D + vh::Fmt("/repo%ld", (long)r.next() % 100000); vector<training::CandidateSet> mem(1); if (tools) { if (system(("rm -rf " + repo).c_str())) return; }
  for (int t = 0; t < rounds; ++t) {
    vector<double> w = Weights1(r); ofstream in(D + "/in"), wf(D + "/w"); for (int f : Feats()) wf << FD::Convert(f) << vh::Fmt(" %.17g\n", w[f]); wf.close(); size_t k = r.chance(0.5) ? 500 : r.range(1, 12); vector<int> order; for (int q = 0; q < ns; ++q) order.push_back(q); r.shuffle(order);
    for (int q : order) { Hypergraph hg; int goal; Fresh(r, &hg, &goal, coarse, nf); hg.Reweight(w); auto ds = Enumerate(hg, goal); vh::Count("derivations", ds.size()); vh::Distinct("nontrivial", ShapeHash(hg)); if (!TopK(ds, k, uniq, &pool[q])) { vh::Count("cases left out for ties"); if (tools && system(("rm -rf " + repo).c_str())) {} return; } for (auto& c : pool[q]) if (!c.st.size()) ev[q]->Evaluate(c.e, &c.st);
      if (tools) { string f = D + vh::Fmt("/%d.bin.gz", q); WriteFile o(f); HypergraphIO::WriteToBinary(hg, o.stream()); in << f << " " << q << "\n"; continue; }
      const SegmentEvaluator* s = stats ? ev[q].get() : NULL; if (uniq) mem[0].AddUniqueKBestCandidates(hg, k, s); else mem[0].AddKBestCandidates(hg, k, s); Judge("after adding", mem[0], pool[q], stats);
      if (r.chance(0.7)) { string f = D + (r.chance(0.5) ? "/pool.gz" : "/pool"); mem[0].WriteToFile(f); training::CandidateSet back; back.ReadFromFile(f); Judge("read back", back, pool[q], stats); if (!stats) for (size_t i = 0; i < back.size(); ++i) VCHECK(back[i].eval_feats.size() == 0, "pool:stats", "statistics out of nowhere"); for (size_t i = 0; i < back.size() && i < mem[0].size(); ++i) { bool ok = false; for (size_t j = 0; j < mem[0].size(); ++j) ok |= mem[0][j].ewords == back[i].ewords && Map(mem[0][j].fmap) == Map(back[i].fmap); VCHECK(ok, "pool:exact", "candidate %d comes back with other feature values", (int)i); } if (r.chance(0.7)) { mem.clear(); mem.push_back(back); } vh::Count("pools read back"); } }
    in.close(); if (!tools) continue;
    static const char* tn[] = {"MAP", "MINRISK", "RAMPION"}; int G = r.chance(0.6) ? 5000 : r.range(20, 300), X = r.range(1, 10); string cmd = string("ASAN_OPTIONS=detect_leaks=0 timeout 60 ") + getenv(tn[tool]) + " -m " + name + " -r " + D + "/ref -i " + D + "/in -w " + D + "/w -k " + to_string(k); if (tool == 0) cmd += vh::Fmt(" -K %s -G %d -X %d -S %d", repo.c_str(), G, X, (int)r.below(100000) + 1); else cmd += " -R " + repo; if (tool == 2) cmd += " -I 2 -J 2"; int rc = system((cmd + " >" + D + "/out 2>" + D + "/err").c_str()); VCHECK(rc == 0, "tools:exit", "%s ends with %d: %s", cmd.c_str(), rc, pool[0].size() == 1 ? "one candidate" : ""); if (rc) break;
    bool ok = true; for (int q = 0; q < ns; ++q) { string f = repo + vh::Fmt("/kbest.%d.txt.gz", q); struct stat sb; if (stat(f.c_str(), &sb)) { VCHECK(false, "repository:file", "%s keeps no file for sentence %d", tn[tool], q); ok = false; continue; } training::CandidateSet cs; cs.ReadFromFile(f); Judge(tn[tool], cs, pool[q], true); vh::Count("repository files compared"); } if (!ok || tool) { vh::Count("tool runs"); continue; }
    ifstream out(D + "/out"); string a, b; vector<int> seen(ns); size_t at = 0; auto parse = [](const string& l, int* y, map<int, double>* x) { *y = l[0] - '0'; x->clear(); istringstream is(l.substr(2)); string p; while (is >> p) { size_t e = p.rfind('='); (*x)[FD::Convert(p.substr(0, e))] = strtod(p.c_str() + e + 1, NULL); } };
    auto close = [](const map<int, double>& x, const Cand& c, const Cand& d) { set<int> k; for (auto& p : x) k.insert(p.first); for (auto& p : c.f) k.insert(p.first); for (auto& p : d.f) k.insert(p.first); auto v = [](const map<int, double>& m, int k) { auto it = m.find(k); return it == m.end() ? 0.0 : it->second; }; for (int i : k) { double want = v(c.f, i) - v(d.f, i); if (!vh::Near(v(x, i), want, 1e-5, fabs(want) < 1.01e-4 ? 1.02e-4 : 1e-9)) return false; } return true; };
    auto better = [&](const Cand& c, const Cand& d) { float x = m->ComputeScore(c.st), y = m->ComputeScore(d.st); return x == y ? 0 : (x > y) != m->IsErrorMetric() ? 1 : -1; }; auto gd = [&](const Cand& c, const Cand& d) { return fabs((double)m->ComputeScore(c.st) - m->ComputeScore(d.st)); };
    vector<double> top(ns); vector<char> small(ns); for (int q = 0; q < ns; ++q) { Pool& p = pool[q]; small[q] = p.size() <= 6 && G == 5000; for (auto& c : p) for (auto& d : p) { bool differ = false; double w; Same(c.f, d.f, &w); for (auto* pr : {&c, &d}) for (auto& z : pr->f) { auto it1 = c.f.find(z.first), it2 = d.f.find(z.first); if (fabs((it1 == c.f.end() ? 0 : it1->second) - (it2 == d.f.end() ? 0 : it2->second)) > 1e-4) differ = true; } if (abs((int)c.e.size() - (int)d.e.size()) > 4) small[q] = 0; if (differ) top[q] = max(top[q], gd(c, d)); } }
    while (getline(out, a)) { VCHECK((bool)getline(out, b), "examples:mirror", "an odd number of lines"); int y, z; map<int, double> x, x2; parse(a, &y, &x); parse(b, &z, &x2); bool neg = y != z && x.size() == x2.size(); for (auto& p : x) neg &= x2.count(p.first) && vh::Near(x2[p.first], -p.second, 1e-9, 0); VCHECK(neg, "examples:mirror", "'%s' is followed by '%s'", a.c_str(), b.c_str()); bool diff = false, label = false, best = false; int who = -1;
      for (size_t qq = at; qq < order.size() && !label; ++qq) { int q = order[qq]; for (auto& c : pool[q]) for (auto& d : pool[q]) if (&c != &d && close(x, c, d)) { diff = true; int bt = better(c, d); if ((bt > 0) == (y == 1) && bt) { if (!label) { label = true; who = q; at = qq; } if (!small[q] || fabs(gd(c, d) - top[q]) < 1e-5) best = true; } } }
      VCHECK(diff, "examples:difference", "%s is the difference of no two candidates", a.c_str()); VCHECK(!diff || label, "examples:label", "%s: '%s' prefers the candidate the metric does not", name.c_str(), a.c_str()); VCHECK(!label || best || small[who] == 0, "examples:ranked", "%s: of 5000 samples over %d candidates the %d kept include '%s', not of the largest difference %g", name.c_str(), (int)pool[who].size(), X, a.c_str(), top[who]); if (who >= 0) ++seen[who]; vh::Count("examples checked"); }
    bool amb = false; for (int q = 0; q < ns; ++q) if (seen[q] > X) amb = true; int total = 0, want = 0; bool exact = true; for (int q = 0; q < ns; ++q) { total += seen[q]; want += X; if (!small[q] || pool[q].size() < 2 || top[q] < 1e-4) { exact = false; } } VCHECK(total <= ns * X, "examples:number", "%d examples for %d sentences, at most %d each", total, ns, X); if (exact) VCHECK(total == want, "examples:number", "%d examples, %d asked for", total, want); (void)amb; vh::Count("tool runs");
  }
  if (tools && system(("rm -rf " + repo).c_str())) {}
  string s = vh::Fmt("%s, %d rounds: ", name.c_str(), rounds); for (size_t i = 0; i < pool[0].size() && i < 3; ++i) s += Show(pool[0][i]) + "; "; vh::Sample(s);
}
int main(int argc, char** argv) { SetSilent(true); return vh::Main(argc, argv, [](vh::Rng& r, long c) { Case(r, c); }); }
