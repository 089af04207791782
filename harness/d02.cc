// D02: k-best lists against the sorted list of all derivations.
#include "forest.h"
#include "viterbi.h"
#include "kbest.h"
using namespace fo;
using namespace std;

static bool NearLog(ld a, ld b) { return fabsl(a - b) <= 1e-8 * (1 + max(fabsl(a), fabsl(b))); }
static string FeatKey(const map<int, ld>& m) { string s; for (auto& p : m) if (fabsl(p.second) > 1e-9) s += vh::Fmt("%d=%.6Lg;", p.first, p.second + 0.0L); return s; }
static bool SameFeats(const map<int, ld>& m, const SparseVector<double>& f) {
  for (int q : Feats()) { auto it = m.find(q); if (!vh::Near(f.value(q), it == m.end() ? 0 : (double)it->second, 1e-8, 1e-8)) return false; }
  return true;
}
// identity of a derivation: post-order edge ids
static string PathId(const vector<const HG::Edge*>& p) { string s; for (auto* e : p) s += vh::Fmt("%d,", e->id_); return s; }
static void Post(const Hypergraph& hg, const Deriv& d, unsigned* cur, string* out) {
  int e = d.edges[(*cur)++];
  for (unsigned k = 0; k < hg.edges_[e].tail_nodes_.size(); ++k) Post(hg, d, cur, out);
  *out += vh::Fmt("%d,", e);
}

struct Len { typedef int Result; void operator()(const HG::Edge& e, const vector<const int*>& a, int* r) const { *r = 0; for (WordID w : e.rule_->e_) if (w > 0) ++*r; for (auto* x : a) *r += *x; } };

// each request order must give the same list
static vector<unsigned> Requests(vh::Rng& r, unsigned k) {
  vector<unsigned> q;
  switch (r.below(4)) {
    case 0: q.push_back(k - 1); break;
    case 1: for (unsigned i = 0; i < k; i += 1 + r.below(3)) q.push_back(i); break;
    case 2: for (int i = 0; i < 5; ++i) q.push_back(r.below(k)); break;
    default: break;
  }
  return q;
}

int main(int argc, char** argv) {
  return vh::Main(argc, argv, [](vh::Rng& r, long) {
    GenOpt o;
    o.max_nodes = r.range(2, 12);
    o.useless = r.chance(0.2);
    o.vocab = r.range(1, 6);      // small vocabularies give spurious ambiguity
    o.tie_prob = 0.4;
    o.goal_unary = r.chance(0.3);
    if (r.chance(0.25)) o.p_repeat_tail = 0.6;
    if (r.chance(0.3)) o.max_in = 7;
    Shape s = RandomShape(r, o);
    Hypergraph hg;
    int goal = BuildForest(r, s, o, &hg);
    vector<double> w = RandomWeights(r, o);
    hg.Reweight(w);
    vector<Deriv> ds = Enumerate(hg, goal);
    string dump = Dump(hg);
    vh::Count("derivations", ds.size());
    if (ds.size() > 2) vh::Distinct("nontrivial", ShapeHash(hg));
    vh::Sample(vh::Fmt("%d derivations; ", (int)ds.size()) + dump);
    vector<unsigned> order(ds.size());
    for (unsigned i = 0; i < ds.size(); ++i) order[i] = i;
    stable_sort(order.begin(), order.end(), [&](unsigned a, unsigned b) { return ds[a].logw > ds[b].logw; });
    map<string, unsigned> byPost;
    for (unsigned i = 0; i < ds.size(); ++i) { unsigned c = 0; string p; Post(hg, ds[i], &c, &p); byPost[p] = i; }
    vector<unsigned> ks = {1u, 1u + r.below(10), (unsigned)ds.size(), (unsigned)ds.size() + 1 + r.below(5), 100000u};
    for (unsigned k : ks) {
      unsigned expect = min<unsigned>(k, ds.size());
      vh::Count("lists");
      {  // derivation identity
        KBest::KBestDerivations<vector<const HG::Edge*>, ViterbiPathTraversal> kb(hg, k);
        for (unsigned q : Requests(r, min<unsigned>(k, ds.size() + 3))) kb.LazyKthBest(goal, q);
        set<string> seen; unsigned n = 0;
        ld prev = INFINITY;
        for (; n < k; ++n) {
          auto* d = kb.LazyKthBest(goal, n);
          if (!d) break;
          string id = PathId(d->yield);
          auto it = byPost.find(id);
          if (it == byPost.end()) { vh::Viol("kbest:not-a-derivation", vh::Fmt("k=%u entry %u path %s; %s", k, n, id.c_str(), dump.c_str())); return; }
          VCHECK(seen.insert(id).second, "kbest:repeat", "k=%u entry %u repeats %s; %s", k, n, id.c_str(), dump.c_str());
          const Deriv& x = ds[it->second];
          VCHECK(NearLog(log(d->score), x.logw), "kbest:score", "k=%u entry %u score %.12g, derivation %.12Lg", k, n, log(d->score), x.logw);
          VCHECK(SameFeats(x.feats, d->feature_values), "kbest:features", "k=%u entry %u features differ from the derivation's; %s", k, n, dump.c_str());
          if (n < ds.size()) VCHECK(NearLog(x.logw, ds[order[n]].logw), "kbest:order", "k=%u entry %u weight %.12Lg, true %u-th best %.12Lg; %s", k, n, x.logw, n, ds[order[n]].logw, dump.c_str());
          VCHECK(x.logw <= prev + 1e-8 * (1 + fabsl(x.logw)), "kbest:nonincreasing", "k=%u entry %u", k, n);
          prev = x.logw;
        }
        VCHECK(n == expect, "kbest:size", "k=%u: %u entries, expected %u; %s", k, n, expect, dump.c_str());
        VCHECK(k == n || kb.LazyKthBest(goal, n) == NULL, "kbest:end", "entry after the last");
        vh::Count("entries", n);
      }
      {  // translations
        KBest::KBestDerivations<vector<WordID>, ESentenceTraversal> kb(hg, k);
        for (unsigned q : Requests(r, min<unsigned>(k, ds.size() + 3))) kb.LazyKthBest(goal, q);
        vector<char> used(ds.size(), 0); unsigned n = 0;
        for (; n < k; ++n) {
          auto* d = kb.LazyKthBest(goal, n);
          if (!d) break;
          bool found = false;
          for (unsigned i = 0; i < ds.size() && !found; ++i)
            if (!used[i] && NearLog(ds[i].logw, log(d->score)) && ds[i].e == d->yield && SameFeats(ds[i].feats, d->feature_values)) { used[i] = 1; found = true; }
          VCHECK(found, "kbest:entry", "k=%u entry %u '%s' %.10g is no (further) derivation; %s", k, n, Words(d->yield).c_str(), log(d->score), dump.c_str());
          VCHECK(n >= ds.size() || NearLog(log(d->score), ds[order[n]].logw), "kbest:order", "k=%u entry %u weight %.12g, true %.12Lg", k, n, log(d->score), ds[order[min<size_t>(n, ds.size() - 1)]].logw);
          string tree = kb.derivation_tree(*d, false);
          VCHECK(count(tree.begin(), tree.end(), '{') >= 1, "kbest:tree", "empty tree");
          if (ds.size() > 300 && n > 300) { n = expect; break; }
        }
        VCHECK(n == expect, "kbest:size", "k=%u: %u entries, expected %u; %s", k, n, expect, dump.c_str());
      }
      {  // unique translations
        map<vector<WordID>, ld> bestOf; 
        for (auto& d : ds) { auto it = bestOf.insert(make_pair(d.e, d.logw)).first; it->second = max(it->second, d.logw); }
        vector<ld> u; for (auto& p : bestOf) u.push_back(p.second);
        sort(u.begin(), u.end(), greater<ld>());
        unsigned ue = min<unsigned>(k, u.size());
        KBest::KBestDerivations<vector<WordID>, ESentenceTraversal, KBest::FilterUnique> kb(hg, k);
        for (unsigned q : Requests(r, min<unsigned>(k, u.size() + 3))) kb.LazyKthBest(goal, q);
        set<vector<WordID> > seen; unsigned n = 0;
        for (; n < k; ++n) {
          auto* d = kb.LazyKthBest(goal, n);
          if (!d) break;
          VCHECK(seen.insert(d->yield).second, "unique:repeat", "k=%u entry %u repeats '%s'; %s", k, n, Words(d->yield).c_str(), dump.c_str());
          auto it = bestOf.find(d->yield);
          if (it == bestOf.end()) { vh::Viol("unique:not-a-translation", vh::Fmt("'%s'; %s", Words(d->yield).c_str(), dump.c_str())); return; }
          VCHECK(NearLog(log(d->score), it->second), "unique:score", "k=%u entry %u '%s' weight %.12g, its best derivation %.12Lg; %s", k, n, Words(d->yield).c_str(), log(d->score), it->second, dump.c_str());
          VCHECK(n >= u.size() || NearLog(log(d->score), u[n]), "unique:order", "k=%u entry %u weight %.12g, true %.12Lg; %s", k, n, log(d->score), u[min<size_t>(n, u.size() - 1)], dump.c_str());
          bool ok = false;
          for (auto& x : ds) if (x.e == d->yield && NearLog(x.logw, log(d->score)) && SameFeats(x.feats, d->feature_values)) { ok = true; break; }
          VCHECK(ok, "unique:features", "k=%u entry %u features are of no best derivation of '%s'", k, n, Words(d->yield).c_str());
        }
        VCHECK(n == ue, "unique:size", "k=%u: %u entries, expected %u; %s", k, n, ue, dump.c_str());
        vh::Count("unique_entries", n);
        if (u.size() < ds.size()) vh::Count("forests_with_ambiguity");
      }
      if (r.chance(0.3)) {  // unique source sentences, unique trees
        KBest::KBestDerivations<vector<WordID>, FSentenceTraversal, KBest::FilterUnique> kb(hg, k);
        map<vector<WordID>, ld> bestOf;
        for (auto& d : ds) { auto it = bestOf.insert(make_pair(d.f, d.logw)).first; it->second = max(it->second, d.logw); }
        unsigned n = 0; ld prev = INFINITY; set<vector<WordID> > seen;
        for (; n < k; ++n) {
          auto* d = kb.LazyKthBest(goal, n);
          if (!d) break;
          auto it = bestOf.find(d->yield);
          VCHECK(it != bestOf.end() && NearLog(log(d->score), it->second) && seen.insert(d->yield).second && (ld)log(d->score) <= prev + 1e-8 * (1 + fabsl(prev == INFINITY ? 0 : prev)), "unique-source", "k=%u entry %u '%s' %.10g; %s", k, n, Words(d->yield).c_str(), log(d->score), dump.c_str());
          prev = log(d->score);
        }
        VCHECK(n == min<unsigned>(k, bestOf.size()), "unique-source:size", "k=%u: %u entries of %u; %s", k, n, (unsigned)bestOf.size(), dump.c_str());
      }
      if (r.chance(0.3)) {  // another traversal and weight function
        double sc = r.chance(0.5) ? 0.5 : 2;
        typedef KBest::KBestDerivations<int, Len, KBest::NoFilter<int>, prob_t, ScaledEdgeProb> K;
        K kb(hg, k, Len(), ScaledEdgeProb(sc));
        unsigned n = 0;
        for (; n < k; ++n) {
          auto* d = kb.LazyKthBest(goal, n);
          if (!d) break;
          VCHECK(n < ds.size() && NearLog(log(d->score), ds[order[n]].logw * sc), "kbest:scaled", "k=%u entry %u", k, n);
        }
        VCHECK(n == expect, "kbest:scaled-size", "k=%u: %u entries, expected %u", k, n, expect);
      }
    }
    // an inner node's list
    int v = r.below(hg.nodes_.size());
    vector<Deriv> nd = Enumerate(hg, v);
    KBest::KBestDerivations<vector<const HG::Edge*>, ViterbiPathTraversal> kb(hg, nd.size() + 2);
    unsigned n = 0; set<string> seen;
    while (auto* d = kb.LazyKthBest(v, n)) { seen.insert(PathId(d->yield)); if (++n > nd.size() + 5) break; }
    VCHECK(n == nd.size() && seen.size() == n, "kbest:inner", "node %d: %u entries, %u distinct, %d derivations; %s", v, n, (unsigned)seen.size(), (int)nd.size(), dump.c_str());
  });
}
