// D07: rescoring of forests with synthetic feature functions against direct application to every derivation.
#include "forest.h"
#include "apply_models.h"
#include "ff.h"
#include "ffset.h"
#include "sentence_metadata.h"
#include "verbose.h"
using namespace fo;
using namespace std;

static uint64_t Mix(uint64_t h, uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xBF58476D1CE4E5B9ull; return h ^ (h >> 29); }
static double Val(uint64_t h, bool coarse) { return coarse ? (double)((int)((h >> 20) % 5) - 2) : ((double)((h >> 11) % 2000001) / 1000000.0 - 1.0); }

// A feature function with arbitrary state: a byte derived from the rule and the antecedents' bytes.
struct SynFF : public FeatureFunction {
  int size, ignored, modulus; uint64_t salt; bool coarse, estimates, local, unwritten; int fids[3], ffid; mutable long calls = 0, finals = 0;
  SynFF(int k, int size_, int ignored_, int mod, uint64_t s, vh::Rng& r) : FeatureFunction(size_, ignored_), size(size_), ignored(ignored_), modulus(mod), salt(s) {
    coarse = r.chance(0.3); estimates = r.chance(0.5); local = false; unwritten = r.chance(0.3);
    for (int i = 0; i < 3; ++i) fids[i] = FD::Convert(vh::Fmt("SFF_%d_%d", k, i));
    ffid = FD::Convert(vh::Fmt("SFF_%d_final", k));
  }
  // the reference definition, usable by both sides: value of the state from the rule and the children's states
  int State(const HG::Edge& e, const vector<int>& ants) const {
    uint64_t h = Mix(salt, e.rule_->e_.size() * 131 + e.rule_->f_.size());
    for (WordID w : e.rule_->e_) h = Mix(h, w + 1000);
    for (int a : ants) h = Mix(h, a + 7);
    return (h >> 17) % modulus;
  }
  void Feats(const HG::Edge& e, const vector<int>& ants, map<int, double>* out) const {
    uint64_t h = Mix(salt ^ 0x55, e.j_ + 31 * e.prev_i_);
    for (WordID w : e.rule_->f_) h = Mix(h, w + 1000);
    if (!local) for (int a : ants) h = Mix(h, a + 3);
    for (int i = 0; i < 3; ++i) { h = Mix(h, i); if ((h >> 30) % 3) (*out)[fids[i]] += Val(h, coarse); }
  }
  double Final(int st) const { return local ? 0.5 : Val(Mix(salt ^ 0x77, st), coarse); }
  vector<int> Read(const vector<const void*>& ants) const {
    vector<int> v; if (!size) return vector<int>();
    for (const void* p : ants) {
      const unsigned char* c = (const unsigned char*)p; v.push_back(c[0]);
      int live = size - ignored;
      for (int i = 1; i < live; ++i) if (c[i] != (unwritten && i > 1 ? 0 : (unsigned char)(c[0] * 7 + i + (salt & 63))))
        { vh::Viol("state:corrupt", vh::Fmt("state byte %d of a feature function (size %d) is not what it wrote", i, size)); break; }
    }
    return v;
  }
  void TraversalFeaturesImpl(const SentenceMetadata&, const HG::Edge& e, const vector<const void*>& ants, SparseVector<double>* f, SparseVector<double>* est, void* ctx) const override {
    ++calls;
    if (ants.size() != e.tail_nodes_.size()) vh::Viol("ants:size", "number of antecedent states differs from the number of tails");
    vector<int> a = Read(ants);
    map<int, double> m; Feats(e, a, &m);
    for (auto& p : m) f->set_value(p.first, p.second);
    if (size) {
      unsigned char* c = (unsigned char*)ctx; c[0] = State(e, a);
      int live = size - ignored;
      for (int i = 1; i < live; ++i) if (!(unwritten && i > 1)) c[i] = (unsigned char)(c[0] * 7 + i + (salt & 63));
      for (int i = max(1, live); i < size; ++i) c[i] = (unsigned char)(e.i_ * 13 + i);   // side data
      if (estimates && !local) est->set_value(fids[0], Val(Mix(salt, c[0] + 99), coarse));
    }
  }
  void FinalTraversalFeatures(const void* st, SparseVector<double>* f) const override {
    ++finals;
    int s = 0; if (size) s = ((const unsigned char*)st)[0];
    f->set_value(ffid, Final(s));
  }
};

struct Ref { vector<int> edges; map<int, double> feats; vector<int> state; };

// every derivation with its features by direct application
static vector<Ref> Direct(const Hypergraph& hg, int goal, const vector<const SynFF*>& ffs) {
  vector<vector<Ref> > memo(hg.nodes_.size());
  for (int n = 0; n < (int)hg.nodes_.size(); ++n) for (int ei : hg.nodes_[n].in_edges_) {
    const HG::Edge& e = hg.edges_[ei];
    vector<unsigned> idx(e.tail_nodes_.size(), 0);
    for (;;) {
      Ref d; d.edges.push_back(ei); map<int, double> own; for (auto& p : e.feature_values_) own[p.first] = p.second;
      vector<const Ref*> ch; for (unsigned k = 0; k < idx.size(); ++k) ch.push_back(&memo[e.tail_nodes_[k]][idx[k]]);
      for (auto c : ch) d.edges.insert(d.edges.end(), c->edges.begin(), c->edges.end());
      for (unsigned i = 0; i < ffs.size(); ++i) {
        vector<int> a; if (ffs[i]->size) for (auto c : ch) a.push_back(c->state[i]);
        if (n == goal) own[ffs[i]->ffid] = ffs[i]->Final(a.empty() ? 0 : a[0]);
        else { ffs[i]->Feats(e, a, &own); d.state.push_back(ffs[i]->State(e, a)); }
      }
      for (auto& p : own) d.feats[p.first] += p.second;
      for (auto c : ch) for (auto& p : c->feats) d.feats[p.first] += p.second;
      memo[n].push_back(d);
      int k = (int)idx.size() - 1; while (k >= 0 && ++idx[k] == memo[e.tail_nodes_[k]].size()) idx[k--] = 0;
      if (k < 0) break;
    }
  }
  return memo[goal];
}

static void Case(vh::Rng& r, long) {
  SetSilent(true);
  GenOpt o; o.max_nodes = r.range(2, 8); o.max_derivs = 250; o.max_in = r.range(1, 5);
  Shape s = RandomShape(r, o);
  // goal on top: one unary edge from the old goal, as the translators build it
  s.cat.back() = Cats()[1]; s.cat.push_back(Cats()[0]);
  s.edges.push_back({(int)s.cat.size() - 1, {(int)s.cat.size() - 2}});
  Hypergraph hg; int goal = BuildForest(r, s, o, &hg);
  hg.TopologicallySortNodesAndEdges(goal); goal = hg.nodes_.size() - 1;
  if (hg.nodes_[goal].in_edges_.size() != 1 || hg.nodes_[goal - 1].out_edges_.size() != 1) return;
  for (auto& e : hg.edges_) { e.i_ = e.id_; e.j_ = 100 + e.id_; e.prev_i_ = 200 + r.below(5); e.prev_j_ = 300 + e.id_ * 3; }
  int npass = r.chance(0.25) ? 2 : 1;
  int nff = r.range(1, 4);
  vector<unique_ptr<SynFF> > own;
  vector<vector<const SynFF*> > pass(npass);
  bool local = r.chance(0.25), ign = false;
  int k = 0;
  for (int p = 0; p < npass; ++p) for (int i = 0; i < nff; ++i) {
    int size = r.chance(0.35) ? 0 : r.pick(vector<int>{1, 2, 3, 4, 5, 8, 9, 12, 17});
    if (p == 0 && i == nff - 1 && r.chance(0.7) && !size) size = 4;
    int ig = size > 2 && r.chance(0.2) ? r.range(1, size - 2) : 0; if (ig) ign = true;
    own.emplace_back(new SynFF(k++, size, ig, r.pick(vector<int>{1, 2, 3, 5, 50}), r.next(), r)); own.back()->local = local;
    if (local) own.back()->estimates = false;
    pass[p].push_back(own.back().get());
  }
  vector<double> w = RandomWeights(r, o); w.resize(FD::NumFeats() + 1, 0.0);
  for (auto& f : own) { for (int i = 0; i < 3; ++i) w[f->fids[i]] = r.real(-1.5, 1.5); w[f->ffid] = r.real(-1, 1); }
  hg.Reweight(w);
  Lattice lat; SentenceMetadata smeta(0, lat);
  static const char* names[] = {"full", "cube", "fast", "fast2"};
  vector<const SynFF*> all; for (auto& p : pass) all.insert(all.end(), p.begin(), p.end());
  vector<Ref> refs = Direct(hg, goal, all);
  map<vector<int>, const Ref*> byid; for (auto& d : refs) byid[d.edges] = &d;
  double bestw = -1e300; for (auto& d : refs) { double x = 0; for (auto& p : d.feats) x += p.second * w[p.first]; bestw = max(bestw, x); }
  bool stateful = false; for (auto f : all) if (f->size) stateful = true;
  if (refs.size() > 2 && stateful) vh::Distinct("nontrivial", ShapeHash(hg));
  vh::Count("derivations", refs.size());
  vh::Sample(Dump(hg));
  string before = Dump(hg);
  for (int alg = 0; alg < 4; ++alg) {
    int limit = alg == 0 ? 0 : r.chance(0.3) ? 1000000 : r.chance(0.3) ? 1 : r.range(1, 12);
    Hypergraph cur, out;
    bool single = false;
    const Hypergraph* in = &hg;
    Hypergraph mid[2];
    bool exhaustive = alg == 0 || limit == 1000000;
    bool pass_limited = false;
    for (int p = 0; p < npass; ++p) {
      vector<const FeatureFunction*> ms(pass[p].begin(), pass[p].end());
      ModelSet set(w, ms);
      bool st = false; for (auto f : pass[p]) if (f->size) st = true;
      VCHECK(set.stateless() == !st, "set:stateless", "stateless() wrong");
      ApplyModelSet(*in, smeta, set, IntersectionConfiguration(alg, limit), &mid[p]);
      if (st && !exhaustive) pass_limited = true;
      in = &mid[p];
    }
    (void)single;
    const Hypergraph& res = *in;
    const char* nm = names[alg];
    vh::Count(vh::Fmt("rescored_%s", nm).c_str());
    if (res.nodes_.empty()) { vh::Viol(string("empty:") + nm, vh::Fmt("%s returned an empty forest for %s", nm, before.c_str())); continue; }
    CheckIntegrity(res, nm);
    VCHECK(TopoSorted(res), string("order:") + nm, "%s: not in topological order", nm);
    int g = res.nodes_.size() - 1;
    VCHECK(res.nodes_[g].cat_ == hg.nodes_[goal].cat_ && res.nodes_[g].out_edges_.empty(), string("goal:") + nm, "%s: last node is not the goal", nm);
    vector<Deriv> got = Enumerate(res, g);
    set<vector<int> > seen;
    double gb = -1e300;
    for (auto& d : got) {
      vector<int> id; for (int e : d.edges) id.push_back(res.edges_[e].i_);
      auto it = byid.find(id);
      if (it == byid.end()) { vh::Viol(string("derivation:") + nm, vh::Fmt("%s: derivation not in the input forest %s", nm, before.c_str())); break; }
      if (!seen.insert(id).second) { vh::Viol(string("duplicate:") + nm, vh::Fmt("%s(%d): a derivation occurs twice %s", nm, limit, before.c_str())); break; }
      const Ref& ref = *it->second; double want = 0;
      for (auto& p : ref.feats) want += p.second * w[p.first];
      gb = max(gb, (double)d.logw);
      bool ok = vh::Near(d.logw, want, 1e-7, 1e-6);
      set<int> keys; for (auto& p : ref.feats) keys.insert(p.first); for (auto& p : d.feats) keys.insert(p.first);
      int badf = -1;
      for (int f : keys) { double a = ref.feats.count(f) ? ref.feats.at(f) : 0, b = d.feats.count(f) ? (double)d.feats.at(f) : 0; if (!vh::Near(a, b, 1e-9, 1e-9)) { ok = false; badf = f; } }
      VCHECK(ok, string("features:") + nm, "%s(%d) %d passes: derivation has weight %g, expected %g; first feature that differs: %s (%g, expected %g); %s", nm, limit, npass, (double)d.logw, want,
             badf >= 0 ? FD::Convert(badf).c_str() : "none", badf >= 0 && d.feats.count(badf) ? (double)d.feats.at(badf) : 0., badf >= 0 && ref.feats.count(badf) ? ref.feats.at(badf) : 0., before.c_str());
      if (!ok) break;
    }
    for (auto& e : res.edges_) {
      const HG::Edge& ie = hg.edges_[e.i_];
      VCHECK(e.rule_.get() == ie.rule_.get() && e.j_ == ie.j_ && e.prev_i_ == ie.prev_i_ && e.prev_j_ == ie.prev_j_ && e.tail_nodes_.size() == ie.tail_nodes_.size() &&
             res.nodes_[e.head_node_].cat_ == hg.nodes_[ie.head_node_].cat_, string("edge:") + nm, "%s: rule, span or category of an edge changed", nm);
    }
    vh::Count("derivations_rescored", got.size());
    if (!pass_limited) VCHECK(seen.size() == refs.size(), string("lost:") + nm, "%s(limit %d): %zu of %zu derivations kept; %s", nm, limit, seen.size(), refs.size(), before.c_str());
    else {
      if (seen.size() < refs.size()) vh::Count("pruned");
      // at most limit edges out of every node's candidates (single pass)
      if (npass == 1) { map<int, int> per; for (auto& e : res.edges_) ++per[hg.edges_[e.i_].head_node_]; for (auto& p : per) VCHECK(p.second <= limit, string("limit:") + nm, "%s: %d edges for a node at limit %d", nm, p.second, limit); }
    }
    // without non-local scores every strategy finds the best derivation, whatever its limit
    if (local && npass == 1) VCHECK(vh::Near(gb, bestw, 1e-7, 1e-6), string("best:") + nm, "%s(limit %d): best %g, true best %g with local features only; %s", nm, limit, gb, bestw, before.c_str());
    // recombination: nodes split by state only
    if (exhaustive && npass == 1 && !(ign && alg == 0)) {
      map<int, set<vector<int> > > st;
      // states by brute force over all nodes
      vector<set<vector<int> > > S(hg.nodes_.size());
      for (int n = 0; n < (int)hg.nodes_.size(); ++n) for (int ei : hg.nodes_[n].in_edges_) {
        const HG::Edge& e = hg.edges_[ei]; vector<vector<vector<int> > > acc(1);
        for (unsigned t = 0; t < e.tail_nodes_.size(); ++t) { vector<vector<vector<int> > > nx; for (auto& a : acc) for (auto& x : S[e.tail_nodes_[t]]) { nx.push_back(a); nx.back().push_back(x); } acc.swap(nx); }
        for (auto& a : acc) { vector<int> z; if (n != goal) for (unsigned i = 0; i < all.size(); ++i) { if (!all[i]->size) continue; vector<int> q; for (auto& x : a) { unsigned pos = 0; for (unsigned j = 0; j < i; ++j) if (all[j]->size) ++pos; q.push_back(x[pos]); } z.push_back(all[i]->State(e, q)); } S[n].insert(z); }
      }
      size_t want = 0; for (auto& x : S) want += x.size();
      VCHECK(res.nodes_.size() == want, string("recombine:") + nm, "%s: %zu nodes, %zu distinct (node, state) pairs; %s", nm, res.nodes_.size(), want, before.c_str());
      // and each with its own hash
      set<size_t> hs; for (auto& n : res.nodes_) hs.insert(n.node_hash);
      VCHECK(hs.size() == res.nodes_.size(), string("hash:") + nm, "%s: node hashes collide", nm);
    }
  }
  long calls = 0; for (auto& f : own) calls += f->calls;
  vh::Count("feature_function_calls", calls);
  VCHECK(Dump(hg) == before, "input:changed", "the input forest was modified");
}

int main(int argc, char** argv) { return vh::Main(argc, argv, Case); }
