// D05: transformations of forests against their effect on the list of derivations.
#include "forest.h"
#include "viterbi.h"
#include "inside_outside.h"
#include "hg_union.h"
#include "hg_intersect.h"
#include "hg_io.h"
#include "lattice.h"
#include "verbose.h"
using namespace fo;
using namespace std;

static string Full(const HG::Edge& e) { return EdgeContent(e) + vh::Fmt(" (%d,%d,%d,%d)", e.i_, e.j_, e.prev_i_, e.prev_j_); }
static string NoWeight(const HG::Edge& e) { return EdgeContent(e, false); }
static string Key(const Deriv& d, bool weight, bool swapfe = false) {
  string s = Words(swapfe ? d.f : d.e) + " ||| " + Words(swapfe ? d.e : d.f) + " |||";
  map<string, double> m; for (auto& p : d.feats) if (fabs((double)p.second) > 1e-9) m[FD::Convert(p.first)] = p.second;
  for (auto& p : m) s += vh::Fmt(" %s=%.6g", p.first.c_str(), p.second);
  if (weight) s += vh::Fmt(" w=%.7g", (double)d.logw);
  return s;
}
static Hypergraph Copy(const Hypergraph& hg) { Hypergraph c; c.nodes_ = hg.nodes_; c.edges_ = hg.edges_; c.is_linear_chain_ = hg.is_linear_chain_; c.edges_topo_ = true; return c; }
static void CheckNodes(const Hypergraph& hg, const map<size_t, WordID>& cats, const char* what) {
  for (auto& n : hg.nodes_) { auto it = cats.find(n.node_hash); VCHECK(it != cats.end() && it->second == n.cat_, string("node:") + what, "%s: node with hash %zu has category %d", what, n.node_hash, n.cat_); }
}

static void Topo(vh::Rng& r) {
  GenOpt o; o.max_nodes = r.range(2, 14); o.shuffle_nodes = true; o.useless = r.chance(0.5); o.max_derivs = 300; o.als = true;
  Shape s = RandomShape(r, o);
  Hypergraph hg; int goal = BuildForest(r, s, o, &hg);
  vector<double> w = RandomWeights(r, o); hg.Reweight(w);
  string dump = Dump(hg);
  map<size_t, WordID> cats; for (auto& n : hg.nodes_) cats[n.node_hash] = n.cat_;
  size_t gh = hg.nodes_[goal].node_hash;
  vector<string> want = ContentTrees(hg, goal, Full);
  if (want.size() > 2) vh::Distinct("nontrivial", ShapeHash(hg));
  vector<char> reach = ReachableFrom(hg, goal);
  int nr = 0; for (char c : reach) nr += c;
  Hypergraph p = Copy(hg);
  if (r.chance(0.5)) p.TopologicallySortNodesAndEdges(goal); else p.PruneUnreachable(goal);
  vh::Count("sorted"); vh::Count("derivations", want.size());
  CheckIntegrity(p, "sort");
  VCHECK(TopoSorted(p), "sort:order", "not sorted: %s", Dump(p).c_str());
  VCHECK((int)p.nodes_.size() == nr && p.nodes_.back().node_hash == gh, "sort:nodes", "%d nodes of %d reachable; goal %s; %s", (int)p.nodes_.size(), nr, p.nodes_.empty() || p.nodes_.back().node_hash != gh ? "lost" : "last", dump.c_str());
  CheckNodes(p, cats, "sort");
  VCHECK(ContentTrees(p, p.nodes_.size() - 1, Full) == want, "sort:derivs", "derivations changed by sorting %s", dump.c_str());
  // sorting is idempotent
  string d1 = Dump(p); p.TopologicallySortNodesAndEdges(p.nodes_.size() - 1);
  VCHECK(Dump(p) == d1, "sort:idempotent", "sorting twice changed %s", d1.c_str());
  // a sub-forest: another goal
  int g2 = r.below(hg.nodes_.size());
  vector<string> w2 = ContentTrees(hg, g2, Full);
  Hypergraph q = Copy(hg); q.TopologicallySortNodesAndEdges(g2);
  CheckIntegrity(q, "sort");
  VCHECK(TopoSorted(q) && ContentTrees(q, q.nodes_.size() - 1, Full) == w2, "sort:subgoal", "derivations of node %d changed: %s", g2, dump.c_str());

  // pushing weights to the goal
  double scale = r.chance(0.5) ? 1.0 : r.real(0.2, 2);
  vector<Deriv> before = Enumerate(p, p.nodes_.size() - 1);
  ld z = NEG_INF; for (auto& d : before) z = LogAdd(z, d.logw * scale);
  if (std::isinf((double)z) || fabsl(z) > 2000) return;
  vector<string> fb; for (auto& e : p.edges_) fb.push_back(NoWeight(e));
  prob_t iz = p.PushWeightsToGoal(scale);
  VCHECK(vh::Near(log(iz), (double)z, 1e-8, 1e-8), "pushgoal:z", "returned log %.10g, scaled derivation weights sum to %.10Lg", (double)log(iz), z);
  vector<Deriv> after = Enumerate(p, p.nodes_.size() - 1);
  bool ok = after.size() == before.size(); int bad = -1;
  for (unsigned i = 0; ok && i < after.size(); ++i) { if (after[i].tree != before[i].tree || !vh::Near((double)after[i].logw, (double)(before[i].logw * scale - z), 1e-7, 1e-6)) { if (before[i].logw * scale - z > -500) { ok = false; bad = i; } } }
  VCHECK(ok, "pushgoal:weights", "derivation %d weighs %.9g after pushing, %.9g expected (scale %g): %s", bad, bad < 0 ? 0. : (double)after[bad].logw, bad < 0 ? 0. : (double)(before[bad].logw * scale - z), scale, dump.c_str());
  for (auto& n : p.nodes_) { ld t = NEG_INF; for (int e : n.in_edges_) t = LogAdd(t, log(p.edges_[e].edge_prob_)); VCHECK(vh::Near((double)t, 0, 1e-7, 1e-7), "pushgoal:local", "edges into node %d sum to exp(%.9Lg)", n.id_, t); }
  for (unsigned i = 0; i < fb.size(); ++i) VCHECK(NoWeight(p.edges_[i]) == fb[i], "pushgoal:features", "edge %u changed", i);
}

static void Source(vh::Rng& r) {   // lattices
  int n = r.range(1, 7);
  string t = "(";
  for (int i = 0; i < n; ++i) { t += "("; int k = r.range(1, 3); for (int a = 0; a < k; ++a) t += vh::Fmt("('w%d',%g,%d),", (int)r.below(5), r.range(-300, 300) / 64.0, a == 0 ? 1 : r.range(1, n - i)); t += "),"; }
  t += ")";
  Hypergraph hg; HypergraphIO::ReadFromPLF(t, &hg);
  vector<double> w(FD::NumFeats() + 1, 0); w[FD::Convert("LatticeCost_0")] = r.real(-1, 1);
  hg.Reweight(w);
  struct P { vector<int> e; ld w; };
  auto paths = [&](const Hypergraph& h) { vector<P> out; std::function<void(int, P)> go = [&](int v, P p) { if (v == n) { out.push_back(p); return; } for (int e : h.nodes_[v].out_edges_) { P q = p; q.e.push_back(e); q.w += log(h.edges_[e].edge_prob_); go(h.edges_[e].head_node_, q); } }; P p0; p0.w = 0; go(0, p0); return out; };
  vector<P> b = paths(hg);
  double scale = r.chance(0.5) ? 1.0 : r.real(0.2, 2);
  ld z = NEG_INF; for (auto& p : b) z = LogAdd(z, p.w * scale);
  hg.PushWeightsToSource(scale);
  vector<P> a = paths(hg);
  vh::Count("lattices_pushed"); if (b.size() > 1) vh::Distinct("nontrivial", vh::HashStr(t));
  VCHECK(a.size() == b.size(), "pushsource:paths", "%d paths, were %d", (int)a.size(), (int)b.size());
  for (unsigned i = 0; i < min(a.size(), b.size()); ++i) VCHECK(a[i].e == b[i].e && vh::Near((double)a[i].w, (double)(b[i].w * scale - z), 1e-7, 1e-7), "pushsource:weights", "path %u weighs %.9Lg, expected %.9Lg: %s", i, a[i].w, b[i].w * scale - z, t.c_str());
  for (int v = 0; v < n; ++v) { ld s = NEG_INF; for (int e : hg.nodes_[v].out_edges_) s = LogAdd(s, log(hg.edges_[e].edge_prob_)); VCHECK(vh::Near((double)s, 0, 1e-7, 1e-7), "pushsource:local", "arcs out of %d sum to exp(%.9Lg): %s", v, s, t.c_str()); }
}

// two sub-forests of one forest, with node hashes shared
static void UnionCase(vh::Rng& r) {
  GenOpt o; o.max_nodes = r.range(2, 10); o.max_derivs = 200; o.max_in = 5; o.useless = r.chance(0.3);
  Shape s = RandomShape(r, o);
  Hypergraph u; int goal = BuildForest(r, s, o, &u);
  vector<double> w = RandomWeights(r, o); u.Reweight(w);
  // identical edges would be one edge: number them by a feature
  for (unsigned i = 0; i < u.edges_.size(); ++i) { u.edges_[i].feature_values_.set_value(FD::Convert("EdgeId"), i + 1); }
  w.resize(FD::NumFeats() + 1, 0.0); w[FD::Convert("EdgeId")] = 0;
  u.Reweight(w);
  auto sub = [&](vector<char>* kept) -> HypergraphP {
    for (int a = 0; a < 40; ++a) {
      double pr = r.chance(0.2) ? 0 : r.real(0.05, 0.5);
      vector<bool> ke(u.edges_.size()); for (unsigned i = 0; i < ke.size(); ++i) ke[i] = !r.chance(pr);
      vector<bool> nk; HypergraphP h = u.CreateEdgeSubset(ke, nk);
      if (!nk[goal]) continue;
      h->TopologicallySortNodesAndEdges(h->nodes_.size() - 1);
      kept->assign(u.edges_.size(), 0); for (auto& e : h->edges_) (*kept)[(int)e.feature_values_.value(FD::Convert("EdgeId")) - 1] = 1;
      return h;
    }
    return HypergraphP();
  };
  vector<char> ka, kb;
  HypergraphP a = sub(&ka), b = sub(&kb);
  if (!a || !b) return;
  string dump = Dump(u);
  vector<bool> prune(u.edges_.size()); for (unsigned i = 0; i < prune.size(); ++i) prune[i] = !ka[i] && !kb[i];
  Hypergraph ref = Copy(u); ref.PruneEdges(prune, true);
  vector<string> want = ContentTrees(ref, ref.nodes_.size() - 1, Full);
  map<size_t, WordID> cats; for (auto& n : u.nodes_) cats[n.node_hash] = n.cat_;
  HG::Union(*a, b.get());
  b->Reweight(w);
  vh::Count("unions"); if (want.size() > 2) vh::Distinct("nontrivial", ShapeHash(u) * 31 + b->edges_.size());
  CheckIntegrity(*b, "union"); CheckNodes(*b, cats, "union");
  VCHECK(TopoSorted(*b), "union:order", "union not sorted: %s", Dump(*b).c_str());
  vector<string> got = ContentTrees(*b, b->nodes_.size() - 1, Full);
  VCHECK(got == want, "union:derivs", "union has %d derivations, expected %d; %s", (int)got.size(), (int)want.size(), dump.c_str());
  string d1 = Dump(*b); HG::Union(*a, b.get()); b->Reweight(w);
  VCHECK(ContentTrees(*b, b->nodes_.size() - 1, Full) == want && Dump(*b) == d1, "union:again", "adding the same forest again changed the union: %s", dump.c_str());
  Hypergraph empty; HG::Union(*a, &empty);
  VCHECK(ContentTrees(empty, empty.nodes_.size() - 1, Full) == ContentTrees(*a, a->nodes_.size() - 1, Full), "union:empty", "union with an empty forest differs");

  // Hypergraph::Union shares only the goal
  GenOpt o2; o2.max_nodes = r.range(2, 6); o2.max_derivs = 100;
  Hypergraph x, y; int gx = BuildForest(r, RandomShape(r, o2), o2, &x), gy = BuildForest(r, RandomShape(r, o2), o2, &y);
  vector<double> w2 = RandomWeights(r, o2); w2.resize(FD::NumFeats() + 1, 0.0); x.Reweight(w2); y.Reweight(w2);
  vector<string> both = ContentTrees(x, gx, Full), more = ContentTrees(y, gy, Full); both.insert(both.end(), more.begin(), more.end()); sort(both.begin(), both.end());
  map<size_t, WordID> c2; for (auto& n : x.nodes_) c2[n.node_hash] = n.cat_; for (auto& n : y.nodes_) c2[n.node_hash] = n.cat_;
  x.Union(y);
  CheckIntegrity(x, "merge"); CheckNodes(x, c2, "merge");
  VCHECK(TopoSorted(x), "merge:order", "merged forest not sorted");
  VCHECK(ContentTrees(x, x.nodes_.size() - 1, Full) == both, "merge:derivs", "merged forest does not have the derivations of both");
}

static void IntersectCase(vh::Rng& r) {
  GenOpt o; o.max_nodes = r.range(2, 8); o.max_derivs = 250; o.eps = false; o.vocab = r.range(1, 4); o.useless = r.chance(0.2);
  Shape s = RandomShape(r, o);
  Hypergraph hg; int goal = BuildForest(r, s, o, &hg);
  vector<double> w = RandomWeights(r, o); hg.Reweight(w);
  vector<Deriv> ds = Enumerate(hg, goal);
  string dump = Dump(hg);
  for (int q = 0; q < 2; ++q) {
    vector<WordID> ref;
    if (r.chance(0.75)) ref = ds[r.below(ds.size())].e;
    else { int n = r.range(1, 5); for (int i = 0; i < n; ++i) ref.push_back(EWord(r.below(o.vocab))); }
    if (r.chance(0.15) && !ref.empty()) ref[r.below(ref.size())] = EWord(r.below(o.vocab));
    if (r.chance(0.03)) ref.push_back(TD::Convert("unseen-word"));
    if (ref.empty() || ref.size() > 10) continue;
    Lattice lat(ref.size()); for (unsigned i = 0; i < ref.size(); ++i) lat[i].push_back(LatticeArc(ref[i], SparseVector<double>(), 1));
    bool lattice = r.chance(0.3);
    if (lattice) {
      int ex = r.range(1, 3);
      for (int k = 0; k < ex; ++k) { int i = r.below(ref.size()); WordID a = EWord(r.below(o.vocab)); int d = r.range(1, min<int>(2, ref.size() - i)); bool dup = false; for (auto& x : lat[i]) if (x.label == a && x.dist2next == d) dup = true; if (!dup) lat[i].push_back(LatticeArc(a, SparseVector<double>(), d)); }
    }
    // how many paths of the lattice spell each translation
    map<vector<WordID>, int> spell;
    { std::function<void(unsigned, vector<WordID>&)> go = [&](unsigned p, vector<WordID>& v) { if (p == lat.size()) { ++spell[v]; return; } for (auto& a : lat[p]) { v.push_back(a.label); go(p + a.dist2next, v); v.pop_back(); } }; vector<WordID> v; go(0, v); }
    multiset<string> want; for (auto& d : ds) { auto it = spell.find(d.e); if (it != spell.end()) for (int k = 0; k < it->second; ++k) want.insert(Key(d, true)); }
    Hypergraph p = Copy(hg);
    bool ok = HG::Intersect(lat, &p);
    vh::Count("intersections"); if (!want.empty()) vh::Count("intersections_nonempty");
    if (want.size() > 1) vh::Distinct("nontrivial", ShapeHash(hg) * 7 + want.size());
    VCHECK(ok == !want.empty(), "intersect:found", "intersection with '%s' %s, %d derivations match; %s", Words(ref).c_str(), ok ? "succeeded" : "failed", (int)want.size(), dump.c_str());
    if (!ok || want.empty()) continue;
    p.Reweight(w);
    CheckIntegrity(p, "intersect");
    multiset<string> got; for (auto& d : Enumerate(p, p.nodes_.size() - 1)) got.insert(Key(d, true, true));
    VCHECK(got == want, "intersect:derivs", "intersection with '%s' has %d derivations, %d match%s; first expected '%s' first got '%s'; %s", Words(ref).c_str(), (int)got.size(), (int)want.size(), lattice ? " (lattice)" : "", want.begin()->c_str(), got.empty() ? "" : got.begin()->c_str(), dump.c_str());
  }
}

static void ChainCase(vh::Rng& r) {      // forests of lexical translation: one node per target position
  int n = r.range(1, 6), m = r.range(1, n > 3 ? 2 : 4), V = r.range(1, n > 3 ? 2 : 3);
  WordID kX = -TD::Convert("X");
  TRulePtr bin(new TRule("[X] ||| [X,1] [X,2] ||| [1] [2]")), goalr(new TRule("[Goal] ||| [X,1] ||| [1]"));
  map<pair<int, int>, TRulePtr> lex;
  auto rule = [&](int f, int e) -> TRulePtr { TRulePtr& x = lex[make_pair(f, e)]; if (!x) { x.reset(TRule::CreateLexicalRule(FWord(f), EWord(e))); x->scores_.set_value(Feats()[0], f + 10 * e + 1); } return x; };
  vector<int> src(m); for (int& x : src) x = r.below(3);
  Hypergraph hg; hg.is_linear_chain_ = true; int prev = -1;
  for (int i = 0; i < n; ++i) {
    int id = hg.AddNode(kX)->id_;
    for (int j = 0; j < m; ++j) for (int e = 0; e < V; ++e) if (e == 0 || r.chance(0.7)) {
      HG::Edge* ed = hg.AddEdge(rule(src[j], e), TailNodeVector());
      ed->i_ = j; ed->j_ = j + 1; ed->prev_i_ = i; ed->prev_j_ = i + 1; ed->feature_values_ = ed->rule_->scores_; ed->feature_values_.set_value(Feats()[1], r.range(-3, 3));
      hg.ConnectEdgeToHeadNode(ed->id_, id);
    }
    if (prev >= 0) { int c = hg.AddNode(kX)->id_; TailNodeVector t(2, prev); t[1] = id; HG::Edge* ed = hg.AddEdge(bin, t); hg.ConnectEdgeToHeadNode(ed->id_, c); prev = c; } else prev = id;
  }
  TailNodeVector t(1, prev); HG::Node* g = hg.AddNode(-TD::Convert("Goal")); int gid = g->id_; HG::Edge* ed = hg.AddEdge(goalr, t); hg.ConnectEdgeToHeadNode(ed->id_, gid);
  vector<double> w(FD::NumFeats() + 1, 0.0); w[Feats()[0]] = 0.1; w[Feats()[1]] = 1; hg.Reweight(w);
  if (CountDerivs(hg)[gid] > 1500) return;
  vector<Deriv> ds = Enumerate(hg, gid);
  for (int q = 0; q < 2; ++q) {
    vector<WordID> ref = ds[r.below(ds.size())].e;
    if (r.chance(0.2)) ref[r.below(ref.size())] = EWord(r.below(4));
    Lattice lat(ref.size()); for (unsigned i = 0; i < ref.size(); ++i) lat[i].push_back(LatticeArc(ref[i], SparseVector<double>(), 1));
    multiset<string> want; for (auto& d : ds) if (d.e == ref) want.insert(Key(d, true));
    Hypergraph p = Copy(hg);
    vector<string> rules; for (auto& e : hg.edges_) rules.push_back(e.rule_->AsString(false));
    bool ok = HG::Intersect(lat, &p);
    vh::Count("chain_intersections"); if (want.size() > 1) vh::Distinct("nontrivial", ds.size() * 1009 + want.size() * 31 + n);
    for (unsigned i = 0; i < rules.size(); ++i) VCHECK(hg.edges_[i].rule_->AsString(false) == rules[i], "chain:shared-rule", "the grammar's rule was modified");
    VCHECK(ok == !want.empty(), "chain:found", "%s although %d derivations match '%s'", ok ? "succeeded" : "failed", (int)want.size(), Words(ref).c_str());
    if (!ok || want.empty()) continue;
    CheckIntegrity(p, "chain");
    multiset<string> got, got2;
    for (auto& d : Enumerate(p, p.nodes_.size() - 1)) got.insert(Key(d, true, true));
    VCHECK(got == want, "chain:derivs", "%d derivations, %d expected; expected '%s' got '%s' (target '%s')", (int)got.size(), (int)want.size(), want.begin()->c_str(), got.empty() ? "" : got.begin()->c_str(), Words(ref).c_str());
    for (auto& e : p.edges_) if (e.Arity() == 0) { bool okk = e.i_ >= 0 && e.i_ < n && ref[e.i_] == e.rule_->f_[0] && e.prev_i_ >= 0 && e.prev_i_ < m && FWord(src[e.prev_i_]) == e.rule_->e_[0]; VCHECK(okk, "chain:span", "edge for target %d from source %d has the wrong words", e.i_, e.prev_i_); }
  }
}

int main(int argc, char** argv) {
  SetSilent(true);
  return vh::Main(argc, argv, [](vh::Rng& r, long) {
    Topo(r); Source(r); UnionCase(r); IntersectCase(r); if (r.chance(0.5)) ChainCase(r);
  });
}
