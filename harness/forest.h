// Random acyclic forests and a brute-force enumerator of their derivations (the oracle).
#ifndef FOREST_H_
#define FOREST_H_
#include <functional>
#include <map>
#include <set>
#include "vh.h"
#include "hg.h"
#include "trule.h"
#include "tdict.h"
#include "fdict.h"

namespace fo {
typedef long double ld;

inline ld LogAdd(ld a, ld b) {
  if (std::isinf(a) && a < 0) return b;
  if (std::isinf(b) && b < 0) return a;
  if (a < b) std::swap(a, b);
  return a + log1pl(expl(b - a));
}
const ld NEG_INF = -std::numeric_limits<ld>::infinity();

struct Deriv {
  std::vector<int> edges;           // preorder: edge, then the children in tail order
  ld logw;                          // sum of log edge_prob_
  std::map<int, ld> feats;
  std::vector<WordID> e, f;
  std::string tree;                 // bracketed edge ids, unambiguous
};

struct GenOpt {
  int min_nodes = 2, max_nodes = 9, max_in = 4, max_arity = 3;
  double max_derivs = 1500;
  bool useless = false;             // leave nodes that the goal does not use
  bool goal_unary = false;          // single S node below arity-1 goal edges
  bool shuffle_nodes = false;       // not topologically ordered (goal index returned)
  double p_repeat_tail = 0.15;
  double p_share_rule = 0.15;
  double tie_prob = 0.3;            // probability that this forest uses few distinct feature values
  double big_weights = 0.15;        // large magnitudes
  int vocab = 6, nfeat = 6;
  bool eps = true;                  // rules without target words
  bool als = false;
  double long_rules = 0;            // probability that a rule has up to 64 symbols a side
};

inline const std::vector<WordID>& Cats() {
  static std::vector<WordID> v;
  if (v.empty()) { for (const char* s : {"Goal", "S", "X", "NP"}) v.push_back(TD::Convert(s)); }
  return v;
}
inline const std::vector<int>& Feats() {
  static std::vector<int> v;
  if (v.empty()) for (int i = 0; i < 12; ++i) v.push_back(FD::Convert(vh::Fmt("Feat_%d", i)));
  return v;
}
inline WordID EWord(int i) { return TD::Convert(vh::Fmt("e%d", i)); }
inline WordID FWord(int i) { return TD::Convert(vh::Fmt("f%d", i)); }

inline TRulePtr RandomRule(vh::Rng& r, WordID lhs_pos, const std::vector<WordID>& tail_cats_pos, const GenOpt& o) {
  int k = tail_cats_pos.size();
  std::vector<WordID> e, f;
  std::vector<int> perm(k);
  for (int i = 0; i < k; ++i) perm[i] = i;
  r.shuffle(perm);
  const bool longr = r.chance(o.long_rules); const int longmax = r.chance(0.2) ? 300 : 64;
  auto words = [&](std::vector<WordID>* v, bool tgt, int lo) {
    int n = longr ? r.range(lo, (longmax - k) / (k + 1)) : r.chance(0.5) ? lo : r.range(lo, 2);
    for (int i = 0; i < n; ++i) v->push_back(tgt ? EWord(r.below(o.vocab)) : FWord(r.below(o.vocab)));
  };
  for (int i = 0; i < k; ++i) { words(&f, false, 0); f.push_back(-tail_cats_pos[i]); }
  words(&f, false, k == 0 ? 1 : 0);
  for (int i = 0; i < k; ++i) { words(&e, true, 0); e.push_back(-perm[i]); }
  words(&e, true, (k == 0 && !(o.eps && r.chance(0.1))) ? 1 : 0);
  if (k == 0 && e.empty() && !o.eps) e.push_back(EWord(0));
  TRulePtr rule(new TRule(-lhs_pos, f.data(), f.size(), e.data(), e.size(), k, -1, -1));
  if (o.als) {
    for (unsigned i = 0; i < f.size(); ++i) for (unsigned j = 0; j < e.size(); ++j)
      if (f[i] > 0 && e[j] > 0 && r.chance(0.4)) rule->a_.push_back(AlignmentPoint(i, j));
  }
  return rule;
}

// number of derivations of every node (as double), without assuming node order
inline std::vector<double> CountDerivs(const Hypergraph& hg) {
  std::vector<double> c(hg.nodes_.size(), -1);
  std::vector<char> open(hg.nodes_.size(), 0);
  std::function<double(int)> rec = [&](int n) -> double {
    if (c[n] >= 0) return c[n];
    if (open[n]) { vh::Viol("forest:cycle", vh::Fmt("node %d depends on itself", n)); return c[n] = 0; }
    open[n] = 1;
    double t = 0;
    for (int ei : hg.nodes_[n].in_edges_) {
      double p = 1;
      for (unsigned k = 0; k < hg.edges_[ei].tail_nodes_.size(); ++k) p *= rec(hg.edges_[ei].tail_nodes_[k]);
      t += p;
    }
    open[n] = 0;
    return c[n] = t;
  };
  for (unsigned i = 0; i < hg.nodes_.size(); ++i) rec(i);
  return c;
}

inline std::vector<char> ReachableFrom(const Hypergraph& hg, int goal) {
  std::vector<char> seen(hg.nodes_.size(), 0);
  std::vector<int> st(1, goal);
  seen[goal] = 1;
  while (!st.empty()) {
    int n = st.back(); st.pop_back();
    for (int ei : hg.nodes_[n].in_edges_) for (unsigned k = 0; k < hg.edges_[ei].tail_nodes_.size(); ++k) {
      int t = hg.edges_[ei].tail_nodes_[k];
      if (!seen[t]) { seen[t] = 1; st.push_back(t); }
    }
  }
  return seen;
}

struct Shape { std::vector<WordID> cat; struct E { int head; std::vector<int> tails; }; std::vector<E> edges; };

inline Shape RandomShape(vh::Rng& r, const GenOpt& o) {
  for (int attempt = 0;; ++attempt) {
    Shape s;
    int n = r.range(o.min_nodes, o.max_nodes);
    double scale = attempt > 30 ? 0.4 : 1.0;
    for (int i = 0; i < n; ++i) {
      bool goal = i == n - 1;
      s.cat.push_back(goal ? Cats()[0] : (o.goal_unary && i == n - 2) ? Cats()[1] : Cats()[1 + r.below(3)]);
      int ne = 1 + r.below(std::max(1, int(o.max_in * scale)));
      if (goal && o.goal_unary) { ne = r.chance(0.7) ? 1 : 2; }
      for (int j = 0; j < ne; ++j) {
        Shape::E e; e.head = i;
        int ar = i == 0 ? 0 : r.chance(0.15) ? 0 : 1 + r.below(o.max_arity);
        if (goal && i > 0) { ar = std::max(ar, 1); if (o.goal_unary) ar = 1; }
        for (int k = 0; k < ar; ++k) {
          int t;
          if (goal && o.goal_unary) t = (j == 0 || i < 2) ? i - 1 : r.below(i);
          else if (k > 0 && r.chance(o.p_repeat_tail)) t = e.tails[r.below(k)];
          else if (r.chance(0.5)) t = i - 1 - r.below(std::min(i, 3));
          else t = r.below(i);
          e.tails.push_back(t);
        }
        s.edges.push_back(e);
      }
    }
    // counts
    std::vector<double> c(n, 0);
    for (auto& e : s.edges) { double p = 1; for (int t : e.tails) p *= c[t]; c[e.head] += p; }
    bool ok = true;
    for (double x : c) if (x > o.max_derivs) ok = false;
    if (!ok) { if (attempt > 200) { GenOpt q = o; q.max_nodes = 3; q.min_nodes = 2; q.max_in = 2; return RandomShape(r, q); } continue; }
    if (!o.useless) {
      std::vector<char> seen(n, 0); seen[n - 1] = 1;
      for (int i = n - 1; i >= 0; --i) if (seen[i]) for (auto& e : s.edges) if (e.head == i) for (int t : e.tails) seen[t] = 1;
      std::vector<int> re(n, -1); Shape q;
      for (int i = 0; i < n; ++i) if (seen[i]) { re[i] = q.cat.size(); q.cat.push_back(s.cat[i]); }
      for (auto e : s.edges) if (seen[e.head]) { e.head = re[e.head]; for (int& t : e.tails) t = re[t]; q.edges.push_back(e); }
      s = q;
    }
    return s;
  }
}

// Builds the forest; returns the goal's index (nodes_.size()-1 unless shuffled).
inline int BuildForest(vh::Rng& r, const Shape& s, const GenOpt& o, Hypergraph* hg) {
  int n = s.cat.size();
  std::vector<int> place(n);
  for (int i = 0; i < n; ++i) place[i] = i;
  if (o.shuffle_nodes) r.shuffle(place);
  hg->ReserveNodes(n, s.edges.size());
  hg->nodes_.resize(n);
  for (int i = 0; i < n; ++i) {
    hg->nodes_[place[i]].id_ = place[i];
    hg->nodes_[place[i]].cat_ = -s.cat[i];
    hg->nodes_[place[i]].node_hash = r.next() | 1;
  }
  bool ties = r.chance(o.tie_prob);
  double mag = r.chance(o.big_weights) ? 40 : 1.5;
  std::vector<TRulePtr> used;
  std::vector<int> order(s.edges.size());
  for (unsigned i = 0; i < order.size(); ++i) order[i] = i;
  if (r.chance(0.3)) r.shuffle(order);   // edges_ need not be in any order
  for (int oi : order) {
    const Shape::E& e = s.edges[oi];
    std::vector<WordID> tc;
    for (int t : e.tails) tc.push_back(s.cat[t]);
    TRulePtr rule;
    if (!used.empty() && r.chance(o.p_share_rule)) {
      TRulePtr c = r.pick(used);
      bool fit = c->GetLHS() == -s.cat[e.head] && c->Arity() == (int)tc.size();
      if (fit) { int k = 0; for (WordID w : c->f_) if (w < 0 && -w != tc[k++]) fit = false; }
      if (fit) rule = c;
    }
    if (!rule) rule = RandomRule(r, s.cat[e.head], tc, o);
    used.push_back(rule);
    Hypergraph::TailNodeVector tails(e.tails.size());
    for (unsigned k = 0; k < e.tails.size(); ++k) tails[k] = place[e.tails[k]];
    HG::Edge* edge = hg->AddEdge(rule, tails);
    int nf = r.below(4);
    for (int k = 0; k < nf; ++k) {
      double v = ties ? (double)r.range(-1, 1) : r.real(-mag, mag);
      edge->feature_values_.set_value(Feats()[r.below(o.nfeat)], v);
    }
    edge->i_ = r.range(0, 10); edge->j_ = edge->i_ + r.range(1, 8);
    edge->prev_i_ = r.chance(0.5) ? -1 : r.range(0, 10); edge->prev_j_ = edge->prev_i_ < 0 ? -1 : edge->prev_i_ + r.range(1, 5);
    hg->ConnectEdgeToHeadNode(edge->id_, place[e.head]);
  }
  return place[n - 1];
}

inline std::vector<double> RandomWeights(vh::Rng& r, const GenOpt& o) {
  std::vector<double> w(FD::NumFeats() + 1, 0.0);
  for (int f : Feats()) { if ((int)w.size() <= f) w.resize(f + 1, 0.0); w[f] = r.chance(0.15) ? 0.0 : r.chance(0.3) ? (double)r.range(-2, 2) : r.real(-1.5, 1.5); }
  return w;
}

// All derivations of node `goal` by cross products (memoised per node).
inline std::vector<Deriv> Enumerate(const Hypergraph& hg, int goal) {
  std::vector<std::vector<Deriv> > memo(hg.nodes_.size());
  std::vector<char> done(hg.nodes_.size(), 0);
  std::function<void(int)> rec = [&](int n) {
    if (done[n]) return;
    done[n] = 1;
    for (int ei : hg.nodes_[n].in_edges_) {
      const HG::Edge& e = hg.edges_[ei];
      unsigned k = e.tail_nodes_.size();
      for (unsigned i = 0; i < k; ++i) rec(e.tail_nodes_[i]);
      std::vector<unsigned> idx(k, 0);
      bool empty = false;
      for (unsigned i = 0; i < k; ++i) if (memo[e.tail_nodes_[i]].empty()) empty = true;
      while (!empty) {
        Deriv d;
        d.edges.push_back(ei);
        d.logw = log(e.edge_prob_);
        for (auto& p : e.feature_values_) d.feats[p.first] += p.second;
        d.tree = vh::Fmt("(%d", ei);
        for (unsigned i = 0; i < k; ++i) {
          const Deriv& c = memo[e.tail_nodes_[i]][idx[i]];
          d.edges.insert(d.edges.end(), c.edges.begin(), c.edges.end());
          d.logw += c.logw;
          for (auto& p : c.feats) d.feats[p.first] += p.second;
          d.tree += c.tree;
        }
        d.tree += ")";
        if (e.rule_) {
          unsigned vc = 0;
          for (WordID w : e.rule_->f_) {
            if (w > 0) d.f.push_back(w);
            else { const Deriv& c = memo[e.tail_nodes_[vc]][idx[vc]]; ++vc; d.f.insert(d.f.end(), c.f.begin(), c.f.end()); }
          }
          for (WordID w : e.rule_->e_) {
            if (w > 0) d.e.push_back(w);
            else { const Deriv& c = memo[e.tail_nodes_[-w]][idx[-w]]; d.e.insert(d.e.end(), c.e.begin(), c.e.end()); }
          }
        }
        memo[n].push_back(d);
        int i = (int)k - 1;
        while (i >= 0 && ++idx[i] == memo[e.tail_nodes_[i]].size()) idx[i--] = 0;
        if (i < 0) break;
      }
    }
  };
  rec(goal);
  return memo[goal];
}

inline ld Total(const std::vector<Deriv>& ds) { ld t = NEG_INF; for (auto& d : ds) t = LogAdd(t, d.logw); return t; }
inline ld Best(const std::vector<Deriv>& ds) { ld t = NEG_INF; for (auto& d : ds) t = std::max(t, d.logw); return t; }

inline std::string Words(const std::vector<WordID>& v) { return TD::GetString(v); }

// canonical text of the content of an edge, independent of ids and pointers
inline std::string EdgeContent(const HG::Edge& e, bool weight = true) {
  std::string s;
  if (e.rule_) {
    s = TD::Convert(-e.rule_->lhs_) + std::string(":");
    for (WordID w : e.rule_->f_) s += (w > 0 ? std::string(TD::Convert(w)) : "[" + std::string(TD::Convert(-w)) + "]") + " ";
    s += "|";
    for (WordID w : e.rule_->e_) s += (w > 0 ? std::string(TD::Convert(w)) : vh::Fmt("[%d]", -w)) + " ";
  }
  std::map<std::string, double> m;
  for (auto& p : e.feature_values_) if (p.second != 0) m[FD::Convert(p.first)] = p.second;
  for (auto& p : m) s += vh::Fmt(" %s=%.9g", p.first.c_str(), p.second);
  if (weight) s += vh::Fmt(" w=%.7g", (double)log(e.edge_prob_));
  return s;
}

// canonical text of whole derivations: content trees (multiset compare)
inline std::vector<std::string> ContentTrees(const Hypergraph& hg, int goal, const std::function<std::string(const HG::Edge&)>& content) {
  std::vector<std::vector<std::string> > memo(hg.nodes_.size());
  std::vector<char> done(hg.nodes_.size(), 0);
  std::function<void(int)> rec = [&](int n) {
    if (done[n]) return;
    done[n] = 1;
    for (int ei : hg.nodes_[n].in_edges_) {
      const HG::Edge& e = hg.edges_[ei];
      std::vector<std::string> acc(1, "(" + content(e));
      for (unsigned i = 0; i < e.tail_nodes_.size(); ++i) {
        rec(e.tail_nodes_[i]);
        std::vector<std::string> nx;
        for (auto& a : acc) for (auto& c : memo[e.tail_nodes_[i]]) nx.push_back(a + c);
        acc.swap(nx);
      }
      for (auto& a : acc) memo[n].push_back(a + ")");
    }
  };
  rec(goal);
  std::vector<std::string> out = memo[goal];
  std::sort(out.begin(), out.end());
  return out;
}

inline uint64_t ShapeHash(const Hypergraph& hg) {
  uint64_t h = 1469598103934665603ull;
  auto mix = [&](uint64_t x) { h ^= x; h *= 1099511628211ull; };
  for (auto& e : hg.edges_) { mix(e.head_node_ + 1000); for (unsigned k = 0; k < e.tail_nodes_.size(); ++k) mix(e.tail_nodes_[k] + 1); }
  return h;
}

inline std::string Dump(const Hypergraph& hg) {
  std::string s = vh::Fmt("%d nodes:", (int)hg.nodes_.size());
  for (auto& e : hg.edges_) {
    s += vh::Fmt(" e%d:%d<-(", e.id_, e.head_node_);
    for (unsigned k = 0; k < e.tail_nodes_.size(); ++k) s += vh::Fmt("%s%d", k ? "," : "", (int)e.tail_nodes_[k]);
    s += vh::Fmt(")%.3g", (double)log(e.edge_prob_));
  }
  return s.substr(0, 900);
}

// structural integrity of a hypergraph: ids, in/out edge lists
inline void CheckIntegrity(const Hypergraph& hg, const char* what) {
  std::vector<std::multiset<int> > in(hg.nodes_.size()), out(hg.nodes_.size());
  bool ok = true; std::string why;
  for (unsigned i = 0; i < hg.edges_.size(); ++i) {
    const HG::Edge& e = hg.edges_[i];
    if (e.id_ != (int)i) { ok = false; why = vh::Fmt("edge %u has id %d", i, e.id_); }
    if (e.head_node_ < 0 || e.head_node_ >= (int)hg.nodes_.size()) { ok = false; why = vh::Fmt("edge %u head %d", i, e.head_node_); continue; }
    in[e.head_node_].insert(i);
    for (unsigned k = 0; k < e.tail_nodes_.size(); ++k) {
      int t = e.tail_nodes_[k];
      if (t < 0 || t >= (int)hg.nodes_.size()) { ok = false; why = vh::Fmt("edge %u tail %d", i, t); continue; }
      out[t].insert(i);
    }
  }
  for (unsigned i = 0; i < hg.nodes_.size(); ++i) {
    const HG::Node& n = hg.nodes_[i];
    if (n.id_ != (int)i) { ok = false; why = vh::Fmt("node %u has id %d", i, n.id_); }
    if (in[i] != std::multiset<int>(n.in_edges_.begin(), n.in_edges_.end())) { ok = false; why = vh::Fmt("node %u in-edge list wrong", i); }
    if (out[i] != std::multiset<int>(n.out_edges_.begin(), n.out_edges_.end())) { ok = false; why = vh::Fmt("node %u out-edge list wrong", i); }
  }
  VCHECK(ok, std::string("integrity:") + what, "%s: %s; %s", what, why.c_str(), Dump(hg).c_str());
}

inline bool TopoSorted(const Hypergraph& hg) {
  for (auto& e : hg.edges_) for (unsigned k = 0; k < e.tail_nodes_.size(); ++k) if (e.tail_nodes_[k] >= (unsigned)e.head_node_) return false;
  return true;
}
}  // namespace fo
#endif
