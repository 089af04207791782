// D01: inference over a forest against the list of its derivations.
#include "forest.h"
#include "viterbi.h"
#include "inside_outside.h"
#include "exp_semiring.h"
#include "sparse_vector.h"
using namespace fo;

struct FeatR {  // value of one feature as the R weight
  explicit FeatR(int f = 0) : fid(f) {}
  prob_t operator()(const HG::Edge& e) const { return prob_t(e.feature_values_.value(fid)); }
  int fid;
};
struct OneB { Boolean operator()(const HG::Edge&) const { return Boolean(true); } };

static void TreeStr(const Hypergraph& hg, const Deriv& d, unsigned* cur, int mode, std::vector<std::string>* out) {
  const HG::Edge& e = hg.edges_[d.edges[(*cur)++]];
  std::vector<std::vector<std::string> > kids(e.tail_nodes_.size());
  for (auto& k : kids) TreeStr(hg, d, cur, mode, &k);
  std::vector<std::string> body;
  unsigned vc = 0;
  for (WordID w : (mode == 1 ? e.rule_->f_ : e.rule_->e_)) {
    if (w > 0) body.push_back(TD::Convert(w));
    else { auto& k = kids[mode == 1 ? vc++ : -w]; body.insert(body.end(), k.begin(), k.end()); }
  }
  std::string cat = TD::Convert(-e.rule_->GetLHS());
  if (cat == "Goal") { *out = body; return; }
  std::string open = "(" + cat + (mode == 2 ? vh::Fmt("{%d-%d}", (int)e.i_, (int)e.j_) : "");
  // the code joins by spaces and splits again
  std::string s = open + " ";
  for (unsigned i = 0; i < body.size(); ++i) s += (i ? " " : "") + body[i];
  s += ")";
  std::istringstream is(s); std::string t; out->clear();
  while (is >> t) out->push_back(t);
}
static std::string Tree(const Hypergraph& hg, const Deriv& d, int mode) {
  unsigned cur = 0; std::vector<std::string> v; TreeStr(hg, d, &cur, mode, &v);
  std::string s; for (unsigned i = 0; i < v.size(); ++i) s += (i ? " " : "") + v[i];
  return s;
}

static bool NearLog(ld a, ld b) {
  if (std::isinf((double)a) || std::isinf((double)b)) return (double)a == (double)b;
  return fabsl(a - b) <= 1e-8 * (1 + std::max(fabsl(a), fabsl(b)));
}

int main(int argc, char** argv) {
  return vh::Main(argc, argv, [](vh::Rng& r, long) {
    GenOpt o;
    o.useless = r.chance(0.3);
    o.max_nodes = r.range(2, 12);
    o.goal_unary = r.chance(0.3);
    if (r.chance(0.15)) { o.max_in = 1; o.max_arity = 1; }
    if (r.chance(0.2)) o.p_repeat_tail = 0.6;
    Shape s = RandomShape(r, o);
    Hypergraph hg;
    int goal = BuildForest(r, s, o, &hg);
    std::vector<double> w = RandomWeights(r, o);
    hg.Reweight(w);
    for (auto& e : hg.edges_) {
      ld dot = 0; for (auto& p : e.feature_values_) dot += (ld)p.second * w[p.first];
      VCHECK(NearLog(dot, log(e.edge_prob_)), "reweight", "edge %d: weight %.12Lg, edge_prob log %.12g", e.id_, dot, log(e.edge_prob_));
    }
    std::vector<Deriv> ds = Enumerate(hg, goal);
    const std::string dump = Dump(hg);
    vh::Count("derivations", ds.size());
    vh::Max("max_derivations", ds.size());
    if (ds.size() > 1) vh::Distinct("nontrivial", ShapeHash(hg));
    if (ds.size() > 20) vh::Sample(vh::Fmt("%d derivations; ", (int)ds.size()) + dump);
    ld Z = Total(ds), B = Best(ds);
    bool repeated = false;
    for (auto& d : ds) { std::set<int> q(d.edges.begin(), d.edges.end()); if (q.size() < d.edges.size()) repeated = true; }
    if (repeated) vh::Count("forests_with_edge_used_twice_in_a_derivation");

    // counts
    VCHECK(vh::Near(hg.NumberOfPaths(), ds.size()), "count", "NumberOfPaths %.10g, derivations %d; %s", hg.NumberOfPaths(), (int)ds.size(), dump.c_str());
    { std::vector<Boolean> rb; Boolean any = Inside<Boolean, OneB>(hg, &rb);
      VCHECK((bool)any == !ds.empty(), "inside-bool", "derivable %d, derivations %d", (int)(bool)any, (int)ds.size()); }
    // inside/outside
    std::vector<prob_t> in, out;
    prob_t z = Inside<prob_t, EdgeProb>(hg, &in);
    VCHECK(NearLog(log(z), Z), "inside", "inside %.12g, sum over derivations %.12Lg; %s", log(z), Z, dump.c_str());
    Outside<prob_t, EdgeProb>(hg, in, &out);
    std::vector<ld> nodeT(hg.nodes_.size(), NEG_INF), edgeT(hg.edges_.size(), NEG_INF), edgeB(hg.edges_.size(), NEG_INF), nodeB(hg.nodes_.size(), NEG_INF);
    for (auto& d : ds) for (int e : d.edges) {
      edgeT[e] = LogAdd(edgeT[e], d.logw);
      nodeT[hg.edges_[e].head_node_] = LogAdd(nodeT[hg.edges_[e].head_node_], d.logw);
      edgeB[e] = std::max(edgeB[e], d.logw);
    }
    for (unsigned i = 0; i < hg.nodes_.size(); ++i) {
      std::vector<Deriv> nd = Enumerate(hg, i);
      VCHECK(NearLog(log(in[i]), Total(nd)), "inside-node", "node %u inside %.12g expected %.12Lg; %s", i, log(in[i]), Total(nd), dump.c_str());
      nodeB[i] = Best(nd);
      prob_t io = in[i] * out[i];
      VCHECK(NearLog(io.is_0() ? NEG_INF : (ld)log(io), nodeT[i]), "outside", "node %u inside*outside %.12g expected %.12Lg; %s", i, log(io), nodeT[i], dump.c_str());
    }
    // edge posteriors at several scales
    for (double sc : {1.0, 0.5, 2.0}) {
      std::vector<prob_t> post;
      prob_t zz = hg.ComputeEdgePosteriors(sc, &post);
      std::vector<ld> et(hg.edges_.size(), NEG_INF); ld zs = NEG_INF;
      for (auto& d : ds) { zs = LogAdd(zs, d.logw * sc); for (int e : d.edges) et[e] = LogAdd(et[e], d.logw * sc); }
      VCHECK(NearLog(log(zz), zs), "posterior-z", "scale %g: z %.12g expected %.12Lg; %s", sc, log(zz), zs, dump.c_str());
      for (unsigned e = 0; e < post.size(); ++e)
        VCHECK(NearLog(post[e].is_0() ? NEG_INF : (ld)log(post[e]), et[e]), "posterior-edge", "scale %g: edge %u posterior %.12g expected %.12Lg; %s", sc, e, log(post[e]), et[e], dump.c_str());
    }
    { std::vector<prob_t> bp;
      prob_t b = hg.ComputeBestPathThroughEdges(&bp);
      VCHECK(NearLog(log(b), B), "best-path", "best %.12g expected %.12Lg; %s", log(b), B, dump.c_str());
      for (unsigned e = 0; e < bp.size(); ++e)
        VCHECK(NearLog(bp[e].is_0() ? NEG_INF : (ld)log(bp[e]), edgeB[e]), "best-through-edge", "edge %u best path %.12g expected %.12Lg; %s", e, log(bp[e]), edgeB[e], dump.c_str());
    }
    { Hypergraph::NodeProbs np; Hypergraph::EdgeProbs ep;
      prob_t b = hg.ComputeNodeViterbi(&np);
      VCHECK(NearLog(log(b), B), "node-viterbi", "%.12g expected %.12Lg", log(b), B);
      for (unsigned i = 0; i < np.size(); ++i) VCHECK(NearLog(log(np[i]), nodeB[i]), "node-viterbi", "node %u %.12g expected %.12Lg; %s", i, log(np[i]), nodeB[i], dump.c_str());
      hg.ComputeEdgeViterbi(&ep);
      for (unsigned i = 0; i < ep.size(); ++i) {
        ld x = log(hg.edges_[i].edge_prob_);
        for (unsigned k = 0; k < hg.edges_[i].tail_nodes_.size(); ++k) x += nodeB[hg.edges_[i].tail_nodes_[k]];
        VCHECK(NearLog(log(ep[i]), x), "edge-viterbi", "edge %u %.12g expected %.12Lg; %s", i, log(ep[i]), x, dump.c_str());
      }
    }
    // expectations
    { std::map<int, ld> ex, mass;
      for (auto& d : ds) for (auto& p : d.feats) { ld pr = expl(d.logw - Z); ex[p.first] += pr * p.second; }
      // magnitude for the tolerance: contributions of single edges
      for (unsigned e = 0; e < hg.edges_.size(); ++e) for (auto& p : hg.edges_[e].feature_values_) mass[p.first] += expl(edgeT[e] - Z) * fabsl(p.second);
      SparseVector<prob_t> x;
      prob_t z1 = InsideOutside<prob_t, EdgeProb, SparseVector<prob_t>, EdgeFeaturesAndProbWeightFunction>(hg, &x);
      VCHECK(NearLog(log(z1), Z), "expect-z", "%.12g expected %.12Lg", log(z1), Z);
      typedef PRPair<prob_t, prob_t> PR;
      typedef PRWeightFunction<prob_t, EdgeProb, prob_t, FeatR> PRW;
      for (int f : Feats()) {
        PR pr = Inside<PR, PRW>(hg, NULL, PRW(EdgeProb(), FeatR(f)));
        VCHECK(NearLog(log(pr.p), Z), "expect-pr-z", "%.12g expected %.12Lg", log(pr.p), Z);
        prob_t q = x.value(f) / z1, q2 = pr.r / pr.p;
        double a = q.as_float(), a2 = q2.as_float();
        ld e = ex.count(f) ? ex[f] : 0, tol = 1e-7 * (mass[f] + 1e-12);
        VCHECK(fabsl(a - e) <= tol, "expected-feature", "feature %s inside-outside %.12g expected %.12Lg; %s", FD::Convert(f).c_str(), a, e, dump.c_str());
        VCHECK(fabsl(a2 - e) <= tol, "expected-feature-semiring", "feature %s semiring %.12g expected %.12Lg; %s", FD::Convert(f).c_str(), a2, e, dump.c_str());
      }
    }
    // Viterbi readings
    std::vector<const Deriv*> best;
    for (auto& d : ds) if (d.logw >= B - 1e-9 * (1 + fabsl(B))) best.push_back(&d);
    if (best.size() > 1) vh::Count("forests_with_tied_best");
    auto inBest = [&](const std::function<bool(const Deriv&)>& p) { for (auto* d : best) if (p(*d)) return true; return false; };
    { std::vector<WordID> e, f;
      prob_t pe = ViterbiESentence(hg, &e), pf = ViterbiFSentence(hg, &f);
      VCHECK(NearLog(log(pe), B) && NearLog(log(pf), B), "viterbi-weight", "e %.12g f %.12g expected %.12Lg; %s", log(pe), log(pf), B, dump.c_str());
      VCHECK(inBest([&](const Deriv& d) { return d.e == e; }), "viterbi-e", "'%s' is not a best translation; %s", Words(e).c_str(), dump.c_str());
      VCHECK(inBest([&](const Deriv& d) { return d.f == f; }), "viterbi-f", "'%s' is not a best source; %s", Words(f).c_str(), dump.c_str());
      std::string et = ViterbiETree(hg), ft = ViterbiFTree(hg), jt = JoshuaVisualizationString(hg);
      VCHECK(inBest([&](const Deriv& d) { return Tree(hg, d, 0) == et; }), "viterbi-etree", "tree %s, expected e.g. %s", et.c_str(), Tree(hg, *best[0], 0).c_str());
      VCHECK(inBest([&](const Deriv& d) { return Tree(hg, d, 1) == ft; }), "viterbi-ftree", "tree %s, expected e.g. %s", ft.c_str(), Tree(hg, *best[0], 1).c_str());
      VCHECK(inBest([&](const Deriv& d) { return Tree(hg, d, 2) == jt; }), "viterbi-jtree", "tree %s, expected e.g. %s", jt.c_str(), Tree(hg, *best[0], 2).c_str());
      std::vector<const HG::Edge*> path;
      Viterbi<ViterbiPathTraversal>(hg, &path);
      std::multiset<int> ps; for (auto* p : path) ps.insert(p->id_);
      VCHECK(inBest([&](const Deriv& d) { return std::multiset<int>(d.edges.begin(), d.edges.end()) == ps; }), "viterbi-path", "path of %d edges is not a best derivation; %s", (int)path.size(), dump.c_str());
      VCHECK(path.back()->head_node_ == goal, "viterbi-path-order", "last edge of the path does not derive the goal");
      int len = ViterbiPathLength(hg), el = ViterbiELength(hg);
      VCHECK(inBest([&](const Deriv& d) { return (int)d.edges.size() == len; }), "viterbi-pathlen", "%d; %s", len, dump.c_str());
      VCHECK(inBest([&](const Deriv& d) { return (int)d.e.size() == el; }), "viterbi-elen", "%d; %s", el, dump.c_str());
      SparseVector<double> fv = ViterbiFeatures(hg);
      auto same = [&](const Deriv& d) {
        for (int q : Feats()) { auto it = d.feats.find(q); if (!vh::Near(fv.value(q), it == d.feats.end() ? 0 : (double)it->second, 1e-8, 1e-8)) return false; }
        return true; };
      VCHECK(inBest(same), "viterbi-features", "features do not belong to a best derivation; %s", dump.c_str());
      VCHECK(inBest([&](const Deriv& d) { return d.e == e && d.f == f && same(d) && std::multiset<int>(d.edges.begin(), d.edges.end()) == ps; }),
             "viterbi-consistent", "sentence, path and features belong to different derivations; %s", dump.c_str());
      HypergraphP vg = hg.CreateViterbiHypergraph();
      std::vector<Deriv> vd = Enumerate(*vg, vg->nodes_.size() - 1);
      VCHECK(vd.size() == 1 && NearLog(vd[0].logw, B), "viterbi-hypergraph", "%d derivations, weight %.12Lg expected %.12Lg; %s", (int)vd.size(), vd.empty() ? 0 : vd[0].logw, B, dump.c_str());
      CheckIntegrity(*vg, "viterbi-hypergraph");
      std::ostringstream rs; ViterbiRules(hg, &rs);
      std::string exp; for (auto* p : path) exp += p->rule_->AsString(true) + "\n";
      VCHECK(rs.str() == exp, "viterbi-rules", "rules printed differ from those of the path");
    }
    // sorting in-edges by best derivation keeps the forest
    { Hypergraph h2 = hg;
      const HG::Edge* first = h2.ViterbiSortInEdges();
      CheckIntegrity(h2, "sort-in-edges");
      ld x = log(first->edge_prob_);
      for (unsigned k = 0; k < first->tail_nodes_.size(); ++k) x += nodeB[first->tail_nodes_[k]];
      VCHECK(NearLog(x, B), "sorted-first-edge", "first edge's best %.12Lg expected %.12Lg", x, B);
    }
  });
}
