// D04: what each pruning criterion keeps, against margins computed from all derivations.
#include "forest.h"
#include "viterbi.h"
#include "inside_outside.h"
#include "verbose.h"
using namespace fo;
using namespace std;

// content of a derivation for comparison across renumbering: the original edge numbers (kept in prev_i_)
static multiset<string> Derivs(const Hypergraph& hg, int goal) {
  vector<string> v = ContentTrees(hg, goal, [](const HG::Edge& e) { return vh::Fmt("%d", e.prev_i_); });
  return multiset<string>(v.begin(), v.end());
}
static string EdgeFull(const HG::Edge& e) { return EdgeContent(e) + vh::Fmt(" (%d,%d,%d)", e.i_, e.j_, e.prev_j_); }

struct Model {
  const Hypergraph& hg; int goal; vector<Deriv> ds; ld best, total;
  vector<ld> maxm, post;   // best derivation through edge / expected number of uses, as log ratios
  Model(const Hypergraph& h, int g, double scale) : hg(h), goal(g), ds(Enumerate(h, g)), best(Best(ds)), maxm(h.edges_.size(), NEG_INF), post(h.edges_.size(), NEG_INF) {
    total = NEG_INF;
    for (auto& d : ds) total = LogAdd(total, d.logw * scale);
    for (auto& d : ds) for (int e : d.edges) { maxm[e] = max(maxm[e], d.logw - best); post[e] = LogAdd(post[e], d.logw * scale - total); }
  }
};

// edges that take part in some derivation of the goal using only edges in `keep`
static vector<char> Closure(const Hypergraph& hg, int goal, const vector<char>& keep, bool bottom_up) {
  vector<char> ok(hg.nodes_.size(), 0), ke = keep;
  if (bottom_up) {
    bool ch = true;
    while (ch) { ch = false; for (auto& e : hg.edges_) if (keep[e.id_] && !ok[e.head_node_]) { bool b = true; for (unsigned k = 0; k < e.tail_nodes_.size(); ++k) if (!ok[e.tail_nodes_[k]]) b = false; if (b) { ok[e.head_node_] = 1; ch = true; } } }
    for (auto& e : hg.edges_) for (unsigned k = 0; k < e.tail_nodes_.size(); ++k) if (!ok[e.tail_nodes_[k]]) ke[e.id_] = 0;
  }
  vector<char> seen(hg.nodes_.size(), 0); vector<int> st(1, goal); seen[goal] = 1;
  while (!st.empty()) { int n = st.back(); st.pop_back(); for (int ei : hg.nodes_[n].in_edges_) if (ke[ei]) for (unsigned k = 0; k < hg.edges_[ei].tail_nodes_.size(); ++k) { int t = hg.edges_[ei].tail_nodes_[k]; if (!seen[t]) { seen[t] = 1; st.push_back(t); } } }
  for (auto& e : hg.edges_) if (!seen[e.head_node_]) ke[e.id_] = 0;
  return ke;
}
static vector<char> Kept(const Hypergraph& hg, unsigned n) { vector<char> k(n, 0); for (auto& e : hg.edges_) k[e.prev_i_] = 1; return k; }
static string Mask(const vector<char>& k) { string s; for (unsigned i = 0; i < k.size(); ++i) if (k[i]) s += vh::Fmt("%u ", i); return s; }

int main(int argc, char** argv) {
  SetSilent(true);
  return vh::Main(argc, argv, [](vh::Rng& r, long) {
    GenOpt o;
    o.max_nodes = r.range(3, 14); o.useless = r.chance(0.25); o.tie_prob = 0.45; o.max_derivs = 800;
    if (r.chance(0.3)) o.max_in = 7;
    if (r.chance(0.2)) o.p_repeat_tail = 0.5;
    Shape s = RandomShape(r, o);
    // edges defined before use, as the decoder's forests are
    bool ordered = r.chance(0.75);
    Hypergraph hg; int goal;
    for (;;) { hg.clear(); goal = BuildForest(r, s, o, &hg); if (!ordered) break; bool srt = true; for (unsigned i = 1; i < hg.edges_.size(); ++i) if (hg.edges_[i].head_node_ < hg.edges_[i - 1].head_node_) srt = false; if (srt) break; }
    const unsigned E = hg.edges_.size();
    for (unsigned i = 0; i < E; ++i) hg.edges_[i].prev_i_ = i;
    vector<double> w = RandomWeights(r, o);
    if (r.chance(0.25)) for (double& x : w) x = 0.1 * r.range(-1, 1);       // many equal weights that round differently
    hg.Reweight(w);
    string dump = Dump(hg);
    vh::Sample(dump);
    vector<string> before(E); for (unsigned i = 0; i < E; ++i) before[i] = EdgeFull(hg.edges_[i]);
    Model m1(hg, goal, 1.0);
    if (m1.ds.size() > 2) vh::Distinct("nontrivial", ShapeHash(hg));
    multiset<string> all = Derivs(hg, goal);
    set<string> bestset;
    { vector<string> trees; }
    auto sane = [&](const Hypergraph& p, const char* what, const string& how) -> bool {
      CheckIntegrity(p, what);
      VCHECK(TopoSorted(p), string("order:") + what, "%s %s: nodes not in order; %s", what, how.c_str(), dump.c_str());
      vector<char> k = Kept(p, E);
      bool ok = true;
      for (auto& e : p.edges_) if (EdgeFull(e) != before[e.prev_i_]) { ok = false; VCHECK(false, string("content:") + what, "%s %s: edge %d changed from {%s} to {%s}", what, how.c_str(), e.prev_i_, before[e.prev_i_].c_str(), EdgeFull(e).c_str()); break; }
      if (p.edges_.empty()) return ok;
      multiset<string> now = Derivs(p, p.nodes_.size() - 1), want;
      // the surviving derivations are precisely those that use surviving edges only
      for (auto& t : all) { bool in = true; for (size_t i = 0; i < t.size();) { if (isdigit(t[i])) { int v = atoi(t.c_str() + i); if (!k[v]) in = false; while (i < t.size() && isdigit(t[i])) ++i; } else ++i; } if (in) want.insert(t); }
      VCHECK(now == want, string("derivs:") + what, "%s %s: %d derivations in the pruned forest, %d of the original use its edges only; kept %s; %s", what, how.c_str(), (int)now.size(), (int)want.size(), Mask(k).c_str(), dump.c_str());
      return ok;
    };
    auto copy = [&]() { Hypergraph c; c.nodes_ = hg.nodes_; c.edges_ = hg.edges_; c.is_linear_chain_ = hg.is_linear_chain_; c.edges_topo_ = true; return c; };

    int rounds = vh::S().thorough ? 8 : 5;
    for (int q = 0; q < rounds; ++q) {
      bool sum = r.chance(0.3);
      double scale = sum && r.chance(0.4) ? r.real(0.3, 2.0) : 1.0;
      bool beam = r.chance(0.6), dens = !beam || r.chance(0.3);
      double alpha = beam ? (r.chance(0.3) ? r.real(0.001, 0.3) : r.real(0.05, 8)) : 0;
      double density = dens ? (r.chance(0.3) ? 1.0 : r.real(1, 4)) : 0;
      bool safe = sum || !ordered || r.chance(0.3);
      vector<bool> pm; bool usepm = r.chance(0.2);
      if (usepm) { safe = true; for (unsigned i = 0; i < E; ++i) pm.push_back(r.chance(0.15)); }
      Model ms(hg, goal, scale);
      const vector<ld>& M = sum ? ms.post : m1.maxm;
      // the cutoff the request denotes
      ld cut = NEG_INF; bool by_density = false;
      int plen = ViterbiPathLength(hg);
      if (dens) {
        unsigned rnum = min<unsigned>(E, (unsigned)(density * plen));
        if (rnum < E) { vector<ld> v(M); sort(v.begin(), v.end(), greater<ld>()); cut = v[rnum]; by_density = true; }
      }
      ld bc = NEG_INF;
      if (beam) { ld b = 0; if (sum) for (ld x : M) b = max(b, x); bc = b - alpha; if (bc >= cut) { cut = bc; by_density = false; } }
      ld tol = 1e-9 + fabsl(cut) * 1.5e-6 * (E + 2);
      string how = vh::Fmt("(beam %.4g density %.3g %s scale %.3g%s%s)", alpha, density, sum ? "sum" : "max", scale, safe ? " safe" : "", usepm ? " preserve" : "");
      Hypergraph p = copy();
      bool won = p.PruneInsideOutside(alpha, density, usepm ? &pm : NULL, sum, scale, safe);
      vh::Count(sum ? "prunings_sum" : "prunings_max");
      if (dens && !by_density && !beam) { VCHECK(p.edges_.size() == E && !won, "density:enough", "%s: pruned although the density already holds", how.c_str()); continue; }
      if (dens && beam && fabsl(cut - bc) > 2 * tol) VCHECK(won == by_density, "density:won", "%s: reported density_won=%d, cutoff is %s", how.c_str(), won, by_density ? "the density" : "the beam");
      sane(p, "prune", how);
      vector<char> k = Kept(p, E);
      bool ambiguous = false;
      vector<char> must(E, 0);
      bool neginf = std::isinf((double)cut);
      int boundary = 0;
      for (unsigned i = 0; i < E; ++i) {
        bool pres = usepm && pm[i];
        if (pres) { must[i] = 1; continue; }
        if (neginf) { ambiguous = true; continue; }
        if (M[i] > cut + tol) must[i] = 1;
        else if (M[i] >= cut - tol) { ++boundary; if (!by_density) ambiguous = true; }
      }
      if (by_density && boundary > 1) ambiguous = true;     // ties at the rank
      if (by_density && boundary == 1 && cut > -1e-9) ambiguous = true;
      // the single edge at the rank itself is outside the requested number
      vector<char> want = Closure(hg, goal, must, safe);
      if (!ambiguous) {
        vh::Count("exact_sets");
        VCHECK(k == want, "keepset", "%s kept edges { %s} instead of { %s} (cutoff %.6Lg); %s", how.c_str(), Mask(k).c_str(), Mask(want).c_str(), cut, dump.c_str());
      } else {
        vh::Count("boundary_sets");
        // what is certainly inside must be there, what is certainly outside must not
        for (unsigned i = 0; i < E; ++i) {
          if (want[i]) VCHECK(k[i], "keepset:lost", "%s lost edge %u with margin %.6Lg (cutoff %.6Lg); %s", how.c_str(), i, M[i], cut, dump.c_str());
          if (!must[i] && !neginf && M[i] < cut - tol) VCHECK(!k[i], "keepset:extra", "%s kept edge %u with margin %.6Lg (cutoff %.6Lg); %s", how.c_str(), i, M[i], cut, dump.c_str());
        }
      }
      if (!sum) {
        // no pruning loses the best derivation
        double bw = -1e300;
        if (p.edges_.size()) { vector<Deriv> pd = Enumerate(p, p.nodes_.size() - 1); bw = pd.empty() ? -1e300 : (double)Best(pd); }
        VCHECK(vh::Near(bw, (double)m1.best, 1e-9, 1e-9), "best:lost", "%s: best derivation weighs %.10g, was %.10g; kept { %s}; %s", how.c_str(), bw, (double)m1.best, Mask(k).c_str(), dump.c_str());
      }
    }
    // arbitrary edge removal
    for (int q = 0; q < 3; ++q) {
      vector<bool> prune(E); vector<char> keep(E);
      double pr = r.real(0.02, 0.5);
      for (unsigned i = 0; i < E; ++i) { prune[i] = r.chance(pr); keep[i] = !prune[i]; }
      vector<char> want = Closure(hg, goal, keep, true);
      bool derivable = false; for (auto& e : hg.edges_) if (e.head_node_ == goal && want[e.id_]) derivable = true;
      Hypergraph p = copy();
      p.PruneEdges(prune, true);
      vh::Count("edge_removals");
      if (!derivable) VCHECK(p.edges_.empty() && p.nodes_.size() == 1, "remove:empty", "%d edges left although no derivation survives", (int)p.edges_.size());
      else { sane(p, "remove", ""); VCHECK(Kept(p, E) == want, "remove:set", "kept { %s} instead of { %s}; %s", Mask(Kept(p, E)).c_str(), Mask(want).c_str(), dump.c_str()); }
      // subset creation keeps what can be built bottom up
      vector<bool> ke(E); for (unsigned i = 0; i < E; ++i) ke[i] = keep[i];
      HypergraphP sub = hg.CreateEdgeSubset(ke);
      if (derivable) {
        VCHECK(sub->nodes_.size() > 0, "subset:empty", "no nodes");
        CheckIntegrity(*sub, "subset");
        if (sub->nodes_.size()) {
          multiset<string> now = Derivs(*sub, sub->nodes_.size() - 1), exp;
          for (auto& t : all) { bool in = true; for (size_t i = 0; i < t.size();) { if (isdigit(t[i])) { int v = atoi(t.c_str() + i); if (!keep[v]) in = false; while (i < t.size() && isdigit(t[i])) ++i; } else ++i; } if (in) exp.insert(t); }
          VCHECK(now == exp, "subset:derivs", "%d derivations instead of %d; %s", (int)now.size(), (int)exp.size(), dump.c_str());
          for (auto& e : sub->edges_) if (EdgeFull(e) != before[e.prev_i_]) { VCHECK(false, "subset:content", "edge %d changed", e.prev_i_); break; }
        }
      }
    }
  });
}
