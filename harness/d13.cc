// D13: forest sampling against the exact posterior, and the sampler's primitive draws.
#include "forest.h"
#include "hg_sampler.h"
#include "sampler.h"
#include "viterbi.h"
#include "verbose.h"
using namespace fo;
using namespace std;

// |count - Np| bound: Bernstein's inequality at failure probability < 1e-15 per comparison
static double Bound(double n, double p) {
  double t = 35.0, v = n * p * (1 - p);
  return sqrt(2 * v * t) + t / 3 * 2 + 1;
}

static string TreeOf(const Hypergraph& hg, const Deriv& d, size_t* pos) {
  const HG::Edge& e = hg.edges_[d.edges[(*pos)++]];
  vector<string> kids;
  for (unsigned i = 0; i < e.tail_nodes_.size(); ++i) kids.push_back(TreeOf(hg, d, pos));
  string s;
  for (WordID w : e.rule_->e_) {
    if (!s.empty()) s += ' ';
    s += w > 0 ? TD::Convert(w) : kids[-w];
  }
  string cat = TD::Convert(-e.rule_->lhs_);
  return cat == "Goal" ? s : "(" + cat + " " + s + ")";
}
static string Norm(const string& s) { istringstream is(s); string o, w; while (is >> w) { if (!o.empty()) o += ' '; o += w; } return o; }

static void Case(vh::Rng& r, long) {
  SetSilent(true);
  GenOpt o; o.max_nodes = r.range(2, 9); o.max_derivs = 40; o.p_repeat_tail = 0.35; o.min_nodes = 2;
  Shape s = RandomShape(r, o);
  Hypergraph hg; int goal = BuildForest(r, s, o, &hg);
  hg.TopologicallySortNodesAndEdges(goal);
  goal = hg.nodes_.size() - 1;
  // every edge has its own feature, so the features of a sample say which edges were drawn
  static vector<int> ef; while (ef.size() < hg.edges_.size()) ef.push_back(FD::Convert(vh::Fmt("Edge_%d", (int)ef.size())));
  double spread = r.pick(vector<double>{0.0, 0.5, 1.5, 4.0});
  double shift = r.chance(0.3) ? r.real(-40, 40) : 0;
  for (auto& e : hg.edges_) {
    e.feature_values_.clear(); e.feature_values_.set_value(ef[e.id_], 1.0);
    e.edge_prob_ = prob_t(exp(1.0)); e.edge_prob_.logeq(r.normal() * spread + shift);
  }
  if (r.chance(0.2)) {  // an edge of probability zero is never drawn
    int n = 0; for (auto& nd : hg.nodes_) if (nd.in_edges_.size() > 1 && r.chance(0.5)) { hg.edges_[nd.in_edges_[r.range(1, nd.in_edges_.size() - 1)]].edge_prob_ = prob_t::Zero(); ++n; }
    if (n) vh::Count("zero_edges", n);
  }
  vector<Deriv> ds = Enumerate(hg, goal);
  ld z = NEG_INF; for (auto& d : ds) z = LogAdd(z, d.logw);
  // derivations identified by their edge counts; different derivations may share them
  struct Grp { double p = 0; ld logw = 0; map<string, double> words, trees; long seen = 0; };
  map<map<int, int>, Grp> groups;
  for (auto& d : ds) {
    map<int, int> k; for (int e : d.edges) ++k[e];
    Grp& g = groups[k]; double p = expl(d.logw - z);
    g.p += p; g.logw = d.logw; g.words[Words(d.e)] += p; size_t pos = 0; g.trees[Norm(TreeOf(hg, d, &pos))] += p;
  }
  bool repeated = false; for (auto& g : groups) for (auto& x : g.first) if (x.second > 1) repeated = true;
  if (ds.size() > 2) vh::Distinct("nontrivial", ShapeHash(hg));
  vh::Sample(Dump(hg));
  if (repeated) vh::Count("forests_with_repeated_nodes");
  vh::Count("derivations", ds.size());
  const int N = vh::S().thorough ? 20000 : 3000;
  uint32_t seed = 1 + r.below(1000000000);
  MT19937 rng(seed);
  vector<HypergraphSampler::Hypothesis> hs;
  HypergraphSampler::sample_hypotheses(hg, N, &rng, &hs);
  VCHECK((int)hs.size() == N, "sample:n", "%d samples for %d", (int)hs.size(), N);
  map<string, long> wordc;
  for (auto& h : hs) {
    map<int, int> k; bool ok = true;
    for (auto it = h.fmap.begin(); it != h.fmap.end(); ++it) {
      int id = -1; for (unsigned i = 0; i < hg.edges_.size(); ++i) if (ef[i] == (int)it->first) id = i;
      int c = (int)lround(it->second);
      if (id < 0 || fabs(it->second - c) > 1e-9 || c < 0) ok = false; else if (c) k[id] = c;
    }
    auto g = ok ? groups.find(k) : groups.end();
    if (g == groups.end()) { vh::Viol("sample:notaderivation", vh::Fmt("sampled features are no derivation's: %s", Dump(hg).c_str())); return; }
    ++g->second.seen;
    if (!g->second.words.count(Words(h.words))) { vh::Viol("sample:words", vh::Fmt("words '%s' do not belong to the sampled derivation ('%s') %s", Words(h.words).c_str(), g->second.words.begin()->first.c_str(), Dump(hg).c_str())); return; }
    if (!vh::Near(log(h.model_score), (double)g->second.logw, 1e-7, 1e-7)) { vh::Viol("sample:score", vh::Fmt("score %g, derivation weighs %g", (double)log(h.model_score), (double)g->second.logw)); return; }
    ++wordc[Words(h.words)];
  }
  vh::Count("samples", N);
  map<string, double> wp, tp; for (auto& g : groups) { for (auto& w : g.second.words) wp[w.first] += w.second; for (auto& t : g.second.trees) tp[t.first] += t.second; }
  for (auto& g : groups) {
    double e = N * g.second.p, dev = fabs(g.second.seen - e);
    vh::Max("deviation_over_bound", dev / Bound(N, g.second.p));
    VCHECK(dev <= Bound(N, g.second.p), "sample:distribution", "derivation of posterior %g drawn %ld times in %d (bound %g): %s", g.second.p, g.second.seen, N, Bound(N, g.second.p), Dump(hg).c_str());
  }
  for (auto& w : wp) VCHECK(fabs(wordc[w.first] - N * w.second) <= Bound(N, w.second), "sample:yield", "yield '%s' of posterior %g drawn %ld times in %d", w.first.c_str(), w.second, wordc[w.first], N);
  // the same seed gives the same samples
  {
    MT19937 rng2(seed); vector<HypergraphSampler::Hypothesis> h2;
    HypergraphSampler::sample_hypotheses(hg, 200, &rng2, &h2);
    bool same = true;
    for (int i = 0; i < 200; ++i) if (h2[i].words != hs[i].words || !(h2[i].fmap == hs[i].fmap)) same = false;
    VCHECK(same, "sample:seed", "the same seed gives different samples");
  }
  // trees
  MT19937 rng3(seed + 7); vector<string> trees;
  HypergraphSampler::sample_trees(hg, N, &rng3, &trees);
  map<string, long> tc; for (auto& t : trees) ++tc[Norm(t)];
  for (auto& t : tc) if (!tp.count(t.first)) { vh::Viol("trees:notatree", vh::Fmt("'%s' is no derivation tree of %s", t.first.c_str(), Dump(hg).c_str())); return; }
  for (auto& t : tp) VCHECK(fabs(tc[t.first] - N * t.second) <= Bound(N, t.second), "trees:distribution", "tree '%s' of posterior %g drawn %ld times in %d", t.first.c_str(), t.second, tc[t.first], N);
}

static void Draws(vh::Rng& r) {
  const int N = vh::S().thorough ? 40000 : 8000;
  MT19937 rng(1 + r.below(1000000000));
  int n = r.range(1, 7);
  SampleSet<double> sd; SampleSet<prob_t> sp; vector<double> w;
  double scale = exp(r.real(-20, 20));
  for (int i = 0; i < n; ++i) { double x = r.chance(0.15) && i ? 0.0 : exp(r.normal() * 1.5) * scale; w.push_back(x); sd.add(x); sp.add(prob_t(x)); }
  double T = r.chance(0.5) ? 1.0 : r.pick(vector<double>{0.25, 0.5, 2.0, 5.0});
  double z = 0; vector<double> p(n); for (int i = 0; i < n; ++i) z += p[i] = pow(w[i] / scale, 1 / T);
  vector<long> cd(n), cp(n);
  for (int i = 0; i < N; ++i) { size_t a = rng.SelectSample(sd, T), b = rng.SelectSample(sp, T); if (a >= (size_t)n || b >= (size_t)n) { vh::Viol("draw:range", "index out of range"); return; } ++cd[a]; ++cp[b]; }
  vh::Count("draws", 2 * N); vh::Distinct("nontrivial", vh::HashStr(vh::Fmt("draw%d %g %g", n, T, w[0])));
  for (int i = 0; i < n; ++i) {
    double q = p[i] / z;
    VCHECK(fabs(cd[i] - N * q) <= Bound(N, q), "draw:double", "entry of probability %g (T=%g) drawn %ld times in %d", q, T, cd[i], N);
    VCHECK(fabs(cp[i] - N * q) <= Bound(N, q), "draw:prob", "entry of probability %g (T=%g) drawn %ld times in %d", q, T, cp[i], N);
  }
  // two-way draws
  double a = exp(r.normal() * 2), b = exp(r.normal() * 2); long c1 = 0, c2 = 0;
  for (int i = 0; i < N; ++i) { c1 += rng.SelectSample(a, b); c2 += rng.SelectSample(prob_t(a), prob_t(b)); }
  double q = b / (a + b);
  VCHECK(fabs(c1 - N * q) <= Bound(N, q) && fabs(c2 - N * q) <= Bound(N, q), "draw:two", "second of two with probability %g drawn %ld and %ld times in %d", q, c1, c2, N);
  // uniform integers and Metropolis-Hastings acceptance
  int lo = r.range(-3, 3), hi = lo + r.range(0, 5); map<int, long> ci;
  auto ir = rng.inclusive(lo, hi); for (int i = 0; i < N; ++i) ++ci[ir()];
  for (auto& x : ci) VCHECK(x.first >= lo && x.first <= hi, "draw:int", "%d outside [%d,%d]", x.first, lo, hi);
  for (int x = lo; x <= hi; ++x) { double u = 1.0 / (hi - lo + 1); VCHECK(fabs(ci[x] - N * u) <= Bound(N, u), "draw:int", "%d drawn %ld times of %d", x, ci[x], N); }
  double pc = exp(r.normal()), pp = exp(r.normal()), qc = exp(r.normal()), qp = exp(r.normal());
  double acc = min(1.0, pc / pp * qp / qc); long ca = 0;
  for (int i = 0; i < N; ++i) ca += rng.AcceptMetropolisHastings(prob_t(pc), prob_t(pp), prob_t(qc), prob_t(qp));
  VCHECK(fabs(ca - N * acc) <= Bound(N, acc), "draw:mh", "accepted %ld of %d at ratio %g", ca, N, acc);
  // means of the continuous draws
  double m = r.real(-3, 3), sdv = exp(r.normal() * 0.7), sum = 0, sq = 0;
  for (int i = 0; i < N; ++i) { double x = rng.NextNormal(m, sdv); sum += x; sq += (x - m) * (x - m); }
  VCHECK(fabs(sum / N - m) <= 8.5 * sdv / sqrt((double)N), "draw:normal", "mean %g for %g", sum / N, m);
  double sh = exp(r.normal() * 0.7), sc = exp(r.normal() * 0.7); sum = 0;
  for (int i = 0; i < N; ++i) { double x = rng.NextGamma(sh, sc); if (x < 0) vh::Viol("draw:gamma", "negative"); sum += x; }
  VCHECK(fabs(sum / N - sh * sc) <= 12 * sqrt(sh / N) * sc + sh * sc * 0.02, "draw:gamma", "mean %g for %g", sum / N, sh * sc);
  double al = exp(r.normal() * 0.7), be = exp(r.normal() * 0.7); sum = 0;
  for (int i = 0; i < N; ++i) { double x = rng.NextBeta(al, be); if (!(x >= 0 && x <= 1)) vh::Viol("draw:beta", "outside [0,1]"); sum += x; }
  VCHECK(fabs(sum / N - al / (al + be)) <= 5.0 / sqrt((double)N), "draw:beta", "mean %g for %g", sum / N, al / (al + be));
}

int main(int argc, char** argv) {
  return vh::Main(argc, argv, [](vh::Rng& r, long c) { if (c % 4 == 3) Draws(r); else Case(r, c); });
}
