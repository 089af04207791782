From 9c6a5b234bf0954aedb1756f0d663e2bed376c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 001/131] fix: Outside() must skip the tail's own position, not
 every tail with the same node

---
 decoder/inside_outside.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/inside_outside.h b/decoder/inside_outside.h
index d5bda63..be769e0 100644
--- a/decoder/inside_outside.h
+++ b/decoder/inside_outside.h
@@ -84,7 +84,7 @@ void Outside(const Hypergraph& hg,
         WeightType inside_contribution = WeightType(1);
         for (int l = 0; l < num_tail_nodes; ++l) {
           const int other_tail_node_index = edge.tail_nodes_[l];
-          if (update_tail_node_index != other_tail_node_index)
+          if (k != l)
             inside_contribution *= inside_score[other_tail_node_index];
         }
         inside_contribution *= head_and_edge_weight;
-- 
2.43.0


From 83580deb46a836cd059c5bd128cb424475a50409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 002/131] fix: Node::copy_reindex must renumber the copied
 node's id

---
 decoder/hg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/hg.h b/decoder/hg.h
index c756012..21debbe 100644
--- a/decoder/hg.h
+++ b/decoder/hg.h
@@ -186,7 +186,7 @@ namespace HG {
     }
     void copy_reindex(Node const& o,indices_after const& n2,indices_after const& e2) {
       copy_fixed(o);
-      id_=n2[id_];
+      id_=n2[o.id_];
       e2.reindex_push_back(o.in_edges_,in_edges_);
       e2.reindex_push_back(o.out_edges_,out_edges_);
     }
-- 
2.43.0


From 88a6285bfe4f58dffbcecea6cac6e637f2550783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:52 +0000
Subject: [PATCH 003/131] fix: initialise Hypergraph::edges_topo_, which
 WriteToBinary stores

---
 decoder/hg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/hg.h b/decoder/hg.h
index 21debbe..e5bf968 100644
--- a/decoder/hg.h
+++ b/decoder/hg.h
@@ -200,7 +200,7 @@ typedef boost::shared_ptr<Hypergraph> HypergraphP;
 //  - edges have 1 head, 0..n tails
 class Hypergraph {
 public:
-  Hypergraph() : is_linear_chain_(false) {}
+  Hypergraph() : is_linear_chain_(false), edges_topo_(true) {}
   typedef HG::Node Node;
   typedef HG::Edge Edge;
   typedef SmallVectorUnsigned TailNodeVector; // indices in nodes_
-- 
2.43.0


From 4317eab2161c57e7a522328d4c7512df557a4b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:23 +0000
Subject: [PATCH 004/131] fix: AsPLF(Lattice) writes the arcs' features instead
 of an unset LatticeCost

---
 decoder/hg_io.cc | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/decoder/hg_io.cc b/decoder/hg_io.cc
index 71f50a2..e7ac0b0 100644
--- a/decoder/hg_io.cc
+++ b/decoder/hg_io.cc
@@ -87,10 +87,18 @@ string HypergraphIO::AsPLF(const Hypergraph& hg, bool include_global_parentheses
   return os.str();
 }
 
-// TODO this should write out the PLF with the Python dictionary format
-// rather than just the single "LatticeCost" feature
-double PLFFeatureDictionary(const SparseVector<double>& f) {
-  return f.get(FD::Convert("LatticeCost"));
+// arcs with features are written in the Python dictionary format, which keeps
+// the name of each feature (see ReadPLFEdge)
+static void WritePLFFeatures(const SparseVector<double>& f, ostream* os) {
+  if (f.empty()) { *os << 0; return; }
+  bool first = true;
+  *os << '{';
+  for (SparseVector<double>::const_iterator it = f.begin(); it != f.end(); ++it) {
+    if (!first) *os << ',';
+    first = false;
+    *os << '\'' << HypergraphIO::Escape(FD::Convert(it->first)) << "':" << it->second;
+  }
+  *os << '}';
 }
 
 string HypergraphIO::AsPLF(const Lattice& lat, bool include_global_parentheses) {
@@ -104,8 +112,9 @@ string HypergraphIO::AsPLF(const Lattice& lat, bool include_global_parentheses)
     const vector<LatticeArc> arcs = lat[i];
     os << '(';
     for (int j = 0; j < arcs.size(); ++j) {
-      os << "('" << Escape(TD::Convert(arcs[j].label)) << "',"
-                 << PLFFeatureDictionary(arcs[j].features) << ',' << arcs[j].dist2next << "),";
+      os << "('" << Escape(TD::Convert(arcs[j].label)) << "',";
+      WritePLFFeatures(arcs[j].features, &os);
+      os << ',' << arcs[j].dist2next << "),";
     }
     os << "),";
   }
-- 
2.43.0


From 50c0f8101e07cd4ced5fbc0a8ccdbbf27e3e1aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 005/131] fix: PruneInsideOutside computes marginals with the
 same scale as the inside-outside scores

---
 decoder/hg.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/hg.cc b/decoder/hg.cc
index 46543b0..9287bd3 100644
--- a/decoder/hg.cc
+++ b/decoder/hg.cc
@@ -350,7 +350,7 @@ bool Hypergraph::PruneInsideOutside(double alpha,double density,const EdgeMask*
   else
     io.compute(*this,norm,ViterbiWeightFunction());  // the storage gets cast to Tropical from prob_t, scary - e.g. w/ specialized static allocator differences it could break.
   vector<prob_t> mm;
-  io.compute_edge_marginals(*this,mm,EdgeProb()); // should be normalized to 1 for best edges in viterbi.  in sum, best is less than 1.
+  io.compute_edge_marginals(*this,mm,ScaledEdgeProb(use_sum_prod_semiring ? scale : 1)); // should be normalized to 1 for best edges in viterbi.  in sum, best is less than 1.
 
   prob_t cutoff=prob_t::One(); // we'll destroy everything smaller than this (note: nothing is bigger than 1).  so bigger cutoff = more pruning.
   bool density_won=false;
-- 
2.43.0


From 9a8256af84253f36807ee601b650e14320492943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 006/131] fix: density pruning must not cut the best derivation
 because of rounding

---
 decoder/hg.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/decoder/hg.cc b/decoder/hg.cc
index 9287bd3..1088bc4 100644
--- a/decoder/hg.cc
+++ b/decoder/hg.cc
@@ -370,6 +370,11 @@ bool Hypergraph::PruneInsideOutside(double alpha,double density,const EdgeMask*
       cutoff=beam_cut;
     }
   }
+  if (!use_sum_prod_semiring) {
+    // edges of the best derivation have a margin of 1 only up to rounding; never cut into them
+    const prob_t almost_one=prob_t::exp(-1e-6);
+    if (cutoff>almost_one) cutoff=almost_one;
+  }
   MarginPrune(mm,cutoff,preserve_mask,safe_inside);
   return density_won;
 }
-- 
2.43.0


From f3e16391621e08426bffc7f1686c811ce953c6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 007/131] fix: intersection of linear chains inverted a shared
 rule only for every other edge

---
 decoder/hg_intersect.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/hg_intersect.cc b/decoder/hg_intersect.cc
index b9381d0..79a2b05 100644
--- a/decoder/hg_intersect.cc
+++ b/decoder/hg_intersect.cc
@@ -75,7 +75,7 @@ static bool FastLinearIntersect(const Lattice& target, Hypergraph* hg) {
         cov.insert(trg_index);
         swap(edge.prev_i_, edge.i_);
         swap(edge.prev_j_, edge.j_);
-        edge.rule_.swap(inv_rule);
+        edge.rule_ = inv_rule;
       }
     }
   }
-- 
2.43.0


From 1ff4bef6a47c5904fa5dc1239fc1c3b6ba8ded3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:18 +0000
Subject: [PATCH 008/131] fix: PushWeightsToSource gave NaN on lattices whose
 start node has no incoming edge

---
 decoder/hg.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/decoder/hg.cc b/decoder/hg.cc
index 1088bc4..2b077a2 100644
--- a/decoder/hg.cc
+++ b/decoder/hg.cc
@@ -186,7 +186,19 @@ prob_t Hypergraph::ComputeBestPathThroughEdges(vector<prob_t>* post) const {
 
 void Hypergraph::PushWeightsToSource(double scale) {
   vector<prob_t> posts;
+  // the start node of a lattice read from PLF has no incoming edge, which
+  // would give every path an inside score of 0
+  const bool add_axiom = !nodes_.empty() && nodes_[0].in_edges_.empty();
+  if (add_axiom) {
+    Edge* axiom = AddEdge(TRulePtr(), TailNodeVector());
+    axiom->edge_prob_ = prob_t::One();
+    ConnectEdgeToHeadNode(axiom, &nodes_[0]);
+  }
   ComputeEdgePosteriors(scale, &posts);
+  if (add_axiom) {
+    nodes_[0].in_edges_.clear();
+    edges_.pop_back();
+  }
   for (unsigned i = 0; i < nodes_.size(); ++i) {
     const Hypergraph::Node& node = nodes_[i];
     prob_t z = prob_t::Zero();
-- 
2.43.0


From ab750d8b13a7fa03cafbe089b749a27a1fd7782d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:18 +0000
Subject: [PATCH 009/131] fix: Hypergraph::Union must copy node categories,
 hashes, spans and edge weights

---
 decoder/hg.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/hg.cc b/decoder/hg.cc
index 2b077a2..9eb94c8 100644
--- a/decoder/hg.cc
+++ b/decoder/hg.cc
@@ -441,6 +441,7 @@ void Hypergraph::Union(const Hypergraph& other) {
   for (int i = 0; i < ogoal; ++i) {
     const Node& on = other.nodes_[i];
     Node& cn = nodes_[i + noff];
+    cn.copy_fixed(on);
     cn.id_ = i + noff;
     cn.in_edges_.resize(on.in_edges_.size());
     for (unsigned j = 0; j < on.in_edges_.size(); ++j)
@@ -454,9 +455,8 @@ void Hypergraph::Union(const Hypergraph& other) {
   for (unsigned i = 0; i < other.edges_.size(); ++i) {
     const Edge& oe = other.edges_[i];
     Edge& ce = edges_[i + eoff];
+    ce.copy_fixed(oe);
     ce.id_ = i + eoff;
-    ce.rule_ = oe.rule_;
-    ce.feature_values_ = oe.feature_values_;
     if (oe.head_node_ == ogoal) {
       ce.head_node_ = cgoal;
       nodes_[cgoal].in_edges_.push_back(ce.id_);
-- 
2.43.0


From 5cc6f214a6e364e03c14b19d4cd5e47aea4a90a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:35 +0000
Subject: [PATCH 010/131] fix: sampled hypotheses take their words from the
 sampled derivation

---
 decoder/hg_sampler.cc | 46 +++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/decoder/hg_sampler.cc b/decoder/hg_sampler.cc
index 8e52087..9ea2a92 100644
--- a/decoder/hg_sampler.cc
+++ b/decoder/hg_sampler.cc
@@ -7,15 +7,31 @@
 
 using namespace std;
 
-struct SampledDerivationWeightFunction {
-  typedef double Weight;
-  explicit SampledDerivationWeightFunction(const vector<bool>& sampled) : sampled_edges(sampled) {}
-  double operator()(const Hypergraph::Edge& e) const {
-    return static_cast<double>(sampled_edges[e.id_]);
-  }
-  const vector<bool>& sampled_edges;
+// The derivation that was sampled, one entry per node visited (a node may be
+// visited more than once, each time with a different edge).
+struct SampledItem {
+  SampledItem(unsigned e, unsigned c) : edge(e), first_child(c) {}
+  unsigned edge;
+  unsigned first_child;  // entries of the tails follow each other
 };
 
+template <typename Traversal>
+static void TraverseSample(const Hypergraph& hg,
+                           const vector<SampledItem>& items,
+                           const Traversal& traverse,
+                           typename Traversal::Result* result) {
+  typedef typename Traversal::Result T;
+  vector<T> results(items.size());
+  for (int i = items.size() - 1; i >= 0; --i) {  // children follow their parents
+    const Hypergraph::Edge& edge = hg.edges_[items[i].edge];
+    vector<const T*> ants(edge.tail_nodes_.size());
+    for (unsigned j = 0; j < ants.size(); ++j)
+      ants[j] = &results[items[i].first_child + j];
+    traverse(edge, ants, &results[i]);
+  }
+  swap(*result, results.front());
+}
+
 void HypergraphSampler::sample_hypotheses(const Hypergraph& hg,
                                           unsigned n,
                                           MT19937* rng,
@@ -27,11 +43,11 @@ void HypergraphSampler::sample_hypotheses(const Hypergraph& hg,
   vector<prob_t> node_probs;
   Inside<prob_t, EdgeProb>(hg, &node_probs, EdgeProb());
 
-  vector<bool> sampled_edges(hg.edges_.size());
+  vector<SampledItem> items;
   queue<unsigned> q;
   SampleSet<prob_t> ss;
   for (unsigned i = 0; i < n; ++i) {
-    fill(sampled_edges.begin(), sampled_edges.end(), false);
+    items.clear();
     // sample derivation top down
     assert(q.empty());
     Hypothesis& hyp = (*hypos)[i];
@@ -59,8 +75,8 @@ void HypergraphSampler::sample_hypotheses(const Hypergraph& hg,
         }
         sampled_edge_idx = node.in_edges_[rng->SelectSample(ss)];
       }
-      sampled_edges[sampled_edge_idx] = true;
       const Hypergraph::Edge& sampled_edge = hg.edges_[sampled_edge_idx];
+      items.push_back(SampledItem(sampled_edge_idx, items.size() + q.size() + 1));
       deriv_features += sampled_edge.feature_values_;
       model_score *= sampled_edge.edge_prob_;
       //sampled_deriv->push_back(sampled_edge_idx);
@@ -68,7 +84,7 @@ void HypergraphSampler::sample_hypotheses(const Hypergraph& hg,
         q.push(sampled_edge.tail_nodes_[j]);
       }
     }
-    Viterbi(hg, &hyp.words, ESentenceTraversal(), SampledDerivationWeightFunction(sampled_edges));
+    TraverseSample(hg, items, ESentenceTraversal(), &hyp.words);
   }
 }
 
@@ -83,11 +99,11 @@ void HypergraphSampler::sample_trees(const Hypergraph& hg,
   vector<prob_t> node_probs;
   Inside<prob_t, EdgeProb>(hg, &node_probs, EdgeProb());
 
-  vector<bool> sampled_edges(hg.edges_.size());
+  vector<SampledItem> items;
   queue<unsigned> q;
   SampleSet<prob_t> ss;
   for (unsigned i = 0; i < n; ++i) {
-    fill(sampled_edges.begin(), sampled_edges.end(), false);
+    items.clear();
     // sample derivation top down
     assert(q.empty());
     q.push(hg.nodes_.size() - 1);
@@ -112,8 +128,8 @@ void HypergraphSampler::sample_trees(const Hypergraph& hg,
         }
         sampled_edge_idx = node.in_edges_[rng->SelectSample(ss)];
       }
-      sampled_edges[sampled_edge_idx] = true;
       const Hypergraph::Edge& sampled_edge = hg.edges_[sampled_edge_idx];
+      items.push_back(SampledItem(sampled_edge_idx, items.size() + q.size() + 1));
       model_score *= sampled_edge.edge_prob_;
       //sampled_deriv->push_back(sampled_edge_idx);
       for (unsigned j = 0; j < sampled_edge.tail_nodes_.size(); ++j) {
@@ -121,7 +137,7 @@ void HypergraphSampler::sample_trees(const Hypergraph& hg,
       }
     }
     vector<WordID> tmp;
-    Viterbi(hg, &tmp, ETreeTraversal(), SampledDerivationWeightFunction(sampled_edges));
+    TraverseSample(hg, items, ETreeTraversal(), &tmp);
     (*trees)[i] = TD::GetString(tmp);
   }
 }
-- 
2.43.0


From cad19c9f2d022ccff4a52d9a9b0f35a38e989f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:56 +0000
Subject: [PATCH 011/131] fix: the span limit must not block lattice arcs that
 end in a span within the limit

---
 decoder/bottom_up_parser.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/decoder/bottom_up_parser.cc b/decoder/bottom_up_parser.cc
index 7ce8e09..f45785e 100644
--- a/decoder/bottom_up_parser.cc
+++ b/decoder/bottom_up_parser.cc
@@ -124,10 +124,13 @@ class ActiveChart {
     }
   }
 
-  void AdvanceDotsForAllItemsInCell(int i, int j, const vector<vector<LatticeArc> >& input) {
+  void AdvanceDotsForAllItemsInCell(int i, int j, const Grammar& g, const Lattice& input) {
     //cerr << "ADVANCE(" << i << "," << j << ")\n";
-    for (int k=i+1; k < j; ++k)
-      ExtendActiveItems(i, k, j);
+    const bool in_limit = g.HasRuleForSpan(i, j, input.Distance(i, j));
+    if (in_limit) {
+      for (int k=i+1; k < j; ++k)
+        ExtendActiveItems(i, k, j);
+    }
 
     const vector<LatticeArc>& out_arcs = input[j-1];
     for (vector<LatticeArc>::const_iterator ai = out_arcs.begin();
@@ -135,6 +138,9 @@ class ActiveChart {
       const WordID& f = ai->label;
       const SparseVector<double>& c = ai->features;
       const int& len = ai->dist2next;
+      // an arc that skips nodes may lead to a span within the limit even if (i,j) is not
+      if (!in_limit && (len == 1 || !g.HasRuleForSpan(i, j + len - 1, input.Distance(i, j + len - 1))))
+        continue;
       //cerr << "F: " << TD::Convert(f) << "  dest=" << i << "," << (j+len-1) << endl;
       const vector<ActiveItem>& ec = act_chart_(i, j-1);
       //cerr << "    SRC=" << i << "," << (j-1) << " [ec=" << ec.size() << "]" << endl;
@@ -302,9 +308,8 @@ bool PassiveChart::Parse() {
       unsigned j = i + l;
       for (unsigned gi = 0; gi < grammars_.size(); ++gi) {
         const Grammar& g = *grammars_[gi];
+        act_chart_[gi]->AdvanceDotsForAllItemsInCell(i, j, g, input_);
         if (g.HasRuleForSpan(i, j, input_.Distance(i, j))) {
-          act_chart_[gi]->AdvanceDotsForAllItemsInCell(i, j, input_);
-
           const vector<ActiveChart::ActiveItem>& cell = (*act_chart_[gi])(i,j);
           for (vector<ActiveChart::ActiveItem>::const_iterator ai = cell.begin();
                ai != cell.end(); ++ai) {
-- 
2.43.0


From c25329211da1022634bf9fe6af9c92949a6f11dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:06 +0000
Subject: [PATCH 012/131] fix: pass-through rules for words in square brackets

---
 decoder/scfg_translator.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/decoder/scfg_translator.cc b/decoder/scfg_translator.cc
index 9831a3c..b77fbf0 100644
--- a/decoder/scfg_translator.cc
+++ b/decoder/scfg_translator.cc
@@ -11,6 +11,7 @@
 #include "bottom_up_parser.h"
 #include "sentence_metadata.h"
 #include "stringlib.h"
+#include "fdict.h"
 #include "tdict.h"
 #include "viterbi.h"
 #include "verbose.h"
@@ -57,6 +58,13 @@ bool GlueGrammar::HasRuleForSpan(int i, int /* j */, int /* distance */) const {
   return (i == 0);
 }
 
+// not written as text and parsed: the word may look like a nonterminal, e.g. [laughter]
+static TRulePtr MakePassThroughRule(const string& cat, const WordID& word) {
+  TRulePtr rule(new TRule(TD::Convert(cat) * -1, &word, 1, &word, 1, 0, -1, -1));
+  rule->scores_.set_value(FD::Convert("PassThrough"), 1);
+  return rule;
+}
+
 PassThroughGrammar::PassThroughGrammar(const Lattice& input, const string& cat, const unsigned int ctf_level, const unsigned num_pt_features) {
   unordered_set<WordID> ss;
   for (int i = 0; i < input.size(); ++i) {
@@ -68,14 +76,15 @@ PassThroughGrammar::PassThroughGrammar(const Lattice& input, const string& cat,
         if (num_pt_features > 0) {
           int length = static_cast<int>(log(UTF8StringLen(src)) / log(1.6)) + 1;
           if (length > num_pt_features) length = num_pt_features;
-          string len_feat = "PassThrough_0=1";
+          string len_feat = "PassThrough_0";
           len_feat[12] += length;
-          TRulePtr pt(new TRule("[" + cat + "] ||| " + src + " ||| " + src + " ||| PassThrough=1 " + len_feat));
+          TRulePtr pt = MakePassThroughRule(cat, alts[k].label);
+          pt->scores_.set_value(FD::Convert(len_feat), 1);
           pt->a_.push_back(AlignmentPoint(0,0));
           AddRule(pt);
           RefineRule(pt, ctf_level);
         } else {
-          TRulePtr pt(new TRule("[" + cat + "] ||| " + src + " ||| " + src + " ||| PassThrough=1 "));
+          TRulePtr pt = MakePassThroughRule(cat, alts[k].label);
           pt->a_.push_back(AlignmentPoint(0,0));
           AddRule(pt);
           RefineRule(pt, ctf_level);
-- 
2.43.0


From e3e692bd1366f3f533f0901919e3811cfe1695dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:39 +0000
Subject: [PATCH 013/131] fix: a grammar's last line is read even without a
 newline at the end

---
 decoder/rule_lexer.ll | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/decoder/rule_lexer.ll b/decoder/rule_lexer.ll
index 8b48ab7..3f3344c 100644
--- a/decoder/rule_lexer.ll
+++ b/decoder/rule_lexer.ll
@@ -22,8 +22,17 @@ void* rule_callback_extra = NULL;
 std::vector<int> scfglex_phrase_fnames;
 std::string scfglex_fname;
 
+// reads from the grammar, ends the last line even if the grammar does not
+bool scfglex_at_line_start = true;
+static int scfglex_read(char* buf, int max_size) {
+  int n = scfglex_stream->read(buf, max_size).gcount();
+  if (n == 0 && !scfglex_at_line_start) buf[n++] = '\n';
+  if (n > 0) scfglex_at_line_start = (buf[n - 1] == '\n');
+  return n;
+}
+
 #undef YY_INPUT
-#define YY_INPUT(buf, result, max_size) (result = scfglex_stream->read(buf, max_size).gcount())
+#define YY_INPUT(buf, result, max_size) (result = scfglex_read(buf, max_size))
 
 #define YY_SKIP_YYWRAP 1
 int num_rules = 0;
@@ -349,6 +358,7 @@ void RuleLexer::ReadRules(std::istream* in, RuleLexer::RuleCallback func, const
   lex_line = 1;
   scfglex_fname = fname;
   scfglex_stream = in;
+  scfglex_at_line_start = true;
   rule_callback_extra = extra,
   rule_callback = func;
   yylex();
-- 
2.43.0


From ba1ef15ebbac1aa7561e5ef2c89dea1a8dd7c455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:09 +0000
Subject: [PATCH 014/131] fix: blank lines in a grammar must not be echoed to
 standard output

---
 decoder/rule_lexer.ll | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/decoder/rule_lexer.ll b/decoder/rule_lexer.ll
index 3f3344c..dc9b4e7 100644
--- a/decoder/rule_lexer.ll
+++ b/decoder/rule_lexer.ll
@@ -139,6 +139,12 @@ NT ([^\t \n\r\[\],]+|Goal)
   ctf_level++;
   };
 
+<INITIAL>\n	{
+		// blank line
+		ctf_level = 0;
+		lex_line++;
+		}
+
 <INITIAL>\[{NT}\]   {
 		scfglex_tmp_token.assign(yytext + 1, yyleng - 2);
 		scfglex_lhs = -TD::Convert(scfglex_tmp_token);
-- 
2.43.0


From 1d3272616f135230ef1e6c772d9c1b931553a4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:54 +0000
Subject: [PATCH 015/131] fix: long grammar rules must not overrun the rule
 lexer's buffers

---
 decoder/rule_lexer.ll | 48 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/decoder/rule_lexer.ll b/decoder/rule_lexer.ll
index dc9b4e7..685ee65 100644
--- a/decoder/rule_lexer.ll
+++ b/decoder/rule_lexer.ll
@@ -8,6 +8,8 @@
 #include <cstring>
 #include <cassert>
 #include <stack>
+#include <vector>
+#include <algorithm>
 #include "tdict.h"
 #include "fdict.h"
 #include "trule.h"
@@ -31,9 +33,11 @@ static int scfglex_read(char* buf, int max_size) {
   return n;
 }
 
+void make_room();
 #undef YY_INPUT
 #define YY_INPUT(buf, result, max_size) (result = scfglex_read(buf, max_size))
 
+#define YY_USER_ACTION make_room();
 #define YY_SKIP_YYWRAP 1
 int num_rules = 0;
 int yywrap() { return 1; }
@@ -42,8 +46,8 @@ bool fl = true;
 std::string scfglex_tmp_token(MAX_TOKEN_SIZE, '\0');
 
 #define MAX_RULE_SIZE 200
-WordID scfglex_src_rhs[MAX_RULE_SIZE];
-WordID scfglex_trg_rhs[MAX_RULE_SIZE];
+std::vector<WordID> scfglex_src_rhs(MAX_RULE_SIZE);
+std::vector<WordID> scfglex_trg_rhs(MAX_RULE_SIZE);
 int scfglex_src_rhs_size;
 int scfglex_trg_rhs_size;
 WordID scfglex_lhs;
@@ -51,13 +55,13 @@ int scfglex_src_arity;
 int scfglex_trg_arity;
 
 #define MAX_FEATS 10000
-int scfglex_feat_ids[MAX_FEATS];
-double scfglex_feat_vals[MAX_FEATS];
+std::vector<int> scfglex_feat_ids(MAX_FEATS);
+std::vector<double> scfglex_feat_vals(MAX_FEATS);
 int scfglex_num_feats;
 
 #define MAX_ARITY 1000
-int scfglex_nt_sanity[MAX_ARITY];
-int scfglex_src_nts[MAX_ARITY];
+std::vector<int> scfglex_nt_sanity(MAX_ARITY);
+std::vector<int> scfglex_src_nts(MAX_ARITY);
 // float scfglex_nt_size_means[MAX_ARITY];
 // float scfglex_nt_size_vars[MAX_ARITY];
 std::stack<TRulePtr> ctf_rule_stack;
@@ -65,9 +69,33 @@ unsigned int ctf_level = 0;
 boost::shared_ptr<cdec::TreeFragment> scfglex_tree;
 
 #define MAX_ALS 2000
-AlignmentPoint scfglex_als[MAX_ALS];
+std::vector<AlignmentPoint> scfglex_als(MAX_ALS);
 int scfglex_num_als;
 
+// long rules need more room than most
+template <class T> void make_room(std::vector<T>* v, int n) {
+  if (n >= static_cast<int>(v->size())) v->resize(n * 2);
+}
+
+void make_room() {
+  make_room(&scfglex_src_rhs, scfglex_src_rhs_size);
+  make_room(&scfglex_trg_rhs, std::max(scfglex_trg_rhs_size, scfglex_src_rhs_size));
+  make_room(&scfglex_src_nts, scfglex_src_arity);
+  make_room(&scfglex_nt_sanity, scfglex_src_arity);
+  make_room(&scfglex_feat_ids, scfglex_num_feats);
+  make_room(&scfglex_feat_vals, scfglex_num_feats);
+  make_room(&scfglex_als, scfglex_num_als);
+}
+
+int dense_feature_id(int i) {
+  while (static_cast<int>(scfglex_phrase_fnames.size()) <= i) {
+    std::ostringstream os;
+    os << "PhraseModel_" << scfglex_phrase_fnames.size();
+    scfglex_phrase_fnames.push_back(FD::Convert(os.str()));
+  }
+  return scfglex_phrase_fnames[i];
+}
+
 void sanity_check_trg_symbol(WordID nt, int index) {
   if (scfglex_src_nts[index-1] != nt) {
     std::cerr << "Target symbol with index " << index << " is of type " << TD::Convert(nt*-1)
@@ -214,7 +242,7 @@ NT ([^\t \n\r\[\],]+|Goal)
 		}
 
 <SRC>\|\|\|	{
-		memset(scfglex_nt_sanity, 0, scfglex_src_arity * sizeof(int));
+		memset(scfglex_nt_sanity.data(), 0, scfglex_src_arity * sizeof(int));
 		if (lex_mono_rules) { BEGIN(FEATS); } else { BEGIN(TRG); }
 		}
 <SRC>[^ \t\n\r]+	{
@@ -261,7 +289,7 @@ NT ([^\t \n\r\[\],]+|Goal)
                 }
 		// const bool ignore_grammar_features = false;
 		// if (ignore_grammar_features) scfglex_num_feats = 0;
-		TRulePtr rp(new TRule(scfglex_lhs, scfglex_src_rhs, scfglex_src_rhs_size, scfglex_trg_rhs, scfglex_trg_rhs_size, scfglex_feat_ids, scfglex_feat_vals, scfglex_num_feats, scfglex_src_arity, scfglex_als, scfglex_num_als));
+		TRulePtr rp(new TRule(scfglex_lhs, scfglex_src_rhs.data(), scfglex_src_rhs_size, scfglex_trg_rhs.data(), scfglex_trg_rhs_size, scfglex_feat_ids.data(), scfglex_feat_vals.data(), scfglex_num_feats, scfglex_src_arity, scfglex_als.data(), scfglex_num_als));
 		if (scfglex_tree) {
 		  if (scfglex_tree->frontier_sites != rp->Arity()) {
 		    std::cerr << "Arity mismatch with tree annotation: " << *scfglex_tree << std::endl;
@@ -311,7 +339,7 @@ NT ([^\t \n\r\[\],]+|Goal)
 		abort();
 		}
 <FEATS>{REAL} 	{
-		scfglex_feat_ids[scfglex_num_feats] = scfglex_phrase_fnames[scfglex_num_feats];
+		scfglex_feat_ids[scfglex_num_feats] = dense_feature_id(scfglex_num_feats);
 		scfglex_feat_vals[scfglex_num_feats] = strtod(yytext, NULL);
 		++scfglex_num_feats;
 		}
-- 
2.43.0


From e65ce43fcfc7e904d51d25af47bd397f4cd6e6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:12 +0000
Subject: [PATCH 016/131] fix: rules with more than 64 symbols a side can be
 stored

---
 decoder/trule.h | 49 +++++++++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/decoder/trule.h b/decoder/trule.h
index dda85ce..efadebd 100644
--- a/decoder/trule.h
+++ b/decoder/trule.h
@@ -166,29 +166,38 @@ class TRule {
   boost::shared_ptr<cdec::TreeFragment> tree_structure;
 
   friend class boost::serialization::access;
+  // the positions of nonterminals, one bit per symbol, in as many words as it takes
+  enum { kMASK_BITS = sizeof(size_t) * 8 };
+  template<class Archive>
+  static void SaveNTMask(Archive & ar, const std::vector<WordID>& syms) {
+    unsigned i = 0;
+    do {
+      size_t mask = 0;
+      for (unsigned b = 0; b < kMASK_BITS && i < syms.size(); ++b, ++i)
+        if (syms[i] <= 0) mask |= static_cast<size_t>(1) << b;
+      ar & mask;
+    } while (i < syms.size());
+  }
+  template<class Archive>
+  static void LoadNTMask(Archive & ar, std::vector<bool>* nt) {
+    unsigned i = 0;
+    do {
+      size_t mask; ar & mask;
+      for (unsigned b = 0; b < kMASK_BITS && i < nt->size(); ++b, ++i)
+        (*nt)[i] = (mask >> b) & 1;
+    } while (i < nt->size());
+  }
   template<class Archive>
   void save(Archive & ar, const unsigned int /*version*/) const {
     ar & TD::Convert(-lhs_);
     unsigned f_size = f_.size();
     ar & f_size;
-    assert(f_size <= (sizeof(size_t) * 8));
-    size_t f_nt_mask = 0;
-    for (int i = f_.size() - 1; i >= 0; --i) {
-      f_nt_mask <<= 1;
-      f_nt_mask |= (f_[i] <= 0 ? 1 : 0);
-    }
-    ar & f_nt_mask;
+    SaveNTMask(ar, f_);
     for (unsigned i = 0; i < f_.size(); ++i)
       ar & TD::Convert(f_[i] < 0 ? -f_[i] : f_[i]);
     unsigned e_size = e_.size();
     ar & e_size;
-    size_t e_nt_mask = 0;
-    assert(e_size <= (sizeof(size_t) * 8));
-    for (int i = e_.size() - 1; i >= 0; --i) {
-      e_nt_mask <<= 1;
-      e_nt_mask |= (e_[i] <= 0 ? 1 : 0);
-    }
-    ar & e_nt_mask;
+    SaveNTMask(ar, e_);
     for (unsigned i = 0; i < e_.size(); ++i)
       if (e_[i] <= 0) ar & e_[i]; else ar & TD::Convert(e_[i]);
     ar & arity_;
@@ -199,26 +208,26 @@ class TRule {
     std::string lhs; ar & lhs; lhs_ = -TD::Convert(lhs);
     unsigned f_size; ar & f_size;
     f_.resize(f_size);
-    size_t f_nt_mask; ar & f_nt_mask;
+    std::vector<bool> f_nt(f_size);
+    LoadNTMask(ar, &f_nt);
     std::string sym;
     for (unsigned i = 0; i < f_size; ++i) {
-      bool mask = (f_nt_mask & 1);
+      bool mask = f_nt[i];
       ar & sym;
       f_[i] = TD::Convert(sym) * (mask ? -1 : 1);
-      f_nt_mask >>= 1;
     }
     unsigned e_size; ar & e_size;
     e_.resize(e_size);
-    size_t e_nt_mask; ar & e_nt_mask;
+    std::vector<bool> e_nt(e_size);
+    LoadNTMask(ar, &e_nt);
     for (unsigned i = 0; i < e_size; ++i) {
-      bool mask = (e_nt_mask & 1);
+      bool mask = e_nt[i];
       if (mask) {
         ar & e_[i];
       } else {
         ar & sym;
         e_[i] = TD::Convert(sym);
       }
-      e_nt_mask >>= 1;
     }
     ar & arity_;
     ar & scores_;
-- 
2.43.0


From 25760ff80b8cb7c1e00d2f5d37bfe66b35ed10c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:15 +0000
Subject: [PATCH 017/131] fix: initialise a tree fragment's site and terminal
 counts

---
 decoder/tree_fragment.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/tree_fragment.cc b/decoder/tree_fragment.cc
index ff406ad..fefa474 100644
--- a/decoder/tree_fragment.cc
+++ b/decoder/tree_fragment.cc
@@ -8,7 +8,7 @@ using namespace std;
 
 namespace cdec {
 
-TreeFragment::TreeFragment(const StringPiece& tree, bool allow_frontier_sites) {
+TreeFragment::TreeFragment(const StringPiece& tree, bool allow_frontier_sites) : frontier_sites(), terminals() {
   int bal = 0;
   const unsigned len = tree.size();
   unsigned cur = 0;
-- 
2.43.0


From 85484cc42fe6a15204a8d33140e3304d8daddb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:30 +0000
Subject: [PATCH 018/131] fix: a printed rule keeps its alignments when it has
 no features

---
 decoder/trule.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/trule.cc b/decoder/trule.cc
index bee211d..721a216 100644
--- a/decoder/trule.cc
+++ b/decoder/trule.cc
@@ -97,7 +97,7 @@ string TRule::AsString(bool verbose) const {
     else
       os << TD::Convert(w);
   }
-  if (!scores_.empty() && verbose) {
+  if ((!scores_.empty() || !a_.empty()) && verbose) {
     os << " ||| " << scores_;
     if (!a_.empty()) {
       os << " |||";
-- 
2.43.0


From 1b7a3f1d744bc5ac8fa8e3096a6bb220b98d86a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:01 +0000
Subject: [PATCH 019/131] fix: a feature name cannot extend over the end of a
 grammar line

---
 decoder/rule_lexer.ll | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/rule_lexer.ll b/decoder/rule_lexer.ll
index 685ee65..5215ed7 100644
--- a/decoder/rule_lexer.ll
+++ b/decoder/rule_lexer.ll
@@ -313,7 +313,7 @@ NT ([^\t \n\r\[\],]+|Goal)
 		}
 
 <FEATS>[ \t;]	{ ; }
-<FEATS>[^ \t=;]+=	{
+<FEATS>[^ \t\n=;]+=	{
 		scfglex_tmp_token.assign(yytext, yyleng - 1);
 		const int fid = FD::Convert(scfglex_tmp_token);
 		if (fid < 1) {
-- 
2.43.0


From 4583875d591c668d40cb8c3a6d989bcf76262a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:06 +0000
Subject: [PATCH 020/131] fix: erasing an absent key from a small sparse vector
 removed another entry

---
 utils/fast_sparse_vector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/fast_sparse_vector.h b/utils/fast_sparse_vector.h
index 0697fc4..16cbda6 100644
--- a/utils/fast_sparse_vector.h
+++ b/utils/fast_sparse_vector.h
@@ -204,9 +204,10 @@ class FastSparseVector {
             data_.local[j-1].first() = data_.local[j].first();
             data_.local[j-1].second() = data_.local[j].second();
           }
+          --local_size_;
+          return;
         }
       }
-      --local_size_;
     }
   }
   const FastSparseVector<T>& operator=(const FastSparseVector<T>& other) {
-- 
2.43.0


From deb156ffef3331e87b4585c64d83c6a244829647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:06 +0000
Subject: [PATCH 021/131] fix: SmallVector::push_back of one of the vector's
 own elements

---
 utils/small_vector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/small_vector.h b/utils/small_vector.h
index f16bc89..2e0da4c 100644
--- a/utils/small_vector.h
+++ b/utils/small_vector.h
@@ -179,7 +179,8 @@ private:
 
 public:
 
-  inline void push_back(T const& v) {
+  inline void push_back(T const& value) {
+    const T v = value;  // value may be one of our own elements, which move
     if (size_ < SV_MAX) {
       data_.vals[size_] = v;
       ++size_;
-- 
2.43.0


From f037fd13114bf55c1a7ef13282f48920dc29bb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:06 +0000
Subject: [PATCH 022/131] fix: Array2D's assignment operators return a value,
 and -= subtracts its operand

---
 utils/array2d.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/array2d.h b/utils/array2d.h
index 1a8e415..4969f3c 100644
--- a/utils/array2d.h
+++ b/utils/array2d.h
@@ -58,16 +58,20 @@ class Array2D {
   const Array2D<T>& operator*=(const T& x) {
     std::transform(data_.begin(), data_.end(), data_.begin(),
         std::bind2nd(std::multiplies<T>(), x));
+    return *this;
   }
   const Array2D<T>& operator/=(const T& x) {
     std::transform(data_.begin(), data_.end(), data_.begin(),
         std::bind2nd(std::divides<T>(), x));
+    return *this;
   }
   const Array2D<T>& operator+=(const Array2D<T>& m) {
     std::transform(m.data_.begin(), m.data_.end(), data_.begin(), data_.begin(), std::plus<T>());
+    return *this;
   }
   const Array2D<T>& operator-=(const Array2D<T>& m) {
-    std::transform(m.data_.begin(), m.data_.end(), data_.begin(), data_.begin(), std::minus<T>());
+    std::transform(data_.begin(), data_.end(), m.data_.begin(), data_.begin(), std::minus<T>());
+    return *this;
   }
 
  private:
-- 
2.43.0


From 700f47eb8267668eb44b0ee1e94200862765094a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:06 +0000
Subject: [PATCH 023/131] fix: ValueArray's arithmetic ran over the end of the
 array

---
 utils/value_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/value_array.h b/utils/value_array.h
index e59349b..e16ba64 100644
--- a/utils/value_array.h
+++ b/utils/value_array.h
@@ -222,7 +222,7 @@ public:
   }
 
 #undef VALUE_ARRAY_OPEQ
-#define VALUE_ARRAY_OPEQ(op) template <class T2,class A2> Self & operator op (ValueArray<T2,A2> const& o) { assert(sz==o.sz); for (int i=0,e=sz;i<=e;++i) array[i] op o.array[i]; return *this; }
+#define VALUE_ARRAY_OPEQ(op) template <class T2,class A2> Self & operator op (ValueArray<T2,A2> const& o) { assert(sz==o.sz); for (int i=0,e=sz;i<e;++i) array[i] op o.array[i]; return *this; }
 #if VALUE_ARRAY_ADD
   VALUE_ARRAY_OPEQ(+=)
   VALUE_ARRAY_OPEQ(-=)
-- 
2.43.0


From d4907ee2c799ee788649dc237617463287aef850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:06 +0000
Subject: [PATCH 024/131] fix: comparisons of negative log values and of the
 two signs of zero

---
 utils/logval.h | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/utils/logval.h b/utils/logval.h
index 0c9ee98..9bd1a26 100644
--- a/utils/logval.h
+++ b/utils/logval.h
@@ -46,7 +46,7 @@ class LogVal {
 
   std::size_t hash_impl() const {
     using namespace boost;
-    return hash_value(v_)+s_;
+    return hash_value(v_)+(s_ && !is_0());
   }
 
   // just like std::signbit, negative means true.  weird, i know
@@ -118,10 +118,10 @@ class LogVal {
 
   //remember, s_ means negative.
   inline bool lt(Self const& o) const {
-    return s_==o.s_ ? v_ < o.v_ : s_ > o.s_;
+    return s_==o.s_ ? (s_ ? o.v_ < v_ : v_ < o.v_) : s_ > o.s_ && !(is_0() && o.is_0());
   }
   inline bool gt(Self const& o) const {
-    return s_==o.s_ ? o.v_ < v_ : s_ < o.s_;
+    return o.lt(*this);
   }
 
   Self operator-() const {
@@ -208,7 +208,7 @@ LogVal<T> pow(const LogVal<T>& b, const T& e) {
 
 template <class T>
 bool operator==(const LogVal<T>& lhs, const LogVal<T>& rhs) {
-  return (lhs.v_ == rhs.v_) && (lhs.s_ == rhs.s_);
+  return (lhs.v_ == rhs.v_) && (lhs.s_ == rhs.s_ || lhs.is_0());
 }
 
 template <class T>
@@ -218,11 +218,7 @@ bool operator!=(const LogVal<T>& lhs, const LogVal<T>& rhs) {
 
 template <class T>
 bool operator<(const LogVal<T>& lhs, const LogVal<T>& rhs) {
-  if (lhs.s_ == rhs.s_) {
-    return (lhs.v_ < rhs.v_);
-  } else {
-    return lhs.s_ > rhs.s_;
-  }
+  return lhs.lt(rhs);
 }
 
 template <class T>
-- 
2.43.0


From ec620739cd525a97153dbac3ebd6f0ccab4d9fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:06 +0000
Subject: [PATCH 025/131] fix: base64 encoding lost half of the last byte when
 two bytes are left over

---
 utils/b64tools.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/b64tools.cc b/utils/b64tools.cc
index 78c1cb4..bc5074a 100644
--- a/utils/b64tools.cc
+++ b/utils/b64tools.cc
@@ -13,7 +13,7 @@ static void encodeblock(const unsigned char* in, ostream* os, int len) {
   // cerr << len << endl;
   out[0] = cb64[ in[0] >> 2 ];
   out[1] = cb64[ ((in[0] & 0x03) << 4) | (len > 1 ? ((in[1] & 0xf0) >> 4) : static_cast<unsigned char>(0))];
-  out[2] = (len > 2 ? cb64[ ((in[1] & 0x0f) << 2) | ((in[2] & 0xc0) >> 6) ] : '=');
+  out[2] = (len > 1 ? cb64[ ((in[1] & 0x0f) << 2) | (len > 2 ? ((in[2] & 0xc0) >> 6) : 0) ] : '=');
   out[3] = (len > 2 ? cb64[ in[2] & 0x3f ] : '=');
   os->write(out, 4);
 }
-- 
2.43.0


From ab1f8e96f49b59f9f6181050a57b1371859fdd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:06 +0000
Subject: [PATCH 026/131] fix: weights files shorter than five bytes can be
 read

---
 utils/weights.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/utils/weights.cc b/utils/weights.cc
index 7d5d96d..8f993b9 100644
--- a/utils/weights.cc
+++ b/utils/weights.cc
@@ -25,8 +25,7 @@ void Weights::InitFromFile(const string& filename,
     assert(hi);
     char buf[10];
     hi.read(buf, 5);
-    assert(hi.good());
-    if (strncmp(buf, "_PHWf", 5) == 0) {
+    if (hi.gcount() == 5 && strncmp(buf, "_PHWf", 5) == 0) {
       read_text = false;
     }
   }
-- 
2.43.0


From a3cef98510e31a67c0be599f40e6b94e198bf766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:06 +0000
Subject: [PATCH 027/131] fix: the key count of a binary weights file overran
 its variable

---
 utils/weights.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/weights.cc b/utils/weights.cc
index 8f993b9..5f6d06d 100644
--- a/utils/weights.cc
+++ b/utils/weights.cc
@@ -73,7 +73,7 @@ void Weights::InitFromFile(const string& filename,
   } else {   // !read_text
     char buf[6];
     in.read(buf, 5);
-    int num_keys;
+    size_t num_keys = 0;
     in.read(reinterpret_cast<char*>(&num_keys), sizeof(size_t));
     if (num_keys != FD::NumFeats()) {
       cerr << "Hash function reports " << FD::NumFeats() << " keys but weights file contains " << num_keys << endl;
-- 
2.43.0


From efc1ed699b2d6d4c3f36294732ec78674bb54d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:06 +0000
Subject: [PATCH 028/131] fix: Weights::GetString threw when there is no weight
 to print

---
 utils/weights.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/weights.cc b/utils/weights.cc
index 5f6d06d..b6bf775 100644
--- a/utils/weights.cc
+++ b/utils/weights.cc
@@ -170,7 +170,8 @@ string Weights::GetString(const vector<weight_t>& w,
         }
         os << ' ' << FD::Convert(i) << '=' << val;
     }
-    return os.str().substr(1);
+    const string res = os.str();
+    return res.empty() ? res : res.substr(1);
 }
 
 void Weights::UpdateFromString(string& w_string,
-- 
2.43.0


From b6a19b617b6ef9889c921046af4fabfe1a285b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:24 +0000
Subject: [PATCH 029/131] fix: DecodeFeatureVector read past the end of
 truncated data

---
 utils/b64featvector.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/b64featvector.cc b/utils/b64featvector.cc
index c7d08b2..9ec747e 100644
--- a/utils/b64featvector.cc
+++ b/utils/b64featvector.cc
@@ -1,5 +1,6 @@
 #include "b64featvector.h"
 
+#include <cstring>
 #include <sstream>
 #include <boost/scoped_array.hpp>
 #include "b64tools.h"
@@ -44,8 +45,10 @@ void DecodeFeatureVector(const string &data, SparseVector<weight_t> *vec) {
   // Apply updates
   size_t cur = 0;
   while (cur < len) {
+    const char *name_end = static_cast<const char *>(memchr(buf.get() + cur, 0, len - cur));
+    if (name_end == buf.get() + cur) break;  // Encountered trailing \0
+    assert(name_end && name_end + 1 + sizeof(weight_t) <= buf.get() + len);
     string feat_name(buf.get() + cur);
-    if (feat_name.empty()) break;  // Encountered trailing \0
     int feat_id = FD::Convert(feat_name);
     weight_t feat_delta =
         *reinterpret_cast<weight_t *>(buf.get() + cur + feat_name.size() + 1);
-- 
2.43.0


From 778b93faf24889a3d1b915a4d8c4a1e07beaba3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:52 +0000
Subject: [PATCH 030/131] fix: sparse vectors with different values compared
 equal when one stores a zero

---
 utils/fast_sparse_vector.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/fast_sparse_vector.h b/utils/fast_sparse_vector.h
index 16cbda6..0583b9a 100644
--- a/utils/fast_sparse_vector.h
+++ b/utils/fast_sparse_vector.h
@@ -405,6 +405,10 @@ class FastSparseVector {
     for (const_iterator it = begin(), e = end(); it != e; ++it) {
       if (other.value(it->first) != it->second) return false;
     }
+    // other's non-zero entries may be at keys that are absent here
+    for (const_iterator it = other.begin(), e = other.end(); it != e; ++it) {
+      if (value(it->first) != it->second) return false;
+    }
     return true;
   }
   void swap(FastSparseVector<T>& other) {
-- 
2.43.0


From 00d37276f1df66b1273f05d59bd5975e26441bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:39 +0000
Subject: [PATCH 031/131] fix: B64::Decode misread names over 127 bytes and
 read past the end of truncated data

---
 utils/sparse_vector.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/utils/sparse_vector.cc b/utils/sparse_vector.cc
index 00e7bd6..7b0b7d5 100644
--- a/utils/sparse_vector.cc
+++ b/utils/sparse_vector.cc
@@ -55,9 +55,9 @@ bool Decode(double* objective, SparseVector<double>* v, const char* in, size_t s
     cerr << "B64 error - line % 4 != 0\n";
     return false;
   }
-  const size_t decoded_size = size * 3 / 4 - sizeof(unsigned int);
-  const size_t buf_size = decoded_size + sizeof(unsigned int);
-  if (decoded_size < 6) { cerr << "SparseVector decoding error: too short!\n"; return false; }
+  const size_t buf_size = size * 3 / 4;
+  if (buf_size < sizeof(double) + sizeof(int) + sizeof(unsigned int)) { cerr << "SparseVector decoding error: too short!\n"; return false; }
+  const size_t decoded_size = buf_size - sizeof(unsigned int);
   char* data = new char[buf_size];
   if (!b64decode(reinterpret_cast<const unsigned char*>(in), size, data, buf_size)) {
     delete[] data;
@@ -71,9 +71,12 @@ bool Decode(double* objective, SparseVector<double>* v, const char* in, size_t s
   int fc = 0;
   while(fc < num_feats && cur < decoded_size) {
     ++fc;
-    const int fname_len = data[cur++];
-    assert(fname_len > 0);
-    assert(fname_len < 256);
+    const size_t fname_len = static_cast<unsigned char>(data[cur++]);
+    if (fname_len == 0 || cur + fname_len + sizeof(double) > decoded_size) {
+      cerr << "SparseVector decoding error: bad feature name length!\n";
+      delete[] data;
+      return false;
+    }
     string fname(fname_len, '\0');
     memcpy(&fname[0], &data[cur], fname_len);
     cur += fname_len;
-- 
2.43.0


From ab8421a74b28230b7b10d661a36611ee3086b098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:07 +0000
Subject: [PATCH 032/131] fix: a weight update that names a new feature wrote
 past the end of the weights

---
 utils/weights.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils/weights.cc b/utils/weights.cc
index b6bf775..e746ad7 100644
--- a/utils/weights.cc
+++ b/utils/weights.cc
@@ -179,7 +179,9 @@ void Weights::UpdateFromString(string& w_string,
     vector<string> tok = SplitOnWhitespace(w_string);
     for (vector<string>::iterator i = tok.begin(); i != tok.end(); i++) {
         int delim = i->find('=');
-        int fid = FD::Convert(i->substr(0, delim));
+        unsigned fid = FD::Convert(i->substr(0, delim));
+        if (w.size() <= fid)
+            w.resize(fid + 1);
         w[fid] = strtod(i->substr(delim + 1).c_str(), NULL);
     }
 }
-- 
2.43.0


From ad835ded10b1fffba57d5f6dd6e087e9cecb0359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:34 +0000
Subject: [PATCH 033/131] fix: rest costs when <unk> is not listed; enumerate
 only the main model

---
 klm/lm/search_hashed.cc | 5 ++++-
 klm/lm/value_build.cc   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/klm/lm/search_hashed.cc b/klm/lm/search_hashed.cc
index 7e63e00..d486799 100644
--- a/klm/lm/search_hashed.cc
+++ b/klm/lm/search_hashed.cc
@@ -238,6 +238,8 @@ template <class Value> void HashedSearch<Value>::InitializeFromARPA(const char *
   PositiveProbWarn warn(config.positive_log_probability);
   Read1Grams(f, counts[0], vocab, unigram_.Raw(), warn);
   CheckSpecials(config, vocab);
+  // Rest costs are computed from this.
+  if (!vocab.SawUnk()) unigram_.Unknown().prob = config.unknown_missing_logprob;
   DispatchBuild(f, counts, config, vocab, warn);
 }
 
@@ -264,7 +266,8 @@ template <> void HashedSearch<RestValue>::DispatchBuild(util::FilePiece &f, cons
 }
 
 template <class Value> template <class Build> void HashedSearch<Value>::ApplyBuild(util::FilePiece &f, const std::vector<uint64_t> &counts, const ProbingVocabulary &vocab, PositiveProbWarn &warn, const Build &build) {
-  for (WordIndex i = 0; i < counts[0]; ++i) {
+  // vocab.Bound() counts <unk> even if the file does not list it.
+  for (WordIndex i = 0; i < vocab.Bound(); ++i) {
     build.SetRest(&i, (unsigned int)1, unigram_.Raw()[i]);
   }
 
diff --git a/klm/lm/value_build.cc b/klm/lm/value_build.cc
index 3ec3dce..ef1ed4e 100644
--- a/klm/lm/value_build.cc
+++ b/klm/lm/value_build.cc
@@ -10,6 +10,8 @@ template <class Model> LowerRestBuild<Model>::LowerRestBuild(const Config &confi
   UTIL_THROW_IF(config.rest_lower_files.size() != order - 1, ConfigException, "This model has order " << order << " so there should be " << (order - 1) << " lower-order models for rest cost purposes.");
   Config for_lower = config;
   for_lower.write_mmap = NULL;
+  // Enumerate only the main model's vocabulary.
+  for_lower.enumerate_vocab = NULL;
   for_lower.rest_lower_files.clear();
 
   // Unigram models aren't supported, so this is a custom loader.  
@@ -20,7 +22,8 @@ template <class Model> LowerRestBuild<Model>::LowerRestBuild(const Config &confi
     ReadARPACounts(uni, number);
     UTIL_THROW_IF(number.size() != 1, FormatLoadException, "Expected the unigram model to have order 1, not " << number.size());
     ReadNGramHeader(uni, 1);
-    unigrams_.resize(number[0]);
+    // +1 because <unk> has an index even if the file does not list it.
+    unigrams_.resize(number[0] + 1);
     unigrams_[0] = config.unknown_missing_logprob;
     PositiveProbWarn warn;
     for (uint64_t i = 0; i < number[0]; ++i) {
-- 
2.43.0


From 625dc26c3e5e60efcf9f1718089041ed580ec718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 034/131] fix: trie models lost continuations of blank n-grams
 that sort after the listed ones

---
 klm/lm/search_trie.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/klm/lm/search_trie.cc b/klm/lm/search_trie.cc
index 7fc70f4..330b633 100644
--- a/klm/lm/search_trie.cc
+++ b/klm/lm/search_trie.cc
@@ -126,6 +126,10 @@ class BackoffMessages {
             break;
         }
       }
+      // Any messages left sort after all the n-grams in the file, so they are for blanks too.
+      for (; current_ != allocated_; current_ += entry_size_) {
+        for (const WordIndex *w = reinterpret_cast<const WordIndex *>(current_); w != reinterpret_cast<const WordIndex *>(current_) + order; ++w, ++extend_out) *extend_out = *w;
+      }
       // Now this is a list of blanks that extend right.
       entry_size_ = sizeof(WordIndex) * order;
       Resize(sizeof(WordIndex) * (extend_out - (const WordIndex*)backing_.get()));
-- 
2.43.0


From 379e06a2e614dc813e5e6fcb1598c86a2fdec792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 035/131] fix: gzstreambuf::underflow copied overlapping
 regions with memcpy

---
 utils/gzstream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/gzstream.cc b/utils/gzstream.cc
index dbfa2f5..e8c3002 100644
--- a/utils/gzstream.cc
+++ b/utils/gzstream.cc
@@ -98,7 +98,7 @@ int gzstreambuf::underflow() { // used for input buffer only
     int n_putback = gptr() - eback();
     if ( n_putback > 4)
         n_putback = 4;
-    std::memcpy( buffer + (4 - n_putback), gptr() - n_putback, n_putback);
+    std::memmove( buffer + (4 - n_putback), gptr() - n_putback, n_putback);
 
     int num = gzread( file, buffer+4, bufferSize-4);
     if (num <= 0) // ERROR or EOF
-- 
2.43.0


From 218bd00f75e74489a7ef16b7294906791f46ce37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 036/131] fix: gzstreambuf crashed when a file could not be
 opened or closed

---
 utils/gzstream.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/utils/gzstream.cc b/utils/gzstream.cc
index e8c3002..b154894 100644
--- a/utils/gzstream.cc
+++ b/utils/gzstream.cc
@@ -28,7 +28,8 @@
 
 #include "gzstream.h"
 #include <iostream>
-#include <cstring>  // for memcpy
+#include <cerrno>
+#include <cstring>  // for memmove, strerror
 #include <stdexcept>
 
 #ifdef GZSTREAM_NAMESPACE
@@ -73,7 +74,9 @@ gzstreambuf * gzstreambuf::close() {
     if ( is_open()) {
         sync();
         opened = 0;
-        if ( gzclose( file) == Z_OK)
+        gzFile closing = file;
+        file = 0;  // gzclose frees it whatever it returns
+        if ( gzclose( closing) == Z_OK)
             return this;
         else
             handle_gzerror();
@@ -82,6 +85,8 @@ gzstreambuf * gzstreambuf::close() {
 }
 
 void gzstreambuf::handle_gzerror() {
+    if (!file)  // could not be opened or closed: there is no zlib state to ask
+        throw std::runtime_error(std::string("gzstreambuf error: ")+std::strerror(errno));
     int errnum;
     const char *errmsg=gzerror(file,&errnum);
     if (errnum==Z_DATA_ERROR) errmsg="CRC error reading gzip";
-- 
2.43.0


From 497923a1f1df14def3a18170aede0e5798eedc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 037/131] fix: ReadAll stopped at byte 0xff and dropped the
 last character of unterminated files

---
 utils/filelib.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils/filelib.h b/utils/filelib.h
index 90620d0..30d42a6 100644
--- a/utils/filelib.h
+++ b/utils/filelib.h
@@ -4,6 +4,7 @@
 #include <cassert>
 #include <string>
 #include <iostream>
+#include <iterator>
 #include <cstdlib>
 #include <boost/shared_ptr.hpp>
 #include <stdexcept>
@@ -76,8 +77,8 @@ class ReadFile : public BaseFile<std::istream> {
     }
   }
   void ReadAll(std::string& s) {
-    getline(*stream(), s, (char) EOF);
-    if (s.size() > 0) s.resize(s.size()-1);
+    s.assign(std::istreambuf_iterator<char>(*stream()), std::istreambuf_iterator<char>());
+    if (s.size() > 0 && s[s.size()-1] == '\n') s.resize(s.size()-1);
   }
 };
 
-- 
2.43.0


From 35e67e5e5d1810398bb8209996a578476136a505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:33 +0000
Subject: [PATCH 038/131] fix: the estimator read and could write past the last
 block of highest-order n-grams

---
 klm/lm/builder/adjust_counts.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klm/lm/builder/adjust_counts.cc b/klm/lm/builder/adjust_counts.cc
index 803c557..c2c1a4f 100644
--- a/klm/lm/builder/adjust_counts.cc
+++ b/klm/lm/builder/adjust_counts.cc
@@ -143,7 +143,7 @@ class CollapseStream {
       }
       
       // Mark highest order n-grams for later pruning
-      if(current_.Count() <= prune_threshold_) {
+      if(block_ && current_.Count() <= prune_threshold_) {
         current_.Mark(); 
       }
       
-- 
2.43.0


From dd2d3ae9e213873e63c2692d172192f9c3796f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:33 +0000
Subject: [PATCH 039/131] fix: pruning judged the last n-gram of every order by
 its adjusted count, leaving models without matching suffixes

---
 klm/lm/builder/adjust_counts.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/klm/lm/builder/adjust_counts.cc b/klm/lm/builder/adjust_counts.cc
index c2c1a4f..297f1f9 100644
--- a/klm/lm/builder/adjust_counts.cc
+++ b/klm/lm/builder/adjust_counts.cc
@@ -269,7 +269,9 @@ void AdjustCounts::Run(const util::stream::ChainPositions &positions) {
 
   // Output everything valid.
   for (NGramStream *s = streams.begin(); s <= lower_valid; ++s) {
-    if((*s)->Count() <= prune_thresholds_[(*s)->Order() - 1])
+    // As above, pruning goes by true counts.
+    uint64_t order = (*s)->Order();
+    if(order > 1 && prune_thresholds_[order - 1] && lower_counts[order - 1] <= prune_thresholds_[order - 1])
       (*s)->Mark();
     stats.Add(s - streams.begin(), (*s)->UnmarkedCount(), (*s)->IsMarked());
     ++*s;
-- 
2.43.0


From b25625d2ebee64dcbd47beb5419ab189f2c90b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:01 +0000
Subject: [PATCH 040/131] fix: reading a mapped file by characters reported the
 end of the file at the start of the last window

---
 klm/util/file_piece.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klm/util/file_piece.hh b/klm/util/file_piece.hh
index 5495ddc..9b25f5b 100644
--- a/klm/util/file_piece.hh
+++ b/klm/util/file_piece.hh
@@ -45,7 +45,7 @@ class FilePiece {
     char get() {
       if (position_ == position_end_) {
         Shift();
-        if (at_end_) throw EndOfFileException();
+        if (position_ == position_end_) throw EndOfFileException();
       }
       return *(position_++);
     }
-- 
2.43.0


From 058c68d3ac8eed83a08f0b7c202f1c2238af66ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:01 +0000
Subject: [PATCH 041/131] fix: offsets in compressed or piped text forgot what
 had been dropped from the buffer

---
 klm/util/file_piece.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klm/util/file_piece.cc b/klm/util/file_piece.cc
index 4aaa250..fd32473 100644
--- a/klm/util/file_piece.cc
+++ b/klm/util/file_piece.cc
@@ -302,6 +302,7 @@ void FilePiece::ReadShift() {
       position_end_ = position_ + valid_length;
     } else {
       std::size_t moving = position_end_ - position_;
+      mapped_offset_ += position_ - data_.begin();
       memmove(data_.get(), position_, moving);
       position_ = data_.begin();
       position_end_ = position_ + moving;
-- 
2.43.0


From 22e89a695a104511a29a806ce13eb9f5b3aff6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:01 +0000
Subject: [PATCH 042/131] fix: reading a number at the end of compressed or
 piped text was a parse error instead of the end of the file

---
 klm/util/file_piece.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klm/util/file_piece.cc b/klm/util/file_piece.cc
index fd32473..b9c7c7c 100644
--- a/klm/util/file_piece.cc
+++ b/klm/util/file_piece.cc
@@ -170,6 +170,7 @@ void ParseNumber(const char *begin, const char *&end, unsigned long int &out) {
 
 template <class T> T FilePiece::ReadNumber() {
   SkipSpaces();
+  if (at_end_ && position_ == position_end_) Shift(); // Throws EndOfFileException.
   while (last_space_ < position_) {
     if (at_end_) {
       // Hallucinate a null off the end of the file.
-- 
2.43.0


From db4ea71f8d316a51c72c20636f74b02cfa514623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:01 +0000
Subject: [PATCH 043/131] fix: reading a truncated bzip2 file never ended

---
 klm/util/read_compressed.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/klm/util/read_compressed.cc b/klm/util/read_compressed.cc
index cee9804..e182dab 100644
--- a/klm/util/read_compressed.cc
+++ b/klm/util/read_compressed.cc
@@ -225,9 +225,13 @@ class BZip {
     }
 
     bool Process() {
+      const bool starved = !stream_.avail_in;
+      const unsigned int room = stream_.avail_out;
       int ret = BZ2_bzDecompress(&stream_);
       if (ret == BZ_STREAM_END) return false;
       HandleError(ret);
+      // Unlike the others, bzip2 does not complain when there is nothing left to read.
+      UTIL_THROW_IF(starved && stream_.avail_out == room, BZException, "bzip2 hit an unexpected end of input");
       return true;
     }
 
-- 
2.43.0


From a0f7a6fb170858413f967afa3e6349b66037002f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:09 +0000
Subject: [PATCH 044/131] fix: reading some numbers shifted an int by more than
 its width

---
 klm/util/double-conversion/strtod.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klm/util/double-conversion/strtod.cc b/klm/util/double-conversion/strtod.cc
index e298766..062053e 100644
--- a/klm/util/double-conversion/strtod.cc
+++ b/klm/util/double-conversion/strtod.cc
@@ -286,7 +286,7 @@ static bool DiyFpStrtod(Vector<const char> buffer,
   const int kDenominator = 1 << kDenominatorLog;
   // Move the remaining decimals into the exponent.
   exponent += remaining_decimals;
-  int error = (remaining_decimals == 0 ? 0 : kDenominator / 2);
+  uint64_t error = (remaining_decimals == 0 ? 0 : kDenominator / 2);
 
   int old_e = input.e();
   input.Normalize();
-- 
2.43.0


From 7b8db3a6a4eacbfac045de19be558e52107ef7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:17 +0000
Subject: [PATCH 045/131] fix: AutoProbing::Insert did not count entries, so
 the table never grew and a full one looped for ever

---
 klm/util/probing_hash_table.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klm/util/probing_hash_table.hh b/klm/util/probing_hash_table.hh
index ea228dd..c742aa0 100644
--- a/klm/util/probing_hash_table.hh
+++ b/klm/util/probing_hash_table.hh
@@ -278,6 +278,7 @@ template <class EntryT, class HashT, class EqualT = std::equal_to<typename Entry
     // Assumes that the key is unique.  Multiple insertions won't cause a failure, just inconsistent lookup.
     template <class T> MutableIterator Insert(const T &t) {
       DoubleIfNeeded();
+      ++backend_.entries_;
       return backend_.UncheckedInsert(t);
     }
 
-- 
2.43.0


From 17140f31f7f6ea8b3cad36aef324cbb19c440b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:31 +0000
Subject: [PATCH 046/131] fix: remove the whole last subpattern when indexing
 ternary collocations; do not read past the data

---
 extractor/precomputation.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extractor/precomputation.cc b/extractor/precomputation.cc
index 3e58e2a..27dea58 100644
--- a/extractor/precomputation.cc
+++ b/extractor/precomputation.cc
@@ -84,7 +84,7 @@ vector<vector<int>> Precomputation::FindMostFrequentPatterns(
     for (int len = lcp[i]; len < max_frequent_phrase_len; ++len) {
       int frequency = i - run_start[len];
       int start = suffix_array->GetSuffix(run_start[len]);
-      if (frequency >= min_frequency && start + len <= data.size()) {
+      if (frequency >= min_frequency && start + len < data.size()) {
         heap.push(make_pair(frequency, make_pair(start, len + 1)));
       }
       run_start[len] = i;
@@ -160,7 +160,7 @@ void Precomputation::UpdateIndex(
                 && (is_super1 || is_super3)) {
               AppendSubpattern(pattern, annotations[k]);
               AppendCollocation(index[pattern], start1, start2, start3);
-              pattern.erase(pattern.end() - size3);
+              pattern.erase(pattern.end() - size3, pattern.end());
             }
           }
         }
-- 
2.43.0


From 597e8244c4d7e1dcc023e0b917605947ffa4770f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:31 +0000
Subject: [PATCH 047/131] fix: sampler backoff must not look below the range of
 the phrase

---
 extractor/backoff_sampler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extractor/backoff_sampler.cc b/extractor/backoff_sampler.cc
index 891276c..7fb4759 100644
--- a/extractor/backoff_sampler.cc
+++ b/extractor/backoff_sampler.cc
@@ -30,7 +30,7 @@ PhraseLocation BackoffSampler::Sample(
       for (double backoff_step = 1; backoff_step < step; ++backoff_step) {
         double j = i - backoff_step;
         sample = round(j);
-        if (sample >= 0) {
+        if (sample >= low) {
           position = GetPosition(location, sample);
           sentence_id = source_data_array->GetSentenceId(position);
           if (sample > last && !blacklisted_sentence_ids.count(sentence_id)) {
-- 
2.43.0


From 71c994531f99c4218e80fa5772ac1c8e72724be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:31 +0000
Subject: [PATCH 048/131] fix: order of three or more target gaps in extracted
 rules

---
 extractor/rule_extractor_helper.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/extractor/rule_extractor_helper.cc b/extractor/rule_extractor_helper.cc
index d7e332d..01518f6 100644
--- a/extractor/rule_extractor_helper.cc
+++ b/extractor/rule_extractor_helper.cc
@@ -1,5 +1,7 @@
 #include "rule_extractor_helper.h"
 
+#include <algorithm>
+
 #include "data_array.h"
 #include "alignment.h"
 
@@ -331,16 +333,13 @@ bool RuleExtractorHelper::GetGaps(
 
 vector<int> RuleExtractorHelper::GetGapOrder(
     const vector<pair<int, int>>& gaps) const {
+  // gap_order[i] is the index of the gap found in position i.
   vector<int> gap_order(gaps.size());
   for (size_t i = 0; i < gap_order.size(); ++i) {
-    for (size_t j = 0; j < i; ++j) {
-      if (gaps[gap_order[j]] < gaps[i]) {
-        ++gap_order[i];
-      } else {
-        ++gap_order[j];
-      }
-    }
+    gap_order[i] = i;
   }
+  sort(gap_order.begin(), gap_order.end(),
+       [&gaps](int a, int b) { return gaps[a] < gaps[b]; });
   return gap_order;
 }
 
-- 
2.43.0


From e2472b1a014df186de8338e002276edd8484fbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:31 +0000
Subject: [PATCH 049/131] fix: bounds when extending a phrase at the sentence
 edge; contiguous phrases obey max_rule_span

---
 extractor/rule_extractor.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/extractor/rule_extractor.cc b/extractor/rule_extractor.cc
index d918117..aef3f5c 100644
--- a/extractor/rule_extractor.cc
+++ b/extractor/rule_extractor.cc
@@ -151,6 +151,10 @@ vector<Extract> RuleExtractor::ExtractAlignments(
   int source_phrase_low = matching[0] - source_sent_start;
   int source_phrase_high = matching.back() + chunklen.back() -
                            source_sent_start;
+  if (source_phrase_high - source_phrase_low > max_rule_span) {
+    // Rule span too wide.
+    return extracts;
+  }
   int target_phrase_low = -1, target_phrase_high = -1;
   // Find target span and reflected source span for the source phrase.
   if (!helper->FindFixPoint(source_phrase_low, source_phrase_high, source_low,
@@ -239,7 +243,9 @@ void RuleExtractor::AddNonterminalExtremities(
 
   // Check if the extended source phrase will remain tight.
   if (require_tight_phrases) {
-    if (source_low[source_back_low - extend_left] == -1 ||
+    if (source_back_low < extend_left ||
+        source_back_high + extend_right > source_low.size() ||
+        source_low[source_back_low - extend_left] == -1 ||
         source_low[source_back_high + extend_right - 1] == -1) {
       return;
     }
-- 
2.43.0


From a3207dd6d26365d388b45d2306029570ed81ca2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:55 +0000
Subject: [PATCH 050/131] fix: data race on the thread count shown in the help
 text

---
 extractor/extract.cc       | 6 ++----
 extractor/run_extractor.cc | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/extractor/extract.cc b/extractor/extract.cc
index 08f209c..37a3937 100644
--- a/extractor/extract.cc
+++ b/extractor/extract.cc
@@ -11,7 +11,7 @@
 #if HAVE_OPEN_MP
  #include <omp.h>
 #else
-  const unsigned omp_get_num_threads() { return 1; }
+  const unsigned omp_get_max_threads() { return 1; }
 #endif
 
 #include "filelib.h"
@@ -50,9 +50,7 @@ fs::path GetGrammarFilePath(const fs::path& grammar_path, int file_number, bool
 
 int main(int argc, char** argv) {
   po::options_description general_options("General options");
-  int max_threads = 1;
-  #pragma omp parallel
-  max_threads = omp_get_num_threads();
+  int max_threads = omp_get_max_threads();
   string threads_option = "Number of threads used for grammar extraction "
                           "max(" + to_string(max_threads) + ")";
   general_options.add_options()
diff --git a/extractor/run_extractor.cc b/extractor/run_extractor.cc
index 00564a3..b8970a3 100644
--- a/extractor/run_extractor.cc
+++ b/extractor/run_extractor.cc
@@ -11,7 +11,7 @@
 #if HAVE_OPEN_MP
 #include <omp.h>
 #else
-  const unsigned omp_get_num_threads() { return 1; }
+  const unsigned omp_get_max_threads() { return 1; }
 #endif
 
 #include "alignment.h"
@@ -48,9 +48,7 @@ fs::path GetGrammarFilePath(const fs::path& grammar_path, int file_number) {
 
 int main(int argc, char** argv) {
   // Sets up the command line arguments map.
-  int max_threads = 1;
-  #pragma omp parallel
-  max_threads = omp_get_num_threads();
+  int max_threads = omp_get_max_threads();
   string threads_option = "Number of parallel threads for extraction "
                           "(max=" + to_string(max_threads) + ")";
   po::options_description desc("Command line options");
-- 
2.43.0


From a2a5347987acf46d17f0be6b9d6f7f149c4447de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:36 +0000
Subject: [PATCH 051/131] fix: CER statistics of hypotheses whose edit distance
 is not below their length

---
 mteval/ns_cer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mteval/ns_cer.cc b/mteval/ns_cer.cc
index da6683b..fa86882 100644
--- a/mteval/ns_cer.cc
+++ b/mteval/ns_cer.cc
@@ -19,11 +19,11 @@ void CERMetric::ComputeSufficientStatistics(const std::vector<WordID>& hyp,
                                             SufficientStats* out) const {
   out->fields.resize(kNUMFIELDS);
   std::string hyp_str(TD::GetString(hyp));
-  float best_score = hyp_str.size();
+  float best_score = 0;
   for (size_t i = 0; i < refs.size(); ++i) {
     std::string ref_str(TD::GetString(refs[i]));
     float score = cdec::LevenshteinDistance(hyp_str, ref_str);
-    if (score < best_score) {
+    if (score < best_score || i == 0) {
       out->fields[kEDITDISTANCE] = score;
       out->fields[kCHARCOUNT] = ref_str.size();
       best_score = score;
-- 
2.43.0


From 9f07c96538a3f16164a736e48f16c6948d7d35a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:36 +0000
Subject: [PATCH 052/131] fix: BLEU of empty hypotheses is zero, not NaN

---
 mteval/ns.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mteval/ns.cc b/mteval/ns.cc
index 1d37c43..6c510a5 100644
--- a/mteval/ns.cc
+++ b/mteval/ns.cc
@@ -216,6 +216,10 @@ struct BleuMetric : public EvaluationMetric {
         ++count;
       }
     }
+    if (!count) {  // nothing but empty hypotheses
+      if (bp) *bp = 0;
+      return 0;
+    }
     log_bleu /= count;
     log_bleu_adj /= count;
     float lbp = 0.0;
@@ -238,6 +242,7 @@ struct BleuMetric : public EvaluationMetric {
     vector<float> precs(N);
     float bp;
     float bleu = ComputeBreakdown(stats, &bp, &precs);
+    precs.resize(max(N, 4u));
     sprintf(buf, "%s = %.2f, %.1f|%.1f|%.1f|%.1f (brev=%.3f)",
        MetricId().c_str(),
        bleu*100.0,
-- 
2.43.0


From 5ca7c84d0f6ed2cbda19bf770704f179772677cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:36 +0000
Subject: [PATCH 053/131] fix: adding scaled TER statistics always threw

---
 mteval/ter.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mteval/ter.cc b/mteval/ter.cc
index 19b90bb..b49e07c 100644
--- a/mteval/ter.cc
+++ b/mteval/ter.cc
@@ -438,9 +438,10 @@ class TERScore : public ScoreBase<TERScore> {
   void PlusEquals(const Score& delta, const float scale) {
     if (scale==1)
       stats += static_cast<const TERScore&>(delta).stats;
-    if (scale==-1)
+    else if (scale==-1)
       stats -= static_cast<const TERScore&>(delta).stats;
-    throw std::runtime_error("TERScore::PlusEquals with scale != +-1");
+    else
+      throw std::runtime_error("TERScore::PlusEquals with scale != +-1");
  }
   void PlusEquals(const Score& delta) {
     stats += static_cast<const TERScore&>(delta).stats;
-- 
2.43.0


From 44923b4420eb80bfd7bbca3cb5ca4e409fff5082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:36 +0000
Subject: [PATCH 054/131] fix: every error metric is a loss in minimum-risk
 selection

---
 mteval/mbr_kbest.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mteval/mbr_kbest.cc b/mteval/mbr_kbest.cc
index eb36e00..7e5db35 100644
--- a/mteval/mbr_kbest.cc
+++ b/mteval/mbr_kbest.cc
@@ -108,7 +108,7 @@ int main(int argc, char** argv) {
   const string smetric = conf["evaluation_metric"].as<string>();
   EvaluationMetric* metric = EvaluationMetric::Instance(smetric);
 
-  const bool is_loss = (UppercaseString(smetric) == "TER");
+  const bool is_loss = metric->IsErrorMetric();
   const bool output_list = conf.count("output_list") > 0;
   vector<string> file;
   if (conf.count("input") == 0)
-- 
2.43.0


From 45c79f083baa2cd5be0306a6cdb2199ae1d339c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:41 +0000
Subject: [PATCH 055/131] fix: blank, very long and unterminated lines of
 reference files

---
 mteval/ns_docscorer.cc | 23 +++++++++--------------
 mteval/scorer.cc       | 23 +++++++++--------------
 2 files changed, 18 insertions(+), 28 deletions(-)

diff --git a/mteval/ns_docscorer.cc b/mteval/ns_docscorer.cc
index 242f134..5a9e003 100644
--- a/mteval/ns_docscorer.cc
+++ b/mteval/ns_docscorer.cc
@@ -57,26 +57,21 @@ void DocumentScorer::Init(const EvaluationMetric* metric,
   assert(src_file.empty());
   std::vector<ReadFile> ifs(ref_files.begin(),ref_files.end());
   for (int i=0; i < ref_files.size(); ++i) ifs[i].Init(ref_files[i]);
-  char buf[64000];
+  string buf;
   bool expect_eof = false;
   int line=0;
   vector<WordID> tmp;
   vector<vector<WordID> > refs;
-  while (ifs[0].get()) {
+  while (!expect_eof) {
     refs.clear();
     for (int i=0; i < ref_files.size(); ++i) {
       istream &in=ifs[i].get();
-      if (in.eof()) break;
-      in.getline(buf, 64000);
-      if (strlen(buf) == 0) {
-        if (in.eof()) {
-          if (!expect_eof) {
-            assert(i == 0);
-            expect_eof = true;
-          }
-          break;
-        }
-      } else { // read a line from a reference file
+      if (!getline(in, buf)) {
+        assert(i == 0);
+        expect_eof = true;
+        break;
+      }
+      if (!buf.empty()) { // read a line from a reference file
         tmp.clear();
         TD::ConvertSentence(buf, &tmp);
         unsigned last = 0;
@@ -88,9 +83,9 @@ void DocumentScorer::Init(const EvaluationMetric* metric,
         }
         refs.push_back(vector<WordID>(tmp.begin() + last, tmp.end()));
       }
-      assert(!expect_eof);
     }
     if (!expect_eof) {
+      if (refs.empty()) refs.resize(1);  // all references are blank
       string src_line;
       //if (srcrf) {
       //  getline(srcrf.get(), src_line);
diff --git a/mteval/scorer.cc b/mteval/scorer.cc
index 71e05e9..baa62b0 100644
--- a/mteval/scorer.cc
+++ b/mteval/scorer.cc
@@ -640,24 +640,19 @@ void DocScorer::Init(
   std::vector<WordID> tmp;
   std::vector<ReadFile> ifs(ref_files.begin(),ref_files.end());
   for (int i=0; i < ref_files.size(); ++i) ifs[i].Init(ref_files[i]);
-  char buf[64000];
+  string buf;
   bool expect_eof = false;
   int line=0;
-  while (ifs[0].get()) {
+  while (!expect_eof) {
     vector<vector<WordID> > refs;
     for (int i=0; i < ref_files.size(); ++i) {
       istream &in=ifs[i].get();
-      if (in.eof()) break;
-      in.getline(buf, 64000);
-      if (strlen(buf) == 0) {
-        if (in.eof()) {
-          if (!expect_eof) {
-            assert(i == 0);
-            expect_eof = true;
-          }
-          break;
-        }
-      } else { // process reference
+      if (!getline(in, buf)) {
+        assert(i == 0);
+        expect_eof = true;
+        break;
+      }
+      if (!buf.empty()) { // process reference
         tmp.clear();
         TD::ConvertSentence(buf, &tmp);
         unsigned last = 0;
@@ -669,9 +664,9 @@ void DocScorer::Init(
         }
         refs.push_back(vector<WordID>(tmp.begin() + last, tmp.end()));
       }
-      assert(!expect_eof);
     }
     if (!expect_eof) {
+      if (refs.empty()) refs.resize(1);  // all references are blank
       string src_line;
       if (srcrf) {
         getline(srcrf.get(), src_line);
-- 
2.43.0


From ccd99e9d9628013d56f53cb1e39c10416683cb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:41 +0000
Subject: [PATCH 056/131] fix: more translations than references were scored
 with memory beyond the references

---
 mteval/fast_score.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mteval/fast_score.cc b/mteval/fast_score.cc
index a271ccc..353c537 100644
--- a/mteval/fast_score.cc
+++ b/mteval/fast_score.cc
@@ -58,7 +58,7 @@ int main(int argc, char** argv) {
     vector<WordID> sent;
     TD::ConvertSentence(line, &sent);
     SufficientStats t;
-    ds[lc]->Evaluate(sent, &t);
+    if (lc < ds.size()) ds[lc]->Evaluate(sent, &t);
     acc += t;
     ++lc;
   }
-- 
2.43.0


From 101e5f6f7e85543c83dfe8b324db4b2536b17c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:32 +0000
Subject: [PATCH 057/131] fix: encoded sufficient statistics were rounded to
 six digits

---
 mteval/ns.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mteval/ns.cc b/mteval/ns.cc
index 6c510a5..e5359e7 100644
--- a/mteval/ns.cc
+++ b/mteval/ns.cc
@@ -324,6 +324,7 @@ SufficientStats::SufficientStats(const string& encoded) {
 
 void SufficientStats::Encode(string* out) const {
   ostringstream os;
+  os.precision(9);  // every float is read back as it was
   if (id_.size() > 0)
     os << id_;
   else
-- 
2.43.0


From b60bd6367888b7d080050b332ac34772f71438b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:32 +0000
Subject: [PATCH 058/131] fix: the length of encoded statistics in error
 surfaces was stored in one byte

---
 training/dpmert/error_surface.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/training/dpmert/error_surface.cc b/training/dpmert/error_surface.cc
index 515b67f..2836437 100644
--- a/training/dpmert/error_surface.cc
+++ b/training/dpmert/error_surface.cc
@@ -15,8 +15,7 @@ void ErrorSurface::Serialize(std::string* out) const {
     const ErrorSegment& cur = (*this)[i];
     string senc;
     cur.delta.Encode(&senc);
-    assert(senc.size() < 1024);
-    unsigned char len = senc.size();
+    unsigned len = senc.size();
     os.write((const char*)&cur.x, sizeof(cur.x));
     os.write((const char*)&len, sizeof(len));
     os.write((const char*)&senc[0], len);
@@ -31,7 +30,7 @@ void ErrorSurface::Deserialize(const std::string& in) {
   this->resize(segments);
   for (int i = 0; i < segments; ++i) {
     ErrorSegment& cur = (*this)[i];
-    unsigned char len;
+    unsigned len;
     is.read((char*)&cur.x, sizeof(cur.x));
     is.read((char*)&len, sizeof(len));
     string senc(len, '\0'); assert(senc.size() == len);
-- 
2.43.0


From 12491ff50a410ca644b9f7c245871f9c7ec0ec07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:32 +0000
Subject: [PATCH 059/131] fix: mbr_kbest lost the first entry of a sentence
 when it is empty or in a later file

---
 mteval/mbr_kbest.cc | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/mteval/mbr_kbest.cc b/mteval/mbr_kbest.cc
index 7e5db35..b2fa309 100644
--- a/mteval/mbr_kbest.cc
+++ b/mteval/mbr_kbest.cc
@@ -56,21 +56,25 @@ bool ReadKBestList(const vector<double>& mbr_scale,
                    const vector<ReadFile*>& rfs,
                    string* sent_id,
                    vector<pair<vector<WordID>, prob_t> >* list) {
-  static string cache_id;
-  pair<vector<WordID>, prob_t> tmp_pair;
+  // the first entry of the next sentence, for each file where it has been read
+  static vector<bool> cached(rfs.size());
+  static vector<string> cache_ids(rfs.size());
   static vector<pair<vector<WordID>, prob_t> > cache_pair(rfs.size());
+  pair<vector<WordID>, prob_t> tmp_pair;
   list->clear();
   string cur_id;
-  if (cache_pair[0].first.size() > 0) {
-    for (unsigned i = 0; i < cache_pair.size(); ++i)
-      list->push_back(cache_pair[i]);
-    cur_id = cache_id;
-    cache_pair.clear();
-    cache_pair.resize(rfs.size());
-  }
   string line;
   string tstr;
   for (unsigned fi = 0; fi < rfs.size(); ++fi) {
+    if (cached[fi] && cur_id.empty()) cur_id = cache_ids[fi];
+  }
+  for (unsigned fi = 0; fi < rfs.size(); ++fi) {
+    if (cached[fi]) {
+      if (cache_ids[fi] != cur_id) continue;
+      list->push_back(cache_pair[fi]);
+      *sent_id = cur_id;
+      cached[fi] = false;
+    }
     istream& in = *rfs[fi]->stream();
     while(getline(in, line)) {
       size_t p1 = line.find(" ||| ");
@@ -78,7 +82,7 @@ bool ReadKBestList(const vector<double>& mbr_scale,
       size_t p2 = line.find(" ||| ", p1 + 4);
       if (p2 == string::npos) { cerr << "Bad format: " << line << endl; abort(); }
       size_t p3 = line.rfind(" ||| ");
-      cache_id = line.substr(0, p1);
+      const string cache_id = line.substr(0, p1);
       tstr = line.substr(p1 + 5, p2 - p1 - 5);
       double val = strtod(line.substr(p3 + 5).c_str(), NULL) * mbr_scale[fi] + mbr_offset[fi];
       TD::ConvertSentence(tstr, &tmp_pair.first);
@@ -90,6 +94,8 @@ bool ReadKBestList(const vector<double>& mbr_scale,
         tmp_pair.first.clear();
       } else {
         swap(cache_pair[fi], tmp_pair);
+        cache_ids[fi] = cache_id;
+        cached[fi] = true;
         break;
       }
     }
-- 
2.43.0


From be3be9dbd9b3c14d86a882bad1ae6ef1dcd6f82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:04 +0000
Subject: [PATCH 060/131] fix: clones of combined scores shared their parts
 with the original

---
 mteval/comb_scorer.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mteval/comb_scorer.cc b/mteval/comb_scorer.cc
index 63f327c..2b3859d 100644
--- a/mteval/comb_scorer.cc
+++ b/mteval/comb_scorer.cc
@@ -7,6 +7,9 @@ using namespace std;
 class BLEUTERCombinationScore : public ScoreBase<BLEUTERCombinationScore> {
   friend class BLEUTERCombinationScorer;
  public:
+  BLEUTERCombinationScore() {}
+  BLEUTERCombinationScore(const BLEUTERCombinationScore& other) :
+    ScoreBase<BLEUTERCombinationScore>(other), bleu(other.bleu->Clone()), ter(other.ter->Clone()) {}
   ~BLEUTERCombinationScore();
   float ComputePartialScore() const { return 0.0;}
   float ComputeScore() const {
@@ -100,6 +103,9 @@ ScoreP BLEUTERCombinationScorer::ScoreFromString(const std::string& in) {
 class BLEUCBLEUCombinationScore : public ScoreBase<BLEUCBLEUCombinationScore> {
   friend class BLEUCBLEUCombinationScorer;
  public:
+  BLEUCBLEUCombinationScore() {}
+  BLEUCBLEUCombinationScore(const BLEUCBLEUCombinationScore& other) :
+    ScoreBase<BLEUCBLEUCombinationScore>(other), bleu(other.bleu->Clone()), cbleu(other.cbleu->Clone()) {}
   ~BLEUCBLEUCombinationScore();
   float ComputePartialScore() const { return 0.0;}
   float ComputeScore() const {
-- 
2.43.0


From fda661d0fab2c4d9fdb00d80c032fa82163f6fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:13 +0000
Subject: [PATCH 061/131] fix: encoded scores of the older interface were
 rounded to six digits

---
 mteval/external_scorer.cc | 1 +
 mteval/scorer.cc          | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mteval/external_scorer.cc b/mteval/external_scorer.cc
index 054c279..26e39fc 100644
--- a/mteval/external_scorer.cc
+++ b/mteval/external_scorer.cc
@@ -183,6 +183,7 @@ struct ExternalScore : public ScoreBase<ExternalScore> {
   }
   void Encode(string* out) const {
     ostringstream os;
+    os.precision(9);  // every float is read back as it was
     for (unsigned i = 0; i < fields.size(); ++i)
       os << (i == 0 ? "" : " ") << fields[i];
     *out = os.str();
diff --git a/mteval/scorer.cc b/mteval/scorer.cc
index baa62b0..368ad21 100644
--- a/mteval/scorer.cc
+++ b/mteval/scorer.cc
@@ -581,6 +581,7 @@ ScoreP BLEUScore::GetOne() const {
 
 void BLEUScore::Encode(string* out) const {
   ostringstream os;
+  os.precision(9);  // every float is read back as it was
   const int n = correct_ngram_hit_counts.size();
   os << n << ' ' << ref_len << ' ' << hyp_len;
   for (int i = 0; i < n; ++i)
-- 
2.43.0


From 29e1edcdaf3f7aabfb121a9e25a50e0ba1ed664b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:50 +0000
Subject: [PATCH 062/131] fix: error surfaces that begin with an empty
 translation lost its statistics

---
 training/dpmert/ces.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/training/dpmert/ces.cc b/training/dpmert/ces.cc
index 157b2d1..3c67f68 100644
--- a/training/dpmert/ces.cc
+++ b/training/dpmert/ces.cc
@@ -56,7 +56,7 @@ void ComputeErrorSurface(const SegmentEvaluator& ss,
       seg.ConstructTranslation(&trans);
     //}
     //cerr << "Scoring: " << TD::GetString(trans) << endl;
-    if (trans == prev_trans) {
+    if (i > 0 && trans == prev_trans) {
       if (!minimize_segments) {
         ErrorSegment& out = (*env)[j];
         out.delta.fields.clear();
@@ -74,7 +74,7 @@ void ComputeErrorSurface(const SegmentEvaluator& ss,
       //string xx; delta.Encode(&xx); cerr << xx << endl;
       prev_trans.swap(trans);
       prev_score = score;
-      if ((!minimize_segments) || (!delta.IsAdditiveIdentity())) {
+      if ((!minimize_segments) || i == 0 || (!delta.IsAdditiveIdentity())) {
         ErrorSegment& out = (*env)[j];
         out.delta = delta;
         out.x = seg.x;
-- 
2.43.0


From 6993b36a120c8783ea596b440952d64edc643454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:15 +0000
Subject: [PATCH 063/131] fix: the entropy gradient had the wrong sign

---
 training/minrisk/minrisk_optimize.cc | 2 +-
 training/utils/entropy.cc            | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/training/minrisk/minrisk_optimize.cc b/training/minrisk/minrisk_optimize.cc
index f90c711..a8000ce 100644
--- a/training/minrisk/minrisk_optimize.cc
+++ b/training/minrisk/minrisk_optimize.cc
@@ -73,7 +73,7 @@ struct RiskObjective {
         g[it->first] += it->second;
       if (T) {
         for (SparseVector<double>::iterator it = hg.begin(); it != hg.end(); ++it)
-          g[it->first] += T * it->second;
+          g[it->first] -= T * it->second;
       }
     }
     cerr << (1-(obj / training.size())) << "  H=" << h << endl;
diff --git a/training/utils/entropy.cc b/training/utils/entropy.cc
index 4fdbe2b..a8230cc 100644
--- a/training/utils/entropy.cc
+++ b/training/utils/entropy.cc
@@ -9,7 +9,7 @@ namespace training {
 
 // see Mann and McCallum "Efficient Computation of Entropy Gradient ..." for
 // a mostly clear derivation of:
-//   g = E[ F(x,y) * log p(y|x) ] + H(y | x) * E[ F(x,y) ]
+//   g = -E[ F(x,y) * log p(y|x) ] - H(y | x) * E[ F(x,y) ]
 double CandidateSetEntropy::operator()(const vector<double>& params,
                                        SparseVector<double>* g) const {
   prob_t z;
@@ -29,11 +29,11 @@ double CandidateSetEntropy::operator()(const vector<double>& params,
     const double e_logprob = prob * log_prob;
     entropy -= e_logprob;
     if (g) {
-      (*g) += cands_[i].fmap * e_logprob;
+      (*g) -= cands_[i].fmap * e_logprob;
       exp_feats += cands_[i].fmap * prob;
     }
   }
-  if (g) (*g) += exp_feats * entropy;
+  if (g) (*g) -= exp_feats * entropy;
   return entropy;
 }
 
-- 
2.43.0


From 3ebae9d2713c370230e7f85288ae391e07df9f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:15 +0000
Subject: [PATCH 064/131] fix: candidate repositories of all sentences shared
 one file

---
 training/minrisk/minrisk_optimize.cc | 2 +-
 training/rampion/rampion_cccp.cc     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/training/minrisk/minrisk_optimize.cc b/training/minrisk/minrisk_optimize.cc
index a8000ce..d14ef8a 100644
--- a/training/minrisk/minrisk_optimize.cc
+++ b/training/minrisk/minrisk_optimize.cc
@@ -164,6 +164,7 @@ int main(int argc, char** argv) {
   while(getline(in, line)) {
     istringstream is(line);
     int sent_id = 0;
+    is >> file >> sent_id;
     kis.resize(kis.size() + 1);
     training::CandidateSet& curkbest = kis.back();
     string kbest_file;
@@ -174,7 +175,6 @@ int main(int argc, char** argv) {
       if (FileExists(kbest_file))
         curkbest.ReadFromFile(kbest_file);
     }
-    is >> file >> sent_id;
     ReadFile rf(file);
     if (kis.size() % 5 == 0) { cerr << '.'; }
     if (kis.size() % 200 == 0) { cerr << " [" << kis.size() << "]\n"; }
diff --git a/training/rampion/rampion_cccp.cc b/training/rampion/rampion_cccp.cc
index 1c45bac..dd67bef 100644
--- a/training/rampion/rampion_cccp.cc
+++ b/training/rampion/rampion_cccp.cc
@@ -122,6 +122,7 @@ int main(int argc, char** argv) {
   while(getline(in, line)) {
     istringstream is(line);
     int sent_id;
+    is >> file >> sent_id;
     kis.resize(kis.size() + 1);
     training::CandidateSet& curkbest = kis.back();
     string kbest_file;
@@ -132,7 +133,6 @@ int main(int argc, char** argv) {
       if (FileExists(kbest_file))
         curkbest.ReadFromFile(kbest_file);
     }
-    is >> file >> sent_id;
     ReadFile rf(file);
     if (kis.size() % 5 == 0) { cerr << '.'; }
     if (kis.size() % 200 == 0) { cerr << " [" << kis.size() << "]\n"; }
-- 
2.43.0


From 06c7bf51063e99d4bb416d07d962b42dca8d5114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:15 +0000
Subject: [PATCH 065/131] fix: duplicate candidates survived when their
 features came in another order

---
 training/utils/candidate_set.cc | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/training/utils/candidate_set.cc b/training/utils/candidate_set.cc
index 36f5b27..147e4d2 100644
--- a/training/utils/candidate_set.cc
+++ b/training/utils/candidate_set.cc
@@ -35,18 +35,20 @@ struct ApproxVectorHasher {
     if ((r << 1) > MASK)
       t.i += MASK - r + 1;
     else
-      t.i &= (1ull - MASK);
+      t.i &= ~MASK;
     return t.f;
   }
   size_t operator()(const SparseVector<double>& x) const {
     size_t h = 0x573915839;
     for (SparseVector<double>::const_iterator it = x.begin(); it != x.end(); ++it) {
       UType t;
-      t.f = it->second;
+      t.f = round(it->second);
       if (t.f) {
         size_t z = (t.i >> 32);
-        boost::hash_combine(h, it->first);
-        boost::hash_combine(h, z);
+        size_t e = 0;
+        boost::hash_combine(e, it->first);
+        boost::hash_combine(e, z);
+        h += e;  // features may come in any order
       }
     }
     return h;
@@ -54,18 +56,16 @@ struct ApproxVectorHasher {
 };
 
 struct ApproxVectorEquals {
-  bool operator()(const SparseVector<double>& a, const SparseVector<double>& b) const {
-    SparseVector<double>::const_iterator bit = b.begin();
-    for (SparseVector<double>::const_iterator ait = a.begin(); ait != a.end(); ++ait) {
-      if (bit == b.end() ||
-          ait->first != bit->first ||
-          ApproxVectorHasher::round(ait->second) != ApproxVectorHasher::round(bit->second))
+  // are all values of a (approximately) the same in b?
+  static bool covers(const SparseVector<double>& a, const SparseVector<double>& b) {
+    for (SparseVector<double>::const_iterator it = a.begin(); it != a.end(); ++it)
+      if (ApproxVectorHasher::round(it->second) != ApproxVectorHasher::round(b.value(it->first)))
         return false;
-      ++bit;
-    }
-    if (bit != b.end()) return false;
     return true;
   }
+  bool operator()(const SparseVector<double>& a, const SparseVector<double>& b) const {
+    return covers(a, b) && covers(b, a);
+  }
 };
 
 struct CandidateCompare {
-- 
2.43.0


From e1f16310a43a4747fff64b5430310b47b9c43b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:15 +0000
Subject: [PATCH 066/131] fix: candidate files rounded features and could not
 be read without any

---
 training/utils/candidate_set.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/training/utils/candidate_set.cc b/training/utils/candidate_set.cc
index 147e4d2..78d349a 100644
--- a/training/utils/candidate_set.cc
+++ b/training/utils/candidate_set.cc
@@ -87,6 +87,7 @@ struct CandidateHasher {
 
 static void ParseSparseVector(string& line, size_t cur, SparseVector<double>* out) {
   SparseVector<double>& x = *out;
+  if (cur >= line.size()) return;  // no features
   size_t last_start = cur;
   size_t last_comma = string::npos;
   while(cur <= line.size()) {
@@ -113,7 +114,7 @@ static void ParseSparseVector(string& line, size_t cur, SparseVector<double>* ou
 void CandidateSet::WriteToFile(const string& file) const {
   WriteFile wf(file);
   ostream& out = *wf.stream();
-  out.precision(10);
+  out.precision(17);
   string ss;
   for (unsigned i = 0; i < cs.size(); ++i) {
     out << TD::GetString(cs[i].ewords) << endl;
-- 
2.43.0


From 1a9fc934520cacaf1614a5a58211cca417b77304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:15 +0000
Subject: [PATCH 067/131] fix: mr_pro_map never ended when a sentence had a
 single candidate

---
 training/pro/mr_pro_map.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/training/pro/mr_pro_map.cc b/training/pro/mr_pro_map.cc
index b142fd0..830db80 100644
--- a/training/pro/mr_pro_map.cc
+++ b/training/pro/mr_pro_map.cc
@@ -208,6 +208,7 @@ int main(int argc, char** argv) {
     J_i.AddKBestCandidates(hg, kbest_size, ds[sent_id]);
     J_i.WriteToFile(kbest_file);
 
+    if (J_i.size() < 2) continue;  // no pairs to sample
     Sample(gamma, xi, J_i, metric, &v);
     for (unsigned i = 0; i < v.size(); ++i) {
       const TrainingInstance& vi = v[i];
-- 
2.43.0


From c925d5e12ec31f4dd5de88c4ff500d986e1a0be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:15 +0000
Subject: [PATCH 068/131] fix: the held-out set leaked into the gradient of
 mr_pro_reduce

---
 training/pro/mr_pro_reduce.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/training/pro/mr_pro_reduce.cc b/training/pro/mr_pro_reduce.cc
index a61a3a5..7df9b38 100644
--- a/training/pro/mr_pro_reduce.cc
+++ b/training/pro/mr_pro_reduce.cc
@@ -163,7 +163,7 @@ struct ProLoss {
     double cll = TrainingInference(x, training, g);
     tppl = 0;
     if (testing.size())
-      tppl = pow(2.0, TrainingInference(x, testing, g) / (log(2) * testing.size()));
+      tppl = pow(2.0, TrainingInference(x, testing) / (log(2) * testing.size()));
     double ppl = cll / log(2);
     ppl /= training.size();
     ppl = pow(2.0, ppl);
-- 
2.43.0


From a2f3b801dd56d7d94cf0e5e317fb3a0f8e7b563f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:39 +0000
Subject: [PATCH 069/131] fix: batch optimizers left the point at which they
 had converged

---
 training/crf/mpi_batch_optimize.cc | 1 +
 training/utils/optimize.h          | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/training/crf/mpi_batch_optimize.cc b/training/crf/mpi_batch_optimize.cc
index da1845b..dc16643 100644
--- a/training/crf/mpi_batch_optimize.cc
+++ b/training/crf/mpi_batch_optimize.cc
@@ -343,6 +343,7 @@ int main(int argc, char** argv) {
         ++c;
         if (c > 1) { cerr << "Same lambdas, repeating optimization\n"; }
         o->Optimize(objective, gradient, &lambdas);
+        if (o->HasConverged()) break;
         assert(c < 5);
       }
       old.clear();
diff --git a/training/utils/optimize.h b/training/utils/optimize.h
index 07943b4..404d6c1 100644
--- a/training/utils/optimize.h
+++ b/training/utils/optimize.h
@@ -23,9 +23,10 @@ class BatchOptimizer {
                 std::vector<double>* x) {
     assert(g.size() == x->size());
     ++eval_;
-    OptimizeImpl(obj, g, x);
+    // g is the gradient at the current x, so test before moving away from it
     scitbx::lbfgs::traditional_convergence_test<double> converged(g.size());
     has_converged_ = converged(&(*x)[0], &g[0]);
+    if (!has_converged_) OptimizeImpl(obj, g, x);
   }
 
   void Save(std::ostream* out) const;
-- 
2.43.0


From 89c8b91c88d291b4d1967f9a73fc2e1e75c26a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:39 +0000
Subject: [PATCH 070/131] fix: RProp moved variables whose gradient is zero

---
 training/utils/optimize.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/training/utils/optimize.cc b/training/utils/optimize.cc
index 41ac90d..fa479f0 100644
--- a/training/utils/optimize.cc
+++ b/training/utils/optimize.cc
@@ -55,7 +55,7 @@ void RPropOptimizer::OptimizeImpl(const double& obj,
       delta_ij_[i] = max(delta_ij_[i] * eta_minus_, delta_min_);
       prev_g_[i] = 0.0;
     } else {
-      (*x)[i] -= delta_ij_[i] * sign_i;
+      if (g_i != 0.0) (*x)[i] -= delta_ij_[i] * sign_i;
       prev_g_[i] = g_i;
     }
   }
-- 
2.43.0


From f3980f4a1fdce8901289ed664424b80838df96a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:39 +0000
Subject: [PATCH 071/131] fix: the Gaussian prior was left out for weights that
 are zero

---
 training/crf/mpi_batch_optimize.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/training/crf/mpi_batch_optimize.cc b/training/crf/mpi_batch_optimize.cc
index dc16643..1a46d97 100644
--- a/training/crf/mpi_batch_optimize.cc
+++ b/training/crf/mpi_batch_optimize.cc
@@ -321,12 +321,9 @@ int main(int argc, char** argv) {
         const double sigsq = conf["sigma_squared"].as<double>();
         double norm = 0;
         for (int k = 1; k < lambdas.size(); ++k) {
-          const double& lambda_k = lambdas[k];
-          if (lambda_k) {
-            const double param = (lambda_k - means[k]);
-            norm += param * param;
-            gradient[k] += param / sigsq;
-          }
+          const double param = (lambdas[k] - means[k]);
+          norm += param * param;
+          gradient[k] += param / sigsq;
         }
         const double reg = norm / (2.0 * sigsq);
         cerr << "REGULARIZATION TERM: " << reg << endl;
-- 
2.43.0


From e1a71deaa0abc5895a835f1d593f955675ae556d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:18 +0000
Subject: [PATCH 072/131] fix: a new epoch gave back the L1 penalties of the
 last one

---
 training/utils/online_optimizer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/training/utils/online_optimizer.h b/training/utils/online_optimizer.h
index 19223e9..956e8e5 100644
--- a/training/utils/online_optimizer.h
+++ b/training/utils/online_optimizer.h
@@ -89,7 +89,7 @@ class CumulativeL1OnlineOptimizer : public OnlineOptimizer {
     OnlineOptimizer(s, training_instances, frozen), C_(C), u_() {}
 
  protected:
-  void ResetEpochImpl() { u_ = 0; }
+  void ResetEpochImpl() { u_ = 0; q_.clear(); }
   void UpdateWeightsImpl(const double& eta, const SparseVector<double>& approx_g, int max_feat, SparseVector<double>* weights) {
     u_ += eta * C_ / N_;
     for (SparseVector<double>::const_iterator it = approx_g.begin(); 
-- 
2.43.0


From f373a90b334ae2863f8ea9cc380db57aa917486b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:54 +0000
Subject: [PATCH 073/131] fix: TTable::Increment sized the counts by the table
 of probabilities

---
 word-aligner/ttables.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/word-aligner/ttables.h b/word-aligner/ttables.h
index b996422..4e5f5e9 100644
--- a/word-aligner/ttables.h
+++ b/word-aligner/ttables.h
@@ -31,7 +31,7 @@ class TTable {
     }
   }
   inline void Increment(const int& e, const int& f) {
-    if (e >= static_cast<int>(ttable.size())) counts.resize(e + 1);
+    if (e >= static_cast<int>(counts.size())) counts.resize(e + 1);
     counts[e][f] += 1.0;
   }
   inline void Increment(const int& e, const int& f, double x) {
-- 
2.43.0


From 5242692847bad0091714bd246c1c522af2385657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:54 +0000
Subject: [PATCH 074/131] fix: the derivative of the diagonal normaliser
 confused source and target lengths

---
 word-aligner/da.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/word-aligner/da.h b/word-aligner/da.h
index c979b64..94ccacc 100644
--- a/word-aligner/da.h
+++ b/word-aligner/da.h
@@ -41,7 +41,7 @@ struct DiagonalAlignment {
   }
 
   static double ComputeDLogZ(const unsigned i, const unsigned m, const unsigned n, const double alpha) {
-    const double z = ComputeZ(i, n, m, alpha);
+    const double z = ComputeZ(i, m, n, alpha);
     const double split = double(i) * n / m;
     const unsigned floor = split;
     const unsigned ceil = floor + 1;
-- 
2.43.0


From 012bc96dcdb50591de7be4556bcc7aceec6913b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:54 +0000
Subject: [PATCH 075/131] fix: fast_align took the diagonal feature of the
 previous target word

---
 word-aligner/fast_align.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/word-aligner/fast_align.cc b/word-aligner/fast_align.cc
index 73b7239..154f7d7 100644
--- a/word-aligner/fast_align.cc
+++ b/word-aligner/fast_align.cc
@@ -202,7 +202,7 @@ int main(int argc, char** argv) {
           for (unsigned i = 1; i <= src.size(); ++i) {
             const double p = probs[i] / sum;
             s2t.Increment(src[i-1], f_j, p);
-            emp_feat += DiagonalAlignment::Feature(j, i, trg.size(), src.size()) * p;
+            emp_feat += DiagonalAlignment::Feature(j + 1, i, trg.size(), src.size()) * p;
           }
         }
         likelihood += log(sum);
-- 
2.43.0


From 4ec82e33552586be9144d2af2ce54ef9d7188317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:34 +0000
Subject: [PATCH 076/131] fix: fast_align computed nan probabilities for a
 diagonal tension of zero

---
 word-aligner/da.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/word-aligner/da.h b/word-aligner/da.h
index 94ccacc..033a301 100644
--- a/word-aligner/da.h
+++ b/word-aligner/da.h
@@ -30,6 +30,7 @@ struct DiagonalAlignment {
     const unsigned floor = split;
     unsigned ceil = floor + 1;
     const double ratio = exp(-alpha / n);
+    if (ratio == 1.0) return n;  // no tension
     const unsigned num_top = n - floor;
     double ezt = 0;
     double ezb = 0;
@@ -47,6 +48,11 @@ struct DiagonalAlignment {
     const unsigned ceil = floor + 1;
     const double ratio = exp(-alpha / n);
     const double d = -1.0 / n;
+    if (ratio == 1.0) {  // no tension
+      double sum = 0;
+      for (unsigned j = 1; j <= n; ++j) sum += Feature(i, j, m, n);
+      return sum / n;
+    }
     const unsigned num_top = n - floor;
     double pct = 0;
     double pcb = 0;
-- 
2.43.0


From bcee09c513f140d8734a26ffc374408318163b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:05 +0000
Subject: [PATCH 077/131] fix: fast_align -V added Viterbi points, or read past
 their end

---
 word-aligner/fast_align.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/word-aligner/fast_align.cc b/word-aligner/fast_align.cc
index 154f7d7..ddc66bd 100644
--- a/word-aligner/fast_align.cc
+++ b/word-aligner/fast_align.cc
@@ -190,8 +190,10 @@ int main(int argc, char** argv) {
                   cout << (max_index - 1) << '-' << j;
               }
             }
-            if (s2t_viterbi.size() <= static_cast<unsigned>(max_i)) s2t_viterbi.resize(max_i + 1);
-            s2t_viterbi[max_i][f_j] = 1.0;
+            if (add_viterbi) {
+              if (s2t_viterbi.size() <= static_cast<unsigned>(max_i)) s2t_viterbi.resize(max_i + 1);
+              s2t_viterbi[max_i][f_j] = 1.0;
+            }
           }
         } else {
           if (use_null) {
@@ -309,6 +311,7 @@ int main(int argc, char** argv) {
 
   if (output_parameters) {
     WriteFile params_out(conf["output_parameters"].as<string>());
+    if (s2t_viterbi.size() < s2t.ttable.size()) s2t_viterbi.resize(s2t.ttable.size());
     for (unsigned eind = 1; eind < s2t.ttable.size(); ++eind) {
       const auto& cpd = s2t.ttable[eind];
       const TTable::Word2Double& vit = s2t_viterbi[eind];
-- 
2.43.0


From 95624a4a2c49c338d4fc38eb3bc22e8d7cea3e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:05 +0000
Subject: [PATCH 078/131] fix: fast_align -t 0 left out the most probable
 translation

---
 word-aligner/fast_align.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/word-aligner/fast_align.cc b/word-aligner/fast_align.cc
index ddc66bd..e571a12 100644
--- a/word-aligner/fast_align.cc
+++ b/word-aligner/fast_align.cc
@@ -321,7 +321,7 @@ int main(int argc, char** argv) {
         if (fi.second > max_p) max_p = fi.second;
       const double threshold = max_p * BEAM_THRESHOLD;
       for (auto& fi : cpd) {
-        if (fi.second > threshold || (vit.find(fi.first) != vit.end())) {
+        if (fi.second > threshold || fi.second == max_p || (vit.find(fi.first) != vit.end())) {
           *params_out << esym << ' ' << TD::Convert(fi.first) << ' ' << log(fi.second) << endl;
         }
       } 
-- 
2.43.0


From b8db7720fa6e9a50ddc52a2371621ab79fc9893c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:05 +0000
Subject: [PATCH 079/131] fix: fast_align -N -d reserved probability for the
 null word

---
 word-aligner/fast_align.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/word-aligner/fast_align.cc b/word-aligner/fast_align.cc
index e571a12..9c54858 100644
--- a/word-aligner/fast_align.cc
+++ b/word-aligner/fast_align.cc
@@ -86,7 +86,7 @@ int main(int argc, char** argv) {
   string testset;
   if (conf.count("testset")) testset = conf["testset"].as<string>();
   if (conf.count("force_align")) testset = fname;
-  double prob_align_null = conf["prob_align_null"].as<double>();
+  double prob_align_null = use_null ? conf["prob_align_null"].as<double>() : 0.0;
   double prob_align_not_null = 1.0 - prob_align_null;
   const double alpha = conf["alpha"].as<double>();
   const bool favor_diagonal = conf.count("favor_diagonal");
-- 
2.43.0


From 35a98b049d84d2b4fc4a9f8bacf46a0206fda463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:50 +0000
Subject: [PATCH 080/131] fix: --remove_intersected_rule_annotations permuted
 the antecedents of reordering rules

---
 decoder/decoder.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/decoder/decoder.cc b/decoder/decoder.cc
index 1e6c319..8386b78 100644
--- a/decoder/decoder.cc
+++ b/decoder/decoder.cc
@@ -1023,10 +1023,19 @@ bool DecoderImpl::Decode(const string& input, DecoderObserver* o) {
 //        for (int i = 0; i < forest.edges_.size(); ++i)
 //          forest.edges_[i].edge_prob_=prob_t::One(); }
       if (remove_intersected_rule_annotations) {
-        for (unsigned i = 0; i < forest.edges_.size(); ++i)
-          if (forest.edges_[i].rule_ &&
-              forest.edges_[i].rule_->parent_rule_)
-            forest.edges_[i].rule_ = forest.edges_[i].rule_->parent_rule_;
+        for (unsigned i = 0; i < forest.edges_.size(); ++i) {
+          Hypergraph::Edge& edge = forest.edges_[i];
+          if (edge.rule_ && edge.rule_->parent_rule_) {
+            // the annotated rule reads from target to source: its variables
+            // are in target order, the original's are in source order
+            const vector<WordID>& src = edge.rule_->e_;
+            Hypergraph::TailNodeVector tails;
+            for (unsigned j = 0; j < src.size(); ++j)
+              if (src[j] < 1) tails.push_back(edge.tail_nodes_[-src[j]]);
+            edge.tail_nodes_.swap(tails);
+            edge.rule_ = edge.rule_->parent_rule_;
+          }
+        }
       }
       forest.Reweight(last_weights);
       // this is mainly used for debugging, eventually this will be an assertion
-- 
2.43.0


From f1ce4606873b98c56390238883688c96230d17a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:23 +0000
Subject: [PATCH 081/131] fix: --show_cfg_search_space permuted the gaps of
 reordering rules

---
 decoder/hg_io.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decoder/hg_io.cc b/decoder/hg_io.cc
index e7ac0b0..27c7829 100644
--- a/decoder/hg_io.cc
+++ b/decoder/hg_io.cc
@@ -364,7 +364,8 @@ void HypergraphIO::WriteAsCFG(const Hypergraph& hg) {
       if (cur > 0) {
         f[j] = cur;
       } else {
-        tn[ntc++] = cur;
+        tn[-cur] = -ntc;
+        ++ntc;
         f[j] = cats[edge.tail_nodes_[-cur]];
       }
     }
-- 
2.43.0


From 3adb80d24e28a070f3f3c83a60ec68c7599864c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:39 +0000
Subject: [PATCH 082/131] fix: the phrase-based decoder could not parse its own
 concatenation rule

---
 decoder/phrasebased_translator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/phrasebased_translator.cc b/decoder/phrasebased_translator.cc
index 8415353..3000b5c 100644
--- a/decoder/phrasebased_translator.cc
+++ b/decoder/phrasebased_translator.cc
@@ -76,7 +76,7 @@ struct PhraseBasedTranslatorImpl {
   PhraseBasedTranslatorImpl(const boost::program_options::variables_map& conf) :
       add_pass_through_rules(conf.count("add_pass_through_rules")),
       max_distortion(conf["pb_max_distortion"].as<int>()),
-      kCONCAT_RULE(new TRule("[X] ||| [X,1] [X,2] ||| [X,1] [X,2]", true)),
+      kCONCAT_RULE(new TRule("[X] ||| [X,1] [X,2] ||| [1] [2]")),
       kNT_TYPE(TD::Convert("X") * -1) {
     assert(max_distortion >= 0);
     vector<string> gfiles = conf["grammar"].as<vector<string> >();
@@ -184,7 +184,7 @@ struct PhraseBasedTranslatorImpl {
       fst->ClearPassThroughTranslations();
     int pregoal_plus1 = c[goal_cov];
     if (pregoal_plus1 > 0) {
-      TRulePtr kGOAL_RULE(new TRule("[Goal] ||| [X,1] ||| [X,1]"));
+      TRulePtr kGOAL_RULE(new TRule("[Goal] ||| [X,1] ||| [1]"));
       int goal = minus_lm_forest->AddNode(TD::Convert("Goal") * -1)->id_;
       int gedge = minus_lm_forest->AddEdge(kGOAL_RULE, Hypergraph::TailNodeVector(1, pregoal_plus1 - 1))->id_;
       minus_lm_forest->ConnectEdgeToHeadNode(gedge, goal);
-- 
2.43.0


From 4b8a7ca0cf31bf5c8f377886e7804057d25ca4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:01 +0000
Subject: [PATCH 083/131] fix: the phrase-based decoder kept one of the first
 phrases that cover the same words of a lattice

---
 decoder/phrasebased_translator.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/decoder/phrasebased_translator.cc b/decoder/phrasebased_translator.cc
index 3000b5c..ac64229 100644
--- a/decoder/phrasebased_translator.cc
+++ b/decoder/phrasebased_translator.cc
@@ -145,7 +145,13 @@ struct PhraseBasedTranslatorImpl {
         new_cov.Cover(s.i, s.j);
         EnqueuePossibleContinuations(new_cov, &q, &ucs);
         const vector<TRulePtr>& phrases = s.fst->GetTranslations()->GetRules();
-        const int phrase_head_index = minus_lm_forest->AddNode(kNT_TYPE)->id_;
+        CoverageNodeMap::iterator cit = c.find(s.coverage);
+        assert(cit != c.end());
+        const int tail_node_plus1 = cit->second;
+        int& head_node_plus1 = c[new_cov];
+        // phrases that start the translation and cover the same words share a node
+        const int phrase_head_index = (tail_node_plus1 == 0 && head_node_plus1) ?
+            head_node_plus1 - 1 : minus_lm_forest->AddNode(kNT_TYPE)->id_;
         for (int i = 0; i < phrases.size(); ++i) {
           Hypergraph::Edge* edge = minus_lm_forest->AddEdge(phrases[i], Hypergraph::TailNodeVector());
           edge->feature_values_ = edge->rule_->scores_;
@@ -153,13 +159,9 @@ struct PhraseBasedTranslatorImpl {
           edge->j_ = s.j;
           minus_lm_forest->ConnectEdgeToHeadNode(edge->id_, phrase_head_index);
         }
-        CoverageNodeMap::iterator cit = c.find(s.coverage);
-        assert(cit != c.end());
-        const int tail_node_plus1 = cit->second;
         if (tail_node_plus1 == 0) {  // left edge
-          c[new_cov] = phrase_head_index + 1;
+          head_node_plus1 = phrase_head_index + 1;
         } else { // not left edge
-          int& head_node_plus1 = c[new_cov];
           if (!head_node_plus1)
             head_node_plus1 = minus_lm_forest->AddNode(kNT_TYPE)->id_ + 1;
           Hypergraph::TailNodeVector tail(2, tail_node_plus1 - 1);
-- 
2.43.0


From 242bc3ef774adc37af2ac95f3a14acdb4d8361c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:21 +0000
Subject: [PATCH 084/131] fix: dropping pass-through rules dropped the longer
 phrases that start with the same word

---
 decoder/phrasetable_fst.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/decoder/phrasetable_fst.cc b/decoder/phrasetable_fst.cc
index b3bec86..cc6a3ab 100644
--- a/decoder/phrasetable_fst.cc
+++ b/decoder/phrasetable_fst.cc
@@ -96,8 +96,13 @@ void TextFSTNode::AddPassThroughTranslation(const WordID& w, const SparseVector<
 }
 
 void TextFSTNode::ClearPassThroughTranslations() {
-  for (int i = 0; i < passthroughs.size(); ++i)
-    ptr.erase(passthroughs[i]);
+  for (int i = 0; i < passthroughs.size(); ++i) {
+    map<WordID, TextFSTNode>::iterator it = ptr.find(passthroughs[i]);
+    if (it->second.ptr.empty())
+      ptr.erase(it);
+    else  // keep the longer phrases that start with this word
+      it->second.data.reset();
+  }
   passthroughs.clear();
 }
 
-- 
2.43.0


From 81d55877a0b5aae4d9cf086b7095b36775d874e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:21 +0000
Subject: [PATCH 085/131] fix: Coverage::Cover read past the end of the
 coverage vector

---
 decoder/phrasebased_translator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/phrasebased_translator.cc b/decoder/phrasebased_translator.cc
index ac64229..70cb899 100644
--- a/decoder/phrasebased_translator.cc
+++ b/decoder/phrasebased_translator.cc
@@ -35,7 +35,7 @@ struct Coverage : public vector<bool> {
     if (first_gap == i) {
       first_gap = j;
       it = end;
-      while (*it && it != this->end()) {
+      while (it != this->end() && *it) {
         ++it;
         ++first_gap;
       }
-- 
2.43.0


From 381ce6fa940dfc405c8aeba7cb598e8f7515d1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:56 +0000
Subject: [PATCH 086/131] fix: the phrase-based decoder's estimate of nodes
 overflowed for large distortion limits

---
 decoder/phrasebased_translator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/phrasebased_translator.cc b/decoder/phrasebased_translator.cc
index 70cb899..141d391 100644
--- a/decoder/phrasebased_translator.cc
+++ b/decoder/phrasebased_translator.cc
@@ -115,7 +115,7 @@ struct PhraseBasedTranslatorImpl {
     LatticeTools::ConvertTextOrPLF(input, &lattice);
     smeta->SetSourceLength(lattice.size());
     smeta->ComputeInputLatticeType();
-    size_t est_nodes = lattice.size() * lattice.size() * (1 << max_distortion);
+    size_t est_nodes = lattice.size() * lattice.size() * (1 << min(max_distortion, 6));
     minus_lm_forest->ReserveNodes(est_nodes, est_nodes * 100);
     if (add_pass_through_rules) {
       SparseVector<double> feats;
-- 
2.43.0


From f58f1b1e533563d6eda3b9404c03831f399911d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:09 +0000
Subject: [PATCH 087/131] fix: read replies of the language model server that
 arrive in pieces

---
 decoder/ff_lm.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/decoder/ff_lm.cc b/decoder/ff_lm.cc
index 0780b26..e898cb3 100644
--- a/decoder/ff_lm.cc
+++ b/decoder/ff_lm.cc
@@ -136,19 +136,17 @@ struct LMClient {
     ++pos;
     request_buffer[pos] = 0;
     write(sock, request_buffer, pos);
-    int r = read(sock, res, 6);
     int errors = 0;
     int cnt = 0;
-    while (1) {
+    while (cnt < 6) {  // a reply may arrive in pieces
+      const int r = read(sock, &res[cnt], 6-cnt);
       if (r < 0) {
         errors++; sleep(1);
         cerr << "Error: read()\n";
         if (errors > 5) exit(1);
-      } else if (r==0 || res[cnt] == '\n') { break; }
+      } else if (r==0) { break; }
       else {
         cnt += r;
-        if (cnt==6) break;
-        read(sock, &res[cnt], 6-cnt);
       }
     }
     cur->prob = *reinterpret_cast<float*>(res);
-- 
2.43.0


From d948abeaf3cc67c5e1fd48bc093b770eb1c95330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:09 +0000
Subject: [PATCH 088/131] fix: keep the cached n-grams of different language
 model servers apart

---
 decoder/ff_lm.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ff_lm.cc b/decoder/ff_lm.cc
index e898cb3..0e04356 100644
--- a/decoder/ff_lm.cc
+++ b/decoder/ff_lm.cc
@@ -114,7 +114,7 @@ struct LMClient {
   }
 
   float wordProb(int word, WordID const* context) {
-    NgramCache::Cache* cur = &NgramCache::cache_;
+    NgramCache::Cache* cur = &NgramCache::cache_.tree[sock];  // separate for each server
     int i = 0;
     while (context[i] > 0) {
       cur = &cur->tree[context[i++]];
-- 
2.43.0


From 1a8b3e7d0072806234f3a1d271be1829601cc84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:08 +0000
Subject: [PATCH 089/131] fix: CMR2008ReorderingFeatures read past its table
 for spans of more than 15 words

---
 decoder/ff_spans.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ff_spans.cc b/decoder/ff_spans.cc
index 0ccac69..a58b448 100644
--- a/decoder/ff_spans.cc
+++ b/decoder/ff_spans.cc
@@ -237,7 +237,7 @@ void CMR2008ReorderingFeatures::TraversalFeaturesImpl(const SentenceMetadata& sm
   assert(edge.i_ >= 0);
   assert(edge.j_ > edge.i_);
   const bool is_reordered = IsArity2RuleReordered(*edge.rule_);
-  const unsigned span_size = edge.j_ - edge.i_;
+  const unsigned span_size = min<unsigned>(edge.j_ - edge.i_, fids_.size() - 1);
   if (use_collapsed_features_) {
     assert(!"not impl"); // TODO
   } else {
-- 
2.43.0


From 07bddb57e6d3561715f6f471611983e1d6790564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:08 +0000
Subject: [PATCH 090/131] fix: rule bigram features stopped at the first bigram
 unknown to a frozen feature set

---
 decoder/ff_rules.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/decoder/ff_rules.cc b/decoder/ff_rules.cc
index 9533cae..56cdbb8 100644
--- a/decoder/ff_rules.cc
+++ b/decoder/ff_rules.cc
@@ -97,8 +97,7 @@ void RuleSourceBigramFeatures::TraversalFeaturesImpl(const SentenceMetadata& sme
       ostringstream os;
       os << "RBS:" << prev << '_' << cur;
       const int fid = FD::Convert(Escape(os.str()));
-      if (fid <= 0) return;
-      f.add_value(fid, 1.0);
+      if (fid > 0) f.add_value(fid, 1.0);
       prev = cur;
     }
     ostringstream os;
@@ -147,8 +146,7 @@ void RuleTargetBigramFeatures::TraversalFeaturesImpl(const SentenceMetadata& sme
       ostringstream os;
       os << "RBT:" << prev << '_' << cur;
       const int fid = FD::Convert(Escape(os.str()));
-      if (fid <= 0) return;
-      f.add_value(fid, 1.0);
+      if (fid > 0) f.add_value(fid, 1.0);
       prev = cur;
     }
     ostringstream os;
-- 
2.43.0


From d7b646e4e37acd2c2686bd2724f8fd940043d33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:08 +0000
Subject: [PATCH 091/131] fix: WordSet --oov counted the variables of rules as
 unknown words

---
 decoder/ff_wordset.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decoder/ff_wordset.cc b/decoder/ff_wordset.cc
index 9be6f2e..c654f94 100644
--- a/decoder/ff_wordset.cc
+++ b/decoder/ff_wordset.cc
@@ -63,6 +63,7 @@ void WordSet::TraversalFeaturesImpl(const SentenceMetadata& /*smeta*/ ,
 				    void* /* context */) const {
   double addScore = 0.0;
   for(vector<WordID>::const_iterator it = edge.rule_->e_.begin(); it != edge.rule_->e_.end(); ++it) {
+    if (*it <= 0) continue;  // variables are no words
     bool inVocab = (vocab_.find(*it) != vocab_.end());
     if(oovMode_ && !inVocab) {
       addScore += 1.0;
-- 
2.43.0


From 0c037b1763c5153091dc00abe8d97444358692cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:08 +0000
Subject: [PATCH 092/131] fix: RuleShape2 took rules with the same classes
 divided differently between the two sides for each other

---
 decoder/ff_ruleshape.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decoder/ff_ruleshape.cc b/decoder/ff_ruleshape.cc
index 35b41c4..dd71e89 100644
--- a/decoder/ff_ruleshape.cc
+++ b/decoder/ff_ruleshape.cc
@@ -218,6 +218,7 @@ void RuleShapeFeatures2::TraversalFeaturesImpl(const SentenceMetadata& /* smeta
       fid = &fid->next_[MapF(f[i])];
   }
   if (has_trg_) {
+    if (has_src_) fid = &fid->next_[0];  // end of the source side
     for (unsigned i = 0; i < e.size(); ++i)
       fid = &fid->next_[MapE(e[i])];
   }
-- 
2.43.0


From 4ce3fb5ae35e2bc19d7e4b2c6ef7b89a6e4c18e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:08 +0000
Subject: [PATCH 093/131] fix: ParseMatchFeatures used an uninitialised
 distance for words that are no constituents

---
 decoder/ff_parse_match.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ff_parse_match.cc b/decoder/ff_parse_match.cc
index 5802697..a45af17 100644
--- a/decoder/ff_parse_match.cc
+++ b/decoder/ff_parse_match.cc
@@ -108,7 +108,7 @@ struct ParseMatchFeaturesImpl {
     //cerr << "span: " << i << " " << j << endl;
     const WordID lhs = src_tree(i,j);
     int fid_ef = FD::Convert("PM");
-    int min_dist; // minimal distance to next syntactic constituent of this rule's LHS
+    int min_dist = j - i; // minimal distance to next syntactic constituent of this rule's LHS
     int summed_min_dists; // minimal distances of LHS and NTs summed up
     if (TD::Convert(lhs).compare("XX") != 0)
         min_dist= 0;
-- 
2.43.0


From 1351726a3fed6f584a76a86f930737281e7aa559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:08 +0000
Subject: [PATCH 094/131] fix: relative scores of ParseMatchFeatures were
 rounded to 0 or 1

---
 decoder/ff_parse_match.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ff_parse_match.cc b/decoder/ff_parse_match.cc
index a45af17..a0fb8e8 100644
--- a/decoder/ff_parse_match.cc
+++ b/decoder/ff_parse_match.cc
@@ -172,7 +172,7 @@ struct ParseMatchFeaturesImpl {
         break;
       case 3:
         // relative scoring
-        feats->set_value(fid_ef, (j-i)/((j-i) + min_dist));
+        feats->set_value(fid_ef, static_cast<double>(j-i)/((j-i) + min_dist));
         break;
       default:
         // binary scoring in case nothing is defined
-- 
2.43.0


From 7229e74ed36c8ed05470ee9811ae2e858a2788de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:09 +0000
Subject: [PATCH 095/131] fix: SoftSyntaxFeaturesMindist used an uninitialised
 distance for words that are no constituents

---
 decoder/ff_soft_syntax_mindist.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ff_soft_syntax_mindist.cc b/decoder/ff_soft_syntax_mindist.cc
index a23f70f..72ba543 100644
--- a/decoder/ff_soft_syntax_mindist.cc
+++ b/decoder/ff_soft_syntax_mindist.cc
@@ -102,7 +102,7 @@ struct SoftSyntaxFeaturesMindistImpl {
 	  //cerr << "RULE :"<< rule << endl;
     int& fid_ef = fids_ef(i,j)[&rule];
     string lhs_to_str = TD::Convert(lhs);
-    int min_dist;
+    int min_dist = j - i;
     string min_dist_label;
     if (lhs_to_str.compare("XX") != 0) {
       min_dist = 0;
-- 
2.43.0


From d78bc8d4e91d27d226bd74fd8e7ecea90a50078b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:26 +0000
Subject: [PATCH 096/131] fix: SourceSyntaxFeatures and SourceSpanSizeFeatures
 gave all splits of a rule's span the features of the first

---
 decoder/ff_source_syntax.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/decoder/ff_source_syntax.cc b/decoder/ff_source_syntax.cc
index f6f673d..a4a70c0 100644
--- a/decoder/ff_source_syntax.cc
+++ b/decoder/ff_source_syntax.cc
@@ -100,7 +100,7 @@ struct SourceSyntaxFeaturesImpl {
     //cerr << "fire features: " << rule.AsString() << " for " << i << "," << j << endl;
     const WordID lhs = src_tree(i,j);
     //int& fid_cat = fids_cat(i,j);
-    int& fid_ef = fids_ef(i,j)[&rule];
+    int& fid_ef = fids_ef(i,j)[make_pair(&rule, vector<int>(ants, ants + rule.Arity()))];
     if (fid_ef <= 0) {
       ostringstream os;
       //ostringstream os2;
@@ -144,7 +144,7 @@ struct SourceSyntaxFeaturesImpl {
 
   Array2D<WordID> src_tree; // src_tree(i,j) NT = type
   // mutable Array2D<int> fids_cat; // this tends to overfit baddly
-  mutable Array2D<map<const TRule*, int> > fids_ef; // fires for fully lexicalized
+  mutable Array2D<map<pair<const TRule*, vector<int> >, int> > fids_ef; // fires for fully lexicalized
   unordered_set<int> feature_filter;
 };
 
@@ -189,7 +189,7 @@ struct SourceSpanSizeFeaturesImpl {
 
   int FireFeatures(const TRule& rule, const int i, const int j, const WordID* ants, SparseVector<double>* feats) {
     if (rule.Arity() > 0) {
-      int& fid = fids(i,j)[&rule];
+      int& fid = fids(i,j)[make_pair(&rule, vector<int>(ants, ants + rule.Arity()))];
       if (fid <= 0) {
         ostringstream os;
         os << "SSS:";
@@ -220,7 +220,7 @@ struct SourceSpanSizeFeaturesImpl {
     return SpanSizeTransform(j - i);
   }
 
-  mutable Array2D<map<const TRule*, int> > fids;
+  mutable Array2D<map<pair<const TRule*, vector<int> >, int> > fids;
 };
 
 SourceSpanSizeFeatures::SourceSpanSizeFeatures(const string& param) :
-- 
2.43.0


From 34fc4de611f6b3a703d475b7046281d471d0e7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:26 +0000
Subject: [PATCH 097/131] fix: SourcePathFeatures took the last word of a
 variable for its first

---
 decoder/ff_source_path.cc | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/decoder/ff_source_path.cc b/decoder/ff_source_path.cc
index 2a3bee2..c26beba 100644
--- a/decoder/ff_source_path.cc
+++ b/decoder/ff_source_path.cc
@@ -4,7 +4,7 @@
 
 using namespace std;
 
-SourcePathFeatures::SourcePathFeatures(const string& param) : FeatureFunction(sizeof(int)) {}
+SourcePathFeatures::SourcePathFeatures(const string& param) : FeatureFunction(2 * sizeof(WordID)) {}
 
 void SourcePathFeatures::FireBigramFeature(WordID prev, WordID cur, SparseVector<double>* features) const {
   int& fid = bigram_fids[prev][cur];
@@ -24,19 +24,26 @@ void SourcePathFeatures::TraversalFeaturesImpl(const SentenceMetadata& smeta,
                                                SparseVector<double>* features,
                                                SparseVector<double>* estimated_features,
                                                void* context) const {
-  WordID* res = reinterpret_cast<WordID*>(context);
+  WordID* res = reinterpret_cast<WordID*>(context);  // first and last word
+  res[0] = 0;
   const vector<int>& f = edge.rule_->f();
   int prev = 0;
   unsigned ntc = 0;
   for (unsigned i = 0; i < f.size(); ++i) {
-    int cur = f[i];
-    if (cur < 0)
-      cur = *reinterpret_cast<const WordID*>(ant_contexts[ntc++]);
-    else
-      FireUnigramFeature(cur, features);
-    if (prev) FireBigramFeature(prev, cur, features);
-    prev = cur;
+    int first = f[i];
+    int last = first;
+    if (first < 0) {
+      const WordID* ant = reinterpret_cast<const WordID*>(ant_contexts[ntc++]);
+      first = ant[0];
+      last = ant[1];
+      if (!first) continue;
+    } else {
+      FireUnigramFeature(first, features);
+    }
+    if (prev) FireBigramFeature(prev, first, features);
+    if (!res[0]) res[0] = first;
+    prev = last;
   }
-  *res = prev;
+  res[1] = prev;
 }
 
-- 
2.43.0


From 3177ddb66cdfc3eff4bac77c7955dfca2373edc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:43 +0000
Subject: [PATCH 098/131] fix: NgramFeatures of order 3 and above put <s> where
 it was forgotten at the first word

State keeps the most recent word at index order - 2; BeginSentenceState wrote
the marker at index 0, which coincides with it for bigrams only, so that no
n-gram starting with <s> was ever produced for higher orders.
---
 decoder/ff_ngrams.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ff_ngrams.cc b/decoder/ff_ngrams.cc
index a45bd27..982e15a 100644
--- a/decoder/ff_ngrams.cc
+++ b/decoder/ff_ngrams.cc
@@ -173,7 +173,7 @@ class NgramDetectorImpl {
 
   inline const State<5> BeginSentenceState() const {
     State<5> state(order_);
-    state.state[0] = kSOS_;
+    if (order_ > 1) state.state[order_ - 2] = kSOS_;  // the last word read is last
     return state;
   }
 
-- 
2.43.0


From db85245cc59ffca724ea8c1e215a483d62b3547b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:42 +0000
Subject: [PATCH 099/131] fix: tree-to-string rules with labels like ',' are
 read

The source side of a tree-to-string rule was handed to the lexer of
synchronous rules, which aborts at labels with a comma or a bracket (the
part-of-speech tag ',' of treebanks is one).
---
 decoder/tree2string_translator.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/decoder/tree2string_translator.cc b/decoder/tree2string_translator.cc
index cdd83ff..62f2132 100644
--- a/decoder/tree2string_translator.cc
+++ b/decoder/tree2string_translator.cc
@@ -60,11 +60,17 @@ static void ReadTree2StringGrammar(istream* in, Tree2StringGrammarNode* root, bo
         frhs.push_back(sym);
       } // else internal NT, nothing to do
     }
-    os << '[' << TD::Convert(-lhs) << "] |||";
+    // labels of trees (e.g. the POS tag ",") may be none that the rule lexer
+    // takes, it sees another label for these
+    auto label = [](int nt) {
+      const string& s = TD::Convert(-nt);
+      return '[' + (s.find_first_of(",[]") == string::npos ? s : string("X")) + ']';
+    };
+    os << label(lhs) << " |||";
     for (auto x : frhs) {
       os << ' ';
       if (x < 0)
-        os << '[' << TD::Convert(-x) << ']';
+        os << label(x);
       else
         os << TD::Convert(x);
     }
@@ -75,6 +81,8 @@ static void ReadTree2StringGrammar(istream* in, Tree2StringGrammarNode* root, bo
       os << " ||| " << fields[1] << " ||| " << fields[2];
       if (fields.size() > 3) os << " ||| " << fields[3];
       rule.reset(new TRule(os.str()));
+      rule->lhs_ = lhs;
+      rule->f_ = frhs;
     }
     cur->rules.push_back(rule);
     //cerr << "RULE: " << rule->AsString() << "\n\n";
-- 
2.43.0


From 3a705f21d242152a8c550dff281fce5a3334afa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:40 +0000
Subject: [PATCH 100/131] fix: tree-to-string rules apply where their fragment
 is found only

The trie of rules was indexed by the symbols of the fragments' depth-first
traversals, which are the same for (A (B [X]) [Y]) and (A (B [X] [Y])):
rules were applied to trees of another structure.
---
 decoder/tree2string_translator.cc | 32 +++++++++++++++++++------------
 decoder/tree_fragment.h           |  2 ++
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/decoder/tree2string_translator.cc b/decoder/tree2string_translator.cc
index 62f2132..2c9f079 100644
--- a/decoder/tree2string_translator.cc
+++ b/decoder/tree2string_translator.cc
@@ -1,4 +1,5 @@
 #include <algorithm>
+#include <cstdint>
 #include <vector>
 #include <queue>
 #include <map>
@@ -19,10 +20,16 @@
 using namespace std;
 
 struct Tree2StringGrammarNode {
-  map<unsigned, Tree2StringGrammarNode> next;
+  map<uint64_t, Tree2StringGrammarNode> next;
   vector<TRulePtr> rules;
 };
 
+// the symbols of a DFS traversal do not tell (A (B b) c) from (A (B b c)), so
+// the grammar trie is indexed by symbols and their depths
+static inline uint64_t TrieKey(const cdec::TreeFragment::iterator& it) {
+  return (static_cast<uint64_t>(it.depth()) << 32) | *it;
+}
+
 // this needs to be rewritten so it is fast and checks errors well
 // use a lexer probably
 static void ReadTree2StringGrammar(istream* in, Tree2StringGrammarNode* root, bool has_multiple_states) {
@@ -50,9 +57,10 @@ static void ReadTree2StringGrammar(istream* in, Tree2StringGrammarNode* root, bo
     // build source RHS for SCFG projection
     vector<int> frhs;
     // we traverse the rule_src in left to right, DFS order
-    for (auto sym : rule_src) {
+    for (auto it = rule_src.begin(); !it.at_end(); ++it) {
+      const unsigned sym = *it;
       //cerr << TD::Convert(sym & cdec::ALL_MASK) << endl;
-      cur = &cur->next[sym];
+      cur = &cur->next[TrieKey(it)];
       if (cdec::IsFrontier(sym)) {  // frontier symbols -> variables
         int nt = (sym & cdec::ALL_MASK);
         frhs.push_back(-nt);
@@ -201,10 +209,10 @@ struct Tree2StringTranslatorImpl {
       cur = &it->second;
       bool failed = false;
       vector<int> trg;
-      for (auto sym : src) {
-        it = cur->next.find(sym);
+      for (auto sit = src.begin(); !sit.at_end(); ++sit) {
+        it = cur->next.find(TrieKey(sit));
         if (it == cur->next.end()) { failed = true; break; }
-        if (cdec::IsFrontier(sym)) trg.push_back(-trg.size());
+        if (cdec::IsFrontier(*sit)) trg.push_back(-trg.size());
         cur = &it->second;
       }
       if (failed) continue;
@@ -272,8 +280,8 @@ struct Tree2StringTranslatorImpl {
       // the following reduces ambiguity quite a lot
       if (abstract_rule && DoesAbstractPassThroughRuleExist(transducer_state, rule_src)) continue; 
       cur = &cur->next[transducer_state];
-      for (auto sym : rule_src)
-        cur = &cur->next[sym];
+      for (auto it = rule_src.begin(); !it.at_end(); ++it)
+        cur = &cur->next[TrieKey(it)];
       TRulePtr rule(new TRule(rhse, rhsf, lhs));
       rule->a_.push_back(AlignmentPoint(0, 0));
       rule->ComputeArity();
@@ -366,7 +374,7 @@ struct Tree2StringTranslatorImpl {
       } else { // more input tree to match
         unsigned sym = *s.in_iter;
         if (cdec::IsLHS(sym)) {
-          auto nit = s.node->next.find(sym);
+          auto nit = s.node->next.find(TrieKey(s.in_iter));
           if (nit != s.node->next.end()) {
             //cerr << "MATCHED LHS: " << TD::Convert(sym & cdec::ALL_MASK) << endl;
             ParserState news(++s.in_iter, &nit->second, s);
@@ -376,8 +384,8 @@ struct Tree2StringTranslatorImpl {
           //cerr << "Attempting to match RHS: " << TD::Convert(sym & cdec::ALL_MASK) << endl;
           cdec::TreeFragment::iterator var = s.in_iter;
           var.truncate();
-          auto nit1 = s.node->next.find(sym);
-          auto nit2 = s.node->next.find(*var);
+          auto nit1 = s.node->next.find(TrieKey(s.in_iter));
+          auto nit2 = s.node->next.find(TrieKey(var));
           if (nit2 != s.node->next.end()) {
             //cerr << "MATCHED VAR RHS: " << TD::Convert(sym & cdec::ALL_MASK) << endl;
             ++var;
@@ -398,7 +406,7 @@ struct Tree2StringTranslatorImpl {
           }
           //else { cerr << "did not match " << TD::Convert(sym & cdec::ALL_MASK) << "\n"; }
         } else if (cdec::IsTerminal(sym)) {
-          auto nit = s.node->next.find(sym);
+          auto nit = s.node->next.find(TrieKey(s.in_iter));
           if (nit != s.node->next.end()) {
             //cerr << "MATCHED TERMINAL: " << TD::Convert(sym) << endl;
             const ParserState new_s(++s.in_iter, &nit->second, s);
diff --git a/decoder/tree_fragment.h b/decoder/tree_fragment.h
index e19b79f..14ae734 100644
--- a/decoder/tree_fragment.h
+++ b/decoder/tree_fragment.h
@@ -164,6 +164,8 @@ class DepthFirstIterator : public std::iterator<std::forward_iterator_tag, unsig
     assert(IsRHS(sym));
     return q_.back().node;
   }
+  // number of nodes from the root of the traversal to the one *this is in
+  unsigned depth() const { return q_.size(); }
   DepthFirstIterator remainder() const {
     assert(IsRHS(sym));
     return DepthFirstIterator(tf_, q_.back());
-- 
2.43.0


From 24701e0bc25c1d2acc04b740c01006228e093642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:44 +0000
Subject: [PATCH 101/131] fix: coarse-to-fine decoding keeps the costs of
 lattice arcs

Refined edges took over a feature LatticeCost only, which the parser does
not set: the costs are LatticeCost_0, LatticeCost_1, ..., and were lost.
---
 decoder/scfg_translator.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/decoder/scfg_translator.cc b/decoder/scfg_translator.cc
index b77fbf0..0049496 100644
--- a/decoder/scfg_translator.cc
+++ b/decoder/scfg_translator.cc
@@ -301,6 +301,12 @@ struct SCFGTranslatorImpl {
             endl << "Could not find refinement for: " << coarse_rule_ptr->AsString() << " on edge " << edge_id << " spanning " << edge.i_ << "," << edge.j_ << endl;
           abort();
         }
+        // what the edge has besides the rule's features comes from the input lattice
+        SparseVector<double> lattice_feats;
+        for (auto& f : edge.feature_values_) {
+          const double v = f.second - coarse_rule_ptr->GetFeatureValues().value(f.first);
+          if (v) lattice_feats.set_value(f.first, v);
+        }
         // fine rules apply only if state splits on tail nodes match fine rule nonterminals
         foreach(TRulePtr& fine_rule_ptr, *(coarse_rule_ptr->fine_rules_)) {
           Hypergraph::TailNodeVector tail;
@@ -319,8 +325,7 @@ struct SCFGTranslatorImpl {
             new_edge->i_ = edge.i_;
             new_edge->j_ = edge.j_;
             new_edge->feature_values_ = fine_rule_ptr->GetFeatureValues();
-            new_edge->feature_values_.set_value(FD::Convert("LatticeCost"),
-              edge.feature_values_.value(FD::Convert("LatticeCost")));
+            new_edge->feature_values_ += lattice_feats;
             Hypergraph::Node* head_node;
             Split2Node::iterator it = s2n.find(StateSplit(node.id_, cat));
             if (it == s2n.end()){
-- 
2.43.0


From f9fdd4c9fc74295d2b2523fa3e173646fc80560e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:06 +0000
Subject: [PATCH 102/131] fix: -X prints no more translations than were sampled

---
 decoder/decoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/decoder.cc b/decoder/decoder.cc
index 8386b78..35eda85 100644
--- a/decoder/decoder.cc
+++ b/decoder/decoder.cc
@@ -248,7 +248,7 @@ struct DecoderImpl {
     }
     sort(dist.begin(), dist.end(), SampleSort());
     if (k) {
-      for (int i = 0; i < k; ++i)
+      for (int i = 0; i < k && i < dist.size(); ++i)
         cout << dist[i].first << " ||| " << dist[i].second << endl;
     } else {
       cout << dist[0].second << endl;
-- 
2.43.0


From 665e655454d9ce42f1e043441e9b8159220b01bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:21 +0000
Subject: [PATCH 103/131] fix: the maximum translation is that of the whole
 forest when several nodes lead to the goal

---
 decoder/maxtrans_blunsom.cc | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/decoder/maxtrans_blunsom.cc b/decoder/maxtrans_blunsom.cc
index a9f65fa..3e85164 100644
--- a/decoder/maxtrans_blunsom.cc
+++ b/decoder/maxtrans_blunsom.cc
@@ -86,13 +86,9 @@ struct Candidate {
       p *= ant.inside_prob_;
     }
     prob_t edge_estimate = prob_t::One();
-    if (is_goal) {
-      assert(tail.size() == 1);
-      out_edge_.edge_prob_ = in_edge.edge_prob_;
-    } else {
-      in_edge.rule_->ESubstitute(ants, &state_);
-      out_edge_.edge_prob_ = in_edge.edge_prob_;
-    }
+    if (is_goal) assert(tail.size() == 1);
+    in_edge.rule_->ESubstitute(ants, &state_);
+    out_edge_.edge_prob_ = in_edge.edge_prob_;
     inside_prob_ = out_edge_.edge_prob_ * p;
     est_prob_ = inside_prob_ * edge_estimate;
   }
@@ -169,11 +165,10 @@ public:
       KBest(i, i == goal_id);
     }
     cerr << endl;
-    int best_node = D[goal_id].front()->in_edge_->tail_nodes_.front();
-    Candidate& best = *D[best_node].front();
+    Candidate& best = *D[goal_id].front();
     cerr << "  Best path: " << log(best.inside_prob_)
          << "\t" << log(best.est_prob_) << endl;
-    cout << TD::GetString(D[best_node].front()->state_) << endl;
+    cout << TD::GetString(best.state_) << endl;
     FreeAll();
   }
 
-- 
2.43.0


From a017c84cd067ee0f65b07de971aa7f44f76a8bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:57 +0000
Subject: [PATCH 104/131] fix: cdec decodes a last input line without a line
 end once

---
 decoder/cdec.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/decoder/cdec.cc b/decoder/cdec.cc
index cc3fcff..3c116c8 100644
--- a/decoder/cdec.cc
+++ b/decoder/cdec.cc
@@ -24,8 +24,7 @@ int main(int argc, char** argv) {
 #ifdef CP_TIME
     clock_t time_cp(0);//, end_cp;
 #endif
-  while(*in) {
-    getline(*in, buf);
+  while(getline(*in, buf)) {
     if (buf.empty()) continue;
     decoder.Decode(buf);
   }
-- 
2.43.0


From 3e6ca653da9721e72b7a0e4aa88aff8a599db521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:56 +0000
Subject: [PATCH 105/131] fix: each rescoring pass uses its own intersection
 strategy

---
 decoder/decoder.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/decoder.cc b/decoder/decoder.cc
index 35eda85..f40c0a3 100644
--- a/decoder/decoder.cc
+++ b/decoder/decoder.cc
@@ -585,11 +585,11 @@ DecoderImpl::DecoderImpl(po::variables_map& conf, int argc, char** argv, istream
       if (LowercaseString(str(isn.c_str(),conf)) == "full") {
         palg = 0;
       }
-      if (LowercaseString(conf["intersection_strategy"].as<string>()) == "fast_cube_pruning") {
+      if (LowercaseString(str(isn.c_str(),conf)) == "fast_cube_pruning") {
         palg = 2;
         cerr << "Using Fast Cube Pruning intersection (see Algorithm 2 described in: Gesmundo A., Henderson J,. Faster Cube Pruning, IWSLT 2010).\n";
       }
-      if (LowercaseString(conf["intersection_strategy"].as<string>()) == "fast_cube_pruning_2") {
+      if (LowercaseString(str(isn.c_str(),conf)) == "fast_cube_pruning_2") {
         palg = 3;
         cerr << "Using Fast Cube Pruning 2 intersection (see Algorithm 3 described in: Gesmundo A., Henderson J,. Faster Cube Pruning, IWSLT 2010).\n";
       }
-- 
2.43.0


From 3ae1e7e5fe7f619dfadc1980a8d6439b7e7d999b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:38 +0000
Subject: [PATCH 106/131] fix: mpi_adagrad_optimize starts from the weights
 given with -w

---
 training/crf/mpi_adagrad_optimize.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/training/crf/mpi_adagrad_optimize.cc b/training/crf/mpi_adagrad_optimize.cc
index bac5732..5713b4b 100644
--- a/training/crf/mpi_adagrad_optimize.cc
+++ b/training/crf/mpi_adagrad_optimize.cc
@@ -298,8 +298,8 @@ int main(int argc, char** argv) {
 
   // load initial weights
   vector<weight_t> init_weights;
-  if (conf.count("input_weights"))
-    Weights::InitFromFile(conf["input_weights"].as<string>(), &init_weights);
+  if (conf.count("weights"))
+    Weights::InitFromFile(conf["weights"].as<string>(), &init_weights);
 
   vector<string> corpus, test_corpus;
   vector<int> ids;
-- 
2.43.0


From 5fd8910d00ab61f69422a50effa9300fb62db161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:38 +0000
Subject: [PATCH 107/131] fix: mpi_adagrad_optimize does not train on the test
 data

---
 training/crf/mpi_adagrad_optimize.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/training/crf/mpi_adagrad_optimize.cc b/training/crf/mpi_adagrad_optimize.cc
index 5713b4b..05a3aec 100644
--- a/training/crf/mpi_adagrad_optimize.cc
+++ b/training/crf/mpi_adagrad_optimize.cc
@@ -302,11 +302,11 @@ int main(int argc, char** argv) {
     Weights::InitFromFile(conf["weights"].as<string>(), &init_weights);
 
   vector<string> corpus, test_corpus;
-  vector<int> ids;
+  vector<int> ids, test_ids;
   ReadTrainingCorpus(conf["training_data"].as<string>(), rank, size, &corpus, &ids);
   assert(corpus.size() > 0);
   if (conf.count("test_data"))
-    ReadTrainingCorpus(conf["test_data"].as<string>(), rank, size, &corpus, &ids);
+    ReadTrainingCorpus(conf["test_data"].as<string>(), rank, size, &test_corpus, &test_ids);
 
   const unsigned size_per_proc = conf["minibatch_size_per_proc"].as<unsigned>();
   if (size_per_proc > corpus.size()) {
-- 
2.43.0


From debd383961b516b679e33bcfe91eb5fac52900ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:15 +0000
Subject: [PATCH 108/131] fix: dtrain does not look for a reference past the
 end of a bitext

---
 training/dtrain/dtrain.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/training/dtrain/dtrain.cc b/training/dtrain/dtrain.cc
index ccb50af..5cc2ecf 100644
--- a/training/dtrain/dtrain.cc
+++ b/training/dtrain/dtrain.cc
@@ -315,7 +315,7 @@ main(int argc, char** argv)
     bool next = false, stop = false; // next iteration or premature stop
     if (t == 0) {
       if(!getline(*input, in)) next = true;
-      if(read_bitext) {
+      if(read_bitext && !next) {
         vector<string> strs;
         boost::algorithm::split_regex(strs, in, boost::regex(" \\|\\|\\| "));
         in = strs[0];
-- 
2.43.0


From a7ec4033a62b6fc77207c88f11ce0d1d1a1293d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:14 +0000
Subject: [PATCH 109/131] fix: kbest_mira decodes with and writes the current
 weights, and stops after the last pass

---
 training/mira/kbest_mira.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/training/mira/kbest_mira.cc b/training/mira/kbest_mira.cc
index 2868de0..b7e68ef 100644
--- a/training/mira/kbest_mira.cc
+++ b/training/mira/kbest_mira.cc
@@ -250,7 +250,6 @@ int main(int argc, char** argv) {
   vector<int> order;
   RandomPermutation(corpus.size(), &order);
   while (lcount <= max_iteration) {
-    lambdas.init_vector(&dense_weights);
     if ((cur_sent * 40 / corpus.size()) > dots) { ++dots; cerr << '.'; }
     if (corpus.size() == cur_sent) {
       cerr << " [AVG METRIC LAST PASS=" << (tot_loss / corpus.size()) << "]\n";
@@ -269,6 +268,8 @@ int main(int argc, char** argv) {
       ++cur_pass;
       RandomPermutation(corpus.size(), &order);
     }
+    lambdas.init_vector(&dense_weights);
+    if (lcount == max_iteration) break;
     if (cur_sent == 0) {
       cerr << "PASS " << (lcount / corpus.size() + 1) << endl;
     }
-- 
2.43.0


From cda69f304c54e49c735d533e599c18c07c06c065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:14 +0000
Subject: [PATCH 110/131] fix: dtrain's XYX sampling compares the middle with
 the low translations, within the list

---
 training/dtrain/pairsampling.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/training/dtrain/pairsampling.h b/training/dtrain/pairsampling.h
index 1a3c498..8ea85f2 100644
--- a/training/dtrain/pairsampling.h
+++ b/training/dtrain/pairsampling.h
@@ -57,7 +57,7 @@ partXYX(vector<ScoredHyp>* s, vector<pair<ScoredHyp,ScoredHyp> >& training, scor
   unsigned sz = s->size();
   if (sz < 2) return;
   sort(s->begin(), s->end(), cmp_hyp_by_score_d);
-  unsigned sep = round(sz*hi_lo);
+  unsigned sep = std::max(1.0f, std::round(sz*hi_lo)); // at least one at either end
   unsigned sep_hi = sep;
   if (sz > 4) while (sep_hi < sz && (*s)[sep_hi-1].score == (*s)[sep_hi].score) ++sep_hi;
   else sep_hi = 1;
@@ -82,8 +82,8 @@ partXYX(vector<ScoredHyp>* s, vector<pair<ScoredHyp,ScoredHyp> >& training, scor
   }
   unsigned sep_lo = sz-sep;
   while (sep_lo > 0 && (*s)[sep_lo-1].score == (*s)[sep_lo].score) --sep_lo;
-  for (unsigned i = sep_hi; i < sz-sep_lo; i++) {
-    for (unsigned j = sz-sep_lo; j < sz; j++) {
+  for (unsigned i = sep_hi; i < sep_lo; i++) {
+    for (unsigned j = sep_lo; j < sz; j++) {
       if (misranked_only && !((*s)[i].model <= (*s)[j].model)) continue;
       if (threshold > 0) {
         if (accept_pair((*s)[i].score, (*s)[j].score, threshold))
-- 
2.43.0


From c18bad46c0946324572d5f172a92640e2a997c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:43 +0000
Subject: [PATCH 111/131] fix: filter-length.pl does not print the lines it
 counts as badly formatted

---
 corpus/filter-length.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corpus/filter-length.pl b/corpus/filter-length.pl
index f878a54..728803b 100755
--- a/corpus/filter-length.pl
+++ b/corpus/filter-length.pl
@@ -116,7 +116,7 @@ while(<F>) {
   if ($lines % 100000 == 0) { print STDERR " [$lines]\n"; }
   elsif ($lines % 2500 == 0) { print STDERR "."; }
   my ($sf, $se, @d) = split /\s*\|\|\|\s*| *\t */;
-  if (!defined $se) { next; }
+  if (scalar @d != 0 or !defined $se) { next; }
   my @fs = split /\s+/, $sf;
   my @es = split /\s+/, $se;
   my $flen = scalar @fs;
-- 
2.43.0


From 1d07d832e16d174bc9fae7348237705f71296ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:43 +0000
Subject: [PATCH 112/131] fix: filter-length.pl works on corpora without a
 spread of length ratios

---
 corpus/filter-length.pl | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/corpus/filter-length.pl b/corpus/filter-length.pl
index 728803b..cb0e28f 100755
--- a/corpus/filter-length.pl
+++ b/corpus/filter-length.pl
@@ -88,17 +88,18 @@ while(<F>) {
 close F;
 
 print STDERR "\nComputing statistics...\n";
-my $lmean = $lrm / scalar @lograts;
+my $num_lograts = scalar @lograts || 1;
+my $lmean = $lrm / $num_lograts;
 
 my $lsd = 0;
 for my $lr (@lograts) {
   $lsd += ($lr - $lmean)**2;
 }
-$lsd = sqrt($lsd / scalar @lograts);
+$lsd = sqrt($lsd / $num_lograts);
 @lograts = ();
 
 my $pass1_discard = $zerof + $zeroe + $absbadrat + $overlene + $overlenf + $bad_format;
-my $discard_rate = int(10000 * $pass1_discard / $lines) / 100;
+my $discard_rate = int(10000 * $pass1_discard / ($lines || 1)) / 100;
 print STDERR "      Total lines: $lines\n";
 print STDERR " Already discared: $pass1_discard\t(discard rate = $discard_rate%)\n";
 print STDERR "   Mean F:E ratio: " . exp($lmean) . "\n";
@@ -132,7 +133,7 @@ while(<F>) {
       $absbadrat++;
       next;
     }
-    my $zscore = abs($lograt - $lmean) / $lsd;
+    my $zscore = $lsd > 0 ? abs($lograt - $lmean) / $lsd : 0;
     if ($elen > $AUTOMATIC_INCLUDE_IF_SHORTER_THAN &&
         $flen > $AUTOMATIC_INCLUDE_IF_SHORTER_THAN && $zscore > $worstz) { $worstz = $zscore; $worst = $_; }
     if ($zscore > $MAX_ZSCORE) {
@@ -145,7 +146,7 @@ while(<F>) {
   }
   $to++;
 }
-my $discard_rate2 = int(10000 * $zviol / ($lines - $pass1_discard)) / 100;
+my $discard_rate2 = int(10000 * $zviol / (($lines - $pass1_discard) || 1)) / 100;
 print STDERR "\n    Lines printed: $to\n Ratio violations: $zviol\t(discard rate = $discard_rate2%)\n";
 print STDERR "    Worst z-score: $worstz\n         sentence: $worst";
 exit 0;
-- 
2.43.0


From 3651b6791b5ca5652fced6d51c463069e8300ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:51 +0000
Subject: [PATCH 113/131] fix: conll2cdec.pl writes a last sentence that no
 blank line follows

---
 corpus/conll2cdec.pl | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/corpus/conll2cdec.pl b/corpus/conll2cdec.pl
index ee4e07d..4d3d51b 100755
--- a/corpus/conll2cdec.pl
+++ b/corpus/conll2cdec.pl
@@ -9,7 +9,12 @@ my @yy;
 my @os;
 my $sec = undef;
 my $i = 0;
-while(<F>) {
+while(1) {
+  $_ = <F>;
+  if (!defined $_) {
+    last unless @xx;
+    $_ = "";  # the last sentence may end with the file
+  }
   chomp;
   if (/^\s*$/) {
     print "<seg id=\"$i\"";
-- 
2.43.0


From 9a1e8871e327374dee9c91c718b800a028a0ed73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:51 +0000
Subject: [PATCH 114/131] fix: add-sos-eos.pl keeps empty last fields

---
 corpus/add-sos-eos.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corpus/add-sos-eos.pl b/corpus/add-sos-eos.pl
index d7608c5..8fbbee6 100755
--- a/corpus/add-sos-eos.pl
+++ b/corpus/add-sos-eos.pl
@@ -25,7 +25,7 @@ while(<C>) {
   if ($lines % 100000 == 0) { print STDERR " [$lines]\n"; }
   elsif ($lines % 2500 == 0) { print STDERR "."; }
   chomp;
-  my @fields = split / \|\|\| /;
+  my @fields = split / \|\|\| /, $_, -1;
   my $o = '';
   for my $field (@fields) {
     $o .= " ||| <s> $field </s>";
-- 
2.43.0


From ac1c3919943fa4ba7b15c069a4b516166a3d93c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:51 +0000
Subject: [PATCH 115/131] fix: sample-dev-sets.py divides whole numbers under
 Python 3

---
 corpus/sample-dev-sets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corpus/sample-dev-sets.py b/corpus/sample-dev-sets.py
index 3c969bb..6e613d7 100755
--- a/corpus/sample-dev-sets.py
+++ b/corpus/sample-dev-sets.py
@@ -34,10 +34,10 @@ def main(argv):
 
     # Compute sizes
     corpus_size = wc(in_file)
-    total_docs = corpus_size / doc_size
+    total_docs = corpus_size // doc_size
     leftover = corpus_size % doc_size
     train_docs = total_docs - (dev_sets * docs_per_dev_set)
-    train_batch_size = (train_docs / docs_per_dev_set)
+    train_batch_size = (train_docs // docs_per_dev_set)
 
     # Report
     sys.stderr.write('Splitting {} lines ({} documents)\n'.format(corpus_size, total_docs + (1 if leftover else 0)))
-- 
2.43.0


From c6a59b54e25b612a81f8f852e3cf4e1950de6f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:06 +0000
Subject: [PATCH 116/131] fix: add-sos-eos.pl marks empty lines

---
 corpus/add-sos-eos.pl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/corpus/add-sos-eos.pl b/corpus/add-sos-eos.pl
index 8fbbee6..8b8a733 100755
--- a/corpus/add-sos-eos.pl
+++ b/corpus/add-sos-eos.pl
@@ -26,6 +26,7 @@ while(<C>) {
   elsif ($lines % 2500 == 0) { print STDERR "."; }
   chomp;
   my @fields = split / \|\|\| /, $_, -1;
+  push @fields, "" unless @fields;
   my $o = '';
   for my $field (@fields) {
     $o .= " ||| <s> $field </s>";
-- 
2.43.0


From 08a29187d3b61c7b615a590515c61e7bbc7120e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:57 +0000
Subject: [PATCH 117/131] fix: sentserver survives a connection that closes
 without sending a key

---
 training/utils/sentserver.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/training/utils/sentserver.cc b/training/utils/sentserver.cc
index b425955..9c98dca 100644
--- a/training/utils/sentserver.cc
+++ b/training/utils/sentserver.cc
@@ -494,8 +494,8 @@ int main (int argc, char *argv[]) {
 			free(client);
 		} else {
 			client_key = read_line(client->s,0);
-			client_key[strlen(client_key)-1]='\0'; /* chop trailing newline */
-			if (strcmp(key, client_key)==0){
+			if (client_key) client_key[strlen(client_key)-1]='\0'; /* chop trailing newline */
+			if (client_key && strcmp(key, client_key)==0){
 				pthread_create(&tid, NULL, new_client, client);
 			} else {
 				fprintf(stderr, "Prospective client failed to respond with correct key.\n");
-- 
2.43.0


From 56655496fe6730894aa55e561fabc0b290b21e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:57 +0000
Subject: [PATCH 118/131] fix: sentserver hands out a sentence that was aborted
 while a client waited for the end of the input

---
 training/utils/sentserver.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/training/utils/sentserver.cc b/training/utils/sentserver.cc
index 9c98dca..d71c4cd 100644
--- a/training/utils/sentserver.cc
+++ b/training/utils/sentserver.cc
@@ -126,6 +126,14 @@ struct line * queue_get(int fid) {
 
 	if (log_mutex) fprintf(stderr, "Locking queue mutex (%d)\n", fid);
 	pthread_mutex_lock(&queue_mutex);
+	/* A client may have died while this one was waiting for input. */
+	for (cur = head; cur != NULL; cur = cur->next) {
+		if (cur->status == STATUS_ABORTED) {
+			cur->status = STATUS_RUNNING;
+			pthread_mutex_unlock(&queue_mutex);
+			return cur;
+		}
+	}
 	if (head == NULL) {
 		fprintf(stderr, "Reached end of file. Exiting.\n");
 		done(0);
-- 
2.43.0


From 3315bc4fb36e033ed8c0bcb4e067a66df4ebd6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:59 +0000
Subject: [PATCH 119/131] fix: sentserver: give a line its status before other
 threads can see it

The queue node of a ===SYNCH=== line was put on the list with an
uninitialized status and the mutex released; with recycled memory it could
look finished, be flushed by another thread and freed while in use.
---
 training/utils/sentserver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/training/utils/sentserver.cc b/training/utils/sentserver.cc
index d71c4cd..51bffe2 100644
--- a/training/utils/sentserver.cc
+++ b/training/utils/sentserver.cc
@@ -89,6 +89,7 @@ struct line * queue_get(int fid) {
 		cur->id = n_sent;
 		cur->s = s;
 		cur->next = NULL;
+		cur->status = STATUS_RUNNING;
 
 		*ptail = cur;
 		ptail = &cur->next;
@@ -113,7 +114,6 @@ struct line * queue_get(int fid) {
 			s = read_line(0,0);
 		} else {
 			if (log_mutex) fprintf(stderr, "  Received new data %d (fid %d)\n", cur->id, fid);
-			cur->status = STATUS_RUNNING;
 			if (log_mutex) fprintf(stderr, "Unlocking queue mutex (%d)\n", fid);
 			pthread_mutex_unlock(&queue_mutex);
 			return cur;
-- 
2.43.0


From f961522ec6a3c4f4ead59e1763b91e7b31c541af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:25 +0000
Subject: [PATCH 120/131] fix: tuning drivers: accept the options their help
 describes

pro.pl did not accept --max-iterations and --interpolate-with-weights, and
dpmert.pl not --rand-directions: each printed the help and did nothing.
---
 training/dpmert/dpmert.pl | 2 +-
 training/pro/pro.pl       | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/training/dpmert/dpmert.pl b/training/dpmert/dpmert.pl
index 559420f..d1cc0e2 100755
--- a/training/dpmert/dpmert.pl
+++ b/training/dpmert/dpmert.pl
@@ -71,7 +71,7 @@ if (GetOptions(
 	"qsub" => \$useqsub,
 	"iterations=i" => \$max_iterations,
 	"pmem=s" => \$pmem,
-	"random-directions=i" => \$rand_directions,
+	"random-directions|rand-directions=i" => \$rand_directions,
 	"metric=s" => \$metric,
 	"source-file=s" => \$srcFile,
 	"output-dir=s" => \$dir,
diff --git a/training/pro/pro.pl b/training/pro/pro.pl
index a059477..a6e7ee0 100755
--- a/training/pro/pro.pl
+++ b/training/pro/pro.pl
@@ -77,6 +77,8 @@ if (GetOptions(
 	"pass-suffix=s" => \$pass_suffix,
         "qsub" => \$useqsub,
 	"help" => \$help,
+	"max-iterations=i" => \$max_iterations,
+	"interpolate-with-weights=f" => \$psi,
 	"reg=f" => \$reg,
 	"reg-previous=f" => \$reg_previous,
   "pmem=s" => \$pmem,
-- 
2.43.0


From 8f262c5dedaaa2e8c62311fae165b7f759ccf12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:39 +0000
Subject: [PATCH 121/131] fix: sentserver: do not wait forever when the last
 clients die and are dismissed at once

A client could be dismissed at the end of the input while another was dying
with a sentence; nobody was left to work on it and the server never ended.
---
 training/utils/sentserver.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/training/utils/sentserver.cc b/training/utils/sentserver.cc
index 51bffe2..5e2d443 100644
--- a/training/utils/sentserver.cc
+++ b/training/utils/sentserver.cc
@@ -186,6 +186,19 @@ void queue_abort(struct line *node, int fid) {
 	pthread_mutex_unlock(&queue_mutex);
 }
 
+/* The last client was dismissed for want of input: if another one died while
+   that happened, its sentence has nobody left to work on it. */
+void queue_dismissed() {
+	struct line *cur;
+	pthread_mutex_lock(&queue_mutex);
+	if (n_clients == 0 && !stay_alive) {
+		for (cur = head; cur != NULL; cur = cur->next) {
+			if (cur->status == STATUS_ABORTED)
+				queue_panic();
+		}
+	}
+	pthread_mutex_unlock(&queue_mutex);
+}
 
 void queue_print() {
   struct line *cur;
@@ -371,6 +384,7 @@ void * new_client(void *arg) {
       n_clients--;
       pthread_mutex_unlock(&clients_mutex);
       fprintf(stderr, "Client dismissed (%d connected)\n", n_clients);
+      queue_dismissed();
       pthread_exit(NULL);
     }
 
-- 
2.43.0


From bddd56901a3b22ae21b737f2a16ea42e8380daf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:39 +0000
Subject: [PATCH 122/131] fix: incremental search: weights of features missing
 from the weights file were read past the end; costs of lattice arcs and
 stored forests were left out

---
 decoder/incremental.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/decoder/incremental.cc b/decoder/incremental.cc
index 1537d61..0623c8d 100644
--- a/decoder/incremental.cc
+++ b/decoder/incremental.cc
@@ -44,14 +44,20 @@ struct MapVocab : public lm::EnumerateVocab {
     std::vector<lm::WordIndex> out_;
 };
 
+// Features without a weight may lie beyond the end of the weight vector.
+weight_t WeightOf(const std::vector<weight_t> &weights, const std::string &name) {
+  const unsigned id = FD::Convert(name);
+  return id < weights.size() ? weights[id] : weight_t();
+}
+
 template <class Model> class Incremental : public IncrementalBase {
   public:
     Incremental(const char *model_file, const std::vector<weight_t> &weights) :
       IncrementalBase(weights), 
       m_(model_file, GetConfig()),
-      lm_(weights[FD::Convert("KLanguageModel")]),
-      oov_(weights[FD::Convert("KLanguageModel_OOV")]),
-      word_penalty_(weights[FD::Convert("WordPenalty")]) {
+      lm_(WeightOf(weights, "KLanguageModel")),
+      oov_(WeightOf(weights, "KLanguageModel_OOV")),
+      word_penalty_(WeightOf(weights, "WordPenalty")) {
       std::cerr << "Weights KLanguageModel " << lm_ << " KLanguageModel_OOV " << oov_ << " WordPenalty " << word_penalty_ << std::endl;
     }
 
@@ -137,7 +143,7 @@ template <class Model> void Incremental<Model>::ConvertEdge(const search::Contex
   note.vp = &in;
   out.SetNote(note);
 
-  score += in.rule_->GetFeatureValues().dot(cdec_weights_);
+  score += in.feature_values_.dot(cdec_weights_);
   score -= static_cast<float>(terminals) * word_penalty_ / M_LN10;
   search::ScoreRuleRet res(search::ScoreRule(context.LanguageModel(), words, out.Between()));
   score += res.prob * lm_ + static_cast<float>(res.oov) * oov_;
-- 
2.43.0


From f7e291c350ac640cc094a19ef4babd261afe50b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:39 +0000
Subject: [PATCH 123/131] fix: lazy search: copies of vertices read an
 uninitialized flag

---
 klm/search/vertex.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klm/search/vertex.hh b/klm/search/vertex.hh
index 81c3cfe..c147eb0 100644
--- a/klm/search/vertex.hh
+++ b/klm/search/vertex.hh
@@ -24,7 +24,7 @@ struct HypoState {
 
 class VertexNode {
   public:
-    VertexNode() {}
+    VertexNode() : right_full_(false) {}
 
     void InitRoot() { hypos_.clear(); }
 
-- 
2.43.0


From cd68d061ba41fcea5647d332f396ca2d0ae5ec16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:39 +0000
Subject: [PATCH 124/131] fix: lazy search: the first word of the vocabulary
 was taken for the same state as words that never extend to the left

---
 klm/lm/state.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klm/lm/state.hh b/klm/lm/state.hh
index f6c51d6..5a7c135 100644
--- a/klm/lm/state.hh
+++ b/klm/lm/state.hh
@@ -87,7 +87,8 @@ inline uint64_t hash_value(const Left &left) {
   unsigned char add[2];
   add[0] = left.length;
   add[1] = left.full;
-  return util::MurmurHashNative(add, 2, left.length ? left.pointers[left.length - 1] : 0);
+  // A pointer is not used as the seed itself: small ones cancel out against add.
+  return util::MurmurHashNative(add, 2, left.length ? util::MurmurHashNative(left.pointers + left.length - 1, sizeof(uint64_t)) : 0);
 }
 
 struct ChartState {
-- 
2.43.0


From 68937bc6a538ca1d8118b7adee7da88a2f122618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:54 +0000
Subject: [PATCH 125/131] fix: CSplit_BasicFeatures reads the list of bad words
 also when a list of special words follows it

---
 decoder/ff_csplit.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ff_csplit.cc b/decoder/ff_csplit.cc
index 550ff69..256c5f3 100644
--- a/decoder/ff_csplit.cc
+++ b/decoder/ff_csplit.cc
@@ -46,7 +46,7 @@ struct BasicCSplitFeaturesImpl {
       abort();
     }
     freq_dict_.Load(argv[0]);
-    if (argc == 2) {
+    if (argc >= 2) {
       ReadFile rf(argv[1]);
       istream& in = *rf.stream();
       while(in) {
-- 
2.43.0


From e7eefaf58e83e8cafbdf250fcfca69c467e41e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:08 +0000
Subject: [PATCH 126/131] fix: FreqDict keeps the count of the last word of its
 file (the failed read at the end of the file set it to 0)

---
 decoder/freqdict.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/decoder/freqdict.h b/decoder/freqdict.h
index 07d797e..e9c11f7 100644
--- a/decoder/freqdict.h
+++ b/decoder/freqdict.h
@@ -19,9 +19,7 @@ class FreqDict {
     std::istream& ifs = *rf.stream();
     int cc=0;
     std::string word;
-    while (ifs) {
-      ifs >> word;
-      if (word.size() == 0) continue;
+    while (ifs >> word) {
       if (word[0] == '#') continue;
       T count = 0;
       ifs >> count;
-- 
2.43.0


From 9fbcd6e59ad4d0d6e2276715084309c413125711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:02 +0000
Subject: [PATCH 127/131] fix: grammar_convert --reorder works on grammars: the
 goal node added to them made its assertion fail every time

---
 training/utils/grammar_convert.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/training/utils/grammar_convert.cc b/training/utils/grammar_convert.cc
index 04f1eb7..f897bd7 100644
--- a/training/utils/grammar_convert.cc
+++ b/training/utils/grammar_convert.cc
@@ -232,9 +232,13 @@ void PermuteYKRecursive(int nodeid, const WordID& parent, const int max_reorder,
 }
 
 void PermuteYamadaAndKnight(Hypergraph* hg, int max_reorder) {
-  assert(hg->nodes_.back().cat_ == kSTART);
-  assert(hg->nodes_.back().in_edges_.size() == 1);
-  PermuteYKRecursive(hg->nodes_.size() - 1, kSTART, max_reorder, hg);
+  int goal = hg->nodes_.size() - 1;
+  if (hg->nodes_[goal].cat_ != kSTART) { // skip the node added by AddDummyGoalNode
+    assert(hg->nodes_[goal].in_edges_.size() == 1);
+    goal = hg->edges_[hg->nodes_[goal].in_edges_.front()].tail_nodes_[0];
+  }
+  assert(hg->nodes_[goal].cat_ == kSTART);
+  PermuteYKRecursive(goal, kSTART, max_reorder, hg);
 }
 
 void CollapseWeights(Hypergraph* hg) {
-- 
2.43.0


From 3c7fae3f18bba9def41fc352d795e26c1662ad56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:02 +0000
Subject: [PATCH 128/131] fix: grammar_convert --reorder read past the tail
 nodes of rules with terminals and left their terminals where they were

---
 training/utils/grammar_convert.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/training/utils/grammar_convert.cc b/training/utils/grammar_convert.cc
index f897bd7..7865600 100644
--- a/training/utils/grammar_convert.cc
+++ b/training/utils/grammar_convert.cc
@@ -190,6 +190,11 @@ void PermuteYKRecursive(int nodeid, const WordID& parent, const int max_reorder,
     vector<WordID> pi(of.size(), 0);
     for (int i = 0; i < pi.size(); ++i) pi[i] = i;
 
+    // position among the tails of each variable
+    vector<int> var_index(of.size(), -1);
+    for (int i = 0, v = 0; i < of.size(); ++i)
+      if (of[i] < 0) var_index[i] = v++;
+
     vector<int> permutation_mask(of.size(), 0);
     const bool dont_reorder_across_PU = true;  // TODO add configuration
     if (dont_reorder_across_PU) {
@@ -212,17 +217,21 @@ void PermuteYKRecursive(int nodeid, const WordID& parent, const int max_reorder,
       if (!CheckPermutationMask(permutation_mask, pi))
         continue;
       vector<WordID> nf(pi.size(), 0);
-      Hypergraph::TailNodeVector tail(pi.size(), 0);
+      Hypergraph::TailNodeVector tail;
       bool skip = false;
       for (int i = 0; i < pi.size(); ++i) {
         int dist = pi[i] - i; if (dist < 0) dist *= -1;
         if (dist > max_reorder) { skip = true; break; }
         nf[i] = of[pi[i]];
-        tail[i] = orig_tail[pi[i]];
+        if (nf[i] < 0) tail.push_back(orig_tail[var_index[pi[i]]]);
       }
       if (skip) continue;
       TRulePtr nr(new TRule(rule));
       nr->f_ = nf;
+      nr->e_ = nf;
+      int ntc = 0;
+      for (auto& e : nr->e_)
+        if (e < 0) e = -ntc++;
       int fid = FD::Convert(ConstituentOrderFeature(rule, pi));
       nr->scores_.set_value(fid, 1.0);
   //    cerr << "PERM: " << nr->AsString() << endl;
-- 
2.43.0


From 092754ec8a72f436c919ff5d460bac5897a1bd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:02 +0000
Subject: [PATCH 129/131] fix: grammar_convert crashed on a grammar that
 derives nothing; print an empty line for it

---
 training/utils/grammar_convert.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/training/utils/grammar_convert.cc b/training/utils/grammar_convert.cc
index 7865600..c3e8e6d 100644
--- a/training/utils/grammar_convert.cc
+++ b/training/utils/grammar_convert.cc
@@ -340,8 +340,12 @@ int main(int argc, char **argv) {
       if (line.empty()) {
         int goal = lhs2node[kSTART] - 1;
         FilterAndCheckCorrectness(goal, &hg);
-        AddDummyGoalNode(&hg);
-        ProcessHypergraph(w, conf, "", &hg);
+        if (hg.nodes_.empty()) {  // empty language
+          cout << endl;
+        } else {
+          AddDummyGoalNode(&hg);
+          ProcessHypergraph(w, conf, "", &hg);
+        }
         hg.clear();
         lhs2node.clear();
         continue;
-- 
2.43.0


From a29f13a03e4ea172cccbd674c6246f849c8c236e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:55 +0000
Subject: [PATCH 130/131] fix: kbest_cut_mira --stream: weights set by WEIGHTS
 are no longer undone by the next LEARN

---
 training/mira/kbest_cut_mira.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/training/mira/kbest_cut_mira.cc b/training/mira/kbest_cut_mira.cc
index 5d8385c..59680ec 100644
--- a/training/mira/kbest_cut_mira.cc
+++ b/training/mira/kbest_cut_mira.cc
@@ -739,6 +739,9 @@ int main(int argc, char** argv) {
                   // WEIGHTS ||| f1=w1 f2=w2 ...
                   } else {
                       Weights::UpdateFromString(buf, dense_weights);
+                      // LEARN continues from these weights
+                      lambdas.clear();
+                      Weights::InitSparseVector(dense_weights, &lambdas);
                   }
                   continue;
               } else {
-- 
2.43.0


From 5c1215c890f9cca05a7203844d0cf8154a75eba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:55 +0000
Subject: [PATCH 131/131] fix: kbest_cut_mira --stream: with optimizers 1 and 4
 translations and written weights have the last update

---
 training/mira/kbest_cut_mira.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/training/mira/kbest_cut_mira.cc b/training/mira/kbest_cut_mira.cc
index 59680ec..1d1c809 100644
--- a/training/mira/kbest_cut_mira.cc
+++ b/training/mira/kbest_cut_mira.cc
@@ -981,6 +981,7 @@ int main(int argc, char** argv) {
       
     
       if ((cur_sent * 40 / ds->size()) > dots) { ++dots; cerr << '.'; }
+      lambdas.init_vector(&dense_weights);  // what is translated or written next has the update
       tot += lambdas;
       ++lcount;
       cur_sent++;
-- 
2.43.0

