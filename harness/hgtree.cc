// prints the edges of stored forests: E file|id|head|tails|i j prev_i prev_j|lhs \t source \t target \t alignment \t features
#include "forest.h"
#include "hg_io.h"
#include "filelib.h"
#include "verbose.h"
#include <iostream>
using namespace std;
int main(int argc, char** argv) {
  SetSilent(true); fo::Feats();
  for (int a = 1; a < argc; ++a) {
    Hypergraph hg; { ReadFile rf(argv[a]); if (!HypergraphIO::ReadFromBinary(rf.stream(), &hg)) { cout << "#\t" << argv[a] << "\tUNREADABLE\n"; continue; } }
    cout << "#\t" << argv[a] << "\t" << hg.nodes_.size() << "\n";
    for (auto& n : hg.nodes_) for (int ei : n.in_edges_) {
      auto& e = hg.edges_[ei]; string t, f, g, al, fe; map<string, double> m;
      for (int x : e.tail_nodes_) t += vh::Fmt("%d ", x);
      if (e.rule_) {
        for (WordID w : e.rule_->f_) f += (w > 0 ? string(TD::Convert(w)) : "[" + string(TD::Convert(-w)) + "]") + " ";
        for (WordID w : e.rule_->e_) g += (w > 0 ? string(TD::Convert(w)) : vh::Fmt("[%d]", -w)) + " ";
        for (auto& p : e.rule_->a_) al += vh::Fmt("%d-%d ", (int)p.s_, (int)p.t_);
      }
      for (auto& p : e.feature_values_) if (p.second != 0) m[FD::Convert(p.first)] = p.second;
      for (auto& p : m) fe += vh::Fmt("%s=%.12g\x01", p.first.c_str(), p.second);
      cout << n.id_ << "\t" << t << "\t" << vh::Fmt("%d %d %d %d", e.i_, e.j_, e.prev_i_, e.prev_j_) << "\t" << (e.rule_ ? TD::Convert(-e.rule_->lhs_) : "") << "\t" << f << "\t" << g << "\t" << al << "\t" << fe << "\n";
    }
  }
}
