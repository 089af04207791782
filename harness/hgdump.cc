// [-e] prints every derivation of stored forests, one per line: file \t translation \t source \t features \t content tree
#include "forest.h"
#include "hg_io.h"
#include "filelib.h"
#include "verbose.h"
#include <iostream>
using namespace std;
int main(int argc, char** argv) {
  SetSilent(true); fo::Feats(); bool ids = argc > 1 && string(argv[1]) == "-e";  // -e: the edges' numbers and heads in place of their content
  for (int a = 1 + ids; a < argc; ++a) {
    Hypergraph hg; { ReadFile rf(argv[a]); if (!HypergraphIO::ReadFromBinary(rf.stream(), &hg)) { cout << argv[a] << "\tUNREADABLE\n"; continue; } }
    int goal = hg.nodes_.size() - 1; vector<double> n = fo::CountDerivs(hg); cout << "#\t" << argv[a] << "\t" << hg.nodes_.size() << "\t" << hg.edges_.size() << "\t" << vh::Fmt("%.0f", n[goal]) << "\n"; if (n[goal] > 4000) continue;
    auto content = [](const HG::Edge& e) { return fo::EdgeContent(e, false) + vh::Fmt(" %d,%d", e.i_, e.j_); };
    vector<fo::Deriv> ds = fo::Enumerate(hg, goal);
    for (auto& d : ds) { cout << fo::Words(d.e) << "\t" << fo::Words(d.f) << "\t"; map<string, double> m; for (auto& p : d.feats) if (p.second != 0) m[FD::Convert(p.first)] = p.second; for (auto& p : m) cout << vh::Fmt("%s=%.12g;", p.first.c_str(), p.second); vector<string> es; for (int e : d.edges) es.push_back(ids ? vh::Fmt("%d:%d", e, hg.edges_[e].head_node_) : content(hg.edges_[e])); sort(es.begin(), es.end()); cout << "\t"; for (auto& e : es) cout << e << " ## "; cout << "\n"; }
  }
}
