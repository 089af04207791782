// D03: forests and lattices written and read back.
#include "forest.h"
#include "hg_io.h"
#include "lattice.h"
#include "filelib.h"
#include "forest_writer.h"
#include <sys/stat.h>
using namespace fo;
using namespace std;

// everything a stored forest carries, by name (independent of dictionary ids)
static string Full(const Hypergraph& hg) {
  string s = vh::Fmt("%d %d lc=%d\n", (int)hg.nodes_.size(), (int)hg.edges_.size(), (int)hg.is_linear_chain_);
  for (auto& n : hg.nodes_) {
    s += vh::Fmt("N %d %zu ", n.id_, n.node_hash) + TD::Convert(-n.cat_) + " in";
    for (int e : n.in_edges_) s += vh::Fmt(" %d", e);
    s += " out";
    for (int e : n.out_edges_) s += vh::Fmt(" %d", e);
    s += "\n";
  }
  auto feats = [](const SparseVector<double>& f) {
    map<string, double> m; string s;
    for (auto& p : f) if (p.second != 0) m[FD::Convert(p.first)] = p.second;
    for (auto& p : m) s += vh::Fmt(" %s=%.17g", p.first.c_str(), p.second);
    return s;
  };
  for (auto& e : hg.edges_) {
    s += vh::Fmt("E %d %d <-", e.id_, e.head_node_);
    for (unsigned k = 0; k < e.tail_nodes_.size(); ++k) s += vh::Fmt(" %d", (int)e.tail_nodes_[k]);
    s += vh::Fmt(" (%d,%d,%d,%d)", e.i_, e.j_, e.prev_i_, e.prev_j_) + feats(e.feature_values_);
    if (e.rule_) {
      const TRule& r = *e.rule_;
      s += vh::Fmt(" R arity=%d ", (int)r.arity_) + TD::Convert(-r.lhs_) + " |||";
      for (WordID w : r.f_) s += w < 0 ? " [" + TD::Convert(-w) + "]" : " " + TD::Convert(w);
      s += " |||";
      for (WordID w : r.e_) s += w <= 0 ? vh::Fmt(" [%d]", -w) : " " + TD::Convert(w);
      s += " |||" + feats(r.scores_);
    } else s += " norule";
    s += "\n";
  }
  return s;
}

static const char* kWords[] = {"a", "'", "\\", "it's", "\\'", "d\xC3\xA9j\xC3\xA0", "\xE4\xB8\xAD\xE6\x96\x87", "[X]", "|||", ",", "(", ")", "=", "*EPS*", "x,y)", "{}", "\"q\"", "a b", "0", "-1"};
static const char* kFeat[] = {"Glue", "LanguageModel", "Lex:a=b", "PhraseModel_0", "\xC3\xBC_1", "R:[X]", "it's"};

static string FirstDiff(const string& a, const string& b) {
  istringstream x(a), y(b); string p, q;
  while (true) { bool g = (bool)getline(x, p), h = (bool)getline(y, q); if (!g && !h) return "equal"; if (!g) p = "<end>"; if (!h) q = "<end>"; if (p != q || g != h) return "wrote '" + p + "' read '" + q + "'"; }
}

static void MakeForest(vh::Rng& r, Hypergraph* hg) {
  GenOpt o;
  o.max_nodes = r.range(2, 20); o.max_arity = r.chance(0.2) ? 9 : 3; o.max_derivs = 1e12; o.useless = r.chance(0.3); o.als = true; o.long_rules = r.chance(0.2) ? 0.3 : 0;
  o.shuffle_nodes = r.chance(0.2);
  if (r.chance(0.1)) { hg->nodes_.push_back(HG::Node()); hg->nodes_[0].cat_ = -TD::Convert("Goal"); return; }   // a forest without edges
  Shape s = RandomShape(r, o);
  BuildForest(r, s, o, hg);
  hg->is_linear_chain_ = r.chance(0.3);
  for (auto& e : hg->edges_) {
    if (r.chance(0.2)) e.rule_->lhs_ = -TD::Convert(r.chance(0.5) ? "VP/NP" : "\xC3\x89T");
    if (r.chance(0.3) && e.rule_->f_.size() < 40) {
      int n = r.range(1, 20);
      for (int i = 0; i < n; ++i) { WordID w = TD::Convert(kWords[r.below(20)]); if (r.chance(0.5)) e.rule_->f_.insert(e.rule_->f_.begin() + r.below(e.rule_->f_.size() + 1), w); else e.rule_->e_.insert(e.rule_->e_.begin() + r.below(e.rule_->e_.size() + 1), w); }
      while (e.rule_->e_.size() > 64 ) e.rule_->e_.pop_back();
      while (e.rule_->f_.size() > 64 ) e.rule_->f_.pop_back();
    }
    int nf = r.chance(0.2) ? 12 : r.below(4);
    for (int i = 0; i < nf; ++i) {
      string n = r.chance(0.5) ? kFeat[r.below(7)] : vh::Fmt("F%d", (int)r.below(40));
      double v = r.chance(0.1) ? 0.0 : r.chance(0.1) ? 1e300 * r.normal() : r.chance(0.1) ? 1e-310 : r.normal();
      if (r.chance(0.7)) e.feature_values_.set_value(FD::Convert(n), v); else e.rule_->scores_.set_value(FD::Convert(n), v);
    }
    if (r.chance(0.1)) { e.i_ = -1; e.j_ = 32767; }
  }
}

static void Graft(const SparseVector<double>& f, map<string, double>* m) { for (auto& p : f) (*m)[FD::Convert(p.first)] = p.second; }

struct Arc { string label; int d; map<string, double> f; string costs; };
static string EscapeRef(const string& s) { string o; for (char c : s) { if (c == '\'' || c == '\\') o += '\\'; o += c; } return o; }

static void LatticeCase(vh::Rng& r) {
  int n = r.range(1, 8);
  vector<vector<Arc> > lat(n);
  string txt = "(";
  bool ws = r.chance(0.4);
  auto sp = [&]() { return string(ws && r.chance(0.5) ? (r.chance(0.2) ? "  " : " ") : ""); };
  string last;
  // every position reachable from start and reaching the end
  for (int i = 0; i < n; ++i) {
    int na = 1 + r.below(r.chance(0.3) ? 5 : 2);
    for (int a = 0; a < na; ++a) {
      Arc x;
      x.label = r.chance(0.4) ? kWords[r.below(20)] : vh::Fmt("w%d", (int)r.below(9));
      x.d = a == 0 ? 1 : r.range(1, n - i);
      if (r.chance(0.4)) {            // dictionary of features
        int k = r.below(4);
        x.costs = "{" + sp();
        set<string> used;
        for (int q = 0; q < k; ++q) {
          string nm = kFeat[r.below(7)];
          if (!used.insert(nm).second) continue;
          double v = (float)atof(vh::Fmt("%g", r.range(-400, 400) / 64.0).c_str());
          x.f[nm] = v;
          x.costs += (used.size() > 1 ? "," + sp() : string()) + "'" + EscapeRef(nm) + "':" + sp() + vh::Fmt("%g", v);
        }
        x.costs += "}";
        if (x.costs.substr(0, 2) == "{ ") { size_t p = x.costs.find_first_not_of(' ', 1); x.costs = "{" + x.costs.substr(p); }
      } else {
        int k = r.chance(0.7) ? 1 : r.range(1, 4);
        for (int q = 0; q < k; ++q) {
          double v = r.chance(0.2) ? r.range(-3, 3) : r.range(-100000, 100000) / 1024.0;
          string num = r.chance(0.1) ? vh::Fmt("%.3e", v) : vh::Fmt("%.9g", v);
          x.f[vh::Fmt("LatticeCost_%d", q)] = (float)atof(num.c_str());
          x.costs += (q ? "," + sp() : string()) + num;
        }
      }
      lat[i].push_back(x);
    }
    r.shuffle(lat[i]);
    txt += (i ? "," : "") + (i ? sp() : string()) + "(";
    for (unsigned a = 0; a < lat[i].size(); ++a)
      txt += (a ? "," + sp() : string()) + "(" + sp() + "'" + EscapeRef(lat[i][a].label) + "'" + sp() + "," + sp() + lat[i][a].costs + "," + sp() + vh::Fmt("%d", lat[i][a].d) + ")";
    txt += (r.chance(0.5) ? ",)" : ")");
  }
  txt += (r.chance(0.5) ? ",)" : ")");
  if (lat.size() > 1) vh::Distinct("nontrivial", vh::HashStr(txt));
  vh::Sample(txt);
  vh::Count("lattices");
  auto cmp = [&](const Lattice& l, const char* what, double tol) {
    VCHECK(l.size() == lat.size(), string("plf:size:") + what, "%s: %d positions instead of %d in %s", what, (int)l.size(), n, txt.c_str());
    if (l.size() != lat.size()) return;
    for (int i = 0; i < n; ++i) {
      VCHECK(l[i].size() == lat[i].size(), string("plf:arcs:") + what, "%s: position %d has %d arcs instead of %d in %s", what, i, (int)l[i].size(), (int)lat[i].size(), txt.c_str());
      if (l[i].size() != lat[i].size()) return;
      for (unsigned a = 0; a < lat[i].size(); ++a) {
        VCHECK(TD::Convert(l[i][a].label) == lat[i][a].label && l[i][a].dist2next == lat[i][a].d, string("plf:arc:") + what, "%s: arc %d.%u is '%s'+%d, written as '%s'+%d in %s", what, i, a, TD::Convert(l[i][a].label).c_str(), l[i][a].dist2next, lat[i][a].label.c_str(), lat[i][a].d, txt.c_str());
        map<string, double> m; Graft(l[i][a].features, &m);
        map<string, double> w = lat[i][a].f;
        for (auto it = m.begin(); it != m.end();) if (it->second == 0) m.erase(it++); else ++it;
        for (auto it = w.begin(); it != w.end();) if (it->second == 0) w.erase(it++); else ++it;
        bool ok = m.size() == w.size();
        for (auto& p : w) if (!m.count(p.first) || !vh::Near(m[p.first], p.second, tol, 1e-30)) ok = false;
        string got; for (auto& p : m) got += vh::Fmt(" %s=%g", p.first.c_str(), p.second);
        VCHECK(ok, string("plf:cost:") + what, "%s: arc %d.%u has features{%s }, written as %s in %s", what, i, a, got.c_str(), lat[i][a].costs.c_str(), txt.c_str());
      }
    }
  };
  Lattice l; HypergraphIO::PLFtoLattice(txt, &l); cmp(l, "PLFtoLattice", 1e-6);
  // "out of the box" detection needs the three-character prefix
  if (txt.substr(0, 4) == "((('" && txt.size() > 5) {
    VCHECK(LatticeTools::LooksLikePLF(txt), "plf:looks", "not recognised as a lattice: %s", txt.c_str());
    Lattice l2; LatticeTools::ConvertTextOrPLF(txt, &l2); cmp(l2, "ConvertTextOrPLF", 1e-6);
    // shortest distances
    for (int i = 0; i <= n; ++i) {
      vector<int> d(n + 1, 1 << 20); d[i] = 0;
      for (int k = i; k < n; ++k) if (d[k] < (1 << 20)) for (auto& a : lat[k]) d[k + a.d] = min(d[k + a.d], d[k] + 1);
      for (int j = i + 1; j <= n; ++j) if (d[j] < (1 << 20))
        VCHECK(l2.Distance(i, j) == d[j], "plf:distance", "distance %d-%d is %d, shortest path has %d arcs: %s", i, j, l2.Distance(i, j), d[j], txt.c_str());
    }
  }
  Hypergraph hg; HypergraphIO::ReadFromPLF(txt, &hg);
  CheckIntegrity(hg, "ReadFromPLF");
  VCHECK((int)hg.nodes_.size() == n + 1, "plf:nodes", "%d nodes for %d positions", (int)hg.nodes_.size(), n);
  // text written by the library, read back
  { string t2 = HypergraphIO::AsPLF(l); Lattice l3; HypergraphIO::PLFtoLattice(t2, &l3); cmp(l3, "AsPLF(Lattice)", 2e-5); }
  {
    vector<double> w(FD::NumFeats() + 1, 0.0);
    for (unsigned i = 0; i < w.size(); ++i) w[i] = r.range(-8, 8) / 4.0;
    hg.Reweight(w);
    string t2 = HypergraphIO::AsPLF(hg);
    Lattice l3; HypergraphIO::PLFtoLattice(t2, &l3);
    VCHECK((int)l3.size() == n, "plf:aspf-hg-size", "%d positions instead of %d: %s", (int)l3.size(), n, t2.c_str());
    if ((int)l3.size() == n) for (int i = 0; i < n; ++i) {
      multiset<string> a, b;
      for (auto& x : lat[i]) { double c = 0; for (auto& p : x.f) c += w[FD::Convert(p.first)] * p.second; if (fabs(c) < 1e-9) c = 0; a.insert(x.label + vh::Fmt(" %d %.4g", x.d, c)); }
      for (auto& x : l3[i]) { double c = x.features.get(FD::Convert("LatticeCost_0")); if (fabs(c) < 1e-9) c = 0; b.insert(TD::Convert(x.label) + vh::Fmt(" %d %.4g", x.dist2next, c)); }
      if (a != b) {   // rounding at the fourth digit: compare pairwise with tolerance
        vector<pair<string, double> > u, v;
        for (auto& x : lat[i]) { double c = 0; for (auto& p : x.f) c += w[FD::Convert(p.first)] * p.second; u.push_back(make_pair(x.label + vh::Fmt(" %d", x.d), c)); }
        for (auto& x : l3[i]) v.push_back(make_pair(TD::Convert(x.label) + vh::Fmt(" %d", x.dist2next), x.features.get(FD::Convert("LatticeCost_0"))));
        sort(u.begin(), u.end()); sort(v.begin(), v.end());
        bool ok = u.size() == v.size();
        for (unsigned k = 0; ok && k < u.size(); ++k) ok = u[k].first == v[k].first && vh::Near(u[k].second, v[k].second, 2e-5, 1e-6);
        VCHECK(ok, "plf:aspf-hg", "position %d: written as %s from %s", i, t2.c_str(), txt.c_str());
      } else vh::Count("oracle_checks");
    }
  }
  // plain sentences
  string sent; vector<string> toks;
  int m = r.below(7);
  for (int i = 0; i < m; ++i) { string t = kWords[r.below(20)]; if (t == "a b") t = "ab"; toks.push_back(t); sent += string(r.range(i > 0, 2), r.chance(0.8) ? ' ' : '\t') + t; }
  Lattice ls; LatticeTools::ConvertTextToLattice(sent, &ls);
  bool ok = ls.size() == toks.size();
  for (unsigned i = 0; ok && i < ls.size(); ++i) ok = ls[i].size() == 1 && TD::Convert(ls[i][0].label) == toks[i] && ls[i][0].dist2next == 1 && ls[i][0].features.empty();
  VCHECK(ok, "plf:sentence", "sentence '%s' became %d positions", sent.c_str(), (int)ls.size());
}

static void TargetCase(vh::Rng& r, const Hypergraph& hg) {
  HypergraphIO::WriteTarget(vh::S().dir, 7, hg);
  ifstream in((vh::S().dir + "/7").c_str());
  string line; getline(in, line);
  VCHECK(line == vh::Fmt("%d %d", (int)hg.nodes_.size(), (int)hg.edges_.size()), "target:header", "header '%s'", line.c_str());
  for (auto& n : hg.nodes_) {
    getline(in, line);
    VCHECK(line == vh::Fmt("%d", (int)n.in_edges_.size()), "target:count", "edge count '%s' for node with %d", line.c_str(), (int)n.in_edges_.size());
    for (int ei : n.in_edges_) {
      string ex;
      for (WordID w : hg.edges_[ei].rule_->e_) ex += w <= 0 ? vh::Fmt("[%d] ", (int)hg.edges_[ei].tail_nodes_[-w]) : TD::Convert(w) + " ";
      getline(in, line);
      VCHECK(line.compare(0, ex.size() + 4, ex + "||| ") == 0, "target:edge", "edge %d written '%s', expected '%s|||'", ei, line.c_str(), ex.c_str());
    }
  }
}

int main(int argc, char** argv) {
  if (argc > 2 && !strcmp(argv[1], "read")) {   // a separate process with differently numbered dictionaries
    for (int i = 19; i >= 0; --i) { TD::Convert(vh::Fmt("junk%d", i)); TD::Convert(kWords[i]); }
    for (int i = 6; i >= 0; --i) { FD::Convert(vh::Fmt("junk%d", i)); FD::Convert(kFeat[i]); }
    for (int i = 2; i < argc; ++i) {
      Hypergraph hg; ReadFile rf(argv[i]);
      HypergraphIO::ReadFromBinary(rf.stream(), &hg);
      cout << "== " << argv[i] << "\n" << Full(hg);
    }
    return 0;
  }
  string self = argv[0];
  return vh::Main(argc, argv, [&](vh::Rng& r, long) {
    LatticeCase(r); LatticeCase(r); LatticeCase(r);
    string cmd = "'" + self + "' read", expect;
    string d = vh::S().dir;
    for (int k = 0; k < 8; ++k) {
      Hypergraph hg; MakeForest(r, &hg);
      string full = Full(hg);
      vh::Count("forests");
      if (hg.edges_.size() > 1) vh::Distinct("nontrivial", vh::HashStr(full));
      // in memory
      stringstream ss; HypergraphIO::WriteToBinary(hg, &ss);
      Hypergraph back; MakeForest(r, &back);          // reading must replace what was there
      HypergraphIO::ReadFromBinary(&ss, &back);
      string f2 = Full(back);
      VCHECK(f2 == full, "forest:memory", "%s", FirstDiff(full, f2).c_str());
      // through files
      string fn;
      if (k % 3 == 0) { ForestWriter w(d, k); w.Write(hg); fn = w.fname_; VCHECK(fn == d + vh::Fmt("/%d.bin.gz", k), "forest:name", "%s", fn.c_str()); }
      else { fn = d + vh::Fmt("/%d.bin", k) + (k % 3 == 1 ? "" : ".gz"); WriteFile wf(fn); HypergraphIO::WriteToBinary(hg, wf.stream()); }
      cmd += " '" + fn + "'"; expect += "== " + fn + "\n" + full;
      if (hg.edges_.size() && k < 3) TargetCase(r, hg);
    }
    FILE* p = popen(cmd.c_str(), "r");
    string got; char buf[65536]; size_t n;
    while ((n = fread(buf, 1, sizeof buf, p)) > 0) got.append(buf, n);
    int rc = pclose(p);
    VCHECK(rc == 0, "forest:reader", "reading process ended with status %d", rc);
    if (rc == 0) VCHECK(got == expect, "forest:file", "%s", FirstDiff(expect, got).c_str());
  });
}
