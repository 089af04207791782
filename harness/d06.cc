// D06: SCFG parsing of sentences and lattices against an independent enumeration of derivations.
#include "forest.h"
#include "translator.h"
#include "sentence_metadata.h"
#include "lattice.h"
#include "verbose.h"
#include <boost/program_options/variables_map.hpp>
using namespace fo;
using namespace std;
namespace po = boost::program_options;

struct Sym { bool nt; int id; };                 // terminal or category index
struct Rule { int lhs; vector<Sym> f; vector<Sym> e; map<string, double> feats; int gram; };  // e: nt id = 0-based child
enum { LIMITED, GLUE, PASS };
struct Gram { int kind; };
struct Arc { int word; double cost; int len; };
static vector<string> kCat = {"S", "X", "Y", "Z"};
static vector<string> W;                         // source words
static string EW(int i) { return vh::Fmt("t%d", i); }
const int EPS = -7;

static string FeatStr(const map<string, double>& m) { string s; for (auto& p : m) if (p.second != 0) s += vh::Fmt(" %s=%.9g", p.first.c_str(), p.second); return s; }
static string RuleText(const Rule& r) {
  string s = "[" + kCat[r.lhs] + "] |||"; 
  for (auto& x : r.f) s += x.nt ? " [" + kCat[x.id] + "]" : " " + W[x.id];
  s += " |||"; for (auto& x : r.e) s += x.nt ? vh::Fmt(" [%d]", x.id + 1) : " " + EW(x.id);
  s += " |||" + FeatStr(r.feats);
  return s;
}
static string Content(const Rule& r, int i, int j, const map<string, double>& extra, bool target_is_source = false) {
  string s = kCat[r.lhs] + ":";
  for (auto& x : r.f) s += (x.nt ? "[" + kCat[x.id] + "]" : W[x.id]) + " ";
  s += "|"; for (auto& x : r.e) s += (x.nt ? vh::Fmt("[%d]", -x.id) : target_is_source ? W[x.id] : EW(x.id)) + " ";
  map<string, double> m = r.feats; for (auto& p : extra) m[p.first] += p.second;
  return s + FeatStr(m) + vh::Fmt(" @%d,%d", i, j);
}
static string CodeContent(const HG::Edge& e) {
  string s = TD::Convert(-e.rule_->lhs_) + string(":");
  for (WordID w : e.rule_->f_) s += (w > 0 ? string(TD::Convert(w)) : "[" + string(TD::Convert(-w)) + "]") + " ";
  s += "|"; for (WordID w : e.rule_->e_) s += (w > 0 ? string(TD::Convert(w)) : vh::Fmt("[%d]", w)) + " ";
  map<string, double> m; for (auto& p : e.feature_values_) m[FD::Convert(p.first)] += p.second;
  return s + FeatStr(m) + vh::Fmt(" @%d,%d", e.i_, e.j_);
}

struct Entry { string tree; int len; double logw; };
struct Ref {
  vector<Rule> rules; vector<Gram> grams; vector<vector<Arc> > lat; int limit; bool strict; map<string, double> weights;
  vector<vector<int> > dist; bool enforce;
  bool too_many = false; size_t cap = 1000; long steps = 0;
  map<tuple<int, int, int>, vector<Entry> > memo;
  bool Allowed(const Gram& g, int i, int j, int len) {
    if (g.kind == GLUE) return i == 0;
    int lim = g.kind == PASS ? 3 : limit;
    if (strict) return len <= lim;
    return !enforce || dist[i][j] <= lim;
  }
  double Score(const map<string, double>& m) { double s = 0; for (auto& p : m) { auto it = weights.find(p.first); if (it != weights.end()) s += it->second * p.second; } return s; }
  const vector<Entry>& D(int cat, int i, int j) {
    auto key = make_tuple(cat, i, j);
    auto it = memo.find(key); if (it != memo.end()) return it->second;
    vector<Entry> out;
    for (auto& r : rules) if (r.lhs == cat && !too_many) {
      if (r.f.size() == 1 && r.f[0].nt) {
        for (auto& c : D(r.f[0].id, i, j)) out.push_back({"(" + Content(r, i, j, {}) + c.tree + ")", c.len, c.logw + Score(r.feats)});
      } else {
        Walk(r, 0, i, j, i, {}, 0, 0.0, 0, &out);
      }
      if (out.size() > cap) too_many = true;
    }
    return memo[key] = out;
  }
  // cost: total lattice cost; narcs>0 tells whether a LatticeCost entry exists
  void Walk(const Rule& r, unsigned k, int i, int j, int at, vector<const Entry*> kids, int len, double cost, int narcs, vector<Entry>* out) {
    if (++steps > 200000) too_many = true;
    if (too_many) return;
    if (at == j && k == r.f.size()) {
      int total = len; for (auto c : kids) total += c->len;
      if (Allowed(grams[r.gram], i, j, total)) {
        map<string, double> ex; if (cost != 0) ex["LatticeCost_0"] = cost;
        Entry e; e.tree = "(" + Content(r, i, j, ex, grams[r.gram].kind == PASS); e.len = total; e.logw = Score(r.feats) + Score(ex);
        for (auto c : kids) { e.tree += c->tree; e.logw += c->logw; }
        e.tree += ")"; out->push_back(e); if (out->size() > cap) too_many = true;
      }
    }
    if (at < j) for (auto& a : lat[at]) if (at + a.len <= j) {
      if (a.word == EPS) Walk(r, k, i, j, at + a.len, kids, len + 1, cost + a.cost, narcs + 1, out);
      else if (k < r.f.size() && !r.f[k].nt && r.f[k].id == a.word) Walk(r, k + 1, i, j, at + a.len, kids, len + 1, cost + a.cost, narcs + 1, out);
    }
    if (k < r.f.size() && r.f[k].nt) for (int m = at + 1; m <= j; ++m) {
      if (at == i && m == j && i == at && k == 0 && r.f.size() == 1) continue;
      if (m == j && at == i && r.f.size() > 1) continue;    // the other symbols need words
      const vector<Entry>& sub = D(r.f[k].id, at, m);
      for (auto& s : sub) { vector<const Entry*> kk = kids; kk.push_back(&s); Walk(r, k + 1, i, j, m, kk, len, cost, narcs, out); }
    }
  }
};

static void Case(vh::Rng& r, long cs) {
  SetSilent(true);
  W.clear(); static const vector<string> pool = {"a", "b", "c", "d", "\xd8\xa7\xd9\x84", "e\xcc\x81t\xc3\xa9", "x:y", "longerword", "'", "12.5"};
  int nw = r.range(1, 4); vector<string> pp = pool; r.shuffle(pp); for (int i = 0; i < nw; ++i) W.push_back(pp[i]);
  bool lattice = r.chance(0.45);
  bool jumpy = lattice && r.chance(0.3);   // many arcs that skip nodes
  int n = r.range(jumpy ? 4 : 1, jumpy ? 8 : lattice ? 5 : 6); if (jumpy) { nw = r.chance(0.6) ? 1 : min(nw, 2); W.resize(nw); }
  Ref ref; ref.lat.resize(n);
  int nin = nw;    // words of the input that no grammar has
  bool pass = r.chance(0.5);
  if (pass && r.chance(0.3)) { static const vector<string> odd = {"[laughter]", "[X]", "[1]", "[X,1]", "[", "]", "||", "a=1", "{0}"}; W.push_back(r.pick(odd)); nin = nw + 1; }
  bool eps = lattice && r.chance(0.3);
  if (lattice) for (auto& w : W) if (w == "'") w = "q";
  for (int i = 0; i < n; ++i) {
    int na = lattice ? (r.chance(0.5) ? 1 : r.range(1, 3)) : 1;
    for (int a = 0; a < na; ++a) {
      Arc x; x.word = eps && r.chance(0.25) ? EPS : (int)r.below(nin); x.cost = lattice && r.chance(0.7) ? r.range(-8, 8) / 8.0 : 0;
      x.len = jumpy ? r.range(1, min(4, n - i)) : lattice && r.chance(0.35) ? r.range(1, n - i) : 1; ref.lat[i].push_back(x);
    }
  }
  if (jumpy && n > 3 && r.chance(0.5)) {   // two interleaved routes of different lengths
    for (auto& al : ref.lat) al.clear();
    vector<int> M(1, 0); while (M.back() < n) M.push_back(min(n, M.back() + r.range(2, 4)));
    if (M[M.size() - 1] != n) M.push_back(n);
    auto arc = [&](int a, int b) { Arc x; x.word = r.below(nin); x.cost = r.range(-8, 8) / 8.0; x.len = b - a; ref.lat[a].push_back(x); };
    for (unsigned m = 0; m + 1 < M.size(); ++m) arc(M[m], M[m + 1]);
    int at = 0; while (at < n) { int nx = at + 1; while (nx < n && find(M.begin(), M.end(), nx) != M.end()) ++nx; arc(at, nx); at = nx; }
    for (int i = 0; i < n; ++i) if (ref.lat[i].empty()) arc(i, i + 1);
    vh::Count("two_route_lattices");
  }
  int limit = r.chance(jumpy ? 0.1 : 0.4) ? 15 : r.range(1, 4);
  ref.limit = limit;
  // grammars
  bool glue = r.chance(0.75); int ncat = r.range(2, 4); string goal = "S", dflt = r.chance(0.8) ? "X" : kCat[ncat - 1];
  auto catid = [&](const string& s) { for (int i = 0; i < 4; ++i) if (kCat[i] == s) return i; return -1; };
  int ng = r.range(1, 3); vector<string> gtext(ng);
  int extra_glue = -1;
  if (r.chance(0.15)) { extra_glue = ng; gtext.push_back(""); }
  vector<int> kinds; for (int g = 0; g < ng; ++g) { ref.grams.push_back({LIMITED}); }
  if (extra_glue >= 0) ref.grams.push_back({GLUE});
  vector<string> fn = {"Rule_1", "Rule_2", "Bias", "Other"};
  bool coarse = r.chance(0.3);
  for (auto& f : fn) ref.weights[f] = r.real(-1, 1); ref.weights["Glue"] = r.real(-1, 1); ref.weights["PassThrough"] = r.real(-1, 1); ref.weights["LatticeCost_0"] = r.real(-1, 1);
  for (int g = 0; g < (int)gtext.size(); ++g) {
    int nr = r.range(g == extra_glue ? 1 : 2, g == extra_glue ? 3 : 9);
    for (int k = 0; k < nr; ++k) {
      Rule x; x.gram = g; x.lhs = r.chance(0.75) ? 1 + r.below(ncat - 1) : r.below(ncat);
      int len = r.chance(0.45) ? 1 : r.range(1, 4); int nts = 0;
      for (int q = 0; q < len; ++q) {
        bool nt = r.chance(0.45) && nts < 3;
        if (nt) { ++nts; x.f.push_back({true, (int)r.below(ncat)}); } else x.f.push_back({false, (int)r.below(nw)});
      }
      if (len == 1 && nts == 1) {  // unary rules: acyclic and never from the goal symbol
        int a = x.lhs, b = x.f[0].id; if (b == 0 || a == b) { x.f[0] = {false, (int)r.below(nw)}; nts = 0; }
        else if (a != 0 && a > b) { x.lhs = b; x.f[0].id = a; }
        if (nts && x.lhs == x.f[0].id) continue;
      }
      vector<int> perm; for (int q = 0; q < nts; ++q) perm.push_back(q); r.shuffle(perm);
      for (int p : perm) { if (r.chance(0.3)) x.e.push_back({false, (int)r.below(4)}); x.e.push_back({true, p}); }
      if (!nts || r.chance(0.3)) x.e.push_back({false, (int)r.below(4)});
      int nf = r.below(3); for (int q = 0; q < nf; ++q) x.feats[r.pick(fn)] = coarse ? 1 : r.range(-16, 16) / 8.0;
      for (auto it = x.feats.begin(); it != x.feats.end();) if (it->second == 0) it = x.feats.erase(it); else ++it;
      ref.rules.push_back(x); gtext[g] += RuleText(x) + "\n";
      if (r.chance(0.03)) { ref.rules.push_back(x); gtext[g] += RuleText(x) + "\n"; }   // the same rule listed twice
    }
  }
  if (glue) {
    int d = catid(dflt); int g = ref.grams.size(); ref.grams.push_back({GLUE});
    Rule a; a.gram = g; a.lhs = 0; a.f = {{true, d}}; a.e = {{true, 0}}; ref.rules.push_back(a);
    Rule b; b.gram = g; b.lhs = 0; b.f = {{true, 0}, {true, d}}; b.e = {{true, 0}, {true, 1}}; b.feats["Glue"] = 1; ref.rules.push_back(b);
  }
  unsigned npt = pass && r.chance(0.3) ? r.range(1, 6) : 0;
  if (pass) {
    int g = ref.grams.size(); ref.grams.push_back({PASS}); set<int> seen;
    for (auto& al : ref.lat) for (auto& a : al) if (seen.insert(a.word).second && a.word != EPS) {
      Rule x; x.gram = g; x.lhs = catid(dflt); x.f = {{false, a.word}}; x.e = {{false, a.word}}; x.feats["PassThrough"] = 1;
      if (npt) { int cl = 0; for (unsigned char c : W[a.word]) if ((c & 0xc0) != 0x80) ++cl; int b = (int)(log((double)cl) / log(1.6)) + 1; if (b > (int)npt) b = npt; x.feats[vh::Fmt("PassThrough_%d", b)] = 1; }
      ref.rules.push_back(x);
    }
  }
  // distances
  const int INF = 1000; ref.dist.assign(n + 1, vector<int>(n + 1, INF));
  for (int i = 0; i <= n; ++i) { ref.dist[i][i] = 0; for (int k = i; k < n; ++k) if (ref.dist[i][k] < INF) for (auto& a : ref.lat[k]) ref.dist[i][k + a.len] = min(ref.dist[i][k + a.len], ref.dist[i][k] + 1); }
  // the input text
  string input;
  if (lattice) {
    input = "(";
    for (auto& al : ref.lat) { input += "("; for (auto& a : al) input += vh::Fmt("('%s',%.4f,%d),", a.word == EPS ? "*EPS*" : W[a.word].c_str(), a.cost, a.len); input += "),"; }
    input += ")";
  } else for (auto& al : ref.lat) input += (input.empty() ? "" : " ") + W[al[0].word];
  ref.strict = lattice; ref.enforce = true;
  // reference derivations
  string desc = vh::Fmt("input '%s' limit %d goal %s default %s glue %d pass %d", input.c_str(), limit, goal.c_str(), dflt.c_str(), glue, pass);
  for (auto& x : ref.rules) desc += " ;; " + RuleText(x);
  vector<Entry> want = ref.D(0, 0, n);
  if (ref.too_many) { vh::Count("too_many_derivations"); return; }
  Ref loose = ref; loose.strict = false; loose.memo.clear(); vector<Entry> may;
  if (lattice) { may = loose.D(0, 0, n); if (loose.too_many) { vh::Count("too_many_derivations"); return; } } else may = want;

  // the translator
  po::variables_map conf;
  auto put = [&](const char* k, boost::any v) { conf.insert(make_pair(string(k), po::variable_value(v, false))); };
  put("scfg_max_span_limit", limit); put("add_extra_pass_through_features", npt); put("goal", goal); put("scfg_default_nt", dflt);
  if (pass) put("add_pass_through_rules", true);
  if (!glue) put("scfg_no_hiero_glue_grammar", true);
  vector<string> files; map<string, string> markup; string sup; bool use_sup = false; int mk = 0;
  for (int g = 0; g < (int)gtext.size(); ++g) {
    string fnm = vh::S().dir + vh::Fmt("/g%d", g); { ofstream o(fnm); o << gtext[g]; }
    if (g == extra_glue) put("scfg_extra_glue_grammar", fnm);
    else { int how = r.below(3); if (how == 0) files.push_back(fnm); else if (how == 1) { markup[mk ? vh::Fmt("grammar%d", mk) : "grammar"] = fnm; ++mk; } else if (!use_sup) { use_sup = true; sup = gtext[g]; } else files.push_back(fnm); }
  }
  if (use_sup && mk) { /* from string first, then the markup grammars */ }
  if (!files.empty()) put("grammar", files);
  SCFGTranslator tr(conf);
  if (use_sup) tr.AddSupplementalGrammarFromString(sup);
  tr.ProcessMarkupHints(markup);
  vector<double> w(FD::NumFeats() + 20, 0.0);
  for (auto& p : ref.weights) { int id = FD::Convert(p.first); if ((int)w.size() <= id) w.resize(id + 1, 0.0); w[id] = p.second; }
  w.resize(FD::NumFeats() + 20, 0.0);
  Lattice rl; SentenceMetadata smeta(0, rl); Hypergraph hg;
  bool ok = tr.Translate(input, &smeta, w, &hg);
  tr.SentenceComplete();
  vh::Count(lattice ? "lattices" : "sentences");
  VCHECK(smeta.GetSourceLength() == n, "length", "source length %d, %d expected; %s", smeta.GetSourceLength(), n, desc.c_str());
  if (!ok) {
    vh::Count("unparseable");
    VCHECK(want.empty(), "parse:missed", "reported unparseable, but e.g. %s exists; %s", want.empty() ? "" : want[0].tree.c_str(), desc.c_str());
    return;
  }
  if (may.empty()) { vh::Viol("parse:invented", vh::Fmt("parsed though no derivation exists: %s", desc.c_str())); return; }
  CheckIntegrity(hg, "parse"); VCHECK(TopoSorted(hg), "order", "not sorted: %s", desc.c_str());
  int g = hg.nodes_.size() - 1;
  if (CountDerivs(hg)[g] > may.size() + 20000) { vh::Viol("parse:count", vh::Fmt("%g derivations, at most %zu expected: %s", CountDerivs(hg)[g], may.size(), desc.c_str())); return; }
  vector<string> got = ContentTrees(hg, g, CodeContent);
  string top = "(Goal:[S] |[0]  @";
  auto wrap = [&](const vector<Entry>& v) { vector<string> o; for (auto& e : v) o.push_back("(Goal:[S] |[0] " + vh::Fmt(" @0,%d", n) + e.tree + ")"); sort(o.begin(), o.end()); return o; };
  vector<string> lo = wrap(want), hi = wrap(may);
  vector<string> missing, extra; set_difference(lo.begin(), lo.end(), got.begin(), got.end(), back_inserter(missing)); set_difference(got.begin(), got.end(), hi.begin(), hi.end(), back_inserter(extra));
  VCHECK(missing.empty(), lattice ? "lattice:missing" : "sentence:missing", "%zu of %zu derivations missing, e.g. %s; %s", missing.size(), lo.size(), missing.empty() ? "" : missing[0].c_str(), desc.c_str());
  VCHECK(extra.empty(), lattice ? "lattice:extra" : "sentence:extra", "%zu derivations that are not licensed (or repeated), e.g. %s; %s", extra.size(), extra.empty() ? "" : extra[0].c_str(), desc.c_str());
  vh::Count("derivations", got.size()); if (got.size() > 2) vh::Distinct("nontrivial", vh::HashStr(desc)); vh::Max("derivations", got.size());
  if (lattice && lo.size() == hi.size()) vh::Count("lattices_with_exact_limit");
  if (got.size() > 5) vh::Sample(desc);
  // weights and node identities
  set<size_t> hs;
  for (auto& nd : hg.nodes_) { hs.insert(nd.node_hash); }
  VCHECK(hs.size() == hg.nodes_.size(), "hash", "nodes of different category or span share their hash; %s", desc.c_str());
  for (auto& e : hg.edges_) { double s = 0; for (auto& p : e.feature_values_) s += p.second * w[p.first]; VCHECK(vh::Near(log(e.edge_prob_), s, 1e-9, 1e-9), "weight", "edge weighs %g, its features %g; %s", (double)log(e.edge_prob_), s, desc.c_str()); if (!vh::Near(log(e.edge_prob_), s, 1e-9, 1e-9)) break; }
  (void)cs; (void)top;
}
int main(int argc, char** argv) { return vh::Main(argc, argv, Case); }
