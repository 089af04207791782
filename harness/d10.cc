// D10: grammar text -> rules (and back) against the rule model the text was rendered from.
#include "vh.h"
#include "trule.h"
#include "tdict.h"
#include "fdict.h"
#include "grammar.h"
#include "rule_lexer.h"
#include "tree_fragment.h"
#include "filelib.h"
#include "verbose.h"
using namespace std;

struct Tok { bool nt; string s; int idx; };      // nt: label s; idx = 1-based gap index
struct MR {
  string lhs; vector<Tok> f, e; map<string, double> feats; vector<pair<int, int> > als; vector<string> featText;
  vector<bool> dense; int arity = 0, level = 0, parent = -1; string tree; vector<string> treeTerms;
};

static const vector<string> kNT = {"X", "S", "NP", "NP-1", "PRP$", "\xE6\x97\xA5", "Goal", "a|b", "X'", "1", "@", "SYMBOL_WITH_A_LONG_NAME", "||", "="};
static const vector<string> kSrcTok = {"a", "b", "der", "\xC3\xBC" "ber", "\xE4\xB8\xAD", "[X", "X]", "a,b", "[a,b,c]", "||", "|||x", "x|||", "=", ";", "a=b", "[X]y", "1", "-1.5", "<s>", "\\", "'", "\"", "{", "[]", "[,1]", "[X,0]", "[X,100]", "|", "%", "&amp;", "a[1]", "[X,1", "X,1]", "(", ")"};
static const vector<string> kTrgTok = {"a", "b", "the", "\xC3\xBC" "ber", "\xE4\xB8\xAD", "[X", "X]", "a,b", "[X]", "[NP]", "||", "|||x", "x|||", "=", ";", "a=b", "[X]y", "1", "-1.5", "<s>", "\\", "'", "\"", "[0]", "[100]", "[]", "[X,0]", "[1", "1]", "a[1]", "[01]", "(", ")"};
static const vector<string> kFeat = {"F", "Glue", "Lex:a|b", "F[1]", "\xE6\x97\xA5\xE6\x9C\xAC", "1x", "A_B", "x:y:z", "-", "e", "|||f", "Phrase", "'q'", "[X]"};

static string Canon(const string& lhs, const vector<string>& f, const vector<string>& e, const map<string, double>& ft, const vector<pair<int, int> >& als, bool exact) {
  string s = "[" + lhs + "]"; s += " F:"; for (auto& x : f) s += " " + x;
  s += " E:"; for (auto& x : e) s += " " + x;
  s += " V:"; for (auto& p : ft) if (p.second != 0) s += " " + p.first + "=" + vh::Fmt(exact ? "%.17g" : "%.4e", p.second);
  s += " A:"; for (auto& p : als) s += vh::Fmt(" %d-%d", p.first, p.second);
  return s;
}
static string CanonModel(const MR& m, bool exact = true, bool als = true) {
  vector<string> f, e;
  for (auto& t : m.f) f.push_back(t.nt ? "nt[" + t.s + "]" : "t:" + t.s);
  for (auto& t : m.e) e.push_back(t.nt ? vh::Fmt("nt[%d]", t.idx) : "t:" + t.s);
  return Canon(m.lhs, f, e, m.feats, als ? m.als : vector<pair<int, int> >(), exact);
}
static string CanonRule(const TRule& r, bool exact = true) {
  vector<string> f, e; map<string, double> ft; vector<pair<int, int> > als;
  for (WordID w : r.f_) f.push_back(w < 0 ? "nt[" + string(TD::Convert(-w)) + "]" : "t:" + string(TD::Convert(w)));
  for (WordID w : r.e_) e.push_back(w <= 0 ? vh::Fmt("nt[%d]", 1 - w) : "t:" + string(TD::Convert(w)));
  for (auto& p : r.scores_) ft[FD::Convert(p.first)] = p.second;
  for (auto& a : r.a_) als.push_back(make_pair(a.s_, a.t_));
  return Canon(TD::Convert(-r.lhs_), f, e, ft, als, exact);
}

static string ValueText(vh::Rng& r, double* v) {
  string s; double x;
  switch (r.below(8)) {
    case 0: s = vh::Fmt("%d", r.range(-5, 5)); break;
    case 1: s = vh::Fmt("%.3f", r.real(-10, 10)); break;
    case 2: s = vh::Fmt("%d.", r.range(0, 20)); break;
    case 3: s = vh::Fmt("+%.2f", r.real(0, 10)); break;
    case 4: s = vh::Fmt("%.6e", r.real(-1, 1) * pow(10, r.range(-20, 20))); break;
    case 5: s = vh::Fmt("%dE%d", r.range(-9, 9), r.range(-10, 10)); break;
    case 6: s = vh::Fmt("%.17g", r.real(-3, 3)); if (s.find_first_of("0123456789") > 1) s = "0"; break;
    default: s = vh::Fmt("%.1fe+%d", r.real(-9, 9), r.range(0, 5)); break;
  }
  x = strtod(s.c_str(), 0); *v = x; return s;
}

static void RandomRHS(vh::Rng& r, MR* m, int arity, int maxw, bool mono) {
  int total = r.range(arity == 0 ? 1 : 0, maxw);
  vector<Tok> f;
  for (int i = 0; i < arity; ++i) f.push_back({true, r.pick(kNT), 0});
  for (int i = 0; i < total; ++i) f.push_back({false, r.chance(0.5) ? r.pick(kSrcTok) : vh::Fmt("w%d", (int)r.below(1000)), 0});
  r.shuffle(f);
  int k = 0; for (auto& t : f) if (t.nt) t.idx = ++k;
  m->f = f; m->arity = arity;
  if (mono) { m->e = f; return; }
  vector<Tok> e; for (auto& t : f) if (t.nt) e.push_back(t);
  int te = r.range(0, maxw);
  for (int i = 0; i < te; ++i) e.push_back({false, r.chance(0.5) ? r.pick(kTrgTok) : vh::Fmt("v%d", (int)r.below(1000)), 0});
  r.shuffle(e); m->e = e;
}
static void RandomFeats(vh::Rng& r, MR* m) {
  if (r.chance(0.15)) return;
  int n = r.chance(0.03) ? r.range(90, 260) : r.range(0, 6);
  vector<string> names = kFeat; r.shuffle(names); unsigned ni = 0;
  bool all_dense = r.chance(0.3);
  for (int i = 0; i < n; ++i) {
    double v; string t = ValueText(r, &v); bool dense = all_dense || ni >= names.size() || r.chance(0.4);
    string name = dense ? vh::Fmt("PhraseModel_%d", i) : names[ni++];
    m->feats[name] = v; m->featText.push_back(dense ? t : name + "=" + t); m->dense.push_back(dense);
  }
}
static string Tree(vh::Rng& r, MR* m) {   // a tree whose frontier sites are the gaps in target order
  string s = "(" + r.pick(vector<string>{"S", "VP", "X"}); int open = 0;
  for (auto& t : m->e) {
    if (!t.nt && t.s.find_first_of("()[]|") != string::npos) continue;
    if (r.chance(0.3)) { s += " (" + r.pick(vector<string>{"NP", "VP", "N"}); ++open; if (r.chance(.2)) { s += " (Q"; ++open; } if (0) open = open; }
    if (t.nt) s += " [" + string(t.s.find('|') == string::npos ? t.s : "X") + "]"; else { s += " " + t.s; m->treeTerms.push_back(t.s); }
    while (open && r.chance(0.5)) { s += ")"; --open; }
  }
  while (open--) s += ")";
  return s + ")";
}
static MR RandomRule(vh::Rng& r, bool mono) {
  MR m; m.lhs = r.pick(kNT);
  int arity = r.chance(0.05) ? r.range(10, 99) : r.range(0, 4);
  int maxw = r.chance(0.03) ? r.range(100, 600) : r.range(1, 6);
  RandomRHS(r, &m, arity, maxw, mono); RandomFeats(r, &m);
  if (!mono && r.chance(0.3)) for (unsigned i = 0; i < m.f.size(); ++i) for (unsigned j = 0; j < m.e.size(); ++j)
    if (!m.f[i].nt && !m.e[j].nt && m.als.size() < 4000 && r.chance(0.3)) m.als.push_back({i, j});
  if (!mono && r.chance(0.15) && !m.e.empty()) { m.tree = Tree(r, &m); }
  return m;
}
static string Sep(vh::Rng& r) { return r.chance(0.85) ? " " : r.chance(0.5) ? "  " : r.chance(0.5) ? "\t" : " \t "; }
static string Render(vh::Rng& r, const MR& m, bool mono, bool lhs = true) {
  string s = string(m.level, r.chance(0.5) ? ' ' : '\t');
  if (lhs) s += "[" + m.lhs + "]" + (r.chance(0.9) ? Sep(r) : "") + "|||";
  bool idx = r.chance(0.5);
  for (auto& t : m.f) s += Sep(r) + (t.nt ? (idx && !mono && r.chance(0.8) ? vh::Fmt("[%s,%d]", t.s.c_str(), t.idx) : "[" + t.s + "]") : t.s);
  bool last = true;
  if (!mono) {
    s += Sep(r) + "|||";
    for (auto& t : m.e) s += Sep(r) + (t.nt ? (idx && r.chance(0.8) ? vh::Fmt("[%s,%d]", t.s.c_str(), t.idx) : vh::Fmt("[%d]", t.idx)) : t.s);
  }
  bool need = !m.featText.empty() || !m.als.empty() || !m.tree.empty();
  if (need || r.chance(0.3)) {
    s += Sep(r) + "|||"; bool semi = r.chance(0.3);
    for (unsigned i = 0; i < m.featText.size(); ++i) s += (i && semi ? ";" : Sep(r)) + m.featText[i];
    if (!m.als.empty() || !m.tree.empty()) { s += " |||"; for (auto& a : m.als) s += vh::Fmt(" %d-%d", a.first, a.second); }
    if (!m.tree.empty()) s += " ||| " + m.tree;
  }
  if (r.chance(0.1) && m.tree.empty()) s += " ";
  (void)last;
  return s;
}

static void CheckTree(const MR& m, const TRule& r) {
  if (m.tree.empty()) { VCHECK(!r.tree_structure, "tree:spurious", "a rule without a tree annotation carries one"); return; }
  vh::Count("trees");
  if (!r.tree_structure) { vh::Viol("tree:lost", "tree annotation lost: " + m.tree); return; }
  VCHECK((int)r.tree_structure->frontier_sites == m.arity, "tree:sites", "%d frontier sites, %d gaps", (int)r.tree_structure->frontier_sites, m.arity);
  vector<string> t; for (int w : r.tree_structure->Terminals()) t.push_back(TD::Convert(w));
  VCHECK(t == m.treeTerms && r.tree_structure->terminals == m.treeTerms.size(), "tree:terminals", "terminals of %s read as %zu words", m.tree.c_str(), t.size());
}

static void CheckSubst(vh::Rng& r, const MR& m, const TRule& t) {
  vector<vector<WordID> > v(m.arity); vector<const vector<WordID>*> p; vector<string> txt(m.arity);
  for (int i = 0; i < m.arity; ++i) { int n = r.below(3); for (int k = 0; k < n; ++k) { string w = vh::Fmt("sub%d_%d", i, k); v[i].push_back(TD::Convert(w)); txt[i] += " " + w; } }
  for (auto& x : v) p.push_back(&x);
  vector<WordID> e, f; t.ESubstitute(p, &e); t.FSubstitute(p, &f);
  string we, wf, ge, gf;
  for (auto& x : m.e) we += x.nt ? txt[x.idx - 1] : " " + x.s;
  for (auto& x : m.f) wf += x.nt ? txt[x.idx - 1] : " " + x.s;
  for (WordID w : e) ge += " " + string(TD::Convert(w));
  for (WordID w : f) gf += " " + string(TD::Convert(w));
  VCHECK(we == ge, "subst:target", "target substitution gives '%s', expected '%s'", ge.c_str(), we.c_str());
  VCHECK(wf == gf, "subst:source", "source substitution gives '%s', expected '%s'", gf.c_str(), wf.c_str());
}

static void RoundTrip(const MR& m, const TRule& t) {
  string text = t.AsString(true);
  TRule u; bool ok = u.ReadFromString(text);
  VCHECK(ok, "print:unreadable", "printed rule cannot be read: %s", text.c_str());
  if (!ok) return;
  string a = CanonRule(t, false), b = CanonRule(u, false);
  // values are printed with six digits: compare them with a tolerance, everything else exactly
  string a0 = a, b0 = b;
  map<string, double> fa, fb; for (auto& p : t.scores_) if (p.second != 0) fa[FD::Convert(p.first)] = p.second; for (auto& p : u.scores_) if (p.second != 0) fb[FD::Convert(p.first)] = p.second;
  bool same = fa.size() == fb.size();
  for (auto& p : fa) if (!fb.count(p.first) || !vh::Near(p.second, fb[p.first], 2e-5, 0)) same = false;
  VCHECK(same, "print:features", "features change when printed and read again: %s", text.c_str());
  auto strip = [](string s) { size_t i = s.find(" V:"), j = s.rfind(" A:"); return s.substr(0, i) + s.substr(j); };
  VCHECK(strip(a0) == strip(b0), "print:rule", "rule changes when printed and read again: %s -> %s", strip(a0).c_str(), strip(b0).c_str());
  VCHECK(t.Arity() == u.Arity(), "print:arity", "arity changes when printed and read again");
  string nv = t.AsString(false); TRule w;
  VCHECK(w.ReadFromString(nv) && w.f_ == t.f_ && w.e_ == t.e_ && w.lhs_ == t.lhs_, "print:short", "short form does not denote the rule: %s", nv.c_str());
}

struct Got { TRulePtr r; int level; string coarse; };
static void Collect(const TRulePtr& r, const unsigned level, const TRulePtr& coarse, void* x) {
  static_cast<vector<Got>*>(x)->push_back({r, (int)level, coarse ? CanonRule(*coarse) : ""});
}

static void Case(vh::Rng& r, long c) {
  SetSilent(true);
  // single rules
  for (int k = 0; k < 4; ++k) {
    bool mono = r.chance(0.25);
    MR m = RandomRule(r, mono);
    bool phrase = !mono && m.arity == 0 && r.chance(0.5);
    if (phrase) m.lhs = "X";
    string text = Render(r, m, mono, !phrase);
    TRulePtr t(phrase ? TRule::CreateRulePhrasetable(text) : mono ? TRule::CreateRuleMonolingual(text) : TRule::CreateRuleSynchronous(text));
    vh::Count("single_rules");
    if (!t) { vh::Viol("single:rejected", "rule rejected: " + text); continue; }
    string want = CanonModel(m), got = CanonRule(*t);
    if (want != got) vh::Viol(mono ? "single:mono" : "single:rule", "'" + text + "' read as " + got + " expected " + want);
    VCHECK(t->Arity() == m.arity, "single:arity", "arity %d expected %d for %s", t->Arity(), m.arity, text.c_str());
    if (!phrase && !mono) CheckTree(m, *t);
    CheckSubst(r, m, *t);
    RoundTrip(m, *t);
  }
  // a grammar
  vector<MR> g; int n = r.range(0, 25);
  for (int i = 0; i < n; ++i) {
    MR m = RandomRule(r, false);
    if (i && r.chance(0.2)) { MR b = g[r.below(g.size())]; m.f = b.f; m.arity = b.arity; m.e.clear(); m.tree = ""; m.treeTerms.clear(); m.als.clear(); for (auto& t : m.f) if (t.nt) m.e.push_back(t); r.shuffle(m.e); }  // shares the source side
    if (!g.empty() && r.chance(0.25)) {   // a refinement of the preceding rule (or one of its ancestors)
      int p = g.size() - 1, up = r.below(g[p].level + 1); while (up--) p = g[p].parent;
      const MR& b = g[p]; m.f = b.f; m.e = b.e; m.arity = b.arity; m.level = b.level + 1; m.parent = p; m.als.clear(); m.tree = ""; m.treeTerms.clear();
      for (auto& t : m.f) if (t.nt && r.chance(0.5)) t.s = r.pick(kNT);
      for (auto& t : m.e) if (t.nt) for (auto& u : m.f) if (u.nt && u.idx == t.idx) t.s = u.s;
    }
    g.push_back(m);
  }
  string text; int blanks = 0;
  bool spaced = r.chance(0.2);
  for (unsigned i = 0; i < g.size(); ++i) { if (spaced && r.chance(0.2)) { text += "\n"; ++blanks; } text += Render(r, g[i], false) + "\n"; }
  bool unterminated = r.chance(0.3); if (unterminated && !text.empty()) text.resize(text.size() - 1);
  if (unterminated) vh::Count("grammars_without_final_newline");
  if (blanks) vh::Count("grammars_with_blank_lines");
  vector<Got> got;
  { istringstream in(text); RuleLexer::ReadRules(&in, &Collect, "case", &got); }
  vh::Count("grammar_rules", g.size());
  VCHECK(got.size() == g.size(), "file:count", "%zu lines, %zu rules read", g.size(), got.size());
  for (unsigned i = 0; i < min(got.size(), g.size()); ++i) {
    string want = CanonModel(g[i]), have = CanonRule(*got[i].r);
    if (want != have) { vh::Viol("file:rule", vh::Fmt("rule %u of %zu: ", i, g.size()) + have + " expected " + want); break; }
    VCHECK(got[i].level == g[i].level, "file:level", "rule %u has projection level %d expected %d", i, got[i].level, g[i].level);
    string pc = g[i].parent >= 0 ? CanonModel(g[g[i].parent]) : "";
    VCHECK(pc == got[i].coarse, "file:coarse", "rule %u has the wrong coarse rule", i);
    CheckTree(g[i], *got[i].r);
    vh::Distinct("nontrivial", vh::HashStr(want));
  }
  // the grammar object holds exactly these rules
  string path = vh::S().dir + vh::Fmt("/g%ld%s", c % 4, r.chance(0.5) ? ".gz" : "");
  { WriteFile wf(path); *wf.stream() << text; }
  TextGrammar tg(path);
  map<vector<WordID>, vector<string> > want; vector<string> unary; map<WordID, vector<string> > byrhs;
  for (unsigned i = 0; i < min(got.size(), g.size()); ++i) {
    const TRule& t = *got[i].r;
    if (g[i].level) continue;
    if (g[i].arity == 1 && g[i].f.size() == 1) { unary.push_back(CanonModel(g[i])); byrhs[t.f_[0]].push_back(unary.back()); } else want[t.f_].push_back(CanonModel(g[i]));
  }
  auto list = [](const vector<TRulePtr>& v) { vector<string> o; for (auto& x : v) o.push_back(CanonRule(*x)); return o; };
  VCHECK(list(tg.GetAllUnaryRules()) == unary, "grammar:unary", "unary rules of the grammar differ from the file's");
  for (auto& p : byrhs) VCHECK(list(tg.GetUnaryRulesForRHS(p.first)) == p.second, "grammar:unary_rhs", "unary rules for a symbol differ");
  for (auto& p : want) {
    const GrammarIter* it = tg.GetRoot();
    for (WordID w : p.first) { it = it ? it->Extend(w) : 0; }
    const RuleBin* b = it ? it->GetRules() : 0;
    vector<string> have; if (b) for (int i = 0; i < b->GetNumRules(); ++i) have.push_back(CanonRule(*b->GetIthRule(i)));
    VCHECK(have == p.second, "grammar:rules", "%zu rules filed under a source side, expected %zu", have.size(), p.second.size());
    if (b && !p.second.empty()) VCHECK(b->Arity() == (int)count_if(p.first.begin(), p.first.end(), [](WordID w) { return w < 0; }), "grammar:bin_arity", "arity of a rule bin");
    // every proper prefix that is no source side holds no rules
    const GrammarIter* q = tg.GetRoot(); vector<WordID> pre;
    for (unsigned i = 0; i + 1 < p.first.size(); ++i) { q = q->Extend(p.first[i]); pre.push_back(p.first[i]); if (!q) break; if (!want.count(pre)) VCHECK(!q->GetRules(), "grammar:prefix", "rules filed under a prefix of their source side"); }
  }
  unsigned lv = 0; for (auto& m : g) lv = max<unsigned>(lv, m.level);
  VCHECK(tg.GetCTFLevels() == lv, "grammar:levels", "GetCTFLevels %u expected %u", tg.GetCTFLevels(), lv);
  unlink(path.c_str());
  if (g.size() > 2) vh::Sample(text.substr(0, 400));
}
int main(int argc, char** argv) {
  return vh::Main(argc, argv, [](vh::Rng& r, long c) { Case(r, c); });
}
