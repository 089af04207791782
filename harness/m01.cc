// M01: every metric's statistics and score against a computation from its definition.
#include "vh.h"
#include "ns.h"
#include "ns_docscorer.h"
#include "ns_ter_impl.h"
#include "scorer.h"
#include "aer_scorer.h"
#include "tdict.h"
#include "levenshtein.h"
#include <set>
#include <fstream>
using namespace std;
typedef vector<string> Sent; typedef vector<WordID> Ids;
static Ids I(const Sent& s) { Ids v; for (auto& w : s) v.push_back(TD::Convert(w)); return v; }
static string J(const Sent& s) { string o; for (auto& w : s) { if (!o.empty()) o += ' '; o += w; } return o; }
template <class V> static int Lev(const V& a, const V& b) { vector<vector<int>> d(a.size() + 1, vector<int>(b.size() + 1)); for (size_t i = 0; i <= a.size(); ++i) for (size_t j = 0; j <= b.size(); ++j) d[i][j] = !i ? j : !j ? i : min(min(d[i-1][j], d[i][j-1]) + 1, d[i-1][j-1] + !(a[i-1] == b[j-1])); return d[a.size()][b.size()]; }
static map<Sent, map<int, map<Sent, int>>> gc; static map<Sent, map<Sent, double>> pc;
static const map<Sent, int>& Grams(const Sent& s, int n) { auto& slot = gc[s]; auto f = slot.find(n); if (f != slot.end()) return f->second; map<Sent, int>& m = slot[n]; for (int i = 0; i + n <= (int)s.size(); ++i) m[Sent(s.begin() + i, s.begin() + i + n)]++; return m; }
static Sent Chars(const Sent& s) { Sent o; for (size_t k = 0; k < s.size(); ++k) { if (k) o.push_back(" "); const string& w = s[k]; for (size_t i = 0; i < w.size();) { size_t e = i + 1; while (e < w.size() && ((unsigned char)w[e] & 0xc0) == 0x80) ++e; o.push_back(w.substr(i, e - i)); i = e; } } return o; }
struct Bl { vector<double> cor, tot; double hl; set<double> rl; };
static Bl Bleu(Sent h, vector<Sent> rs, int N, char type) {  // I closest, K average, N shortest
  Bl b; b.hl = h.size(); for (int n = 1; n <= N; ++n) { auto& hg = Grams(h, n); double c = 0, t = 0; vector<const map<Sent, int>*> rg; for (auto& r : rs) rg.push_back(&Grams(r, n)); for (auto& g : hg) { int m = 0; for (auto* x : rg) { auto it = x->find(g.first); if (it != x->end()) m = max(m, it->second); } c += min(m, g.second); t += g.second; } b.cor.push_back(c); b.tot.push_back(t); }
  double sum = 0, sh = 1e9, bd = 1e9; for (auto& r : rs) { sum += r.size(); sh = min(sh, (double)r.size()); bd = min(bd, fabs((double)r.size() - b.hl)); }
  if (type == 'K') b.rl.insert(sum / rs.size()); else if (type == 'N') b.rl.insert(sh); else for (auto& r : rs) if (fabs(r.size() - b.hl) == bd) b.rl.insert(r.size());
  return b;
}
static double BleuScore(const vector<double>& cor, const vector<double>& tot, double hl, double rl, bool qcri, bool old) {
  double s = 0, adj = 0, alpha = qcri ? 1 : 0.01; int n = 0, N = cor.size(); for (int i = 0; i < N; ++i) if (tot[i] > 0) { s += log((cor[i] ? cor[i] : alpha) / tot[i]); adj += log(alpha / (tot[i] + alpha)); ++n; }
  if (!n) return 0; int d = old ? N : n; double bp = hl < rl ? (hl - rl - (qcri ? 1 : 0)) / hl : 0; double r = exp(s / d + bp); if (qcri) r -= exp(bp + adj / n); return r;
}
// string kernel from its definition: every subsequence of up to four words weighted by lambda^span
static double Kern(const Sent& s, const Sent& t) {
  auto phi = [](const Sent& x) -> const map<Sent, double>& { auto f = pc.find(x); if (f != pc.end()) return f->second; map<Sent, double>& m = pc[x]; int n = x.size(); for (int mask = 1; mask < (1 << n); ++mask) { if (__builtin_popcount(mask) > 4) continue; Sent u; int lo = -1, hi = 0; for (int i = 0; i < n; ++i) if (mask >> i & 1) { u.push_back(x[i]); if (lo < 0) lo = i; hi = i; } m[u] += pow(0.8, hi - lo + 1); } return m; };
  auto &a = phi(s), &b = phi(t); double k = 0; for (auto& p : a) { auto it = b.find(p.first); if (it != b.end()) k += p.second * it->second; } return k;
}
static double SSK(const Sent& h, const vector<Sent>& rs) { double best = 0; for (auto& r : rs) { double k = Kern(h, r); if (k > 0) best = max(best, k / sqrt(Kern(h, h) * Kern(r, r))); } return best; }
// is there an edit script with these counts between a and b (insertions: words of a that b lacks)
static bool Script(const Ids& a, const Ids& b, int sub, int ins, int del) {
  if ((int)a.size() - (int)b.size() != ins - del) return false; vector<vector<set<pair<int, int>>>> d(a.size() + 1, vector<set<pair<int, int>>>(b.size() + 1)); d[0][0].insert({0, 0});
  for (size_t i = 0; i <= a.size(); ++i) for (size_t j = 0; j <= b.size(); ++j) for (auto p : d[i][j]) { if (i < a.size() && j < b.size()) { int s = p.first + (a[i] != b[j]); if (s <= sub) d[i+1][j+1].insert({s, p.second}); } if (i < a.size() && p.second < ins) d[i+1][j].insert({p.first, p.second + 1}); if (j < b.size()) d[i][j+1].insert(p); }
  return d[a.size()][b.size()].count({sub, ins});
}
static set<Ids> Shifted(const Ids& h, int k) { set<Ids> cur{h}; for (int z = 0; z < k; ++z) { set<Ids> nx; for (auto& x : cur) { int n = x.size(); for (int b = 0; b < n; ++b) for (int e = b + 1; e <= n; ++e) { Ids blk(x.begin() + b, x.begin() + e), rest(x.begin(), x.begin() + b); rest.insert(rest.end(), x.begin() + e, x.end()); for (size_t p = 0; p <= rest.size(); ++p) { Ids y = rest; y.insert(y.begin() + p, blk.begin(), blk.end()); nx.insert(y); } } } cur.swap(nx); } return cur; }
static Sent RandSent(vh::Rng& r, int maxlen, const Sent& voc) { Sent s; int n = r.chance(0.06) ? 0 : r.range(1, maxlen); for (int i = 0; i < n; ++i) s.push_back(r.pick(voc)); return s; }
static void Perturb(vh::Rng& r, Sent& s, const Sent& voc) { int k = r.range(0, 4); for (int i = 0; i < k; ++i) { int o = r.below(4); if (o == 0 && s.size()) s.erase(s.begin() + r.below(s.size())); else if (o == 1) s.insert(s.begin() + r.below(s.size() + 1), r.pick(voc)); else if (o == 2 && s.size()) s[r.below(s.size())] = r.pick(voc); else if (s.size() > 1) { int b = r.below(s.size()), e = b + 1 + r.below(s.size() - b); Sent blk(s.begin() + b, s.begin() + e); s.erase(s.begin() + b, s.begin() + e); s.insert(s.begin() + r.below(s.size() + 1), blk.begin(), blk.end()); } } }
static const char* kNames[] = {"IBM_BLEU", "NIST_BLEU", "KOEHN_BLEU", "QCRI_BLEU", "SSK", "TER", "CER", "WER", "CBLEU"};
static string Show(const Sent& h, const vector<Sent>& rs) { string o = "hyp '" + J(h) + "' refs"; for (auto& r : rs) o += " '" + J(r) + "'"; return o; }
static void TerCounts(const Sent& h, const vector<Sent>& rs, int ins, int del, int sub, int shi, const char* who) {
  Ids H = I(h); int tot = ins + del + sub + shi, plain = 1 << 30; bool valid = false; for (auto& r : rs) plain = min(plain, Lev(h, r));
  VCHECK(ins >= 0 && del >= 0 && sub >= 0 && shi >= 0 && tot <= plain, string(who) + ":edits", "%s: %d+%d+%d edits and %d shifts, plain edit distance %d", Show(h, rs).c_str(), ins, del, sub, shi, plain);
  bool small = h.size() <= (shi < 2 ? 7 : 5) && shi <= 2; for (auto& r : rs) { Ids R = I(r); if ((int)h.size() - (int)r.size() != ins - del) continue; if (!small) { auto a = Grams(h, 1), b = Grams(r, 1); int common = 0; for (auto& g : a) common += min(g.second, b[g.first]); if (ins + sub < (int)h.size() - common || del + sub < (int)r.size() - common) continue; valid = true; break; } for (auto& x : Shifted(H, shi)) if (Script(x, R, sub, ins, del)) { valid = true; break; } if (valid) break; }
  VCHECK(valid, string(who) + ":script", "%s: no script with %d insertions, %d deletions, %d substitutions after %d shifts", Show(h, rs).c_str(), ins, del, sub, shi); vh::Count(small ? "edit scripts found" : "edit counts bounded"); vh::Max("shifts", shi);
}
static void Check(const string& name, const Sent& h, const vector<Sent>& rs, const SufficientStats& t) {
  string K = "ns:" + name; EvaluationMetric* m = EvaluationMetric::Instance(name);
  if (name.find("BLEU") != string::npos) {
    bool ch = name == "CBLEU"; int N = ch ? 5 : 4; vector<Sent> cr; for (auto& r : rs) cr.push_back(ch ? Chars(r) : r); Bl b = Bleu(ch ? Chars(h) : h, cr, N, name[0] == 'K' ? 'K' : name[0] == 'N' ? 'N' : 'I');
    if ((int)t.size() != 2 * N + 2) { VCHECK(false, K + ":size", "%d fields", (int)t.size()); return; }
    for (int i = 0; i < N; ++i) VCHECK(t[i] == b.cor[i] && t[N + i] == b.tot[i], K + ":counts", "%s: order %d matches %g of %g, definition %g of %g", Show(h, rs).c_str(), i + 1, t[i], t[N + i], b.cor[i], b.tot[i]);
    bool rl = false; for (double x : b.rl) rl |= fabs(x - t[2*N+1]) < 1e-4; VCHECK(t[2*N] == b.hl && rl, K + ":lengths", "%s: lengths %g and %g", Show(h, rs).c_str(), t[2*N], t[2*N+1]);
    double w = BleuScore(b.cor, b.tot, b.hl, t[2*N+1], name[0] == 'Q', false); float g = m->ComputeScore(t); VCHECK(vh::Near(g, w, 2e-5, 2e-6), K + ":score", "%s: score %g, definition %g", Show(h, rs).c_str(), g, w);
    if (!h.empty()) { string d = m->DetailedScore(t); VCHECK(d.find(vh::Fmt(" = %.2f", g * 100.0)) != string::npos, K + ":details", "%s: '%s' for %g", Show(h, rs).c_str(), d.c_str(), g); }
  } else if (name == "SSK") { double w = SSK(h, rs); VCHECK(vh::Near(m->ComputeScore(t), w, 2e-4, 1e-6), K + ":score", "%s: %g, definition %g", Show(h, rs).c_str(), m->ComputeScore(t), w); }
  else if (name == "TER") { double avg = 0; for (auto& r : rs) avg += r.size(); avg = (int)(avg / rs.size()); if (t.size() != 5) { VCHECK(false, K + ":size", "%d fields", (int)t.size()); return; } TerCounts(h, rs, t[0], t[1], t[2], t[3], "ter"); VCHECK(t[4] == avg, K + ":length", "%s: length %g", Show(h, rs).c_str(), t[4]); if (avg) VCHECK(vh::Near(m->ComputeScore(t), (t[0] + t[1] + t[2] + t[3]) / avg, 1e-5, 0), K + ":score", "%s: score %g", Show(h, rs).c_str(), m->ComputeScore(t)); }
  else { int best = 1 << 30; set<int> len; for (auto& r : rs) { int d = name == "CER" ? Lev(J(h), J(r)) : Lev(h, r), l = name == "CER" ? J(r).size() : r.size(); if (d < best) { best = d; len.clear(); } if (d == best) len.insert(l); }
    if (t.size() != 2) { VCHECK(false, K + ":size", "%d fields", (int)t.size()); return; } VCHECK(t[0] == best && len.count((int)t[1]), K + ":stats", "%s: %g edits over %g, definition %d", Show(h, rs).c_str(), t[0], t[1], best); if (t[1]) VCHECK(vh::Near(m->ComputeScore(t), best / t[1], 1e-5, 0), K + ":score", "%s: %g", Show(h, rs).c_str(), m->ComputeScore(t)); }
}
static void Case(vh::Rng& r, long) {
  gc.clear(); pc.clear();
  Sent voc; int nv = r.range(2, 9); static const char* pool[] = {"a", "b", "c", "dd", "the", "x", "\xc3\xa9t\xc3\xa9", "\xe6\x97\xa5\xe6\x9c\xac", "house", "\xf0\x9f\x98\x80", ".", "no"}; for (int i = 0; i < nv; ++i) voc.push_back(pool[r.below(12)]);
  int nr = r.chance(0.5) ? 1 : r.range(2, 4), ml = r.chance(0.6) ? 6 : r.chance(0.96) ? 12 : 60; vector<Sent> rs; for (int i = 0; i < nr; ++i) { Sent s = i && r.chance(0.5) ? rs[0] : RandSent(r, ml, voc); if (i) Perturb(r, s, voc); if (s.empty() && r.chance(0.8)) s.push_back(r.pick(voc)); rs.push_back(s); }
  vector<Sent> hs; for (int i = 0; i < 6; ++i) { Sent h = r.chance(0.6) ? r.pick(rs) : RandSent(r, ml, voc); Perturb(r, h, voc); if (r.chance(0.04)) h.clear(); hs.push_back(h); } hs.push_back(hs[0]);
  vector<Ids> R; for (auto& x : rs) R.push_back(I(x)); string sig;
  for (const char* n : kNames) {
    EvaluationMetric* m = EvaluationMetric::Instance(n); auto ev = m->CreateSegmentEvaluator(R); SufficientStats sum; bool ssk = string(n) == "SSK"; bool empty_ref = false; for (auto& x : rs) empty_ref |= x.empty();
    if (ssk && ml > 12) continue; SufficientStats reused; for (auto& h : hs) { if (ssk && h.size() > 11) continue; bool big = false; if (ssk) for (auto& x : rs) big |= x.size() > 11; if (big) continue; SufficientStats t; ev->Evaluate(I(h), &t); Check(n, h, rs, t); SufficientStats& u = r.chance(0.5) ? reused : t; ev->Evaluate(I(h), &u); VCHECK(u.fields == t.fields && u.id_ == m->MetricId(), string("ns:") + n + ":again", "%s: a second evaluation into used statistics differs", Show(h, rs).c_str()); sum += t; vh::Count("evaluations"); }
    if (string(n).find("BLEU") != string::npos && n[0] != 'C') { vector<double> c, t; for (int i = 0; i < 4; ++i) { c.push_back(sum[i]); t.push_back(sum[4 + i]); } double w = BleuScore(c, t, sum[8], sum[9], n[0] == 'Q', false); VCHECK(vh::Near(m->ComputeScore(sum), w, 3e-5, 2e-6), string("ns:") + n + ":corpus", "corpus score %g, definition %g", m->ComputeScore(sum), w); }
  }
  { double a = round(r.real(-2, 2) * 8) / 8, b = round(r.real(-2, 2) * 8) / 8; const char *x = kNames[r.below(4)], *y = r.chance(0.5) ? "TER" : r.chance(0.5) ? "WER" : kNames[r.below(4)]; string id = vh::Fmt("COMB:%s=%g;%s=%g", x, a, y, b); if (r.chance(0.3)) id += ";CER=0.25"; EvaluationMetric* m = EvaluationMetric::Instance(id); auto ev = m->CreateSegmentEvaluator(R); SufficientStats sx, sy, sz, sc; SufficientStats again;
    for (auto& h : hs) { SufficientStats t, u; ev->Evaluate(I(h), &t); sc += t; ev->Evaluate(I(h), &again); VCHECK(again.fields == t.fields && again.id_ == m->MetricId(), "ns:COMB:again", "%s: a second evaluation of %s into used statistics differs", id.c_str(), Show(h, rs).c_str()); EvaluationMetric::Instance(x)->CreateSegmentEvaluator(R)->Evaluate(I(h), &u); sx += u; u = SufficientStats(); EvaluationMetric::Instance(y)->CreateSegmentEvaluator(R)->Evaluate(I(h), &u); sy += u; u = SufficientStats(); EvaluationMetric::Instance("CER")->CreateSegmentEvaluator(R)->Evaluate(I(h), &u); sz += u; }
    double w = a * EvaluationMetric::Instance(x)->ComputeScore(sx) + b * EvaluationMetric::Instance(y)->ComputeScore(sy); if (id.find("CER") != string::npos) w += 0.25 * EvaluationMetric::Instance("CER")->ComputeScore(sz); float g = m->ComputeScore(sc); if (isfinite(w)) VCHECK(vh::Near(g, w, 2e-5, 2e-6), "ns:COMB", "%s gives %g, its parts %g", id.c_str(), g, w); vh::Count("combined"); }
  if (r.chance(0.3)) {  // source and references in one file
    string p = vh::S().dir + "/srcref"; int n = r.range(1, 6); vector<string> src; vector<vector<Sent>> rr(n); { ofstream f(p); for (int i = 0; i < n; ++i) { src.push_back(J(RandSent(r, 6, voc))); int k = r.range(1, 3); string line = src.back(); for (int j = 0; j < k; ++j) { Sent s = RandSent(r, 8, voc); if (s.empty()) s.push_back("z"); rr[i].push_back(s); line += " ||| " + J(s); } f << line << (i + 1 < n || r.chance(0.7) ? "\n" : ""); } }
    bool ter = r.chance(0.3); EvaluationMetric* m = EvaluationMetric::Instance(ter ? "WER" : "IBM_BLEU"); DocumentScorer ds(m, p); VCHECK((int)ds.size() == n, "srcref:size", "%d sentences of %d", (int)ds.size(), n); if ((int)ds.size() == n) for (int i = 0; i < n; ++i) { Sent h = r.pick(rr[i]); Perturb(r, h, voc); SufficientStats t; ds[i]->Evaluate(I(h), &t); VCHECK(ds[i]->src == src[i], "srcref:source", "source '%s', was '%s'", ds[i]->src.c_str(), src[i].c_str()); Check(ter ? "WER" : "IBM_BLEU", h, rr[i], t); vh::Count("evaluations with source"); }
  }
  // the older interface
  struct O { ScoreType t; int n; char k; } os[] = {{IBM_BLEU, 4, 'I'}, {IBM_BLEU_3, 3, 'I'}, {NIST_BLEU, 4, 'N'}, {Koehn_BLEU, 4, 'K'}};
  for (auto& o : os) { ScorerP s = SentenceScorer::CreateSentenceScorer(o.t, R); vector<double> c(o.n), t(o.n); double hl = 0, rl = 0; ScoreP acc; bool tie = false; for (auto& h : hs) { if (h.empty()) continue; Bl b = Bleu(h, rs, o.n, o.k); ScoreP p = s->ScoreCandidate(I(h)); tie = b.rl.size() > 1; double w = 0, g = p->ComputeScore(); bool ok = false; for (double x : b.rl) { w = BleuScore(b.cor, b.tot, b.hl, x, false, true); ok |= vh::Near(g, w, 2e-5, 2e-6); } VCHECK(ok, "score:bleu", "%s: older interface %g, definition %g", Show(h, rs).c_str(), g, w); if (tie) continue; if (!acc) acc = p; else acc->PlusEquals(*p); for (int i = 0; i < o.n; ++i) { c[i] += b.cor[i]; t[i] += b.tot[i]; } hl += b.hl; rl += *b.rl.begin(); }
    if (acc) { double w = BleuScore(c, t, hl, rl, false, true), g = acc->ComputeScore(); VCHECK(vh::Near(g, w, 3e-5, 2e-6), "score:bleu:corpus", "older interface corpus %g, definition %g", g, w); } }
  { ScorerP ter = SentenceScorer::CreateSentenceScorer(TER, R), wer = SentenceScorer::CreateSentenceScorer(WER, R), ser = SentenceScorer::CreateSentenceScorer(SER, R), ib = SentenceScorer::CreateSentenceScorer(IBM_BLEU, R), cmb = SentenceScorer::CreateSentenceScorer(BLEU_minus_TER_over_2, R); auto nt = EvaluationMetric::Instance("TER")->CreateSegmentEvaluator(R); bool er = false; for (auto& x : rs) er |= x.empty();
    for (auto& h : hs) { if (h.empty() || er) continue; string e; ScoreP p = ter->ScoreCandidate(I(h)); p->Encode(&e); int a[5] = {0}; sscanf(e.c_str(), "%d %d %d %d %d", a, a+1, a+2, a+3, a+4); TerCounts(h, rs, a[0], a[1], a[2], a[3], "score:ter"); SufficientStats t; nt->Evaluate(I(h), &t); VCHECK(t[0] == a[0] && t[1] == a[1] && t[2] == a[2] && t[3] == a[3] && t[4] == a[4], "ter:two", "%s: the two implementations differ: %s", Show(h, rs).c_str(), e.c_str());
      double best = 1e9; for (auto& x : rs) best = min(best, (double)Lev(h, x) / x.size()); double g = wer->ScoreCandidate(I(h))->ComputeScore(); VCHECK(vh::Near(g, best, 1e-5, 0), "score:wer", "%s: WER %g, definition %g", Show(h, rs).c_str(), g, best);
      bool hit = false; for (auto& x : rs) hit |= x == h; g = ser->ScoreCandidate(I(h))->ComputeScore(); VCHECK(g == (hit ? 1 : 0), "score:ser", "%s: SER %g", Show(h, rs).c_str(), g);
      double w = (ib->ScoreCandidate(I(h))->ComputeScore() - p->ComputeScore()) / 2; g = cmb->ScoreCandidate(I(h))->ComputeScore(); if (a[4]) VCHECK(vh::Near(g, w, 1e-5, 1e-6), "score:combi", "%s: %g, parts %g", Show(h, rs).c_str(), g, w); } }
  { auto al = [&]() { set<pair<int, int>> s; int n = r.range(1, 8); for (int i = 0; i < n; ++i) s.insert({(int)r.below(6), (int)r.below(6)}); return s; }; auto txt = [](const set<pair<int, int>>& s) { Sent o; for (auto& p : s) o.push_back(vh::Fmt("%d-%d", p.first, p.second)); return o; };
    auto a = al(), b = al(); if (r.chance(0.5)) { b = a; if (b.size() > 1) b.erase(b.begin()); } int m = 0; for (auto& p : a) m += b.count(p); ScoreP p = SentenceScorer::CreateSentenceScorer(AER, vector<Ids>(1, I(txt(a))), "src")->ScoreCandidate(I(txt(b))); double w = 1 - 2.0 * m / (a.size() + b.size()), g = p->ComputeScore(); VCHECK(vh::Near(g, w, 1e-5, 1e-6), "score:aer", "AER %g, definition %g: %s / %s", g, w, J(txt(a)).c_str(), J(txt(b)).c_str()); }
  sig = Show(hs[0], rs) + J(hs[1]); vh::Distinct("nontrivial", vh::HashStr(sig)); if (vh::S().samples.size() < 3) vh::Sample(sig.substr(0, 120));
  // a document through the reader of reference files and fast_score
  static long nth = 0; if (getenv("FAST_SCORE") && nth++ % 15 == 0) {
    int nl = r.range(1, 12), nf = r.range(1, 3); vector<vector<Sent>> refs(nl); Sent v2 = voc; vector<Sent> hyps; bool over = r.chance(0.05); vector<ofstream> f(nf); string cmd; for (int k = 0; k < nf; ++k) { string p = vh::S().dir + vh::Fmt("/ref%d", k); f[k].open(p); cmd += " -r " + p; } ofstream hf(vh::S().dir + "/hyp"); bool any = false;
    for (int l = 0; l < nl; ++l) { for (int k = 0; k < nf; ++k) { int n = r.chance(0.2) ? 2 : 1; string line; for (int i = 0; i < n; ++i) { Sent s = RandSent(r, 12, voc); bool blank = n == 1 && r.chance(0.06); if (blank) s.clear(); else if (s.empty()) s.push_back(r.pick(voc)); if (!blank && r.chance(0.004)) for (int z = 0; z < 17000; ++z) s.push_back(r.pick(voc)); if (!blank) refs[l].push_back(s); line += (i ? " ||| " : "") + J(s); } f[k] << line << (l + 1 < nl || line.empty() || r.chance(0.7) ? "\n" : ""); } if (refs[l].empty()) refs[l].resize(1); Sent h = r.chance(0.6) && refs[l][0].size() < 100 ? refs[l][0] : RandSent(r, 12, voc); Perturb(r, h, voc); if (h.size()) any = true; hyps.push_back(h); hf << J(h) << "\n"; } f.clear(); if (over) hf << "x y\nz\n"; hf.close(); if (!any) return;
    string name = kNames[r.below(3)]; char t = name[0] == 'K' ? 'K' : name[0] == 'N' ? 'N' : 'I'; vector<double> c(4), tt(4); double hl = 0; set<double> rl{0}; bool wer = r.chance(0.3); long ed = 0, len = 0; set<long> lens{0}; for (int l = 0; l < nl; ++l) { Bl b = Bleu(hyps[l], refs[l], 4, t); for (int i = 0; i < 4; ++i) { c[i] += b.cor[i]; tt[i] += b.tot[i]; } hl += b.hl; set<double> n; for (double x : rl) for (double y : b.rl) n.insert(x + y); rl.swap(n); int best = 1 << 30; set<long> ls; for (auto& x : refs[l]) { int d = Lev(hyps[l], x); if (d < best) { best = d; ls.clear(); } if (d == best) ls.insert(x.size()); } ed += best; set<long> nn; for (long x : lens) for (long y : ls) nn.insert(x + y); lens.swap(nn); }
    string out = vh::S().dir + "/out"; string run = string(getenv("FAST_SCORE")) + cmd + " -m " + (wer ? "wer" : r.chance(0.3) && name == "IBM_BLEU" ? "bleu" : name) + " -i " + vh::S().dir + "/hyp > " + out + " 2>" + vh::S().dir + "/err"; int rc = system(run.c_str()); ifstream of(out); double g = -1; of >> g; bool ok = false; double w = 0; if (wer && lens.count(0)) return; if (wer) for (long x : lens) { w = (double)ed / x; ok |= vh::Near(g, w, 1e-4, 1e-5); } else for (double x : rl) { w = BleuScore(c, tt, hl, x, false, false); ok |= vh::Near(g, w, 1e-4, 1e-5); }
    if (over) { VCHECK(WIFEXITED(rc) && WEXITSTATUS(rc) == 1, "fast_score:over", "%s ends with status %d for too many translations", run.c_str(), rc); return; } VCHECK(rc == 0 && ok, "fast_score", "%s printed %g (exit %d), definition %g", run.c_str(), g, rc, w); vh::Count("documents scored by fast_score"); }
}
int main(int argc, char** argv) { return vh::Main(argc, argv, [](vh::Rng& r, long c) { Case(r, c); }); }
