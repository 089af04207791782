// M03: mbr_kbest's choice and list against expected losses computed here.
#include "vh.h"
#include "ns.h"
#include "tdict.h"
#include <fstream>
#include <sstream>
#include <sys/wait.h>
using namespace std;
typedef vector<string> Sent;
static string J(const Sent& s) { string o; for (auto& w : s) { if (!o.empty()) o += ' '; o += w; } return o; }
struct Entry { string text; double score; };
static void Case(vh::Rng& r, long) {
  static const char* mets[] = {"ibm_bleu", "TER", "WER", "CER", "SSK", "koehn_bleu", "NIST_BLEU", "ter", "wer", "QCRI_BLEU"}; static const char* pool[] = {"a", "b", "c", "dd", "the", "x", "\xc3\xa9t\xc3\xa9", "house", "no", "."};
  string met = mets[r.below(10)]; string up = met; for (auto& ch : up) ch = toupper(ch); EvaluationMetric* m = EvaluationMetric::Instance(up); bool loss = up == "TER" || up == "WER" || up == "CER"; int nf = r.chance(0.5) ? 1 : r.range(2, 3), ns = r.range(1, 5); bool list = r.chance(0.5), def = up == "IBM_BLEU" && r.chance(0.3);
  string cmd = string(getenv("MBR")); vector<double> sc(nf, 1), of(nf, 0); bool scaled = r.chance(0.6), offs = r.chance(0.4); for (int f = 0; f < nf; ++f) { if (scaled) sc[f] = round(r.real(0.01, 2) * 1000) / 1000; if (offs) of[f] = round(r.real(-3, 3) * 1000) / 1000; } bool piped = nf == 1 && r.chance(0.2);
  for (int f = 0; f < nf; ++f) { if (!piped) cmd += vh::Fmt(" -i %s/k%d", vh::S().dir.c_str(), f); if (scaled) cmd += vh::Fmt(" -a %g", sc[f]); if (offs) cmd += vh::Fmt(" -b%g", of[f]); } if (!def) cmd += " -m " + met; if (list) cmd += " -L"; if (piped) cmd += " < " + vh::S().dir + "/k0";
  vector<string> ids; for (int s = 0, id = 0; s < ns; ++s) { id += r.range(1, 4); ids.push_back(r.chance(0.8) ? vh::Fmt("%d", id) : vh::Fmt("doc.%d-x", id)); } vector<vector<Entry>> all(ns); string sig = met + (list ? "L" : "") + vh::Fmt("%d%g%g", nf, sc[0], of[0]); bool empties = !loss && r.chance(0.3);
  vector<Sent> base(ns); for (auto& b : base) { int n = r.range(1, 8); for (int i = 0; i < n; ++i) b.push_back(pool[r.below(10)]); }
  for (int f = 0; f < nf; ++f) { ofstream o(vh::S().dir + vh::Fmt("/k%d", f)); int last = f && r.chance(0.25) ? r.range(1, ns) : ns; if (nf > 1 && !f && r.chance(0.15)) last = r.range(1, ns); for (int s = 0; s < ns; ++s) { if (s >= last && !(all[s].empty() && f + 1 == nf)) continue; int n = r.range(1, r.chance(0.9) ? 6 : 15); for (int i = 0; i < n; ++i) { Sent h = base[s]; int p = r.range(0, 3); for (int k = 0; k < p; ++k) { int c = r.below(3); if (c == 0 && h.size() > 1) h.erase(h.begin() + r.below(h.size())); else if (c == 1) h.insert(h.begin() + r.below(h.size() + 1), pool[r.below(10)]); else h[r.below(h.size())] = pool[r.below(10)]; } if (empties && r.chance(0.25)) h.clear(); double v = round((r.chance(0.9) ? r.real(-4, 0) : r.real(-900, 100)) * 1000) / 1000; if (r.chance(0.15) && !all[s].empty()) v = all[s].back().score; if (v == 0) v = -1; double raw = v; v = strtod(vh::Fmt("%.6g", raw).c_str(), 0) * sc[f] + of[f]; all[s].push_back({J(h), v}); o << ids[s] << " ||| " << J(h) << (r.chance(0.7) ? " ||| PhraseModel_0=1.5 Glue=2 ||| " : " ||| ") << vh::Fmt("%.6g", raw) << "\n"; sig += J(h); } } }
  string out = vh::S().dir + "/out"; int rc = system((cmd + " >" + out + " 2>" + vh::S().dir + "/err").c_str()); if (!(WIFEXITED(rc) && WEXITSTATUS(rc) == 0)) { ifstream e(vh::S().dir + "/err"); stringstream ss; ss << e.rdbuf(); string t = ss.str(); VCHECK(false, "mbr:exit", "%s ends with %d: %s", cmd.c_str(), rc, t.substr(t.size() > 600 ? t.size() - 600 : 0).c_str()); return; }
  vector<string> lines; { ifstream f(out); string l; while (getline(f, l)) lines.push_back(l); } size_t at = 0; vh::Distinct("nontrivial", vh::HashStr(sig)); vh::Count(list ? "runs with list output" : "runs with one translation a sentence"); if (vh::S().samples.size() < 3) vh::Sample(sig.substr(0, 120));
  for (int s = 0; s < ns; ++s) {
    auto& L = all[s]; int n = L.size(); double mx = -1e300; for (auto& e : L) mx = max(mx, e.score); double Z = 0; for (auto& e : L) Z += exp(e.score - mx); vector<double> ex(n); vector<vector<WordID>> w(n); for (int i = 0; i < n; ++i) TD::ConvertSentence(L[i].text, &w[i]);
    for (int i = 0; i < n; ++i) { auto ev = m->CreateSegmentEvaluator(vector<vector<WordID>>(1, w[i])); for (int j = 0; j < n; ++j) if (i != j) { SufficientStats t; ev->Evaluate(w[j], &t); double x = m->ComputeScore(t); ex[i] += (loss ? x : 1 - x) * exp(L[j].score - mx) / Z; } } double best = *min_element(ex.begin(), ex.end()); vh::Count("sentences"); vh::Max("longest list", n);
    if (!list) { VCHECK(at < lines.size(), "mbr:missing", "%s: no line for sentence %d", cmd.c_str(), s); if (at >= lines.size()) return; double g = 1e300; for (int i = 0; i < n; ++i) if (L[i].text == lines[at]) g = min(g, ex[i]); VCHECK(g < 1e299, "mbr:foreign", "%s: '%s' is not a translation of sentence %d", cmd.c_str(), lines[at].c_str(), s); VCHECK(g == 1e300 || g <= best + 1e-5 * (1 + fabs(best)), "mbr:choice", "%s: sentence %d: '%s' with expected loss %g, best %g", cmd.c_str(), s, lines[at].c_str(), g, best); ++at; }
    else { double prev = -1; vector<bool> used(n); for (int k = 0; k < n; ++k, ++at) { VCHECK(at < lines.size(), "mbr:missing", "%s: sentence %d: %d lines of %d", cmd.c_str(), s, k, n); if (at >= lines.size()) return; const string& l = lines[at]; size_t p = l.find(" ||| "), q = l.rfind(" ||| "); string id = l.substr(0, p), t = q > p + 4 ? l.substr(p + 5, q - p - 5) : ""; double v = strtod(l.c_str() + q + 5, 0); VCHECK(id == ids[s], "mbr:id", "%s: line '%s' where sentence %s is due", cmd.c_str(), l.c_str(), ids[s].c_str()); int hit = -1; for (int i = 0; i < n; ++i) if (!used[i] && L[i].text == t && (hit < 0 || ex[i] < ex[hit])) hit = i; VCHECK(hit >= 0 && vh::Near(ex[hit], v, 1e-4, 1e-5), "mbr:entry", "%s: '%s' is no entry of sentence %d, or its loss is another", cmd.c_str(), l.c_str(), s); if (hit >= 0) used[hit] = true; VCHECK(v >= prev - 1e-6 * (1 + fabs(v)), "mbr:order", "%s: '%s' after loss %g", cmd.c_str(), l.c_str(), prev); prev = v; vh::Count("list entries"); } }
  }
  VCHECK(at == lines.size(), "mbr:extra", "%s: %d lines too many, first '%s'", cmd.c_str(), (int)(lines.size() - at), at < lines.size() ? lines[at].c_str() : "");
}
int main(int argc, char** argv) { return vh::Main(argc, argv, [](vh::Rng& r, long c) { Case(r, c); }); }
