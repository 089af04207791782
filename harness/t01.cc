// T01: envelopes, error surfaces and line search against all derivations.
#include "forest.h"
#include "mert_geometry.h"
#include "inside_outside.h"
#include "ces.h"
#include "line_optimizer.h"
#include "error_surface.h"
#include "hg_io.h"
#include "filelib.h"
#include "ns.h"
#include "verbose.h"
#include <fstream>
#include <sys/wait.h>
using namespace fo;
using namespace std;
struct Line { double m, b; const Deriv* d; };
struct Sentence { Hypergraph hg; vector<Deriv> ds; vector<Line> lines; vector<double> x; vector<vector<WordID>> yield; vector<vector<WordID>> refs; vector<SufficientStats> st; };
static double At(const Line& l, double x) { return l.b + l.m * x; }
static void Case(vh::Rng& r, long) {
  SparseVector<double> origin, dir; vector<double> wo(FD::NumFeats() + 20), wd(FD::NumFeats() + 20); bool coarse = r.chance(0.35); int nz = 0;
  for (int f : Feats()) { double a = r.chance(0.2) ? 0 : coarse ? r.range(-2, 2) : r.real(-1.5, 1.5), b = r.chance(0.4) ? 0 : coarse ? r.range(-2, 2) : r.real(-1, 1); if (a) origin.set_value(f, a); if (b) { dir.set_value(f, b); ++nz; } wo[f] = a; wd[f] = b; } if (r.chance(0.2)) { dir.clear(); int f = r.pick(Feats()); for (auto& z : wd) z = 0; double b = r.chance(0.5) ? 1 : r.real(-2, 2); dir.set_value(f, b); wd[f] = b; }
  if (r.chance(0.2)) { double k = exp(-r.real(4, 16)); for (int f : Feats()) if (wd[f] && r.chance(0.7)) { wd[f] *= k; dir.set_value(f, wd[f]); } vh::Count("searches with nearly parallel lines"); }
  const ConvexHullWeightFunction wf(origin, dir); int ns = r.range(1, 4); vector<Sentence> S(ns); string dump;
  for (auto& s : S) {
    GenOpt o; o.max_nodes = r.range(2, 10); o.vocab = r.range(1, 6); o.max_derivs = r.chance(0.9) ? 400 : 3000; if (r.chance(0.2)) o.max_nodes = 16; if (r.chance(0.25)) o.p_repeat_tail = 0.6; if (r.chance(0.3)) o.max_in = 7; o.eps = r.chance(0.7); o.big_weights = 0.03; Shape sh = RandomShape(r, o); int goal = BuildForest(r, sh, o, &s.hg); s.ds = Enumerate(s.hg, goal); dump = Dump(s.hg); vh::Count("derivations", s.ds.size()); vh::Distinct("nontrivial", ShapeHash(s.hg)); double scale = 1;
    for (auto& d : s.ds) { Line l{0, 0, &d}; for (auto& p : d.feats) { l.m += (double)p.second * wd[p.first]; l.b += (double)p.second * wo[p.first]; scale = max(scale, (double)fabsl(p.second)); } s.lines.push_back(l); }
    const ConvexHull hull = Inside<ConvexHull, ConvexHullWeightFunction>(s.hg, NULL, wf); const auto& seg = hull.GetSortedSegs(); VCHECK(!seg.empty(), "hull:empty", "no segment for %d derivations: %s", (int)s.ds.size(), dump.c_str()); if (seg.empty()) return; int n = seg.size(); vh::Max("segments", n); vh::Count("segments", n);
    double eps = 1e-9 * scale; VCHECK(std::isinf(seg[0]->x) && seg[0]->x < 0, "hull:start", "the first segment begins at %g", seg[0]->x);
    for (int i = 0; i < n; ++i) {
      vector<WordID> t; seg[i]->ConstructTranslation(&t); s.x.push_back(seg[i]->x); s.yield.push_back(t); vector<bool> used(s.hg.edges_.size()); seg[i]->CollectEdgesUsed(&used); bool found = false, y = false; for (auto& l : s.lines) if (vh::Near(l.m, seg[i]->m, 1e-9, eps) && vh::Near(l.b, seg[i]->b, 1e-9, eps)) { found = true; if (l.d->e != t) continue; vector<bool> u(used.size()); for (int e : l.d->edges) u[e] = true; if (u == used) { y = true; break; } }
      VCHECK(found, "hull:line", "segment %d (m=%g, b=%g) is the line of no derivation: %s", i, seg[i]->m, seg[i]->b, dump.c_str()); VCHECK(!found || y, "hull:derivation", "segment %d: '%s' and its edges belong to no derivation with m=%g b=%g: %s", i, Words(t).c_str(), seg[i]->m, seg[i]->b, dump.c_str());
      if (i) { VCHECK(seg[i]->x > seg[i-1]->x && (seg[i]->m > seg[i-1]->m || (seg[i]->m == seg[i-1]->m && fabs(seg[i]->x) > 1e8)), "hull:order", "segments %d and %d begin at %.17g and %.17g with slopes %g and %g", i - 1, i, seg[i-1]->x, seg[i]->x, seg[i-1]->m, seg[i]->m); double x = seg[i]->x, a = seg[i]->m * x + seg[i]->b, b = seg[i-1]->m * x + seg[i-1]->b; VCHECK(vh::Near(a, b, 1e-6, eps * 10 * (1 + fabs(x) * (fabs(seg[i]->m) + 1))), "hull:switch", "at the switch %g the lines are at %g and %g", x, b, a); }
    }
    vector<double> probe; for (int i = 0; i + 1 <= n; ++i) { double lo = seg[i]->x, hi = i + 1 < n ? seg[i+1]->x : INFINITY; double mid = std::isinf(lo) ? (std::isinf(hi) ? 0 : hi - 1) : std::isinf(hi) ? lo + 1 : lo + (hi - lo) * r.real(0.05, 0.95); probe.push_back(mid); } for (int i = 0; i < 4; ++i) probe.push_back(r.real(-5, 5)); probe.push_back(1e3); probe.push_back(-1e3);
    for (int i = 0; i < 8; ++i) { const Line &p = r.pick(s.lines), &q = r.pick(s.lines); if (fabs(p.m - q.m) < 1e-12) continue; double x = (q.b - p.b) / (p.m - q.m); if (fabs(x) < 1e8) { probe.push_back(x + 1e-3 + fabs(x) * 0.5); probe.push_back(x - 1e-3 - fabs(x) * 0.5); } }
    for (double x : probe) { int i = 0; while (i + 1 < n && seg[i+1]->x <= x) ++i; double best = -INFINITY; for (auto& l : s.lines) best = max(best, At(l, x)); double got = seg[i]->m * x + seg[i]->b; VCHECK(vh::Near(got, best, 1e-9, (fabs(x) < 1e3 ? eps * 10 : 1e-12 * scale * 10) * (1 + fabs(x))), "hull:best", "at step %.17g segment %d scores %.12g, the best derivation %.12g: %s", x, i, got, best, dump.c_str()); vh::Count("steps probed"); }
  }
  vh::Sample(vh::Fmt("%d sentences, last: ", ns) + dump);
  static const char* mets[] = {"IBM_BLEU", "TER", "WER", "KOEHN_BLEU", "CER", "NIST_BLEU", "QCRI_BLEU", "COMB:IBM_BLEU=0.5;TER=-0.5"}; string name = mets[r.below(8)]; EvaluationMetric* m = EvaluationMetric::Instance(name); vector<ErrorSurface> es(ns); vector<double> xs; 
  for (int q = 0; q < ns; ++q) { Sentence& s = S[q]; int k = r.chance(0.7) ? 1 : 2; for (int i = 0; i < k; ++i) { vector<WordID> ref; if (r.chance(0.6)) ref = r.pick(s.ds).e; for (int j = r.range(0, 3); j > 0; --j) ref.insert(ref.begin() + r.below(ref.size() + 1), EWord(r.below(6))); if (ref.empty()) ref.push_back(EWord(0)); s.refs.push_back(ref); } auto ev = m->CreateSegmentEvaluator(s.refs); for (auto& y : s.yield) { SufficientStats t; ev->Evaluate(y, &t); s.st.push_back(t); }
    const ConvexHull hull = Inside<ConvexHull, ConvexHullWeightFunction>(s.hg, NULL, wf); ComputeErrorSurface(*ev, hull, &es[q], m, s.hg); SufficientStats acc; size_t j = 0; for (size_t i = 0; i < s.x.size(); ++i) { while (j < es[q].size() && es[q][j].x <= s.x[i]) acc += es[q][j++].delta; bool same = true; for (size_t f = 0; f < max(acc.size(), s.st[i].size()); ++f) same &= vh::Near(acc[f], s.st[i][f], 1e-5, 1e-4); VCHECK(same && acc.id_ == m->MetricId(), "surface", "%s: after step %g the surface sums to statistics of another translation than '%s': %s", name.c_str(), s.x[i], Words(s.yield[i]).c_str(), dump.c_str()); if (i) xs.push_back(s.x[i]); } VCHECK(j == es[q].size(), "surface:extra", "%d changes of %d lie past the last segment", (int)(es[q].size() - j), (int)es[q].size()); vh::Count("error segments", es[q].size()); }
  sort(xs.begin(), xs.end()); const double tol = 1.0 / 65536; for (size_t i = 1; i < xs.size(); ++i) { double g = xs[i] - xs[i-1]; if (g > 1e-11 * (1 + fabs(xs[i])) && g < 4 * tol) { vh::Count("line searches left out for close switches"); return; } }
  vector<double> cut; for (double x : xs) if (cut.empty() || x - cut.back() > tol) cut.push_back(x); if (!cut.empty() && (fabs(cut[0]) > 1e8 || fabs(cut.back()) > 1e8)) return; bool min = m->IsErrorMetric(); double best = min ? INFINITY : -INFINITY; vector<double> val; bool bad = false;
  auto score = [&](double x) { SufficientStats a; for (auto& s : S) { int i = 0; while (i + 1 < (int)s.x.size() && s.x[i+1] <= x) ++i; a += s.st[i]; } return (double)m->ComputeScore(a); };
  for (size_t i = 0; i <= cut.size(); ++i) { double x = cut.empty() ? 0 : i == 0 ? cut[0] - 0.5 : i == cut.size() ? cut.back() + 0.5 : (cut[i-1] + cut[i]) / 2; double v = score(x); if (!std::isfinite(v)) bad = true; best = min ? std::min(best, v) : max(best, v); } if (bad) return;
  float got = 0; double pos = LineOptimizer::LineOptimize(m, es, min ? LineOptimizer::MINIMIZE_SCORE : LineOptimizer::MAXIMIZE_SCORE, &got); double there = score(pos); vh::Count("line searches");
  VCHECK(vh::Near(got, best, 1e-5, 1e-6), "search:score", "%s: reports %g, the best of %d intervals is %g", name.c_str(), got, (int)cut.size() + 1, best); VCHECK(vh::Near(there, got, 1e-5, 1e-6), "search:step", "%s: reports score %g for step %.17g, where it is %g", name.c_str(), got, pos, there);
  static long nth = 0; if (getenv("MAP") && nth++ % 12 == 0) {
    bool tied = false; for (auto& s : S) for (size_t i = 0; i < s.lines.size() && !tied; ++i) for (size_t j = 0; j < i && !tied; ++j) tied = vh::Near(s.lines[i].m, s.lines[j].m, 1e-9, 1e-9) && vh::Near(s.lines[i].b, s.lines[j].b, 1e-9, 1e-9) && s.lines[i].d->e != s.lines[j].d->e; if (!tied) vh::Count("searches with the tools, both directions judged");
    string D = vh::S().dir; auto vec = [](const SparseVector<double>& v) { string o; for (auto& p : v) o += (o.empty() ? "" : ";") + FD::Convert(p.first) + vh::Fmt("=%.17g", p.second); return o.empty() ? string("Other=0") : o; }; int nr = 0; for (auto& s : S) nr = max(nr, (int)s.refs.size()); ofstream rf(D + "/ref"), in(D + "/in"); for (int q = 0; q < ns; ++q) { string line; for (auto& x : S[q].refs) line += (line.empty() ? "" : " ||| ") + Words(x); rf << line << "\n"; WriteFile wf2(D + vh::Fmt("/%d.bin.gz", q)); HypergraphIO::WriteToBinary(S[q].hg, wf2.stream()); } rf.close(); SparseVector<double> d2 = dir; d2 *= -1.0;
    for (int q = 0; q < ns; ++q) in << D << "/" << q << ".bin.gz " << q << " " << vec(origin) << " " << vec(dir) << "\n"; for (int q = 0; q < ns; ++q) in << D << "/" << q << ".bin.gz " << q << " " << vec(origin) << " " << vec(d2) << "\n"; in.close(); string cmd = string("ASAN_OPTIONS=detect_leaks=0 ") + getenv("MAP") + " -m '" + name + "' -r " + D + "/ref -i " + D + "/in 2>" + D + "/e1 > " + D + "/map && sort " + D + "/map | " + getenv("REDUCE") + " -m '" + name + "' 2>" + D + "/e2 >" + D + "/red"; int rc = system(cmd.c_str()); VCHECK(rc == 0, "tools:exit", "%s ends with %d", cmd.c_str(), rc); ifstream red(D + "/red"); string l; int seen = 0;
    while (getline(red, l)) { size_t p = l.find('|'), z = l.rfind('|'); if (p == string::npos || p == z) { VCHECK(false, "tools:line", "'%s'", l.c_str()); continue; } string key = l.substr(0, p); double x = atof(l.c_str() + p + 1), sc = atof(l.c_str() + z + 1); bool fwd = key == vec(origin) + " " + vec(dir); if (fwd || !tied) VCHECK(vh::Near(sc, best, 1e-4, 1e-5), "tools:score", "mr_dpmert: best %g, by definition %g (%s)", sc, best, l.c_str()); if (key == vec(origin) + " " + vec(dir)) { ++seen; VCHECK(vh::Near(x, pos, 1e-4, 1e-5), "tools:step", "mr_dpmert steps to %g, LineOptimize to %g", x, pos); } else if (key == vec(origin) + " " + vec(d2)) { seen += 2; double gap = INFINITY; for (double c : cut) gap = std::min(gap, fabs(c + x)); if (!tied && gap > 1e-4 * (1 + fabs(x))) VCHECK(vh::Near(score(-x), best, 1e-4, 1e-5), "tools:step", "mr_dpmert steps to %g backwards, where the score is %g, best %g", x, score(-x), best); } else VCHECK(false, "tools:key", "'%s'", l.c_str()); } VCHECK(seen == 3, "tools:keys", "%d", seen); vh::Count("searches with the tools", 2); }
}
int main(int argc, char** argv) { SetSilent(true); return vh::Main(argc, argv, [](vh::Rng& r, long c) { Case(r, c); }); }
