// T02: objectives and gradients of training against their definitions.
#include "forest.h"
#include "candidate_set.h"
#include "risk.h"
#include "entropy.h"
#include "hg_io.h"
#include "filelib.h"
#include "ns.h"
#include "verbose.h"
#include "sparse_vector.h"
#include <fstream>
#include <iomanip>
#include <unistd.h>
using namespace fo;
using namespace std;
static string Slurp(const string& f) { ifstream i(f); stringstream s; s << i.rdbuf(); return s.str(); }
static int Sys(const string& cmd) { return system(("ASAN_OPTIONS=detect_leaks=0:malloc_context_size=2 timeout 100 " + cmd).c_str()); }
struct C { vector<WordID> e; map<int, double> f; SufficientStats st; };
struct Val { ld risk = 0, ent = 0; map<int, ld> gr, gh; };
static ld Dot(const map<int, double>& f, const vector<double>& w) { ld s = 0; for (auto& p : f) if (p.first < (int)w.size()) s += (ld)p.second * w[p.first]; return s; }
static Val Define(const vector<C>& cs, const vector<double>& w, EvaluationMetric* m) {
  Val v; ld z = NEG_INF; vector<ld> s; for (auto& c : cs) { s.push_back(Dot(c.f, w)); z = LogAdd(z, s.back()); } map<int, ld> ef; for (size_t i = 0; i < cs.size(); ++i) for (auto& p : cs[i].f) ef[p.first] += expl(s[i] - z) * p.second;
  for (size_t i = 0; i < cs.size(); ++i) { ld lp = s[i] - z, p = expl(lp), loss = m->ComputeScore(cs[i].st); if (!m->IsErrorMetric()) loss = 1 - loss; v.risk += p * loss; if (p > 0) v.ent -= p * lp; }
  for (size_t i = 0; i < cs.size(); ++i) { ld lp = s[i] - z, p = expl(lp), loss = m->ComputeScore(cs[i].st); if (!m->IsErrorMetric()) loss = 1 - loss; for (auto& q : ef) { auto it = cs[i].f.find(q.first); ld d = (it == cs[i].f.end() ? 0 : it->second) - q.second; v.gr[q.first] += p * loss * d; if (p > 0) v.gh[q.first] -= p * (lp + 1) * d; } }
  return v;
}
static void Grad(const char* what, const map<int, ld>& want, const SparseVector<double>& got, double abs, const string& ctx) { set<int> k; for (auto& p : want) k.insert(p.first); for (auto& p : got) k.insert(p.first); for (int f : k) { auto it = want.find(f); double w = it == want.end() ? 0 : it->second; VCHECK(vh::Near(got.value(f), w, 1e-7, abs), what, "d/d%s is %.12g, by definition %.12g: %s", FD::Convert(f).c_str(), got.value(f), w, ctx.c_str()); vh::Count("partial derivatives"); } }
static const char* kMet[] = {"IBM_BLEU", "TER", "WER", "KOEHN_BLEU", "CER"};
static vector<C> Cands(vh::Rng& r, int n, int nf, EvaluationMetric* m, SegmentEvaluator* ev, double mag) {
  vector<C> cs; bool sparse = r.chance(0.4); for (int i = 0; i < n; ++i) { C c; for (int j = r.range(0, 6); j > 0; --j) c.e.push_back(EWord(r.below(4))); for (int f = 0; f < nf; ++f) if (!sparse || r.chance(0.4)) c.f[Feats()[f]] = r.chance(0.3) ? r.range(-3, 3) : r.real(-mag, mag); for (auto it = c.f.begin(); it != c.f.end();) if (!it->second) it = c.f.erase(it); else ++it; if (i && r.chance(0.15)) c.f = cs.back().f; ev->Evaluate(c.e, &c.st); cs.push_back(c); } return cs;
}
static void WriteCands(const string& f, const vector<C>& cs) { ofstream o(f); for (auto& c : cs) { string s; c.st.Encode(&s); o << Words(c.e) << "\n"; bool first = true; for (auto& p : c.f) { o << (first ? "" : " ") << FD::Convert(p.first) << "=" << setprecision(17) << p.second; first = false; } o << "\n" << s << "\n"; } }
static vector<vector<WordID>> Refs(vh::Rng& r) { vector<vector<WordID>> v; for (int i = r.range(1, 2); i > 0; --i) { vector<WordID> e; for (int j = r.range(1, 6); j > 0; --j) e.push_back(EWord(r.below(4))); v.push_back(e); } return v; }
static void CaseSets(vh::Rng& r) {
  EvaluationMetric* m = EvaluationMetric::Instance(kMet[r.below(5)]); auto refs = Refs(r); auto ev = m->CreateSegmentEvaluator(refs); double mag = r.chance(0.15) ? 300 : r.chance(0.3) ? 0.01 : 3; int nf = r.range(1, 10); vector<C> cs = Cands(r, r.chance(0.1) ? 1 : r.range(2, 12), nf, m, ev.get(), mag); string f = vh::S().dir + "/set"; for (auto& c : cs) if (c.f.empty()) c.f[Feats()[0]] = 1; WriteCands(f, cs);
  training::CandidateSet set; set.ReadFromFile(f); VCHECK(set.size() == cs.size(), "set", "%d of %d read", (int)set.size(), (int)cs.size()); vector<double> w(FD::NumFeats()); for (int i = 0; i < nf; ++i) if (r.chance(0.85)) w[Feats()[i]] = r.real(-2, 2); if (r.chance(0.1)) w.resize(Feats()[0] + r.below(nf) + 1); Val v = Define(cs, w, m);
  uint64_t h = 1; for (auto& c : cs) for (auto& p : c.f) h = (h ^ (uint64_t)(p.second * 1e6) ^ p.first) * 1099511628211ull; vh::Distinct("nontrivial", h); string ctx = vh::Fmt("%s, %d candidates, %d features up to %g", m->MetricId().c_str(), (int)cs.size(), nf, mag); vh::Sample(ctx + vh::Fmt(" risk %.6g entropy %.6g", (double)v.risk, (double)v.ent));
  training::CandidateSetRisk risk(set, *m); training::CandidateSetEntropy ent(set); SparseVector<double> gr, gh; double tol = 1e-9 * max(1.0, mag); double R = risk(w, &gr), H = ent(w, &gh); VCHECK(vh::Near(R, (double)v.risk, 1e-6, 1e-7), "risk", "expected loss %.12g, by definition %.12g: %s", R, (double)v.risk, ctx.c_str()); VCHECK(vh::Near(H, (double)v.ent, 1e-8, tol), "entropy", "entropy %.12g, by definition %.12g: %s", H, (double)v.ent, ctx.c_str()); Grad("risk:gradient", v.gr, gr, 1e-7 * max(1.0, mag), ctx); Grad("entropy:gradient", v.gh, gh, tol * max(1.0, mag) * 10, ctx); VCHECK(risk(w) == R && ent(w) == H, "objective:alone", "asked without gradient: %.17g and %.17g, with it %.17g and %.17g", risk(w), ent(w), R, H);
  SparseVector<double> twice = gr; risk(w, &twice); (void)twice;
  if (mag <= 3) { int k = Feats()[r.below(nf)]; if (k < (int)w.size()) { double e = 1e-5; vector<double> a = w, b = w; a[k] += e; b[k] -= e; double nr = (risk(a) - risk(b)) / (2 * e), nh = (ent(a) - ent(b)) / (2 * e); VCHECK(vh::Near(nr, gr.value(k), 1e-4, 1e-5), "risk:numeric", "d/d%s: %.9g numerically, %.9g reported: %s", FD::Convert(k).c_str(), nr, gr.value(k), ctx.c_str()); VCHECK(vh::Near(nh, gh.value(k), 1e-4, 1e-5), "entropy:numeric", "d/d%s: %.9g numerically, %.9g reported: %s", FD::Convert(k).c_str(), nh, gh.value(k), ctx.c_str()); vh::Count("numerical derivatives", 2); } }
}
static map<string, double> ReadWeights(const string& text) { map<string, double> w; istringstream is(text); string l; while (getline(is, l)) { if (l.empty() || l[0] == '#') continue; size_t p = l.rfind(' '); if (p == string::npos) p = l.rfind('\t'); w[l.substr(0, p)] = strtod(l.c_str() + p + 1, NULL); } return w; }
// the weights found by minrisk_optimize are stationary for expected loss minus temperature times entropy
static void CaseMinrisk(vh::Rng& r) {
  string D = vh::S().dir, name = kMet[r.below(4)]; EvaluationMetric* m = EvaluationMetric::Instance(name); int ns = r.range(1, 3); ofstream rf(D + "/ref"), in(D + "/in"), wf(D + "/w"); vector<vector<C>> all; vector<double> w(FD::NumFeats()); for (int i = 0; i < 4; ++i) { w[Feats()[i]] = r.real(-1, 1); wf << FD::Convert(Feats()[i]) << setprecision(17) << " " << w[Feats()[i]] << "\n"; } wf.close();
  for (int q = 0; q < ns; ++q) { auto refs = Refs(r); string l; for (auto& x : refs) l += (l.empty() ? "" : " ||| ") + Words(x); rf << l << "\n"; auto ev = m->CreateSegmentEvaluator(refs); GenOpt o; o.max_nodes = r.range(2, 6); o.vocab = r.range(2, 4); o.max_derivs = 40; Hypergraph hg; int goal = BuildForest(r, RandomShape(r, o), o, &hg); for (auto& e : hg.edges_) { e.feature_values_.clear(); for (int i = 0; i < 4; ++i) if (r.chance(0.6)) e.feature_values_.set_value(Feats()[i], r.real(-1, 1)); e.feature_values_.add_value(Feats()[0], 0.125); } hg.Reweight(w); string f = D + vh::Fmt("/%d.bin.gz", q); { WriteFile wo(f); HypergraphIO::WriteToBinary(hg, wo.stream()); } in << f << " " << q << "\n"; vector<C> cs; for (auto& d : Enumerate(hg, goal)) { C c; c.e = d.e; for (auto& p : d.feats) if (p.second) c.f[p.first] = (double)p.second; bool dup = false; for (auto& x : cs) { bool s = x.e == c.e && x.f.size() == c.f.size(); if (s) for (auto& p : c.f) s &= x.f.count(p.first) && fabs(x.f[p.first] - p.second) < 1e-9; dup |= s; } if (dup) continue; ev->Evaluate(c.e, &c.st); cs.push_back(c); } all.push_back(cs); }
  rf.close(); in.close(); double T = r.chance(0.3) ? 0 : r.real(0.05, 2); string cmd = string(getenv("MINRISK")) + vh::Fmt(" -m %s -r %s/ref -i %s/in -w %s/w -k 1000 -T %.17g -M %d", name.c_str(), D.c_str(), D.c_str(), D.c_str(), T, (int)r.range(3, 20)); int rc = Sys(cmd + " >" + D + "/out 2>" + D + "/err"); VCHECK(rc == 0, "minrisk:exit", "%s ends with %d", cmd.c_str(), rc); if (rc) return; string err = Slurp(D + "/err"); auto got = ReadWeights(Slurp(D + "/out")); vector<double> x(FD::NumFeats()); double n2 = 0; for (auto& p : got) { int f = FD::Convert(p.first); if (f < (int)x.size()) x[f] = p.second; n2 += p.second * p.second; }
  size_t at = err.find("status code = "); int status = at == string::npos ? -9999 : atoi(err.c_str() + at + 14); map<int, ld> g; ld obj = 0, obj0 = 0; double nw = 0; for (double z : w) nw += z * z; nw = sqrt(nw); vector<double> w0 = w; for (auto& z : w0) z /= nw; for (auto& cs : all) { Val v = Define(cs, x, m), v0 = Define(cs, w0, m); obj += v.risk - T * v.ent; obj0 += v0.risk - T * v0.ent; for (auto& p : v.gr) g[p.first] += p.second; for (auto& p : v.gh) g[p.first] -= T * p.second; } double gn = 0; for (auto& p : g) gn += p.second * p.second; gn = sqrt(gn);
  string ctx = vh::Fmt("%s T=%g, %d sentences, status %d, |x|=%g", name.c_str(), T, ns, status, sqrt(n2)); VCHECK(status > -9999, "minrisk:status", "no status"); VCHECK(obj <= obj0 + 1e-5, "minrisk:worse", "objective %.9g at the weights written, %.9g at those given: %s", (double)obj, (double)obj0, ctx.c_str()); VCHECK(gn <= (status == 0 || status == 2 ? 2e-5 : 2e-3) * max(1.0, sqrt(n2)), "minrisk:stationary", "gradient norm %.3g at the weights written: %s", gn, ctx.c_str()); vh::Count(status >= 0 ? "minrisk runs" : "minrisk runs ended by the line search"); vh::Distinct("nontrivial", r.next());
}
static ld LogP(double s, bool y) { ld t = y ? -s : s; return t > 0 ? -(t + log1pl(expl(-t))) : -log1pl(expl(t)); }
// the weights found by mr_pro_reduce minimise the regularised logistic loss of the training examples alone
static void CasePro(vh::Rng& r) {
  string D = vh::S().dir; int nf = r.range(1, 5), n = r.range(1, 15); struct Ex { bool y; map<int, double> x; }; auto gen = [&](int n, const string& f) { vector<Ex> v; ofstream o(f); for (int i = 0; i < n; ++i) { Ex e; e.y = r.chance(0.5); o << (int)e.y << "\t"; bool first = true; for (int k = 0; k < nf; ++k) if (r.chance(0.7) || (k == nf - 1 && first)) { double z = r.chance(0.3) ? r.range(1, 3) : r.real(-2, 2); e.x[Feats()[k]] = z; o << (first ? "" : " ") << FD::Convert(Feats()[k]) << setprecision(17) << "=" << z; first = false; } o << "\n"; v.push_back(e); } return v; };
  auto tr = gen(n, D + "/tr"); vector<Ex> te; bool test = r.chance(0.5); if (test) te = gen(r.range(1, 8), D + "/te"); double Cc = r.chance(0.5) ? 1 : exp(r.real(-4, 4)), T = r.chance(0.4) ? exp(r.real(-3, 3)) : 0, C1 = r.chance(0.25) ? r.real(0.05, 2) : 0; bool old = r.chance(0.6) || T; vector<double> prev(FD::NumFeats()); if (old) { ofstream o(D + "/w"); for (int k = 0; k < nf; ++k) { double z = r.real(-2, 2); prev[Feats()[k]] = z; o << FD::Convert(Feats()[k]) << setprecision(17) << " " << z << "\n"; } } double psi = old && r.chance(0.4) ? r.unit() : 1;
  string cmd = string(getenv("REDUCE")) + vh::Fmt(" -C %.17g -y %.17g -m 20 --l1 %.17g -p %.17g", Cc, T, C1, psi) + (old ? " -w " + D + "/w" : "") + (test ? " -t " + D + "/te" : ""); int rc = Sys(cmd + " <" + D + "/tr >" + D + "/out 2>" + D + "/err"); VCHECK(rc == 0, "pro:exit", "%s ends with %d: %s", cmd.c_str(), rc, Slurp(D + "/err").c_str()); if (rc) return; string out = Slurp(D + "/out"), err = Slurp(D + "/err"); auto got = ReadWeights(out); size_t at = err.find("status code = "); int status = atoi(err.c_str() + at + 14);
  vector<double> x(FD::NumFeats()); bool bias = false; for (auto& p : got) { int f = FD::Convert(p.first); if (f < (int)x.size()) x[f] = p.second; if (f == 0) bias = true; } if (psi > 0.02) for (int k = 0; k < nf; ++k) { int f = Feats()[k]; x[f] = (x[f] - prev[f] * (1 - psi)) / psi; } else return;
  // the bias is not written: minimise over it
  auto margin = [&](const Ex& e) { ld s = 0; for (auto& p : e.x) s += p.second * x[p.first]; return s; }; ld lo = -50, hi = 50; auto gb = [&](ld b) { ld g = 2 * Cc * b + 2 * T * b; for (auto& e : tr) { ld p = expl(LogP(margin(e) + b, true)); g += p - (e.y ? 1 : 0); } return g; }; auto bsub = [&](ld b, double sgn) { return gb(b) + sgn * C1; }; ld b = 0; if (bias) return; if (C1 && fabsl(gb(0)) <= C1) b = 0; else { double sgn = C1 ? (gb(0) > 0 ? -1 : 1) : 0; for (int i = 0; i < 200; ++i) { ld m = (lo + hi) / 2; if (bsub(m, sgn) > 0) hi = m; else lo = m; } b = lo; }
  double worst = 0; int wf = 0; for (int k = 0; k < nf; ++k) { int f = Feats()[k]; ld g = 2 * Cc * x[f] + 2 * T * (x[f] - prev[f]); for (auto& e : tr) { auto it = e.x.find(f); if (it == e.x.end()) continue; ld p = expl(LogP(margin(e) + b, true)); g += (p - (e.y ? 1 : 0)) * it->second; } if (C1) { if (fabs(x[f]) > 1e-9) g += x[f] > 0 ? C1 : -C1; else g = max((ld)0, fabsl(g) - C1); } if (fabsl(g) > worst) { worst = fabsl(g); wf = f; } }
  double xn = 0; for (double z : x) xn += z * z; double scale = max(1.0, sqrt(xn)) * (1 + Cc + T) * 10 / max(psi, 0.02); VCHECK(worst <= (status == 0 || status == 2 ? 5e-5 : 5e-3) * scale, "pro:optimum", "d/d%s of the objective is %.3g at the weights written (C=%g T=%g l1=%g%s, status %d)", FD::Convert(wf).c_str(), worst, Cc, T, C1, test ? ", with a test set" : "", status);
  if (test) { size_t p = out.find("perplexity="); double pp = atof(out.c_str() + p + 11); ld ll = 0; for (auto& e : te) ll += LogP(margin(e) + b, e.y); double want = pow(2, -(double)ll / (log(2) * te.size())); VCHECK(vh::Near(pp, want, 1e-2, 1e-6), "pro:perplexity", "held-out perplexity %g, by definition %g (status %d)", pp, want, status); } vh::Count(status >= 0 ? "pro runs" : "pro runs ended by the line search"); vh::Distinct("nontrivial", r.next());
}
static string Pair(const string& s, const string& t) { return s + " ||| " + t; }
// conditional likelihood: cdec -G, mpi_compute_cllh and mpi_batch_optimize against all derivations of the forests cdec writes
static void CaseCll(vh::Rng& r) {
  string D = vh::S().dir; if (system(("rm -rf " + D + "/f; mkdir -p " + D + "/f").c_str())) return; const int nf = r.range(1, 5); ofstream g(D + "/g"), ini(D + "/ini"), wf(D + "/w"); auto feats = [&]() { string s; for (int i = 0; i < nf; ++i) if (r.chance(0.6)) s += vh::Fmt(" Feat_%d=%.3g", i, r.chance(0.3) ? (double)r.range(-2, 2) : r.real(-1.5, 1.5)); return s.empty() ? string(" Feat_0=0.5") : s; }; set<string> seen; int nt = r.range(2, 3), nv = r.range(1, 3);
  for (int a = 0; a < nv; ++a) for (int k = r.range(1, 3); k > 0; --k) { string e; for (int j = r.range(1, 2); j > 0; --j) e += vh::Fmt(" e%d", (int)r.below(nt)); string l = vh::Fmt("[X] ||| f%d |||%s", a, e.c_str()); if (seen.insert(l).second) g << l << " |||" << feats() << "\n"; } for (int k = r.range(0, 2); k > 0; --k) { string l = vh::Fmt("[X] ||| f%d [X] ||| %s", (int)r.below(nv), r.chance(0.5) ? "[1] e0" : "e1 [1]"); if (seen.insert(l).second) g << l << " |||" << feats() << "\n"; } if (r.chance(0.5)) g << "[X] ||| [X] [X] ||| " << (r.chance(0.5) ? "[1] [2]" : "[2] [1]") << " |||" << feats() << "\n"; g.close();
  bool wp = r.chance(0.5); ini << "formalism=scfg\ngrammar=" << D << "/g\n"; if (wp) ini << "feature_function=WordPenalty\n"; ini.close(); vector<double> w(FD::NumFeats() + 10); int WP = FD::Convert("WordPenalty"); w.resize(FD::NumFeats() + 10); bool zeros = r.chance(0.3); for (int i = 0; i < nf; ++i) { double z = zeros && r.chance(0.5) ? 0 : r.real(-1, 1); w[Feats()[i]] = z; wf << "Feat_" << i << setprecision(17) << " " << z << "\n"; } if (wp) { w[WP] = r.real(-0.5, 0.5); wf << "WordPenalty " << setprecision(17) << w[WP] << "\n"; } wf << "Glue 0\nPassThrough 0\nPassThrough_1 0\n"; wf.close();
  int ns = r.range(1, 3); vector<string> src; ofstream in(D + "/src"); for (int q = 0; q < ns; ++q) { string s; for (int j = r.range(1, 4); j > 0; --j) s += (s.empty() ? "" : " ") + vh::Fmt("f%d", (int)r.below(nv)); src.push_back(s); in << s << "\n"; } in.close(); string cdec = getenv("CDEC"); int rc = Sys(cdec + " -c " + D + "/ini -w " + D + "/w -i " + D + "/src -O " + D + "/f --quiet >/dev/null 2>" + D + "/err"); VCHECK(rc == 0, "cdec:exit", "%d: %s", rc, Slurp(D + "/err").c_str()); if (rc) return;
  struct Sent { vector<Deriv> ds; vector<WordID> ref; }; vector<Sent> S; ofstream pr(D + "/pairs"); int words = 0; for (int q = 0; q < ns; ++q) { string f = D + vh::Fmt("/f/%d.bin.gz", q); if (access(f.c_str(), R_OK)) f = D + vh::Fmt("/f/%d.json.gz", q); if (access(f.c_str(), R_OK)) return; Hypergraph hg; { ReadFile rf(f); HypergraphIO::ReadFromBinary(rf.stream(), &hg); } hg.Reweight(w); auto cnt = CountDerivs(hg); if (cnt.back() > 3000) { vh::Count("cases left out for size"); return; } Sent s; s.ds = Enumerate(hg, hg.nodes_.size() - 1); if (s.ds.empty()) return; vh::Distinct("nontrivial", ShapeHash(hg)); if (r.chance(0.85)) s.ref = r.pick(s.ds).e; else { s.ref.clear(); for (int j = r.range(1, 5); j > 0; --j) s.ref.push_back(TD::Convert(vh::Fmt("e%d", (int)r.below(nt)))); } if (s.ref.empty()) return; pr << Pair(src[q], TD::GetString(s.ref)) << "\n"; S.push_back(s); } pr.close();
  auto define = [&](const Sent& s, const vector<double>& w, ld* obj, map<int, ld>* g) { ld z = NEG_INF, zr = NEG_INF; vector<ld> sc; for (auto& d : s.ds) { ld t = 0; for (auto& p : d.feats) if (p.first < (int)w.size()) t += p.second * w[p.first]; sc.push_back(t); z = LogAdd(z, t); if (d.e == s.ref) zr = LogAdd(zr, t); } if (std::isinf(zr)) return false; for (size_t i = 0; i < s.ds.size(); ++i) for (auto& p : s.ds[i].feats) (*g)[p.first] += p.second * ((s.ds[i].e == s.ref ? expl(sc[i] - zr) : 0) - expl(sc[i] - z)); *obj += z - zr; return true; };
  ld total = 0; map<int, ld> tg; int reached = 0; for (auto& s : S) if (define(s, w, &total, &tg)) { ++reached; words += s.ref.size(); } string ctx = vh::Fmt("%d sentences, %d reachable, derivations %d, objective %.6g", ns, reached, (int)S[0].ds.size(), (double)total); vh::Sample(ctx);
  int comb = r.range(1, 3); rc = Sys(cdec + " -c " + D + "/ini -w " + D + "/w -i " + D + "/pairs -G --quiet -C " + to_string(comb) + " >" + D + "/out 2>" + D + "/err"); VCHECK(rc == 0, "gradient:exit", "%d: %s", rc, Slurp(D + "/err").c_str()); if (rc) return; { ifstream o(D + "/out"); string l; size_t q = 0; double sum = 0; int lines = 0; while (getline(o, l)) { if (l.compare(0, 2, "0\t")) { VCHECK(l.empty(), "gradient:line", "'%s'", l.c_str()); continue; } ++lines; double obj; SparseVector<double> got; bool ok = B64::Decode(&obj, &got, l.data() + 2, l.size() - 2); VCHECK(ok, "gradient:decode", "'%s'", l.c_str()); if (!ok) continue; ld want = 0; map<int, ld> wg; int c = 0; while (q < S.size() && c < comb) c += define(S[q++], w, &want, &wg); VCHECK(vh::Near(obj, (double)want, 1e-7, 1e-7), "gradient:objective", "objective %.10g, by definition %.10g: %s", obj, (double)want, ctx.c_str()); Grad("gradient", wg, got, 1e-7, ctx); sum += obj; vh::Count("gradients of the decoder"); } VCHECK(vh::Near(sum, (double)total, 1e-7, 1e-7), "gradient:total", "objectives add up to %.10g, by definition %.10g: %s", sum, (double)total, ctx.c_str()); VCHECK(lines == (reached + comb - 1) / comb, "gradient:lines", "%d lines for %d reachable sentences, %d per line", lines, reached, comb); }
  if (!reached) return; string env = "cd " + D + " && "; auto run = [&](const string& c) { return system((env + "ASAN_OPTIONS=detect_leaks=0 timeout 100 " + c + " >" + D + "/out 2>" + D + "/err").c_str()); };
  rc = run(string(getenv("CLLH")) + " -w w -t pairs -c ini"); VCHECK(rc == 0, "cllh:exit", "%d: %s", rc, Slurp(D + "/err").c_str()); if (rc == 0) { string o = Slurp(D + "/out"); size_t p = o.find("LOG_e LIKELIHOOD: "); double v = atof(o.c_str() + p + 18); VCHECK(vh::Near(v, (double)total, 1e-5, 1e-6), "cllh", "likelihood %.9g, by definition %.9g", v, (double)total); p = o.find("ENTROPY: "); v = atof(o.c_str() + p + 9); VCHECK(vh::Near(v, (double)total / log(2) / words, 1e-4, 1e-6), "cllh:entropy", "conditional entropy %g, by definition %g", v, (double)total / log(2) / words); vh::Count("likelihoods"); }
  if (r.chance(0.6)) { double sig = r.real(0.2, 3); bool means = r.chance(0.5); map<int, double> mu; if (means) { ofstream o(D + "/mu"); for (int i = 0; i < nf; ++i) if (r.chance(0.7)) { mu[Feats()[i]] = r.real(-1, 1); o << "Feat_" << i << setprecision(17) << " " << mu[Feats()[i]] << "\n"; } } bool rprop = r.chance(0.4); if (system(("rm -f " + D + "/weights.*").c_str())) {} rc = run(string(getenv("BATCH")) + " -w w -t pairs -c ini -p --sigma_squared " + vh::Fmt("%.17g", sig) + (means ? " -u mu" : "") + (rprop ? " -m rprop" : "")); string err = Slurp(D + "/err"); VCHECK(rc == 0, "batch:exit", "%d: %s", rc, err.substr(err.size() > 600 ? err.size() - 600 : 0).c_str()); if (rc) return; vector<int> known; for (int i = 0; i < nf; ++i) known.push_back(Feats()[i]); if (wp) known.push_back(WP); for (const char* n : {"Glue", "PassThrough", "PassThrough_1"}) known.push_back(FD::Convert(n));
    auto full = [&](const vector<double>& x, ld* o, map<int, ld>* g) { map<int, ld> a; for (auto& s : S) define(s, x, o, &a); for (int f : known) { double m = mu.count(f) ? mu[f] : 0, xf = f < (int)x.size() ? x[f] : 0; *o += (xf - m) * (xf - m) / (2 * sig); (*g)[f] = -a[f] + (xf - m) / sig; } }; ld o0 = 0; map<int, ld> g0; full(w, &o0, &g0); size_t p = err.find("OBJECTIVE: "); VCHECK(vh::Near(atof(err.c_str() + p + 11), (double)o0, 2e-5, 1e-5), "batch:objective", "first objective %s, by definition %.9g (means %d)", err.substr(p + 11, 12).c_str(), (double)o0, (int)means); string wtext; { ReadFile rf(D + "/weights.final.gz"); stringstream ss; ss << rf.stream()->rdbuf(); wtext = ss.str(); } auto got = ReadWeights(wtext); vector<double> x(FD::NumFeats()); double xn = 0; for (auto& q : got) { int f = FD::Convert(q.first); if (f >= (int)x.size()) x.resize(f + 1); x[f] = q.second; xn += q.second * q.second; } ld o1 = 0; map<int, ld> g1; full(x, &o1, &g1); double gn = 0; for (auto& q : g1) gn += q.second * q.second; gn = sqrt(gn); VCHECK(gn <= 1e-4 * max(1.0, sqrt(xn)), "batch:stationary", "gradient norm %.3g at the weights it converged to (%s, sigma^2 %g, means %d): %s", gn, rprop ? "rprop" : "lbfgs", sig, (int)means, ctx.c_str()); VCHECK(o1 <= o0 + 1e-6, "batch:worse", "objective %.9g at the end, %.9g at the start", (double)o1, (double)o0); vh::Count(rprop ? "batch optimisations with rprop" : "batch optimisations with lbfgs"); }
}
int main(int argc, char** argv) { SetSilent(true); Feats(); return vh::Main(argc, argv, [](vh::Rng& r, long) { double u = r.unit(); if (getenv("CDEC") && u < 0.05) CaseCll(r); else if (getenv("MINRISK") && u < 0.09) CaseMinrisk(r); else if (getenv("REDUCE") && u < 0.13) CasePro(r); else CaseSets(r); }); }
