// T03: optimisers on convex objectives with known minimisers; state saved and restored between any two steps.
#include "vh.h"
#include "optimize.h"
#include "online_optimizer.h"
#include "liblbfgs/lbfgs++.h"
#include "sparse_vector.h"
#include "fdict.h"
#include "verbose.h"
#include <sstream>
#include <memory>
using namespace std;
typedef vector<double> V;
// f(x) = sum_k loss_k(a_k.x - b_k) + l2/2 |x|^2, convex and smooth
struct Obj {
  int n, kind; vector<V> a; V b; double l2; mutable long evals = 0;
  double operator()(const V& x, double* g) const { ++evals; for (int i = 0; i < n; ++i) g[i] = l2 * x[i]; double f = 0; for (int i = 0; i < n; ++i) f += l2 / 2 * x[i] * x[i]; for (size_t k = 0; k < a.size(); ++k) { double t = -b[k]; for (int i = 0; i < n; ++i) t += a[k][i] * x[i]; double d; if (kind == 0) { f += t * t / 2; d = t; } else if (kind == 1) { f += t > 0 ? t + log1p(exp(-t)) : log1p(exp(t)); d = 1 / (1 + exp(-t)); } else { f += sqrt(1 + t * t) - 1; d = t / sqrt(1 + t * t); } for (int i = 0; i < n; ++i) g[i] += d * a[k][i]; } return f; }
};
static double Norm(const V& v) { double s = 0; for (double x : v) s += x * x; return sqrt(s); }
static Obj Make(vh::Rng& r, bool gentle) {
  Obj o; o.n = gentle ? r.range(1, 4) : r.chance(0.1) ? r.range(10, 30) : r.range(1, 8); o.kind = r.below(3); int m = gentle ? r.range(0, 3) : r.range(0, 2 * o.n + 3); double s = gentle ? 0.3 : r.chance(0.2) ? 5 : 1; bool ints = r.chance(0.3); for (int k = 0; k < m; ++k) { V a(o.n); for (auto& z : a) z = r.chance(0.3) ? 0 : ints ? r.range(-2, 2) * s : r.real(-1, 1) * s; o.a.push_back(a); o.b.push_back(ints ? r.range(-3, 3) : r.real(-3, 3)); } o.l2 = gentle ? r.real(0.5, 2) : exp(r.real(-4, 1)); if (r.chance(0.2)) o.l2 = 1; return o;
}
static V Start(vh::Rng& r, int n) { V x(n); int k = r.below(4); for (auto& z : x) z = k == 0 ? 0 : k == 1 ? r.range(-3, 3) : r.real(-8, 8); return x; }
static string Name(const Obj& o) { return vh::Fmt("%s of %d terms in %d variables, l2=%.3g", o.kind == 0 ? "quadratic" : o.kind == 1 ? "logistic" : "pseudo-Huber", (int)o.a.size(), o.n, o.l2); }
static V Best(const Obj& o) {  // damped Newton, in double: the objectives are strictly convex
  int n = o.n; V x(n); V g(n); for (int it = 0; it < 200; ++it) { o(x, &g[0]); if (Norm(g) < 1e-13) break; vector<V> H(n, V(n)); for (int i = 0; i < n; ++i) H[i][i] = o.l2; for (size_t k = 0; k < o.a.size(); ++k) { double t = -o.b[k]; for (int i = 0; i < n; ++i) t += o.a[k][i] * x[i]; double c = o.kind == 0 ? 1 : o.kind == 1 ? 1 / (2 + exp(t) + exp(-t)) : pow(1 + t * t, -1.5); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) H[i][j] += c * o.a[k][i] * o.a[k][j]; } V d = g; for (int i = 0; i < n; ++i) { int p = i; for (int j = i; j < n; ++j) if (fabs(H[j][i]) > fabs(H[p][i])) p = j; swap(H[i], H[p]); swap(d[i], d[p]); for (int j = i + 1; j < n; ++j) { double q = H[j][i] / H[i][i]; for (int k = i; k < n; ++k) H[j][k] -= q * H[i][k]; d[j] -= q * d[i]; } } for (int i = n - 1; i >= 0; --i) { for (int k = i + 1; k < n; ++k) d[i] -= H[i][k] * d[k]; d[i] /= H[i][i]; } double f = o(x, &g[0]), s = 1; V y; for (int h = 0; h < 60; ++h, s /= 2) { y = x; for (int i = 0; i < n; ++i) y[i] -= s * d[i]; V gg(n); if (o(y, &gg[0]) <= f) break; } x = y; } return x;
}
static unique_ptr<BatchOptimizer> New(bool rprop, int n, int m) { if (rprop) return unique_ptr<BatchOptimizer>(new RPropOptimizer(n)); return unique_ptr<BatchOptimizer>(new LBFGSOptimizer(n, m)); }
static void Batch(vh::Rng& r) {
  const bool rprop = r.chance(0.35); Obj o = Make(r, rprop); const int m = r.range(1, 12), limit = rprop ? 3000 : 2000; V x = Start(r, o.n), best = Best(o), g(o.n); if (r.chance(0.08)) x = best; string ctx = (rprop ? "RProp, " : vh::Fmt("L-BFGS(%d), ", m)) + Name(o); V gb(o.n); double fb = o(best, &gb[0]); if (Norm(gb) > 1e-9) { vh::Count("objectives left out: no reference"); return; }
  auto a = New(rprop, o.n, m), b = New(rprop, o.n, m); V y = x; long saves = 0, steps = 0; bool conv = false; string last; uint64_t h = vh::HashStr(ctx); double every = r.chance(0.5) ? 1 : r.unit(); string err;
  try { for (; steps < limit; ++steps) {
    double f = o(x, &g[0]); h = (h ^ (uint64_t)(f * 1e9)) * 1099511628211ull; double gn = Norm(g), xn = Norm(x); V was = x; a->Optimize(f, g, &x); V g2 = g; b->Optimize(f, g2, &y);
    VCHECK(x == y, "saved:trajectory", "step %ld of a restored optimiser goes elsewhere: %s", steps, ctx.c_str()); VCHECK(a->HasConverged() == b->HasConverged() && a->EvaluationCount() == b->EvaluationCount() && a->EvaluationCount() == steps + 2, "saved:counters", "step %ld: %d evaluations and converged=%d, restored %d and %d", steps, a->EvaluationCount(), a->HasConverged(), b->EvaluationCount(), b->HasConverged()); if (x != y) return;
    if (a->HasConverged()) { V gx(o.n); o(x, &gx[0]); VCHECK(Norm(gx) <= 1.0001e-5 * max(1.0, Norm(x)), "converged:gradient", "reports convergence at a point with gradient norm %.3g (|x|=%.3g): %s", Norm(gx), Norm(x), ctx.c_str()); conv = true; break; }
    VCHECK(gn > 1e-5 * max(1.0, xn) * 0.999, "converged:missed", "no convergence reported with gradient norm %.3g", gn);
    if (r.chance(every)) { stringstream ss(ios::in | ios::out | ios::binary); b->Save(&ss); string st = ss.str(); bool fresh = r.chance(0.6); if (fresh) b = New(rprop, o.n, m); else { V z = y, gz(o.n); double fz = o(z, &gz[0]) + 2; for (auto& q : gz) q = -q; try { for (int k = r.range(1, 3); k > 0; --k) b->Optimize(fz, gz, &z); } catch (...) {} } istringstream in(st, ios::binary); b->Load(&in); ostringstream again(ios::binary); b->Save(&again); VCHECK(again.str() == st, "saved:bytes", "a restored state is saved differently"); VCHECK(!in.fail() && in.peek() == EOF, "saved:length", "the state is not read to its end"); ++saves; }
  } } catch (exception& e) { err = e.what(); }
  double fx = o(x, &g[0]); vh::Count("steps", steps); vh::Count("states saved and restored", saves); vh::Distinct("nontrivial", h); vh::Sample(ctx + vh::Fmt(": %ld steps, |g|=%.3g", steps, Norm(g))); VCHECK(err.empty(), "batch:throws", "throws '%s' at gradient norm %.3g: %s", err.c_str(), Norm(g), ctx.c_str()); if (!err.empty()) return;
  VCHECK(conv, "batch:stuck", "no convergence in %ld steps, gradient norm %.3g, f %.12g, minimum %.12g: %s", steps, Norm(g), fx, fb, ctx.c_str()); if (conv) VCHECK(fx - fb <= 1e-9 * max(1.0, fabs(fb)) + Norm(g) * Norm(g) / (2 * o.l2) * 1.01, "batch:minimum", "converged to %.12g, the minimum is %.12g: %s", fx, fb, ctx.c_str()); vh::Count(rprop ? "minimised with RProp" : "minimised with L-BFGS");
}
static void Wrapped(vh::Rng& r) {  // liblbfgs, with and without l1
  Obj o = Make(r, false); double c = r.chance(0.6) ? exp(r.real(-3, 1.5)) : 0, eps = r.chance(0.7) ? 1e-5 : exp(r.real(-16, -5)); int m = r.range(1, 20), start = c && r.chance(0.3) ? r.below(o.n) : 0; V ext = Start(r, o.n), init = ext; bool own = r.chance(0.3); unique_ptr<LBFGS<Obj>> l; if (own) { l.reset(new LBFGS<Obj>(o.n, o, m, c, start, eps)); for (int i = 0; i < o.n; ++i) (*l)[i] = ext[i]; } else l.reset(new LBFGS<Obj>(&ext, o, m, c, start, eps)); int status = l->MinimizeFunction(true); V x(o.n), g(o.n); VCHECK(l->size() == (size_t)o.n, "wrapped:size", "%d", (int)l->size()); for (int i = 0; i < o.n; ++i) x[i] = (*l)[i]; if (!own) VCHECK(x == ext, "wrapped:storage", "the minimiser is not where it was asked for");
  double f = o(x, &g[0]), f0; { V t(o.n); f0 = o(init, &t[0]); } auto pen = [&](const V& v) { double s = 0; for (int i = start; i < o.n; ++i) s += fabs(v[i]); return c * s; }; V pg = g; if (c) for (int i = start; i < o.n; ++i) pg[i] = x[i] > 0 ? g[i] + c : x[i] < 0 ? g[i] - c : g[i] < -c ? g[i] + c : g[i] > c ? g[i] - c : 0;
  double xn; { V t(x.begin() + (c ? 0 : 0), x.end()); xn = Norm(t); } string ctx = vh::Fmt("liblbfgs(m=%d, l1=%.3g from %d, eps=%.3g), status %d, ", m, c, start, eps, status) + Name(o); vh::Distinct("nontrivial", vh::HashStr(ctx + vh::Fmt("%.9g", f))); vh::Sample(ctx); VCHECK(f + pen(x) <= f0 + pen(init) + 1e-9 * max(1.0, fabs(f0)), "wrapped:worse", "objective %.12g at the end, %.12g at the start: %s", f + pen(x), f0 + pen(init), ctx.c_str());
  if (status >= 0) VCHECK(Norm(pg) <= eps * max(1.0, max(xn, 1.0)) * 1.001 + 1e-12, "wrapped:gradient", "gradient norm %.3g at |x|=%.3g: %s", Norm(pg), xn, ctx.c_str()); else { if (Norm(pg) > max(1e-4, 100 * eps) * max(1.0, xn)) { vh::Count("gave up far from a minimum"); vh::Count(vh::Fmt("gave up with status %d", status).c_str()); } }
  if (c && status >= 0 && eps <= 1e-5) for (int i = start; i < o.n; ++i) if (fabs(g[i]) < c - max(1e-3, 20 * eps * max(1.0, xn)) && x[i] != 0) VCHECK(fabs(x[i]) * o.l2 < 1e-3, "wrapped:l1", "x[%d]=%g though its gradient %g is below the penalty %g", i, x[i], g[i], c); vh::Count(status >= 0 ? "minimised with liblbfgs" : "liblbfgs ended by its line search"); if (c) vh::Count("minimised with an l1 penalty");
}
static void Online(vh::Rng& r) {
  int n = r.range(2, 8), N = r.range(1, 20); double C = r.chance(0.15) ? 0 : r.real(0.01, 5), eta0 = r.real(0.05, 1), alpha = r.real(0.1, 0.95); bool expo = r.chance(0.5); vector<int> f; for (int i = 0; i < n; ++i) f.push_back(FD::Convert(vh::Fmt("O%d", i))); boost::shared_ptr<LearningRateSchedule> s; if (expo) s.reset(new ExponentialDecayLearningRate(N, eta0, alpha)); else s.reset(new StandardLearningRate(N, eta0)); vector<int> frozen; for (int q : f) if (r.chance(0.15)) frozen.push_back(q); set<int> fz(frozen.begin(), frozen.end());
  CumulativeL1OnlineOptimizer opt(s, N, C, frozen); SparseVector<double> w; map<int, double> ref, taken; for (int q : f) if (r.chance(0.5)) { double z = r.real(-2, 2); w.set_value(q, z); ref[q] = z; } map<int, double> init = ref; int k = 0; double u = 0, prev = 1e9;
  for (int t = 0; t < 40; ++t) { if (r.chance(0.05)) { opt.ResetEpoch(); k = 0; u = 0; taken.clear(); prev = 1e9; } ++k; double eta = expo ? eta0 * pow(alpha, (double)k / N) : eta0 / (1 + (double)k / N); VCHECK(vh::Near(s->eta(k), eta, 1e-12, 0), "online:rate", "rate %d is %g, by definition %g", k, s->eta(k), eta); VCHECK(eta > 0 && eta < prev, "online:rate", "rates grow"); prev = eta; SparseVector<double> g; for (int q : f) if (r.chance(0.5)) g.set_value(q, r.real(-2, 2)); u += eta * C / N; opt.UpdateWeights(g, FD::NumFeats(), &w);
    for (int q : f) { double z = ref[q]; if (!fz.count(q)) { z += eta * g.value(q); double before = z; if (z > 0) z = max(0.0, z - (u + taken[q])); else if (z < 0) z = min(0.0, z + (u - taken[q])); taken[q] += z - before; VCHECK(fabs(z) <= fabs(before) + 1e-12, "online:model", "the model penalty grows a weight"); } ref[q] = z; VCHECK(vh::Near(w.value(q), z, 1e-9, 1e-10), "online:weight", "step %d: weight %.12g, by definition %.12g (C=%g, frozen=%d)", k, w.value(q), z, C, (int)fz.count(q)); ref[q] = w.value(q); } vh::Count("online updates"); }
  for (int q : frozen) VCHECK(w.value(q) == (init.count(q) ? init[q] : 0), "online:frozen", "a frozen weight moved"); vh::Distinct("nontrivial", vh::HashStr(vh::Fmt("%g %g %d %g", C, eta0, N, w.value(f[0]))));
}
int main(int argc, char** argv) { SetSilent(true); cerr.setstate(ios::failbit); return vh::Main(argc, argv, [](vh::Rng& r, long) { double u = r.unit(); if (u < 0.5) Batch(r); else if (u < 0.85) Wrapped(r); else Online(r); }); }
