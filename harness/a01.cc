// A01: diagonal normaliser and its derivative against direct sums; translation tables against their definition.
#include "vh.h"
#include "da.h"
#include "ttables.h"
#include <sstream>
using namespace std;
static void Diagonal(vh::Rng& r) {
  int n = r.chance(0.1) ? r.range(50, 400) : r.range(1, 30), m = r.chance(0.1) ? r.range(50, 400) : r.range(1, 30), i = r.range(1, m); double a = r.chance(0.1) ? 0 : r.chance(0.1) ? exp(r.real(-6, 0)) : r.chance(0.1) ? -r.real(0.1, 5) : r.real(0.1, 14);
  long double z = 0, dz = 0; for (int j = 1; j <= n; ++j) { long double h = -fabsl((long double)j / n - (long double)i / m), e = expl(h * a); VCHECK(vh::Near(DiagonalAlignment::Feature(i, j, m, n), h, 1e-9, 1e-12), "diagonal:feature", "h(%d,%d,%d,%d)=%g, %g by definition", i, j, m, n, DiagonalAlignment::Feature(i, j, m, n), (double)h); VCHECK(vh::Near(DiagonalAlignment::UnnormalizedProb(i, j, m, n, a), e, 1e-9, 0), "diagonal:weight", "%d %d %d %d %g", i, j, m, n, a); z += e; dz += h * e; }
  double tol = fabs(a) < 0.1 ? 1e-6 : 1e-9; VCHECK(vh::Near(DiagonalAlignment::ComputeZ(i, m, n, a), z, tol, 0), "diagonal:normaliser", "target position %d of %d, %d source words, tension %g: %.10g, the sum is %.10g", i, m, n, a, DiagonalAlignment::ComputeZ(i, m, n, a), (double)z); double d = DiagonalAlignment::ComputeDLogZ(i, m, n, a); VCHECK(vh::Near(d, dz / z, tol * 100, 1e-9), "diagonal:derivative", "target position %d of %d, %d source words, tension %g: %.10g, the expected feature is %.10g", i, m, n, a, d, (double)(dz / z)); vh::Distinct("nontrivial", vh::HashStr(vh::Fmt("%d %d %d %.6g", i, m, n, a))); vh::Count("normalisers compared"); if (n != m) vh::Count("of them between different lengths"); vh::Sample(vh::Fmt("i=%d m=%d n=%d tension=%g", i, m, n, a));
}
static void Table(vh::Rng& r) {
  TTable t[2]; map<int, map<int, double>> c[2], p[2]; int V = r.range(1, 40), ops = r.range(1, 120); double alpha = r.real(0.001, 2);
  for (int k = 0; k < ops; ++k) { int w = r.below(2), e = r.below(V), f = 1 + r.below(V); switch (r.below(12)) {
    case 0: { bool vb = r.chance(0.5); if (vb) t[w].NormalizeVB(alpha); else t[w].Normalize(); p[w].clear(); for (auto& q : c[w]) { double s = 0; for (auto& x : q.second) s += x.second + (vb ? alpha : 0); for (auto& x : q.second) p[w][q.first][x.first] = vb ? exp(Md::digamma(x.second + alpha) - Md::digamma(s)) : s ? x.second / s : 0; } c[w].clear(); vh::Count("normalisations"); break; }
    case 1: t[w] += t[1-w]; for (auto& q : c[1-w]) for (auto& x : q.second) c[w][q.first][x.first] += x.second; vh::Count("tables added"); break;
    case 2: case 3: t[w].Increment(e, f); c[w][e][f] += 1; break;
    default: { double x = r.real(0.01, 2); t[w].Increment(e, f, x); c[w][e][f] += x; } }
    for (int q = 0; q < 2; ++q) { int e2 = r.below(V + 5), f2 = 1 + r.below(V + 5); auto a = p[q].find(e2); double want = 1e-9; if (a != p[q].end()) { auto b = a->second.find(f2); if (b != a->second.end()) want = b->second; } VCHECK(vh::Near(t[q].prob(e2, f2), want, 1e-9, 1e-15), "table:probability", "p(%d|%d)=%g, %g by definition", f2, e2, t[q].prob(e2, f2), want); double n = 0; for (auto& z : t[q].counts) for (auto& y : z) n += y.second; double m = 0; for (auto& z : c[q]) for (auto& y : z.second) m += y.second; VCHECK(vh::Near(n, m, 1e-9, 1e-12), "table:counts", "counts sum to %g, %g were added", n, m); }
  }
  vh::Distinct("nontrivial", vh::HashStr(vh::Fmt("%d %d %.9g", V, ops, alpha))); vh::Count("tables"); 
  ostringstream o; map<pair<string, string>, double> w; int n = r.range(0, 30); bool logs = r.chance(0.5); o.precision(17); for (int k = 0; k < n; ++k) { string e = vh::Fmt("s%d", r.below(10)), f = vh::Fmt("t%d", r.below(10)); double v = r.chance(0.1) ? 1 : r.unit(); if (v <= 0) v = 0.5; o << e << ' ' << f << ' ' << (logs ? log(v) : v) << '\n'; w[make_pair(e, f)] = v; } istringstream in(o.str()); TTable u; if (logs) u.DeserializeLogProbsFromText(&in); else u.DeserializeProbsFromText(&in); for (int i = 0; i < 10; ++i) for (int j = 0; j < 10; ++j) { string e = vh::Fmt("s%d", i), f = vh::Fmt("t%d", j); auto it = w.find(make_pair(e, f)); double want = it == w.end() ? 1e-9 : it->second; VCHECK(vh::Near(u.prob(TD::Convert(e), TD::Convert(f)), want, 1e-9, 1e-12), "table:read", "p(%s|%s)=%g, written as %g", f.c_str(), e.c_str(), u.prob(TD::Convert(e), TD::Convert(f)), want); } vh::Count("parameters read", w.size());
}
int main(int argc, char** argv) { return vh::Main(argc, argv, [](vh::Rng& r, long c) { if (c % 2) Diagonal(r); else Table(r); }); }
