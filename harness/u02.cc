// U02: log-domain numbers against 80-bit reals (sign + long double log magnitude, evaluated independently).
#include "vh.h"
#include "prob.h"
#include "exp_semiring.h"
using namespace std;
typedef long double L;
struct N { int s; L l; };   // s in {-1,0,1}; value = s * exp(l)
static N Zero() { return {0, 0}; }
static N Mul(N a, N b) { return a.s && b.s ? N{a.s * b.s, a.l + b.l} : Zero(); }
static N Div(N a, N b) { return a.s ? N{a.s * b.s, a.l - b.l} : Zero(); }
static N Neg(N a) { a.s = -a.s; return a; }
static N Add(N a, N b) {
  if (!a.s) return b; if (!b.s) return a;
  if (a.l < b.l) swap(a, b);
  L d = b.l - a.l;  // <= 0
  if (a.s == b.s) return {a.s, a.l + log1pl(expl(d))};
  if (d == 0) return Zero();
  return {a.s, a.l + logl(-expm1l(d))};
}
static int Cmp(N a, N b) {
  if (a.s != b.s) return a.s < b.s ? -1 : 1;
  if (!a.s || a.l == b.l) return 0;
  return (a.l < b.l) == (a.s > 0) ? -1 : 1;
}
static string Str(N a) { return vh::Fmt("%s e^%.17Lg", a.s < 0 ? "-" : a.s ? "+" : "0", a.l); }
static string Str(prob_t p) { return vh::Fmt("%s e^%.17g", p.s_ ? "-" : "+", p.v_); }

// cond: the amount by which relative error of the operands is amplified in this result
static bool Match(prob_t g, N w, L tol) {
  if (tol >= 1) return !std::isnan(g.v_) && (g.is_0() || g.v_ <= w.l + 60);   // cancelled beyond the precision of a double: only the magnitude is judged
  if (!w.s) return g.is_0();
  if (std::isnan(g.v_)) return false;
  if (g.is_0() || (g.s_ ? -1 : 1) != w.s) return false;
  return fabsl((L)g.v_ - w.l) <= tol + 4e-16L * fabsl(w.l);
}
static double RandLog(vh::Rng& r) {
  switch (r.below(7)) {
    case 0: return 0; case 1: return r.real(-2, 2); case 2: return r.real(-40, 40); case 3: return r.real(-2000, 2000);
    case 4: return r.range(-5, 5); case 5: return r.real(-1e6, 1e6); default: return r.real(-1, 1) * 1e-8;
  }
}
static prob_t Make(vh::Rng& r, N* n, bool neg) {
  if (r.chance(0.08)) { *n = Zero(); switch (r.below(3)) { case 0: return prob_t(); case 1: return prob_t(0.0); default: return prob_t(init_0()); } }
  if (r.chance(0.1)) { *n = {1, 0}; return r.chance(0.5) ? prob_t(init_1()) : prob_t::One(); }
  int s = neg && r.chance(0.4) ? -1 : 1;
  if (r.chance(0.4)) { double x = s * (r.chance(0.5) ? r.real(0, 5) : exp(r.real(-600, 600))); if (x == 0) x = 1; *n = {x < 0 ? -1 : 1, logl(fabsl((L)x))}; n->l = log(fabs(x)); return r.chance(0.5) ? prob_t(x) : [&] { prob_t p; p = x; return p; }(); }
  double l = RandLog(r); *n = {s, l}; 
  if (s > 0) switch (r.below(3)) { case 0: return prob_t::exp(l); case 1: { prob_t p; p.logeq(l); return p; } default: return prob_t(l, init_lnx()); }
  return prob_t(l, true);
}
static void Compare(prob_t a, prob_t b, N x, N y) {
  int c = Cmp(x, y);
  bool ok = (a == b) == (c == 0) && (a != b) == (c != 0) && (a < b) == (c < 0) && (a <= b) == (c <= 0) && (a > b) == (c > 0) && (a >= b) == (c >= 0) && a.lt(b) == (c < 0) && a.gt(b) == (c > 0);
  VCHECK(ok, "cmp", "comparison of %s and %s", Str(x).c_str(), Str(y).c_str());
  if (c == 0) VCHECK(hash_value(a) == hash_value(b), "hash", "equal values hash differently: %s", Str(x).c_str());
}
static void Case(vh::Rng& r, long) {
  for (int k = 0; k < 60; ++k) {
    N x, y, z; prob_t a = Make(r, &x, true), b = Make(r, &y, true), c = Make(r, &z, true);
    if (r.chance(0.1)) { b = a; y = x; } else if (r.chance(0.1)) { b = -a; y = Neg(x); } else if (r.chance(0.1) && x.s) { double nl = nextafter((double)x.l, r.chance(.5) ? 1e9 : -1e9); b = prob_t(nl, x.s < 0); y = {x.s, nl}; }
    else if (r.chance(0.1) && x.s) { double nl = (double)x.l + r.real(-1, 1) * pow(10, -r.range(1, 14)); int s = r.chance(0.5) ? 1 : -1; b = prob_t(nl, s < 0); y = {s, nl}; }
    vh::Distinct("nontrivial", vh::HashStr(Str(x) + Str(y)));
    Compare(a, b, x, y); Compare(b, a, y, x); Compare(a, a, x, x);
    VCHECK(a.is_0() == (x.s == 0), "is_0", "is_0 of %s", Str(x).c_str());
    if (x.s) VCHECK(a.is_1() == (x.s == 1 && x.l == 0), "is_1", "is_1 of %s", Str(x).c_str());
    // one operation
    auto check = [&](const char* op, prob_t g, N w, L tol) { vh::Count("operations"); VCHECK(Match(g, w, tol), op, "%s, %s -> %s expected %s", Str(x).c_str(), Str(y).c_str(), Str(g).c_str(), Str(w).c_str()); };
    auto addtol = [&](N p, N q, N w) -> L {   // error of log(1-+e^d) in double: relative to the result
      if (!w.s) return 0; if (!p.s || !q.s) return 1e-15L;
      L m = max(p.l, q.l); L loss = m - w.l; if (loss < 0) loss = 0;    // cancellation
      return 3e-16L * (fabsl(m) + 4) + 4e-16L * expl(min<L>(loss, 60)) * (fabsl(p.l - q.l) < 1 ? 1 : 1) ;
    };
    N w = Add(x, y); check("add", a + b, w, addtol(x, y, w)); { prob_t t = a; t += b; check("add", t, w, addtol(x, y, w)); }
    w = Add(x, Neg(y)); check("subtract", a - b, w, addtol(x, y, w)); { prob_t t = a; t -= b; check("subtract", t, w, addtol(x, y, w)); }
    check("multiply", a * b, Mul(x, y), 1e-15L); { prob_t t = a; t *= b; check("multiply", t, Mul(x, y), 1e-15L); }
    if (y.s) { check("divide", a / b, Div(x, y), 1e-15L); prob_t t = a; t /= b; check("divide", t, Div(x, y), 1e-15L); check("inverse", b.inverse(), Div({1, 0}, y), 1e-15L); }
    check("negate", -a, Neg(x), 0); { prob_t t = a; t.negate(); check("negate", t, Neg(x), 0); }
    if (x.s >= 0) {
      double e = r.chance(0.3) ? r.range(1, 5) : r.real(0.01, 6); check("power", pow(a, e), x.s ? N{1, x.l * e} : Zero(), 1e-15L * fabsl(x.l * e)); prob_t t = a; t.poweq(e); check("power", t, x.s ? N{1, x.l * e} : Zero(), 1e-15L * fabsl(x.l * e));
      check("root", a.root(e), x.s ? N{1, x.l / e} : Zero(), 1e-15L * fabsl(x.l / e));
      if (x.s) { check("power", pow(a, -e), N{1, -x.l * e}, 1e-15L * fabsl(x.l * e)); check("power", pow(a, 0.0), N{1, 0}, 0); VCHECK((double)log(a) == a.v_, "log", "log"); }
    }
    { N w2 = x; if (w2.s < 0) w2.s = 1; check("abs", abs(a), w2, 0); }
    { double f = a.as_float(); double want = x.s * (double)expl(x.l); VCHECK(f == want || vh::Near(f, want, 1e-15 * (8 + fabs((double)x.l) * 4), 1e-320), "as_float", "as_float of %s is %.17g", Str(x).c_str(), f); if (x.s && fabsl(x.l) < 700) { prob_t back(f); check("convert", back, x, 1e-15L * (4 + fabsl(x.l))); } }
    VCHECK(signbit(a) == (x.s < 0) || !x.s, "signbit", "signbit of %s", Str(x).c_str());
    // commutativity is exact, identities are exact
    VCHECK((a + b) == (b + a) && (a * b) == (b * a), "commute", "%s and %s do not commute", Str(x).c_str(), Str(y).c_str());
    VCHECK((a + prob_t()) == a && (prob_t() + a) == a && (a * prob_t::One()) == a && (a * prob_t()).is_0() && (a - a).is_0(), "identity", "identity law for %s", Str(x).c_str());
    // histories: sums and products of positive numbers, left to right and right to left
    if (k < 6) {
      int n = r.range(2, 200); vector<N> ns(n); vector<prob_t> ps(n); for (int i = 0; i < n; ++i) { ps[i] = Make(r, &ns[i], false); }
      prob_t s, p = prob_t::One(), s2; N ws = Zero(), wp = {1, 0}; L mag = 1;
      for (int i = 0; i < n; ++i) { s += ps[i]; p *= ps[i]; ws = Add(ws, ns[i]); wp = Mul(wp, ns[i]); if (ns[i].s) mag += fabsl(ns[i].l); s2 += ps[n - 1 - i]; }
      check("sum", s, ws, 1e-15L * n * (4 + (ws.s ? fabsl(ws.l) : 0))); check("sum", s2, ws, 1e-15L * n * (4 + (ws.s ? fabsl(ws.l) : 0))); check("product", p, wp, 4e-16L * n * mag);
    }
    // first-order expectation semiring: p and r follow the product and sum rules
    { double p1 = r.real(0, 2), r1 = r.real(-2, 2), p2 = r.real(0, 2), r2 = r.real(-2, 2); typedef PRPair<double, double> P; P u(p1, r1), v(p2, r2);
      P m = u * v, q = u + v; VCHECK(vh::Near(m.p, p1 * p2, 1e-12, 1e-12) && vh::Near(m.r, p1 * r2 + p2 * r1, 1e-12, 1e-12) && vh::Near(q.p, p1 + p2, 1e-12, 1e-12) && vh::Near(q.r, r1 + r2, 1e-12, 1e-12), "expectation", "expectation semiring");
      P one(1), zero(0.0); P i1 = u * one, i2 = one * u, i3 = u + zero, i4 = u * zero; VCHECK(i1.p == p1 && i1.r == r1 && i2.p == p1 && i2.r == r1 && i3.p == p1 && i3.r == r1 && i4.p == 0 && i4.r == 0, "expectation", "identities of the expectation semiring");
      typedef PRPair<prob_t, prob_t> Q; Q a1(a, b), b1(c, a); Q mm = a1; mm *= b1; N wr = Add(Mul(x, x), Mul(z, y)); check("expectation", mm.p, Mul(x, z), 1e-15L); (void)wr; }
  }
  vh::Sample("60 operand pairs");
}
int main(int argc, char** argv) { return vh::Main(argc, argv, [](vh::Rng& r, long c) { Case(r, c); }); }
