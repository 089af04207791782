// Random aligned corpora for the grammar extractor checks.
#ifndef EXT_H_
#define EXT_H_
#include "vh.h"
#include <functional>
#include <sstream>
#include <map>
#include <set>
#include "suffix_array.h"
#include "data_array.h"
#include "alignment.h"
#include "phrase_location.h"
#include "precomputation.h"
#include "vocabulary.h"
#include "phrase.h"
#include "phrase_builder.h"
namespace ex {
using namespace std; using namespace extractor;
typedef vector<string> Sent; typedef vector<pair<int, int>> Links;
struct Corpus { vector<Sent> src, tgt; vector<Links> links; };
struct Params { int gap, span, nts, syms, samples; bool tight; };
inline string Join(const Sent& s) { string o; for (size_t i = 0; i < s.size(); ++i) o += (i ? " " : "") + s[i]; return o; }
inline string LinkText(const Links& l) { string o; for (size_t i = 0; i < l.size(); ++i) o += vh::Fmt(i ? " %d-%d" : "%d-%d", l[i].first, l[i].second); return o; }
inline string Put(const string& name, const string& text) { string f = vh::S().dir + "/" + name; ofstream o(f.c_str()); o << text; return f; }
inline Sent RandomSent(vh::Rng& r, int n, int vocab, const char* p) { Sent s; int bias = r.below(3); for (int i = 0; i < n; ++i) { int w = bias == 0 ? r.below(vocab) : bias == 1 ? min(r.below(vocab), r.below(vocab)) : (i && r.chance(0.4) ? -1 : (int)r.below(vocab)); if (w < 0) s.push_back(s.back()); else s.push_back(w == 0 && r.chance(0.02) ? string("<s>") : vh::Fmt("%s%d", p, w)); } return s; }
inline Links RandomLinks(vh::Rng& r, int n, int m) {
  Links l; if (!n || !m) return l; set<pair<int, int>> s; int kind = r.below(5);
  if (kind == 0) { for (int i = 0; i < min(n, m); ++i) if (!r.chance(0.15)) s.insert({i, i}); }
  else if (kind == 1) { vector<int> p; for (int i = 0; i < m; ++i) p.push_back(i); r.shuffle(p); for (int i = 0; i < n && i < m; ++i) if (!r.chance(0.1)) s.insert({i, p[i]}); }
  else if (kind == 2) { int k = r.range(0, n + m); for (int i = 0; i < k; ++i) s.insert({(int)r.below(n), (int)r.below(m)}); }
  else if (kind == 3) { int k = r.range(0, n + 1); for (int i = 0; i < k; ++i) { int a = r.below(n); int b = a * m / n + r.range(-1, 1); if (b >= 0 && b < m) s.insert({a, b}); } }
  else { int at = 0; for (int i = 0; i < n && at < m;) { int a = r.range(1, 2), b = r.range(1, 2); for (int x = i; x < min(n, i + a); ++x) for (int y = at; y < min(m, at + b); ++y) if (r.chance(0.8)) s.insert({x, y}); i += a; at += b; } if (r.chance(0.5) && m > 2) { set<pair<int, int>> t; int c = r.range(1, m - 1); for (auto p : s) t.insert({p.first, (p.second + c) % m}); s = t; } }
  l.assign(s.begin(), s.end()); if (r.chance(0.1)) r.shuffle(l); return l;
}
inline Corpus Random(vh::Rng& r, int maxsent, int maxlen) {
  Corpus c; int n = r.range(1, maxsent), vs = r.pick(vector<int>{1, 2, 3, 5, 12}), vt = r.pick(vector<int>{1, 2, 4, 10});
  for (int i = 0; i < n; ++i) { int a = r.chance(0.05) ? 0 : r.range(1, maxlen), b = a == 0 && r.chance(0.5) ? 0 : r.chance(0.3) ? r.range(1, maxlen) : max(1, a + r.range(-2, 2));
    if (i && r.chance(0.2)) { c.src.push_back(c.src[r.below(i)]); c.tgt.push_back(c.tgt[r.below(i)]); } else { c.src.push_back(RandomSent(r, a, vs, "f")); c.tgt.push_back(RandomSent(r, b, vt, "e")); }
    c.links.push_back(RandomLinks(r, c.src[i].size(), c.tgt[i].size())); }
  return c;
}
struct Files { string src, tgt, both, al; };
inline Files Write(vh::Rng& r, const Corpus& c) { Files f; string a, b, d, e; for (size_t i = 0; i < c.src.size(); ++i) { string s = Join(c.src[i]), t = Join(c.tgt[i]); if (r.chance(0.05)) s = " " + s; if (r.chance(0.05)) t += " "; a += s + "\n"; b += t + "\n"; d += s + " ||| " + t + "\n"; e += LinkText(c.links[i]) + "\n"; }
  f.src = Put("c.f", a); f.tgt = Put("c.e", b); f.both = Put("c.fe", d); f.al = Put("c.al", e); return f; }
// a source pattern: words, "" for a gap
typedef vector<string> Pattern; typedef vector<int> Starts;   // where the chunks start, positions in the sentence
inline vector<Sent> Chunks(const Pattern& p) { vector<Sent> c(1); for (auto& w : p) if (w.empty()) c.push_back(Sent()); else c.back().push_back(w); return c; }
inline void Find(const Sent& s, const vector<Sent>& ch, size_t k, Starts& at, int gap, int span, vector<Starts>* out) {
  if (k == ch.size()) { out->push_back(at); return; }
  int lo = k ? at.back() + (int)ch[k - 1].size() + gap : 0;
  for (int i = lo; i + (int)ch[k].size() <= (int)s.size(); ++i) { if (k && i + (int)ch[k].size() - at[0] > span) break; if (!equal(ch[k].begin(), ch[k].end(), s.begin() + i)) continue; at.push_back(i); Find(s, ch, k + 1, at, gap, span, out); at.pop_back(); }
}
inline string Show(const Pattern& p) { string o; for (auto& w : p) o += (o.empty() ? "" : " ") + (w.empty() ? string("X") : w); return o; }
struct Quiet { streambuf* b; ostringstream o; Quiet() : b(cerr.rdbuf(o.rdbuf())) {} ~Quiet() { cerr.rdbuf(b); } };
// ---- reference rules, by definition from the links of one sentence pair
struct Limits { int gap = 1, span = 10, nts = 2, syms = 5; bool aligned = true, chunks = false, tight = true; };
typedef vector<pair<int, int>> Span;
struct Found { string src, tgt; Links al; bool must; };
struct Side { vector<int> lo, hi; };
inline void Ends(const Links& l, int n, bool src, Side* s) { s->lo.assign(n, -1); s->hi.assign(n, -1); for (auto& p : l) { int a = src ? p.first : p.second, b = src ? p.second : p.first; if (s->lo[a] < 0 || b < s->lo[a]) s->lo[a] = b; if (b + 1 > s->hi[a]) s->hi[a] = b + 1; } }
// the smallest target span of source words [a,b), if every link into it comes from [a,b)
inline bool Consistent(const Links& l, int a, int b, int* c, int* d) { *c = *d = -1; for (auto& p : l) if (p.first >= a && p.first < b) { if (*c < 0 || p.second < *c) *c = p.second; if (p.second + 1 > *d) *d = p.second + 1; } if (*c < 0) return false; for (auto& p : l) if (p.second >= *c && p.second < *d && (p.first < a || p.first >= b)) return false; return true; }
inline vector<Found> Rules(const Corpus& c, const Limits& m, int sent, const Pattern& pat, const Starts& at) {
  vector<Found> out; const Sent& f = c.src[sent]; const Sent& e = c.tgt[sent]; const Links& l = c.links[sent]; int n = f.size(); auto ch = Chunks(pat); Side s, t; Ends(l, n, true, &s); Ends(l, e.size(), false, &t);
  int lo = at[0], hi = at.back() + (int)ch.back().size(), withlinks = 0; bool core = false;
  for (size_t k = 0; k < ch.size(); ++k) { bool any = false; for (size_t i = 0; i < ch[k].size(); ++i) any |= s.lo[at[k] + i] >= 0; withlinks += any; } for (int i = lo; i < hi; ++i) core |= s.lo[i] >= 0;
  if (m.aligned && (!withlinks || (m.chunks && withlinks < (int)ch.size()))) return out; if (!core) return out;
  struct Ext { int L, R; }; map<pair<bool, bool>, int> best; set<string> seen;
  vector<Ext> exts; for (int L = lo; L >= 0; L = (L == lo ? lo - m.gap : L - 1)) for (int R = hi; R <= n; R = (R == hi ? hi + m.gap : R + 1)) exts.push_back({L, R});
  sort(exts.begin(), exts.end(), [](const Ext& a, const Ext& b) { return a.R - a.L < b.R - b.L; });
  for (auto& x : exts) { int L = x.L, R = x.R; bool left = L < lo, right = R < n + 1 && R > hi; if (R - L > m.span) continue; int gaps = (int)ch.size() - 1 + left + right; if (gaps > m.nts || (int)pat.size() + left + right > m.syms) continue;
    int tl, th; if (!Consistent(l, L, R, &tl, &th) || th - tl > m.span) continue; if (m.tight && (s.lo[L] < 0 || s.lo[R - 1] < 0)) continue;
    Span sg; if (left) sg.push_back({L, lo}); for (size_t k = 0; k + 1 < ch.size(); ++k) sg.push_back({at[k] + (int)ch[k].size(), at[k + 1]}); if (right) sg.push_back({hi, R});
    Span tg; bool ok = true; for (auto& g : sg) { int a, b; if (!Consistent(l, g.first, g.second, &a, &b)) { ok = false; break; } if (m.tight && (s.lo[g.first] < 0 || s.lo[g.second - 1] < 0)) { ok = false; break; } tg.push_back({a, b}); } if (!ok) continue;
    bool must = true; if (!m.tight) { auto any = [&](int a, int b) { for (int i = a; i < b; ++i) if (s.lo[i] >= 0) return true; return false; }; if (left && !any(lo - m.gap, lo)) must = false; if (right && !any(hi, hi + m.gap)) must = false; int& b = best[{left, right}]; if (!b) b = R - L; else if (R - L > b) must = false; }
    vector<int> order; for (size_t i = 0; i < tg.size(); ++i) order.push_back(i); sort(order.begin(), order.end(), [&](int a, int b) { return tg[a] < tg[b]; });
    string src; map<int, int> index; { int k = 0, g = 0; auto put = [&](const string& w) { src += (src.empty() ? "" : " ") + w; ++k; }; if (left) put(vh::Fmt("[X,%d]", ++g)); for (size_t q = 0; q < ch.size(); ++q) { if (q) put(vh::Fmt("[X,%d]", ++g)); for (size_t i = 0; i < ch[q].size(); ++i) { index[at[q] + i] = k; put(ch[q][i]); } } if (right) put(vh::Fmt("[X,%d]", ++g)); }
    // chunk ends on the target side: exact when tight, over any unaligned words at the edges when loose
    vector<pair<int, int>> rg; int xl = tl, xh = th; if (!m.tight) { while (xl > 0 && t.lo[xl - 1] < 0) --xl; while (xh < (int)e.size() && t.lo[xh] < 0) ++xh; }
    rg.push_back({xl, tl}); for (int o : order) { int a = tg[o].first, b = tg[o].second; int ga = a, gb = b; if (!m.tight) { while (ga > xl && t.lo[ga - 1] < 0) --ga; while (gb < xh && t.lo[gb] < 0) ++gb; } rg.push_back({ga, a}); rg.push_back({b, gb}); } rg.push_back({th, xh});
    vector<int> cut(rg.size()); function<void(size_t)> rec = [&](size_t i) {
      if (i == rg.size()) { if (cut.back() - cut[0] > m.span) return; string tgt; map<int, int> ti; int k = 0; for (size_t q = 0; q * 2 < cut.size(); ++q) { for (int j = cut[2 * q]; j < cut[2 * q + 1]; ++j) { ti[j] = k++; tgt += (tgt.empty() ? "" : " ") + e[j]; } if (q < order.size()) { tgt += (tgt.empty() ? "" : " ") + vh::Fmt("[X,%d]", order[q] + 1); ++k; } }
        Found r; r.src = src; r.tgt = tgt; for (auto& p : l) if (ti.count(p.second)) r.al.push_back({index.count(p.first) ? index[p.first] : -1, ti[p.second]}); r.must = must; string key = src + "|" + tgt + "|" + LinkText(r.al); if (seen.insert(key).second) out.push_back(r); else if (must) for (auto& z : out) if (z.src == src && z.tgt == tgt && z.al == r.al) z.must = true; return; }
      for (int v = i ? max(rg[i].first, cut[i - 1]) : rg[i].first; v <= rg[i].second; ++v) { cut[i] = v; rec(i + 1); } };
    rec(0); }
  return out;
}
// every pattern of an input sentence that the extractor is to look up
inline set<Pattern> Queries(const Sent& in, const Limits& m) { set<Pattern> out; function<void(Pattern&, int, int, int)> rec = [&](Pattern& p, int start, int end, int nts) { out.insert(p); if ((int)p.size() >= m.syms) return; if (end + 1 < (int)in.size() && end + 1 - start <= m.span) { p.push_back(in[end + 1]); rec(p, start, end + 1, nts); p.pop_back(); } if (nts < m.nts && (int)p.size() + 2 <= m.syms) for (int i = end + 1 + m.gap; i < (int)in.size() && i - start <= m.span; ++i) { p.push_back(""); p.push_back(in[i]); rec(p, start, i, nts + 1); p.pop_back(); p.pop_back(); } };
  for (size_t i = 0; i < in.size(); ++i) { Pattern p(1, in[i]); rec(p, i, i, 0); } return out; }
struct Stat { int count = 0; map<Links, int> al; bool must = false; };
struct Expected { map<pair<string, string>, Stat> pair; map<string, double> source; };
inline void Add(const vector<Found>& f, Expected* x) { for (auto& r : f) { Stat& s = x->pair[{r.src, r.tgt}]; ++s.count; ++s.al[r.al]; s.must |= r.must; x->source[r.src] += 1; } }
struct Line { string src, tgt; map<string, double> score; Links al; };
inline bool Parse(const string& text, Line* o) { vector<string> f; size_t p = 0; for (;;) { size_t q = text.find(" |||", p); if (q == string::npos) { f.push_back(text.substr(p)); break; } f.push_back(text.substr(p, q - p)); p = q + 4; if (p < text.size() && text[p] == ' ') ++p; } if (f.size() != 5 || f[0] != "[X]") return false; o->src = f[1]; o->tgt = f[2]; istringstream a(f[3]), b(f[4]); string w; while (a >> w) { size_t e = w.find('='); if (e == string::npos || o->score.count(w.substr(0, e))) return false; o->score[w.substr(0, e)] = atof(w.c_str() + e + 1); } int x, y; while (b >> w) { if (sscanf(w.c_str(), "%d-%d", &x, &y) != 2) return false; o->al.push_back({x, y}); } return true; }
}
#endif
