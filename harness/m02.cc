// M02: the statistics of every metric form an additive group and survive their encodings.
#include "vh.h"
#include "ns.h"
#include "scorer.h"
#include "error_surface.h"
#include "b64tools.h"
#include "tdict.h"
#include <cstring>
#include <sstream>
using namespace std;
typedef vector<string> Sent; typedef vector<WordID> Ids;
static Ids I(const Sent& s) { Ids v; for (auto& w : s) v.push_back(TD::Convert(w)); return v; }
static string Show(const SufficientStats& s) { string o = s.id_; for (float f : s.fields) o += vh::Fmt(" %.9g", f); return o; }
static bool Same(const SufficientStats& a, const SufficientStats& b) { return a.fields.size() == b.fields.size() && (a.fields.empty() || !memcmp(a.fields.data(), b.fields.data(), 4 * a.fields.size())); }
static bool Close(const SufficientStats& a, const SufficientStats& b) { size_t n = max(a.size(), b.size()); for (size_t i = 0; i < n; ++i) if (!vh::Near(a[i], b[i], 1e-5, 1e-5)) return false; return true; }
static SufficientStats RoundTrip(const SufficientStats& s) { string e = "left over"; s.Encode(&e); return SufficientStats(e); }
static float RandFloat(vh::Rng& r) { switch (r.below(6)) { case 0: return r.range(-5, 5); case 1: return r.range(0, 1 << 24); case 2: return r.real(-1, 1); case 3: return ldexp(r.real(-1, 1), r.range(-120, 120)); case 4: return r.range(0, 2000000) / 7.0f; default: return r.range(0, 40) * 1000001.0f; } }
static SufficientStats RandStats(vh::Rng& r, int n, const string& id, bool integral) { vector<float> f; for (int i = 0; i < n; ++i) f.push_back(integral ? r.range(-1000, 100000) : RandFloat(r)); return SufficientStats(id, f); }
static string RandId(vh::Rng& r) { static const char* one[] = {"IBM_BLEU", "TER", "WER", "SSK", "QCRI_BLEU"}; if (r.chance(0.6)) return one[r.below(5)]; string s = "COMB:"; int n = r.range(2, r.chance(0.3) ? 40 : 5); for (int i = 0; i < n; ++i) s += vh::Fmt("%s%s=%g", i ? ";" : "", one[r.below(5)], r.range(-40, 40) / 8.0); return s; }
static void Algebra(vh::Rng& r) {
  string id = RandId(r); int na = r.range(0, 12), nb = r.chance(0.5) ? na : r.range(0, 12); SufficientStats a = RandStats(r, na, id, true), b = RandStats(r, nb, id, true), c = RandStats(r, r.range(0, 12), id, true), none;
  auto term = [&](const SufficientStats& s, size_t i) -> float { return i < s.fields.size() ? s.fields[i] : 0; }; SufficientStats s = a + b, d = a - b; size_t n = max(na, nb); bool ok = s.size() == n && d.size() == n;
  for (size_t i = 0; i < n; ++i) ok = ok && s[i] == term(a, i) + term(b, i) && d[i] == term(a, i) - term(b, i); VCHECK(ok, "algebra:sum", "%s + %s = %s, difference %s", Show(a).c_str(), Show(b).c_str(), Show(s).c_str(), Show(d).c_str());
  VCHECK(a[na] == 0 && a[na + 1000] == 0, "algebra:outside", "a field outside is %g", a[na]); VCHECK(Close((a + b) + c, a + (b + c)) && Close(a + b, b + a) && Close((a + b) - b, a) && Close(d + b, a), "algebra:laws", "%s, %s, %s", Show(a).c_str(), Show(b).c_str(), Show(c).c_str());
  VCHECK((a - a).IsAdditiveIdentity() && none.IsAdditiveIdentity() && SufficientStats(id, vector<float>(na, -0.0f)).IsAdditiveIdentity(), "algebra:identity", "the difference of %s with itself", Show(a).c_str());
  if (na) { SufficientStats one(id, vector<float>(na)); one.fields[r.below(na)] = RandFloat(r); bool z = true; for (float f : one.fields) z &= f == 0; VCHECK(one.IsAdditiveIdentity() == z, "algebra:nonzero", "%s is an identity: %d", Show(one).c_str(), one.IsAdditiveIdentity()); SufficientStats two = one; VCHECK(two == one, "algebra:eq", "a copy differs"); two.fields[r.below(na)] += 1; if (two.fields != one.fields) VCHECK(!(two == one), "algebra:eq", "%s == %s", Show(one).c_str(), Show(two).c_str()); }
  SufficientStats e = none; e += a; VCHECK(Same(e, a) && e.id_ == a.id_, "algebra:adopt", "nothing + %s = %s", Show(a).c_str(), Show(e).c_str()); e = a; e += none; VCHECK(Same(e, a) && e.id_ == a.id_, "algebra:adopt", "%s + nothing = %s", Show(a).c_str(), Show(e).c_str()); e = none; e -= a; e += a; VCHECK(e.IsAdditiveIdentity() && e.id_ == a.id_, "algebra:adopt", "0 - a + a = %s", Show(e).c_str());
  double k = r.range(1, 8); e = a; e *= k; SufficientStats f; for (int i = 0; i < k; ++i) f += a; VCHECK(Close(e, f), "algebra:times", "%g times %s = %s", k, Show(a).c_str(), Show(e).c_str()); e /= k; VCHECK(Close(e, a), "algebra:divide", "%s divided by %g", Show(a).c_str(), k); e = a; e += e; VCHECK(Close(e, a + a), "algebra:self", "%s added to itself", Show(a).c_str());
  e = a; f = b; e.swap(f); VCHECK(Same(e, b) && Same(f, a), "algebra:swap", "swap of %s and %s", Show(a).c_str(), Show(b).c_str()); vh::Count("algebraic laws", 14); 
}
static void Surface(vh::Rng& r) {
  string id = RandId(r); int n = r.below(12); ErrorSurface es; for (int i = 0; i < n; ++i) { ErrorSegment g; g.x = r.chance(0.1) ? -numeric_limits<double>::infinity() : r.chance(0.2) ? ldexp(r.real(-1, 1), r.range(-1000, 1000)) : r.real(-10, 10); if (r.chance(0.9)) g.delta = RandStats(r, r.range(0, r.chance(0.2) ? 60 : 12), r.chance(0.95) ? id : "", r.chance(0.4)); es.push_back(g); }
  string raw, b64, back; es.Serialize(&raw); ostringstream bo; B64::b64encode(raw.data(), raw.size(), &bo); b64 = bo.str(); back.assign(raw.size() + 8, '\0'); bool dec = B64::b64decode(reinterpret_cast<const unsigned char*>(b64.data()), b64.size(), &back[0], back.size()); VCHECK(dec && back.compare(0, raw.size(), raw) == 0, "surface:base64", "base64 of %d bytes", (int)raw.size());
  ErrorSurface o; if (r.chance(0.5)) { o.resize(r.below(15)); for (auto& g : o) { g.x = 3; g.delta = RandStats(r, 4, "old", true); } } o.Deserialize(r.chance(0.5) ? raw : back); VCHECK(o.size() == es.size(), "surface:size", "%d segments of %d", (int)o.size(), (int)es.size()); if (o.size() != es.size()) return;
  for (int i = 0; i < n; ++i) { VCHECK(o[i].x == es[i].x, "surface:x", "segment %d at %.17g, was %.17g", i, o[i].x, es[i].x); VCHECK(Same(o[i].delta, es[i].delta) && (es[i].delta.id_.empty() || o[i].delta.id_ == es[i].delta.id_), "surface:delta", "segment %d is %s, was %s", i, Show(o[i].delta).c_str(), Show(es[i].delta).c_str()); vh::Count("segments round-tripped"); vh::Max("longest metric name", es[i].delta.id_.size()); }
}
static Sent RandSent(vh::Rng& r, int ml) { static const char* pool[] = {"a", "b", "c", "dd", "the", "x", "\xc3\xa9t\xc3\xa9", "house"}; Sent s; int n = r.range(1, ml); for (int i = 0; i < n; ++i) s.push_back(pool[r.below(8)]); return s; }
static void Corpus(vh::Rng& r) {
  int n = r.range(2, 9), ml = 9; vector<vector<Ids>> refs(n); vector<Ids> hyps; string sig; for (int i = 0; i < n; ++i) { int k = r.chance(0.6) ? 1 : r.range(2, 3); for (int j = 0; j < k; ++j) refs[i].push_back(I(RandSent(r, ml))); Ids h = r.chance(0.6) ? refs[i][0] : I(RandSent(r, ml)); if (r.chance(0.5) && h.size() > 1) h.erase(h.begin() + r.below(h.size())); if (r.chance(0.5)) h.insert(h.begin() + r.below(h.size() + 1), r.pick(refs[i][0])); hyps.push_back(h); sig += TD::GetString(h) + "|"; for (auto& x : refs[i]) sig += TD::GetString(x) + "/"; }
  vh::Distinct("nontrivial", vh::HashStr(sig)); if (vh::S().samples.size() < 3) vh::Sample(sig.substr(0, 120));
  vector<string> names = {"IBM_BLEU", "NIST_BLEU", "KOEHN_BLEU", "QCRI_BLEU", "SSK", "TER", "CER", "WER", "CBLEU", "COMB:IBM_BLEU=0.5;TER=-0.5", vh::Fmt("COMB:SSK=%d;CER=-1;WER=-0.25;KOEHN_BLEU=1", r.range(1, 4))};
  for (auto& name : names) {
    EvaluationMetric* m = EvaluationMetric::Instance(name); vector<SufficientStats> st(n); for (int i = 0; i < n; ++i) { m->CreateSegmentEvaluator(refs[i])->Evaluate(hyps[i], &st[i]); SufficientStats d = RoundTrip(st[i]); VCHECK(Same(d, st[i]) && d.id_ == st[i].id_, "encode:" + name.substr(0, 8), "%s decodes to %s", Show(st[i]).c_str(), Show(d).c_str()); vh::Count("encodings"); }
    SufficientStats seq; for (auto& s : st) seq += s; vector<int> ord(n); for (int i = 0; i < n; ++i) ord[i] = i; r.shuffle(ord); int k = r.range(1, 4); vector<SufficientStats> shard(k); for (int i : ord) shard[r.below(k)] += st[i]; SufficientStats tot; for (auto& s : shard) { SufficientStats t = s; if (s.id_.size() && r.chance(0.7)) t = RoundTrip(s); tot += t; }
    VCHECK(Close(tot, seq) && tot.id_ == seq.id_, "corpus:" + name.substr(0, 8), "in %d processes %s, in one %s", k, Show(tot).c_str(), Show(seq).c_str()); double a = m->ComputeScore(seq), b = m->ComputeScore(tot); VCHECK(vh::Near(a, b, 1e-4, 1e-4) || (!isfinite(a) && !isfinite(b)), "corpus:score:" + name.substr(0, 8), "in %d processes %g, in one %g", k, b, a);
    int z = r.below(n); SufficientStats wo; for (int i = 0; i < n; ++i) if (i != z) wo += st[i]; VCHECK(Close(seq - st[z], wo), "corpus:minus", "%s without one sentence: %s, expected %s", name.c_str(), Show(seq - st[z]).c_str(), Show(wo).c_str()); vh::Count("corpora");
  }
  // the older interface
  static const ScoreType types[] = {IBM_BLEU, NIST_BLEU, Koehn_BLEU, IBM_BLEU_3, TER, WER, SER, AER, BLEU_minus_TER_over_2, BLEU_plus_CBLEU_over_2, CBLEU};
  for (ScoreType t : types) {
    string nm = StringFromScoreType(t); VCHECK(ScoreTypeFromString(t == BLEU_minus_TER_over_2 ? "combi" : t == BLEU_plus_CBLEU_over_2 ? "bleu_cbleu" : nm) == t, "score:name", "%s", nm.c_str()); vector<ScoreP> st; for (int i = 0; i < n; ++i) { vector<Ids> R = refs[i]; Ids h = hyps[i]; if (t == AER) { auto al = [&]() { Sent s; int k = r.range(1, 6); for (int q = 0; q < k; ++q) s.push_back(vh::Fmt("%d-%d", (int)r.below(5), (int)r.below(5))); return I(s); }; R.assign(1, al()); h = al(); } st.push_back(SentenceScorer::CreateSentenceScorer(t, R, "source")->ScoreCandidate(h)); }
    auto val = [](const ScoreP& s) { return s->ScoreDetails(); }; ScoreP seq = st[0]->Clone(), before = st[0]->Clone(); for (int i = 1; i < n; ++i) seq->PlusEquals(*st[i]); VCHECK(val(st[0]) == val(before), "score:clone:" + nm, "adding to a clone changes the original: %s, was %s", val(st[0]).c_str(), val(before).c_str());
    vector<int> ord(n); for (int i = 0; i < n; ++i) ord[i] = i; r.shuffle(ord); ScoreP two = st[ord[0]]->Clone(); ScoreP rest; int cut = r.range(1, n); for (int i = 1; i < n; ++i) { if (i < cut) two->PlusEquals(*st[ord[i]]); else if (!rest) rest = st[ord[i]]->Clone(); else rest->PlusEquals(*st[ord[i]]); }
    auto enc = [&](const ScoreP& s) { if (t == SER) return s; string e; s->Encode(&e); return SentenceScorer::CreateScoreFromString(t, e); }; for (auto& s : st) { ScoreP d = enc(s); VCHECK(val(d) == val(s), "score:encode:" + nm, "%s decodes to %s", val(s).c_str(), val(d).c_str()); } if (rest) two->PlusEquals(*enc(rest)); auto near = [](const ScoreP& a, const ScoreP& b) { float x = a->ComputeScore(), y = b->ComputeScore(); return vh::Near(x, y, 1e-4, 1e-4) || (!isfinite(x) && !isfinite(y)); };
    VCHECK(near(two, seq), "score:order:" + nm, "%s in another order: %s", val(seq).c_str(), val(two).c_str()); int z = r.below(n); ScoreP wo; for (int i = 0; i < n; ++i) if (i != z) { if (!wo) wo = st[i]->Clone(); else wo->PlusEquals(*st[i]); } ScoreP res = r.pick(st)->Clone(); seq->Subtract(*st[z], res.get()); VCHECK(near(res, wo), "score:minus:" + nm, "without one sentence %s, expected %s", val(res).c_str(), val(wo).c_str());
    ScoreP diff = seq->Clone(); seq->Subtract(*seq, diff.get()); VCHECK(diff->IsAdditiveIdentity(), "score:zero:" + nm, "the difference of %s with itself is not zero", val(seq).c_str()); bool some = false; for (auto& s : st) some |= !s->IsAdditiveIdentity(); VCHECK(some, "score:nonzero:" + nm, "every sentence counts as nothing");
    int k = r.range(2, 4); ScoreP many = st[0]->Clone(), sc = st[0]->Clone(); for (int i = 0; i < k; ++i) many->PlusEquals(*st[1]); if (t == TER || t == BLEU_minus_TER_over_2) { sc->PlusEquals(*st[1], 1.0f); sc->PlusEquals(*st[1], 1.0f); sc->PlusEquals(*st[1], -1.0f); for (int i = 1; i < k; ++i) sc->PlusEquals(*st[1], 1.0f); } else sc->PlusEquals(*st[1], (float)k); VCHECK(near(many, sc), "score:scaled:" + nm, "%d times %s on %s: %s, expected %s", k, val(st[1]).c_str(), val(st[0]).c_str(), val(sc).c_str(), val(many).c_str()); vh::Count("corpora (older interface)");
  }
}
static void Case(vh::Rng& r, long) { Algebra(r); Surface(r); Corpus(r); for (int i = 0; i < 4; ++i) { string id = RandId(r); SufficientStats s = RandStats(r, r.below(20), id, false), d = RoundTrip(s); VCHECK(Same(s, d) && d.id_ == id, "encode:any", "%s decodes to %s", Show(s).c_str(), Show(d).c_str()); } }
int main(int argc, char** argv) { return vh::Main(argc, argv, [](vh::Rng& r, long c) { Case(r, c); }); }
