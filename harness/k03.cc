// K03: totals of sentences assembled from fragments in random ways against the definition over the ARPA entries.
#include "lmgen.h"
#include "lm/left.hh"
#include "lm/partial.hh"
#include <memory>
#include <functional>
using namespace lm::ngram;
using lg::Ids;
typedef std::vector<lm::WordIndex> W;
static double TolS(double mag) { return 3e-5 * (1 + mag); }

template <class M> struct Asm {
  vh::Rng& r; const M& model; int nts = 0, depth = 0;
  std::string shape;
  Asm(vh::Rng& rr, const M& m) : r(rr), model(m) {}
  // fill a rule over s[i,j)
  void Fill(RuleScore<M>& sc, const W& s, size_t i, size_t j, bool first, int d) {
    while (i < j || r.chance(0.05)) {
      if (i == j || r.chance(d > 4 ? 0.1 : 0.5)) {
        size_t k = i == j ? j : r.chance(0.05) ? i : i + 1 + r.below(j - i);
        ChartState sub; memset(&sub, 0x6b, sizeof sub); sub.left.full = 0;
        float p = Build(s, i, k, sub, d + 1);
        ++nts; shape += ')';
        if (first && r.chance(0.5)) { sc.BeginNonTerminal(sub, p); shape += 'b'; vh::Count("rules begun with a fragment"); }
        else sc.NonTerminal(sub, p);
        if (k == i) vh::Count("empty fragments");
        i = k;
      } else { sc.Terminal(s[i++]); shape += 't'; }
      first = false;
    }
  }
  float Build(const W& s, size_t i, size_t j, ChartState& out, int d) {
    shape += '('; depth = std::max(depth, d);
    RuleScore<M> sc(model, out);
    Fill(sc, s, i, j, true, d);
    return sc.Finish();
  }
};

template <class M> static float Plain(const M& model, const W& s, size_t i, size_t j, ChartState& out) {
  RuleScore<M> sc(model, out);
  for (; i < j; ++i) sc.Terminal(s[i]);
  return sc.Finish();
}

template <class M> static void Run(vh::Rng& r, const lg::Model& m, const std::string& arpa, const char* name, const Config& c, bool rest) {
  std::string key(name);
  auto ctx = [&](const Ids& s, const std::string& x) { return vh::Fmt("%s (%s): sentence '%s': %s; model:\n%s", name, m.suffix_closed ? "closed" : "open", lg::Str(m, s).c_str(), x.c_str(), m.Arpa().substr(0, 1500).c_str()); };
  std::unique_ptr<M> mp;
  try { mp.reset(new M(arpa.c_str(), c)); } catch (const util::ProbingSizeException&) { return; }
  const M& model = *mp;
  std::vector<lm::WordIndex> id; for (auto& w : m.words) id.push_back(model.GetVocabulary().Index(w));
  vh::Count((std::string("models: ") + name).c_str());
  for (int q = 0; q < 5; ++q) {
    Ids s = lg::RandomSentence(r, m, 14, true);
    if (r.chance(0.7)) s.push_back(2);
    W w; for (size_t i = 1; i < s.size(); ++i) w.push_back(id[s[i]]);
    double want = 0, mag = 0;
    for (size_t i = 1; i < s.size(); ++i) { double x = m.Score(Ids(s.begin(), s.begin() + i), s[i]); want += x; mag += 2 * fabs(x); }
    for (int t = 0; t < 4; ++t) {
      Asm<M> a(r, model); ChartState out;
      RuleScore<M> sc(model, out);
      if (r.chance(0.3)) { sc.Terminal(id[3]); sc.Terminal(id[3]); ChartState o2; sc.Reset(); vh::Count("reset scorers"); }   // leftovers must not matter
      sc.BeginSentence();
      a.Fill(sc, w, 0, w.size(), false, 0);
      float got = sc.Finish();
      vh::Count("sentences assembled"); vh::Count("fragments", a.nts); vh::Max("depth", a.depth);
      vh::Distinct("shapes", vh::HashStr(a.shape));
      VCHECK(fabs(got - want) <= TolS(mag), key + ":total", "%s", ctx(s, vh::Fmt("assembled as %s: %.6f, left to right %.6f", a.shape.c_str(), got, want)).c_str());
      // the right state is that of the left-to-right scorer, so continuing gives the same
      typename M::State st = model.BeginSentenceState(), o;
      for (auto x : w) { model.FullScore(st, x, o); st = o; }
      typename M::State o1, o2; int probe = r.below(m.words.size());
      float p1 = model.Score(out.right, id[probe], o1), p2 = model.Score(st, id[probe], o2);
      VCHECK(fabs(p1 - p2) <= TolS(fabs(p2)), key + ":right", "%s", ctx(s, vh::Fmt("assembled as %s: next word scores %.6f instead of %.6f", a.shape.c_str(), p1, p2)).c_str());
    }
    // fragments without a sentence start: same total however bracketed; each word scored in the context seen (no rest costs)
    Ids f = lg::RandomSentence(r, m, 9, false); W fw; for (int x : f) fw.push_back(id[x]);
    double fmag = 0, fwant = 0; for (size_t i = 0; i < f.size(); ++i) { double x = m.Score(Ids(f.begin(), f.begin() + i), f[i]); fwant += x; fmag += 2 * fabs(x); }
    ChartState ps; float plain = Plain(model, fw, 0, fw.size(), ps);
    if (!rest) VCHECK(fabs(plain - fwant) <= TolS(fmag), key + ":fragment", "%s", ctx(f, vh::Fmt("fragment scores %.6f instead of %.6f", plain, fwant)).c_str());
    for (int t = 0; t < 3; ++t) {
      Asm<M> a(r, model); ChartState out; float got = a.Build(fw, 0, fw.size(), out, 0);
      VCHECK(fabs(got - plain) <= TolS(fmag), key + ":fragment-shape", "%s", ctx(f, vh::Fmt("fragment assembled as %s: %.6f, word by word %.6f", a.shape.c_str(), got, plain)).c_str());
    }
    // ---- revealing context to the left and right of a fragment step by step
    if (!f.empty()) {
      size_t i = r.below(f.size() + 1), j = i + r.below(f.size() - i + 1);
      ChartState bs, ms, as;
      float b = Plain(model, fw, 0, i, bs), mid = Plain(model, fw, i, j, ms), a = Plain(model, fw, j, fw.size(), as);
      if (i == 0) bs.left.full = false;
      float got = 0; std::string trace;
      Right before(bs.right); Left after(as.left);
      unsigned char nb = 0, na = 0; bool fb = !bs.left.full, fa = !as.left.full;   // nothing more to reveal beyond the words unless full
      ChartState cur = ms;
      for (int guard = 0; guard < 40; ++guard) {
        bool more_b = nb < bs.right.length || !fb, more_a = na < as.left.length || !fa;
        if (!more_b && !more_a) break;
        if (more_b && (!more_a || r.chance(0.5))) {
          if (nb < bs.right.length) {
            unsigned char to = nb + 1 + (r.chance(0.3) ? r.below(bs.right.length - nb) : 0);
            bool full = to == bs.right.length && !fb && r.chance(0.5);
            before = bs.right; before.length = to;
            got += RevealBefore(model, before, nb, full, cur.left, cur.right); nb = to; if (full) fb = true; trace += full ? 'B' : 'b';
          } else { before = bs.right; got += RevealBefore(model, before, nb, true, cur.left, cur.right); fb = true; trace += 'F'; }
        } else {
          after = as.left;
          if (na < as.left.length) {
            unsigned char to = na + 1 + (r.chance(0.3) ? r.below(as.left.length - na) : 0);
            bool full = to == as.left.length && !fa && r.chance(0.5);
            after.length = to; after.full = full;
            got += RevealAfter(model, cur.left, cur.right, after, na); na = to; if (full) fa = true; trace += full ? 'A' : 'a';
          } else { after.full = true; got += RevealAfter(model, cur.left, cur.right, after, na); fa = true; trace += 'G'; }
        }
      }
      vh::Count("reveal sequences"); vh::Distinct("reveal traces", vh::HashStr(trace));
      VCHECK(fabs(got + b + mid + a - plain) <= 2 * TolS(fmag + 2), key + ":reveal", "%s", ctx(f, vh::Fmt("split at %zu,%zu revealed as %s: %.6f instead of %.6f", i, j, trace.c_str(), got + b + mid + a, plain)).c_str());
    }
  }
  // ---- a short fragment between two others is absorbed (as the incremental search does)
  for (int q = 0; q < 6; ++q) {
    Ids f = lg::RandomSentence(r, m, 10, false); W fw; for (int x : f) fw.push_back(id[x]);
    size_t i = r.below(f.size() + 1), j = std::min(f.size(), i + r.below(m.order));
    bool bos = r.chance(0.3);
    ChartState first, mid, second, whole, tmp; float p1, p2, p3, all;
    { RuleScore<M> s1(model, first), s2(model, whole); if (bos) { s1.BeginSentence(); s2.BeginSentence(); } for (size_t k = 0; k < f.size(); ++k) { if (k < i) s1.Terminal(fw[k]); s2.Terminal(fw[k]); } p1 = s1.Finish(); all = s2.Finish(); }
    p2 = Plain(model, fw, i, j, mid); p3 = Plain(model, fw, j, fw.size(), second);
    if (mid.left.full || mid.left.length != mid.right.length) { vh::Count("middles too long to absorb"); continue; }
    float got = p1 + p2 + p3; std::string tr;
    for (int k = 0, flip = r.below(2); k < 2; ++k, flip ^= 1) {
      unsigned char done = 0;
      while (done < mid.left.length) {
        unsigned char to = done + 1 + r.below(mid.left.length - done);
        if (flip) { Left l(mid.left); l.length = to; l.full = false; got += RevealAfter(model, first.left, first.right, l, done); }
        else { Right rr(mid.right); rr.length = to; got += RevealBefore(model, rr, done, false, second.left, second.right); }
        done = to; tr += flip ? 'a' : 'b';
      }
    }
    got += Subsume(model, first.left, first.right, second.left, second.right, mid.left.length);
    double fmag = 2; for (size_t k = 0; k < f.size(); ++k) fmag += 2 * fabs(m.Score(Ids(f.begin(), f.begin() + k), f[k]));
    vh::Count("fragments absorbed");
    VCHECK(fabs(got - all) <= 2 * TolS(fmag), key + ":subsume", "%s", ctx(f, vh::Fmt("%s%zu..%zu absorbed as %s: %.6f instead of %.6f", bos ? "after <s>, " : "", i, j, tr.c_str(), got, all)).c_str());
    // what is left must behave as the whole
    ChartState joined; joined.left = first.left; joined.right = second.right; joined.ZeroRemaining();
    Ids c1 = lg::RandomSentence(r, m, 4, false), c2 = lg::RandomSentence(r, m, 4, false); float sc[2];
    for (int k = 0; k < 2; ++k) {
      RuleScore<M> s(model, tmp); if (!bos) for (int x : c1) s.Terminal(id[x]);
      s.NonTerminal(k ? joined : whole, 0); for (int x : c2) s.Terminal(id[x]); sc[k] = s.Finish();
    }
    VCHECK(fabs(sc[0] - sc[1]) <= TolS(fabs(sc[0])), key + ":subsume-state", "%s", ctx(f, vh::Fmt("%zu..%zu absorbed as %s: %.6f instead of %.6f between '%s' and '%s'", i, j, tr.c_str(), sc[1], sc[0], lg::Str(m, c1).c_str(), lg::Str(m, c2).c_str())).c_str());
  }
  // ---- equal boundary states score alike in any context
  std::vector<std::pair<ChartState, float> > st; std::vector<Ids> fr; std::vector<W> fw;
  Ids pre = lg::RandomSentence(r, m, 5, false), suf = lg::RandomSentence(r, m, 5, false);
  for (int k = 0; k < 12; ++k) {
    Ids f; if (r.chance(0.8)) f = pre; Ids mid = lg::RandomSentence(r, m, 5, false); f.insert(f.end(), mid.begin(), mid.end()); if (r.chance(0.8)) f.insert(f.end(), suf.begin(), suf.end());
    if (f.empty()) continue;
    W w; for (int x : f) w.push_back(id[x]);
    ChartState s; memset(&s, r.chance(0.5) ? 0xff : 0, sizeof s); s.left.full = false;
    Asm<M> a(r, model); float p = a.Build(w, 0, w.size(), s, 0);
    st.push_back(std::make_pair(s, p)); fr.push_back(f); fw.push_back(w);
  }
  for (size_t a = 0; a < st.size(); ++a) for (size_t b = a + 1; b < st.size(); ++b) {
    bool eq = st[a].first == st[b].first;
    int cmp = st[a].first.Compare(st[b].first);
    VCHECK(eq == (cmp == 0) && (cmp < 0) == (st[b].first.Compare(st[a].first) > 0) && (st[a].first < st[b].first) == (cmp < 0), key + ":compare", "%s", ctx(fr[a], "state comparison is inconsistent with '" + lg::Str(m, fr[b]) + "'").c_str());
    if (!eq) continue;
    VCHECK(hash_value(st[a].first) == hash_value(st[b].first) || st[a].first.left.length == 0, key + ":hash", "%s", ctx(fr[a], "equal states hash differently").c_str());
    vh::Count("equal state pairs");
    for (int t = 0; t < 4; ++t) {
      bool bos = r.chance(0.4);
      Ids c1 = lg::RandomSentence(r, m, 4, false), c2 = lg::RandomSentence(r, m, 4, false);
      float got[2];
      for (int k = 0; k < 2; ++k) {
        ChartState o; RuleScore<M> sc(model, o); if (bos) sc.BeginSentence();
        for (int x : c1) sc.Terminal(id[x]);
        sc.NonTerminal(k ? st[b].first : st[a].first, 0);
        for (int x : c2) sc.Terminal(id[x]);
        got[k] = sc.Finish();
      }
      VCHECK(fabs(got[0] - got[1]) <= TolS(fabs(got[0])), key + ":equal-states", "%s", ctx(fr[a], vh::Fmt("and '%s' have equal states but cost %.6f and %.6f between '%s' and '%s'", lg::Str(m, fr[b]).c_str(), got[0], got[1], lg::Str(m, c1).c_str(), lg::Str(m, c2).c_str())).c_str());
    }
  }
}

int main(int argc, char** argv) {
  return vh::Main(argc, argv, [](vh::Rng& r, long c) {
    lg::Opt o; o.proper_backoff = true; if (r.chance(0.5)) { o.max_words = 4; o.density = 0.95; }
    lg::Model m = lg::Random(r, o);
    if (m.order < 2) return;
    std::string arpa = vh::S().dir + "/m.arpa", tmp = vh::S().dir + "/t";
    if (!m.unk_listed) m.unk_logprob = -r.real(1, 20);
    lg::WriteFile(arpa, m.Arpa());
    vh::Distinct("nontrivial", vh::HashStr(m.Arpa()));
    Config base = lg::Quiet(m, tmp);
    base.pointer_bhiksha_bits = r.pick(std::vector<int>{0, 1, 3, 8, 22});
    Run<ProbingModel>(r, m, arpa, "probing", base, false);
    Run<RestProbingModel>(r, m, arpa, "rest-max", base, true);
    switch (c % 4) {
      case 0: Run<TrieModel>(r, m, arpa, "trie", base, false); break;
      case 1: Run<ArrayTrieModel>(r, m, arpa, "array-trie", base, false); break;
      default: if (!m.suffix_closed) break; base.prob_bits = base.backoff_bits = 10;
        if (c % 4 == 2) Run<QuantTrieModel>(r, m, arpa, "quant-trie", base, false); else Run<QuantArrayTrieModel>(r, m, arpa, "quant-array-trie", base, false);
    }
    if (c % 97 == 0) vh::Sample(vh::Fmt("order %d, %zu n-grams, %s", m.order, m.grams.size(), m.suffix_closed ? "suffix-closed" : "open"));
  });
}
