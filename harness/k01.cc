// K01: every in-memory structure agrees with the backoff definition evaluated over the ARPA entries.
#include "lmgen.h"
#include <memory>
#include <functional>
using namespace lm::ngram;
using lg::Ids;
static std::string Replay(const char* what, const lg::Model& m, const std::string& extra) {
  std::string f = vh::Fmt("%s/model.arpa", vh::S().dir.c_str());
  return vh::Fmt("%s: %s; model:\n%s", what, extra.c_str(), m.Arpa().substr(0, 1500).c_str());
}
static double Tol(double x) { return 2e-5 * (1 + fabs(x)); }

struct Mode { bool quant = false, exact = true; bool restmax = false, restlower = false; const std::vector<std::map<Ids, float> >* dummy = 0; };

// Two states that may differ in representation (models with missing lower orders) but must score alike.
template <class M> static bool Alike(vh::Rng& r, const lg::Model& m, const M& model, const std::vector<lm::WordIndex>& id, typename M::State a, typename M::State b) {
  if (a == b) return true;
  if (m.suffix_closed) return false;
  for (int t = 0; t < 6; ++t) {
    typename M::State x = a, y = b, o;
    for (int k = 0; k < m.order; ++k) {
      int w = r.below(m.words.size());
      double p = model.Score(x, id[w], o); x = o;
      double q = model.Score(y, id[w], o); y = o;
      if (fabs(p - q) > Tol(p)) return false;
    }
  }
  vh::Count("states alike but not equal (missing lower orders)");
  return true;
}
template <class M> static void Query(vh::Rng& r, const lg::Model& m, const M& model, const char* name, const Mode& mode, const std::vector<std::pair<float,float> >& range, const lg::Vocab& ev,
                                     const std::function<double(const Ids&)>& rest_lower) {
  typedef typename M::State State;
  const typename M::Vocabulary& v = model.GetVocabulary();
  std::string key(name);
  VCHECK(model.Order() == m.order, key + ":order", "%d vs %d", (int)model.Order(), m.order);
  // vocabulary
  std::vector<lm::WordIndex> id(m.words.size());
  std::set<lm::WordIndex> seen;
  for (size_t i = 0; i < m.words.size(); ++i) {
    id[i] = v.Index(m.words[i]);
    VCHECK((i == 0) == (id[i] == 0), key + ":vocab", "word '%s' has index %u", m.words[i].c_str(), id[i]);
    VCHECK(seen.insert(id[i]).second, key + ":vocabdup", "index %u twice", id[i]);
    VCHECK(id[i] < ev.seen.size() && ev.seen[id[i]] == m.words[i], key + ":enumerate", "enumerated word of index %u is not '%s'", id[i], m.words[i].c_str());
  }
  VCHECK(ev.ordered && ev.seen.size() == m.words.size(), key + ":enumcount", "%zu words enumerated, %zu listed", ev.seen.size(), m.words.size());
  VCHECK(v.Index("no-such-word") == 0 && v.NotFound() == 0 && v.BeginSentence() == id[1] && v.EndSentence() == id[2], key + ":specials", "special words");
  VCHECK(v.Bound() == m.words.size(), key + ":bound", "bound %u for %zu words", (unsigned)v.Bound(), m.words.size());
  auto lo = [&](int n) { return range[n].first; };
  int nsent = 6;
  std::map<Ids, State> by_relevant;
  for (int q = 0; q < nsent; ++q) {
    bool bos = r.chance(0.5);
    Ids s = lg::RandomSentence(r, m, 10, bos), h;
    State st, out;
    if (bos) { st = model.BeginSentenceState(); h.push_back(1); }
    else st = model.NullContextState();
    if (!bos && r.chance(0.3)) {                         // start from a state made from a context
      Ids c = lg::RandomSentence(r, m, 6, r.chance(0.3));
      std::vector<lm::WordIndex> rc; for (int i = (int)c.size() - 1; i >= 0; --i) rc.push_back(id[c[i]]);
      rc.push_back(0);
      memset(&st, 0x5a, sizeof st);
      model.GetState(&rc[0], &rc[0] + c.size(), st);
      h = c;
      vh::Count("getstate");
      if (!mode.quant && m.suffix_closed && (h.empty() || h.back() != 0 || m.unk_listed)) VCHECK((int)st.length == m.Relevant(h), key + ":getstate-length", "%s", Replay("GetState", m, vh::Fmt("history '%s' state length %d expected %d", lg::Str(m, h).c_str(), st.length, m.Relevant(h))).c_str());
    }
    for (size_t i = bos ? 1 : 0; i < s.size(); ++i) {
      int w = s[i];
      memset(&out, 0x77, sizeof out);
      lm::FullScoreReturn ret = model.FullScore(st, id[w], out);
      int len; double nb, want = m.Score(h, w, &len, &nb);
      vh::Count("scores"); vh::Max("matched order", len);
      if (len > 2) vh::Count("long matches");
      if (w == 0) vh::Count("unknown words scored");
      std::string where = vh::Fmt("history '%s' word '%s' got %.6f (length %d) expected %.6f (length %d)", lg::Str(m, h).c_str(), m.words[w].c_str(), ret.prob, ret.ngram_length, want, len);
      if (mode.exact) {
        VCHECK(fabs(ret.prob - want) <= Tol(want), key + ":prob", "%s", Replay(name, m, where).c_str());
      } else {
        // quantised: the matched entry's value stays within the values of its order
        double a = want - nb + (len > 1 ? range[len].first : nb), b = want - nb + (len > 1 ? range[len].second : nb);
        double slackA = 0, slackB = 0;
        int mm = std::min<int>(m.order - 1, h.size());
        for (int k = std::max(2, len); k <= mm; ++k) { Ids g(h.end() - k, h.end()); auto it = m.grams.find(g); if (it != m.grams.end() && it->second.bo != 0) { a -= it->second.bo; b -= it->second.bo; slackA += range[k + 10].first; slackB += range[k + 10].second; } }
        VCHECK(ret.prob >= a + slackA - Tol(a) && ret.prob <= b + slackB + Tol(b), key + ":quantprob", "%s allowed [%g,%g]", Replay(name, m, where).c_str(), a + slackA, b + slackB);
      }
      if (m.suffix_closed) VCHECK(ret.ngram_length == len, key + ":length", "%s", Replay(name, m, where).c_str());
      // the virtual interface is the same function
      State vout; memset(&vout, 0x11, sizeof vout);
      const lm::base::Model& base = model;
      VCHECK(base.BaseScore(&st, id[w], &vout) == ret.prob && vout == out, key + ":virtual", "%s", Replay(name, m, where).c_str());
      Ids h2 = h; h2.push_back(w);
      if (!mode.quant) {
        int rel = m.Relevant(h2);
        int hi = m.suffix_closed ? rel : m.RelevantOpen(h2);
        if (w == 0 && !m.unk_listed) { h = h2; st = out; continue; }   // an unlisted <unk> is kept in the state (documented in DESIGN.md)
        VCHECK((int)out.length >= rel && (int)out.length <= hi, key + ":state-length", "%s; state length %d expected %d", Replay(name, m, where).c_str(), out.length, rel);
        for (int k = 0; k < out.length; ++k) VCHECK(out.words[k] == id[h2[h2.size() - 1 - k]], key + ":state-words", "%s", Replay(name, m, where).c_str());
        Ids rk(h2.end() - std::min<size_t>(out.length, h2.size()), h2.end());
        auto it = by_relevant.find(rk);
        if (it != by_relevant.end()) {
          vh::Count("state pairs");
          VCHECK(it->second == out && it->second.Compare(out) == 0 && !(it->second < out) && !(out < it->second) && hash_value(it->second) == hash_value(out), key + ":state-equal", "%s", Replay(name, m, where).c_str());
          int probe = r.below(m.words.size()); State a2, b2;
          VCHECK(model.Score(it->second, id[probe], a2) == model.Score(out, id[probe], b2) && a2 == b2, key + ":state-score", "%s", Replay(name, m, where).c_str());
        } else {
          for (auto& o : by_relevant) { VCHECK(!(o.second == out) && o.second.Compare(out) != 0, key + ":state-distinct", "%s", Replay(name, m, where).c_str()); VCHECK((o.second < out) != (out < o.second), key + ":state-order", "%s", Replay(name, m, where).c_str()); }
          by_relevant[rk] = out;
        }
      }
      {  // scoring without a state: full (or over-long) reversed history
        std::vector<lm::WordIndex> rc; for (int k = (int)h.size() - 1; k >= 0; --k) rc.push_back(id[h[k]]);
        rc.push_back(0);
        State fo; memset(&fo, 0x33, sizeof fo);
        lm::FullScoreReturn f = model.FullScoreForgotState(&rc[0], &rc[0] + h.size(), id[w], fo);
        VCHECK(fabs(f.prob - ret.prob) <= Tol(ret.prob), key + ":forgot", "FullScoreForgotState %.6f; %s", f.prob, Replay(name, m, where).c_str());
        VCHECK(Alike(r, m, model, id, fo, out), key + ":forgot-state", "%s", Replay(name, m, where).c_str());
        State gs; memset(&gs, 0x22, sizeof gs);
        Ids hh = h2; std::vector<lm::WordIndex> rc2; for (int k = (int)hh.size() - 1; k >= 0; --k) rc2.push_back(id[hh[k]]);
        model.GetState(&rc2[0], &rc2[0] + hh.size(), gs);
        VCHECK(Alike(r, m, model, id, gs, out), key + ":getstate", "%s", Replay(name, m, where).c_str());
        if (gs == out) for (int k = 0; k < gs.length; ++k) VCHECK(gs.backoff[k] == out.backoff[k], key + ":getstate-backoff", "%s", Replay(name, m, where).c_str());
      }
      // left-extension information
      if (ret.independent_left && len < m.order && mode.exact) {
        // no listed n-gram extends the matched words to the left
        Ids g(h.end() - (len - 1), h.end()); g.push_back(w);
        if (m.suffix_closed) for (auto& e : m.grams) if (e.first.size() == g.size() + 1 && std::equal(g.begin(), g.end(), e.first.begin() + 1)) { VCHECK((int)h.size() + 1 > len, key + ":independent", "claims independence of the left but '%s' is listed; %s", lg::Str(m, e.first).c_str(), Replay(name, m, where).c_str()); break; }
      }
      if (m.suffix_closed && mode.restmax) {
        Ids g(h.end() - (len - 1), h.end()); g.push_back(w);
        double best = -1e30;
        for (auto& e : m.grams) if (e.first.size() >= g.size() && std::equal(g.begin(), g.end(), e.first.end() - g.size())) best = std::max<double>(best, e.second.prob);
        if (best < -1e29) best = nb;
        VCHECK(fabs(ret.rest - best) <= Tol(best), key + ":rest", "rest %.6f expected %.6f; %s", ret.rest, best, Replay(name, m, where).c_str());
      } else if (mode.restlower && m.suffix_closed) {
        Ids g(h.end() - (len - 1), h.end()); g.push_back(w);
        double want_rest = len == m.order ? nb : rest_lower(g);
        VCHECK(fabs(ret.rest - want_rest) <= Tol(want_rest), key + ":restlower", "rest %.6f expected %.6f; %s", ret.rest, want_rest, Replay(name, m, where).c_str());
      } else if (mode.exact && !mode.restmax && !mode.restlower) VCHECK(fabs(ret.rest - nb) <= Tol(nb) || !m.suffix_closed, key + ":rest-plain", "rest %.6f expected %.6f; %s", ret.rest, nb, Replay(name, m, where).c_str());
      h = h2; st = out;
    }
  }
}

static std::string g_tmp;
template <class M> static void Run(vh::Rng& r, const lg::Model& m, const std::string& arpa, const char* name, Config c, Mode mode, const std::vector<std::pair<float,float> >& range,
                                   const std::function<double(const Ids&)>& rl = std::function<double(const Ids&)>()) {
  lg::Vocab ev; c.enumerate_vocab = &ev;
  try {
    if (r.chance(0.3)) {
      ModelType t = M::kModelType;
      std::unique_ptr<lm::base::Model> p(lm::ngram::LoadVirtual(arpa.c_str(), c, t));
      M* q = dynamic_cast<M*>(p.get());
      VCHECK(q, std::string(name) + ":loadvirtual", "LoadVirtual made another type");
      if (q) Query(r, m, *q, name, mode, range, ev, rl);
    } else { M model(arpa.c_str(), c); Query(r, m, model, name, mode, range, ev, rl); }
    vh::Count((std::string("loaded ") + name).c_str());
  } catch (const util::ProbingSizeException& e) {
    VCHECK(!m.suffix_closed, std::string(name) + ":probing", "%s", e.what());
    vh::Count("too many blanks for the probing table");
  } catch (const std::exception& e) {
    vh::Viol(std::string(name) + ":load", Replay(name, m, std::string("rejected: ") + e.what()));
  }
}

int main(int argc, char** argv) {
  return vh::Main(argc, argv, [](vh::Rng& r, long c) {
    lg::Model m = lg::Random(r);
    if (m.order < 2) return;
    std::string arpa = vh::S().dir + "/m.arpa"; g_tmp = vh::S().dir + "/t";
    if (r.chance(0.3)) m.unk_logprob = -r.real(0, 20);
    lg::WriteFile(arpa, m.Arpa());
    std::vector<int> cnt = m.ordered_count();
    vh::Distinct("nontrivial", vh::HashStr(m.Arpa()));
    vh::Count(m.suffix_closed ? "suffix-closed models" : "models with missing lower orders");
    vh::Count(vh::Fmt("order %d models", m.order).c_str());
    // value range per order; +10: backoffs
    std::vector<std::pair<float,float> > range(20, std::make_pair(1e30f, -1e30f));
    for (auto& g : m.grams) {
      auto& p = range[g.first.size()]; p.first = std::min(p.first, g.second.prob); p.second = std::max(p.second, g.second.prob);
      if (g.second.bo != 0) { auto& b = range[g.first.size() + 10]; b.first = std::min(b.first, g.second.bo); b.second = std::max(b.second, g.second.bo); }
    }
    Config base = lg::Quiet(m, g_tmp);
    base.pointer_bhiksha_bits = r.pick(std::vector<int>{0, 1, 2, 3, 5, 8, 22, 64});
    if (m.suffix_closed) base.probing_multiplier = r.pick(std::vector<float>{1.01f, 1.2f, 1.5f, 4.0f});
    Mode mode;
    Run<ProbingModel>(r, m, arpa, "probing", base, mode, range);
    Mode rm = mode; rm.restmax = true;
    Run<RestProbingModel>(r, m, arpa, "rest-max", base, rm, range);
    Run<TrieModel>(r, m, arpa, "trie", base, mode, range);
    Run<ArrayTrieModel>(r, m, arpa, "array-trie", base, mode, range);
    if (m.order > 2 || true) {
      Config q = base; Mode qm = mode; qm.quant = true;
      q.prob_bits = r.range(2, 10); q.backoff_bits = r.range(2, 10);
      int maxn = 0; for (int n = 2; n <= m.order; ++n) maxn = std::max(maxn, cnt[n - 1]);
      qm.exact = m.suffix_closed && maxn <= (1 << q.prob_bits) && maxn <= (1 << q.backoff_bits) - 2;
      vh::Count(qm.exact ? "quantised with a bin per value" : "quantised with shared bins");
      if (qm.exact || m.suffix_closed) {
        Run<QuantTrieModel>(r, m, arpa, "quant-trie", q, qm, range);
        Run<QuantArrayTrieModel>(r, m, arpa, "quant-array-trie", q, qm, range);
      }
    }
    if (r.chance(0.4) && m.unk_listed) {
      // lower-order rest costs: independent models over the same words
      Config rl = base; rl.rest_function = Config::REST_LOWER;
      std::vector<lg::Model> low(m.order);
      bool ok = true;
      for (int n = 1; n < m.order && ok; ++n) {
        // entries of orders 1..n drawn afresh over the n-grams of m
        lg::Model& l = low[n]; l = m; l.order = n; l.grams.clear(); l.listing.clear(); l.contexts.clear(); l.preamble = l.trailer = "";
        l.listing.resize(n);
        for (int k = 1; k <= n; ++k) for (const Ids& g : m.listing[k - 1]) {
          lg::Entry e; lg::Num(r, -r.real(0.01, 5), e.ptxt, e.prob);
          if (k < n) { e.hasbo = true; lg::Num(r, -r.real(0.01, 2), e.btxt, e.bo); }
          l.grams[g] = e; l.listing[k - 1].push_back(g);
        }
        std::string fn = vh::S().dir + vh::Fmt("/low%d.arpa", n);
        lg::WriteFile(fn, l.Arpa()); rl.rest_lower_files.push_back(fn);
      }
      Mode lmode = mode; lmode.restlower = true;
      // the lower models must number the words as the main one does (same listing order of unigrams): ensured by construction
      Run<RestProbingModel>(r, m, arpa, "rest-lower", rl, lmode, range, [&](const Ids& g) { const lg::Model& l = low[g.size()]; return l.Score(Ids(g.begin(), g.end() - 1), g.back()); });
    }
    if (c % 97 == 0) vh::Sample(vh::Fmt("order %d, %zu words, %zu n-grams, %s, all structures queried", m.order, m.words.size(), m.grams.size(), m.suffix_closed ? "suffix-closed" : "with missing lower orders"));
  });
}
