// Random backoff n-gram models (ARPA text) with a reference scorer that applies the definition to the entries.
#ifndef LMGEN_H_
#define LMGEN_H_
#include "vh.h"
#include "lm/model.hh"
#include "lm/config.hh"
#include "lm/enumerate_vocab.hh"
#include "lm/lm_exception.hh"
#include "util/exception.hh"
#include <cmath>
namespace lg {
typedef std::vector<int> Ids;
struct Entry { float prob = 0, bo = 0; std::string ptxt, btxt; bool hasbo = false; };
struct Model {
  int order = 2;
  std::vector<std::string> words;      // own ids: 0 <unk>, 1 <s>, 2 </s>, 3.. ordinary
  bool unk_listed = true, suffix_closed = true;
  float unk_logprob = -100;
  std::map<Ids, Entry> grams;          // word order as in text
  std::set<Ids> contexts;              // n-grams that are a proper prefix of a listed one
  std::vector<int> ordered_count() const { std::vector<int> c(order, 0); for (auto& g : grams) c[g.first.size() - 1]++; return c; }
  bool Has(const Ids& g) const { return grams.count(g) > 0; }
  // h: full history, oldest first
  double Score(const Ids& h, int w, int* len = 0, double* noback = 0) const {
    int m = std::min<int>(order - 1, h.size()), l = m;
    double p = 0; bool found = false;
    for (; l >= 0; --l) {
      Ids g(h.end() - l, h.end()); g.push_back(w);
      auto it = grams.find(g);
      if (it != grams.end()) { p = it->second.prob; found = true; break; }
    }
    if (!found) { l = 0; p = Uni(w); }
    if (len) *len = l + 1;
    if (noback) *noback = p;
    for (int k = l + 1; k <= m; ++k) { auto it = grams.find(Ids(h.end() - k, h.end())); if (it != grams.end()) p += it->second.bo; }
    return p;
  }
  double Uni(int w) const { auto it = grams.find(Ids(1, w)); return it == grams.end() ? unk_logprob : it->second.prob; }
  // Longest suffix of the history that can influence what follows.
  int Relevant(const Ids& h) const {
    for (int k = std::min<int>(order - 1, h.size()); k >= 1; --k) {
      Ids g(h.end() - k, h.end());
      auto it = grams.find(g);
      if (contexts.count(g) || (it != grams.end() && it->second.bo != 0)) return k;
    }
    return 0;
  }
  // Same when every missing suffix counts as listed (the loaders fill those in).
  int RelevantOpen(const Ids& h) const {
    for (int k = std::min<int>(order - 1, h.size()); k >= 1; --k) {
      Ids g(h.end() - k, h.end());
      auto it = grams.find(g);
      if (open_contexts.count(g) || contexts.count(g) || (it != grams.end() && it->second.bo != 0)) return k;
    }
    return 0;
  }
  std::set<Ids> open_contexts;
  std::string Arpa() const {
    std::ostringstream o;
    std::vector<int> c = ordered_count();
    o << preamble << "\\data\\\n";
    for (int n = 1; n <= order; ++n) o << "ngram " << n << "=" << c[n - 1] << "\n";
    for (int n = 1; n <= order; ++n) {
      o << "\n\\" << n << "-grams:\n";
      for (const Ids& g : listing[n - 1]) {
        const Entry& e = grams.at(g);
        o << e.ptxt << "\t";
        for (size_t i = 0; i < g.size(); ++i) o << (i ? " " : "") << words[g[i]];
        if (e.hasbo) o << "\t" << e.btxt;
        o << "\n";
      }
    }
    o << "\n\\end\\\n" << trailer;
    return o.str();
  }
  std::string preamble, trailer;
  std::vector<std::vector<Ids> > listing;
};
struct Opt { int max_order = 6, max_words = 10; bool allow_open = true; double density = -1; int min_order = 2; bool allow_positive_bo = true; bool proper_backoff = false; int min_words = 2; int long_words = 0; };

inline std::string WordName(vh::Rng& r, std::set<std::string>& used, int longw = 0) {
  static const char* odd[] = {"\xc3\xa9", "\xe4\xb8\xad", "-", ",", "|||", "<s", "\\data\\", "1", "-1.5", "\"", "%", "a<b>", "\\1-grams:", "ngram"};
  for (;;) {
    std::string s;
    if (r.chance(0.2)) s = odd[r.below(sizeof(odd) / sizeof(*odd))];
    else { int n = longw ? r.range(1, longw) : r.chance(0.05) ? r.range(20, 200) : r.range(1, 6); for (int i = 0; i < n; ++i) s += char('a' + r.below(4)); }
    if (s == "unk") continue;
    if (used.insert(s).second) return s;
  }
}
inline void Num(vh::Rng& r, double v, std::string& txt, float& val) {
  switch (r.below(5)) {
    case 0: txt = vh::Fmt("%.3f", v); break;
    case 1: txt = vh::Fmt("%.7g", v); break;
    case 2: txt = vh::Fmt("%g", v); break;
    case 3: txt = vh::Fmt("%.1f", v); break;
    default: txt = vh::Fmt("%.7f", v);
  }
  val = strtof(txt.c_str(), 0);
}
inline Model Random(vh::Rng& r, const Opt& o = Opt()) {
  Model m;
  m.order = r.range(o.min_order, o.max_order);
  int nw = r.range(o.min_words, o.max_words);
  m.words = {"<unk>", "<s>", "</s>"};
  std::set<std::string> used;
  for (int i = 0; i < nw; ++i) m.words.push_back(WordName(r, used, o.long_words));
  m.unk_listed = !r.chance(0.3);
  m.suffix_closed = !(o.allow_open && r.chance(0.35));
  double density = o.density > 0 ? o.density : r.real(0.2, 0.95);
  double zerobo = r.pick(std::vector<double>{0.0, 0.3, 0.9});
  bool posbo = o.allow_positive_bo && m.suffix_closed && r.chance(0.3);
  std::vector<std::vector<Ids> > lev(m.order);
  auto entry = [&](const Ids& g, int n) {
    Entry e;
    double v = r.chance(0.03) ? 0.0 : r.chance(0.03) ? -99 : -r.real(0.001, 6);
    if (n == 1 && g[0] == 1) v = r.chance(0.7) ? -99 : v;
    Num(r, v, e.ptxt, e.prob);
    if (e.prob == 0 && r.chance(0.5)) e.ptxt = r.chance(0.5) ? "-0" : "0";
    if (n < m.order) {
      e.hasbo = !r.chance(0.25);
      if (e.hasbo) {
        if (r.chance(zerobo)) { e.btxt = r.pick(std::vector<std::string>{"0", "-0", "0.0", "-0.000"}); e.bo = 0; }
        else Num(r, posbo && r.chance(0.3) ? r.real(0.001, 1) : -r.real(0.001, 3), e.btxt, e.bo);
      }
    }
    m.grams[g] = e;
    lev[n - 1].push_back(g);
  };
  for (int w = m.unk_listed ? 0 : 1; w < (int)m.words.size(); ++w) entry(Ids(1, w), 1);
  int cap = r.pick(std::vector<int>{6, 20, 60, 150});
  for (int n = 2; n <= m.order; ++n) {
    std::vector<Ids> cand;
    for (const Ids& c : lev[n - 2]) {
      if (nw > 200 && !r.chance(20.0 / nw)) continue;
      if (c.back() == 2) continue;                        // nothing follows </s>
      for (int w = m.unk_listed ? 0 : 2; w < (int)m.words.size(); ++w) {
        if (w == 1) continue;                             // <s> only starts
        Ids g = c; g.push_back(w);
        if (m.suffix_closed && !m.grams.count(Ids(g.begin() + 1, g.end()))) continue;
        cand.push_back(g);
      }
    }
    r.shuffle(cand);
    int take = 0;
    for (const Ids& g : cand) { if (take >= cap) break; if (take && !r.chance(density)) continue; entry(g, n); ++take; }
    if (lev[n - 1].empty()) { m.order = n - 1; break; }
  }
  lev.resize(m.order);
  // an order that ends up as the highest has no backoff
  for (const Ids& g : lev[m.order - 1]) { Entry& e = m.grams[g]; e.hasbo = false; e.bo = 0; e.btxt.clear(); if (r.chance(0.1)) { e.hasbo = true; e.btxt = "0"; } }
  for (auto& g : m.grams) if (g.first.size() > 1) m.contexts.insert(Ids(g.first.begin(), g.first.end() - 1));
  if (o.proper_backoff) for (auto& g : m.grams) if (!m.contexts.count(g.first) && g.second.bo != 0) { g.second.bo = 0; g.second.btxt = "0"; }
  for (auto& g : m.grams) for (size_t i = 1; i + 1 < g.first.size(); ++i) m.open_contexts.insert(Ids(g.first.begin() + i, g.first.end() - 1));
  if (!m.suffix_closed) {
    bool open = false;
    for (auto& g : m.grams) if (g.first.size() > 1 && !m.grams.count(Ids(g.first.begin() + 1, g.first.end()))) open = true;
    m.suffix_closed = !open;
  }
  for (auto& l : lev) if (r.chance(0.7)) r.shuffle(l);
  m.listing = lev;
  if (r.chance(0.2)) m.preamble = r.pick(std::vector<std::string>{"\n", "# comment\n\n", "\n\n"});
  if (r.chance(0.2)) m.trailer = "\n";
  return m;
}
inline void WriteFile(const std::string& fn, const std::string& s) { FILE* f = fopen(fn.c_str(), "wb"); if (s.size()) fwrite(s.data(), 1, s.size(), f); fclose(f); }
inline std::string ReadAll(const std::string& fn) { std::ifstream i(fn.c_str(), std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }

struct Vocab : public lm::EnumerateVocab {
  std::vector<std::string> seen; bool ordered = true;
  void Add(lm::WordIndex i, const StringPiece& s) { if (i != seen.size()) ordered = false; seen.push_back(std::string(s.data(), s.size())); }
};
inline lm::ngram::Config Quiet(const Model& m, const std::string& tmp) {
  lm::ngram::Config c;
  c.messages = NULL; c.show_progress = false; c.arpa_complain = lm::ngram::Config::NONE;
  c.unknown_missing = lm::SILENT; c.unknown_missing_logprob = m.unk_logprob;
  c.building_memory = 1 << 20;
  c.temporary_directory_prefix = tmp.c_str();
  c.probing_multiplier = m.suffix_closed ? 1.5 : 30;
  return c;
}
inline std::string Str(const Model& m, const Ids& v) { std::string s; for (int w : v) s += (s.empty() ? "" : " ") + (w < (int)m.words.size() ? m.words[w] : std::string("(OOV)")); return s; }
inline Ids RandomSentence(vh::Rng& r, const Model& m, int maxlen, bool bos) {
  // half guided by listed n-grams so that long matches happen
  Ids s; if (bos) s.push_back(1);
  int n = r.range(0, maxlen);
  while ((int)s.size() < n + (bos ? 1 : 0)) {
    if (r.chance(0.6)) {
      const std::vector<Ids>& l = m.listing[r.below(m.order)];
      const Ids& g = r.pick(l);
      for (int w : g) if (w != 1) s.push_back(w == 2 && r.chance(0.8) ? 3 : w);
    } else s.push_back(r.chance(0.08) ? 0 : r.range(2 + (r.chance(0.9) ? 1 : 0), m.words.size() - 1));
  }
  s.resize(n + (bos ? 1 : 0));
  return s;
}
}  // namespace lg
#endif
