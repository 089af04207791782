// K02: a binary image scores exactly as the structure built from the text; damaged or mismatched images are refused.
#include "lmgen.h"
#include "lm/binary_format.hh"
#include <memory>
#include <functional>
#include <sys/wait.h>
using namespace lm::ngram;
using lg::Ids;

struct Probe { std::vector<std::vector<std::string> > sents; };
template <class M> static std::vector<float> Scores(const M& model, const Probe& p, std::string* states) {
  std::vector<float> out;
  for (auto& s : p.sents) {
    typename M::State a = s[0] == "<s>" ? model.BeginSentenceState() : model.NullContextState(), b;
    for (size_t i = s[0] == "<s>" ? 1 : 0; i < s.size(); ++i) {
      lm::FullScoreReturn r = model.FullScore(a, model.GetVocabulary().Index(s[i]), b);
      out.push_back(r.prob); out.push_back(r.rest); out.push_back(r.ngram_length); out.push_back(r.independent_left);
      out.push_back(b.length); for (int k = 0; k < b.length; ++k) { out.push_back(b.words[k]); out.push_back(b.backoff[k]); }
      a = b;
    }
  }
  return out;
}
// 0: loaded, 1: refused with an exception, else crashed
template <class F> static int Child(F f, std::string* why = 0) {
  fflush(stdout); fflush(stderr);
  std::string log = vh::S().dir + "/child.log";
  pid_t p = fork();
  if (!p) {
    int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 2); dup2(fd, 1);
    int rc = 7;
    try { f(); rc = 0; } catch (const std::exception& e) { fprintf(stderr, "%s\n", e.what()); rc = 1; } catch (...) { rc = 3; }
    fflush(stderr); _exit(rc);
  }
  int st = 0; waitpid(p, &st, 0);
  if (why) *why = lg::ReadAll(log).substr(0, 600);
  return WIFEXITED(st) ? WEXITSTATUS(st) : 100 + WTERMSIG(st);
}
template <class M> struct Name {};
static const util::LoadMethod kLoads[] = {util::LAZY, util::POPULATE_OR_LAZY, util::POPULATE_OR_READ, util::READ};

template <class M> static void Run(vh::Rng& r, const lg::Model& m, const std::string& arpa, const char* name, Config c, const Probe& p) {
  std::string key(name), bin = vh::S().dir + "/m.bin";
  auto ctx = [&](const std::string& x) { return std::string(name) + ": " + x + "; model:\n" + m.Arpa().substr(0, 1200); };
  lg::Vocab plain; c.enumerate_vocab = &plain;
  std::vector<float> want, got;
  try { M model(arpa.c_str(), c); want = Scores(model, p, 0); }
  catch (const util::ProbingSizeException&) { vh::Count("too many blanks"); return; }
  catch (const std::exception& e) { vh::Viol(key + ":arpa", ctx(e.what())); return; }
  bool vocab = !r.chance(0.25);
  Config w = c; w.write_mmap = bin.c_str(); w.include_vocab = vocab;
  w.write_method = r.chance(0.5) ? Config::WRITE_MMAP : Config::WRITE_AFTER;
  lg::Vocab wv; bool wenum = r.chance(0.6); w.enumerate_vocab = wenum ? &wv : NULL;
  vh::Count(w.write_method == Config::WRITE_MMAP ? "written through a mapping" : "written afterwards");
  if (r.chance(0.3)) lg::WriteFile(bin, std::string(r.below(20000), 'x'));   // an older, longer file is there
  try {
    M model(arpa.c_str(), w);
    got = Scores(model, p, 0);
    VCHECK(got == want, key + ":writing", "%s", ctx("scores differ while writing the binary").c_str());
    if (wenum) VCHECK(wv.seen == plain.seen && wv.ordered, key + ":writing-vocab", "%s", ctx("vocabulary differs while writing the binary").c_str());
  } catch (const std::exception& e) { vh::Viol(key + ":write", ctx(std::string("writing: ") + e.what())); return; }
  ModelType t = PROBING;
  VCHECK(RecognizeBinary(bin.c_str(), t) && t == M::kModelType, key + ":recognize", "%s", ctx("not recognised").c_str());
  VCHECK(!RecognizeBinary(arpa.c_str(), t), key + ":recognize-arpa", "the text file is taken for a binary");
  Config l = lg::Quiet(m, c.temporary_directory_prefix);
  // none of the build options may matter when reading
  l.probing_multiplier = r.pick(std::vector<float>{1.1f, 1.5f, 9.0f}); l.prob_bits = r.range(2, 10); l.backoff_bits = r.range(2, 10); l.pointer_bhiksha_bits = r.range(0, 30);
  for (util::LoadMethod lm : kLoads) {
    l.load_method = lm; lg::Vocab ev; l.enumerate_vocab = vocab ? &ev : NULL;
    try {
      std::unique_ptr<lm::base::Model> vp; std::unique_ptr<M> direct; const M* model;
      if (r.chance(0.5)) { direct.reset(new M(bin.c_str(), l)); model = direct.get(); }
      else { vp.reset(LoadVirtual(bin.c_str(), l, r.chance(0.5) ? PROBING : TRIE)); model = dynamic_cast<M*>(vp.get()); if (!model) { vh::Viol(key + ":loadvirtual", ctx("another type")); continue; } }
      got = Scores(*model, p, 0);
      vh::Count("binary loads compared"); vh::Count("scores compared", want.size());
      VCHECK(got == want, key + ":scores", "%s", ctx(vh::Fmt("load method %d: scores differ", (int)lm)).c_str());
      VCHECK(model->Order() == m.order, key + ":order", "order %d", (int)model->Order());
      if (vocab) VCHECK(ev.seen == plain.seen && ev.ordered, key + ":vocab", "%s", ctx(vh::Fmt("%zu words instead of %zu", ev.seen.size(), plain.seen.size())).c_str());
      VCHECK(model->GetVocabulary().Bound() == m.words.size(), key + ":bound", "bound %u", (unsigned)model->GetVocabulary().Bound());
    } catch (const std::exception& e) { vh::Viol(key + ":load", ctx(vh::Fmt("load method %d: ", (int)lm) + e.what())); }
  }
  // ---- refusals
  std::string data = lg::ReadAll(bin), bad = vh::S().dir + "/bad.bin", why;
  if (!vocab) {
    lg::Vocab ev; l.enumerate_vocab = &ev;
    VCHECK(Child([&] { M x(bin.c_str(), l); }, &why) == 1, key + ":novocab", "%s", ctx("vocabulary requested from a file without it: " + why).c_str());
  }
  for (int k = 0; k < 3; ++k) {
    size_t n = k == 0 ? data.size() - 1 : r.chance(0.3) ? r.below(200) : r.below(data.size());
    if (n == 0 || n >= data.size()) continue;
    lg::WriteFile(bad, data.substr(0, n));
    l.load_method = kLoads[r.below(4)]; lg::Vocab ev; l.enumerate_vocab = vocab ? &ev : NULL;
    int rc = Child([&] { M x(bad.c_str(), l); Scores(x, p, 0); }, &why);
    vh::Count("truncated files"); 
    VCHECK(rc == 1, key + ":truncated", "%s", ctx(vh::Fmt("file cut to %zu of %zu bytes, vocabulary %d, load method %d: child ended with %d: ", n, data.size(), vocab, (int)l.load_method, rc) + why).c_str());
  }
  {  // the version, sanity fields, type and search version in the header
    std::string d = data; size_t at; std::string what;
    size_t sanity = 52 + 4;   // magic text; then test values
    switch (r.below(4)) {
      case 0: { at = d.find("version "); what = "version"; if (at == std::string::npos) return; d[at + 8] = d[at + 8] == '9' ? '8' : d[at + 8] + 1; break; }
      case 1: { at = 56 + r.below(28); what = "test values"; d[at] ^= 1 << r.below(7); break; }
      case 2: { at = 0; what = "type"; FixedWidthParameters f; size_t off = 88; memcpy(&f, &d[off], sizeof f); if (f.order != m.order) { vh::Count("header layout unknown"); return; } f.model_type = (ModelType)((f.model_type + 1 + r.below(6)) % 8); if (f.model_type == M::kModelType) return; memcpy(&d[off], &f, sizeof f); break; }
      default: { what = "search version"; FixedWidthParameters f; size_t off = 88; memcpy(&f, &d[off], sizeof f); if (f.order != m.order) { vh::Count("header layout unknown"); return; } f.search_version += 1; memcpy(&d[off], &f, sizeof f); break; }
    }
    (void)sanity;
    lg::WriteFile(bad, d); l.enumerate_vocab = NULL; l.load_method = kLoads[r.below(4)];
    int rc = Child([&] { M x(bad.c_str(), l); }, &why);
    vh::Count(("damaged header: " + what).c_str());
    VCHECK(rc == 1, key + ":header", "%s", ctx(vh::Fmt("header damaged (%s): child ended with %d: ", what.c_str(), rc) + why).c_str());
  }
  {  // loading as another structure
    int rc; const char* b = bin.c_str(); l.enumerate_vocab = NULL;
    int pick = r.below(6); if (pick == (int)M::kModelType) pick = (pick + 1) % 6;
    rc = Child([&] {
      switch (pick) {
        case PROBING: { ProbingModel x(b, l); break; } case REST_PROBING: { RestProbingModel x(b, l); break; }
        case TRIE: { TrieModel x(b, l); break; } case QUANT_TRIE: { QuantTrieModel x(b, l); break; }
        case ARRAY_TRIE: { ArrayTrieModel x(b, l); break; } default: { QuantArrayTrieModel x(b, l); break; }
      } }, &why);
    vh::Count("loads as another structure");
    VCHECK(rc == 1, key + ":mismatch", "%s", ctx(vh::Fmt("loaded as structure %d: child ended with %d: ", pick, rc) + why).c_str());
  }
  {  // a file whose writing was interrupted still has the provisional magic
    std::string d = data; const char* inc = "mmap lm http://kheafield.com/code incomplete\n"; memcpy(&d[0], inc, strlen(inc) + 1);
    lg::WriteFile(bad, d);
    int rc = Child([&] { M x(bad.c_str(), l); }, &why);
    vh::Count("incomplete files");
    VCHECK(rc == 1, key + ":incomplete", "%s", ctx(vh::Fmt("provisional header accepted: child ended with %d: ", rc) + why).c_str());
  }
}

int main(int argc, char** argv) {
  return vh::Main(argc, argv, [](vh::Rng& r, long c) {
    lg::Opt mo; bool big = r.chance(0.06); if (big) { mo.min_words = 500; mo.max_words = 4000; mo.long_words = r.pick(std::vector<int>{8, 20, 300}); mo.max_order = 3; }
    lg::Model m = lg::Random(r, mo);
    if (m.order < 2) return;
    if (big) { size_t b = 0; for (auto& w : m.words) b += w.size() + 1; vh::Max("bytes of vocabulary words", b); vh::Count("models with large vocabularies"); }
    std::string arpa = vh::S().dir + "/m.arpa", tmp = vh::S().dir + "/t";
    lg::WriteFile(arpa, m.Arpa());
    vh::Distinct("nontrivial", vh::HashStr(m.Arpa()));
    Probe p;
    for (int i = 0; i < 6; ++i) { Ids s = lg::RandomSentence(r, m, 10, r.chance(0.5)); if (s.empty()) s.push_back(3); std::vector<std::string> v; for (int w : s) v.push_back(w == 0 ? "nosuchword" : m.words[w]); p.sents.push_back(v); }
    Config base = lg::Quiet(m, tmp);
    if (m.suffix_closed) base.probing_multiplier = r.pick(std::vector<float>{1.01f, 1.2f, 1.5f, 4.0f});
    base.pointer_bhiksha_bits = r.pick(std::vector<int>{0, 1, 2, 3, 5, 8, 22, 64});
    base.prob_bits = r.range(2, 10); base.backoff_bits = r.range(2, 10);
    switch (c % 6) {
      case 0: Run<ProbingModel>(r, m, arpa, "probing", base, p); break;
      case 1: Run<RestProbingModel>(r, m, arpa, "rest-max", base, p); break;
      case 2: Run<TrieModel>(r, m, arpa, "trie", base, p); break;
      case 3: Run<ArrayTrieModel>(r, m, arpa, "array-trie", base, p); break;
      case 4: Run<QuantTrieModel>(r, m, arpa, "quant-trie", base, p); break;
      default: Run<QuantArrayTrieModel>(r, m, arpa, "quant-array-trie", base, p); break;
    }
    if (c % 97 == 0) vh::Sample(vh::Fmt("order %d, %zu n-grams, structure %ld: written, loaded four ways, damaged", m.order, m.grams.size(), c % 6));
  });
}
