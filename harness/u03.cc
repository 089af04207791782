// U03: dictionaries against a string table; tokenisation against an independent splitter.
#include "vh.h"
#include "dict.h"
#include "tdict.h"
#include "fdict.h"
#include <sys/wait.h>
using namespace std;
static string RandWord(vh::Rng& r) {
  switch (r.below(9)) {
    case 0: return vh::Fmt("w%d", (int)r.below(40)); case 1: return vh::Fmt("%d", (int)r.below(100000));
    case 2: { string s; int n = r.range(1, 12); while (n--) s += (char)r.range(33, 126); return s; }
    case 3: { string s; int n = r.range(1, 12); while (n--) { char c; do c = (char)r.range(1, 255); while (c == ' ' || c == '\t' || c == '\n'); s += c; } return s; }
    case 4: { string s(r.chance(0.1) ? r.range(1000, 20000) : r.range(1, 80), 'a' + r.below(3)); return s; }
    case 5: { static const char* k[] = {"<bad0>", "<bad1>", "<s>", "</s>", "<unk>", "<eps>", "|||", "a|||b", "=", "#", "%", "+"}; return k[r.below(12)]; }
    case 6: { string s = "w"; s += (char)r.range(1, 8); return s; }
    case 7: { string s; int n = r.range(1, 6); static const char* u[] = {"\xC3\xA9", "\xE6\x97\xA5", "\xF0\x9F\x98\x80", "\xC2\xA0", "\xE2\x80\x82"}; while (n--) s += u[r.below(5)]; return s; }
    default: return string(1, 'a' + r.below(26)) + (char)('a' + r.below(26)) + (char)('a' + r.below(26));
  }
}
template <class F, class G, class Z> static void Hist(vh::Rng& r, const char* name, map<string, int>& m, vector<string>& by, F conv, G back, Z size, int steps) {
  for (int s = 0; s < steps; ++s) {
    string w = RandWord(r); int n0 = size(); int id = conv(w);
    auto it = m.find(w);
    if (it != m.end()) { VCHECK(id == it->second, "dict:unstable", "%s: %s was %d and is %d", name, w.substr(0, 60).c_str(), it->second, id); VCHECK(size() == n0, "dict:grew", "%s grew for a known word", name); }
    else { VCHECK(id > 0, "dict:nonpositive", "%s: id %d for a new word", name, id); if (id <= 0) return;
      if ((int)by.size() <= id) by.resize(id + 1); VCHECK(by[id].empty(), "dict:shared", "%s: '%s' and '%s' share id %d", name, by[id].substr(0, 60).c_str(), w.substr(0, 60).c_str(), id); by[id] = w; m[w] = id; VCHECK(size() == n0 + 1, "dict:count", "%s: size %d after a new word, was %d", name, (int)size(), n0); }
    VCHECK(back(id) == w, "dict:back", "%s: '%s' converts back to '%s'", name, w.substr(0, 60).c_str(), back(id).substr(0, 60).c_str());
    vh::Count("conversions");
    if (s % 64 == 0 && !m.empty()) for (auto& p : m) { if (!r.chance(0.1)) continue; VCHECK(conv(p.first) == p.second && back(p.second) == p.first, "dict:changed", "%s: mapping of '%s' changed", name, p.first.substr(0, 60).c_str()); }
    vh::Distinct("nontrivial", vh::HashStr(w));
  }
}
static map<string, int> gt, gf; static vector<string> bt, bf;
static void Case(vh::Rng& r, long c) {
  Dict d; map<string, int> m; vector<string> by;
  Hist(r, "Dict", m, by, [&](const string& w) { return d.Convert(w); }, [&](int i) { return d.Convert(i); }, [&] { return d.max(); }, r.chance(0.1) ? 4000 : 200);
  { string w = "never-seen-" + vh::Fmt("%ld", c); int n = d.max(); VCHECK(d.Convert(w, true) == 0 && d.max() == n && d.Convert(w, true) == 0, "dict:frozen", "frozen lookup of an unknown word"); for (auto& p : m) { if (!r.chance(0.2)) continue; VCHECK(d.Convert(p.first, true) == p.second, "dict:frozen_known", "frozen lookup of a known word"); } }
  { vector<string> ws; int n = r.range(1, 5); while (n--) { string w = RandWord(r); if (w.find('|') != string::npos) w = "x"; ws.push_back(w); } int id = d.Convert(ws); vector<string> back; d.AsVector(id, &back); VCHECK(back == ws, "dict:vector", "vector of words does not convert back"); }
  if (r.chance(0.1)) { d.clear(); m.clear(); by.clear(); VCHECK(d.max() == 0, "dict:clear", "clear"); Hist(r, "Dict", m, by, [&](const string& w) { return d.Convert(w); }, [&](int i) { return d.Convert(i); }, [&] { return d.max(); }, 50); }
  Hist(r, "TD", gt, bt, [](const string& w) { return TD::Convert(w); }, [](int i) { return TD::Convert(i); }, [] { return (int)TD::NumWords(); }, 60);
  Hist(r, "FD", gf, bf, [](const string& w) { return FD::Convert(w); }, [](int i) { return FD::Convert(i); }, [] { return FD::NumFeats(); }, 60);
  // sentences
  for (int k = 0; k < 20; ++k) {
    vector<string> ws; string line; int n = r.chance(0.02) ? r.range(500, 3000) : r.below(12); static const char* sp[] = {" ", "\t", "  ", " \t", "\t\t ", "    "};
    if (r.chance(0.4)) line += sp[r.below(6)];
    for (int i = 0; i < n; ++i) { if (i) line += sp[r.chance(0.7) ? 0 : r.below(6)]; ws.push_back(RandWord(r)); line += ws.back(); }
    if (r.chance(0.4)) line += sp[r.below(6)];
    vector<int> ids, ids2, ids3; TD::ConvertSentence(line, &ids); Dict e; e.ConvertWhitespaceDelimitedLine(line, &ids2);
    bool ok = ids.size() == ws.size(); for (unsigned i = 0; ok && i < ws.size(); ++i) if (TD::Convert(ids[i]) != ws[i]) ok = false;
    if (!ok) vh::Viol("sentence:td", vh::Fmt("a line of %zu words is read as %zu: ", ws.size(), ids.size()) + line.substr(0, 200));
    ok = ids2.size() == ws.size(); for (unsigned i = 0; ok && i < ws.size(); ++i) if (e.Convert(ids2[i]) != ws[i]) ok = false;
    if (!ok) vh::Viol("sentence:dict", vh::Fmt("a line of %zu words is read as %zu: ", ws.size(), ids2.size()) + line.substr(0, 200));
    TD::GetWordIDs(ws, &ids3); VCHECK(ids3 == ids || !ok, "sentence:ids", "GetWordIDs differs");
    string j; for (unsigned i = 0; i < ws.size(); ++i) { if (i) j += " "; j += ws[i]; }
    VCHECK(TD::GetString(ids3) == j, "sentence:string", "GetString does not give the words back"); if (!ids3.empty()) VCHECK(TD::GetString(&ids3[0], &ids3[0] + ids3.size()) == j, "sentence:string", "GetString of a range"); vh::Count("sentences");
    for (auto& w : ws) gt.insert(make_pair(w, TD::Convert(w))); 
    for (auto& p : ws) { int id = gt[p]; if ((int)bt.size() <= id) bt.resize(id + 1); if (bt[id].empty()) bt[id] = p; }
    string es = FD::Escape(n ? ws[0] : "a b=c"); VCHECK(es.find_first_of("=:;,_| ") == string::npos, "escape", "escaped name contains a reserved character: %s", es.substr(0, 60).c_str());
  }
  { set<string> names; map<string, string> esc; for (int k = 0; k < 60; ++k) { string w = RandWord(r); string e = FD::Escape(w); auto i = esc.insert(make_pair(e, w)); VCHECK(i.first->second == w, "escape:collision", "'%s' and '%s' have the same escaped name", i.first->second.substr(0, 60).c_str(), w.substr(0, 60).c_str()); } }
  // frozen feature dictionary, in a child because it cannot be thawed
  if (c % 8 == 0) {
    fflush(stdout); pid_t pid = fork();
    if (!pid) {
      int bad = 0; FD::Freeze(); int n = FD::NumFeats(); vector<pair<string, int> > known(gf.begin(), gf.end());
      for (int k = 0; k < 300; ++k) { if (r.chance(0.5) && !known.empty()) { auto& p = r.pick(known); if (FD::Convert(p.first) != p.second) bad |= 1; if (FD::Convert(p.second) != p.first) bad |= 2; } else { string w = RandWord(r); int id = FD::Convert(w); auto it = gf.find(w); if (id != (it == gf.end() ? 0 : it->second)) bad |= 4; } if (FD::NumFeats() != n) bad |= 8; }
      _exit(bad);
    }
    int st = 0; waitpid(pid, &st, 0); vh::Count("frozen_histories"); VCHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "fd:frozen", "frozen feature dictionary misbehaves (code %d)", st);
  }
  vh::Sample(vh::Fmt("%zu words, %d features", gt.size(), FD::NumFeats()));
}
int main(int argc, char** argv) { return vh::Main(argc, argv, [](vh::Rng& r, long c) { Case(r, c); }); }
