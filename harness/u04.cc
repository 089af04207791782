// U04: weights files and transported feature vectors against the maps they were made from.
#include "vh.h"
#include "hash.h"
#include "weights.h"
#include "b64featvector.h"
#include "fdict.h"
#include "filelib.h"
#include "verbose.h"
#include <sys/wait.h>
#include <sys/resource.h>
#include <fcntl.h>
using namespace std;
static string Name(vh::Rng& r, size_t maxlen = 400) {
  string s;
  switch (r.below(7)) {
    case 0: s = vh::Fmt("F%d", (int)r.below(60)); break;
    case 1: s = vh::Fmt("PhraseModel_%d", (int)r.below(300)); break;
    case 2: { int n = r.range(1, 30); while (n--) { char c; do c = (char)r.range(33, 126); while (c == '='); s += c; } break; }
    case 3: { int n = r.range(1, 30); while (n--) { char c; do c = (char)r.range(1, 255); while (c == '=' || c == ' ' || (c >= 9 && c <= 13)); s += c; } break; }
    case 4: s = FD::Escape("rule " + vh::Fmt("%d", (int)r.below(50)) + "=x|y:z%"); break;
    case 5: s = string(r.range(1, (int)maxlen), 'a' + r.below(26)); break;
    default: { static const char* k[] = {"LatticeCost_0", "WordPenalty", "\xE6\x97\xA5\xE6\x9C\xAC", "a#b", "x", "1.5", "-", "nan", "inf", "0x10", "phwf"}; s = k[r.below(11)]; }
  }
  if (s[0] == '#') s[0] = 'h';
  if (s.size() > maxlen) s.resize(maxlen);
  return s;
}
static double Value(vh::Rng& r) {
  switch (r.below(8)) { case 0: return r.range(-5, 5); case 1: return r.real(-1, 1); case 2: return r.real(-1, 1) * pow(10, r.range(-300, 300)); case 3: return 4.9406564584124654e-324 * r.range(1, 9); case 4: return (r.chance(0.5) ? 1 : -1) * 1.7976931348623157e308; case 5: return 0.1 * r.range(-30, 30); case 6: return -0.0; default: { double d; do { uint64_t u = r.next(); memcpy(&d, &u, 8); } while (!std::isfinite(d)); return d; } }
}
static bool Same(double a, double b) { return memcmp(&a, &b, 8) == 0; }
static double At(const vector<weight_t>& w, const string& n) { unsigned f = FD::Convert(n); return f < w.size() ? w[f] : 0; }
static void CheckVec(const char* key, const vector<weight_t>& w, const map<string, double>& m) {
  size_t nz = 0; for (unsigned i = 1; i < w.size(); ++i) if (w[i] != 0) ++nz;
  size_t want = 0; for (auto& p : m) { if (p.second != 0) ++want; VCHECK(At(w, p.first) == p.second, key, "%s is %.17g, expected %.17g", p.first.substr(0, 80).c_str(), At(w, p.first), p.second); }
  VCHECK(nz == want, key, "%zu non-zero weights, expected %zu", nz, want);
}
// 0 ok(subset of m), 1 aborted/rejected, 2 misread, 3 sanitizer
template <class F> static int Child(F f) {
  fflush(stdout); pid_t pid = fork();
  if (!pid) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); _exit(f()); }
  int st = 0; waitpid(pid, &st, 0);
  if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGABRT ? 1 : 3;
  return WEXITSTATUS(st) > 2 ? 3 : WEXITSTATUS(st);
}
static void Case(vh::Rng& r, long c) {
  SetSilent(true);
  string path = vh::S().dir + vh::Fmt("/w%ld%s", c % 3, r.chance(0.3) ? ".gz" : "");
  // 1. write, read
  map<string, double> m; int n = r.chance(0.05) ? 0 : r.chance(0.05) ? r.range(500, 3000) : r.range(1, 40);
  for (int i = 0; i < n; ++i) m[Name(r)] = Value(r);
  vector<weight_t> w; for (auto& p : m) { unsigned f = FD::Convert(p.first); if (w.size() <= f) w.resize(f + 1); w[f] = p.second; }
  bool hide = r.chance(0.7); string extra = "comment with = and\tspaces";
  Weights::WriteToFile(path, w, hide, r.chance(0.5) ? &extra : 0);
  { vector<weight_t> back; vector<string> fl; Weights::InitFromFile(path, &back, &fl); CheckVec("file:written", back, m);
    set<string> s(fl.begin(), fl.end()); VCHECK(s.size() == fl.size(), "file:twice", "a weight is written twice"); for (auto& p : m) if (p.second != 0) VCHECK(s.count(p.first), "file:missing", "%s is not in the list of features", p.first.substr(0, 80).c_str());
    if (!hide) VCHECK((int)fl.size() == FD::NumFeats() - 1, "file:all", "%zu weights written of %d", fl.size(), FD::NumFeats() - 1);
    if (hide) { size_t nz = 0; for (auto& p : m) nz += p.second != 0; VCHECK(fl.size() == nz, "file:hidden", "%zu weights written, %zu are non-zero", fl.size(), nz); } }
  unlink(path.c_str());
  // 2. hand-written text
  map<string, double> t; string text; int lines = r.range(0, 25);
  for (int i = 0; i < lines; ++i) {
    switch (r.below(8)) { case 0: text += "\n"; continue; case 1: text += "# weight=3 comment\n"; continue; default: break; }
    string nm = Name(r); double v; char b[64]; if (r.chance(0.2)) nm = "x";
    switch (r.below(4)) { case 0: snprintf(b, 64, "%.17g", Value(r)); break; case 1: snprintf(b, 64, "%d", r.range(-9, 9)); break; case 2: snprintf(b, 64, "%+.2e", r.real(-9, 9)); break; default: snprintf(b, 64, "%.3f", r.real(-9, 9)); }
    v = strtod(b, 0);
    string sep; switch (r.below(5)) { case 0: sep = "="; break; case 1: sep = "\t"; break; case 2: sep = "   "; break; default: sep = " "; }
    text += nm + sep + b; if (i + 1 < lines || r.chance(0.8)) text += "\n"; t[nm] = v;
  }
  if (r.chance(0.2)) {  // names with '=' in lines whose value follows '=' or a tab (in a child: such names must not stay in the dictionary)
    map<string, double> q; string tx; int n = r.range(1, 6);
    for (int i = 0; i < n; ++i) { string nm = Name(r); nm.insert(r.range(1, (int)nm.size()), "="); if (nm.compare(0, 5, "_PHWf") == 0) continue; double v = r.range(-9, 9) * 0.25; q[nm] = v; tx += nm + (r.chance(0.5) ? "=" : "\t") + vh::Fmt("%g", v) + "\n"; }
    path = vh::S().dir + "/eq"; { WriteFile f(path); *f.stream() << tx; }
    int rc = Child([&] { vector<weight_t> w; Weights::InitFromFile(path, &w); for (auto& p : q) if (At(w, p.first) != p.second) return 2; return 0; });
    VCHECK(rc == 0, "file:equals", "names with '=' are misread (%d): %s", rc, tx.substr(0, 400).c_str()); vh::Count("names_with_equals", q.size()); unlink(path.c_str());
  }
  if (!text.empty()) {
    path = vh::S().dir + vh::Fmt("/t%ld%s", c % 3, r.chance(0.2) ? ".gz" : ""); { WriteFile f(path); *f.stream() << text; }
    bool comment_only = text.compare(0, 5, "_PHWf") == 0;
    if (!comment_only) { vector<weight_t> pre; bool havePre = r.chance(0.3); double old = 0; string other = "already-here"; if (havePre) { unsigned f = FD::Convert(other); pre.resize(f + 1); pre[f] = old = 2.5; t.erase(other); }
      Weights::InitFromFile(path, &pre); map<string, double> want = t; if (havePre) want[other] = old; CheckVec("file:text", pre, want); vh::Count("text_files"); vh::Distinct("nontrivial", vh::HashStr(text)); if (lines > 3) vh::Sample(text.substr(0, 300)); }
    unlink(path.c_str());
  }
  // 3. sparse copy, string form
  { SparseVector<weight_t> sv; sv.set_value(1, 9); Weights::InitSparseVector(w, &sv); size_t nz = 0; bool ok = true; for (unsigned i = 1; i < w.size(); ++i) if (w[i] != 0) { ++nz; if (!Same(sv.value(i), w[i])) ok = false; } VCHECK(ok && sv.size() == nz, "sparse", "InitSparseVector loses or changes weights");
    string s = Weights::GetString(w, r.chance(0.8)); vector<weight_t> u(r.chance(0.5) ? FD::NumFeats() : r.below(4), 0.0), z; Weights::UpdateFromString(s, u); if (u.size() < (size_t)FD::NumFeats()) u.resize(FD::NumFeats(), 0.0); z = w; z.resize(u.size(), 0.0); bool same = true; for (unsigned i = 1; i < z.size(); ++i) if (z[i] != u[i]) same = false; VCHECK(same, "string", "weights change when printed and read: %s", s.substr(0, 200).c_str()); vh::Count("strings"); }
  // 4. transport encodings
  for (int k = 0; k < 6; ++k) {
    SparseVector<weight_t> v, back; map<int, double> q; int e = r.chance(0.1) ? 0 : r.range(1, r.chance(0.2) ? 60 : 6);
    for (int i = 0; i < e; ++i) { int f = FD::Convert(Name(r, 255)); double x = Value(r); v.set_value(f, x); q[f] = x; }
    string s = EncodeFeatureVector(v); VCHECK(s.find_first_of(" \t\n") == string::npos, "b64:blank", "encoded vector contains blanks");
    back.set_value(1, 5); DecodeFeatureVector(s, &back); size_t nz = 0; for (auto& p : q) { if (p.second != 0) { ++nz; VCHECK(Same(back.value(p.first), p.second), "b64:value", "%s decoded as %.17g, encoded %.17g (%zu entries)", FD::Convert(p.first).substr(0, 60).c_str(), back.value(p.first), p.second, q.size()); } }
    VCHECK(back.size() == nz, "b64:size", "%zu entries decoded of %zu", back.size(), nz); vh::Count("b64_vectors"); vh::Distinct("nontrivial", vh::HashStr(s));
    double obj = Value(r), o2 = 0; ostringstream os; B64::Encode(obj, v, &os); string g = os.str(); SparseVector<double> b2; b2.set_value(2, 4); bool ok = B64::Decode(&o2, &b2, g.data(), g.size());
    bool eq = ok && Same(obj, o2) && b2.size() == q.size(); if (eq) for (auto& p : q) if (!Same(b2.value(p.first), p.second)) eq = false;
    VCHECK(eq, "b64:gradient", "objective and vector of %zu entries change when encoded and decoded", q.size());
    if (c % 4 == 0 && k < 2) {   // damaged input
      string d = s, h = g; auto damage = [&](string& x) { if (x.empty()) return; switch (r.below(4)) { case 0: x.resize(r.below(x.size())); break; case 1: x.resize(r.below(x.size() / 4 + 1) * 4); break; case 2: x[r.below(x.size())] = "!#$\x7f\x01 *"[r.below(7)]; break; default: x = x.substr(0, x.size() / 2) + "\n" + x.substr(x.size() / 2); } };
      damage(d); damage(h); d = string(d.c_str(), d.size()); 
      int rc = Child([&] { SparseVector<weight_t> o; DecodeFeatureVector(d, &o); for (auto it = o.begin(); it != o.end(); ++it) if (!q.count(it->first) || !Same(q[it->first], it->second)) return 2; return 0; });
      VCHECK(rc < 2, rc == 2 ? "b64:misread" : "b64:crash", "damaged vector of %zu characters (was %zu) is %s", d.size(), s.size(), rc == 2 ? "misread" : "read out of bounds");
      rc = Child([&] { double o = 0; SparseVector<double> x; if (!B64::Decode(&o, &x, h.data(), h.size())) return 1; if (!Same(o, obj) || x.size() != q.size()) return 2; for (auto& p : q) if (!Same(x.value(p.first), p.second)) return 2; return 0; });
      VCHECK(rc < 2, rc == 2 ? "b64:gradient_misread" : "b64:gradient_crash", "damaged gradient of %zu characters (was %zu) is %s", h.size(), g.size(), rc == 2 ? "misread" : "read out of bounds");
      vh::Count("damaged_inputs", 2);
    }
  }
  if (c % 16 == 0) {  // binary weights with another number of keys, or cut short
    string p = vh::S().dir + "/bin"; size_t keys = FD::NumFeats() + (r.chance(0.5) ? r.range(1, 1000) : 0); { ofstream o(p.c_str()); o.write("_PHWf", 5); o.write((char*)&keys, r.chance(0.3) ? 3 : sizeof keys); double x[4] = {1, 2, 3, 4}; o.write((char*)x, min<size_t>(sizeof x, 8 * (keys - 1))); }
    int rc = Child([&] { vector<weight_t> w2; Weights::InitFromFile(p, &w2); return keys <= 4 ? 0 : 2; }); VCHECK(rc < 2, rc == 2 ? "binary:accepted" : "binary:crash", "a damaged binary weights file is %s", rc == 2 ? "accepted" : "read out of bounds"); vh::Count("damaged_inputs");
    unlink(p.c_str());
  }
}
int main(int argc, char** argv) { for (int i = 0; i < 5; ++i) FD::Convert(vh::Fmt("F%d", i)); return vh::Main(argc, argv, [](vh::Rng& r, long c) { Case(r, c); }); }
