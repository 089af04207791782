// U06: bytes written through WriteFile and read through ReadFile, against the bytes themselves.
#include "vh.h"
#include "filelib.h"
#include <zlib.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
using namespace std;
static const int kB = 47 + (1024 * 256);   // gzstream's buffer: only used to aim lengths at its edges
static string Content(vh::Rng& r) {
  size_t n;
  switch (r.below(8)) {
    case 0: n = r.below(4); break;
    case 1: n = r.range(1, 300); break;
    case 2: case 3: n = r.range(1, 20000); break;
    case 4: case 5: n = (size_t)r.range(1, 3) * (kB - 4) + r.range(-6, 6); break;
    case 6: n = (size_t)r.range(1, 2) * (kB - 1) + r.range(-6, 6); break;
    default: n = r.range(1, 1000000);
  }
  string s; s.reserve(n + 64); int mode = r.below(5), line = 0, maxl = r.chance(0.2) ? 100000 : 80;
  while (s.size() < n) {
    switch (mode) {
      case 0: s += (char)r.range(32, 126); break;
      case 1: s += (char)r.below(256); break;                               // any byte, 0 and 0xff included
      case 2: { static const char* w[] = {"das", "Haus", "\xC3\xBC" "ber", "\xE6\x97\xA5", " ", " ", "|||", "1-0"}; s += w[r.below(8)]; break; }
      case 3: s += '\n'; break;
      default: s.append(r.range(1, 500), 'a' + r.below(26));
    }
    if (mode != 1 && ++line > 2 && (int)r.below(maxl) == 0) { s += r.chance(0.1) ? "\r\n" : "\n"; line = 0; }
  }
  s.resize(n); if (n && r.chance(0.5)) s[n - 1] = '\n';
  if (mode == 1 || r.chance(0.3)) for (int k = 0; k < 4; ++k) for (int e : {0, kB - 4, kB - 1, kB}) { long at = (long)k * e + r.range(-1, 1); if (at >= 0 && at < (long)n && r.chance(0.7)) s[at] = r.chance(0.7) ? '\xff' : (char)r.below(256); }   // bytes that look like EOF where buffers end
  return s;
}
static string Show(const string& a, const string& b) {
  size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  return vh::Fmt("%zu bytes read, %zu written, first difference at %zu", a.size(), b.size(), i);
}
template <class F> static int Child(F f) {
  fflush(stdout); pid_t pid = fork();
  if (!pid) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); _exit(f()); }
  int st = 0; waitpid(pid, &st, 0); return WIFSIGNALED(st) ? 100 + WTERMSIG(st) : WEXITSTATUS(st);
}
static void WriteIt(vh::Rng& r, const string& path, const string& s) {
  WriteFile wf(path); ostream& o = *wf.stream(); size_t p = 0; int style = r.below(5); int big = r.chance(0.3) ? 300000 : 3000;
  while (p < s.size()) {
    size_t n = min(s.size() - p, (size_t)(style == 0 ? 1 : r.range(1, big)));
    if (style == 0 && s.size() > 50000) { style = 1; }
    if (style == 0) o.put(s[p]); else if (style == 1) o.write(&s[p], n); else if (style == 2) o << s.substr(p, n); else if (r.chance(0.5)) o << s.substr(p, n); else { for (size_t i = 0; i < n; ++i) o << s[p + i]; }
    p += n;
    if (style == 3 && r.chance(0.1)) o << flush;
    if (style == 4 && p < s.size() && s[p] == '\n') { o << endl; ++p; }
  }
  VCHECK(o.good(), "write:state", "stream bad after writing %zu bytes", s.size());
}
static string ReadIt(vh::Rng& r, const string& path, const string& want, int* how) {
  string s; int m = *how = r.below(7); ReadFile rf(path); istream& in = *rf.stream();
  switch (m) {
    case 0: { string l; while (getline(in, l)) { s += l; if (!in.eof()) s += '\n'; } break; }
    case 1: { vector<char> b(400000); for (;;) { in.read(&b[0], r.range(1, r.chance(0.5) ? 400000 : 5000)); s.append(&b[0], in.gcount()); if (!in) break; } break; }
    case 2: { ostringstream os; if (!want.empty()) CopyFile(in, os); s = os.str(); break; }
    case 3: { int ch; while ((ch = in.get()) != EOF) { s += (char)ch; if (r.below(50) == 0) { int k = min((size_t)r.range(1, 4), s.size()); int done = 0; for (; done < k; ++done) if (!in.unget()) { in.clear(); break; } s.resize(s.size() - done); if (done) vh::Count("putbacks"); } if (r.below(200) == 0) { int pk = in.peek(); if (s.size() < want.size()) VCHECK(pk == (unsigned char)want[s.size()], "read:peek", "peek at %zu gives %d", s.size(), pk); else { VCHECK(pk == EOF, "read:peek", "peek at the end gives %d", pk); } } if (in.eof()) break; } break; }
    case 4: { string l; while (in && in.peek() != EOF) { if (r.chance(0.5)) { getline(in, l); s += l; if (!in.eof()) s += '\n'; } else { char b[700]; in.read(b, r.range(1, 700)); s.append(b, in.gcount()); } } break; }
    case 5: { ReadFile rf2; rf2.Init(path); s.assign(istreambuf_iterator<char>(*rf2.stream()), istreambuf_iterator<char>()); break; }
    default: { ostringstream os; if (!want.empty()) CopyFile(path, os); s = os.str(); break; }
  }
  return s;
}
static void Case(vh::Rng& r, long c) {
  string s = Content(r); bool gz = r.chance(0.7); string path = vh::S().dir + vh::Fmt("/f%ld%s", c % 3, gz ? ".gz" : r.chance(0.1) ? ".gz.txt" : "");
  int origin = r.below(5);   // who wrote it
  if (origin || !gz) WriteIt(r, path, s);
  else {  // zlib itself, possibly several members
    unlink(path.c_str()); size_t p = 0; int parts = r.range(1, 3); for (int i = 0; i < parts; ++i) { size_t e = i + 1 == parts ? s.size() : p + r.below(s.size() - p + 1); gzFile g = gzopen(path.c_str(), "ab6"); if (e > p) gzwrite(g, &s[p], e - p); gzclose(g); p = e; } vh::Count("gzip_members", parts);
  }
  vh::Count("bytes", s.size()); vh::Count(gz ? "gz_files" : "plain_files");
  int how; string back = ReadIt(r, path, s, &how); VCHECK(back == s, vh::Fmt("read:%d", how).c_str(), "%s (%s, way %d)", Show(back, s).c_str(), gz ? "gz" : "plain", how);
  vh::Distinct("nontrivial", vh::HashStr(s)); vh::Distinct("lengths", s.size());
  { string raw; if (gz) { gzFile g = gzopen(path.c_str(), "rb"); char b[70000]; int n; while ((n = gzread(g, b, sizeof b)) > 0) raw.append(b, n); gzclose(g);  FILE* f = fopen(path.c_str(), "rb"); int c0 = fgetc(f), c1 = fgetc(f); fclose(f); if (!s.empty()) VCHECK(c0 == 0x1f && c1 == 0x8b, "write:gzip", "a .gz file is not gzip data"); }
    else { ifstream f(path.c_str()); raw.assign(istreambuf_iterator<char>(f), istreambuf_iterator<char>()); }
    VCHECK(raw == s, "write:bytes", "%s (file on disk)", Show(raw, s).c_str()); }
  if (!s.empty()) { string all; ReadFile rf(path); rf.ReadAll(all); string want = s; if (want[want.size() - 1] == '\n') want.resize(want.size() - 1); VCHECK(all == want, "readall", "ReadAll: %s", Show(all, want).c_str()); vh::Count("read_alls"); }
  if (r.chance(0.3)) { string cp = vh::S().dir + "/copy"; CopyFile(path, cp); ifstream a(path.c_str()), b(cp.c_str()); string x((istreambuf_iterator<char>(a)), istreambuf_iterator<char>()), y((istreambuf_iterator<char>(b)), istreambuf_iterator<char>()); VCHECK(x == y, "copy", "%s", Show(y, x).c_str()); unlink(cp.c_str()); }
  VCHECK(FileExists(path), "exists", "file just written does not exist");
  VCHECK(!DirectoryExists(path), "exists", "a file is taken for a directory");
  unlink(path.c_str()); VCHECK(!FileExists(path), "exists", "deleted file exists");
  if (c % 40 == 0) {
    string d = vh::S().dir + "/dir"; rmdir(d.c_str()); VCHECK(!DirectoryExists(d), "dir", "missing directory exists"); MkDirP(d); MkDirP(d); VCHECK(DirectoryExists(d), "dir", "new directory does not exist"); rmdir(d.c_str());
    for (const char* e : {"", ".gz"}) { string p = vh::S().dir + "/no/such/file" + e;
      int a = Child([&] { try { ReadFile rf(p); } catch (std::runtime_error&) { return 0; } return 7; }); VCHECK(a == 0, "open:read", "opening a missing%s file for reading: %d instead of an error", e, a);
      int b = Child([&] { try { WriteFile wf(p); } catch (std::runtime_error&) { return 0; } return 7; }); VCHECK(b == 0, "open:write", "opening a%s file in a missing directory for writing: %d instead of an error", e, b); vh::Count("failed_opens", 2); }
  }
  vh::Sample(vh::Fmt("%zu bytes, %s, read way %d", s.size(), gz ? "gz" : "plain", how));
}
int main(int argc, char** argv) { return vh::Main(argc, argv, [](vh::Rng& r, long c) { Case(r, c); }); }
