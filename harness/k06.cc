// K06: FilePiece and ReadCompressed against the uncompressed content, for every encoding and way of opening.
#include "vh.h"
#include "util/file_piece.hh"
#include "util/read_compressed.hh"
#include "util/file.hh"
#include "util/exception.hh"
#include <zlib.h>
#include <bzlib.h>
#include <lzma.h>
#include <sstream>
#include <fstream>
#include <thread>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <limits.h>
using namespace std; using namespace util;
static string GzNamed(const string& s, int level, int mem, int strat, size_t name) { z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, level, Z_DEFLATED, 15 + 16, mem, strat); string nm(name, 'n'); gz_header h; memset(&h, 0, sizeof h); if (name) { h.name = (Bytef*)nm.c_str(); deflateSetHeader(&z, &h); } string o(deflateBound(&z, s.size()) + 100 + name, 0); z.next_in = (Bytef*)s.data(); z.avail_in = s.size(); z.next_out = (Bytef*)&o[0]; z.avail_out = o.size(); deflate(&z, Z_FINISH); o.resize(z.total_out); deflateEnd(&z); return o; }
// `at` is where the member starts: sometimes its header is stretched so that it ends around the edge of the reader's input buffer
static string Gz(const string& s, vh::Rng& r, size_t at) { int l = r.range(0, 9), m = r.range(1, 9), st = r.below(3); string o = GzNamed(s, l, m, st, 0); if (!r.chance(0.3)) return o;
  size_t end = at + o.size() + 1, want = 6; while (want < end + 10) want += 16384; want = want - 9 + r.below(12); if (want <= end) return o; vh::Count("members_ending_at_a_buffer_edge"); return GzNamed(s, l, m, st, want - end); }
static string Bz(const string& s, vh::Rng& r) { string o(s.size() * 1.02 + 700, 0); unsigned n = o.size(); BZ2_bzBuffToBuffCompress(&o[0], &n, (char*)s.data(), s.size(), r.range(1, 9), 0, 0); o.resize(n); return o; }
static string Xz(const string& s, vh::Rng& r) { string o(lzma_stream_buffer_bound(s.size()), 0); size_t n = 0; lzma_easy_buffer_encode(r.below(3), r.chance(0.5) ? LZMA_CHECK_CRC64 : LZMA_CHECK_CRC32, 0, (const uint8_t*)s.data(), s.size(), (uint8_t*)&o[0], &n, o.size()); o.resize(n); return o; }
static string Encode(const string& s, int kind, vh::Rng& r, size_t at) { switch (kind) { case 1: return Gz(s, r, at); case 2: return Bz(s, r); case 3: return Xz(s, r); } return s; }
static bool Space(unsigned char c) { return c == 32 || (c >= 9 && c <= 13); }
static string Content(vh::Rng& r, int& kind) {
  size_t len; switch (r.below(8)) { case 0: len = r.below(8); break; case 1: len = r.below(200); break; case 2: len = 4096 * r.range(1, 6) + r.range(-2, 2); break; case 3: len = 16384 * r.range(1, 3) + r.range(-20, 20); break; case 4: len = r.below(100000); break; default: len = r.below(30000); }
  string s; kind = r.below(5);
  switch (kind) {
    case 0: { string alpha = r.pick(vector<string>{"ab \n", "abcdefgh    \n\t", "x\n", "x ", "a\r\n b\v\f"}); while (s.size() < len) s += alpha[r.below(alpha.size())]; break; }
    case 1: while (s.size() < len) s += (char)r.below(256); break;
    case 2: while (s.size() < len) { size_t w = r.chance(0.01) ? r.below(20000) : r.below(12); for (size_t i = 0; i < w && s.size() < len; ++i) s += (char)('!' + r.below(94)); if (s.size() < len) s += r.chance(0.2) ? '\n' : ' '; } break;
    default: while (s.size() < len) { string n; switch (r.below(7)) { case 0: n = vh::Fmt("%d", r.range(-100000, 100000)); break; case 1: n = vh::Fmt("%.*g", r.range(1, 17), r.real(-10, 10)); break; case 2: n = vh::Fmt("%ld", (long)r.next()); break; case 3: n = vh::Fmt("%lu", (unsigned long)r.next()); break; case 4: n = vh::Fmt("%.*e", r.range(0, 17), r.real(-10, 10) * pow(10., r.range(-45, 40))); break; case 5: n = vh::Fmt("%g", r.real(0, 1) * pow(10., r.range(-320, 300))); break; default: n = vh::Fmt("-%d.%0*d", r.range(0, 9), r.range(1, 25), r.range(0, 99)); }
      s += n; s += r.chance(0.05) ? string(r.chance(0.1) ? r.range(1, 9000) : r.range(1, 5), ' ') : r.chance(0.2) ? "\n" : r.chance(0.1) ? "\t" : " "; } if (r.chance(0.5) && s.size() > len) { s.resize(len); } if (r.chance(0.3) && !s.empty() && Space(s.back())) s.pop_back(); }
  if (s.size() >= 2) { if ((unsigned char)s[0] == 0x1f || (unsigned char)s[0] == 0xfd) s[0] = 'q'; if (s.compare(0, 2, "BZ") == 0) s[0] = 'q'; }
  return s;
}
// what a number reader should see at p: the longest token up to white space
static string Token(const string& s, size_t p) { size_t e = p; while (e < s.size() && !Space(s[e])) ++e; return s.substr(p, e - p); }
static bool CleanInt(const string& t, bool uns) { size_t i = 0; if (!uns && t[0] == '-') i = 1; if (i == t.size()) return false; for (size_t k = i; k < t.size(); ++k) if (!isdigit(t[k])) return false; errno = 0; if (uns) strtoul(t.c_str(), 0, 10); else strtol(t.c_str(), 0, 10); return errno == 0; }
static bool CleanFloat(const string& t) { size_t i = 0, d = 0; if (i < t.size() && t[i] == '-') ++i; while (i < t.size() && isdigit(t[i])) ++i, ++d; if (!d) return false; if (i < t.size() && t[i] == '.') { ++i; size_t f = 0; while (i < t.size() && isdigit(t[i])) ++i, ++f; if (!f) return false; } if (i < t.size() && t[i] == 'e') { ++i; if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i; size_t f = 0; while (i < t.size() && isdigit(t[i])) ++i, ++f; if (!f) return false; } return i == t.size(); }
static bool dl_comma[256];
static void Ops(vh::Rng& r, FilePiece& f, const string& s, const string& desc) {
  size_t p = 0; vector<int> menu; { int m = r.below(6); if (m == 0) menu = {0, 1}; else if (m == 1) menu = {2}; else if (m == 2) menu = {3, 4}; else if (m == 3) menu = {5, 6, 7, 8, 3}; else menu = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}; if (r.chance(0.2)) menu.push_back(10); }
  char ld = r.chance(0.8) ? '\n' : r.chance(0.5) ? ' ' : 'a'; bool ended = false; long n = 0; int tail = 0;
  const bool* delims = r.chance(0.85) ? kSpaces : dl_comma; auto isd = [&](char c) { return delims[(unsigned char)c]; };
  auto At = [&](const char* op) { return vh::Fmt("%s: %s at byte %zu of %zu (operation %ld)", desc.c_str(), op, p, s.size(), n); };
  while (!ended && n < 200000) {
    ++n; int op = r.pick(menu); if (n > 3000) op = menu[0] >= 5 ? 3 : menu[0]; if (s.size() > 30000 && op == 2 && menu.size() > 1) op = 0;
    size_t q = p; while (q < s.size() && isd(s[q])) ++q; size_t qs = p; while (qs < s.size() && Space(s[qs])) ++qs;
    size_t e = q; while (e < s.size() && !isd(s[e])) ++e;
    bool eof = false; string got, want; const char* name = "";
    try {
      switch (op) {
        case 0: case 1: { name = op ? "ReadLineOrEOF" : "ReadLine"; StringPiece x; if (op) { if (!f.ReadLineOrEOF(x, ld)) { eof = true; break; } } else x = f.ReadLine(ld); got.assign(x.data(), x.size()); if (p == s.size()) { vh::Viol("line:end", At(name) + " returned '" + got.substr(0, 60) + "' past the end"); return; }
          size_t l = s.find(ld, p); want = s.substr(p, (l == string::npos ? s.size() : l) - p); p = l == string::npos ? s.size() : l + 1; vh::Count("lines_read"); break; }
        case 2: { name = "get"; char c = f.get(); if (p == s.size()) { vh::Viol("get:end", At(name) + " returned a character past the end"); return; } got = string(1, c); want = s.substr(p, 1); ++p; vh::Count("characters_read"); break; }
        case 3: { name = "ReadDelimited"; StringPiece x = f.ReadDelimited(delims); got.assign(x.data(), x.size()); if (q == s.size()) { vh::Viol("word:end", At(name) + " returned '" + got.substr(0, 60) + "' past the end"); return; } want = s.substr(q, e - q); p = e; vh::Count("words_read"); break; }
        case 4: { name = "ReadWordSameLine"; StringPiece x; bool ok = f.ReadWordSameLine(x, delims); size_t w = p; while (w < s.size() && isd(s[w]) && s[w] != '\n') ++w; bool has = w < s.size() && s[w] != '\n';
          if (ok != has) { vh::Viol("sameline", At(name) + vh::Fmt(" returned %d, expected %d", ok, has)); return; } if (ok) { got.assign(x.data(), x.size()); want = s.substr(q, e - q); p = e; } else { p = w; if (p == s.size()) { if (++tail > 3) return; } else { char c = f.get(); if (c != '\n') { vh::Viol("sameline", At(name) + " did not stop at the line end"); return; } ++p; } } vh::Count("words_read"); break; }
        case 5: case 6: case 7: case 8: {
          if (qs == s.size()) { name = "number at end"; switch (op) { case 5: f.ReadFloat(); break; case 6: f.ReadDouble(); break; case 7: f.ReadLong(); break; default: f.ReadULong(); } vh::Viol("number:end", At(name) + " returned past the end"); return; }
          string t = Token(s, qs); if (op >= 7 ? !CleanInt(t, op == 8) : !CleanFloat(t)) { --n; StringPiece x = f.ReadDelimited(); got.assign(x.data(), x.size()); want = t; p = qs + t.size(); name = "ReadDelimited"; break; }
          p = qs + t.size(); if (t.size() > 700) { StringPiece x = f.ReadDelimited(); got.assign(x.data(), x.size()); want = t; break; }
          vh::Count("numbers_read");
          if (op == 5) { name = "ReadFloat"; float x = f.ReadFloat(), y = strtof(t.c_str(), 0); if (memcmp(&x, &y, 4)) { vh::Viol("number:float", At(name) + vh::Fmt(" of '%s' gives %.9g, expected %.9g", t.c_str(), x, y)); return; } }
          else if (op == 6) { name = "ReadDouble"; double x = f.ReadDouble(), y = strtod(t.c_str(), 0); if (memcmp(&x, &y, 8)) { vh::Viol("number:double", At(name) + vh::Fmt(" of '%s' gives %.17g, expected %.17g", t.c_str(), x, y)); return; } }
          else if (op == 7) { name = "ReadLong"; long x = f.ReadLong(), y = strtol(t.c_str(), 0, 10); if (x != y) { vh::Viol("number:long", At(name) + vh::Fmt(" of '%s' gives %ld", t.c_str(), x)); return; } }
          else { name = "ReadULong"; unsigned long x = f.ReadULong(), y = strtoul(t.c_str(), 0, 10); if (x != y) { vh::Viol("number:ulong", At(name) + vh::Fmt(" of '%s' gives %lu", t.c_str(), x)); return; } } break; }
        case 9: if (q == s.size()) { --n; continue; } name = "SkipSpaces"; f.SkipSpaces(delims); p = q; break;
        default: name = "Offset"; break;
      }
    } catch (EndOfFileException&) { eof = true; }
      catch (util::Exception& x) { vh::Viol("unexpected-exception", At(name) + " threw " + string(x.what()).substr(0, 300)); return; }
    if (eof) { bool at = op == 0 || op == 1 || op == 2 ? p == s.size() : op == 3 ? q == s.size() : qs == s.size(); if (!at) { vh::Viol("early-end", At(name) + " reported the end of the file"); return; } ended = true;
      for (int k = 0; k < 2; ++k) { StringPiece x; bool more = f.ReadLineOrEOF(x); if (more) { vh::Viol("end-again", At(name) + " reported the end, then a line was read: '" + string(x.data(), min<size_t>(x.size(), 60)) + "'"); return; } } vh::Count("ends_reported"); break; }
    if (got != want) { size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i; vh::Viol(string("content:") + name, At(name) + vh::Fmt(" returned %zu bytes, expected %zu; they differ at %zu", got.size(), want.size(), i)); return; }
    if (r.chance(0.02) || op == 10) { uint64_t o = f.Offset(); if (o != p) { vh::Viol("offset", At(name) + vh::Fmt(": Offset() is %llu", (unsigned long long)o)); return; } vh::Count("offsets_checked"); if (menu.size() == 1 && menu[0] == 10) return; }
  }
}
static void WriteAll(int fd, const string& d, vh::Rng r) { size_t o = 0; size_t big = r.chance(0.5) ? 70000 : r.range(1, 3000); while (o < d.size()) { size_t w = min<size_t>(d.size() - o, 1 + r.below(big)); ssize_t g = write(fd, d.data() + o, w); if (g < 0) break; o += g; if (r.chance(0.05)) usleep(r.below(300)); } close(fd); }
static void Case(vh::Rng& r, long c) {
  signal(SIGPIPE, SIG_IGN); dl_comma[(unsigned)','] = dl_comma[(unsigned)'\n'] = true;
  int kind; string s = Content(r, kind); if (vh::S().thorough && r.chance(0.05)) { while (s.size() < 3000000) s += s + "x y\n"; }
  int members = r.chance(0.3) ? 0 : r.chance(0.6) ? 1 : r.range(2, 5); string data, d2; size_t at = 0; bool mixed = r.chance(0.2); int k = r.range(1, 3);
  if (!members) { data = s; d2 = "plain"; } else for (int i = 0; i < members; ++i) { size_t n = i + 1 == members ? s.size() - at : r.chance(0.15) ? 0 : r.below(s.size() - at + 1); if (mixed) k = r.range(1, 3); data += Encode(s.substr(at, n), k, r, data.size()); at += n; d2 += k == 1 ? "gz " : k == 2 ? "bz2 " : "xz "; }
  string path = vh::S().dir + "/f"; { ofstream o(path.c_str(), ios::binary); o.write(data.data(), data.size()); }
  size_t minb = r.pick(vector<size_t>{0, 1, 4096, 8192, 10000, 65536, 1048576}); int open_kind = r.below(members ? 3 : 4);
  string desc = vh::Fmt("%zu bytes (kind %d) as %sopened %s, buffer %zu", s.size(), kind, d2.c_str(), open_kind == 0 ? "by name" : open_kind == 1 ? "by descriptor" : open_kind == 2 ? "through a pipe" : "as istream", minb);
  vh::Distinct("nontrivial", vh::HashStr(data) ^ open_kind * 77 ^ minb); vh::Count(vh::Fmt("encoding_%s", members ? mixed ? "mixed" : k == 1 ? "gzip" : k == 2 ? "bzip2" : "xz" : "plain").c_str()); vh::Count(vh::Fmt("open_%d", open_kind).c_str()); if (members > 1) vh::Count("concatenated");
  ostringstream prog;
  try {
    if (open_kind == 0) { FilePiece f(path.c_str(), r.chance(0.2) ? &prog : 0, minb); Ops(r, f, s, desc); }
    else if (open_kind == 1) { FilePiece f(open(path.c_str(), O_RDONLY), r.chance(0.5) ? "x" : 0, 0, minb); Ops(r, f, s, desc); }
    else if (open_kind == 2) { int fd[2]; if (pipe(fd)) _exit(3); thread w(WriteAll, fd[1], data, vh::Rng(r.next())); { FilePiece f(fd[0], "pipe", 0, minb); Ops(r, f, s, desc); } w.join(); }
    else { istringstream in(data); FilePiece f(in, "x", minb); Ops(r, f, s, desc); }
  } catch (util::Exception& x) { vh::Viol("open", desc + ": " + string(x.what()).substr(0, 300)); }
  // ReadCompressed with random request sizes
  try { ReadCompressed rc; unique_ptr<thread> w; int fd; if (r.chance(0.5)) fd = open(path.c_str(), O_RDONLY); else { int p[2]; if (pipe(p)) _exit(3); fd = p[0]; w.reset(new thread(WriteAll, p[1], data, vh::Rng(r.next()))); } rc.Reset(fd); string got; size_t big = r.pick(vector<size_t>{1, 7, 300, 5000, 16384, 100000}); if (big == 1 && s.size() > 5000) big = 50; bool all = r.chance(0.5);
    while (1) { size_t n = 1 + r.below(big); string b(n, 0); size_t g = all ? rc.ReadOrEOF(&b[0], n) : rc.Read(&b[0], n); got.append(b, 0, g); if (!g || (all && g < n)) break; if (got.size() > s.size()) break; }
    for (int j = 0; j < 2; ++j) { char b; VCHECK(rc.Read(&b, 1) == 0, "compressed:end", "%s: data after the end", desc.c_str()); }
    rc.Reset(open("/dev/null", O_RDONLY)); if (w) w->join();
    VCHECK(got == s, "compressed:content", "%s: ReadCompressed gave %zu bytes", desc.c_str(), got.size()); }
  catch (util::Exception& x) { vh::Viol("compressed:exception", desc + ": " + string(x.what()).substr(0, 300)); }
  // a truncated compressed file ends in an exception, never in silence
  if (members && r.chance(0.4) && data.size() > 8) { size_t cut = r.range(1, min<int>(data.size() - 7, r.chance(0.5) ? 12 : (int)data.size())); if (members > 1) cut = min<size_t>(cut, 7); if (truncate(path.c_str(), data.size() - cut)) _exit(3);
    fflush(stdout); pid_t pid = fork(); if (!pid) { alarm(20); string got; int res = 2; try { ReadCompressed rc(open(path.c_str(), O_RDONLY)); char b[4096]; while (size_t g = rc.Read(b, sizeof b)) { got.append(b, g); } res = 0; } catch (std::exception&) { res = s.compare(0, got.size(), got) == 0 ? 1 : 3; } _exit(res); }
    int st; waitpid(pid, &st, 0); int rc = WIFSIGNALED(st) ? -WTERMSIG(st) : WEXITSTATUS(st);
    VCHECK(rc == 1, "truncated", "%s cut by %zu bytes: %s", desc.c_str(), cut, rc == 0 ? "read as if it were whole" : rc == -SIGALRM ? "never returned" : rc == 3 ? "gave bytes that are not in the file" : vh::Fmt("ended with %d", rc).c_str()); vh::Count("truncated_files"); }
  unlink(path.c_str());
}
int main(int argc, char** argv) { return vh::Main(argc, argv, Case); }
