// Common harness support: seeded cases, observation counters, violation records.
#ifndef VH_H_
#define VH_H_
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <cmath>
#include <ctime>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <fstream>
#include <algorithm>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>

namespace vh {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // uniform in [0,n)
  uint32_t below(uint32_t n) { return n ? static_cast<uint32_t>(next() % n) : 0; }
  int range(int lo, int hi) { return lo + static_cast<int>(below(hi - lo + 1)); }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  bool chance(double p) { return unit() < p; }
  double normal() { double u = unit() + 1e-300, v = unit(); return sqrt(-2 * log(u)) * cos(6.283185307179586 * v); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  template <class T> void shuffle(std::vector<T>& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]); }
};

struct State {
  uint64_t seed = 1; long first = 0, count = 1, only = -1; bool thorough = false; bool verbose = false;
  std::string out, dir;
  long cur = -1;
  volatile char* status = nullptr;
  std::map<std::string, long> counts;
  std::map<std::string, std::set<uint64_t> > distinct;
  std::map<std::string, double> maxima;
  int nviol = 0; int max_viol = 5;
  std::vector<std::string> samples;
};
inline State& S() { static State s; return s; }

inline void Count(const char* k, long n = 1) { S().counts[k] += n; }
inline void Distinct(const char* k, uint64_t h) { std::set<uint64_t>& d = S().distinct[k]; if (d.size() < 200000) d.insert(h); }
inline void Max(const char* k, double v) { auto it = S().maxima.find(k); if (it == S().maxima.end() || it->second < v) S().maxima[k] = v; }
inline void Sample(const std::string& s) { if (S().samples.size() < 3) S().samples.push_back(s.substr(0, 600)); }
inline uint64_t HashStr(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

inline std::string Fmt(const char* f, ...) {
  char buf[4096]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap); return buf;
}
inline void WriteOut();
// Record a violation; key identifies the kind of failure (matched with known findings).
inline void Viol(const std::string& key, const std::string& msg) {
  std::string m = msg; for (char& c : m) if (c == '\n') c = ' ';
  printf("@@VIOL key=%s case=%ld msg=%s\n", key.c_str(), S().cur, m.substr(0, 3000).c_str());
  fflush(stdout);
  if (++S().nviol >= S().max_viol) { WriteOut(); fflush(stdout); _exit(3); }
}
#define VCHECK(cond, key, ...) do { vh::Count("oracle_checks"); if (!(cond)) vh::Viol(key, vh::Fmt(__VA_ARGS__)); } while (0)

inline std::string JStr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) o += Fmt("\\u%04x", c);
    else o += c;
  }
  return o + "\"";
}
inline void WriteOut() {
  State& s = S();
  if (s.out.empty()) return;
  std::ofstream o(s.out.c_str());
  o << "{\"counts\":{"; bool f = true;
  for (auto& p : s.counts) { o << (f ? "" : ",") << JStr(p.first) << ":" << p.second; f = false; }
  o << "},\"maxima\":{"; f = true;
  for (auto& p : s.maxima) { o << (f ? "" : ",") << JStr(p.first) << ":" << (std::isfinite(p.second) ? p.second : -1); f = false; }
  o << "},\"distinct\":{"; f = true;
  for (auto& p : s.distinct) {
    o << (f ? "" : ",") << JStr(p.first) << ":["; bool g = true;
    for (uint64_t h : p.second) { o << (g ? "" : ",") << (h & 0xffffffffffffull); g = false; }
    o << "]"; f = false;
  }
  o << "},\"samples\":["; f = true;
  for (auto& x : s.samples) { o << (f ? "" : ",") << JStr(x); f = false; }
  o << "],\"violations\":" << s.nviol << "}\n";
}

inline void Quiet() {  // send the code's own stderr chatter to a file in the work directory
  if (S().verbose) return;
}

// run(case_rng, case_index)
template <class F> int Main(int argc, char** argv, F run) {
  State& s = S();
  std::string status;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--seed") s.seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--first") s.first = atol(val().c_str());
    else if (a == "--count") s.count = atol(val().c_str());
    else if (a == "--only") s.only = atol(val().c_str());
    else if (a == "--out") s.out = val();
    else if (a == "--dir") s.dir = val();
    else if (a == "--status") status = val();
    else if (a == "--thorough") s.thorough = true;
    else if (a == "--verbose") s.verbose = true;
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 64; }
  }
  if (!status.empty()) {
    int fd = open(status.c_str(), O_RDWR | O_CREAT, 0644);
    if (fd >= 0 && ftruncate(fd, 64) == 0) {
      void* p = mmap(0, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) s.status = static_cast<char*>(p);
    }
  }
  long lo = s.first, hi = s.first + s.count;
  if (s.only >= 0) { lo = s.only; hi = lo + 1; }
  for (long c = lo; c < hi; ++c) {
    s.cur = c;
    if (s.status) snprintf(const_cast<char*>(s.status), 64, "%ld", c);
    Rng rng(s.seed * 1000003ull + static_cast<uint64_t>(c) * 7919ull + 12345);
    rng.next();
    double t0 = clock() / (double)CLOCKS_PER_SEC;
    run(rng, c);
    double dt = clock() / (double)CLOCKS_PER_SEC - t0;
    Max("slowest_case_cpu_s", dt);
    if (s.verbose && dt > 1) fprintf(stderr, "case %ld took %g s\n", c, dt);
    Count("cases");
  }
  WriteOut();
  printf("@@DONE cases=%ld\n", hi - lo);
  fflush(stdout);
  _exit(s.nviol ? 3 : 0);
}

inline bool Near(double a, double b, double rel = 1e-6, double abs = 1e-8) {
  if (a == b) return true;
  if (std::isnan(a) || std::isnan(b)) return false;
  if (std::isinf(a) || std::isinf(b)) return false;
  double d = fabs(a - b);
  return d <= abs || d <= rel * std::max(fabs(a), fabs(b));
}
}  // namespace vh
#endif
