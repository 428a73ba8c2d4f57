// Common monitor runtime: deterministic RNG, violation reporting, counters, coverage signatures.
// A monitor that sees a violation prints one line "MONITOR <tag> <text>" on stdout and ends the
// process with status 77 (never returns); any other abnormal end of the process is judged by the
// driver (check.py) from the exit status and the sanitizer log.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <map>
#include <set>
#include <vector>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <errno.h>

namespace mon {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  long range(long a, long b) { return a + (long)below((uint64_t)(b - a + 1)); }
  bool chance(int pct) { return (int)below(100) < pct; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

inline uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull);
  z = (z ^ (z >> 29)) * 0xBF58476D1CE4E5B9ull;
  return z ^ (z >> 32);
}

struct Stats {
  std::map<std::string, uint64_t> n;
  std::set<std::string> sig;       // distinct behaviours observed (coverage signatures)
  std::vector<std::string> samples;
  std::set<uint64_t> cases;        // digests of the distinct non-trivial histories run
  uint64_t digest = 0; long ops = 0;
};
inline Stats& stats() { static thread_local Stats s; return s; }   // per thread; absorb() adds a finished thread's to the caller's
inline void absorb(const Stats& o) {
  for (auto& k : o.n) stats().n[k.first] += k.second;
  stats().sig.insert(o.sig.begin(), o.sig.end());
  stats().digest ^= o.digest; stats().ops += o.ops;
}
inline void count(const std::string& k, uint64_t d = 1) { stats().n[k] += d; }
inline void signature(const std::string& s) { stats().sig.insert(s); }
inline void sample(const std::string& s) { if (stats().samples.size() < 3) stats().samples.push_back(s); }

inline std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o;
}
inline std::string& statpath() { static std::string p; return p; }
inline void dump_stats() {
  if (statpath().empty()) return;
  FILE* f = fopen(statpath().c_str(), "w");
  if (!f) return;
  fprintf(f, "{\"counts\":{");
  bool first = true;
  for (auto& k : stats().n) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(k.first).c_str(), (unsigned long long)k.second); first = false; }
  fprintf(f, "},\"sigs\":[");
  first = true;
  for (auto& k : stats().sig) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(k).c_str()); first = false; }
  fprintf(f, "],\"cases\":[");
  first = true;
  for (auto& k : stats().cases) { fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)k); first = false; }
  fprintf(f, "],\"samples\":[");
  first = true;
  for (auto& k : stats().samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(k).c_str()); first = false; }
  fprintf(f, "]}\n");
  fclose(f);
}

inline std::vector<std::string>& trace() { static std::vector<std::string> t; return t; }
inline bool& tracing() { static bool t = false; return t; }
inline void (*&op_hook())() { static void (*h)() = nullptr; return h; }
inline void note(const char* fmt, ...) {
  if (op_hook()) op_hook()();
  char b[512];
  va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  uint64_t h = stats().digest;
  for (char* p = b; *p; p++) h = (h ^ (unsigned char)*p) * 0x100000001b3ull;
  stats().digest = h; stats().ops++;
  if (!tracing()) return;
  printf("  op: %s\n", b); fflush(stdout);
}

inline void case_begin() { stats().digest = 0xcbf29ce484222325ull; stats().ops = 0; count("cases"); }
inline void case_end(bool nontrivial) { if (nontrivial) stats().cases.insert(stats().digest); }

// the single exit of a monitor that observed a violation
[[noreturn]] inline void violate(const char* tag, const char* fmt, ...) {
  char b[2048];
  va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  printf("MONITOR %s %s\n", tag, b);
  fflush(stdout);
  dump_stats();
  _exit(77);
}
// a problem of the harness itself (never a verdict)
[[noreturn]] inline void harness(const char* fmt, ...) {
  char b[1024];
  va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  printf("HARNESS %s\n", b);
  fflush(stdout);
  _exit(88);
}

inline bool slurp(const std::string& p, std::string& out) {
  int fd = open(p.c_str(), O_RDONLY);
  if (fd < 0) return false;
  struct stat st;
  if (fstat(fd, &st) != 0) { close(fd); return false; }
  out.resize((size_t)st.st_size);
  size_t off = 0;
  while (off < out.size()) {
    ssize_t r = read(fd, &out[off], out.size() - off);
    if (r <= 0) break;
    off += (size_t)r;
  }
  close(fd);
  out.resize(off);
  return true;
}
inline void spew(const std::string& p, const std::string& d) {
  int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  if (fd < 0) harness("cannot write %s", p.c_str());
  size_t off = 0;
  while (off < d.size()) {
    ssize_t r = write(fd, d.data() + off, d.size() - off);
    if (r <= 0) harness("short write %s", p.c_str());
    off += (size_t)r;
  }
  close(fd);
}
inline long filesize(const std::string& p) {
  struct stat st;
  return stat(p.c_str(), &st) == 0 ? (long)st.st_size : -1;
}
inline std::string show(const std::string& s) {
  char b[96];
  std::string o = "[" + std::to_string(s.size()) + "]";
  for (size_t i = 0; i < s.size() && i < 12; i++) { snprintf(b, sizeof b, "%02x", (unsigned char)s[i]); o += b; }
  if (s.size() > 12) o += "..";
  return o;
}
// exact-size heap copy: ASan red zones sit right at both ends
struct Exact {
  char* p; size_t n;
  explicit Exact(const std::string& s) : p((char*)malloc(s.size() ? s.size() : 1)), n(s.size()) { if (n) memcpy(p, s.data(), n); }
  Exact(size_t k, char fill) : p((char*)malloc(k ? k : 1)), n(k) { memset(p, fill, k ? k : 1); }
  ~Exact() { free(p); }
  Exact(const Exact&) = delete;
};
inline std::string bytes(Rng& r, size_t n) {
  std::string s(n, 0);
  size_t i = 0;
  while (i + 8 <= n) { uint64_t v = r.next(); memcpy(&s[i], &v, 8); i += 8; }
  for (; i < n; i++) s[i] = (char)r.next();
  return s;
}
} // namespace mon
