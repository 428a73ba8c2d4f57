// huge --profile huge|hugemap : values around and above 4 GB (the reason format version 6 exists), each stored among small ones,
// looked up, scanned, reopened and replaced. Needs about 10 GB of memory and 5 GB of disk; a case that does not find
// them is skipped and counted as such.
#include "hist.hpp"
#include "harness.hpp"
#include <sys/statvfs.h>
using namespace hist;

static void fill(char* p, size_t n, uint64_t seed) {      // every aligned word differs from every other
  uint64_t* w = (uint64_t*)p; size_t k = n / 8;
  for (size_t i = 0; i < k; i++) w[i] = (i + seed) * 0x9E3779B97F4A7C15ull;
  for (size_t i = k * 8; i < n; i++) p[i] = (char)(i * 131 + seed);
}
static size_t differs(const char* p, size_t n, uint64_t seed) {
  const uint64_t* w = (const uint64_t*)p; size_t k = n / 8;
  for (size_t i = 0; i < k; i++) if (w[i] != (i + seed) * 0x9E3779B97F4A7C15ull) return i * 8;
  for (size_t i = k * 8; i < n; i++) if (p[i] != (char)(i * 131 + seed)) return i;
  return (size_t)-1;
}
static unsigned long avail_mem() {
  FILE* f = fopen("/proc/meminfo", "r"); char l[200]; unsigned long kb = 0;
  if (f) { while (fgets(l, sizeof l, f)) if (sscanf(l, "MemAvailable: %lu", &kb) == 1) break; fclose(f); }
  return kb << 10;
}
struct Huge {
  std::string path; Rng r; FFDB_DB* db = nullptr; std::map<std::string, std::pair<size_t, uint64_t>> m; unsigned bsize = 0, nb = 0; unsigned long cache = 0;
  Huge(const std::string& p, uint64_t s) : path(p), r(s) {}
  void open(int flags, int rearr) {
    FFDB_HASHINFO in; memset(&in, 0, sizeof in); in.bsize = bsize; in.nbuckets = nb; in.cachesize = cache; in.rearrangepages = rearr;
    db = ffdb_dbopen(path.c_str(), flags, 0664, &in);
    if (!db) violate("huge", "open failed (errno %d)", errno);
    note("open %d", flags);
  }
  void close() { if (db->close(db) != 0) violate("huge", "close failed (errno %d)", errno); db = nullptr; note("close"); }
  void put(const std::string& k, size_t n, uint64_t seed, bool ok = true) {
    char* b = (char*)malloc(n ? n : 1); if (!b) harness("memory");
    fill(b, n, seed);
    FFDB_DBT kd{(void*)k.data(), (long)k.size()}, vd{b, (long)n};
    int rc = db->put(db, &kd, &vd, 0);
    note("put %s %zu -> %d", k.c_str(), n, rc);
    if ((rc == 0) != ok) violate("huge", "store of %zu bytes returned %d", n, rc);
    if (ok) m[k] = {n, seed};
    ::free(b);
    count("puts");
  }
  void judge(const std::string& k, const char* p, size_t n, const char* when) {
    auto& e = m[k];
    if (n != e.first) violate("huge", "%s: value of key %s has %zu bytes, stored %zu", when, k.c_str(), n, e.first);
    size_t d = differs(p, n, e.second);
    if (d != (size_t)-1) violate("huge", "%s: value of key %s (%zu bytes) differs at byte %zu", when, k.c_str(), n, d);
    count("bytes_compared", n);
  }
  void get(const std::string& k, const char* when) {
    FFDB_DBT kd{(void*)k.data(), (long)k.size()}, vd{nullptr, 0};
    bool own = m.count(k) && m[k].first && r.chance(30);
    if (own) { vd.size = (long)m[k].first; vd.data = malloc(m[k].first); }
    int rc = db->get(db, &kd, &vd, 0);
    note("get %s -> %d", k.c_str(), rc);
    count("gets");
    if (!m.count(k)) { if (rc != FFDB_NOT_FOUND) violate("huge", "%s: lookup of an absent key returned %d", when, rc); return; }
    if (rc != 0) violate("huge", "%s: lookup of key %s (%zu bytes) returned %d", when, k.c_str(), m[k].first, rc);
    judge(k, (char*)vd.data, (size_t)vd.size, when);
    ::free(vd.data);
  }
  void all(const char* when) { auto c = m; for (auto& e : c) get(e.first, when); get("absent", when); }
  void scan(bool back, const char* when) {
    ffdb_cursor_t* c = nullptr; if (db->cursor(db, &c, FFDB_KEY_CURSOR) != 0) violate("huge", "cursor");
    size_t n = 0;
    for (;;) {
      FFDB_DBT k{nullptr, 0}, d{nullptr, 0};
      int rc = c->get(c, &k, &d, back ? FFDB_PREV : FFDB_NEXT);
      if (rc == FFDB_NOT_FOUND) break;
      if (rc != 0) violate("huge", "%s: cursor step returned %d", when, rc);
      std::string ks((char*)k.data, (size_t)k.size);
      if (!m.count(ks)) violate("huge", "%s: cursor delivered a key never stored", when);
      judge(ks, (char*)d.data, (size_t)d.size, when);
      ::free(k.data); ::free(d.data); n++;
    }
    if (n != m.size()) violate("huge", "%s: scan delivered %zu of %zu pairs", when, n, m.size());
    c->close(c); count("scans"); note("scan");
  }
};
int main(int argc, char** argv) {
  return harness_main(argc, argv, [](const Args& A, long n, uint64_t cs) {
    Rng r(cs);
    Huge h(A.dir + "/db", cs ^ 77);
    unlink(h.path.c_str());
    h.bsize = std::vector<unsigned>{1u << 20, 1u << 18, 1u << 16, 1u << 12}[n == 0 ? r.below(2) : r.below(4)];
    h.nb = (unsigned)r.below(5); h.cache = r.chance(50) ? 0 : h.bsize * 3ul;
    size_t G4 = 1ul << 32, len;
    switch (n % 4) { case 0: len = G4 + 1 + r.below(1u << 26); break; case 1: len = G4; break; case 2: len = G4 - 1; break; default: len = G4 + r.below(G4 / 4); }
    struct statvfs v;
    if (statvfs(A.dir.c_str(), &v) != 0 || v.f_bavail * v.f_frsize < len + (4ul << 30) || avail_mem() < 2 * len + (6ul << 30)) { count("skipped"); stats().ops += 10; case_end(false); return; }
    h.open(O_RDWR | O_CREAT | O_TRUNC, n == 0 ? 1 : (int)r.below(2));
    int before = (int)r.below(12), after = 1 + (int)r.below(12);
    // keys so long that few of them fill a page: overflow pages, splits and moves happen beyond the 4 GB as well
    auto longkey = [&](int i) { return "wide" + std::to_string(i) + std::string(h.bsize / 40 + r.below(h.bsize / 6), (char)('a' + i % 26)); };
    int wide = n == 0 || r.chance(70) ? 60 + (int)r.below(120) : 0;
    for (int i = 0; i < before; i++) h.put("small" + std::to_string(i), r.below(3000), i);
    h.put("huge", len, cs);
    for (int i = 0; i < after; i++) h.put("after" + std::to_string(i), r.below(3000), 100 + i);
    for (int i = 0; i < wide; i++) h.put(longkey(i), r.below(h.bsize / 2), 1000 + i);
    h.get("small0", "session"); h.get("after0", "session");
    if (n || A.profile == "hugemap") h.get("huge", "session");
    if (A.profile == "hugemap") {
      h.put("huge", len + 1, 1, false);                      // longer than the current value
      size_t shorter = r.chance(50) ? len - 1 : r.below(G4);
      if (n) { h.put("huge", shorter, cs + 9); h.all("replaced"); } else { h.get("small0", "session"); h.get("after0", "session"); h.put("after0", 0, 3); h.get("after0", "session"); }
      if (n && r.chance(50)) h.scan(r.chance(50), "session");
    }
    h.close();
    if (A.profile == "hugemap") { signature("hugemap page" + std::to_string(h.bsize)); unlink(h.path.c_str()); case_end(true); return; }
    h.open(O_RDWR, (int)r.below(2));
    if (r.chance(50)) h.all("reopened"); else { h.scan(r.chance(50), "reopened"); }
    // a shorter value takes its place; only its first bytes need writing
    size_t shorter = n % 3 == 0 ? r.below(100000) : n % 3 == 1 ? len - 1 - r.below(1000) : G4 / 2;
    h.put("huge", shorter, cs + 5);
    h.put("later", r.below(5000), 7);
    if (wide && r.chance(70)) for (int i = 0; i < 20; i++) h.put(longkey(wide + i), r.below(h.bsize / 2), 2000 + i);
    if (n) h.all("replaced");
    h.close();
    h.open(O_RDONLY, 0);
    h.all("after replacing"); h.scan(r.chance(50), "after replacing");
    h.close();
    unlink(h.path.c_str());
    char s[80]; snprintf(s, sizeof s, "huge page%u len-4G:%ld then %zu", h.bsize, (long)(len - G4) >> 20, shorter >> 20); signature(s); sample(s);
    case_end(true);
  });
}
