// readfault --profile read|store : histories in which the operating system refuses or cuts short reads of the database file.
// A refused read must surface as an error: never as "not found", as the early end of a scan or as other bytes; with the reads
// working again the same handle (and the file) answers as before. Each faulted run is a child process, its findings come back
// through shared memory.
#include "hist.hpp"
#include "harness.hpp"
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/uio.h>
#include <signal.h>
using namespace hist;

enum Kind { NONE, ONCE, SHORT_ONCE, BURST, FROM, SOME, NKINDS };
static const char* kname[] = {"none", "one-failure", "one-short-read", "burst", "from", "random-failures"};
struct Shared { volatile long reads, injected, ops, errors, hits, openreads, healed; char text[400]; };
static Shared* sh;
static struct Plan { int kind = NONE; long k = 0, len = 1; int pct = 0; bool armed = false; Rng r{1}; } plan;
static long decide(int fd, size_t n) {
  if (!plan.armed || fd <= 2) return (long)n;
  long w = ++sh->reads;
  auto fail = [&]() { sh->injected++; errno = EIO; return -1l; };
  auto half = [&]() { if (n < 2) return (long)n; sh->injected++; return (long)(1 + plan.r.below(n - 1)); };
  switch (plan.kind) {
    case ONCE: if (w == plan.k) return fail(); break;
    case SHORT_ONCE: if (w == plan.k) return half(); break;
    case BURST: if (w >= plan.k && w < plan.k + plan.len) return fail(); break;
    case FROM: if (w >= plan.k) return fail(); break;
    case SOME: if (plan.r.chance(plan.pct)) return plan.r.chance(25) ? half() : fail(); break;
  }
  return (long)n;
}
extern "C" {
ssize_t __real_read(int, void*, size_t); ssize_t __real_pread(int, void*, size_t, off_t); ssize_t __real_pread64(int, void*, size_t, off64_t); ssize_t __real_readv(int, const struct iovec*, int);
ssize_t __wrap_read(int fd, void* b, size_t n) { long k = decide(fd, n); return k < 0 ? -1 : __real_read(fd, b, (size_t)k); }
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) { long k = decide(fd, n); return k < 0 ? -1 : __real_pread(fd, b, (size_t)k, o); }
ssize_t __wrap_pread64(int fd, void* b, size_t n, off64_t o) { long k = decide(fd, n); return k < 0 ? -1 : __real_pread64(fd, b, (size_t)k, o); }
ssize_t __wrap_readv(int fd, const struct iovec* v, int c) { size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len; long k = decide(fd, n); if (k < 0) return -1; if ((size_t)k == n) return __real_readv(fd, v, c); return __real_read(fd, v[0].iov_base, (size_t)k < v[0].iov_len ? (size_t)k : v[0].iov_len); }
}
[[noreturn]] static void bad(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vsnprintf(sh->text, sizeof sh->text, fmt, ap); va_end(ap); _exit(70); }

// what each call may say, given whether a read was refused while it ran
struct Prober {
  Session& g; Rng& r; FFDB_DB* h;
  std::map<std::string, std::set<std::string>>* maybe = nullptr;     // refused stores: the key may hold any of these, or (empty set member "absent") nothing
  long i0 = 0;
  void begin() { i0 = sh->injected; sh->ops++; errno = 0; }
  bool hit() { bool x = sh->injected != i0; if (x) sh->hits++; return x; }
  void get(const std::string& k) {
    Exact kb(k); FFDB_DBT kd{kb.p, (long)kb.n}, vd{nullptr, 0};
    auto it = g.model.find(g.canon(k)); bool have = it != g.model.end();
    std::unique_ptr<Exact> ub; if (have && it->second.val.size() && r.chance(30)) { ub.reset(new Exact(it->second.val.size(), (char)0xA5)); vd.data = ub->p; vd.size = (long)ub->n; }
    begin(); int rc = h->get(h, &kd, &vd, 0); bool f = hit();
    if (rc == 0) {
      if (!have) bad("lookup of the never stored key %s delivers data", show(k).c_str());
      if (vd.size != (long)it->second.val.size() || memcmp(vd.data, it->second.val.data(), (size_t)vd.size)) bad("lookup of key %s delivers other bytes than stored (a read was refused: %d)", show(k).c_str(), f);
      if (!ub) free(vd.data);
    } else if (rc == FFDB_NOT_FOUND) { if (have) bad("lookup of the stored key %s says not found (a read was refused: %d)", show(k).c_str(), f); }
    else { sh->errors++; if (!f) bad("lookup of key %s fails (%d) although reads work", show(k).c_str(), rc); }
  }
  void scan(bool back, bool data) {
    ffdb_cursor_t* c = nullptr;
    begin(); int rc = h->cursor(h, &c, FFDB_KEY_CURSOR);
    if (rc != 0) { sh->errors++; if (!hit()) bad("no cursor"); return; }
    std::set<std::string> seen; bool failed = false; int more = 0;
    for (;;) {
      FFDB_DBT k{nullptr, 0}, d{nullptr, 0};
      begin(); rc = c->get(c, &k, data ? &d : nullptr, back ? FFDB_PREV : FFDB_NEXT); bool f = hit();
      if (rc == 0) {
        std::string key((char*)k.data, (size_t)k.size); free(k.data);
        auto it = g.model.find(g.canon(key));
        if (it == g.model.end() || it->second.key != key) bad("scan delivers key %s, never stored", show(key).c_str());
        if (data) { if (d.size != (long)it->second.val.size() || memcmp(d.data, it->second.val.data(), (size_t)d.size)) bad("scan delivers other bytes than stored for key %s", show(key).c_str()); free(d.data); }
        if (!seen.insert(key).second) bad("scan delivers key %s twice", show(key).c_str());
      } else if (rc == FFDB_NOT_FOUND) {
        if (seen.size() != g.model.size()) bad("scan ends as if complete after %zu of %zu keys (a read was refused: %d)", seen.size(), g.model.size(), f);
        break;
      } else { sh->errors++; failed = true; if (!f && !more) bad("cursor step fails (%d) although reads work", rc); if (more++ > 3 || r.chance(50)) break; }
    }
    c->close(c);
  }
  void meta() {
    if (r.chance(50)) {
      size_t n = g.uinfo_set ? g.uinfo.size() : 0; Exact b(n + 4, 0); unsigned len = (unsigned)n + 4;
      begin(); int rc = ffdb_get_user_info(h, (unsigned char*)b.p, &len); bool f = hit();
      if (rc == 0) { if (len != n || memcmp(b.p, g.uinfo.data(), n)) bad("user info reads back differently (a read was refused: %d)", f); }
      else { sh->errors++; if (!f) bad("user info cannot be read although reads work"); }
    } else if (g.cfgs_set) {
      if (r.chance(50)) {
        ffdb_all_config_info_t a; a.numconfigs = -1; a.allconfigs = nullptr;
        begin(); int rc = ffdb_get_all_configs(h, &a); bool f = hit();
        if (rc == 0) { if (a.numconfigs != (int)g.cfgs.size() || memcmp(a.allconfigs, g.cfgs.data(), g.cfgs.size() * sizeof g.cfgs[0])) bad("configurations read back differently (a read was refused: %d)", f); free(a.allconfigs); }
        else { sh->errors++; if (!f) bad("configurations cannot be read although reads work"); }
      } else {
        size_t i = r.below(g.cfgs.size()); ffdb_config_info_t c; memset(&c, 0, sizeof c);
        begin(); int rc = ffdb_get_config(h, (unsigned)g.cfgs[i].config, &c); bool f = hit();
        if (rc == 0) { if (!hist::slot_like(g.cfgs, g.cfgs[i].config, c)) bad("a configuration reads back differently (a read was refused: %d)", f); }
        else { sh->errors++; if (!f) bad("configuration %d cannot be read although reads work", g.cfgs[i].config); }
      }
    }
  }
  void ops(int n) {
    for (int i = 0; i < n; i++) {
      int t = (int)r.below(100);
      if (t < 70) get(!g.keys.empty() && r.chance(85) ? g.model[g.keys[r.below(g.keys.size())]].key : g.fresh_key());
      else if (t < 85) scan(r.chance(40), r.chance(60)); else meta();
    }
  }
  void all() { for (auto& m : g.model) get(m.second.key); scan(false, true); scan(true, false); for (int i = 0; i < 4; i++) meta(); }
};
// lookups, scans and metadata reads over a closed file, read-only or read-write
static void reading(Session& g, uint64_t cs) {
  Rng r(cs ^ 11);
  bool ro = r.chance(50), early = r.chance(50); int rearr = (int)r.below(2);
  unsigned long cache = r.chance(70) ? 1 : g.random_cache();
  if (early) plan.armed = true;
  long i0 = sh->injected;
  FFDB_DB* h = g.raw_open(g.path, ro ? O_RDONLY : O_RDWR, cache, rearr, g.cfg);
  sh->openreads = sh->reads;
  if (!h) { sh->errors++; if (sh->injected == i0) bad("the file does not open although reads work"); _exit(0); }
  plan.armed = true;
  Prober p{g, r, h};
  p.ops(10 + (int)r.below(60));
  plan.armed = false; sh->healed = 1;
  p.all();                                                 // reads work again: everything as before, on the same handle
  if (h->close(h) != 0) bad("close reports an error although nothing was stored");
  _exit(0);
}
// stores, lookups and scans on a writable handle: what a store that said yes stored is there, on this handle and after it; a key
// whose store was refused is in doubt (old value, new value, absent, or an error of its own) and taken out of the books
static void storing(Session& g, uint64_t cs) {
  Rng r(cs ^ 13);
  unsigned long cache = r.chance(70) ? 1 : g.random_cache();
  long i0 = sh->injected;
  if (r.chance(25)) plan.armed = true;
  FFDB_DB* h = g.raw_open(g.path, O_RDWR, cache, (int)r.below(2), g.cfg);
  sh->openreads = sh->reads;
  if (!h) { sh->errors++; if (sh->injected == i0) bad("the file does not open although reads work"); _exit(0); }
  plan.armed = true;
  std::map<std::string, std::string> sure; std::set<std::string> doubt;
  for (auto& m : g.model) sure[m.second.key] = m.second.val;
  long nget = 0;
  auto get = [&](FFDB_DB* d, const std::string& k) {
    if (doubt.count(k)) return;
    Exact kb(k); FFDB_DBT kd{kb.p, (long)kb.n}, vd{nullptr, 0};
    auto it = sure.find(k);
    long a = sh->injected; sh->ops++; int rc = d->get(d, &kd, &vd, 0); bool f = sh->injected != a; if (f) sh->hits++;
    nget++;
    if (rc == 0) { if (it == sure.end()) bad("lookup of the never stored key %s delivers data", show(k).c_str()); if (vd.size != (long)it->second.size() || memcmp(vd.data, it->second.data(), (size_t)vd.size)) bad("lookup of key %s delivers other bytes than stored (a read was refused: %d)", show(k).c_str(), f); free(vd.data); }
    else if (rc == FFDB_NOT_FOUND) { if (it != sure.end()) bad("lookup of the stored key %s says not found (a read was refused: %d)", show(k).c_str(), f); }
    else { sh->errors++; if (!f) bad("lookup of key %s fails (%d) although reads work", show(k).c_str(), rc); }
  };
  auto pick = [&]() { auto it = sure.lower_bound(g.gen_key()); if (it == sure.end()) it = sure.begin(); return it; };
  int n = 5 + (int)r.below(r.chance(30) ? 200 : 50);
  for (int i = 0; i < n; i++) {
    if (r.chance(30) && !sure.empty()) { get(h, pick()->first); continue; }
    std::string k, v;
    if (r.chance(30) && !sure.empty()) { auto it = pick(); k = it->first; v = bytes(r, it->second.size() - r.below(it->second.size() / 2 + 1)); }
    else { k = g.fresh_key(); if (sure.count(k) || doubt.count(k)) continue; v = bytes(r, g.gen_len()); }
    Exact kb(k), vb(v); FFDB_DBT kd{kb.p, (long)kb.n}, vd{vb.p, (long)vb.n};
    long a = sh->injected; sh->ops++; int rc = h->put(h, &kd, &vd, 0); bool f = sh->injected != a; if (f) sh->hits++;
    if (rc == 0) sure[k] = v;
    else { sh->errors++; if (!f && k.size() <= g.maxkey_sure()) bad("store of key %s is refused (%d) although reads work", show(k).c_str(), rc); doubt.insert(k); sure.erase(k); }
  }
  plan.armed = false; sh->healed = 1;
  for (auto& m : sure) get(h, m.first);
  if (h->close(h) != 0) bad("close reports an error although writes work");
  for (int round = 0; round < 2; round++) {                // the file goes on being usable: pages are moved, more is stored
    h = g.raw_open(g.path, O_RDWR, 0, 1, g.cfg);
    if (!h) bad("the file does not open for writing after the stores");
    for (int i = 0; i < 12; i++) {
      std::string k = g.fresh_key(), v = bytes(r, g.gen_len()); if (sure.count(k) || doubt.count(k) || k.size() > g.maxkey_sure()) continue;
      Exact kb(k), vb(v); FFDB_DBT kd{kb.p, (long)kb.n}, vd{vb.p, (long)vb.n};
      if (h->put(h, &kd, &vd, 0) != 0) bad("store of key %s is refused although reads work", show(k).c_str());
      sure[k] = v;
    }
    for (auto& m : sure) get(h, m.first);
    if (h->close(h) != 0) bad("close reports an error although writes work");
  }
  h = g.raw_open(g.path, O_RDONLY, 0, 0, g.cfg);
  if (!h) bad("the file does not open after the stores");
  for (auto& m : sure) get(h, m.first);
  { ffdb_cursor_t* c = nullptr; std::set<std::string> seen; if (h->cursor(h, &c, FFDB_KEY_CURSOR) != 0) bad("no cursor");
    for (;;) { FFDB_DBT k{nullptr, 0}; int rc = c->get(c, &k, nullptr, FFDB_NEXT); if (rc == FFDB_NOT_FOUND) break; if (rc) bad("cursor step fails (%d) although reads work", rc); std::string key((char*)k.data, (size_t)k.size); free(k.data); if (!sure.count(key) && !doubt.count(key)) bad("scan delivers key %s, never stored", show(key).c_str()); if (!seen.insert(key).second) bad("scan delivers key %s twice", show(key).c_str()); }
    for (auto& m : sure) if (!seen.count(m.first)) bad("scan misses the stored key %s", show(m.first).c_str());
    c->close(c); }
  h->close(h);
  _exit(0);
}
static bool storing_profile;
static int spawn(std::function<void()> f, int secs) {
  fflush(stdout);
  pid_t p = fork();
  if (p < 0) harness("fork");
  if (p == 0) { if (!tracing()) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); } alarm((unsigned)secs); f(); _exit(0); }
  int st; if (waitpid(p, &st, 0) != p) harness("waitpid");
  return st;
}
static void trial(Session& g, const std::string& orig, uint64_t cs, int kind, long k, const char* what) {
  spew(g.path, orig);
  sh->healed = sh->injected = sh->reads = sh->errors = sh->hits = sh->ops = 0; sh->text[0] = 0;
  plan = Plan(); plan.kind = kind; plan.k = k; plan.r = Rng(mix(cs, (uint64_t)k * 31 + kind)); plan.pct = 1 + (int)plan.r.below(50); plan.len = 1 + (long)plan.r.below(8);
  int st = 0;
  for (int a = 0; a < 2; a++) { if (a) { spew(g.path, orig); sh->injected = sh->reads = sh->healed = 0; } st = spawn([&] { if (storing_profile) storing(g, cs); else reading(g, cs); }, a ? 90 : 25); if (!(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)) break; }
  note("%s", what);
  count("faulted_runs"); count("injected_faults", (uint64_t)sh->injected); count("reads_seen", (uint64_t)sh->reads); count("errors_reported", (uint64_t)sh->errors); count("calls", (uint64_t)sh->ops); count("calls_hit", (uint64_t)sh->hits);
  const char* end = "quiet";
  if (WIFSIGNALED(st)) {
    if (WTERMSIG(st) == SIGALRM) violate("readfault", "%s: a call does not return", what);
    if (WTERMSIG(st) == SIGKILL) harness("child killed");
    if (WTERMSIG(st) != SIGABRT || !sh->injected || sh->healed) violate("readfault", "%s: signal %d%s", what, WTERMSIG(st), sh->healed ? " after the reads worked again" : "");
    count("visible_abort"); end = "abort";
  } else {
    int e = WEXITSTATUS(st);
    if (e == 88) harness("child");
    if (e == 99) violate("readfault", "%s: memory error (sanitizer report)", what);
    if (e == 70) violate("readfault", "%s: %s", what, sh->text);
    if (e) { if (!sh->injected || sh->healed) violate("readfault", "%s: the process ended with status %d%s", what, e, sh->healed ? " after the reads worked again" : ""); count("visible_exit"); end = "exit"; }
  }
  signature(std::string(kname[kind]) + " " + end + (sh->errors ? " errors" : ""));
  if (!storing_profile && !strcmp(end, "quiet")) {                             // and the file still holds everything
    std::string b; if (!slurp(g.path, b)) violate("readfault", "%s: the file is gone", what);
    g.check_file(g.path, what);
    count("files_checked");
  }
}
static void one(const Args& A, long n, uint64_t cs) {
  Rng r(cs); storing_profile = A.profile == "store";
  Cfg c = gen_cfg(r, true);
  if (c.nullinfo) { c = Cfg(); c.bsize = 512; }
  if (hash_kinds()[c.hashk].eq) c.hashk = 0;
  Session g(A.dir + "/db", c, 0, cs ^ 99);
  g.keystyle = (int)r.below(4); g.valstyle = (int)r.below(3);
  g.create();
  int np = (int)r.below(r.chance(20) ? 400 : 90);
  for (int i = 0; i < np; i++) { g.put_random(); if (r.chance(2)) g.reopen(false, false); }
  if (r.chance(60)) g.set_uinfo();
  if (r.chance(60)) g.set_all_cfgs();
  g.close_db();
  std::string orig; slurp(g.path, orig);
  char w[200]; snprintf(w, sizeof w, "no fault (page %u, buckets %u, %zu pairs)", c.bsize, c.nbuckets, g.model.size());
  trial(g, orig, cs, NONE, 0, w);
  long W = sh->reads, O = sh->openreads;
  if (n - A.from < 1) sample(std::string(w) + ", " + std::to_string(W) + " reads");
  for (int i = 0; i < 10; i++) {
    static const int ks[] = {ONCE, ONCE, ONCE, SHORT_ONCE, BURST, SOME, FROM};
    int kind = ks[r.below(7)]; long k = 1 + (long)r.below((uint64_t)(r.chance(40) && O ? O : W) + 1); uint64_t s2 = r.chance(50) ? cs : mix(cs, (uint64_t)i);
    snprintf(w, sizeof w, "%s at read %ld of %ld (page %u, buckets %u, %zu pairs)", kname[kind], k, W, c.bsize, c.nbuckets, g.model.size());
    trial(g, orig, s2, kind, k, w);
  }
  case_end(g.model.size() >= 3 && W > 0);
  unlink(g.path.c_str());
}
int main(int argc, char** argv) {
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (sh == MAP_FAILED) harness("mmap");
  return harness_main(argc, argv, one);
}
