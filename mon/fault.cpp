// fault --profile points|random|limit : a history is run while the operating system refuses, cuts short or limits writes to
// the database file. Everything the library reports is journalled through shared memory by the faulted child; afterwards,
// with faults off, the file is judged: a session that reported only success must be complete, and no session may leave
// a file that delivers bytes never stored under that key.
#include "hist.hpp"
#include "harness.hpp"
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/uio.h>
#include <signal.h>
using namespace hist;

enum Kind { NONE, FROM_ENOSPC, FROM_EIO, ONCE, SHORT_ONCE, SHORT_THEN_FULL, SOME, BURST, NOGROW, RLIMIT, TRUNC, NKINDS };
static const char* kname[] = {"none", "disk-full-from", "io-error-from", "one-failure", "one-short-write", "short-then-full", "random-failures", "burst", "no-growth", "file-size-limit", "truncate-fails"};
struct Shared { volatile long writes, injected; volatile size_t used; char text[400]; char buf[48 << 20]; };
static Shared* sh;
static struct Plan { int kind = NONE; long k = 0, len = 0; int pct = 0; long limit = 0; bool armed = false; Rng r{1}; } plan;

// decide about one write of n bytes at the current position; returns bytes to write, or -1 with errno
static long decide(int fd, size_t n, long pos) {
  if (!plan.armed || fd <= 2) return (long)n;
  long w = ++sh->writes;
  auto fail = [&](int e) { sh->injected++; errno = e; return -1l; };
  auto half = [&]() { sh->injected++; return (long)(n > 1 ? 1 + plan.r.below(n - 1) : 0); };
  switch (plan.kind) {
    case FROM_ENOSPC: if (w >= plan.k) return fail(ENOSPC); break;
    case FROM_EIO: if (w >= plan.k) return fail(EIO); break;
    case ONCE: if (w == plan.k) return fail(plan.len & 1 ? EIO : ENOSPC); break;
    case SHORT_ONCE: if (w == plan.k) return half(); break;
    case SHORT_THEN_FULL: if (w == plan.k) return half(); if (w > plan.k) return fail(ENOSPC); break;
    case SOME: if (plan.r.chance(plan.pct)) return plan.r.chance(30) ? half() : fail(EIO); break;
    case BURST: if (w >= plan.k && w < plan.k + plan.len) return fail(EIO); break;
    case NOGROW: if (pos >= 0 && pos + (long)n > plan.limit) { if (pos < plan.limit) { sh->injected++; return plan.limit - pos; } return fail(ENOSPC); } break;
  }
  return (long)n;
}
extern "C" {
ssize_t __real_write(int, const void*, size_t); ssize_t __real_pwrite(int, const void*, size_t, off_t); ssize_t __real_pwrite64(int, const void*, size_t, off64_t);
ssize_t __real_writev(int, const struct iovec*, int); int __real_ftruncate(int, off_t); int __real_ftruncate64(int, off64_t);
ssize_t __wrap_write(int fd, const void* b, size_t n) { long k = decide(fd, n, plan.armed ? (long)lseek(fd, 0, SEEK_CUR) : -1); return k < 0 ? -1 : __real_write(fd, b, (size_t)k); }
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o) { long k = decide(fd, n, (long)o); return k < 0 ? -1 : __real_pwrite(fd, b, (size_t)k, o); }
ssize_t __wrap_pwrite64(int fd, const void* b, size_t n, off64_t o) { long k = decide(fd, n, (long)o); return k < 0 ? -1 : __real_pwrite64(fd, b, (size_t)k, o); }
ssize_t __wrap_writev(int fd, const struct iovec* v, int c) { size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len; long k = decide(fd, n, plan.armed ? (long)lseek(fd, 0, SEEK_CUR) : -1); if (k < 0) return -1; if ((size_t)k == n) return __real_writev(fd, v, c); return __real_write(fd, v[0].iov_base, (size_t)k < v[0].iov_len ? (size_t)k : v[0].iov_len); }
static bool trunc_fails() { if (!plan.armed) return false; if (plan.kind == TRUNC || plan.kind == FROM_EIO && sh->writes >= plan.k) { sh->injected++; errno = EIO; return true; } return false; }
int __wrap_ftruncate(int fd, off_t l) { return trunc_fails() ? -1 : __real_ftruncate(fd, l); }
int __wrap_ftruncate64(int fd, off64_t l) { return trunc_fails() ? -1 : __real_ftruncate64(fd, l); }
}
// ---- journal ------------------------------------------------------------------------------------
struct Ev { char t; int rc; std::string a, b; };      // P pair, U user info, C configurations, S sync, X close, O open, R reopen
static void jr(char t, const std::string& a = "", const std::string& b = "") {
  size_t u = sh->used; uint32_t la = (uint32_t)a.size(), lb = (uint32_t)b.size(); int rc = -99;
  if (u + 16 + la + lb > sizeof sh->buf) harness("journal full");
  char* p = sh->buf + u; p[0] = t; memcpy(p + 1, &rc, 4); memcpy(p + 5, &la, 4); memcpy(p + 9, &lb, 4); memcpy(p + 13, a.data(), la); memcpy(p + 13 + la, b.data(), lb);
  sh->used = u + 13 + la + lb;
}
static void jrc(size_t at, int rc) { memcpy(sh->buf + at + 1, &rc, 4); }
static std::vector<Ev> journal() {
  std::vector<Ev> v; size_t u = 0;
  while (u < sh->used) { Ev e; uint32_t la, lb; char* p = sh->buf + u; e.t = p[0]; memcpy(&e.rc, p + 1, 4); memcpy(&la, p + 5, 4); memcpy(&lb, p + 9, 4); e.a.assign(p + 13, la); e.b.assign(p + 13 + la, lb); v.push_back(e); u += 13 + la + lb; }
  return v;
}
// ---- the faulted history --------------------------------------------------------------------------
struct Hist {
  Session g;              // generator of keys, values and parameters; the handle is g.db
  Rng& r;
  std::map<std::string, std::string> cur;      // what the caller believes is stored (accepted stores)
  std::vector<std::string> ks;
  Hist(const std::string& p, const Cfg& c, uint64_t seed) : g(p, c, 0, seed), r(g.rng) {}
  template <class F> int call(char t, const std::string& a, const std::string& b, F f) { size_t at = sh->used; jr(t, a, b); errno = 0; int rc = f(); jrc(at, rc); return rc; }
  void put() {
    std::string k, v;
    if (ks.size() && r.chance(35)) { k = r.pick(ks); size_t n = cur[k].size(); if (r.chance(30)) n = r.below(n + 1); v = bytes(r, n); }
    else { do k = g.gen_key(); while (cur.count(k) || k.size() > g.maxkey_sure()); v = bytes(r, g.gen_len()); }
    int rc = call('P', k, v, [&] { Exact kb(k), vb(v); FFDB_DBT kd{kb.p, (long)kb.n}, vd{vb.p, (long)vb.n}; return g.db->put(g.db, &kd, &vd, 0); });
    if (rc == 0) { if (!cur.count(k)) ks.push_back(k); cur[k] = v; }
  }
  void get() {
    if (ks.empty()) return;
    const std::string& k = r.pick(ks);
    Exact kb(k); FFDB_DBT kd{kb.p, (long)kb.n}, vd{nullptr, 0};
    int rc = g.db->get(g.db, &kd, &vd, 0);
    if (rc == 0) {
      if (vd.size != (long)cur[k].size() || (vd.size && memcmp(vd.data, cur[k].data(), cur[k].size()))) { jr('W', k, "lookup while writes fail delivers other bytes than last stored"); _exit(70); }
      free(vd.data);
    }
  }
  void scan() {
    ffdb_cursor_t* c = nullptr;
    if (g.db->cursor(g.db, &c, FFDB_KEY_CURSOR) != 0) return;
    for (int i = 0; i < 30; i++) { FFDB_DBT k{nullptr, 0}, d{nullptr, 0}; if (c->get(c, &k, &d, FFDB_NEXT) != 0) break; free(k.data); free(d.data); }
    c->close(c);
  }
  void uinfo() { std::string d = bytes(r, r.below(g.expect_uinfolen() + 1)); call('U', d, "", [&] { Exact b(d); return ffdb_set_user_info(g.db, (unsigned char*)b.p, (unsigned)d.size()); }); }
  void cfgs() {
    unsigned n = g.expect_ncfg(); std::vector<ffdb_config_info_t> v; for (unsigned i = 0; i < n; i++) v.push_back(g.gen_cfg((int)i, 10 + (int)i));
    call('C', std::string((char*)v.data(), n * sizeof v[0]), "", [&] { std::vector<ffdb_config_info_t> w = v; ffdb_all_config_info_t a; a.numconfigs = (int)n; a.allconfigs = w.data(); return ffdb_set_all_configs(g.db, &a); });
  }
  int sync() { return call('S', "", "", [&] { return g.db->sync(g.db, 0); }); }
  int close() { return call('X', "", "", [&] { FFDB_DB* d = g.db; g.db = nullptr; return d->close(d); }); }
  bool open(int flags) { int rc = call('O', "", "", [&] { g.db = g.raw_open(g.path, flags, g.random_cache(), g.cfg.rearr, g.cfg); return g.db ? 0 : -1; }); return rc == 0; }
  void ops(int n) {
    for (int i = 0; i < n; i++) {
      int t = (int)r.below(100);
      if (t < 72) put(); else if (t < 86) get(); else if (t < 89) scan(); else if (t < 92) uinfo(); else if (t < 94) cfgs(); else if (t < 98) sync();
      else if (r.chance(50)) { if (close() != 0) _exit(0); if (!open(O_RDWR)) _exit(0); }
    }
  }
};
static void child(const Args& A, const Cfg& c, uint64_t cs) {
  Hist h(A.dir + "/db", c, cs ^ 99);
  Rng r(cs ^ 7);
  h.g.keystyle = (int)r.below(4); h.g.valstyle = (int)r.below(3);
  int before = r.chance(20) ? 0 : (int)r.below(80) * A.scale, after = (int)r.below(60) * A.scale, end = (int)r.below(10);
  bool fresh = r.chance(25);
  if (fresh) plan.armed = true;
  if (!h.open(O_RDWR | O_CREAT | O_TRUNC)) _exit(0);
  if (!fresh) {
    if (c.enc) { if (h.close() != 0) _exit(71); Session::encode(h.g.path, c.enc); if (!h.open(O_RDWR)) _exit(71); }   // as another machine or release would have created it
    h.ops(before);
    if (r.chance(60)) { if (h.close() != 0) _exit(71); if (r.chance(50)) plan.armed = true; if (!h.open(O_RDWR)) _exit(plan.armed ? 0 : 71); } else if (h.sync() != 0) _exit(71);
    if (plan.kind == NOGROW || plan.kind == RLIMIT) plan.limit = filesize(h.g.path) + (long)r.below(6) * h.g.bs() + (r.chance(30) ? (long)r.below(h.g.bs()) : 0);
  } else plan.limit = (long)r.below(10 * h.g.bs());
  if (plan.kind == RLIMIT) { signal(SIGXFSZ, SIG_IGN); struct rlimit l; l.rlim_cur = (rlim_t)plan.limit; l.rlim_max = RLIM_INFINITY; if (setrlimit(RLIMIT_FSIZE, &l) != 0) _exit(88); }
  plan.armed = true;
  h.ops(after);
  bool synced = false;
  if (end < 3) { synced = h.sync() == 0; if (!synced && r.chance(60)) { if (r.chance(50)) plan.armed = false; h.sync(); } }   // retry, sometimes after the trouble went away
  if (end == 0) _exit(0);                                   // dies after the sync
  if (end == 3) { h.ops(3); _exit(0); }
  h.close();
  _exit(0);
}
// ---- judging -----------------------------------------------------------------------------------------
[[noreturn]] static void bad(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vsnprintf(sh->text, sizeof sh->text, fmt, ap); va_end(ap); _exit(70); }
static void reader(Session& g, const std::map<std::string, std::set<std::string>>& ever, const std::map<std::string, std::string>* exact) {
  for (int round = exact ? 0 : 1; round < 2; round++) {      // a complete file is also opened for writing and closed again
  FFDB_DB* h = g.raw_open(g.path, round ? O_RDONLY : O_RDWR, 0, (int)g.rng.below(2), g.cfg);
  if (!h) { if (exact) bad("the file does not open"); _exit(0); }
  for (auto& e : ever) {
    Exact kb(e.first); FFDB_DBT kd{kb.p, (long)kb.n}, vd{nullptr, 0};
    int rc = h->get(h, &kd, &vd, 0);
    if (exact && rc != 0) { if (exact->count(e.first)) bad("lookup of key %s returned %d", show(e.first).c_str(), rc); continue; }
    if (rc != 0) continue;
    std::string v((char*)vd.data, (size_t)vd.size);
    if (!e.second.count(v)) bad("lookup of key %s delivers %s, never stored under it", show(e.first).c_str(), show(v).c_str());
    if (exact && (!exact->count(e.first) || exact->at(e.first) != v)) bad("lookup of key %s delivers another value than the last one stored", show(e.first).c_str());
    free(vd.data);
  }
  ffdb_cursor_t* c = nullptr; std::set<std::string> seen; size_t n = 0;
  if (h->cursor(h, &c, FFDB_KEY_CURSOR) == 0) {
    for (;;) {
      FFDB_DBT k{nullptr, 0}, d{nullptr, 0};
      int rc = c->get(c, &k, &d, FFDB_NEXT);
      if (rc != 0) { if (exact && rc != FFDB_NOT_FOUND) bad("scan returned %d", rc); break; }
      std::string key((char*)k.data, (size_t)k.size), v((char*)d.data, (size_t)d.size);
      auto it = ever.find(key);
      if (it == ever.end()) bad("scan delivers key %s, never stored", show(key).c_str());
      if (!it->second.count(v)) bad("scan delivers bytes never stored under key %s", show(key).c_str());
      seen.insert(key); free(k.data); free(d.data);
      if (++n > ever.size() * 3 + 20) { if (exact) bad("scan does not end"); break; }
    }
    c->close(c);
  } else if (exact) bad("no cursor");
  if (exact && seen.size() != exact->size()) bad("scan delivers %zu of %zu keys", seen.size(), exact->size());
  if (h->close(h) != 0 && exact) bad("close reports an error");
  }
  _exit(0);
}
static int spawn(std::function<void()> f, int secs) {
  fflush(stdout);
  pid_t p = fork();
  if (p < 0) harness("fork");
  if (p == 0) { if (!tracing()) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); } alarm((unsigned)secs); f(); _exit(0); }
  int st; if (waitpid(p, &st, 0) != p) harness("waitpid");
  return st;
}
// one faulted run; returns whether the library claimed success for everything
static bool trial(const Args& A, const Cfg& c, uint64_t cs, int kind, long k, const std::string& what) {
  std::string path = A.dir + "/db";
  unlink(path.c_str());
  sh->writes = sh->injected = 0; sh->used = 0; sh->text[0] = 0;
  plan = Plan(); plan.kind = kind; plan.k = k; plan.r = Rng(mix(cs, (uint64_t)k * 31 + kind)); plan.pct = 1 + (int)plan.r.below(60); plan.len = 1 + (long)plan.r.below(8);
  int st = 0;
  for (int attempt = 0; attempt < 2; attempt++) { if (attempt) { unlink(path.c_str()); sh->writes = sh->injected = 0; sh->used = 0; } st = spawn([&] { child(A, c, cs); }, attempt ? 90 : 25); if (!(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)) break; }
  note("%s", what.c_str());
  count("faulted_runs"); count("injected_faults", (uint64_t)sh->injected); count("writes_seen", (uint64_t)sh->writes);
  bool crashed = false;
  if (WIFSIGNALED(st)) {
    if (WTERMSIG(st) == SIGALRM) violate("fault", "%s: a call does not return", what.c_str());
    if (WTERMSIG(st) == SIGKILL) harness("child killed");
    if (WTERMSIG(st) != SIGABRT) violate("fault", "%s: signal %d", what.c_str(), WTERMSIG(st));
    crashed = true; count("visible_abort");
  } else {
    int e = WEXITSTATUS(st);
    if (e == 88) harness("child");
    if (e == 99) violate("fault", "%s: memory error (sanitizer report)", what.c_str());
    if (e == 70) { auto j = journal(); violate("fault", "%s: %s", what.c_str(), j.back().b.c_str()); }
    if (e == 71) violate("fault", "%s: an error was reported before any fault", what.c_str());
    if (e) { crashed = true; count("visible_exit"); }
  }
  auto j = journal();
  std::map<std::string, std::set<std::string>> ever; std::map<std::string, std::string> cur; std::string ui; bool uiset = false; std::string cf; bool cfset = false, failed = false, closed = false, claim = false; int reported = 0;
  for (auto& e : j) switch (e.t) {
    case 'P': ever[e.a].insert(e.b); if (e.rc == 0) cur[e.a] = e.b; else { failed = true; } claim = false; break;
    case 'U': if (e.rc == 0) { ui = e.a; uiset = true; } else failed = true; claim = false; break;
    case 'C': if (e.rc == 0) { cf = e.a; cfset = true; } else failed = true; claim = false; break;
    case 'S': claim = !failed && e.rc == 0; if (e.rc) reported++; break;
    case 'X': claim = !failed && e.rc == 0; closed = e.rc == 0; if (e.rc) { reported++; failed = true; } break;
    case 'O': if (e.rc) failed = true; claim = false; break;      // a process death right after opening for writing is not covered
  }
  if (failed || crashed || j.empty()) { claim = claim && !failed && !crashed; }
  (void)closed;
  Session g(path, c, 0, cs ^ 5);
  signature(std::string(kname[kind]) + (claim ? " complete" : crashed ? " crashed" : failed ? " refused" : reported ? " reported" : " unfinished"));
  if (reported || failed || crashed) count("errors_reported"); if (claim && sh->injected) count("complete_despite_faults");
  if (claim) {                                              // complete, by an independent reader and by the library
    count("claims_checked");
    std::string b; if (!slurp(path, b)) violate("fault", "%s: every call reported success but the file is gone", what.c_str());
    fsck::Result fr;
    if (kind != TRUNC) {                                    // a file that could not be cut is longer than the format says; the library reads it all the same
    fr = fsck::parse(b, g.fh());
    if (!fr.ok()) violate("fault", "%s: every call reported success but the file is damaged: %s", what.c_str(), fr.first().c_str());
    if (fr.pairs.size() != cur.size()) violate("fault", "%s: every call reported success but the file holds %zu of %zu pairs", what.c_str(), fr.pairs.size(), cur.size());
    for (auto& p : cur) { auto it = fr.pairs.find(p.first); if (it == fr.pairs.end() || it->second != p.second) violate("fault", "%s: every call reported success but key %s is wrong in the file", what.c_str(), show(p.first).c_str()); }
    if (uiset && (!fr.uinfo_set || fr.uinfo != ui)) violate("fault", "%s: every call reported success but the user info is not in the file", what.c_str());
    if (cfset && (fr.configs.size() * sizeof(fsck::Config) != cf.size() || memcmp(fr.configs.data(), cf.data(), cf.size()))) violate("fault", "%s: every call reported success but the configurations are not in the file", what.c_str());
    }
  }
  plan.armed = false;
  sh->text[0] = 0;
  if (filesize(path) > 0) {
    int s2 = spawn([&] { reader(g, ever, claim ? &cur : nullptr); }, 60);
    int e = WIFEXITED(s2) ? WEXITSTATUS(s2) : -1;
    if (e == 70) violate("fault", "%s: after %s: %s", what.c_str(), claim ? "success was reported for everything" : "the failure", sh->text);
    if (e == 99 || (WIFSIGNALED(s2) && WTERMSIG(s2) != SIGABRT && WTERMSIG(s2) != SIGALRM)) violate("fault", "%s: reading the file left behind: memory error", what.c_str());
    if (claim && s2 != 0) violate("fault", "%s: success was reported for everything, but reading the file fails (status %x)", what.c_str(), s2);
    count(s2 ? "leftover_refused" : "leftover_read");
  }
  return claim;
}
static void one(const Args& A, long n, uint64_t cs) {
  Rng r(cs);
  Cfg c = gen_cfg(r, true);
  if (c.nullinfo) { c = Cfg(); c.bsize = 512; }
  if (hash_kinds()[c.hashk].eq) c.hashk = 0;
  char w[200]; snprintf(w, sizeof w, "no fault (page %u, buckets %u, cache %lu)", c.bsize, c.nbuckets, c.cache);
  bool full = trial(A, c, cs, NONE, 0, w);
  long W = sh->writes; size_t events = journal().size();
  (void)full;
  if (n - A.from < 1) sample(std::string(w) + ", " + std::to_string(W) + " writes");
  auto run = [&](int kind, long k) { snprintf(w, sizeof w, "%s at write %ld of %ld (page %u, buckets %u, cache %lu)", kname[kind], k, W, c.bsize, c.nbuckets, c.cache); trial(A, c, cs, kind, k, w); };
  if (A.profile == "points") {        // every write of a short history, several ways of failing
    long step = W > 40 ? 1 + W / 40 : 1;
    for (long k = 1 + (long)r.below((uint64_t)step); k <= W; k += step) { static const int ks[] = {ONCE, SHORT_ONCE, FROM_ENOSPC, FROM_EIO, SHORT_THEN_FULL, BURST}; run(ks[r.below(6)], k); }
  } else if (A.profile == "random") for (int i = 0; i < 12; i++) { static const int ks[] = {ONCE, SHORT_ONCE, FROM_ENOSPC, FROM_EIO, SHORT_THEN_FULL, SOME, SOME, BURST, BURST, TRUNC}; run(ks[r.below(10)], 1 + (long)r.below((uint64_t)W + 1)); }
  else if (A.profile == "limit") for (int i = 0; i < 6; i++) { cs = mix(cs, 3); run(i & 1 ? RLIMIT : NOGROW, i); }
  else harness("unknown profile");
  case_end(events >= 5 && W > 0);
  unlink((A.dir + "/db").c_str());
}
int main(int argc, char** argv) {
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (sh == MAP_FAILED) harness("mmap");
  return harness_main(argc, argv, one);
}
