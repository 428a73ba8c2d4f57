// threads --profile shared|private|reopen : concurrent use, judged by ThreadSanitizer (or ASan), a value monitor
// (every observation against an immutable reference map) and a progress monitor (deadlock, lost wake-up, starvation).
#include "hist.hpp"
#include "harness.hpp"
#include <thread>
#include <atomic>
#include <mutex>
#include <sched.h>
#include <time.h>
using namespace hist;

static long now_ms() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000 + t.tv_nsec / 1000000; }
struct Slot { std::atomic<long> last{0}; std::atomic<int> busy{0}; std::atomic<const char*> op{""}; char pad[40]; };
static Slot slots[32];
static std::atomic<int> running{0};
static const long STALL_MS = 45000;      // far beyond any single operation here, even on a loaded machine

static void run_threads(int n, const std::function<void(int)>& f) {
  std::vector<std::thread> ts; std::mutex mu; std::vector<Stats> got;
  for (int i = 0; i < n; i++) { slots[i].last = now_ms(); slots[i].busy = 1; }
  running = n;
  for (int i = 0; i < n; i++) ts.emplace_back([&, i] {
    f(i);
    slots[i].busy = 0;
    { std::lock_guard<std::mutex> g(mu); got.push_back(stats()); }
    running--;
  });
  // progress monitor: an operation of a live thread must end; stops of the whole process (all threads late at once by
  // the same amount) are recognised because this loop itself is then late
  long prev = now_ms(), grace = 0;
  while (running > 0) {
    usleep(2000);
    long t = now_ms();
    if (t - prev > 2000) grace += t - prev;
    prev = t;
    for (int i = 0; i < n; i++) if (slots[i].busy && t - slots[i].last > STALL_MS + grace)
      violate("progress", "thread %d of %d did not finish its %s within %ld s (deadlock, lost wake-up or starvation)", i, n, slots[i].op.load(), STALL_MS / 1000);
  }
  for (auto& t : ts) t.join();
  for (auto& s : got) absorb(s);
}
// schedule perturbation at the library's own synchronisation points, and a count of the waits that really happened
static std::atomic<int> perturb{0};
static std::atomic<uint64_t> cond_waits{0}, delays{0}, perturb_seed{1};
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
static void maybe_delay() {
  int p = perturb.load(std::memory_order_relaxed);
  if (!p) return;
  static thread_local uint64_t x = 0;
  if (!x) x = perturb_seed.fetch_add(0x9E3779B97F4A7C15ull) | 1;
  x ^= x << 13; x ^= x >> 7; x ^= x << 17;
  if ((int)(x % 1000) >= p) return;
  delays.fetch_add(1, std::memory_order_relaxed);
  if (x & 0x10000) sched_yield(); else usleep((useconds_t)((x >> 20) % 60));
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { maybe_delay(); return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { int r = __real_pthread_mutex_unlock(m); maybe_delay(); return r; }
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { cond_waits.fetch_add(1, std::memory_order_relaxed); return __real_pthread_cond_wait(c, m); }
}
static void tick(int i, const char* next) { slots[i].op = next; slots[i].last = now_ms(); }

static void jitter(Rng& r, int style) {
  if (style == 0) return;
  if (style == 1) { if (r.chance(30)) sched_yield(); }
  else if (r.chance(style == 2 ? 5 : 20)) usleep((useconds_t)r.below(300));
}

// all observations of one reading thread; the model is not modified while threads run
struct Reader {
  const Session& s; FFDB_DB* h; int id; Rng r; int style;
  std::vector<const Val*> vals;
  Reader(const Session& s_, FFDB_DB* h_, int id_, uint64_t seed, int st) : s(s_), h(h_), id(id_), r(seed), style(st) { for (auto& k : s.keys) vals.push_back(&s.model.at(k)); }
  void get() {
    tick(id, "lookup");
    bool have = !vals.empty() && r.chance(80);
    std::string k; const Val* v = nullptr;
    if (have) { v = vals[r.below(vals.size())]; k = v->key; }
    else { k = "absent" + std::to_string(r.next()); if (k.size() > s.maxkey_sure() || s.model.count(s.canon(k))) return; }
    Exact kb(k);
    FFDB_DBT kd{kb.p, (long)kb.n}, vd{nullptr, 0};
    std::unique_ptr<Exact> ub;
    if (have && v->val.size() && r.chance(40)) { ub.reset(new Exact(v->val.size() + r.below(3), (char)0xA5)); vd.data = ub->p; vd.size = (long)ub->n; }
    int rc = h->get(h, &kd, &vd, 0);
    count("thread_gets");
    if (!have) { if (rc != FFDB_NOT_FOUND) violate("mt-get", "thread %d: lookup of a never stored key returned %d", id, rc); return; }
    if (rc != 0) violate("mt-get", "thread %d: lookup of stored key %s returned %d", id, show(k).c_str(), rc);
    if (vd.size != (long)v->val.size() || (vd.size && memcmp(vd.data, v->val.data(), (size_t)vd.size)))
      violate("mt-get", "thread %d: lookup of key %s returned %s, stored %s", id, show(k).c_str(), show(std::string((char*)vd.data, (size_t)vd.size)).c_str(), show(v->val).c_str());
    if (!ub) free(vd.data);
  }
  void scan() {
    tick(id, "cursor open");
    ffdb_cursor_t* c = nullptr;
    if (h->cursor(h, &c, FFDB_KEY_CURSOR) != 0 || !c) violate("mt-scan", "thread %d: no cursor", id);
    bool back = r.chance(40), partial = r.chance(25);
    int withdata = (int)r.below(3);
    std::set<std::string> seen;
    size_t stop = partial ? r.below(vals.size() + 1) : (size_t)-1;
    for (;;) {
      if (seen.size() >= stop) break;
      tick(id, back ? "backward cursor step" : "forward cursor step");
      FFDB_DBT k{nullptr, 0}, d{nullptr, 0};
      bool wd = withdata == 1 || (withdata == 2 && r.chance(50));
      int rc = c->get(c, &k, wd ? &d : nullptr, back ? FFDB_PREV : FFDB_NEXT);
      count("thread_cursor_steps");
      if (rc == FFDB_NOT_FOUND) {
        if (seen.size() != s.model.size()) violate("mt-scan", "thread %d: cursor returned %zu of %zu keys", id, seen.size(), s.model.size());
        count("thread_full_scans");
        break;
      }
      if (rc != 0) violate("mt-scan", "thread %d: cursor step returned %d", id, rc);
      std::string ks((char*)k.data, (size_t)k.size);
      auto it = s.model.find(s.canon(ks));
      if (it == s.model.end() || it->second.key != ks) violate("mt-scan", "thread %d: cursor delivered key %s, which is not stored", id, show(ks).c_str());
      if (!seen.insert(ks).second) violate("mt-scan", "thread %d: cursor delivered key %s twice", id, show(ks).c_str());
      if (wd && (d.size != (long)it->second.val.size() || (d.size && memcmp(d.data, it->second.val.data(), (size_t)d.size))))
        violate("mt-scan", "thread %d: cursor delivered a wrong value for key %s", id, show(ks).c_str());
      free(k.data); if (wd) free(d.data);
      jitter(r, style);
    }
    tick(id, "cursor close");
    if (c->close(c) != 0) violate("mt-scan", "thread %d: cursor close failed", id);
  }
  void meta() {
    tick(id, "metadata read");
    if (s.uinfo_set && s.uinfo.size()) {
      Exact b(s.uinfo.size(), 0); unsigned len = (unsigned)b.n;
      if (ffdb_get_user_info(h, (unsigned char*)b.p, &len) != 0 || len != s.uinfo.size() || memcmp(b.p, s.uinfo.data(), len)) violate("mt-meta", "thread %d: user info read back differs", id);
      count("thread_meta_reads");
    }
    if (s.cfgs_set) {
      ffdb_all_config_info_t a; a.numconfigs = -1; a.allconfigs = nullptr;
      if (ffdb_get_all_configs(h, &a) != 0 || a.numconfigs != (int)s.cfgs.size()) violate("mt-meta", "thread %d: reading the configurations failed", id);
      for (size_t i = 0; i < s.cfgs.size(); i++) if (memcmp(&a.allconfigs[i], &s.cfgs[i], sizeof s.cfgs[i])) violate("mt-meta", "thread %d: configuration slot %zu reads back differently", id, i);
      free(a.allconfigs);
      size_t ci = r.below(s.cfgs.size()); ffdb_config_info_t c; memset(&c, 0, sizeof c);
      if (ffdb_get_config(h, (unsigned)s.cfgs[ci].config, &c) != 0 || !hist::slot_like(s.cfgs, s.cfgs[ci].config, c)) violate("mt-meta", "thread %d: configuration %d is not read as it was set", id, s.cfgs[ci].config);
      int no = s.cfgs[ci].config + (int)r.below(3) - 1; bool taken = no < 0;
      for (auto& q : s.cfgs) if (q.config == no) taken = true;
      if (!taken && ffdb_get_config(h, (unsigned)no, &c) == 0) violate("mt-meta", "thread %d: configuration %d, which no slot carries, was read", id, no);
      count("thread_meta_reads");
    }
  }
  std::string* snap = nullptr; Rng rs{7};      // where the file as it was right after a sync goes
  void sync() {
    tick(id, "sync");
    if (h->sync(h, 0) != 0) violate("mt-sync", "thread %d: sync failed without any fault", id);
    if (snap->empty()) slurp(s.path, *snap);
    count("thread_syncs");
  }
  void run(int ops, int scanpct) {
    for (int i = 0; i < ops; i++) {
      if (snap && rs.chance(12)) sync();
      int t = (int)r.below(100);
      if (t < scanpct) scan(); else if (t < 97) get(); else meta();
      jitter(r, style);
    }
  }
};

static void populate(Session& s, int n) {
  for (int i = 0; i < n; i++) { s.put_random(); if (s.rng.chance(3)) s.set_uinfo(); if (s.rng.chance(3)) s.set_all_cfgs(); }
}
static Cfg cfg_for(Rng& r) {
  Cfg c = gen_cfg(r, true);
  if (c.hashk && r.chance(60)) c.hashk = 0;
  return c;
}
// threads share one handle
static void p_shared(const Args& A, long n, uint64_t cs) {
  Rng r(cs);
  Session s(A.dir + "/db", cfg_for(r), 0, cs ^ 77);
  s.keystyle = (int)s.rng.pick(std::vector<int>{0, 2, 2, 3}); s.valstyle = (int)s.rng.pick(std::vector<int>{0, 2, 2, 3});
  s.create();
  populate(s, (int)r.pick(std::vector<int>{1, 3, 20, 60, 120, 200}));
  bool fresh = r.chance(35);           // the handle that stored: unwritten pages are in the cache while the readers run
  int nt = (int)r.range(2, 8), style = (int)r.below(4);
  unsigned long b = s.bs();
  unsigned long cache = r.pick(std::vector<unsigned long>{1, b, 2 * b, 3 * b, 6 * b, 12 * b, 40 * b, 0});
  bool ro = r.chance(50);
  if (!fresh) { s.close_db(); s.open_existing(ro, cache, (int)r.below(2)); }
  else if (r.chance(30)) s.sync(false);
  int scanpct = (int)r.pick(std::vector<int>{0, 3, 10, 40});
  int ops = scanpct >= 40 ? 6 + (int)r.below(8) : 30 + (int)r.below(60);
  note("threads %d ops %d scan%% %d fresh %d ro %d cache %lu style %d", nt, ops, scanpct, fresh, ro, cache, style);
  char sg[120]; snprintf(sg, sizeof sg, "shared t%d cache%lu scan%d fresh%d ro%d jit%d pairs%d", nt, (fresh ? s.cfg.cache : cache) / b, scanpct, fresh, ro, style, s.model.size() > 50);
  signature(sg);
  if (n - A.from < 2) sample(sg);
  FFDB_DB* h = s.db;
  std::string snap;
  bool syncs = !s.ro && Rng(mix(cs, 4000)).chance(50);
  std::atomic<int> gate{0};
  run_threads(nt, [&](int i) {
    Reader R(s, h, i, mix(cs, 1000 + i), style);
    if (syncs && i == 0) { R.snap = &snap; R.rs = Rng(mix(cs, 4001)); }
    gate++; while (gate < nt) sched_yield();
    R.run(ops, scanpct);
  });
  if (!snap.empty()) {                 // what a process death after that sync would have left behind
    std::string sp = s.path + ".snap"; spew(sp, snap);
    s.check_file(sp, "after a sync beside readers");
    FFDB_DB* q = s.raw_open(sp, O_RDONLY, 0, 0, s.cfg);
    if (!q) violate("mt-sync", "the file left by a process death after a sync beside readers does not open (errno %d)", errno);
    s.verify_all("mt-sync", q); q->close(q); unlink(sp.c_str()); count("thread_sync_snapshots");
  }
  s.verify_session("mt-after");
  if (!s.ro) { for (int i = 0; i < 5; i++) s.put_random(); s.mon_mask |= M_FSCK; }
  s.close_db();
  case_end(s.model.size() >= 3);
  unlink(s.path.c_str());
}
// every thread has its own files and handles, opening, storing and closing at the same time
static void p_private(const Args& A, long n, uint64_t cs) {
  Rng r(cs);
  int nt = (int)r.range(2, 8);
  note("private threads %d", nt);
  std::atomic<int> gate{0};
  run_threads(nt, [&](int i) {
    uint64_t ts = mix(cs, 2000 + i);
    Rng q(ts);
    Session s(A.dir + "/p" + std::to_string(i), cfg_for(q), M_FSCK, ts ^ 5);
    s.keystyle = (int)s.rng.below(4); s.valstyle = (int)s.rng.below(3);
    gate++; while (gate < nt) sched_yield();
    tick(i, "create"); s.create();
    int rounds = 1 + (int)q.below(3);
    for (int k = 0; k < rounds; k++) {
      int m = (int)q.below(60);
      for (int j = 0; j < m; j++) { tick(i, "store or lookup"); if (s.ro || q.chance(30)) s.get_random("mt-get"); else s.put_random(); if (q.chance(3)) s.refused_random(); if (q.chance(3)) s.set_uinfo(); if (q.chance(2)) s.scan_random("mt-scan"); }
      tick(i, "reopen"); s.reopen(true, q.chance(30));
    }
    tick(i, "close"); s.close_db();
    count("private_histories"); count("pairs_at_end", s.model.size());
    unlink(s.path.c_str());
  });
  signature("private t" + std::to_string(nt));
  case_end(true);
  (void)n;
}
// several read-only handles on one file, opened and closed at any moment
static void p_handles(const Args& A, long n, uint64_t cs) {
  Rng r(cs);
  Session s(A.dir + "/db", cfg_for(r), 0, cs ^ 78);
  s.keystyle = (int)s.rng.below(4); s.valstyle = (int)s.rng.below(3);
  s.create();
  populate(s, (int)r.range(1, 120));
  s.close_db();
  std::string before, after; slurp(s.path, before);
  int nt = (int)r.range(2, 8), style = (int)r.below(3);
  note("handles threads %d", nt);
  std::atomic<int> gate{0};
  run_threads(nt, [&](int i) {
    Rng q(mix(cs, 3000 + i));
    gate++; while (gate < nt) sched_yield();
    int rounds = 1 + (int)q.below(4);
    for (int k = 0; k < rounds; k++) {
      tick(i, "open");
      Session t(s.path, s.cfg, 0, q.next());
      t.open_existing(true, q.pick(std::vector<unsigned long>{1, s.bs(), 4ul * s.bs(), 0}), (int)q.below(2));
      Reader R(s, t.db, i, q.next(), style);
      R.run(10 + (int)q.below(20), 10);
      tick(i, "close"); t.close_db();
      count("handle_sessions");
    }
  });
  slurp(s.path, after);
  if (before != after) violate("mt-ro", "concurrent read-only handles changed the file");
  signature("handles t" + std::to_string(nt));
  case_end(s.model.size() >= 3);
  unlink(s.path.c_str());
  (void)n;
}
int main(int argc, char** argv) {
  return harness_main(argc, argv, [](const Args& A, long n, uint64_t cs) {
    cond_waits = 0; delays = 0;
    perturb_seed = mix(cs, 99); perturb = (int)(mix(cs, 98) % 3 ? mix(cs, 97) % 60 : 0);
    if (A.profile == "shared") p_shared(A, n, cs); else if (A.profile == "private") p_private(A, n, cs); else if (A.profile == "handles") p_handles(A, n, cs);
    else harness("unknown profile %s", A.profile.c_str());
    perturb = 0;
    count("page_waits", cond_waits); count("injected_delays", delays);
  });
}
