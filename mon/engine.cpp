#include <condition_variable>
#include <mutex>
#include <thread>
#include <chrono>
// engine --profile P --seed S --from A --to B --dir D [--stats F] [--progress F] [--trace]
// Runs the histories A..B-1 of profile P. Every history is a pure function of (P, S, index).
#include "hist.hpp"
using namespace hist;

#include <dirent.h>
// descriptors of this process that refer to files of the scratch folder
static int open_fds(const std::string& dir) {
  int n = 0;
  DIR* d = opendir("/proc/self/fd");
  if (!d) return -1;
  while (struct dirent* e = readdir(d)) {
    char b[4096]; std::string l = std::string("/proc/self/fd/") + e->d_name;
    ssize_t k = readlink(l.c_str(), b, sizeof b);
    if (k > 0 && std::string(b, (size_t)k).compare(0, dir.size() + 1, dir + "/") == 0) n++;
  }
  closedir(d);
  return n;
}
struct Args { std::string profile = "map", dir = ".", progress; uint64_t seed = 1; long from = 0, to = 1; int scale = 1; } A;

static void setup(Session& s) {
  s.keystyle = (int)s.rng.pick(std::vector<int>{0, 0, 0, 0, 1, 2, 3});
  s.valstyle = (int)s.rng.pick(std::vector<int>{0, 0, 0, 1, 1, 2, 2, 3});
  if (s.bs() >= 8192 && s.valstyle == 3) s.valstyle = 0;
  if (s.bs() > 16384) { if (s.keystyle == 1 || s.keystyle == 3) s.keystyle = 0; if (s.valstyle == 1) s.valstyle = 0; }
}
static std::string cfgsig(const Session& s) {
  char b[160]; snprintf(b, sizeof b, "cfg b%u n%u h%s k%d v%d c%lu r%d", s.bs(), s.cfg.nbuckets, s.hk().name, s.keystyle, s.valstyle, s.cfg.cache / s.bs(), s.cfg.rearr);
  return b;
}

// C01: one session, every store/lookup checked, full verification at growth points
static void p_map(Session& s) {
  s.create();
  int n = 40 + (int)s.rng.below(220) * A.scale;
  if (s.keystyle == 2) n *= 2;
  for (int i = 0; i < n; i++) {
    int t = (int)s.rng.below(100);
    if (t < 55) s.put_random(); else if (t < 90) s.get_random(); else if (t < 94) s.refused_random();
    else if (t < 96) s.sync(false); else if (t < 98) s.scan_random("get"); else s.verify_all("get");
  }
  s.verify_all("get");
  s.close_db();
}
// C02: many sessions
static void p_reopen(Session& s) {
  s.create();
  int sess = 3 + (int)s.rng.below(10);
  for (int k = 0; k < sess; k++) {
    int n = (int)s.rng.pick(std::vector<int>{0, 1, 1, 2, 3, 5, 10, 30, 60}) * A.scale;
    if (!s.ro) for (int i = 0; i < n; i++) { s.put_random(); if (s.rng.chance(10)) s.get_random(); if (s.rng.chance(3)) s.sync(false); if (s.rng.chance(3)) s.set_uinfo(); if (s.rng.chance(3)) s.set_all_cfgs(); }
    else for (int i = 0; i < 10; i++) s.get_random("reopen");
    s.reopen(true, s.rng.chance(20));
  }
  s.close_db();
}
// C02: a close after every single store
static void p_reopen1(Session& s) {
  s.create();
  int n = 10 + (int)s.rng.below(60) * A.scale;
  for (int i = 0; i < n; i++) {
    s.put_random();
    s.close_db();
    s.open_existing(false, s.random_cache(), s.rng.chance(80) ? s.cfg.rearr : (int)s.rng.below(2));
    if (s.rng.chance(25)) s.verify_session("reopen");
  }
  s.reopen(true, true);
  s.close_db();
}
// large tables: thousands of pairs, often in few buckets, so that chains grow long before they are split and many pages become free
static void p_bulk(Session& s) {
  s.cfg.nullinfo = false; s.cfg.bsize = s.rng.chance(80) ? 512 : 1024;
  s.cfg.hashk = s.rng.chance(20) ? 0 : s.rng.chance(60) ? hash_named("shift6") : hash_named("shift9");
  if (s.cfg.cache && s.cfg.cache < 20000) s.cfg.cache = s.rng.chance(30) ? 1 : 100000;
  s.keystyle = 4; s.valstyle = 2;
  s.create();
  int sess = 1 + (int)s.rng.below(3), total = 2000 + (int)s.rng.below(s.cfg.hashk ? 5000 : 9000) * A.scale;
  if (s.cfg.cache == 1) total /= 2;
  for (int k = 0; k < sess; k++) {
    for (int i = 0; i < total / sess; i++) {
      int t = (int)s.rng.below(1000);
      if (t < 900) s.put_random(); else if (t < 990) s.get_random(); else if (t < 995) s.refused_random(); else if (t < 996) s.sync(false); else if (t == 996) s.put(s.gen_key(), bytes(s.rng, s.rng.below(120000)), 0);
    }
    s.verify_all("get");
    s.scan(s.rng.chance(50), s.rng.chance(50), (int)s.rng.below(2), 0);
    s.close_db();
    s.open_existing(false, s.rng.chance(70) ? 0 : s.random_cache(), (int)s.rng.below(2));
  }
  s.verify_all("reopen");
  if (s.rng.chance(50)) s.scan(true, false, 1, 0);
  s.close_db();
}
// one bucket whose long chain falls apart when it is split: more pages become free at once than one free-page list can name; then long values and
// further pairs take them again, over sessions with and without page moving
static void p_churn(Session& s) {
  Rng& r = s.rng;
  s.cfg.nullinfo = false; s.cfg.bsize = r.chance(85) ? 512 : 1024; s.cfg.hashk = hash_named("named");
  s.cfg.nbuckets = s.cfg.bsize == 512 ? r.pick(std::vector<unsigned>{512, 1024, 1024}) : 1024u; s.cfg.uinfolen = 20; s.cfg.ncfg = 1;
  s.cfg.cache = r.pick(std::vector<unsigned long>{0, 0, 0, 20000, 200000});
  s.keystyle = 4; s.valstyle = 2;
  unsigned nb = s.cfg.nbuckets, bs = s.bs(), per = (bs - 28) / 4, lo = std::min(nb - 20, 2 * per + 20), B = lo + (unsigned)r.below(nb - lo), seq = 0;
  auto key = [&](unsigned h, size_t n) { std::string k((char*)&h, 4); seq++; k.append((char*)&seq, 4); k.resize(std::max(n, k.size()), 'k'); return k; };
  s.create();
  int pattern = (int)r.below(5) % 3, N = (int)B + 30 + (int)r.below(60);
  for (int i = 0; i < N; i++) {                               // large and small keys in turn; one sort leaves when the bucket is split
    bool big = pattern == 2 ? i % 3 != 0 : i % 2 == 0;
    bool leaves = pattern == 1 ? big : !big;
    s.put(key(B + (leaves ? nb : 0), big ? bs - 82 - r.below(3) : 20), bytes(r, r.below(3)));
    if (r.chance(1)) s.get_random();
  }
  std::vector<std::string> longs;
  auto more = [&] {
    int t = longs.empty() ? 0 : (int)r.below(100);
    if (t < 45) { std::string k = key((unsigned)r.below(2 * nb), 8); s.put(k, bytes(r, (size_t)(r.chance(50) ? per + r.below(per) : 1 + r.below(2 * per)) * (bs - 50) + r.below(60))); longs.push_back(k); }
    else if (t < 60) { int n = (int)r.below(60); for (int i = 0; i < n; i++) s.put(key(B + (r.chance(50) ? nb : 0), 8 + r.below(bs - 90)), bytes(r, r.below(40))); }
    else if (t < 75 && !longs.empty()) { auto& k = longs[r.below(longs.size())]; s.put(k, bytes(r, s.model[k].val.size() - r.below(2))); }
    else if (t < 85) { int n = (int)r.below(40); for (int i = 0; i < n; i++) s.put_random(); }
    else if (t < 92) s.sync(false); else s.get_random();
  };
  int sess = 2 + (int)r.below(4);
  for (int k = 0; k < sess; k++) {
    int n = (int)r.below(4) + (k == 0);
    for (int i = 0; i < n; i++) more();
    if (r.chance(30)) s.verify_all("get");
    s.close_db();
    s.open_existing(r.chance(10), r.chance(70) ? s.cfg.cache : s.random_cache(), r.chance(70));
    s.verify_all("reopen");
    if (s.ro) { s.close_db(); s.open_existing(false, 0, (int)r.below(2)); }
  }
  s.scan(r.chance(50), r.chance(50), (int)r.below(2), 0);
  s.close_db();
}
// more than 65536 pages, buckets or pairs: counters and page numbers past 16 bits
static int vast_kind = 0;
static void p_vast(Session& s) {
  s.cfg.nullinfo = false; s.cfg.bsize = 512; s.cfg.hashk = 0; s.cfg.cache = s.rng.pick(std::vector<unsigned long>{0, 0, 1 << 20, 256 << 20});
  s.keystyle = 4; s.valstyle = 2;
  int kind = vast_kind, n = 0;
  if (kind == 0) { s.cfg.nbuckets = s.rng.chance(50) ? 65536 : 70000; n = 3000; }
  else if (kind == 1) n = 4000;
  else { s.cfg.nbuckets = s.rng.pick(std::vector<unsigned>{1, 2, 1000}); n = 66000 + (int)s.rng.below(8000); }
  s.create();
  if (kind == 1) {                                             // the pages of one long value, with many pairs before or after it
    int before = s.rng.chance(50) ? n / 2 : 3;
    for (int i = 0; i < before; i++) s.put_random();
    s.put("long", bytes(s.rng, (34ul << 20) + s.rng.below(100000)), 0);
    n -= before;
  }
  for (int i = 0; i < n; i++) { if (s.rng.chance(96)) s.put_random(); else s.get_random(); }
  s.verify_all("get");
  s.scan(s.rng.chance(50), s.rng.chance(50), (int)s.rng.below(2), 0);
  s.close_db();
  s.open_existing(false, s.rng.chance(70) ? 0 : 64ul << 20, (int)s.rng.below(2));
  for (int i = 0; i < 500; i++) s.put_random();
  s.verify_all("reopen");
  s.close_db();
  s.open_existing(true, 0, 0);
  s.verify_all("readonly");
  s.scan(true, false, 1, 0);
  s.close_db();
  signature("vast kind " + std::to_string(kind) + " buckets " + std::to_string(s.cfg.nbuckets));
}
// C03: cursors
static void p_scan(Session& s) {
  s.create();
  if (s.rng.chance(50)) { s.scan_random(); s.scan(true, true, 0, 0); s.wander(); }
  int rounds = 2 + (int)s.rng.below(5);
  for (int k = 0; k < rounds; k++) {
    int n = (int)s.rng.pick(std::vector<int>{0, 1, 2, 3, 8, 20, 60, 120}) * A.scale;
    if (!s.ro) for (int i = 0; i < n; i++) s.put_random();
    s.scan(false, s.rng.chance(50), (int)s.rng.below(4), s.rng.chance(50) ? 40 : 0);
    s.scan(true, s.rng.chance(50), (int)s.rng.below(4), s.rng.chance(50) ? 40 : 0);
    s.wander(); s.multi_scan();
    s.exact_scan();
    if (s.rng.chance(50)) s.reopen(false, s.rng.chance(40));
    if (s.rng.chance(40)) { s.scan_random(); s.multi_scan(); s.wander(); }
  }
  s.verify_all("scan");
  s.close_db();
}
// C04: refused operations anywhere, especially right before sync/close
static void p_refuse(Session& s) {
  s.create();
  int sess = 2 + (int)s.rng.below(4);
  for (int k = 0; k < sess; k++) {
    int n = (int)s.rng.below(60) * A.scale;
    for (int i = 0; i < n; i++) {
      if (s.ro) { if (s.rng.chance(40)) { s.put(s.keys.empty() || s.rng.chance(50) ? s.gen_key() : s.model[s.keys[s.rng.below(s.keys.size())]].key, bytes(s.rng, s.rng.below(30)), 0); } else if (s.rng.chance(40)) s.refused_random(); else if (s.rng.chance(30)) { s.set_uinfo(); s.set_all_cfgs(); s.set_one_cfg(); } else s.get_random(); continue; }
      int t = (int)s.rng.below(100);
      if (t < 50) s.put_random(); else if (t < 80) s.refused_random(); else if (t < 90) s.get_random();
      else if (t < 92) s.set_uinfo(); else if (t < 94) s.set_all_cfgs(); else if (t < 95) s.set_one_cfg(); else if (t < 97) s.scan_random(); else { s.refused_random(); s.sync(true); }
    }
    for (int i = 0; i < 6; i++) s.refused_random();
    if (s.rng.chance(50)) s.verify_session("refuse");
    for (int i = 0; i < 3; i++) s.refused_random();
    s.reopen(true, s.rng.chance(30));
  }
  s.close_db();
}
// C09: a handle used by several threads in turn, one whole operation at a time: a page that an operation forgot to give back blocks the next thread
struct Relay {
  std::mutex m; std::condition_variable cv; std::vector<std::thread> t; std::function<void()> job; int turn = -1; bool stop = false;
  explicit Relay(int n) { for (int i = 0; i < n; i++) t.emplace_back([this, i] { std::unique_lock<std::mutex> l(m); for (;;) { cv.wait(l, [&] { return stop || turn == i; }); if (stop) return; job(); turn = -1; cv.notify_all(); } }); }
  void run(std::function<void()> f) {
    std::unique_lock<std::mutex> l(m); job = std::move(f); turn = next; cv.notify_all();
    if (!cv.wait_for(l, std::chrono::seconds(100), [&] { return turn == -1; })) violate("blocked", "an operation does not return in a thread of its own after other threads finished theirs");
  }
  int next = 0;
  ~Relay() { { std::lock_guard<std::mutex> l(m); stop = true; } cv.notify_all(); for (auto& x : t) x.join(); }
};
// C06: sync, then the process dies
static void p_sync(Session& s) {
  s.create();
  int n = 20 + (int)s.rng.below(150) * A.scale;
  int every = (int)s.rng.pick(std::vector<int>{3, 6, 12, 25});
  for (int i = 0; i < n; i++) {
    int t = (int)s.rng.below(100);
    if (t < 75) s.put_random(); else if (t < 85) s.get_random(); else if (t < 88) s.set_uinfo(); else if (t < 90) s.set_all_cfgs(); else if (t < 92) s.set_one_cfg();
    else if (t < 94) s.refused_random(); else if (t < 96) s.scan_random(); else if (t < 97) s.reopen(false, false);
    if (s.rng.chance(100 / every)) s.sync(true);
    if (s.rng.chance(3)) {                       // sync while a cursor is standing somewhere
      ffdb_cursor_t* c = s.cursor("sync"); std::string k;
      int m = (int)s.rng.below(8);
      for (int j = 0; j < m; j++) if (s.step(c, FFDB_NEXT, false, 0, k, "sync") != 0) break;
      s.sync(true);
      c->close(c);
    }
    if (s.rng.chance(4)) {                       // sync while a cursor of another thread is standing somewhere
      Relay r(1);
      ffdb_cursor_t* c = nullptr;
      r.run([&] {
        c = s.cursor("sync"); std::string k;
        int m = 1 + (int)s.rng.below(8);
        for (int j = 0; j < m; j++) if (s.step(c, s.rng.chance(85) ? FFDB_NEXT : FFDB_LAST, false, 0, k, "sync") != 0) break;
      });
      s.sync(true, false);
      count("syncs_beside_a_cursor");
      r.run([&] { c->close(c); });
    }
  }
  s.sync(true);
  s.close_db();
}
// C08: read-only sessions
static void p_ro(Session& s) {
  s.create();
  int rounds = 2 + (int)s.rng.below(4);
  for (int k = 0; k < rounds; k++) {
    int n = (int)s.rng.below(60) * A.scale;
    for (int i = 0; i < n; i++) { s.put_random(); if (s.rng.chance(4)) s.set_uinfo(); if (s.rng.chance(4)) s.set_all_cfgs(); }
    s.close_db();
    std::string before, after;
    slurp(s.path, before);
    struct stat st0; stat(s.path.c_str(), &st0);
    int sess = 1 + (int)s.rng.below(3);
    for (int q = 0; q < sess; q++) {
      s.open_existing(true, s.random_cache(), (int)s.rng.below(2));
      int m = (int)s.rng.below(40);
      for (int i = 0; i < m; i++) {
        int t = (int)s.rng.below(100);
        if (t < 40) s.get_random("ro"); else if (t < 50) s.scan_random("ro"); else if (t < 58) s.wander("ro");
        else if (t < 75) s.put(s.keys.empty() || s.rng.chance(50) ? s.gen_key() : s.model[s.keys[s.rng.below(s.keys.size())]].key, bytes(s.rng, s.rng.below(200)), s.rng.chance(20) ? FFDB_NOOVERWRITE : 0);
        else if (t < 80) s.set_uinfo(); else if (t < 84) s.set_all_cfgs(); else if (t < 88) s.set_one_cfg(); else if (t < 91) s.sync(false); else if (t < 94) s.get_uinfo("ro"); else if (t < 96) s.get_cfgs("ro"); else s.refused_random();
      }
      s.verify_session("ro");
      s.close_db();
      slurp(s.path, after);
      struct stat st1; stat(s.path.c_str(), &st1);
      if (after.size() != before.size()) violate("ro", "a read-only session changed the file length from %zu to %zu", before.size(), after.size());
      if (after != before) { size_t i = 0; while (after[i] == before[i]) i++; violate("ro", "a read-only session changed the file at byte %zu", i); }
      if (st1.st_mtim.tv_sec != st0.st_mtim.tv_sec || st1.st_mtim.tv_nsec != st0.st_mtim.tv_nsec) violate("ro", "a read-only session touched the file's modification time");
      count("ro_sessions");
    }
    s.open_existing(false, s.random_cache(), (int)s.rng.below(2));
  }
  s.verify_session("ro");
  s.close_db();
}
// C12: metadata
static void p_meta(Session& s) {
  s.create();
  s.get_uinfo();
  int n = 20 + (int)s.rng.below(100) * A.scale;
  for (int i = 0; i < n; i++) {
    int t = (int)s.rng.below(100);
    if (t < 20) s.put_random(); else if (t < 35) s.set_uinfo(); else if (t < 50) s.get_uinfo(); else if (t < 60) s.set_all_cfgs(); else if (t < 75) s.set_one_cfg(); else if (t < 90) s.get_cfgs();
    else if (t < 93) s.get_random("meta"); else if (t < 95) s.sync(false); else { s.reopen(false, s.rng.chance(20)); s.get_uinfo(); s.get_cfgs(); }
    if (s.ro && s.rng.chance(30)) s.reopen(true, false);
  }
  s.verify_session("meta");
  s.close_db(); s.open_existing(true, 0, 0); s.verify_session("meta"); s.close_db();
}
// C05 / C11: everything at once
static void p_mix(Session& s) {
  s.create();
  int n = 30 + (int)s.rng.below(200) * A.scale;
  for (int i = 0; i < n; i++) {
    int t = (int)s.rng.below(1000);
    if (s.ro && s.rng.chance(20)) s.reopen(false, false);
    if (t < 550) { if (s.ro) s.get_random(); else s.put_random(); }
    else if (t < 720) s.get_random(); else if (t < 780) s.refused_random();
    else if (t < 820) s.scan_random(); else if (t < 840) s.wander(); else if (t < 855) s.multi_scan();
    else if (t < 885) s.set_uinfo(); else if (t < 905) s.get_uinfo(); else if (t < 925) s.set_all_cfgs(); else if (t < 940) s.set_one_cfg(); else if (t < 955) s.get_cfgs();
    else if (t < 970) s.sync(!s.ro && s.rng.chance(50)); else s.reopen(s.rng.chance(50), s.rng.chance(15));
  }
  s.verify_session("get");
  s.close_db();
}

// C09
static void p_turns(Session& s) {
  int T = 2 + (int)s.rng.below(3);
  Relay r(T);
  auto in = [&](std::function<void()> f) { r.next = (int)s.rng.below(T); count("handed_over"); r.run(std::move(f)); };
  if (s.cfg.cache == 0 && s.rng.chance(50)) s.cfg.cache = s.bs() * 8ul;
  in([&] { s.create(); });
  int n = 30 + (int)s.rng.below(150) * A.scale;
  for (int i = 0; i < n; i++) in([&] {
    int t = (int)s.rng.below(1000);
    if (s.ro && s.rng.chance(20)) s.reopen(false, false);
    if (t < 560) { int k = 1 + (int)s.rng.below(6); for (int j = 0; j < k; j++) if (s.ro) s.get_random(); else s.put_random(); }
    else if (t < 700) s.get_random(); else if (t < 800) s.refused_random();
    else if (t < 830) s.scan_random(); else if (t < 850) s.wander(); else if (t < 865) s.multi_scan();
    else if (t < 885) s.set_uinfo(); else if (t < 905) s.get_uinfo(); else if (t < 925) s.set_all_cfgs(); else if (t < 940) s.set_one_cfg(); else if (t < 955) s.get_cfgs();
    else if (t < 975) s.sync(!s.ro && s.rng.chance(50)); else s.reopen(s.rng.chance(50), s.rng.chance(15));
  });
  in([&] { s.verify_all("turns"); });
  in([&] { s.scan_random("turns"); });
  in([&] { s.verify_session("turns"); });
  in([&] { s.close_db(); });
}
// C10: the same history under different cache sizes; results are checked against the model in every run and the
// files must hold the same pairs
static void p_cachediff(uint64_t cs, const std::string& path) {
  std::vector<unsigned long> caches;
  Rng r0(cs);
  Cfg base = gen_cfg(r0, true);
  base.nullinfo = false; if (!base.bsize) base.bsize = 512;
  unsigned b = base.real_bsize();
  caches = {1, b, b * 2ul, b * 3ul, b * 8ul, b * 40ul, 0};
  std::map<std::string, std::string> first; bool have = false;
  for (size_t ci = 0; ci < caches.size(); ci++) {
    Cfg c = base; c.cache = caches[ci];
    Session s(path, c, M_FSCK, cs + 17);
    setup(s);
    s.create();
    int n = 60 + (int)s.rng.below(140) * A.scale;
    for (int i = 0; i < n; i++) {
      int t = (int)s.rng.below(100);
      if (t < 65) s.put_random(); else if (t < 85) s.get_random("cache"); else if (t < 90) s.refused_random(); else if (t < 94) s.scan(s.rng.chance(40), s.rng.chance(60), (int)s.rng.below(4), 0, "cache");
      else if (t < 95) s.set_uinfo(); else if (t < 96) s.set_all_cfgs(); else if (t < 97) s.sync(false);
      else if (t < 98) { s.close_db(); int rr = (int)s.rng.below(2); s.open_existing(false, caches[ci], rr); }
    }
    s.verify_all("cache");
    s.close_db();
    std::string fb; slurp(path, fb);
    fsck::Result r = fsck::parse(fb, s.fh());
    if (!r.ok()) violate("cache", "cache of %lu bytes: %s", caches[ci], r.first().c_str());
    if (!have) { first = r.pairs; have = true; }
    else if (first != r.pairs) violate("cache", "the file written with a cache of %lu bytes holds other pairs than the one written with %lu", caches[ci], caches[0]);
    unlink(path.c_str());
    count("cache_runs");
    signature("cache " + std::to_string(caches[ci] / b) + " pages");
  }
}

#ifdef MON_MEM
// C10: memory held by the library, checked at every operation boundary
extern "C" { size_t mon_live_bytes(); size_t mon_live_blocks(); }
static Session* mem_s; static size_t mem_fixed; static long mem_max_excess = -1000000;
static void mem_check() {
  Session& s = *mem_s;
  if (!s.db) return;
  size_t bs = s.bs(), cache = s.cfg.nullinfo || !s.cache_now ? 128ul << 20 : s.cache_now;
  size_t pages = cache / bs;
  size_t meta = (s.expect_uinfolen() + 4) / (bs - 28) + 1 + s.expect_ncfg() / ((bs - 28) / 148) + 1;   // these stay in memory while in use
  size_t held = mon_live_bytes(), per = bs + 160;
  if (held < mem_fixed) mem_fixed = held;                       // the handle itself, seen right after opening
  size_t limit = mem_fixed + (pages + meta + 12) * per + 4096;
  long excess = ((long)held - (long)mem_fixed - (long)(pages * per)) / (long)per - (long)meta;
  if (excess > mem_max_excess) mem_max_excess = excess;
  count("memory_checks");
  if (held > limit) violate("memory", "the library holds %zu bytes with a cache of %zu bytes (%zu pages of %zu, %zu metadata pages; %zu blocks)", held, cache, pages, bs, meta, mon_live_blocks());
}
static void p_mem(Session& s) {
  mem_s = &s; op_hook() = mem_check;
  size_t base = mon_live_bytes();
  mem_fixed = ~0ul;
  s.create();
  mem_check();
  int sess = 1 + (int)s.rng.below(3);
  for (int k = 0; k < sess; k++) {
    int n = 60 + (int)s.rng.below(400) * A.scale;
    for (int i = 0; i < n; i++) {
      int t = (int)s.rng.below(1000);
      if (s.ro) t = 550 + (int)s.rng.below(300);
      if (t < 600) s.put_random(); else if (t < 760) s.get_random("cache"); else if (t < 850) s.refused_random();
      else if (t < 870) s.scan_random("cache"); else if (t < 890) s.wander("cache"); else if (t < 900) s.multi_scan("cache");
      else if (t < 920) s.set_uinfo(); else if (t < 930) s.set_all_cfgs(); else if (t < 950) s.set_one_cfg(); else if (t < 970) s.get_cfgs("cache"); else if (t < 980) s.sync(false); else if (t < 990) s.get_uinfo("cache"); else s.verify_all("cache");
    }
    s.verify_session("cache");
    s.close_db();
    if (mon_live_bytes() != base) violate("memory", "%zu bytes are still held after the last handle was closed", mon_live_bytes() - base);
    s.open_existing(s.rng.chance(30), s.rng.chance(60) ? s.cfg.cache : s.random_cache(), (int)s.rng.below(2));
  }
  s.verify_session("cache");
  s.close_db();
  if (mon_live_bytes() != base) violate("memory", "%zu bytes are still held after the last handle was closed", mon_live_bytes() - base);
  op_hook() = nullptr;
  if (getenv("MEMDBG")) fprintf(stderr, "EXCESS %ld\n", mem_max_excess);
}
#endif

int main(int argc, char** argv) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto v = [&]() { if (i + 1 >= argc) harness("missing value for %s", a.c_str()); return std::string(argv[++i]); };
    if (a == "--profile") A.profile = v(); else if (a == "--seed") A.seed = strtoull(v().c_str(), 0, 10); else if (a == "--from") A.from = atol(v().c_str());
    else if (a == "--to") A.to = atol(v().c_str()); else if (a == "--dir") A.dir = v(); else if (a == "--stats") statpath() = v(); else if (a == "--progress") A.progress = v();
    else if (a == "--trace") tracing() = true; else if (a == "--scale") A.scale = atoi(v().c_str()); else harness("unknown argument %s", a.c_str());
  }
  struct P { const char* n; void (*f)(Session&); unsigned m; bool small; };
  static const P ps[] = {
    {"map", p_map, M_GET, false}, {"reopen", p_reopen, M_REOPEN, false}, {"reopen1", p_reopen1, M_REOPEN, true}, {"scan", p_scan, M_SCAN, true}, {"refuse", p_refuse, M_REFUSE | M_FSCK, false},
    {"sync", p_sync, M_SYNC, false}, {"ro", p_ro, M_RO, false}, {"meta", p_meta, M_META, false}, {"mix", p_mix, M_FSCK, false}, {"fsck", p_mix, M_FSCK, true}, {"fsck1", p_reopen1, M_FSCK, true}, {"bulk", p_bulk, M_FSCK, true}, {"vast", p_vast, M_FSCK, true}, {"churn", p_churn, M_FSCK, true}, {"churnspace", p_churn, M_FSCK | M_SPACE, true}, {"bulkspace", p_bulk, M_FSCK | M_SPACE, true}, {"turns", p_turns, M_FSCK, true},
#ifdef MON_MEM
    {"mem", p_mem, 0, true},
#endif
  };
  int pf = A.progress.empty() ? -1 : open(A.progress.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  for (long n = A.from; n < A.to; n++) {
    if (pf >= 0) { char b[32]; int l = snprintf(b, sizeof b, "%-20ld\n", n); if (pwrite(pf, b, (size_t)l, 0) != l) harness("progress"); }
    uint64_t cs = mix(mix(A.seed, (uint64_t)n), std::hash<std::string>()(A.profile) & 0xffff);
    std::string path = A.dir + "/db";
    unlink(path.c_str());
    case_begin();
    int fds = open_fds(A.dir);
    if (A.profile == "cachediff") { p_cachediff(cs, path); case_end(true); continue; }
    const P* pp = nullptr;
    for (auto& p : ps) if (A.profile == p.n) pp = &p;
    if (!pp) harness("unknown profile %s", A.profile.c_str());
    Rng r(cs);
    Cfg c = gen_cfg(r, pp->small);
    Session s(path, c, pp->m, cs ^ 0xabcdef);
    setup(s);
    signature(cfgsig(s));
    if (n - A.from < 2) sample("case " + std::to_string(n) + ": " + cfgsig(s));
    vast_kind = (int)(n % 3);
    pp->f(s);
    count("pairs_at_end", s.model.size());
    case_end(s.model.size() >= 3 && stats().ops >= 10);
    unlink(path.c_str());
    if (open_fds(A.dir) != fds) violate("fd", "%d descriptors of the scratch folder open before the history, %d after everything was closed", fds, open_fds(A.dir));
  }
  dump_stats();
  printf("DONE\n");
  return 0;
}
