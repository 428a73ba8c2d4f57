// cxxfault --profile typed-read|ens-read|ens-update|multi-read|merge-read|typed-write|ens-write|merge-write : the typed stores while the
// operating system refuses or cuts short reads or writes of the database files. Read faults: a call answers exactly or fails visibly
// (error return, exception, fatal exit), and with reads working again the same object answers as before. Write faults: a session in
// which everything including the close reported success is complete. Each faulted run is a child process.
#include "types.hpp"
#include "harness.hpp"
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/uio.h>
#include <signal.h>
using namespace mon;
using namespace ty;

enum Kind { NONE, ONCE, SHORT_ONCE, BURST, FROM, SOME, NKINDS };
static const char* kname[] = {"none", "one-failure", "one-short", "burst", "from", "random-failures"};
struct Shared { volatile long calls, injected, ops, errors, hits, openreads, healed, done; char text[400]; };
static Shared* sh;
static struct Plan { int kind = NONE; long k = 0, len = 1; int pct = 0; bool armed = false, writes = false; Rng r{1}; } plan;
static long decide(int fd, size_t n, bool wr) {
  if (!plan.armed || fd <= 2 || wr != plan.writes) return (long)n;
  long w = ++sh->calls;
  auto fail = [&]() { sh->injected++; errno = wr && plan.r.chance(50) ? ENOSPC : EIO; return -1l; };
  auto half = [&]() { if (n < 2) return (long)n; sh->injected++; return (long)(1 + plan.r.below(n - 1)); };
  switch (plan.kind) {
    case ONCE: if (w == plan.k) return fail(); break;
    case SHORT_ONCE: if (w == plan.k) return half(); break;
    case BURST: if (w >= plan.k && w < plan.k + plan.len) return fail(); break;
    case FROM: if (w >= plan.k) return fail(); break;
    case SOME: if (plan.r.chance(plan.pct)) return plan.r.chance(25) ? half() : fail(); break;
  }
  return (long)n;
}
extern "C" {
ssize_t __real_read(int, void*, size_t); ssize_t __real_pread(int, void*, size_t, off_t); ssize_t __real_pread64(int, void*, size_t, off64_t); ssize_t __real_readv(int, const struct iovec*, int);
ssize_t __wrap_read(int fd, void* b, size_t n) { long k = decide(fd, n, false); return k < 0 ? -1 : __real_read(fd, b, (size_t)k); }
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) { long k = decide(fd, n, false); return k < 0 ? -1 : __real_pread(fd, b, (size_t)k, o); }
ssize_t __wrap_pread64(int fd, void* b, size_t n, off64_t o) { long k = decide(fd, n, false); return k < 0 ? -1 : __real_pread64(fd, b, (size_t)k, o); }
ssize_t __wrap_readv(int fd, const struct iovec* v, int c) { size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len; long k = decide(fd, n, false); if (k < 0) return -1; if ((size_t)k == n) return __real_readv(fd, v, c); return __real_read(fd, v[0].iov_base, (size_t)k < v[0].iov_len ? (size_t)k : v[0].iov_len); }
ssize_t __real_write(int, const void*, size_t); ssize_t __real_pwrite(int, const void*, size_t, off_t); ssize_t __real_pwrite64(int, const void*, size_t, off64_t); ssize_t __real_writev(int, const struct iovec*, int);
ssize_t __wrap_write(int fd, const void* b, size_t n) { long k = decide(fd, n, true); return k < 0 ? -1 : __real_write(fd, b, (size_t)k); }
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o) { long k = decide(fd, n, true); return k < 0 ? -1 : __real_pwrite(fd, b, (size_t)k, o); }
ssize_t __wrap_pwrite64(int fd, const void* b, size_t n, off64_t o) { long k = decide(fd, n, true); return k < 0 ? -1 : __real_pwrite64(fd, b, (size_t)k, o); }
ssize_t __wrap_writev(int fd, const struct iovec* v, int c) { size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len; long k = decide(fd, n, true); if (k < 0) return -1; if ((size_t)k == n) return __real_writev(fd, v, c); return __real_write(fd, v[0].iov_base, (size_t)k < v[0].iov_len ? (size_t)k : v[0].iov_len); }
}
[[noreturn]] static void bad(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vsnprintf(sh->text, sizeof sh->text, fmt, ap); va_end(ap); _exit(70); }

// runs one call of the library: 0 it returned, 1 it threw; hit tells whether a fault fell into it
static bool hit;
template <class F> static bool threw(F f) {
  long i0 = sh->injected; sh->ops++; bool t = false;
  try { f(); } catch (std::exception& e) { t = true; }
  hit = sh->injected != i0; if (hit) sh->hits++;
  if (t) { sh->errors++; if (!hit) bad("exception although nothing was refused"); }
  return t;
}
static void refused(const char* what, int rc) { sh->errors++; if (!hit) bad("%s fails (%d) although nothing was refused", what, rc); }

typedef std::vector<std::string> Rec;
struct World {                                             // the files of one case and what they hold
  std::string dir, p; Rng& r;
  std::vector<std::string> files; std::vector<std::map<std::string, std::string>> m; std::vector<std::map<std::string, Rec>> em; std::vector<std::string> ui;
  std::vector<int> cfgs; std::vector<ConfigInfo> ci; int n = 1, width = 8; std::vector<std::string> pool; unsigned bs = 512;
  std::vector<std::string> orig;
  World(const std::string& d, const std::string& pr, Rng& rr) : dir(d), p(pr), r(rr) {}
  template <class S> void knobs(S& s) { s.setPageSize(bs); s.setNumberBuckets((unsigned)r.below(12)); if (r.chance(50)) s.enablePageMove(); if (r.chance(60)) s.setMaxUserInfoLen(50 + (unsigned)r.below(900)); }
  std::string elem() { std::string s = bytes(r, (size_t)width); if (s[0] == 'X') s[0] = 'Y'; return s; }
  std::vector<Fixed> objs(const Rec& v) { std::vector<Fixed> o; for (auto& e : v) o.push_back(Fixed(e)); return o; }
  void build() {
    bs = std::vector<unsigned>{512, 512, 1024, 4096}[r.below(4)];
    width = 1 + (int)r.below(40); Fixed::width() = width;
    n = 1 + (int)r.below(r.chance(30) ? 20 : 5);
    for (int i = 0; i < n; i++) { cfgs.push_back(10 + 3 * i); }
    int np = 1 + (int)r.below(r.chance(25) ? 250 : 60), nf = p.compare(0, 5, "multi") ? 1 : 2 + (int)r.below(3);
    bool ens = p.compare(0, 3, "ens") == 0 || (p.compare(0, 5, "multi") == 0 && r.chance(50));
    std::set<std::string> u; while ((int)u.size() < np) u.insert(randkey(r, false));
    pool.assign(u.begin(), u.end());
    if (p.compare(0, 5, "merge") == 0) { nf = n; ens = false; }
    m.resize((size_t)nf); em.resize((size_t)nf); ui.resize((size_t)nf);
    for (int f = 0; f < nf; f++) {
      std::string fn = dir + "/f" + std::to_string(f); unlink(fn.c_str()); files.push_back(fn);
      ui[f] = bytes(r, r.below(50));
      if (ens) {
        AllConfStoreDB<StringKey, Fixed> s(cfgs); knobs(s);
        if (s.open(fn, O_RDWR | O_CREAT | O_TRUNC, 0664) != 0) violate("cxxfault", "cannot create");
        for (auto& k : pool) if (nf == 1 || r.chance(60)) { Rec v; for (int i = 0; i < n; i++) v.push_back(elem()); em[f][k] = v; if (s.insert(StringKey(k), objs(v)) != 0) violate("cxxfault", "insert failed"); }
        if (em[f].empty()) { Rec v; for (int i = 0; i < n; i++) v.push_back(elem()); em[f]["one"] = v; s.insert(StringKey("one"), objs(v)); }
        for (int i = 0; i < n; i++) { ConfigInfo c; c.configNumber(cfgs[i]); c.index(i); c.insert((int)r.below(2)); c.type((int)r.below(9)); c.modifiedTime((int)r.below(1 << 30)); c.urlname("u" + std::to_string(r.below(1000))); if (s.setConfigInfo(c) != 0) violate("cxxfault", "setConfigInfo failed"); ci.push_back(c); }
        s.insertUserdata(ui[f]);
        if (s.close() != 0) violate("cxxfault", "close failed");
      } else {
        ConfDataStoreDB<StringKey, UserData> s; knobs(s);
        if (s.open(fn, O_RDWR | O_CREAT | O_TRUNC, 0664) != 0) violate("cxxfault", "cannot create");
        for (auto& k : pool) if (nf == 1 || p[0] != 'm' || p[1] == 'e' || r.chance(60)) { std::string d = p[1] == 'e' ? bytes(r, (size_t)width) : bytes(r, r.chance(15) ? r.below(2000) : r.below(60)); m[f][k] = d; if (s.insert(StringKey(k), UserData(d)) != 0) violate("cxxfault", "insert failed"); }
        s.insertUserdata(ui[f]);
        if (s.close() != 0) violate("cxxfault", "close failed");
      }
    }
    pool.push_back("never stored"); pool.push_back("nor this");
    for (auto& f : files) { std::string b; if (!slurp(f, b)) harness("read"); orig.push_back(b); }
  }
  void restore() { for (size_t i = 0; i < files.size(); i++) spew(files[i], orig[i]); unlink((dir + "/all").c_str()); }
};
// ---- read faults ----------------------------------------------------------------------------------------------
template <class S> static bool opened(S& s, const std::string& f, Rng& r, bool ro) {
  if (r.chance(75)) s.setCacheSize(1 + (unsigned)r.below(4000));
  if (r.chance(50)) plan.armed = true;
  int rc = 0; bool t = threw([&] { rc = s.open(f, ro ? O_RDONLY : O_RDWR, 0664); });
  sh->openreads = sh->calls;
  if (!t && rc != 0) refused("open", rc);
  if (t || rc != 0) return false;
  plan.armed = true;
  return true;
}
template <class S> static void typed_op(S& s, World& w, Rng& r, int what) {
  auto& m = w.m[0]; std::string k = r.pick(w.pool), ks = Tr<StringKey>::ser(k); auto it = m.find(k); bool have = it != m.end();
  std::vector<StringKey> kv; std::vector<UserData> dv; std::vector<std::string> bk, bd;
  auto allk = [&](const std::multiset<std::string>& got, bool ser, const char* nm) { std::multiset<std::string> want; for (auto& x : m) want.insert(ser ? Tr<StringKey>::ser(x.first) : x.first); if (got != want) bad("%s delivers %zu keys as if complete, %zu are stored (a read was refused: %d)", nm, got.size(), want.size(), hit); };
  switch (what) {
    case 0: case 1: { UserData d("sentinel"); int rc = 0; if (threw([&] { rc = s.get(StringKey(k), d); })) break;
      if (rc == 0) { if (!have || (std::string)d != it->second) bad("get of key %s delivers other bytes than stored (a read was refused: %d)", show(k).c_str(), hit); }
      else if (rc == FFDB_NOT_FOUND) { if (have) bad("get says the stored key %s is absent (a read was refused: %d)", show(k).c_str(), hit); } else refused("get", rc); break; }
    case 2: { std::string d = "sentinel"; int rc = 0; if (threw([&] { rc = s.getBinary(ks, d); })) break;
      if (rc == 0) { if (!have || d != Tr<UserData>::ser(it->second)) bad("getBinary of key %s delivers other bytes than stored", show(k).c_str()); }
      else if (rc == FFDB_NOT_FOUND) { if (have) bad("getBinary says the stored key %s is absent (a read was refused: %d)", show(k).c_str(), hit); } else refused("getBinary", rc); break; }
    case 3: case 4: { bool e = false; if (threw([&] { e = s.exist(StringKey(k)); })) break; if (e != have) bad("exist says %d for the %s key %s (a read was refused: %d)", e, have ? "stored" : "absent", show(k).c_str(), hit); break; }
    case 5: { if (threw([&] { s.keys(kv); })) break; std::multiset<std::string> g; for (auto& x : kv) g.insert((std::string)x); allk(g, false, "keys"); break; }
    case 6: { if (threw([&] { s.binaryKeys(bk); })) break; allk(std::multiset<std::string>(bk.begin(), bk.end()), true, "binaryKeys"); break; }
    case 7: { if (threw([&] { s.keysAndData(kv, dv); })) break; std::multiset<std::string> g; if (kv.size() != dv.size()) bad("keysAndData: %zu keys, %zu values", kv.size(), dv.size());
      for (size_t i = 0; i < kv.size(); i++) { std::string x = (std::string)kv[i]; g.insert(x); if (!m.count(x) || (std::string)dv[i] != m[x]) bad("keysAndData delivers a wrong pair"); } allk(g, false, "keysAndData"); break; }
    case 8: { if (threw([&] { s.binaryKeysAndData(bk, bd); })) break; if (bk.size() != bd.size()) bad("binaryKeysAndData: %zu keys, %zu values", bk.size(), bd.size());
      std::set<std::string> want; for (auto& x : m) want.insert(Tr<StringKey>::ser(x.first) + "|" + Tr<UserData>::ser(x.second)); for (size_t i = 0; i < bk.size(); i++) if (!want.count(bk[i] + "|" + bd[i])) bad("binaryKeysAndData delivers a wrong pair");
      allk(std::multiset<std::string>(bk.begin(), bk.end()), true, "binaryKeysAndData"); break; }
    case 9: { if (threw([&] { s.stringKeysAndData(bk, dv); })) break; if (bk.size() != dv.size()) bad("stringKeysAndData: %zu keys, %zu values", bk.size(), dv.size()); allk(std::multiset<std::string>(bk.begin(), bk.end()), true, "stringKeysAndData"); break; }
    case 10: { if (threw([&] { s.someKeyAndData(kv, dv); })) break; if (kv.size() != 1 || dv.size() != 1) bad("someKeyAndData delivers %zu keys of %zu (a read was refused: %d)", kv.size(), m.size(), hit); std::string x = (std::string)kv[0]; if (!m.count(x) || (std::string)dv[0] != m[x]) bad("someKeyAndData delivers a wrong pair"); break; }
    case 11: { std::string u = "sentinel"; int rc = 0; if (threw([&] { rc = s.getUserdata(u); })) break; if (rc == 0) { if (u != w.ui[0]) bad("getUserdata delivers other bytes (a read was refused: %d)", hit); } else refused("getUserdata", rc); break; }
  }
}
static void typed_read(World& w, uint64_t cs) {
  Rng r(cs ^ 3);
  ConfDataStoreDB<StringKey, UserData>* s = new ConfDataStoreDB<StringKey, UserData>();
  if (!opened(*s, w.files[0], r, r.chance(60))) _exit(0);
  for (int i = 0, e = 6 + (int)r.below(40); i < e; i++) typed_op(*s, w, r, (int)r.below(12));
  plan.armed = false; sh->healed = 1;
  for (auto& k : w.pool) { std::vector<std::string> keep = w.pool; w.pool.assign(1, k); typed_op(*s, w, r, 0); typed_op(*s, w, r, 3); w.pool = keep; }
  for (int i = 5; i < 12; i++) typed_op(*s, w, r, i);
  int rc = 0; threw([&] { rc = s->close(); }); if (rc != 0) bad("close reports %d although nothing was stored", rc);
  sh->done = 1;
}
typedef AllConfStoreDB<StringKey, Fixed> ES;
static void ens_get(ES& s, const std::map<std::string, Rec>& m, const std::string& k, int how, bool indoubt = false) {
  auto it = m.find(k); bool have = it != m.end(); std::vector<Fixed> v; std::vector<std::string> b; int rc = 0; bool e = false; std::string ks = Tr<StringKey>::ser(k);
  bool t = threw([&] { switch (how) { case 0: rc = s.get(StringKey(k), v); break; case 1: rc = s.getFromStringKey(ks, v); break; case 2: rc = s.getBinaryData(ks, b); break; default: e = s.exist(StringKey(k)); } });
  if (t || indoubt) return;
  if (how > 2) { if (e != have) bad("exist says %d for the %s key %s (a read was refused: %d)", e, have ? "stored" : "absent", show(k).c_str(), hit); return; }
  if (rc == 0) { Rec g = b; for (auto& x : v) g.push_back(x.s); if (!have || g != it->second) bad("ensemble lookup %d of key %s delivers other elements than stored (a read was refused: %d)", how, show(k).c_str(), hit); }
  else if (rc == FFDB_NOT_FOUND) { if (have) bad("ensemble lookup %d says the stored key %s is absent (a read was refused: %d)", how, show(k).c_str(), hit); }
  else refused("ensemble lookup", rc);
}
static void ens_op(ES& s, World& w, Rng& r, int what) {
  auto& m = w.em[0];
  std::vector<StringKey> kv; std::vector<std::vector<Fixed>> dv; std::vector<std::string> bk;
  switch (what) {
    case 0: case 1: case 2: case 3: ens_get(s, m, r.pick(w.pool), what); break;
    case 4: { if (threw([&] { s.keysAndData(kv, dv); })) break; if (kv.size() != m.size() || dv.size() != m.size()) bad("keysAndData delivers %zu keys and %zu values as if complete, %zu are stored (a read was refused: %d)", kv.size(), dv.size(), m.size(), hit);
      for (size_t i = 0; i < kv.size(); i++) { auto it = m.find((std::string)kv[i]); Rec g; for (auto& x : dv[i]) g.push_back(x.s); if (it == m.end() || it->second != g) bad("keysAndData delivers a wrong record"); } break; }
    case 5: { if (threw([&] { s.stringKeysAndData(bk, dv); })) break; if (bk.size() != m.size() || dv.size() != m.size()) bad("stringKeysAndData delivers %zu keys as if complete, %zu are stored", bk.size(), m.size()); break; }
    case 6: { if (threw([&] { s.keys(kv); })) break; if (kv.size() != m.size()) bad("keys delivers %zu keys as if complete, %zu are stored (a read was refused: %d)", kv.size(), m.size(), hit); break; }
    case 7: { std::set<std::string> g; if (threw([&] { for (auto i = s.begin(); i != s.end(); ++i) g.insert((std::string)*i); })) break; if (g.size() != m.size()) bad("iterating delivers %zu keys as if complete, %zu are stored (a read was refused: %d)", g.size(), m.size(), hit); break; }
    case 8: { std::vector<ConfigInfo> g; int rc = 0; if (threw([&] { rc = s.getAllConfigInfo(g); })) break; if (rc != 0) { refused("getAllConfigInfo", rc); break; }
      if ((int)g.size() != w.n) bad("%zu configurations, %d stored", g.size(), w.n); for (int i = 0; i < w.n; i++) if (g[i].configNumber() != w.ci[i].configNumber() || g[i].index() != i || g[i].inserted() != w.ci[i].inserted() || g[i].type() != w.ci[i].type() || g[i].modifiedTime() != w.ci[i].modifiedTime() || g[i].urlname() != w.ci[i].urlname()) bad("configuration slot %d reads back differently (a read was refused: %d)", i, hit); break; }
    case 9: { int i = (int)r.below((uint64_t)w.n); ConfigInfo g; int rc = 0; if (threw([&] { rc = s.getConfigInfo((unsigned)w.cfgs[i], g); })) break; if (rc != 0) { refused("getConfigInfo", rc); break; } if (g.index() != i || g.urlname() != w.ci[i].urlname() || g.modifiedTime() != w.ci[i].modifiedTime()) bad("a configuration reads back differently"); break; }
    case 10: { std::string u = "sentinel"; int rc = 0; if (threw([&] { rc = s.getUserdata(u); })) break; if (rc == 0) { if (u != w.ui[0]) bad("getUserdata delivers other bytes (a read was refused: %d)", hit); } else refused("getUserdata", rc); break; }
    case 11: if (s.size() != w.n || (int)s.getMaxNumberConfigs() != w.n) bad("the open store says %d configurations (room for %u), the file has %d", s.size(), s.getMaxNumberConfigs(), w.n); break;
  }
}
static void ens_read(World& w, uint64_t cs) {
  Rng r(cs ^ 5);
  bool bare = r.chance(50); ES* s = bare ? new ES() : new ES(w.cfgs);
  bool ok = opened(*s, w.files[0], r, r.chance(60));
  if (!ok) {                                               // the object that failed to open is used again, for a file of its own
    plan.armed = false; sh->healed = 1;
    if (s->open(w.files[0], O_RDONLY, 0664) != 0) bad("the file does not open although reads work again");
  }
  for (int i = 0, e = 6 + (int)r.below(40); i < e; i++) ens_op(*s, w, r, (int)r.below(12));
  plan.armed = false; sh->healed = 1;
  for (auto& k : w.pool) for (int h = 0; h < 4; h++) ens_get(*s, w.em[0], k, h);
  for (int i = 4; i < 12; i++) ens_op(*s, w, r, i);
  if (s->close() != 0) bad("close reports an error although nothing was stored");
  if (!bare && r.chance(40)) {                             // and opened on a new file it describes its configurations there
    std::string nf = w.dir + "/new"; unlink(nf.c_str());
    if (s->open(nf, O_RDWR | O_CREAT | O_TRUNC, 0664) != 0) bad("cannot create a second ensemble with the same object");
    std::vector<ConfigInfo> g; if (s->getAllConfigInfo(g) != 0 || (int)g.size() != w.n) bad("the second ensemble has %zu configurations, the object had %d", g.size(), w.n);
    for (int i = 0; i < w.n; i++) if (g[i].configNumber() != w.cfgs[i] || g[i].index() != i) bad("slot %d of the second ensemble describes configuration %d, the object had %d", i, g[i].configNumber(), w.cfgs[i]);
    s->close(); unlink(nf.c_str());
  }
  delete s;
  sh->done = 1;
}
// records built up by single updates in a new ensemble, with a cache that holds almost nothing, and in an old one
static void ens_update(World& w, uint64_t cs) {
  Rng r(cs ^ 6);
  bool neu = r.chance(70);
  std::string f = neu ? w.dir + "/all" : w.files[0];
  ES* s = new ES(w.cfgs);
  s->setPageSize(512); if (r.chance(50)) s->setNumberBuckets(1 + (unsigned)r.below(8));
  s->setCacheSize(1 + (unsigned)r.below(3000));
  if (r.chance(50)) s->enablePageMove();
  if (s->open(f, neu ? O_RDWR | O_CREAT | O_TRUNC : O_RDWR, 0664) != 0) bad("open failed");
  std::map<std::string, Rec> m; if (!neu) m = w.em[0];
  std::set<std::string> doubt;
  plan.armed = true;
  for (int i = 0, e = 20 + (int)r.below(150); i < e; i++) {
    std::string k = r.pick(w.pool); auto it = m.find(k); int idx = (int)r.below((uint64_t)w.n);
    if (doubt.count(k)) continue;
    if (r.chance(25)) { ens_get(*s, m, k, (int)r.below(4)); continue; }
    std::string el = w.elem(); int rc = 0; bool t;
    if (r.chance(70)) {
      if (it == m.end() && !neu) continue;
      t = threw([&] { rc = s->update(StringKey(k), Fixed(el), w.cfgs[idx], idx); });
      if (!t && rc == 0) { if (it == m.end()) m[k] = Rec((size_t)w.n, std::string((size_t)w.width, '\0')); m[k][idx] = el; }
    } else {
      Rec v; for (int j = 0; j < w.n; j++) v.push_back(w.elem());
      t = threw([&] { rc = s->insert(StringKey(k), w.objs(v)); });
      if (!t && rc == 0) m[k] = v;
    }
    if (t || rc != 0) { if (!t) refused("store", rc); doubt.insert(k); m.erase(k); }
  }
  plan.armed = false; sh->healed = 1;
  for (auto& k : w.pool) if (!doubt.count(k)) ens_get(*s, m, k, (int)r.below(4));
  if (s->close() != 0) bad("close reports an error although writes work");
  delete s;
  if (m.empty()) { sh->done = 1; return; }
  s = new ES(w.cfgs);
  if (s->open(f, O_RDONLY, 0664) != 0) bad("the file does not open");
  for (auto& k : w.pool) if (!doubt.count(k)) ens_get(*s, m, k, (int)r.below(4));
  delete s;
  sh->done = 1;
}
static void multi_read(World& w, uint64_t cs) {
  Rng r(cs ^ 8);
  bool ens = false; for (auto& e : w.em) if (!e.empty()) ens = true;
  size_t nf = w.files.size();
  auto first = [&](const std::string& k) { size_t f = 0; while (f < nf && !(ens ? w.em[f].count(k) : w.m[f].count(k))) f++; return f; };
  if (r.chance(50)) plan.armed = true;
  if (!ens) {
    ConfDataStoreMultipleDB<StringKey, UserData> a; int rc = 0;
    if (threw([&] { rc = a.open(w.files); })) _exit(0);
    sh->openreads = sh->calls;
    if (rc != 0) { refused("open", rc); _exit(0); }
    plan.armed = true;
    auto op = [&](int what, const std::string& k) {
      size_t f = first(k); bool have = f < nf; std::string ks = Tr<StringKey>::ser(k);
      if (what == 0) { UserData d("sentinel"); if (threw([&] { rc = a.get(StringKey(k), d); })) return; if (rc == 0) { if (!have || (std::string)d != w.m[f][k]) bad("get of key %s: not the bytes of file %zu, the first that has it (a read was refused: %d)", show(k).c_str(), f, hit); } else if (rc == FFDB_NOT_FOUND) { if (have) bad("get says key %s, stored in file %zu of %zu, is absent (a read was refused: %d)", show(k).c_str(), f, nf, hit); } else refused("get", rc); }
      else if (what == 1) { std::string d; if (threw([&] { rc = a.getBinary(ks, d); })) return; if (rc == 0) { if (!have || d != Tr<UserData>::ser(w.m[f][k])) bad("getBinary of key %s: not the bytes of file %zu, the first that has it (a read was refused: %d)", show(k).c_str(), f, hit); } else if (rc == FFDB_NOT_FOUND) { if (have) bad("getBinary says key %s, stored in file %zu of %zu, is absent (a read was refused: %d)", show(k).c_str(), f, nf, hit); } else refused("getBinary", rc); }
      else if (what == 2) { bool e = false; if (threw([&] { e = a.exist(StringKey(k)); })) return; if (e != have) bad("exist says %d for key %s, first file %zu of %zu (a read was refused: %d)", e, show(k).c_str(), f, nf, hit); }
      else if (what == 3) { std::vector<StringKey> v; if (threw([&] { a.keys(v); })) return; size_t t = 0; for (auto& x : w.m) t += x.size(); if (v.size() != t) bad("keys delivers %zu as if complete, %zu are stored", v.size(), t); }
      else { std::string u; if (threw([&] { rc = a.getUserdata(u); })) return; if (rc == 0) { if (u != w.ui[0]) bad("user data differs"); } else refused("getUserdata", rc); }
    };
    for (int i = 0, e = 6 + (int)r.below(60); i < e; i++) op((int)r.below(5), r.pick(w.pool));
    plan.armed = false; sh->healed = 1;
    for (auto& k : w.pool) for (int i = 0; i < 3; i++) op(i, k);
    op(3, "x"); op(4, "x");
  } else {
    AllConfStoreMultipleDB<StringKey, Fixed> a; int rc = 0;
    if (threw([&] { rc = a.open(w.files); })) _exit(0);
    sh->openreads = sh->calls;
    if (rc != 0) { refused("open", rc); _exit(0); }
    plan.armed = true;
    auto op = [&](int what, const std::string& k) {
      size_t f = first(k); bool have = f < nf;
      if (what == 0) { std::vector<Fixed> d; if (threw([&] { rc = a.get(StringKey(k), d); })) return; Rec g; for (auto& x : d) g.push_back(x.s); if (rc == 0) { if (!have || g != w.em[f][k]) bad("get of key %s: not the elements of file %zu, the first that has it (a read was refused: %d)", show(k).c_str(), f, hit); } else if (rc == FFDB_NOT_FOUND) { if (have) bad("get says key %s, stored in file %zu of %zu, is absent (a read was refused: %d)", show(k).c_str(), f, nf, hit); } else refused("get", rc); }
      else if (what == 1) { bool e = false; if (threw([&] { e = a.exist(StringKey(k)); })) return; if (e != have) bad("exist says %d for key %s, first file %zu of %zu (a read was refused: %d)", e, show(k).c_str(), f, nf, hit); }
      else { std::string u; if (threw([&] { rc = a.getUserdata(u); })) return; if (rc == 0) { if (u != w.ui[0]) bad("user data differs"); } else refused("getUserdata", rc); }
    };
    for (int i = 0, e = 6 + (int)r.below(60); i < e; i++) op((int)r.below(3), r.pick(w.pool));
    plan.armed = false; sh->healed = 1;
    for (auto& k : w.pool) for (int i = 0; i < 2; i++) op(i, k);
    op(2, "x");
  }
  sh->done = 1;
}
// ---- merging, read or write faults -----------------------------------------------------------------------------
static bool merge_complete(World& w) {                     // judged without faults
  AllConfStoreDB<StringKey, UserData> all; int n = w.n;
  if (all.open(w.dir + "/all", O_RDONLY, 0400) != 0) bad("the merged store does not open although the merge reported nothing");
  std::vector<std::string> bk; all.binaryKeys(bk);
  if (bk.size() != w.m[0].size()) bad("the merged store has %zu keys, the sources have %zu, and the merge reported nothing", bk.size(), w.m[0].size());
  for (auto& x : w.m[0]) {
    std::string want, got; for (int i = 0; i < n; i++) want += Tr<UserData>::ser(w.m[i][x.first]);
    if (all.getBinary(Tr<StringKey>::ser(x.first), got) != 0 || got != want) bad("the merged record of key %s is not made of its sources' values, and the merge reported nothing", show(x.first).c_str());
  }
  std::vector<ConfigInfo> g; if (all.getAllConfigInfo(g) != 0 || (int)g.size() != n) bad("the merged store's configurations cannot be read");
  for (int i = 0; i < n; i++) if (g[i].configNumber() != w.cfgs[i] || !g[i].inserted() || g[i].urlname() != w.files[i]) bad("configuration slot %d is not described as merged, and the merge reported nothing", i);
  return true;
}
static void merging(World& w, uint64_t cs) {
  Rng r(cs ^ 12);
  AllConfStoreDB<StringKey, UserData>* all = new AllConfStoreDB<StringKey, UserData>(w.cfgs, w.files);
  all->setPageSize(512); all->setNumberBuckets((unsigned)r.below(9)); if (r.chance(50)) all->enablePageMove(); if (r.chance(60)) all->setCacheSize(1 + (unsigned)r.below(4000));
  if (plan.writes && r.chance(30)) plan.armed = true;
  int rc = 0; if (threw([&] { rc = all->open(w.dir + "/all", O_RDWR | O_CREAT | O_TRUNC, 0664); })) _exit(0);
  if (rc != 0) { refused("open", rc); _exit(0); }
  plan.armed = true;
  unsigned mem = r.chance(40) ? 1 + (unsigned)r.below(3000) : 100000000;
  if (threw([&] { ConfDataDBMerger<StringKey, UserData> mg(w.cfgs, w.files, mem); mg.setDatabaseHandle(all); mg.merge(); })) _exit(0);
  bool calm = r.chance(30); if (calm) plan.armed = false;
  if (threw([&] { rc = all->close(); })) _exit(0);
  if (rc != 0) { sh->errors++; if (!sh->injected) bad("close fails although nothing was refused"); _exit(0); }
  plan.armed = false;
  merge_complete(w);
  sh->done = 1;
}
// ---- write faults -----------------------------------------------------------------------------------------------
static void typed_write(World& w, uint64_t cs) {
  Rng r(cs ^ 14);
  bool ens = w.p == "ens-write", failed = false; int n = w.n;
  std::string f = r.chance(50) ? w.dir + "/all" : w.files[0]; bool neu = f != w.files[0];
  std::map<std::string, std::string> m, ever; std::map<std::string, std::set<std::string>> any;
  std::string ui; bool uset = false;
  auto join = [&](const Rec& v) { std::string s; for (auto& e : v) s += e; return s; };
  if (!neu) { if (ens) for (auto& x : w.em[0]) m[x.first] = join(x.second); else for (auto& x : w.m[0]) m[x.first] = Tr<UserData>::ser(x.second); }
  for (auto& x : m) any[x.first].insert(x.second);
  ConfDataStoreDB<StringKey, UserData>* s = ens ? nullptr : new ConfDataStoreDB<StringKey, UserData>(); ES* e = ens ? new ES(w.cfgs) : nullptr;
  auto knob = [&](auto& x) { x.setPageSize(512); x.setCacheSize(1 + (unsigned)r.below(5000)); if (r.chance(50)) x.enablePageMove(); };
  if (ens) knob(*e); else knob(*s);
  if (r.chance(30)) plan.armed = true;
  int rc = 0, fl = neu ? O_RDWR | O_CREAT | O_TRUNC : O_RDWR;
  if (threw([&] { rc = ens ? e->open(f, fl, 0664) : s->open(f, fl, 0664); })) _exit(0);
  if (rc != 0) { refused("open", rc); _exit(0); }
  plan.armed = true;
  for (int i = 0, c = 5 + (int)r.below(120); i < c; i++) {
    std::string k = r.pick(w.pool), b; bool t;
    if (ens) {
      Rec v; for (int j = 0; j < n; j++) v.push_back(w.elem()); int idx = (int)r.below((uint64_t)n);
      if (m.count(k) && r.chance(50)) { std::string el = w.elem(); b = m[k]; b.replace((size_t)(idx * w.width), (size_t)w.width, el); any[k].insert(b); t = threw([&] { rc = e->update(StringKey(k), Fixed(el), w.cfgs[idx], idx); }); }
      else { b = join(v); any[k].insert(b); t = threw([&] { rc = e->insert(StringKey(k), w.objs(v)); }); }
    } else { std::string d = bytes(r, r.chance(15) ? r.below(1500) : r.below(50)); auto it = m.find(k); if (it != m.end() && it->second.size() >= 4) d.resize(std::min(d.size(), it->second.size() - 4)); b = Tr<UserData>::ser(d); any[k].insert(b); t = threw([&] { rc = r.chance(50) ? s->insert(StringKey(k), UserData(d)) : s->insertBinary(Tr<StringKey>::ser(k), b); }); }
    if (t || rc != 0) { failed = true; if (!t) refused("store", rc); if (r.chance(30)) break; } else m[k] = b;
    if (r.chance(3)) { std::string u = bytes(r, r.below(40)); if (threw([&] { rc = ens ? e->insertUserdata(u) : s->insertUserdata(u); }) || rc != 0) failed = true; else { ui = u; uset = true; } }
    if (r.chance(3)) threw([&] { if (ens) e->flush(); else s->flush(); });
  }
  if (r.chance(30)) plan.armed = false;
  if (threw([&] { rc = ens ? e->close() : s->close(); })) _exit(0);
  plan.armed = false;
  if (rc != 0) { sh->errors++; if (!sh->injected) bad("close fails although nothing was refused"); failed = true; }
  // judged without faults, by the plain store: a quiet session is complete; no session leaves foreign bytes
  ConfDataStoreDB<StringKey, UserData> v;
  if (v.open(f, O_RDONLY, 0400) != 0) { if (!failed) bad("the file does not open although everything reported success"); sh->done = 1; return; }
  for (auto& k : w.pool) {
    std::string got; int g = v.getBinary(Tr<StringKey>::ser(k), got);
    if (!failed) { if ((g == 0) != (m.count(k) > 0) || (g == 0 && got != m[k])) bad("key %s is not as stored (%d) although everything including the close reported success", show(k).c_str(), g); }
    else if (g == 0 && !any[k].count(got)) bad("key %s delivers bytes never stored under it", show(k).c_str());
  }
  if (!failed && uset) { std::string u; if (v.getUserdata(u) != 0 || u != ui) bad("user data is lost although everything reported success"); }
  sh->done = 1;
}
static int spawn(std::function<void()> f, int secs) {
  fflush(stdout);
  pid_t p = fork();
  if (p < 0) harness("fork");
  if (p == 0) { if (!tracing()) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); } alarm((unsigned)secs); f(); _exit(0); }
  int st; if (waitpid(p, &st, 0) != p) harness("waitpid");
  return st;
}
static void trial(World& w, uint64_t cs, int kind, long k, const char* what) {
  sh->text[0] = 0;
  int st = 0; bool wr = w.p.find("write") != std::string::npos;
  for (int a = 0; a < 2; a++) {
    w.restore();
    sh->done = sh->healed = sh->injected = sh->calls = sh->errors = sh->hits = sh->ops = 0;
    plan = Plan(); plan.writes = wr; plan.kind = kind; plan.k = k; plan.r = Rng(mix(cs, (uint64_t)k * 31 + kind)); plan.pct = 1 + (int)plan.r.below(50); plan.len = 1 + (long)plan.r.below(8);
    st = spawn([&] {
      if (w.p == "typed-read") typed_read(w, cs); else if (w.p == "ens-read") ens_read(w, cs); else if (w.p == "ens-update") ens_update(w, cs); else if (w.p == "multi-read") multi_read(w, cs);
      else if (w.p == "merge-read" || w.p == "merge-write") merging(w, cs); else typed_write(w, cs); }, a ? 90 : 25);
    if (!(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)) break;
  }
  note("%s", what);
  count("faulted_runs"); count("injected_faults", (uint64_t)sh->injected); count("system_calls_seen", (uint64_t)sh->calls); count("errors_reported", (uint64_t)sh->errors); count("calls", (uint64_t)sh->ops); count("calls_hit", (uint64_t)sh->hits); if (sh->done) count("judged_to_the_end");
  const char* end = sh->done ? "quiet" : "given up";
  if (WIFSIGNALED(st)) {
    if (WTERMSIG(st) == SIGALRM) violate("cxxfault", "%s: a call does not return", what);
    if (WTERMSIG(st) == SIGKILL) harness("child killed");
    if (WTERMSIG(st) != SIGABRT || !sh->injected || sh->healed) violate("cxxfault", "%s: signal %d%s", what, WTERMSIG(st), sh->healed ? " after the trouble was over" : "");
    count("visible_abort"); end = "abort";
  } else {
    int e = WEXITSTATUS(st);
    if (e == 88) harness("child");
    if (e == 99) violate("cxxfault", "%s: memory error (sanitizer report)", what);
    if (e == 70) violate("cxxfault", "%s: %s", what, sh->text);
    if (e) { if (!sh->injected || sh->healed) violate("cxxfault", "%s: the process ended with status %d%s", what, e, sh->healed ? " after the trouble was over" : ""); count("visible_exit"); end = "exit"; }
  }
  signature(w.p + " " + kname[kind] + " " + end + (sh->errors ? " errors" : ""));
}
static void one(const Args& A, long n, uint64_t cs) {
  Rng r(cs);
  World w(A.dir, A.profile, r);
  w.build();
  char b[200]; snprintf(b, sizeof b, "%s without fault (page %u, %zu files, %zu keys)", w.p.c_str(), w.bs, w.files.size(), w.pool.size());
  trial(w, cs, NONE, 0, b);
  long W = sh->calls, O = sh->openreads;
  if (!sh->done) violate("cxxfault", "%s: did not come to its end", b);
  if (n - A.from < 1) sample(std::string(b) + ", " + std::to_string(W) + " system calls");
  for (int i = 0; i < 10; i++) {
    static const int ks[] = {ONCE, ONCE, ONCE, SHORT_ONCE, BURST, SOME, FROM};
    int kind = ks[r.below(7)]; long k = 1 + (long)r.below((uint64_t)(r.chance(40) && O ? O : W) + 1);
    snprintf(b, sizeof b, "%s, %s at call %ld of %ld (page %u, %zu files, %zu keys)", w.p.c_str(), kname[kind], k, W, w.bs, w.files.size(), w.pool.size());
    trial(w, cs, kind, k, b);
  }
  case_end(w.pool.size() >= 5 && W > 0);
  for (auto& f : w.files) unlink(f.c_str());
  unlink((A.dir + "/all").c_str());
}
int main(int argc, char** argv) {
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (sh == MAP_FAILED) harness("mmap");
  return harness_main(argc, argv, one);
}
