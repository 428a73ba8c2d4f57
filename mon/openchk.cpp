// openchk --profile refuse|create|keep : what opens and what must not.
// Every open happens in a forked child; the parent compares the whole scratch folder (names, modes, bytes) before and after
// and judges acceptance against a rule computed independently from the file's bytes and the request.
#include "hist.hpp"
#include "harness.hpp"
#include <sys/wait.h>
#include <sys/mman.h>
#include <dirent.h>
#include <signal.h>
using namespace hist;
extern "C" int __lsan_do_recoverable_leak_check(void) __attribute__((weak));

struct Shared { volatile int done, opened, err, fds, leak; volatile unsigned nc, ul; char text[300]; };
static Shared* sh;
static std::string root;
struct Entry { int type; unsigned mode; std::string bytes; bool operator==(const Entry& o) const { return type == o.type && mode == o.mode && bytes == o.bytes; } };
typedef std::map<std::string, Entry> Snap;
static void snap_dir(const std::string& d, const std::string& rel, Snap& s) {
  DIR* p = opendir(d.c_str()); if (!p) harness("opendir %s", d.c_str());
  while (struct dirent* e = readdir(p)) {
    std::string n = e->d_name; if (n == "." || n == "..") continue;
    struct stat st; if (lstat((d + "/" + n).c_str(), &st) != 0) continue;
    Entry x; x.type = (int)(st.st_mode & S_IFMT); x.mode = st.st_mode & 07777;
    if (S_ISREG(st.st_mode)) slurp(d + "/" + n, x.bytes);
    if (S_ISDIR(st.st_mode)) snap_dir(d + "/" + n, rel + n + "/", s);
    s[rel + n] = x;
  }
  closedir(p);
}
static Snap snapshot() { Snap s; snap_dir(root, "", s); return s; }
static int fds_in_root() {
  int n = 0; char b[4096];
  for (int i = 0; i < 256; i++) { std::string l = "/proc/self/fd/" + std::to_string(i); ssize_t k = readlink(l.c_str(), b, sizeof b); if (k > 0 && std::string(b, (size_t)k).compare(0, root.size(), root) == 0) n++; }
  return n;
}
static void wipe(const std::string& d) {
  DIR* p = opendir(d.c_str()); if (!p) return;
  std::vector<std::string> v; while (struct dirent* e = readdir(p)) { std::string n = e->d_name; if (n != "." && n != "..") v.push_back(n); }
  closedir(p);
  for (auto& n : v) { std::string q = d + "/" + n; struct stat st; if (lstat(q.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { wipe(q); rmdir(q.c_str()); } else unlink(q.c_str()); }
}
struct Req { std::string path; int flags = O_RDWR; int mode = 0640; bool null = false; FFDB_HASHINFO in; bool nofile = false; };
enum Out { OPENED, REFUSED, EXITED, CRASHED };
// open in a child; if it opens, `then` runs on the handle (and decides about the close)
static Out attempt(const Req& q, std::function<void(FFDB_DB*)> then, bool leaks) {
  memset((void*)sh, 0, sizeof *sh);
  fflush(stdout);
  pid_t p = fork(); if (p < 0) harness("fork");
  if (p == 0) {
    if (!tracing()) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); }
    alarm(90);
    FFDB_HASHINFO in = q.in;
    FFDB_DB* h = ffdb_dbopen(q.nofile ? nullptr : q.path.c_str(), q.flags, (mode_t)q.mode, q.null ? nullptr : &in);
    sh->err = errno; sh->opened = h != nullptr;
    if (h) { struct stat a, b; if (fstat(h->fd(h), &a) != 0 || stat(q.path.c_str(), &b) != 0 || a.st_ino != b.st_ino || a.st_dev != b.st_dev) { snprintf(sh->text, sizeof sh->text, "the descriptor of an open database is not that of its file"); _exit(70); }
      sh->nc = ffdb_num_configs(h); sh->ul = ffdb_max_user_info_len(h); if (then) then(h); }
    sh->fds = fds_in_root();
    if (!h && leaks && __lsan_do_recoverable_leak_check) sh->leak = __lsan_do_recoverable_leak_check();
    sh->done = 1;
    _exit(0);
  }
  int st; if (waitpid(p, &st, 0) != p) harness("waitpid");
  count("opens_tried");
  if (WIFSIGNALED(st)) { if (WTERMSIG(st) == SIGALRM) violate("open", "opening does not return"); if (WTERMSIG(st) == SIGKILL) harness("child killed"); if (WTERMSIG(st) != SIGABRT) violate("open", "opening ends in signal %d", WTERMSIG(st)); return CRASHED; }
  int e = WEXITSTATUS(st);
  if (e == 99) violate("open", "opening makes a memory error (sanitizer report)");
  if (e == 88) harness("child");
  if (e == 70) violate("open", "%s", sh->text);
  if (!sh->done) { if (e == 0) violate("open", "opening ends the process with status 0"); return EXITED; }
  return sh->opened ? OPENED : REFUSED;
}
[[noreturn]] static void bad(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vsnprintf(sh->text, sizeof sh->text, fmt, ap); va_end(ap); _exit(70); }
static std::string fl(int f) { std::string s = (f & O_ACCMODE) == O_RDONLY ? "RDONLY" : (f & O_ACCMODE) == O_RDWR ? "RDWR" : "WRONLY"; if (f & O_CREAT) s += "|CREAT"; if (f & O_EXCL) s += "|EXCL"; if (f & O_TRUNC) s += "|TRUNC"; return s; }

static FFDB_HASHINFO rnd_info(Rng& r) {
  FFDB_HASHINFO in; memset(&in, 0, sizeof in);
  in.bsize = r.pick(std::vector<unsigned>{0, 512, 1024, 4096, 8192, 300, 100000, 1 << 20, 1, 7, 256, (1u << 20) + 1, 0x80000000u, 0xffffffffu});
  in.nbuckets = r.pick(std::vector<unsigned>{0, 1, 2, 5, 16, 33}); in.cachesize = r.pick(std::vector<unsigned>{0, 1000, 100000, 1 << 20}); in.rearrangepages = (int)r.below(2);
  in.userinfolen = (unsigned)r.below(3) * 200; in.numconfigs = (unsigned)r.below(20);
  return in;
}
static void must_refuse(const Req& q, const char* what, bool leaks) {
  Snap a = snapshot();
  Out o = attempt(q, nullptr, leaks);
  note("refuse %s %s -> %d", what, fl(q.flags).c_str(), (int)o);
  if (o == OPENED) violate("open", "%s opens (%s)", what, fl(q.flags).c_str());
  Snap b = snapshot();
  if (!(a == b)) {
    for (auto& e : b) if (!a.count(e.first)) violate("open", "%s: the refused open (%s) created %s", what, fl(q.flags).c_str(), e.first.c_str());
    for (auto& e : a) { if (!b.count(e.first)) violate("open", "%s: the refused open (%s) removed %s", what, fl(q.flags).c_str(), e.first.c_str());
      if (!(b[e.first] == e.second)) violate("open", "%s: the refused open (%s) changed %s (%zu bytes before, %zu after)", what, fl(q.flags).c_str(), e.first.c_str(), e.second.bytes.size(), b[e.first].bytes.size()); }
  }
  if (o == REFUSED) {
    if (sh->fds) violate("open", "%s: the refused open (%s) left %d descriptors open", what, fl(q.flags).c_str(), sh->fds);
    if (sh->leak) violate("open", "%s: the refused open (%s) leaks memory", what, fl(q.flags).c_str());
  }
  count(o == REFUSED ? "refused_with_error" : "refused_by_exit");
  signature(std::string(what) + " " + fl(q.flags) + (o == REFUSED ? " error" : " exit"));
}
static void fix_crc(std::string& b) { unsigned char* p = (unsigned char*)&b[0]; fsck::pbe32(p + fsck::HDR_BYTES - 4, fsck::crc32(p, fsck::HDR_BYTES - 4)); }

// a database to start from
struct Base { Session s; std::string bytes; Base(const std::string& p, const Cfg& c, uint64_t seed) : s(p, c, 0, seed) {} };
static void build(Base& B) {
  Session& s = B.s;
  s.create();
  int n = (int)s.rng.pick(std::vector<int>{0, 1, 3, 20, 60});
  for (int i = 0; i < n; i++) s.put_random();
  if (s.rng.chance(30)) s.set_uinfo();
  if (s.rng.chance(30)) s.set_all_cfgs();
  s.close_db();
  slurp(s.path, B.bytes);
}
static void p_refuse(Base& B, Rng& r, long n) {
  Session& s = B.s; const std::string path = s.path; unsigned bs = s.bs();
  static const int flagset[] = {O_RDONLY, O_RDWR, O_RDWR | O_CREAT, O_RDONLY | O_CREAT};
  auto req = [&](bool rightinfo) { Req q; q.path = path; q.flags = flagset[r.below(4)]; q.in = rnd_info(r); if (rightinfo) { q.in.hash = s.hk().h; q.in.cmp = s.hk().c; } else q.null = r.chance(20); return q; };
  int rounds = 14;
  for (int i = 0; i < rounds; i++) {
    std::string b = B.bytes; unsigned char* p = (unsigned char*)&b[0]; const char* what = nullptr; bool right = true;
    switch ((n + i) % 14) {
      case 0: b.clear(); what = "an empty file"; break;
      case 1: b = bytes(r, 1 + r.below(r.chance(50) ? 331 : 9000)); what = "a file of random bytes"; break;
      case 2: b = "#!/bin/sh\necho this is not a database\n"; while (b.size() < r.below(20000)) b += b; what = "a text file"; break;
      case 3: b.resize(1 + r.below(fsck::HDR_BYTES - 1)); what = "a file cut inside the header"; break;
      case 4: { size_t k = fsck::HDR_BYTES + r.below(b.size() - fsck::HDR_BYTES); if (k % bs == 0) k++; b.resize(k); what = "a file that ends in the middle of a page"; break; }
      case 5: b += std::string(1 + r.below(bs - 1), r.chance(50) ? 0 : 'x'); what = "a file with a partial page after the last one"; break;
      case 6: { uint32_t m = fsck::be32(p), v; switch (r.below(4)) { case 0: v = (uint32_t)r.next(); break; case 1: v = m ^ (1u << r.below(32)); break; case 2: v = 0x061561; break; default: v = __builtin_bswap32(m); } if (v == m) v++; fsck::pbe32(p, v); fix_crc(b); what = "a file with another magic number"; break; }
      case 7: { uint32_t v = r.chance(30) ? (uint32_t)r.next() : r.pick(std::vector<uint32_t>{0, 1, 2, 3, 4, 7, 8, 9, 60, 0x06000000, 0x05000000, 0xffffffff, 0x80000006}); if (v == 5 || v == 6) v = 7; fsck::pbe32(p + 4, v); fix_crc(b); what = "a file of an unsupported version"; break; }
      case 8: { uint32_t h = fsck::be32(p + 64); h ^= r.chance(50) ? 1u << r.below(32) : (uint32_t)r.next() | 1; fsck::pbe32(p + 64, h); fix_crc(b); what = "a file made with another hash function (stored value differs)"; break; }
      case 9: { size_t at = r.below(fsck::HDR_BYTES); p[at] ^= (unsigned char)(1 << r.below(8)); what = "a file with a damaged header"; break; }
      case 10: b.assign((1 + r.below(5)) * bs, 0); what = "a file of zeros"; break;
      case 11: {
        static const char ck[] = "%$sniglet^&"; auto hv = [&](int k) { auto f = hash_kinds()[k].h; return f ? f(ck, sizeof ck) : fsck::ref_hash(ck, sizeof ck); };
        if (hv(s.cfg.hashk) != fsck::be32(p + 64)) violate("open", "a new file does not record the hash function it was made with");
        int o; do o = (int)r.below(hash_kinds().size()); while (hv(o) == hv(s.cfg.hashk));
        Req q = req(false); q.null = !hash_kinds()[o].h && r.chance(30); q.in.hash = hash_kinds()[o].h; q.in.cmp = hash_kinds()[o].c; spew(path, b);
        must_refuse(q, "a database opened with another hash function", i == 0); continue;
      }
      case 12: {                                             // the requests nothing may satisfy
        spew(path, b); Req q = req(true); const char* w;
        switch (r.below(5)) {
          case 0: q.flags = O_WRONLY; w = "a database opened write-only"; break;
          case 1: q.flags = O_WRONLY | O_TRUNC | O_CREAT; w = "a database opened write-only with truncation"; break;
          case 2: q.flags = O_RDWR | O_CREAT | O_EXCL; w = "an existing database opened exclusively"; break;
          case 3: q.flags = O_RDWR | O_TRUNC | O_CREAT; q.in.bsize = r.pick(std::vector<unsigned>{1, 2, 100, 255, 256, (1u << 20) + 1, 1u << 21, 0x7fffffffu, 0x80000000u, 0x80000001u, 0xffffffffu}); w = "truncation with an invalid page size"; break;
          default: q.nofile = true; w = "a missing file name";
        }
        must_refuse(q, w, i == 0); continue;
      }
      default: {
        unlink(path.c_str()); Req q = req(true); const char* w;
        switch (r.below(6)) {
          case 0: q.flags = O_RDONLY; w = "a missing file"; break;
          case 1: q.flags = O_RDWR; w = "a missing file"; break;
          case 2: q.flags = O_WRONLY | O_CREAT; w = "a missing file created write-only"; break;
          case 3: q.flags = O_RDWR | O_CREAT; q.path = root + "/nodir/db"; w = "a file in a missing folder"; break;
          case 4: q.flags = O_RDWR | O_CREAT | (r.chance(50) ? O_TRUNC : 0); q.in.bsize = r.pick(std::vector<unsigned>{1, 2, 100, 255, 256, (1u << 20) + 1, 1u << 21, 0x7fffffffu, 0x80000000u, 0x80000001u, 0xffffffffu}); w = "creation with an invalid page size"; break;
          default: mkdir(path.c_str(), 0755); q.flags = r.chance(50) ? O_RDONLY : O_RDWR; w = "a folder";
        }
        must_refuse(q, w, i == 0); rmdir(path.c_str()); continue;
      }
    }
    spew(path, b);
    must_refuse(req(right), what, i == 0);
  }
}
// a new database: the request is honoured, or nothing is created
static void p_create(const Args& A, Rng& r, uint64_t cs) {
  std::string path = root + "/new";
  for (int i = 0; i < 10; i++) {
    unlink(path.c_str());
    Req q; q.path = path; q.in = rnd_info(r); memset(&q.in, 0, sizeof q.in);
    unsigned pw = 1u << r.range(7, 21);
    switch (r.below(4)) { case 0: q.in.bsize = 0; break; case 1: q.in.bsize = pw; break; case 2: q.in.bsize = pw + (unsigned)r.range(-2, 2); break; default: q.in.bsize = (unsigned)r.range(1, 70000); }
    q.in.nbuckets = (unsigned)r.pick(std::vector<unsigned>{0, 1, 2, 3, 4, 5, 8, 9, 31, 32, 33, 100}); q.in.rearrangepages = (int)r.below(2); q.in.cachesize = r.chance(50) ? 0 : (unsigned)r.below(300000);
    q.in.userinfolen = r.pick(std::vector<unsigned>{0, 1, 3, 100, 455, 456, 480, 481, 484, 485, 3999, 4000, 4001, 20000}); q.in.numconfigs = r.pick(std::vector<unsigned>{0, 1, 2, 3, 4, 27, 28, 100, 500});
    q.mode = (int)r.pick(std::vector<int>{0644, 0600, 0664, 0755}); q.flags = O_RDWR | O_CREAT | (r.chance(50) ? O_TRUNC : 0) | (r.chance(20) ? O_EXCL : 0);
    bool over = r.chance(30) && !(q.flags & O_EXCL) && (q.flags & O_TRUNC); if (over) spew(path, bytes(r, r.below(5000)));
    int hk = (int)r.below(hash_kinds().size()); q.in.hash = hash_kinds()[hk].h; q.in.cmp = hash_kinds()[hk].c;
    if (r.chance(10)) { q.null = true; memset(&q.in, 0, sizeof q.in); hk = 0; }
    unsigned want = 512; if (q.in.bsize) while (want < q.in.bsize && want < (1u << 22)) want <<= 1; else want = 4096;
    bool ok = !q.in.bsize || (q.in.bsize > 256 && want <= (1u << 20));
    if (q.in.bsize && q.in.bsize <= 256) ok = false;
    if (!ok) { must_refuse(q, over ? "truncation with an invalid page size" : "creation with an invalid page size", i == 0); continue; }
    unsigned ul = q.in.userinfolen ? q.in.userinfolen : 4000, nc = q.in.numconfigs ? q.in.numconfigs : 1;
    int puts = (int)r.pick(std::vector<int>{0, 0, 1, 5, 40}); Rng r2(mix(cs, (uint64_t)i));
    umask(0);
    Out o = attempt(q, [&](FFDB_DB* h) { for (int k = 0; k < puts; k++) { std::string key = "key" + std::to_string(k), v = bytes(r2, r2.below(600)); FFDB_DBT a{&key[0], (long)key.size()}, b{&v[0], (long)v.size()}; if (h->put(h, &a, &b, 0)) bad("a store into a new database is refused"); } if (h->close(h)) bad("closing a new database reports an error"); }, false);
    note("create bsize %u -> %d", q.in.bsize, (int)o);
    if (o != OPENED) violate("open", "creation with valid parameters is refused (page size %u, buckets %u, user info %u, configurations %u, errno %d)", q.in.bsize, q.in.nbuckets, q.in.userinfolen, q.in.numconfigs, sh->err);
    if (sh->fds) violate("open", "%d descriptors left after the close", sh->fds);
    if (sh->nc != nc || sh->ul != ul) violate("open", "a new database announces %u configurations and %u user info bytes, requested %u and %u", sh->nc, sh->ul, nc, ul);
    struct stat st; if (stat(path.c_str(), &st) != 0) violate("open", "a created database does not exist after the close");
    if (!over && (st.st_mode & 07777) != (unsigned)q.mode) violate("open", "a database created with mode %o has mode %o", q.mode, st.st_mode & 07777);
    std::string b; slurp(path, b);
    fsck::Result fr = fsck::parse(b, hash_kinds()[hk].h ? hash_kinds()[hk].h : fsck::ref_hash);
    if (!fr.ok()) violate("open", "a new database is not well formed: %s", fr.first().c_str());
    if (fr.h.bsize != want) violate("open", "requested page size %u, the file has %u, expected %u", q.in.bsize, fr.h.bsize, want);
    if (fr.h.uinfolen != ul || fr.h.num_cfigs != nc) violate("open", "the file records %u user info bytes and %u configurations, requested %u and %u", fr.h.uinfolen, fr.h.num_cfigs, ul, nc);
    unsigned nb = 1; while (nb < q.in.nbuckets) nb <<= 1;
    if (fr.h.max_bucket + 1 < nb || (puts == 0 && fr.h.max_bucket + 1 != nb)) violate("open", "requested %u buckets, the new file has %u", q.in.nbuckets, fr.h.max_bucket + 1);
    if ((int)fr.pairs.size() != puts) violate("open", "the new file holds %zu pairs, %d stored", fr.pairs.size(), puts);
    for (int k = 0; k < 2; k++) {                            // and it opens again, both ways
      Req q2 = q; q2.flags = k ? O_RDWR : O_RDONLY; q2.in.bsize = rnd_info(r).bsize; q2.in.nbuckets = 0;
      if (q.null) q2.null = true;
      if (attempt(q2, [&](FFDB_DB* h) { if (h->close(h)) bad("close of a reopened database reports an error"); }, false) != OPENED) violate("open", "a new database (page size %u) does not open again (%s)", want, fl(q2.flags).c_str());
      if (sh->nc != nc || sh->ul != ul) violate("open", "a reopened database announces %u configurations and %u user info bytes, has %u and %u", sh->nc, sh->ul, nc, ul);
    }
    count("created"); signature("page " + std::to_string(want)); if (over) count("created_over_other_file");
  }
  unlink(path.c_str()); (void)A;
}
// a great deal of metadata: either the request is refused and leaves no trace, or all of it works, in this session and the next
static void p_meta(Rng& r) {
  std::string path = root + "/new";
  for (int i = 0; i < 4; i++) {
    Req q; q.path = path; memset(&q.in, 0, sizeof q.in); q.flags = O_RDWR | O_CREAT | (r.chance(50) ? O_TRUNC : 0);
    bool over = (q.flags & O_TRUNC) && r.chance(50);
    q.in.bsize = r.pick(std::vector<unsigned>{512, 512, 1024, 300}); q.in.cachesize = 1u << 30;
    unsigned bs = q.in.bsize == 1024 ? 1024 : 512, room = bs - 28, per = room / 148;
    unsigned long pages = r.pick(std::vector<unsigned long>{3000, 32766, 32767, 32768, 32769, 50000, 65533, 65534, 65535, 65536, 65537, 65540, 70000, 131072});
    bool conf = r.chance(40), wrap = r.chance(15);
    if (wrap) q.in.userinfolen = 0xffffffffu - (unsigned)r.below(6);        // lengths whose sum with anything overflows
    else if (conf) { q.in.numconfigs = (unsigned)(pages * per) + (unsigned)r.range(-1, 1); q.in.userinfolen = r.chance(30) ? 32768 * room : 0; }
    else { q.in.userinfolen = (unsigned)(pages * room) + (unsigned)r.range(-6, 2); q.in.numconfigs = (unsigned)r.below(10); }
    unsigned long upages = (q.in.userinfolen + 4ul + room - 1) / room, cpages = (q.in.numconfigs + per - 1) / per;
    unsigned ul = q.in.userinfolen ? q.in.userinfolen : 4000, nc = q.in.numconfigs ? q.in.numconfigs : 1;
    unlink(path.c_str()); if (over) spew(path, bytes(r, 3000));
    Snap before = snapshot();
    std::string text(ul < (200u << 20) ? ul : 100, 0); uint64_t sd = r.next(); for (size_t k = 0; k < text.size(); k++) text[k] = (char)('A' + (k * 7 + sd + (k >> 9)) % 53);
    auto look = [&](FFDB_DB* h, const char* when) {
      if (text.size()) { std::string g(text.size() + 1, 1); unsigned l = (unsigned)text.size(); if (ffdb_get_user_info(h, (unsigned char*)&g[0], &l) != 0 || l != text.size() || memcmp(g.data(), text.data(), l) != 0) bad("%s: %zu bytes of user information do not come back", when, text.size()); }
      if (nc < 2000000) { ffdb_all_config_info_t g{0, nullptr}; if (ffdb_get_all_configs(h, &g) != 0 || g.numconfigs != (int)nc) bad("%s: the %u configurations do not come back", when, nc);
        for (unsigned c = 0; c < nc; c++) { auto& x = g.allconfigs[c]; if (x.config != (int)(c * 3 + 1) || x.index != (int)c || strcmp(x.fname, "name")) bad("%s: configuration %u of %u does not come back", when, c, nc); } free(g.allconfigs); }
      std::string k = "key", v = "value"; FFDB_DBT a{&k[0], 3}, d{nullptr, 0}; if (h->get(h, &a, &d, 0) != 0 || std::string((char*)d.data, (size_t)d.size) != v) bad("%s: a stored pair does not come back", when); free(d.data);
    };
    Out o = attempt(q, [&](FFDB_DB* h) {
      std::string k = "key", v = "value"; FFDB_DBT a{&k[0], 3}, b{&v[0], 5}; if (h->put(h, &a, &b, 0)) bad("a store into a new database is refused");
      if (text.size() && ffdb_set_user_info(h, (unsigned char*)&text[0], (unsigned)text.size()) != 0) bad("%zu bytes of user information are refused, room for %u was requested", text.size(), ul);
      if (nc < 2000000) { std::vector<ffdb_config_info_t> v(nc); for (unsigned c = 0; c < nc; c++) { auto& x = v[c]; memset(&x, 0, sizeof x); x.config = (int)(c * 3 + 1); x.index = (int)c; x.inserted = 1; strcpy(x.fname, "name"); }
        ffdb_all_config_info_t all{(int)nc, v.data()}; if (ffdb_set_all_configs(h, &all) != 0) bad("%u configurations are refused", nc); }
      look(h, "at once"); if (h->close(h)) bad("closing a new database reports an error"); }, false);
    note("meta bsize %u uinfo %u configs %u -> %d", q.in.bsize, q.in.userinfolen, q.in.numconfigs, (int)o);
    if (o == EXITED || o == CRASHED) violate("open", "a database for %u user info bytes and %u configurations (page size %u) ends the process", ul, nc, bs);
    if (o == REFUSED) {
      if (upages <= 50000 && cpages <= 50000) violate("open", "creation with %u user info bytes and %u configurations (page size %u) is refused", ul, nc, bs);
      Snap after = snapshot(); if (!(before == after)) violate("open", "a refused creation (%u user info bytes, %u configurations, page size %u) left a trace", ul, nc, bs);
      count("meta_refused"); continue;
    }
    if (sh->nc != nc || sh->ul != ul) violate("open", "a new database announces %u configurations and %u user info bytes, requested %u and %u", sh->nc, sh->ul, nc, ul);
    Req q2 = q; q2.flags = r.chance(50) ? O_RDONLY : O_RDWR;
    if (attempt(q2, [&](FFDB_DB* h) { look(h, "after reopening"); if (h->close(h)) bad("close of a reopened database reports an error"); }, false) != OPENED) violate("open", "a new database with %u user info bytes and %u configurations (page size %u) does not open again", ul, nc, bs);
    count("meta_honoured"); signature("meta pages " + std::to_string(std::max(upages, cpages) / 16384));
  }
  unlink(path.c_str());
}
// an existing database opens whatever layout parameters are passed, and keeps its own
static void p_keep(Base& B, Rng& r) {
  Session& s = B.s;
  for (int i = 0; i < 6; i++) {
    Req q; q.path = s.path; q.in = rnd_info(r); q.in.hash = s.hk().h; q.in.cmp = s.hk().c; q.null = !s.hk().h && r.chance(20);
    q.flags = r.pick(std::vector<int>{O_RDONLY, O_RDWR, O_RDWR | O_CREAT, O_RDWR | O_CREAT});
    std::string before; slurp(s.path, before);
    Out o = attempt(q, [&](FFDB_DB* h) {
      for (auto& m : s.model) { Exact kb(m.second.key); FFDB_DBT k{kb.p, (long)kb.n}, d{nullptr, 0}; if (h->get(h, &k, &d, 0) != 0 || std::string((char*)d.data, (size_t)d.size) != m.second.val) bad("key %s is not found with its value", show(m.second.key).c_str()); free(d.data); }
      if (h->close(h)) bad("close reports an error"); }, false);
    note("keep bsize %u -> %d", q.in.bsize, (int)o);
    if (o != OPENED) violate("open", "a database with page size %u does not open (%s) when %u is passed (errno %d, outcome %d)", s.bs(), fl(q.flags).c_str(), q.in.bsize, sh->err, (int)o);
    if (sh->nc != s.expect_ncfg() || sh->ul != s.expect_uinfolen()) violate("open", "opened with other parameters it announces %u configurations and %u user info bytes, has %u and %u", sh->nc, sh->ul, s.expect_ncfg(), s.expect_uinfolen());
    std::string after; slurp(s.path, after);
    if ((q.flags & O_ACCMODE) == O_RDONLY && after != before) violate("open", "reading changed the file");
    s.check_file(s.path, "after an open with other parameters");
    count("kept"); signature("keep " + fl(q.flags) + " page " + std::to_string(s.bs()) + (q.in.bsize ? " other" : " default"));
  }
}
static void one(const Args& A, long n, uint64_t cs) {
  Rng r(cs);
  char rp[4096]; std::string d = A.dir + "/o"; mkdir(d.c_str(), 0755); if (!realpath(d.c_str(), rp)) harness("realpath");
  root = rp; wipe(root);
  if (n - A.from < 1) sample("profile " + A.profile + " case " + std::to_string(n));
  if (A.profile == "metasize") { p_meta(r); case_end(true); }
  else if (A.profile == "create") { p_create(A, r, cs); case_end(true); }
  else {
    Cfg c = gen_cfg(r, true);
    Base B(root + "/db", c, cs);
    build(B);
    if (A.profile == "refuse") p_refuse(B, r, n); else if (A.profile == "keep") p_keep(B, r); else harness("unknown profile");
    case_end(true);
  }
  wipe(root); rmdir(root.c_str());
}
int main(int argc, char** argv) {
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (sh == MAP_FAILED) harness("mmap");
  return harness_main(argc, argv, one);
}
