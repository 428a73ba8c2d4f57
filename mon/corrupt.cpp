// Damage monitor: a closed database file is altered, then read completely in a child process.
// Single altered byte: every observation is the stored data or a visible failure.
// Larger damage: no observation may deliver bytes that are not the stored ones.
#include "hist.hpp"
#include "conv.hpp"
#include "harness.hpp"
#include <sys/wait.h>
#include <signal.h>
using namespace hist;

// what the child found out, written through a pipe
struct Verdict { char kind; char text[400]; };   // 'O' all as stored, 'E' visible error, 'W' wrong bytes, 'L' silent loss

static int g_pipe = -1;
[[noreturn]] static void tell(char k, const char* fmt, ...) {
  Verdict v; memset(&v, 0, sizeof v); v.kind = k;
  va_list ap; va_start(ap, fmt); vsnprintf(v.text, sizeof v.text, fmt, ap); va_end(ap);
  if (write(g_pipe, &v, sizeof v) != (ssize_t)sizeof v) _exit(88);
  _exit(0);
}

struct Probe {
  Session& s; bool strict; bool err = false;
  Probe(Session& x, bool st) : s(x), strict(st) {}
  void lookups(FFDB_DB* h) {
    for (auto& ck : s.keys) {
      const Val& m = s.model[ck];
      FFDB_DBT k{(void*)m.key.data(), (long)m.key.size()}, d{nullptr, 0};
      std::unique_ptr<Exact> ub;
      if (s.rng.chance(40) && m.val.size()) { ub.reset(new Exact(m.val.size() + s.rng.below(3), 0)); d.data = ub->p; d.size = (long)ub->n; }
      int r = h->get(h, &k, &d, 0);
      if (r == 1) { if (strict) tell('L', "lookup of stored key %s reports not-found", show(m.key).c_str()); continue; }
      if (r != 0) { err = true; continue; }
      if (d.size != (long)m.val.size() || (d.size && memcmp(d.data, m.val.data(), m.val.size())))
        tell('W', "lookup of key %s delivers other bytes than stored", show(m.key).c_str());
      if (!ub) free(d.data);
    }
    for (int i = 0; i < 3; i++) {
      std::string a = s.fresh_key();
      FFDB_DBT k{(void*)a.data(), (long)a.size()}, d{nullptr, 0};
      int r = h->get(h, &k, &d, 0);
      if (r == 0) tell('W', "lookup of a never stored key delivers data");
      if (r != 1) err = true;
    }
  }
  void scan(FFDB_DB* h, bool back) {
    ffdb_cursor_t* c = nullptr;
    if (h->cursor(h, &c, FFDB_KEY_CURSOR) != 0) { err = true; return; }
    std::set<std::string> seen; size_t n = 0;
    for (;;) {
      FFDB_DBT k{nullptr, 0}, d{nullptr, 0};
      bool wd = s.rng.chance(70);
      int r = c->get(c, &k, wd ? &d : nullptr, back ? FFDB_PREV : FFDB_NEXT);
      if (r == 1) { if (strict && seen.size() != s.model.size()) { if (!err) tell('L', "a complete scan delivers %zu of %zu keys without an error", seen.size(), s.model.size()); } break; }
      if (r != 0) { err = true; break; }
      std::string key((char*)k.data, (size_t)k.size);
      auto it = s.model.find(s.canon(key));
      if (it == s.model.end() || it->second.key != key) tell('W', "scan delivers a key %s that was never stored", show(key).c_str());
      if (wd && (d.size != (long)it->second.val.size() || (d.size && memcmp(d.data, it->second.val.data(), (size_t)d.size)))) tell('W', "scan delivers other bytes than stored under key %s", show(key).c_str());
      if (strict && !seen.insert(s.canon(key)).second) tell('W', "scan delivers key %s twice", show(key).c_str());
      seen.insert(s.canon(key));
      free(k.data); if (wd) free(d.data);
      if (++n > 5 * s.model.size() + 50) { err = true; break; }       // damaged links may loop; nothing wrong was delivered
    }
    c->close(c);
  }
  void meta(FFDB_DB* h) {
    if (s.uinfo_set) {
      Exact b(s.expect_uinfolen() + 8, 0); unsigned l = (unsigned)b.n;
      int r = ffdb_get_user_info(h, (unsigned char*)b.p, &l);
      if (r != 0) err = true;
      else if (strict && (l != s.uinfo.size() || memcmp(b.p, s.uinfo.data(), l))) tell('W', "user info reads back differently");
      else if (!strict && l && (l != s.uinfo.size() || memcmp(b.p, s.uinfo.data(), l))) count("large_meta_diff");
    }
    if (s.cfgs_set) {
      ffdb_all_config_info_t a; a.numconfigs = -1; a.allconfigs = nullptr;
      if (ffdb_get_all_configs(h, &a) != 0) err = true;
      else if (strict) {
        if (a.numconfigs != (int)s.cfgs.size()) tell('W', "%d configurations read back, %zu set", a.numconfigs, s.cfgs.size());
        for (size_t i = 0; i < s.cfgs.size(); i++) if (memcmp(&a.allconfigs[i], &s.cfgs[i], sizeof s.cfgs[i])) tell('W', "configuration %zu reads back differently", i);
        free(a.allconfigs);
      }
    }
  }
  [[noreturn]] void run(const std::string& path, bool rw) {
    FFDB_DB* h = s.raw_open(path, rw ? O_RDWR : O_RDONLY, s.rng.chance(50) ? s.bs() * 3ul : 0, (int)s.rng.below(2), s.cfg);
    if (!h) tell('E', "open refused");
    int order = (int)s.rng.below(3);
    if (order == 0) { lookups(h); scan(h, false); meta(h); scan(h, true); }
    else if (order == 1) { scan(h, true); scan(h, false); meta(h); lookups(h); }
    else { meta(h); scan(h, false); lookups(h); }
    if (h->close(h) != 0) err = true;
    if (rw && !err) {                 // whatever the session wrote back must still obey the same rule
      h = s.raw_open(path, O_RDONLY, 0, 0, s.cfg);
      if (!h) tell('E', "second open refused");
      lookups(h); scan(h, false); meta(h);
      h->close(h);
    }
    tell(err ? 'E' : 'O', "%s", "");
  }
};

static void judge_damage(Session& s, const std::string& path, bool single, bool rw, const std::string& what) {
  for (int attempt = 0; attempt < 2; attempt++) {
    int p[2]; if (pipe(p) != 0) harness("pipe");
    pid_t c = fork();
    if (c < 0) harness("fork");
    if (c == 0) {
      close(p[0]); g_pipe = p[1];
      int dn = open("/dev/null", O_WRONLY); dup2(dn, 2);
      alarm(attempt ? 60 : 15);
      Probe q(s, single); q.run(path, rw);
    }
    close(p[1]);
    Verdict v; ssize_t n = read(p[0], &v, sizeof v);
    close(p[0]);
    int st; if (waitpid(c, &st, 0) != c) harness("waitpid");
    bool told = n == (ssize_t)sizeof v && WIFEXITED(st) && WEXITSTATUS(st) == 0;
    if (told) {
      count(std::string("outcome_") + v.kind);
      signature(what.substr(0, what.find(' ')) + " " + v.kind);
      if (v.kind == 'W') violate("corrupt", "%s: %s", what.c_str(), v.text);
      if (v.kind == 'L') violate("corrupt", "%s: %s", what.c_str(), v.text);
      return;
    }
    if (WIFEXITED(st)) {
      int e = WEXITSTATUS(st);
      if (e == 88) harness("child");
      if (e == 99) {
        violate("corrupt", "%s: memory error while reading (sanitizer report)", what.c_str());
      }
      if (e == 0) violate("corrupt", "%s: the process ended with status 0 in the middle of reading", what.c_str());
      count("outcome_exit_" + std::to_string(e)); signature(what.substr(0, what.find(' ')) + " exit" + std::to_string(e));
      return;                       // the documented fatal exit
    }
    int sig = WTERMSIG(st);
    if (sig == SIGALRM) { if (!single) { count("large_hang"); return; } if (attempt == 0) continue; violate("corrupt", "%s: reading does not end", what.c_str()); }
    if (sig == SIGABRT) { count("outcome_abort"); signature(what.substr(0, what.find(' ')) + " abort"); return; }   // assertion: visible
    if (sig == SIGKILL) harness("child killed");
    violate("corrupt", "%s: signal %d while reading", what.c_str(), sig);
  }
}

static const long SLICES = 64;
static void one(const Args& A, long n0, uint64_t cs) {
  bool small = A.profile == "bytes";     // one small file for SLICES cases, each takes every SLICES-th byte
  if (small) cs = mix(mix(A.seed, (uint64_t)(n0 / SLICES)), 0xb17e5);
  Rng r(cs);
  Cfg c = gen_cfg(r, true); c.enc = 0;
  if (small && c.bsize > 1024) c.bsize = 512;
  if (small) { c.nbuckets = std::min(c.nbuckets, 4u); c.uinfolen = std::min(c.uinfolen, 300u); c.ncfg = std::min(c.ncfg, 3u); }
  if (c.nullinfo) { c = Cfg(); c.bsize = 512; }
  Session s(A.dir + "/db", c, 0, cs ^ 77);
  unlink(s.path.c_str());
  s.keystyle = (int)s.rng.below(4); s.valstyle = (int)s.rng.below(3);
  s.create();
  int n = small ? 3 + (int)s.rng.below(8) : (int)s.rng.pick(std::vector<int>{3, 8, 15, 30, 60});
  for (int i = 0; i < n; i++) s.put_random();
  if (s.rng.chance(70)) s.set_uinfo();
  if (s.rng.chance(70)) s.set_all_cfgs();
  s.close_db();
  std::string A0, B;
  slurp(s.path, A0);
  bool rewritten = s.rng.chance(50);
  if (rewritten) {                     // same layout, other values: a later damage can bring back a stale page
    s.open_existing(false, 0, s.cfg.rearr);
    for (auto& ck : s.keys) if (s.rng.chance(60)) { const Val m = s.model[ck]; s.put(m.key, bytes(s.rng, m.val.size()), 0); }
    s.close_db();
  }
  slurp(s.path, B);
  bool foreign = A.profile != "bytes" && s.rng.chance(25), v5 = A.profile != "bytes" && s.rng.chance(15);
  if (foreign || v5) { B = conv::convert(B, foreign, v5); A0 = conv::convert(A0, foreign, v5); }
  uint32_t bs = s.bs(), np = (uint32_t)(B.size() / bs);
  std::string path = A.dir + "/damaged";
  auto trial = [&](const std::string& f, bool single, const std::string& what) {
    spew(path, f);
    note("%s", what.c_str());
    count(single ? "single_byte_damages" : "large_damages");
    judge_damage(s, path, single, !foreign && !v5 && s.rng.chance(15), what);
  };
  // the undamaged file first: everything must be as stored
  { spew(path, B); int k = (int)stats().n["outcome_O"]; judge_damage(s, path, true, s.rng.chance(50) && !foreign, "undamaged"); if ((int)stats().n["outcome_O"] != k + 1) violate("corrupt", "the undamaged file does not read back"); spew(path, B); }
  char w[200];
  if (A.profile == "bytes") {          // every byte of a small file
    if (B.size() > 24000 || np < 4) { case_end(false); unlink(s.path.c_str()); return; }
    Rng pr(mix(cs, (uint64_t)n0)); s.rng = pr;
    for (size_t o = (size_t)(n0 % SLICES); o < B.size(); o += (size_t)SLICES) {
      std::string f = B; unsigned char x = (unsigned char)(1 + s.rng.below(255)); f[o] = (char)(f[o] ^ x);
      snprintf(w, sizeof w, "single-byte page %zu offset %zu xor %02x", o / bs, o % bs, x); trial(f, true, w);
    }
    case_end(true); unlink(s.path.c_str()); return;
  }
  int ns = 36 * A.scale, nl = 14 * A.scale;
  for (int i = 0; i < ns; i++) {
    std::string f = B;
    size_t pg = s.rng.below(np), off;
    switch (s.rng.below(6)) { case 0: off = s.rng.below(36); break; case 1: off = bs - 1 - s.rng.below(40); break; case 2: off = 12 + s.rng.below(16); break; case 3: pg = 0; off = s.rng.below(332); break; default: off = s.rng.below(bs); }
    size_t o = pg * bs + off;
    unsigned char old = (unsigned char)f[o], nv = old;
    switch (s.rng.below(4)) { case 0: nv = (unsigned char)(old ^ (1u << s.rng.below(8))); break; case 1: nv = 0; break; case 2: nv = (unsigned char)(old + 1); break; default: nv = (unsigned char)(old ^ (1 + s.rng.below(255))); }
    if (nv == old) nv = (unsigned char)(old ^ 0x80);
    f[o] = (char)nv;
    snprintf(w, sizeof w, "single-byte page %zu offset %zu %02x->%02x%s%s", pg, off, old, nv, foreign ? " big-endian" : "", v5 ? " v5" : "");
    trial(f, true, w);
  }
  for (int i = 0; i < nl; i++) {
    std::string f = B; size_t a = 1 + s.rng.below(np - 1), b = 1 + s.rng.below(np - 1);
    switch (s.rng.below(8)) {
      case 0: f.replace(a * bs, bs, std::string(bs, 0)); snprintf(w, sizeof w, "zero-page %zu", a); break;
      case 1: { size_t l = 1 + s.rng.below(bs * 2); size_t o = s.rng.below(f.size() - 1); l = std::min(l, f.size() - o); f.replace(o, l, std::string(l, (char)(s.rng.chance(50) ? 0 : 0xff))); snprintf(w, sizeof w, "fill-range %zu+%zu", o, l); break; }
      case 2: { size_t l = 2 + s.rng.below(64); size_t o = s.rng.below(f.size() - l); f.replace(o, l, bytes(s.rng, l)); snprintf(w, sizeof w, "random-range %zu+%zu", o, l); break; }
      case 3: { size_t l = s.rng.below(f.size()); if (s.rng.chance(60)) l = l / bs * bs; f.resize(l); snprintf(w, sizeof w, "truncate to %zu of %zu", l, B.size()); break; }
      case 4: { std::string t = f.substr(a * bs, bs); f.replace(a * bs, bs, f.substr(b * bs, bs)); f.replace(b * bs, bs, t); snprintf(w, sizeof w, "swap-pages %zu %zu", a, b); break; }
      case 5: f.replace(a * bs, bs, B.substr(b * bs, bs)); snprintf(w, sizeof w, "copy-page %zu to %zu", b, a); break;
      case 6: if (A0.size() != B.size()) { i--; if (s.rng.chance(10)) i++; continue; } f.replace(a * bs, bs, A0.substr(a * bs, bs)); snprintf(w, sizeof w, "stale-page %zu", a); break;
      default: f += bytes(s.rng, bs * (1 + s.rng.below(3))); snprintf(w, sizeof w, "append garbage"); break;
    }
    trial(f, false, w);
  }
  if (rewritten && A0.size() == B.size())          // every page brought back from before the rewrite (a lost write)
    for (uint32_t a = s.rng.below(4); a < np; a += 1 + (np > 60 ? np / 30 : 0)) {
      if (!a || !B.compare((size_t)a * bs, bs, A0, (size_t)a * bs, bs)) continue;
      std::string f = B; f.replace((size_t)a * bs, bs, A0.substr((size_t)a * bs, bs)); snprintf(w, sizeof w, "stale-page %u", a); trial(f, false, w);
    }
  case_end(s.model.size() >= 3);
  unlink(s.path.c_str()); unlink(path.c_str());
}
int main(int argc, char** argv) { signal(SIGPIPE, SIG_IGN); return harness_main(argc, argv, one); }
