// format --profile golden|foreign|gen : stability of the file format.
//  gen      (run once, with the pinned release's library) writes the golden files and what they contain
//  golden   every golden file, in four encodings, is read and extended by the current library
//  foreign  files written by the current library are converted (byte order, version) by an independent converter and used on
#include "hist.hpp"
#include "harness.hpp"
#include "conv.hpp"
using namespace hist;

// --- expectation files: length-prefixed strings -----------------------------------------------------
static void w(std::string& o, const std::string& s) { uint64_t n = s.size(); o.append((char*)&n, 8); o += s; }
static std::string rd(const std::string& o, size_t& p) { uint64_t n; if (p + 8 > o.size()) harness("truncated expectation"); memcpy(&n, &o[p], 8); p += 8; std::string s = o.substr(p, n); p += n; return s; }
static std::string dump(const Session& s) {
  std::string o;
  w(o, std::string((const char*)&s.cfg.bsize, 4)); w(o, std::to_string(s.cfg.hashk)); w(o, std::to_string(s.expect_uinfolen())); w(o, std::to_string(s.expect_ncfg()));
  w(o, s.uinfo_set ? "1" : "0"); w(o, s.uinfo);
  w(o, std::string((const char*)s.cfgs.data(), s.cfgs.size() * sizeof(ffdb_config_info_t)));
  w(o, std::to_string(s.model.size()));
  for (auto& m : s.model) { w(o, m.first); w(o, m.second.key); w(o, m.second.val); }
  return o;
}
static void load(Session& s, const std::string& o) {
  size_t p = 0;
  std::string t = rd(o, p); memcpy(&s.cfg.bsize, t.data(), 4);
  s.cfg.hashk = atoi(rd(o, p).c_str()); s.cfg.uinfolen = (unsigned)atoi(rd(o, p).c_str()); s.cfg.ncfg = (unsigned)atoi(rd(o, p).c_str());
  s.uinfo_set = rd(o, p) == "1"; s.uinfo = rd(o, p);
  t = rd(o, p); s.cfgs.resize(t.size() / sizeof(ffdb_config_info_t)); if (t.size()) memcpy(s.cfgs.data(), t.data(), t.size()); s.cfgs_set = !t.empty();
  int n = atoi(rd(o, p).c_str());
  for (int i = 0; i < n; i++) { std::string c = rd(o, p), k = rd(o, p), v = rd(o, p); s.model[c] = Val{k, v}; s.keys.push_back(c); }
  s.cfg.nullinfo = false; s.cfg.nbuckets = 0; s.cfg.cache = 0;
}
static const char* enc_name(int e) { static const char* n[] = {"little-endian v6", "big-endian v6", "little-endian v5", "big-endian v5"}; return n[e]; }
static uint32_t file_word(const std::string& path, int i) { std::string b; slurp(path, b); return b.size() < 332 ? 0 : fsck::be32((const unsigned char*)b.data() + 4 * i); }

// use the file in the session's state read-only, then read-write for some sessions
static void use(Session& s, int enc, const char* tag) {
  uint32_t order = enc & 1 ? 4321 : 1234, ver = enc & 2 ? 5 : 6;
  std::string before, after; slurp(s.path, before);
  s.mon_mask |= M_FSCK;
  s.check_file(s.path, "before use");
  int ros = 1 + (int)s.rng.below(2);
  for (int i = 0; i < ros; i++) { s.open_existing(true, s.random_cache(), (int)s.rng.below(2)); s.verify_session(tag); s.scan_random(tag); s.get_uinfo(tag); s.get_cfgs(tag); s.close_db(); }
  slurp(s.path, after);
  if (before != after) violate(tag, "reading a %s file changed it", enc_name(enc));
  int rws = (int)s.rng.below(4);
  for (int k = 0; k < rws; k++) {
    s.open_existing(false, s.random_cache(), (int)s.rng.below(2));
    if (s.rng.chance(50)) s.verify_session(tag);
    int n = (int)s.rng.pick(std::vector<int>{0, 1, 2, 5, 20, 60});
    for (int i = 0; i < n; i++) { s.put_random(); if (s.rng.chance(20)) s.get_random(tag); if (s.rng.chance(4)) s.set_uinfo(); if (s.rng.chance(4)) s.set_all_cfgs(); if (s.rng.chance(6)) s.set_one_cfg(); if (s.rng.chance(5)) s.refused_random(); if (s.rng.chance(3)) s.sync(true); if (s.rng.chance(3)) s.scan_random(tag); }
    s.verify_session(tag);
    s.close_db();
    if (file_word(s.path, 1) != ver || file_word(s.path, 2) != order) violate(tag, "a %s file became version %u, byte order %u", enc_name(enc), file_word(s.path, 1), file_word(s.path, 2));
    count("rw_sessions");
  }
  s.open_existing(true, 0, 0); s.verify_session(tag); s.close_db();
}
static std::string goldir;
static void p_gen(const Args& A, long n, uint64_t cs) {
  Rng r(cs);
  Cfg c = gen_cfg(r, true); c.enc = 0;
  c.nullinfo = false; if (!c.bsize) c.bsize = 512;
  if (n % 4 != 3) c.hashk = 0;
  Session s(A.dir + "/db", c, M_FSCK, cs ^ 3);
  s.keystyle = n % 5 == 1 ? 1 : n % 5 == 2 ? 2 : 0; s.valstyle = n % 3 == 1 ? 1 : n % 7 == 3 ? 3 : 0;
  s.create();
  int sess = 1 + (int)(n % 3), ops = n == 0 ? 0 : 10 + (int)r.below(70);
  for (int k = 0; k < sess; k++) {
    for (int i = 0; i < ops; i++) s.put_random();
    if (s.rng.chance(80)) s.set_uinfo();
    if (s.rng.chance(80)) s.set_all_cfgs();
    s.verify_all("gen");
    s.close_db();
    if (k + 1 < sess) s.open_existing(false, 0, (int)r.below(2));
  }
  std::string b; slurp(s.path, b);
  if (b.size() > 160000) { count("too_big"); return; }
  char nm[64]; snprintf(nm, sizeof nm, "/g%02ld", n);
  spew(goldir + nm + ".db", b); spew(goldir + nm + ".exp", dump(s));
}
static void p_golden(const Args& A, long n, uint64_t cs) {
  fsck::chains() = false;
  std::vector<int> have; char nm[64];
  for (int i = 0; i < 100; i++) { snprintf(nm, sizeof nm, "/g%02d.db", i); if (filesize(goldir + nm) >= 0) have.push_back(i); }
  if (have.empty()) harness("no golden files in %s", goldir.c_str());
  int g = have[(size_t)n % have.size()], enc = (int)(n / (long)have.size()) % 4;
  snprintf(nm, sizeof nm, "/g%02d", g);
  std::string b, e;
  if (!slurp(goldir + nm + ".db", b) || !slurp(goldir + nm + ".exp", e)) harness("golden file unreadable");
  Session s(A.dir + "/db", Cfg(), M_FSCK, cs ^ 9);
  load(s, e);
  note("golden %d %s pass %ld", g, enc_name(enc), n);
  if (enc) b = conv::convert(b, enc & 1, enc & 2);
  spew(s.path, b); s.cfg.enc = enc;
  signature(std::string("golden ") + std::to_string(g) + " " + enc_name(enc));
  sample(std::string("golden file ") + std::to_string(g) + " as " + enc_name(enc) + ", " + std::to_string(s.model.size()) + " pairs");
  count("golden_reads");
  use(s, enc, "golden");
  case_end(s.model.size() >= 3);
  unlink(s.path.c_str());
}
static void p_foreign(const Args& A, long n, uint64_t cs) {
  Rng r(cs);
  Cfg c0 = gen_cfg(r, r.chance(70)); c0.enc = 0;
  if (r.chance(15) && !c0.nullinfo) { c0.bsize = 512; c0.nbuckets = r.pick(std::vector<unsigned>{300, 1000, 2048, 5000}); if (r.chance(70)) c0.hashk = 0; }   // every bit of the hash of a key places it
  Session s(A.dir + "/db", c0, M_FSCK, cs ^ 31);
  s.keystyle = (int)s.rng.pick(std::vector<int>{0, 0, 0, 1, 2, 3}); s.valstyle = (int)s.rng.pick(std::vector<int>{0, 0, 1, 2, 3});
  s.create();
  int sess = 1 + (int)r.below(3);
  for (int k = 0; k < sess; k++) {
    int ops = (int)r.below(80);
    for (int i = 0; i < ops; i++) { s.put_random(); if (s.rng.chance(4)) s.set_uinfo(); if (s.rng.chance(4)) s.set_all_cfgs(); if (s.rng.chance(4)) s.set_one_cfg(); }
    s.close_db();
    if (k + 1 < sess) s.open_existing(false, s.random_cache(), (int)r.below(2));
  }
  int enc = 1 + (int)r.below(3);
  std::string b; slurp(s.path, b);
  if (file_word(s.path, 1) != 6 || file_word(s.path, 2) != 1234) violate("format", "a new file has version %u and byte order %u", file_word(s.path, 1), file_word(s.path, 2));
  spew(s.path, conv::convert(b, enc & 1, enc & 2)); s.cfg.enc = enc;
  note("foreign %s", enc_name(enc));
  signature(std::string("foreign ") + enc_name(enc) + " b" + std::to_string(s.bs()));
  count("foreign_files");
  use(s, enc, "foreign");
  case_end(s.model.size() >= 3);
  unlink(s.path.c_str());
  (void)n;
}
int main(int argc, char** argv) {
  std::vector<char*> av;
  for (int i = 0; i < argc; i++) if (!strcmp(argv[i], "--golden") && i + 1 < argc) goldir = argv[++i]; else av.push_back(argv[i]);
  return harness_main((int)av.size(), av.data(), [](const Args& A, long n, uint64_t cs) {
    if (A.profile == "gen") p_gen(A, n, cs); else if (A.profile == "golden") p_golden(A, n, cs); else if (A.profile == "foreign") p_foreign(A, n, cs); else harness("unknown profile");
  });
}
