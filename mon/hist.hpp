// Model-based history engine over the public C API (ffdb_db.h only).
// One Session object = one database file, one reference model, one handle at a time.
// Every API call is made through a wrapper that knows what the reference model says the call must
// return, and every observation is compared at the client boundary.
#pragma once
#include "mon.hpp"
#include "fsck.hpp"
#include "conv.hpp"
extern "C" {
#include "ffdb_db.h"
}
#include <memory>
#include <algorithm>

#ifdef MON_MEM            // see memtrack.cpp
extern "C" void mon_free(void*);
#define free mon_free
#endif
namespace hist {
using namespace mon;

// ---- hash / compare functions offered by the user --------------------------------------------
inline unsigned h_const(const void*, unsigned) { return 0x5a5a5a5au; }
inline unsigned h_zero(const void*, unsigned) { return 0; }
inline unsigned h_len(const void*, unsigned n) { return n; }
inline unsigned h_two(const void* k, unsigned n) { return fsck::ref_hash(k, n) & 1; }
inline unsigned h_few(const void* k, unsigned n) { return fsck::ref_hash(k, n) & 0x80000007u; }
inline unsigned h_high(const void* k, unsigned n) { return fsck::ref_hash(k, n) & 0xffff0000u; }
inline unsigned h_sh6(const void* k, unsigned n) { return fsck::ref_hash(k, n) << 6; }     // few buckets in use: long chains that are split late
inline unsigned h_sh9(const void* k, unsigned n) { return (fsck::ref_hash(k, n) * 2654435761u) & ~0x1ffu; }
inline unsigned h_named(const void* k, unsigned n) { unsigned v = 0; if (n) memcpy(&v, k, n < 4 ? n : 4); return v; }   // the key names its bucket
inline unsigned h_ones(const void*, unsigned) { return 0xffffffffu; }
inline unsigned h_ci(const void* k, unsigned n) {
  std::string s((const char*)k, n);
  for (auto& c : s) if (c >= 'A' && c <= 'Z') c = (char)(c + 32);
  return fsck::ref_hash(s.data(), n);
}
inline int c_ci(const FFDB_DBT* a, const FFDB_DBT* b) {
  if (a->size != b->size) return a->size < b->size ? -1 : 1;
  const unsigned char* x = (const unsigned char*)a->data, *y = (const unsigned char*)b->data;
  for (long i = 0; i < a->size; i++) {
    int p = x[i] >= 'A' && x[i] <= 'Z' ? x[i] + 32 : x[i], q = y[i] >= 'A' && y[i] <= 'Z' ? y[i] + 32 : y[i];
    if (p != q) return p - q;
  }
  return 0;
}
// keys that differ only in trailing blanks are one key: equal keys need not be equally long
inline size_t trimmed(const void* k, size_t n) { while (n && ((const char*)k)[n - 1] == ' ') n--; return n; }
inline unsigned h_trim(const void* k, unsigned n) { return fsck::ref_hash(k, (unsigned)trimmed(k, n)); }
inline int c_trim(const FFDB_DBT* a, const FFDB_DBT* b) {
  size_t x = trimmed(a->data, (size_t)a->size), y = trimmed(b->data, (size_t)b->size);
  if (x != y) return x < y ? -1 : 1;
  return x ? memcmp(a->data, b->data, x) : 0;
}
// a compare function with the default hash: order reversed, equality as usual
inline int c_rev(const FFDB_DBT* a, const FFDB_DBT* b) {
  if (a->size != b->size) return a->size < b->size ? 77 : -77;
  return a->size ? -memcmp(a->data, b->data, (size_t)a->size) : 0;
}
struct HashKind { const char* name; unsigned (*h)(const void*, unsigned); int (*c)(const FFDB_DBT*, const FFDB_DBT*); int eq; };   // eq: 1 case is ignored, 2 trailing blanks are
inline const std::vector<HashKind>& hash_kinds() {
  static std::vector<HashKind> v = {
    {"default", 0, 0, 0}, {"const", h_const, 0, 0}, {"zero", h_zero, 0, 0}, {"len", h_len, 0, 0},
    {"two", h_two, 0, 0}, {"few", h_few, 0, 0}, {"high", h_high, 0, 0}, {"nocase", h_ci, c_ci, 1}, {"ones", h_ones, 0, 0}, {"blanks", h_trim, c_trim, 2}, {"reversed", 0, c_rev, 0},
    {"shift6", h_sh6, 0, 0}, {"shift9", h_sh9, 0, 0}, {"named", h_named, 0, 0} };
  return v;
}

// ---- what the checks switch on ----------------------------------------------------------------
enum : unsigned { M_GET = 1, M_SCAN = 2, M_REOPEN = 4, M_FSCK = 8, M_SYNC = 16, M_META = 32, M_REFUSE = 64, M_RO = 128, M_SIZE = 256, M_LEAK = 512, M_SPACE = 1024 };

struct Cfg {
  unsigned bsize = 0, nbuckets = 0; unsigned long cache = 0; int rearr = 1; unsigned uinfolen = 0, ncfg = 0; int hashk = 0; bool nullinfo = false;
  int enc = 0;   // 1: the other byte order, 2: format version 5
  unsigned real_bsize() const { unsigned b = 512; if (!bsize) return 4096; if (bsize < 512) return 512; while (b < bsize) b <<= 1; return b; }
};
struct Val { std::string key, val; };
// c is one of the slots that carry this number (several may)
inline bool slot_like(const std::vector<ffdb_config_info_t>& v, int number, const ffdb_config_info_t& c) { for (auto& x : v) if (x.config == number && !memcmp(&c, &x, sizeof c)) return true; return false; }

struct Session {
  std::string path;
  Cfg cfg;
  unsigned mon_mask;
  Rng rng;
  FFDB_DB* db = nullptr;
  bool ro = false;
  int rearr_now = 1;
  unsigned long cache_now = 0;
  std::map<std::string, Val> model;       // canonical key -> stored spelling, value
  std::vector<std::string> keys;          // canonical keys in insertion order
  std::string uinfo; bool uinfo_set = false;
  std::vector<ffdb_config_info_t> cfgs; bool cfgs_set = false;
  uint64_t uid = 0, shortened = 0;
  long sessions = 0, puts_in_session = 0, mods_in_session = 0;

  Session(const std::string& p, const Cfg& c, unsigned m, uint64_t seed) : path(p), cfg(c), mon_mask(m), rng(seed) {}
  const HashKind& hk() const { return hash_kinds()[cfg.hashk]; }
  unsigned bs() const { return cfg.nullinfo ? 4096u : cfg.real_bsize(); }
  unsigned maxkey_sure() const { return bs() - 59; }
  unsigned maxkey_never() const { return bs() - 56; }
  std::string canon(const std::string& k) const {
    if (!hk().eq) return k;
    if (hk().eq == 2) return k.substr(0, trimmed(k.data(), k.size()));
    std::string s = k;
    for (auto& c : s) if (c >= 'A' && c <= 'Z') c = (char)(c + 32);
    return s;
  }
  unsigned expect_uinfolen() const { return cfg.nullinfo || !cfg.uinfolen ? 4000u : cfg.uinfolen; }
  unsigned expect_ncfg() const { return cfg.nullinfo || !cfg.ncfg ? 1u : cfg.ncfg; }
  fsck::hash_fn fh() const { return hk().h ? hk().h : fsck::ref_hash; }

  // ---- open / close ---------------------------------------------------------------------------
  FFDB_DB* raw_open(const std::string& p, int flags, unsigned long cache, int rearr, const Cfg& c) {
    FFDB_HASHINFO in; memset(&in, 0, sizeof in);
    in.bsize = c.bsize; in.nbuckets = c.nbuckets; in.cachesize = cache; in.rearrangepages = rearr;
    in.userinfolen = c.uinfolen; in.numconfigs = c.ncfg; in.hash = hk().h; in.cmp = hk().c;
    bool usenull = c.nullinfo && !hk().h;
    return ffdb_dbopen(p.c_str(), flags, 0664, usenull ? nullptr : &in);
  }
  void create(int extra = 0) {
    note("create bsize=%u nb=%u cache=%lu rearr=%d ui=%u nc=%u hash=%s null=%d enc=%d", cfg.bsize, cfg.nbuckets, cfg.cache, cfg.rearr, cfg.uinfolen, cfg.ncfg, hk().name, cfg.nullinfo, cfg.enc);
    db = raw_open(path, O_RDWR | O_CREAT | O_TRUNC | extra, cfg.cache, cfg.rearr, cfg);
    if (!db) violate("open", "creating a database with valid parameters failed (errno %d, page size %u, buckets %u)", errno, cfg.bsize, cfg.nbuckets);
    ro = false; rearr_now = cfg.nullinfo ? 1 : cfg.rearr; cache_now = cfg.cache; sessions++; puts_in_session = mods_in_session = 0;
    count("opens");
    check_announced();
    if (cfg.enc) {                               // the history of a file that another machine or release created
      if (db->close(db) != 0) violate("close", "closing a new database failed (errno %d)", errno);
      encode(path, cfg.enc);
      db = raw_open(path, O_RDWR, cfg.cache, cfg.rearr, cfg);
      if (!db) violate("reopen", "opening a database of byte order or version %d failed (errno %d)", cfg.enc, errno);
      check_announced(); count("foreign_histories"); signature("encoding " + std::to_string(cfg.enc));
    }
  }
  static void encode(const std::string& p, int enc) {
    std::string b;
    if (!slurp(p, b)) harness("database file unreadable");
    fsck::Header h;
    if (!fsck::read_header(b, h) || h.lorder != 1234 || h.version != 6) violate("format", "a new file is not of version 6 and this machine's byte order");
    spew(p, conv::convert(b, enc & 1, enc & 2));
  }
  void open_existing(bool readonly, unsigned long cache, int rearr) {
    note("open ro=%d cache=%lu rearr=%d", readonly, cache, rearr);
    Cfg c = cfg;
    // an existing file keeps its own layout whatever the open passes
    if (rng.chance(30)) { c.bsize = rng.pick(std::vector<unsigned>{512, 4096, 8192}); c.nbuckets = (unsigned)rng.below(9); c.uinfolen = (unsigned)rng.below(100); c.ncfg = (unsigned)rng.below(5); }
    db = raw_open(path, readonly ? O_RDONLY : O_RDWR, cache, rearr, c);
    if (!db) violate("reopen", "opening the closed database failed (errno %d, read-only %d)", errno, readonly);
    ro = readonly; rearr_now = c.nullinfo && !hk().h ? 1 : rearr; cache_now = cache; sessions++; puts_in_session = mods_in_session = 0;
    count(readonly ? "opens_ro" : "opens_rw");
    check_announced();
  }
  void check_announced() {
    if (ffdb_max_user_info_len(db) != expect_uinfolen()) violate("meta", "announced user info maximum %u, requested %u", ffdb_max_user_info_len(db), expect_uinfolen());
    if (ffdb_num_configs(db) != expect_ncfg()) violate("meta", "announced configuration count %u, requested %u", ffdb_num_configs(db), expect_ncfg());
  }
  void close_db() {
    note("close");
    int r = db->close(db);
    db = nullptr;
    count("closes");
    if (r != 0) violate("close", "close reported %d without any fault (errno %d)", r, errno);
    if (mon_mask & M_FSCK) check_file(path, "after close");
  }
  // ---- independent structural check -----------------------------------------------------------
  fsck::Result check_file(const std::string& p, const char* when) {
    std::string b;
    if (!slurp(p, b)) violate("fsck", "%s: database file cannot be read", when);
    fsck::Result r = fsck::parse(b, fh());
    if (!r.ok()) {
      for (auto& e : r.errors) note("fsck %s", e.c_str());
      violate("fsck", "%s: %s (%zu findings, %zu pairs expected, num_moved=%u max_bucket=%u high=%u)", when, r.first().c_str(), r.errors.size(), model.size(), r.h.num_moved_pages, r.h.max_bucket, r.h.high_mask);
    }
    if (r.h.bsize != bs()) violate("fsck", "%s: page size %u, created with %u", when, r.h.bsize, bs());
    compare_pairs(r.pairs, "fsck", when);
    if (r.h.uinfolen != expect_uinfolen() || r.h.num_cfigs != expect_ncfg()) violate("fsck", "%s: metadata maxima %u/%u, created with %u/%u", when, r.h.uinfolen, r.h.num_cfigs, expect_uinfolen(), expect_ncfg());
    if (r.uinfo_set != uinfo_set || (uinfo_set && r.uinfo != uinfo)) violate("fsck", "%s: user info on disk %s, expected %s", when, show(r.uinfo).c_str(), show(uinfo).c_str());
    if (cfgs_set != !r.configs.empty()) violate("fsck", "%s: %zu configuration records on disk, set=%d", when, r.configs.size(), cfgs_set);
    if (cfgs_set) for (size_t i = 0; i < cfgs.size(); i++)
      if (i >= r.configs.size() || memcmp(&r.configs[i], &cfgs[i], sizeof(ffdb_config_info_t))) violate("fsck", "%s: configuration record %zu differs on disk", when, i);
    count("fsck_files"); count("fsck_pages", r.npages); count("fsck_pairs", r.pairs.size());
    if (mon_mask & M_SPACE && r.lost_pages > shortened) violate("space", "%s: %u pages are neither in use nor reusable", when, r.lost_pages);
    count("fsck_overflow_pages", r.used_overflow); count("fsck_multipage_values", r.multi_page_values); count("fsck_free_pages", r.free_pages); count("fsck_long_free_lists", r.long_free_lists);
    char s[160]; snprintf(s, sizeof s, "lv%u ovf%d free%d moved%d multi%d", r.h.ovfl_point, r.used_overflow > 2 ? 2 : (int)r.used_overflow, r.free_pages > 0, r.h.num_moved_pages > 0, r.multi_page_values > 0);
    signature(std::string("layout ") + s);
    return r;
  }
  void compare_pairs(const std::map<std::string, std::string>& got, const char* tag, const char* when) {
    if (got.size() != model.size()) {
      for (auto& m : model) if (!got.count(m.second.key)) violate(tag, "%s: %zu pairs found, %zu stored; e.g. key %s is missing", when, got.size(), model.size(), show(m.second.key).c_str());
      violate(tag, "%s: %zu pairs found, %zu stored", when, got.size(), model.size());
    }
    for (auto& m : model) {
      auto it = got.find(m.second.key);
      if (it == got.end()) violate(tag, "%s: key %s is missing", when, show(m.second.key).c_str());
      if (it->second != m.second.val) violate(tag, "%s: key %s holds %s, stored %s", when, show(m.second.key).c_str(), show(it->second).c_str(), show(m.second.val).c_str());
    }
  }
  // ---- put ------------------------------------------------------------------------------------
  // returns whether the store was accepted
  bool put(const std::string& k, const std::string& v, unsigned flag = 0) {
    Exact kb(k), vb(v);
    FFDB_DBT kd{kb.p, (long)kb.n}, vd{vb.p, (long)vb.n};
    std::string ck = canon(k);
    auto it = model.find(ck);
    const char* why = nullptr;
    bool either = false;
    if (ro) why = "read-only handle";
    else if (flag && flag != FFDB_NOOVERWRITE) why = "unknown flag";
    else if (k.size() > maxkey_never()) why = "key too long";
    else if (it != model.end() && flag == FFDB_NOOVERWRITE) why = "key exists";
    else if (it != model.end() && v.size() > it->second.val.size()) why = "replacement longer than current value";
    else if (k.size() > maxkey_sure()) either = true;
    note("put k=%s v=%s flag=%u expect=%s", show(k).c_str(), show(v).c_str(), flag, why ? why : "ok");
    int r = db->put(db, &kd, &vd, flag);
    count("puts");
    if (kd.data != kb.p || vd.data != vb.p || kd.size != (long)k.size() || vd.size != (long)v.size() ||
        memcmp(kb.p, k.data(), k.size()) || memcmp(vb.p, v.data(), v.size())) violate("put", "store modified the caller's buffers");
    if (why) {
      count("refused");
      signature(std::string("refused ") + why);
      if (r == 0) violate("refuse", "store was accepted although it must be refused: %s (key %s, value %s)", why, show(k).c_str(), show(v).c_str());
      return false;
    }
    if (r != 0) {
      if (either) return false;
      violate("put", "store of key %s value %s was refused (%d)", show(k).c_str(), show(v).c_str(), r);
    }
    if (it != model.end()) {
      if (it->second.val.size() > v.size()) shortened += (it->second.val.size() - v.size()) / (bs() - 64) + 1;   // the pages a shorter value no longer needs stay its own
      it->second.val = v; count("replaces");
    }
    else { model[ck] = Val{k, v}; keys.push_back(ck); puts_in_session++; count("inserts"); }
    mods_in_session++;
    return true;
  }
  // ---- get ------------------------------------------------------------------------------------
  // mode 0: library allocates, 1: exact caller buffer, 2: larger caller buffer, 3: too small buffer
  void get(const std::string& k, int mode, const char* tag = "get", FFDB_DB* h = nullptr) {
    if (!h) h = db;
    Exact kb(k);
    FFDB_DBT kd{kb.p, (long)kb.n}, vd{nullptr, 0};
    auto it = model.find(canon(k));
    bool have = it != model.end();
    std::unique_ptr<Exact> ub;
    size_t vs = have ? it->second.val.size() : 16;
    if (mode == 3 && (!have || vs < 2)) mode = 0;
    if (mode == 1 && vs == 0) mode = 2;
    if (mode == 1) ub.reset(new Exact(vs, (char)0xA5));
    if (mode == 2) ub.reset(new Exact(vs + 1 + rng.below(40), (char)0xA5));
    if (mode == 3) ub.reset(new Exact(rng.chance(50) ? vs - 1 : 1 + rng.below(vs - 1), (char)0xA5));
    if (ub) { vd.data = ub->p; vd.size = (long)ub->n; }
    note("get k=%s mode=%d", show(k).c_str(), mode);
    int r = h->get(h, &kd, &vd, 0);
    count("gets");
    if (memcmp(kb.p, k.data(), k.size()) || kd.size != (long)k.size()) violate(tag, "lookup modified the caller's key");
    if (!have) {
      count("gets_absent");
      if (r == 0) violate(tag, "lookup of the never stored key %s returned data", show(k).c_str());
      if (r != FFDB_NOT_FOUND) violate(tag, "lookup of the never stored key %s returned %d instead of not-found", show(k).c_str(), r);
      return;
    }
    if (mode == 3) {
      count("refused");
      if (r == 0) violate("refuse", "lookup into a buffer of %zu bytes succeeded for a value of %zu bytes", ub->n, vs);
      return;
    }
    if (r != 0) violate(tag, "lookup of stored key %s (value of %zu bytes, buffer mode %d) returned %d", show(k).c_str(), vs, mode, r);
    if (vd.size != (long)vs) violate(tag, "lookup of key %s returned %ld bytes, stored %zu", show(k).c_str(), vd.size, vs);
    if (ub && vd.data != ub->p) violate(tag, "lookup replaced the caller's buffer");
    if (vs && memcmp(vd.data, it->second.val.data(), vs)) violate(tag, "lookup of key %s returned %s, stored %s", show(k).c_str(), show(std::string((char*)vd.data, vs)).c_str(), show(it->second.val).c_str());
    if (ub) for (size_t i = vs; i < ub->n; i++) if (ub->p[i] != (char)0xA5) violate(tag, "lookup wrote beyond the value into the caller's buffer");
    if (!ub) free(vd.data);
  }
  std::string fresh_key() { for (;;) { std::string k = gen_key(); if (!model.count(canon(k))) return k; } }
  void get_random(const char* tag = "get", FFDB_DB* h = nullptr) {
    if (!keys.empty() && rng.chance(75)) {
      const std::string& c = keys[rng.below(keys.size())];
      get(respell(model[c].key), (int)rng.below(3), tag, h);
    } else get(fresh_key(), (int)rng.below(3), tag, h);
  }
  void verify_all(const char* tag, FFDB_DB* h = nullptr) {
    std::vector<std::string> ks = keys;
    if (rng.chance(50)) for (size_t i = ks.size(); i > 1; i--) std::swap(ks[i - 1], ks[rng.below(i)]);
    for (auto& k : ks) get(respell(model[k].key), (int)rng.below(3), tag, h);
    for (int i = 0; i < 4; i++) get(fresh_key(), 0, tag, h);
    count("full_verifies");
  }
  // ---- cursors --------------------------------------------------------------------------------
  struct Cur { ffdb_cursor_t* c; };
  // one step; returns 0 / NOT_FOUND, checks the delivered pair
  int step(ffdb_cursor_t* c, unsigned flag, bool withdata, int mode, std::string& outk, const char* tag) {
    FFDB_DBT k{nullptr, 0}, d{nullptr, 0};
    std::unique_ptr<Exact> kb, db_;
    if (mode & 1) { kb.reset(new Exact(bs(), (char)0xA5)); k.data = kb->p; k.size = (long)kb->n; }
    if ((mode & 2) && withdata) {
      size_t mx = 1; for (auto& m : model) mx = std::max(mx, m.second.val.size());
      db_.reset(new Exact(mx, (char)0xA5)); d.data = db_->p; d.size = (long)db_->n;
    }
    int r = c->get(c, &k, withdata ? &d : nullptr, flag);
    count("cursor_steps");
    if (r == FFDB_NOT_FOUND) return r;
    if (r != 0) violate(tag, "cursor step %u returned %d", flag, r);
    outk.assign((char*)k.data, (size_t)k.size);
    auto it = model.find(canon(outk));
    if (it == model.end() || it->second.key != outk) violate(tag, "cursor returned key %s which was never stored", show(outk).c_str());
    if (withdata) {
      const std::string& v = it->second.val;
      if (d.size != (long)v.size() || (v.size() && memcmp(d.data, v.data(), v.size()))) violate(tag, "cursor returned %s for key %s, stored %s", show(std::string((char*)d.data, (size_t)d.size)).c_str(), show(outk).c_str(), show(v).c_str());
      if (!db_) free(d.data);
    }
    if (!kb) free(k.data);
    return 0;
  }
  ffdb_cursor_t* cursor(const char* tag, FFDB_DB* h = nullptr) {
    if (!h) h = db;
    ffdb_cursor_t* c = nullptr;
    if (h->cursor(h, &c, FFDB_KEY_CURSOR) != 0 || !c) violate(tag, "cannot create a cursor");
    count("cursors");
    return c;
  }
  void scan(bool backward, bool withdata, int mode, int interleave, const char* tag = "scan", FFDB_DB* h = nullptr) {
    note("scan back=%d data=%d mode=%d interleave=%d", backward, withdata, mode, interleave);
    ffdb_cursor_t* c = cursor(tag, h);
    std::set<std::string> seen;
    bool explicit_first = rng.chance(50);
    for (;;) {
      unsigned f = backward ? FFDB_PREV : FFDB_NEXT;
      if (seen.empty() && explicit_first) f = backward ? FFDB_LAST : FFDB_FIRST;
      std::string k;
      int r = step(c, f, withdata, mode, k, tag);
      if (r == FFDB_NOT_FOUND) break;
      if (!seen.insert(canon(k)).second) violate(tag, "%s scan returned key %s twice", backward ? "backward" : "forward", show(k).c_str());
      if (seen.size() > model.size()) violate(tag, "scan returned more keys than stored");
      if (interleave && rng.chance(interleave)) {
        if (rng.chance(50)) get(k, (int)rng.below(3), tag, h);
        else get_random(tag, h);
      }
    }
    if (seen.size() != model.size()) {
      for (auto& m : model) if (!seen.count(m.first)) violate(tag, "%s scan returned %zu of %zu keys, missing %s", backward ? "backward" : "forward", seen.size(), model.size(), show(m.second.key).c_str());
    }
    // a finished traversal stays finished
    if (rng.chance(50)) { std::string k; int r = step(c, backward ? FFDB_PREV : FFDB_NEXT, withdata, mode, k, tag); if (r != FFDB_NOT_FOUND) violate(tag, "cursor moved past the end returned %d", r); }
    // repositioning restarts it
    if (rng.chance(40)) {
      std::string k; bool last = rng.chance(50);
      int r = step(c, last ? FFDB_LAST : FFDB_FIRST, withdata, mode, k, tag);
      if ((r == 0) != !model.empty()) violate(tag, "repositioning a finished cursor returned %d with %zu keys", r, model.size());
      if (r == 0 && rng.chance(60)) {                     // and walks everything again
        std::set<std::string> s2; s2.insert(canon(k));
        while (step(c, last ? FFDB_PREV : FFDB_NEXT, false, mode & 1, k, tag) == 0) if (!s2.insert(canon(k)).second) violate(tag, "restarted scan returned key %s twice", show(k).c_str());
        if (s2.size() != model.size()) violate(tag, "restarted scan returned %zu of %zu keys", s2.size(), model.size());
      }
    }
    if (c->close(c) != 0) violate(tag, "closing a cursor failed");
    count("scans"); count("scan_keys", seen.size());
    signature(std::string("scan ") + (backward ? "back" : "fwd") + (withdata ? " data" : " keys") + (interleave ? " mixed" : "") + (model.empty() ? " empty" : ""));
  }
  void wander(const char* tag = "scan") {              // arbitrary moves: only stored pairs ever come out
    ffdb_cursor_t* c = cursor(tag);
    int n = (int)rng.below(25);
    for (int i = 0; i < n; i++) {
      static const unsigned fl[] = {FFDB_FIRST, FFDB_LAST, FFDB_NEXT, FFDB_NEXT, FFDB_NEXT, FFDB_PREV, FFDB_PREV, FFDB_PREV};
      unsigned f = fl[rng.below(8)]; std::string k;
      int r = step(c, f, rng.chance(50), (int)rng.below(4), k, tag);
      if ((f == FFDB_FIRST || f == FFDB_LAST) && (r == 0) != !model.empty()) violate(tag, "positioning a cursor returned %d with %zu keys", r, model.size());
      if (rng.chance(30)) get_random(tag);
    }
    c->close(c);
    count("wanders");
  }
  void multi_scan(const char* tag = "scan") {          // several cursors stepped alternately
    int n = 2 + (int)rng.below(3);
    std::vector<ffdb_cursor_t*> cs; std::vector<std::set<std::string>> seen(n); std::vector<int> back(n), done(n, 0);
    for (int i = 0; i < n; i++) { cs.push_back(cursor(tag)); back[i] = rng.chance(40); }
    int open = n;
    while (open) {
      int i = (int)rng.below(n);
      if (done[i]) continue;
      std::string k;
      int r = step(cs[i], back[i] ? FFDB_PREV : FFDB_NEXT, rng.chance(50), (int)rng.below(4), k, tag);
      if (r == FFDB_NOT_FOUND || (rng.chance(1) && !seen[i].empty())) {
        if (r == FFDB_NOT_FOUND && seen[i].size() != model.size()) violate(tag, "cursor %d of %d returned %zu of %zu keys", i, n, seen[i].size(), model.size());
        done[i] = 1; open--; cs[i]->close(cs[i]);
        continue;
      }
      if (!seen[i].insert(canon(k)).second) violate(tag, "cursor %d of %d returned key %s twice", i, n, show(k).c_str());
      if (rng.chance(10)) get(k, (int)rng.below(3), tag);
    }
    count("multi_scans");
  }
  // the same walk twice: the second time into buffers of exactly the size that the first one delivered, and now and then into one that is too small first, which must not move the cursor
  void exact_scan(const char* tag = "scan", FFDB_DB* h = nullptr) {
    bool backward = rng.chance(30), withdata = rng.chance(60); unsigned f = backward ? FFDB_PREV : FFDB_NEXT;
    size_t limit = 1 + rng.below(60);
    std::vector<std::string> order; std::string k;
    ffdb_cursor_t* c = cursor(tag, h);
    while (order.size() < limit && step(c, f, false, 0, k, tag) == 0) order.push_back(k);
    c->close(c);
    note("exact scan back=%d data=%d of %zu", backward, withdata, order.size());
    c = cursor(tag, h);
    bool small = rng.chance(40), again = false;
    for (size_t i = 0; i < order.size(); i++) {
      const std::string& v = model[canon(order[i])].val;
      bool kown = order[i].empty() || rng.chance(20), vown = v.empty() || rng.chance(20);
      size_t kn = order[i].size(), vn = v.size(), slack = rng.chance(70) ? 0 : 1 + rng.below(9);
      int sm = small && !again && (i + 1 == order.size() || rng.chance(20)) ? (kn > 1 && rng.chance(50) ? 1 : withdata && vn > 1 ? 2 : 0) : 0;
      if (sm == 1) kown = false;
      if (sm == 2) vown = false;
      size_t kl = sm == 1 ? 1 + rng.below(kn - 1) : kn + slack, vl = sm == 2 ? 1 + rng.below(vn - 1) : vn + slack;
      std::unique_ptr<Exact> kb(kown ? nullptr : new Exact(kl, (char)0xA5)), vb(vown || !withdata ? nullptr : new Exact(vl, (char)0xA5));
      FFDB_DBT kd{kb ? kb->p : nullptr, kb ? (long)kl : 0}, vd{vb ? vb->p : nullptr, vb ? (long)vl : 0};
      int r = c->get(c, &kd, withdata ? &vd : nullptr, f);
      if (sm) {
        count("refused");
        if (r == 0) violate("refuse", "a cursor step into a %s buffer of %zu bytes succeeded for %zu bytes", sm == 1 ? "key" : "value", sm == 1 ? kl : vl, sm == 1 ? kn : vn);
        if (!kb) ::free(kd.data);
        if (withdata && !vb && sm == 2) ::free(vd.data);
        if (rng.chance(15)) break;
        again = rng.chance(80); i--; count("steps_repeated");
        continue;
      }
      again = false;
      if (r != 0) violate(tag, "a cursor step with buffers of %zu and %zu bytes for a key of %zu and a value of %zu bytes returned %d", kb ? kl : 0, vb ? vl : 0, kn, vn, r);
      if (kd.size != (long)kn || memcmp(kd.data, order[i].data(), kn)) violate(tag, "the second walk delivers another key at place %zu, or other bytes", i);
      if (withdata && (vd.size != (long)vn || (vn && memcmp(vd.data, v.data(), vn)))) violate(tag, "cursor returned other bytes for key %s than stored", show(order[i]).c_str());
      for (size_t j = kn; kb && j < kl; j++) if (kb->p[j] != (char)0xA5) violate(tag, "a cursor wrote beyond the key into the caller's buffer");
      for (size_t j = vn; vb && j < vl; j++) if (vb->p[j] != (char)0xA5) violate(tag, "a cursor wrote beyond the value into the caller's buffer");
      if (!kb) ::free(kd.data);
      if (withdata && !vb) ::free(vd.data);
    }
    if (c->close(c) != 0) violate(tag, "closing a cursor failed");
    count("exact_scans");
  }
  void scan_random(const char* tag = "scan", FFDB_DB* h = nullptr) { if (rng.chance(25)) { exact_scan(tag, h); return; } scan(rng.chance(40), rng.chance(60), (int)rng.below(4), rng.chance(40) ? (int)rng.range(5, 60) : 0, tag, h); }
  // ---- metadata -------------------------------------------------------------------------------
  void set_uinfo() {
    unsigned mx = expect_uinfolen(), len;
    switch (rng.below(5)) { case 0: len = mx; break; case 1: len = 0; break; case 2: len = mx + 1 + (unsigned)rng.below(50); break;
      case 3: len = std::min<unsigned>(mx, bs() - 34 + (unsigned)rng.below(6)); break; default: len = (unsigned)rng.below(mx + 1); }
    std::string d = bytes(rng, len);
    Exact b(d);
    note("set_uinfo len=%u", len);
    int r = ffdb_set_user_info(db, (unsigned char*)b.p, len);
    count("uinfo_sets");
    bool refuse = ro || len > mx;
    if (refuse) { count("refused"); if (r == 0) violate("refuse", "user info of %u bytes accepted (maximum %u, read-only %d)", len, mx, ro); return; }
    if (r != 0) violate("meta", "user info of %u bytes (maximum %u) refused", len, mx);
    uinfo = d; uinfo_set = true; mods_in_session++;
  }
  void get_uinfo(const char* tag = "meta", FFDB_DB* h = nullptr) {
    if (!h) h = db;
    size_t need = uinfo_set ? uinfo.size() : 0;
    bool small = need > 0 && rng.chance(15);
    size_t cap = small ? rng.below(need) : need + rng.below(3);
    Exact b(cap, (char)0xA5);
    unsigned len = (unsigned)cap;
    note("get_uinfo cap=%zu", cap);
    int r = ffdb_get_user_info(h, (unsigned char*)b.p, &len);
    count("uinfo_gets");
    if (small) { count("refused"); if (r == 0) violate("refuse", "user info of %zu bytes delivered into %zu bytes", need, cap); return; }
    if (r != 0) violate(tag, "user info cannot be read (%d)", r);
    if (len != need) violate(tag, "user info length %u, stored %zu", len, need);
    if (need && memcmp(b.p, uinfo.data(), need)) violate(tag, "user info read back differs");
    for (size_t i = need; i < cap; i++) if (b.p[i] != (char)0xA5) violate(tag, "user info read wrote beyond the data");
  }
  ffdb_config_info_t gen_cfg(int idx, int num) {
    ffdb_config_info_t c; memset(&c, 0, sizeof c);
    auto word = [&]() -> int { switch (rng.below(5)) { case 0: return 0; case 1: return 1; case 2: return (int)rng.below(300) - 20; default: return (int)rng.next(); } };
    c.config = num; c.index = idx; c.inserted = word(); c.type = word(); c.mtime = word();
    std::string s = bytes(rng, rng.chance(20) ? 128 : rng.below(128)); memcpy(c.fname, s.data(), s.size());
    return c;
  }
  void set_all_cfgs() {
    unsigned n = expect_ncfg();
    bool wrong = rng.chance(8);
    unsigned m = wrong ? n + 1 : n;
    std::vector<ffdb_config_info_t> v;
    int base = (int)rng.below(1000000);
    bool dup = rng.chance(12);                        // several slots may carry one number; they stay separate slots
    for (unsigned i = 0; i < m; i++) v.push_back(gen_cfg((int)i, dup ? base + (int)rng.below(2) : base + (int)i * (int)(1 + (base & 3))));
    ffdb_config_info_t* p = (ffdb_config_info_t*)malloc(m * sizeof(ffdb_config_info_t));
    memcpy(p, v.data(), m * sizeof(ffdb_config_info_t));
    ffdb_all_config_info_t a; a.numconfigs = (int)m; a.allconfigs = p;
    note("set_all_configs n=%u of %u", m, n);
    int r = ffdb_set_all_configs(db, &a);
    free(p);
    count("config_sets");
    if (ro || wrong) { count("refused"); if (r == 0) violate("refuse", "setting %u configurations accepted (slots %u, read-only %d)", m, n, ro); return; }
    if (r != 0) violate("meta", "setting all %u configurations failed", n);
    cfgs = v; cfgs_set = true; mods_in_session++;
  }
  void set_one_cfg() {
    if (!cfgs_set) return;
    unsigned i = (unsigned)rng.below(cfgs.size());
    ffdb_config_info_t c = gen_cfg((int)i, cfgs[i].config);
    bool wrong = rng.chance(10);
    if (wrong) c.index = rng.chance(50) ? -1 - (int)rng.below(5) : (int)cfgs.size() + (int)rng.below(5);
    note("set_config index=%d config=%d", c.index, c.config);
    int r = ffdb_set_config(db, &c);
    count("config_sets");
    if (ro || wrong) { count("refused"); if (r == 0) violate("refuse", "configuration index %d accepted (slots %zu, read-only %d)", c.index, cfgs.size(), ro); return; }
    if (r != 0) violate("meta", "setting configuration slot %u of %zu failed", i, cfgs.size());
    cfgs[i] = c; mods_in_session++;
  }
  void get_cfgs(const char* tag = "meta", FFDB_DB* h = nullptr) {
    if (!h) h = db;
    if (!cfgs_set) return;
    note("get_configs");
    count("config_gets");
    if (rng.chance(15)) {                             // a number no slot carries
      int no; bool taken;
      do { no = rng.chance(50) ? (int)rng.below(1 << 20) : cfgs[rng.below(cfgs.size())].config + (rng.chance(50) ? 1 : -1);
        taken = no < 0; for (auto& c : cfgs) if (c.config == no) taken = true; } while (taken);
      ffdb_config_info_t c; memset(&c, 0x5c, sizeof c);
      if (ffdb_get_config(h, (unsigned)no, &c) == 0) violate(tag, "configuration %d, which no slot carries, was read", no);
      count("unknown_configs");
    }
    if (rng.chance(60)) {
      ffdb_all_config_info_t a; a.numconfigs = -1; a.allconfigs = nullptr;
      if (ffdb_get_all_configs(h, &a) != 0) violate(tag, "reading all configurations failed");
      if (a.numconfigs != (int)cfgs.size()) violate(tag, "%d configurations read, %zu set", a.numconfigs, cfgs.size());
      for (size_t i = 0; i < cfgs.size(); i++) if (memcmp(&a.allconfigs[i], &cfgs[i], sizeof cfgs[i])) violate(tag, "configuration slot %zu of %zu reads back differently", i, cfgs.size());
      free(a.allconfigs);
    } else {
      size_t i = rng.below(cfgs.size());
      ffdb_config_info_t c; memset(&c, rng.chance(50) ? 0 : 0x7f, sizeof c);
      if (ffdb_get_config(h, (unsigned)cfgs[i].config, &c) != 0) violate(tag, "configuration %d (slot %zu of %zu) cannot be read", cfgs[i].config, i, cfgs.size());
      if (!slot_like(cfgs, cfgs[i].config, c)) violate(tag, "configuration %d reads back differently", cfgs[i].config);
    }
  }
  // ---- sync: what a process death right now would leave ------------------------------------------
  void sync(bool snapshot, bool readers = true) {
    note("sync snapshot=%d", snapshot);
    int r = db->sync(db, 0);
    count("syncs");
    if (r != 0) violate("sync", "sync reported %d without any fault", r);
    if (!snapshot) return;
    if (ro) return;
    // readers between the sync and the death must not matter
    if (readers && rng.chance(40)) { for (int i = 0; i < 5; i++) get_random("sync"); if (rng.chance(50)) scan_random("sync"); }
    snapshot_check("sync");
  }
  void snapshot_check(const char* tag) {
    std::string b, sp = path + ".snap";
    if (!slurp(path, b)) violate(tag, "file unreadable after sync");
    spew(sp, b);
    check_file(sp, "after sync (process death)");
    bool rw = rng.chance(60);
    int rearr = (int)rng.below(2);
    FFDB_DB* h = raw_open(sp, rw ? O_RDWR : O_RDONLY, rng.chance(50) ? bs() * 3 : 0, rearr, cfg);
    if (!h) violate(tag, "the file left by a process death after sync does not open (errno %d)", errno);
    verify_all(tag, h);
    if (rng.chance(50)) scan_random(tag, h);
    if (uinfo_set) get_uinfo(tag, h);
    get_cfgs(tag, h);
    count("snapshots");
    if (rw && rng.chance(70)) {                       // and it can be extended normally
      FFDB_DB* keep = db; auto mkeep = model; auto kkeep = keys;
      long p0 = puts_in_session, m0 = mods_in_session;
      db = h;
      int n = 1 + (int)rng.below(25);
      for (int i = 0; i < n; i++) put_random();
      verify_all(tag);
      if (h->close(h) != 0) violate(tag, "closing the recovered file failed");
      check_file(sp, "after extending a recovered file");
      h = raw_open(sp, O_RDONLY, 0, 0, cfg);
      if (!h) violate(tag, "recovered and extended file does not open");
      verify_all(tag, h);
      scan_random(tag, h);
      db = keep;
      if (h->close(h) != 0) violate(tag, "close failed");
      model = mkeep; keys = kkeep; puts_in_session = p0; mods_in_session = m0;
      count("snapshots_extended");
    } else if (h->close(h) != 0) violate(tag, "close failed");
    unlink(sp.c_str());
  }
  // ---- generation -------------------------------------------------------------------------------
  int keystyle = 0, valstyle = 0;
  std::string gen_key() {
    unsigned mx = maxkey_sure();
    size_t n;
    int t = (int)rng.below(100);
    if (keystyle == 4) {                      // very many short keys
      uint32_t u = (uint32_t)(++uid) * 2654435761u;
      std::string k((char*)&u, 4);
      if (t < 50) k += "key";
      return k;
    }
    if (bs() > 16384 && rng.chance(85)) mx = 16384;
    if (keystyle == 1) {                      // boundary lengths
      if (!hk().eq && t >= 50 && t < 54) return bytes(rng, mx + 1 + rng.below(3));   // may be refused, must not be lost
      if (t < 50) n = (size_t)rng.range((long)mx - 6, (long)mx);
      else if (t < 60) n = (size_t)rng.below(3);
      else n = 1 + rng.below(mx);
    } else if (keystyle == 2) {               // tiny keys: many entries per page
      n = 1 + rng.below(4);
    } else if (keystyle == 3) {               // large-ish keys: few entries per page, long chains
      n = mx / 4 + rng.below(mx / 3);
    } else {
      if (t < 70) n = 1 + rng.below(24); else if (t < 90) n = 1 + rng.below(120); else if (t < 93) n = 0; else if (t < 97) n = (size_t)rng.range((long)mx - 4, (long)mx); else n = 1 + rng.below(mx);
    }
    if (n > mx) n = mx;
    std::string k;
    if (!keys.empty() && rng.chance(20)) {    // nearly an existing key: one byte changed, added or removed, zeros around it
      k = model[keys[rng.below(keys.size())]].key;
      size_t at = k.empty() ? 0 : rng.chance(50) ? k.size() - 1 - rng.below(std::min<size_t>(k.size(), 4)) : rng.below(k.size());
      switch (rng.below(6)) {
        case 0: if (!k.empty()) k[at] = (char)(k[at] ^ (1 << rng.below(8))); break;
        case 1: if (!k.empty()) k[at] = 0; break;
        case 2: if (at + 1 < k.size()) { k[at] = 0; k[at + 1] = (char)rng.below(256); } break;
        case 3: if (k.size() < mx) k += (char)(rng.chance(50) ? 0 : rng.below(256)); break;
        case 4: if (!k.empty()) k.pop_back(); break;
        case 5: if (k.size() >= 2) std::swap(k[at], k[rng.below(k.size())]); break;
      }
    } else if (n >= 6 && rng.chance(60)) {           // shared prefixes, embedded zeros, last byte differs
      k = std::string(n, rng.chance(50) ? 'a' : (char)0);
      uint32_t u = (uint32_t)(++uid);
      memcpy(&k[n - 4], &u, 4);
      if (rng.chance(30)) k[0] = (char)('A' + rng.below(52));
    } else k = bytes(rng, n);
    if (hk().eq == 2) { size_t b = rng.below(4); while (b-- && k.size() < mx) k += ' '; }
    if (hk().eq == 1) for (auto& c : k) { c = (char)('A' + ((unsigned char)c % 26)); if (rng.chance(50)) c = (char)(c + 32); }
    return k;
  }
  size_t gen_len() {
    long b = bs(); int t = (int)rng.below(100);
    if (b > 16384 && rng.chance(85)) b = 8192;
    if (valstyle == 1) {                      // page boundary lengths
      long pages = (long)rng.below(6);
      long l = pages * (b - 32) + (rng.chance(50) ? b - 52 : 0) + rng.range(-44, 44);
      return l < 0 ? rng.below(8) : (size_t)l;
    }
    if (valstyle == 2) return rng.below(40);
    if (valstyle == 3) return rng.below((uint64_t)b * 12);
    if (t < 10) return rng.below(2);
    if (t < 60) return rng.below(100);
    if (t < 80) return rng.below((uint64_t)b);
    if (t < 92) { long l = (long)rng.range(0, 4) * (b - 32) + b - 52 + rng.range(-30, 30); return (size_t)(l < 0 ? 0 : l); }
    return rng.below((uint64_t)b * 6);
  }
  std::string respell(std::string k) {          // another spelling of the same key
    if (hk().eq == 1) { for (auto& c : k) if (rng.chance(20)) c = (char)(c ^ 32); }
    else if (hk().eq == 2 && rng.chance(70)) {
      k.resize(trimmed(k.data(), k.size()));
      size_t b = rng.below(5);
      while (b-- && k.size() < maxkey_sure()) k += ' ';
    }
    return k;
  }
  void put_random() {
    if (!keys.empty() && rng.chance(25)) {
      const std::string ck = keys[rng.below(keys.size())];
      const Val& v = model[ck];
      size_t n = v.val.size();
      if (rng.chance(60)) {} else if (rng.chance(50)) n = rng.below(n + 1); else if (n) n = n - 1 - rng.below(std::min<size_t>(n, 30));
      std::string spelling = respell(v.key);
      put(spelling, bytes(rng, n), 0);
      return;
    }
    put(fresh_key(), bytes(rng, gen_len()), rng.chance(20) ? FFDB_NOOVERWRITE : 0);
  }
  void refused_random() {                      // an operation that must be refused
    switch (rng.below(10)) {
      case 0: if (!keys.empty()) { const Val& v = model[keys[rng.below(keys.size())]]; put(v.key, bytes(rng, rng.below(v.val.size() + 20)), FFDB_NOOVERWRITE); } break;
      case 1: if (!keys.empty()) { const Val& v = model[keys[rng.below(keys.size())]]; put(v.key, bytes(rng, v.val.size() + 1 + rng.below(bs() * 2)), 0); } break;
      case 2: put(bytes(rng, maxkey_never() + 1 + rng.below(200)), bytes(rng, rng.below(50)), 0); break;
      case 3: { static const unsigned bad[] = {1, 2, 7, 16, 19, 21, 23, 0x80000000u}; put(gen_key(), bytes(rng, rng.below(50)), bad[rng.below(8)]); } break;
      case 4: if (!keys.empty()) { for (int i = 0; i < 6; i++) { const Val& v = model[keys[rng.below(keys.size())]]; if (v.val.size() >= 2) { get(v.key, 3); break; } } } break;
      case 5: if (uinfo_set && !uinfo.empty()) { unsigned l = (unsigned)uinfo.size() - 1; Exact b(l, 0); note("get_uinfo short"); if (ffdb_get_user_info(db, (unsigned char*)b.p, &l) == 0) violate("refuse", "user info delivered into a short buffer"); count("refused"); } break;
      case 6: { std::string d = bytes(rng, expect_uinfolen() + 1); Exact b(d); note("set_uinfo long"); if (ffdb_set_user_info(db, (unsigned char*)b.p, (unsigned)d.size()) == 0) violate("refuse", "oversized user info accepted"); count("refused"); } break;
      case 7: { ffdb_config_info_t c = gen_cfg((int)expect_ncfg() + (int)rng.below(3), 1); note("set_config range"); if (ffdb_set_config(db, &c) == 0) violate("refuse", "configuration index %d accepted with %u slots", c.index, expect_ncfg()); count("refused");
                FFDB_DBT k{(void*)"x", 1}, v{(void*)"y", (long)1099511627776L + (long)rng.below(3)}; if (cfg.enc & 2 && rng.chance(80)) v.size = 4294967296L + (long)rng.below(3); if (!ro) { note("put oversize value"); if (db->put(db, &k, &v, 0) == 0) violate("refuse", "value above the maximum size accepted"); count("refused"); } } break;
      case 8: {                                  // what the library does not implement must not pass for done
        std::string k = keys.empty() || rng.chance(30) ? gen_key() : model[keys[rng.below(keys.size())]].key; Exact kb(k); FFDB_DBT kd{kb.p, (long)kb.n};
        note("del %s", show(k).c_str());
        if (db->del(db, &kd, 0) == 0) violate("refuse", "deletion of %s reports success, and nothing is deleted", show(k).c_str());
        count("refused"); } break;
      case 9: {
        ffdb_cursor_t* c = nullptr; FFDB_DBT k{nullptr, 0}, d{nullptr, 0};
        static const unsigned tys[] = {FFDB_KEY_CURSOR, FFDB_DATA_CURSOR, 0, 1, 0x1002, 0xffffffffu}; unsigned ty = tys[rng.below(6)];
        static const unsigned ops[] = {0, 1, 8, 14, 17, 24, 0xffffffffu}; unsigned op = ty == FFDB_KEY_CURSOR || rng.chance(30) ? ops[rng.below(7)] : rng.chance(50) ? FFDB_NEXT : FFDB_FIRST;
        int rc = db->cursor(db, &c, ty);
        note("cursor type %x op %u -> %d", ty, op, rc);
        if (ty == FFDB_KEY_CURSOR && rc != 0) violate("refuse", "a cursor is refused");
        if (rc == 0) { rc = c->get(c, &k, rng.chance(50) ? &d : nullptr, op); if (rc == 0) { if (!k.data && !d.data) violate("refuse", "cursor type %x, position %u: success reported without a key or value", ty, op); if (ty == FFDB_KEY_CURSOR) violate("refuse", "cursor position %u accepted", op); ::free(k.data); ::free(d.data); } c->close(c); }
        count("refused"); } break;
    }
  }
  unsigned long random_cache() {
    unsigned b = bs();
    switch (rng.below(7)) { case 0: return 1; case 1: return b; case 2: return b * 2; case 3: return b * 4; case 4: return b * 16; case 5: return b * 100; default: return 0; }
  }
  // content fully re-read through the API after a reopen
  void verify_session(const char* tag) {
    verify_all(tag);
    if (rng.chance(60)) scan_random(tag);
    if (uinfo_set || rng.chance(20)) get_uinfo(tag);
    get_cfgs(tag);
  }
  void reopen(bool verify, bool readonly) {
    close_db();
    open_existing(readonly, random_cache(), (int)rng.below(2));
    if (verify) verify_session("reopen");
  }
};

inline int hash_named(const char* n) { for (size_t i = 0; i < hash_kinds().size(); i++) if (!strcmp(hash_kinds()[i].name, n)) return (int)i; harness("no hash %s", n); }
inline Cfg gen_cfg(Rng& r, bool small_pages) {
  Cfg c;
  static const std::vector<unsigned> b = {512, 512, 512, 600, 1024, 1024, 2048, 4096, 8192, 16384};
  static const std::vector<unsigned> bsm = {512, 512, 512, 1024, 1024, 2048};
  c.bsize = small_pages ? r.pick(bsm) : r.pick(b);
  bool wide = !small_pages && r.chance(4);
  if (wide) c.bsize = r.pick(std::vector<unsigned>{32768, 32768, 65536, 100000, 131072, 1u << 18, 1u << 19, 1u << 20, 1000000});
  static const std::vector<unsigned> nb = {0, 1, 1, 2, 2, 3, 4, 4, 5, 7, 8, 16, 32};
  c.nbuckets = r.pick(nb);
  unsigned rb = c.real_bsize();
  switch (r.below(8)) { case 0: c.cache = 1; break; case 1: c.cache = rb; break; case 2: c.cache = rb * 2; break; case 3: c.cache = rb * 5; break; case 4: c.cache = rb * 16; break; case 5: c.cache = rb * 64; break; default: c.cache = 0; }
  c.rearr = (int)r.below(2);
  switch (r.below(5)) { case 0: c.uinfolen = 0; break; case 1: c.uinfolen = 1 + (unsigned)r.below(64); break; case 2: c.uinfolen = rb - 32 + (unsigned)r.range(-3, 3); break; case 3: c.uinfolen = (rb - 28) * 3 - 4 + (unsigned)r.range(-3, 3); break; default: c.uinfolen = (unsigned)r.below(rb * 3); }
  unsigned per = (rb - 28) / 148;
  switch (r.below(5)) { case 0: c.ncfg = 0; break; case 1: c.ncfg = 1; break; case 2: c.ncfg = per + (unsigned)r.below(2); break; case 3: c.ncfg = per * 2 + (unsigned)r.range(-1, 1); break; default: c.ncfg = 1 + (unsigned)r.below(20); }
  if (wide) { c.uinfolen = std::min(c.uinfolen, rb); c.ncfg = std::min(c.ncfg, per + 2); }
  c.hashk = r.chance(60) ? 0 : (int)r.below(hash_kinds().size());
  if (r.chance(6)) { c = Cfg(); c.nullinfo = true; }
  if (r.chance(12)) c.enc = 1 + (int)r.below(3);
  return c;
}
} // namespace hist
