// Independent reader of the filedb on-disk format (no code or header of the library is used).
// parse() rebuilds the stored pairs and metadata from the bytes alone and lists every structural
// inconsistency it finds.
#pragma once
#include <cstdarg>
#include <cstdio>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <functional>

namespace fsck {
inline bool& chains() { static bool on = true; return on; }   // off for files written by the pinned release, which could leave a stale link

typedef unsigned (*hash_fn)(const void*, unsigned);

inline uint32_t crc32(const unsigned char* p, size_t n, uint32_t crc = 0) {
  struct T { uint32_t t[256]; T() { for (uint32_t i = 0; i < 256; i++) { uint32_t c = i; for (int k = 0; k < 8; k++) c = (c & 1) ? 0xEDB88320u ^ (c >> 1) : c >> 1; t[i] = c; } } };
  static const T tab; const uint32_t* t = tab.t;
  crc = ~crc;
  while (n--) crc = t[(crc ^ *p++) & 0xff] ^ (crc >> 8);
  return ~crc;
}
inline unsigned ref_hash(const void* k, unsigned len) {   // the pinned default hash
  const unsigned char* p = (const unsigned char*)k; uint32_t h = 0;
  for (unsigned i = 0; i < len; i++) { h = (uint32_t)((uint64_t)h * 16777619u); h ^= p[i]; }
  return h;
}
static const char CHARKEY[] = "%$sniglet^&";

struct Header {
  uint32_t magic, version, lorder, bsize, bshift, ovfl_point, max_bucket, high_mask, low_mask, ffactor, nkeys, hdrpages, uinfolen;
  uint16_t uinfo_page, uinfo_npages, cfig_page, cfig_npages;
  uint32_t num_cfigs, h_charkey, num_moved_pages, spares[32], free_pages[32], chksum;
};
static const size_t HDR_BYTES = 13 * 4 + 4 * 2 + 3 * 4 + 32 * 4 + 32 * 4 + 4;   // 332

inline uint32_t be32(const unsigned char* p) { return (uint32_t)p[0] << 24 | (uint32_t)p[1] << 16 | (uint32_t)p[2] << 8 | p[3]; }
inline uint16_t be16(const unsigned char* p) { return (uint16_t)(p[0] << 8 | p[1]); }
inline void pbe32(unsigned char* p, uint32_t v) { p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; }

inline bool read_header(const std::string& f, Header& h) {
  if (f.size() < HDR_BYTES) return false;
  const unsigned char* p = (const unsigned char*)f.data();
  uint32_t* w = &h.magic;
  for (int i = 0; i < 13; i++, p += 4) w[i] = be32(p);
  uint16_t* s = &h.uinfo_page;
  for (int i = 0; i < 4; i++, p += 2) s[i] = be16(p);
  h.num_cfigs = be32(p); h.h_charkey = be32(p + 4); h.num_moved_pages = be32(p + 8); p += 12;
  for (int i = 0; i < 32; i++, p += 4) h.spares[i] = be32(p);
  for (int i = 0; i < 32; i++, p += 4) h.free_pages[i] = be32(p);
  h.chksum = be32(p);
  return true;
}

static const uint32_t INVALID = 0xffffffffu, PGMAGIC = 0xe0f1a2b9u;
enum { T_BUCKET = 0x1001, T_DATA = 0x2001, T_UINFO = 0x4001, T_CONFIG = 0x5001, T_FREE = 0x6001, T_DELETED = 0x8001 };

struct Config { int32_t config, index, inserted, type, mtime; char fname[128]; };

struct Result {
  Header h{};
  std::vector<std::string> errors;
  std::map<std::string, std::string> pairs;
  std::string uinfo; bool uinfo_set = false;
  std::vector<Config> configs;
  // statistics
  uint32_t npages = 0, used_overflow = 0, data_pages = 0, free_pages = 0, zero_pages = 0, deleted_pages = 0, lost_pages = 0, long_free_lists = 0;
  uint32_t longest_chain = 0, multi_page_values = 0;
  bool ok() const { return errors.empty(); }
  std::string first() const { return errors.empty() ? std::string() : errors[0]; }
};

class Reader {
  const std::string& f; hash_fn hash; Result& r; bool swapped;
  const unsigned char* base;
  uint32_t bs;
  std::vector<uint8_t> owner;                                 // page -> kind of owner
  std::map<uint32_t, std::vector<std::pair<uint32_t, uint32_t>>> ranges;   // data page -> used byte ranges
  std::map<uint32_t, std::map<uint32_t, std::pair<uint32_t,uint32_t>>> records;                 // data page -> header offset -> key page, key idx
  void err(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
    if (r.errors.size() > 20) return;
    char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    r.errors.push_back(b);
  }
  uint32_t u32(const unsigned char* p) const { uint32_t v; memcpy(&v, p, 4); return swapped ? __builtin_bswap32(v) : v; }
  uint16_t u16(const unsigned char* p) const { uint16_t v; memcpy(&v, p, 2); return swapped ? __builtin_bswap16(v) : v; }
  const unsigned char* pg(uint32_t n) const { return base + (size_t)n * bs; }
  static uint32_t log2c(uint32_t n) { uint32_t i = 0; uint64_t l = 1; while (l < n) { l <<= 1; i++; } return i; }
public:
  Reader(const std::string& file, hash_fn h, Result& res) : f(file), hash(h), r(res), swapped(false), base((const unsigned char*)file.data()), bs(0) {}
  uint32_t bucket_page(uint32_t b) const { if (b == 0) return r.h.spares[0]; uint32_t l = log2c(b + 1); return b - (1u << (l - 1)) + r.h.spares[l]; }
  bool zero(uint32_t n) const { const unsigned char* p = pg(n); for (uint32_t i = 0; i < bs; i++) if (p[i]) return false; return true; }
  bool live(uint32_t n) const { return u32(pg(n) + 12) == PGMAGIC; }
  uint32_t bucket_of(const std::string& k) const { uint32_t n = hash(k.data(), (unsigned)k.size()); uint32_t b = n & r.h.high_mask; if (b > r.h.max_bucket) b = n & r.h.low_mask; return b; }
  bool claim(uint32_t n, uint8_t kind, const char* what) {
    if (n >= r.npages) { err("%s page %u lies beyond the end of the file (%u pages)", what, n, r.npages); return false; }
    if (owner[n] && !(kind == 3 && owner[n] == 3)) { err("page %u is used both as kind %d and as %s", n, owner[n], what); return false; }
    owner[n] = kind; return true;
  }
  void run() {
    Header& h = r.h;
    if (!read_header(f, h)) { err("file too short for a header: %zu bytes", f.size()); return; }
    if (h.magic != 0xcece3434u) { err("bad magic %x", h.magic); return; }
    if (h.version != 5 && h.version != 6) { err("bad version %u", h.version); return; }
    if (crc32(base, HDR_BYTES - 4) != h.chksum) { err("header checksum mismatch"); return; }
    if (h.lorder != 1234 && h.lorder != 4321) { err("bad byte order %u", h.lorder); return; }
    swapped = h.lorder == 4321;
    bs = h.bsize;
    if (bs < 512 || (bs & (bs - 1)) || bs != (1u << h.bshift)) { err("bad page size %u/%u", bs, h.bshift); return; }
    if (f.size() % bs) { err("file length %zu is no multiple of page size %u", f.size(), bs); return; }
    r.npages = (uint32_t)(f.size() / bs);
    owner.assign(r.npages, 0);
    if (h.h_charkey != hash(CHARKEY, sizeof CHARKEY)) err("stored hash identity %x differs", h.h_charkey);
    if (((h.high_mask + 1) & h.high_mask) != 0) err("high mask %x", h.high_mask);
    if (h.max_bucket > h.high_mask) err("max bucket %u beyond high mask %u", h.max_bucket, h.high_mask);
    if (h.high_mask && h.low_mask != (h.high_mask >> 1)) err("low mask %x vs high mask %x", h.low_mask, h.high_mask);
    if (h.high_mask == 0 && h.low_mask != 0 && h.max_bucket > 0) err("low mask %x", h.low_mask);
    if (h.ovfl_point != log2c(h.max_bucket + 1)) err("overflow point %u for max bucket %u", h.ovfl_point, h.max_bucket);
    if (h.ovfl_point >= 31) { err("overflow point %u", h.ovfl_point); return; }
    if (h.hdrpages != 1u + h.uinfo_npages + h.cfig_npages) err("header pages %u != 1+%u+%u", h.hdrpages, h.uinfo_npages, h.cfig_npages);
    if (h.uinfo_page != 1 || h.cfig_page != 1 + h.uinfo_npages) err("metadata pages at %u and %u", h.uinfo_page, h.cfig_page);
    if (h.spares[0] != h.hdrpages) err("first bucket page %u, header pages %u", h.spares[0], h.hdrpages);
    for (uint32_t l = 1; l <= h.ovfl_point; l++)
      if (h.spares[l] < bucket_page((1u << (l - 1)) - 1) + 1) err("level %u starts at page %u inside the previous level", l, h.spares[l]);
    uint32_t tail = h.spares[h.ovfl_point + 1];
    if (tail && tail <= bucket_page(h.high_mask)) err("level %u data starts inside its buckets (%u)", h.ovfl_point, tail);
    for (uint32_t l = h.ovfl_point + 2; l < 32; l++) if (h.spares[l]) err("level %u already has a start page", l);
    if (h.num_moved_pages) {
      if (!tail) { err("%u moved pages recorded without any data page", h.num_moved_pages); return; }
      if (h.num_moved_pages > h.high_mask - h.max_bucket) err("%u moved pages into %u free slots", h.num_moved_pages, h.high_mask - h.max_bucket);
      if (f.size() / bs > tail - h.num_moved_pages) err("file holds %zu pages after moving, expected at most %u", f.size() / bs, tail - h.num_moved_pages);
    }
    if (r.npages < h.hdrpages) { err("file holds %u pages, fewer than its %u header pages", r.npages, h.hdrpages); return; }
    owner[0] = 9;
    // every page
    for (uint32_t n = 1; n < r.npages; n++) {
      if (!live(n)) { if (!zero(n)) err("page %u has no page signature and is not blank", n); else r.zero_pages++; continue; }
      const unsigned char* p = pg(n);
      uint32_t c = crc32(p, 20); c = crc32(p + 24, bs - 24, c);
      if (c != u32(p + 20)) err("page %u checksum mismatch", n);
      if (u32(p) != n) err("page at position %u says it is page %u", n, u32(p));
      uint16_t t = u16(p + 18);
      if (t != T_BUCKET && t != T_DATA && t != T_UINFO && t != T_CONFIG && t != T_FREE && t != T_DELETED) err("page %u has unknown type %x", n, t);
    }
    if (!r.errors.empty()) return;
    metadata();
    for (uint32_t b = 0; b <= h.max_bucket; b++) chain(b);
    if (h.nkeys != r.pairs.size()) err("header counts %u keys, file holds %zu", h.nkeys, r.pairs.size());
    datapages();
    freelists();
    for (uint32_t n = 1; n < r.npages; n++) if (!owner[n] && live(n)) {
      uint16_t t = u16(pg(n) + 18);
      if (t == T_DELETED) r.deleted_pages++; else r.lost_pages++;
    }
  }
  void metadata() {
    Header& h = r.h;
    uint32_t total = 0, got = 0;
    for (uint32_t i = 0; i < h.uinfo_npages; i++) {
      uint32_t n = h.uinfo_page + i;
      if (!claim(n, 5, "user info")) return;
      const unsigned char* p = pg(n);
      if (!live(n) || u16(p + 18) != T_UINFO) { err("user info page %u has type %x", n, u16(p + 18)); return; }
      uint32_t off = 28;
      if (i == 0) { r.uinfo_set = u16(p + 16) == 1; total = r.uinfo_set ? u32(p + 28) : 0; off = 32; if (total > h.uinfolen) { err("user info length %u above maximum %u", total, h.uinfolen); return; } }
      uint32_t k = std::min(bs - off, total - got);
      r.uinfo.append((const char*)p + off, k); got += k;
    }
    if (got != total) err("user info truncated: %u of %u bytes", got, total);
    uint32_t per = (bs - 28) / 148, left = h.num_cfigs;
    for (uint32_t i = 0; i < h.cfig_npages; i++) {
      uint32_t n = h.cfig_page + i;
      if (!claim(n, 6, "configuration")) return;
      const unsigned char* p = pg(n);
      if (!live(n) || u16(p + 18) != T_CONFIG) { err("configuration page %u has type %x", n, u16(p + 18)); return; }
      uint32_t k = u16(p + 16);
      if (k != 0 && k != std::min(per, left)) err("configuration page %u holds %u records, expected %u", n, k, std::min(per, left));
      left -= std::min(per, left);
      if (28 + k * 148 > bs) { err("configuration page %u overfull", n); return; }
      for (uint32_t j = 0; j < k; j++) {
        const unsigned char* q = p + 28 + j * 148; Config c;
        c.config = (int32_t)u32(q); c.index = (int32_t)u32(q + 4); c.inserted = (int32_t)u32(q + 8); c.type = (int32_t)u32(q + 12); c.mtime = (int32_t)u32(q + 16);
        memcpy(c.fname, q + 20, 128);
        r.configs.push_back(c);
      }
    }
    if (left) err("%u configuration slots have no page", left);
  }
  void chain(uint32_t b) {
    uint32_t n = bucket_page(b), prev = INVALID, len = 0;
    if (n >= r.npages) return;                       // never written: empty bucket
    if (!live(n)) { claim(n, 1, "bucket"); return; }
    if (u16(pg(n) + 18) == T_DELETED && u16(pg(n) + 16) == 0) { claim(n, 1, "bucket"); return; }
    while (n != INVALID) {
      if (!claim(n, len ? 2 : 1, len ? "overflow" : "bucket")) return;
      const unsigned char* p = pg(n);
      if (!live(n) || u16(p + 18) != T_BUCKET) { err("page %u in the chain of bucket %u has type %x", n, b, live(n) ? u16(p + 18) : 0); return; }
      if (u32(p + 4) != prev) err("page %u in the chain of bucket %u: previous link %u, expected %u", n, b, u32(p + 4), prev);
      uint32_t k = u16(p + 16), hf = u32(p + 24);
      if (28 + k * 12 > bs) { err("page %u: %u entries", n, k); return; }
      if (k && (hf + 1 < 28 + k * 12 || hf >= bs)) err("page %u: free offset %u with %u entries", n, hf, k);
      if (len && k == 0) err("overflow page %u of bucket %u is empty", n, b);
      std::vector<std::pair<uint32_t, uint32_t>> rg;
      for (uint32_t i = 0; i < k; i++) entry(b, n, p, i, k, hf, rg);
      std::sort(rg.begin(), rg.end());
      for (size_t i = 1; i < rg.size(); i++) if (rg[i - 1].second > rg[i].first) err("page %u: entries overlap at %u", n, rg[i].first);
      prev = n; n = u32(p + 8); len++;
      if (len > 1) r.used_overflow++;
    }
    r.longest_chain = std::max(r.longest_chain, len);
  }
  void entry(uint32_t b, uint32_t n, const unsigned char* p, uint32_t i, uint32_t k, uint32_t hf, std::vector<std::pair<uint32_t, uint32_t>>& rg) {
    const unsigned char* e = p + 28 + 12 * i;
    uint32_t ko = u32(e), kl = u32(e + 4), dof = u32(e + 8);
    if (ko > bs || kl > bs || ko + kl > bs || ko < 28 + 12 * k) { err("page %u entry %u: key at %u+%u", n, i, ko, kl); return; }
    if (dof + 16 > bs || dof < 28 + 12 * k || (dof & 3)) { err("page %u entry %u: value reference at %u", n, i, dof); return; }
    if (dof <= hf) err("page %u entry %u lies in free space (%u <= %u)", n, i, dof, hf);
    if (kl) rg.push_back({ko, ko + kl});
    rg.push_back({dof, dof + 16});
    std::string key((const char*)p + ko, kl);
    if (bucket_of(key) != b) err("key of length %u is in bucket %u but hashes to %u", kl, b, bucket_of(key));
    uint32_t first = u32(p + dof), off = u32(p + dof + 4), len32 = u32(p + dof + 8), crc = u32(p + dof + 12);
    uint64_t len = len32; uint32_t ro = off;
    if (r.h.version > 5) { len |= (uint64_t)((off >> 20) & 0xff) << 32; ro = off & 0xfffff; }
    std::string val;
    if (!value(n, i, first, ro, len, val)) return;
    if (crc32((const unsigned char*)val.data(), val.size()) != crc) err("value of page %u entry %u: checksum mismatch", n, i);
    if (!r.pairs.insert({key, val}).second) err("key of length %u stored twice", kl);
  }
  bool value(uint32_t kp, uint32_t ki, uint32_t first, uint32_t ro, uint64_t len, std::string& val) {
    if (first >= r.npages || !live(first) || u16(pg(first) + 18) != T_DATA) { err("page %u entry %u refers to page %u which is no data page", kp, ki, first); return false; }
    if (ro < 32 || ro + 20 > bs || (ro & 3)) { err("page %u entry %u refers to offset %u", kp, ki, ro); return false; }
    claim(first, 3, "data");
    const unsigned char* p = pg(first), *hd = p + ro;
    uint64_t hl = u32(hd); uint32_t st = u32(hd + 4);
    if (r.h.version > 5) { hl |= (uint64_t)((st >> 20) & 0xff) << 32; if ((st & 0xfffff) != 0xffee) err("record %u/%u has status %x", first, ro, st); }
    else if (st != 0xffeeffeeu) err("record %u/%u has status %x", first, ro, st);
    if (hl != len) { err("record %u/%u: length %llu, key says %llu", first, ro, (unsigned long long)hl, (unsigned long long)len); return false; }
    if (u32(hd + 12) != kp || u32(hd + 16) != ki) err("record %u/%u belongs to key %u/%u, referred to by %u/%u", first, ro, u32(hd + 12), u32(hd + 16), kp, ki);
    if (records[first].count(ro)) err("record %u/%u is referred to twice", first, ro);
    records[first][ro] = {kp, ki};
    uint32_t page = first, start = ro + 20; uint64_t left = len; bool firstp = true;
    ranges[first].push_back({ro, ro + 20});
    int hops = 0;
    for (;;) {
      uint64_t c = std::min<uint64_t>(left, bs - start);
      if (c) { ranges[page].push_back({start, (uint32_t)(start + c)}); val.append((const char*)pg(page) + start, c); }
      left -= c;
      if (!left) break;
      uint32_t nx = u32(pg(page) + 8);
      if (nx >= r.npages || !live(nx) || u16(pg(nx) + 18) != T_DATA) { err("value at %u/%u continues on page %u which is no data page", first, ro, nx); return false; }
      if (u32(pg(nx) + 4) != page) err("data page %u: previous link %u, expected %u", nx, u32(pg(nx) + 4), page);
      claim(nx, 3, "data");
      page = nx; start = 32; firstp = false;
      if (++hops > 10000000) { err("value at %u/%u loops", first, ro); return false; }
    }
    if (!firstp) r.multi_page_values++;
    return true;
  }
  void datapages() {
    for (uint32_t n = 1; n < r.npages; n++) {
      if (!live(n) || u16(pg(n) + 18) != T_DATA) continue;
      const unsigned char* p = pg(n);
      r.data_pages++;
      uint32_t k = u16(p + 16), pos = u32(p + 28);
      auto it = records.find(n);
      size_t have = it == records.end() ? 0 : it->second.size();
      if (k != have) { err("data page %u announces %u records, %zu are referred to by keys", n, k, have); continue; }
      for (uint32_t i = 0; i < k; i++) {
        if (pos < 32 || pos + 20 > bs || !it->second.count(pos)) { err("data page %u: record %u of %u at %u is not referred to by any key", n, i, k, pos); break; }
        pos = u32(p + pos + 8);
      }
      // data pages form chains: the links agree in both directions also where no value spans the two pages
      uint32_t nx = u32(p + 8), pv = u32(p + 4);
      if (!chains()) nx = pv = INVALID;
      if (nx != INVALID && (nx >= r.npages || !live(nx) || u16(pg(nx) + 18) != T_DATA)) err("data page %u: next page %u is no data page", n, nx);
      else if (nx != INVALID && u32(pg(nx) + 4) != n) err("data page %u: next page %u has previous link %u", n, nx, u32(pg(nx) + 4));
      // (the page before may also be one that was set aside for data and never used: it holds nothing)
      if (pv != INVALID && pv < r.npages && live(pv) && u16(pg(pv) + 18) == T_DATA && u32(pg(pv) + 8) != n) err("data page %u: previous page %u has next link %u", n, pv, u32(pg(pv) + 8));
      auto& v = ranges[n];
      std::sort(v.begin(), v.end());
      for (size_t i = 1; i < v.size(); i++) if (v[i - 1].second > v[i].first) err("data page %u: values overlap at byte %u", n, v[i].first);
      uint32_t hf = u32(p + 24);
      if (hf && !v.empty() && hf < v.back().second) err("data page %u: free space starts at %u inside a value ending at %u", n, hf, v.back().second);
    }
  }
  void freelists() {
    Header& h = r.h;
    uint32_t tail = h.spares[h.ovfl_point + 1], m = h.num_moved_pages;
    uint32_t from = m ? bucket_page(h.max_bucket + 1) : 0;
    auto map = [&](uint32_t n) { return m && n >= tail - m && n < tail ? from + (n - (tail - m)) : n; };
    auto limit = [&](uint32_t lv) { return lv <= h.ovfl_point && h.spares[lv + 1] ? h.spares[lv + 1] : 0; };
    std::set<uint32_t> freed;
    for (uint32_t l = 0; l < 32; l++) {
      uint32_t n = h.free_pages[l]; bool head = true;
      if (n == INVALID) continue;
      if (l > h.ovfl_point) { err("free list for unused level %u", l); continue; }
      uint32_t prev = INVALID; int hops = 0;
      while (n != INVALID) {
        uint32_t at = head ? map(n) : n;               // links inside pages are renumbered by the move, the header is not
        if (at >= r.npages || !live(at) || u16(pg(at) + 18) != T_FREE) { err("free list of level %u refers to page %u (at %u) which is no free-list page", l, n, at); break; }
        if (owner[at]) { err("free-list page %u is in use as kind %d", at, owner[at]); break; }
        owner[at] = 7; r.free_pages++;
        const unsigned char* p = pg(at);
        uint32_t k = u16(p + 16);
        if (28 + 4 * k > bs) { err("free-list page %u overfull", at); break; }
        for (uint32_t i = 0; i < k; i++) {
          uint32_t e = u32(p + 28 + 4 * i);
          if (limit(l) && e >= limit(l)) { err("free list of level %u names page %u beyond its level", l, e); continue; }
          if (e < h.spares[0]) { err("free list of level %u names page %u", l, e); continue; }
          if (!freed.insert(e).second) err("page %u is listed free twice", e);
          uint32_t q = map(e);
          r.free_pages++;
          if (q < r.npages && owner[q]) err("page %u is listed free but in use as kind %d", q, owner[q]);
        }
        if (chains() && u32(p + 4) != prev) err("free-list page %u: previous link %u, expected %u", at, u32(p + 4), prev);
        if (!head) r.long_free_lists++;
        prev = at; n = u32(p + 8); head = false;
        if (++hops > 1000000) { err("free list loops"); break; }
      }
    }
    for (uint32_t e : freed) { uint32_t q = map(e); if (q < r.npages && !owner[q]) owner[q] = 8; }
  }
};

inline Result parse(const std::string& file, hash_fn h = ref_hash) { Result r; Reader rd(file, h ? h : ref_hash, r); rd.run(); return r; }

} // namespace fsck
