// Independent converter of a database file between byte orders and between format versions 6 and 5
// (the pinned format: header always big-endian, page fields in the file's own order, checksums over the bytes on disk).
#pragma once
#include "fsck.hpp"
#include <cstdlib>

namespace conv {
inline void sw32(unsigned char* p) { std::swap(p[0], p[3]); std::swap(p[1], p[2]); }
inline void sw16(unsigned char* p) { std::swap(p[0], p[1]); }
inline uint32_t n32(const unsigned char* p) { uint32_t v; memcpy(&v, p, 4); return v; }
inline uint16_t n16(const unsigned char* p) { uint16_t v; memcpy(&v, p, 2); return v; }

// f: little-endian version 6 file. big: produce a big-endian one; v5: produce format version 5
inline std::string convert(std::string f, bool big, bool v5) {
  fsck::Header h;
  if (!fsck::read_header(f, h)) abort();
  if (h.lorder != 1234 || h.version != 6) abort();
  unsigned char* b = (unsigned char*)&f[0];
  uint32_t bs = h.bsize, np = (uint32_t)(f.size() / bs);
  for (uint32_t n = 1; n < np; n++) {
    unsigned char* p = b + (size_t)n * bs;
    if (n32(p + 12) != fsck::PGMAGIC) continue;
    uint16_t k = n16(p + 16), t = n16(p + 18);
    if (t == fsck::T_DATA) {
      uint32_t pos = n32(p + 28);
      for (uint32_t i = 0; i < k; i++) {
        unsigned char* q = p + pos;
        uint32_t nx = n32(q + 8);
        if (v5) { uint32_t st = n32(q + 4); if ((st & 0xfffff) != 0xffee) abort(); uint32_t v = 0xffeeffeeu; memcpy(q + 4, &v, 4); }
        if (big) for (int j = 0; j < 5; j++) sw32(q + 4 * j);
        pos = nx;
      }
      if (big) sw32(p + 28);
    } else if (big && t == fsck::T_BUCKET) {
      for (uint32_t i = 0; i < k; i++) {
        unsigned char* e = p + 28 + 12 * i;
        unsigned char* d = p + n32(e + 8);
        for (int j = 0; j < 4; j++) sw32(d + 4 * j);
        for (int j = 0; j < 3; j++) sw32(e + 4 * j);
      }
    } else if (big && t == fsck::T_FREE) {
      for (uint32_t i = 0; i < k; i++) sw32(p + 28 + 4 * i);
    } else if (big && t == fsck::T_UINFO) {
      if (n == h.uinfo_page) sw32(p + 28);              // only the first one starts with the length
    } else if (big && t == fsck::T_CONFIG) {
      for (uint32_t i = 0; i < k; i++) for (int j = 0; j < 5; j++) sw32(p + 28 + 148 * i + 4 * j);
    }
    if (big) { sw32(p); sw32(p + 4); sw32(p + 8); sw32(p + 12); sw16(p + 16); sw16(p + 18); sw32(p + 24); }
    uint32_t c = fsck::crc32(p, 20); c = fsck::crc32(p + 24, bs - 24, c);
    memcpy(p + 20, &c, 4);
    if (big) sw32(p + 20);
  }
  if (v5) fsck::pbe32(b + 4, 5);
  if (big) fsck::pbe32(b + 8, 4321);
  fsck::pbe32(b + fsck::HDR_BYTES - 4, fsck::crc32(b, fsck::HDR_BYTES - 4));
  return f;
}
} // namespace conv
