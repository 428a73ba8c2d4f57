// Key and data types for the C++ layer, with an independent statement of their serialised form.
#pragma once
#include "mon.hpp"
#include "FileDB.h"
#include "DBString.h"
#include "VFloatData.h"
#include "ConfDataStoreDB.h"
#include "ConfDataStoreDBSimple.h"
#include "ConfDataStoreMultipleDB.h"
#include "AllConfStoreDB.h"
#include "AllConfStoreMultipleDB.h"
#include "ConfDataDBMerger.h"
#include "HashFunc.h"
#include "hist.hpp"
namespace ty {
using namespace mon;
using namespace FILEDB;
inline void put16(std::string& s, unsigned v) { s += (char)(v >> 8); s += (char)v; }
inline void put32(std::string& s, unsigned v) { put16(s, v >> 16); put16(s, v & 0xffff); }
// a key class with its own hash and compare functions (letter case does not matter)
struct FoldKey : public DBKey {
  std::string s;
  FoldKey() {}
  explicit FoldKey(const std::string& x) : s(x) {}
  FoldKey(const FoldKey& o) : DBKey(), s(o.s) {}
  FoldKey& operator=(const FoldKey& o) { s = o.s; return *this; }
  int operator==(const FoldKey& o) const { return s == o.s; }
  int operator!=(const FoldKey& o) const { return s != o.s; }
  unsigned short serialID() const override { return 77; }
  int hasHashFunc() const override { return 1; }
  int hasCompareFunc() const override { return 1; }
  void writeObject(std::string& o) const noexcept(false) override { o = "K"; o += s; }
  void readObject(const std::string& i) noexcept(false) override { if (i.empty() || i[0] != 'K') throw SerializeException("FoldKey", "bad"); s = i.substr(1); }
  static unsigned hash(const void* k, unsigned n) { return hist::h_ci(k, n); }
  static int compare(const FFDB_DBT* a, const FFDB_DBT* b) { return hist::c_ci(a, b); }
};
// a data class of fixed size, chosen per case; a default object is all zero
struct Fixed : public DBData {
  static int& width() { static int w = 8; return w; }
  std::string s;
  Fixed() : s((size_t)width(), '\0') {}
  explicit Fixed(const std::string& x) : s(x) {}
  Fixed(const Fixed& o) : DBData(), s(o.s) {}
  Fixed& operator=(const Fixed& o) { s = o.s; return *this; }
  unsigned short serialID() const override { return 78; }
  void writeObject(std::string& o) const noexcept(false) override { if (s == "throw!") throw SerializeException("Fixed", "asked to"); o = s; }
  void readObject(const std::string& i) noexcept(false) override { if (i.size() != (size_t)width() || (i.size() && i[0] == 'X')) throw SerializeException("Fixed", "bad size"); s = i; }
};
template <class T> struct Tr;
template <> struct Tr<StringKey> {
  static const char* name() { return "StringKey"; }
  static StringKey make(const std::string& s) { return StringKey(s); }
  static std::string ser(const std::string& s) { std::string o; put16(o, 0x11ff); put16(o, 102); return o + s; }
  static std::string str(const StringKey& k) { return (std::string) const_cast<StringKey&>(k); }
  static bool fold() { return false; }
};
template <> struct Tr<FoldKey> {
  static const char* name() { return "FoldKey"; }
  static FoldKey make(const std::string& s) { return FoldKey(s); }
  static std::string ser(const std::string& s) { return "K" + s; }
  static std::string str(const FoldKey& k) { return k.s; }
  static bool fold() { return true; }
};
template <> struct Tr<UserData> {
  static const char* name() { return "UserData"; }
  static UserData make(const std::string& s) { return UserData(s); }
  static std::string ser(const std::string& s) { std::string o; put16(o, 0x11ff); put16(o, 0x1144); return o + s; }
  static std::string str(const UserData& k) { return (std::string) const_cast<UserData&>(k); }
  static std::string gen(Rng& r, size_t n) { return bytes(r, n); }
};
template <> struct Tr<Fixed> {
  static const char* name() { return "Fixed"; }
  static Fixed make(const std::string& s) { return Fixed(s); }
  static std::string ser(const std::string& s) { return s; }
  static std::string str(const Fixed& k) { return k.s; }
  static std::string gen(Rng& r, size_t) { std::string s = bytes(r, (size_t)Fixed::width()); if (s.size() && s[0] == 'X') s[0] = 'Y'; return s; }
};
template <> struct Tr<VFloatData> {   // the logical string is the float array's bytes
  static const char* name() { return "VFloat"; }
  static VFloatData make(const std::string& s) {
    VFloatData d((unsigned)(s.size() / 4), 0.f);
    std::vector<float>& v = const_cast<std::vector<float>&>((const std::vector<float>&)d);
    for (size_t i = 0; i < v.size(); i++) memcpy(&v[i], &s[i * 4], 4);
    return d;
  }
  static std::string ser(const std::string& s) {
    std::string o; put16(o, 0x6677); put16(o, 0); put32(o, (unsigned)(s.size() / 4));
    for (size_t i = 0; i + 4 <= s.size(); i += 4) { unsigned v; memcpy(&v, &s[i], 4); put32(o, v); }
    return o;
  }
  static std::string str(const VFloatData& k) { const std::vector<float>& v = (const std::vector<float>&)const_cast<VFloatData&>(k); return std::string((const char*)v.data(), v.size() * 4); }
  static std::string gen(Rng& r, size_t n) { return bytes(r, n / 4 * 4); }
};
inline std::string folded(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); return s; }
inline std::string randkey(Rng& r, bool fold) {
  size_t n;
  switch (r.below(8)) { case 0: n = 0; break; case 1: n = r.below(3); break; case 2: n = r.below(120); break; default: n = 1 + r.below(14); }
  if (fold) { std::string s; for (size_t i = 0; i < n; i++) s += (char)("aAbBcCdD01"[r.below(10)]); return s; }
  return bytes(r, n);
}
} // namespace ty
