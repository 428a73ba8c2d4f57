// cxx --profile typed|simple|ens|merge|multi|uinfo|serial : monitors over the C++ layer (typed stores, ensembles, merger,
// multi-file stores, serialisation) against reference maps.
#include <sstream>
#include "types.hpp"
#include "harness.hpp"
#include <sys/wait.h>
#include <time.h>
using namespace ty;

struct Entry { std::string k, v; };                       // serialised key as stored, serialised value
typedef std::map<std::string, Entry> Model;               // by canonical serialised key
static unsigned real_bsize(unsigned b) { unsigned x = 512; while (x < b) x <<= 1; return x; }

// the untyped store behind the same member names
template <class K, class D> struct SimpleAd {
  ConfDataStoreDBSimple s;
  void setCacheSize(unsigned n) { s.setCacheSize(n); }
  void setCacheSizeMB(unsigned n) { s.setCacheSizeMB(n); }
  void setPageSize(unsigned n) { s.setPageSize(n); }
  void setNumberBuckets(unsigned n) { s.setNumberBuckets(n); }
  void enablePageMove() { s.enablePageMove(); }
  void disablePageMove() { s.disablePageMove(); }
  void setMaxUserInfoLen(unsigned n) { s.setMaxUserInfoLen(n); }
  unsigned getMaxUserInfoLen() const { return s.getMaxUserInfoLen(); }
  void setMaxNumberConfigs(unsigned n) { s.setMaxNumberConfigs(n); }
  unsigned getMaxNumberConfigs() const { return s.getMaxNumberConfigs(); }
  bool fileExists(const std::string& f) const { return ConfDataStoreDBSimple::fileExists(f); }
  int open(const std::string& f, int fl, int m) { return s.open(f, fl, m); }
  int close() { return s.close(); }
  int insert(const K& k, const D& d) { return s.insert<K, D>(k, d); }
  int get(const K& k, D& d) { return s.get<K, D>(k, d); }
  bool exist(const K& k) { return s.exist<K>(k); }
  void keys(std::vector<K>& k) { s.keys<K, D>(k); }
  void keysAndData(std::vector<K>& k, std::vector<D>& d) { s.keysAndData<K, D>(k, d); }
  void flush() { s.flush(); }
  std::string storageName() const { return s.storageName(); }
  int insertUserdata(const std::string& u) { return s.insertUserdata(u); }
  int getUserdata(std::string& u) { return s.getUserdata(u); }
};

template <class S, class K, class D, bool FULL> struct Typed {
  Rng r; std::string path; S* st = nullptr; S* other = nullptr;   // other: a copy of the store
  Model m; bool isopen = false, ro = false, poisoned = false; unsigned bsize, ulen; unsigned nconf; std::string uinfo; bool uset = false;
  std::vector<std::string> pool;
  bool fold = FULL && Tr<K>::fold();
  Typed(uint64_t seed, const std::string& p) : r(seed), path(p) {}
  std::string canon(const std::string& ks) { return fold ? folded(ks) : ks; }
  std::string pickkey() { return pool.size() && r.chance(60) ? r.pick(pool) : (pool.push_back(randkey(r, fold)), pool.back()); }
  S& any() { return other && r.chance(50) ? *other : *st; }
  unsigned maxsure() { return real_bsize(bsize) - 59; }
  unsigned maxnever() { return real_bsize(bsize) - 56; }
  bool readable_k(const std::string& ks) { K k; try { k.readObject(ks); } catch (SerializeException&) { return false; } return true; }
  bool readable_d(const std::string& ds) { D d; try { d.readObject(ds); } catch (SerializeException&) { return false; } return true; }

  void configure(S& s) {
    if (r.chance(70)) s.setCacheSize(r.chance(30) ? 1 : (unsigned)(real_bsize(bsize) * (1 + r.below(40))));
    else if (r.chance(50)) s.setCacheSizeMB(1 + (unsigned)r.below(8));
    if (r.chance(50)) s.enablePageMove(); else s.disablePageMove();
  }
  void create() {
    static const std::vector<unsigned> ps = {512, 1024, 2048, 4096, 8192, 700};
    bsize = r.pick(ps); ulen = 1 + (unsigned)r.below(2000); nconf = 1 + (unsigned)r.below(9);
    st = new S();
    if (r.chance(20)) { // defaults of the class
      bsize = 8192; ulen = 0;
    } else { st->setPageSize(bsize); st->setNumberBuckets((unsigned)r.below(40)); st->setMaxUserInfoLen(ulen); st->setMaxNumberConfigs(nconf); configure(*st); }
    closed_ops("before the first open");
    if (st->fileExists(path)) violate("typed", "fileExists before creation");
    if (st->open(path, O_RDWR, 0664) == 0) violate("typed", "open of a missing file without O_CREAT succeeded");
    closed_ops("after a failed open");
    if (st->open(path, O_RDWR | O_CREAT | (r.chance(50) ? O_TRUNC : 0), 0664) != 0) violate("typed", "creation failed: %s", strerror(errno));
    note("create page %u", bsize);
    isopen = true; ro = false;
    if (ulen) {
      if (st->getMaxUserInfoLen() != ulen + 1) violate("typed", "maximum user info length is %u, requested %u (+1)", st->getMaxUserInfoLen(), ulen);
      if (st->getMaxNumberConfigs() != nconf) violate("typed", "number of configurations is %u, requested %u", st->getMaxNumberConfigs(), nconf);
    }
    if (!st->fileExists(path)) violate("typed", "created file does not exist");
  }
  void reopen() {
    note("reopen");
    bool drop = r.chance(40);
    if (drop && !other && r.chance(50)) { delete st; st = new S(); }     // destructor closes
    else {
      if (any().close() != 0) violate("typed", "close failed: %s", strerror(errno));
      isopen = false;
      if (r.chance(40)) closed_ops("after close");
      if (drop) { delete other; other = nullptr; delete st; st = new S(); }
    }
    isopen = false;
    count("sessions");
    if (r.chance(60)) configure(*st);
    ro = r.chance(30);
    if (st->open(path, ro ? O_RDONLY : r.chance(30) ? O_RDWR | O_CREAT : O_RDWR, 0664) != 0) violate("typed", "reopen failed: %s", strerror(errno));
    isopen = true;
    if (r.chance(50)) listing(*st, "after reopen");
    if (r.chance(30)) { std::string u = userdata(*st); (void)u; }
  }
  void store(int how, const std::string& k, const std::string& d, const char* what) {
    std::string ks = Tr<K>::ser(k), ds = Tr<D>::ser(d); int rc;
    S& s = any();
    auto it = m.find(canon(ks));
    errno = 0;
    if constexpr (FULL) {
      if (how == 0) rc = s.insert(Tr<K>::make(k), Tr<D>::make(d));
      else if (how == 1) rc = s.insertWithStringKey(ks, Tr<D>::make(d));
      else rc = s.insertBinary(ks, ds);
    } else rc = s.insert(Tr<K>::make(k), Tr<D>::make(d));
    outcome(ks, ds, rc, it != m.end(), what);
  }
  void outcome(const std::string& ks, const std::string& ds, int rc, bool existed, const char* what) {
    auto it = m.find(canon(ks));
    const char* why = nullptr; bool either = false;
    if (ro) why = "read-only store";
    else if (existed && ds.size() > it->second.v.size()) why = "replacement longer than the stored value";
    else if (ks.size() > maxnever()) why = "key too long";
    else if (ks.size() > maxsure()) either = true;
    note("%s %s %zu -> %d", what, show(ks).c_str(), ds.size(), rc);
    if (why && rc == 0) violate("typed", "insert accepted although: %s", why);
    if (!why && !either && rc != 0) violate("typed", "insert of key %s refused (%s)", show(ks).c_str(), strerror(errno));
    if (rc == 0) { if (existed) { it->second.v = ds; count("replaced"); } else { m[canon(ks)] = Entry{ks, ds}; count("inserted"); } }
    else count("refused");
  }
  void fetch(S& s, const std::string& k, const char* when) {
    std::string ks = Tr<K>::ser(k);
    auto it = m.find(canon(ks));
    D out = Tr<D>::make("sentinel");
    int how = FULL ? (int)r.below(3) : 0;
    count("lookups");
    if (how == 0 || how == 1) {
      int rc = s.get(Tr<K>::make(k), out);
      if (it == m.end()) {
        if (rc == 0) violate("typed", "%s: get of absent key %s succeeded", when, show(ks).c_str());
        if (Tr<D>::str(out) != Tr<D>::str(Tr<D>::make("sentinel"))) violate("typed", "%s: get of an absent key modified the output", when);
      } else if (!readable_d(it->second.v)) { if (rc == 0) violate("typed", "%s: get returned an object from bytes that do not form one", when); count("unreadable"); }
      else {
        if (rc != 0) violate("typed", "%s: get of stored key %s returned %d", when, show(ks).c_str(), rc);
        if (Tr<D>::ser(Tr<D>::str(out)) != it->second.v) violate("typed", "%s: get of key %s returned %s, stored %s", when, show(ks).c_str(), show(Tr<D>::str(out)).c_str(), show(it->second.v).c_str());
      }
    } else if constexpr (FULL) {
      std::string b = "sentinel";
      int rc = s.getBinary(ks, b);
      if (it == m.end()) { if (rc == 0 || b != "sentinel") violate("typed", "%s: binary get of absent key returned %d and changed the output %d", when, rc, b != "sentinel"); }
      else if (rc != 0 || b != it->second.v) violate("typed", "%s: binary get of key %s returned %d %s, stored %s", when, show(ks).c_str(), rc, show(b).c_str(), show(it->second.v).c_str());
    }
    bool e = s.exist(Tr<K>::make(k));
    if (e != (it != m.end())) violate("typed", "%s: exist(%s) = %d, stored = %d", when, show(ks).c_str(), e, it != m.end());
  }
  void once(const std::vector<std::string>& ks, const std::vector<std::string>* vs, const char* fn, const char* when) {
    if (vs && vs->size() != ks.size()) violate("typed", "%s: %s gave %zu keys and %zu values", when, fn, ks.size(), vs->size());
    if (ks.size() != m.size()) violate("typed", "%s: %s gave %zu keys, %zu stored", when, fn, ks.size(), m.size());
    std::set<std::string> seen;
    for (size_t i = 0; i < ks.size(); i++) {
      auto it = m.find(canon(ks[i]));
      if (it == m.end() || it->second.k != ks[i]) violate("typed", "%s: %s gave key %s that is not stored", when, fn, show(ks[i]).c_str());
      if (!seen.insert(ks[i]).second) violate("typed", "%s: %s gave key %s twice", when, fn, show(ks[i]).c_str());
      if (vs && (*vs)[i] != it->second.v) violate("typed", "%s: %s paired key %s with %s, stored %s", when, fn, show(ks[i]).c_str(), show((*vs)[i]).c_str(), show(it->second.v).c_str());
    }
    count("listings");
  }
  template <class T> static std::vector<std::string> serk(const std::vector<T>& v) { std::vector<std::string> o; for (auto& x : v) o.push_back(Tr<T>::ser(Tr<T>::str(x))); return o; }
  void listing(S& s, const char* when) {
    bool badk = false, badd = false;
    if (poisoned) for (auto& e : m) { badk |= !readable_k(e.second.k); badd |= !readable_d(e.second.v); }
    auto typed = [&](const char* fn, bool bad, const std::function<void()>& f) {
      bool threw = false;
      try { f(); } catch (SerializeException&) { threw = true; }
      if (threw != bad) violate("typed", "%s: %s %s", when, fn, bad ? "did not report an unreadable object" : "reported an unreadable object although all are readable");
      if (threw) count("listing_exceptions");
      return !threw;
    };
    int which = (int)r.below(FULL ? 7 : 2);
    std::vector<K> k; std::vector<D> d;
    if (which == 0) { if (typed("keys", badk, [&] { s.keys(k); })) once(serk(k), nullptr, "keys", when); }
    else if (which == 1) { if (typed("keysAndData", badk || badd, [&] { s.keysAndData(k, d); })) { auto v = serk(d); once(serk(k), &v, "keysAndData", when); } }
    else if constexpr (FULL) {
      std::vector<std::string> ks, vs;
      if (which == 2) { s.binaryKeys(ks); once(ks, nullptr, "binaryKeys", when); }
      else if (which == 3 || which == 6) { s.binaryKeysAndData(ks, vs); once(ks, &vs, "binaryKeysAndData", when); }
      else if (which == 4) { if (typed("stringKeysAndData", badd, [&] { s.stringKeysAndData(ks, d); })) { auto v = serk(d); once(ks, &v, "stringKeysAndData", when); } }
      else if (which == 5 && !badk && !badd) {
        s.someKeyAndData(k, d);
        if (k.size() != d.size() || k.size() != (m.empty() ? 0u : 1u)) violate("typed", "%s: someKeyAndData gave %zu keys and %zu values of %zu pairs", when, k.size(), d.size(), m.size());
        if (k.size()) { auto a = serk(k), b = serk(d); auto it = m.find(canon(a[0])); if (it == m.end() || it->second.k != a[0] || it->second.v != b[0]) violate("typed", "%s: someKeyAndData gave a pair that is not stored", when); }
      }
    }
  }
  std::string userdata(S& s) {
    std::string u = "sentinel";
    int rc = s.getUserdata(u);
    if (rc != 0) violate("typed", "getUserdata failed");
    if (uset && u != uinfo) violate("typed", "user data reads back as %s, set to %s", show(u).c_str(), show(uinfo).c_str());
    return u;
  }
  void closed_ops(const char* when) {
    S& s = *st;
    K k = Tr<K>::make("k"); D d = Tr<D>::make("sentinel"); std::vector<K> ks; std::vector<D> ds; std::string b = "b";
    if (s.insert(k, d) == 0) violate("closed", "%s: insert succeeded", when);
    if (s.get(k, d) == 0) violate("closed", "%s: get succeeded", when);
    if (s.exist(k)) violate("closed", "%s: exist is true", when);
    s.keys(ks); s.keysAndData(ks, ds);
    if (ks.size() || ds.size()) violate("closed", "%s: listing not empty", when);
    s.flush();
    if (s.insertUserdata("x") == 0 || s.getUserdata(b) == 0) violate("closed", "%s: user data access succeeded", when);
    if (s.storageName() != "") violate("closed", "%s: storage name is %s", when, s.storageName().c_str());
    if (s.close() != 0) violate("closed", "%s: close of a closed store failed", when);
    if constexpr (FULL) {
      std::vector<std::string> a, c;
      if (s.insertWithStringKey("a", d) == 0 || s.insertBinary("a", "b") == 0 || s.getBinary("a", b) == 0) violate("closed", "%s: binary access succeeded", when);
      s.binaryKeys(a); s.binaryKeysAndData(a, c); s.stringKeysAndData(a, ds); s.someKeyAndData(ks, ds);
      if (a.size() || c.size() || ks.size() || ds.size()) violate("closed", "%s: listing not empty", when);
    }
    count("closed_checks");
  }
  void flush_check() {
    note("flush");
    any().flush();
    S second;
    second.setCacheSize((unsigned)(r.below(3) * 4096));
    if (second.open(path, O_RDONLY, 0400) != 0) violate("flush", "file cannot be opened after flush");
    for (int i = 0; i < 3; i++) listing(second, "second reader after flush");
    for (int i = 0; i < 6; i++) fetch(second, pickkey(), "second reader after flush");
    if (uset) userdata(second);
    if (second.close() != 0) violate("flush", "close of the second reader failed");
    count("flush_checks");
  }
  void run(int ops) {
    create();
    poisoned = FULL && r.chance(20);
    int wr = 20 + (int)r.below(60);
    for (int i = 0; i < ops; i++) {
      if (r.chance(wr)) {
        std::string k = pickkey(), d = Tr<D>::gen(r, r.chance(8) ? r.below(6000) : r.below(80));
        if (r.chance(2)) k = std::string(maxnever() + 1 + r.below(100), 'q');
        store((int)r.below(3), k, d, "insert");
        continue;
      }
      switch (r.below(12)) {
        case 0: case 1: case 2: case 3: fetch(any(), pickkey(), "session"); break;
        case 4: listing(any(), "session"); break;
        case 5: if (!ro) flush_check(); break;
        case 6: case 7: if (r.chance(50)) reopen(); break;
        case 8:
          if (r.chance(50)) { delete other; other = nullptr; if (r.chance(60)) { other = new S(*st); note("copy"); if (r.chance(30)) { delete st; st = other; other = nullptr; note("original gone"); } } }
          break;
        case 9: {
          unsigned mx = st->getMaxUserInfoLen();
          std::string u = bytes(r, r.chance(20) ? mx : r.chance(10) ? mx + 1 + r.below(50) : r.below(mx));
          int rc = any().insertUserdata(u);
          note("userdata %zu -> %d", u.size(), rc);
          bool bad = ro || u.size() > mx;
          if (bad != (rc != 0)) violate("typed", "user data of %zu bytes (maximum %u, read-only %d) returned %d", u.size(), mx, ro, rc);
          if (rc == 0) { uinfo = u; uset = true; }
          userdata(any());
          break;
        }
        case 10:
          if (any().storageName() != path) violate("typed", "storage name is %s", any().storageName().c_str());
          break;
        case 11:
          if constexpr (FULL) if (poisoned && r.chance(40)) {
            std::string ks = r.chance(50) ? bytes(r, r.below(9)) : Tr<K>::ser(pickkey()), ds = bytes(r, r.below(30));
            bool ex = m.count(canon(ks)) != 0;
            errno = 0;
            int rc = any().insertBinary(ks, ds);
            outcome(ks, ds, rc, ex, "insertBinary");
          }
          break;
      }
    }
    for (int i = 0; i < 8; i++) listing(*st, "end");
    for (auto& k : pool) if (r.chance(50)) fetch(*st, k, "end");
    delete other; other = nullptr;
    if (r.chance(50)) { if (st->close() != 0) violate("typed", "close failed"); closed_ops("at the end"); }
    delete st;
    S fin;
    if (fin.open(path, O_RDONLY, 0400) != 0) violate("typed", "final open failed");
    for (int i = 0; i < 7; i++) listing(fin, "final");
    for (auto& k : pool) fetch(fin, k, "final");
    if (uset) userdata(fin);
    if (fin.close() != 0) violate("typed", "final close failed");
    signature(std::string(FULL ? "typed/" : "simple/") + Tr<K>::name() + "/" + Tr<D>::name() + "/page" + std::to_string(real_bsize(bsize)) + (poisoned ? "/unreadable" : "") + "/pairs" + std::to_string(m.size() > 100 ? 100 : m.size() / 10 * 10));
  }
};

// ---- ensembles ------------------------------------------------------------------------------------------------
template <class K, class D> struct Ens {
  typedef AllConfStoreDB<K, D> S;
  typedef std::vector<std::string> Rec;            // logical element strings
  struct E { std::string k; Rec v; };
  Rng r; std::string path; S* st = nullptr; std::map<std::string, E> m; int n = 0; std::vector<ConfigInfo> ci; bool fresh = true, ro = false; int width = 0;
  std::vector<std::string> pool; bool fold = Tr<K>::fold();
  unsigned bsize = 512; std::string uinfo; bool uset = false;
  Ens(uint64_t seed, const std::string& p) : r(seed), path(p) {}
  std::string canon(const std::string& ks) { return fold ? folded(ks) : ks; }
  std::string gen() { return Tr<D>::gen(r, (size_t)width); }
  std::string pickkey() { return pool.size() && r.chance(65) ? r.pick(pool) : (pool.push_back(randkey(r, fold)), pool.back()); }
  std::vector<D> objs(const Rec& v) { std::vector<D> o; for (auto& x : v) o.push_back(Tr<D>::make(x)); return o; }
  Rec strs(const std::vector<D>& v) { Rec o; for (auto& x : v) o.push_back(Tr<D>::str(x)); return o; }
  Rec sers(const Rec& v) { Rec o; for (auto& x : v) o.push_back(Tr<D>::ser(x)); return o; }
  static std::string cat(const Rec& v) { std::string s; for (auto& x : v) s += x; return s; }
  std::vector<int> cfgs; std::vector<std::string> names;
  void knobs(S& s) {
    if (r.chance(60)) s.setCacheSize(r.chance(40) ? 1 : (unsigned)(4096 * (1 + r.below(20))));
    if (r.chance(50)) s.enablePageMove(); else s.disablePageMove();
  }
  void create() {
    n = r.chance(15) ? 1 : r.chance(20) ? 30 + (int)r.below(40) : 2 + (int)r.below(8);
    bsize = std::vector<unsigned>{512, 1024, 4096, 8192}[r.below(4)];
    int c0 = (int)r.below(1000);
    for (int i = 0; i < n; i++) { cfgs.push_back(c0); c0 += 1 + (int)r.below(10); }
    bool nm = r.chance(50);
    for (int i = 0; i < n; i++) names.push_back(r.chance(20) ? "N/A" : r.chance(10) ? std::string(127, 'f') : "file" + std::to_string(i));
    { // no configuration list: an empty database cannot be opened as an ensemble, and nothing stays open
      S e;
      if (e.open(path, O_RDWR | O_CREAT, 0664) == 0) violate("ens", "empty ensemble opened without a configuration list");
      closed_ops(e, "after a failed open");
    }
    unlink(path.c_str());
    st = nm ? new S(cfgs, names) : new S(cfgs);
    if (st->size() != n) violate("ens", "size() is %d, %d configurations given", st->size(), n);
    closed_ops(*st, "before open");
    st->setPageSize(bsize); st->setNumberBuckets((unsigned)r.below(20)); knobs(*st);
    if (st->open(path, O_RDWR | O_CREAT | O_TRUNC, 0664) != 0) violate("ens", "creation failed");
    for (int i = 0; i < n; i++) {
      ConfigInfo c; c.configNumber(cfgs[i]); c.index(i); c.insert(0); c.type(0); c.modifiedTime(0); c.urlname(nm && names[i] != "N/A" ? names[i] : "");
      ci.push_back(c);
    }
    note("create %d configurations width %d page %u", n, width, bsize);
    configs("after creation");
  }
  bool same(const ConfigInfo& a, const ConfigInfo& b) {
    return a.configNumber() == b.configNumber() && a.index() == b.index() && a.inserted() == b.inserted() && a.type() == b.type() && a.modifiedTime() == b.modifiedTime() && a.urlname() == b.urlname();
  }
  void configs(const char* when) {
    std::vector<ConfigInfo> got;
    if (st->getAllConfigInfo(got) != 0 || (int)got.size() != n) violate("ens", "%s: configuration list has %zu entries, expected %d", when, got.size(), n);
    for (int i = 0; i < n; i++) if (!same(got[i], ci[i])) violate("ens", "%s: configuration %d differs (name %s, expected %s)", when, i, got[i].urlname().c_str(), ci[i].urlname().c_str());
    int i = (int)r.below(n);
    ConfigInfo c;
    if (st->getConfigInfo((unsigned)cfgs[i], c) != 0 || !same(c, ci[i])) violate("ens", "%s: information of configuration %d differs", when, cfgs[i]);
    if (st->getConfigInfo(999999, c) == 0) violate("ens", "%s: information of an unknown configuration found", when);
    if (st->size() != n || (int)st->getMaxNumberConfigs() != n) violate("ens", "%s: size %d, maximum %u, expected %d", when, st->size(), st->getMaxNumberConfigs(), n);
    count("config_checks");
  }
  void closed_ops(S& s, const char* when) {
    K k = Tr<K>::make("k"); std::vector<D> d; Rec b; ConfigInfo c; std::vector<ConfigInfo> cc; std::vector<K> ks; std::vector<std::vector<D>> vv;
    if (s.get(k, d) == 0 || s.getFromStringKey("k", d) == 0 || s.getBinaryData("k", b) == 0 || s.exist(k)) violate("ens", "%s: lookup in a store that is not open succeeded", when);
    std::vector<D> v((size_t)s.size()); Rec sv((size_t)s.size(), "x");
    if (s.insert(k, v) == 0 || s.insertWithStringKey("k", v) == 0 || s.insertBinaryData("k", sv) == 0 || s.update(k, D(), 0, 0) == 0) violate("ens", "%s: store that is not open accepted a record", when);
    if (s.setConfigInfo(c) == 0 || s.getConfigInfo(0, c) == 0 || s.getAllConfigInfo(cc) == 0) violate("ens", "%s: configuration access in a store that is not open succeeded", when);
    s.keysAndData(ks, vv); s.stringKeysAndData(b, vv);
    if (ks.size() || vv.size() || b.size()) violate("ens", "%s: listing of a store that is not open", when);
    if (s.begin() != s.end()) violate("ens", "%s: iteration over a store that is not open", when);
    count("closed_checks");
  }
  void fetch(S& s, const std::string& k, const char* when) {
    std::string ks = Tr<K>::ser(k);
    auto it = m.find(canon(ks));
    int how = (int)r.below(4), rc; Rec got, want;
    count("lookups");
    if (it != m.end()) want = it->second.v;
    if (how <= 1) {
      std::vector<D> v;
      rc = how == 0 ? s.get(Tr<K>::make(k), v) : s.getFromStringKey(ks, v);
      got = strs(v);
    } else if (how == 2) { rc = s.getBinaryData(ks, got); want = sers(want); }
    else { std::string b; rc = s.getBinary(ks, b); got.push_back(b); want = Rec{cat(sers(want))}; if (it == m.end()) got.clear(); }
    if (it == m.end()) { if (rc == 0 || got.size()) violate("ens", "%s: get of absent key returned %d and %zu elements", when, rc, got.size()); }
    else {
      if (rc != 0) violate("ens", "%s: get (%d) of stored key %s returned %d", when, how, show(ks).c_str(), rc);
      if (got.size() != want.size()) violate("ens", "%s: get (%d) returned %zu elements, expected %zu", when, how, got.size(), want.size());
      for (size_t i = 0; i < got.size(); i++) if (got[i] != want[i]) violate("ens", "%s: get (%d) of key %s: element %zu is %s, expected %s", when, how, show(ks).c_str(), i, show(got[i]).c_str(), show(want[i]).c_str());
    }
    if (s.exist(Tr<K>::make(k)) != (it != m.end())) violate("ens", "%s: exist is wrong", when);
  }
  void once(const std::vector<std::string>& ks, const std::vector<Rec>* vs, const char* fn, const char* when) {
    if (ks.size() != m.size() || (vs && vs->size() != ks.size())) violate("ens", "%s: %s gave %zu keys, %zu records, %zu stored", when, fn, ks.size(), vs ? vs->size() : 0, m.size());
    std::set<std::string> seen;
    for (size_t i = 0; i < ks.size(); i++) {
      auto it = m.find(canon(ks[i]));
      if (it == m.end() || it->second.k != ks[i] || !seen.insert(ks[i]).second) violate("ens", "%s: %s gave key %s (stored: %d, repeated or altered)", when, fn, show(ks[i]).c_str(), it != m.end());
      if (vs && (*vs)[i] != it->second.v) violate("ens", "%s: %s gave a wrong record for key %s", when, fn, show(ks[i]).c_str());
    }
    count("listings");
  }
  void listing(S& s, const char* when) {
    std::vector<std::string> ks; std::vector<K> k; std::vector<std::vector<D>> v; std::vector<Rec> rec;
    switch (r.below(5)) {
      case 0: s.keysAndData(k, v); for (auto& x : k) ks.push_back(Tr<K>::ser(Tr<K>::str(x))); for (auto& x : v) rec.push_back(strs(x)); once(ks, &rec, "keysAndData", when); break;
      case 1: s.stringKeysAndData(ks, v); for (auto& x : v) rec.push_back(strs(x)); once(ks, &rec, "stringKeysAndData", when); break;
      case 2: s.keys(k); for (auto& x : k) ks.push_back(Tr<K>::ser(Tr<K>::str(x))); once(ks, nullptr, "keys", when); break;
      case 3: { // iteration, with a copied and an assigned iterator
        typename S::key_iterator it = s.begin(), e = s.end();
        while (it != e) {
          ks.push_back(Tr<K>::ser(Tr<K>::str(*it)));
          if (Tr<K>::str(*it) != Tr<K>::str(*(it.operator->()))) violate("ens", "%s: iterator access paths disagree", when);
          if (ks.size() > m.size() + 5) violate("ens", "%s: iteration does not end", when);
          if (r.chance(5)) { typename S::key_iterator c(it); it = c; if (c != it || !(it == c)) violate("ens", "%s: an iterator and its copy differ", when); }
          if (r.chance(20)) { fetch(s, pickkey(), "during iteration"); }
          if (r.chance(50)) ++it; else it++;
        }
        ++it;
        if (it != e) violate("ens", "%s: finished iterator came back", when);
        once(ks, nullptr, "iteration", when);
        break;
      }
      case 4: { // abandoned iteration
        typename S::key_iterator it = s.begin();
        for (int i = 0; i < 2 && it != s.end(); i++) ++it;
        break;
      }
    }
  }
  void stored(const std::string& k, const Rec& v, int rc, const char* what) {
    std::string ks = Tr<K>::ser(k);
    note("%s %s -> %d", what, show(ks).c_str(), rc);
    if (ro ? rc == 0 : rc != 0) violate("ens", "%s on a %s store returned %d", what, ro ? "read-only" : "writable", rc);
    if (rc) { count("refused"); return; }
    auto it = m.find(canon(ks));
    if (it == m.end()) m[canon(ks)] = E{ks, v}; else it->second.v = v;
    count("inserted");
  }
  void update() {
    std::string k = pickkey(), ks = Tr<K>::ser(k), e = gen();
    int idx = (int)r.below(n);
    auto it = m.find(canon(ks));
    bool bad = false, shape = false;
    if (r.chance(10)) { idx = r.chance(50) ? n + (int)r.below(5) : -1 - (int)r.below(3); bad = true; }
    else if (r.chance(10) && (n > 1 || it != m.end())) { e += "zz"; if (it != m.end() || Tr<D>::ser(Tr<D>::str(D())).size() != Tr<D>::ser(e).size()) shape = true; }
    int cn = idx >= 0 && idx < n ? cfgs[idx] : 0;
    int rc = st->update(Tr<K>::make(k), Tr<D>::make(e), cn, idx);
    note("update %s %d -> %d", show(ks).c_str(), idx, rc);
    bool creates = it == m.end() && fresh && !ro && !bad && !shape && Tr<D>::ser(Tr<D>::str(D())).size() == Tr<D>::ser(e).size() && (n == 1 || (int)Tr<D>::ser(e).size() == (int)Tr<D>::ser(gen()).size());
    if (it == m.end() && fresh && n == 1 && !ro && !bad) creates = true;
    bool ok = !ro && !bad && !shape && (it != m.end() || creates);
    if (ok != (rc == 0)) violate("ens", "update (index %d of %d, key stored %d, new database %d, read-only %d, size right %d) returned %d", idx, n, it != m.end(), fresh, ro, !shape, rc);
    if (!ok) { count("refused"); return; }
    if (it == m.end()) { Rec v((size_t)n, Tr<D>::str(D())); v[idx] = e; m[canon(ks)] = E{ks, v}; count("created_by_update"); }
    else { it->second.v[idx] = e; count("updated"); }
  }
  void misshaped() {
    std::string k = pickkey(), ks = Tr<K>::ser(k);
    Rec v; for (int i = 0; i < n; i++) v.push_back(gen());
    if (n > 1 && r.chance(70)) {       // one element of another size; sometimes the total still fits
      int i = (int)r.below(n), j = (int)((i + 1 + r.below(n - 1)) % n);
      v[i] += "ab";
      if (r.chance(50) && v[j].size() >= 2) v[j].resize(v[j].size() - 2);
      int rc;
      switch (r.below(3)) { case 0: rc = st->insert(Tr<K>::make(k), objs(v)); break; case 1: rc = st->insertWithStringKey(ks, objs(v)); break; default: rc = st->insertBinaryData(ks, sers(v)); }
      if (rc == 0) violate("ens", "record with elements of different sizes accepted");
      count("misshaped");
    } else {                           // wrong number of elements: refused by error or by the documented fatal exit
      if (r.chance(50)) v.pop_back(); else v.push_back(gen());
      fflush(stdout);
      pid_t p = fork();
      if (p < 0) harness("fork");
      if (p == 0) {
        int rc;
        switch (r.below(3)) { case 0: rc = st->insert(Tr<K>::make(k), objs(v)); break; case 1: rc = st->insertWithStringKey(ks, objs(v)); break; default: rc = st->insertBinaryData(ks, sers(v)); }
        _exit(rc == 0 ? 55 : 1);
      }
      int s;
      if (waitpid(p, &s, 0) != p) harness("wait");
      if (WIFSIGNALED(s) || WEXITSTATUS(s) == 99) violate("ens", "record with %zu elements instead of %d crashed", v.size(), n);
      if (WEXITSTATUS(s) == 55) violate("ens", "record with %zu elements instead of %d accepted", v.size(), n);
      count("wrong_count");
    }
    note("misshaped %s", show(ks).c_str());
    fetch(*st, k, "after a refused record");
  }
  // the same object is used on another ensemble (other configurations, elements of another size) in between
  void detour() {
    std::string other = path + ".other";
    int n2 = 1 + (int)r.below(2 * (uint64_t)n), w = width;
    std::vector<int> c2; for (int i = 0; i < n2; i++) c2.push_back(7000 + i);
    std::string k = randkey(r, fold); Rec v;
    unlink(other.c_str());
    width = 1 + (int)r.below(100); for (int i = 0; i < n2; i++) v.push_back(gen()); width = w;
    { S o(c2); o.setPageSize(512); if (o.open(other, O_RDWR | O_CREAT | O_TRUNC, 0664) != 0 || o.insert(Tr<K>::make(k), objs(v)) != 0 || o.close() != 0) violate("ens", "second ensemble cannot be made"); }
    if (st->open(other, r.chance(50) ? O_RDONLY : O_RDWR, 0664) != 0) violate("ens", "second ensemble cannot be opened with the object used for the first");
    std::vector<D> got;
    if (st->size() != n2 || st->get(Tr<K>::make(k), got) != 0 || strs(got) != v) violate("ens", "second ensemble: size %d (%d expected), %zu elements", st->size(), n2, got.size());
    note("detour %d", n2); count("detours");
    if (r.chance(50) && st->close() != 0) violate("ens", "close failed");
  }
  void reopen() {
    if (r.chance(60)) { if (st->close() != 0) violate("ens", "close failed"); if (r.chance(30)) closed_ops(*st, "after close"); }
    bool neu = r.chance(70);
    if (neu) {
      delete st;
      if (!m.empty() && r.chance(35)) {  // an object made for another list of configurations: what the file says counts
        std::vector<int> other; for (int i = 0, c = r.chance(50) ? (int)r.below((uint64_t)n + 1) : n + 1 + (int)r.below(5); i < c; i++) other.push_back(5000 + i);
        st = new S(other);
        count("other_list_reopens");
      } else st = m.empty() || r.chance(20) ? new S(cfgs) : new S();
      if (r.chance(60)) knobs(*st);
    }
    if (!m.empty() && r.chance(20)) detour();
    ro = r.chance(25) && !m.empty();
    if (st->open(path, ro ? O_RDONLY : O_RDWR, 0664) != 0) violate("ens", "reopen failed");
    fresh = m.empty();
    note("reopen ro=%d", ro);
    count("sessions");
    if (m.empty()) { // an empty ensemble takes the list of configurations again
      for (int i = 0; i < n; i++) { ConfigInfo c; c.configNumber(cfgs[i]); c.index(i); c.insert(0); c.type(0); c.urlname(neu ? "" : ci[i].urlname()); ci[i] = c; }
      if (!neu) refresh();
    }
    configs("after reopen");
    if (r.chance(50)) listing(*st, "after reopen");
  }
  void refresh() { std::vector<ConfigInfo> g; if (st->getAllConfigInfo(g) == 0 && (int)g.size() == n) ci = g; }   // which list an empty store keeps is not specified
  void run(int ops) {
    create();
    int wr = 20 + (int)r.below(50);
    for (int i = 0; i < ops; i++) {
      if (r.chance(wr)) {
        if (r.chance(45)) { update(); continue; }
        std::string k = pickkey(); Rec v; for (int j = 0; j < n; j++) v.push_back(gen());
        switch (r.below(3)) {
          case 0: stored(k, v, st->insert(Tr<K>::make(k), objs(v)), "insert"); break;
          case 1: stored(k, v, st->insertWithStringKey(Tr<K>::ser(k), objs(v)), "insertWithStringKey"); break;
          default: stored(k, v, st->insertBinaryData(Tr<K>::ser(k), sers(v)), "insertBinaryData");
        }
        continue;
      }
      switch (r.below(12)) {
        case 0: case 1: case 2: case 3: fetch(*st, pickkey(), "session"); break;
        case 4: case 5: listing(*st, "session"); break;
        case 6: if (r.chance(40)) misshaped(); break;
        case 7: if (r.chance(60)) reopen(); break;
        case 8: if (r.chance(30)) { st->updateDone(); fresh = false; note("updateDone"); } break;
        case 9: {
          int i2 = (int)r.below(n);
          ConfigInfo c = ci[i2];
          c.insert((int)r.below(2)); c.type(r.chance(50) ? FILEDB_FIX_DATA_SIZE : (int)r.below(100)); c.modifiedTime((int)r.below(2000000000)); c.urlname(r.chance(15) ? std::string(127, 'u') : "url" + std::to_string(r.below(1000)));
          bool known = r.chance(85);
          if (!known) c.configNumber(888888);
          int rc = st->setConfigInfo(c);
          note("setConfigInfo %d -> %d", i2, rc);
          if ((rc == 0) != (known && !ro)) violate("ens", "setConfigInfo (known %d, read-only %d) returned %d", known, ro, rc);
          if (rc == 0) ci[i2] = c;
          configs("after setConfigInfo");
          break;
        }
        case 10: {
          std::string u = bytes(r, r.below(200));
          int rc = st->insertUserdata(u);
          if ((rc == 0) == ro) violate("ens", "insertUserdata returned %d", rc);
          if (rc == 0) { uinfo = u; uset = true; }
          std::string g;
          if (uset && (st->getUserdata(g) != 0 || g != uinfo)) violate("ens", "user data differs");
          break;
        }
        case 11: if (!ro) { st->flush(); S second(cfgs); if (second.open(path, O_RDONLY, 0400) != 0) violate("ens", "open after flush failed"); listing(second, "second reader after flush"); for (int j = 0; j < 3; j++) fetch(second, pickkey(), "second reader after flush"); count("flush_checks"); } break;
      }
    }
    for (int i = 0; i < 5; i++) listing(*st, "end");
    configs("end");
    if (r.chance(50) && st->close() != 0) violate("ens", "close failed");
    delete st;
    st = m.empty() ? new S(cfgs) : new S();
    if (st->open(path, O_RDONLY, 0400) != 0) violate("ens", "final open failed");
    ro = true;
    for (int i = 0; i < 5; i++) listing(*st, "final");
    for (auto& k : pool) fetch(*st, k, "final");
    if (!m.empty()) configs("final");
    delete st;
    signature(std::string("ens/") + Tr<K>::name() + "/" + Tr<D>::name() + "/n" + std::to_string(n) + "/page" + std::to_string(bsize) + "/pairs" + std::to_string(m.size() > 50 ? 50 : m.size() / 5 * 5));
  }
};

// ---- merging --------------------------------------------------------------------------------------------------
template <class K, class D> static void p_merge(Rng& r, const std::string& dir, long) {
  int n = 1 + (int)r.below(7), nk = r.chance(10) ? 1 : 1 + (int)r.below(r.chance(20) ? 300 : 40);
  std::vector<std::string> keys; std::set<std::string> uniq; bool fold = Tr<K>::fold();
  while ((int)keys.size() < nk) { std::string k = randkey(r, fold); if (uniq.insert(fold ? folded(k) : k).second) keys.push_back(k); else if (fold && uniq.size() > 50) break; }
  bool varsize = std::is_same<D, UserData>::value && r.chance(25);
  int width = 1 + (int)r.below(60);
  Fixed::width() = width;
  std::vector<size_t> kw; for (size_t i = 0; i < keys.size(); i++) kw.push_back(varsize ? r.below(200) : (size_t)width);
  std::vector<int> cfgs; std::vector<std::string> names; std::vector<std::map<std::string, std::string>> val((size_t)n); std::vector<std::string> before((size_t)n);
  int first = -1;
  for (int i = 0; i < n; i++) {
    cfgs.push_back(100 + i * 3);
    bool na = n > 1 && r.chance(15) && !(i == n - 1 && first < 0);
    std::string p = dir + "/s" + std::to_string(i);
    unlink(p.c_str());
    if (na) { names.push_back("N/A"); continue; }
    if (first < 0) first = i;
    names.push_back(p);
    ConfDataStoreDB<K, D> s;
    s.setPageSize(std::vector<unsigned>{512, 1024, 4096}[r.below(3)]); s.setNumberBuckets((unsigned)r.below(12));
    if (r.chance(50)) s.enablePageMove();
    if (s.open(p, O_RDWR | O_CREAT | O_TRUNC, 0664) != 0) violate("merge", "cannot create a source");
    std::vector<size_t> ord(keys.size()); for (size_t j = 0; j < ord.size(); j++) ord[j] = j;
    for (size_t j = ord.size(); j > 1; j--) std::swap(ord[j - 1], ord[r.below(j)]);
    for (size_t j : ord) { std::string d = Tr<D>::gen(r, kw[j]); val[i][keys[j]] = d; if (s.insert(Tr<K>::make(keys[j]), Tr<D>::make(d)) != 0) violate("merge", "source insert failed"); }
    if (i != first && r.chance(40)) for (int x = 0; x < 3; x++) { std::string k = "extra" + std::to_string(x); s.insert(Tr<K>::make(k), Tr<D>::make(Tr<D>::gen(r, (size_t)width))); }
    if (s.close() != 0) violate("merge", "source close failed");
    if (!slurp(p, before[i])) harness("read");
  }
  for (auto& k : keys) if (k.substr(0, 5) == "extra") return;
  int missing = -1;
  if (r.chance(15)) for (int i = first + 1; i < n; i++) if (names[i] != "N/A") {      // a later source lacks one key
    missing = i;
    size_t skip = r.below(keys.size());
    unlink(names[i].c_str());
    ConfDataStoreDB<K, D> s;
    if (s.open(names[i], O_RDWR | O_CREAT | O_TRUNC, 0664) != 0) violate("merge", "cannot create a source");
    for (size_t j = 0; j < keys.size(); j++) if (j != skip) s.insert(Tr<K>::make(keys[j]), Tr<D>::make(val[i][keys[j]]));
    s.close();
    break;
  }
  if (missing < 0 && n > 1 && r.chance(15)) {             // one store named for two configurations
    int a = (int)r.below((uint64_t)n), b = (int)r.below((uint64_t)n);
    if (b < a) std::swap(a, b);
    if (a != b && names[a] != "N/A" && (names[b] != "N/A" || b > first)) { names[b] = names[a]; val[b] = val[a]; before[b] = before[a]; count("merge_same_store"); }
  }
  std::string out = dir + "/all";
  unlink(out.c_str());
  unsigned per = 0; { std::string k = Tr<K>::ser(keys[0]), d = Tr<D>::ser(val[first][keys[0]]); per = (unsigned)((k.size() + d.size()) * (size_t)n); }
  unsigned mem;
  switch (r.below(6)) { case 0: mem = 1; break; case 1: mem = per; break; case 2: mem = per * (1 + (unsigned)r.below(10)); break; case 3: mem = per * (unsigned)keys.size(); break; case 4: mem = (unsigned)r.below(per * keys.size() + 10); break; default: mem = 100000000; }
  bool withnames = r.chance(70), byinfo = r.chance(40);
  note("merge %d configurations %zu keys memory %u per record %u missing %d", n, keys.size(), mem, per, missing);
  auto domerge = [&](AllConfStoreDB<K, D>& all) {
    if (byinfo) {
      std::vector<ConfigInfo> cc;
      for (int i = 0; i < n; i++) { ConfigInfo c; c.configNumber(cfgs[i]); c.index(i); c.type(0); if (names[i] != "N/A") c.urlname(names[i]); cc.push_back(c); }
      if (n > 1 && r.chance(50)) {                        // any order; the store that gives the keys stays the first one named
        for (size_t j = cc.size(); j > 1; j--) std::swap(cc[j - 1], cc[r.below(j)]);
        size_t a = 0, b = 0; while (cc[a].urlname().empty()) a++; while (cc[b].index() != first) b++;
        std::swap(cc[a], cc[b]); count("merge_any_order");
      }
      ConfDataDBMerger<K, D> mg(cc, mem); mg.setDatabaseHandle(&all); mg.merge();
    } else { ConfDataDBMerger<K, D> mg(cfgs, names, mem); mg.setDatabaseHandle(&all); mg.merge(); }
  };
  auto setup = [&](AllConfStoreDB<K, D>& all) {
    all.setPageSize(std::vector<unsigned>{512, 2048, 8192}[r.below(3)]); all.setNumberBuckets((unsigned)r.below(20));
    if (r.chance(50)) all.enablePageMove();
    if (r.chance(40)) all.setCacheSize(1 + (unsigned)r.below(100000));
    if (all.open(out, O_RDWR | O_CREAT | O_TRUNC, 0664) != 0) violate("merge", "cannot create the ensemble");
  };
  if (missing >= 0) {
    fflush(stdout);
    pid_t p = fork();
    if (p < 0) harness("fork");
    if (p == 0) { AllConfStoreDB<K, D>* all = new AllConfStoreDB<K, D>(cfgs); setup(*all); domerge(*all); _exit(55); }
    int s;
    if (waitpid(p, &s, 0) != p) harness("wait");
    if (WIFSIGNALED(s) || WEXITSTATUS(s) == 99) violate("merge", "merge with a key missing in one store crashed");
    if (WEXITSTATUS(s) == 55) violate("merge", "merge with a key missing in one store passed for complete");
    count("merge_missing");
    signature("merge/missing");
    return;
  }
  long t0 = time(nullptr);
  {
    AllConfStoreDB<K, D>* all = withnames ? new AllConfStoreDB<K, D>(cfgs, names) : new AllConfStoreDB<K, D>(cfgs);
    setup(*all);
    domerge(*all);
    if (r.chance(50) && all->close() != 0) violate("merge", "close of the merged store failed");
    delete all;
  }
  long t1 = time(nullptr);
  bool anyna = false;
  for (int i = 0; i < n; i++) anyna |= names[i] == "N/A";
  AllConfStoreDB<K, D> all;
  if (all.open(out, O_RDONLY, 0400) != 0) violate("merge", "cannot open the merged store");
  std::vector<std::string> bk;
  all.binaryKeys(bk);
  if (bk.size() != keys.size()) violate("merge", "merged store has %zu keys, first source has %zu", bk.size(), keys.size());
  for (size_t j = 0; j < keys.size(); j++) {
    std::string whole, got, ks = Tr<K>::ser(keys[j]);
    size_t w = Tr<D>::ser(val[first][keys[j]]).size();
    if (all.getBinary(ks, got) != 0) violate("merge", "key %s is missing in the merged store", show(ks).c_str());
    if (got.size() != w * (size_t)n) violate("merge", "merged record of key %s has %zu bytes, expected %d elements of %zu", show(ks).c_str(), got.size(), n, w);
    for (int i = 0; i < n; i++) if (names[i] != "N/A" && got.compare((size_t)i * w, w, Tr<D>::ser(val[i][keys[j]])) != 0) violate("merge", "merged record of key %s: element of configuration %d is not the one of its store", show(ks).c_str(), i);
    if (!varsize && !anyna) {
      std::vector<D> v;
      if (all.get(Tr<K>::make(keys[j]), v) != 0 || (int)v.size() != n) violate("merge", "typed get of a merged record failed");
      for (int i = 0; i < n; i++) if (Tr<D>::str(v[i]) != val[i][keys[j]]) violate("merge", "typed get of a merged record: element %d differs", i);
    }
    count("merged_records");
  }
  std::vector<ConfigInfo> ci;
  if (all.getAllConfigInfo(ci) != 0 || (int)ci.size() != n) violate("merge", "configuration list of the merged store has %zu entries", ci.size());
  for (int i = 0; i < n; i++) {
    bool na = names[i] == "N/A";
    if (ci[i].configNumber() != cfgs[i] || ci[i].index() != i) violate("merge", "configuration %d is listed as number %d index %d", i, ci[i].configNumber(), ci[i].index());
    if (ci[i].inserted() != (na ? 0 : 1)) violate("merge", "configuration %d inserted flag is %d", i, ci[i].inserted());
    if (!na && (ci[i].urlname() != names[i] || ci[i].modifiedTime() < t0 - 2 || ci[i].modifiedTime() > t1 + 2)) violate("merge", "configuration %d: name %s time %d", i, ci[i].urlname().c_str(), ci[i].modifiedTime());
    std::string now;
    if (!na) { if (!slurp(names[i], now)) violate("merge", "source %d is gone", i); if (now != before[i]) violate("merge", "source %d was modified by the merge", i); }
  }
  unsigned chunk = per ? mem / per : 0;
  signature(std::string("merge/") + Tr<K>::name() + "/" + Tr<D>::name() + "/n" + std::to_string(n) + (chunk == 0 ? "/below-one" : chunk >= keys.size() ? "/one-pass" : keys.size() % chunk ? "/partial-last" : "/even") + (anyna ? "/skipped" : "") + (varsize ? "/varsize" : ""));
}

static void p_multi(Rng& r, const std::string& dir) {
  int nf = 1 + (int)r.below(5);
  std::vector<std::string> files, pool; std::vector<std::map<std::string, std::string>> m((size_t)nf); std::vector<std::string> ui((size_t)nf);
  for (int i = 0; i < 10 + (int)r.below(30); i++) pool.push_back(randkey(r, false));
  int n = 1 + (int)r.below(5), w = 1 + (int)r.below(30);
  bool ens = r.chance(50);
  std::vector<int> cfgs; for (int i = 0; i < n; i++) cfgs.push_back(i);
  std::vector<std::map<std::string, std::vector<std::string>>> em((size_t)nf);
  note("multi %d files ensemble %d", nf, ens);
  for (int f = 0; f < nf; f++) {
    std::string p = dir + "/m" + std::to_string(f);
    unlink(p.c_str());
    files.push_back(p);
  }
  {
    ConfDataStoreMultipleDB<StringKey, UserData> a; AllConfStoreMultipleDB<StringKey, UserData> b;
    if (a.fileExists(files) || b.fileExists(files)) violate("multi", "fileExists of missing files");
    if (a.open(files) == 0 || b.open(files) == 0) violate("multi", "open of missing files succeeded");
    UserData d;
    if (a.get(StringKey("x"), d) == 0 || a.exist(StringKey("x"))) violate("multi", "lookup succeeded after a failed open");
  }
  for (int f = 0; f < nf; f++) {
    ui[f] = "user" + std::to_string(f);
    if (!ens) {
      ConfDataStoreDB<StringKey, UserData> s; s.setPageSize(512);
      if (s.open(files[f], O_RDWR | O_CREAT, 0664) != 0) violate("multi", "create");
      for (auto& k : pool) if (r.chance(50)) { std::string d = bytes(r, r.below(60)); if (m[f].count(k)) continue; m[f][k] = d; if (s.insert(StringKey(k), UserData(d)) != 0) violate("multi", "insert"); note("file %d key %s", f, show(k).c_str()); }
      s.insertUserdata(ui[f]);
    } else {
      AllConfStoreDB<StringKey, UserData> s(cfgs); s.setPageSize(512);
      if (s.open(files[f], O_RDWR | O_CREAT, 0664) != 0) violate("multi", "create");
      std::vector<UserData> v0; for (int i = 0; i < n; i++) v0.push_back(UserData(bytes(r, (size_t)w)));
      std::string k0 = "always" + std::to_string(f); if (s.insert(StringKey(k0), v0) != 0) violate("multi", "insert");
      for (auto& x : v0) em[f][k0].push_back((std::string)x);
      for (auto& k : pool) if (r.chance(50) && !em[f].count(k)) { std::vector<UserData> v; for (int i = 0; i < n; i++) { std::string e = bytes(r, (size_t)w); em[f][k].push_back(e); v.push_back(UserData(e)); } if (s.insert(StringKey(k), v) != 0) violate("multi", "insert"); note("file %d key %s", f, show(k).c_str()); }
      s.insertUserdata(ui[f]);
    }
  }
  for (int f = 0; f < nf; f++) pool.push_back("always" + std::to_string(f));
  pool.push_back("never stored");
  if (!ens) {
    ConfDataStoreMultipleDB<StringKey, UserData> a;
    if (!a.fileExists(files)) violate("multi", "fileExists is false for existing files");
    { auto g = files; g.push_back(dir + "/nofile"); if (a.fileExists(g)) violate("multi", "fileExists with one missing file"); }
    if (a.open(files) != 0) violate("multi", "open failed");
    for (auto& k : pool) {
      int f = 0; while (f < nf && !m[f].count(k)) f++;
      UserData d("sentinel"); std::string b = "sentinel", ks = Tr<StringKey>::ser(k);
      int rc = a.get(StringKey(k), d), rb = a.getBinary(ks, b); bool e = a.exist(StringKey(k));
      if (e != (f < nf) || (rc == 0) != e || (rb == 0) != e) violate("multi", "key %s: exist %d get %d binary %d, first file %d of %d", show(k).c_str(), e, rc, rb, f, nf);
      if (e && ((std::string)d != m[f][k] || b != Tr<UserData>::ser(m[f][k]))) violate("multi", "key %s not answered from file %d, the first that has it", show(k).c_str(), f);
      if (!e && ((std::string)d != "sentinel" || b != "sentinel")) violate("multi", "lookup of an absent key changed the output");
      count("multi_lookups");
    }
    std::vector<StringKey> ks; a.keys(ks);
    std::multiset<std::string> got, want; for (auto& k : ks) got.insert((std::string)k); for (auto& x : m) for (auto& k : x) want.insert(k.first);
    if (got != want) violate("multi", "keys of all files: %zu, expected %zu", got.size(), want.size());
    std::string u; if (a.getUserdata(u) != 0 || u != ui[0]) violate("multi", "user data is not the first file's");
    if (r.chance(50) && a.close() != 0) violate("multi", "close failed");
  } else {
    AllConfStoreMultipleDB<StringKey, UserData> a;
    if (!a.fileExists(files)) violate("multi", "fileExists is false for existing files");
    { auto g = files; g.push_back(dir + "/nofile"); if (a.fileExists(g)) violate("multi", "fileExists with one missing file"); }
    if (a.open(files) != 0) violate("multi", "open failed");
    if (a.size() != n || (int)a.getMaxNumberConfigs() != n) violate("multi", "size %d, expected %d", a.size(), n);
    for (auto& k : pool) {
      int f = 0; while (f < nf && !em[f].count(k)) f++;
      std::vector<UserData> v;
      int rc = a.get(StringKey(k), v); bool e = a.exist(StringKey(k));
      if (e != (f < nf) || (rc == 0) != e) violate("multi", "ensemble key %s: exist %d get %d, first file %d of %d", show(k).c_str(), e, rc, f, nf);
      if (e) { if ((int)v.size() != n) violate("multi", "%zu elements", v.size()); for (int i = 0; i < n; i++) if ((std::string)v[i] != em[f][k][i]) violate("multi", "ensemble key %s not answered from the first file that has it", show(k).c_str()); }
      else if (v.size()) violate("multi", "lookup of an absent key changed the output");
      count("multi_lookups");
    }
    std::string u; if (a.getUserdata(u) != 0 || u != ui[0]) violate("multi", "user data is not the first file's");
    if (r.chance(50) && a.close() != 0) violate("multi", "close failed");
  }
  signature(std::string("multi/") + (ens ? "ens" : "conf") + "/" + std::to_string(nf));
}

// ---- serialisation and helpers --------------------------------------------------------------------------------
template <class T> static void roundtrip(Rng& r, const std::string& s, const std::string& s2) {
  T a = Tr<T>::make(s), b = Tr<T>::make(s2), c = Tr<T>::make(s);
  std::string o = "previous contents", o2;
  a.writeObject(o); b.writeObject(o2);
  if (o != Tr<T>::ser(s)) violate("serial", "%s %s serialises to %s, the format is %s", Tr<T>::name(), show(s).c_str(), show(o).c_str(), show(Tr<T>::ser(s)).c_str());
  if ((o == o2) != (s == s2)) violate("serial", "%s: equality of objects and of their forms disagree", Tr<T>::name());
  T back = Tr<T>::make(s2);
  back.readObject(o);
  if (Tr<T>::str(back) != s) violate("serial", "%s %s reads back as %s", Tr<T>::name(), show(s).c_str(), show(Tr<T>::str(back)).c_str());
  T copy(a), asg = Tr<T>::make(s2); asg = a; asg = *&asg;
  if (Tr<T>::str(copy) != s || Tr<T>::str(asg) != s) violate("serial", "%s: copy or assignment differs", Tr<T>::name());
  count("roundtrips");
  // malformed input
  size_t hdr = std::is_same<T, VFloatData>::value ? 8 : 4;
  for (int i = 0; i < 12; i++) {
    std::string bad = o; const char* how;
    bool must = true;
    switch (r.below(4)) {
      case 0: bad.resize(r.below(hdr)); how = "short header"; break;
      case 1: { size_t p = hdr == 8 ? r.below(2) : r.below(4); bad[p] = (char)(bad[p] ^ (1 + r.below(255))); how = "wrong magic or type id"; break; }
      case 2: if (hdr == 8) { if (r.chance(50) || bad.size() == 8) bad += bytes(r, 1 + r.below(9)); else bad.resize(8 + r.below(bad.size() - 8)); } else { std::swap(bad[0], bad[1]); } how = "wrong length or swapped bytes"; break;
      default: if (hdr == 8) { bad[4 + r.below(4)] ^= (char)(1 + r.below(255)); how = "wrong count"; } else { bad = Tr<T>::ser(s).substr(2); if (bad.substr(0, 4) == Tr<T>::ser("").substr(0, 4)) must = false; how = "header shifted"; }
    }
    T t = Tr<T>::make(s2);
    Exact e(bad);
    bool threw = false;
    try { t.readObject(std::string(e.p, e.n)); } catch (SerializeException& x) { threw = true; if (!x.what() || !*x.what()) violate("serial", "exception without a reason"); }
    if (must && !threw) violate("serial", "%s accepted input with %s: %s", Tr<T>::name(), how, show(bad).c_str());
    if (threw && Tr<T>::str(t) != s2) violate("serial", "%s: rejected input changed the object", Tr<T>::name());
    count("malformed");
    signature(std::string("serial/") + Tr<T>::name() + "/" + how);
  }
}
static unsigned ref_crc(const std::string& s, unsigned crc) {
  crc = ~crc;
  for (unsigned char c : s) { crc ^= c; for (int k = 0; k < 8; k++) crc = (crc >> 1) ^ ((crc & 1) ? 0xEDB88320u : 0); }
  return ~crc;
}
static void helpers(Rng& r) {
  crc32_init();
  for (int i = 0; i < 200; i++) {
    unsigned long v = r.next(); if (r.chance(20)) v = 1ul << r.below(64); unsigned u = (unsigned)v; unsigned short h = (unsigned short)v;
    if (hton_short(h) != __builtin_bswap16(h) || ntoh_short(h) != __builtin_bswap16(h)) violate("helpers", "16 bit byte order of %x", h);
    if (hton_int(u) != __builtin_bswap32(u) || ntoh_int(u) != __builtin_bswap32(u)) violate("helpers", "32 bit byte order of %x", u);
    if (hton_long(v) != __builtin_bswap64(v) || ntoh_long(v) != __builtin_bswap64(v)) violate("helpers", "64 bit byte order of %lx", v);
    if (itostr((int)u) != std::to_string((int)u)) violate("helpers", "itostr(%d)", (int)u);
    count("helper_calls", 7);
  }
  for (int i = 0; i < 40; i++) {
    std::string s = bytes(r, r.below(r.chance(20) ? 3000 : 60));
    Exact e(s);
    size_t cut = r.below(s.size() + 1);
    unsigned c1 = crc32(9, e.p, (unsigned)s.size()), want = ref_crc(s, 9);
    if (c1 != want) violate("helpers", "crc32 of %s is %x, expected %x", show(s).c_str(), c1, want);
    if (crc32(crc32(9, e.p, (unsigned)cut), e.p + cut, (unsigned)(s.size() - cut)) != want) violate("helpers", "chained crc32 differs");
    // the published definitions of the general purpose hash functions, over signed bytes
    unsigned n = (unsigned)s.size(), x; const signed char* p = (const signed char*)s.data();
    auto chk = [&](const char* nm, unsigned got, unsigned exp) { if (got != exp) violate("helpers", "%s of %s is %x, expected %x", nm, show(s).c_str(), got, exp); count("helper_calls"); };
    { unsigned a = 63689, h = 0; for (x = 0; x < n; x++) { h = h * a + (unsigned)p[x]; a *= 378551u; } chk("RSHash", RSHash(e.p, n), h); }
    { unsigned h = 1315423911u; for (x = 0; x < n; x++) h ^= (h << 5) + (unsigned)p[x] + (h >> 2); chk("JSHash", JSHash(e.p, n), h); }
    { unsigned h = 0, t; for (x = 0; x < n; x++) { h = (h << 4) + (unsigned)p[x]; t = h & 0xf0000000u; if (t) h = (h ^ (t >> 24)) & 0x0fffffffu; } chk("PJWHash", PJWHash(e.p, n), h); }
    { unsigned h = 0, t; for (x = 0; x < n; x++) { h = (h << 4) + (unsigned)p[x]; t = h & 0xf0000000u; h ^= t >> 24; h &= ~t; } chk("ELFHash", ELFHash(e.p, n), h); }
    { unsigned h = 0; for (x = 0; x < n; x++) h = h * 131u + (unsigned)p[x]; chk("BKDRHash", BKDRHash(e.p, n), h); }
    { unsigned h = 0; for (x = 0; x < n; x++) h = (unsigned)p[x] + h * 65599u; chk("SDBMHash", SDBMHash(e.p, n), h); }
    { unsigned h = 5381; for (x = 0; x < n; x++) h = h * 33u + (unsigned)p[x]; chk("DJBHash", DJBHash(e.p, n), h); }
    { unsigned h = n; for (x = 0; x < n; x++) h = (h << 5) ^ (h >> 27) ^ (unsigned)p[x]; chk("DEKHash", DEKHash(e.p, n), h); }
    { unsigned h = 0; for (x = 0; x < n; x++) h = (h * 128u) ^ (unsigned)p[x]; chk("BPHash", BPHash(e.p, n), h); }
    { unsigned h = 0; for (x = 0; x < n; x++) h = (h * 0x811C9DC5u) ^ (unsigned)p[x]; chk("FNVHash", FNVHash(e.p, n), h); }
    { unsigned h = 0xAAAAAAAAu; for (x = 0; x < n; x++) h ^= (x & 1) ? ~((h << 11) ^ (unsigned)p[x] ^ (h >> 5)) : ((h << 7) ^ (unsigned)p[x] ^ (h >> 3)); chk("APHash", APHash(e.p, n), h); }
    { unsigned h = 0; for (x = 0; x < n; x++) h = (h * 16777619u) ^ (unsigned)p[x]; chk("db_hash_func", db_hash_func(e.p, n), h); }
  }
}
static void p_serial(Rng& r) {
  size_t n = r.chance(15) ? 0 : r.chance(15) ? r.below(20000) : r.below(40);
  std::string a = bytes(r, n), b;
  if (r.chance(30)) { b = a; if (b.size()) b[r.below(b.size())] ^= 1; else b = "x"; } else if (r.chance(30)) b = a + std::string(1, '\0'); else b = bytes(r, r.below(40));
  if (r.chance(20)) a += Tr<StringKey>::ser("nested");
  note("serial %s %s", show(a).c_str(), show(b).c_str());
  roundtrip<StringKey>(r, a, b);
  roundtrip<UserData>(r, a, b);
  { StringKey k1(a), k2(b), k3(a); UserData d1(a), d2(b), d3(a), d4(a.data(), (long)a.size());
    if (!(k1 == k3) || (k1 != k3) || (k1 == k2) != (a == b) || (k1 != k2) != (a != b)) violate("serial", "StringKey comparison");
    if (!(d1 == d3) || (d1 != d3) || (d1 == d2) != (a == b) || (d1 != d2) != (a != b) || d1 != d4) violate("serial", "UserData comparison");
    k2 = a; d2 = a; if (k2 != k1 || d2 != d1) violate("serial", "assignment from a string"); }
  std::string fa = a, fb = b; fa.resize(fa.size() / 4 * 4); fb.resize(fb.size() / 4 * 4);
  roundtrip<VFloatData>(r, fa, fb);
  { // comparison as of the floats themselves
    std::vector<float> x(fa.size() / 4), y(fb.size() / 4);
    if (x.size()) memcpy(&x[0], fa.data(), fa.size()); 
    if (y.size()) memcpy(&y[0], fb.data(), fb.size());
    VFloatData v1 = Tr<VFloatData>::make(fa), v2 = Tr<VFloatData>::make(fb), v3 = Tr<VFloatData>::make(fa);
    if ((v1 == v3) != (x == x) || (v1 != v3) == (x == x) || (v1 == v2) != (x == y) || (v1 != v2) == (x == y)) violate("serial", "VFloatData comparison");
    if (v1.numberOfElements() != (int)x.size() || v2.numberOfElements() != (int)y.size()) violate("serial", "VFloatData size");
  }
  { // names of folders, and what a configuration record prints
    std::string d = r.chance(30) ? "" : "dir" + std::to_string(r.below(9)) + (r.chance(30) ? "/sub" : ""), f = "file" + std::to_string(r.below(9));
    if (unixDirectoryName(d.empty() ? f : d + "/" + f) != d) violate("helpers", "unixDirectoryName of a file in [%s]", d.c_str());
    ConfigInfo c; c.configNumber((int)r.below(100000)); c.index((int)r.below(1000)); c.insert(r.chance(50)); c.modifiedTime((int)r.next()); c.urlname("url" + std::to_string(r.below(1000)));
    std::ostringstream o; o << c;
    if (o.str().compare(0, itostr(c.configNumber()).size() + 1, itostr(c.configNumber()) + " ") || (o.str().find(c.urlname()) != std::string::npos) != (c.inserted() != 0)) violate("helpers", "printed configuration: %s", o.str().c_str());
  }
  helpers(r);
  for (int i = 0; i < 12; i++) stats().ops++;
}

// user info of any bytes through a store class: short sessions, mostly user info, some pairs beside it
static std::string uinfo_bytes(Rng& r, unsigned mx) {
  std::string u = bytes(r, r.chance(15) ? mx : r.chance(10) ? 0 : r.chance(40) ? r.below(std::min(mx, 20u) + 1) : r.below(mx + 1));
  switch (r.below(5)) {                                    // where a careless string function would stop, or a careless copy add something
    case 0: if (u.size()) u[u.size() - 1] = 0; break;
    case 1: if (u.size()) u[0] = 0; break;
    case 2: if (u.size()) u[r.below(u.size())] = 0; break;
    case 3: for (auto& c : u) if (!c) c = 'z'; break;
    default: break;
  }
  return u;
}
template <class S, class MK, class PUT, class GET>
static void p_uinfo(Rng& r, const std::string& path, const char* what, MK mk, PUT put, GET get) {
  unsigned bsize = 512u << r.below(4), ulen = r.chance(20) ? (unsigned)r.below(3) : r.chance(50) ? (unsigned)r.below(200) : (unsigned)r.below(6000);
  std::map<std::string, std::string> m; std::string uinfo; bool uset = false;
  note("uinfo %s page %u length %u", what, bsize, ulen);
  signature(std::string("uinfo/") + what + "/" + (ulen + 1 > bsize - 100 ? "pages" : "one"));
  int sessions = 2 + (int)r.below(4);
  for (int s = 0; s < sessions; s++) {
    std::unique_ptr<S> st(mk(s == 0));
    bool ro = s && r.chance(25);
    st->setCacheSize(r.chance(40) ? 1 : bsize * (1 + (unsigned)r.below(30)));
    if (s == 0) { st->setPageSize(bsize); st->setMaxUserInfoLen(ulen); }
    else if (r.chance(30)) st->setMaxUserInfoLen((unsigned)r.below(9000));      // not consulted for a file that exists
    note("session %d ro %d", s, ro);
    if (st->open(path, ro ? O_RDONLY : s ? O_RDWR : O_RDWR | O_CREAT, 0664) != 0) violate("uinfo", "%s: open failed in session %d", what, s);
    unsigned mx = st->getMaxUserInfoLen();
    if (mx != ulen + 1) violate("uinfo", "%s: maximum user info length is %u in session %d, requested %u (+1)", what, mx, s, ulen);
    auto look = [&](const char* when) {
      std::string g = "sentinel";
      if (st->getUserdata(g) != 0) violate("uinfo", "%s: getUserdata failed (%s)", what, when);
      if (uset && g != uinfo) violate("uinfo", "%s: user info reads back as %zu bytes %s, set to %zu bytes %s (%s)", what, g.size(), show(g).c_str(), uinfo.size(), show(uinfo).c_str(), when);
      count("uinfo_reads");
    };
    look("after open");
    if (s == 0) { m["first"] = bytes(r, 12); if (!put(*st, "first", m["first"])) violate("uinfo", "%s: pair refused", what); }   // an ensemble without records is not reopened without its list
    for (int i = 0, n = 4 + (int)r.below(12); i < n; i++) {
      stats().ops++;
      if (r.chance(45)) {
        bool big = r.chance(8);
        std::string u = big ? bytes(r, mx + 1 + r.below(300)) : uinfo_bytes(r, mx);
        int rc = st->insertUserdata(u);
        note("userdata %zu -> %d", u.size(), rc);
        if ((rc != 0) != (ro || big)) violate("uinfo", "%s: user info of %zu bytes (maximum %u, read-only %d) returned %d", what, u.size(), mx, ro, rc);
        if (rc == 0) { uinfo = u; uset = true; count("uinfo_writes"); }
        look("after a write");
      } else if (!ro && r.chance(60)) {
        std::string k = randkey(r, false), d = bytes(r, 12);
        note("pair %s", show(k).c_str());
        if (put(*st, k, d)) m[k] = d; else violate("uinfo", "%s: pair refused", what);
      } else if (r.chance(30)) { st->flush(); look("after flush"); }
      else look("session");
    }
    for (auto& e : m) if (!get(*st, e.first, e.second)) violate("uinfo", "%s: pair %s lost or changed beside the user info", what, show(e.first).c_str());
    if (r.chance(70) && st->close() != 0) violate("uinfo", "%s: close failed", what);
  }
}
static void p_uinfo_any(Rng& r, const std::string& path, long n) {
  typedef ConfDataStoreDB<StringKey, UserData> A; typedef ConfDataStoreDBSimple B; typedef AllConfStoreDB<StringKey, UserData> C;
  int nc = 1 + (int)r.below(6);
  switch (n % 3) {
    case 0: p_uinfo<A>(r, path, "typed", [](bool) { return new A; },
      [](A& s, const std::string& k, const std::string& d) { return s.insert(StringKey(k), UserData(d)) == 0; },
      [](A& s, const std::string& k, const std::string& d) { UserData g; return s.get(StringKey(k), g) == 0 && (std::string)g == d; }); break;
    case 1: p_uinfo<B>(r, path, "simple", [](bool) { return new B; },
      [](B& s, const std::string& k, const std::string& d) { return s.insert<StringKey, UserData>(StringKey(k), UserData(d)) == 0; },
      [](B& s, const std::string& k, const std::string& d) { UserData g; return s.get<StringKey, UserData>(StringKey(k), g) == 0 && (std::string)g == d; }); break;
    default: p_uinfo<C>(r, path, "ensemble", [nc](bool first) { std::vector<int> c; for (int i = 0; i < nc; i++) c.push_back(i); return first ? new C(c) : new C; },
      [nc](C& s, const std::string& k, const std::string& d) { std::vector<UserData> v((size_t)nc, UserData(d)); return s.insert(StringKey(k), v) == 0; },
      [nc](C& s, const std::string& k, const std::string& d) { std::vector<UserData> v; if (s.get(StringKey(k), v) != 0 || (int)v.size() != nc) return false; for (auto& x : v) if ((std::string)x != d) return false; return true; }); break;
  }
}

// descriptors of files in the scratch folder (the sanitizer runtime opens files of its own at any time)
static int open_fds(const std::string& dir) {
  int n = 0; char b[4096];
  for (int i = 0; i < 256; i++) { std::string l = "/proc/self/fd/" + std::to_string(i); ssize_t k = readlink(l.c_str(), b, sizeof b); if (k > 0 && std::string(b, (size_t)k).compare(0, dir.size(), dir) == 0) n++; }
  return n;
}
int main(int argc, char** argv) {
  return harness_main(argc, argv, [](const Args& A, long n, uint64_t cs) {
    Rng r(cs);
    std::string path = A.dir + "/db";
    unlink(path.c_str());
    int fds = open_fds(A.dir);
    Fixed::width() = 8 + (int)r.below(40);
    int ops = 30 + (int)r.below(250) * A.scale;
    size_t pairs = 5;
    std::string p = A.profile;
    if (p == "typed") {
      switch (n % 5) {
        case 0: case 1: { Typed<ConfDataStoreDB<StringKey, UserData>, StringKey, UserData, true> t(cs, path); t.run(ops); pairs = t.m.size(); break; }
        case 2: { Typed<ConfDataStoreDB<FoldKey, UserData>, FoldKey, UserData, true> t(cs, path); t.run(ops); pairs = t.m.size(); break; }
        case 3: { Typed<ConfDataStoreDB<StringKey, Fixed>, StringKey, Fixed, true> t(cs, path); t.run(ops); pairs = t.m.size(); break; }
        case 4: { Typed<ConfDataStoreDB<StringKey, VFloatData>, StringKey, VFloatData, true> t(cs, path); t.run(ops); pairs = t.m.size(); break; }
      }
    } else if (p == "simple") {
      if (n % 2) { Typed<SimpleAd<StringKey, UserData>, StringKey, UserData, false> t(cs, path); t.run(ops); pairs = t.m.size(); }
      else { Typed<SimpleAd<StringKey, Fixed>, StringKey, Fixed, false> t(cs, path); t.run(ops); pairs = t.m.size(); }
    } else if (p == "ens") {
      switch (n % 4) {
        case 0: case 1: { Ens<StringKey, Fixed> t(cs, path); t.width = Fixed::width(); t.run(ops); pairs = t.m.size(); break; }
        case 2: { Ens<StringKey, UserData> t(cs, path); t.width = r.chance(20) ? 0 : 1 + (int)r.below(50); t.run(ops); pairs = t.m.size(); break; }
        case 3: { Ens<FoldKey, Fixed> t(cs, path); t.width = Fixed::width(); t.run(ops); pairs = t.m.size(); break; }
      }
    } else if (p == "merge") {
      switch (n % 3) { case 0: p_merge<StringKey, UserData>(r, A.dir, n); break; case 1: p_merge<StringKey, Fixed>(r, A.dir, n); break; case 2: p_merge<FoldKey, Fixed>(r, A.dir, n); break; }
      stats().ops += 20;
    } else if (p == "multi") p_multi(r, A.dir);
    else if (p == "uinfo") p_uinfo_any(r, path, n);
    else if (p == "serial") p_serial(r);
    else harness("unknown profile %s", p.c_str());
    if (n - A.from < 1) sample(p + " case " + std::to_string(n) + ": " + std::to_string(stats().ops) + " operations");
    case_end(pairs >= 3 && stats().ops >= 10);
    unlink(path.c_str());
    if (open_fds(A.dir) != fds) violate("fd", "%d descriptors open before, %d after everything was closed", fds, open_fds(A.dir));
  });
}
