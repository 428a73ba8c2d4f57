// cxxthreads --profile own|one : typed stores used by several threads. own: every thread constructs, fills, reopens and
// destroys its own stores on its own files; one: threads read through one open typed store. Judged by ThreadSanitizer
// (or ASan) and by comparing every observation with a per-thread or immutable reference map.
#include "types.hpp"
#include "harness.hpp"
#include <thread>
#include <atomic>
using namespace ty;
typedef ConfDataStoreDB<StringKey, UserData> Store;
typedef AllConfStoreDB<StringKey, Fixed> Ens;
typedef std::map<std::string, std::string> M;

static void lookups(Store& st, const M& m, const std::vector<std::string>& ks, Rng& r, int ops, int id) {
  for (int i = 0; i < ops; i++) {
    bool have = ks.size() && r.chance(80);
    std::string k = have ? r.pick(ks) : "absent" + std::to_string(r.next());
    auto it = m.find(k);
    count("thread_gets");
    switch (r.below(4)) {
      case 0: { UserData d; int rc = st.get(StringKey(k), d); if ((rc == 0) != (it != m.end()) || (rc == 0 && Tr<UserData>::str(d) != it->second)) violate("mt-typed", "thread %d: get returned %d or a wrong object", id, rc); break; }
      case 1: { std::string b; int rc = st.getBinary(Tr<StringKey>::ser(k), b); if ((rc == 0) != (it != m.end()) || (rc == 0 && b != Tr<UserData>::ser(it->second))) violate("mt-typed", "thread %d: getBinary returned %d or wrong bytes", id, rc); break; }
      case 2: if (st.exist(StringKey(k)) != (it != m.end())) violate("mt-typed", "thread %d: exist is wrong", id); break;
      case 3: if (r.chance(15)) {
        std::vector<StringKey> kk; std::vector<UserData> dd; st.keysAndData(kk, dd);
        if (kk.size() != m.size() || dd.size() != m.size()) violate("mt-typed", "thread %d: listing gave %zu keys and %zu objects, %zu stored", id, kk.size(), dd.size(), m.size());
        std::set<std::string> seen;
        for (size_t j = 0; j < kk.size(); j++) { std::string s = Tr<StringKey>::str(kk[j]); auto f = m.find(s); if (f == m.end() || !seen.insert(s).second || f->second != Tr<UserData>::str(dd[j])) violate("mt-typed", "thread %d: listing is wrong", id); }
        count("thread_listings");
      }
    }
  }
}
static void fill(Store& st, M& m, std::vector<std::string>& ks, Rng& r, int n) {
  for (int i = 0; i < n; i++) {
    std::string k = randkey(r, false), v = bytes(r, r.chance(10) ? r.below(3000) : r.below(80));
    auto it = m.find(k);
    if (it != m.end()) v.resize(it->second.size());
    if (st.insert(StringKey(k), UserData(v)) != 0) violate("mt-typed", "insert refused");
    if (it == m.end()) ks.push_back(k);
    m[k] = v;
    count("stores");
  }
}
int main(int argc, char** argv) {
  return harness_main(argc, argv, [](const Args& A, long n, uint64_t cs) {
    Rng r(cs);
    int nt = (int)r.range(2, 8);
    Fixed::width() = 16;
    std::atomic<int> gate{0};
    std::vector<std::thread> ts;
    std::vector<Stats> got((size_t)nt);
    auto start = [&](std::function<void(int)> f) {
      for (int i = 0; i < nt; i++) ts.emplace_back([&, i, f] { gate++; while (gate < nt) sched_yield(); f(i); got[(size_t)i] = stats(); });
      for (auto& t : ts) t.join();
      for (auto& s : got) absorb(s);
    };
    note("%s threads %d", A.profile.c_str(), nt);
    size_t pairs = 5;
    if (A.profile == "own") {
      start([&](int i) {
        Rng q(mix(cs, 100 + i));
        std::string p = A.dir + "/o" + std::to_string(i);
        M m; std::vector<std::string> ks;
        Store* st = new Store();
        st->setPageSize(1024); st->setCacheSize(q.chance(50) ? 1 : 20000);
        if (st->open(p, O_RDWR | O_CREAT | O_TRUNC, 0664) != 0) violate("mt-typed", "thread %d: creation failed", i);
        for (int k = 0; k < 2; k++) {
          fill(*st, m, ks, q, 5 + (int)q.below(40));
          lookups(*st, m, ks, q, 20, i);
          delete st; st = new Store();
          if (st->open(p, q.chance(50) || !k ? O_RDWR : O_RDONLY, 0664) != 0) violate("mt-typed", "thread %d: reopen failed", i);
        }
        lookups(*st, m, ks, q, 20, i);
        delete st; unlink(p.c_str());
        std::vector<int> cf; int nc = 1 + (int)q.below(5); for (int c = 0; c < nc; c++) cf.push_back(c * 10);
        Ens* e = new Ens(cf);
        if (e->open(p, O_RDWR | O_CREAT | O_TRUNC, 0664) != 0) violate("mt-typed", "thread %d: ensemble creation failed", i);
        std::map<std::string, std::vector<std::string>> em;
        for (int k = 0; k < 12; k++) {
          std::string key = "k" + std::to_string(q.below(8)); std::vector<Fixed> v; std::vector<std::string> sv;
          for (int c = 0; c < nc; c++) { sv.push_back(Tr<Fixed>::gen(q, 0)); v.push_back(Fixed(sv.back())); }
          if (e->insert(StringKey(key), v) != 0) violate("mt-typed", "thread %d: ensemble insert failed", i);
          em[key] = sv;
        }
        delete e; e = new Ens();
        if (e->open(p, O_RDONLY, 0664) != 0) violate("mt-typed", "thread %d: ensemble reopen failed", i);
        for (auto& x : em) { std::vector<Fixed> v; if (e->get(StringKey(x.first), v) != 0 || (int)v.size() != nc) violate("mt-typed", "thread %d: ensemble get failed", i); for (int c = 0; c < nc; c++) if (v[(size_t)c].s != x.second[(size_t)c]) violate("mt-typed", "thread %d: ensemble element differs", i); count("thread_gets"); }
        delete e; unlink(p.c_str());
        count("own_histories");
      });
    } else if (A.profile == "one") {
      std::string p = A.dir + "/one"; M m; std::vector<std::string> ks;
      Store st; unsigned bs = 512u << r.below(4);
      st.setPageSize(bs); st.setCacheSize(r.chance(50) ? 1 : bs * (1 + (unsigned)r.below(20)));
      if (st.open(p, O_RDWR | O_CREAT | O_TRUNC, 0664) != 0) violate("mt-typed", "creation failed");
      fill(st, m, ks, r, 5 + (int)r.below(120));
      if (r.chance(60)) { st.close(); if (st.open(p, r.chance(50) ? O_RDONLY : O_RDWR, 0664) != 0) violate("mt-typed", "reopen failed"); }
      pairs = m.size();
      start([&](int i) { Rng q(mix(cs, 200 + i)); lookups(st, m, ks, q, 60, i); });
      lookups(st, m, ks, r, 60, -1);
      if (st.close() != 0) violate("mt-typed", "close failed");
      unlink(p.c_str());
    } else harness("unknown profile %s", A.profile.c_str());
    signature(A.profile + " t" + std::to_string(nt));
    stats().ops += 20;
    if (n - A.from < 1) sample(A.profile + " threads " + std::to_string(nt));
    case_end(pairs >= 3);
  });
}
