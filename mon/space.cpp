// space --profile plans|noop : how long the file gets.
//  plans  the same stores are made in one session and under several other plans (sessions, syncs, cache sizes, page moving); lengths are compared
//  noop   sessions that store nothing or only replace values, with page moving switched on and off
#include "hist.hpp"
#include "harness.hpp"
using namespace hist;
typedef std::vector<std::pair<std::string, std::string>> KV;
static KV stores(Session& g, Rng& r, int n) {
  KV kv; std::set<std::string> u;
  for (int i = 0; i < n; i++) { std::string k; do k = g.gen_key(); while (u.count(g.canon(k)) || k.size() > g.maxkey_sure()); u.insert(g.canon(k)); kv.push_back({k, bytes(r, g.gen_len())}); }
  return kv;
}
static long pages(const Session& s) { long l = filesize(s.path); if (l < 0 || l % s.bs()) violate("space", "file length %ld with page size %u", l, s.bs()); return l / s.bs(); }
static uint64_t ideal(const KV& kv, unsigned bs) { uint64_t d = 0; for (auto& p : kv) d += p.second.size() + 20 + p.second.size() / (bs - 52) * 12; return d / (bs - 32) + 1; }
static void account(Session& s, const KV& kv, int mult, const char* when) {
  std::string b; slurp(s.path, b);
  fsck::Result f = fsck::parse(b, s.fh());
  if (!f.ok()) violate("space", "%s: %s", when, f.first().c_str());
  if (f.lost_pages) violate("space", "%s: %u pages are neither in use nor reusable", when, f.lost_pages);
  uint64_t lim = ideal(kv, s.bs()) * 105 / 100 + 4 + f.h.ovfl_point + (mult ? 6 + f.h.ovfl_point + (uint64_t)mult : 0);
  if (f.data_pages > lim) violate("space", "%s: %u data pages, %llu would do", when, f.data_pages, (unsigned long long)lim);
  count("pages_accounted", f.npages);
}
struct Plan { int rearr; unsigned long cache; int sessions, syncs, reads, replaces; };
static long run(Session& s, const Plan& p, const KV& kv, Rng r, int& stops) {
  unlink(s.path.c_str()); s.model.clear(); s.keys.clear(); s.uinfo_set = s.cfgs_set = false; s.uinfo.clear(); s.cfgs.clear();
  s.cfg.rearr = p.rearr; s.cfg.cache = p.cache; stops = 0;
  s.create();
  for (auto& e : kv) {
    s.put(e.first, e.second);
    if ((int)r.below(1000) < p.syncs) { s.sync(false); stops++; }
    if ((int)r.below(1000) < p.sessions) { s.close_db(); s.open_existing(false, p.cache, p.rearr); stops++; }
    if ((int)r.below(1000) < p.reads) s.get_random("space");
    if ((int)r.below(1000) < p.replaces) { auto& m = s.model[s.keys[r.below(s.keys.size())]]; s.put(m.key, bytes(r, m.val.size())); }
    if ((int)r.below(1000) < p.replaces / 10) s.set_uinfo();
  }
  s.verify_all("space");
  s.close_db();
  return pages(s);
}
static void p_plans(Session& s, Rng& r) {
  bool many = r.chance(12);                                   // thousands of short values: what is wasted per page or per value adds up
  if (many) { s.cfg.hashk = 0; s.cfg.bsize = r.chance(70) ? 512 : 1024; s.keystyle = 4; s.valstyle = 2; }
  KV kv = stores(s, r, many ? 3000 + (int)r.below(2000) : (int)r.pick(std::vector<int>{0, 2, 10, 40, 120, 300}));
  int st; unsigned bs = s.bs();
  long l0 = run(s, Plan{0, 0, 0, 0, 0, 0}, kv, r, st); account(s, kv, 0, "one session");
  std::string b; slurp(s.path, b); fsck::Header h; fsck::read_header(b, h); long lv = h.ovfl_point;
  long l1 = run(s, Plan{1, 0, 0, 0, 0, 0}, kv, r, st); account(s, kv, 0, "one session, pages moved");
  if (l1 > l0) violate("space", "moving pages at the close makes the file %ld pages long instead of %ld", l1, l0);
  if (l1 < l0) count("shortened_by_moving");
  if (kv.size() < 2) return;
  if (many) { count("many_short_values"); return; }
  for (int i = 0; i < 4; i++) {
    Plan p; p.rearr = (int)r.below(2); p.cache = r.pick(std::vector<unsigned long>{0, 1, bs, bs * 3ul, bs * 10ul});
    p.sessions = r.pick(std::vector<int>{0, 10, 60, 300, 1000}); p.syncs = r.pick(std::vector<int>{0, 10, 100, 500}); p.reads = (int)r.below(400); p.replaces = r.pick(std::vector<int>{0, 100, 1000});
    if (kv.size() > 150 && p.sessions > 300) p.sessions = 300;
    long l = run(s, p, kv, r, st), base = p.rearr ? l1 : l0;
    long extra = 2 * (lv + 1) + 8;
    if (l > base + extra) violate("space", "%zu stores over %d sessions and syncs (cache %lu, page moving %d) give %ld pages, in one session %ld", kv.size(), st, p.cache, p.rearr, l, base);
    account(s, kv, 2 * (int)lv + 8, "several sessions");
    count("plans"); count("session_ends", (uint64_t)st);
    signature("extra " + std::to_string(l - base) + (p.rearr ? " moved" : " plain"));
  }
}
static void p_noop(Session& s, Rng& r) {
  KV kv = stores(s, r, (int)r.pick(std::vector<int>{0, 1, 5, 30, 100, 200}));
  Plan p{(int)r.below(2), 0, (int)r.below(2) * 50, (int)r.below(2) * 50, 0, 0}; int st;
  long len[2] = {-1, -1}; int was = p.rearr;
  len[was] = run(s, p, kv, r, st);
  std::string before; slurp(s.path, before);
  int rounds = 4 + (int)r.below(6);
  for (int i = 0; i < rounds; i++) {
    int rr = (int)r.below(2), kind = (int)r.below(4), n = 0; bool ro = r.chance(15);
    s.open_existing(ro, s.random_cache(), rr);
    int now = ro ? was : s.rearr_now;
    if (kind & 1) s.verify_session("space");
    if (kind & 2 && !ro && s.keys.size()) { n = 1 + (int)r.below(30); for (int k = 0; k < n; k++) { auto& m = s.model[s.keys[r.below(s.keys.size())]]; s.put(m.key, bytes(r, m.val.size())); if (r.chance(10)) s.sync(false); } }
    if (!ro && r.chance(20)) { s.set_uinfo(); n++; }
    s.close_db();
    long l = pages(s); std::string after; slurp(s.path, after);
    if (ro && before != after) violate("space", "a read-only session changed the file");
    if (len[now] >= 0 && l != len[now]) violate("space", "a session that %s changed the length from %ld to %ld pages (page moving %d)", n ? "only replaced values" : "stored nothing", len[now], l, now);
    len[now] = l; was = now;
    if (len[0] >= 0 && len[1] >= 0 && len[1] > len[0]) violate("space", "moving pages at the close makes the file %ld pages long instead of %ld", len[1], len[0]);
    count("sessions"); if (!n) count("sessions_without_stores"); if (before == after) count("identical_files");
    before = after;
    signature(std::string(ro ? "ro" : n ? "replace" : "nothing") + (now ? " moved" : " plain"));
  }
  account(s, kv, 2 * 20, "after replacing");
}
static void one(const Args& A, long n, uint64_t cs) {
  Rng r(cs); Cfg c = gen_cfg(r, r.chance(80)); std::string path = A.dir + "/sp";
  unlink(path.c_str());
  Session s(path, c, 0, cs); s.keystyle = (int)r.pick(std::vector<int>{0, 0, 1, 2, 3}); s.valstyle = (int)r.below(3); if (s.cfg.nullinfo) s.cfg.nullinfo = false;
  if (n - A.from < 1) sample("profile " + A.profile + " page " + std::to_string(s.bs()));
  if (A.profile == "plans") p_plans(s, r); else if (A.profile == "noop") p_noop(s, r); else harness("unknown profile");
  case_end(stats().ops > 10);
  unlink(path.c_str());
}
int main(int argc, char** argv) { return harness_main(argc, argv, one); }
