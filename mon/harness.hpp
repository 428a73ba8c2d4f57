// Common command line of the harness binaries.
#pragma once
#include "mon.hpp"
#include <functional>
struct Args { std::string profile, dir = ".", progress; uint64_t seed = 1; long from = 0, to = 1; int scale = 1; };
inline int harness_main(int argc, char** argv, std::function<void(const Args&, long, uint64_t)> f) {
  using namespace mon;
  Args A;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto v = [&]() { if (i + 1 >= argc) harness("missing value for %s", a.c_str()); return std::string(argv[++i]); };
    if (a == "--profile") A.profile = v(); else if (a == "--seed") A.seed = strtoull(v().c_str(), 0, 10); else if (a == "--from") A.from = atol(v().c_str());
    else if (a == "--to") A.to = atol(v().c_str()); else if (a == "--dir") A.dir = v(); else if (a == "--stats") statpath() = v(); else if (a == "--progress") A.progress = v();
    else if (a == "--trace") tracing() = true; else if (a == "--scale") A.scale = atoi(v().c_str()); else harness("unknown argument %s", a.c_str());
  }
  int pf = A.progress.empty() ? -1 : open(A.progress.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_CLOEXEC, 0644);
  for (long n = A.from; n < A.to; n++) {
    if (pf >= 0) { char b[32]; int l = snprintf(b, sizeof b, "%-20ld\n", n); if (pwrite(pf, b, (size_t)l, 0) != l) harness("progress"); }
    uint64_t cs = mix(mix(A.seed, (uint64_t)n), std::hash<std::string>()(A.profile) & 0xffff);
    case_begin();
    f(A, n, cs);
  }
  dump_stats();
  printf("DONE\n");
  return 0;
}
