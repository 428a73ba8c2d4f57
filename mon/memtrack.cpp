// Allocation monitor: the library is compiled with -Dmalloc=mon_malloc etc., so the bytes the
// library holds are known at every moment. Blocks from allocators not listed here are simply not counted.
#include <stdlib.h>
#include <string.h>
#include <unordered_map>
static std::unordered_map<void*, size_t>& tab() { static auto* t = new std::unordered_map<void*, size_t>; return *t; }
static size_t live_bytes, live_blocks, peak_blocks;
static void* add(void* p, size_t n) { if (p) { tab()[p] = n; live_bytes += n; live_blocks++; if (live_blocks > peak_blocks) peak_blocks = live_blocks; } return p; }
static void del(void* p) { auto it = tab().find(p); if (it != tab().end()) { live_bytes -= it->second; live_blocks--; tab().erase(it); } }
extern "C" {
void* mon_malloc(size_t n) { return add(malloc(n), n); }
void* mon_calloc(size_t a, size_t b) { return add(calloc(a, b), a * b); }
void* mon_realloc(void* p, size_t n) { del(p); return add(realloc(p, n), n); }
void mon_free(void* p) { del(p); free(p); }
char* mon_strdup(const char* s) { char* p = strdup(s); add(p, strlen(s) + 1); return p; }
size_t mon_live_bytes() { return live_bytes; }
size_t mon_live_blocks() { return live_blocks; }
}
