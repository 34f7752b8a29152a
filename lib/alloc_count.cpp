// Counts the bytes requested by the program and not yet released (all threads).
#include <atomic>
#include <cerrno>
#include <cstddef>
#include <cstdint>
#include <cstring>
extern "C" {
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_memalign(size_t, size_t);
static std::atomic<long long> g_live{0}, g_blocks{0};
long long ac_live() { return g_live.load(); }
long long ac_blocks() { return g_blocks.load(); }
struct Hdr { uint64_t size, shift; };
static void *wrap(void *raw, size_t n, size_t shift) { if (!raw) return nullptr; char *p = (char *)raw + shift; Hdr h{n, shift}; memcpy(p - sizeof h, &h, sizeof h); g_live += (long long)n; g_blocks++; return p; }
void *malloc(size_t n) { return wrap(__libc_malloc(n + 16), n, 16); }
void free(void *p) { if (!p) return; Hdr h; memcpy(&h, (char *)p - sizeof h, sizeof h); g_live -= (long long)h.size; g_blocks--; __libc_free((char *)p - h.shift); }
void *calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; void *p = malloc(n); if (p) memset(p, 0, n); return p; }
void *realloc(void *p, size_t n) { if (!p) return malloc(n); Hdr h; memcpy(&h, (char *)p - sizeof h, sizeof h); void *q = malloc(n); if (!q) return nullptr; memcpy(q, p, h.size < n ? h.size : n); free(p); return q; }
void *memalign(size_t al, size_t n) { if (al < 16) al = 16; return wrap(__libc_memalign(al, n + al), n, al); }
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **o, size_t al, size_t n) { void *p = memalign(al, n); if (!p) return ENOMEM; *o = p; return 0; }
void *valloc(size_t n) { return memalign(4096, n); }
size_t malloc_usable_size(void *p) { if (!p) return 0; Hdr h; memcpy(&h, (char *)p - sizeof h, sizeof h); return h.size; }
}
