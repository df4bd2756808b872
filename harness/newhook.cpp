// Accounting of every heap block of the program (operator new and GMP/MPFR) and injected allocation failures.
#include <cstdlib>
#include <new>
#include <gmp.h>
extern "C" {
long verif_blocks = 0; long verif_bytes = 0; long verif_allocs = 0; long verif_fail_at = 0; long verif_peak = 0;
long verif_hook() { return 1; }
}
namespace {
struct Head { size_t n; size_t pad; };
void* get(size_t n) { Head* h = (Head*)std::malloc(n + sizeof(Head)); if (!h) std::abort(); h->n = n; ++verif_blocks; verif_bytes += (long)n; if (verif_bytes > verif_peak) verif_peak = verif_bytes; ++verif_allocs; return h + 1; }
void put(void* p) { if (!p) return; Head* h = (Head*)p - 1; --verif_blocks; verif_bytes -= (long)h->n; std::free(h); }
void* galloc(size_t n) { return get(n); }
void gfree(void* p, size_t) { put(p); }
void* grealloc(void* p, size_t, size_t n) { Head* h = (Head*)p - 1; verif_bytes += (long)n - (long)h->n; h = (Head*)std::realloc(h, n + sizeof(Head)); if (!h) std::abort(); h->n = n; if (verif_bytes > verif_peak) verif_peak = verif_bytes; return h + 1; }
struct Install { Install() { mp_set_memory_functions(galloc, grealloc, gfree); } };
Install const g_install __attribute__((init_priority(101)));
void* throwing(size_t n) { if (verif_fail_at > 0 && --verif_fail_at == 0) throw std::bad_alloc(); return get(n); }
}
void* operator new(size_t n) { return throwing(n); }
void* operator new[](size_t n) { return throwing(n); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { if (verif_fail_at > 0 && --verif_fail_at == 0) return nullptr; return get(n); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { if (verif_fail_at > 0 && --verif_fail_at == 0) return nullptr; return get(n); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
