// Heap monitor: interposes malloc & co in this executable (so operator new too), counting calls and live bytes.
#pragma once
#include <cstddef>
#include <malloc.h>
#include <atomic>
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t,size_t); void* __libc_realloc(void*,size_t); void* __libc_memalign(size_t,size_t); }
namespace heapmon {
static std::atomic<long> calls, live, peak, frees;
static inline void add(void* p) { if (!p) return; calls++; long n = live += (long)malloc_usable_size(p); if (n > peak) peak = n; }
static inline void sub(void* p) { if (!p) return; frees++; live -= (long)malloc_usable_size(p); }
static inline void reset_peak() { peak = live.load(); }
}
extern "C" {
void* malloc(size_t n) { void* p = __libc_malloc(n); heapmon::add(p); return p; }
void free(void* p) { heapmon::sub(p); __libc_free(p); }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); heapmon::add(p); return p; }
void* realloc(void* q, size_t n) { heapmon::sub(q); void* p = __libc_realloc(q, n); heapmon::add(p); return p; }
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); heapmon::add(p); return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { *r = memalign(a, n); return *r ? 0 : 12; }
}
