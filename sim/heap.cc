// Heap accounting: blocks allocated by the C code under test (and the libraries below it), not by the harness.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <cerrno>
#include <new>
#include <malloc.h>
#include <execinfo.h>
namespace sim {
bool heap_counted = false; long heap_live = 0; int heap_trace = 0;
#if !defined(__SANITIZE_ADDRESS__)
struct Blk { void *p; void *bt[14]; int n; int phase; };
static Blk *tab = nullptr; static size_t ntab = 0, cap = 0; static bool inside = false;
static void note(void *p) {
  if (!p) return;
  heap_live++;
  if (!heap_trace || inside) return;
  inside = true;
  if (ntab == cap) { cap = cap ? cap * 2 : 100000; Blk *n = (Blk *)::operator new(cap * sizeof(Blk)); if (tab) memcpy((void *)n, (void *)tab, ntab * sizeof(Blk)); tab = n; }
  Blk &b = tab[ntab++]; b.p = p; b.n = backtrace(b.bt, 14); b.phase = heap_trace;
  inside = false;
}
static void forget(void *p) {
  if (!p) return;
  heap_live--;
  if (!heap_trace || inside) return;
  for (size_t i = ntab; i-- > 0;) if (tab[i].p == p) { tab[i] = tab[--ntab]; return; }
}
void heap_report(int from, int to) {
  inside = true;
  for (size_t i = 0; i < ntab; i++) if (tab[i].phase >= from && tab[i].phase <= to) { fprintf(stderr, "LEAK %p phase %d:", tab[i].p, tab[i].phase); char **s = backtrace_symbols(tab[i].bt, tab[i].n); for (int j = 2; j < tab[i].n; j++) { const char *q = strrchr(s[j], '/'); fprintf(stderr, " %s", q ? q + 1 : s[j]); } fprintf(stderr, "\n"); }
  inside = false;
}
#else
void heap_report(int, int) {}
#endif
}
#if !defined(__SANITIZE_ADDRESS__)
using namespace sim;
extern "C" {
void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void __libc_free(void *); void *__libc_memalign(size_t, size_t);
// the contents of fresh and freed memory never depend on the environment, and using either shows
static void *fresh(void *p, size_t n) { if (p) memset(p, 0xb5, n); return p; }
static void dead(void *p) { if (p) memset(p, 0xa5, malloc_usable_size(p)); }
void *malloc(size_t n) { void *p = fresh(__libc_malloc(n), n); note(p); return p; }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); note(p); return p; }
void free(void *p) { forget(p); dead(p); __libc_free(p); }
void *realloc(void *q, size_t n) { forget(q); void *p = __libc_realloc(q, n); if (p) note(p); else if (n && q) note(q); return p; }
void *memalign(size_t a, size_t n) { void *p = fresh(__libc_memalign(a, n), n); note(p); return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) { void *p = memalign(a, n); if (!p) return ENOMEM; *r = p; return 0; }
}
void *operator new(size_t n) { void *p = __libc_malloc(n ? n : 1); if (!p) abort(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { __libc_free(p); }
void operator delete[](void *p) noexcept { __libc_free(p); }
void operator delete(void *p, size_t) noexcept { __libc_free(p); }
void operator delete[](void *p, size_t) noexcept { __libc_free(p); }
#endif
