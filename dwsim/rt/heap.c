// Heap with known bounds (preloaded for the memory check): every block of the
// process gets red zones, freed blocks stay unusable for a while, and a shadow
// map says for every address whether it lies in a live block, in a red zone or
// freed block, or is not the heap's business (stacks, globals, mappings).
#define _GNU_SOURCE
#include <errno.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default")))
extern void *__libc_malloc(size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

#define MAGIC 0x64777369686561ull
#define FRONT 32
#define BACK 64
enum { RZ_FRONT = 0xfa, RZ_BACK = 0xfb, FREED = 0xfd };
typedef struct { uint64_t magic, size, front, check; } head_t;

// ---- shadow: one byte for 8 bytes; 0 unknown, 1..8 usable bytes, else poison
#define LEAF_BITS 22
#define NTOP (1ull << (47 - LEAF_BITS))
static uint8_t **top;
static uint8_t *leaf(uintptr_t a, int make) {
  if (a >> 47) return NULL;
  if (!top) {
    if (!make) return NULL;
    void *t = mmap(NULL, NTOP * sizeof(void *), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (t == MAP_FAILED) _exit(99);
    top = t;
  }
  uint8_t **e = &top[a >> LEAF_BITS];
  if (!*e && make) {
    void *t = mmap(NULL, 1ull << (LEAF_BITS - 3), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (t == MAP_FAILED) _exit(99);
    *e = t;
  }
  return *e;
}
static void paint(uintptr_t a, size_t n, uint8_t v) {  // a and n are multiples of 8
  while (n) {
    uint8_t *l = leaf(a, 1);
    size_t off = (a & ((1ull << LEAF_BITS) - 1)), k = (1ull << LEAF_BITS) - off;
    if (k > n) k = n;
    memset(l + (off >> 3), v, k >> 3);
    a += k;
    n -= k;
  }
}
static inline uint8_t shade(uintptr_t a) {
  uint8_t *l = leaf(a, 0);
  return l ? l[(a & ((1ull << LEAF_BITS) - 1)) >> 3] : 0;
}
// is any byte of [a, a + n) in a red zone or a freed block?
EXPORT int dwsim_heap_bad(uintptr_t a, size_t n) {
  if (!n) return 0;
  uintptr_t e = a + n - 1;
  for (uintptr_t g = a >> 3; g <= e >> 3; g++) {
    uint8_t v = shade(g << 3);
    if (v == 0 || v == 8) continue;
    if (v > 8) return 1;
    uintptr_t last = (g == e >> 3) ? (e & 7) : 7;
    if (last >= v) return 1;
  }
  return 0;
}
EXPORT int dwsim_heap_describe(uintptr_t a, size_t n, char *out, size_t cap) {
  uintptr_t e = a + n - 1, g = a & ~7ull;
  for (; g <= e; g += 8) {
    uint8_t v = shade(g);
    if (v && v < 8) v = RZ_BACK;
    if (v > 8) {
      int k = v == FREED ? 1 : v == RZ_FRONT ? 2 : 3;
      if (k == 2) {
        uintptr_t u = g;
        while (shade(u) == RZ_FRONT) u += 8;
        head_t *h = (head_t *)(u - sizeof(head_t));
        snprintf(out, cap, "%lu bytes before a block of %lu bytes", (unsigned long)(u - a), (unsigned long)h->size);
      } else {
        uintptr_t u = g;
        while (shade(u) != RZ_FRONT) u -= 8;
        u += 8;
        head_t *h = (head_t *)(u - sizeof(head_t));
        if (k == 1) snprintf(out, cap, "at byte %ld of a freed block of %lu bytes", (long)(a - u), (unsigned long)h->size);
        else snprintf(out, cap, "at byte %ld of a block of %lu bytes", (long)(a - u), (unsigned long)h->size);
      }
      return k;
    }
  }
  snprintf(out, cap, "?");
  return 0;
}

// ---- blocks
static int lk;
static void lock(void) { while (__atomic_exchange_n(&lk, 1, __ATOMIC_ACQUIRE)) usleep(0); }
static void unlock(void) { __atomic_store_n(&lk, 0, __ATOMIC_RELEASE); }
static uint64_t n_live;
static void *dress(char *raw, size_t front, size_t n) {
  if (!raw) return NULL;
  char *u = raw + front;
  head_t *h = (head_t *)(u - sizeof(head_t));
  h->magic = MAGIC;
  h->size = n;
  h->front = front;
  h->check = (uintptr_t)u ^ n;
  size_t r = n & ~7ull, b = (n + 7) & ~7ull;
  lock();
  n_live++;
  paint((uintptr_t)u - FRONT, FRONT, RZ_FRONT);
  paint((uintptr_t)u, r, 8);
  if (b > r) paint((uintptr_t)u + r, 8, (uint8_t)(n & 7));
  paint((uintptr_t)u + b, BACK - 8, RZ_BACK);
  unlock();
  return u;
}
static head_t *head(void *u) {
  head_t *h = (head_t *)((char *)u - sizeof(head_t));
  return h->magic == MAGIC && h->check == ((uintptr_t)u ^ h->size) ? h : NULL;
}
EXPORT void *malloc(size_t n) {
  if (n > (1ull << 46)) { errno = ENOMEM; return NULL; }
  return dress(__libc_malloc(n + FRONT + BACK), FRONT, n);
}
EXPORT void *calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
  void *p = malloc(n);
  if (p) memset(p, 0, n);
  return p;
}
EXPORT void *memalign(size_t al, size_t n) {
  if (al <= 16) return malloc(n);
  if (n > (1ull << 46) || (al & (al - 1))) { errno = EINVAL; return NULL; }
  size_t f = al < FRONT ? FRONT : al;
  return dress(__libc_memalign(al, n + f + BACK), f, n);
}
EXPORT int posix_memalign(void **p, size_t al, size_t n) {
  void *q = memalign(al, n);
  if (!q) return ENOMEM;
  *p = q;
  return 0;
}
EXPORT void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
EXPORT void *valloc(size_t n) { return memalign(4096, n); }
EXPORT void *pvalloc(size_t n) { return memalign(4096, (n + 4095) & ~4095ull); }
// freed blocks wait here, so that a late access does not find them reused
#define QN (1u << 15)
#define QBYTES (96ull << 20)
static struct { char *u; size_t n; } q[QN];
static unsigned qh, qt;
static uint64_t qb;
static void really(char *u, size_t n) {
  head_t *h = (head_t *)(u - sizeof(head_t));
  size_t b = (n + 7) & ~7ull, f = h->front;
  paint((uintptr_t)u - FRONT, FRONT + b + BACK - 8, 0);
  h->magic = 0;
  __libc_free(u - f);
}
EXPORT void free(void *u) {
  if (!u) return;
  head_t *h = head(u);
  if (!h) { __libc_free(u); return; }
  size_t n = h->size;
  lock();
  n_live--;
  h->check = 0;
  paint((uintptr_t)u, (n + 7) & ~7ull, FREED);
  if (!n) paint((uintptr_t)u, 8, FREED);
  while (qh - qt >= QN || (qb + n > QBYTES && qh != qt)) {
    qb -= q[qt % QN].n;
    really(q[qt % QN].u, q[qt % QN].n);
    qt++;
  }
  q[qh % QN].u = u;
  q[qh % QN].n = n;
  qh++;
  qb += n;
  unlock();
}
EXPORT void *realloc(void *u, size_t n) {
  if (!u) return malloc(n);
  if (!n) { free(u); return NULL; }
  head_t *h = head(u);
  if (!h) return NULL;
  void *p = malloc(n);
  if (!p) return NULL;
  memcpy(p, u, h->size < n ? h->size : n);
  free(u);
  return p;
}
EXPORT void *reallocarray(void *u, size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
  return realloc(u, n);
}
EXPORT size_t malloc_usable_size(void *u) {
  head_t *h = u ? head(u) : NULL;
  return h ? h->size : 0;
}
EXPORT uint64_t dwsim_heap_live(void) { return n_live; }
