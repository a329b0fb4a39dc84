/* Fibre-side runtime: simulated Win32 kernel, C runtime subset and instrumentation callbacks.
   Compiled with the same Windows-ABI ELF target as the library; every symbol gets the prefix W_. */
#include "world.h"
typedef unsigned long long size_t_;
typedef void *HANDLE; typedef int BOOL; typedef unsigned int DWORD;
#define NULL ((void *)0)
#define PC ((u64)__builtin_return_address(0))
extern void mc_yield(void);                       /* asm: switch to the explorer */
extern void mc_panic(void);                       /* asm: abandon this fibre, go to the explorer */
#define ME K.cur
#define SELF (&K.f[K.cur])
#define NOINL __attribute__((noinline))

/* ---------------------------------------------------------------- violations */
__attribute__((noreturn)) void mc_viol(const char *msg, u64 a, u64 b, u64 pc)
{
  M.viol = (u64)msg; M.va[0] = a; M.va[1] = b; M.viol_pc = pc;
  for (;;) mc_panic();
}
__attribute__((noreturn)) void mc_fail_(const char *msg, u64 a, u64 b) { mc_viol(msg, a, b, PC); }

/* ---------------------------------------------------------------- visible operations */
static inline u32 exited_mask(void) { u32 m = 0; for (u32 i = 0; i < K.nfib; i++) if (K.f[i].exited) m |= 1u << i; return m; }
static inline int sole(void)
{ u32 n = 0; for (u32 i = 0; i < K.nfib; i++) n += !K.f[i].exited; return n <= 1; }

static NOINL void redirect_check(void)
{
  if (SELF->redirect)
    {
      void (*fn)(void) = (void (*)(void))SELF->redirect;
      SELF->redirect = 0;
      SELF->nested++;
      fn();
      mc_viol("redirected thread context returned", 0, 0, (u64)fn);
    }
}
static NOINL int vis(u64 pc)
{
  M.lastpc = pc;
  mc_yield();
  Fiber *f = SELF;
  for (u32 j = 0; j < f->nfoot; j++) f->foot[j] = 0;
  f->nfoot = 0;
  return f->outcome;
}
/* Records an access by the running thread.  Returns 1 when it must be a scheduling point.
   A location becomes a candidate when two threads access it and one writes; it becomes a scheduling
   point (v) once two threads are seen to race on it, i.e. one touches it while the other has touched it
   since its own last scheduling point.  Both facts accumulate over passes until a fixpoint. */
static NOINL int cand(Acc *cur, Acc *nxt, u32 id, int w)
{
  u32 me = 1u << ME, oth = 0;
  for (u32 i = 0; i < MAXF; i++) if (i != ME && !(i < K.nfib && K.f[i].exited)) oth |= 1u << i;
  if (cur->v || M.naive) return w ? (cur->a & oth) != 0 : (cur->w & oth) != 0;
  for (u32 i = 0; i < K.nfib; i++)
    if (i != ME && !K.f[i].exited)
      for (u32 j = 0; j < K.f[i].nfoot; j++)
        if (K.f[i].foot[j] >> 1 == id && (w || (K.f[i].foot[j] & 1)) && !nxt->v) { nxt->v = 1; M.found_new = 1; }
  Fiber *f = SELF; u32 e = id << 1 | (u32)w;
  for (u32 j = 0; j < f->nfoot; j++) if (f->foot[j] >> 1 == id) { f->foot[j] |= w; return 0; }
  if (f->nfoot == NFOOT) { f->p = (Pend){.kind = P_POINT}; vis(M.lastpc); redirect_check(); }
  f->foot[f->nfoot++] = e;
  (void)me;
  return 0;
}
static inline int acc_mark(Acc *cur, Acc *nxt, u32 id, int w)
{
  u8 me = (u8)(1u << ME);
  if (!(nxt->a & me) || (w && !(nxt->w & me)))
    {
      nxt->a |= me; if (w) nxt->w |= me;
      if (nxt->w && (nxt->a & (nxt->a - 1)) && (nxt->a != cur->a || nxt->w != cur->w)) M.found_new = 1;
    }
  if (!cur->w || !(cur->a & (cur->a - 1))) return 0;
  return cand(cur, nxt, id, w);
}
static NOINL void racc(int r, int w, u64 pc)
{
  if (sole()) return;
  if (acc_mark(&M.rcur[r], &M.rnxt[r], ID_R + r, w))
    { Pend *p = &SELF->p; *p = (Pend){.kind = P_CTL, .rw = (u8)w, .what = (u16)(100 + r)}; vis(pc); redirect_check(); }
}
static NOINL void bad_addr(u64 a, u32 size, int w, u64 pc)
{ mc_viol(w ? "invalid memory write at address %#llx size %llu" : "invalid memory read at address %#llx size %llu", a, size, pc); }
static NOINL void heap_bad(u64 a, u32 size, int w, u64 pc, u8 sh)
{
  if (sh == 0xFF) mc_viol(w ? "use after free: write to freed heap memory %#llx size %llu" : "use after free: read of freed heap memory %#llx size %llu", a, size, pc);
  mc_viol(w ? "heap write outside any allocation at %#llx size %llu" : "heap read outside any allocation at %#llx size %llu", a, size, pc);
}
static void acc(u64 a, u32 size, int w, u64 pc)
{
  Acc *cur, *nxt; u32 id;
  M.hooks++; M.lastpc = pc;
  u64 off = a - WORLD_BASE, end;
  if (off < WORLD_SZ)
    {
      u32 f = (u32)(off >> FREG_SHIFT); u64 in = off & (FREG - 1);
      if (in < HEAP_SZ)
        {
          u8 *sh = SHADOW + f * (HEAP_SZ / 8);
          for (u64 g = in >> 3; g <= (in + size - 1) >> 3; g++)
            {
              u8 s = sh[g];
              u64 lastb = (in + size - 1) - (g << 3); if (lastb > 7) lastb = 7;
              if (s == 0 || s == 0xFF || lastb >= s) heap_bad(a, size, w, pc, s);
            }
        }
      else if (f != ME)
        {
          if (!K.f[f].created || K.f[f].exited) mc_viol(w ? "write to the stack of a thread that has exited (%#llx, thread %llu)" : "read of the stack of a thread that has exited (%#llx, thread %llu)", a, f, pc);
          if (a < K.f[f].rsp) mc_viol(w ? "write to a dead stack frame of another thread (%#llx, thread %llu)" : "read of a dead stack frame of another thread (%#llx, thread %llu)", a, f, pc);
        }
      cur = &M.cur[off >> 3]; nxt = &M.nxt[off >> 3]; end = (off + size - 1) >> 3;
      off >>= 3; id = (u32)off;
    }
  else if (a >= M.wdata_lo && a < M.wdata_hi)
    {
      off = (a - M.wdata_lo) >> 3; end = (a - M.wdata_lo + size - 1) >> 3;
      cur = &M.wcur[off]; nxt = &M.wnxt[off]; id = ID_W + (u32)off;
    }
  else if (a >= M.img_lo && a < M.img_hi) { if (w) bad_addr(a, size, w, pc); return; }
  else if (a >= K_ADDR && a < K_ADDR + sizeof(Kern)) return;
  else bad_addr(a, size, w, pc);
  if (sole()) return;
  int v = 0;
  for (; off <= end; off++, cur++, nxt++, id++) v |= acc_mark(cur, nxt, id, w);
  if (v)
    {
      Pend *p = &SELF->p;
      *p = (Pend){.kind = P_MEM, .rw = (u8)w, .size = (u8)(size > 255 ? 255 : size), .addr = a};
      vis(pc);
      redirect_check();
      /* the world may have changed while this thread was waiting for its turn */
      u64 o2 = a - WORLD_BASE;
      if (o2 < WORLD_SZ)
        {
          u32 f = (u32)(o2 >> FREG_SHIFT); u64 in = o2 & (FREG - 1);
          if (in < HEAP_SZ)
            {
              u8 s = SHADOW[f * (HEAP_SZ / 8) + (in >> 3)];
              if (s == 0 || s == 0xFF) heap_bad(a, size, w, pc, s);
            }
          else if (f != ME)
            {
              if (K.f[f].exited) mc_viol(w ? "write to the stack of a thread that has exited (%#llx, thread %llu)" : "read of the stack of a thread that has exited (%#llx, thread %llu)", a, f, pc);
              if (a < K.f[f].rsp) mc_viol(w ? "write to a dead stack frame of another thread (%#llx, thread %llu)" : "read of a dead stack frame of another thread (%#llx, thread %llu)", a, f, pc);
            }
        }
    }
  else if (++M.invis > 20000) { /* perhaps a loop waiting for a location not known to be shared yet: let the others run */
    SELF->p = (Pend){.kind = P_POINT}; vis(pc); redirect_check(); }
}
/* called from the assembly thunk placed in front of every lock-prefixed / xchg instruction */
void mc_asm_atomic(u64 addr, u32 size, u64 pc) { acc(addr, size, 1, pc); }

#define RD(n) void __tsan_read##n(u64 a) { acc(a, n, 0, PC); } void __tsan_write##n(u64 a) { acc(a, n, 1, PC); } \
  void __tsan_unaligned_read##n(u64 a) { acc(a, n, 0, PC); } void __tsan_unaligned_write##n(u64 a) { acc(a, n, 1, PC); } \
  void __tsan_volatile_read##n(u64 a) { acc(a, n, 0, PC); } void __tsan_volatile_write##n(u64 a) { acc(a, n, 1, PC); } \
  void __tsan_read_write##n(u64 a) { acc(a, n, 1, PC); } void __tsan_unaligned_read_write##n(u64 a) { acc(a, n, 1, PC); }
RD(1) RD(2) RD(4) RD(8) RD(16)
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {} void __tsan_func_exit(void) {}
void __tsan_vptr_update(u64 a, u64 v) { acc(a, 8, 1, PC); } void __tsan_vptr_read(u64 a) { acc(a, 8, 0, PC); }
void __tsan_read_range(u64 a, u64 n) { if (n) acc(a, n, 0, PC); }
void __tsan_write_range(u64 a, u64 n) { if (n) acc(a, n, 1, PC); }
static void *bcopy_(u8 *d, const u8 *s, u64 n) { if (d <= s) for (u64 i = 0; i < n; i++) { d[i] = s[i]; __asm__ volatile("" ::: "memory"); } else while (n--) { d[n] = s[n]; __asm__ volatile("" ::: "memory"); } return d; }
static void *bset_(u8 *d, int c, u64 n) { for (u64 i = 0; i < n; i++) { d[i] = (u8)c; __asm__ volatile("" ::: "memory"); } return d; }
void *__tsan_memcpy(void *d, const void *s, u64 n) { if (n) { acc((u64)s, n, 0, PC); acc((u64)d, n, 1, PC); bcopy_(d, s, n); } return d; }
void *__tsan_memmove(void *d, const void *s, u64 n) { if (n) { acc((u64)s, n, 0, PC); acc((u64)d, n, 1, PC); bcopy_(d, s, n); } return d; }
void *__tsan_memset(void *d, int c, u64 n) { if (n) { acc((u64)d, n, 1, PC); bset_(d, c, n); } return d; }
void *memcpy(void *d, const void *s, u64 n) { if (n) { acc((u64)s, n, 0, PC); acc((u64)d, n, 1, PC); bcopy_(d, s, n); } return d; }
void *memmove(void *d, const void *s, u64 n) { if (n) { acc((u64)s, n, 0, PC); acc((u64)d, n, 1, PC); bcopy_(d, s, n); } return d; }
void *memset(void *d, int c, u64 n) { if (n) { acc((u64)d, n, 1, PC); bset_(d, c, n); } return d; }
int memcmp(const void *a_, const void *b_, u64 n)
{ const u8 *a = a_, *b = b_; if (n) { acc((u64)a, n, 0, PC); acc((u64)b, n, 0, PC); } for (; n--; a++, b++) if (*a != *b) return *a < *b ? -1 : 1; return 0; }

/* compiler atomics (should the code ever use them) */
#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T *a, int mo) { acc((u64)a, bits / 8, 0, PC); return *a; } \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { acc((u64)a, bits / 8, 1, PC); *a = v; } \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { acc((u64)a, bits / 8, 1, PC); T o = *a; *a = v; return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { acc((u64)a, bits / 8, 1, PC); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { acc((u64)a, bits / 8, 1, PC); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { acc((u64)a, bits / 8, 1, PC); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { acc((u64)a, bits / 8, 1, PC); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { acc((u64)a, bits / 8, 1, PC); T o = *a; *a = o ^ v; return o; } \
  T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) { acc((u64)a, bits / 8, 1, PC); T o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T v, int mo, int fmo) { acc((u64)a, bits / 8, 1, PC); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T v, int mo, int fmo) { acc((u64)a, bits / 8, 1, PC); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T e, T v, int mo, int fmo) { acc((u64)a, bits / 8, 1, PC); T o = *a; if (o == e) *a = v; return o; }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int mo) {} void __tsan_atomic_signal_fence(int mo) {}

/* ---------------------------------------------------------------- environment choices */
static NOINL int choose(u32 n, u64 pc)
{
  if (n <= 1) return 0;
  Pend *p = &SELF->p; *p = (Pend){.kind = P_CHOOSE, .n = (u8)n};
  return vis(pc);
}
static NOINL int fault(int kind, u64 pc)
{
  if (K.faults <= 0 || !(K.faultmask & kind)) return 0;
  if (choose(2, pc)) { K.faults--; return 1; }
  return 0;
}

/* ---------------------------------------------------------------- heap */
static u8 *shadow_of(u64 a) { u64 off = a - WORLD_BASE; return SHADOW + (off >> FREG_SHIFT) * (HEAP_SZ / 8) + ((off & (FREG - 1)) >> 3); }
static NOINL void *raw_alloc(u64 n)
{
  Fiber *f = SELF;
  u64 base = WORLD_BASE + ((u64)ME << FREG_SHIFT);
  u64 pay = (n + 15) & ~15ULL; if (!pay) pay = 16;
  if (n > HEAP_SZ || f->heap_top + 32 + pay > HEAP_SZ) mc_viol("ENGINE: simulated heap exhausted", n, 0, 0);
  u64 h = base + f->heap_top;
  ((u64 *)h)[0] = n; ((u64 *)h)[1] = 0xA110CA7EDULL;
  u64 p = h + 16;
  bset_((u8 *)p, 0xCD, pay);
  u8 *sh = shadow_of(p);
  for (u64 i = 0; i < pay / 8; i++) sh[i] = n >= (i + 1) * 8 ? 8 : (n > i * 8 ? (u8)(n - i * 8) : 0);
  ((u64 *)(p + pay))[0] = 0xBADBADULL; ((u64 *)(p + pay))[1] = 0;
  f->heap_top += 32 + pay;
  f->nlive++;
  return (void *)p;
}
void *raw_alloc_exc(u64 n) { return raw_alloc(n); }
void *malloc(u64 n) { if (fault(F_MALLOC, PC)) { SELF->err = 12; return NULL; } return raw_alloc(n); }
void *calloc(u64 a, u64 b) { if (fault(F_MALLOC, PC)) { SELF->err = 12; return NULL; } void *p = raw_alloc(a * b); return bset_(p, 0, a * b); }
void free(void *q)
{
  u64 p = (u64)q, off = p - WORLD_BASE;
  if (!q) return;
  if (off >= WORLD_SZ || (off & (FREG - 1)) >= HEAP_SZ || (off & 15)) mc_viol("free of a pointer that is not a heap block: %#llx", p, 0, PC);
  u64 *h = (u64 *)(p - 16);
  u32 o = (u32)(off >> FREG_SHIFT);
  if ((off & (FREG - 1)) < 16 || (off & (FREG - 1)) >= K.f[o].heap_top) mc_viol("free of a pointer that is not a heap block: %#llx", p, 0, PC);
  if (h[1] == 0xF4EEDULL) mc_viol("double free of heap block %#llx", p, 0, PC);
  if (h[1] != 0xA110CA7EDULL) mc_viol("free of a pointer that is not a heap block: %#llx", p, 0, PC);
  u64 n = h[0], pay = (n + 15) & ~15ULL; if (!pay) pay = 16;
  if (n) acc(p, (u32)n, 1, PC);
  if (h[1] == 0xF4EEDULL) mc_viol("double free of heap block %#llx", p, 0, PC);
  h[1] = 0xF4EEDULL;
  bset_((u8 *)p, 0xDD, pay);
  u8 *sh = shadow_of(p);
  for (u64 i = 0; i < pay / 8; i++) sh[i] = 0xFF;
  K.f[o].nlive--;
}
void *realloc(void *q, u64 n)
{
  if (!q) return malloc(n);
  void *p = malloc(n); if (!p) return NULL;
  u64 old = ((u64 *)q)[-2];
  acc((u64)q, 1, 0, PC);
  bcopy_(p, q, old < n ? old : n);
  free(q);
  return p;
}
/* ---------------------------------------------------------------- strings */
static u64 slen(const char *s, u64 pc) { u64 n = 0; for (;;) { acc((u64)s + n, 1, 0, pc); if (!s[n]) return n; n++; } }
u64 strlen(const char *s) { return slen(s, PC); }
u64 strnlen(const char *s, u64 m) { u64 n = 0; while (n < m) { acc((u64)s + n, 1, 0, PC); if (!s[n]) break; n++; } return n; }
static void put(char *d, char c, u64 pc) { acc((u64)d, 1, 1, pc); *(volatile char *)d = c; }
char *strcpy(char *d, const char *s) { u64 n = slen(s, PC); for (u64 i = 0; i <= n; i++) put(d + i, s[i], PC); return d; }
char *strcat(char *d, const char *s) { u64 l = slen(d, PC), n = slen(s, PC); for (u64 i = 0; i <= n; i++) put(d + l + i, s[i], PC); return d; }
char *strncpy(char *d, const char *s, u64 m) { u64 i = 0; for (; i < m; i++) { acc((u64)s + i, 1, 0, PC); put(d + i, s[i], PC); if (!s[i]) { i++; break; } } for (; i < m; i++) put(d + i, 0, PC); return d; }
char *strncat(char *d, const char *s, u64 m) { u64 l = slen(d, PC), i = 0; for (; i < m; i++) { acc((u64)s + i, 1, 0, PC); if (!s[i]) break; put(d + l + i, s[i], PC); } put(d + l + i, 0, PC); return d; }
int strcmp(const char *a, const char *b) { for (;; a++, b++) { acc((u64)a, 1, 0, PC); acc((u64)b, 1, 0, PC); if (*a != *b) return (u8)*a < (u8)*b ? -1 : 1; if (!*a) return 0; } }
int strncmp(const char *a, const char *b, u64 n) { for (; n--; a++, b++) { acc((u64)a, 1, 0, PC); acc((u64)b, 1, 0, PC); if (*a != *b) return (u8)*a < (u8)*b ? -1 : 1; if (!*a) return 0; } return 0; }
char *strchr(const char *s, int c) { for (;; s++) { acc((u64)s, 1, 0, PC); if (*s == (char)c) return (char *)s; if (!*s) return NULL; } }
char *strrchr(const char *s, int c) { char *r = NULL; for (;; s++) { acc((u64)s, 1, 0, PC); if (*s == (char)c) r = (char *)s; if (!*s) return r; } }
char *strpbrk(const char *s, const char *t) { for (; ; s++) { acc((u64)s, 1, 0, PC); if (!*s) return NULL; if (strchr(t, *s)) return (char *)s; } }
u64 strspn(const char *s, const char *t) { u64 n = 0; while (s[n] && strchr(t, s[n])) n++; return n; }
u64 strcspn(const char *s, const char *t) { u64 n = 0; while (s[n] && !strchr(t, s[n])) n++; return n; }
char *strstr(const char *s, const char *t) { u64 l = slen(t, PC); for (; ; s++) { if (!strncmp(s, t, l)) return (char *)s; if (!*s) return NULL; } }
void *memchr(const void *p, int c, u64 n) { const u8 *s = p; for (; n--; s++) { acc((u64)s, 1, 0, PC); if (*s == (u8)c) return (void *)s; } return NULL; }
int strcpy_s(char *d, u64 m, const char *s) { u64 n = slen(s, PC); if (n >= m) { if (m) put(d, 0, PC); return 34; } for (u64 i = 0; i <= n; i++) put(d + i, s[i], PC); return 0; }
int strncpy_s(char *d, u64 m, const char *s, u64 c) { u64 n = 0; while (n < c) { acc((u64)s + n, 1, 0, PC); if (!s[n]) break; n++; } if (n >= m) { if (m) put(d, 0, PC); return 34; } for (u64 i = 0; i < n; i++) put(d + i, s[i], PC); put(d + n, 0, PC); return 0; }
int abs(int x) { return x < 0 ? -x : x; }
char *strdup(const char *s) { u64 n = slen(s, PC) + 1; char *p = malloc(n); if (p) bcopy_((u8 *)p, (const u8 *)s, n); return p; }
char *_strdup(const char *s) { return strdup(s); }
int *_errno(void) { return &SELF->err; }
int _set_errno(int e) { SELF->err = e; return 0; }
int _get_errno(int *e) { *e = SELF->err; return 0; }
void abort(void) { mc_viol("abort() called", 0, 0, PC); }
void exit(int c) { mc_viol("exit(%llu) called", (u32)c, 0, PC); }
void _exit(int c) { mc_viol("_exit(%llu) called", (u32)c, 0, PC); }
void ExitProcess(DWORD c) { mc_viol("ExitProcess(%llu) called", (u32)c, 0, PC); }
void _assert(const char *m, const char *f, unsigned l) { mc_viol("assertion failed in library: %s", (u64)m, l, PC); }
void _wassert(const void *m, const void *f, unsigned l) { mc_viol("assertion failed in library, line %llu", l, 0, PC); }
int puts(const char *s) { return 0; } int printf(const char *s, ...) { return 0; } int fflush(void *f) { return 0; }
int putchar(int c) { return c; } int fputs(const char *s, void *f) { return 0; }
int fprintf(void *f, const char *s, ...) { return 0; } int __mingw_fprintf(void *f, const char *s, ...) { return 0; }
int __mingw_printf(const char *s, ...) { return 0; } void *__acrt_iob_func(unsigned i) { return NULL; }
void perror(const char *s) {}
int __mingw_vsnprintf(char *d, u64 n, const char *f, __builtin_va_list ap)
{ /* %s %d %u %p(hex) %% only */
  u64 o = 0;
#define OUT(c) do { if (o + 1 < n) { acc((u64)(d + o), 1, 1, PC); d[o] = (c); } o++; } while (0)
  for (; *f; f++)
    {
      if (*f != '%') { OUT(*f); continue; }
      f++; while (*f == 'l' || *f == '0' || (*f >= '1' && *f <= '9')) f++;
      if (*f == 's') { const char *s = __builtin_va_arg(ap, const char *); while (*s) { OUT(*s); s++; } }
      else if (*f == 'd' || *f == 'u' || *f == 'x' || *f == 'p' || *f == 'c')
        {
          if (*f == 'c') { int c = __builtin_va_arg(ap, int); OUT((char)c); continue; }
          u64 v = *f == 'p' ? (u64)__builtin_va_arg(ap, void *) : (u64)__builtin_va_arg(ap, u32);
          char b[24]; int k = 0; u32 base = *f == 'x' || *f == 'p' ? 16 : 10;
          if (*f == 'd' && (i32)v < 0) { OUT('-'); v = (u64)-(i64)(i32)v; }
          do { b[k++] = "0123456789abcdef"[v % base]; v /= base; } while (v);
          while (k) { OUT(b[k - 1]); k--; }
        }
      else if (*f == '%') OUT('%');
      else break;
    }
  if (n) { u64 e = o < n ? o : n - 1; acc((u64)(d + e), 1, 1, PC); d[e] = 0; }
  return (int)o;
}
int vsnprintf(char *d, u64 n, const char *f, __builtin_va_list ap) { return __mingw_vsnprintf(d, n, f, ap); }
int snprintf(char *d, u64 n, const char *f, ...) { __builtin_va_list ap; __builtin_va_start(ap, f); int r = __mingw_vsnprintf(d, n, f, ap); __builtin_va_end(ap); return r; }
int __mingw_snprintf(char *d, u64 n, const char *f, ...) { __builtin_va_list ap; __builtin_va_start(ap, f); int r = __mingw_vsnprintf(d, n, f, ap); __builtin_va_end(ap); return r; }
int sprintf(char *d, const char *f, ...) { __builtin_va_list ap; __builtin_va_start(ap, f); int r = __mingw_vsnprintf(d, 4096, f, ap); __builtin_va_end(ap); return r; }
int __mingw_sprintf(char *d, const char *f, ...) { __builtin_va_list ap; __builtin_va_start(ap, f); int r = __mingw_vsnprintf(d, 4096, f, ap); __builtin_va_end(ap); return r; }
int _snprintf(char *d, u64 n, const char *f, ...) { __builtin_va_list ap; __builtin_va_start(ap, f); int r = __mingw_vsnprintf(d, n, f, ap); __builtin_va_end(ap); return r; }

/* ---------------------------------------------------------------- kernel objects and handles */
#define HV(fib, s) ((HANDLE)(u64)(0x1000 + 4 * ((fib) * NH + (s))))
#define PSEUDO_PROC ((HANDLE)-1LL)
#define PSEUDO_THREAD ((HANDLE)-2LL)
static int hcode(HANDLE h) { u64 v = (u64)h; if (v < 0x1000 || (v & 3)) return -1; v = (v - 0x1000) / 4; return v < MAXF * NH ? (int)v : -1; }
static NOINL int ocode(HANDLE h, const char *what, u64 pc)
{ /* object index fibre*NH+slot, or -1 for NULL/pseudo */
  if (h == NULL || h == PSEUDO_PROC) { SELF->lasterr = 6; return -1; }
  if (h == PSEUDO_THREAD) return SELF->thobj;
  int c = hcode(h);
  if (c < 0 || !K.f[c / NH].hnd[c % NH]) mc_viol("%s used on a closed or invalid handle %#llx", (u64)what, (u64)h, pc);
  return K.f[c / NH].hndf[c % NH] * NH + K.f[c / NH].hnd[c % NH] - 1;
}
#define OBJ(o) (&K.f[(o) / NH].obj[(o) % NH])
static NOINL int new_obj(int type, int manual, i32 count, i32 max, int owner)
{
  Fiber *f = SELF;
  for (int i = 0; i < NH; i++)
    if (f->obj[i].type == O_FREE && f->obj[i].refs == 0)
      { f->obj[i] = (KObj){(u8)type, (u8)manual, 0, (u8)owner, count, max}; return (int)ME * NH + i; }
  mc_viol("ENGINE: too many kernel objects", 0, 0, 0);
}
static NOINL HANDLE new_handle(int o)
{
  Fiber *f = SELF;
  for (int i = 0; i < NH; i++)
    if (!f->hnd[i]) { f->hnd[i] = (u8)(o % NH + 1); f->hndf[i] = (u8)(o / NH); OBJ(o)->refs++; return HV(ME, i); }
  mc_viol("ENGINE: too many handles", 0, 0, 0);
}
static void unref(int o) { KObj *k = OBJ(o); if (--k->refs == 0) *k = (KObj){0}; }
static int hmark(int o, int w) { return !sole() && acc_mark(&M.hcur[o], &M.hnxt[o], ID_H + (u32)o, w); }
static NOINL void kop(int o, int w, int what, u64 pc)
{
  if (hmark(o, w)) { Pend *p = &SELF->p; *p = (Pend){.kind = P_KOBJ, .rw = (u8)w, .what = (u16)what, .h = {(u16)o}}; vis(pc); redirect_check(); }
}
static NOINL int revalidate(HANDLE h, const char *what, u64 pc) { return ocode(h, what, pc); }

HANDLE CreateEventA(void *sa, BOOL manual, BOOL init, const char *name)
{ if (fault(F_EVENT, PC)) { SELF->lasterr = 8; return NULL; } return new_handle(new_obj(O_EVENT, !!manual, !!init, 1, 0)); }
HANDLE CreateEventW(void *sa, BOOL manual, BOOL init, const void *name) { return CreateEventA(sa, manual, init, NULL); }
HANDLE CreateSemaphoreA(void *sa, i32 init, i32 max, const char *name)
{
  if (init < 0 || max <= 0 || init > max) { SELF->lasterr = 87; return NULL; }
  if (fault(F_SEM, PC)) { SELF->lasterr = 8; return NULL; }
  return new_handle(new_obj(O_SEM, 0, init, max, 0));
}
HANDLE CreateSemaphoreW(void *sa, i32 init, i32 max, const void *name) { return CreateSemaphoreA(sa, init, max, NULL); }
HANDLE CreateMutexA(void *sa, BOOL own, const char *name) { int o = new_obj(O_MUTEX, 0, own ? 0 : 1, own ? 1 : 0, (int)ME); return new_handle(o); }
HANDLE CreateMutexW(void *sa, BOOL own, const void *name) { return CreateMutexA(sa, own, NULL); }
BOOL ReleaseMutex(HANDLE h)
{ int o = ocode(h, "ReleaseMutex", PC); if (o < 0) return 0; kop(o, 1, 5, PC); KObj *k = OBJ(o); if (k->count || k->owner != ME) { SELF->lasterr = 288; return 0; } if (--k->max == 0) k->count = 1; return 1; }
BOOL CloseHandle(HANDLE h)
{
  if (h == PSEUDO_THREAD || h == PSEUDO_PROC) return 1;
  int o = ocode(h, "CloseHandle", PC); if (o < 0) return 0;
  kop(o, 1, 1, PC);
  o = revalidate(h, "CloseHandle", PC);
  int c = hcode(h);
  K.f[c / NH].hnd[c % NH] = 0; K.f[c / NH].hndf[c % NH] = 0;
  unref(o);
  return 1;
}
BOOL SetEvent(HANDLE h)
{
  int o = ocode(h, "SetEvent", PC); if (o < 0) return 0;
  kop(o, 1, 2, PC); o = revalidate(h, "SetEvent", PC);
  if (OBJ(o)->type != O_EVENT) { SELF->lasterr = 6; return 0; }
  OBJ(o)->count = 1; return 1;
}
BOOL ResetEvent(HANDLE h)
{
  int o = ocode(h, "ResetEvent", PC); if (o < 0) return 0;
  kop(o, 1, 3, PC); o = revalidate(h, "ResetEvent", PC);
  if (OBJ(o)->type != O_EVENT) { SELF->lasterr = 6; return 0; }
  OBJ(o)->count = 0; return 1;
}
BOOL PulseEvent(HANDLE h) { mc_viol("ENGINE: PulseEvent is not modelled", 0, 0, PC); }
BOOL ReleaseSemaphore(HANDLE h, i32 n, i32 *prev)
{
  int o = ocode(h, "ReleaseSemaphore", PC); if (o < 0) return 0;
  kop(o, 1, 4, PC); o = revalidate(h, "ReleaseSemaphore", PC);
  KObj *k = OBJ(o);
  if (k->type != O_SEM) { SELF->lasterr = 6; return 0; }
  if (n <= 0) { SELF->lasterr = 87; return 0; }
  if (k->count > k->max - n) { SELF->lasterr = 298; return 0; }
  if (prev) *prev = k->count;
  k->count += n; return 1;
}
BOOL DuplicateHandle(HANDLE sp, HANDLE h, HANDLE tp, HANDLE *out, DWORD acc_, BOOL inh, DWORD opt)
{
  if (fault(F_DUP, PC)) { SELF->lasterr = 8; return 0; }
  int o = ocode(h, "DuplicateHandle", PC); if (o < 0) { if (h == PSEUDO_PROC) { *out = PSEUDO_PROC; return 1; } return 0; }
  kop(o, 0, 6, PC);
  HANDLE nh = new_handle(o);
  acc((u64)out, 8, 1, PC);
  *out = nh; return 1;
}
static int ready(int o) { KObj *k = OBJ(o); return k->type == O_MUTEX ? (k->count || k->owner == ME) : k->count > 0; }
static void take(int o)
{ KObj *k = OBJ(o); if (k->type == O_SEM) k->count--; else if (k->type == O_EVENT && !k->manual) k->count = 0; else if (k->type == O_MUTEX) { k->count = 0; k->owner = (u8)ME; k->max++; } }
static NOINL u32 do_wait(u32 n, const HANDLE *hs, int all, DWORD ms, const char *what, u64 pc)
{
  u16 os[4]; Fiber *f = SELF; int v = 0;
  if (n == 0 || n > 4) { f->lasterr = 87; return 0xFFFFFFFFu; }
  for (u32 i = 0; i < n; i++)
    { int o = ocode(hs[i], what, pc); if (o < 0) { f->lasterr = 6; return 0xFFFFFFFFu; } os[i] = (u16)o; }
  u64 deadline = ~0ULL;
  if (ms != 0xFFFFFFFFu && ms != 0) { racc(R_TIME, 0, pc); deadline = K.now + (u64)ms * 10000; if (!sole()) acc_mark(&M.rcur[R_TIME], &M.rnxt[R_TIME], ID_R + R_TIME, 1); }
  else if (ms == 0) deadline = K.now;
  for (u32 i = 0; i < n; i++) { int o = ocode(hs[i], what, pc); os[i] = (u16)o; v |= hmark(o, 1); }
  if (!v)
    { /* nobody else can interfere: decide at once when possible */
      int rdy = 0; for (u32 i = 0; i < n; i++) rdy += ready(os[i]);
      if (all ? rdy == (int)n : rdy > 0) goto done;
      if (ms == 0) return 258;
    }
  f->p = (Pend){.kind = P_WAIT, .n = (u8)n, .waitall = (u8)all, .deadline = ms == 0 ? 0 : deadline, .rw = (u8)(ms == 0)};
  for (u32 i = 0; i < n; i++) f->p.h[i] = os[i];
  int oc = vis(pc);
  for (u32 i = 0; i < n; i++)
    {
      int c = hcode(hs[i]);
      if (hs[i] != PSEUDO_THREAD && !K.f[c / NH].hnd[c % NH]) mc_viol("handle %#llx closed while a thread was waiting on it", (u64)hs[i], 0, pc);
    }
  for (u32 i = 0; i < n; i++) hmark(os[i], 1);
  if (oc == 1) { if (ms != 0 && deadline > K.now) { if (!sole()) acc_mark(&M.rcur[R_TIME], &M.rnxt[R_TIME], ID_R + R_TIME, 1); K.now = deadline; } redirect_check(); return 258; }
done:
  if (all) { for (u32 i = 0; i < n; i++) take(os[i]); redirect_check(); return 0; }
  for (u32 i = 0; i < n; i++) if (ready(os[i])) { take(os[i]); redirect_check(); return i; }
  mc_viol("ENGINE: woken without a ready object", 0, 0, pc);
}
DWORD WaitForSingleObject(HANDLE h, DWORD ms) { return do_wait(1, &h, 0, ms, "WaitForSingleObject", PC); }
DWORD WaitForSingleObjectEx(HANDLE h, DWORD ms, BOOL al) { return do_wait(1, &h, 0, ms, "WaitForSingleObject", PC); }
DWORD WaitForMultipleObjects(DWORD n, const HANDLE *h, BOOL all, DWORD ms)
{ HANDLE t[4]; for (u32 i = 0; i < n && i < 4; i++) { acc((u64)(h + i), 8, 0, PC); t[i] = h[i]; } return do_wait(n, t, all, ms, "WaitForMultipleObjects", PC); }
DWORD WaitForMultipleObjectsEx(DWORD n, const HANDLE *h, BOOL all, DWORD ms, BOOL al) { return WaitForMultipleObjects(n, h, all, ms); }

/* ---------------------------------------------------------------- threads */
static NOINL HANDLE thread_create(u64 entry, u64 arg, u32 flags, u32 *tid, u64 pc)
{
  if (fault(F_THREAD, pc)) { SELF->err = 11; SELF->lasterr = 8; return NULL; }
  if (!sole()) { SELF->p = (Pend){.kind = P_CTL, .rw = 1, .what = 100}; vis(pc); redirect_check(); }
  if (K.nfib >= MAXF) mc_viol("ENGINE: too many threads", 0, 0, 0);
  u32 i = K.nfib++;
  Fiber *f = &K.f[i];
  f->created = 1; f->entry = entry; f->arg = arg; f->suspended = (flags & 4) ? 1 : 0;
  f->affinity = K.procaff;
  f->p = (Pend){.kind = P_START};
  f->rsp = WORLD_BASE + ((u64)i << FREG_SHIFT) + FREG - 64;
  int o = new_obj(O_THREAD, 1, 0, 1, (int)i);
  OBJ(o)->refs = 1;
  f->thobj = (u16)o;
  HANDLE h = new_handle(o);
  if (tid) { acc((u64)tid, 4, 1, pc); *tid = 100 + i; }
  return h;
}
u64 _beginthreadex(void *sec, unsigned st, void *fn, void *arg, unsigned flags, unsigned *tid)
{ return (u64)thread_create((u64)fn, (u64)arg, flags, tid, PC); }
HANDLE CreateThread(void *sec, u64 st, void *fn, void *arg, DWORD flags, DWORD *tid)
{ return thread_create((u64)fn, (u64)arg, flags, tid, PC); }
static NOINL void do_exit_of(u32 i, u32 code)
{
  Fiber *f = &K.f[i];
  f->exited = 1; f->exitcode = code; f->p = (Pend){.kind = P_DONE};
  OBJ(f->thobj)->count = 1; unref(f->thobj);
  for (int t = 0; t < NTLS; t++) f->tls[t] = 0;
  for (u32 j = 0; j < NFOOT; j++) f->foot[j] = 0; f->nfoot = 0;
  f->sjlj = f->caught = 0; f->err = 0; f->lasterr = 0; f->outcome = 0;
}
__attribute__((noreturn)) void _endthreadex(unsigned code)
{
  if (ME != 0 || !sole())
    {
      hmark(SELF->thobj, 1);
      SELF->p = (Pend){.kind = P_EXIT}; vis(PC); redirect_check();
      hmark(SELF->thobj, 1);
    }
  do_exit_of(ME, code);
  for (;;) mc_yield();
}
void ExitThread(DWORD c) { _endthreadex(c); }
void _endthread(void) { _endthreadex(0); }
void fiber_entry(void)
{
  Fiber *f = SELF;
  f->started = 1;
  u32 (*fn)(void *) = (u32 (*)(void *))f->entry;
  _endthreadex(fn((void *)f->arg));
}
static NOINL void ctl(int what, int o, u64 pc)
{ if (!sole()) { SELF->p = (Pend){.kind = P_CTL, .rw = 1, .what = (u16)what, .h = {(u16)o}}; vis(pc); redirect_check(); if (o >= 0) hmark(o, 1); } }
DWORD ResumeThread(HANDLE h)
{
  int o = ocode(h, "ResumeThread", PC); if (o < 0) return ~0u; ctl(1, o, PC); o = revalidate(h, "ResumeThread", PC);
  if (OBJ(o)->type != O_THREAD) return ~0u;
  Fiber *f = &K.f[OBJ(o)->owner]; u32 p = f->suspended; if (p) f->suspended--; return p;
}
DWORD SuspendThread(HANDLE h)
{
  int o = ocode(h, "SuspendThread", PC); if (o < 0) return ~0u; ctl(2, o, PC); o = revalidate(h, "SuspendThread", PC);
  if (OBJ(o)->type != O_THREAD) return ~0u;
  Fiber *f = &K.f[OBJ(o)->owner]; if (f->exited) { SELF->lasterr = 5; return ~0u; }
  u32 p = f->suspended; f->suspended++;
  if (f == SELF) { SELF->p = (Pend){.kind = P_SUSPENDED}; vis(PC); redirect_check(); }
  return p;
}
BOOL TerminateThread(HANDLE h, DWORD code)
{
  int o = ocode(h, "TerminateThread", PC); if (o < 0) return 0; ctl(3, o, PC); o = revalidate(h, "TerminateThread", PC);
  u32 i = OBJ(o)->owner;
  if (K.f[i].exited) { SELF->lasterr = 5; return 0; }
  do_exit_of(i, code);
  if (i == ME) for (;;) mc_yield();
  return 1;
}
BOOL GetExitCodeThread(HANDLE h, DWORD *c) { int o = ocode(h, "GetExitCodeThread", PC); if (o < 0) return 0; kop(o, 0, 7, PC); Fiber *f = &K.f[OBJ(o)->owner]; *c = f->exited ? f->exitcode : 259; return 1; }
BOOL GetThreadContext(HANDLE h, void *ctx)
{ int o = ocode(h, "GetThreadContext", PC); if (o < 0) return 0; ctl(4, o, PC); Fiber *f = &K.f[OBJ(o)->owner]; if (f->exited) { SELF->lasterr = 5; return 0; } *(u64 *)((char *)ctx + 0xF8) = 0x1234; *(u64 *)((char *)ctx + 0x98) = f->rsp; return 1; }
BOOL SetThreadContext(HANDLE h, const void *ctx)
{ int o = ocode(h, "SetThreadContext", PC); if (o < 0) return 0; ctl(5, o, PC); Fiber *f = &K.f[OBJ(o)->owner]; if (f->exited) { SELF->lasterr = 5; return 0; } u64 ip = *(u64 *)((char *)ctx + 0xF8); if (ip != 0x1234) f->redirect = ip; return 1; }
HANDLE GetCurrentThread(void) { return PSEUDO_THREAD; }
HANDLE GetCurrentProcess(void) { return PSEUDO_PROC; }
DWORD GetCurrentThreadId(void) { return 100 + ME; }
DWORD GetThreadId(HANDLE h) { int o = ocode(h, "GetThreadId", PC); return o < 0 ? 0 : 100 + OBJ(o)->owner; }
DWORD GetCurrentProcessId(void) { return 4242; }
DWORD GetLastError(void) { return SELF->lasterr; }
void SetLastError(DWORD e) { SELF->lasterr = e; }
BOOL SetThreadPriority(HANDLE h, int p)
{ if (fault(F_PRIO, PC)) { SELF->lasterr = 5; return 0; } int o = ocode(h, "SetThreadPriority", PC); if (o < 0) return 0; kop(o, 1, 8, PC);
  if (p != -15 && p != 15 && (p < -2 || p > 2)) { SELF->lasterr = 87; return 0; } K.f[OBJ(o)->owner].prio = p; return 1; }
int GetThreadPriority(HANDLE h) { int o = ocode(h, "GetThreadPriority", PC); if (o < 0) return 0x7fffffff; kop(o, 0, 9, PC); return K.f[OBJ(o)->owner].prio; }
u64 SetThreadAffinityMask(HANDLE h, u64 m)
{
  if (fault(F_AFF, PC)) { SELF->lasterr = 5; return 0; }
  int o = ocode(h, "SetThreadAffinityMask", PC); if (o < 0) return 0; kop(o, 1, 10, PC);
  if (!m || (m & ~K.procaff)) { SELF->lasterr = 87; return 0; }
  Fiber *f = &K.f[OBJ(o)->owner]; u64 old = f->affinity; f->affinity = m; return old;
}
BOOL GetProcessAffinityMask(HANDLE h, u64 *p, u64 *s)
{ if (fault(F_AFF, PC)) { SELF->lasterr = 5; return 0; } if (h != PSEUDO_PROC) ocode(h, "GetProcessAffinityMask", PC); racc(R_AFF, 0, PC); *p = K.procaff; *s = K.sysaff; return 1; }
BOOL SetProcessAffinityMask(HANDLE h, u64 m)
{ if (fault(F_AFF, PC)) { SELF->lasterr = 5; return 0; } if (h != PSEUDO_PROC) ocode(h, "SetProcessAffinityMask", PC); racc(R_AFF, 1, PC); if (!m || (m & ~K.sysaff)) { SELF->lasterr = 87; return 0; } K.procaff = m;
  for (u32 i = 0; i < K.nfib; i++) { K.f[i].affinity &= m; if (!K.f[i].affinity) K.f[i].affinity = m; } return 1; }
HANDLE OpenProcess(DWORD a, BOOL inh, DWORD pid)
{ if (pid == 4242) return new_handle(new_obj(O_PROC, 1, 0, 1, 0)); SELF->lasterr = pid == 4 ? 5 : 87; return NULL; }
DWORD TlsAlloc(void)
{ if (fault(F_TLS, PC)) { SELF->lasterr = 8; return ~0u; } racc(R_TLS, 1, PC); for (u32 i = 0; i < NTLS; i++) if (!(K.tlsused >> i & 1)) { K.tlsused |= 1u << i; for (u32 j = 0; j < MAXF; j++) K.f[j].tls[i] = 0; return i; } SELF->lasterr = 8; return ~0u; }
BOOL TlsFree(DWORD i) { racc(R_TLS, 1, PC); if (i >= NTLS || !(K.tlsused >> i & 1)) { SELF->lasterr = 87; return 0; } K.tlsused &= ~(1u << i); return 1; }
void *TlsGetValue(DWORD i)
{ if (i >= NTLS) { SELF->lasterr = 87; return NULL; } racc(R_TLS, 0, PC); if (!(K.tlsused >> i & 1)) mc_viol("TlsGetValue on an index that is not allocated (%llu)", i, 0, PC); SELF->lasterr = 0; return (void *)SELF->tls[i]; }
BOOL TlsSetValue(DWORD i, void *v)
{ /* only the first value in a slot beyond the first ones needs memory */ if (i >= 2 && i < NTLS && !SELF->tls[i] && v && fault(F_TLSSET, PC)) { SELF->lasterr = 8; return 0; } if (i >= NTLS) { SELF->lasterr = 87; return 0; } racc(R_TLS, 0, PC); if (!(K.tlsused >> i & 1)) mc_viol("TlsSetValue on an index that is not allocated (%llu)", i, 0, PC); SELF->tls[i] = (u64)v; return 1; }
void Sleep(DWORD ms)
{
  if (ms == 0xFFFFFFFFu) { SELF->p = (Pend){.kind = P_SLEEP, .deadline = ~0ULL}; vis(PC); redirect_check(); return; }
  if (ms == 0) { if (sole()) return; SELF->p = (Pend){.kind = P_SLEEP, .deadline = 0}; vis(PC); redirect_check(); return; }
  racc(R_TIME, 0, PC);
  if (!sole()) acc_mark(&M.rcur[R_TIME], &M.rnxt[R_TIME], ID_R + R_TIME, 1);
  u64 d = K.now + (u64)ms * 10000;
  SELF->p = (Pend){.kind = P_SLEEP, .deadline = d}; vis(PC);
  if (!sole()) acc_mark(&M.rcur[R_TIME], &M.rnxt[R_TIME], ID_R + R_TIME, 1);
  if (d > K.now) K.now = d;
  redirect_check();
}
DWORD SleepEx(DWORD ms, BOOL al) { Sleep(ms); return 0; }
BOOL SwitchToThread(void) { Sleep(0); return 1; }
void GetSystemTimeAsFileTime(u64 *ft) { racc(R_TIME, 0, PC); acc((u64)ft, 8, 1, PC); *ft = K.now + K.skew; }
void GetSystemTimePreciseAsFileTime(u64 *ft) { racc(R_TIME, 0, PC); acc((u64)ft, 8, 1, PC); *ft = K.now + K.skew; }
DWORD GetTickCount(void) { racc(R_TIME, 0, PC); return (DWORD)(K.now / 10000); }
u64 GetTickCount64(void) { racc(R_TIME, 0, PC); return K.now / 10000; }
BOOL QueryPerformanceCounter(u64 *p) { racc(R_TIME, 0, PC); *p = K.now; return 1; }
BOOL QueryPerformanceFrequency(u64 *p) { *p = 10000000; return 1; }
#define EPOCH100 0x19DB1DED53E8000ULL
u32 _time32(u32 *t) { racc(R_TIME, 0, PC); u32 v = (u32)((K.now + K.skew - EPOCH100) / 10000000); if (t) *t = v; return v; }
i64 _time64(i64 *t) { racc(R_TIME, 0, PC); i64 v = (i64)((K.now + K.skew - EPOCH100) / 10000000); if (t) *t = v; return v; }
i64 time(i64 *t) { return _time64(t); }
void _ftime64(u8 *t) { racc(R_TIME, 0, PC); u64 d = K.now + K.skew - EPOCH100; *(u64 *)t = d / 10000000; *(u16 *)(t + 8) = (u16)(d / 10000 % 1000); *(u16 *)(t + 10) = 0; *(u16 *)(t + 12) = 0; }
int _ftime64_s(u8 *t) { _ftime64(t); return 0; }
void _ftime32(u8 *t) { racc(R_TIME, 0, PC); u64 d = K.now + K.skew - EPOCH100; *(u32 *)t = (u32)(d / 10000000); *(u16 *)(t + 4) = (u16)(d / 10000 % 1000); *(u16 *)(t + 6) = 0; *(u16 *)(t + 8) = 0; }
int _ftime32_s(u8 *t) { _ftime32(t); return 0; }
void GetSystemInfo(u8 *si) { bset_(si, 0, 48); u32 n = 0; for (u64 m = K.procaff; m; m >>= 1) n += m & 1; *(u64 *)(si + 24) = K.procaff; *(u32 *)(si + 32) = n; }
HANDLE LoadLibraryA(const char *n) { SELF->lasterr = 126; return NULL; }
HANDLE LoadLibraryW(const void *n) { SELF->lasterr = 126; return NULL; }
HANDLE LoadLibraryExA(const char *n, HANDLE f, DWORD fl) { SELF->lasterr = 126; return NULL; }
HANDLE GetModuleHandleA(const char *n) { SELF->lasterr = 126; return NULL; }
BOOL FreeLibrary(HANDLE h) { return 1; }
void *GetProcAddress(HANDLE h, const char *n) { SELF->lasterr = 127; return NULL; }
unsigned GetSystemDirectoryA(char *b, unsigned n) { static const char d[] = "C:\\windows\\system32"; for (unsigned i = 0; i < sizeof d && i < n; i++) b[i] = d[i]; return sizeof d - 1; }
void OutputDebugStringA(const char *s) {}
BOOL IsDebuggerPresent(void) { return 0; }
void RaiseException(DWORD c, DWORD f, DWORD n, const void *a) { mc_viol("RaiseException(%#llx)", c, 0, PC); }
HANDLE GetProcessHeap(void) { return (HANDLE)0x77; }
void *HeapAlloc(HANDLE h, DWORD fl, u64 n) { if (fault(F_MALLOC, PC)) return NULL; void *p = raw_alloc(n); if (fl & 8) bset_(p, 0, n); return p; }
BOOL HeapFree(HANDLE h, DWORD fl, void *p) { free(p); return 1; }
void *LocalAlloc(unsigned fl, u64 n) { return HeapAlloc(NULL, fl & 0x40 ? 8 : 0, n); }
void *LocalFree(void *p) { free(p); return NULL; }
/* critical sections: the first word holds a mutex object's handle */
void InitializeCriticalSection(HANDLE *cs) { cs[0] = new_handle(new_obj(O_MUTEX, 0, 1, 0, 0)); }
BOOL InitializeCriticalSectionAndSpinCount(HANDLE *cs, DWORD n) { InitializeCriticalSection(cs); return 1; }
void DeleteCriticalSection(HANDLE *cs) { CloseHandle(cs[0]); cs[0] = NULL; }
void EnterCriticalSection(HANDLE *cs) { do_wait(1, cs, 0, ~0u, "EnterCriticalSection", PC); }
BOOL TryEnterCriticalSection(HANDLE *cs) { return do_wait(1, cs, 0, 0, "TryEnterCriticalSection", PC) == 0; }
void LeaveCriticalSection(HANDLE *cs) { ReleaseMutex(cs[0]); }
/* out-of-line interlocked helpers */
i32 InterlockedIncrement(volatile i32 *p) { acc((u64)p, 4, 1, PC); return ++*p; }
i32 InterlockedDecrement(volatile i32 *p) { acc((u64)p, 4, 1, PC); return --*p; }
i32 InterlockedExchange(volatile i32 *p, i32 v) { acc((u64)p, 4, 1, PC); i32 o = *p; *p = v; return o; }
i32 InterlockedExchangeAdd(volatile i32 *p, i32 v) { acc((u64)p, 4, 1, PC); i32 o = *p; *p = o + v; return o; }
i32 InterlockedCompareExchange(volatile i32 *p, i32 v, i32 c) { acc((u64)p, 4, 1, PC); i32 o = *p; if (o == c) *p = v; return o; }

/* ---------------------------------------------------------------- harness interface (see mc.h) */
void mc_point(void) { if (sole()) return; SELF->p = (Pend){.kind = P_POINT}; vis(PC); redirect_check(); }
int mc_choose(int n) { return choose((u32)n, PC); }
int mc_self(void) { return (int)ME; }
u64 mc_now(void) { racc(R_TIME, 0, PC); return K.now + K.skew; }
void mc_step_clock(i64 d) { racc(R_TIME, 1, PC); K.skew += (u64)d; }
void mc_set_now(u64 t) { K.now = t; }
void mc_faults(int n, int mask) { K.faults = n; K.faultmask = mask; }
int mc_faults_left(void) { return K.faults; }
void mc_outcome(u32 x) { K.outcome = K.outcome * 31 + x + 1; }
void mc_cover(u32 x) { x &= 4095; M.cover[x >> 6] |= 1ULL << (x & 63); }
void mc_cpus(u64 proc, u64 sys) { K.procaff = proc; K.sysaff = sys; for (u32 i = 0; i < MAXF; i++) K.f[i].affinity = proc; }
int mc_tickets(void) { return 0; }
void mc_wait_all(void) { if (sole()) return; SELF->p = (Pend){.kind = P_ALL}; vis(PC); redirect_check(); }
void mc_settle(void) { if (sole()) return; SELF->p = (Pend){.kind = P_QUIESCE, .rw = 1}; vis(PC); redirect_check(); }
void mc_quiesce(void) { if (sole()) return; SELF->p = (Pend){.kind = P_QUIESCE}; vis(PC); redirect_check(); }
int mc_blocks(void) { int n = 0; for (u32 i = 0; i < K.nfib; i++) n += (int)K.f[i].nlive; return n; }
int mc_handles(void) { int n = 0; for (u32 i = 0; i < K.nfib; i++) for (int j = 0; j < NH; j++) n += K.f[i].hnd[j] != 0; return n; }
int mc_tls_used(void) { int n = 0; for (u32 m = K.tlsused; m; m >>= 1) n += m & 1; return n; }
int mc_exited(int i) { return K.f[i].exited; }
int mc_nfib(void) { return (int)K.nfib; }
int mc_live_threads(void) { int n = 0; for (u32 i = 1; i < K.nfib; i++) n += !K.f[i].exited; return n; }
int mc_prio(int i) { return K.f[i].prio; }
u64 mc_affinity(int i) { return K.f[i].affinity; }
u64 mc_proc_affinity(void) { return K.procaff; }
u32 mc_exitcode(int i) { return K.f[i].exitcode; }
u64 *mc_ghost(void) { return K.ghost; }
/* scenario bootstrap */
typedef struct { const char *name; void (*fn)(void); const char *opts; } Scen;
extern Scen mc_scenarios[];
typedef void (*ctor)(void);
extern ctor mc_ctors_begin[], mc_ctors_end[], mc_dtors_begin[], mc_dtors_end[];
void mc_proc_attach(void) { for (ctor *c = mc_ctors_begin; c < mc_ctors_end; c++) if (*c && *c != (ctor)-1LL) (*c)(); }
void mc_proc_detach(void) { for (ctor *c = mc_dtors_begin; c < mc_dtors_end; c++) if (*c && *c != (ctor)-1LL) (*c)(); }
u32 mc_main(void *arg)
{
  mc_proc_attach();
  mc_scenarios[M.mainscen].fn();
  return 0;
}
void mc_boot(void)
{ /* called by the explorer, on the host stack, to build the initial state */
  Fiber *f = &K.f[0];
  K.nfib = 1; K.cur = 0;
  K.now = 0x1DA000000000000ULL; K.procaff = 3; K.sysaff = 3;
  for (u32 i = 0; i < MAXF; i++) K.f[i].affinity = 3;
  f->created = 1; f->entry = (u64)mc_main; f->rsp = WORLD_BASE + FREG - 64;
  f->p = (Pend){.kind = P_START};
  int o = new_obj(O_THREAD, 1, 0, 1, 0); OBJ(o)->refs = 1; f->thobj = (u16)o;
}
void mc_undef(const char *name) { mc_viol("ENGINE: call to a function the simulated system does not provide: %s", (u64)name, 0, PC); }
