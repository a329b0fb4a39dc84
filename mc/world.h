/* Shared layout of the "world": everything the code under test can observe or change.
   Included by rt.c (Windows ABI, fibre side) and engine.cpp (host ABI, explorer side). */
#ifndef WORLD_H
#define WORLD_H
#include <stdint.h>
#define MAXF 8
#define WORLD_BASE 0x1000000000ULL
#define FREG_SHIFT 18
#define FREG (1ULL << FREG_SHIFT)            /* per-fibre region: heap then stack */
#define HEAP_SZ (FREG / 2)
#define WORLD_SZ (MAXF * FREG)
#define K_ADDR 0x0F00000000ULL               /* struct Kern: snapshotted and hashed */
#define M_ADDR 0x0E00000000ULL               /* struct Meta: search-global, not snapshotted */
#define SHADOW_ADDR 0x0D00000000ULL          /* heap shadow: 1 byte per 8 heap bytes */
#define NH 24                                /* handle slots per fibre */
#define NTLS 16
#define NGH 32                               /* ghost words */
#define NFOOT 62

typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef int64_t i64; typedef uint16_t u16; typedef int32_t i32;

enum { O_FREE, O_EVENT, O_SEM, O_THREAD, O_PROC, O_MUTEX };
typedef struct KObj { u8 type, manual, refs, owner; i32 count; i32 max; } KObj; /* thread: owner = fibre index, count = exited */

enum { P_START, P_MEM, P_KOBJ, P_WAIT, P_SLEEP, P_CHOOSE, P_POINT, P_CREATE, P_EXIT, P_ALL, P_QUIESCE, P_TIME, P_CTL, P_DONE, P_SUSPENDED };
typedef struct Pend {
  u8 kind, rw, n, waitall;
  u8 size; u8 pad; u16 what;
  u64 addr;
  u64 deadline;        /* 100 ns units; ~0 = never */
  u16 h[4];
} Pend;

typedef struct Fiber {
  u64 rsp;             /* saved stack pointer while switched out */
  u64 heap_top;        /* bytes used in this fibre's heap */
  u64 sjlj;            /* head of SjLj function context list */
  u64 caught;          /* stack of exceptions being handled */
  u64 entry, arg;
  u64 redirect;        /* SetThreadContext: new instruction pointer, 0 = none */
  u8 created, exited, suspended, started;
  i32 outcome;
  u32 lasterr; i32 err;
  u32 exitcode; u32 nlive;
  u32 uncaught; i32 prio;
  u64 affinity;
  u16 thobj; u16 hlock; u16 nested; u16 flags;
  u64 tls[NTLS];
  Pend p;
  KObj obj[NH];
  u8 hnd[NH];          /* 0 free; else object slot+1; owner fibre in hndf */
  u8 hndf[NH];
  u32 nfoot, padf;
  u32 foot[NFOOT];     /* shared locations touched since this thread's last scheduling point: id<<1 | write */
} Fiber;

typedef struct Kern {
  u64 now;             /* 100 ns units since 1601 */
  u64 skew;            /* what the system clock has been stepped by */
  u32 nfib, cur;
  u32 steps;           /* not hashed: see hash_state */
  u32 tlsused;
  u64 procaff, sysaff;
  i32 faults, faultmask;
  u32 outcome;         /* folded observable outcome of the harness */
  u32 pad;
  u64 ghost[NGH];
  Fiber f[MAXF];
} Kern;
#define K (*(Kern *)K_ADDR)

#define NGRAN (WORLD_SZ / 8)
#define NWG 8192                             /* granules for library/harness static data (64 KB) */
enum { R_CREATE, R_TIME, R_TLS, R_AFF, R_N };
typedef struct Acc { u8 a, w, v, pad; } Acc; /* fibres that access / write; v: accesses are scheduling points */
#define ID_W NGRAN
#define ID_H (NGRAN + NWG)
#define ID_R (NGRAN + NWG + MAXF * NH)
typedef struct Meta {
  u64 host_rsp, fib_rsp;
  u64 wdata_lo, wdata_hi, img_lo, img_hi;
  u64 viol;            /* pointer to message (const char*) or 0 */
  u64 va[4];
  u64 viol_pc;
  u32 found_new;       /* new conflicting location discovered */
  u32 replay;          /* replay mode */
  u64 hooks, invis;
  u64 progress;
  u64 lastpc;
  u32 mainscen; u32 naive;
  u64 cover[64];       /* distinct observations reported by the scenario, over the whole search */
  Acc cur[NGRAN], nxt[NGRAN];
  Acc wcur[NWG], wnxt[NWG];
  Acc hcur[MAXF * NH], hnxt[MAXF * NH];
  Acc rcur[R_N], rnxt[R_N];
} Meta;
#define M (*(Meta *)M_ADDR)
#define SHADOW ((u8 *)SHADOW_ADDR)           /* indexed by fibre*HEAP_SZ/8 + off/8 */

enum { F_MALLOC = 1, F_EVENT = 2, F_SEM = 4, F_THREAD = 8, F_TLS = 16, F_PRIO = 32, F_AFF = 64, F_DUP = 128, F_TLSSET = 256 };
#endif
