/* Minimal C++ exception runtime (SjLj model) for the simulated Windows target.
   All of its state lives in the fibre's world memory. */
#include "world.h"
#define SELF (&K.f[K.cur])
#define NULL ((void *)0)
extern void ExitThread(u32);
extern void *malloc(u64); extern void free(void *);
__attribute__((noreturn)) void mc_viol(const char *msg, u64 a, u64 b, u64 pc);
extern void mc_ehjump(u64 fp, u64 ip, u64 sp);
typedef struct Ctx { struct Ctx *prev; i32 call_site; u32 data[4]; u32 pad; void *personality; u8 *lsda; u64 jb[5]; } Ctx;
typedef struct Exc { const void *type; void (*dtor)(void *); struct Exc *next; u32 handlers; u32 rethrown; u64 pad[4]; } Exc; /* object follows */
void *raw_alloc_exc(u64 n);
static u32 tok(Exc *e) { return (u32)((u64)e - WORLD_BASE); }
static Exc *untok(u64 t) { return (Exc *)(WORLD_BASE + (u32)t); }
void _Unwind_SjLj_Register(Ctx *c) { c->prev = (Ctx *)SELF->sjlj; SELF->sjlj = (u64)c; }
void _Unwind_SjLj_Unregister(Ctx *c) { SELF->sjlj = (u64)c->prev; }
int __gxx_personality_sj0(void) { return 0; }
int __gcc_personality_sj0(void) { return 0; }
static void (*termfn)(void);   /* set once, before any thread starts */
void mc_on_terminate(void (*f)(void)) { termfn = f; }
void _ZSt9terminatev(void) { if (termfn) { termfn(); ExitThread(3); } mc_viol("std::terminate() called", 0, 0, (u64)__builtin_return_address(0)); }
void __cxa_call_unexpected(void *p) { mc_viol("unexpected exception", 0, 0, 0); }
void __cxa_pure_virtual(void) { mc_viol("pure virtual call", 0, 0, 0); }
/* type info vtables: only their addresses matter */
void *_ZTVN10__cxxabiv117__class_type_infoE[8], *_ZTVN10__cxxabiv120__si_class_type_infoE[8], *_ZTVN10__cxxabiv121__vmi_class_type_infoE[8],
  *_ZTVN10__cxxabiv123__fundamental_type_infoE[8], *_ZTVN10__cxxabiv119__pointer_type_infoE[8];
typedef struct TI { void *vt; const char *name; const struct TI *base; } TI;
TI _ZTIi = {&_ZTVN10__cxxabiv123__fundamental_type_infoE[2], "i", 0};
static int same(const TI *a, const TI *b)
{
  if (a == b) return 1;
  const char *x = a->name, *y = b->name;
  while (*x && *x == *y) { x++; y++; }
  return *x == *y;
}
static int matches(const TI *want, const TI *got)
{
  for (;;)
    {
      if (same(want, got)) return 1;
      if (got->vt == (void *)&_ZTVN10__cxxabiv120__si_class_type_infoE[2]) got = got->base;
      else return 0;
    }
}
static u64 uleb(u8 **p) { u64 r = 0; int s = 0; u8 b; do { b = *(*p)++; r |= (u64)(b & 127) << s; s += 7; } while (b & 128); return r; }
static i64 sleb(u8 **p) { i64 r = 0; int s = 0; u8 b; do { b = *(*p)++; r |= (i64)(b & 127) << s; s += 7; } while (b & 128); if (s < 64 && (b & 64)) r |= -(1LL << s); return r; }
static const TI *ttype(u8 *base, u8 enc, u64 i)
{
  if (enc == 0x9b) { u8 *q = base - 4 * i; i32 v = *(i32 *)q; return v ? *(const TI **)(q + v) : NULL; }
  if (enc == 0x00) return *(const TI **)(base - 8 * i);
  mc_viol("ENGINE: type encoding", enc, 0, 0);
}
/* result: 0 none, 1 cleanup, 2 handler; *sel = selector, *lp = landing pad number */
static int examine(Ctx *c, Exc *e, u32 *sel, i32 *lp)
{
  i32 cs = c->call_site;
  if (cs < 0) return 0;
  if (cs == 0) { _ZSt9terminatev(); }
  u8 *p = c->lsda, enc, *tbase = NULL; u8 tenc;
  if (!p) return 0;
  enc = *p++; if (enc != 0xff) mc_viol("ENGINE: lsda", enc, 0, 0);
  tenc = *p++; if (tenc != 0xff) { u64 o = uleb(&p); tbase = p + o; }
  p++; u64 len = uleb(&p); u8 *act = p + len;
  u64 l = 0, a = 0; i32 n = cs;
  do { l = uleb(&p); a = uleb(&p); } while (--n);
  *lp = (i32)l; *sel = 0;
  if (!a) return 1;
  int cleanup = 0;
  u8 *q = act + a - 1;
  for (;;)
    {
      u8 *q0; i64 f = sleb(&q); q0 = q; i64 disp = sleb(&q);
      if (f == 0) cleanup = 1;
      else if (f > 0) { const TI *t = ttype(tbase, tenc, (u64)f); if (!t || (e && matches(t, e->type))) { *sel = (u32)f; return 2; } }
      else { *sel = (u32)f; return 2; }
      if (!disp) break;
      q = q0 + disp;
    }
  return cleanup;
}
static __attribute__((noreturn)) void land(Ctx *c, Exc *e, u32 sel, i32 lp)
{
  SELF->sjlj = (u64)c;
  c->call_site = lp;
  c->data[0] = tok(e); c->data[1] = sel;
  for (;;) mc_ehjump(c->jb[0], c->jb[1], c->jb[2]);
}
static __attribute__((noreturn)) void unwind(Exc *e, Ctx *from)
{
  for (Ctx *c = from; c; c = c->prev)
    {
      u32 sel; i32 lp;
      if (examine(c, e, &sel, &lp)) land(c, e, sel, lp);
    }
  mc_viol("C++ exception left unhandled (std::terminate)", 0, 0, (u64)__builtin_return_address(0));
}
static int handled(Exc *e) { u32 s; i32 l; for (Ctx *c = (Ctx *)SELF->sjlj; c; c = c->prev) if (examine(c, e, &s, &l) == 2) return 1; return 0; }
void *__cxa_allocate_exception(u64 n) { Exc *e = raw_alloc_exc(sizeof(Exc) + n); for (u32 i = 0; i < sizeof(Exc) / 8; i++) ((volatile u64 *)e)[i] = 0; return e + 1; }
void __cxa_free_exception(void *p) { free((Exc *)p - 1); }
void __cxa_throw(void *obj, const void *type, void (*dtor)(void *))
{
  Exc *e = (Exc *)obj - 1;
  e->type = type; e->dtor = dtor;
  SELF->uncaught++;
  if (!handled(e)) mc_viol("C++ exception left unhandled (std::terminate)", 0, 0, (u64)__builtin_return_address(0));
  unwind(e, (Ctx *)SELF->sjlj);
}
void _Unwind_SjLj_Resume(u64 t) { unwind(untok(t), (Ctx *)SELF->sjlj); }
void *__cxa_get_exception_ptr(u64 t) { return untok(t) + 1; }
void *__cxa_begin_catch(u64 t)
{
  Exc *e = untok(t);
  e->handlers++;
  SELF->uncaught--;
  if ((Exc *)SELF->caught != e) { e->next = (Exc *)SELF->caught; SELF->caught = (u64)e; }
  e->rethrown = 0;
  return e + 1;
}
void __cxa_end_catch(void)
{
  Exc *e = (Exc *)SELF->caught;
  if (!e) return;
  if (--e->handlers == 0)
    {
      SELF->caught = (u64)e->next;
      if (!e->rethrown) { if (e->dtor) e->dtor(e + 1); free(e); }
    }
}
void __cxa_rethrow(void)
{
  Exc *e = (Exc *)SELF->caught;
  if (!e) _ZSt9terminatev();
  e->rethrown = 1;
  SELF->uncaught++;
  if (!handled(e)) mc_viol("C++ exception left unhandled (std::terminate)", 0, 0, (u64)__builtin_return_address(0));
  unwind(e, (Ctx *)SELF->sjlj);
}
int __cxa_uncaught_exception(void) { return SELF->uncaught != 0; }
int _ZSt18uncaught_exceptionv(void) { return SELF->uncaught != 0; }
int _ZSt19uncaught_exceptionsv(void) { return (int)SELF->uncaught; }
void *_Znwy(u64 n) { return malloc(n); } void *_Znay(u64 n) { return malloc(n); }
void _ZdlPv(void *p) { free(p); } void _ZdaPv(void *p) { free(p); } void _ZdlPvy(void *p, u64 n) { free(p); } void _ZdaPvy(void *p, u64 n) { free(p); }
void *_ZSt13set_terminatePFvvE(void *f) { return NULL; }
int __cxa_guard_acquire(u8 *g) { return !*g; } void __cxa_guard_release(u8 *g) { *g = 1; }
int __cxa_atexit(void *f, void *a, void *d) { return 0; }
int atexit(void *f) { return 0; }
