/* C19: every single (and every pair, every triple) failure of an allocation or kernel object creation inside each
   creating call.  The call must report a documented resource error and leave nothing behind, or succeed with an
   object that works; a retry without failures must then succeed. */
#include "common.h"
#define ALLF (F_MALLOC | F_EVENT | F_SEM | F_THREAD | F_TLS | F_DUP | F_TLSSET)
static int acct[3];
static void snap(void) { acct[0] = mc_blocks(); acct[1] = mc_handles(); acct[2] = mc_tls_used(); }
static void same(const char *w)
{ if (mc_blocks() != acct[0]) mc_fail_("memory leaked or lost: %lld blocks instead of %lld", mc_blocks(), acct[0]);
  if (mc_handles() != acct[1]) mc_fail_("kernel handles leaked or lost: %lld instead of %lld", mc_handles(), acct[1]);
  if (mc_tls_used() != acct[2]) mc_fail_("TLS slots leaked or lost: %lld instead of %lld", mc_tls_used(), acct[2]); }
static void end(void) { done(); MC_EQ(mc_blocks(), 0, "memory leaked at shutdown"); MC_EQ(mc_handles(), 0, "handles leaked at shutdown"); MC_EQ(mc_tls_used(), 0, "TLS slots leaked at shutdown"); }
static int rerr(int r) { return r == EAGAIN || r == ENOMEM || r == ENOSPC; }

static pthread_mutex_t m, m2; static pthread_mutexattr_t ma; static pthread_cond_t c; static pthread_condattr_t ca; static pthread_rwlock_t w; static pthread_rwlockattr_t wa;
static pthread_barrier_t b; static pthread_barrierattr_t ba; static pthread_spinlock_t s; static sem_t sm; static pthread_attr_t at; static pthread_key_t k; static pthread_t th; static int dtor, up;
#define ran GH(13)
static int E(int r) { return r == 0 ? 0 : errno; }
/* using an object that was created in spite of (or after) a failure */
static void use_m(void) { int i; for (i = 0; i < 2; i++) { OK(pthread_mutex_lock(&m)); EQ(pthread_mutex_trylock(&m2), 0); OK(pthread_mutex_unlock(&m2)); OK(pthread_mutex_unlock(&m)); OK(pthread_mutex_trylock(&m)); OK(pthread_mutex_unlock(&m)); } }
static void *t_m(void *p) { OK(pthread_mutex_lock(&m)); GH(1)++; OK(pthread_mutex_unlock(&m)); return 0; }
static void con_m(void) { pthread_t x; void *v; OK(pthread_mutex_lock(&m)); OK(pthread_create(&x, 0, t_m, 0)); mc_quiesce(); MC_EQ(GH(1), 0, "exclusion"); OK(pthread_mutex_unlock(&m)); OK(pthread_join(x, &v)); MC_EQ(GH(1), 1, "waiter"); GH(1) = 0; }
static void un_m(void) { OK(pthread_mutex_destroy(&m)); }
static void *t_c(void *p) { OK(pthread_mutex_lock(&m2)); GH(2) = 1; OK(pthread_cond_wait(&c, &m2)); GH(2) = 2; OK(pthread_mutex_unlock(&m2)); return 0; }
static void use_c(void) { pthread_t x; void *v; OK(pthread_create(&x, 0, t_c, 0)); mc_quiesce(); MC_EQ(GH(2), 1, "waiting"); OK(pthread_cond_signal(&c)); OK(pthread_join(x, &v)); MC_EQ(GH(2), 2, "woken"); GH(2) = 0; }
static void un_c(void) { OK(pthread_cond_destroy(&c)); }
static void use_w(void) { OK(pthread_rwlock_rdlock(&w)); OK(pthread_rwlock_rdlock(&w)); EQ(pthread_rwlock_trywrlock(&w), EBUSY); OK(pthread_rwlock_unlock(&w)); OK(pthread_rwlock_unlock(&w)); OK(pthread_rwlock_wrlock(&w)); EQ(pthread_rwlock_tryrdlock(&w), EBUSY); OK(pthread_rwlock_unlock(&w)); }
static void un_w(void) { OK(pthread_rwlock_destroy(&w)); }
static void use_s(void) { OK(pthread_spin_lock(&s)); EQ(pthread_spin_trylock(&s), EBUSY); OK(pthread_spin_unlock(&s)); OK(pthread_spin_trylock(&s)); OK(pthread_spin_unlock(&s)); }
static void un_s(void) { OK(pthread_spin_destroy(&s)); }
static void *t_b(void *p) { int r = pthread_barrier_wait(&b); GH(3) += r == PTHREAD_BARRIER_SERIAL_THREAD; return 0; }
static void use_b(void) { pthread_t x; void *v; OK(pthread_create(&x, 0, t_b, 0)); t_b(0); OK(pthread_join(x, &v)); MC_EQ(GH(3), 1, "serial thread"); GH(3) = 0; }
static void un_b(void) { OK(pthread_barrier_destroy(&b)); }
static void *t_p(void *p) { OK(sem_wait(&sm)); return 0; }
static void use_sm(void) { int v; pthread_t x; void *r; OK(sem_getvalue(&sm, &v)); MC_EQ(v, 1, "value"); OK(sem_wait(&sm)); OK(pthread_create(&x, 0, t_p, 0)); mc_quiesce(); OK(sem_post(&sm)); OK(pthread_join(x, &r)); }
static void un_sm(void) { OK(sem_destroy(&sm)); }
static void *body(void *p) { MC_EQ((intptr_t)p, 7, "argument"); MC_ASSERT(pthread_equal(pthread_self(), pthread_self()), "self"); ran++; return VP(9); }
static void use_t(void) { void *v = 0; OK(pthread_join(th, &v)); MC_EQ((intptr_t)v, 9, "join value"); MC_EQ(ran, 1, "body runs"); ran = 0; }
static void nul(void) {}
static void dt(void *p) { dtor++; }
static void *t_k(void *p) { MC_EQ((intptr_t)pthread_getspecific(k), 0, "initial value"); OK(pthread_setspecific(k, VP(5))); MC_EQ((intptr_t)pthread_getspecific(k), 5, "stored value"); return 0; }
static void use_k(void) { pthread_t x; void *v; dtor = 0; OK(pthread_create(&x, 0, t_k, 0)); OK(pthread_join(x, &v)); MC_EQ(dtor, 1, "destructor"); }
static void un_k(void) { OK(pthread_key_delete(k)); }
/* prep runs with resources available, op under failures */
static int o_mutex(void) { return pthread_mutex_init(&m, 0); }
static int o_mx_a(void) { return pthread_mutex_init(&m, &ma); }
static void p_rec(void) { OK(pthread_mutexattr_init(&ma)); OK(pthread_mutexattr_settype(&ma, PTHREAD_MUTEX_RECURSIVE)); }
static void p_rob(void) { OK(pthread_mutexattr_init(&ma)); OK(pthread_mutexattr_setrobust(&ma, PTHREAD_MUTEX_ROBUST)); }
static void p_rer(void) { p_rob(); OK(pthread_mutexattr_settype(&ma, PTHREAD_MUTEX_ERRORCHECK)); }
static void un_ma(void) { un_m(); OK(pthread_mutexattr_destroy(&ma)); }
static int o_mattr(void) { return pthread_mutexattr_init(&ma); } static void use_mattr(void) { int t; OK(pthread_mutexattr_gettype(&ma, &t)); MC_EQ(t, PTHREAD_MUTEX_DEFAULT, "type"); } static void un_mattr(void) { OK(pthread_mutexattr_destroy(&ma)); }
static int o_cond(void) { return pthread_cond_init(&c, 0); }
static int o_cattr(void) { return pthread_condattr_init(&ca); } static void un_cattr(void) { OK(pthread_condattr_destroy(&ca)); }
static int o_rwl(void) { return pthread_rwlock_init(&w, 0); }
static int o_rwattr(void) { return pthread_rwlockattr_init(&wa); } static void un_rwattr(void) { OK(pthread_rwlockattr_destroy(&wa)); }
static int o_spin(void) { return pthread_spin_init(&s, PTHREAD_PROCESS_PRIVATE); }
static void p_up(void) { mc_cpus(1, 1); }
static int o_bar(void) { return pthread_barrier_init(&b, 0, 2); }
static int o_battr(void) { return pthread_barrierattr_init(&ba); } static void un_battr(void) { OK(pthread_barrierattr_destroy(&ba)); }
static int o_sem(void) { return E(sem_init(&sm, 0, 1)); }
static int o_attr(void) { return pthread_attr_init(&at); }
static void use_attr(void) { int d; OK(pthread_attr_getdetachstate(&at, &d)); MC_EQ(d, PTHREAD_CREATE_JOINABLE, "default"); } static void un_attr(void) { OK(pthread_attr_destroy(&at)); }
static int o_key(void) { return pthread_key_create(&k, dt); }
static int o_key0(void) { return pthread_key_create(&k, 0); } static void use_key0(void) { MC_EQ((intptr_t)pthread_getspecific(k), 0, "fresh key"); OK(pthread_setspecific(k, VP(3))); MC_EQ((intptr_t)pthread_getspecific(k), 3, "value"); OK(pthread_setspecific(k, 0)); }
static void p_key(void) { OK(pthread_key_create(&k, dt)); } static void p_key0(void) { OK(pthread_key_create(&k, 0)); }
static int o_set(void) { void *o = pthread_getspecific(k); int r = pthread_setspecific(k, VP(4)); MC_EQ((intptr_t)pthread_getspecific(k), r ? (intptr_t)o : 4, "value after setspecific"); return r; } static void un_set(void) { MC_EQ((intptr_t)pthread_getspecific(k), 4, "value"); OK(pthread_setspecific(k, 0)); OK(pthread_key_delete(k)); }
static int o_create(void) { return pthread_create(&th, 0, body, VP(7)); }
static void p_named(void) { OK(pthread_attr_init(&at)); OK(pthread_attr_setname_np(&at, "abc")); }
static int o_named(void) { return pthread_create(&th, &at, body, VP(7)); }
static void use_named(void) { use_t(); } static void un_named(void) { OK(pthread_attr_destroy(&at)); }
/* first use of statically initialised objects */
static void p_sm0(void) { m = PTHREAD_MUTEX_INITIALIZER; } static void p_sm1(void) { m = PTHREAD_RECURSIVE_MUTEX_INITIALIZER; } static void p_sm2(void) { m = PTHREAD_ERRORCHECK_MUTEX_INITIALIZER; }
static int o_lock(void) { int r = pthread_mutex_lock(&m); if (!r) OK(pthread_mutex_unlock(&m)); return r; }
static int o_try(void) { int r = pthread_mutex_trylock(&m); if (!r) OK(pthread_mutex_unlock(&m)); return r; }
static int o_tim(void) { struct timespec t = ts_in(5); int r = pthread_mutex_timedlock(&m, &t); if (!r) OK(pthread_mutex_unlock(&m)); return r; }
static void kind(int rec) { int r; OK(pthread_mutex_lock(&m)); r = pthread_mutex_trylock(&m); MC_EQ(r, rec ? 0 : EBUSY, "mutex type kept"); if (!r) OK(pthread_mutex_unlock(&m)); OK(pthread_mutex_unlock(&m)); }
static void use_m1(void) { use_m(); kind(1); } static void use_m2(void) { use_m(); kind(0); OK(pthread_mutex_lock(&m)); EQ(pthread_mutex_lock(&m), EDEADLK); OK(pthread_mutex_unlock(&m)); }
static void p_sc(void) { c = PTHREAD_COND_INITIALIZER; }
static int o_cw(void) { struct timespec t = ts_in(5); int r; OK(pthread_mutex_lock(&m2)); r = pthread_cond_timedwait(&c, &m2, &t); OK(pthread_mutex_unlock(&m2)); return r == ETIMEDOUT ? 0 : r; }
static void p_sw(void) { w = PTHREAD_RWLOCK_INITIALIZER; }
#define RWOP(n, call) static int o_##n(void) { struct timespec t = ts_in(5); (void)t; int r = call; if (!r) OK(pthread_rwlock_unlock(&w)); return r; }
RWOP(rd, pthread_rwlock_rdlock(&w)) RWOP(wr, pthread_rwlock_wrlock(&w)) RWOP(trd, pthread_rwlock_tryrdlock(&w)) RWOP(twr, pthread_rwlock_trywrlock(&w)) RWOP(mrd, pthread_rwlock_timedrdlock(&w, &t)) RWOP(mwr, pthread_rwlock_timedwrlock(&w, &t))
static void p_ss(void) { s = PTHREAD_SPINLOCK_INITIALIZER; } static void p_ssu(void) { mc_cpus(1, 1); s = PTHREAD_SPINLOCK_INITIALIZER; }
static int o_sl(void) { int r = pthread_spin_lock(&s); if (!r) OK(pthread_spin_unlock(&s)); return r; }
static int o_st(void) { int r = pthread_spin_trylock(&s); if (!r) OK(pthread_spin_unlock(&s)); return r; }
/* names */
static char nb[40];
static void p_nm(void) { OK(pthread_setname_np(pthread_self(), "old")); }
static int o_nm(void) { int r = pthread_setname_np(pthread_self(), "newer"); OK(pthread_getname_np(pthread_self(), nb, sizeof nb)); MC_ASSERT(!strcmp(nb, r ? "old" : "newer"), "thread name after pthread_setname_np"); return r; }
static void un_nm(void) { OK(pthread_setname_np(pthread_self(), "")); }
static int o_anm(void) { return pthread_attr_setname_np(&at, "newer"); }
static void use_anm(void) { char q[40]; q[0] = 0; OK(pthread_create(&th, &at, body, VP(7))); (void)q; use_t(); }

typedef struct { const char *n; void (*prep)(void); int (*op)(void); void (*use)(void), (*undo)(void); } Op;
static const Op ops[] = {
  {"mutex", nul, o_mutex, con_m, un_m}, {"mutex_rec", p_rec, o_mx_a, use_m1, un_ma}, {"mutex_rob", p_rob, o_mx_a, con_m, un_ma}, {"mutex_rer", p_rer, o_mx_a, use_m2, un_ma}, {"mattr", nul, o_mattr, use_mattr, un_mattr},
  {"cond", nul, o_cond, use_c, un_c}, {"cattr", nul, o_cattr, nul, un_cattr}, {"rwlock", nul, o_rwl, use_w, un_w}, {"rwattr", nul, o_rwattr, nul, un_rwattr},
  {"spin", nul, o_spin, use_s, un_s}, {"spin_up", p_up, o_spin, use_s, un_s}, {"barrier", nul, o_bar, use_b, un_b}, {"battr", nul, o_battr, nul, un_battr}, {"sem", nul, o_sem, use_sm, un_sm},
  {"attr", nul, o_attr, use_attr, un_attr}, {"key", nul, o_key, use_k, un_k}, {"key0", nul, o_key0, use_key0, un_k}, {"set", p_key, o_set, nul, un_set}, {"set0", p_key0, o_set, nul, un_set},
  {"create", nul, o_create, use_t, nul}, {"create_n", p_named, o_named, use_named, un_named},
  {"s_lock", p_sm0, o_lock, con_m, un_m}, {"s_lock1", p_sm1, o_lock, use_m1, un_m}, {"s_lock2", p_sm2, o_lock, use_m2, un_m}, {"s_try", p_sm0, o_try, con_m, un_m}, {"s_try1", p_sm1, o_try, use_m1, un_m}, {"s_try2", p_sm2, o_try, use_m2, un_m}, {"s_tim", p_sm0, o_tim, con_m, un_m}, {"s_tim1", p_sm1, o_tim, use_m1, un_m}, {"s_tim2", p_sm2, o_tim, use_m2, un_m},
  {"s_cw", p_sc, o_cw, use_c, un_c}, {"s_rd", p_sw, o_rd, use_w, un_w}, {"s_wr", p_sw, o_wr, use_w, un_w}, {"s_trd", p_sw, o_trd, use_w, un_w}, {"s_twr", p_sw, o_twr, use_w, un_w}, {"s_mrd", p_sw, o_mrd, use_w, un_w}, {"s_mwr", p_sw, o_mwr, use_w, un_w},
  {"s_sl", p_ss, o_sl, use_s, un_s}, {"s_st", p_ss, o_st, use_s, un_s}, {"s_slu", p_ssu, o_sl, use_s, un_s}, {"s_stu", p_ssu, o_st, use_s, un_s},
  {"name", p_nm, o_nm, nul, un_nm}, {"aname", p_named, o_anm, use_anm, un_named},
};
static void run(int i, int nf)
{
  const Op *o = &ops[i]; int r, warm = mc_choose(2), left;
  OK(pthread_mutex_init(&m2, 0));
  pthread_self();
  if (warm) { o->prep(); OK(o->op()); o->use(); o->undo(); ran = 0; }
  snap();
  o->prep();
  int a[3] = {mc_blocks(), mc_handles(), mc_tls_used()};
  mc_faults(nf, ALLF); r = o->op(); left = mc_faults_left(); mc_faults(0, 0);
  if (r)
    {
      if (left == nf) mc_fail_("%lld reported although no resource was short", r, 0);
      if (!rerr(r)) mc_fail_("a shortage is reported as error %lld", r, 0);
      MC_EQ(mc_handles(), a[1], "handles after a failed call"); MC_EQ(mc_tls_used(), a[2], "TLS slots after a failed call");
      if (warm && o->op != o_set) MC_EQ(mc_blocks(), a[0], "memory blocks after a failed call");
      mc_cover(i * 2);
      OK(o->op());                     /* the retry */
    }
  else mc_cover(i * 2 + 1);
  o->use(); o->undo();
  if (warm) same("");
  OK(pthread_mutex_destroy(&m2));
  end();
}
/* threads of the system calling the library for the first time: whatever fails in getting an identity */
static int fm, fres[4];
static int fop(int what)
{
  int r, v;
  switch (what)
    {
    case 0: { pthread_t x = pthread_self(); if (x.p == NULL) return ENOMEM; MC_ASSERT(pthread_equal(x, pthread_self()), "stable identity"); return 0; }
    case 1: r = pthread_mutex_lock(&m); if (!r) OK(pthread_mutex_unlock(&m)); return r;
    case 2: r = pthread_setspecific(k, VP(4)); return r;
    case 3: r = pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &v); if (!r) { OK(pthread_setcancelstate(v, &v)); } return r;
    case 4: r = pthread_setcanceltype(PTHREAD_CANCEL_DEFERRED, &v); return r;
    case 5: r = pthread_create(&th, 0, body, VP(7)); return r;
    case 6: pthread_testcancel(); return 0;
    case 7: r = E(sem_wait(&sm)); if (!r) OK(sem_post(&sm)); return r;
    case 8: { struct timespec t = ts_in(5); OK(pthread_mutex_lock(&m2)); r = pthread_cond_timedwait(&c, &m2, &t); OK(pthread_mutex_unlock(&m2)); return r == ETIMEDOUT ? 0 : r; }
    case 9: { struct timespec t = {0, 1000000}; return pthread_delay_np(&t); }
    case 10: return pthread_setname_np(pthread_self(), "x");
    case 11: pthread_cleanup_push(dt, 0); pthread_cleanup_pop(1); return 0;
    case 12: { cpu_set_t cs; return pthread_getaffinity_np(pthread_self(), sizeof cs, &cs); }
    case 13: { int p; struct sched_param sp; return pthread_getschedparam(pthread_self(), &p, &sp); }
    case 14: r = pthread_mutex_trylock(&m); if (!r) OK(pthread_mutex_unlock(&m)); return r;
    case 15: { struct timespec t = ts_in(5); r = pthread_mutex_timedlock(&m, &t); if (!r) OK(pthread_mutex_unlock(&m)); return r; }
    case 16: r = pthread_rwlock_wrlock(&w); if (!r) OK(pthread_rwlock_unlock(&w)); return r;
    }
  return 0;
}
static unsigned __stdcall fbody(void *p)
{
  int what = (int)(intptr_t)p & 255, nf = (int)(intptr_t)p >> 8, r;
  int h0 = mc_handles();
  mc_faults(nf, ALLF); r = fop(what); int left = mc_faults_left(); mc_faults(0, 0);
  if (r)
    {
      if (left == nf) mc_fail_("error %lld although no resource was short", r, 0);
      if (what == 2 ? !rerr(r) && r != ENOENT : what == 0 ? 0 : what == 12 || what == 13 || what == 10 ? !rerr(r) && r != ESRCH && r != EINVAL : what == 3 || what == 4 ? !rerr(r) && r != EINVAL : !rerr(r)) mc_fail_("a shortage is reported as error %lld", r, 0);
      if (what != 2 && what != 5 && what != 10) MC_EQ(mc_handles(), h0, "handles after a failed call"); /* those may keep the identity they gave the thread */
      OK(fop(what));
    }
  if (what == 5) { void *v; OK(pthread_join(th, &v)); MC_EQ((intptr_t)v, 9, "value"); ran = 0; }
  pthread_win32_thread_detach_np();
  return 0;
}
static void frn(int what, int nf)
{
  HANDLE h; pthread_mutexattr_t a; int i;
  pthread_self(); OK(pthread_mutex_init(&m2, 0)); OK(pthread_cond_init(&c, 0)); OK(sem_init(&sm, 0, 1)); OK(pthread_key_create(&k, dt)); OK(pthread_rwlock_init(&w, 0));
  OK(pthread_mutexattr_init(&a)); i = mc_choose(3); OK(pthread_mutexattr_settype(&a, i)); OK(pthread_mutex_init(&m, &a)); OK(pthread_mutexattr_destroy(&a));
  for (i = 0; i < 2; i++)
    {
      h = (HANDLE)_beginthreadex(0, 0, fbody, VP(what | (i ? nf : 0) << 8), 0, 0); mc_wait_all(); CloseHandle(h);
      if (i == 0) snap(); else if (mc_fail_ && what != 0) { MC_EQ(mc_handles(), acct[1], "handles leaked"); MC_EQ(mc_blocks(), acct[0], "memory leaked"); }
    }
  MC_EQ(dtor, what == 2 ? 2 : dtor, "destructor runs");
  OK(pthread_mutex_destroy(&m)); OK(pthread_mutex_destroy(&m2)); OK(pthread_cond_destroy(&c)); OK(sem_destroy(&sm)); OK(pthread_key_delete(k)); OK(pthread_rwlock_destroy(&w));
  end();
}
/* a foreign thread whose first use fails without any thread record having been made before */
static void frn1(int what, int nf)
{
  HANDLE h;
  OK(pthread_mutex_init(&m, 0)); OK(pthread_mutex_init(&m2, 0)); OK(pthread_cond_init(&c, 0)); OK(sem_init(&sm, 0, 1)); OK(pthread_key_create(&k, dt)); OK(pthread_rwlock_init(&w, 0));
  h = (HANDLE)_beginthreadex(0, 0, fbody, VP(what | nf << 8), 0, 0); mc_wait_all(); CloseHandle(h);
  OK(pthread_mutex_destroy(&m)); OK(pthread_mutex_destroy(&m2)); OK(pthread_cond_destroy(&c)); OK(sem_destroy(&sm)); OK(pthread_key_delete(k)); OK(pthread_rwlock_destroy(&w));
  end();
}
/* contention while events run short: the library's own queue locks must still exclude and hand over */
static int once_n, once_in; static pthread_once_t oc = PTHREAD_ONCE_INIT;
static void oinit(void) { GH(5)++; mc_point(); GH(6) = 1; }
static void *t_once(void *p) { OK(pthread_once(&oc, oinit)); MC_EQ(GH(6), 1, "pthread_once returned before the routine had finished"); return 0; }
static void cont_once(void) { go(2, t_once); mc_faults(2, F_EVENT); mc_wait_all(); mc_faults(0, 0); joinall(); MC_EQ(GH(5), 1, "routine runs"); done(); MC_EQ(mc_handles(), 0, "handles leaked"); }
static void *t_st(void *p) { int r = pthread_mutex_lock(&m); if (r) { MC_ASSERT(rerr(r), "documented error"); OK(pthread_mutex_lock(&m)); } MC_EQ(GH(7)++, 0, "two owners"); mc_point(); GH(7)--; OK(pthread_mutex_unlock(&m)); return 0; }
static void cont_static(void) { m = PTHREAD_MUTEX_INITIALIZER; go(2, t_st); mc_faults(1, F_EVENT | F_MALLOC); mc_wait_all(); mc_faults(0, 0); joinall(); OK(pthread_mutex_destroy(&m)); end(); }
static void *t_bar(void *p) { int r = pthread_barrier_wait(&b); GH(8) += r == PTHREAD_BARRIER_SERIAL_THREAD; if (r && r != PTHREAD_BARRIER_SERIAL_THREAD) MC_FAIL("barrier result"); return 0; }
static void cont_bar(void) { OK(pthread_barrier_init(&b, 0, 2)); go(2, t_bar); mc_faults(2, F_EVENT); mc_wait_all(); mc_faults(0, 0); joinall(); MC_EQ(GH(8), 1, "serial"); OK(pthread_barrier_destroy(&b)); end(); }
static void *t_sem(void *p) { OK(sem_wait(&sm)); GH(9)++; return 0; }
static void cont_sem(void) { OK(sem_init(&sm, 0, 0)); go(2, t_sem); mc_faults(1, F_EVENT); OK(sem_post(&sm)); OK(sem_post(&sm)); mc_wait_all(); mc_faults(0, 0); MC_EQ(GH(9), 2, "waiters"); joinall(); OK(sem_destroy(&sm)); end(); }
static void *t_cr(void *p) { pthread_t x; void *v; int r = pthread_create(&x, 0, body, VP(7)); if (r) { MC_EQ(r, EAGAIN, "pthread_create"); return 0; } GH(10)++; OK(pthread_join(x, &v)); MC_EQ((intptr_t)v, 9, "value"); return 0; }
static void cont_create(void) { go(2, t_cr); mc_faults(1, F_EVENT | F_THREAD); mc_wait_all(); mc_faults(0, 0); joinall(); MC_EQ(ran, GH(10), "threads run"); end(); }
static void *t_ks(void *p) { int r = pthread_setspecific(k, VP(6)); if (r) { MC_ASSERT(rerr(r), "error"); } else GH(11)++; return 0; }
static void gdt(void *p) { GH(12)++; }
static void cont_key(void) { OK(pthread_key_create(&k, gdt)); go(2, t_ks); mc_faults(1, F_EVENT | F_MALLOC | F_TLSSET); mc_wait_all(); mc_faults(0, 0); joinall(); MC_EQ(GH(12), GH(11), "destructor runs"); OK(pthread_key_delete(k)); end(); }
static void *t_dt(void *p) { return 0; }
static void cont_det(void) { pthread_t x; OK(pthread_create(&x, 0, t_dt, 0)); mc_faults(2, F_EVENT); OK(pthread_detach(x)); mc_wait_all(); mc_faults(0, 0); end(); }
static void *t_cc(void *p) { int o; pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &o); pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &o); pthread_testcancel(); return 0; }
static void cont_can(void) { pthread_t x; void *v; int r; OK(pthread_create(&x, 0, t_cc, 0)); mc_faults(2, F_EVENT); r = pthread_cancel(x); MC_ASSERT(r == 0 || r == ESRCH, "cancel"); mc_faults(0, 0); OK(pthread_join(x, &v)); end(); }
/* a thread the library cannot give its own identity to must not run as somebody else */
/* the library's own start-up */
static void boot(int nf) { int r; mc_proc_detach(); MC_EQ(mc_blocks(), 0, "blocks"); mc_faults(nf, ALLF); r = pthread_win32_process_attach_np(); mc_faults(0, 0); if (!r) { MC_EQ(mc_blocks(), 0, "memory leaked by failed start-up"); MC_EQ(mc_tls_used(), 0, "TLS leaked"); MC_ASSERT(pthread_win32_process_attach_np(), "second start-up"); } OK(pthread_create(&th, 0, body, VP(7))); use_t(); pthread_win32_process_detach_np(); MC_EQ(mc_blocks(), 0, "leak"); MC_EQ(mc_tls_used(), 0, "TLS leaked"); mc_proc_attach(); end(); }
/* the library starts itself on first use when it was not attached; all of that under shortage */
static void lazy(int what) { int r; mc_proc_detach(); mc_faults(1, ALLF); r = what == 0 ? pthread_create(&th, 0, body, VP(7)) : what == 1 ? pthread_cond_init(&c, 0) : (pthread_self().p ? 0 : EAGAIN); mc_faults(0, 0);
  if (r) { MC_ASSERT(rerr(r), "error"); r = what == 0 ? pthread_create(&th, 0, body, VP(7)) : what == 1 ? pthread_cond_init(&c, 0) : (pthread_self().p ? 0 : EAGAIN); MC_EQ(r, 0, "retry"); }
  if (what == 0) use_t(); if (what == 1) { OK(pthread_mutex_init(&m2, 0)); use_c(); un_c(); OK(pthread_mutex_destroy(&m2)); }
  pthread_win32_process_detach_np(); MC_EQ(mc_blocks(), 0, "leak"); MC_EQ(mc_tls_used(), 0, "TLS leaked"); mc_proc_attach(); end(); }
static void g1_0(void) { run(0, 1); }
static void g2_0(void) { run(0, 2); }
static void g3_0(void) { run(0, 3); }
static void g1_1(void) { run(1, 1); }
static void g2_1(void) { run(1, 2); }
static void g3_1(void) { run(1, 3); }
static void g1_2(void) { run(2, 1); }
static void g2_2(void) { run(2, 2); }
static void g3_2(void) { run(2, 3); }
static void g1_3(void) { run(3, 1); }
static void g2_3(void) { run(3, 2); }
static void g3_3(void) { run(3, 3); }
static void g1_4(void) { run(4, 1); }
static void g2_4(void) { run(4, 2); }
static void g3_4(void) { run(4, 3); }
static void g1_5(void) { run(5, 1); }
static void g2_5(void) { run(5, 2); }
static void g3_5(void) { run(5, 3); }
static void g1_6(void) { run(6, 1); }
static void g2_6(void) { run(6, 2); }
static void g3_6(void) { run(6, 3); }
static void g1_7(void) { run(7, 1); }
static void g2_7(void) { run(7, 2); }
static void g3_7(void) { run(7, 3); }
static void g1_8(void) { run(8, 1); }
static void g2_8(void) { run(8, 2); }
static void g3_8(void) { run(8, 3); }
static void g1_9(void) { run(9, 1); }
static void g2_9(void) { run(9, 2); }
static void g3_9(void) { run(9, 3); }
static void g1_10(void) { run(10, 1); }
static void g2_10(void) { run(10, 2); }
static void g3_10(void) { run(10, 3); }
static void g1_11(void) { run(11, 1); }
static void g2_11(void) { run(11, 2); }
static void g3_11(void) { run(11, 3); }
static void g1_12(void) { run(12, 1); }
static void g2_12(void) { run(12, 2); }
static void g3_12(void) { run(12, 3); }
static void g1_13(void) { run(13, 1); }
static void g2_13(void) { run(13, 2); }
static void g3_13(void) { run(13, 3); }
static void g1_14(void) { run(14, 1); }
static void g2_14(void) { run(14, 2); }
static void g3_14(void) { run(14, 3); }
static void g1_15(void) { run(15, 1); }
static void g2_15(void) { run(15, 2); }
static void g3_15(void) { run(15, 3); }
static void g1_16(void) { run(16, 1); }
static void g2_16(void) { run(16, 2); }
static void g3_16(void) { run(16, 3); }
static void g1_17(void) { run(17, 1); }
static void g2_17(void) { run(17, 2); }
static void g3_17(void) { run(17, 3); }
static void g1_18(void) { run(18, 1); }
static void g2_18(void) { run(18, 2); }
static void g3_18(void) { run(18, 3); }
static void g1_19(void) { run(19, 1); }
static void g2_19(void) { run(19, 2); }
static void g3_19(void) { run(19, 3); }
static void g1_20(void) { run(20, 1); }
static void g2_20(void) { run(20, 2); }
static void g3_20(void) { run(20, 3); }
static void g1_21(void) { run(21, 1); }
static void g2_21(void) { run(21, 2); }
static void g3_21(void) { run(21, 3); }
static void g1_22(void) { run(22, 1); }
static void g2_22(void) { run(22, 2); }
static void g3_22(void) { run(22, 3); }
static void g1_23(void) { run(23, 1); }
static void g2_23(void) { run(23, 2); }
static void g3_23(void) { run(23, 3); }
static void g1_24(void) { run(24, 1); }
static void g2_24(void) { run(24, 2); }
static void g3_24(void) { run(24, 3); }
static void g1_25(void) { run(25, 1); }
static void g2_25(void) { run(25, 2); }
static void g3_25(void) { run(25, 3); }
static void g1_26(void) { run(26, 1); }
static void g2_26(void) { run(26, 2); }
static void g3_26(void) { run(26, 3); }
static void g1_27(void) { run(27, 1); }
static void g2_27(void) { run(27, 2); }
static void g3_27(void) { run(27, 3); }
static void g1_28(void) { run(28, 1); }
static void g2_28(void) { run(28, 2); }
static void g3_28(void) { run(28, 3); }
static void g1_29(void) { run(29, 1); }
static void g2_29(void) { run(29, 2); }
static void g3_29(void) { run(29, 3); }
static void g1_30(void) { run(30, 1); }
static void g2_30(void) { run(30, 2); }
static void g3_30(void) { run(30, 3); }
static void g1_31(void) { run(31, 1); }
static void g2_31(void) { run(31, 2); }
static void g3_31(void) { run(31, 3); }
static void g1_32(void) { run(32, 1); }
static void g2_32(void) { run(32, 2); }
static void g3_32(void) { run(32, 3); }
static void g1_33(void) { run(33, 1); }
static void g2_33(void) { run(33, 2); }
static void g3_33(void) { run(33, 3); }
static void g1_34(void) { run(34, 1); }
static void g2_34(void) { run(34, 2); }
static void g3_34(void) { run(34, 3); }
static void g1_35(void) { run(35, 1); }
static void g2_35(void) { run(35, 2); }
static void g3_35(void) { run(35, 3); }
static void g1_36(void) { run(36, 1); }
static void g2_36(void) { run(36, 2); }
static void g3_36(void) { run(36, 3); }
static void g1_37(void) { run(37, 1); }
static void g2_37(void) { run(37, 2); }
static void g3_37(void) { run(37, 3); }
static void g1_38(void) { run(38, 1); }
static void g2_38(void) { run(38, 2); }
static void g3_38(void) { run(38, 3); }
static void g1_39(void) { run(39, 1); }
static void g2_39(void) { run(39, 2); }
static void g3_39(void) { run(39, 3); }
static void g1_40(void) { run(40, 1); }
static void g2_40(void) { run(40, 2); }
static void g3_40(void) { run(40, 3); }
static void g1_41(void) { run(41, 1); }
static void g2_41(void) { run(41, 2); }
static void g3_41(void) { run(41, 3); }
static void g1_42(void) { run(42, 1); }
static void g2_42(void) { run(42, 2); }
static void g3_42(void) { run(42, 3); }
static void h1_0(void) { frn(0, 1); }
static void j1_0(void) { frn1(0, 1); }
static void h2_0(void) { frn(0, 2); }
static void j2_0(void) { frn1(0, 2); }
static void h1_1(void) { frn(1, 1); }
static void j1_1(void) { frn1(1, 1); }
static void h2_1(void) { frn(1, 2); }
static void j2_1(void) { frn1(1, 2); }
static void h1_2(void) { frn(2, 1); }
static void j1_2(void) { frn1(2, 1); }
static void h2_2(void) { frn(2, 2); }
static void j2_2(void) { frn1(2, 2); }
static void h1_3(void) { frn(3, 1); }
static void j1_3(void) { frn1(3, 1); }
static void h2_3(void) { frn(3, 2); }
static void j2_3(void) { frn1(3, 2); }
static void h1_4(void) { frn(4, 1); }
static void j1_4(void) { frn1(4, 1); }
static void h2_4(void) { frn(4, 2); }
static void j2_4(void) { frn1(4, 2); }
static void h1_5(void) { frn(5, 1); }
static void j1_5(void) { frn1(5, 1); }
static void h2_5(void) { frn(5, 2); }
static void j2_5(void) { frn1(5, 2); }
static void h1_6(void) { frn(6, 1); }
static void j1_6(void) { frn1(6, 1); }
static void h2_6(void) { frn(6, 2); }
static void j2_6(void) { frn1(6, 2); }
static void h1_7(void) { frn(7, 1); }
static void j1_7(void) { frn1(7, 1); }
static void h2_7(void) { frn(7, 2); }
static void j2_7(void) { frn1(7, 2); }
static void h1_8(void) { frn(8, 1); }
static void j1_8(void) { frn1(8, 1); }
static void h2_8(void) { frn(8, 2); }
static void j2_8(void) { frn1(8, 2); }
static void h1_9(void) { frn(9, 1); }
static void j1_9(void) { frn1(9, 1); }
static void h2_9(void) { frn(9, 2); }
static void j2_9(void) { frn1(9, 2); }
static void h1_10(void) { frn(10, 1); }
static void j1_10(void) { frn1(10, 1); }
static void h2_10(void) { frn(10, 2); }
static void j2_10(void) { frn1(10, 2); }
static void h1_11(void) { frn(11, 1); }
static void j1_11(void) { frn1(11, 1); }
static void h2_11(void) { frn(11, 2); }
static void j2_11(void) { frn1(11, 2); }
static void h1_12(void) { frn(12, 1); }
static void j1_12(void) { frn1(12, 1); }
static void h2_12(void) { frn(12, 2); }
static void j2_12(void) { frn1(12, 2); }
static void h1_13(void) { frn(13, 1); }
static void j1_13(void) { frn1(13, 1); }
static void h2_13(void) { frn(13, 2); }
static void j2_13(void) { frn1(13, 2); }
static void h1_14(void) { frn(14, 1); }
static void j1_14(void) { frn1(14, 1); }
static void h2_14(void) { frn(14, 2); }
static void j2_14(void) { frn1(14, 2); }
static void h1_15(void) { frn(15, 1); }
static void j1_15(void) { frn1(15, 1); }
static void h2_15(void) { frn(15, 2); }
static void j2_15(void) { frn1(15, 2); }
static void h1_16(void) { frn(16, 1); }
static void j1_16(void) { frn1(16, 1); }
static void h2_16(void) { frn(16, 2); }
static void j2_16(void) { frn1(16, 2); }
static void boot1(void) { boot(1); }
static void boot2(void) { boot(2); }
static void lazy0(void) { lazy(0); }
static void lazy1(void) { lazy(1); }
static void lazy2(void) { lazy(2); }
mc_scen_t mc_scenarios[] = {
  {"mutex_1", g1_0, ""},
  {"mutex_2", g2_0, ""},
  {"mutex_3", g3_0, ""},
  {"mutex_rec_1", g1_1, ""},
  {"mutex_rec_2", g2_1, ""},
  {"mutex_rec_3", g3_1, ""},
  {"mutex_rob_1", g1_2, ""},
  {"mutex_rob_2", g2_2, ""},
  {"mutex_rob_3", g3_2, ""},
  {"mutex_rer_1", g1_3, ""},
  {"mutex_rer_2", g2_3, ""},
  {"mutex_rer_3", g3_3, ""},
  {"mattr_1", g1_4, ""},
  {"mattr_2", g2_4, ""},
  {"mattr_3", g3_4, ""},
  {"cond_1", g1_5, ""},
  {"cond_2", g2_5, ""},
  {"cond_3", g3_5, ""},
  {"cattr_1", g1_6, ""},
  {"cattr_2", g2_6, ""},
  {"cattr_3", g3_6, ""},
  {"rwlock_1", g1_7, ""},
  {"rwlock_2", g2_7, ""},
  {"rwlock_3", g3_7, ""},
  {"rwattr_1", g1_8, ""},
  {"rwattr_2", g2_8, ""},
  {"rwattr_3", g3_8, ""},
  {"spin_1", g1_9, ""},
  {"spin_2", g2_9, ""},
  {"spin_3", g3_9, ""},
  {"spin_up_1", g1_10, ""},
  {"spin_up_2", g2_10, ""},
  {"spin_up_3", g3_10, ""},
  {"barrier_1", g1_11, ""},
  {"barrier_2", g2_11, ""},
  {"barrier_3", g3_11, ""},
  {"battr_1", g1_12, ""},
  {"battr_2", g2_12, ""},
  {"battr_3", g3_12, ""},
  {"sem_1", g1_13, ""},
  {"sem_2", g2_13, ""},
  {"sem_3", g3_13, ""},
  {"attr_1", g1_14, ""},
  {"attr_2", g2_14, ""},
  {"attr_3", g3_14, ""},
  {"key_1", g1_15, ""},
  {"key_2", g2_15, ""},
  {"key_3", g3_15, ""},
  {"key0_1", g1_16, ""},
  {"key0_2", g2_16, ""},
  {"key0_3", g3_16, ""},
  {"set_1", g1_17, ""},
  {"set_2", g2_17, ""},
  {"set_3", g3_17, ""},
  {"set0_1", g1_18, ""},
  {"set0_2", g2_18, ""},
  {"set0_3", g3_18, ""},
  {"create_1", g1_19, ""},
  {"create_2", g2_19, ""},
  {"create_3", g3_19, ""},
  {"create_n_1", g1_20, ""},
  {"create_n_2", g2_20, ""},
  {"create_n_3", g3_20, ""},
  {"s_lock_1", g1_21, ""},
  {"s_lock_2", g2_21, ""},
  {"s_lock_3", g3_21, ""},
  {"s_lock1_1", g1_22, ""},
  {"s_lock1_2", g2_22, ""},
  {"s_lock1_3", g3_22, ""},
  {"s_lock2_1", g1_23, ""},
  {"s_lock2_2", g2_23, ""},
  {"s_lock2_3", g3_23, ""},
  {"s_try_1", g1_24, ""},
  {"s_try_2", g2_24, ""},
  {"s_try_3", g3_24, ""},
  {"s_try1_1", g1_25, ""},
  {"s_try1_2", g2_25, ""},
  {"s_try1_3", g3_25, ""},
  {"s_try2_1", g1_26, ""},
  {"s_try2_2", g2_26, ""},
  {"s_try2_3", g3_26, ""},
  {"s_tim_1", g1_27, ""},
  {"s_tim_2", g2_27, ""},
  {"s_tim_3", g3_27, ""},
  {"s_tim1_1", g1_28, ""},
  {"s_tim1_2", g2_28, ""},
  {"s_tim1_3", g3_28, ""},
  {"s_tim2_1", g1_29, ""},
  {"s_tim2_2", g2_29, ""},
  {"s_tim2_3", g3_29, ""},
  {"s_cw_1", g1_30, ""},
  {"s_cw_2", g2_30, ""},
  {"s_cw_3", g3_30, ""},
  {"s_rd_1", g1_31, ""},
  {"s_rd_2", g2_31, ""},
  {"s_rd_3", g3_31, ""},
  {"s_wr_1", g1_32, ""},
  {"s_wr_2", g2_32, ""},
  {"s_wr_3", g3_32, ""},
  {"s_trd_1", g1_33, ""},
  {"s_trd_2", g2_33, ""},
  {"s_trd_3", g3_33, ""},
  {"s_twr_1", g1_34, ""},
  {"s_twr_2", g2_34, ""},
  {"s_twr_3", g3_34, ""},
  {"s_mrd_1", g1_35, ""},
  {"s_mrd_2", g2_35, ""},
  {"s_mrd_3", g3_35, ""},
  {"s_mwr_1", g1_36, ""},
  {"s_mwr_2", g2_36, ""},
  {"s_mwr_3", g3_36, ""},
  {"s_sl_1", g1_37, ""},
  {"s_sl_2", g2_37, ""},
  {"s_sl_3", g3_37, ""},
  {"s_st_1", g1_38, ""},
  {"s_st_2", g2_38, ""},
  {"s_st_3", g3_38, ""},
  {"s_slu_1", g1_39, ""},
  {"s_slu_2", g2_39, ""},
  {"s_slu_3", g3_39, ""},
  {"s_stu_1", g1_40, ""},
  {"s_stu_2", g2_40, ""},
  {"s_stu_3", g3_40, ""},
  {"name_1", g1_41, ""},
  {"name_2", g2_41, ""},
  {"name_3", g3_41, ""},
  {"aname_1", g1_42, ""},
  {"aname_2", g2_42, ""},
  {"aname_3", g3_42, ""},
  {"frn0_1", h1_0, ""},
  {"frf0_1", j1_0, ""},
  {"frn0_2", h2_0, ""},
  {"frf0_2", j2_0, ""},
  {"frn1_1", h1_1, ""},
  {"frf1_1", j1_1, ""},
  {"frn1_2", h2_1, ""},
  {"frf1_2", j2_1, ""},
  {"frn2_1", h1_2, ""},
  {"frf2_1", j1_2, ""},
  {"frn2_2", h2_2, ""},
  {"frf2_2", j2_2, ""},
  {"frn3_1", h1_3, ""},
  {"frf3_1", j1_3, ""},
  {"frn3_2", h2_3, ""},
  {"frf3_2", j2_3, ""},
  {"frn4_1", h1_4, ""},
  {"frf4_1", j1_4, ""},
  {"frn4_2", h2_4, ""},
  {"frf4_2", j2_4, ""},
  {"frn5_1", h1_5, ""},
  {"frf5_1", j1_5, ""},
  {"frn5_2", h2_5, ""},
  {"frf5_2", j2_5, ""},
  {"frn6_1", h1_6, ""},
  {"frf6_1", j1_6, ""},
  {"frn6_2", h2_6, ""},
  {"frf6_2", j2_6, ""},
  {"frn7_1", h1_7, ""},
  {"frf7_1", j1_7, ""},
  {"frn7_2", h2_7, ""},
  {"frf7_2", j2_7, ""},
  {"frn8_1", h1_8, ""},
  {"frf8_1", j1_8, ""},
  {"frn8_2", h2_8, ""},
  {"frf8_2", j2_8, ""},
  {"frn9_1", h1_9, ""},
  {"frf9_1", j1_9, ""},
  {"frn9_2", h2_9, ""},
  {"frf9_2", j2_9, ""},
  {"frn10_1", h1_10, ""},
  {"frf10_1", j1_10, ""},
  {"frn10_2", h2_10, ""},
  {"frf10_2", j2_10, ""},
  {"frn11_1", h1_11, ""},
  {"frf11_1", j1_11, ""},
  {"frn11_2", h2_11, ""},
  {"frf11_2", j2_11, ""},
  {"frn12_1", h1_12, ""},
  {"frf12_1", j1_12, ""},
  {"frn12_2", h2_12, ""},
  {"frf12_2", j2_12, ""},
  {"frn13_1", h1_13, ""},
  {"frf13_1", j1_13, ""},
  {"frn13_2", h2_13, ""},
  {"frf13_2", j2_13, ""},
  {"frn14_1", h1_14, ""},
  {"frf14_1", j1_14, ""},
  {"frn14_2", h2_14, ""},
  {"frf14_2", j2_14, ""},
  {"frn15_1", h1_15, ""},
  {"frf15_1", j1_15, ""},
  {"frn15_2", h2_15, ""},
  {"frf15_2", j2_15, ""},
  {"frn16_1", h1_16, ""},
  {"frf16_1", j1_16, ""},
  {"frn16_2", h2_16, ""},
  {"frf16_2", j2_16, ""},
  {"boot1", boot1, ""},
  {"boot2", boot2, ""},
  {"lazy0", lazy0, ""},
  {"lazy1", lazy1, ""},
  {"lazy2", lazy2, ""},
  {"cont_once", cont_once, ""},
  {"cont_static", cont_static, ""},
  {"cont_bar", cont_bar, ""},
  {"cont_sem", cont_sem, ""},
  {"cont_create", cont_create, "q=2 t=3 w=5"},
  {"cont_key", cont_key, ""},
  {"cont_det", cont_det, ""},
  {"cont_can", cont_can, ""},
  {0}
};
