/* C20: everything is released, exactly once.  (The simulated heap and kernel report double frees, use after free and closed handles in every suite; here: accounting, footprint, and destruction by the last user.) */
#include "common.h"
static void fin(void) { done(); MC_EQ(mc_blocks(), 0, "memory leaked"); MC_EQ(mc_handles(), 0, "handles leaked"); MC_EQ(mc_tls_used(), 0, "TLS slots leaked"); }
/* ---- the last of several threads that used an object destroys it ---- */
static int ref;
static pthread_mutex_t m; static sem_t s, s2; static pthread_rwlock_t w; static pthread_spinlock_t sp; static pthread_cond_t c; static pthread_barrier_t b; static int flag;
static void mxk(int ty, int rb) { pthread_mutexattr_t a; OK(pthread_mutexattr_init(&a)); OK(pthread_mutexattr_settype(&a, ty)); OK(pthread_mutexattr_setrobust(&a, rb)); OK(pthread_mutex_init(&m, &a)); OK(pthread_mutexattr_destroy(&a)); }
static void *l_mx(void *p) { int r; OK(pthread_mutex_lock(&m)); r = --ref; OK(pthread_mutex_unlock(&m)); if (!r) OK(pthread_mutex_destroy(&m)); return p; }
static void *l_mt(void *p) { int r, q; struct timespec t = ts_in(2); q = pthread_mutex_timedlock(&m, &t); if (q == ETIMEDOUT) OK(pthread_mutex_lock(&m)); else OK(q); r = --ref; OK(pthread_mutex_unlock(&m)); if (!r) OK(pthread_mutex_destroy(&m)); return p; }
static void *l_my(void *p) { int r, q; while ((q = pthread_mutex_trylock(&m)) == EBUSY) mc_point(); OK(q); r = --ref; OK(pthread_mutex_unlock(&m)); if (!r) OK(pthread_mutex_destroy(&m)); return p; }
static void run(int n, void *(*f)(void *), void *(*g)(void *)) { ref = n; go(n - 1, f); go(1, g); mc_wait_all(); MC_EQ(ref, 0, "all came by"); joinall(); fin(); }
static void mx2(void) { static const int k[6][2] = {{0, 0}, {1, 0}, {2, 0}, {0, 1}, {1, 1}, {2, 1}}; int i = mc_choose(6); mxk(k[i][0], k[i][1]); run(2, l_mx, l_mx); }
static void mx3(void) { mxk(0, 0); run(3, l_mx, l_mx); }
static void mx3k(int t, int r) { mxk(t, r); run(3, l_mx, l_mx); }
static void mx3r(void) { mx3k(PTHREAD_MUTEX_RECURSIVE, 0); } static void mx3b(void) { mx3k(0, 1); } static void mx3br(void) { mx3k(PTHREAD_MUTEX_RECURSIVE, 1); }
static void mt2(void) { mxk(0, 0); run(2, l_mx, l_mt); } static void mt3(void) { mxk(0, 0); run(3, l_mx, l_mt); } static void my3(void) { mxk(0, 0); run(3, l_mx, l_my); }
static void mtr2(void) { mxk(PTHREAD_MUTEX_RECURSIVE, mc_choose(2)); run(2, l_mx, l_mt); }
static void *l_sm(void *p) { int r; OK(sem_wait(&s)); r = --ref; OK(sem_post(&s)); if (!r) OK(sem_destroy(&s)); return p; }
static void sm2(void) { OK(sem_init(&s, 0, 1)); run(2, l_sm, l_sm); } static void sm3(void) { OK(sem_init(&s, 0, 1)); run(3, l_sm, l_sm); }
/* a semaphore announces that something is done: the waiter destroys it */
static void *l_post(void *p) { OK(sem_post(&s)); return p; }
static void *l_pm(void *p) { OK(sem_post_multiple(&s, 2)); return p; }
static void comp(void) { int n = 1 + mc_choose(2), i; OK(sem_init(&s, 0, 0)); go(n, l_post); for (i = 0; i < n; i++) OK(sem_wait(&s)); OK(sem_destroy(&s)); mc_wait_all(); joinall(); fin(); }
static void compt(void) { struct timespec t = ts_in(1); OK(sem_init(&s, 0, 0)); go(1, l_post); if (sem_timedwait(&s, &t)) { EQ(errno, ETIMEDOUT); OK(sem_wait(&s)); } OK(sem_destroy(&s)); mc_wait_all(); joinall(); fin(); }
static void compy(void) { OK(sem_init(&s, 0, 0)); go(1, l_post); while (sem_trywait(&s)) mc_point(); OK(sem_destroy(&s)); mc_wait_all(); joinall(); fin(); }
static void compm(void) { OK(sem_init(&s, 0, 0)); go(1, l_pm); OK(sem_wait(&s)); OK(sem_wait(&s)); OK(sem_destroy(&s)); mc_wait_all(); joinall(); fin(); }
/* a flag under a mutex, announced through a condition variable: the waiter destroys both */
static void *l_sig(void *p) { OK(pthread_mutex_lock(&m)); flag++; OK(pthread_cond_signal(&c)); OK(pthread_mutex_unlock(&m)); return p; }
static void *l_bc(void *p) { OK(pthread_mutex_lock(&m)); flag++; OK(pthread_cond_broadcast(&c)); OK(pthread_mutex_unlock(&m)); return p; }
static void cv(int n, void *(*f)(void *)) { flag = 0; OK(pthread_mutex_init(&m, 0)); OK(pthread_cond_init(&c, 0)); go(n, f); OK(pthread_mutex_lock(&m)); while (flag < n) OK(pthread_cond_wait(&c, &m)); OK(pthread_mutex_unlock(&m)); OK(pthread_cond_destroy(&c)); OK(pthread_mutex_destroy(&m)); mc_wait_all(); joinall(); fin(); }
static void cv1(void) { cv(1, l_sig); } static void cv2(void) { cv(2, l_sig); } static void cv1b(void) { cv(1, l_bc); } static void cv2b(void) { cv(2, l_bc); }
/* two waiters, the last one destroys both */
static void *l_cw(void *p) { int r; OK(pthread_mutex_lock(&m)); while (!flag) OK(pthread_cond_wait(&c, &m)); r = --ref; OK(pthread_mutex_unlock(&m)); if (!r) { OK(pthread_cond_destroy(&c)); OK(pthread_mutex_destroy(&m)); } return p; }
static void *l_cb(void *p) { int r; OK(pthread_mutex_lock(&m)); flag = 1; OK(pthread_cond_broadcast(&c)); r = --ref; OK(pthread_mutex_unlock(&m)); if (!r) { OK(pthread_cond_destroy(&c)); OK(pthread_mutex_destroy(&m)); } return p; }
static void cvl(void) { flag = 0; OK(pthread_mutex_init(&m, 0)); OK(pthread_cond_init(&c, 0)); run(2, l_cw, l_cb); } static void cvl3(void) { flag = 0; OK(pthread_mutex_init(&m, 0)); OK(pthread_cond_init(&c, 0)); run(3, l_cw, l_cb); }
static void *l_ww(void *p) { int r; OK(pthread_rwlock_wrlock(&w)); r = --ref; OK(pthread_rwlock_unlock(&w)); if (!r) OK(pthread_rwlock_destroy(&w)); return p; }
static void *l_wr(void *p) { int r; OK(pthread_rwlock_rdlock(&w)); r = (int)InterlockedDecrement((long *)&ref); OK(pthread_rwlock_unlock(&w)); if (!r) { OK(pthread_rwlock_wrlock(&w)); OK(pthread_rwlock_unlock(&w)); OK(pthread_rwlock_destroy(&w)); } return p; }
static void ww2(void) { OK(pthread_rwlock_init(&w, 0)); run(2, l_ww, l_ww); } static void ww3(void) { OK(pthread_rwlock_init(&w, 0)); run(3, l_ww, l_ww); }
static void rw2(void) { OK(pthread_rwlock_init(&w, 0)); run(2, l_ww, l_wr); } static void rr2(void) { OK(pthread_rwlock_init(&w, 0)); run(2, l_wr, l_wr); }
static void *l_sp(void *p) { int r; OK(pthread_spin_lock(&sp)); r = --ref; OK(pthread_spin_unlock(&sp)); if (!r) OK(pthread_spin_destroy(&sp)); return p; }
static void sp2(void) { if (mc_choose(2)) mc_cpus(1, 1); OK(pthread_spin_init(&sp, 0)); run(2, l_sp, l_sp); } static void sp3(void) { if (mc_choose(2)) mc_cpus(1, 1); OK(pthread_spin_init(&sp, 0)); run(3, l_sp, l_sp); }
static void *l_ba(void *p) { int r = pthread_barrier_wait(&b); if (r == PTHREAD_BARRIER_SERIAL_THREAD) { OK(pthread_barrier_destroy(&b)); ref -= 2; } else OK(r); return p; }
static void ba2(void) { OK(pthread_barrier_init(&b, 0, 2)); run(2, l_ba, l_ba); }
/* the owner of a robust mutex ends holding it, the next one repairs and destroys it */
static void *l_die(void *p) { OK(pthread_mutex_lock(&m)); GH(0) = 1; return p; }
static void *l_rep(void *p) { while (!GH(0)) mc_point(); EQ(pthread_mutex_lock(&m), EOWNERDEAD); if (mc_choose(2)) OK(pthread_mutex_consistent(&m)); OK(pthread_mutex_unlock(&m)); OK(pthread_mutex_destroy(&m)); return p; }
static void die(void) { mxk(mc_choose(2), 1); go(1, l_die); go(1, l_rep); mc_wait_all(); joinall(); fin(); }
/* ---- single-threaded histories of create / use / destroy ---- */
static void nop(void *p) { (void)p; } static void nopv(void) {}
static void *ret(void *p) { return p; }
static void *cw(void *p) { OK(pthread_mutex_lock(&m)); pthread_cleanup_push((void (*)(void *))pthread_mutex_unlock, &m); pthread_cond_wait(&c, &m); pthread_cleanup_pop(1); return p; }
static void *swt(void *p) { OK(sem_wait(&s)); return p; }
static pthread_key_t ky;
static void *usek(void *p) { OK(pthread_setspecific(ky, p ? p : VP(1))); return p; }
static void unit(int k)
{
  struct timespec t; pthread_t h; void *v; pthread_attr_t a; pthread_mutexattr_t ma; pthread_condattr_t ca; pthread_rwlockattr_t ra; pthread_barrierattr_t bt;
  switch (k)
    {
    case 0: mxk(mc_choose(3), mc_choose(2)); OK(pthread_mutex_lock(&m)); OK(pthread_mutex_unlock(&m)); OK(pthread_mutex_destroy(&m)); break;
    case 1: { pthread_mutex_t i[3] = {PTHREAD_MUTEX_INITIALIZER, PTHREAD_RECURSIVE_MUTEX_INITIALIZER, PTHREAD_ERRORCHECK_MUTEX_INITIALIZER}; m = i[mc_choose(3)]; if (mc_choose(2)) { OK(pthread_mutex_trylock(&m)); OK(pthread_mutex_unlock(&m)); } OK(pthread_mutex_destroy(&m)); break; }
    case 2: { pthread_cond_t i = PTHREAD_COND_INITIALIZER; c = i; if (mc_choose(2)) OK(pthread_cond_init(&c, 0)); if (mc_choose(2)) { mxk(0, 0); OK(pthread_mutex_lock(&m)); t = ts_in(2); EQ(pthread_cond_timedwait(&c, &m, &t), ETIMEDOUT); OK(pthread_mutex_unlock(&m)); OK(pthread_mutex_destroy(&m)); } if (mc_choose(2)) OK(pthread_cond_broadcast(&c)); OK(pthread_cond_destroy(&c)); break; }
    case 3: OK(sem_init(&s, 0, mc_choose(2))); t = ts_in(2); if (sem_timedwait(&s, &t)) { EQ(errno, ETIMEDOUT); OK(sem_post(&s)); } OK(sem_destroy(&s)); break;
    case 4: { pthread_rwlock_t i = PTHREAD_RWLOCK_INITIALIZER; w = i; if (mc_choose(2)) OK(pthread_rwlock_init(&w, 0)); if (mc_choose(2)) { OK(pthread_rwlock_rdlock(&w)); OK(pthread_rwlock_tryrdlock(&w)); EQ(pthread_rwlock_trywrlock(&w), EBUSY); t = ts_in(2); EQ(pthread_rwlock_timedwrlock(&w, &t), ETIMEDOUT); OK(pthread_rwlock_unlock(&w)); OK(pthread_rwlock_unlock(&w)); } if (mc_choose(2)) { OK(pthread_rwlock_wrlock(&w)); OK(pthread_rwlock_unlock(&w)); } OK(pthread_rwlock_destroy(&w)); break; }
    case 5: OK(pthread_barrier_init(&b, 0, 1)); EQ(pthread_barrier_wait(&b), PTHREAD_BARRIER_SERIAL_THREAD); EQ(pthread_barrier_wait(&b), PTHREAD_BARRIER_SERIAL_THREAD); OK(pthread_barrier_destroy(&b)); break;
    case 6: { pthread_spinlock_t i = PTHREAD_SPINLOCK_INITIALIZER; sp = i; if (mc_choose(2)) OK(pthread_spin_init(&sp, 0)); OK(pthread_spin_lock(&sp)); EQ(pthread_spin_trylock(&sp), EBUSY); OK(pthread_spin_unlock(&sp)); OK(pthread_spin_destroy(&sp)); break; }
    case 7: OK(pthread_key_create(&ky, mc_choose(2) ? nop : 0)); OK(pthread_setspecific(ky, VP(3))); if (mc_choose(2)) { OK(pthread_create(&h, 0, usek, 0)); OK(pthread_join(h, &v)); } OK(pthread_key_delete(ky)); break;
    case 8: OK(pthread_attr_init(&a)); OK(pthread_attr_setname_np(&a, "one")); OK(pthread_attr_setname_np(&a, "two")); if (mc_choose(2)) { OK(pthread_create(&h, &a, ret, 0)); OK(pthread_join(h, &v)); } OK(pthread_attr_destroy(&a)); break;
    case 9: OK(pthread_mutexattr_init(&ma)); OK(pthread_mutexattr_destroy(&ma)); OK(pthread_condattr_init(&ca)); OK(pthread_condattr_destroy(&ca)); OK(pthread_rwlockattr_init(&ra)); OK(pthread_rwlockattr_destroy(&ra)); OK(pthread_barrierattr_init(&bt)); OK(pthread_barrierattr_destroy(&bt)); break;
    case 10: { pthread_once_t o = PTHREAD_ONCE_INIT; OK(pthread_once(&o, nopv)); OK(pthread_once(&o, nopv)); break; }
    case 11: OK(pthread_setname_np(pthread_self(), mc_choose(2) ? "main" : "")); break;
    case 12: OK(pthread_create(&h, 0, ret, 0)); if (mc_choose(2)) OK(pthread_join(h, &v)); else OK(pthread_detach(h)); mc_wait_all(); break;
    case 13: mxk(0, 0); OK(pthread_cond_init(&c, 0)); OK(pthread_create(&h, 0, cw, 0)); mc_quiesce(); OK(pthread_cancel(h)); OK(pthread_join(h, &v)); OK(pthread_cond_destroy(&c)); OK(pthread_mutex_destroy(&m)); break;
    case 14: OK(sem_init(&s, 0, 0)); OK(pthread_create(&h, 0, swt, 0)); if (mc_choose(2)) mc_quiesce(); OK(pthread_cancel(h)); OK(pthread_join(h, &v)); OK(sem_destroy(&s)); break;
    }
}
static void hist1(void) { unit(mc_choose(15)); fin(); }
static void hist2(void) { unit(mc_choose(15)); unit(mc_choose(15)); fin(); }
/* the footprint of any unit does not grow when it is repeated (the first round may create what is kept for re-use) */
static void hist3(void) { unit(mc_choose(15)); unit(mc_choose(15)); unit(mc_choose(15)); fin(); }
static void grow(void) { pthread_t h_; void *v_; int k = mc_choose(15), i, h = 0, bl = 0, t = 0; pthread_self(); OK(pthread_create(&h_, 0, ret, 0)); OK(pthread_join(h_, &v_)); for (i = 0; i < 3; i++) { unit(k); mc_wait_all(); if (i == 0) { h = mc_handles(); bl = mc_blocks(); t = mc_tls_used(); } else { MC_EQ(mc_handles(), h, "handles grow"); MC_EQ(mc_blocks(), bl, "memory grows"); MC_EQ(mc_tls_used(), t, "TLS slots grow"); } } fin(); }
/* what was destroyed is gone at once, not only at shutdown */
static void now(void) { int k = mc_choose(11), h, bl, t; OK(pthread_setname_np(pthread_self(), "")); h = mc_handles(); bl = mc_blocks(); t = mc_tls_used(); if (k == 7 || k == 8) return; unit(k); MC_EQ(mc_handles(), h, "handles kept"); MC_EQ(mc_blocks(), bl, "memory kept"); MC_EQ(mc_tls_used(), t, "TLS slots kept"); fin(); }
/* started, used, shut down, started again */
static void again(void) { int i; for (i = 0; i < 3; i++) { unit(i == 1 ? mc_choose(15) : mc_choose(2) ? 7 : 12); fin(); mc_proc_attach(); } fin(); }
/* ---- threads: every way to end, every way to be released, with everything attached ---- */
static int how, feat; static pthread_mutex_t rob;
static void *body(void *p)
{
  if (how == 4) feat &= ~4; /* a killed thread does nothing more */
  if (feat & 1) OK(pthread_setspecific(ky, VP(1)));
  if (feat & 2) OK(pthread_setname_np(pthread_self(), "worker"));
  if (feat & 4) OK(pthread_mutex_lock(&rob));
  if (feat & 8) OK(pthread_detach(pthread_self()));
  switch (how)
    {
    case 1: pthread_exit(VP(9));
    case 2: OK(pthread_cancel(pthread_self())); pthread_testcancel(); break;
    case 3: OK(pthread_setcanceltype(PTHREAD_CANCEL_ASYNCHRONOUS, 0)); pthread_cancel(pthread_self()); for (;;) mc_point();
    case 4: pthread_kill(pthread_self(), SIGABRT); for (;;) mc_point();
    case 5: OK(sem_wait(&s)); break;
    }
  return p;
}
static void ends(int nt)
{
  pthread_mutexattr_t ma; pthread_attr_t a; void *v; int i, rel, q; pthread_t h[2];
  how = mc_choose(6); feat = nt > 1 ? mc_choose(2) * 7 : mc_choose(16); rel = feat & 8 ? 0 : 1 + mc_choose(nt > 1 ? 2 : 5);
  OK(pthread_key_create(&ky, nop)); OK(sem_init(&s, 0, 0)); OK(pthread_mutexattr_init(&ma)); OK(pthread_mutexattr_setrobust(&ma, 1)); OK(pthread_mutexattr_settype(&ma, PTHREAD_MUTEX_RECURSIVE)); OK(pthread_mutex_init(&rob, &ma)); OK(pthread_mutexattr_destroy(&ma)); OK(pthread_attr_init(&a)); if (feat & 2) OK(pthread_attr_setname_np(&a, "initial"));
  if (rel == 5) OK(pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED));
  for (i = 0; i < nt; i++) { OK(pthread_create(&h[i], &a, body, VP(1))); if (nt > 1 && (feat & 4)) feat &= ~4; }
  OK(pthread_attr_destroy(&a));
  if (how == 5) for (i = 0; i < nt; i++) OK(pthread_cancel(h[i]));
  for (i = 0; i < nt; i++) switch (rel)
    {
    case 1: OK(pthread_join(h[i], &v)); break;
    case 2: OK(pthread_detach(h[i])); break;
    case 3: while ((q = pthread_tryjoin_np(h[i], &v)) == EBUSY) mc_point(); OK(q); break;
    case 4: { struct timespec t = ts_in(1); q = pthread_timedjoin_np(h[i], &v, &t); if (q == ETIMEDOUT) OK(pthread_join(h[i], &v)); else OK(q); break; }
    default: break;
    }
  mc_wait_all(); q = pthread_mutex_lock(&rob); MC_ASSERT(q == 0 || q == EOWNERDEAD, "lock"); if (q) OK(pthread_mutex_consistent(&rob)); OK(pthread_mutex_unlock(&rob)); OK(pthread_mutex_destroy(&rob)); OK(sem_destroy(&s)); OK(pthread_key_delete(ky)); fin();
}
static void end1(void) { ends(1); } static void end2(void) { ends(2); }
/* a thread killed or cancelled at any point before, during and after its start */
static void *idle(void *p) { if (how == 1) OK(pthread_detach(pthread_self())); mc_point(); pthread_testcancel(); return p; }
static void early(void) { pthread_t h; void *v; how = mc_choose(2); OK(pthread_create(&h, 0, idle, 0)); { int q = pthread_cancel(h); MC_ASSERT(q == 0 || q == ESRCH, "cancel"); } if (!how) OK(pthread_join(h, &v)); fin(); }
mc_scen_t mc_scenarios[] = {
  {"mutex2", mx2, ""}, {"mutex3", mx3, ""}, {"mutex3_rec", mx3r, ""}, {"mutex3_rob", mx3b, ""}, {"mutex3_rr", mx3br, ""}, {"mutex_timed2", mt2, ""}, {"mutex_timed3", mt3, ""}, {"mutex_timedrec", mtr2, ""}, {"mutex_try3", my3, ""},
  {"mutex_died", die, ""}, {"sem2", sm2, ""}, {"sem3", sm3, ""}, {"complete", comp, ""}, {"complete_timed", compt, ""}, {"complete_try", compy, ""}, {"complete_multi", compm, ""},
  {"cond1", cv1, ""}, {"cond2", cv2, ""}, {"cond1b", cv1b, ""}, {"cond2b", cv2b, ""}, {"cond_last", cvl, ""}, {"cond_last3", cvl3, ""},
  {"rwlock_ww", ww2, ""}, {"rwlock_ww3", ww3, ""}, {"rwlock_wr", rw2, ""}, {"rwlock_rr", rr2, ""}, {"spin2", sp2, ""}, {"spin3", sp3, ""}, {"barrier2", ba2, ""},
  {"hist1", hist1, ""}, {"hist2", hist2, ""}, {"hist3", hist3, "q=- t=2"}, {"grow", grow, ""}, {"now", now, ""}, {"again", again, "q=3 t=u w=5"}, {"end1", end1, "q=2 t=u w=6"}, {"end2", end2, "q=1 t=2 w=6"}, {"early", early, ""},
  {0}
};
