/* C25: pthread_timechange_handler_np wakes every waiter of every condition variable and may run at any time. */
#include "act.h"
static pthread_mutex_t m; static pthread_cond_t c[4]; static int waiting, woken, stop_, inside;
static pthread_cond_t late = PTHREAD_COND_INITIALIZER;
static int handler(void) { return (int)(intptr_t)pthread_timechange_handler_np(NULL); }
static void lk(void) { OK(pthread_mutex_lock(&m)); MC_ASSERT(!inside, "two threads hold the mutex"); inside = 1; }
static void un(void) { inside = 0; OK(pthread_mutex_unlock(&m)); }
static void setup(int n) { OK(pthread_mutex_init(&m, NULL)); for (int i = 0; i < n; i++) OK(pthread_cond_init(&c[i], NULL)); }
static void finish(void) { OK(pthread_mutex_destroy(&m)); done(); MC_EQ(mc_blocks(), 0, "memory leaked"); MC_EQ(mc_handles(), 0, "handles leaked"); }
/* waits once for c[i]: nobody but the handler wakes it */
static void *w1(void *a)
{ int i = (int)(intptr_t)a; lk(); waiting++; inside = 0; OK(pthread_cond_wait(&c[i], &m)); MC_ASSERT(!inside, "woken without the mutex"); inside = 1; woken++; un(); return a; }
static struct timespec dl; static int must;
static void *wt1(void *a)
{
  int i = (int)(intptr_t)a, r; lk(); dl = ts_in(3600000); waiting++; inside = 0; r = pthread_cond_timedwait(&c[i], &m, &dl); MC_ASSERT(!inside, "woken without the mutex"); inside = 1;
  MC_ASSERT(r == 0 || r == ETIMEDOUT, "timed wait"); MC_ASSERT(r == 0 || ts_passed(&dl), "timed out early"); MC_ASSERT(!must || r == 0, "not woken by the handler"); woken++; un(); return VP(r);
}
static void until(int n) { for (;;) { lk(); if (waiting >= n) { un(); return; } un(); Sleep(0); } }
/* n condition variables with k waiters each; the handler called with or without the mutex */
static void all_woken(int n, int k, int locked)
{
  setup(n); for (int j = 0; j < k; j++) for (int i = 0; i < n; i++) { OK(pthread_create(&th_[nth_], NULL, w1, VP(i))); nth_++; }
  until(n * k); if (locked) lk(); EQ(handler(), 0); if (locked) un();
  joinall(); MC_EQ(woken, n * k, "woken"); for (int i = 0; i < n; i++) OK(pthread_cond_destroy(&c[i])); finish();
}
static void all1(void) { all_woken(1, 1, 0); }
static void all1k(void) { all_woken(1, 2, mc_choose(2)); }
static void all2(void) { all_woken(2, 1, mc_choose(2)); }
static void all3(void) { all_woken(3, 1, 0); }
/* the list of condition variables: every history of making and destroying them; then a waiter on each that exists */
static void lists(int depth)
{
  int live = 0, used = 0; setup(0);
  for (int d = 0; d < depth; d++)
    {
      int i = mc_choose(4); if (i == 3) break;
      if (live >> i & 1) { OK(pthread_cond_destroy(&c[i])); live &= ~(1 << i); }
      else { if (mc_choose(2)) OK(pthread_cond_init(&c[i], NULL)); else { c[i] = PTHREAD_COND_INITIALIZER; OK(pthread_cond_signal(&c[i])); } live |= 1 << i; }
    }
  for (int i = 0; i < 3; i++) if (live >> i & 1) { OK(pthread_create(&th_[nth_], NULL, w1, VP(i))); nth_++; used++; }
  mc_quiesce(); MC_EQ(waiting, used, "waiting"); EQ(handler(), 0); mc_quiesce(); MC_EQ(woken, used, "a condition variable was left out");
  EQ(handler(), 0); joinall(); for (int i = 0; i < 3; i++) if (live >> i & 1) OK(pthread_cond_destroy(&c[i])); EQ(handler(), 0); finish();
}
static void list5(void) { lists(5); }
static void list7(void) { lists(7); }
/* the handler against making, destroying, first use, signal, a leaving waiter */
static void *hnd(void *a) { EQ((intptr_t)pthread_timechange_handler_np(a), 0); return a; }
static int what_;
static void *other(void *a)
{
  switch (what_)
    {
    case 0: OK(pthread_cond_init(&c[1], NULL)); OK(pthread_cond_destroy(&c[1])); break;
    case 1: OK(pthread_cond_destroy(&c[1])); OK(pthread_cond_init(&c[1], NULL)); break;
    case 2: { struct timespec ts = ts_in(-10); lk(); inside = 0; int r = pthread_cond_timedwait(&late, &m, &ts); inside = 1; un(); MC_ASSERT(r == 0 || r == ETIMEDOUT, "timed wait"); } break;
    case 3: OK(pthread_cond_broadcast(&c[0])); break;
    case 4: EQ((intptr_t)pthread_timechange_handler_np(NULL), 0); break;
    case 5: { struct timespec ts = ts_in(10); int r; lk(); inside = 0; r = pthread_cond_timedwait(&c[1], &m, &ts); inside = 1; un(); MC_ASSERT(r == 0 || r == ETIMEDOUT, "timed wait"); MC_ASSERT(r == 0 || ts_passed(&ts), "timed out early"); } break;
    }
  return a;
}
static void against(int what, int before, int waiter)
{
  what_ = what; setup(before); if (waiter) { OK(pthread_create(&th_[nth_], NULL, w1, VP(0))); nth_++; until(1); }
  OK(pthread_create(&th_[nth_], NULL, hnd, VP(0))); nth_++; OK(pthread_create(&th_[nth_], NULL, other, VP(1))); nth_++;
  joinall(); if (waiter) MC_EQ(woken, 1, "woken");
  /* the list is intact: the next change reaches everybody */
  for (int i = 0; i < before; i++) { OK(pthread_create(&th_[nth_], NULL, w1, VP(i))); nth_++; }
  mc_quiesce(); EQ(handler(), 0); mc_quiesce(); MC_EQ(woken, before + waiter, "a condition variable was left out"); joinall();
  for (int i = 0; i < before; i++) OK(pthread_cond_destroy(&c[i])); if (what == 2) OK(pthread_cond_destroy(&late)); finish();
}
static void a_init(void) { against(0, 1, 0); }
static void a_destroy(void) { against(1, 2, 0); }
static void a_static(void) { against(2, 1, 0); }
static void a_bcast(void) { against(3, 1, 1); }
static void a_twice(void) { against(4, 1, 1); }
static void a_timed(void) { against(5, 2, 0); }
/* several creators and destroyers at once, then the handler */
static void *mk(void *a) { int i = (int)(intptr_t)a; OK(pthread_cond_init(&c[i], NULL)); return a; }
static void *mkrm(void *a) { int i = (int)(intptr_t)a; OK(pthread_cond_init(&c[i], NULL)); OK(pthread_cond_destroy(&c[i])); return a; }
static void *rm(void *a) { int i = (int)(intptr_t)a; OK(pthread_cond_destroy(&c[i])); return a; }
static void churn(void *(*f)(void *), void *(*g)(void *), int pre, int liveafter)
{
  int n = 0; setup(0); for (int i = 0; i < 3; i++) if (pre >> i & 1) OK(pthread_cond_init(&c[i], NULL));
  OK(pthread_create(&th_[0], NULL, f, VP(0))); OK(pthread_create(&th_[1], NULL, g, VP(1))); nth_ = 2; joinall();
  for (int i = 0; i < 3; i++) if (liveafter >> i & 1) { OK(pthread_create(&th_[nth_], NULL, w1, VP(i))); nth_++; n++; }
  mc_quiesce(); EQ(handler(), 0); mc_quiesce(); MC_EQ(woken, n, "a condition variable was left out"); joinall();
  for (int i = 0; i < 3; i++) if (liveafter >> i & 1) OK(pthread_cond_destroy(&c[i])); finish();
}
static void c_mkmk(void) { churn(mk, mk, 4, 7); }
static void c_rmrm(void) { churn(rm, rm, 7, 4); }
static void c_mkrm(void) { churn(mk, rm, 6, 5); }
static void c_mkrm2(void) { churn(mkrm, mkrm, 4, 4); }
/* the clock is set back while a thread waits; told about it, it does not give up early, whenever it was told */
static int tr, tpassed, told; static mcu64 mono;
static void *tw(void *a)
{
  struct timespec ts; int r = 0; lk(); ts = ts_in(5000); mono = GetTickCount64() + 5000; waiting++;
  while (r == 0 && !stop_) { inside = 0; r = pthread_cond_timedwait(&c[0], &m, &ts); inside = 1; }
  tr = r; tpassed = ts_passed(&ts); MC_ASSERT(r == 0 || r == ETIMEDOUT, "timed wait"); mc_cover(r == 0); un(); return a;
}
static void *tickle(void *a) { lk(); stop_ = 1; OK(pthread_cond_signal(&c[0])); un(); return a; }
/* back: the waiter must go on waiting; forward: it must notice at once that its time has come */
static void step(long long d, int signalled)
{
  setup(1); OK(pthread_create(&th_[0], NULL, tw, VP(0))); nth_ = 1; until(1);
  lk(); mc_step_clock(d * 10000); un(); EQ(handler(), 0); told = GetTickCount64() < mono; mc_cover(10 + told);
  if (signalled) { OK(pthread_create(&th_[1], NULL, tickle, VP(1))); nth_ = 2; }
  joinall(); MC_ASSERT(!told || tr == 0 || tpassed, "gave up although the clock shows a time before the deadline");
  if (d > 5000 && told) MC_ASSERT(GetTickCount64() < mono && tr == ETIMEDOUT, "a waiter whose deadline was passed by setting the clock forward went on waiting");
  OK(pthread_cond_destroy(&c[0])); finish();
}
static void back(void) { step(-3600000, 0); }
static void back_sig(void) { step(-1, 1); }
static void fwd(void) { step(3600000, 0); }
/* nothing to wake; before anything was ever used; after everything was destroyed */
static void none(void)
{
  if (mc_choose(2)) { OK(pthread_cond_init(&c[0], NULL)); OK(pthread_cond_destroy(&c[0])); }
  EQ(handler(), 0); setup(2); EQ(handler(), 0); lk(); EQ(handler(), 0); un(); OK(pthread_create(&th_[0], NULL, w1, VP(1))); nth_ = 1; mc_quiesce(); EQ(handler(), 0); joinall();
  OK(pthread_cond_destroy(&c[1])); OK(pthread_cond_destroy(&c[0])); EQ(handler(), 0); finish();
}
/* a timed waiter with a far deadline is woken too */
static void timedw(void)
{
  void *r; setup(1); OK(pthread_create(&th_[0], NULL, wt1, VP(0))); until(1); EQ(handler(), 0); if (!ts_passed(&dl)) must = 1;
  OK(pthread_join(th_[0], &r)); mc_cover((int)(intptr_t)r == 0); MC_ASSERT(!must || !r, "not woken by the handler"); OK(pthread_cond_destroy(&c[0])); finish();
}
/* no waiter is woken twice or steals: a handler and a signal release at most what waits */
static void sig1(void)
{
  setup(1); OK(pthread_create(&th_[0], NULL, w1, VP(0))); OK(pthread_create(&th_[1], NULL, w1, VP(0))); nth_ = 2; until(2);
  OK(pthread_create(&th_[2], NULL, hnd, VP(0))); nth_ = 3; OK(pthread_cond_signal(&c[0])); joinall(); MC_EQ(woken, 2, "woken");
  { struct timespec ts = ts_in(5); lk(); inside = 0; EQ(pthread_cond_timedwait(&c[0], &m, &ts), ETIMEDOUT); inside = 1; un(); }
  OK(pthread_cond_destroy(&c[0])); finish();
}
mc_scen_t mc_scenarios[] = {
#define S(n, o) { #n, n, o },
  S(all1, "") S(all1k, "q=2 t=3") S(all2, "q=2 t=3") S(all3, "q=1 t=2") S(list5, "q=0 t=0") S(list7, "q=- t=0") S(a_init, "") S(a_destroy, "") S(a_static, "q=3 t=u") S(a_bcast, "") S(a_twice, "q=2 t=3") S(a_timed, "q=2 t=3")
  S(c_mkmk, "q=3 t=u") S(c_rmrm, "") S(c_mkrm, "") S(c_mkrm2, "q=3 t=u") S(back, "") S(back_sig, "q=2 t=3") S(fwd, "") S(none, "") S(timedw, "") S(sig1, "q=2 t=3")
  { 0, 0, 0 } };
