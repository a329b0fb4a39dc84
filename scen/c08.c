/* C08: barriers release exactly the full group, once per cycle. */
#include "common.h"
static pthread_barrier_t b; static int cyc_, cnt_;
#define entered GH(0)
#define left_ GH(1)
#define serials GH(2)
#define inb GH(3)            /* threads inside the barrier call */
static int one(void)
{
  entered++; inb++;
  int r = pthread_barrier_wait(&b);
  inb--; left_++;
  MC_ASSERT(r == 0 || r == PTHREAD_BARRIER_SERIAL_THREAD, "pthread_barrier_wait failed");
  MC_ASSERT(left_ <= entered / cnt_ * cnt_, "a thread left the barrier before its group was complete");
  if (r) { serials++; MC_ASSERT(serials <= entered / cnt_, "more than one serial thread in a cycle"); }
  return r;
}
static void *cycles(void *a)
{
  for (int c = 0; c < cyc_; c++) { MC_ASSERT(entered >= (long long)cnt_ * 0, ""); one(); }
  return a;
}
static void *cycles1(void *a) { one(); return a; }
/* every thread takes part in every cycle: cycles must not mix */
static void *lockstep(void *a)
{
  for (int c = 0; c < cyc_; c++)
    {
      GH(8 + c)++;
      one();
      MC_EQ(GH(8 + c), cnt_, "left the barrier although not everybody had entered this cycle");
      GH(16 + c)++;
      if (c) MC_EQ(GH(16 + c - 1), cnt_, "cycles mixed: somebody is still inside the previous cycle");
    }
  return a;
}
static void finish(int total)
{
  MC_EQ(left_, total, "threads released"); MC_EQ(serials, total / cnt_, "exactly one serial thread per cycle");
  OK(pthread_barrier_destroy(&b)); EQ(pthread_barrier_wait(&b), EINVAL); EQ(pthread_barrier_destroy(&b), EINVAL);
  done(); MC_EQ(mc_blocks(), 0, "memory leaked"); MC_EQ(mc_handles(), 0, "handles leaked");
}
/* n threads each doing `cyc` waits on a barrier for n */
static void step(int n, int cyc) { cnt_ = n; cyc_ = cyc; OK(pthread_barrier_init(&b, NULL, n)); go(n, lockstep); joinall(); finish(n * cyc); }
/* the same with main taking part: one fewer thread */
static void stepm(int n, int cyc) { cnt_ = n; cyc_ = cyc; OK(pthread_barrier_init(&b, NULL, n)); go(n - 1, lockstep); lockstep(0); joinall(); finish(n * cyc); }
/* m threads on a barrier for n (m a multiple of n): any n of them make a group */
static void pool(int m, int n, int cyc)
{
  cnt_ = n; cyc_ = cyc; OK(pthread_barrier_init(&b, NULL, n)); go(m, cycles);
  mc_quiesce();
  /* whoever is still blocked is an incomplete group */
  int rest = (int)(entered - left_); MC_EQ(inb, rest, ""); MC_ASSERT(rest < n, "a complete group is blocked"); MC_EQ(left_, entered / n * n, "released");
  if (rest) { EQ(pthread_barrier_destroy(&b), EBUSY); }
  while (entered != left_)
    {
      int miss = n - (int)(entered - left_); if (miss > 1) go(miss - 1, cycles1); one(); mc_quiesce();
      MC_EQ(inb, entered - left_, ""); MC_ASSERT(inb < n, "a complete group is blocked"); MC_EQ(left_, entered / n * n, "released");
    }
  joinall(); finish((int)entered);
}
/* an incomplete group stays blocked; destruction is refused and harmless; the missing thread releases them */
static void *once_(void *a) { one(); return a; }
static void partial(int n)
{
  cnt_ = n; OK(pthread_barrier_init(&b, NULL, n)); 
  for (int i = 1; i < n; i++) { go(1, once_); mc_quiesce(); MC_EQ(left_, 0, "released early"); EQ(pthread_barrier_destroy(&b), EBUSY); }
  one(); joinall(); finish(n);
}
/* destruction by whoever was just released, while the others may still be on their way out */
static void *dying(void *a)
{
  int r = one();
  if (GH(6) == 0)
    {
      int d = r ? 0 : 1; (void)d;
      GH(6)++;                                   /* only one thread tries */
      int e = pthread_barrier_destroy(&b);
      if (r) MC_EQ(e, 0, "the serial thread may destroy the barrier at once");
      MC_ASSERT(e == 0 || e == EBUSY, "pthread_barrier_destroy");
      if (e == 0) GH(7) = 1;
    }
  return a;
}
static void destroy_race(int n)
{
  cnt_ = n; OK(pthread_barrier_init(&b, NULL, n)); go(n, dying); joinall();
  if (!GH(7)) OK(pthread_barrier_destroy(&b));
  EQ(pthread_barrier_destroy(&b), EINVAL); MC_EQ(serials, 1, "serial threads"); MC_EQ(left_, n, "released");
  done(); MC_EQ(mc_blocks(), 0, "memory leaked"); MC_EQ(mc_handles(), 0, "handles leaked");
}
static void *serial_dest(void *a)
{
  if (one())
    { OK(pthread_barrier_destroy(&b)); OK(pthread_barrier_init(&b, NULL, 2)); GH(7) = 1; EQ(pthread_barrier_wait(&b) & ~PTHREAD_BARRIER_SERIAL_THREAD, 0); }
  return a;
}
/* the serial thread destroys and re-creates the barrier in place, then meets main in the new one */
static void recreate(int n)
{
  cnt_ = n; OK(pthread_barrier_init(&b, NULL, n)); go(n, serial_dest); mc_quiesce(); MC_EQ(GH(7), 1, "nobody was the serial thread");
  EQ(pthread_barrier_wait(&b) & ~PTHREAD_BARRIER_SERIAL_THREAD, 0); joinall(); OK(pthread_barrier_destroy(&b));
  done(); MC_EQ(mc_blocks(), 0, "memory leaked"); MC_EQ(mc_handles(), 0, "handles leaked");
}
/* a pending cancellation does not disturb the barrier (it is not a cancellation point) */
static void *canc(void *a) { one(); GH(10)++; pthread_testcancel(); return a; }
static void cancelled(int n)
{
  void *r; cnt_ = n; OK(pthread_barrier_init(&b, NULL, n)); go(n, canc); { int e = pthread_cancel(th_[0]); MC_ASSERT(e == 0 || e == ESRCH, "pthread_cancel"); }
  OK(pthread_join(th_[0], &r)); MC_ASSERT(r == PTHREAD_CANCELED || r == VP(0), "result");
  for (int i = 1; i < n; i++) { OK(pthread_join(th_[i], &r)); MC_EQ((intptr_t)r, i, "result"); }
  nth_ = 0; MC_EQ(left_ , n, "released"); finish(n);
}
static void *cancb(void *a) { one(); GH(10)++; pthread_testcancel(); return a; }
static void cancel_blocked(int n)
{
  void *r; cnt_ = n; OK(pthread_barrier_init(&b, NULL, n)); go(n - 1, cancb); mc_quiesce();
  OK(pthread_cancel(th_[0])); mc_quiesce(); MC_EQ(left_, 0, "a cancelled thread left the barrier");
  one(); OK(pthread_join(th_[0], &r)); MC_ASSERT(r == PTHREAD_CANCELED, "result");
  for (int i = 1; i < n - 1; i++) OK(pthread_join(th_[i], &r));
  nth_ = 0; finish(n);
}
/* two barriers do not influence each other */
static pthread_barrier_t b2;
static void *two(void *a)
{
  intptr_t i = (intptr_t)a;
  if (i < 2) one();
  else { GH(20)++; int r = pthread_barrier_wait(&b2); MC_EQ(GH(20), 2, "released early"); GH(21) += r != 0; }
  return a;
}
static void twob(void) { cnt_ = 2; OK(pthread_barrier_init(&b, NULL, 2)); OK(pthread_barrier_init(&b2, NULL, 2)); go(3, two); mc_quiesce(); MC_EQ(left_, 2, ""); MC_EQ(GH(21), 0, ""); EQ(pthread_barrier_destroy(&b2), EBUSY); two(VP(2)); MC_EQ(GH(21) <= 1, 1, ""); joinall(); MC_EQ(GH(21), 1, "serial threads of the second barrier"); OK(pthread_barrier_destroy(&b2)); finish(2); }
static void size1(void) { cnt_ = 1; OK(pthread_barrier_init(&b, NULL, 1)); cyc_ = 2; go(2, cycles); joinall(); finish(4); }
/* all histories: a pool of actors entering one by one */
#include "act.h"
static int ex(int a, int op) { (void)a; (void)op; return one(); }
static void hist(int n, int actors, int steps)
{
  cnt_ = n; pthread_barrierattr_t at; int useattr = mc_choose(2);
  if (useattr) OK(pthread_barrierattr_init(&at));
  OK(pthread_barrier_init(&b, useattr ? &at : NULL, n)); if (useattr) OK(pthread_barrierattr_destroy(&at));
  a_start(actors, ex); int mx = 0;
  for (int s = 0; s < steps; s++)
    {
      int a = mc_choose(actors + 1);
      if (a == 0) { int e = pthread_barrier_destroy(&b); if (entered == left_) { MC_EQ(e, 0, "destroy"); EQ(pthread_barrier_wait(&b), EINVAL); EQ(pthread_barrier_destroy(&b), EINVAL); OK(pthread_barrier_init(&b, NULL, n)); entered = left_ = serials = 0; } else MC_EQ(e, EBUSY, "destroy"); continue; }
      if (a > mx + 1 || a_busy[a]) break;
      if (a > mx) mx = a;
      a_call(a, 0);
      MC_EQ(left_, entered / n * n, "released"); MC_EQ(serials, entered / n, "serial threads");
      if (!a_busy[a]) MC_EQ(entered % n, 0, "group");
    }
  while (entered != left_) { int miss = n - (int)(entered - left_); if (miss > 1) go(miss - 1, cycles1); one(); mc_quiesce(); }
  a_stop(); joinall(); finish((int)entered);
}
static void s22(void) { step(2, 2); } static void s23(void) { step(2, 3); } static void s31(void) { step(3, 1); } static void s32(void) { step(3, 2); } static void s33(void) { step(3, 3); }
static void m22(void) { stepm(2, 2); } static void m24(void) { stepm(2, 4); } static void m32(void) { stepm(3, 2); } static void m33(void) { stepm(3, 3); } static void m42(void) { stepm(4, 2); }
static void p321(void) { pool(3, 2, 1); } static void p421(void) { pool(4, 2, 1); } static void p322(void) { pool(3, 2, 2); } static void p432(void) { pool(4, 3, 1); }
static void pa2(void) { partial(2); } static void pa3(void) { partial(3); } static void pa4(void) { partial(4); }
static void d2(void) { destroy_race(2); } static void d3(void) { destroy_race(3); } static void d4(void) { destroy_race(4); }
static void r2(void) { recreate(2); } static void r3(void) { recreate(3); }
static void c2(void) { cancelled(2); } static void c3(void) { cancelled(3); } static void cb2(void) { cancel_blocked(2); } static void cb3(void) { cancel_blocked(3); }
static void h12(void) { hist(1, 3, 6); } static void h23(void) { hist(2, 3, 8); } static void h33(void) { hist(3, 3, 8); }
#define E(x) {#x, x, ""}
#define B(x, q) {#x, x, q}
mc_scen_t mc_scenarios[] = {E(s22), E(s23), B(s31, "q=3 t=u"), B(s32, "q=3 t=u"), E(m22), E(m24), B(m32, "q=3 t=u"), B(p321, "q=3 t=u w=5"), B(p421, "q=2 t=u"), B(p322, "q=3 t=u"), E(pa2), E(pa3), E(pa4), E(d2), B(d3, "q=3 t=u"), E(r2), B(r3, "q=3 t=u"), B(c2, "q=3 t=u w=5"), B(c3, "q=3 t=u"), E(cb2), E(cb3), E(twob), E(size1),
  B(h12, "q=1 t=2"), B(h23, "q=1 t=2"), B(h33, "q=1 t=2"), B(s33, "q=3 t=u"), B(m33, "q=3 t=u"), B(m42, "q=2 t=u"), B(p432, "q=2 t=u"), B(d4, "q=2 t=u"), {0, 0, 0}};
