/* C24: null, destroyed, busy objects and out-of-range arguments are reported and leave everything working. */
#include "act.h"
#define FAILS(call, err) do { errno = 0; MC_EQ(call, -1, "wrong result"); MC_EQ(errno, err, "wrong error number"); } while (0)
#define N(a) ((int)(sizeof (a) / sizeof *(a)))
static pthread_mutex_t m; static pthread_cond_t c; static pthread_rwlock_t rw; static pthread_spinlock_t sp; static pthread_barrier_t ba; static sem_t s;
static pthread_mutex_t m2, dead_m; static struct timespec past;
static void fin(void) { done(); MC_EQ(mc_blocks(), 0, "memory leaked"); MC_EQ(mc_handles(), 0, "handles leaked"); }
/* ---- making, using and destroying one object of each kind ---- */
enum { KM, KC, KR, KS, KB, KE, NK };
static int mtype, mrob;
static int make(int k)
{
  pthread_mutexattr_t at; int r;
  switch (k)
    {
    case KM: OK(pthread_mutexattr_init(&at)); OK(pthread_mutexattr_settype(&at, mtype)); OK(pthread_mutexattr_setrobust(&at, mrob)); r = pthread_mutex_init(&m, &at); OK(pthread_mutexattr_destroy(&at)); return r;
    case KC: return pthread_cond_init(&c, 0);
    case KR: return pthread_rwlock_init(&rw, 0);
    case KS: return pthread_spin_init(&sp, PTHREAD_PROCESS_PRIVATE);
    case KB: return pthread_barrier_init(&ba, 0, 1);
    default: return sem_init(&s, 0, 1);
    }
}
static int kill_(int k) { return k == KM ? pthread_mutex_destroy(&m) : k == KC ? pthread_cond_destroy(&c) : k == KR ? pthread_rwlock_destroy(&rw) : k == KS ? pthread_spin_destroy(&sp) : k == KB ? pthread_barrier_destroy(&ba) : sem_destroy(&s); }
static void works(int k)
{
  int v;
  switch (k)
    {
    case KM: OK(pthread_mutex_lock(&m)); OK(pthread_mutex_unlock(&m)); OK(pthread_mutex_trylock(&m)); OK(pthread_mutex_unlock(&m)); break;
    case KC: past = ts_in(-1); OK(pthread_mutex_init(&m2, 0)); OK(pthread_mutex_lock(&m2)); OK(pthread_cond_signal(&c)); OK(pthread_cond_broadcast(&c)); { int r = pthread_cond_timedwait(&c, &m2, &past); MC_ASSERT(r == ETIMEDOUT || r == 0, "timed wait"); } OK(pthread_mutex_unlock(&m2)); OK(pthread_mutex_destroy(&m2)); break;
    case KR: OK(pthread_rwlock_wrlock(&rw)); OK(pthread_rwlock_unlock(&rw)); OK(pthread_rwlock_rdlock(&rw)); OK(pthread_rwlock_unlock(&rw)); break;
    case KS: OK(pthread_spin_lock(&sp)); OK(pthread_spin_unlock(&sp)); OK(pthread_spin_trylock(&sp)); OK(pthread_spin_unlock(&sp)); break;
    case KB: EQ(pthread_barrier_wait(&ba), PTHREAD_BARRIER_SERIAL_THREAD); break;
    case KE: OK(sem_wait(&s)); OK(sem_post(&s)); OK(sem_getvalue(&s, &v)); MC_EQ(v, 1, "value"); break;
    }
}
/* every operation on a destroyed or never initialised (null) object; w = pass a null pointer instead, where that is defined */
static void reject(int k)
{
  int w = k == KM ? 0 : mc_choose(2), v = 77; struct timespec t = ts_in(5);
  switch (k)
    {
    case KM:
      switch (mc_choose(7))
        {
        case 0: EQ(pthread_mutex_lock(&m), EINVAL); break; case 1: EQ(pthread_mutex_trylock(&m), EINVAL); break; case 2: EQ(pthread_mutex_timedlock(&m, &t), EINVAL); break;
        case 3: EQ(pthread_mutex_unlock(&m), EINVAL); break; case 4: EQ(pthread_mutex_destroy(&m), EINVAL); break; case 5: EQ(pthread_mutex_consistent(&m), EINVAL); break;
        case 6: /* waiting on a good condition variable with it */
          OK(pthread_cond_init(&c, 0)); EQ(mc_choose(2) ? pthread_cond_wait(&c, &m) : pthread_cond_timedwait(&c, &m, &t), EINVAL); works(KC); OK(pthread_cond_destroy(&c)); break;
        }
      break;
    case KC:
      {
        pthread_cond_t *p = w ? 0 : &c; OK(pthread_mutex_init(&m2, 0)); OK(pthread_mutex_lock(&m2));
        switch (mc_choose(5))
          {
          case 0: EQ(pthread_cond_wait(p, &m2), EINVAL); break; case 1: EQ(pthread_cond_timedwait(p, &m2, &t), EINVAL); break; case 2: EQ(pthread_cond_signal(p), EINVAL); break;
          case 3: EQ(pthread_cond_broadcast(p), EINVAL); break; case 4: EQ(pthread_cond_destroy(p), EINVAL); break;
          }
        EQ(pthread_mutex_trylock(&m2), EBUSY); OK(pthread_mutex_unlock(&m2)); OK(pthread_mutex_destroy(&m2)); break;      /* the mutex stays held */
      }
    case KR:
      {
        pthread_rwlock_t *p = w ? 0 : &rw; int (*f[])(pthread_rwlock_t *) = {pthread_rwlock_rdlock, pthread_rwlock_tryrdlock, pthread_rwlock_wrlock, pthread_rwlock_trywrlock, pthread_rwlock_unlock, pthread_rwlock_destroy};
        int i = mc_choose(8); if (i < 6) EQ(f[i](p), EINVAL); else if (i == 6) EQ(pthread_rwlock_timedrdlock(p, &t), EINVAL); else EQ(pthread_rwlock_timedwrlock(p, &t), EINVAL); break;
      }
    case KS:
      { pthread_spinlock_t *p = w ? 0 : &sp; int (*f[])(pthread_spinlock_t *) = {pthread_spin_lock, pthread_spin_trylock, pthread_spin_unlock, pthread_spin_destroy}; EQ(f[mc_choose(4)](p), EINVAL); break; }
    case KB: { pthread_barrier_t *p = w ? 0 : &ba; if (mc_choose(2)) EQ(pthread_barrier_wait(p), EINVAL); else EQ(pthread_barrier_destroy(p), EINVAL); break; }
    case KE:
      {
        sem_t *p = w ? 0 : &s;
        switch (mc_choose(7))
          {
          case 0: FAILS(sem_wait(p), EINVAL); break; case 1: FAILS(sem_trywait(p), EINVAL); break; case 2: FAILS(sem_timedwait(p, &t), EINVAL); break; case 3: FAILS(sem_post(p), EINVAL); break;
          case 4: FAILS(sem_post_multiple(p, 1 + mc_choose(2)), EINVAL); break; case 5: FAILS(sem_getvalue(p, &v), EINVAL); MC_EQ(v, 77, "value written although the semaphore is invalid"); break; case 6: FAILS(sem_destroy(p), EINVAL); break;
          }
        break;
      }
    }
}
/* never initialised (zero), or destroyed after use, after static initialisation (used or not); then a second call; then initialised again */
static void dead(void)
{
  int k = mc_choose(NK), how = mc_choose(4);
  if (k == KM) { mtype = mc_choose(3); mrob = mc_choose(2); }
  if (mc_choose(2)) mc_cpus(1, 1);
  if (how == 1) { OK(make(k)); works(k); OK(kill_(k)); }
  if (how >= 2)
    {
      if (k == KB || k == KE || (k == KM && mrob)) { done(); return; }
      if (k == KM) { pthread_mutex_t t[] = {PTHREAD_MUTEX_INITIALIZER, PTHREAD_RECURSIVE_MUTEX_INITIALIZER, PTHREAD_ERRORCHECK_MUTEX_INITIALIZER}; m = t[mtype]; }
      if (k == KC) { pthread_cond_t t = PTHREAD_COND_INITIALIZER; c = t; } if (k == KR) { pthread_rwlock_t t = PTHREAD_RWLOCK_INITIALIZER; rw = t; } if (k == KS) { pthread_spinlock_t t = PTHREAD_SPINLOCK_INITIALIZER; sp = t; }
      if (how == 3) works(k);
      OK(kill_(k));
    }
  reject(k); reject(k);
  OK(make(k)); works(k); OK(kill_(k)); reject(k); fin();
}
/* ---- busy objects: destroy is refused as often as it is tried, and the object keeps working ---- */
static int exm(int a, int op)
{
  int r; struct timespec t = ts_in(50); (void)a;
  switch (op)
    {
    case 0: return pthread_mutex_lock(&m); case 1: return pthread_mutex_unlock(&m); case 2: return pthread_mutex_timedlock(&m, &t);
    case 3: return pthread_rwlock_rdlock(&rw); case 4: return pthread_rwlock_wrlock(&rw); case 5: return pthread_rwlock_unlock(&rw);
    case 6: return pthread_spin_lock(&sp); case 7: return pthread_spin_unlock(&sp);
    case 8: case 9: OK(pthread_mutex_lock(&m2)); r = op == 8 ? pthread_cond_wait(&c, &m2) : pthread_cond_timedwait(&c, &m2, &t); OK(pthread_mutex_unlock(&m2)); return r;
    case 10: return pthread_barrier_wait(&ba);
    case 11: return sem_wait(&s); case 12: errno = 0; r = sem_timedwait(&s, &t); return r ? errno : 0;
    case 13: OK(pthread_mutex_lock(&m2)); r = pthread_cond_wait(&c, &m2); OK(pthread_mutex_unlock(&m2)); return r;
    }
  return -9;
}
static int tries;
#define BUSY(call) do { int i_; for (i_ = 0; i_ < tries; i_++) EQ(call, EBUSY); } while (0)
static void busy_mutex(void)
{
  int self = mc_choose(2), waiter = mc_choose(2), timed = mc_choose(2); mtype = mc_choose(3); mrob = mc_choose(2); tries = 1 + mc_choose(2);
  OK(make(KM)); a_start(2, exm);
  if (self) OK(pthread_mutex_lock(&m)); else EQ(a_do(1, 0), 0);
  if (waiter) MC_ASSERT(!a_call(2, timed ? 2 : 0) || (timed && a_res[2] == ETIMEDOUT), "locked twice");
  BUSY(pthread_mutex_destroy(&m));
  if (timed && waiter && !a_busy[2])
    { MC_EQ(a_res[2], ETIMEDOUT, "timed lock"); waiter = 0; }
  EQ(pthread_mutex_trylock(&m), self && mtype == PTHREAD_MUTEX_RECURSIVE ? 0 : EBUSY); if (self && mtype == PTHREAD_MUTEX_RECURSIVE) OK(pthread_mutex_unlock(&m));
  if (self) OK(pthread_mutex_unlock(&m)); else EQ(a_do(1, 1), 0);
  mc_settle();
  if (waiter) { MC_ASSERT(!a_busy[2], "the waiter never got the mutex"); if (a_res[2] == 0) { BUSY(pthread_mutex_destroy(&m)); EQ(a_do(2, 1), 0); } else MC_EQ(a_res[2], ETIMEDOUT, "timed lock"); }
  a_stop(); works(KM); OK(kill_(KM)); fin();
}
static void busy_rwlock(void)
{
  int st = mc_choose(4), waiter = mc_choose(3); tries = 1 + mc_choose(2);       /* held for reading/writing by this thread/another one */
  OK(make(KR)); a_start(2, exm);
  if (st == 0) OK(pthread_rwlock_rdlock(&rw)); if (st == 1) OK(pthread_rwlock_wrlock(&rw)); if (st == 2) EQ(a_do(1, 3), 0); if (st == 3) EQ(a_do(1, 4), 0);
  if (waiter == 1) MC_ASSERT(!a_call(2, 4), "two writers, or writer with readers"); 
  if (waiter == 2) MC_EQ(a_call(2, 3), st == 0 || st == 2, "reader");
  BUSY(pthread_rwlock_destroy(&rw));
  if (st < 2) OK(pthread_rwlock_unlock(&rw)); else EQ(a_do(1, 5), 0);
  mc_quiesce();
  if (waiter) { MC_ASSERT(!a_busy[2], "the waiter never got the lock"); BUSY(pthread_rwlock_destroy(&rw)); EQ(a_do(2, 5), 0); }
  a_stop(); works(KR); OK(kill_(KR)); fin();
}
static void busy_spin(void)
{
  int up = mc_choose(2), self = mc_choose(2); tries = 1 + mc_choose(2); if (up) mc_cpus(1, 1);
  OK(make(KS)); a_start(1, exm);
  if (self) OK(pthread_spin_lock(&sp)); else EQ(a_do(1, 6), 0);
  BUSY(pthread_spin_destroy(&sp)); EQ(pthread_spin_trylock(&sp), EBUSY);
  if (self) OK(pthread_spin_unlock(&sp)); else EQ(a_do(1, 7), 0);
  a_stop(); works(KS); OK(kill_(KS)); fin();
}
static void busy_cond(void)
{
  int timed = mc_choose(2), n = 1 + mc_choose(2), i; tries = 1 + mc_choose(2);
  OK(make(KC)); OK(pthread_mutex_init(&m2, 0)); a_start(2, exm);
  for (i = 1; i <= n; i++) a_issue(i, i == 1 && timed ? 9 : 8);
  mc_quiesce();
  if (!timed || n == 2) BUSY(pthread_cond_destroy(&c));
  if (timed && !a_busy[1]) MC_EQ(a_res[1], ETIMEDOUT, "timed wait");
  OK(pthread_mutex_lock(&m2)); OK(mc_choose(2) && n == 1 ? pthread_cond_signal(&c) : pthread_cond_broadcast(&c)); OK(pthread_mutex_unlock(&m2)); mc_settle();
  for (i = 1; i <= n; i++) { MC_ASSERT(!a_busy[i], "a waiter was not woken"); MC_ASSERT(a_res[i] == 0 || (i == 1 && timed && a_res[i] == ETIMEDOUT), "result of the wait"); }
  a_stop(); OK(pthread_mutex_destroy(&m2)); works(KC); OK(kill_(KC)); fin();
}
/* two threads wait; another one signals, broadcasts nothing, or tries to destroy as well, while this one tries to destroy: refused, and the condition variable goes on working */
static void *meddler(void *a) { if (a) BUSY(pthread_cond_destroy(&c)); else OK(pthread_cond_signal(&c)); return 0; }
static void busy_cond_race(void)
{
  int n = 2, i, left = 0, k = mc_choose(2); pthread_t t; tries = 1;
  OK(make(KC)); OK(pthread_mutex_init(&m2, 0)); a_start(2, exm);
  for (i = 1; i <= n; i++) a_issue(i, 8);
  mc_quiesce(); OK(pthread_create(&t, 0, meddler, VP(k)));
  BUSY(pthread_cond_destroy(&c));
  OK(pthread_join(t, 0)); mc_settle();
  for (i = 1; i <= n; i++) left += !!a_busy[i]; MC_EQ(left, k ? 2 : 1, "threads still waiting");
  BUSY(pthread_cond_destroy(&c));
  while (left--) { OK(pthread_cond_signal(&c)); mc_settle(); }
  for (i = 1; i <= n; i++) { MC_ASSERT(!a_busy[i], "a waiter was not woken"); MC_EQ(a_res[i], 0, "result of the wait"); }
  a_issue(1, 8); mc_quiesce(); MC_ASSERT(a_busy[1], "the wait returned at once"); OK(pthread_cond_broadcast(&c)); mc_settle(); MC_ASSERT(!a_busy[1], "a waiter was not woken");
  a_stop(); OK(pthread_mutex_destroy(&m2)); works(KC); OK(kill_(KC)); fin();
}
static void busy_sem(void)
{
  int timed = mc_choose(2), n = 1 + mc_choose(2), i, v, need = 0; tries = 1 + mc_choose(2);
  OK(sem_init(&s, 0, 0)); a_start(2, exm);
  for (i = 1; i <= n; i++) a_issue(i, i == 1 && timed ? 12 : 11);
  mc_quiesce();
  if (!timed || n == 2) { int j; for (j = 0; j < tries; j++) FAILS(sem_destroy(&s), EBUSY); }
  for (i = 1; i <= n; i++) if (a_busy[i]) need++; else { MC_ASSERT(i == 1 && timed, "wait returned"); MC_EQ(a_res[1], ETIMEDOUT, "timed wait"); }
  if (need) OK(mc_choose(2) ? sem_post_multiple(&s, need) : (sem_post(&s) || (need == 2 && sem_post(&s))));
  mc_settle(); for (i = 1; i <= n; i++) { MC_ASSERT(!a_busy[i], "a waiter was not woken"); MC_ASSERT(a_res[i] == 0 || (timed && i == 1 && a_res[i] == ETIMEDOUT), "result of the wait"); need -= a_res[i] == 0; }
  OK(sem_getvalue(&s, &v)); MC_EQ(v, need, "tokens left"); MC_ASSERT(v >= 0, "too many waits succeeded");
  a_stop(); OK(sem_destroy(&s)); FAILS(sem_destroy(&s), EINVAL); fin();
}
static void busy_barrier(void)
{
  int n = 2 + mc_choose(2), in = 1 + mc_choose(n - 1), i, ser = 0; tries = 1 + mc_choose(2);
  OK(pthread_barrier_init(&ba, 0, n)); a_start(2, exm);
  for (i = 1; i <= in; i++) MC_ASSERT(!a_call(i, 10), "released early");
  BUSY(pthread_barrier_destroy(&ba));
  for (i = in + 1; i < n; i++) MC_ASSERT(!a_call(i, 10), "released early");
  { int r = pthread_barrier_wait(&ba); ser += r == PTHREAD_BARRIER_SERIAL_THREAD; MC_ASSERT(r == 0 || r == PTHREAD_BARRIER_SERIAL_THREAD, "wait"); }
  mc_quiesce(); for (i = 1; i < n; i++) { MC_ASSERT(!a_busy[i], "not released"); ser += a_res[i] == PTHREAD_BARRIER_SERIAL_THREAD; }
  MC_EQ(ser, 1, "serial threads"); a_stop(); OK(pthread_barrier_destroy(&ba)); EQ(pthread_barrier_destroy(&ba), EINVAL); fin();
}
/* ---- unlocking what is not locked (mutexes), repeatedly, by the owner after its unlock or by a stranger ---- */
static void unlock_mutex(void)
{
  int i; mtype = mc_choose(3); mrob = mc_choose(2); OK(make(KM)); a_start(2, exm);
  int owned = mrob || mtype != PTHREAD_MUTEX_NORMAL;
  EQ(pthread_mutex_unlock(&m), EPERM); EQ(pthread_mutex_consistent(&m), EINVAL);
  if (mc_choose(2)) { works(KM); EQ(pthread_mutex_unlock(&m), EPERM); EQ(a_do(1, 1), EPERM); }
  EQ(a_do(1, 0), 0);
  if (owned) { EQ(pthread_mutex_unlock(&m), EPERM); EQ(a_do(2, 1), EPERM); EQ(pthread_mutex_consistent(&m), EINVAL); }
  EQ(pthread_mutex_trylock(&m), EBUSY); MC_ASSERT(!a_call(2, 0), "locked twice");
  if (owned) EQ(pthread_mutex_unlock(&m), EPERM);
  EQ(a_do(1, 1), 0); mc_quiesce(); MC_ASSERT(!a_busy[2] && a_res[2] == 0, "the waiter never got the mutex");
  if (owned) for (i = 0; i < 2; i++) EQ(a_do(1, 1), EPERM);
  EQ(a_do(2, 1), 0); EQ(a_do(2, 1), EPERM); a_stop(); works(KM); OK(kill_(KM)); fin();
}
/* ---- arguments out of range ---- */
static const int BAD[] = {-1, 2, 3, 255, INT_MAX, INT_MIN};
static void *cstate(void *a)
{
  int i, o, st = mc_choose(2), ty = mc_choose(2);
  OK(pthread_setcancelstate(st, 0)); OK(pthread_setcanceltype(ty, 0));
  i = BAD[mc_choose(N(BAD))];
  o = 77; EQ(pthread_setcancelstate(i, mc_choose(2) ? &o : 0), EINVAL); MC_EQ(o, 77, "old state written");
  EQ(pthread_setcanceltype(i, mc_choose(2) ? &o : 0), EINVAL); MC_EQ(o, 77, "old type written");
  OK(pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &o)); MC_EQ(o, st, "cancel state"); OK(pthread_setcanceltype(PTHREAD_CANCEL_DEFERRED, &o)); MC_EQ(o, ty, "cancel type");
  return a;
}
static void args_cancel(void) { pthread_t t; void *r; OK(pthread_create(&t, 0, cstate, VP(5))); OK(pthread_join(t, &r)); MC_EQ((intptr_t)r, 5, "value"); fin(); }
static void args_sem(void)
{
  int v, i, w = mc_choose(2), base; static const int add[] = {1, 2, 3, INT_MAX - 2, INT_MAX - 1, INT_MAX}; static const int nul[] = {0, -1, -2, INT_MIN, INT_MIN + 1};
  int b0 = mc_blocks(), h0 = mc_handles();
  FAILS(sem_init(&s, 0, (unsigned)SEM_VALUE_MAX + 1), EINVAL); FAILS(sem_init(&s, 0, ~0u), EINVAL); FAILS(sem_init(&s, 1, 0), EPERM); MC_EQ(mc_blocks(), b0, "memory kept by a refused semaphore"); MC_EQ(mc_handles(), h0, "handle kept by a refused semaphore");
  if (w)
    { /* one blocked waiter */
      OK(sem_init(&s, 0, 0)); a_start(1, exm); MC_ASSERT(!a_call(1, 11), "took a token that does not exist");
      FAILS(sem_post_multiple(&s, nul[mc_choose(N(nul))]), EINVAL); mc_quiesce(); MC_ASSERT(a_busy[1], "woken by nothing"); OK(sem_getvalue(&s, &v)); MC_EQ(v, -1, "value");
      i = add[mc_choose(N(add))]; OK(sem_post_multiple(&s, i)); mc_quiesce(); MC_ASSERT(!a_busy[1] && a_res[1] == 0, "not woken"); OK(sem_getvalue(&s, &v)); MC_EQ(v, i - 1, "value"); a_stop();
    }
  else
    {
      static const int b[] = {0, 1, INT_MAX - 2, INT_MAX - 1, INT_MAX}; base = b[mc_choose(N(b))]; OK(sem_init(&s, 0, (unsigned)base));
      i = add[mc_choose(N(add))];
      if ((long long)base + i > SEM_VALUE_MAX) { FAILS(sem_post_multiple(&s, i), ERANGE); i = 0; } else OK(sem_post_multiple(&s, i));
      OK(sem_getvalue(&s, &v)); MC_EQ(v, base + i, "value");
      FAILS(sem_post_multiple(&s, nul[mc_choose(N(nul))]), EINVAL); OK(sem_getvalue(&s, &v)); MC_EQ(v, base + i, "value");
      if (base + i == SEM_VALUE_MAX) { FAILS(sem_post(&s), ERANGE); OK(sem_trywait(&s)); OK(sem_post(&s)); } else { OK(sem_post(&s)); OK(sem_trywait(&s)); }
      OK(sem_getvalue(&s, &v)); MC_EQ(v, base + i, "value");
    }
  OK(sem_destroy(&s)); FAILS(sem_open("x", 0), ENOSYS); FAILS(sem_close(&s), ENOSYS); FAILS(sem_unlink("x"), ENOSYS); fin();
}
static int runs; static void routine(void) { runs++; }
static void dtor(void *v) { (void)v; runs++; }
static void args_misc(void)
{
  pthread_once_t o = PTHREAD_ONCE_INIT; int i; pthread_key_t k; pthread_mutexattr_t ma; pthread_condattr_t ca; pthread_rwlockattr_t ra; pthread_barrierattr_t bt; pthread_attr_t at;
  EQ(pthread_barrier_init(&ba, 0, 0), EINVAL); EQ(pthread_barrier_init(0, 0, 2), EINVAL); EQ(pthread_cond_init(0, 0), EINVAL); EQ(pthread_mutex_init(0, 0), EINVAL); EQ(pthread_rwlock_init(0, 0), EINVAL); EQ(pthread_spin_init(0, 0), EINVAL);
  EQ(pthread_once(0, routine), EINVAL); EQ(pthread_once(&o, 0), EINVAL); MC_EQ(runs, 0, "runs"); OK(pthread_once(&o, routine)); OK(pthread_once(&o, routine)); MC_EQ(runs, 1, "runs");
  i = pthread_getconcurrency(); EQ(pthread_setconcurrency(-1 - mc_choose(2) * INT_MAX), EINVAL); EQ(pthread_getconcurrency(), i); OK(pthread_setconcurrency(INT_MAX)); EQ(pthread_getconcurrency(), INT_MAX); OK(pthread_setconcurrency(i));
  EQ(pthread_delay_np(0), EINVAL);
  EQ(pthread_key_delete(0), EINVAL); EQ(pthread_setspecific(0, &i), EINVAL); EQ(pthread_setspecific(0, 0), EINVAL); MC_ASSERT(pthread_getspecific(0) == 0, "value of a null key");
  OK(pthread_key_create(&k, mc_choose(2) ? dtor : 0)); OK(pthread_setspecific(k, &i)); EQ(pthread_setspecific(0, &k), EINVAL); MC_ASSERT(pthread_getspecific(k) == &i, "value"); OK(pthread_key_delete(k));
  for (i = -2; i <= 5; i++)
    if (i != SCHED_OTHER)
      {
        int bad = i < SCHED_MIN || i > SCHED_MAX;
        if (bad) { FAILS(sched_get_priority_max(i), EINVAL); FAILS(sched_get_priority_min(i), EINVAL); }
        FAILS(sched_setscheduler(0, i), ENOSYS);
      }
  EQ(sched_getscheduler(0), SCHED_OTHER); EQ(sched_setscheduler(0, SCHED_OTHER), SCHED_OTHER);
  FAILS(sched_getscheduler(99999), ESRCH); FAILS(sched_setscheduler(99999, SCHED_OTHER), ESRCH);
  /* process-shared objects are not supported: refused at one point or another, and nothing is kept */
  if (pthread_mutexattr_init(&ma) == 0) { if (pthread_mutexattr_setpshared(&ma, PTHREAD_PROCESS_SHARED) == 0) { MC_ASSERT(pthread_mutex_init(&m, &ma) != 0, "shared mutex"); } else { OK(pthread_mutex_init(&m, &ma)); OK(pthread_mutex_destroy(&m)); } OK(pthread_mutexattr_destroy(&ma)); EQ(pthread_mutexattr_destroy(&ma), EINVAL); }
  if (pthread_condattr_init(&ca) == 0) { if (pthread_condattr_setpshared(&ca, PTHREAD_PROCESS_SHARED) == 0) { MC_ASSERT(pthread_cond_init(&c, &ca) != 0, "shared condition variable"); } else { OK(pthread_cond_init(&c, &ca)); OK(pthread_cond_destroy(&c)); } OK(pthread_condattr_destroy(&ca)); EQ(pthread_condattr_destroy(&ca), EINVAL); }
  if (pthread_rwlockattr_init(&ra) == 0) { if (pthread_rwlockattr_setpshared(&ra, PTHREAD_PROCESS_SHARED) == 0) { MC_ASSERT(pthread_rwlock_init(&rw, &ra) != 0, "shared rwlock"); } else { OK(pthread_rwlock_init(&rw, &ra)); OK(pthread_rwlock_destroy(&rw)); } OK(pthread_rwlockattr_destroy(&ra)); EQ(pthread_rwlockattr_destroy(&ra), EINVAL); }
  if (pthread_barrierattr_init(&bt) == 0) { if (pthread_barrierattr_setpshared(&bt, PTHREAD_PROCESS_SHARED) == 0) { MC_ASSERT(pthread_barrier_init(&ba, &bt, 2) != 0, "shared barrier"); } else { OK(pthread_barrier_init(&ba, &bt, 1)); OK(pthread_barrier_destroy(&ba)); } OK(pthread_barrierattr_destroy(&bt)); EQ(pthread_barrierattr_destroy(&bt), EINVAL); }
  EQ(pthread_spin_init(&sp, PTHREAD_PROCESS_SHARED), ENOSYS);
  OK(pthread_attr_init(&at)); OK(pthread_attr_destroy(&at)); EQ(pthread_attr_destroy(&at), EINVAL);
  MC_EQ(mc_tls_used(), 2, "keys in use"); fin();
}
/* thread operations: null, stale and live identifiers with bad arguments */
static HANDLE gate;
static void *wait_gate(void *a) { if (a == VP(2)) EQ(pthread_join(pthread_self(), 0), EDEADLK); WaitForSingleObject(gate, INFINITE); return a; }
static void *quick(void *a) { return a; }
static void bad_thread(pthread_t t)
{
  void *v = VP(77); int p = 77, b = '#'; struct sched_param q = {77}; cpu_set_t cs; char nm[8] = "#######"; CPU_ZERO(&cs); CPU_SET(0, &cs);
  switch (mc_choose(11))
    {
    case 0: EQ(pthread_join(t, &v), ESRCH); MC_ASSERT(v == VP(77), "value written"); break;
    case 1: EQ(pthread_detach(t), ESRCH); break;
    case 2: EQ(pthread_cancel(t), ESRCH); break;
    case 3: EQ(pthread_kill(t, 0), ESRCH); break;
    case 4: EQ(pthread_kill(t, SIGTERM), ESRCH); break;
    case 5: EQ(pthread_getschedparam(t, &p, &q), ESRCH); MC_ASSERT(p == 77 && q.sched_priority == 77, "written"); break;
    case 6: q.sched_priority = 0; EQ(pthread_setschedparam(t, SCHED_OTHER, &q), ESRCH); break;
    case 7: EQ(pthread_getname_np(t, nm, 8), ESRCH); MC_ASSERT(nm[0] == b, "written"); break;
    case 8: EQ(pthread_setname_np(t, "x"), ESRCH); break;
    case 9: EQ(pthread_setaffinity_np(t, sizeof cs, &cs), ESRCH); break;
    case 10: EQ(pthread_getaffinity_np(t, sizeof cs, &cs), ESRCH); break;
    }
}
static void args_thread(void)
{
  pthread_t nul, st, lv, dt; void *v; char nm[8], ok[8]; int i, p; struct sched_param q; memset(&nul, 0, sizeof nul);
  gate = CreateEvent(0, 1, 0, 0);
  OK(pthread_create(&st, 0, quick, VP(1))); OK(pthread_join(st, &v));
  bad_thread(mc_choose(2) ? nul : st);
  OK(pthread_create(&lv, 0, wait_gate, VP(2)));                 /* may recycle the stale thread's storage */
  OK(pthread_create(&dt, 0, wait_gate, VP(3))); OK(pthread_detach(dt));
  bad_thread(mc_choose(2) ? nul : st);
  MC_ASSERT(pthread_join(pthread_self(), 0) != 0, "joined itself"); EQ(pthread_join(dt, 0), EINVAL); EQ(pthread_detach(dt), EINVAL);
  { static const int sg[] = {-1, 1, 3, 77, INT_MAX, INT_MIN}; i = sg[mc_choose(N(sg))]; EQ(pthread_kill(lv, i), EINVAL); OK(pthread_kill(lv, 0)); OK(pthread_kill(dt, 0)); }
  { static const int po[] = {-1, 4, INT_MAX, INT_MIN}; q.sched_priority = 0; EQ(pthread_setschedparam(lv, po[mc_choose(N(po))], &q), EINVAL); EQ(pthread_setschedparam(lv, SCHED_FIFO, &q), ENOTSUP); EQ(pthread_setschedparam(lv, SCHED_RR, &q), ENOTSUP); }
  { static const int pr[] = {16, -16, INT_MAX, INT_MIN}; q.sched_priority = pr[mc_choose(N(pr))]; EQ(pthread_setschedparam(lv, SCHED_OTHER, &q), EINVAL); }
  EQ(pthread_getschedparam(lv, 0, &q), EINVAL); OK(pthread_getschedparam(lv, &p, &q)); MC_ASSERT(p == SCHED_OTHER && q.sched_priority == 0, "scheduling parameters");
  OK(pthread_setname_np(lv, "worm")); EQ(pthread_setname_np(lv, 0), EINVAL);
  memset(nm, '#', sizeof nm); EQ(pthread_getname_np(lv, nm, -mc_choose(3)), EINVAL); EQ(pthread_getname_np(lv, 0, 8), EINVAL); for (i = 0; i < 8; i++) MC_ASSERT(nm[i] == '#', "buffer of no length written");
  OK(pthread_getname_np(lv, ok, 8)); MC_ASSERT(!strcmp(ok, "worm"), "name");
  OK(pthread_getname_np(lv, nm, 1)); MC_ASSERT(nm[0] == 0 && nm[1] == '#', "name of length one");
  SetEvent(gate); OK(pthread_join(lv, &v)); MC_EQ((intptr_t)v, 2, "value"); bad_thread(lv); mc_quiesce(); bad_thread(dt); CloseHandle(gate); fin();
}
/* ---- histories of one object with destruction and new initialisation in between ---- */
static int exr(int a, int op) { (void)a; switch (op) { case 0: return pthread_rwlock_tryrdlock(&rw); case 1: return pthread_rwlock_trywrlock(&rw); case 2: return pthread_rwlock_unlock(&rw); default: return pthread_rwlock_destroy(&rw); } }
static void hrw(int steps)
{
  int rd[3] = {0}, wr = 0, live = 0, i, mx = 0; a_start(2, exr);
  for (i = 0; i < steps; i++)
    {
      int op = mc_choose(5);
      if (op == 4) { if (live) break; OK(make(KR)); live = 1; continue; }
      int a = 1 + mc_choose(2); if (a > mx + 1) break; if (a > mx) mx = a;
      int all = rd[1] + rd[2], r, w;
      if (!live) w = EINVAL; else if (op == 0) w = wr ? EBUSY : 0; else if (op == 1) w = wr || all ? EBUSY : 0; else if (op == 2) { if (wr != a && !rd[a]) break; w = 0; } else w = wr || all ? EBUSY : 0;
      r = a_do(a, op); MC_EQ(r, w, "result");
      if (r == 0) { if (op == 0) rd[a]++; else if (op == 1) wr = a; else if (op == 2) { if (wr == a) wr = 0; else rd[a]--; } else live = 0; }
    }
  for (i = 1; i < 3; i++) { if (wr == i) EQ(a_do(i, 2), 0); while (rd[i]--) EQ(a_do(i, 2), 0); }
  a_stop(); if (live) { works(KR); OK(kill_(KR)); } fin();
}
static void hist_rw(void) { hrw(4); } static void hist_rw6(void) { hrw(6); }
static int exs(int a, int op) { int r; (void)a; errno = 0; switch (op) { case 0: r = sem_trywait(&s); break; case 1: r = sem_post(&s); break; case 2: r = sem_wait(&s); break; case 3: r = sem_post_multiple(&s, 2); break; default: r = sem_destroy(&s); } return r ? errno : 0; }
static void hsem(int steps)
{
  int live = 0, val = 0, i, v, w; a_start(1, exs);
  for (i = 0; i < steps; i++)
    {
      int op = mc_choose(7), free_ = 1;
      if (op == 6) { if (live) break; val = mc_choose(2); OK(sem_init(&s, 0, (unsigned)val)); live = 1; continue; }
      if (op == 5) { if (!a_busy[1]) break; if (live) free_ = 0; op = 1; }        /* post by the main thread */
      if (op == 4 && a_busy[1]) { FAILS(sem_destroy(&s), EBUSY); continue; }
      if (a_busy[1]) { if (op == 2) break; int r = exs(0, op); w = op == 0 ? EAGAIN : 0; MC_EQ(r, w, "result"); mc_quiesce(); if (op) { MC_ASSERT(!a_busy[1] && a_res[1] == 0, "waiter not woken"); val = op == 3 ? 1 : 0; } OK(sem_getvalue(&s, &v)); MC_EQ(v, op ? val : -1, "value"); continue; }
      (void)free_;
      if (!live) w = EINVAL; else if (op == 0) w = val ? 0 : EAGAIN; else w = 0;
      if (live && op == 2 && !val) { MC_ASSERT(!a_call(1, 2), "took a token that does not exist"); continue; }
      MC_EQ(a_do(1, op), w, "result");
      if (w == 0) { if (op == 0 || op == 2) val--; else if (op == 1) val++; else if (op == 3) val += 2; else live = 0; }
      if (live) { OK(sem_getvalue(&s, &v)); MC_EQ(v, val, "value"); } else { v = 77; FAILS(sem_getvalue(&s, &v), EINVAL); MC_EQ(v, 77, "written"); }
    }
  if (a_busy[1]) { OK(sem_post(&s)); mc_quiesce(); }
  a_stop(); if (live) OK(sem_destroy(&s)); fin();
}
static void hist_sem(void) { hsem(5); } static void hist_sem7(void) { hsem(7); }
static void hcond(int steps)
{
  int live = 0, i, st; OK(pthread_mutex_init(&m2, 0)); a_start(2, exm);
  for (i = 0; i < steps; i++)
    {
      int op = mc_choose(6), waiting = a_busy[1] + a_busy[2];
      switch (op)
        {
        case 0: if (live) goto out; st = mc_choose(2); if (st) { pthread_cond_t t = PTHREAD_COND_INITIALIZER; c = t; } else OK(make(KC)); live = 1; break;
        case 1: EQ(pthread_cond_destroy(&c), !live ? EINVAL : waiting ? EBUSY : 0); if (!waiting) live = 0; break;
        case 2: EQ(pthread_cond_signal(&c), live ? 0 : EINVAL); mc_quiesce(); MC_EQ(a_busy[1] + a_busy[2], waiting ? waiting - 1 : 0, "threads waiting after a signal"); break;
        case 3: EQ(pthread_cond_broadcast(&c), live ? 0 : EINVAL); mc_quiesce(); MC_EQ(a_busy[1] + a_busy[2], 0, "threads waiting after a broadcast"); break;
        default: { int a = op - 3; if (a_busy[a] || (a == 2 && !a_busy[1])) goto out; if (live) MC_ASSERT(!a_call(a, 8), "woken by nothing"); else EQ(a_do(a, 8), EINVAL); break; }
        }
    }
out:
  if (a_busy[1] || a_busy[2]) { OK(pthread_cond_broadcast(&c)); mc_quiesce(); }
  a_stop(); if (live) OK(pthread_cond_destroy(&c)); EQ(pthread_cond_destroy(&c), EINVAL); OK(pthread_mutex_destroy(&m2)); fin();
}
static void hist_cond(void) { hcond(5); } static void hist_cond7(void) { hcond(7); }
#define E(x) {#x, x, ""}
#define B(x, q) {#x, x, q}
mc_scen_t mc_scenarios[] = {E(dead), E(busy_mutex), E(busy_rwlock), E(busy_spin), E(busy_cond), B(busy_cond_race, "q=4 t=u"), E(busy_sem), E(busy_barrier), E(unlock_mutex), E(args_cancel), E(args_sem), E(args_misc), B(args_thread, "q=0 t=1"),
  B(hist_rw, "q=1 t=u"), B(hist_sem, "q=1 t=u"), B(hist_cond, "q=1 t=u"), B(hist_rw6, "q=- t=1"), B(hist_sem7, "q=- t=1"), B(hist_cond7, "q=- t=1"), {0, 0, 0}};
