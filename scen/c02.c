/* C02: every history of mutex calls by up to three threads against the reference model of the mutex's type. */
#include "act.h"
enum { LOCK, TRY, PAST, UNLOCK, DESTROY, CONSIST, NOPS };
static pthread_mutex_t m; static int kind, robust;
static int ex(int me, int op)
{
  struct timespec ts;
  switch (op)
    {
    case LOCK: return pthread_mutex_lock(&m);
    case TRY: return pthread_mutex_trylock(&m);
    case PAST: ts = ts_in(-1000); return pthread_mutex_timedlock(&m, &ts);
    case UNLOCK: return pthread_mutex_unlock(&m);
    case DESTROY: return pthread_mutex_destroy(&m);
    case CONSIST: return pthread_mutex_consistent(&m);
    }
  return -1;
}
static int owner, count, alive, want[4], untouched;
/* model: expected result, or -1 when the call must block, -2 when POSIX leaves it undefined (not issued) */
static int model(int a, int op)
{
  if (!alive) return op == UNLOCK || op == LOCK || op == TRY || op == PAST || op == DESTROY || op == CONSIST ? EINVAL : -2;
  switch (op)
    {
    case LOCK: case PAST: case TRY:
      if (!owner) { owner = a; count = 1; return 0; }
      if (owner == a)
        {
          if (kind == PTHREAD_MUTEX_RECURSIVE) { count++; return 0; }
          if (kind == PTHREAD_MUTEX_ERRORCHECK) return op == TRY ? EBUSY : EDEADLK;
          return op == TRY ? EBUSY : op == PAST ? ETIMEDOUT : -2;
        }
      return op == TRY ? EBUSY : op == PAST ? ETIMEDOUT : -1;
    case UNLOCK:
      if (!owner) return EPERM;
      if (owner != a) return kind == PTHREAD_MUTEX_NORMAL && !robust ? -2 : EPERM;
      if (--count == 0) owner = 0;
      return 0;
    case DESTROY: if (owner) return EBUSY; alive = 0; return 0;
    case CONSIST: return EINVAL;
    }
  return -2;
}
static void check(int op, int got, int e)
{
  switch (op)
    {
    case LOCK: MC_EQ(got, e, "pthread_mutex_lock"); break; case TRY: MC_EQ(got, e, "pthread_mutex_trylock"); break; case PAST: MC_EQ(got, e, "pthread_mutex_timedlock (past deadline)"); break;
    case UNLOCK: MC_EQ(got, e, "pthread_mutex_unlock"); break; case DESTROY: MC_EQ(got, e, "pthread_mutex_destroy"); break; default: MC_EQ(got, e, "pthread_mutex_consistent");
    }
}
static void history(int depth, int nact)
{
  a_start(nact, ex);
  for (int d = 0; d < depth; d++)
    {
      int a = 1 + mc_choose(nact), op = mc_choose(NOPS);
      if (want[a]) break;                                     /* that actor is blocked: stop this history here */
      if (op == DESTROY) { int w = 0; for (int i = 1; i <= nact; i++) w |= want[i]; if (w && !owner) break; }
      if (untouched && (op == CONSIST || (op == UNLOCK && kind == PTHREAD_MUTEX_NORMAL))) break;   /* undefined by POSIX */
      if (untouched && op == UNLOCK) { MC_ASSERT(a_do(a, op) != 0, "unlock of a never used static mutex must fail"); continue; }
      int so = owner, sc = count, e = model(a, op);
      if (e == -2) { owner = so; count = sc; break; }
      int fin = a_call(a, op);
      if (op != UNLOCK) untouched = 0;
      mc_cover(op * 200 + (fin ? a_res[a] : 199));
      if (e == -1) { MC_ASSERT(!fin, "lock of a mutex held by another thread returned"); want[a] = 1; continue; }
      MC_ASSERT(fin, "a call that must not block is blocked");
      check(op, a_res[a], e);
      if (alive && !owner)
        { /* released: exactly one waiter, if any, must have got it */
          int n = 0, w = 0;
          for (int i = 1; i <= nact; i++) if (want[i]) { w++; if (!a_busy[i]) { n++; MC_EQ(a_res[i], 0, "blocked lock"); owner = i; count = 1; want[i] = 0; } }
          MC_ASSERT(n == (w > 0), "unlock must let exactly one waiter in");
        }
      else for (int i = 1; i <= nact; i++) MC_ASSERT(!want[i] || a_busy[i], "a waiter returned while the mutex was held");
    }
  /* wind down: owners unlock until nobody holds or waits */
  while (alive && owner)
    {
      int o = owner; EQ(a_do(o, UNLOCK), 0);
      if (--count == 0) { owner = 0; for (int i = 1; i <= nact; i++) if (want[i] && !a_busy[i]) { MC_ASSERT(!owner, "two waiters let in"); owner = i; count = 1; want[i] = 0; } }
    }
  for (int i = 1; i <= nact; i++) MC_ASSERT(!want[i], "a waiter was left blocked");
  if (alive) OK(pthread_mutex_destroy(&m));
  a_stop(); done();
}
static void setup(int k, int r, int stat)
{
  pthread_mutexattr_t at; kind = k; robust = r; alive = 1;
  if (stat) { static const pthread_mutex_t i0 = PTHREAD_MUTEX_INITIALIZER, i1 = PTHREAD_RECURSIVE_MUTEX_INITIALIZER, i2 = PTHREAD_ERRORCHECK_MUTEX_INITIALIZER; m = k == PTHREAD_MUTEX_NORMAL ? i0 : k == PTHREAD_MUTEX_RECURSIVE ? i1 : i2; untouched = 1; return; }
  OK(pthread_mutexattr_init(&at)); OK(pthread_mutexattr_settype(&at, k)); OK(pthread_mutexattr_setrobust(&at, r ? PTHREAD_MUTEX_ROBUST : PTHREAD_MUTEX_STALLED));
  OK(pthread_mutex_init(&m, &at)); OK(pthread_mutexattr_destroy(&at));
}
#define NO PTHREAD_MUTEX_NORMAL
#define RC PTHREAD_MUTEX_RECURSIVE
#define EC PTHREAD_MUTEX_ERRORCHECK
#define H(nm, k, r, s, d, n) static void nm(void) { setup(k, r, s); history(d, n); }
H(n2, NO, 0, 0, 8, 2) H(r2, RC, 0, 0, 8, 2) H(e2, EC, 0, 0, 8, 2) H(rn2, NO, 1, 0, 8, 2) H(rr2, RC, 1, 0, 8, 2) H(re2, EC, 1, 0, 8, 2)
H(sn2, NO, 0, 1, 7, 2) H(sr2, RC, 0, 1, 7, 2) H(se2, EC, 0, 1, 7, 2)
H(n3, NO, 0, 0, 5, 3) H(r3, RC, 0, 0, 5, 3) H(e3, EC, 0, 0, 5, 3)
H(n2d, NO, 0, 0, 12, 2) H(r2d, RC, 0, 0, 12, 2) H(e2d, EC, 0, 0, 12, 2) H(rn2d, NO, 1, 0, 12, 2) H(rr2d, RC, 1, 0, 12, 2) H(re2d, EC, 1, 0, 12, 2) H(r3d, RC, 0, 0, 8, 3) H(e3d, EC, 0, 0, 8, 3) H(n3d, NO, 0, 0, 8, 3)
#define E(x) {#x, x, ""}
#define D(x) {#x, x, "q=- t=u"}
mc_scen_t mc_scenarios[] = { E(n2), E(r2), E(e2), E(rn2), E(rr2), E(re2), E(sn2), E(sr2), E(se2), E(n3), E(r3), E(e3),
  D(n2d), D(r2d), D(e2d), D(rn2d), D(rr2d), D(re2d), D(r3d), D(e3d), D(n3d), {0, 0, 0}};
