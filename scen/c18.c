/* C18: timed operations never give up early and honour past deadlines. */
#include "common.h"
static pthread_mutex_t m; static pthread_cond_t c; static sem_t sem; static pthread_rwlock_t w; static pthread_t longt; static HANDLE rel; static sem_t hold, held;
enum { MUTEX, RECUR, ROBUST, ROBREC, COND, SEM, RDLOCK, WRLOCK_R, WRLOCK_W, JOIN, NOP };
/* a second thread holds what the operation needs until told to let go */
static int op_;
static void *holder(void *a)
{
  switch (op_)
    { case MUTEX: case RECUR: case ROBUST: case ROBREC: OK(pthread_mutex_lock(&m)); break; case RDLOCK: case WRLOCK_W: OK(pthread_rwlock_wrlock(&w)); break; case WRLOCK_R: OK(pthread_rwlock_rdlock(&w)); break; }
  OK(sem_post(&held)); OK(sem_wait(&hold));
  switch (op_)
    { case MUTEX: case RECUR: case ROBUST: case ROBREC: OK(pthread_mutex_unlock(&m)); break; case RDLOCK: case WRLOCK_W: case WRLOCK_R: OK(pthread_rwlock_unlock(&w)); break; case SEM: OK(sem_post(&sem)); break; case COND: OK(pthread_mutex_lock(&m)); OK(pthread_cond_signal(&c)); OK(pthread_mutex_unlock(&m)); break; }
  return VP(6);
}
static void *longrun(void *a) { WaitForSingleObject(rel, INFINITE); return VP(6); }
static void up(int op)
{
  pthread_mutexattr_t at; op_ = op; OK(sem_init(&hold, 0, 0)); OK(sem_init(&held, 0, 0)); OK(sem_init(&sem, 0, 0)); OK(pthread_cond_init(&c, NULL)); OK(pthread_rwlock_init(&w, NULL)); rel = CreateEvent(0, 1, 0, 0);
  OK(pthread_mutexattr_init(&at)); if (op == RECUR || op == ROBREC) OK(pthread_mutexattr_settype(&at, PTHREAD_MUTEX_RECURSIVE)); if (op == ROBUST || op == ROBREC) OK(pthread_mutexattr_setrobust(&at, PTHREAD_MUTEX_ROBUST)); OK(pthread_mutex_init(&m, &at)); OK(pthread_mutexattr_destroy(&at));
}
static void down(void) { OK(pthread_mutex_destroy(&m)); OK(pthread_cond_destroy(&c)); OK(pthread_rwlock_destroy(&w)); OK(sem_destroy(&sem)); OK(sem_destroy(&hold)); OK(sem_destroy(&held)); CloseHandle(rel); done(); MC_EQ(mc_blocks(), 0, "memory leaked"); MC_EQ(mc_handles(), 0, "handles leaked"); }
/* the timed operation; 0 or ETIMEDOUT; what it acquired is given back */
static int timed(int op, const struct timespec *ts)
{
  int r = 0; void *v;
  switch (op)
    {
    case MUTEX: case RECUR: case ROBUST: case ROBREC: r = pthread_mutex_timedlock(&m, ts); if (!r) OK(pthread_mutex_unlock(&m)); break;
    case COND: OK(pthread_mutex_lock(&m)); r = pthread_cond_timedwait(&c, &m, ts); OK(pthread_mutex_unlock(&m)); break;
    case SEM: r = sem_timedwait(&sem, ts); if (r) { MC_EQ(r, -1, "sem_timedwait"); r = errno; } break;
    case RDLOCK: r = pthread_rwlock_timedrdlock(&w, ts); if (!r) OK(pthread_rwlock_unlock(&w)); break;
    case WRLOCK_R: case WRLOCK_W: r = pthread_rwlock_timedwrlock(&w, ts); if (!r) OK(pthread_rwlock_unlock(&w)); break;
    case JOIN: r = pthread_timedjoin_np(longt, &v, ts); if (!r) MC_EQ((intptr_t)v, 6, "value"); break;
    }
  MC_ASSERT(r == 0 || r == ETIMEDOUT, "neither success nor timeout"); return r;
}
/* clock values: around every carry and the 2038 limit; offsets to the 100 ns */
static const mcu64 clocks[] = { 1000000000ULL * 10000000 + 0, 1000000000ULL * 10000000 + 9999999, 1700000000ULL * 10000000 + 1234567, 2147483647ULL * 10000000 + 9999990, 2147483648ULL * 10000000 + 1, 4294967295ULL * 10000000 + 9999999, 5000000000ULL * 10000000 + 5 };
static const long long offs[] = { -4000000000000000000LL, -1000000000000LL, -1000000000, -1000001, -1, 0, 1, 99, 100, 101, 499999, 500000, 999900, 999999, 1000000, 1000001, 1000100, 1499999, 1999999, 2000001, 999999999, 1000000000, 1000000001, 1999999999, 60000000001LL, 4294967293999999LL, 4294967294000000LL, 4294967294000001LL, 4294967295000000LL, 4294967296000001LL, 9000000000000001LL };
#define NCL (int)(sizeof clocks / sizeof *clocks)
#define NOF (int)(sizeof offs / sizeof *offs)
typedef struct { long long s, n; } tt;
static tt norm(long long s, long long n) { tt t; s += n / 1000000000; n %= 1000000000; if (n < 0) { n += 1000000000; s--; } t.s = s; t.n = n; return t; }
static tt nowt(void) { mcu64 d = mc_now() - EPOCH100; tt t; t.s = (long long)(d / 10000000); t.n = (long long)(d % 10000000) * 100; return t; }
static int before(tt a, tt b) { return a.s < b.s || (a.s == b.s && a.n < b.n); }
static struct timespec mk(tt t) { struct timespec ts; ts.tv_sec = t.s; ts.tv_nsec = (long)t.n; return ts; }
static tt deadline(void) { tt n = nowt(); int i = mc_choose(NOF + 3); if (i < NOF) return norm(n.s + offs[i] / 1000000000, n.n + offs[i] % 1000000000); { tt x = {i == NOF ? 9223372036854775807LL : i == NOF + 1 ? 9223372037LL : 0, i == NOF ? 999999999 : 0}; return x; } }
static void chk_timeout(tt dl, tt st, int slack) { tt n = nowt(); MC_ASSERT(!before(n, dl), "timed out before the deadline"); if (before(dl, st)) MC_ASSERT(n.s == st.s && n.n == st.n, "a past deadline did not time out immediately"); else { tt l = norm(dl.s, dl.n + 2000000); MC_ASSERT(!before(l, n), "timed out much later than the deadline"); } }
/* nothing becomes available: it times out, not early, not late, and at once for past deadlines */
static void grid(int op)
{
  pthread_t h; void *v; tt dl, st; struct timespec ts; int r; up(op); mc_set_now(EPOCH100 + clocks[mc_choose(NCL)]);
  if (op == JOIN) OK(pthread_create(&longt, NULL, longrun, NULL)); else if (op != COND && op != SEM) { OK(pthread_create(&h, NULL, holder, NULL)); OK(sem_wait(&held)); }
  dl = deadline(); st = nowt(); if (dl.s < 9000000000LL) { ts = mk(dl); r = timed(op, &ts); MC_EQ(r, ETIMEDOUT, "result"); chk_timeout(dl, st, 0); }
  if (op == JOIN) { SetEvent(rel); OK(pthread_join(longt, &v)); MC_EQ((intptr_t)v, 6, "value"); } else if (op != COND && op != SEM) { OK(sem_post(&hold)); OK(pthread_join(h, &v)); }
  down();
}
/* what is wanted is available: success whatever the deadline */
static void avail(int op)
{
  tt dl, st; struct timespec ts; up(op); mc_set_now(EPOCH100 + clocks[mc_choose(NCL)]); dl = deadline(); st = nowt(); ts = mk(dl);
  if (op == JOIN) { op_ = NOP; OK(pthread_create(&longt, NULL, longrun, NULL)); SetEvent(rel); mc_wait_all(); } if (op == SEM) OK(sem_post(&sem));
  MC_EQ(timed(op, &ts), 0, "available, but"); { tt n = nowt(); MC_ASSERT(n.s == st.s && n.n == st.n, "waited although available"); }
  down();
}
/* far deadlines (months and more ahead, or not representable) wait until woken */
static void far_(int op)
{
  static const long long fs[] = {4294967LL, 4294968LL, 8600000LL, 2147483647LL, 4294967296LL, 9223372035LL, 9223372036LL, 9223372037LL, 18446744073LL, 9223372036854775807LL};
  pthread_t h; void *v; struct timespec ts; tt n; int i = mc_choose(10), k = mc_choose(2); up(op); mc_set_now(EPOCH100 + clocks[2]); n = nowt();
  ts.tv_sec = i >= 5 ? fs[i] : n.s + fs[i]; ts.tv_nsec = k ? 999999999 : 0;
  if (op == JOIN) OK(pthread_create(&longt, NULL, longrun, NULL)); else { OK(pthread_create(&h, NULL, holder, NULL)); OK(sem_wait(&held)); }
  if (op == JOIN) SetEvent(rel); else OK(sem_post(&hold));
  { tt s0 = nowt(); int r = timed(op, &ts); tt s1 = nowt(); if (r) { tt d = {ts.tv_sec, ts.tv_nsec}; MC_ASSERT(!before(s1, d) || s1.s >= 9000000000LL /* the year 2255 */, "timed out before the deadline"); if (op == JOIN) OK(pthread_join(longt, &v)); } }
  if (op != JOIN) OK(pthread_join(h, &v));
  down();
}
/* races: expiry against the resource becoming available, against a clock that moves on */
static void race_(int op)
{
  pthread_t h; void *v; tt dl, st; struct timespec ts; int r, k = mc_choose(4); up(op); mc_set_now(EPOCH100 + clocks[2]);
  if (op == JOIN) OK(pthread_create(&longt, NULL, longrun, NULL)); else { OK(pthread_create(&h, NULL, holder, NULL)); OK(sem_wait(&held)); }
  st = nowt(); dl = norm(st.s, st.n + (k == 0 ? 1500001 : k == 1 ? 700 : k == 2 ? 3000000 : -1)); ts = mk(dl);
  if (op == JOIN) SetEvent(rel); else OK(sem_post(&hold));
  r = timed(op, &ts); if (r) { MC_ASSERT(!before(nowt(), dl), "timed out before the deadline"); if (op == JOIN) OK(pthread_join(longt, &v)); }
  if (op != JOIN) OK(pthread_join(h, &v));
  if (op == SEM) { int got; OK(sem_getvalue(&sem, &got)); MC_EQ(got, r ? 1 : 0, "tokens"); if (r) { ts = ts_in(-1); MC_EQ(timed(op, &ts), 0, "available, but"); } }
  else if (op != COND && op != JOIN) { ts = ts_in(-1); MC_EQ(timed(op, &ts), 0, "available, but"); }
  down();
}
/* another thread's timeouts move the clock between the conversion and the wait */
static void *ticker(void *a) { struct timespec iv = {0, 1700000}; OK(pthread_delay_np(&iv)); OK(pthread_delay_np(&iv)); return a; }
static void tick(int op)
{
  pthread_t k, h; void *v; tt dl; struct timespec ts; up(op); mc_set_now(EPOCH100 + clocks[2]);
  if (op == JOIN) OK(pthread_create(&longt, NULL, longrun, NULL)); else if (op != COND && op != SEM) { OK(pthread_create(&h, NULL, holder, NULL)); OK(sem_wait(&held)); }
  OK(pthread_create(&k, NULL, ticker, NULL)); { tt n = nowt(); dl = norm(n.s, n.n + 2500100); } ts = mk(dl);
  MC_EQ(timed(op, &ts), ETIMEDOUT, "result"); MC_ASSERT(!before(nowt(), dl), "timed out before the deadline"); OK(pthread_join(k, &v));
  if (op == JOIN) { SetEvent(rel); OK(pthread_join(longt, &v)); } else if (op != COND && op != SEM) { OK(sem_post(&hold)); OK(pthread_join(h, &v)); }
  down();
}
#define OPS(X) X(MUTEX, mx) X(RECUR, rm) X(ROBUST, ro) X(ROBREC, rr) X(COND, cv) X(SEM, se) X(RDLOCK, rd) X(WRLOCK_R, wr) X(WRLOCK_W, ww) X(JOIN, jo)
#define F(o, n) static void g_##n(void) { grid(o); } static void a_##n(void) { avail(o); } static void f_##n(void) { far_(o); } static void r_##n(void) { race_(o); } static void t_##n(void) { tick(o); }
OPS(F)
/* pthread_delay_np */
static void delay(int dis)
{
  static const long long iv[][2] = {{0, 0}, {0, 1}, {0, 999999}, {0, 1000000}, {0, 1000001}, {0, 999999999}, {1, 0}, {1, 1}, {1, 999999999}, {2147483, 0}, {2147483, 647000000}, {2147483, 647000001}, {2147484, 0}, {4294967, 0}, {4294967, 296000000}, {4294968, 0}, {8589935, 0}, {4294967296LL, 1}, {9223372036854775807LL, 999999999}, {-1, 0}, {-4294967, 0}, {-9223372036854775807LL, 0}};
  int i = mc_choose(sizeof iv / sizeof *iv), r, os; struct timespec ts; tt st, e, n; mc_set_now(EPOCH100 + clocks[mc_choose(NCL)]);
  if (dis) OK(pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &os));
  ts.tv_sec = iv[i][0]; ts.tv_nsec = (long)iv[i][1]; st = nowt(); r = pthread_delay_np(&ts); n = nowt();
  if (r) { MC_EQ(r, EINVAL, "delay"); MC_ASSERT(iv[i][0] < 0 || iv[i][0] >= 2147483, "a valid interval was rejected"); MC_ASSERT(!before(st, n), "waited although rejected"); }
  else { MC_ASSERT(iv[i][0] >= 0, "a negative interval was accepted"); e = norm(st.s + ts.tv_sec, st.n + ts.tv_nsec); MC_ASSERT(!before(n, e), "returned before the end of the interval"); e = norm(e.s, e.n + 2000000); MC_ASSERT(!before(e, n), "returned much later"); }
  EQ(pthread_delay_np(NULL), EINVAL); done(); MC_EQ(mc_blocks(), 0, "memory leaked"); MC_EQ(mc_handles(), 0, "handles leaked");
}
static void dl0(void) { delay(0); } static void dl1(void) { delay(1); }
/* pthread_win32_getabstime_np: the current time plus the interval, exactly */
static void gat(void)
{
  static const long long iv[][2] = {{0, 0}, {0, 1}, {0, 999999999}, {1, 500000000}, {3, 999999900}, {2147483647LL, 999999999}, {4000000000LL, 1}};
  int i = mc_choose(8); struct timespec rel_, ab, *p; tt n, e; mc_set_now(EPOCH100 + clocks[mc_choose(NCL)]); n = nowt();
  if (i == 7) { p = pthread_win32_getabstime_np(&ab, NULL); e = n; } else { rel_.tv_sec = iv[i][0]; rel_.tv_nsec = (long)iv[i][1]; p = pthread_win32_getabstime_np(&ab, &rel_); e = norm(n.s + iv[i][0], n.n + iv[i][1]); }
  MC_ASSERT(p == &ab, "return value"); MC_EQ(ab.tv_sec, e.s, "seconds"); MC_EQ(ab.tv_nsec, e.n, "nanoseconds");
}
/* no deadline at all: wait until woken */
static void nodl(int op)
{
  pthread_t h; void *v; up(op); if (op == JOIN) OK(pthread_create(&longt, NULL, longrun, NULL)); else { OK(pthread_create(&h, NULL, holder, NULL)); OK(sem_wait(&held)); }
  if (op == JOIN) SetEvent(rel); else OK(sem_post(&hold));
  MC_EQ(timed(op, NULL), 0, "without a deadline"); if (op != JOIN) OK(pthread_join(h, &v)); down();
}
static void nd_m(void) { nodl(MUTEX); } static void nd_s(void) { nodl(SEM); } static void nd_j(void) { nodl(JOIN); } static void nd_o(void) { nodl(ROBREC); }
#define E(x) {#x, x, ""}
#define B(x, q) {#x, x, q}
#define AV(o, n) B(a_##n, "q=0 t=0"),
#define ES(o, n) B(g_##n, "q=0 t=0"), B(f_##n, "q=1 t=2"), E(r_##n), E(t_##n),
mc_scen_t mc_scenarios[] = {OPS(ES) AV(MUTEX, mx) AV(RECUR, rm) AV(ROBUST, ro) AV(ROBREC, rr) AV(SEM, se) AV(RDLOCK, rd) AV(WRLOCK_R, wr) AV(JOIN, jo) B(dl0, "q=0 t=0"), B(dl1, "q=0 t=0"), B(gat, "q=0 t=0"), E(nd_m), E(nd_s), E(nd_j), E(nd_o), {0, 0, 0}};
