/* C13: thread lifecycle. */
#include "common.h"
/* target kinds: r return 77, n return NULL, e pthread_exit(88), s pthread_exit from a nested call with a cleanup handler, c cancels itself, k cancels itself asynchronously, d detaches itself and returns */
static pthread_t t_, u_; static const char *tk; static const char *joiner[2];
#define fin GH(0)
#define tfib GH(1)
#define joined GH(2)
#define released GH(3)
#define ucl GH(4)
static void cl(void *a) { ucl += (intptr_t)a; }
static void deep(int n) { if (n) deep(n - 1); else { fin = 1; pthread_exit(VP(88)); } }
static void *target(void *a)
{
  void *r; tfib = mc_self(); mc_point();
  { int q = pthread_join(pthread_self(), &r); MC_ASSERT(q == EDEADLK || (q == EINVAL && (released || GH(5))), "a thread joining itself"); }
  switch (*tk)
    {
    case 'r': fin = 1; return VP(77);
    case 'n': fin = 1; return NULL;
    case 'e': fin = 1; pthread_exit(VP(88));
    case 's': pthread_cleanup_push(cl, VP(1)); deep(2); pthread_cleanup_pop(0); break;
    case 'c': fin = 1; OK(pthread_cancel(pthread_self())); mc_point(); pthread_testcancel(); break;
    case 'k': fin = 1; OK(pthread_setcanceltype(PTHREAD_CANCEL_ASYNCHRONOUS, NULL)); pthread_cancel(pthread_self()); break;
    case 'd': fin = 1; { int q = pthread_detach(pthread_self()); MC_ASSERT(q == 0 || (q == EINVAL && GH(5)), "detaching oneself"); } mc_point(); EQ(pthread_detach(pthread_self()), EINVAL); EQ(pthread_join(pthread_self(), &r), EINVAL); return VP(77);
    }
  MC_ASSERT(0, "the target must have ended"); return 0;
}
static intptr_t expect(void) { return *tk == 'r' || *tk == 'd' ? 77 : *tk == 'n' ? 0 : strchr("es", *tk) ? 88 : (intptr_t)PTHREAD_CANCELED; }
static void joined_ok(void *v) { MC_EQ(fin, 1, "joined before the thread ended"); MC_EQ(mc_exited((int)tfib), 1, "joined before the thread ended"); MC_EQ((intptr_t)v, expect(), "join returned a wrong value"); MC_EQ(joined, 0, "joined twice"); joined = 1; }
static void stale(void)
{
  void *v = VP(5); struct timespec ts = ts_in(5); int r;
  r = pthread_join(t_, &v); MC_ASSERT(r == ESRCH || (r == EINVAL && !joined), "join of a released thread"); r = pthread_tryjoin_np(t_, &v); MC_ASSERT(r == ESRCH || (r == EINVAL && !joined), "tryjoin of a released thread");
  r = pthread_timedjoin_np(t_, &v, &ts); MC_ASSERT(r == ESRCH || (r == EINVAL && !joined), "timedjoin of a released thread"); r = pthread_detach(t_); MC_ASSERT(r == ESRCH || (r == EINVAL && !joined), "detach of a released thread"); MC_EQ((intptr_t)v, 5, "value written by a failed join");
}
/* J join, N join without value, T timedjoin 20 ms, P timedjoin with a past deadline, I timedjoin without deadline, Y tryjoin, D detach, Z join until it works, p a scheduling point */
static int jrun(const char *p)
{
  void *v; struct timespec ts; int r, ex;
  for (; *p && !joined && !released; p++)
    {
      v = VP(5);
      switch (*p)
        {
        case 'J': OK(pthread_join(t_, &v)); joined_ok(v); break;
        case 'N': OK(pthread_join(t_, NULL)); joined_ok(VP(expect())); break;
        case 'I': OK(pthread_timedjoin_np(t_, &v, NULL)); joined_ok(v); break;
        case 'T': ts = ts_in(20); r = pthread_timedjoin_np(t_, &v, &ts); MC_ASSERT(r == 0 || r == ETIMEDOUT, "timedjoin"); if (r) { MC_ASSERT(ts_passed(&ts), "timedjoin gave up early"); MC_EQ((intptr_t)v, 5, "value written by a failed join"); } else joined_ok(v); break;
        case 'P': ts = ts_in(-20); ex = tfib && mc_exited((int)tfib); r = pthread_timedjoin_np(t_, &v, &ts); MC_ASSERT(r == 0 || r == ETIMEDOUT, "timedjoin"); if (r) { MC_ASSERT(!ex, "timed join of an ended thread timed out"); MC_EQ((intptr_t)v, 5, "value written by a failed join"); } else joined_ok(v); break;
        case 'Y': ex = tfib && mc_exited((int)tfib); r = pthread_tryjoin_np(t_, &v); MC_ASSERT(r == 0 || r == EBUSY, "tryjoin"); if (r) { MC_ASSERT(!ex, "polling join of an ended thread reported busy"); MC_EQ((intptr_t)v, 5, "value written by a failed join"); } else joined_ok(v); break;
        case 'y': ex = tfib && mc_exited((int)tfib); r = pthread_tryjoin_np(t_, NULL); MC_ASSERT(r == 0 || r == EBUSY, "tryjoin"); if (r) MC_ASSERT(!ex, "polling join of an ended thread reported busy"); else joined_ok(VP(expect())); break;
        case 'D': GH(5) = 1; OK(pthread_detach(t_)); released = 1; break;
        case 'p': mc_point(); break;
        case 'W': while (!mc_exited((int)tfib) || !tfib) mc_quiesce(); break;
        case 'X': GH(5) = 1; r = pthread_detach(t_); MC_ASSERT(r == 0 || ((r == EINVAL || r == ESRCH) && *tk == 'd'), "detach"); released = 1; break;
        }
    }
  if (joined || released) stale();
  return 0;
}
static void *other(void *a) { jrun((const char *)a); return VP(3); }
static void *nop(void *a) { mc_point(); return a; }
/* whatever happened before, new threads are distinct and joinable, and nothing is left at the end */
static void end(void)
{
  mc_wait_all(); pthread_t a, b, c; void *v;
  OK(pthread_create(&a, NULL, nop, VP(1))); OK(pthread_create(&b, NULL, nop, VP(2))); OK(pthread_create(&c, NULL, nop, VP(3)));
  MC_ASSERT(!pthread_equal(a, b) && !pthread_equal(b, c) && !pthread_equal(a, c) && !pthread_equal(a, t_) && !pthread_equal(b, t_) && !pthread_equal(c, t_), "identifiers not unique");
  stale();
  OK(pthread_join(b, &v)); MC_EQ((intptr_t)v, 2, "value"); OK(pthread_join(a, &v)); MC_EQ((intptr_t)v, 1, "value"); OK(pthread_join(c, &v)); MC_EQ((intptr_t)v, 3, "value");
  done(); MC_EQ(mc_blocks(), 0, "memory leaked"); MC_EQ(mc_handles(), 0, "handles leaked");
}
/* main runs `m`, a second thread (if any) runs `o` before or while */
static void run(const char *k, const char *m, const char *o, int det)
{
  pthread_attr_t at; void *v; pthread_t ot; tk = k;
  OK(pthread_attr_init(&at)); if (det) OK(pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED));
  if (det) released = 1;
  OK(pthread_create(&t_, det ? &at : NULL, target, NULL)); OK(pthread_attr_destroy(&at));
  if (*o) OK(pthread_create(&ot, NULL, other, (void *)o));
  if (det) stale();
  jrun(m);
  if (*o) { OK(pthread_join(ot, &v)); MC_EQ((intptr_t)v, 3, "value"); }
  if (*k == 's') { mc_wait_all(); MC_EQ(ucl, 1, "cleanup handler"); }
  MC_ASSERT(joined || released, "scenario must release the thread");
  stale(); end();
}
#define R(nm, k, m, o, d) static void nm(void) { run(k, m, o, d); }
#define K5(nm, m, o) R(nm##_r, "r", m, o, 0) R(nm##_n, "n", m, o, 0) R(nm##_e, "e", m, o, 0) R(nm##_s, "s", m, o, 0) R(nm##_c, "c", m, o, 0) R(nm##_k, "k", m, o, 0)
K5(j, "J", "") K5(tj, "TJ", "") K5(yj, "YPYJ", "") K5(dt, "D", "") K5(ydt, "YD", "") K5(tt, "PTI", "") K5(wy, "WY", "") K5(wp, "WP", "") K5(wd, "WD", "")
R(nv, "r", "N", "", 0) R(nv2, "c", "yN", "", 0) R(pdt, "r", "pppD", "", 0) R(tdt, "r", "TD", "", 0) R(tde, "e", "TD", "", 0)
R(det_r, "r", "", "", 1) R(det_e, "e", "", "", 1) R(det_c, "c", "", "", 1) R(det_k, "k", "", "", 1)
R(self_x, "d", "X", "", 0) R(self_yx, "d", "pX", "", 0)
/* joined or detached by another thread */
R(o_j, "r", "", "J", 0) R(o_je, "e", "", "YTJ", 0) R(o_d, "r", "", "D", 0) R(o_dc, "c", "", "YD", 0)
/* a joiner cancelled while blocked leaves the thread joinable */
static HANDLE ev;
static void *blocked(void *a) { tfib = mc_self(); WaitForSingleObject(ev, INFINITE); fin = 1; return VP(77); }
static void *victim(void *a) { void *v = VP(5); int timed = (int)(intptr_t)a; struct timespec ts = ts_in(50); int r = timed ? pthread_timedjoin_np(t_, &v, &ts) : pthread_join(t_, &v); if (r == 0) { tk = "r"; joined_ok(v); } else MC_ASSERT(timed && r == ETIMEDOUT, "join"); GH(10) = 1; pthread_testcancel(); return VP(4); }
static void cancelled(int timed, int late)
{
  pthread_t v; void *r; int rc; tk = "r"; ev = CreateEvent(0, 1, 0, 0); OK(pthread_create(&t_, NULL, blocked, NULL)); OK(pthread_create(&v, NULL, victim, VP(timed)));
  if (late) SetEvent(ev);
  rc = pthread_cancel(v); MC_ASSERT(rc == 0 || rc == ESRCH, "cancel");
  if (!late) mc_settle();
  OK(pthread_join(v, &r)); MC_ASSERT(r == PTHREAD_CANCELED || (GH(10) && r == VP(4)), "result of the cancelled joiner");
  if (!late) { MC_EQ(joined, 0, "joined a running thread"); EQ(pthread_tryjoin_np(t_, &r), EBUSY); SetEvent(ev); }
  if (!joined) { OK(pthread_join(t_, &r)); joined_ok(r); }
  CloseHandle(ev); stale(); end();
}
static void cj(void) { cancelled(0, 0); } static void cjl(void) { cancelled(0, 1); } static void ctj(void) { cancelled(1, 0); } static void ctjl(void) { cancelled(1, 1); }
/* a chain: each thread joins the next */
static pthread_t ch[3];
static void *chain(void *a) { int i = (int)(intptr_t)a; void *v; if (i < 2) { OK(pthread_create(&ch[i + 1], NULL, chain, VP(i + 1))); OK(pthread_join(ch[i + 1], &v)); MC_EQ((intptr_t)v, i + 101, "value"); EQ(pthread_join(ch[i + 1], &v), ESRCH); } mc_point(); return VP(i + 100); }
static void chained(void) { void *v; OK(pthread_create(&ch[0], NULL, chain, VP(0))); OK(pthread_join(ch[0], &v)); MC_EQ((intptr_t)v, 100, "value"); t_ = ch[1]; joined = 1; end(); }
/* several detached and joinable threads end at the same time */
static void *quick(void *a) { return a; }
static void mix(const char *p)
{
  pthread_t t[3]; void *v; int n = (int)strlen(p); for (int i = 0; i < n; i++) OK(pthread_create(&t[i], NULL, quick, VP(i + 1)));
  for (int i = 0; i < n; i++) if (p[i] == 'D') OK(pthread_detach(t[i])); else { OK(pthread_join(t[i], &v)); MC_EQ((intptr_t)v, i + 1, "value"); }
  t_ = t[0]; joined = p[0] == 'J'; end();
}
static void m_DD(void) { mix("DD"); } static void m_DJ(void) { mix("DJ"); } static void m_JD(void) { mix("JD"); } static void m_DDD(void) { mix("DDD"); } static void m_JJJ(void) { mix("JJJ"); } static void m_DJD(void) { mix("DJD"); }
/* a thread that owns robust mutexes ends and is released meanwhile, while other threads come into being: all of them keep their identity, and the mutexes are inherited */
static pthread_mutex_t rm[2];
static int nrm;
static void *rowner(void *a) { tfib = mc_self(); for (int i = 0; i < nrm; i++) OK(pthread_mutex_lock(&rm[i])); fin = 1; return VP(77); }
static void *stay(void *a) { GH(12 + (intptr_t)a) = 1; WaitForSingleObject(ev, INFINITE); MC_ASSERT(pthread_equal(pthread_self(), ch[(intptr_t)a]), "identity of a running thread"); return VP(6); }
static void robust(int n, const char *m, int det)
{
  pthread_mutexattr_t ma; pthread_attr_t at; void *v; tk = "r"; nrm = n; ev = CreateEvent(0, 1, 0, 0);
  OK(pthread_mutexattr_init(&ma)); OK(pthread_mutexattr_setrobust(&ma, PTHREAD_MUTEX_ROBUST)); for (int i = 0; i < n; i++) OK(pthread_mutex_init(&rm[i], &ma)); OK(pthread_mutexattr_destroy(&ma));
  OK(pthread_attr_init(&at)); if (det) OK(pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED));
  OK(pthread_create(&t_, NULL, rowner, NULL)); jrun(m);
  OK(pthread_create(&ch[0], &at, stay, VP(0))); OK(pthread_attr_destroy(&at));
  while (!tfib || !mc_exited((int)tfib)) mc_quiesce();
  OK(pthread_kill(ch[0], 0)); MC_ASSERT(!pthread_equal(ch[0], t_), "identifiers not unique");
  for (int i = 0; i < n; i++) { EQ(pthread_mutex_lock(&rm[i]), EOWNERDEAD); OK(pthread_mutex_consistent(&rm[i])); OK(pthread_mutex_unlock(&rm[i])); OK(pthread_mutex_destroy(&rm[i])); }
  SetEvent(ev); if (!det) { OK(pthread_join(ch[0], &v)); MC_EQ((intptr_t)v, 6, "value"); } mc_wait_all(); CloseHandle(ev); end();
}
static void rb_d1(void) { robust(1, "D", 0); } static void rb_dd1(void) { robust(1, "D", 1); } static void rb_dd2(void) { robust(2, "D", 1); } static void rb_j1(void) { robust(1, "J", 1); } static void rb_y1(void) { robust(1, "YPD", 1); } static void rb_w1(void) { robust(1, "WD", 1); }
/* a thread detaches itself while it is on its way out: from a key destructor or from a cleanup handler */
static void selfdet(void *a) { void *r; OK(pthread_detach(pthread_self())); GH(14) = 1; EQ(pthread_join(pthread_self(), &r), EINVAL); EQ(pthread_detach(pthread_self()), EINVAL); }
static pthread_key_t sk;
static void *leaver(void *a)
{
  int how = (int)(intptr_t)a; tfib = mc_self();
  if (how < 2) { OK(pthread_setspecific(sk, VP(1))); fin = 1; if (how) pthread_exit(VP(88)); return VP(77); }
  pthread_cleanup_push(selfdet, 0);
  fin = 1;
  if (how == 2) pthread_exit(VP(88));
  if (how == 3) { OK(pthread_cancel(pthread_self())); pthread_testcancel(); }
  pthread_cleanup_pop(1); return VP(77);
}
static void leaving_(int b)
{
  int how = mc_choose(5), r; pthread_t u; void *v; OK(pthread_key_create(&sk, selfdet)); tk = "d"; GH(5) = 1;
  OK(pthread_create(&t_, NULL, leaver, VP(how))); if (b) OK(pthread_create(&u, NULL, nop, VP(4)));
  if (b) { r = pthread_kill(t_, 0); MC_ASSERT(r == 0 || r == ESRCH, "kill"); OK(pthread_join(u, &v)); MC_EQ((intptr_t)v, 4, "value"); }
  mc_wait_all(); MC_EQ(GH(14), 1, "the handler ran"); released = 1; stale(); OK(pthread_key_delete(sk)); end();
}
static void leaving(void) { leaving_(0); } static void leaving2(void) { leaving_(1); }
#define E(x) {#x, x, ""}
#define B(x, q) {#x, x, q}
#define E6(nm) E(nm##_r), E(nm##_n), E(nm##_e), E(nm##_s), E(nm##_c), E(nm##_k)
mc_scen_t mc_scenarios[] = {E6(j), E6(tj), E6(yj), E6(dt), E6(ydt), E6(tt), E6(wy), E6(wp), E6(wd), E(nv), E(nv2), E(pdt), E(tdt), E(tde), E(det_r), E(det_e), E(det_c), E(det_k), E(self_x), E(self_yx), E(o_j), E(o_je), B(o_d, "q=3 t=u"), B(o_dc, "q=3 t=u"), E(cj), E(cjl), E(ctj), E(ctjl), B(chained, "q=2 t=u"), B(m_DD, "q=3 t=u"), E(m_DJ), E(m_JD), B(m_DDD, "q=2 t=u"), E(m_JJJ), B(m_DJD, "q=2 t=u"), E(leaving), B(leaving2, "q=2 t=3"), E(rb_d1), E(rb_dd1), E(rb_dd2), E(rb_j1), E(rb_y1), E(rb_w1), {0, 0, 0}};
