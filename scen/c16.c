/* C16: deferred cancellation acts only at cancellation points, always there, and cleans up. */
#include "common.h"
#define req GH(0)       /* 0 nothing, 1 being requested, 2 cancel has returned success */
#define en GH(1)        /* cancellation enabled */
#define cp GH(2)        /* inside a cancellation point: 1 must act, 2 may act */
#define depth GH(3)
#define stack GH(4)     /* identities of the pushed handlers, base 8 */
#define ran GH(5)
#define acted GH(6)
#define tdone GH(7)
#define dtors GH(8)
#define exiting GH(9)
#define nh GH(10)
#define asy GH(13)
static const char *prog, *envs; static sem_t sem, hs; static int held; static pthread_mutex_t m, mheld; static pthread_cond_t c; static pthread_rwlock_t w; static pthread_key_t key; static pthread_t tt, longt; static HANDLE ev, tev; static pthread_barrier_t bar; static pthread_spinlock_t sp; static pthread_once_t once1;
static void handler(void *a)
{
  struct timespec ts = ts_in(3), iv = {0, 2000000}; int os;
  MC_ASSERT(depth > 0 && (stack & 7) == (intptr_t)a, "cleanup handlers not run in reverse order, exactly once");
  if (!exiting && !GH(11)) { MC_ASSERT(req, "cancelled without a request"); MC_EQ(en, 1, "cancelled while disabled"); MC_ASSERT(cp, "cancelled outside a cancellation point"); acted = 1; }
  depth--; stack >>= 3; ran++;
  /* nothing cancels a thread a second time */
  if (exiting || acted) { pthread_testcancel(); mc_point(); MC_EQ(sem_timedwait(&hs, &ts), -1, "sem_timedwait in a cleanup handler"); MC_EQ(errno, ETIMEDOUT, "sem_timedwait in a cleanup handler"); OK(pthread_delay_np(&iv)); OK(pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &os)); pthread_testcancel(); }
}
static void dtor(void *a) { MC_EQ((intptr_t)a, 42, "destructor argument"); MC_EQ(depth, 0, "key destructor ran before the cleanup handlers"); dtors++; pthread_testcancel(); mc_point(); if (!tdone && !exiting) { MC_ASSERT(req, "cancelled without a request"); MC_EQ(en, 1, "cancelled while disabled"); MC_ASSERT(cp, "cancelled outside a cancellation point"); acted = 1; } }
static void unl(void *a) { OK(pthread_mutex_unlock(&m)); }
static void nop(void) {}
#define IN(k) int pre = req == 2 && en; cp = k
#define OUT MC_ASSERT(!(pre && cp == 1), "a pending cancellation was not acted upon at a cancellation point"); cp = 0
/* the asynchronous type is only used around stretches of disabled cancellation: enabling, or choosing it while enabled, must act on what is pending */
static const char *run(const char *p);
static const char *scope(const char *p)   /* after '(' : runs to the matching ')' (not executed) or ']' (executed) */
{
  const char *e; int ex, id = (int)(nh++ % 7) + 1;
  depth++; stack = stack * 8 + id;
  pthread_cleanup_push(handler, VP(id));
  e = run(p); ex = *e == ']'; if (!ex) { depth--; stack >>= 3; } else GH(11) = 1;
  pthread_cleanup_pop(ex);
  GH(11) = 0; return e + 1;
}
static const char *run(const char *p)
{
  struct timespec ts, iv; int os, r; void *v;
  while (*p && *p != ')' && *p != ']')
    switch (*p++)
      {
      case '(': p = scope(p); break;
      case 'p': mc_point(); break;
      case 't': { IN(1); pthread_testcancel(); OUT; } break;
      case 'L': for (;;) { IN(1); pthread_testcancel(); OUT; mc_point(); }
      case 'd': OK(pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &os)); MC_EQ(os, en ? PTHREAD_CANCEL_ENABLE : PTHREAD_CANCEL_DISABLE, "old state"); en = 0; cp = 0; break;
      case 'e': { int pre = asy && req == 2; en = 1; if (asy) cp = 2; OK(pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &os)); MC_ASSERT(!pre, "a request that was pending while disabled was not acted upon when enabled"); } break;
      case 'A': { int pre = en && req == 2; if (en) cp = 2; OK(pthread_setcanceltype(PTHREAD_CANCEL_ASYNCHRONOUS, &os)); MC_EQ(os, asy ? PTHREAD_CANCEL_ASYNCHRONOUS : PTHREAD_CANCEL_DEFERRED, "old type"); MC_ASSERT(!pre, "a pending request was not acted upon when the type became asynchronous"); asy = 1; } break;
      case 'F': OK(pthread_setcanceltype(PTHREAD_CANCEL_DEFERRED, &os)); MC_EQ(os, asy ? PTHREAD_CANCEL_ASYNCHRONOUS : PTHREAD_CANCEL_DEFERRED, "old type"); asy = 0; if (en) cp = 0; break;
      case 'y': OK(pthread_setcanceltype(PTHREAD_CANCEL_DEFERRED, &os)); MC_EQ(os, PTHREAD_CANCEL_DEFERRED, "old type"); break;
      case 'W': { IN(1); MC_EQ(sem_wait(&sem), 0, "sem_wait"); OUT; } break;
      case 'w': { ts = ts_in(8); IN(1); r = sem_timedwait(&sem, &ts); OUT; MC_ASSERT(r == 0 || errno == ETIMEDOUT, "sem_timedwait"); } break;
      case 'c': { OK(pthread_mutex_lock(&m)); pthread_cleanup_push(unl, 0); { IN(1); OK(pthread_cond_wait(&c, &m)); OUT; } pthread_cleanup_pop(1); } break;
      case 'C': { OK(pthread_mutex_lock(&m)); pthread_cleanup_push(unl, 0); { ts = ts_in(8); IN(1); r = pthread_cond_timedwait(&c, &m, &ts); OUT; MC_ASSERT(r == 0 || r == ETIMEDOUT, "timedwait"); } pthread_cleanup_pop(1); } break;
      case 'J': { IN(1); r = pthread_join(longt, &v); OUT; MC_EQ(r, 0, "join"); GH(12) = 1; } break;
      case 'j': { ts = ts_in(8); IN(1); r = pthread_timedjoin_np(longt, &v, &ts); OUT; MC_ASSERT(r == 0 || r == ETIMEDOUT, "timedjoin"); if (!r) GH(12) = 1; } break;
      case 'D': { iv.tv_sec = 0; iv.tv_nsec = 8000000; IN(1); r = pthread_delay_np(&iv); OUT; MC_EQ(r, 0, "delay"); } break;
      case 'Z': { iv.tv_sec = 0; iv.tv_nsec = 0; IN(1); OK(pthread_delay_np(&iv)); OUT; } break;
      case 'H': { IN(strpbrk(envs, "eE") ? 2 : 1); r = pthreadCancelableWait(ev); OUT; MC_EQ(r, 0, "pthreadCancelableWait"); } break;
      case 'h': { IN(strpbrk(envs, "eE") ? 2 : 1); r = pthreadCancelableTimedWait(ev, 8); OUT; MC_ASSERT(r == 0 || r == ETIMEDOUT, "pthreadCancelableTimedWait"); } break;
      case 'E': { IN(1); r = pthreadCancelableWait(tev); OUT; MC_EQ(r, 0, "pthreadCancelableWait"); } break;
      /* not cancellation points */
      case 'z': cp = 2; r = pthread_tryjoin_np(longt, &v); cp = 0; MC_ASSERT(r == 0 || r == EBUSY || (r == ESRCH && GH(12)), "tryjoin"); if (!r) GH(12) = 1; break;
      case 'm': OK(pthread_mutex_lock(&m)); mc_point(); OK(pthread_mutex_unlock(&m)); break;
      case 'M': OK(pthread_mutex_lock(&mheld)); OK(pthread_mutex_unlock(&mheld)); break;
      case 'o': ts = ts_in(4); r = pthread_mutex_timedlock(&mheld, &ts); MC_ASSERT(r == 0 || r == ETIMEDOUT, "timedlock"); if (!r) OK(pthread_mutex_unlock(&mheld)); break;
      case 's': OK(sem_post(&sem)); break;
      case 'r': r = sem_trywait(&sem); MC_ASSERT(r == 0 || errno == EAGAIN, "trywait"); break;
      case 'g': OK(pthread_cond_signal(&c)); OK(pthread_cond_broadcast(&c)); break;
      case 'R': { cp = 2; OK(pthread_rwlock_rdlock(&w)); cp = 0; OK(pthread_rwlock_unlock(&w)); } break;
      case 'k': OK(pthread_setspecific(key, VP(42))); break;
      case 'x': OK(pthread_spin_lock(&sp)); OK(pthread_spin_unlock(&sp)); break;
      case 'b': r = pthread_barrier_wait(&bar); MC_ASSERT(r == 0 || r == PTHREAD_BARRIER_SERIAL_THREAD, "barrier"); break;
      case 'u': OK(pthread_once(&once1, nop)); break;
      case 'X': exiting = 1; tdone = 1; pthread_exit(VP(9));
      case 'S': req = 2; OK(pthread_cancel(pthread_self())); break;
      }
  return p;
}
static void *target(void *a) { en = 1; run(prog); MC_EQ(depth, 0, ""); tdone = 1; return VP(7); }
static void *longrun(void *a) { WaitForSingleObject(tev, INFINITE); return VP(5); }
static void *canceller(void *a) { int r, earlier = req == 2; if (!req) req = 1; r = pthread_cancel(tt); MC_ASSERT(r == 0 || r == ESRCH, "pthread_cancel"); if (r == 0) req = 2; else MC_ASSERT(acted || tdone || exiting || (earlier && en && cp) || (req == 2 && en && cp), "no such thread reported for a live thread"); return a; }
/* cancels: how many requests; early: things made available to the target by main before the request (s post, E set event, h long thread ends, b join barrier) */
static void scen(const char *pr, int cancels, const char *env)
{
  void *v; int lj = strpbrk(pr, "Jjz") != 0; pthread_t c2; prog = pr; envs = env;
  sem_init(&sem, 0, 0); sem_init(&hs, 0, 0); OK(pthread_mutex_init(&m, NULL)); OK(pthread_mutex_init(&mheld, NULL)); OK(pthread_cond_init(&c, NULL)); OK(pthread_rwlock_init(&w, NULL)); OK(pthread_key_create(&key, dtor)); OK(pthread_barrier_init(&bar, NULL, 2)); OK(pthread_spin_init(&sp, 0)); once1 = (pthread_once_t)PTHREAD_ONCE_INIT;
  ev = CreateEvent(0, 1, 0, 0); tev = CreateEvent(0, 1, 0, 0);
  if (strpbrk(pr, "oM")) { OK(pthread_mutex_lock(&mheld)); held = 1; }
  if (lj) { OK(pthread_create(&longt, NULL, longrun, NULL)); if (strchr(env, 'h')) SetEvent(tev); }
  if (strchr(env, 'E')) SetEvent(ev);
  OK(pthread_create(&tt, NULL, target, NULL));
  if (cancels >= 2) OK(pthread_create(&c2, NULL, canceller, VP(1)));
  if (cancels >= 1) canceller(VP(0));
  for (; *env; env++)
    switch (*env)
      { case 's': OK(sem_post(&sem)); break; case 'e': SetEvent(ev); break; case 'b': { int r = pthread_barrier_wait(&bar); MC_ASSERT(r == 0 || r == PTHREAD_BARRIER_SERIAL_THREAD, "barrier"); } break; case 'q': mc_quiesce(); break; case 'S': mc_settle(); break; case 'u': held = 0; OK(pthread_mutex_unlock(&mheld)); break; case 'H': SetEvent(tev); break; case 'g': OK(pthread_mutex_lock(&m)); OK(pthread_cond_signal(&c)); OK(pthread_mutex_unlock(&m)); break; case 'n': canceller(VP(0)); break; }
  OK(pthread_join(tt, &v)); if (cancels >= 2) { void *x; OK(pthread_join(c2, &x)); }
  MC_EQ(depth, 0, "a cleanup handler was not run"); if (strchr(pr, 'k')) MC_EQ(dtors, 1, "key destructor"); else MC_EQ(dtors, 0, "key destructor");
  if (exiting) MC_EQ((intptr_t)v, 9, "exit value"); else if (tdone) MC_EQ((intptr_t)v, 7, "return value"); else { MC_ASSERT(v == PTHREAD_CANCELED, "cancelled marker"); MC_ASSERT(req, "cancelled without a request"); MC_EQ(en, 1, "cancelled while disabled"); MC_ASSERT(cp, "cancelled outside a cancellation point"); }
  SetEvent(tev); if (lj && !GH(12)) { OK(pthread_join(longt, &v)); MC_EQ((intptr_t)v, 5, "the thread being joined"); }
  /* nothing is left held or broken */
  if (held) OK(pthread_mutex_unlock(&mheld)); OK(pthread_mutex_trylock(&mheld)); OK(pthread_mutex_unlock(&mheld));
  OK(pthread_mutex_lock(&m)); OK(pthread_mutex_unlock(&m)); OK(pthread_mutex_destroy(&m)); OK(pthread_mutex_destroy(&mheld)); OK(pthread_cond_destroy(&c)); OK(sem_destroy(&sem)); OK(sem_destroy(&hs)); OK(pthread_rwlock_wrlock(&w)); OK(pthread_rwlock_unlock(&w)); OK(pthread_rwlock_destroy(&w)); OK(pthread_barrier_destroy(&bar)); OK(pthread_spin_destroy(&sp)); OK(pthread_key_delete(key)); CloseHandle(ev); CloseHandle(tev);
  done(); MC_EQ(mc_blocks(), 0, "memory leaked"); MC_EQ(mc_handles(), 0, "handles leaked");
}
#define S(nm, pr, n, env) static void nm(void) { scen(pr, n, env); }
/* every cancellation point blocks and is woken by the request */
S(W_, "kW", 1, "") S(w_, "kw", 1, "") S(c_, "kc", 1, "") S(C_, "kC", 1, "") S(J, "kJ", 1, "") S(j, "kj", 1, "") S(D, "kD", 1, "") S(H, "kH", 1, "") S(h, "kh", 1, "") S(L, "kL", 1, "") S(t, "ptpt", 1, "") S(Z, "ZpZ", 1, "")
/* with handlers */
S(hW, "((W))", 1, "") S(hw, "(p(w)p)t", 1, "") S(hc, "((c)p)", 1, "") S(hJ, "k(J)", 1, "") S(hD, "(D(p]D)", 1, "") S(hH, "((p)H)", 1, "") S(hL, "(((L)))", 1, "") S(ht, "k(t(p]t(t)]", 1, "")
/* what it waits for becomes available at the same time, or already is */
S(aW, "(W)t", 1, "s") S(aw, "w", 1, "s") S(ac, "c", 1, "g") S(aC, "(C)", 1, "g") S(aJ, "J", 1, "H") S(aJh, "(J)", 1, "h") S(aj, "j", 1, "h") S(aH, "H", 1, "e") S(aHE, "H", 1, "E") S(aW2, "sW", 1, "")  S(aE, "hh", 1, "E")
/* disabling keeps it pending */
S(dW, "kdwpeW", 1, "") S(dc, "dCe(C)", 1, "") S(dD, "(dDeD)", 1, "") S(dt, "dtpet", 1, "") S(dj, "djej", 1, "") S(dh, "dhph(eH)", 1, "") S(dd, "dddwet", 1, "") S(dX, "(dwX)", 1, "") S(de, "dedtet", 1, "") S(dn, "dpww", 1, "") S(dL, "(dteL)", 1, "") S(dZ, "dZeZ", 1, "") S(deD, "depD", 1, "")
/* things that are not cancellation points */
S(n1, "pmrsgp", 1, "") S(n2, "zpz", 1, "H") S(n3, "yxup", 1, "") S(n4, "pop", 1, "u") S(n5, "M", 1, "qu") S(n6, "pbp", 1, "b") S(n7, "Rt", 1, "") S(n8, "k(mzr]s", 1, "") S(n9, "odpet", 1, "u")
/* exit with handlers, with and without a pending request */
S(x0, "k((pX))", 0, "") S(x1, "k((pX))", 1, "") S(x2, "k(dp(X))", 1, "") S(x3, "(p]p(p)pX", 0, "") S(x4, "kX", 1, "")
/* self and repeated requests */
S(s1, "kpSt", 0, "") S(s2, "k(SpmW)", 0, "") S(s3, "dSwet", 0, "") S(s4, "(S(D))", 1, "") S(s5, "(SJ)", 0, "h") S(s6, "SX", 0, "") S(s7, "Sc", 0, "") S(s8, "S(H)", 0, "E") S(s9, "ssSW", 0, "") S(s10, "Szmrh", 0, "")
S(m1, "k(W)", 1, "nn") S(m2, "k(D)", 2, "") S(m3, "k(L)", 2, "") S(m4, "(dwe(t))", 2, "") S(m5, "(c)", 2, "") S(m6, "(X)", 2, "")
/* asynchronous type while disabled */
S(y1, "k(dAppepdF)", 1, "") S(y2, "dAppFpet", 1, "") S(y3, "(dpAepFp)", 1, "") S(y4, "dpFAFAepF", 1, "") S(y5, "pApF", 1, "") S(y6, "k(pAFpAFt)", 1, "") S(y7, "dASzpedF", 0, "") S(y8, "(dAsmrpepdX)", 1, "") S(y9, "dAwFep(W)", 1, "") S(y10, "dAeped", 2, "") S(y11, "dSpAe", 0, "") S(y12, "(dAdedepd)", 1, "n")
/* the request overtakes the start of the thread */
S(b1, "L", 1, "") S(b2, "dpeL", 1, "")
/* a handler that pthread_cleanup_pop runs is popped first: whatever it does, it runs once, and ending the thread from it runs the outer ones */
#define hruns(i) GH(16 + (i))
static void *hx(void *a);
static void hxh(void *a)
{
  int i = (int)(intptr_t)a; MC_EQ(hruns(i), 0, "cleanup handler ran twice"); MC_EQ(depth, i, "cleanup handlers not in reverse order"); hruns(i)++; depth--;
  if (GH(12)) return;           /* the thread is ending already */
  switch (mc_choose(4))
    { case 0: break; case 1: if (req && en) GH(12) = 2; pthread_testcancel(); MC_ASSERT(!(req && en), "a pending cancellation was not acted upon"); break; case 2: GH(12) = 1; pthread_exit(VP(9)); break;
      case 3: pthread_cleanup_push(hxh, VP(depth + 1 + 4)); depth += 0; pthread_cleanup_pop(0); break; }
}
static void hxl(int i) { depth = i; pthread_cleanup_push(hxh, VP(i)); if (i < 3) hxl(i + 1); else { if (mc_choose(2)) { en = 1; OK(pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, NULL)); } } pthread_cleanup_pop(1); }
static void *hx(void *a) { OK(pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, NULL)); if (req) OK(pthread_cancel(pthread_self())); OK(pthread_setspecific(key, VP(42))); hxl(1); return VP(7); }
static void hxd(void *v) { MC_EQ((intptr_t)v, 42, "destructor argument"); MC_EQ(depth, 0, "key destructor ran before the cleanup handlers"); dtors++; }
static void hpop(void)
{
  pthread_t t; void *v; req = mc_choose(2); OK(pthread_key_create(&key, hxd)); OK(pthread_create(&t, NULL, hx, NULL)); OK(pthread_join(t, &v));
  for (int i = 1; i <= 3; i++) MC_EQ(hruns(i), 1, "cleanup handler runs"); MC_EQ(dtors, 1, "key destructor runs");
  if (GH(12) == 1) MC_EQ((intptr_t)v, 9, "exit value"); else if (GH(12) == 2) MC_ASSERT(v == PTHREAD_CANCELED, "cancelled marker"); else MC_EQ((intptr_t)v, 7, "return value");
  OK(pthread_key_delete(key)); done(); MC_EQ(mc_blocks(), 0, "memory leaked"); MC_EQ(mc_handles(), 0, "handles leaked");
}
#define E(x) {#x, x, ""}
#define B(x, q) {#x, x, q}
mc_scen_t mc_scenarios[] = {E(hpop), E(W_), E(w_), E(c_), E(C_), E(J), E(j), E(D), E(H), E(h), E(L), E(t), E(Z), E(hW), E(hw), E(hc), E(hJ), E(hD), E(hH), E(hL), E(ht), E(aW), E(aw), E(ac), E(aC), E(aJ), E(aJh), E(aj), E(aH), E(aHE), E(aW2), E(aE), E(dW), E(dc), E(dD), E(dt), E(dj), E(dh), E(dd), E(dX), E(de), E(dn), E(dL), E(dZ), E(deD), E(n1), E(n2), E(n3), E(n4), E(n5), E(n6), E(n7), E(n8), E(n9), E(x0), E(x1), E(x2), E(x3), E(x4), E(s1), E(s2), E(s3), E(s4), E(s5), E(s6), E(s7), E(s8), E(s9), E(s10), E(y1), E(y2), E(y3), E(y4), E(y5), E(y6), E(y7), E(y8), E(y9), B(y10, "q=2 t=u"), E(y11), E(y12), E(m1), B(m2, "q=2 t=u"), B(m3, "q=2 t=u"), B(m4, "q=2 t=u"), B(m5, "q=2 t=u"), B(m6, "q=2 t=u"), E(b1), E(b2), {0, 0, 0}};
