/* C17: asynchronous cancellation, racing cancels and termination. */
#include "common.h"
#define req(i) GH(0 + (i))     /* 0 none, 1 under way, 2 successfully returned */
#define as(i) GH(4 + (i))      /* asynchronous region: 1 strictly inside, 2 entering or leaving */
#define en(i) GH(8 + (i))
#define ended(i) GH(12 + (i))  /* 1 returned, 2 exited through pthread_exit */
#define hran(i) GH(16 + (i))
#define pushed(i) GH(20 + (i))
#define dtors(i) GH(24 + (i))
#define killed(i) GH(28 + (i))
static mcu64 fibno[4]; static const char *prog[4]; static pthread_t t[4]; static pthread_key_t key; static HANDLE ev; static int nt; static int kreq[4];
static void step(int i) { MC_ASSERT(!killed(i), "a terminated thread runs"); MC_ASSERT(!(req(i) == 2 && as(i) == 1 && en(i) == 1), "asynchronous cancellation was not acted upon"); }
static void may(int i) { MC_ASSERT(req(i), "cancelled without a request"); MC_ASSERT(en(i), "cancelled while disabled"); MC_ASSERT(as(i), "cancelled outside an asynchronous region or cancellation point"); }
static void handler(void *a) { int i = (int)(intptr_t)a; if (!ended(i)) may(i); hran(i)++; pthread_testcancel(); mc_point(); if (!ended(i)) { int os; OK(pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &os)); mc_point(); pthread_testcancel(); } }
static void dtor(void *a) { int i = (int)(intptr_t)a - 1; if (!ended(i)) may(i); MC_EQ(hran(i), pushed(i), "handlers run before destructors"); dtors(i)++; mc_point(); }
static void cancel(int i) { int r; if (!t[i].p) return; if (!req(i)) req(i) = 1; r = pthread_cancel(t[i]); MC_ASSERT(r == 0 || r == ESRCH, "pthread_cancel"); if (r == 0) req(i) = 2; else MC_ASSERT(ended(i) || killed(i) || kreq[i] || (req(i) && en(i) && as(i)), "a live thread was reported as missing"); }
static void kill_(int i, int sig) { int r; if (!t[i].p) return; kreq[i] = 1; r = pthread_kill(t[i], sig); MC_ASSERT(r == 0 || r == ESRCH, "pthread_kill"); if (r == 0) killed(i) = 1; else MC_ASSERT(ended(i) || killed(i) || req(i) || kreq[i], "a live thread was reported as missing"); }
static const char *run(int i, const char *p)
{
  int os;
  for (; *p && *p != ')'; )
    {
      step(i);
      switch (*p++)
        {
        case '(': { const char *e; pushed(i)++; pthread_cleanup_push(handler, VP(i)); e = run(i, p); if (*e == ')') pushed(i)--; pthread_cleanup_pop(0); p = e + 1; } break;
        case 'A': as(i) = 2; OK(pthread_setcanceltype(PTHREAD_CANCEL_ASYNCHRONOUS, &os)); as(i) = 1; step(i); break;
        case 'F': as(i) = 2; OK(pthread_setcanceltype(PTHREAD_CANCEL_DEFERRED, &os)); MC_EQ(os, PTHREAD_CANCEL_ASYNCHRONOUS, "old type"); as(i) = 0; break;
        case 'd': en(i) = 2; OK(pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &os)); en(i) = 0; break;
        case 'e': en(i) = 2; OK(pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &os)); en(i) = 1; step(i); break;
        case 'p': mc_point(); break;
        case 'L': for (;;) { mc_point(); step(i); }
        case 'B': WaitForSingleObject(ev, INFINITE); break;
        case 'k': OK(pthread_setspecific(key, VP(i + 1))); break;
        case 'x': ended(i) = 2; pthread_exit(VP(40 + i));
        case 'S': req(i) = 2; pthread_cancel(t[i]); MC_ASSERT(!(as(i) && en(i)), "self cancellation returned"); break;
        case 's': req(i) = 2; OK(pthread_cancel(pthread_self())); break;
        case 't': { int o = (int)as(i), pre = req(i) == 2 && en(i); as(i) = 2; pthread_testcancel(); MC_ASSERT(!pre, "a pending cancellation was not acted upon"); as(i) = o; } break;
        case 'c': cancel(*p++ - '0'); break;
        case 'K': kill_(*p++ - '0', SIGTERM); break;
        case 'T': kreq[i] = 1; pthread_kill(t[i], SIGABRT); MC_ASSERT(0, "a thread survived killing itself"); break;
        }
    }
  return p;
}
static void *body(void *a) { int i = (int)(intptr_t)a; fibno[i] = mc_self(); t[i] = pthread_self(); en(i) = 1; run(i, prog[i]); step(i); ended(i) = 1; return VP(20 + i); }
static void *nop(void *a) { mc_point(); return a; }
/* threads 0..n-1 run their programs, main runs mp and then joins (or has detached: D) */
static void scen(const char *a, const char *b, const char *c, const char *mp)
{
  void *v; pthread_t x, y; int n = *c ? 3 : *b ? 2 : 1, det[4] = {0}; nt = n; prog[0] = a; prog[1] = b; prog[2] = c; ev = CreateEvent(0, 1, 0, 0); OK(pthread_key_create(&key, dtor));
  for (int i = 0; i < n; i++) OK(pthread_create(&t[i], NULL, body, VP(i)));
  for (; *mp; mp++)
    switch (*mp) { case 'c': cancel(*++mp - '0'); break; case 'K': kill_(*++mp - '0', SIGTERM); break; case 'I': kill_(*++mp - '0', SIGINT); break; case 'E': SetEvent(ev); break; case 'q': mc_quiesce(); break; case 'D': { int i = *++mp - '0', r = pthread_detach(t[i]); MC_EQ(r, 0, "detach"); det[i] = 1; } break; case 'N': OK(pthread_create(&x, NULL, nop, VP(77))); OK(pthread_join(x, &v)); MC_EQ((intptr_t)v, 77, "an unrelated thread was hit"); break; case 'p': mc_point(); break; case 'j': { int i = *++mp - '0'; OK(pthread_join(t[i], &v)); det[i] = 2; if (fibno[i]) MC_ASSERT(mc_exited((int)fibno[i]), "joined before its end"); } break; }
  for (int i = 0; i < n; i++)
    {
      if (det[i]) continue;
      OK(pthread_join(t[i], &v)); if (fibno[i]) MC_ASSERT(mc_exited((int)fibno[i]), "joined before its end");
      if (v != PTHREAD_CANCELED) MC_EQ((intptr_t)v, ended(i) == 2 ? 40 + i : 20 + i, "join value"); else if (!kreq[i]) { may(i); }
      if (!kreq[i] && ended(i)) MC_ASSERT(v != PTHREAD_CANCELED || as(i), "join value");
    }
  mc_wait_all();
  for (int i = 0; i < n; i++) if (!kreq[i]) { MC_EQ(hran(i), pushed(i), "cleanup handlers"); MC_EQ(dtors(i), strchr(prog[i], 'k') ? 1 : 0, "key destructor"); }
  OK(pthread_create(&x, NULL, nop, VP(77))); OK(pthread_create(&y, NULL, nop, VP(78))); MC_ASSERT(!pthread_equal(x, y), "identifiers"); OK(pthread_join(x, &v)); MC_EQ((intptr_t)v, 77, "later thread"); OK(pthread_join(y, &v)); MC_EQ((intptr_t)v, 78, "later thread");
  OK(pthread_key_delete(key)); CloseHandle(ev); done(); if (!kreq[0] && !kreq[1] && !kreq[2]) MC_EQ(mc_blocks(), 0, "memory leaked"); if (!kreq[0] && !kreq[1]) MC_EQ(mc_handles(), 0, "handles leaked");
}
#define S(nm, a, b, c, m) static void nm(void) { scen(a, b, c, m); }
S(l, "AL", "", "", "c0") S(lk, "k(AL)", "", "", "c0") S(l2, "((AL))", "", "", "c0c0") S(ret, "kApp", "", "", "c0") S(ex, "k(Apx)", "", "", "c0") S(af, "kApFp", "", "", "c0") S(aft, "ApFptAL", "", "", "c0") S(afa, "AFAF", "", "", "c0") S(de, "AdpepL", "", "", "c0") S(de2, "dAepdpeL", "", "", "c0") S(dr, "Adp", "", "", "c0") S(pa, "pApL", "", "", "c0") S(da, "(dppAeL)", "", "", "c0") S(tA, "ptAptp", "", "", "c0") S(bE, "AB", "", "", "c0qE") S(bE2, "ABL", "", "", "c0E") S(sA, "kA(S)", "", "", "") S(sd, "sp(A)", "", "", "") S(sde, "dsApe", "", "", "") S(ssc, "kAS", "", "", "c0") S(sx, "Adsx", "", "", "c0")
S(two, "AL", "c0", "", "c0") S(twor, "Ap", "c0", "", "c0") S(twof, "AFAp", "c0", "", "c0") S(three, "A", "c0", "c0", "c0") S(mut, "Ac1L", "Ac0L", "", "c0c1") S(mut2, "Ac1", "Ac0", "", "") S(mutm, "kAc1", "kAc0L", "", "c1") S(chain, "AL", "Ac0L", "", "c1c0") S(chain2, "AL", "Ac0", "", "c1c0") S(self2, "Ac0", "c0", "", "")
S(dj, "A", "", "", "c0D0N") S(dt, "Ap", "", "", "D0c0N") S(dt2, "x", "", "", "D0c0N") S(dt3, "p", "", "", "D0c0") S(jc, "Ap", "c0", "", "j0N") S(jcd, "p", "c0", "", "j0N")
S(k1, "L", "", "", "K0") S(k2, "pp", "", "", "K0") S(k3, "x", "", "", "K0") S(k4, "AL", "", "", "K0c0") S(k5, "AL", "", "", "c0K0") S(k6, "L", "K0", "", "K0") S(k7, "AL", "c0", "", "K0") S(k8, "Ap", "c0", "", "I0") S(k9, "L", "", "", "D0K0N") S(k10, "p", "", "", "D0K0N") S(kj, "p", "K0", "", "j0N") S(ks, "pT", "", "", "") S(ksd, "pT", "", "", "D0N") S(kac, "L", "K0L", "", "pK1K0") S(km, "K1L", "K0L", "", "K0K1") S(kB, "B", "", "", "K0E") S(kd, "AFAFL", "", "", "K0")
/* unsupported signals and signal 0 have no effect */
static void sig(void) { pthread_t a; void *v; int r; ev = CreateEvent(0, 1, 0, 0); prog[0] = "Bp"; OK(pthread_create(&t[0], NULL, body, VP(0))); a = t[0]; OK(pthread_kill(a, 0)); for (int s = 1; s < 64; s++) if (s != SIGINT && s != SIGTERM && s != 21 && s != 22 && s != 6) { r = pthread_kill(a, s); MC_EQ(r, EINVAL, "unsupported signal"); } EQ(pthread_kill(a, -1), EINVAL); EQ(pthread_kill(a, INT_MAX), EINVAL); SetEvent(ev); OK(pthread_join(a, &v)); MC_EQ((intptr_t)v, 20, "join value"); EQ(pthread_kill(a, 0), ESRCH); EQ(pthread_kill(a, SIGTERM), ESRCH); EQ(pthread_cancel(a), ESRCH); CloseHandle(ev); done(); MC_EQ(mc_blocks(), 0, "memory leaked"); MC_EQ(mc_handles(), 0, "handles leaked"); }
/* a thread that has ended but is not joined yet */
static void zombie(void) { pthread_t a; void *v; int r, how = mc_choose(3); OK(pthread_create(&a, NULL, nop, VP(5))); mc_wait_all(); r = how == 0 ? pthread_cancel(a) : how == 1 ? pthread_kill(a, SIGTERM) : pthread_kill(a, 0); MC_ASSERT(r == 0 || r == ESRCH, "ended thread"); r = pthread_cancel(a); MC_ASSERT(r == 0 || r == ESRCH, "ended thread"); OK(pthread_join(a, &v)); MC_EQ((intptr_t)v, 5, "value"); EQ(pthread_cancel(a), ESRCH); done(); MC_EQ(mc_blocks(), 0, "memory leaked"); MC_EQ(mc_handles(), 0, "handles leaked"); }
#define E(x) {#x, x, ""}
#define B(x, q) {#x, x, q}
mc_scen_t mc_scenarios[] = {E(l), E(lk), E(l2), E(ret), E(ex), E(af), E(aft), E(afa), E(de), E(de2), E(dr), E(pa), E(da), E(tA), E(bE), E(bE2), E(sA), E(sd), E(sde), E(ssc), E(sx), B(two, "q=2 t=u"), B(twor, "q=2 t=u"), B(twof, "q=2 t=u"), B(three, "q=1 t=u"), B(mut, "q=2 t=u"), B(mut2, "q=2 t=u"), B(mutm, "q=2 t=u"), B(chain, "q=2 t=u"), B(chain2, "q=2 t=u"), B(self2, "q=2 t=u"), B(dj, "q=2 t=u"), B(dt, "q=2 t=u"), B(dt2, "q=3 t=u w=5"), E(dt3), B(jc, "q=3 t=u w=5"), E(jcd), E(k1), E(k2), E(k3), E(k4), E(k5), E(k6), B(k7, "q=2 t=u"), B(k8, "q=2 t=u"), E(k9), B(k10, "q=2 t=u"), B(kj, "q=2 t=u"), E(ks), B(ksd, "q=3 t=u w=5"), E(kac), B(km, "q=2 t=u"), E(kB), E(kd), E(sig), E(zombie), {0, 0, 0}};
