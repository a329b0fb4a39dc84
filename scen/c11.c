/* C11: one-time initialisation runs to completion exactly once and everybody waits for it. */
#include "act.h"
static pthread_once_t o1 = PTHREAD_ONCE_INIT, o2 = PTHREAD_ONCE_INIT;
#define runs GH(0)         /* entries into the routine */
#define inside GH(1)
#define complete GH(2)
#define aborted GH(3)
#define plan GH(4)         /* how many of the first entries do not complete */
#define how GH(5)          /* 1 exit, 2 cancel point, 3 async cancel region */
#define runs2 GH(6)
#define complete2 GH(7)
#define delay GH(10)
#define ended(i) GH(16 + (i))
static const char *prog[6];
static void undo(void *p) { (void)p; inside--; aborted++; }
static void init1(void)
{
  MC_EQ(inside, 0, "the routine runs twice at once"); MC_EQ(complete, 0, "the routine runs again after completing");
  inside++; runs++;
  pthread_cleanup_push(undo, NULL);
  mc_point();
  if (plan && how == 1) { plan--; pthread_exit(VP(77)); }
  if (how == 2) pthread_testcancel();
  if (how == 4) { struct timespec ts = {0, 5000000}; (void)pthread_delay_np(&ts); }
  pthread_cleanup_pop(0);
  inside--; complete++;
  mc_point();
}
static void init2(void) { runs2++; mc_point(); OK(pthread_once(&o1, init1)); MC_EQ(complete, 1, "nested call returned before completion"); mc_point(); complete2++; }
static void initslow(void) { inside++; runs++; struct timespec ts = {0, 5000000}; OK(pthread_delay_np(&ts)); inside--; complete++; }
static void one(void)
{
  OK(pthread_once(&o1, delay ? initslow : init1));
  MC_EQ(complete, 1, "pthread_once returned before the routine had completed"); MC_EQ(inside, 0, "pthread_once returned while the routine was running");
}
static void *body(void *a)
{
  int me = (int)(intptr_t)a, r;
  for (const char *p = prog[me]; *p; p++)
    switch (*p)
      {
      case 'o': one(); break;
      case 'n': OK(pthread_once(&o2, init2)); MC_EQ(complete2, 1, "pthread_once returned before completion"); MC_EQ(complete, 1, ""); break;
      case 'k': p++; r = pthread_cancel(th_[*p - '0']); MC_ASSERT(r == 0 || r == ESRCH, "pthread_cancel"); break;
      case 'D': pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, NULL); break;
      case 'E': pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, NULL); break;
      case 'A': pthread_setcanceltype(PTHREAD_CANCEL_ASYNCHRONOUS, NULL); break;
      }
  pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, NULL);
  ended(me) = 1;
  return a;
}
static void run(int h, int pl, int dl, const char *a, const char *b, const char *c, const char *d)
{
  static const pthread_once_t i0 = PTHREAD_ONCE_INIT; int n = *d ? 4 : *c ? 3 : *b ? 2 : 1;
  o1 = i0; o2 = i0; how = h; plan = pl; delay = dl; prog[0] = a; prog[1] = b; prog[2] = c; prog[3] = d;
  go(n, body);
  int left = 0;
  for (int i = n - 1; i >= 0; i--) { void *r; OK(pthread_join(th_[i], &r)); if (!ended(i) || !strpbrk(prog[i], "on")) left++; MC_ASSERT(r == (ended(i) ? VP(i) : h == 1 ? VP(77) : PTHREAD_CANCELED), "exit value"); }
  MC_EQ(inside, 0, ""); MC_EQ(runs, complete + aborted, "runs"); if (h == 1) MC_EQ(aborted, pl - plan, "aborted runs");
  MC_ASSERT(complete <= 1, "the routine completed more than once"); if (n > left) MC_EQ(complete, 1, "nobody completed the routine");
  mc_cover((unsigned)(runs * 4 + complete));
  how = plan = 0; one(); one(); MC_EQ(complete, 1, "the routine completed more than once"); MC_EQ(runs, complete + aborted, "runs");
  EQ(pthread_once(NULL, init1), EINVAL); EQ(pthread_once(&o1, NULL), EINVAL);
  done(); MC_EQ(mc_blocks(), 0, "memory leaked"); MC_EQ(mc_handles(), 0, "handles leaked");
}
#define S(nm, h, pl, dl, a, b, c, d) static void nm(void) { run(h, pl, dl, a, b, c, d); }
S(o_o, 0, 0, 0, "oo", "oo", "", "") S(o_o_o, 0, 0, 0, "o", "o", "o", "") S(o_o_o_o, 0, 0, 0, "o", "o", "o", "o") S(n_o, 0, 0, 0, "n", "o", "", "") S(n_n, 0, 0, 0, "no", "on", "", "") S(n_o_n, 0, 0, 0, "n", "o", "n", "") S(s_o_o, 0, 0, 1, "o", "oo", "", "") S(s_o_o_o, 0, 0, 1, "o", "o", "o", "")
S(x1_o_o, 1, 1, 0, "o", "o", "", "") S(x2_o_o, 1, 2, 0, "o", "o", "", "") S(x1_o_o_o, 1, 1, 0, "o", "o", "o", "") S(x2_o_o_o, 1, 2, 0, "o", "o", "o", "") S(x1_n_o, 1, 1, 0, "n", "o", "", "") S(x1_n_n, 1, 1, 0, "n", "n", "", "") S(x3_4, 1, 3, 0, "o", "o", "o", "o")
S(c_o_k, 2, 0, 0, "o", "k0o", "", "") S(c_o_o_k, 2, 0, 0, "o", "o", "k0", "") S(c_o_o_kk, 2, 0, 0, "o", "o", "k0k1", "") S(c_o_ok_o, 2, 0, 0, "o", "Do", "k0o", "") S(c_D, 2, 0, 0, "Do", "k0o", "", "") S(c_n_k, 2, 0, 0, "n", "k0o", "", "") S(w_o_k, 4, 0, 0, "o", "k0o", "", "") S(w_o_o_k, 4, 0, 0, "o", "Do", "k0", "") S(c_noint, 0, 0, 0, "o", "k0o", "", "")
S(c_4, 2, 0, 0, "o", "o", "k0", "o")
/* the routine blocks on purpose: nobody else returns meanwhile */
static HANDLE gate;
static void initgate(void) { inside++; runs++; WaitForSingleObject(gate, INFINITE); inside--; complete++; }
static void *gbody(void *a) { OK(pthread_once(&o1, initgate)); MC_EQ(complete, 1, "returned before completion"); GH(20)++; return a; }
static void gated(int n) { gate = CreateEvent(0, 1, 0, 0); go(n, gbody); mc_quiesce(); MC_EQ(runs, 1, ""); MC_EQ(GH(20), 0, "a caller returned while the routine was still running"); SetEvent(gate); joinall(); MC_EQ(GH(20), n, ""); MC_EQ(runs, 1, "runs"); CloseHandle(gate); done(); MC_EQ(mc_handles(), 0, "handles leaked"); }
static void g2(void) { gated(2); } static void g3(void) { gated(3); } static void g4(void) { gated(4); }
/* however the first caller is set up (POSIX or Win32 thread, cancellation state and type) and however its routine ends (return, exit,
   cancellation requested by itself, after changing the state or not), the next caller gets exactly one completed run */
static int vst, vty, vend; static long long vfirst;
static void vundo(void *p) { (void)p; inside--; aborted++; }
static void vinit(void)
{
  MC_EQ(inside, 0, "the routine runs twice at once"); MC_EQ(complete, 0, "the routine runs again after completing"); inside++; runs++;
  if (vfirst == mc_self() + 1)
    {
      pthread_cleanup_push(vundo, NULL);
      switch (vend)
        {
        case 1: pthread_exit(VP(77)); break;
        case 2: OK(pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, NULL)); OK(pthread_cancel(pthread_self())); pthread_testcancel(); MC_FAIL("not cancelled"); break;
        case 3: OK(pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, NULL)); OK(pthread_cancel(pthread_self())); break;
        case 4: OK(pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, NULL)); pthread_exit(VP(77)); break;
        case 5: OK(pthread_setcanceltype(PTHREAD_CANCEL_ASYNCHRONOUS, NULL)); OK(pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, NULL)); (void)pthread_cancel(pthread_self()); MC_FAIL("not cancelled"); break;
        }
      pthread_cleanup_pop(0);
    }
  mc_point(); inside--; complete++;
}
static void *vbody(void *a) { if (a) { vfirst = mc_self() + 1; if (vst) OK(pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, NULL)); if (vty) OK(pthread_setcanceltype(PTHREAD_CANCEL_ASYNCHRONOUS, NULL)); } OK(pthread_once(&o1, vinit)); MC_EQ(complete, 1, "pthread_once returned before the routine had completed"); if (a) { OK(pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, NULL)); } return VP(5); }
static DWORD WINAPI vforeign(void *a) { vbody(a); pthread_win32_thread_detach_np(); return 0; }
static void vary(int fr, int ends)
{
  pthread_t t[2]; HANDLE h = 0; void *v; static const pthread_once_t i0 = PTHREAD_ONCE_INIT; o1 = i0; vst = mc_choose(2); vty = mc_choose(2); vend = ends == 1 ? mc_choose(2) * 3 : ends == 2 ? (int[]){1, 2, 4, 5}[mc_choose(4)] : mc_choose(6);
  if (fr) h = CreateThread(0, 0, vforeign, VP(1), 0, 0); else OK(pthread_create(&t[0], NULL, vbody, VP(1)));
  OK(pthread_create(&t[1], NULL, vbody, VP(0)));
  if (fr) { WaitForSingleObject(h, INFINITE); CloseHandle(h); } else OK(pthread_join(t[0], &v));
  OK(pthread_join(t[1], &v)); MC_EQ((intptr_t)v, 5, "second caller"); MC_EQ(complete, 1, "completed runs"); MC_EQ(runs, complete + aborted, "runs"); MC_EQ(inside, 0, "");
  OK(pthread_once(&o1, vinit)); MC_EQ(complete, 1, "completed runs"); done(); MC_EQ(mc_blocks(), 0, "memory leaked"); MC_EQ(mc_handles(), 0, "handles leaked");
}
static void vary_p(void) { vary(0, 0); } static void vary_f(void) { vary(1, 1); } static void vary_fx(void) { vary(1, 2); }
#define E(x) {#x, x, ""}
#define B(x, q) {#x, x, q}
mc_scen_t mc_scenarios[] = {E(o_o), E(o_o_o), B(o_o_o_o, "q=3 t=u"), E(n_o), E(n_n), E(n_o_n), E(s_o_o), E(s_o_o_o), E(x1_o_o), E(x2_o_o), E(x1_o_o_o), E(x2_o_o_o), E(x1_n_o), E(x1_n_n), B(x3_4, "q=3 t=u"),
  E(c_o_k), B(c_o_o_k, "q=3 t=u"), B(c_o_o_kk, "q=3 t=u"), B(c_o_ok_o, "q=3 t=u"), E(c_D), E(c_n_k), E(w_o_k), B(w_o_o_k, "q=3 t=u"), E(c_noint), B(c_4, "q=3 t=u"), E(g2), E(g3), E(g4), E(vary_p), E(vary_f), E(vary_fx), {0, 0, 0}};
