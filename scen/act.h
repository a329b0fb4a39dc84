/* Remote-controlled threads: the scenario's main thread issues one operation at a time to an idle actor and then
   waits until nothing can run any more, so a whole history of (possibly blocking) calls is driven deterministically
   while every internal interleaving of the calls themselves is still explored. */
#ifndef ACT_H
#define ACT_H
#include "common.h"
#define NA 3
static HANDLE a_go[NA + 1]; static int a_busy[NA + 1], a_res[NA + 1], a_op[NA + 1]; static pthread_t a_th[NA + 1]; static int a_n;
static int (*a_exec)(int actor, int op);
static void *a_main(void *p)
{
  int i = (int)(intptr_t)p;
  for (;;)
    {
      WaitForSingleObject(a_go[i], INFINITE);
      if (a_op[i] < 0) break;
      a_res[i] = a_exec(i, a_op[i]);
      a_busy[i] = 0;
    }
  return p;
}
static void a_start1(int i) { a_go[i] = CreateEvent(0, 0, 0, 0); a_busy[i] = 0; OK(pthread_create(&a_th[i], NULL, a_main, VP(i))); }
static void a_start(int n, int (*ex)(int, int)) { a_n = n; a_exec = ex; for (int i = 1; i <= n; i++) a_start1(i); mc_quiesce(); }
static void a_issue(int i, int op) { a_op[i] = op; a_busy[i] = 1; SetEvent(a_go[i]); }
/* issue, let everything settle; returns 1 when the call completed */
static int a_call(int i, int op) { a_issue(i, op); mc_quiesce(); return !a_busy[i]; }
static int a_callt(int i, int op) { a_issue(i, op); mc_settle(); return !a_busy[i]; }
static int a_do(int i, int op) { MC_ASSERT(a_call(i, op), "a call that must not block is blocked"); return a_res[i]; }
static void a_stop1(int i) { void *r; MC_ASSERT(!a_busy[i], "a thread is still blocked"); a_op[i] = -1; SetEvent(a_go[i]); OK(pthread_join(a_th[i], &r)); MC_EQ((intptr_t)r, i, "join value"); CloseHandle(a_go[i]); }
static void a_stop(void) { for (int i = 1; i <= a_n; i++) a_stop1(i); }
#endif
