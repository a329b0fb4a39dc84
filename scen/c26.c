/* C26 (C++ build): ending a thread unwinds its stack like an exception; the library's and the user's exceptions keep apart.
   Threads run generated programs: nested scopes of cleanup handlers, automatic objects, try blocks and once routines
   around throws, exits and cancellation points.  An expectation stack checks every step of the unwinding. */
#include "common.h"
#ifdef __cplusplus
#define depth GH(0)
#define stack GH(1)
#define why GH(2)      /* 0 running, 1 user exception under way, 2 pthread_exit called */
#define req GH(3)
#define normal GH(4)   /* a scope is being left normally */
#define dtors GH(5)
#define ended GH(6)    /* unwinding by the library has been seen */
#define left GH(7)
#define ids GH(8)
#define escaped GH(9)
#define intry GH(10)
struct boom { int n; boom(int k) : n(k) {} };
static pthread_key_t key; static sem_t sem; static pthread_once_t once[4]; static int onces, plen, menu; static HANDLE gate;
static void push(int id) { depth++; stack = stack * 8 + id; }
static void popped(int id, const char *)
{
  MC_ASSERT(depth > 0 && (stack & 7) == id, "scopes are not unwound innermost first, exactly once");
  depth--; stack >>= 3;
  if (!normal && why == 0) { MC_ASSERT(req, "unwound for no reason"); ended = 1; }
  if (!normal && why == 2) ended = 1;
}
struct Obj { int id; Obj() : id((int)(ids++ % 7) + 1) { push(id); } ~Obj() { popped(id, "object"); } };
static void handler(void *a) { popped((int)(intptr_t)a, "handler"); }
static void dtor(void *v) { MC_EQ((intptr_t)v, 42, "value"); MC_EQ(depth, 0, "key destructor ran before the stack was unwound"); dtors++; }
static int prog(int lvl);
static void oncefn(void) { prog(9); }
/* returns 1 to end the whole program by a plain return through all scopes */
static int prog(int lvl)
{
  for (;;)
    {
      if (left == 0) return 0;
      int op = mc_choose(menu); left--;
      switch (op)
        {
        case 0: return 0;
        case 1: { int id = (int)(ids++ % 7) + 1; push(id); pthread_cleanup_push(handler, VP(id)); prog(lvl + 1); normal = 1; pthread_cleanup_pop(1); normal = 0; } break;
        case 2: { Obj o; prog(lvl + 1); normal = 1; } normal = 0; break;
        case 3: { int d = (int)depth, b = why != 0; intry++; try { prog(lvl + 1); } catch (...) { MC_ASSERT(why == 1, "catch (...) of the user caught the library's exception"); MC_EQ(depth, d, "scopes left when the exception was caught"); why = 0; } intry--; (void)b; } break;
        case 4: if (intry) { why = 1; if (mc_choose(2)) throw 7; throw boom(3); } break;
        case 5: pthread_testcancel(); break;
        case 6: why = 2; pthread_exit(VP(7)); break;
        case 7: { struct timespec ts = ts_in(5); int r = sem_timedwait(&sem, &ts); MC_ASSERT(r == -1 && errno == ETIMEDOUT, "sem_timedwait"); } break;
        case 8: { int k = onces++, d = (int)depth, t = (int)intry; if (k >= 4) break; intry = t; OK(pthread_once(&once[k], oncefn)); MC_EQ(depth, d, "scopes left by the once routine"); } break;
        case 9: { int id = (int)(ids++ % 7) + 1; push(id); pthread_cleanup_push(handler, VP(id)); prog(lvl + 1); depth--; stack >>= 3; pthread_cleanup_pop(0); } break;
        case 10: { int d = (int)depth; intry++; try { prog(lvl + 1); } catch (boom &b) { MC_EQ(b.n, 3, "exception object"); MC_EQ(depth, d, "scopes left when the exception was caught"); why = 0; } intry--; } break;
        }
    }
}
static void *body(void *a)
{
  OK(pthread_setspecific(key, VP(42)));
  try { prog(0); } catch (int n) { MC_EQ(n, 7, "exception value"); MC_ASSERT(why == 1, "int"); MC_EQ(depth, 0, "depth"); why = 0; } catch (boom &b) { MC_EQ(b.n, 3, "exception object"); why = 0; }
  MC_ASSERT(why == 0 && !ended, "the thread went on after it was ended"); MC_EQ(depth, 0, "depth"); GH(11) = 1; return VP(5);
}
static void setup(int len, int m) { left = len; menu = m; plen = len; OK(pthread_key_create(&key, dtor)); OK(sem_init(&sem, 0, 0)); pthread_once_t z = PTHREAD_ONCE_INIT; for (int i = 0; i < 4; i++) once[i] = z; }
static void ran(void) { GH(12)++; }
static void finish(void *v)
{
  MC_EQ(dtors, 1, "key destructor runs"); MC_EQ(depth, 0, "scopes not unwound");
  if (GH(11)) MC_EQ((intptr_t)v, 5, "value of a thread that returned");
  else if (why == 2) MC_EQ((intptr_t)v, 7, "value of a thread that exited");
  else { MC_ASSERT(req, "ended for no reason"); MC_ASSERT(v == PTHREAD_CANCELED, "cancelled marker"); }
  mc_cover(GH(11) ? 1 : why == 2 ? 2 : 3);
  /* a once control whose routine was left by an exception can be used again; one that completed is not run again */
  for (int k = 0; k < onces && k < 4; k++) { OK(pthread_once(&once[k], ran)); OK(pthread_once(&once[k], ran)); }
  MC_ASSERT(GH(12) <= onces, "once routine ran too often");
  OK(sem_destroy(&sem)); OK(pthread_key_delete(key)); done(); MC_EQ(mc_blocks(), 0, "memory leaked"); MC_EQ(mc_handles(), 0, "handles leaked");
}
static void run(int len, int m, int cancel)
{
  void *v; pthread_t t; setup(len, m); OK(pthread_create(&t, NULL, body, NULL));
  if (cancel) { req = 1; int r = pthread_cancel(t); MC_ASSERT(r == 0 || r == ESRCH, "pthread_cancel"); }
  OK(pthread_join(t, &v)); finish(v);
}
static void exit4(void) { run(4, 11, 0); } static void exit5(void) { run(5, 11, 0); } static void exit6(void) { run(6, 11, 0); } static void exit7(void) { run(7, 11, 0); }
static void can3(void) { run(3, 11, 1); } static void can4(void) { run(4, 11, 1); } static void can5(void) { run(5, 11, 1); }
/* two threads unwinding at the same time do not disturb each other */
static void *two(void *a)
{
  int i = (int)(intptr_t)a, k = mc_choose(3), n = 0; struct Cnt { int *p; Cnt(int *q) : p(q) {} ~Cnt() { ++*p; } };
  static int seen[2];
  { Cnt o(&seen[i]);
    try { Cnt q(&seen[i]); mc_point(); if (k == 0) throw i; if (k == 1) pthread_exit(VP(i)); pthread_testcancel(); mc_point(); }
    catch (int e) { MC_EQ(e, i, "somebody else's exception"); n = 1; } }
  MC_EQ(seen[i], 2, "objects destroyed"); MC_EQ(n, k == 0, "caught"); return VP(i + 100);
}
static void pair(void)
{
  void *v; for (int i = 0; i < 2; i++) OK(pthread_create(&th_[i], NULL, two, VP(i)));
  if (mc_choose(2)) { int r = pthread_cancel(th_[1]); MC_ASSERT(r == 0 || r == ESRCH, "cancel"); req = 1; }
  for (int i = 0; i < 2; i++) { OK(pthread_join(th_[i], &v)); MC_ASSERT((intptr_t)v == i || (intptr_t)v == i + 100 || (i == 1 && req && v == PTHREAD_CANCELED), "join value"); }
  done(); MC_EQ(mc_blocks(), 0, "memory leaked"); MC_EQ(mc_handles(), 0, "handles leaked");
}
/* an exception that leaves the start routine ends the process by terminate(), after the thread's destructors have run */
static void term(void) { MC_EQ(depth, 0, "terminate() before the scopes were left"); MC_EQ(dtors, 1, "terminate() before the key destructors ran"); escaped++; }
static void *esc(void *a)
{
  OK(pthread_setspecific(key, VP(42))); int id = 3; push(id);
  { pthread_cleanup_push(handler, VP(id)); { Obj o; why = 1; if (mc_choose(2)) throw 7; throw boom(3); } pthread_cleanup_pop(0); }
  return a;
}
static void uncaught(void)
{
  void *v; pthread_t t; mc_on_terminate(term); setup(0, 1); int can = mc_choose(2); OK(pthread_create(&t, NULL, esc, NULL)); if (can) { int r = pthread_cancel(t); MC_ASSERT(r == 0 || r == ESRCH, "cancel"); }
  OK(pthread_join(t, &v)); MC_EQ(escaped, 1, "terminate() calls"); mc_on_terminate(0); 
}
/* blocked in each kind of cancellation point inside nested scopes when the request arrives */
static pthread_mutex_t m; static pthread_cond_t c; static pthread_t lt;
static void unl(void *) { OK(pthread_mutex_unlock(&m)); }
static void *longt(void *) { WaitForSingleObject(gate, INFINITE); return VP(6); }
static void *blk(void *a)
{
  OK(pthread_setspecific(key, VP(42)));
  { Obj o; int id = (int)(ids++ % 7) + 1; push(id); pthread_cleanup_push(handler, VP(id));
    { Obj p; void *v;
      try
        {
          switch ((int)(intptr_t)a)
            {
            case 0: sem_wait(&sem); break;
            case 1: OK(pthread_mutex_lock(&m)); pthread_cleanup_push(unl, 0); pthread_cond_wait(&c, &m); pthread_cleanup_pop(1); break;
            case 2: pthread_join(lt, &v); break;
            case 3: { struct timespec iv = { 1000, 0 }; pthread_delay_np(&iv); } break;
            case 4: pthreadCancelableWait(gate); break;
            }
        }
      catch (...) { MC_FAIL("catch (...) of the user caught the library's exception"); }
      normal = 1; }
    depth--; stack >>= 3; pthread_cleanup_pop(0); }
  normal = 0; GH(11) = 1; return VP(5);
}
static void blocked(int k)
{
  void *v; pthread_t t; setup(0, 1); gate = CreateEvent(0, 1, 0, 0); OK(pthread_mutex_init(&m, NULL)); OK(pthread_cond_init(&c, NULL)); if (k == 2) OK(pthread_create(&lt, NULL, longt, NULL));
  OK(pthread_create(&t, NULL, blk, VP(k))); req = 1; { int r = pthread_cancel(t); MC_ASSERT(r == 0 || (k == 3 && r == ESRCH), "cancel"); }
  OK(pthread_join(t, &v)); MC_ASSERT(v == PTHREAD_CANCELED || k == 3, "not cancelled"); SetEvent(gate); if (k == 2) OK(pthread_join(lt, &v)); v = v == VP(6) ? PTHREAD_CANCELED : v;
  OK(pthread_mutex_trylock(&m)); OK(pthread_mutex_unlock(&m)); OK(pthread_mutex_destroy(&m)); OK(pthread_cond_destroy(&c)); CloseHandle(gate); finish(v);
}
static void b_sem(void) { blocked(0); } static void b_cond(void) { blocked(1); } static void b_join(void) { blocked(2); } static void b_delay(void) { blocked(3); } static void b_wait(void) { blocked(4); }
#define S(n, o) { #n, n, "f=VCE3 " o },
mc_scen_t mc_scenarios[] = { S(exit4, "") S(exit5, "") S(exit6, "q=- t=u") S(exit7, "q=- t=0") S(can3, "") S(can4, "q=1 t=u") S(can5, "q=- t=1") S(pair, "") S(uncaught, "") S(b_sem, "") S(b_cond, "") S(b_join, "") S(b_delay, "") S(b_wait, "")
  { 0, 0, 0 } };
#else
mc_scen_t mc_scenarios[] = { { 0, 0, 0 } };
#endif
