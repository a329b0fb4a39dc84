/* Shared by C06 and C07: semaphore programs with exact token accounting at quiescence.
   W wait, D timed wait, P timed wait with a past deadline, T trywait, p post, 2/3 post_multiple, c/d cancellable wait/timed wait, k<i> cancel thread i */
#include "act.h"
static sem_t s; static const char *prog[6];
#define init_ GH(0)
#define posts_begun GH(1)
#define posts_done GH(2)
#define takes GH(3)
#define takes_begun GH(4)
#define inwait(i) GH(8 + (i))
#define ended(i) GH(16 + (i))
static int mc_exited_of(int i) { return mc_exited(i + 1); }
static void got(int me, int r, int e, int kind, int avail0)
{
  if (r == 0) { takes++; MC_ASSERT(takes <= init_ + posts_begun, "more successful waits than tokens ever existed"); takes_begun--; return; }
  MC_EQ(r, -1, "failing semaphore calls return -1");
  takes_begun--;
  MC_EQ(e, kind == 'T' ? EAGAIN : ETIMEDOUT, "errno");
  MC_ASSERT(kind == 'D' || kind == 'd' || avail0 <= 0, "reported empty although a token was available all the time");
}
static int avail(void) { return init_ + posts_done - takes - takes_begun; }   /* tokens nobody can have taken yet */
static void *body(void *a)
{
  int me = (int)(intptr_t)a, r, av; struct timespec ts;
  for (const char *p = prog[me]; *p; p++)
    switch (*p)
      {
      case 'W': case 'c': inwait(me) = 1; takes_begun++; r = sem_wait(&s); inwait(me) = 0; MC_EQ(r, 0, "sem_wait"); got(me, r, 0, *p, 0); break;
      case 'D': case 'd': ts = ts_in(20); inwait(me) = 1; takes_begun++; r = sem_timedwait(&s, &ts); { int e = errno; inwait(me) = 0; MC_ASSERT(r == 0 || ts_passed(&ts), "timed out early"); got(me, r, e, *p, 0); } break;
      case 'P': ts = ts_in(-3); av = avail(); takes_begun++; r = sem_timedwait(&s, &ts); got(me, r, errno, *p, av > 0 && avail() >= 0 ? av : 0); break;
      case 'T': av = avail(); takes_begun++; r = sem_trywait(&s); got(me, r, errno, *p, av > 0 && avail() >= 0 ? av : 0); break;
      case 'p': posts_begun++; MC_EQ(sem_post(&s), 0, "sem_post"); posts_done++; break;
      case '2': case '3': posts_begun += *p - '0'; MC_EQ(sem_post_multiple(&s, *p - '0'), 0, "sem_post_multiple"); posts_done += *p - '0'; break;
      case 'k': p++; r = pthread_cancel(th_[*p - '0']); MC_ASSERT(r == 0 || r == ESRCH, "pthread_cancel"); break;
      case 'v': { int v; MC_EQ(sem_getvalue(&s, &v), 0, "sem_getvalue"); MC_ASSERT(v <= init_ + posts_begun - takes, "reported value exceeds the tokens there can be"); break; }
      case 'e': /* end of cancellable region */ pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, NULL); break;
      }
  ended(me) = 1;
  return a;
}
static void check(int n)
{
  int v, bl = 0; for (int i = 0; i < n; i++) bl += inwait(i) && !mc_exited_of(i);
  OK(sem_getvalue(&s, &v));
  mc_cover((unsigned)(v + 8) * 16 + bl);
  MC_EQ(v, init_ + posts_done - takes - bl, "value at quiescence (initial + posts - successful waits - blocked threads)");
  MC_ASSERT(!bl || init_ + posts_done - takes == 0, "a thread is blocked although a token is available");
}
static void semrun(int n, int init, const char *a, const char *b, const char *c, const char *d)
{
  int v, bl; init_ = init; prog[0] = a; prog[1] = b; prog[2] = c; prog[3] = d;
  OK(sem_init(&s, 0, (unsigned)init)); go(n, body); mc_settle(); check(n);
  for (int k = 0; k < 12; k++)
    {
      bl = 0; for (int i = 0; i < n; i++) bl += inwait(i) && !mc_exited_of(i);
      if (!bl) break;
      MC_EQ(sem_destroy(&s), -1, "destroying a semaphore with a blocked thread"); MC_EQ(errno, EBUSY, "errno"); 
      posts_begun++; OK(sem_post(&s)); posts_done++; mc_settle(); check(n);
    }
  for (int i = 0; i < n; i++) { void *r; OK(pthread_join(th_[i], &r)); MC_ASSERT(r == (ended(i) ? VP(i) : PTHREAD_CANCELED), "exit value"); }
  nth_ = 0; OK(sem_getvalue(&s, &v)); MC_EQ(v, init_ + posts_done - takes, "tokens left");
  for (; v > 0; v--) MC_EQ(sem_trywait(&s), 0, "every token left can be taken");
  MC_EQ(sem_trywait(&s), -1, "trywait of an empty semaphore"); MC_EQ(errno, EAGAIN, "errno");
  OK(sem_post(&s)); OK(sem_wait(&s)); OK(sem_destroy(&s)); done();
}
#define S(nm, n, i, a, b, c, d) static void nm(void) { semrun(n, i, a, b, c, d); }
