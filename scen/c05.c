/* C05: timed and cancelled condition waits.  Log programs: w = wait, t = timed wait, c = wait that may be cancelled
   (a cleanup handler unlocks), k<i> = cancel thread i, s/b = signal/broadcast under the mutex. */
#include "act.h"
static pthread_mutex_t m; static pthread_cond_t c; static int inside;
static int pre_;   /* waits that timed out beforehand (c05_small.c) */
static const char *prog[6]; static struct { signed char who; unsigned char seq; } ev[32]; static int nev, spare;
static struct { signed char st; } wres[6][6];         /* 0 blocked, 1 woken, 2 cancelled, 3 timed out */
static int nw[6], started;
static void lk(void) { OK(pthread_mutex_lock(&m)); MC_ASSERT(!inside, "two threads hold the mutex"); inside = mc_self() + 1; }
static void un(void) { MC_ASSERT(inside == mc_self() + 1, "lost the mutex"); inside = 0; OK(pthread_mutex_unlock(&m)); }
static void ret(void) { MC_ASSERT(!inside, "a wait returned while another thread holds the mutex"); inside = mc_self() + 1; }
static void cclean(void *a)
{
  int me = (int)(intptr_t)a;
  MC_ASSERT(!inside, "cleanup handler of a cancelled wait runs without the mutex"); inside = mc_self() + 1;
  MC_EQ(pthread_mutex_lock(&m), EDEADLK, "the cancelled thread must own the mutex in its cleanup handler");
  if (nw[me]) wres[me][nw[me] - 1].st = 2;
  un();
}
static void *lbody(void *a)
{
  int me = (int)(intptr_t)a, r; struct timespec ts;
  for (const char *p = prog[me]; *p; p++)
    switch (*p)
      {
      case 'w': lk(); ev[nev].who = (signed char)me; ev[nev++].seq = (unsigned char)nw[me]++; inside = 0; EQ(pthread_cond_wait(&c, &m), 0); ret(); wres[me][nw[me] - 1].st = 1; un(); break;
      case 't': case 'p':
        lk(); ev[nev].who = (signed char)me; ev[nev++].seq = (unsigned char)nw[me]++; ts = ts_in(*p == 't' ? 20 : -5); inside = 0; r = pthread_cond_timedwait(&c, &m, &ts); ret();
        MC_ASSERT(r == 0 || r == ETIMEDOUT, "pthread_cond_timedwait result"); MC_ASSERT(r == 0 || ts_passed(&ts), "timed out early");
        wres[me][nw[me] - 1].st = r ? 3 : 1; un(); break;
      case 'c':
        lk(); ev[nev].who = (signed char)me; ev[nev++].seq = (unsigned char)nw[me]++; inside = 0;
        { pthread_cleanup_push(cclean, VP(me)); EQ(pthread_cond_wait(&c, &m), 0); pthread_cleanup_pop(0); }
        ret(); wres[me][nw[me] - 1].st = 1; un(); break;
      case 's': lk(); ev[nev++].who = -1; OK(pthread_cond_signal(&c)); un(); break;
      case 'b': lk(); ev[nev++].who = -2; OK(pthread_cond_broadcast(&c)); un(); break;
      case 'k': p++; { int k = pthread_cancel(th_[*p - '0']); MC_ASSERT(k == 0 || k == ESRCH, "pthread_cancel result"); } break;
      }
  return a;
}
static void judge(int n)
{
  int pend = 0, rel = 0, maxrel = 0, ent = 0, tot = 0;
  for (int i = 0; i < nev; i++)
    {
      if (ev[i].who >= 0) { ent++; if (wres[ev[i].who][ev[i].seq].st < 2) pend++; continue; }
      if (ev[i].who == -1) { if (pend) { pend--; rel++; } if (ent) maxrel++; } else { rel += pend; pend = 0; maxrel += ent; }
      int w = 0; for (int j = 0; j < i; j++) if (ev[j].who >= 0) w += wres[ev[j].who][ev[j].seq].st == 1;
      MC_ASSERT(w >= rel, "a signal was lost: it woke none of the waiting threads that neither timed out nor were cancelled");
    }
  for (int j = 0; j < n; j++) for (int k = 0; k < nw[j]; k++) { tot += wres[j][k].st == 1; mc_cover(j * 16 + k * 4 + wres[j][k].st); }
  MC_ASSERT(tot <= maxrel, "more threads were woken than signals were sent"); spare = maxrel - tot;
}
static void setup(void)
{
  pthread_mutexattr_t at; OK(pthread_mutexattr_init(&at)); OK(pthread_mutexattr_settype(&at, PTHREAD_MUTEX_ERRORCHECK));
  OK(pthread_mutex_init(&m, &at)); OK(pthread_mutexattr_destroy(&at)); OK(pthread_cond_init(&c, NULL));
  for (int i = 0; i < pre_; i++) { struct timespec ts = ts_in(-1); OK(pthread_mutex_lock(&m)); EQ(pthread_cond_timedwait(&c, &m, &ts), ETIMEDOUT); OK(pthread_mutex_unlock(&m)); }
}
static void logrun(int n, const char *a, const char *b, const char *cc, const char *d)
{
  prog[0] = a; prog[1] = b; prog[2] = cc; prog[3] = d; setup();
  go(n, lbody); mc_settle(); judge(n);
  int bl = 0; for (int j = 0; j < n; j++) for (int k = 0; k < nw[j]; k++) bl += !wres[j][k].st;
  /* later signals still work: each wakes exactly one of those left, and none wakes anybody who left */
  while (bl)
    {
      int was = bl, b0 = 0, v = mc_choose(2);
      OK(v ? pthread_cond_broadcast(&c) : pthread_cond_signal(&c)); mc_quiesce();
      for (int j = 0; j < n; j++) for (int k = 0; k < nw[j]; k++) b0 += !wres[j][k].st;
      MC_ASSERT(v ? b0 == 0 : b0 == was - 1, "after timeouts and cancels a signal must wake exactly one waiter, a broadcast all"); bl = b0;
    }
  for (int i = 0; i < n; i++) { void *r; OK(pthread_join(th_[i], &r)); MC_ASSERT(r == VP(i) || r == PTHREAD_CANCELED, "exit value"); }
  nth_ = 0;
  OK(pthread_mutex_lock(&m)); { struct timespec ts = ts_in(-1); int r = pthread_cond_timedwait(&c, &m, &ts); if (r || !spare) MC_EQ(r, ETIMEDOUT, "no signal may be left over"); } OK(pthread_mutex_unlock(&m));
  MC_EQ(pthread_cond_destroy(&c), 0, "pthread_cond_destroy with no waiter"); OK(pthread_mutex_destroy(&m)); done();
}
#define L(nm, n, a, b, c_, d) static void nm(void) { logrun(n, a, b, c_, d); }
L(t_s, 2, "t", "s", "", "") L(tt_s, 2, "tt", "s", "", "") L(t_b, 2, "t", "bs", "", "") L(c_k, 2, "c", "k0", "", "") L(c_sk, 2, "c", "sk0", "", "") L(c_ks, 2, "c", "k0s", "", "")
L(t_w_s, 3, "t", "w", "s", "") L(t_w_b, 3, "t", "w", "b", "") L(t_t_s, 3, "t", "t", "s", "") L(t_t_ss, 3, "t", "t", "ss", "") L(c_w_sk, 3, "c", "w", "sk0", "") L(c_w_ks, 3, "c", "w", "k0s", "") L(c_w_bk, 3, "c", "w", "bk0", "") L(c_t_sk, 3, "c", "t", "sk0", "") L(p_w_s, 3, "p", "w", "s", "") L(tw_s_s, 3, "tw", "s", "s", "") L(c_c_s, 3, "c", "c", "sk0k1", "")
L(c_w_s_k, 4, "c", "w", "s", "k0") L(t_w_s_w, 4, "t", "w", "s", "w") L(c_w_ss_k, 4, "c", "w", "ss", "k0") L(t_w_w_s, 4, "t", "w", "w", "s") L(c_w_kw_s, 4, "c", "w", "k0w", "s") L(c_t_s_k, 4, "c", "t", "s", "k0") L(t_t_w_s, 4, "t", "t", "w", "s") L(t_t_w_b, 4, "t", "t", "w", "b") L(c_w_b_k, 4, "c", "w", "b", "k0")
/* destroy racing with the threads that a broadcast is just releasing: allowed by POSIX, must succeed or be refused, never corrupt */
static int in_, go_;
static void *wb(void *a) { struct timespec ts; OK(pthread_mutex_lock(&m)); in_++; while (!go_) { if (a) { ts = ts_in(5000); int r = pthread_cond_timedwait(&c, &m, &ts); MC_ASSERT(r == 0 || r == ETIMEDOUT, "timedwait"); } else OK(pthread_cond_wait(&c, &m)); } OK(pthread_mutex_unlock(&m)); return VP(0); }
static void destroy_after_broadcast(int n, int timed)
{
  setup(); for (int i = 0; i < n; i++) { OK(pthread_create(&th_[nth_], NULL, wb, VP(timed))); nth_++; }
  mc_quiesce(); OK(pthread_mutex_lock(&m)); go_ = 1; OK(pthread_cond_broadcast(&c)); OK(pthread_mutex_unlock(&m));
  int r = pthread_cond_destroy(&c);
  MC_ASSERT(r == 0 || r == EBUSY, "destroy after broadcast");
  joinall(); if (r) OK(pthread_cond_destroy(&c)); OK(pthread_mutex_destroy(&m)); done();
}
static void dab1(void) { destroy_after_broadcast(1, 0); } static void dab2(void) { destroy_after_broadcast(2, 0); }
/* destroy while somebody really waits */
static void dbusy(void)
{
  setup(); OK(pthread_create(&th_[nth_++], NULL, wb, 0)); mc_quiesce(); MC_EQ(pthread_cond_destroy(&c), EBUSY, "destroy with a waiter");
  mc_quiesce(); MC_EQ(in_, 1, "waiter"); OK(pthread_mutex_lock(&m)); go_ = 1; OK(pthread_cond_signal(&c)); OK(pthread_mutex_unlock(&m)); joinall(); OK(pthread_cond_destroy(&c)); MC_EQ(pthread_cond_signal(&c), EINVAL, "destroyed"); OK(pthread_mutex_destroy(&m)); done();
}
/* ---- quiescent histories */
enum { WAIT, TWAIT, SIG, BC, CANCEL, DESTROY, NOPS };
static int cancelled[8];
static void hclean(void *a) { cancelled[(intptr_t)a]++; MC_EQ(pthread_mutex_trylock(&m), EBUSY, "mutex not held in the cleanup handler"); OK(pthread_mutex_unlock(&m)); }
static int ex(int me, int op)
{
  int r = 0; struct timespec ts = ts_in(3);
  OK(pthread_mutex_lock(&m));
  { pthread_cleanup_push(hclean, VP(me)); r = op == WAIT ? pthread_cond_wait(&c, &m) : pthread_cond_timedwait(&c, &m, &ts); pthread_cleanup_pop(0); }
  OK(pthread_mutex_unlock(&m)); return r;
}
static void hist(int depth, int na, int ncan)
{
  int w[8] = {0}, mx = 0; setup(); a_start(na, ex);
  for (int d = 0; d < depth; d++)
    {
      int op = mc_choose(NOPS), a = 0, nb = 0, left = 0; for (int i = 1; i <= na; i++) nb += w[i];
      if (op <= TWAIT || op == CANCEL) { a = 1 + mc_choose(na); if (a > mx + 1) break; if (a > mx) mx = a; if (op == CANCEL ? !w[a] || !ncan : w[a]) break; }
      switch (op)
        {
        case WAIT: MC_ASSERT(!a_call(a, WAIT), "a wait returned without a signal"); w[a] = 1; break;
        case TWAIT: MC_ASSERT(a_callt(a, TWAIT), "a timed wait never returns"); MC_EQ(a_res[a], ETIMEDOUT, "timed wait without a signal"); break;
        case SIG: case BC: OK(op == SIG ? pthread_cond_signal(&c) : pthread_cond_broadcast(&c)); mc_quiesce(); for (int i = 1; i <= na; i++) { if (w[i] && !a_busy[i]) { w[i] = 0; OK(a_res[i]); } left += w[i]; } MC_EQ(nb - left, op == BC ? nb : nb > 0, "threads woken"); break;
        case CANCEL:
          { void *r; ncan--; int k = cancelled[a]; OK(pthread_cancel(a_th[a])); OK(pthread_join(a_th[a], &r)); MC_ASSERT(r == PTHREAD_CANCELED, "cancelled"); MC_EQ(cancelled[a], k + 1, "cleanup handler runs"); CloseHandle(a_go[a]); w[a] = 0; a_start1(a); mc_quiesce(); break; }
        case DESTROY: { int r = pthread_cond_destroy(&c); MC_EQ(r, nb ? EBUSY : 0, "pthread_cond_destroy"); if (!r) OK(pthread_cond_init(&c, NULL)); break; }
        }
      for (int i = 1; i <= na; i++) MC_ASSERT(!w[i] || a_busy[i], "a waiter returned without a signal");
    }
  OK(pthread_cond_broadcast(&c)); mc_quiesce(); a_stop(); OK(pthread_cond_destroy(&c)); OK(pthread_mutex_destroy(&m)); done();
}
static void h2(void) { hist(5, 2, 2); } static void h3(void) { hist(5, 3, 1); } static void h3d(void) { hist(7, 3, 3); }
#define E(x) {#x, x, ""}
#define B(x, q) {#x, x, q}
mc_scen_t mc_scenarios[] = {E(t_s), E(tt_s), E(t_b), E(c_k), E(c_sk), E(c_ks), E(dab1), E(dbusy), E(dab2), B(h2, "q=1 t=u"), B(h3, "q=1 t=2"), B(h3d, "q=- t=1"),
  B(t_w_s, "q=3 t=u"), B(t_w_b, "q=3 t=u"), B(t_t_s, "q=2 t=u"), B(t_t_ss, "q=2 t=3"), B(c_w_sk, "q=3 t=u"), B(c_w_ks, "q=3 t=u"), B(c_w_bk, "q=3 t=u"), B(c_t_sk, "q=2 t=u"), B(p_w_s, "q=3 t=u"), B(tw_s_s, "q=3 t=u"), B(c_c_s, "q=2 t=u"),
  B(c_w_s_k, "q=2 t=u"), B(t_w_s_w, "q=1 t=3"), B(c_w_ss_k, "q=2 t=u"), B(t_w_w_s, "q=1 t=3"), B(c_w_kw_s, "q=1 t=2"), B(c_t_s_k, "q=- t=2"), B(t_t_w_s, "q=- t=2"), B(t_t_w_b, "q=1 t=2"), B(c_w_b_k, "q=2 t=2"), {0, 0, 0}};
