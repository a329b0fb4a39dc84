/* C06: semaphores conserve tokens. */
#include "sem.h"
S(W_p, 2, 0, "W", "p", "", "") S(D_p, 2, 0, "D", "p", "", "") S(P_p, 2, 0, "P", "p", "", "") S(T_p, 2, 0, "T", "p", "", "") S(WW_pp, 2, 0, "WW", "pp", "", "") S(DD_p, 2, 0, "DD", "p", "", "") S(DW_p, 2, 0, "DW", "p", "", "") S(WD_2, 2, 0, "WD", "2", "", "") S(mutex2, 2, 1, "WpWp", "WpWp", "", "") S(v1, 2, 1, "vWv", "vpv", "", "") S(PpT, 2, 1, "PpT", "TpP", "", "")
S(W_W_p, 3, 0, "W", "W", "p", "") S(W_W_2, 3, 0, "W", "W", "2", "") S(W_W_3, 3, 0, "W", "W", "3", "") S(W_D_p, 3, 0, "W", "D", "p", "") S(D_D_p, 3, 0, "D", "D", "p", "") S(W_D_2, 3, 0, "W", "D", "2", "") S(W_T_p, 3, 0, "W", "T", "p", "") S(W_p_p, 3, 0, "W", "p", "p", "") S(WW_p_2, 3, 0, "WW", "p", "2", "") S(W_D_pp, 3, 0, "W", "D", "pp", "") S(D_D_2, 3, 0, "D", "D", "2", "") S(W_P_p, 3, 0, "W", "P", "p", "") S(mutex3, 3, 1, "Wp", "Wp", "Wp", "") S(two3, 3, 2, "WpWp", "Wp", "Tp", "") S(W_W_T2, 3, 0, "W", "W", "T2", "") S(tokens, 3, 1, "D", "DT", "p2", "")
S(W_W_W_2p, 4, 0, "W", "W", "W", "2p") S(W_D_D_2, 4, 0, "W", "D", "D", "2") S(W_W_p_p, 4, 0, "W", "W", "p", "p") S(W_W_2_T, 4, 0, "W", "W", "2", "T") S(W_W_D_3, 4, 0, "W", "W", "D", "3") S(W_W_2_2, 4, 0, "W", "W", "2", "2")
/* the thread a post released may destroy the semaphore at once */
static void *poster(void *a) { OK(sem_post(&s)); return a; }
static void *mposter(void *a) { OK(sem_post_multiple(&s, (int)(intptr_t)a)); return a; }
static void destroy_after(void) { OK(sem_init(&s, 0, 0)); go(1, poster); OK(sem_wait(&s)); MC_EQ(sem_destroy(&s), 0, "destroy by the thread just released"); joinall(); done(); }
static void *wt1(void *a) { OK(sem_wait(&s)); return a; }
static void destroy_after2(void) { OK(sem_init(&s, 0, 0)); go(1, wt1); OK(pthread_create(&th_[nth_++], NULL, mposter, VP(2))); OK(sem_wait(&s)); OK(pthread_join(th_[0], NULL)); MC_EQ(sem_destroy(&s), 0, "destroy by the thread just released"); OK(pthread_join(th_[1], NULL)); nth_ = 0; done(); }
/* limits */
static void limits(void)
{
  int v; OK(sem_init(&s, 0, SEM_VALUE_MAX)); MC_EQ(sem_post(&s), -1, "post at the maximum"); EQ(errno, ERANGE); MC_EQ(sem_post_multiple(&s, 1), -1, "post at the maximum"); EQ(errno, ERANGE); OK(sem_getvalue(&s, &v)); EQ(v, SEM_VALUE_MAX);
  OK(sem_wait(&s)); MC_EQ(sem_post_multiple(&s, 2), -1, "posting beyond the maximum"); EQ(errno, ERANGE); OK(sem_getvalue(&s, &v)); EQ(v, SEM_VALUE_MAX - 1); OK(sem_post_multiple(&s, 1)); OK(sem_getvalue(&s, &v)); EQ(v, SEM_VALUE_MAX); OK(sem_destroy(&s));
  EQ(sem_init(&s, 0, (unsigned)SEM_VALUE_MAX + 1u), -1); EQ(errno, EINVAL); EQ(sem_init(&s, 1, 0), -1); EQ(errno, EPERM); done();
}
/* ---- histories against the model */
enum { WAIT, TRY, PAST, POST, POST2, DESTROY, NOPS };
static int ex(int me, int op)
{
  struct timespec ts = ts_in(-10); int r = -1;
  switch (op) { case WAIT: r = sem_wait(&s); break; case TRY: r = sem_trywait(&s); break; case PAST: r = sem_timedwait(&s, &ts); break; case POST: r = sem_post(&s); break; case POST2: r = sem_post_multiple(&s, 2); break; }
  return r ? errno : 0;
}
static void hist(int depth, int na, int init)
{
  int val = init, w[8] = {0}, mx = 0, v; OK(sem_init(&s, 0, (unsigned)init)); a_start(na, ex);
  for (int d = 0; d < depth; d++)
    {
      int op = mc_choose(NOPS), a, nb = 0, left = 0; for (int i = 1; i <= na; i++) nb += w[i];
      if (op == DESTROY) { int r = sem_destroy(&s); MC_EQ(r, nb ? -1 : 0, "sem_destroy"); if (r) MC_EQ(errno, EBUSY, "errno"); else { OK(sem_init(&s, 0, (unsigned)val)); } continue; }
      a = 1 + mc_choose(na); if (a > mx + 1 || w[a]) break; if (a > mx) mx = a;
      int fin = a_call(a, op);
      switch (op)
        {
        case WAIT: if (val > 0) { MC_ASSERT(fin, "blocked although a token was there"); OK(a_res[a]); val--; } else { MC_ASSERT(!fin, "wait on an empty semaphore returned"); w[a] = 1; nb++; } break;
        case TRY: case PAST: MC_ASSERT(fin, "must not block"); if (val > 0) { OK(a_res[a]); val--; } else MC_EQ(a_res[a], op == TRY ? EAGAIN : ETIMEDOUT, "empty"); break;
        default: MC_ASSERT(fin, "must not block"); OK(a_res[a]); { int k = op == POST ? 1 : 2, u = k < nb ? k : nb; val += k - u; for (int i = 1; i <= na; i++) { if (w[i] && !a_busy[i]) { OK(a_res[i]); w[i] = 0; } left += w[i]; } MC_EQ(nb - left, u, "threads released by the post"); nb = left; }
        }
      for (int i = 1; i <= na; i++) MC_ASSERT(!w[i] || a_busy[i], "a waiter returned without a post");
      OK(sem_getvalue(&s, &v)); MC_EQ(v, nb ? -nb : val, "sem_getvalue");
    }
  for (int i = 1; i <= na; i++) if (w[i]) OK(sem_post(&s));
  mc_quiesce(); a_stop(); OK(sem_destroy(&s)); done();
}
static void h2(void) { hist(6, 2, 0); } static void h3(void) { hist(5, 3, 1); } static void h3d(void) { hist(7, 3, 0); }
#define E(x) {#x, x, ""}
#define B(x, q) {#x, x, q}
mc_scen_t mc_scenarios[] = {E(W_p), E(D_p), E(P_p), E(T_p), E(WW_pp), E(DD_p), E(DW_p), E(WD_2), E(mutex2), E(v1), E(PpT), E(destroy_after), E(destroy_after2), E(limits), B(h2, "q=1 t=u"), B(h3, "q=1 t=u"), B(h3d, "q=- t=1"),
  E(W_W_p), E(W_W_2), E(W_W_3), E(W_D_p), B(D_D_p, "q=3 t=u"), E(W_D_2), E(W_T_p), E(W_p_p), E(WW_p_2), E(W_D_pp), B(D_D_2, "q=3 t=u"), E(W_P_p), E(mutex3), E(two3), E(W_W_T2), B(tokens, "q=3 t=u"), B(W_W_W_2p, "q=3 t=u"), B(W_D_D_2, "q=2 t=u"), E(W_W_p_p), E(W_W_2_T), B(W_W_D_3, "q=3 t=u"), E(W_W_2_2), {0, 0, 0}};
