/* C06 with a tiny SEM_VALUE_MAX (INT_MAX is 5 in this flavour): a post that would exceed the maximum is refused as a whole
   and changes nothing; one that fits is not; also while others post and wait. */
#include "act.h"
static sem_t s; static const char *prog[4]; static int init_;
#define begun GH(0)
#define posted GH(1)
#define taken GH(2)
#define waiting GH(3)
#define freeing GH(4)
static int may(int r, int n, int lo, int hi)   /* lo/hi: least and greatest value the semaphore may have had during the call */
{
  if (r == 0) { MC_ASSERT(lo + n <= SEM_VALUE_MAX, "a post beyond the maximum was accepted"); return 1; }
  MC_EQ(r, -1, "failing semaphore calls return -1"); MC_EQ(errno, ERANGE, "errno"); MC_ASSERT(hi + n > SEM_VALUE_MAX, "a post that fits was refused"); return 0;
}
static void *body(void *a)
{
  int me = (int)(intptr_t)a;
  for (const char *p = prog[me]; *p; p++)
    switch (*p)
      {
      case 'w': freeing++; EQ(sem_wait(&s), 0); taken++; freeing--; break;
      case 'T': freeing++; if (sem_trywait(&s) == 0) taken++; else MC_EQ(errno, EAGAIN, "errno"); freeing--; break;
      default:
        {
          int n = *p - '0', p0 = (int)posted, t0 = (int)taken, r; begun += n;
          r = n == 1 && mc_choose(2) ? sem_post(&s) : sem_post_multiple(&s, n);
          /* least: what was certainly in before, less everything anybody can have taken until now; greatest: everything begun until now less what was certainly taken before */
          if (may(r, n, init_ + p0 - (int)(taken + freeing), init_ + (int)begun - n - t0)) posted += n; else begun -= n;
        }
      }
  return a;
}
static void run(int lo, int k, const char *a, const char *b, const char *c)
{
  int v, n = *c ? 3 : 2; init_ = lo + mc_choose(k); prog[0] = a; prog[1] = b; prog[2] = c;
  OK(sem_init(&s, 0, (unsigned)init_)); go(n, body); mc_quiesce();
  OK(sem_getvalue(&s, &v)); if (v < 0) { posted -= v; begun -= v; OK(sem_post_multiple(&s, -v)); } joinall();
  OK(sem_getvalue(&s, &v)); MC_EQ(v, init_ + posted - taken, "value"); MC_ASSERT(v <= SEM_VALUE_MAX, "value above the maximum");
  /* the kernel's count agrees: exactly so many can be taken, and so many posted */
  for (int i = 0; i < v; i++) EQ(sem_trywait(&s), 0); EQ(sem_trywait(&s), -1); EQ(errno, EAGAIN);
  for (int i = 0; i < SEM_VALUE_MAX; i++) EQ(sem_post(&s), 0); EQ(sem_post(&s), -1); EQ(errno, ERANGE); EQ(sem_post_multiple(&s, 1), -1); EQ(errno, ERANGE);
  OK(sem_getvalue(&s, &v)); EQ(v, SEM_VALUE_MAX); for (int i = 0; i < v; i++) EQ(sem_wait(&s), 0); OK(sem_destroy(&s)); done(); MC_EQ(mc_handles(), 0, "handles leaked");
}
#define R(nm, lo, k, a, b, c) static void nm(void) { run(lo, k, a, b, c); }
R(p_p, 3, 3, "1", "1", "") R(p2_p, 2, 4, "2", "1", "") R(p2_2, 1, 5, "2", "2", "") R(p_w, 4, 2, "11", "w", "") R(p2_T, 3, 3, "21", "T", "") R(p3_w, 0, 6, "3", "w", "") R(p_p_w, 4, 2, "1", "1", "w") R(p2_2_w, 2, 3, "2", "2", "w") R(p_2_T, 3, 2, "1", "2", "T") R(w_w_5, 0, 2, "w", "w", "5") R(p5_w, 0, 3, "51", "w", "") R(p_1_1, 3, 2, "1", "1", "1")
/* all histories against the model */
enum { WAIT, TRY, PAST, POST, MULTI };
static int multi_;
static int ex(int me, int op)
{
  struct timespec ts = ts_in(-10); int r = -1;
  switch (op) { case WAIT: r = sem_wait(&s); break; case TRY: r = sem_trywait(&s); break; case PAST: r = sem_timedwait(&s, &ts); break; case POST: r = sem_post(&s); break; case MULTI: r = sem_post_multiple(&s, multi_); break; }
  return r ? errno : 0;
}
static void hist(int depth, int na)
{
  int val = mc_choose(SEM_VALUE_MAX + 1), w[8] = {0}, mx = 0, v; OK(sem_init(&s, 0, (unsigned)val)); a_start(na, ex);
  for (int d = 0; d < depth; d++)
    {
      int op = mc_choose(4 + SEM_VALUE_MAX + 1), a = 1 + mc_choose(na), nb = 0; if (op >= MULTI) { multi_ = op - MULTI + 1; op = MULTI; }
      for (int i = 1; i <= na; i++) nb += w[i]; if (a > mx + 1 || w[a]) break; if (a > mx) mx = a;
      int fin = a_call(a, op);
      switch (op)
        {
        case WAIT: if (val > 0) { MC_ASSERT(fin, "blocked although a token was there"); OK(a_res[a]); val--; } else { MC_ASSERT(!fin, "wait on an empty semaphore returned"); w[a] = 1; nb++; } break;
        case TRY: case PAST: MC_ASSERT(fin, "must not block"); if (val > 0) { OK(a_res[a]); val--; } else MC_EQ(a_res[a], op == TRY ? EAGAIN : ETIMEDOUT, "empty"); break;
        default:
          {
            int k = op == POST ? 1 : multi_, u = k < nb ? k : nb, left = 0; MC_ASSERT(fin, "must not block");
            if ((nb ? -nb : val) + k > SEM_VALUE_MAX) { MC_EQ(a_res[a], ERANGE, "post beyond the maximum"); u = k = 0; } else OK(a_res[a]);
            val += k - u; for (int i = 1; i <= na; i++) { if (w[i] && !a_busy[i]) { OK(a_res[i]); w[i] = 0; } left += w[i]; } MC_EQ(nb - left, u, "threads woken"); nb = left;
          }
        }
      for (int i = 1; i <= na; i++) MC_ASSERT(!w[i] || a_busy[i], "a waiter returned without a post");
      OK(sem_getvalue(&s, &v)); MC_EQ(v, nb ? -nb : val, "sem_getvalue");
    }
  for (int i = 1; i <= na; i++) if (w[i]) OK(sem_post(&s));
  mc_quiesce(); a_stop(); OK(sem_destroy(&s)); done();
}
static void h1(void) { hist(4, 1); } static void h2(void) { hist(4, 2); } static void h3(void) { hist(5, 3); }
static void inits(void) { int k = mc_choose(10), r = sem_init(&s, 0, (unsigned)k), v; MC_EQ(r, k > SEM_VALUE_MAX ? -1 : 0, "sem_init"); if (r) EQ(errno, EINVAL); else { OK(sem_getvalue(&s, &v)); EQ(v, k); OK(sem_destroy(&s)); } done(); }
#define E(x) {#x, x, ""}
#define B(x, q) {#x, x, q}
mc_scen_t mc_scenarios[] = {E(p_p), E(p2_p), E(p2_2), E(p_w), E(p2_T), E(p3_w), E(p5_w), E(inits), B(p_p_w, "q=3 t=u"), B(p2_2_w, "q=3 t=u"), B(p_2_T, "q=3 t=u"), B(w_w_5, "q=3 t=u"), B(p_1_1, "q=3 t=u"), B(h1, "q=1 t=u"), B(h2, "q=1 t=u"), B(h3, "q=- t=1"), {0, 0, 0}};
