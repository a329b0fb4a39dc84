/* C01: mutual exclusion, no lost wake-up, failed attempts harmless. */
#include "common.h"
static pthread_mutex_t m; static const char *prog[4]; static int rec, owners, who, got[4], budget;
static void enter(int me) { MC_ASSERT(owners == 0 || who == me, "two threads hold the mutex at once"); owners++; who = me; mc_point(); MC_ASSERT(who == me, "another thread entered while the mutex was held"); }
static void leave(int me) { MC_ASSERT(who == me && owners > 0, "another thread entered while the mutex was held"); owners--; OK(pthread_mutex_unlock(&m)); }
static void *body(void *a)
{
  int me = (int)(intptr_t)a;
  for (const char *p = prog[me]; *p; p++)
    {
      int r; struct timespec ts;
      switch (*p)
        {
        case 'L': OK(pthread_mutex_lock(&m)); r = 0; break;
        case 'T': r = pthread_mutex_trylock(&m); MC_ASSERT(r == 0 || r == EBUSY, "trylock result"); break;
        case 'D': ts = ts_in(50); r = pthread_mutex_timedlock(&m, &ts); MC_ASSERT(r == 0 || r == ETIMEDOUT, "timedlock result"); if (r) MC_ASSERT(ts_passed(&ts), "timed out early"); break;
        case 'P': ts = ts_in(-50); r = pthread_mutex_timedlock(&m, &ts); MC_ASSERT(r == 0 || r == ETIMEDOUT, "timedlock result"); break;
        case 'R': /* nested: only recursive */ OK(pthread_mutex_lock(&m)); enter(me); OK(pthread_mutex_lock(&m)); enter(me); leave(me); OK(pthread_mutex_trylock(&m)); enter(me); leave(me); mc_point(); leave(me); got[me]++; continue;
        case 'N': /* errorcheck: refused relock keeps it held */ OK(pthread_mutex_lock(&m)); enter(me); EQ(pthread_mutex_lock(&m), EDEADLK); mc_point(); MC_ASSERT(who == me && owners == 1, "lost the mutex by a refused relock"); leave(me); got[me]++; continue;
        case 'Y': /* a foreign unlock is refused and changes nothing */ MC_EQ(pthread_mutex_unlock(&m), EPERM, "foreign unlock"); continue;
        default: MC_FAIL("bad program"); return 0;
        }
      if (r == 0) { enter(me); leave(me); got[me]++; } else mc_outcome(me * 16 + (p - prog[me]));
    }
  return 0;
}
static void run(int kind, int robust, int stat, int n, const char *a, const char *b, const char *c)
{
  pthread_mutexattr_t at; prog[0] = a; prog[1] = b; prog[2] = c;
  if (stat) { static const pthread_mutex_t i0 = PTHREAD_MUTEX_INITIALIZER, i1 = PTHREAD_RECURSIVE_MUTEX_INITIALIZER, i2 = PTHREAD_ERRORCHECK_MUTEX_INITIALIZER; m = kind == PTHREAD_MUTEX_NORMAL ? i0 : kind == PTHREAD_MUTEX_RECURSIVE ? i1 : i2; }
  else if (kind == -1) OK(pthread_mutex_init(&m, NULL));
  else { OK(pthread_mutexattr_init(&at)); OK(pthread_mutexattr_settype(&at, kind)); if (robust) OK(pthread_mutexattr_setrobust(&at, PTHREAD_MUTEX_ROBUST)); OK(pthread_mutex_init(&m, &at)); OK(pthread_mutexattr_destroy(&at)); }
  go(n, body);
  joinall();
  MC_ASSERT(owners == 0, "mutex still held");
  for (int i = 0; i < n; i++) { mc_outcome(got[i]); int nl = 0; for (const char *p = prog[i]; *p; p++) nl += *p == 'L' || *p == 'R' || *p == 'N'; MC_ASSERT(got[i] >= nl, "lock count"); }
  OK(pthread_mutex_trylock(&m)); OK(pthread_mutex_unlock(&m));   /* still usable by everybody */
  OK(pthread_mutex_lock(&m)); OK(pthread_mutex_unlock(&m));
  OK(pthread_mutex_destroy(&m));
  done();
}
#define S2(nm, k, r, s, a, b) static void nm(void) { run(k, r, s, 2, a, b, ""); }
#define S3(nm, k, r, s, a, b, c) static void nm(void) { run(k, r, s, 3, a, b, c); }
#define NO PTHREAD_MUTEX_NORMAL
#define RC PTHREAD_MUTEX_RECURSIVE
#define EC PTHREAD_MUTEX_ERRORCHECK
S2(n_LL_LL, NO, 0, 0, "LL", "LL") S2(e_LL_LL, EC, 0, 0, "LL", "LL") S2(r_LL_LL, RC, 0, 0, "LL", "LL") S2(d_LL_LL, -1, 0, 0, "LL", "LL")
S3(n_L_L_L, NO, 0, 0, "L", "L", "L") S3(e_L_L_L, EC, 0, 0, "L", "L", "L") S3(r_L_L_L, RC, 0, 0, "L", "L", "L")
S3(n_LL_L_L, NO, 0, 0, "LL", "L", "L") S3(e_LL_L_L, EC, 0, 0, "LL", "L", "L") S3(r_LL_L_L, RC, 0, 0, "LL", "L", "L")
S3(n_L_T_L, NO, 0, 0, "L", "T", "L") S3(e_L_T_L, EC, 0, 0, "L", "T", "L") S3(r_L_T_L, RC, 0, 0, "L", "T", "L")
S3(n_L_D_L, NO, 0, 0, "L", "D", "L") S3(e_L_D_L, EC, 0, 0, "L", "D", "L") S3(r_L_D_L, RC, 0, 0, "L", "D", "L")
S3(n_L_P_L, NO, 0, 0, "L", "P", "L") S3(e_L_P_L, EC, 0, 0, "L", "P", "L") S3(r_L_P_L, RC, 0, 0, "L", "P", "L")
S3(n_LTD_x3, NO, 0, 0, "L", "TD", "DT") S3(e_LTD_x3, EC, 0, 0, "L", "TD", "DT") S3(r_LTD_x3, RC, 0, 0, "L", "TD", "DT")
S3(n_D_D_D, NO, 0, 0, "D", "D", "D") S3(e_D_D_D, EC, 0, 0, "D", "D", "D") S3(r_D_D_D, RC, 0, 0, "D", "D", "D")
S2(r_R_R, RC, 0, 0, "R", "R") S2(r_R_LT, RC, 0, 0, "R", "LT") S2(r_R_D, RC, 0, 0, "RL", "D") S2(e_N_N, EC, 0, 0, "N", "N") S2(e_N_LD, EC, 0, 0, "NL", "LD")
S3(e_L_L_Y, EC, 0, 0, "L", "L", "Y") S3(r_L_L_Y, RC, 0, 0, "L", "L", "Y")
S2(ro_n_LL_LL, NO, 1, 0, "LL", "LL") S2(ro_e_LL_LL, EC, 1, 0, "LL", "LL") S2(ro_r_R_R, RC, 1, 0, "R", "R")
S3(ro_n_L_T_L, NO, 1, 0, "L", "T", "L") S3(ro_e_L_T_L, EC, 1, 0, "L", "T", "L") S3(ro_n_L_D_L, NO, 1, 0, "L", "D", "L") S3(ro_e_L_D_L, EC, 1, 0, "L", "D", "L") S3(ro_r_L_D_T, RC, 1, 0, "L", "D", "T") S2(ro_n_D_D, NO, 1, 0, "DP", "DP") S2(ro_r_D_D, RC, 1, 0, "DP", "DP")
S3(sn_L_L_L, NO, 0, 1, "L", "L", "L") S2(sn_LT_DL, NO, 0, 1, "LT", "DL") S2(se_LT_DL, EC, 0, 1, "LT", "DL") S2(sr_R_TD, RC, 0, 1, "R", "TD") S2(sr_T_P, RC, 0, 1, "T", "P") S2(sn_T_P, NO, 0, 1, "T", "P")
S3(n_LL_LL_LL, NO, 0, 0, "LL", "LL", "LL") S3(e_LL_LL_LL, EC, 0, 0, "LL", "LL", "LL") S3(n_LD_TL_DL, NO, 0, 0, "LD", "TL", "DL") S3(r_RD_TL_DL, RC, 0, 0, "RD", "TL", "DL") S3(ro_n_LD_TL_DL, NO, 1, 0, "LD", "TL", "DL") S3(ro_e_LD_TL_DL, EC, 1, 0, "LD", "TL", "DL")
static void four(void) { prog[3] = "L"; run(NO, 0, 0, 4, "L", "L", "L"); }
static void foured(void) { prog[3] = "D"; run(EC, 0, 0, 4, "L", "D", "L"); }
#define E(x) {#x, x, ""}
#define T(x, o) {#x, x, o}
mc_scen_t mc_scenarios[] = {
  E(n_LL_LL), E(e_LL_LL), E(r_LL_LL), E(d_LL_LL), E(n_L_L_L), E(e_L_L_L), E(r_L_L_L), E(n_LL_L_L), E(e_LL_L_L), E(r_LL_L_L), E(n_L_T_L), E(e_L_T_L), E(r_L_T_L),
  E(n_L_D_L), E(e_L_D_L), E(r_L_D_L), E(n_L_P_L), E(e_L_P_L), E(r_L_P_L), E(n_LTD_x3), E(e_LTD_x3), E(r_LTD_x3), E(n_D_D_D), E(e_D_D_D), E(r_D_D_D), E(r_R_R), E(r_R_LT), E(r_R_D), E(e_N_N), E(e_N_LD), E(e_L_L_Y), E(r_L_L_Y),
  E(ro_n_LL_LL), E(ro_e_LL_LL), E(ro_r_R_R), E(ro_n_L_T_L), E(ro_e_L_T_L), E(ro_n_L_D_L), E(ro_e_L_D_L), E(ro_r_L_D_T), E(ro_n_D_D), E(ro_r_D_D), T(sn_L_L_L, "q=2 w=3 tt=600"), E(sn_LT_DL), E(se_LT_DL), E(sr_R_TD), E(sr_T_P), E(sn_T_P),
  T(n_LL_LL_LL, "q=2"), T(e_LL_LL_LL, "q=2"), T(n_LD_TL_DL, "q=2"), T(r_RD_TL_DL, "q=2"), T(ro_n_LD_TL_DL, "q=2"), T(ro_e_LD_TL_DL, "q=2"), T(four, "q=2"), T(foured, "q=2"),
  {0, 0, 0}};
