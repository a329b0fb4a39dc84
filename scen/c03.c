/* C03: robust mutexes.  Ghost state: who holds it, whether an owner died un-noticed, whether it is beyond recovery. */
#include "common.h"
static pthread_mutex_t m[2]; static const char *prog[4]; static int holder[2], deadp[2], incons[2], notrec[2], kind, deaths, notices;
static void got(int k, int me, int r, int nr)
{
  MC_ASSERT(!nr || r == ENOTRECOVERABLE, "a lock attempt begun after the mutex became not recoverable was not told so");
  mc_cover(r);
  if (r == 0)
    {
      MC_ASSERT(!holder[k], "two threads hold the robust mutex");
      MC_ASSERT(!deadp[k], "acquired without being told the previous owner died");
      MC_ASSERT(!notrec[k], "acquired a mutex that is not recoverable");
      holder[k] = me + 1;
    }
  else if (r == EOWNERDEAD)
    {
      MC_ASSERT(!holder[k], "two threads hold the robust mutex");
      MC_ASSERT(deadp[k], "owner death reported although no owner died, or reported twice");
      deadp[k] = 0; notices++; holder[k] = me + 1; incons[k] = 1;
    }
  else if (r == ENOTRECOVERABLE) MC_ASSERT(notrec[k], "reported not recoverable without cause");
}
static void die(int me, int how)
{
  for (int k = 0; k < 2; k++) if (holder[k] == me + 1) { holder[k] = 0; deadp[k] = 1; incons[k] = 0; deaths++; }
  mc_point();
  if (how == 'e') pthread_exit(VP(7));
  if (how == 'k') { pthread_cancel(pthread_self()); pthread_testcancel(); MC_FAIL("not cancelled"); }
}
static void unl(int k, int me)
{
  MC_ASSERT(holder[k] == me + 1, "lost ownership");
  if (incons[k]) notrec[k] = 1;
  holder[k] = 0; incons[k] = 0;
  MC_EQ(pthread_mutex_unlock(&m[k]), 0, "unlock by the owner");
}
static void *body(void *a)
{
  int me = (int)(intptr_t)a, k = 0;
  for (const char *p = prog[me]; *p; p++)
    {
      struct timespec ts; int nr, r;
      if (*p == '1') { k = 1; continue; }
      if (*p == '0') { k = 0; continue; }
      switch (*p)
        {
        case 'L': nr = notrec[k] == 2; r = pthread_mutex_lock(&m[k]); got(k, me, r, nr); MC_ASSERT(r == 0 || r == EOWNERDEAD || r == ENOTRECOVERABLE, "lock result"); break;
        case 'T': nr = notrec[k] == 2; r = pthread_mutex_trylock(&m[k]); got(k, me, r, nr); MC_ASSERT(r == 0 || r == EOWNERDEAD || r == ENOTRECOVERABLE || r == EBUSY, "trylock result"); break;
        case 'D': nr = notrec[k] == 2; ts = ts_in(20); r = pthread_mutex_timedlock(&m[k], &ts); got(k, me, r, nr); MC_ASSERT(r == 0 || r == EOWNERDEAD || r == ENOTRECOVERABLE || r == ETIMEDOUT, "timedlock result"); break;
        default: MC_FAIL("bad program"); return 0;
        }
      int mine = r == 0 || r == EOWNERDEAD;
      switch (*++p)
        {
        case 'u': case 'c': if (!mine) break; mc_point(); if (r == EOWNERDEAD) { MC_EQ(pthread_mutex_consistent(&m[k]), 0, "consistent by the owner"); incons[k] = 0; MC_EQ(pthread_mutex_consistent(&m[k]), EINVAL, "consistent when it already is"); } mc_point(); unl(k, me); break;
        case 'i': if (!mine) break; mc_point(); unl(k, me); if (notrec[k]) notrec[k] = 2; break;
        case 'x': case 'e': case 'k': if (mine) die(me, *p); return 0;
        case 'h': break;     /* keep it */
        case 'n': /* nested lock of a recursive mutex, inner unlock must not change anything */
          if (!mine) break;
          MC_EQ(pthread_mutex_lock(&m[k]), 0, "relock"); MC_EQ(pthread_mutex_unlock(&m[k]), 0, "inner unlock"); mc_point();
          if (r == EOWNERDEAD) { MC_EQ(pthread_mutex_consistent(&m[k]), 0, "consistent by the owner"); incons[k] = 0; } unl(k, me); break;
        case 'N': /* die holding it twice */ if (!mine) break; MC_EQ(pthread_mutex_lock(&m[k]), 0, "relock"); die(me, 'x'); return 0;
        }
    }
  if (prog[me][0]) for (int j = 0; j < 2; j++) if (holder[j] == me + 1) die(me, 'x');
  return 0;
}
static DWORD WINAPI foreign(void *a) { body(a); pthread_win32_thread_detach_np(); return 0; }
static void run(int kd, int n, int fmask, const char *a, const char *b, const char *c)
{
  pthread_mutexattr_t at; prog[0] = a; prog[1] = b; prog[2] = c; kind = kd; HANDLE fh[4]; void *r; int two = 0;
  for (int i = 0; i < n; i++) two |= strchr(prog[i], '1') != 0;
  for (int k = 0; k <= two; k++)
    { OK(pthread_mutexattr_init(&at)); OK(pthread_mutexattr_settype(&at, kd)); OK(pthread_mutexattr_setrobust(&at, PTHREAD_MUTEX_ROBUST)); OK(pthread_mutex_init(&m[k], &at)); OK(pthread_mutexattr_destroy(&at)); }
  for (int i = 0; i < n; i++)
    if (fmask >> i & 1) fh[i] = CreateThread(0, 0, foreign, VP(i), 0, 0); else OK(pthread_create(&th_[i], NULL, body, VP(i)));
  for (int i = 0; i < n; i++)
    if (fmask >> i & 1) { WaitForSingleObject(fh[i], INFINITE); CloseHandle(fh[i]); } else OK(pthread_join(th_[i], &r));
  MC_ASSERT(deaths == notices + deadp[0] + deadp[1], "every death is reported exactly once");
  for (int k = 0; k <= two; k++)
    {
      MC_ASSERT(!holder[k], "still held");
      int e = notrec[k] ? ENOTRECOVERABLE : deadp[k] ? EOWNERDEAD : 0, g;
      MC_EQ(g = pthread_mutex_trylock(&m[k]), e, "final trylock");
      if (g == EOWNERDEAD) OK(pthread_mutex_consistent(&m[k]));
      if (g != ENOTRECOVERABLE) { OK(pthread_mutex_unlock(&m[k])); EQ(pthread_mutex_lock(&m[k]), 0); OK(pthread_mutex_unlock(&m[k])); }
      else EQ(pthread_mutex_lock(&m[k]), ENOTRECOVERABLE);
      OK(pthread_mutex_destroy(&m[k]));
    }
  done();
}
#define NO PTHREAD_MUTEX_NORMAL
#define RC PTHREAD_MUTEX_RECURSIVE
#define EC PTHREAD_MUTEX_ERRORCHECK
#define S3(nm, a, b, c) static void n_##nm(void) { run(NO, 3, 0, a, b, c); } static void e_##nm(void) { run(EC, 3, 0, a, b, c); } static void r_##nm(void) { run(RC, 3, 0, a, b, c); }
#define S2(nm, a, b) static void n_##nm(void) { run(NO, 2, 0, a, b, ""); } static void e_##nm(void) { run(EC, 2, 0, a, b, ""); } static void r_##nm(void) { run(RC, 2, 0, a, b, ""); }
#define E(x) {#x, x, ""}
#define B(x, q) {#x, x, q}
#define E3(x) {"n_" #x, n_##x, ""}, {"e_" #x, e_##x, ""}, {"r_" #x, r_##x, ""}
#define B3(x, o) {"n_" #x, n_##x, o}, {"e_" #x, e_##x, o}, {"r_" #x, r_##x, o}
S2(x_c, "Lx", "Lc") S2(e_Tc, "Le", "TcTc") S2(k_Dc, "Lk", "DcDc") S2(i_L, "Lx", "LiLu") S2(xx, "LuLx", "LcLx")
S3(x_c_c, "Lx", "Lc", "Lc") S3(x_i_u, "Lx", "Li", "Lu") S3(x_i_T, "Lx", "Li", "TuTu") S3(x_i_D, "Lx", "Li", "Du") S3(x_D_D, "Lx", "Dc", "Dc") S3(x_Di_Di, "Lx", "Di", "Di") S3(x_x_c, "Lx", "Lx", "Lc") S3(ux_c_c, "LuLx", "Lc", "Lc") S3(x_Ti_u, "Lx", "TiTi", "Lu") S3(u_x_c, "Lu", "Lx", "LcLu")
S2(two, "0Lh1Lx", "0Lc1Lc") S2(two2, "0Lh1Lh0", "1Tc0Tc1Lc")
static void r_nest(void) { run(RC, 2, 0, "Lx", "Ln", ""); } static void r_nest3(void) { run(RC, 3, 0, "LN", "Ln", "Ln"); }
static void f_x_c(void) { run(EC, 2, 1, "Lx", "Lc", ""); } static void f_xc2(void) { run(NO, 2, 3, "Lx", "Lc", ""); } static void f_three(void) { run(RC, 3, 1, "Lx", "Lc", "Tc"); }
/* one thread owns several robust mutexes, taken and released in every order, some destroyed and made again; then it ends; a second
   one takes over, also in every order, and ends as well; afterwards each mutex is in exactly the state its history says */
static pthread_mutex_t mm[4]; static int mst[4] /* 0 clean 1 owner dead 2 lost */, mh[4], minc[4], mn, mlen, msym, mtouched; static const int kinds_[4] = { 0, 1, 2, 0 };
static void mk_(int i) { pthread_mutexattr_t at; OK(pthread_mutexattr_init(&at)); OK(pthread_mutexattr_settype(&at, kinds_[i] == 0 ? NO : kinds_[i] == 1 ? RC : EC)); OK(pthread_mutexattr_setrobust(&at, PTHREAD_MUTEX_ROBUST)); OK(pthread_mutex_init(&mm[i], &at)); OK(pthread_mutexattr_destroy(&at)); }
static void *manyt(void *a)
{
  for (int k = 0; k < mlen; k++)
    {
      /* symmetric: only take and release, and the mutexes are first touched in order */
      int lim = msym ? (mtouched < mn ? mtouched + 1 : mn) : mn, o = mc_choose((msym ? 1 : 2) * lim + (k == mlen - 1 || !msym)), i = msym ? o : o >> 1, r; struct timespec ts;
      if (i == lim) break;
      if (msym) { if (i == mtouched) mtouched++; o = 2 * i; if (mh[i] && minc[i] && i & 1) { OK(pthread_mutex_consistent(&mm[i])); minc[i] = 0; } }
      if (mh[i])
        {
          if (o & 1) { if (minc[i]) { OK(pthread_mutex_consistent(&mm[i])); minc[i] = 0; } else MC_EQ(pthread_mutex_consistent(&mm[i]), EINVAL, "consistent when it already is"); continue; }
          mh[i] = 0; mst[i] = minc[i] ? 2 : 0; minc[i] = 0; OK(pthread_mutex_unlock(&mm[i])); continue;
        }
      if (o & 1 && mst[i] != 1) { OK(pthread_mutex_destroy(&mm[i])); mk_(i); mst[i] = 0; continue; }
      ts = ts_in(5); r = k % 3 == 0 ? pthread_mutex_lock(&mm[i]) : k % 3 == 1 ? pthread_mutex_trylock(&mm[i]) : pthread_mutex_timedlock(&mm[i], &ts);
      MC_EQ(r, mst[i] == 0 ? 0 : mst[i] == 1 ? EOWNERDEAD : ENOTRECOVERABLE, "lock result"); if (mst[i] < 2) { mh[i] = 1; minc[i] = mst[i]; }
    }
  for (int i = 0; i < mn; i++) if (mh[i]) { mst[i] = 1; minc[i] = mh[i] = 0; }
  switch (mc_choose(3)) { case 1: pthread_exit(VP(7)); case 2: OK(pthread_cancel(pthread_self())); pthread_testcancel(); }
  return 0;
}
static void many(int n, int len, int gens, int sym)
{
  pthread_t t; void *v; mn = n; mlen = len; msym = sym; for (int i = 0; i < n; i++) mk_(i);
  while (gens--) { OK(pthread_create(&t, NULL, manyt, NULL)); OK(pthread_join(t, &v)); }
  for (int i = 0; i < n; i++)
    {
      int r = pthread_mutex_trylock(&mm[i]); MC_EQ(r, mst[i] == 0 ? 0 : mst[i] == 1 ? EOWNERDEAD : ENOTRECOVERABLE, "state of the mutex afterwards");
      if (r == EOWNERDEAD) OK(pthread_mutex_consistent(&mm[i])); if (r != ENOTRECOVERABLE) OK(pthread_mutex_unlock(&mm[i])); OK(pthread_mutex_destroy(&mm[i]));
    }
  done(); MC_EQ(mc_blocks(), 0, "memory leaked"); MC_EQ(mc_handles(), 0, "handles leaked");
}
static void many3(void) { many(3, 5, 1, 0); } static void many3l(void) { many(3, 6, 1, 0); } static void many4(void) { many(4, 7, 1, 1); } static void many4l(void) { many(4, 8, 1, 1); }
static void gen2(void) { many(2, 3, 2, 0); } static void gen3(void) { many(3, 4, 2, 1); } static void gen3l(void) { many(3, 5, 2, 1); }
/* condition waits on a robust mutex: whoever re-acquires it after an owner died is told, holds it, and can make it consistent; once it is lost, the wait says so */
static pthread_cond_t cv_; static int cstop, cwait_, cend;
static void cgot(int me, int r)
{
  mc_cover(64 + r);
  if (r == ENOTRECOVERABLE) { MC_ASSERT(notrec[0], "reported not recoverable without cause"); return; }
  MC_ASSERT(!holder[0], "two threads hold the robust mutex");
  if (r == EOWNERDEAD) { MC_ASSERT(deadp[0], "owner death reported although no owner died, or reported twice"); deadp[0] = 0; notices++; incons[0] = 1; }
  else { MC_ASSERT(!deadp[0], "acquired without being told the previous owner died"); MC_ASSERT(!notrec[0], "acquired a mutex that is not recoverable"); }
  holder[0] = me + 1;
}
/* in: w wait / t timed wait for the predicate; what to do about a death: c consistent, i leave */
static void *cwbody(void *a)
{
  int me = (int)(intptr_t)a, r, timed = prog[me][0] == 't', fix = prog[me][1] == 'c'; struct timespec ts = ts_in(6);
  r = pthread_mutex_lock(&m[0]); MC_ASSERT(r == 0 || r == EOWNERDEAD || r == ENOTRECOVERABLE, "lock"); cgot(me, r); if (r == ENOTRECOVERABLE) return a;
  if (r == EOWNERDEAD && fix) { OK(pthread_mutex_consistent(&m[0])); incons[0] = 0; }
  while (!cstop && !(incons[0] && !fix))
    {
      holder[0] = 0; if (incons[0]) notrec[0] = 1; cwait_++;
      r = timed ? pthread_cond_timedwait(&cv_, &m[0], &ts) : pthread_cond_wait(&cv_, &m[0]);
      cwait_--; MC_ASSERT(r == 0 || r == EOWNERDEAD || r == ENOTRECOVERABLE || (timed && r == ETIMEDOUT), "wait result");
      if (r == ETIMEDOUT) MC_ASSERT(ts_passed(&ts), "timed out before the deadline");
      cgot(me, r); if (r == ENOTRECOVERABLE) return a;
      if (r == EOWNERDEAD && fix) { OK(pthread_mutex_consistent(&m[0])); incons[0] = 0; }
      if (timed && (r == ETIMEDOUT || ts_passed(&ts))) break;
    }
  cend++; unl(0, me); return a;
}
static void *cwdie(void *a)
{
  int me = (int)(intptr_t)a, r = pthread_mutex_lock(&m[0]); MC_ASSERT(r == 0 || r == EOWNERDEAD || r == ENOTRECOVERABLE, "lock"); cgot(me, r); if (r == ENOTRECOVERABLE) return a;
  cstop = 1; OK(pthread_cond_broadcast(&cv_)); if (prog[me][0] == 'x') { die(me, prog[me][1]); return a; } if (r == EOWNERDEAD && prog[me][1] == 'c') { OK(pthread_mutex_consistent(&m[0])); incons[0] = 0; } unl(0, me); return a;
}
static void crun(int kd, int n, const char *a, const char *b, const char *c)
{
  pthread_mutexattr_t at; void *v; prog[0] = a; prog[1] = b; prog[2] = c; kind = kd;
  OK(pthread_mutexattr_init(&at)); OK(pthread_mutexattr_settype(&at, kd)); OK(pthread_mutexattr_setrobust(&at, PTHREAD_MUTEX_ROBUST)); OK(pthread_mutex_init(&m[0], &at)); OK(pthread_mutexattr_destroy(&at)); OK(pthread_cond_init(&cv_, NULL));
  for (int i = 0; i < n; i++) OK(pthread_create(&th_[i], NULL, strchr("wt", prog[i][0]) ? cwbody : cwdie, VP(i)));
  for (int i = 0; i < n; i++) OK(pthread_join(th_[i], &v));
  MC_ASSERT(deaths == notices + deadp[0], "every death is reported exactly once"); MC_ASSERT(!holder[0], "still held");
  int e = notrec[0] ? ENOTRECOVERABLE : deadp[0] ? EOWNERDEAD : 0; MC_EQ(pthread_mutex_trylock(&m[0]), e, "final trylock"); if (e == EOWNERDEAD) OK(pthread_mutex_consistent(&m[0])); if (e != ENOTRECOVERABLE) OK(pthread_mutex_unlock(&m[0]));
  OK(pthread_cond_destroy(&cv_)); OK(pthread_mutex_destroy(&m[0])); done(); MC_EQ(mc_blocks(), 0, "memory leaked"); MC_EQ(mc_handles(), 0, "handles leaked");
}
#define CW(nm, k, n, a, b, c) static void nm(void) { crun(k, n, a, b, c); }
CW(cw_x, NO, 2, "wc", "xx", "") CW(cw_i, EC, 2, "wi", "xe", "") CW(ct_x, RC, 2, "tc", "xx", "") CW(ct_k, NO, 2, "ti", "xk", "") CW(cww_x, NO, 3, "wc", "wc", "xx") CW(cww_i, NO, 3, "wi", "wc", "xx") CW(cwt_x, EC, 3, "wc", "ti", "xx") CW(cw_x_x, NO, 3, "wc", "xx", "xe") CW(cw_x_u, RC, 3, "wi", "xx", "uc") CW(ct_x_u, NO, 3, "tc", "xx", "ui")
mc_scen_t mc_scenarios[] = {{"many3", many3, ""}, {"many3l", many3l, "q=- t=u"}, {"many4", many4, ""}, {"many4l", many4l, "q=- t=u"}, {"gen2", gen2, "q=- t=u"}, {"gen3", gen3, ""}, {"gen3l", gen3l, "q=- t=u"}, E3(x_c), E3(e_Tc), E3(k_Dc), E3(i_L), E3(xx), {"r_nest", r_nest, ""}, {"r_nest3", r_nest3, ""}, {"f_x_c", f_x_c, ""}, {"f_xc2", f_xc2, ""}, E3(two), E3(two2), {"f_three", f_three, "q=3 t=u w=5"},
  E(cw_x), E(cw_i), E(ct_x), E(ct_k), B(cww_x, "q=3 t=u"), B(cww_i, "q=3 t=u"), B(cwt_x, "q=3 t=u"), B(cw_x_x, "q=3 t=u"), B(cw_x_u, "q=3 t=u"), B(ct_x_u, "q=3 t=u"), B3(x_c_c, ""), B3(x_i_u, ""), B3(x_i_T, ""), B3(x_i_D, ""), B3(x_D_D, ""), B3(x_Di_Di, ""), B3(x_x_c, ""), B3(ux_c_c, ""), B3(x_Ti_u, ""), B3(u_x_c, ""), {0, 0, 0}};
