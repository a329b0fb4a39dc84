/* C09: read-write locks: writers exclude everybody, readers share, nobody strands.
   r/w blocking, R/W try, d/t timed (20 ms), D/T timed with a past deadline, u unlock, c cancellable write lock, e cancellable timed write lock, k<i> cancel */
#include "act.h"
static pthread_rwlock_t l; static const char *prog[6];
#define rd GH(0)
#define wr GH(1)
#define act GH(2)             /* threads inside a call or holding */
#define starts GH(3)
#define want(i) GH(8 + (i))   /* blocked in: 1 read, 2 write */
#define ended(i) GH(16 + (i))
static void granted(int w) { if (w) wr++; else rd++; MC_ASSERT(wr <= 1 && (!wr || !rd), "the write lock was not exclusive"); mc_point(); MC_ASSERT(wr <= 1 && (!wr || !rd), "the write lock was not exclusive"); }
/* one operation; returns its result; held: what this thread holds (number of read locks, or -1 for write) */
static int lockop(int me, char op, int *held)
{
  int r = 0, w = strchr("wWtTce", op) != 0; struct timespec ts; long long act0 = act - (*held != 0), st0;
  if (!*held) act++;
  st0 = ++starts;
  want(me) = w ? 2 : 1;
  switch (op)
    {
    case 'r': r = pthread_rwlock_rdlock(&l); break;
    case 'R': r = pthread_rwlock_tryrdlock(&l); break;
    case 'd': ts = ts_in(20); r = pthread_rwlock_timedrdlock(&l, &ts); break;
    case 'D': ts = ts_in(-20); r = pthread_rwlock_timedrdlock(&l, &ts); break;
    case 'c': case 'w': r = pthread_rwlock_wrlock(&l); break;
    case 'W': r = pthread_rwlock_trywrlock(&l); break;
    case 'e': case 't': ts = ts_in(20); r = pthread_rwlock_timedwrlock(&l, &ts); break;
    case 'T': ts = ts_in(-20); r = pthread_rwlock_timedwrlock(&l, &ts); break;
    default: MC_FAIL("bad program");
    }
  want(me) = 0;
  if (r == 0) { *held = w ? -1 : *held + 1; granted(w); return 0; }
  if (strchr("RW", op)) MC_EQ(r, EBUSY, "try lock result");
  else if (strchr("dDtTe", op)) { MC_EQ(r, ETIMEDOUT, "timed lock result"); MC_ASSERT(ts_passed(&ts), "timed out early"); }
  else MC_EQ(r, 0, "blocking lock result");
  if (strchr("RWDT", op)) MC_ASSERT(act0 || starts != st0 || *held < 0 || (w && *held), "refused although nobody else was using the lock");
  if (!*held) act--;
  return r;
}
static void unlock(int *held)
{
  if (*held < 0) { wr--; *held = 0; } else { rd--; --*held; }
  OK(pthread_rwlock_unlock(&l));
  if (!*held) act--;
}
static void canceled(void *p) { act--; want((intptr_t)p) = 0; GH(28)++; }
static void *body(void *a)
{
  int me = (int)(intptr_t)a, held = 0, r;
  for (const char *p = prog[me]; *p; p++)
    switch (*p)
      {
      case 'u': if (held) unlock(&held); break;
      case 'c': case 'e': pthread_cleanup_push(canceled, a); lockop(me, *p, &held); pthread_cleanup_pop(0); break;
      case 'k': p++; r = pthread_cancel(th_[*p - '0']); MC_ASSERT(r == 0 || r == ESRCH, "pthread_cancel"); break;
      case 'x': if (held) EQ(pthread_rwlock_destroy(&l), EBUSY); break;
      case 'n': mc_point(); break;
      default: lockop(me, *p, &held);
      }
  while (held) unlock(&held);
  ended(me) = 1;
  return a;
}
/* at quiescence: nobody is blocked without a reason */
static void check(int n)
{
  int br = 0, bw = 0; for (int i = 0; i < n; i++) { br += want(i) == 1; bw += want(i) == 2; }
  mc_cover((unsigned)(rd * 32 + wr * 16 + br * 4 + bw));
  if (br + bw) MC_ASSERT(rd || wr, "a thread is blocked on a free lock");
  if (br) MC_ASSERT(wr || bw, "a reader is blocked although no writer has or wants the lock");
  if (bw) MC_ASSERT(rd || wr, "a writer is blocked on a free lock");
  if (rd || wr || bw) EQ(pthread_rwlock_destroy(&l), EBUSY);
}
static int pre_;              /* read locks taken and given back beforehand (c09_small.c) */
static void create(int stat)
{
  if (stat) { static const pthread_rwlock_t i0 = PTHREAD_RWLOCK_INITIALIZER; l = i0; } else OK(pthread_rwlock_init(&l, NULL));
  for (int i = 0; i < pre_; i++) { OK(pthread_rwlock_rdlock(&l)); OK(pthread_rwlock_unlock(&l)); }
}
static void final(void)
{
  int h = 0;
  MC_ASSERT(!rd && !wr && !act, "still in use");
  MC_EQ(lockop(7, 'W', &h), 0, "lock unusable afterwards"); EQ(pthread_rwlock_tryrdlock(&l), EBUSY); EQ(pthread_rwlock_trywrlock(&l), EBUSY); unlock(&h);
  MC_EQ(lockop(7, 'R', &h), 0, "lock unusable afterwards"); MC_EQ(lockop(7, 'R', &h), 0, "lock unusable afterwards"); EQ(pthread_rwlock_trywrlock(&l), EBUSY); unlock(&h); unlock(&h);
  MC_EQ(lockop(7, 'w', &h), 0, ""); unlock(&h);
  OK(pthread_rwlock_destroy(&l)); EQ(pthread_rwlock_destroy(&l), EINVAL); EQ(pthread_rwlock_rdlock(&l), EINVAL); EQ(pthread_rwlock_trywrlock(&l), EINVAL);
  done(); MC_EQ(mc_blocks(), 0, "memory leaked"); MC_EQ(mc_handles(), 0, "handles leaked");
}
static void run(int stat, const char *a, const char *b, const char *c, const char *d)
{
  int n = *d ? 4 : *c ? 3 : 2; prog[0] = a; prog[1] = b; prog[2] = c; prog[3] = d;
  create(stat); go(n, body);
  for (int i = n - 1; i >= 0; i--) { void *r; OK(pthread_join(th_[i], &r)); MC_ASSERT(ended(i) ? r == VP(i) : r == PTHREAD_CANCELED, "exit value"); }
  MC_ASSERT(!rd && !wr && !act, "still in use");
  final();
}
/* main holds the lock (mode 1 read, 2 write) while the others arrive, checks, lets go, and everybody gets a turn */
static void held(int mode, int stat, const char *a, const char *b, const char *c)
{
  int n = *c ? 3 : *b ? 2 : 1, h = 0; prog[0] = a; prog[1] = b; prog[2] = c;
  create(stat); lockop(7, mode == 2 ? 'w' : 'r', &h); go(n, body); mc_settle(); check(n);
  unlock(&h); mc_settle(); check(n);
  for (int i = 0; i < n; i++) { void *r; MC_ASSERT(!want(i), "still blocked although everybody has unlocked"); OK(pthread_join(th_[i], &r)); MC_ASSERT(ended(i) ? r == VP(i) : r == PTHREAD_CANCELED, "exit value"); }
  final();
}
#define S(nm, st, a, b, c, d) static void nm(void) { run(st, a, b, c, d); }
#define H(nm, m, st, a, b, c) static void nm(void) { held(m, st, a, b, c); }
S(w_w, 0, "wuwu", "wuwu", "", "") S(r_w, 0, "ruru", "wuwu", "", "") S(rr_w, 0, "rRuu", "wu", "", "") S(R_w, 0, "RuRu", "wuwu", "", "") S(W_r, 0, "WuWu", "ruru", "", "") S(W_w, 0, "WuWu", "wuwu", "", "")
S(d_w, 0, "dudu", "wuwu", "", "") S(t_r, 0, "tutu", "ruru", "", "") S(t_w, 0, "tutu", "wuwu", "", "") S(t_t, 0, "tutu", "tutu", "", "") S(D_w, 0, "DuDu", "wuwu", "", "") S(T_r, 0, "TuTu", "ruru", "", "") S(T_w, 0, "TuTu", "wuwu", "", "") S(RD_W, 0, "RuDu", "WuTu", "", "") S(c_rk, 0, "cu", "rk0u", "", "") S(e_rk, 0, "eu", "rk0u", "", "") S(c_wk, 0, "cu", "wk0u", "", "") S(x_w, 0, "rxuwxu", "wxurxu", "", "")
S(r_r_w, 0, "ru", "ru", "wu", "") S(r_w_w, 0, "ru", "wu", "wu", "") S(w_w_w, 0, "wu", "wu", "wu", "") S(r_r_wW, 0, "ru", "ru", "wuWu", "") S(r_t_r, 0, "ru", "tu", "ru", "") S(r_t_w, 0, "ru", "tu", "wu", "") S(t_t_r, 0, "tu", "tu", "ru", "") S(d_t_r, 0, "du", "tu", "ru", "") S(d_d_w, 0, "du", "du", "wu", "") S(r_c_k, 0, "ru", "cu", "k1", "") S(r_c_kr, 0, "ru", "cu", "k1ru", "") S(r_c_kw, 0, "ru", "cu", "k1wu", "") S(r_e_k, 0, "ru", "eu", "k1ru", "") S(R_W_w, 0, "Ru", "Wu", "wu", "") S(D_T_w, 0, "Du", "Tu", "wu", "") S(rr_c_k, 0, "rRuu", "cu", "k1wu", "")
S(ru_r_w, 0, "ruru", "ru", "wu", "") S(r_rw_w, 0, "ru", "ruwu", "wu", "") S(r_r_w_w, 0, "ru", "ru", "wu", "wu") S(r_r_t_w, 0, "ru", "ru", "tu", "wu") S(r_r_c_k, 0, "ru", "ru", "cu", "k2wu") S(r_r_r_w, 0, "ru", "ru", "ru", "wu")
S(s_r_w, 1, "ru", "wu", "", "") S(s_w_w, 1, "wu", "wu", "", "") S(s_R_W, 1, "Ru", "Wu", "", "") S(s_d_t, 1, "du", "tu", "", "") S(s_r_r_w, 1, "ru", "ru", "wu", "")
H(h2_r, 2, 0, "ru", "", "") H(h2_w, 2, 0, "wu", "", "") H(h1_w, 1, 0, "wu", "", "") H(h2_r_w, 2, 0, "ru", "wu", "") H(h1_r_w, 1, 0, "ru", "wu", "") H(h1_w_w, 1, 0, "wu", "wu", "") H(h1_t_r, 1, 0, "tu", "ru", "") H(h1_t_w, 1, 0, "tu", "wu", "") H(h1_RW_w, 1, 0, "RuWu", "wu", "") H(h2_RW_DT, 2, 0, "RuWu", "DuTu", "") H(h1_c_k, 1, 0, "cu", "k0ru", "") H(h1_e_k, 1, 0, "eu", "k0wu", "") H(h2_d_t, 2, 0, "du", "tu", "") H(h1_c_k_r, 1, 0, "cu", "k0", "ru") H(h1_t_r_w, 1, 0, "tu", "ru", "wu") H(h1_w_r_r, 1, 0, "wu", "ru", "ru") H(h1_c_k_w, 1, 0, "cu", "k0", "wu") H(h1_s, 1, 1, "wu", "ru", "")
/* all histories of three actors and main observing: at quiescence nobody is stranded, and destruction works exactly when unused */
static int hh[NA + 1];
static int ex(int a, int op) { static const char o[] = "rwRWdtDT"; if (op == 8) { unlock(&hh[a]); return 0; } return lockop(a, o[op], &hh[a]); }
static const char *ops_; static int quick_;
static void hist(int actors, int steps, const char *ops, int stat)
{
  int mx = 0, no = (int)strlen(ops); create(stat); a_start(actors, ex);
  for (int s = 0; s < steps; s++)
    {
      int a = 1 + mc_choose(actors); if (a > mx + 1 || a_busy[a]) break;
      if (a > mx) mx = a;
      int k = mc_choose(no), op = ops[k] == 'u' ? 8 : (int)(strchr("rwRWdtDT", ops[k]) - "rwRWdtDT");
      if (op == 8 && !hh[a]) break;
      if (op != 8 && (hh[a] < 0 ? !strchr("RWDT", ops[k]) : hh[a] > 0 && !strchr("rRdDWT", ops[k]))) break;   /* self-deadlock */
      if (op == 0 && hh[a]) { int bw = 0; for (int i = 1; i <= actors; i++) bw += want(i) == 2; if (bw) break; }
      int rd0 = (int)rd, wr0 = (int)wr, bw0 = 0; for (int i = 1; i <= actors; i++) bw0 += want(i) == 2;
      a_callt(a, op); check(NA + 1);
      if (!a_busy[a] && op != 8)
        {
          char o = ops[k];
          if (strchr("rRdD", o)) { if (wr0) MC_ASSERT(a_res[a] != 0, "read lock granted beside a writer"); else if (!bw0) MC_EQ(a_res[a], 0, "read lock refused without a writer"); }
          else if (rd0 || wr0) MC_ASSERT(a_res[a] != 0, "write lock granted beside a holder"); else MC_EQ(a_res[a], 0, "write lock refused although free");
        }
    }
  for (int g = 0; g < 12; g++) { int any = 0; for (int i = 1; i <= actors; i++) if (!a_busy[i] && hh[i]) { any = 1; a_callt(i, 8); check(NA + 1); } if (!any) break; }
  a_stop(); final();
}
static void hb2(void) { hist(2, 6, "rwu", 0); } static void hb3(void) { hist(3, 6, "rwu", 0); } static void ht2(void) { hist(2, 5, "rwRWdtDTu", 0); } static void ht3(void) { hist(3, 5, "rwdtu", 0); } static void hs2(void) { hist(2, 3, "rwRWdtDTu", 1); } static void hy3(void) { hist(3, 4, "rwRWDTu", 0); }
#define E(x) {#x, x, ""}
#define B(x, q) {#x, x, q}
mc_scen_t mc_scenarios[] = {E(w_w), E(r_w), E(rr_w), E(R_w), E(W_r), E(W_w), E(d_w), E(t_r), E(t_w), E(t_t), E(D_w), E(T_r), E(T_w), E(RD_W), B(c_rk, "q=3 t=u"), B(e_rk, "q=3 t=u"), E(c_wk), E(x_w),
  E(r_r_w), E(r_w_w), E(w_w_w), E(r_r_wW), B(r_t_r, "q=3 t=u w=5"), E(r_t_w), B(t_t_r, "q=3 t=u w=5"), B(d_t_r, "q=3 t=u w=5"), E(d_d_w), B(r_c_k, "q=3 t=u"), B(r_c_kr, "q=3 t=u"), B(r_c_kw, "q=3 t=u"), B(r_e_k, "q=3 t=u"), E(R_W_w), E(D_T_w), B(rr_c_k, "q=3 t=u"), B(ru_r_w, "q=3 t=u w=5"), B(r_rw_w, "q=3 t=u w=5"),
  B(r_r_w_w, "q=2 t=u"), B(r_r_t_w, "q=2 t=u"), B(r_r_c_k, "q=2 t=u"), B(r_r_r_w, "q=2 t=u"), E(s_r_w), E(s_w_w), E(s_R_W), E(s_d_t), B(s_r_r_w, "q=3 t=u"),
  E(h2_r), E(h2_w), E(h1_w), E(h2_r_w), E(h1_r_w), E(h1_w_w), E(h1_t_r), E(h1_t_w), E(h1_RW_w), E(h2_RW_DT), E(h1_c_k), E(h1_e_k), E(h2_d_t), B(h1_c_k_r, "q=3 t=u w=5"), E(h1_t_r_w), E(h1_w_r_r), B(h1_c_k_w, "q=3 t=u w=5"), E(h1_s),
  B(hb2, "q=1 t=2"), B(hb3, "q=1 t=2"), B(ht2, "q=1 t=2"), B(ht3, "q=1 t=2"), B(hs2, "q=1 t=2"), B(hy3, "q=1 t=2"), {0, 0, 0}};
