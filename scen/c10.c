/* C10: spin locks exclude and hand over, on several processors and on one, initialised explicitly or statically.
   L lock, T trylock, x destroy while holding, X destroy attempt while somebody else may hold it is never made (undefined) */
#include "act.h"
static pthread_spinlock_t l; static const char *prog[6]; static int up_;
#define own GH(0)
#define act GH(1)
#define starts GH(2)
#define got(i) GH(8 + (i))
#define inl(i) GH(16 + (i))
static void cs(int me) { MC_EQ(own, 0, "two threads hold the spin lock"); own = me + 1; mc_point(); MC_EQ(own, me + 1, "two threads hold the spin lock"); }
static int take(int me, char op)
{
  int r; long long a0 = act, s0; act++; s0 = ++starts; inl(me) = 1;
  r = op == 'L' ? pthread_spin_lock(&l) : pthread_spin_trylock(&l);
  inl(me) = 0;
  if (r == 0) { cs(me); got(me)++; return 0; }
  MC_ASSERT(op == 'T' && r == EBUSY, "spin lock result");
  MC_ASSERT(a0 || starts != s0, "trylock busy although nobody used the lock");
  act--; return r;
}
static void give(int me) { MC_EQ(own, me + 1, "owner"); own = 0; OK(pthread_spin_unlock(&l)); act--; }
static void *body(void *a)
{
  int me = (int)(intptr_t)a;
  for (const char *p = prog[me]; *p; p++)
    if (take(me, *p == 'x' || *p == 't' ? 'L' : *p) == 0)
      {
        if (*p == 'x') EQ(pthread_spin_destroy(&l), EBUSY);
        if (*p == 't') EQ(pthread_spin_trylock(&l), EBUSY);
        mc_point();
        give(me);
      }
  return a;
}
static void create(int up, int st) { up_ = up; mc_cpus(up ? 1 : 3, up ? 1 : 3); if (st) { static const pthread_spinlock_t i0 = PTHREAD_SPINLOCK_INITIALIZER; l = i0; } else OK(pthread_spin_init(&l, PTHREAD_PROCESS_PRIVATE)); }
static void final(void)
{
  MC_EQ(own, 0, ""); OK(pthread_spin_trylock(&l)); EQ(pthread_spin_trylock(&l), EBUSY); OK(pthread_spin_unlock(&l)); OK(pthread_spin_lock(&l)); EQ(pthread_spin_trylock(&l), EBUSY); EQ(pthread_spin_destroy(&l), EBUSY); OK(pthread_spin_unlock(&l));
  OK(pthread_spin_destroy(&l)); EQ(pthread_spin_destroy(&l), EINVAL); EQ(pthread_spin_lock(&l), EINVAL); EQ(pthread_spin_trylock(&l), EINVAL); EQ(pthread_spin_unlock(&l), EINVAL);
  done(); MC_EQ(mc_blocks(), 0, "memory leaked"); MC_EQ(mc_handles(), 0, "handles leaked");
}
static void run(int up, int st, const char *a, const char *b, const char *c, const char *d)
{
  int n = *d ? 4 : *c ? 3 : 2; prog[0] = a; prog[1] = b; prog[2] = c; prog[3] = d;
  create(up, st); go(n, body); joinall();
  for (int i = 0; i < n; i++) { int nl = 0; for (const char *p = prog[i]; *p; p++) nl += *p != 'T'; MC_ASSERT(got(i) >= nl, "lock count"); }
  final();
}
/* main holds the lock while the others come */
static void held(int up, int st, const char *a, const char *b)
{
  int n = *b ? 2 : 1; prog[0] = a; prog[1] = b; create(up, st); take(7, 'L'); go(n, body); mc_point(); MC_EQ(own, 8, "owner"); EQ(pthread_spin_trylock(&l), EBUSY); give(7); joinall(); final();
}
static void life(int up, int st)
{
  create(up, st); if (st) { OK(pthread_spin_destroy(&l)); EQ(pthread_spin_lock(&l), EINVAL); EQ(pthread_spin_trylock(&l), EINVAL); EQ(pthread_spin_unlock(&l), EINVAL); EQ(pthread_spin_destroy(&l), EINVAL); create(up, st); }
  EQ(pthread_spin_init(NULL, 0), EINVAL); EQ(pthread_spin_lock(NULL), EINVAL); EQ(pthread_spin_trylock(NULL), EINVAL); EQ(pthread_spin_unlock(NULL), EINVAL); EQ(pthread_spin_destroy(NULL), EINVAL); final();
}
/* every sequence of operations by two threads, one at a time, against a plain model */
static int ex(int a, int op) { (void)a; return op == 0 ? pthread_spin_lock(&l) : op == 1 ? pthread_spin_trylock(&l) : op == 2 ? pthread_spin_unlock(&l) : pthread_spin_destroy(&l); }
static void hist(int up, int st, int steps)
{
  int o = 0, dead = 0; create(up, st); a_start(2, ex); int mx = 0;
  for (int s = 0; s < steps; s++)
    {
      int a = 1 + mc_choose(2), op = mc_choose(4); if (a > mx + 1) break; if (a > mx) mx = a;
      if (dead) { EQ(a_do(a, op), EINVAL); continue; }
      if (op == 0 && o) break;
      if (op == 2 && o != a) break;         /* only the holder unlocks */
      int r = a_do(a, op), w = op == 0 ? 0 : op == 1 ? (o ? EBUSY : 0) : op == 2 ? 0 : (o ? EBUSY : 0);
      MC_EQ(r, w, "result");
      if (r == 0) { if (op < 2) o = a; else if (op == 2) o = 0; else dead = 1; }
    }
  if (o) OK(a_do(o, 2));
  a_stop(); if (!dead) final(); else { done(); MC_EQ(mc_blocks(), 0, "memory leaked"); MC_EQ(mc_handles(), 0, "handles leaked"); }
}
#define S(nm, a, b, c, d) static void m_##nm(void) { run(0, 0, a, b, c, d); } static void u_##nm(void) { run(1, 0, a, b, c, d); } static void ms_##nm(void) { run(0, 1, a, b, c, d); } static void us_##nm(void) { run(1, 1, a, b, c, d); }
#define H(nm, a, b) static void m_##nm(void) { held(0, 0, a, b); } static void u_##nm(void) { held(1, 0, a, b); } static void ms_##nm(void) { held(0, 1, a, b); } static void us_##nm(void) { held(1, 1, a, b); }
S(LL_LL, "LL", "LL", "", "") S(LT_TL, "LT", "TL", "", "") S(x_t, "xL", "tT", "", "") S(L_L_L, "L", "L", "L", "") S(LL_L_T, "LL", "L", "T", "") S(T_T_T, "T", "T", "T", "") S(L_L_T_T, "L", "L", "T", "T") S(LTL_LTL, "LTL", "LTL", "", "") S(LL_LL_LL, "LL", "LL", "LL", "") S(L_L_L_L, "L", "L", "L", "L")
H(hL, "L", "") H(hTL, "TL", "L") H(hL_L, "L", "L")
static void m_life(void) { life(0, 0); } static void u_life(void) { life(1, 0); } static void ms_life(void) { life(0, 1); } static void us_life(void) { life(1, 1); }
static void m_h(void) { hist(0, 0, 6); } static void u_h(void) { hist(1, 0, 6); } static void ms_h(void) { hist(0, 1, 6); } static void us_h(void) { hist(1, 1, 6); }
#define E(x) {#x, x, ""}
#define B(x, q) {#x, x, q}
#define X(n) E(m_##n), E(u_##n), E(ms_##n), E(us_##n)
#define Y(n, q) B(m_##n, q), B(u_##n, q), B(ms_##n, q), B(us_##n, q)
mc_scen_t mc_scenarios[] = {X(LL_LL), X(LT_TL), X(x_t), E(m_L_L_L), E(u_L_L_L), E(ms_L_L_L), B(us_L_L_L, "q=3 t=u"), E(m_LL_L_T), E(u_LL_L_T), E(ms_LL_L_T), B(us_LL_L_T, "q=3 t=u"), X(T_T_T), Y(L_L_T_T, "q=3 t=u"), X(LTL_LTL), E(m_LL_LL_LL), E(u_LL_LL_LL), E(ms_LL_LL_LL), B(us_LL_LL_LL, "q=3 t=u"), Y(L_L_L_L, "q=3 t=u"), X(hL), X(hTL), X(hL_L), X(life), Y(h, "q=1 t=2"), {0, 0, 0}};
