/* C12: statically initialised objects come to life exactly once. */
#include "act.h"
static pthread_mutex_t m, m2; static pthread_cond_t c; static pthread_rwlock_t w; static pthread_spinlock_t s;
static const char *prog[6];
#define mown GH(0)
#define mcnt GH(1)
#define rdn GH(2)
#define wrn GH(3)
#define sown GH(4)
#define flag GH(5)
#define waiting GH(6)
#define dead GH(7)      /* bit per kind: destroyed */
#define woken GH(8)
#define begun GH(9)
static void statics(int kind)
{
  static const pthread_mutex_t i0 = PTHREAD_MUTEX_INITIALIZER, i1 = PTHREAD_RECURSIVE_MUTEX_INITIALIZER, i2 = PTHREAD_ERRORCHECK_MUTEX_INITIALIZER;
  static const pthread_cond_t c0 = PTHREAD_COND_INITIALIZER; static const pthread_rwlock_t w0 = PTHREAD_RWLOCK_INITIALIZER; static const pthread_spinlock_t s0 = PTHREAD_SPINLOCK_INITIALIZER;
  m = kind == 1 ? i1 : kind == 2 ? i2 : i0; m2 = i0; c = c0; w = w0; s = s0;
}
static void mget(int me) { MC_ASSERT(mown == 0 || mown == me + 1, "two threads hold the mutex"); mown = me + 1; mcnt++; }
static void mput(void) { if (--mcnt == 0) mown = 0; OK(pthread_mutex_unlock(&m)); }
static void wget(int wr) { if (wr) wrn++; else rdn++; MC_ASSERT(wrn <= 1 && (!wrn || !rdn), "write lock not exclusive"); mc_point(); MC_ASSERT(wrn <= 1 && (!wrn || !rdn), "write lock not exclusive"); if (wr) wrn--; else rdn--; OK(pthread_rwlock_unlock(&w)); }
/* m mutex lock, n trylock, o timedlock, M recursive pair; r rdlock R tryrd w wrlock W trywr t timedwr d timedrd; s spin, S tryspin; c wait for flag, C timed wait, g set flag + broadcast, G signal without flag, u broadcast before anybody waits */
static void *body(void *a)
{
  int me = (int)(intptr_t)a, r; struct timespec ts;
  for (const char *p = prog[me]; *p; p++)
    switch (*p)
      {
      case 'm': OK(pthread_mutex_lock(&m)); mget(me); mc_point(); mput(); break;
      case 'n': r = pthread_mutex_trylock(&m); MC_ASSERT(r == 0 || r == EBUSY, "trylock"); if (!r) { mget(me); mc_point(); mput(); } break;
      case 'o': ts = ts_in(20); r = pthread_mutex_timedlock(&m, &ts); MC_ASSERT(r == 0 || (r == ETIMEDOUT && ts_passed(&ts)), "timedlock"); if (!r) { mget(me); mc_point(); mput(); } break;
      case 'M': OK(pthread_mutex_lock(&m)); mget(me); OK(pthread_mutex_lock(&m)); mget(me); OK(pthread_mutex_trylock(&m)); mget(me); mput(); mput(); mc_point(); MC_EQ(mown, me + 1, "owner"); mput(); break;
      case 'N': OK(pthread_mutex_lock(&m)); mget(me); EQ(pthread_mutex_lock(&m), EDEADLK); mc_point(); MC_EQ(mown, me + 1, "owner"); mput(); break;
      case 'r': OK(pthread_rwlock_rdlock(&w)); wget(0); break;
      case 'R': r = pthread_rwlock_tryrdlock(&w); MC_ASSERT(r == 0 || r == EBUSY, "tryrdlock"); if (!r) wget(0); break;
      case 'd': ts = ts_in(20); r = pthread_rwlock_timedrdlock(&w, &ts); MC_ASSERT(r == 0 || (r == ETIMEDOUT && ts_passed(&ts)), "timedrdlock"); if (!r) wget(0); break;
      case 'w': OK(pthread_rwlock_wrlock(&w)); wget(1); break;
      case 'W': r = pthread_rwlock_trywrlock(&w); MC_ASSERT(r == 0 || r == EBUSY, "trywrlock"); if (!r) wget(1); break;
      case 't': ts = ts_in(20); r = pthread_rwlock_timedwrlock(&w, &ts); MC_ASSERT(r == 0 || (r == ETIMEDOUT && ts_passed(&ts)), "timedwrlock"); if (!r) wget(1); break;
      case 's': OK(pthread_spin_lock(&s)); MC_EQ(sown, 0, "two threads hold the spin lock"); sown = 1; mc_point(); sown = 0; OK(pthread_spin_unlock(&s)); break;
      case 'S': r = pthread_spin_trylock(&s); MC_ASSERT(r == 0 || r == EBUSY, "spin trylock"); if (!r) { MC_EQ(sown, 0, "two threads hold the spin lock"); sown = 1; mc_point(); sown = 0; OK(pthread_spin_unlock(&s)); } break;
      case 'c': OK(pthread_mutex_lock(&m2)); while (!flag) OK(pthread_cond_wait(&c, &m2)); woken++; OK(pthread_mutex_unlock(&m2)); break;
      case 'C': ts = ts_in(20); OK(pthread_mutex_lock(&m2)); r = 0; while (!flag && r == 0) r = pthread_cond_timedwait(&c, &m2, &ts); MC_ASSERT(r == 0 || (r == ETIMEDOUT && ts_passed(&ts)), "timedwait"); OK(pthread_mutex_unlock(&m2)); break;
      case 'g': OK(pthread_mutex_lock(&m2)); flag = 1; OK(pthread_cond_broadcast(&c)); OK(pthread_mutex_unlock(&m2)); break;
      case 'h': OK(pthread_mutex_lock(&m2)); flag = 1; OK(pthread_mutex_unlock(&m2)); OK(pthread_cond_signal(&c)); break;
      case 'G': OK(pthread_cond_signal(&c)); break;
      case 'u': OK(pthread_cond_broadcast(&c)); break;
      }
  return a;
}
static void end(const char *kinds)
{
  for (const char *k = kinds; *k; k++)
    switch (*k)
      {
      case 'm': OK(pthread_mutex_lock(&m)); OK(pthread_mutex_unlock(&m)); OK(pthread_mutex_destroy(&m)); EQ(pthread_mutex_lock(&m), EINVAL); EQ(pthread_mutex_trylock(&m), EINVAL); EQ(pthread_mutex_unlock(&m), EINVAL); break;
      case 'w': OK(pthread_rwlock_wrlock(&w)); OK(pthread_rwlock_unlock(&w)); OK(pthread_rwlock_destroy(&w)); EQ(pthread_rwlock_rdlock(&w), EINVAL); EQ(pthread_rwlock_wrlock(&w), EINVAL); EQ(pthread_rwlock_tryrdlock(&w), EINVAL); EQ(pthread_rwlock_trywrlock(&w), EINVAL); EQ(pthread_rwlock_destroy(&w), EINVAL); break;
      case 's': OK(pthread_spin_lock(&s)); OK(pthread_spin_unlock(&s)); OK(pthread_spin_destroy(&s)); EQ(pthread_spin_lock(&s), EINVAL); EQ(pthread_spin_trylock(&s), EINVAL); EQ(pthread_spin_unlock(&s), EINVAL); break;
      case 'c': OK(pthread_cond_signal(&c)); OK(pthread_cond_destroy(&c)); EQ(pthread_cond_signal(&c), EINVAL); EQ(pthread_cond_broadcast(&c), EINVAL); EQ(pthread_cond_destroy(&c), EINVAL); OK(pthread_mutex_lock(&m2)); EQ(pthread_cond_wait(&c, &m2), EINVAL); OK(pthread_mutex_unlock(&m2)); OK(pthread_mutex_destroy(&m2)); break;
      }
  done(); MC_EQ(mc_blocks(), 0, "memory leaked"); MC_EQ(mc_handles(), 0, "handles leaked");
}
static void run(int kind, int up, const char *kinds, const char *a, const char *b, const char *cc, const char *d)
{
  int n = *d ? 4 : *cc ? 3 : 2, wait = 0; mc_cpus(up ? 1 : 3, up ? 1 : 3);
  statics(kind); prog[0] = a; prog[1] = b; prog[2] = cc; prog[3] = d; go(n, body); joinall();
  for (int i = 0; i < n; i++) if (strchr(prog[i], 'c')) wait++;
  MC_EQ(woken, wait, "waiters woken"); MC_EQ(mown, 0, "");
  end(kinds);
}
#define S(nm, k, up, kinds, a, b, c, d) static void nm(void) { run(k, up, kinds, a, b, c, d); }
S(m_mm, 0, 0, "m", "mm", "mm", "", "") S(m_mno, 0, 0, "m", "mn", "nm", "", "") S(m_o, 0, 0, "m", "om", "mo", "", "") S(m_m3, 0, 0, "m", "m", "m", "m", "") S(m_n3, 0, 0, "m", "n", "n", "m", "") S(r_MM, 1, 0, "m", "M", "M", "", "") S(r_Mm, 1, 0, "m", "M", "mn", "", "") S(r_3, 1, 0, "m", "M", "n", "o", "") S(e_NN, 2, 0, "m", "N", "N", "", "") S(e_Nn, 2, 0, "m", "N", "no", "", "") S(e_3, 2, 0, "m", "N", "n", "m", "")
S(w_wr, 0, 0, "w", "wr", "rw", "", "") S(w_WR, 0, 0, "w", "Ww", "Rr", "", "") S(w_td, 0, 0, "w", "tw", "dr", "", "") S(w_3, 0, 0, "w", "r", "r", "w", "") S(w_w3, 0, 0, "w", "w", "w", "w", "") S(w_WRt, 0, 0, "w", "W", "R", "t", "")
S(s_ss, 0, 0, "s", "ss", "ss", "", "") S(s_sS, 0, 0, "s", "sS", "Ss", "", "") S(s_3, 0, 0, "s", "s", "s", "S", "") S(s_u2, 0, 1, "s", "ss", "sS", "", "") S(s_u3, 0, 1, "s", "s", "S", "s", "")
S(c_cg, 0, 0, "c", "c", "g", "", "") S(c_ch, 0, 0, "c", "c", "h", "", "") S(c_ccg, 0, 0, "c", "c", "c", "g", "") S(c_cGg, 0, 0, "c", "c", "G", "g", "") S(c_Gug, 0, 0, "c", "Gc", "ug", "", "") S(c_Cg, 0, 0, "c", "C", "g", "", "") S(c_CC, 0, 0, "c", "C", "C", "", "") S(c_cCg, 0, 0, "c", "c", "C", "g", "") S(c_GG, 0, 0, "c", "G", "u", "G", "")
S(x_all, 0, 0, "mws", "mws", "smw", "", "") S(x_all3, 0, 0, "mws", "m", "w", "s", "") S(x_4m, 0, 0, "m", "m", "m", "n", "m") S(x_4w, 0, 0, "w", "r", "w", "R", "W") S(x_4s, 0, 0, "s", "s", "s", "S", "s") S(x_4c, 0, 0, "c", "c", "c", "h", "g")
/* destruction of a never used object */
static int destroy(int k) { return k == 1 ? pthread_mutex_destroy(&m) : k == 2 ? pthread_rwlock_destroy(&w) : k == 3 ? pthread_spin_destroy(&s) : pthread_cond_destroy(&c); }
static void unused(void)
{
  int k = 1 + mc_choose(4), kind = k == 1 ? mc_choose(3) : 0; mc_cpus(mc_choose(2) ? 1 : 3, 3); statics(kind); OK(destroy(k));
  switch (k)
    { case 1: EQ(pthread_mutex_lock(&m), EINVAL); EQ(pthread_mutex_trylock(&m), EINVAL); { struct timespec ts = ts_in(5); EQ(pthread_mutex_timedlock(&m, &ts), EINVAL); } EQ(pthread_mutex_unlock(&m), EINVAL); break;
      case 2: EQ(pthread_rwlock_rdlock(&w), EINVAL); EQ(pthread_rwlock_wrlock(&w), EINVAL); EQ(pthread_rwlock_tryrdlock(&w), EINVAL); EQ(pthread_rwlock_trywrlock(&w), EINVAL); { struct timespec ts = ts_in(5); EQ(pthread_rwlock_timedrdlock(&w, &ts), EINVAL); EQ(pthread_rwlock_timedwrlock(&w, &ts), EINVAL); } EQ(pthread_rwlock_unlock(&w), EINVAL); EQ(pthread_rwlock_destroy(&w), EINVAL); break;
      case 3: EQ(pthread_spin_lock(&s), EINVAL); EQ(pthread_spin_trylock(&s), EINVAL); EQ(pthread_spin_unlock(&s), EINVAL); EQ(pthread_spin_destroy(&s), EINVAL); break;
      case 4: EQ(pthread_cond_signal(&c), EINVAL); EQ(pthread_cond_broadcast(&c), EINVAL); OK(pthread_mutex_lock(&m2)); EQ(pthread_cond_wait(&c, &m2), EINVAL); { struct timespec ts = ts_in(5); EQ(pthread_cond_timedwait(&c, &m2, &ts), EINVAL); } OK(pthread_mutex_unlock(&m2)); EQ(pthread_cond_destroy(&c), EINVAL); OK(pthread_mutex_destroy(&m2)); }
  done(); MC_EQ(mc_blocks(), 0, "memory leaked"); MC_EQ(mc_handles(), 0, "handles leaked");
}
#define E(x) {#x, x, ""}
#define B(x, q) {#x, x, q}
mc_scen_t mc_scenarios[] = {E(m_mm), E(m_mno), E(m_o), E(m_m3), E(m_n3), E(r_MM), E(r_Mm), B(r_3, "q=3 t=u w=5"), E(e_NN), E(e_Nn), E(e_3), E(w_wr), E(w_WR), E(w_td), B(w_3, "q=3 t=u"), B(w_w3, "q=3 t=u w=5"), B(w_WRt, "q=3 t=u"), E(s_ss), E(s_sS), E(s_3), E(s_u2), B(s_u3, "q=3 t=u w=5"), E(c_cg), E(c_ch), B(c_ccg, "q=3 t=u"), B(c_cGg, "q=3 t=u w=5"), E(c_Gug), E(c_Cg), E(c_CC), B(c_cCg, "q=3 t=u"), E(c_GG), E(x_all), E(x_all3),
  B(x_4m, "q=2 t=u"), B(x_4w, "q=2 t=u w=6"), B(x_4s, "q=2 t=u"), B(x_4c, "q=1 t=3"), E(unused), {0, 0, 0}};
