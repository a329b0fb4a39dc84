/* C04: condition variables.  Ghost log of enter/signal/broadcast events, all appended while holding the mutex, against
   an exact accounting of who must have been woken at quiescence; plus predicate-loop programs and histories. */
#include "act.h"
static pthread_mutex_t m; static pthread_cond_t c; static int inside, kind, robust, stat_;
static void setup(void)
{
  pthread_mutexattr_t at;
  if (stat_) { static const pthread_mutex_t mi = PTHREAD_MUTEX_INITIALIZER; static const pthread_cond_t ci = PTHREAD_COND_INITIALIZER; m = mi; c = ci; return; }
  OK(pthread_mutexattr_init(&at)); OK(pthread_mutexattr_settype(&at, kind)); OK(pthread_mutexattr_setrobust(&at, robust ? PTHREAD_MUTEX_ROBUST : PTHREAD_MUTEX_STALLED));
  OK(pthread_mutex_init(&m, &at)); OK(pthread_mutexattr_destroy(&at)); OK(pthread_cond_init(&c, NULL));
}
static void tear(void) { OK(pthread_cond_destroy(&c)); OK(pthread_mutex_destroy(&m)); done(); }
static void lk(void) { OK(pthread_mutex_lock(&m)); MC_ASSERT(!inside, "two threads hold the mutex"); inside = mc_self() + 1; }
static void un(void) { MC_ASSERT(inside == mc_self() + 1, "lost the mutex"); inside = 0; OK(pthread_mutex_unlock(&m)); }
static void wt(void)
{
  inside = 0;
  MC_EQ(pthread_cond_wait(&c, &m), 0, "pthread_cond_wait");
  MC_ASSERT(!inside, "pthread_cond_wait returned while another thread holds the mutex"); inside = mc_self() + 1;
  if (kind == PTHREAD_MUTEX_ERRORCHECK && !stat_) MC_EQ(pthread_mutex_lock(&m), EDEADLK, "the mutex must belong to the thread returning from the wait");
}
/* ---- log programs: letters w = wait once, s = signal, b = broadcast (under the mutex), S/B = after unlocking, . = nothing */
static const char *prog[6]; static signed char ev[32]; static int nev, woken[6], waits[6];
static void *lbody(void *a)
{
  int me = (int)(intptr_t)a;
  for (const char *p = prog[me]; *p; p++)
    switch (*p)
      {
      case 'w': lk(); ev[nev++] = (signed char)me; waits[me]++; wt(); woken[me]++; un(); break;
      case 's': lk(); ev[nev++] = -1; OK(pthread_cond_signal(&c)); un(); break;
      case 'b': lk(); ev[nev++] = -2; OK(pthread_cond_broadcast(&c)); un(); break;
      }
  return a;
}
static void logrun(int n, const char *a, const char *b, const char *cc, const char *d)
{
  int pending = 0, released = 0, tot = 0, seen[6] = {0};
  prog[0] = a; prog[1] = b; prog[2] = cc; prog[3] = d;
  setup(); go(n, lbody); mc_quiesce();
  for (int i = 0; i < nev; i++)
    {
      if (ev[i] >= 0) { pending++; seen[ev[i]]++; continue; }
      int was = released;
      if (ev[i] == -1) { if (pending) { pending--; released++; } } else { released += pending; pending = 0; }
      int w = 0; for (int j = 0; j < n; j++) w += woken[j] < seen[j] ? woken[j] : seen[j];
      MC_ASSERT(w >= released, "a signal did not wake any of the threads waiting when it was sent");
      (void)was;
    }
  for (int j = 0; j < n; j++) tot += woken[j];
  mc_cover(released * 8 + pending);
  MC_EQ(tot, released, "number of waits that returned");
  /* everybody still blocked is released now */
  for (int k = 0; k < 8; k++)
    { int bl = 0; for (int j = 0; j < n; j++) bl += woken[j] < waits[j]; if (!bl) break; OK(pthread_cond_broadcast(&c)); mc_quiesce(); for (int j = 0; j < n; j++) if (woken[j] < waits[j]) MC_ASSERT(prog[j][1], "a broadcast left a waiting thread blocked"); }
  joinall(); tear();
}
#define L2(nm, a, b) static void nm(void) { kind = PTHREAD_MUTEX_ERRORCHECK; logrun(2, a, b, "", ""); }
#define L3(nm, a, b, c_) static void nm(void) { kind = PTHREAD_MUTEX_NORMAL; logrun(3, a, b, c_, ""); }
#define L4(nm, a, b, c_, d) static void nm(void) { kind = PTHREAD_MUTEX_NORMAL; logrun(4, a, b, c_, d); }
L2(l_ws, "w", "s") L2(l_wb, "w", "b") L2(l_wss, "w", "ss") L2(l_ww_s, "ww", "sss") L2(l_ww_bs, "ww", "bs")
L3(l_w_w_s, "w", "w", "s") L3(l_w_w_b, "w", "w", "b") L3(l_w_w_ss, "w", "w", "ss") L3(l_w_w_sb, "w", "w", "sb") L3(l_ww_w_ss, "ww", "w", "ss") L3(l_w_s_s, "w", "s", "s") L3(l_ww_s_b, "ww", "s", "b") L3(l_ww_s_s, "ww", "s", "s") L3(l_ws_w_s, "ws", "w", "s") L3(l_ww_ww_bb, "ww", "ww", "bb") L3(l_ws_ws_s, "ws", "ws", "s") L3(l_ws_wb_s, "ws", "wb", "s")
L4(l_w_w_w_b, "w", "w", "w", "b") L4(l_w_w_w_ss, "w", "w", "w", "ss") L4(l_w_w_s_s, "w", "w", "s", "s") L4(l_w_w_s_b, "w", "w", "s", "b") L4(l_w_w_w_sb, "w", "w", "w", "sb")
/* ---- signals (S) and broadcasts (B) sent without the mutex, while waits begin and end: which waits they reach is open, but afterwards
   the bookkeeping must be exact again: each further signal wakes exactly one, a broadcast all, and later waits need a later signal */
static void *ubody(void *a)
{
  int me = (int)(intptr_t)a;
  for (const char *p = prog[me]; *p; p++)
    switch (*p)
      {
      case 'w': lk(); waits[me]++; wt(); woken[me]++; un(); break;
      case 'S': OK(pthread_cond_signal(&c)); break;
      case 'B': OK(pthread_cond_broadcast(&c)); break;
      }
  return a;
}
static int ublocked(int n) { int bl = 0; for (int j = 0; j < n; j++) bl += woken[j] < waits[j]; return bl; }
static void *uwait(void *a) { lk(); waits[5] = 1; wt(); woken[5] = 1; un(); return a; }
static void urun(int n, const char *a, const char *b, const char *cc, const char *d)
{
  int sig = 0, bc_ = 0, tot = 0, bl;
  prog[0] = a; prog[1] = b; prog[2] = cc; prog[3] = d; kind = PTHREAD_MUTEX_NORMAL;
  for (int j = 0; j < n; j++) for (const char *p = prog[j]; *p; p++) { sig += *p == 'S'; bc_ += *p == 'B'; }
  setup(); go(n, ubody); mc_quiesce();
  for (int j = 0; j < n; j++) tot += woken[j];
  MC_ASSERT(bc_ || tot <= sig, "more waits returned than signals were sent"); mc_cover(tot);
  if (mc_choose(2)) { while ((bl = ublocked(n)) != 0) { OK(pthread_cond_broadcast(&c)); mc_quiesce(); int w = 0; for (int j = 0; j < n; j++) w += woken[j]; MC_EQ(w - tot, bl, "waits a broadcast released"); tot = w; } }
  else while ((bl = ublocked(n)) != 0) { OK(pthread_cond_signal(&c)); mc_quiesce(); int w = 0; for (int j = 0; j < n; j++) w += woken[j]; MC_EQ(w - tot, 1, "waits a signal released"); tot = w; }
  OK(pthread_cond_signal(&c)); OK(pthread_create(&th_[nth_++], NULL, uwait, 0)); mc_quiesce(); MC_ASSERT(waits[5] && !woken[5], "a later wait returned without a signal"); OK(pthread_cond_signal(&c)); mc_quiesce(); MC_EQ(woken[5], 1, "a later wait is released by a signal");
  joinall(); tear();
}
#define U(nm, n, a, b, c_, d) static void nm(void) { urun(n, a, b, c_, d); }
U(u_wS, 2, "w", "S", "", "") U(u_wB, 2, "w", "B", "", "") U(u_wwS, 2, "ww", "SS", "", "") U(u_wwB, 2, "ww", "BB", "", "") U(u_w_w_S, 3, "w", "w", "S", "") U(u_w_w_SS, 3, "w", "w", "SS", "") U(u_w_w_B, 3, "w", "w", "B", "") U(u_w_S_S, 3, "w", "S", "S", "") U(u_w_S_B, 3, "w", "S", "B", "") U(u_w_B_B, 3, "w", "B", "B", "") U(u_ww_w_SB, 3, "ww", "w", "SB", "") U(u_w_w_S_S, 4, "w", "w", "S", "S") U(u_w_w_S_B, 4, "w", "w", "S", "B") U(u_w_w_w_S, 4, "w", "w", "w", "S")
/* ---- predicate programs: consumers wait for items; producers signal inside or outside the mutex */
static int items, want_, bc, out_;
static void *cons(void *a) { lk(); while (!items) wt(); if (bc != 2) items--; un(); return a; }
static void *prod(void *a) { lk(); items++; if (!out_) OK(bc ? pthread_cond_broadcast(&c) : pthread_cond_signal(&c)); un(); if (out_) OK(bc ? pthread_cond_broadcast(&c) : pthread_cond_signal(&c)); return a; }
static void *prod2(void *a) { prod(a); return prod(a); }
static void pred(int nc, int np, void *(*p)(void *), int b, int o, int k, int r, int st)
{ kind = k; robust = r; stat_ = st; bc = b; out_ = o; setup(); go(nc, cons); go(np, p); joinall(); MC_EQ(items, b == 2 ? np : 0, "items left"); tear(); }
#define P(nm, nc, np, p, b, o, k, r, st) static void nm(void) { pred(nc, np, p, b, o, k, r, st); }
#define NO PTHREAD_MUTEX_NORMAL
#define RC PTHREAD_MUTEX_RECURSIVE
#define EC PTHREAD_MUTEX_ERRORCHECK
P(p11, 1, 1, prod, 0, 0, EC, 0, 0) P(p11o, 1, 1, prod, 0, 1, NO, 0, 0) P(p22, 2, 2, prod, 0, 0, NO, 0, 0) P(p22o, 2, 2, prod, 0, 1, NO, 0, 0) P(p21x2, 2, 1, prod2, 0, 1, NO, 0, 0) P(p21b, 2, 1, prod, 2, 0, NO, 0, 0) P(p21bo, 2, 1, prod, 2, 1, NO, 0, 0) P(p31b, 3, 1, prod, 2, 1, NO, 0, 0)
P(p22r, 2, 2, prod, 0, 0, RC, 0, 0) P(p22rob, 2, 1, prod2, 0, 0, NO, 1, 0) P(s11, 1, 1, prod, 0, 0, NO, 0, 1) P(s21b, 2, 1, prod, 2, 0, NO, 0, 1) P(s11o, 1, 1, prod, 0, 1, NO, 0, 1) P(p22b, 2, 2, prod, 1, 1, NO, 0, 0) P(p33, 3, 3, prod, 0, 1, NO, 0, 0)
/* ping-pong: strict alternation through one condition variable */
static int turn;
static void *pong(void *a) { int me = (int)(intptr_t)a; for (int i = 0; i < 2; i++) { lk(); while (turn != me) wt(); turn = !me; OK(pthread_cond_signal(&c)); un(); } return a; }
static void pingpong(void) { kind = NO; setup(); go(2, pong); joinall(); tear(); }
/* two condition variables on one mutex: a signal on one never wakes a waiter of the other */
static pthread_cond_t c2; static int w1, w2;
static void *cw1(void *a) { OK(pthread_mutex_lock(&m)); w1 = 1; OK(pthread_cond_wait(&c, &m)); w1 = 2; OK(pthread_mutex_unlock(&m)); return a; }
static void *cw2(void *a) { OK(pthread_mutex_lock(&m)); w2 = 1; OK(pthread_cond_wait(&c2, &m)); w2 = 2; OK(pthread_mutex_unlock(&m)); return a; }
static void two(void) { kind = NO; setup(); OK(pthread_cond_init(&c2, NULL)); go(1, cw1); OK(pthread_create(&th_[nth_++], NULL, cw2, 0)); mc_quiesce(); OK(pthread_cond_broadcast(&c2)); mc_quiesce(); MC_ASSERT(w1 == 1 && w2 == 2, "wrong waiter"); OK(pthread_cond_signal(&c)); joinall(); MC_EQ(w1, 2, "woken"); OK(pthread_cond_destroy(&c2)); tear(); }
/* ---- histories with remote-controlled threads: exact counts in quiescence */
enum { WAIT, SIG, BC };
static int ret_[8];
static int ex(int me, int op)
{
  if (op == WAIT) { lk(); wt(); un(); return 0; }
  return op == SIG ? pthread_cond_signal(&c) : pthread_cond_broadcast(&c);
}
static void hist(int depth, int na)
{
  setup(); a_start(na, ex);
  int w[8] = {0}, mx = 0;
  for (int d = 0; d < depth; d++)
    {
      int a = mc_choose(na + 1), op = mc_choose(3), nb = 0, left = 0;       /* actor 0: the main thread itself */
      if (a == 0 ? op == WAIT : w[a] || a > mx + 1) break;                  /* actors are interchangeable: take them in order */
      if (a > mx) mx = a;
      for (int i = 1; i <= na; i++) nb += w[i];
      if (op == WAIT) { MC_ASSERT(!a_call(a, WAIT), "a wait returned without any signal"); w[a] = 1; continue; }
      if (a) OK(a_do(a, op)); else { OK(ex(0, op)); mc_quiesce(); }
      for (int i = 1; i <= na; i++) { if (w[i] && !a_busy[i]) w[i] = 0; left += w[i]; }
      MC_EQ(nb - left, op == BC ? nb : nb > 0, "threads woken");
    }
  OK(pthread_cond_broadcast(&c)); mc_quiesce(); a_stop(); tear();
}
#define HI(nm, d, n, k, s) static void nm(void) { kind = k; stat_ = s; hist(d, n); }
HI(h2, 7, 2, EC, 0) HI(h3, 6, 3, NO, 0) HI(h3s, 5, 3, NO, 1) HI(h3d, 9, 3, NO, 0)
#define E(x) {#x, x, ""}
mc_scen_t mc_scenarios[] = {E(l_ws), E(l_wb), E(l_wss), E(l_ww_s), E(l_ww_bs), E(p11), E(p11o), E(s11), E(s11o), E(pingpong), E(two), E(h2), {"h3", h3, "q=1 t=u"}, {"h3s", h3s, "q=1 t=u"}, {"h3d", h3d, "q=- t=u"},
  {"l_w_w_s", l_w_w_s, "q=3 t=u w=5"}, {"l_w_w_b", l_w_w_b, "q=3 t=u w=5"}, {"l_w_w_ss", l_w_w_ss, "q=3 t=u"}, {"l_w_w_sb", l_w_w_sb, "q=3 t=u"}, {"l_ww_w_ss", l_ww_w_ss, "q=3 t=u"}, E(l_w_s_s), {"l_ww_s_b", l_ww_s_b, "q=3 t=u w=5"}, {"l_ww_s_s", l_ww_s_s, "q=3 t=u w=5"}, {"l_ws_w_s", l_ws_w_s, "q=3 t=u w=5"}, {"l_ww_ww_bb", l_ww_ww_bb, "q=3 t=u"}, {"l_ws_ws_s", l_ws_ws_s, "q=3 t=u w=5"}, {"l_ws_wb_s", l_ws_wb_s, "q=3 t=u w=5"}, {"p21x2", p21x2, "q=3 t=u"}, {"p21b", p21b, "q=3 t=u w=5"}, E(p21bo), {"s21b", s21b, "q=3 t=u"}, {"p22rob", p22rob, "q=3 t=u"},
  E(u_wS), E(u_wB), {"u_wwS", u_wwS, "q=3 t=u"}, {"u_wwB", u_wwB, "q=3 t=u"}, {"u_w_w_S", u_w_w_S, "q=3 t=u"}, {"u_w_w_SS", u_w_w_SS, "q=3 t=u"}, {"u_w_w_B", u_w_w_B, "q=3 t=u"}, {"u_w_S_S", u_w_S_S, "q=3 t=u"}, {"u_w_S_B", u_w_S_B, "q=3 t=u"}, {"u_w_B_B", u_w_B_B, "q=3 t=u"}, {"u_ww_w_SB", u_ww_w_SB, "q=3 t=u"}, {"u_w_w_S_S", u_w_w_S_S, "q=1 t=u"}, {"u_w_w_S_B", u_w_w_S_B, "q=1 t=u"}, {"u_w_w_w_S", u_w_w_w_S, "q=1 t=u"},
  {"l_w_w_w_b", l_w_w_w_b, "q=2 t=u"}, {"l_w_w_w_ss", l_w_w_w_ss, "q=2 t=u"}, {"l_w_w_s_s", l_w_w_s_s, "q=2 t=u"}, {"l_w_w_s_b", l_w_w_s_b, "q=2 t=u"}, {"l_w_w_w_sb", l_w_w_w_sb, "q=2 t=u"},
  {"p22", p22, "q=2 t=u"}, {"p22o", p22o, "q=2 t=u"}, {"p31b", p31b, "q=2 t=u"}, {"p22r", p22r, "q=2 t=u"}, {"p22b", p22b, "q=2 t=u"}, {"p33", p33, "q=- t=2"}, {0, 0, 0}};
