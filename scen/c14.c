/* C14: identifiers are unique and stale ones are recognised. */
#include "common.h"
static pthread_t t_[6];
#define n_ GH(30)
#define nseq GH(31)
static unsigned long long seq_[16];
#define started(i) GH(8 + (i))
#define ended(i) GH(16 + (i))
static HANDLE ev;
static void seqadd(unsigned long long s) { int k = (int)nseq++; seq_[k] = s; for (int i = 0; i < nseq; i++) MC_ASSERT(i == k || seq_[i] != s, "sequence number not unique"); }
static void *quick(void *a) { pthread_t s = pthread_self(); MC_ASSERT(pthread_equal(s, pthread_self()), "self not equal to self"); return a; }
static void *held(void *a) { int i = (int)(intptr_t)a; started(i) = 1; WaitForSingleObject(ev, INFINITE); pthread_testcancel(); ended(i) = 1; return a; }
static void distinct(void) { for (int i = 0; i < n_; i++) for (int j = 0; j < i; j++) if (t_[i].p && t_[j].p) MC_ASSERT(!pthread_equal(t_[i], t_[j]), "two threads have equal identifiers"); }
static void end(void) { done(); MC_EQ(mc_blocks(), 0, "memory leaked"); MC_EQ(mc_handles(), 0, "handles leaked"); }
/* every operation on a released identifier reports no such thread */
static int stale_op(int k, pthread_t t)
{
  void *v; struct timespec ts; struct sched_param sp; int pol; char buf[20]; cpu_set_t cs;
  switch (k)
    {
    case 0: return pthread_kill(t, 0); case 1: return pthread_cancel(t); case 2: return pthread_join(t, &v); case 3: return pthread_tryjoin_np(t, &v);
    case 4: ts = ts_in(5); return pthread_timedjoin_np(t, &v, &ts); case 5: return pthread_detach(t); case 6: sp.sched_priority = 1; return pthread_setschedparam(t, SCHED_OTHER, &sp);
    case 7: return pthread_getschedparam(t, &pol, &sp); case 8: return pthread_setname_np(t, "stale"); case 9: return pthread_getname_np(t, buf, sizeof buf);
    case 10: CPU_ZERO(&cs); CPU_SET(1, &cs); return pthread_setaffinity_np(t, sizeof cs, &cs); case 11: return pthread_getaffinity_np(t, sizeof cs, &cs);
    case 12: return pthread_kill(t, SIGTERM); case 13: return pthread_kill(t, SIGABRT); case 14: return pthread_kill(t, SIGINT);
    }
  return -1;
}
#define NOPS 15
/* sequences: create, join, detach, threads released; all identifiers ever seen stay distinct and stale */
static void seqs(int depth)
{
  pthread_t all[12], cur[3]; int na = 0, live[12] = {0}, slot[3] = {-1, -1, -1}; void *v; mc_cpus(3, 3); ev = CreateEvent(0, 1, 1, 0);
  seqadd(pthread_getunique_np(pthread_self()));
  for (int d = 0; d < depth; d++)
    {
      int op = mc_choose(3), s = mc_choose(3);
      if (slot[s] < 0) { OK(pthread_create(&cur[s], NULL, held, VP(s))); seqadd(pthread_getunique_np(cur[s])); for (int i = 0; i < na; i++) MC_ASSERT(!pthread_equal(cur[s], all[i]), "identifier reused"); MC_ASSERT(!pthread_equal(cur[s], pthread_self()), "identifier reused"); slot[s] = na; all[na] = cur[s]; live[na++] = 1; }
      else if (op == 0) { OK(pthread_join(cur[s], &v)); MC_EQ((intptr_t)v, s, "join value"); live[slot[s]] = 0; slot[s] = -1; }
      else if (op == 1) { OK(pthread_detach(cur[s])); mc_wait_all(); live[slot[s]] = 0; slot[s] = -1; }
      else { mc_wait_all(); OK(pthread_tryjoin_np(cur[s], &v)); MC_EQ((intptr_t)v, s, "join value"); live[slot[s]] = 0; slot[s] = -1; }
      for (int i = 0; i < na; i++) { int r = pthread_kill(all[i], 0); if (live[i]) MC_EQ(r, 0, "live identifier rejected"); else MC_EQ(r, ESRCH, "stale identifier accepted"); }
    }
  for (int s = 0; s < 3; s++) if (slot[s] >= 0) OK(pthread_join(cur[s], &v));
  CloseHandle(ev); end();
}
static void sq4(void) { seqs(4); } static void sq6(void) { seqs(6); } static void sq8(void) { seqs(8); }
/* stale identifier (joined, detached or cancelled) with its storage in the pool or recycled by a running thread: every operation says ESRCH and the running thread is untouched */
static void stale(int how, int recycle)
{
  pthread_t a, b; void *v; int k = mc_choose(NOPS); mc_cpus(3, 3); struct sched_param sp; int pol; char nm[20]; cpu_set_t cs;
  ev = CreateEvent(0, 1, 0, 0); OK(pthread_create(&a, NULL, how == 2 ? held : quick, VP(1)));
  if (how == 0) OK(pthread_join(a, &v)); else if (how == 1) { OK(pthread_detach(a)); mc_wait_all(); } else { OK(pthread_cancel(a)); SetEvent(ev); OK(pthread_join(a, &v)); MC_ASSERT(v == PTHREAD_CANCELED, "cancelled marker"); ResetEvent(ev); }
  if (recycle) { OK(pthread_create(&b, NULL, held, VP(2))); OK(pthread_setname_np(b, "fresh")); MC_ASSERT(!pthread_equal(a, b), "identifier reused"); if (recycle == 2) OK(pthread_detach(b)); }
  EQ(stale_op(k, a), ESRCH);
  if (recycle)
    {
      OK(pthread_kill(b, 0)); OK(pthread_getschedparam(b, &pol, &sp)); MC_EQ(sp.sched_priority, 0, "the recycled thread's priority changed"); OK(pthread_getname_np(b, nm, sizeof nm)); MC_EQ(strcmp(nm, "fresh"), 0, "the recycled thread's name changed");
      OK(pthread_getaffinity_np(b, sizeof cs, &cs)); MC_EQ(CPU_COUNT(&cs), 2, "the recycled thread's affinity changed");
      if (recycle == 1) EQ(pthread_tryjoin_np(b, &v), EBUSY);
      SetEvent(ev); if (recycle == 1) { OK(pthread_join(b, &v)); MC_EQ((intptr_t)v, 2, "the recycled thread was hit"); } else mc_wait_all();
      MC_EQ(ended(2), 1, "the recycled thread was hit");
    }
  CloseHandle(ev); end();
}
static void st00(void) { stale(0, 0); } static void st01(void) { stale(0, 1); } static void st02(void) { stale(0, 2); } static void st10(void) { stale(1, 0); } static void st11(void) { stale(1, 1); } static void st20(void) { stale(2, 0); } static void st21(void) { stale(2, 1); } static void st12(void) { stale(1, 2); }
/* never valid identifiers */
static void bogus(void)
{
  pthread_t z = {0, 0}, s = pthread_self(), w = s; int k = mc_choose(NOPS); w.x++; EQ(stale_op(k, z), ESRCH); EQ(stale_op(k, w), ESRCH);
  MC_ASSERT(!pthread_equal(z, s) && !pthread_equal(w, s) && pthread_equal(s, s), "equality"); end();
}
/* an operation on an identifier racing with its thread being joined and recycled: it either hits the old thread or says ESRCH */
static pthread_t old_, new_; static int op_;
static void *user(void *a)
{
  int r = stale_op(op_, old_); MC_ASSERT(r == 0 || r == ESRCH, "operation on an ending thread"); return a;
}
static void race(int op, int detach)
{
  pthread_t u; void *v; struct sched_param sp; int pol; char nm[20]; cpu_set_t cs; mc_cpus(3, 3); op_ = op;
  ev = CreateEvent(0, 1, 0, 0); OK(pthread_create(&old_, NULL, quick, VP(1))); OK(pthread_create(&u, NULL, user, VP(3)));
  if (detach) OK(pthread_detach(old_)); else { OK(pthread_join(old_, &v)); MC_ASSERT(v == VP(1) || (v == PTHREAD_CANCELED && op >= 12), "join value"); }
  OK(pthread_create(&new_, NULL, held, VP(2))); OK(pthread_setname_np(new_, "fresh")); MC_ASSERT(!pthread_equal(old_, new_), "identifier reused");
  OK(pthread_join(u, &v)); MC_EQ((intptr_t)v, 3, "the wrong thread was hit");
  OK(pthread_getschedparam(new_, &pol, &sp)); MC_EQ(sp.sched_priority, 0, "the recycled thread's priority changed"); OK(pthread_getname_np(new_, nm, sizeof nm)); MC_EQ(strcmp(nm, "fresh"), 0, "the recycled thread's name changed");
  OK(pthread_getaffinity_np(new_, sizeof cs, &cs)); MC_EQ(CPU_COUNT(&cs), 2, "the recycled thread's affinity changed"); EQ(pthread_tryjoin_np(new_, &v), EBUSY);
  SetEvent(ev); OK(pthread_join(new_, &v)); MC_EQ((intptr_t)v, 2, "the recycled thread was hit"); MC_EQ(ended(2), 1, "the recycled thread was hit");
  mc_wait_all(); CloseHandle(ev);
  if (op >= 12) { done(); MC_ASSERT(mc_blocks() <= 1, "memory leaked"); MC_EQ(mc_handles(), 0, "handles leaked"); }   /* TerminateThread may hit the new thread before it has freed its start parameters */
  else end();
}
#define RC(k) static void ra##k(void) { race(k, 0); } static void rd##k(void) { race(k, 1); }
RC(0) RC(1) RC(6) RC(7) RC(8) RC(9) RC(10) RC(11) RC(12)
/* concurrent creators: identifiers and sequence numbers are unique */
static void *creator(void *a)
{
  int i = (int)(intptr_t)a; pthread_t t; void *v; seqadd(pthread_getunique_np(pthread_self()));
  OK(pthread_create(&t, NULL, quick, VP(i + 10))); { int k = (int)n_++; t_[k] = t; } distinct(); seqadd(pthread_getunique_np(t)); OK(pthread_join(t, &v)); MC_EQ((intptr_t)v, i + 10, "join value"); return a;
}
static void conc(int n, int warm)
{
  void *v; pthread_t c[3], w[3];
  /* with warm storage in the pool */
  for (int i = 0; i < warm; i++) OK(pthread_create(&w[i], NULL, quick, VP(i))); for (int i = 0; i < warm; i++) OK(pthread_join(w[i], &v));
  for (int i = 0; i < n; i++) OK(pthread_create(&c[i], NULL, creator, VP(i)));
  for (int i = 0; i < n; i++) { OK(pthread_join(c[i], &v)); MC_EQ((intptr_t)v, i, "join value"); }
  for (int i = 0; i < n; i++) for (int j = 0; j < n_; j++) MC_ASSERT(!pthread_equal(c[i], t_[j]), "two threads have equal identifiers");
  end();
}
static void c2(void) { conc(2, 0); } static void c2w(void) { conc(2, 2); } static void c3(void) { conc(3, 0); } static void c2w3(void) { conc(2, 3); }
/* foreign threads creating their identifiers at the same time */
static unsigned __stdcall foreign(void *a) { pthread_t s = pthread_self(); seqadd(pthread_getunique_np(s)); { int k = (int)n_++; t_[k] = s; } distinct(); mc_point(); MC_ASSERT(pthread_equal(s, pthread_self()), "identifier changed"); WaitForSingleObject(ev, INFINITE); pthread_win32_thread_detach_np(); return 0; }
static void fo(int n)
{
  HANDLE h[3]; unsigned id; ev = CreateEvent(0, 1, 0, 0);
  for (int i = 0; i < n; i++) h[i] = (HANDLE)_beginthreadex(NULL, 0, foreign, NULL, 0, &id);
  seqadd(pthread_getunique_np(pthread_self())); mc_quiesce(); MC_EQ(n_, n, ""); SetEvent(ev); for (int i = 0; i < n; i++) { WaitForSingleObject(h[i], INFINITE); CloseHandle(h[i]); }
  for (int i = 0; i < n; i++) EQ(pthread_kill(t_[i], 0), ESRCH);
  CloseHandle(ev); end();
}
static void f2(void) { fo(2); } static void f3(void) { fo(3); }
#define E(x) {#x, x, ""}
#define B(x, q) {#x, x, q}
#define ER(k) B(ra##k, "q=3 t=u"), B(rd##k, "q=3 t=u")
mc_scen_t mc_scenarios[] = {B(sq4, "q=1 t=u"), B(sq6, "q=0 t=1"), B(sq8, "q=- t=0"), E(st00), E(st01), E(st02), E(st10), E(st11), E(st12), E(st20), E(st21), E(bogus), ER(0), ER(1), ER(6), ER(7), ER(8), ER(9), ER(10), ER(11), ER(12), B(c2, "q=2 t=u"), B(c2w, "q=2 t=u"), B(c2w3, "q=2 t=u"), B(c3, "q=0 t=u"), B(f2, "q=3 t=u w=5"), B(f3, "q=2 t=u w=4"), {0, 0, 0}};
