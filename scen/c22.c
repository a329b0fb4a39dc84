/* C22: creation attributes, priorities, affinities, names and processor sets against a reference model and against
   what the (simulated) operating system was actually told. */
#include "common.h"
#define N(a) ((int)(sizeof (a) / sizeof *(a)))
static const int PR[] = {-15, -14, -3, -2, 0, 1, 2, 3, 14, 15};
static int osp(int p) { return p > -15 && p < -2 ? -2 : p < 15 && p > 2 ? 2 : p; }
static unsigned long long cs(cpu_set_t *s) { int i; unsigned long long r = 0; for (i = 0; i < 64; i++) if (CPU_ISSET(i, s)) r |= 1ULL << i; return r; }
static void mk(unsigned long long v, cpu_set_t *s) { int i; CPU_ZERO(s); for (i = 0; i < 64; i++) if (v >> i & 1) CPU_SET(i, s); }
static int gprio(pthread_t t) { int p = 9; struct sched_param s; memset(&s, 0x5a, sizeof s); OK(pthread_getschedparam(t, &p, &s)); MC_EQ(p, SCHED_OTHER, "policy"); return s.sched_priority; }
static int sprio(pthread_t t, int pol, int v) { struct sched_param s; s.sched_priority = v; return pthread_setschedparam(t, pol, &s); }
static unsigned long long gaff(pthread_t t) { cpu_set_t c; mk(0xf0f0, &c); OK(pthread_getaffinity_np(t, sizeof c, &c)); return cs(&c); }
static int saff(pthread_t t, unsigned long long v) { cpu_set_t c; mk(v, &c); return pthread_setaffinity_np(t, sizeof c, &c); }
static void isname(pthread_t t, const char *w) { char b[24]; memset(b, '#', sizeof b); OK(pthread_getname_np(t, b, sizeof b)); MC_ASSERT(memchr(b, 0, sizeof b) && !strcmp(b, w), "name"); b[3] = '#'; OK(pthread_getname_np(t, b, 3)); MC_ASSERT(strlen(b) == (strlen(w) < 2 ? strlen(w) : 2) && !strncmp(b, w, 2) && b[3] == '#', "shortened name"); }
/* what the new thread must find */
static int x_prio, x_det; static unsigned long long x_aff; static const char *x_name;
static void *born(void *p)
{
  pthread_t me = pthread_self();
  MC_EQ(mc_prio(mc_self()), osp(x_prio), "priority given to the operating system");
  MC_EQ(mc_affinity(mc_self()), x_aff, "affinity given to the operating system");
  MC_EQ(gprio(me), x_prio, "priority"); MC_EQ(gaff(me), x_aff, "affinity"); isname(me, x_name);
  MC_EQ(mc_affinity(mc_self()), x_aff, "affinity unchanged by the query");
  GH(1)++;
  return p;
}
static void make(pthread_attr_t *a)
{
  pthread_t t; void *v = 0; int r;
  OK(pthread_create(&t, a, born, VP(5)));
  if (x_det == PTHREAD_CREATE_JOINABLE) { OK(pthread_join(t, &v)); MC_EQ((intptr_t)v, 5, "join value"); }
  else { r = pthread_join(t, &v); MC_ASSERT(r == EINVAL || r == ESRCH, "join of a thread created detached"); }
}
static void settled(int k) { mc_wait_all(); MC_EQ(GH(1), k, "threads run"); }
static const unsigned long long PM[] = {0xf, 0x5}; /* process masks */
static void *creator(void *q)
{
  pthread_attr_t a; struct sched_param s; int who = (int)(intptr_t)q, cp = 0, inh, p = 0; unsigned long long ca = mc_proc_affinity(), aa; cpu_set_t c;
  switch (who)
    {
    case 0: /* priorities: own or inherited */
      OK(pthread_attr_init(&a));
      cp = PR[mc_choose(N(PR))]; OK(sprio(pthread_self(), SCHED_OTHER, cp)); MC_EQ(mc_prio(mc_self()), osp(cp), "creator priority");
      inh = mc_choose(2); OK(pthread_attr_setinheritsched(&a, inh)); p = 0;
      if (mc_choose(2)) { p = PR[mc_choose(N(PR))]; s.sched_priority = p; OK(pthread_attr_setschedparam(&a, &s)); }
      x_prio = inh == PTHREAD_INHERIT_SCHED ? cp : p; x_aff = ca; x_name = ""; x_det = 0; make(&a); OK(pthread_attr_destroy(&a)); break;
    case 1: /* affinity: own or inherited */
      OK(pthread_attr_init(&a));
      if (mc_choose(2)) { unsigned long long w = 1 + mc_choose(15); int r = saff(pthread_self(), w); if (w & ca) { MC_EQ(r, 0, "setaffinity"); ca &= w; } else MC_EQ(r, EINVAL, "setaffinity"); }
      aa = mc_choose(17); if (aa == 16) aa = ~0ULL; mk(aa, &c); OK(pthread_attr_setaffinity_np(&a, sizeof c, &c));
      x_prio = 0; x_name = ""; x_det = 0; x_aff = aa == 0 ? ca : (aa & mc_proc_affinity()) ? (aa & mc_proc_affinity()) : mc_proc_affinity(); make(&a); OK(pthread_attr_destroy(&a)); break;
    case 2: /* everything at once */
      OK(pthread_attr_init(&a));
      x_name = mc_choose(2) ? "wombat" : ""; if (x_name[0]) OK(pthread_attr_setname_np(&a, x_name));
      x_det = mc_choose(2); OK(pthread_attr_setdetachstate(&a, x_det));
      x_prio = mc_choose(2) ? 7 : 0; if (x_prio) { s.sched_priority = 7; OK(pthread_attr_setschedparam(&a, &s)); }
      x_aff = ca; if (mc_choose(2)) { x_aff = 4; mk(4, &c); OK(pthread_attr_setaffinity_np(&a, sizeof c, &c)); }
      if (mc_choose(2)) OK(pthread_attr_setstacksize(&a, 65536));
      make(&a); OK(pthread_attr_destroy(&a)); break;
    case 3: /* no attributes: defaults, whatever the creator has, except for its affinity */
      OK(sprio(pthread_self(), SCHED_OTHER, 2)); OK(pthread_setname_np(pthread_self(), "maker")); ca = 1 + mc_choose(5) ; if (!(ca & mc_proc_affinity())) ca = mc_proc_affinity(); OK(saff(pthread_self(), ca));
      x_prio = 0; x_aff = ca & mc_proc_affinity(); x_name = ""; x_det = 0; make(0); isname(pthread_self(), "maker"); break;
    }
  return 0;
}
static void by_lib(int w) { pthread_t t; void *v; mc_cpus(0x5, 0xff); pthread_self(); OK(pthread_create(&t, 0, creator, VP(w))); OK(pthread_join(t, &v)); settled(1); done(); MC_EQ(mc_blocks(), 0, "memory leaked"); MC_EQ(mc_handles(), 0, "handles leaked"); }
static void by_main(int w) { mc_cpus(PM[mc_choose(2)], 0xff); creator(VP(w)); settled(1); done(); MC_EQ(mc_blocks(), 0, "memory leaked"); MC_EQ(mc_handles(), 0, "handles leaked"); }
static void l0(void) { by_lib(0); } static void l1(void) { by_lib(1); } static void l2(void) { by_lib(2); } static void l3(void) { by_lib(3); }
static void n0(void) { by_main(0); } static void n1(void) { by_main(1); } static void n2(void) { by_main(2); } static void n3(void) { by_main(3); }
/* a Win32 thread that was given its priority and processors by the operating system before it first uses the library */
static unsigned native(int how)
{
  static const int OP[] = {-15, -2, -1, 0, 1, 2, 15}; int p = OP[mc_choose(N(OP))]; unsigned long long a = 1 + mc_choose(15), all = mc_proc_affinity(); pthread_attr_t at; cpu_set_t c;
  if (!(a & all)) a = all; a &= all;
  SetThreadPriority(GetCurrentThread(), p); SetThreadAffinityMask(GetCurrentThread(), a);
  if (how == 0) MC_EQ(gprio(pthread_self()), p, "priority on first use"); else if (how == 1) MC_EQ(gaff(pthread_self()), a, "affinity on first use");
  OK(pthread_attr_init(&at)); x_aff = a; x_name = ""; x_det = 0; x_prio = 0;
  if (mc_choose(2)) { OK(pthread_attr_setinheritsched(&at, PTHREAD_INHERIT_SCHED)); x_prio = p; }
  if (mc_choose(2)) { mk(all & -all, &c); OK(pthread_attr_setaffinity_np(&at, sizeof c, &c)); x_aff = all & -all; }
  make(&at); OK(pthread_attr_destroy(&at));
  MC_EQ(mc_prio(mc_self()), p, "own priority at the operating system"); MC_EQ(mc_affinity(mc_self()), a, "own affinity at the operating system");
  MC_EQ(gprio(pthread_self()), p, "priority"); MC_EQ(gaff(pthread_self()), a, "affinity"); isname(pthread_self(), "");
  return 0;
}
static unsigned __stdcall fnative(void *p) { native((int)(intptr_t)p); pthread_win32_thread_detach_np(); return 0; }
static void nat_main(void) { mc_cpus(PM[mc_choose(2)], 0xff); native(mc_choose(3)); settled(1); done(); MC_EQ(mc_blocks(), 0, "memory leaked"); MC_EQ(mc_handles(), 0, "handles leaked"); }
static void nat_win(void) { HANDLE h; mc_cpus(PM[mc_choose(2)], 0xff); pthread_self(); h = (HANDLE)_beginthreadex(0, 0, fnative, VP(mc_choose(3)), 0, 0); WaitForSingleObject(h, INFINITE); CloseHandle(h); settled(1); done(); MC_EQ(mc_blocks(), 0, "memory leaked"); MC_EQ(mc_handles(), 0, "handles leaked"); }
/* a recycled thread record starts afresh */
static void *deco(void *p) { OK(sprio(pthread_self(), SCHED_OTHER, 15)); OK(saff(pthread_self(), 2)); OK(pthread_setname_np(pthread_self(), "ghost")); return 0; }
static void recycle(void) { pthread_t t; void *v; int i; mc_cpus(0xf, 0xf); for (i = 0; i < 2; i++) { OK(pthread_create(&t, 0, deco, 0)); OK(pthread_join(t, &v)); } x_prio = 0; x_aff = 0xf; x_name = ""; x_det = 0; make(0); settled(1); done(); }

/* ---- sequences of changes on live threads: 0 main, 1 a library thread, 2 a foreign thread ---- */
static HANDLE ev; static pthread_t T[3]; static int F[3], m_pr[3]; static unsigned long long m_af[3]; static int m_nm[3]; static const char *const NM[] = {"", "a", "wombat", "0123456789abcde"};
static void *idle(void *p) { F[1] = mc_self(); WaitForSingleObject(ev, INFINITE); return 0; }
static unsigned __stdcall fidle(void *p) { T[2] = pthread_self(); F[2] = mc_self(); WaitForSingleObject(ev, INFINITE); pthread_win32_thread_detach_np(); return 0; }
static void look(void) { int i; for (i = 0; i < 3; i++) { MC_EQ(gprio(T[i]), m_pr[i], "priority"); MC_EQ(mc_prio(F[i]), osp(m_pr[i]), "priority at the operating system"); MC_EQ(gaff(T[i]), m_af[i], "affinity"); MC_EQ(mc_affinity(F[i]), m_af[i], "affinity at the operating system"); isname(T[i], NM[m_nm[i]]); } MC_ASSERT(mc_prio(F[0]) == osp(m_pr[0]), "os"); }
static void act(int faults)
{
  static const int POL[] = {SCHED_OTHER, SCHED_FIFO, SCHED_RR, 99, -1}; static const int BP[] = {-16, 16, 100, 2147483647}; static const unsigned long long W[] = {0, 1, 2, 6, 0x9, 0xf0, ~0ULL, 8};
  int i = mc_choose(3), v, r, q; unsigned long long w, pm = mc_proc_affinity(); cpu_set_t c;
  if (faults) mc_faults(1, F_PRIO | F_AFF);
  switch (mc_choose(faults ? 2 : 6))
    {
    case 0: v = PR[mc_choose(N(PR))]; r = sprio(T[i], SCHED_OTHER, v); if (faults && !mc_faults_left()) MC_ASSERT(r != 0, "a failed priority change is reported"); else MC_EQ(r, 0, "setschedparam"); if (!r) m_pr[i] = v; break;
    case 1: w = W[mc_choose(N(W))]; r = saff(T[i], w); if (faults && !mc_faults_left()) MC_ASSERT(r != 0, "a failed affinity change is reported"); else MC_EQ(r, w & pm ? 0 : EINVAL, "setaffinity"); if (!r) m_af[i] = w & pm; break;
    case 2: q = POL[mc_choose(N(POL))]; v = mc_choose(2) ? BP[mc_choose(N(BP))] : 1; r = sprio(T[i], q, v); if (q == SCHED_OTHER) { MC_EQ(r, v == 1 ? 0 : EINVAL, "setschedparam"); if (!r) m_pr[i] = 1; } else MC_EQ(r, q == SCHED_FIFO || q == SCHED_RR ? ENOTSUP : EINVAL, "setschedparam policy"); break;
    case 3: v = mc_choose(N(NM)); OK(pthread_setname_np(T[i], NM[v])); m_nm[i] = v; break;
    case 4: EQ(pthread_setaffinity_np(T[i], sizeof c, 0), EFAULT); EQ(pthread_getaffinity_np(T[i], sizeof c, 0), EFAULT); break;
    case 5: /* the whole process */
      w = W[mc_choose(N(W))]; mk(w, &c); r = sched_setaffinity(0, sizeof c, &c); MC_EQ(r, w & 0xff ? 0 : -1, "sched_setaffinity"); if (r) MC_EQ(errno, EINVAL, "errno");
      else { int k; MC_EQ(mc_proc_affinity(), w & 0xff, "process affinity"); for (k = 0; k < 3; k++) { m_af[k] &= w & 0xff; if (!m_af[k]) m_af[k] = w & 0xff; } }
      mk(0x1234, &c); OK(sched_getaffinity(0, sizeof c, &c)); MC_EQ(cs(&c), mc_proc_affinity(), "sched_getaffinity");
      break;
    }
  mc_faults(0, 0);
}
static void seq(int n, int faults)
{
  HANDLE h; int i; mc_cpus(0xf, 0xff); ev = CreateEvent(0, 1, 0, 0); T[0] = pthread_self(); F[0] = mc_self();
  OK(pthread_create(&T[1], 0, idle, 0)); mc_quiesce(); h = (HANDLE)_beginthreadex(0, 0, fidle, 0, 0, 0); mc_quiesce();
  for (i = 0; i < 3; i++) m_af[i] = 0xf; look();
  while (n--) { act(faults); look(); }
  SetEvent(ev); mc_wait_all(); { void *v; OK(pthread_join(T[1], &v)); } CloseHandle(h); CloseHandle(ev); done(); MC_EQ(mc_blocks(), 0, "memory leaked"); MC_EQ(mc_handles(), 0, "handles leaked");
}
static void seq2(void) { seq(2, 0); } static void seq3(void) { seq(3, 0); } static void seq4(void) { seq(4, 0); } static void flt2(void) { seq(2, 1); }
/* ---- concurrent changes: the record and the operating system agree afterwards, and every query sees a set value ---- */
static pthread_t tgt; static int tf;
static void *hold(void *p) { tf = mc_self(); WaitForSingleObject(ev, INFINITE); return 0; }
static void *cset(void *p) { int i = (int)(intptr_t)p; switch (i >> 4) { case 0: OK(sprio(tgt, SCHED_OTHER, (i & 1) ? 2 : -2)); { int g = gprio(tgt); MC_ASSERT(g == 2 || g == -2, "priority is one of those set"); } break;
  case 1: OK(saff(tgt, 1 << (i & 1))); { unsigned long long g = gaff(tgt); MC_ASSERT(g == 1 || g == 2, "affinity is one of those set"); } break;
  case 2: OK(pthread_setname_np(tgt, (i & 1) ? "one" : "second")); { char b[20]; OK(pthread_getname_np(tgt, b, sizeof b)); MC_ASSERT(!strcmp(b, "one") || !strcmp(b, "second"), "name is one of those set"); } break; } return 0; }
static void conc(int k) { pthread_t a[2]; void *v; int i; mc_cpus(3, 3); ev = CreateEvent(0, 1, 0, 0); OK(pthread_create(&tgt, 0, hold, 0)); mc_quiesce(); for (i = 0; i < 2; i++) OK(pthread_create(&a[i], 0, cset, VP(k << 4 | i))); for (i = 0; i < 2; i++) OK(pthread_join(a[i], &v));
  MC_EQ(gprio(tgt), mc_prio(tf), "record and operating system agree"); MC_EQ(gaff(tgt), mc_affinity(tf), "record and operating system agree"); SetEvent(ev); OK(pthread_join(tgt, &v)); CloseHandle(ev); done(); MC_EQ(mc_blocks(), 0, "memory leaked"); }
static void cc0(void) { conc(0); } static void cc1(void) { conc(1); } static void cc2(void) { conc(2); }
/* changes that race with the end of the thread either take effect or report ESRCH */
static void *nop(void *p) { return 0; }
static void endrace(void) { pthread_t t; void *v; int r; OK(pthread_create(&t, 0, nop, 0)); switch (mc_choose(4)) { case 0: r = sprio(t, SCHED_OTHER, 1); break; case 1: r = saff(t, 1); break; case 2: r = pthread_setname_np(t, "x"); break; default: { char b[8]; r = pthread_getname_np(t, b, 8); } } MC_ASSERT(r == 0 || r == ESRCH, "result"); OK(pthread_join(t, &v)); EQ(sprio(t, SCHED_OTHER, 1), ESRCH); EQ(saff(t, 1), ESRCH); EQ(pthread_setname_np(t, "x"), ESRCH); { struct sched_param s; int p; cpu_set_t c; char b[8]; EQ(pthread_getschedparam(t, &p, &s), ESRCH); EQ(pthread_getaffinity_np(t, sizeof c, &c), ESRCH); EQ(pthread_getname_np(t, b, 8), ESRCH); } done(); MC_EQ(mc_blocks(), 0, "memory leaked"); MC_EQ(mc_handles(), 0, "handles leaked"); }
/* ---- processor sets ---- */
static void sets(void)
{
  static const unsigned long long U[] = {0, 1, 2, 3, 4, 0x80000000ULL, 0x100000000ULL, 0x8000000000000000ULL, 0x8000000000000001ULL, 0xffffffffULL, ~0ULL, 0x5555555555555555ULL, 0xaaaaaaaaaaaaaaaaULL, 0x7fffffff00000000ULL};
  unsigned long long x = U[mc_choose(N(U))], y = U[mc_choose(N(U))]; int i; cpu_set_t a, b, d;
  mk(x, &a); mk(y, &b); MC_EQ(cs(&a), x, "set/isset"); MC_EQ(CPU_COUNT(&a), __builtin_popcountll(x), "count");
  CPU_AND(&d, &a, &b); MC_EQ(cs(&d), x & y, "and"); CPU_OR(&d, &a, &b); MC_EQ(cs(&d), x | y, "or"); CPU_XOR(&d, &a, &b); MC_EQ(cs(&d), x ^ y, "xor"); MC_EQ(!!CPU_EQUAL(&a, &b), x == y, "equal");
  MC_EQ(cs(&a), x, "operand unchanged"); MC_EQ(cs(&b), y, "operand unchanged");
  CPU_AND(&a, &a, &b); MC_EQ(cs(&a), x & y, "and in place"); CPU_OR(&b, &a, &b); MC_EQ(cs(&b), y, "or in place");
  mk(x, &a); for (i = 0; i < 64; i++) { CPU_CLR(i, &a); MC_EQ(cs(&a), x & ~(1ULL << i), "clear"); if (x >> i & 1) CPU_SET(i, &a); }
  CPU_ZERO(&a); MC_EQ(cs(&a), 0, "zero"); MC_EQ(CPU_COUNT(&a), 0, "count");
  done();
}
/* ---- library-wide settings ---- */
static void globals(void)
{
  static const int L[] = {0, 1, 7, 2147483647, -1, -2147483647 - 1}; int i, v, cur = 0; unsigned long long pm = 1 + mc_choose(15); mc_cpus(pm, 0xff);
  MC_EQ(pthread_num_processors_np(), __builtin_popcountll(pm), "processors");
  MC_EQ(pthread_getconcurrency(), 0, "concurrency default");
  for (i = 0; i < 3; i++) { v = L[mc_choose(N(L))]; EQ(pthread_setconcurrency(v), v < 0 ? EINVAL : 0); if (v >= 0) cur = v; MC_EQ(pthread_getconcurrency(), cur, "concurrency"); }
  MC_EQ(sched_get_priority_max(SCHED_OTHER), 15, "max"); MC_EQ(sched_get_priority_min(SCHED_OTHER), -15, "min");
  MC_ASSERT(sched_get_priority_max(SCHED_FIFO) >= sched_get_priority_min(SCHED_FIFO), "range"); MC_ASSERT(sched_get_priority_max(SCHED_RR) >= sched_get_priority_min(SCHED_RR), "range");
  errno = 0; EQ(sched_get_priority_max(99), -1); MC_EQ(errno, EINVAL, "errno"); errno = 0; EQ(sched_get_priority_min(-1), -1); MC_EQ(errno, EINVAL, "errno");
  MC_EQ(sched_getscheduler(0), SCHED_OTHER, "scheduler"); MC_EQ(sched_setscheduler(0, SCHED_OTHER), SCHED_OTHER, "scheduler"); errno = 0; EQ(sched_setscheduler(0, SCHED_FIFO), -1); MC_EQ(errno, ENOSYS, "errno");
  MC_EQ(sched_getscheduler((pid_t)GetCurrentProcessId()), SCHED_OTHER, "scheduler"); errno = 0; EQ(sched_getscheduler(777), -1); MC_EQ(errno, ESRCH, "errno"); errno = 0; EQ(sched_setscheduler(4, SCHED_OTHER), -1); MC_EQ(errno, EPERM, "errno");
  { cpu_set_t c; mk(1, &c); errno = 0; EQ(sched_setaffinity(777, sizeof c, &c), -1); MC_EQ(errno, ESRCH, "errno"); errno = 0; EQ(sched_getaffinity(4, sizeof c, &c), -1); MC_EQ(errno, EPERM, "errno"); errno = 0; EQ(sched_setaffinity(0, sizeof c, 0), -1); MC_EQ(errno, EFAULT, "errno"); errno = 0; EQ(sched_getaffinity(0, sizeof c, 0), -1); MC_EQ(errno, EFAULT, "errno"); MC_EQ(mc_proc_affinity(), pm, "process affinity unchanged"); }
  errno = 0; EQ(sched_rr_get_interval(0, 0), -1); MC_EQ(errno, ENOTSUP, "errno"); EQ(sched_yield(), 0);
  done(); MC_EQ(mc_blocks(), 0, "memory leaked"); MC_EQ(mc_handles(), 0, "handles leaked");
}
mc_scen_t mc_scenarios[] = {
  {"prio_lib", l0, "q=1 t=2"}, {"aff_lib", l1, "q=1 t=2"}, {"all_lib", l2, "q=1 t=2"}, {"none_lib", l3, "q=1 t=2"},
  {"prio_main", n0, ""}, {"aff_main", n1, ""}, {"all_main", n2, ""}, {"none_main", n3, ""},
  {"recycle", recycle, ""}, {"nat_main", nat_main, "q=1 t=u"}, {"nat_win", nat_win, "q=1 t=u"}, {"seq2", seq2, "q=2"}, {"seq3", seq3, "q=- tt=300"}, {"seq4", seq4, "q=- t=1 tt=300"}, {"faults", flt2, ""},
  {"conc_prio", cc0, "q=3"}, {"conc_aff", cc1, "q=1 t=3"}, {"conc_name", cc2, "q=3"}, {"endrace", endrace, ""},
  {"sets", sets, ""}, {"globals", globals, ""},
  {0}
};
