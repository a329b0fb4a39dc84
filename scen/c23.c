/* C23: threads of the operating system (not created by this library) using it, next to library threads, and leaving. */
#include "common.h"
#ifdef PTW32_CLEANUP_CXX
#define UNWINDS 0 /* a thread without a library frame cannot be unwound in the C++ build: see DESIGN.md */
#else
#define UNWINDS 1
#endif
static HANDLE fh[3]; static int nf, fidx[3]; static pthread_t fid[3];
typedef unsigned (__stdcall *FB)(void *);
static void fgo(int n, FB b) { while (n--) { fh[nf] = (HANDLE)_beginthreadex(0, 0, b, VP(nf), 0, 0); nf++; } }
static void fend(void) { mc_wait_all(); while (nf) CloseHandle(fh[--nf]); }
static void fin(void) { done(); MC_EQ(mc_blocks(), 0, "memory leaked"); MC_EQ(mc_handles(), 0, "handles leaked"); MC_EQ(mc_tls_used(), 0, "TLS slots leaked"); }
static pthread_mutex_t m; static pthread_cond_t c; static sem_t s; static pthread_rwlock_t w; static pthread_barrier_t b; static pthread_key_t k; static pthread_once_t o = PTHREAD_ONCE_INIT; static pthread_spinlock_t sp;
static void who(void)
{
  pthread_t me = pthread_self(); MC_ASSERT(me.p != 0, "identity"); MC_ASSERT(pthread_equal(me, pthread_self()), "stable identity"); OK(pthread_kill(me, 0));
  MC_ASSERT((HANDLE)pthread_getw32threadhandle_np(me) != 0, "system handle");
}
static void fresh(void)
{ /* nothing of an earlier thread shows */
  int v, p; struct sched_param q; char n[8]; pthread_t me = pthread_self();
  OK(pthread_getname_np(me, n, 8)); MC_EQ(n[0], 0, "name of a new thread"); OK(pthread_getschedparam(me, &p, &q)); MC_EQ(q.sched_priority, 0, "priority of a new thread");
  OK(pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &v)); MC_EQ(v, PTHREAD_CANCEL_ENABLE, "cancel state of a new thread"); OK(pthread_setcancelstate(v, 0)); OK(pthread_setcanceltype(PTHREAD_CANCEL_DEFERRED, &v)); MC_EQ(v, PTHREAD_CANCEL_DEFERRED, "cancel type of a new thread");
  pthread_testcancel();
}
/* identity: own, stable, unlike any other live thread's, void after detaching */
static unsigned __stdcall f_id(void *p) { int i = (int)(intptr_t)p; who(); fresh(); fid[i] = pthread_self(); GH(i) = 1; mc_point(); MC_ASSERT(pthread_equal(fid[i], pthread_self()), "stable identity"); if (GH(!i) == 1) { MC_ASSERT(!pthread_equal(fid[0], fid[1]), "two live threads share an identifier"); } GH(i) = 2; OK(pthread_setname_np(fid[i], "x")); pthread_win32_thread_detach_np(); return 0; }
static void *l_id(void *p) { who(); fresh(); if (GH(0) == 1) { pthread_t x = fid[0]; if (GH(0) == 1) MC_ASSERT(!pthread_equal(x, pthread_self()), "two live threads share an identifier"); } return p; }
static void ids2(void) { fgo(2, f_id); fend(); EQ(pthread_kill(fid[0], 0), ESRCH); EQ(pthread_kill(fid[1], 0), ESRCH); fin(); }
static void idsl(void) { GH(1) = 2; fgo(1, f_id); go(1, l_id); mc_wait_all(); joinall(); EQ(pthread_kill(fid[0], 0), ESRCH); fend(); fin(); }
/* coming back after detaching: a new identity */
static unsigned __stdcall f_again(void *p) { pthread_t a, x; who(); a = pthread_self(); OK(pthread_setname_np(a, "old")); { struct sched_param q; q.sched_priority = 0; OK(pthread_setschedparam(a, SCHED_OTHER, &q)); } OK(pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, 0)); pthread_win32_thread_detach_np(); EQ(pthread_kill(a, 0), ESRCH); pthread_win32_thread_detach_np(); x = pthread_self(); MC_ASSERT(!pthread_equal(a, x), "identifier used again"); who(); fresh(); EQ(pthread_kill(a, 0), ESRCH); pthread_win32_thread_detach_np(); return 0; }
static void again(void) { fgo(1 + mc_choose(2), f_again); fend(); fin(); }
/* mutual exclusion with library threads, every mutex kind */
static void crit(void) { MC_EQ(GH(0)++, 0, "two threads inside"); mc_point(); GH(1)++; GH(0)--; }
static unsigned __stdcall f_mx(void *p) { OK(pthread_mutex_lock(&m)); crit(); OK(pthread_mutex_unlock(&m)); pthread_win32_thread_detach_np(); return 0; }
static void *l_mx(void *p) { OK(pthread_mutex_lock(&m)); crit(); OK(pthread_mutex_unlock(&m)); return p; }
static void mxk(int ty, int rb) { pthread_mutexattr_t a; OK(pthread_mutexattr_init(&a)); OK(pthread_mutexattr_settype(&a, ty)); OK(pthread_mutexattr_setrobust(&a, rb)); OK(pthread_mutex_init(&m, &a)); OK(pthread_mutexattr_destroy(&a)); }
static void mx(int ty, int rb) { mxk(ty, rb); fgo(1, f_mx); go(1, l_mx); mc_wait_all(); joinall(); MC_EQ(GH(1), 2, "both inside once"); OK(pthread_mutex_destroy(&m)); fend(); fin(); }
static void mx0(void) { mx(0, 0); } static void mx1(void) { mx(PTHREAD_MUTEX_RECURSIVE, 0); } static void mx2(void) { mx(PTHREAD_MUTEX_ERRORCHECK, 0); } static void mx3(void) { mx(0, 1); } static void mx4(void) { mx(PTHREAD_MUTEX_RECURSIVE, 1); }
/* ownership */
static unsigned __stdcall f_own(void *p) { OK(pthread_mutex_lock(&m)); OK(pthread_mutex_lock(&m)); GH(2) = 1; WaitForSingleObject(fh[2], INFINITE); OK(pthread_mutex_unlock(&m)); OK(pthread_mutex_unlock(&m)); EQ(pthread_mutex_unlock(&m), EPERM); pthread_win32_thread_detach_np(); return 0; }
static void own(void) { mxk(PTHREAD_MUTEX_RECURSIVE, 0); fh[2] = CreateEvent(0, 1, 0, 0); fgo(1, f_own); mc_quiesce(); MC_EQ(GH(2), 1, "held"); EQ(pthread_mutex_unlock(&m), EPERM); EQ(pthread_mutex_trylock(&m), EBUSY); SetEvent(fh[2]); fend(); OK(pthread_mutex_trylock(&m)); OK(pthread_mutex_unlock(&m)); OK(pthread_mutex_destroy(&m)); CloseHandle(fh[2]); fin(); }
/* condition variables, semaphores, read-write locks, barriers, once */
static int ready;
static unsigned __stdcall f_cw(void *p) { OK(pthread_mutex_lock(&m)); while (!ready) OK(pthread_cond_wait(&c, &m)); OK(pthread_mutex_unlock(&m)); GH(3)++; pthread_win32_thread_detach_np(); return 0; }
static void *l_cs(void *p) { OK(pthread_mutex_lock(&m)); ready = 1; OK(pthread_cond_signal(&c)); OK(pthread_mutex_unlock(&m)); return p; }
static void cond(void) { ready = 0; OK(pthread_mutex_init(&m, 0)); OK(pthread_cond_init(&c, 0)); fgo(1, f_cw); go(1, l_cs); mc_wait_all(); joinall(); MC_EQ(GH(3), 1, "woken"); OK(pthread_cond_destroy(&c)); OK(pthread_mutex_destroy(&m)); fend(); fin(); }
static unsigned __stdcall f_sw(void *p) { OK(sem_wait(&s)); GH(3)++; pthread_win32_thread_detach_np(); return 0; }
static void *l_sp(void *p) { OK(sem_post(&s)); return p; }
static void semx(void) { OK(sem_init(&s, 0, 0)); fgo(1, f_sw); go(1, l_sp); mc_wait_all(); joinall(); MC_EQ(GH(3), 1, "woken"); OK(sem_destroy(&s)); fend(); fin(); }
static unsigned __stdcall f_rw(void *p) { OK(pthread_rwlock_wrlock(&w)); MC_EQ(GH(0), 0, "exclusion"); GH(0) = 1; mc_point(); GH(0) = 0; OK(pthread_rwlock_unlock(&w)); pthread_win32_thread_detach_np(); return 0; }
static void *l_rw(void *p) { OK(pthread_rwlock_rdlock(&w)); MC_EQ(GH(0), 0, "exclusion"); mc_point(); MC_EQ(GH(0), 0, "exclusion"); OK(pthread_rwlock_unlock(&w)); return p; }
static void rwx(void) { OK(pthread_rwlock_init(&w, 0)); fgo(1, f_rw); go(1, l_rw); mc_wait_all(); joinall(); OK(pthread_rwlock_destroy(&w)); fend(); fin(); }
static unsigned __stdcall f_ba(void *p) { int r = pthread_barrier_wait(&b); MC_ASSERT(r == 0 || r == PTHREAD_BARRIER_SERIAL_THREAD, "barrier"); GH(4) += r != 0; pthread_win32_thread_detach_np(); return 0; }
static void *l_ba(void *p) { int r = pthread_barrier_wait(&b); MC_ASSERT(r == 0 || r == PTHREAD_BARRIER_SERIAL_THREAD, "barrier"); GH(4) += r != 0; return p; }
static void bar(void) { OK(pthread_barrier_init(&b, 0, 2)); fgo(1, f_ba); go(1, l_ba); mc_wait_all(); joinall(); MC_EQ(GH(4), 1, "serial thread"); OK(pthread_barrier_destroy(&b)); fend(); fin(); }
static void oi(void) { GH(5)++; mc_point(); GH(6) = 1; }
static unsigned __stdcall f_on(void *p) { OK(pthread_once(&o, oi)); MC_EQ(GH(6), 1, "routine finished"); pthread_win32_thread_detach_np(); return 0; }
static void *l_on(void *p) { OK(pthread_once(&o, oi)); MC_EQ(GH(6), 1, "routine finished"); return p; }
static void once(void) { fgo(1, f_on); go(1, l_on); mc_wait_all(); joinall(); MC_EQ(GH(5), 1, "routine runs"); fend(); fin(); }
static unsigned __stdcall f_sl(void *p) { OK(pthread_spin_lock(&sp)); crit(); OK(pthread_spin_unlock(&sp)); pthread_win32_thread_detach_np(); return 0; }
static void *l_sl(void *p) { OK(pthread_spin_lock(&sp)); crit(); OK(pthread_spin_unlock(&sp)); return p; }
static void spin(void) { OK(pthread_spin_init(&sp, 0)); fgo(1, f_sl); go(1, l_sl); mc_wait_all(); joinall(); MC_EQ(GH(1), 2, "both inside once"); OK(pthread_spin_destroy(&sp)); fend(); fin(); }
/* thread-specific data and its destructors; leave = how the thread goes: 0 detach, 1 exit, 2 cancelled */
static void dt(void *p) { GH(8 + (intptr_t)p)++; MC_EQ((intptr_t)pthread_getspecific(k), 0, "value cleared before the destructor"); }
static void leave(int how, void *v) { if (how == 1) pthread_exit(v); if (how == 2) { OK(pthread_cancel(pthread_self())); pthread_testcancel(); MC_FAIL("cancellation point passed"); } pthread_win32_thread_detach_np(); }
static int how_;
static unsigned __stdcall f_tsd(void *p) { int i = (int)(intptr_t)p; fidx[i] = mc_self(); MC_ASSERT(pthread_getspecific(k) == 0, "initial value"); OK(pthread_setspecific(k, VP(i + 1))); mc_point(); MC_EQ((intptr_t)pthread_getspecific(k), i + 1, "own value"); leave(how_, VP(33)); return 33; }
static void *l_tsd(void *p) { MC_ASSERT(pthread_getspecific(k) == 0, "initial value"); OK(pthread_setspecific(k, VP(4))); mc_point(); MC_EQ((intptr_t)pthread_getspecific(k), 4, "own value"); return p; }
static void tsd(int how, int nfor) { int i; how_ = how; OK(pthread_key_create(&k, dt)); fgo(nfor, f_tsd); if (nfor < 2) go(1, l_tsd); mc_wait_all(); for (i = 0; i < nfor; i++) { MC_EQ(GH(9 + i), 1, "destructor calls"); MC_EQ((int)mc_exitcode(fidx[i]), how == 2 ? (int)(intptr_t)PTHREAD_CANCELED : 33, "exit code"); } if (nfor < 2) { joinall(); MC_EQ(GH(12), 1, "destructor calls"); } OK(pthread_key_delete(k)); fend(); fin(); }
static void tsd0(void) { tsd(0, 1); } static void tsd1(void) { tsd(1, 1); } static void tsd2(void) { tsd(2, 1); } static void tsd22(void) { tsd(mc_choose(3), 2); }
/* a thread that exits or is cancelled runs its cleanup handlers (in reverse order), then destructors */
static void h(void *p) { if (UNWINDS) MC_EQ(GH(7), (intptr_t)p, "handler order"); GH(7)++; }
static void hd(void *p) { if (UNWINDS) MC_EQ(GH(7), 2, "destructors run after the handlers"); GH(13)++; }
static unsigned __stdcall f_cl(void *p) { OK(pthread_setspecific(k, VP(1))); pthread_cleanup_push(h, VP(1)); pthread_cleanup_push(h, VP(0)); leave(how_, VP(5)); pthread_cleanup_pop(0); pthread_cleanup_pop(0); return 0; }
static void clean(void) { how_ = 1 + mc_choose(2); OK(pthread_key_create(&k, hd)); fgo(1, f_cl); fend(); if (UNWINDS) MC_EQ(GH(7), 2, "handlers run"); MC_EQ(GH(13), 1, "destructor calls"); OK(pthread_key_delete(k)); fin(); }
/* cancelled by a library thread while blocked; the objects it was blocked on stay usable */
static unsigned __stdcall f_bl(void *p)
{
  int i = how_; fid[0] = pthread_self(); fidx[0] = mc_self(); GH(14) = 1;
  switch (i)
    {
    case 0: sem_wait(&s); break;
    case 1: OK(pthread_mutex_lock(&m)); pthread_cleanup_push((void (*)(void *))pthread_mutex_unlock, &m); pthread_cond_wait(&c, &m); pthread_cleanup_pop(1); break;
    case 2: { struct timespec t = {5, 0}; if (pthread_delay_np(&t) == 0) GH(15) = 1; break; }
    case 3: { void *v; pthread_join(th_[0], &v); break; }
    case 4: for (;;) { pthread_testcancel(); mc_point(); }
    case 5: { struct timespec t = ts_in(100000); if (sem_timedwait(&s, &t) == -1) { MC_EQ(errno, ETIMEDOUT, "errno"); GH(15) = 1; } break; }
    }
  if (GH(15)) { pthread_win32_thread_detach_np(); return 0; } /* the deadline came first */
  MC_FAIL("a cancelled thread went on");
  return 0;
}
static void *l_hold(void *p) { OK(sem_wait(&s)); return p; }
static void canc(int i)
{
  how_ = i; OK(sem_init(&s, 0, 0)); OK(pthread_mutex_init(&m, 0)); OK(pthread_cond_init(&c, 0)); if (i == 3) go(1, l_hold);
  fgo(1, f_bl); if (i == 4) { while (!GH(14)) mc_point(); } else mc_quiesce();
  { int r = pthread_cancel(fid[0]); MC_ASSERT(r == 0 || (r == ESRCH && GH(15)), "cancel"); } if (i == 3) mc_quiesce(); else mc_wait_all();
  MC_ASSERT(mc_exited(fidx[0]), "the cancelled thread has ended"); if (!GH(15)) MC_EQ((int)mc_exitcode(fidx[0]), (int)(intptr_t)PTHREAD_CANCELED, "exit code"); EQ(pthread_kill(fid[0], 0), ESRCH); EQ(pthread_cancel(fid[0]), ESRCH);
  if (i == 3) { OK(sem_post(&s)); mc_wait_all(); joinall(); }
  { int v; OK(sem_post(&s)); OK(sem_getvalue(&s, &v)); MC_EQ(v, 1, "semaphore"); OK(sem_wait(&s)); }
  OK(pthread_mutex_trylock(&m)); OK(pthread_mutex_unlock(&m)); OK(pthread_cond_signal(&c));
  OK(pthread_cond_destroy(&c)); OK(pthread_mutex_destroy(&m)); OK(sem_destroy(&s)); fend(); fin();
}
static void can0(void) { canc(0); } static void can1(void) { canc(1); } static void can2(void) { canc(2); } static void can3(void) { canc(3); } static void can4(void) { canc(4); } static void can5(void) { canc(5); }
/* any schedule between the request and the wait */
static unsigned __stdcall f_race(void *p) { fid[0] = pthread_self(); GH(14) = 1; if (sem_wait(&s) == 0) GH(15) = 1; pthread_win32_thread_detach_np(); return 0; }
static void *l_rc(void *p) { int r; while (!GH(14)) mc_point(); r = pthread_cancel(fid[0]); MC_ASSERT(r == 0 || r == ESRCH, "cancel"); return p; }
static void crace(void) { int v; OK(sem_init(&s, 0, 1)); fgo(1, f_race); go(1, l_rc); mc_wait_all(); joinall(); OK(sem_getvalue(&s, &v)); MC_EQ(v, GH(15) ? 0 : 1, "a post is neither lost nor taken by a cancelled thread"); EQ(pthread_kill(fid[0], 0), ESRCH); OK(sem_destroy(&s)); fend(); fin(); }
/* signalling, cancelling, querying and detaching a thread that is just leaving */
static unsigned __stdcall f_lv(void *p) { fid[0] = pthread_self(); GH(14) = 1; pthread_win32_thread_detach_np(); return 0; }
static void *l_lv(void *p) { int r, x = (int)(intptr_t)p; char n[8]; while (!GH(14)) mc_point(); switch (how_) { case 0: r = pthread_kill(fid[0], 0); break; case 1: r = pthread_setname_np(fid[0], "abc"); break; case 2: r = pthread_getname_np(fid[0], n, 8); break; default: { struct sched_param q; int pol; r = pthread_getschedparam(fid[0], &pol, &q); } } MC_ASSERT(r == 0 || r == ESRCH, "result"); (void)x; return p; }
static void lrace(void) { how_ = mc_choose(4); fgo(1, f_lv); go(1, l_lv); mc_wait_all(); joinall(); EQ(pthread_kill(fid[0], 0), ESRCH); fend(); fin(); }
static unsigned __stdcall f_use(void *p) { who(); fresh(); pthread_win32_thread_detach_np(); return 0; }
/* joining and detaching them is refused */
static unsigned __stdcall f_st(void *p) { fid[0] = pthread_self(); WaitForSingleObject(fh[2], INFINITE); pthread_win32_thread_detach_np(); return 0; }
static void refuse(void) { void *v; struct timespec t; fh[2] = CreateEvent(0, 1, 0, 0); fgo(1, f_st); mc_quiesce(); t = ts_in(5); EQ(pthread_join(fid[0], &v), EINVAL); EQ(pthread_detach(fid[0]), EINVAL); EQ(pthread_tryjoin_np(fid[0], &v), EINVAL); EQ(pthread_timedjoin_np(fid[0], &v, &t), EINVAL); OK(pthread_kill(fid[0], 0)); SetEvent(fh[2]); fend(); EQ(pthread_detach(fid[0]), ESRCH); CloseHandle(fh[2]); fin(); }
/* robust mutexes held when leaving */
static unsigned __stdcall f_rob(void *p) { OK(pthread_mutex_lock(&m)); leave(how_, 0); return 0; }
static void rob(void) { how_ = mc_choose(3); mxk(mc_choose(2) ? PTHREAD_MUTEX_RECURSIVE : 0, PTHREAD_MUTEX_ROBUST); fgo(1, f_rob); fend(); EQ(pthread_mutex_lock(&m), EOWNERDEAD); OK(pthread_mutex_consistent(&m)); OK(pthread_mutex_unlock(&m)); OK(pthread_mutex_lock(&m)); OK(pthread_mutex_unlock(&m)); OK(pthread_mutex_destroy(&m)); fin(); }
static void *l_rob(void *p) { int r = pthread_mutex_lock(&m); MC_ASSERT(r == 0 || r == EOWNERDEAD, "lock"); if (r) OK(pthread_mutex_consistent(&m)); OK(pthread_mutex_unlock(&m)); return p; }
static void robw(void) { how_ = 0; mxk(0, PTHREAD_MUTEX_ROBUST); fgo(1, f_rob); go(1, l_rob); mc_wait_all(); joinall(); fend(); { int r = pthread_mutex_lock(&m); MC_ASSERT(r == 0 || r == EOWNERDEAD, "lock"); if (r) OK(pthread_mutex_consistent(&m)); OK(pthread_mutex_unlock(&m)); } OK(pthread_mutex_destroy(&m)); fin(); }
/* nothing leaks into later threads: a foreign thread in every odd state leaves; library and foreign threads start in its storage */
static unsigned __stdcall f_odd(void *p) { pthread_t me = pthread_self(); struct sched_param q; q.sched_priority = 2; OK(pthread_setschedparam(me, SCHED_OTHER, &q)); OK(pthread_setname_np(me, "odd")); OK(pthread_setspecific(k, VP(1))); if (mc_choose(2)) OK(pthread_cancel(me)); OK(pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, 0)); OK(pthread_setcanceltype(PTHREAD_CANCEL_ASYNCHRONOUS, 0)); pthread_win32_thread_detach_np(); return 0; }
static unsigned __stdcall f_next(void *p) { who(); fresh(); MC_ASSERT(pthread_getspecific(k) == 0, "initial value"); pthread_win32_thread_detach_np(); return 0; }
static void *l_next(void *p) { who(); fresh(); MC_ASSERT(pthread_getspecific(k) == 0, "initial value"); return p; }
static void odd(void) { OK(pthread_key_create(&k, 0)); fgo(1, f_odd); fend(); if (mc_choose(2)) { fgo(1, f_next); fend(); } else { go(1, l_next); mc_wait_all(); joinall(); } OK(pthread_key_delete(k)); fin(); }
/* creating and joining library threads from a foreign one */
static void *l_child(void *p) { return VP((intptr_t)p + 1); }
static unsigned __stdcall f_mk(void *p) { pthread_t t; void *v; OK(pthread_create(&t, 0, l_child, VP(7))); OK(pthread_join(t, &v)); MC_EQ((intptr_t)v, 8, "join value"); pthread_win32_thread_detach_np(); return 0; }
static void mk1(void) { fgo(1, f_mk); fend(); fin(); } static void mk2(void) { fgo(2, f_mk); fend(); fin(); }
/* repeated use does not grow */
static void grow(void) { int i, h0 = 0, b0 = 0; OK(pthread_key_create(&k, 0)); pthread_self(); for (i = 0; i < 3; i++) { if (mc_choose(2)) fgo(1, f_use); else fgo(1, f_again); fend(); if (i == 0) { h0 = mc_handles(); b0 = mc_blocks(); } else { MC_EQ(mc_handles(), h0, "handles grow"); MC_EQ(mc_blocks(), b0, "memory grows"); } } OK(pthread_key_delete(k)); fin(); }
/* several at once: records are reused without mixing threads up */
static unsigned __stdcall f_cyc(void *p) { int i; for (i = 0; i < 2; i++) { who(); pthread_win32_thread_detach_np(); } return 0; }
static void cyc(void) { fgo(2, f_cyc); fend(); fin(); }
/* leaving through pthread_exit without ever having used the library, and leaving without detaching explicitly */
static unsigned __stdcall f_ex(void *p) { fidx[0] = mc_self(); pthread_exit(VP(77)); return 0; }
static void exit0(void) { fgo(1, f_ex); fend(); MC_EQ(mc_exitcode(fidx[0]), 77, "exit code"); fin(); }
/* announcing a thread to the library is optional, may be repeated and creates nothing; system identity and features */
static unsigned __stdcall f_att(void *p)
{
  int b0 = mc_blocks(), h0 = mc_handles(), n = mc_choose(3), q = (int)(intptr_t)p; HANDLE h;
  while (n--) EQ(pthread_win32_thread_attach_np(), TRUE);
  if (q == 0) { MC_EQ(mc_blocks(), b0, "announcing a thread allocates nothing"); MC_EQ(mc_handles(), h0, "announcing a thread opens nothing"); }
  if (mc_choose(2)) { who(); fresh(); MC_EQ(pthread_getw32threadid_np(pthread_self()), GetCurrentThreadId(), "system thread number"); h = pthread_getw32threadhandle_np(pthread_self()); MC_EQ(GetThreadId(h), GetCurrentThreadId(), "system handle"); EQ(pthread_win32_thread_attach_np(), TRUE); who(); }
  n = mc_choose(3); while (n--) EQ(pthread_win32_thread_detach_np(), TRUE);
  EQ(pthread_win32_thread_attach_np(), TRUE); who(); EQ(pthread_win32_thread_detach_np(), TRUE); return 0;
}
static void *l_att(void *p) { pthread_t me = pthread_self(); EQ(pthread_win32_thread_attach_np(), TRUE); MC_ASSERT(pthread_equal(me, pthread_self()), "stable identity"); MC_EQ(pthread_getw32threadid_np(me), GetCurrentThreadId(), "system thread number"); MC_EQ(GetThreadId(pthread_getw32threadhandle_np(me)), GetCurrentThreadId(), "system handle"); return p; }
static void attach(void)
{
  int f0 = 0, i; for (i = 0; i < 8; i++) if (pthread_win32_test_features_np(1 << i)) f0 |= 1 << i;
  EQ(pthread_win32_test_features_np(0), TRUE); for (i = 0; i < 256; i++) MC_EQ(!!pthread_win32_test_features_np(i), (i & f0) == i, "features"); EQ(pthread_win32_test_features_np(PTW32_ALERTABLE_ASYNC_CANCEL), FALSE);
  fgo(1, f_att); if (mc_choose(2)) { mc_wait_all(); go(1, l_att); joinall(); } fend(); fin();
}
static void attach2(void) { fgo(1, f_use); go(1, l_att); mc_wait_all(); joinall(); fend(); fin(); }
mc_scen_t mc_scenarios[] = {
  {"ids2", ids2, ""}, {"ids_lib", idsl, ""}, {"again", again, "q=2 t=4 w=9"}, {"mutex", mx0, ""}, {"mutex_rec", mx1, ""}, {"mutex_err", mx2, ""}, {"mutex_rob", mx3, ""}, {"mutex_rr", mx4, ""}, {"owner", own, ""},
  {"cond", cond, ""}, {"sem", semx, ""}, {"rwlock", rwx, ""}, {"barrier", bar, ""}, {"once", once, ""}, {"spin", spin, ""},
  {"tsd_detach", tsd0, ""}, {"tsd_exit", tsd1, ""}, {"tsd_cancel", tsd2, ""}, {"tsd_two", tsd22, ""}, {"cleanup", clean, ""},
  {"cancel_sem", can0, ""}, {"cancel_cond", can1, ""}, {"cancel_delay", can2, ""}, {"cancel_join", can3, ""}, {"cancel_test", can4, ""}, {"cancel_timed", can5, ""}, {"cancel_race", crace, ""}, {"leave_race", lrace, ""},
  {"refuse", refuse, ""}, {"robust", rob, ""}, {"robust_wait", robw, ""}, {"odd", odd, ""}, {"make1", mk1, ""}, {"make2", mk2, "q=2 t=4 w=9"}, {"grow", grow, ""}, {"cycle", cyc, "w=8"}, {"exit0", exit0, ""}, {"attach", attach, ""}, {"attach2", attach2, ""},
  {0}
};
