/* C15: thread-specific data is private, destructors run exactly as promised. */
#include "common.h"
#define V(k, t) GH((k) * 4 + (t))          /* what thread t last stored under key k */
#define NC(k, t) ((GH(16 + (k)) >> ((t) * 8)) & 255)   /* destructor calls for key k on thread t */
#define gone(k) GH(20 + (k))               /* 0 exists (or not created), 1 deletion under way, 2 deleted */
#define ending(t) GH(24 + (t))             /* the thread has left its start routine */
#define delseen(t) GH(28 + (t))            /* bit k: key k was already deleted when the thread began to end */
#define NK 4
static pthread_key_t key[NK]; static int has[NK], nod[NK]; static const char *beh[NK], *prog[4]; static pthread_t th[4], me[4]; static HANDLE ev, fh[4]; static sem_t never; static mcu64 vseq;
static long long mkv(int k, int t, int n) { return 1 + k + 4 * t + 16 * (n + 1); }
static void d0(void *), d1(void *), d2(void *), d3(void *); static void (*const dt[NK])(void *) = {d0, d1, d2, d3};
static void create(int k, int nodtor) { OK(pthread_key_create(&key[k], nodtor ? NULL : dt[k])); has[k] = 1; nod[k] = nodtor; gone(k) = 0; for (int t = 0; t < 4; t++) { V(k, t) = 0; delseen(t) &= ~(1LL << k); } }
static void del(int k) { pthread_key_t o = key[k]; has[k] = 0; gone(k) = 1; OK(pthread_key_delete(o)); gone(k) = 2; }
static void set(int k, int t, long long v) { V(k, t) = v; OK(pthread_setspecific(key[k], VP(v))); MC_EQ((intptr_t)pthread_getspecific(key[k]), v, "value just stored"); }
static void getall(int t) { for (int k = 0; k < NK; k++) if (has[k]) MC_EQ((intptr_t)pthread_getspecific(key[k]), V(k, t), "value read"); }
static void dtor(int k, void *a)
{
  long long v = (intptr_t)a; int t = (int)((v - 1 - k) / 4 % 4), n; const char *b;
  MC_EQ((v - 1) % 4, k, "destructor of another key called"); MC_ASSERT(ending(t), "destructor called before the thread's end");
  MC_EQ(V(k, t), v, "destructor argument is not the stored value"); MC_ASSERT(!(delseen(t) >> k & 1), "destructor of a deleted key called");
  V(k, t) = 0; GH(16 + k) += 1LL << (t * 8); n = (int)NC(k, t); MC_ASSERT(n <= PTHREAD_DESTRUCTOR_ITERATIONS, "destructor called more often than PTHREAD_DESTRUCTOR_ITERATIONS");
  if (has[k] && !gone(k) && !strchr(beh[k], '!')) MC_EQ((intptr_t)pthread_getspecific(key[k]), 0, "value not reset before the destructor");
  for (b = beh[k]; *b; b++)
    switch (*b)
      {
      case 'r': set(k, t, mkv(k, t, n)); break;
      case '1': case '2': case '3': if (n <= *b - '0') set(k, t, mkv(k, t, n)); break;
      case 's': { int j = *++b - '0'; if (has[j]) set(j, t, mkv(j, t, 7)); } break;
      case 'n': { int j = *++b - '0'; if (has[j]) set(j, t, 0); } break;
      case 'D': { int j = *++b - '0'; if (has[j]) del(j); } break;
      case 'C': { int j = *++b - '0'; if (!has[j]) create(j, 0); } break;
      case 'p': mc_point(); break;
      case 'g': getall(t); break;
      case 't': pthread_testcancel(); break;
      case 'S': MC_ASSERT(pthread_equal(pthread_self(), me[t]), "pthread_self in a destructor"); break;
      }
}
static void d0(void *a) { dtor(0, a); } static void d1(void *a) { dtor(1, a); } static void d2(void *a) { dtor(2, a); } static void d3(void *a) { dtor(3, a); }
static void leave(int t) { int m = 0; for (int k = 0; k < NK; k++) if (gone(k) == 2) m |= 1 << k; delseen(t) = m; ending(t) = 1; }
static void hnd(void *a) { leave((int)(intptr_t)a); }
static void run(int t, const char *p)
{
  for (; *p; p++)
    switch (*p)
      {
      case 'c': create(*++p - '0', 0); break; case 'C': create(*++p - '0', 1); break; case 'D': del(*++p - '0'); break;
      case 's': { int k = *++p - '0'; set(k, t, mkv(k, t, 0)); } break; case 'S': { int k = *++p - '0'; set(k, t, mkv(k, t, 1)); } break; case 'n': set(*++p - '0', t, 0); break;
      case 'g': getall(t); break; case 'G': { int k = *++p - '0'; MC_EQ((intptr_t)pthread_getspecific(key[k]), V(k, t), "value read"); } break; case 'p': mc_point(); break; case 'E': SetEvent(ev); break; case 'w': WaitForSingleObject(ev, INFINITE); break;
      case 'x': leave(t); pthread_exit(VP(t)); case 'W': pthread_cleanup_push(hnd, VP(t)); sem_wait(&never); pthread_cleanup_pop(0); MC_FAIL("not reached");
      case 'q': mc_quiesce(); break;
      }
}
static void *body(void *a) { int t = (int)(intptr_t)a; me[t] = pthread_self(); run(t, prog[t]); leave(t); return a; }
static unsigned __stdcall fbody(void *a) { int t = (int)(intptr_t)a; me[t] = pthread_self(); run(t, prog[t] + 1); leave(t); if (strchr(prog[t], 'X')) pthread_exit(VP(t)); pthread_win32_thread_detach_np(); return 0; }
static void start(int t) { unsigned id; ending(t) = 0; delseen(t) = 0; for (int k = 0; k < NK; k++) { V(k, t) = 0; GH(16 + k) &= ~(255LL << (t * 8)); } if (*prog[t] == 'F') fh[t] = (HANDLE)_beginthreadex(NULL, 0, fbody, VP(t), 0, &id); else OK(pthread_create(&th[t], NULL, body, VP(t))); }
/* a value may be left over only after PTHREAD_DESTRUCTOR_ITERATIONS rounds, each of which called at least one destructor */
static void check(int t) { long long calls = 0; for (int k = 0; k < NK; k++) calls += NC(k, t); for (int k = 0; k < NK; k++) if (has[k] && !nod[k]) MC_ASSERT(V(k, t) == 0 || calls >= PTHREAD_DESTRUCTOR_ITERATIONS, "a value was left without its destructor being called"); }
static void wait(int t) { void *v; if (*prog[t] == 'F') { WaitForSingleObject(fh[t], INFINITE); CloseHandle(fh[t]); } else { OK(pthread_join(th[t], &v)); if (strchr(prog[t], 'W')) MC_ASSERT(v == PTHREAD_CANCELED, "cancelled marker"); else MC_EQ((intptr_t)v, t, "join value"); } check(t); }
/* ks: one char per key: d with destructor, n without, - not created; bs: behaviours separated by ','; pre: main's program before the threads start, mp while they run: K<t> cancels, j<t> joins, + starts the next thread */
static void scen(const char *ks, const char *b0, const char *b1, const char *b2, const char *pre, const char *a, const char *b, const char *mp)
{
  int n = *b ? 2 : 1, done_[4] = {0}; ev = CreateEvent(0, 1, 0, 0); sem_init(&never, 0, 0); beh[0] = b0; beh[1] = b1; beh[2] = b2; beh[3] = ""; prog[1] = a; prog[2] = b;
  for (int k = 0; ks[k]; k++) if (ks[k] != '-') create(k, ks[k] == 'n');
  run(0, pre); for (int t = 1; t <= n; t++) start(t);
  for (; *mp; mp++)
    switch (*mp) { case 'K': OK(pthread_cancel(th[*++mp - '0'])); break; case 'j': { int t = *++mp - '0'; wait(t); done_[t] = 1; } break; case '+': { int t = *++mp - '0'; start(t); done_[t] = 0; } break; default: { char one[3] = {mp[0], 0, 0}; if (strchr("cCDsSnG", *mp)) one[1] = *++mp; run(0, one); } }
  for (int t = 1; t <= n; t++) if (!done_[t]) wait(t);
  getall(0); mc_wait_all();
  for (int k = 0; k < NK; k++) { if (has[k]) del(k); for (int t = 0; t < 4; t++) MC_ASSERT(NC(k, t) <= PTHREAD_DESTRUCTOR_ITERATIONS, ""); MC_EQ(NC(k, 0), 0, "destructor ran on a live thread"); }
  OK(sem_destroy(&never)); CloseHandle(ev); MC_EQ(mc_tls_used(), 2, "TLS slots leaked"); done(); MC_EQ(mc_blocks(), 0, "memory leaked"); MC_EQ(mc_handles(), 0, "handles leaked"); MC_EQ(mc_tls_used(), 0, "TLS slots leaked");
}
#define S(nm, ks, b0, b1, b2, pre, a, b, mp) static void nm(void) { scen(ks, b0, b1, b2, pre, a, b, mp); }
/* one thread, destructors that store again */
S(r0, "dd", "r", "g", "", "s0", "gs0s1g", "", "g") S(r1, "ddd", "1s1", "2s2", "gp", "", "s0", "", "") S(r2, "dd", "s1", "s0", "", "s0s1", "s1", "", "g") S(r3, "dd", "3g", "r", "", "", "s0s1n0S0g", "", "") S(r4, "dnd", "s1s2", "", "n2g", "", "s0g", "", "") S(r5, "d", "tStg", "", "", "", "s0x", "", "") S(r6, "dd", "n1", "n0", "", "", "s0s1", "", "") S(r7, "d", "t", "", "", "", "s0W", "", "K1")
/* destructors that delete and create keys */
S(k0, "d", "D0!", "", "", "s0", "s0", "", "") S(k1, "dd", "D1", "D0", "", "", "s0s1", "", "") S(k2, "ddd", "D1", "!D2", "D0", "s1", "s2s1s0", "", "") S(k3, "d", "D0!C3s3", "", "", "", "s0", "", "") S(k4, "dd", "C3s3", "r", "", "", "s0s1x", "", "") S(k5, "dd", "!D0C0", "", "", "s0", "s0s1", "", "") S(k6, "dd", "D1C1", "!", "", "s1", "s1s0", "", "s0")
/* deletion by another thread while the thread ends */
S(x0, "d", "!", "", "", "", "s0E", "", "wD0") S(x1, "dd", "!", "!", "", "s0", "s1s0E", "", "wD0gD1") S(x2, "dd", "p", "!p", "", "", "s0s1E", "", "wD1c1s1g") S(x3, "dn", "1", "", "", "", "s0s1E", "", "wD1C1g") S(x4, "ddd", "", "!", "", "", "s0s1s2E", "", "wD1") S(x5, "dd", "!s1", "", "", "", "s0s1Ex", "", "wD0") S(x6, "d", "!", "", "", "", "s0EW", "", "wK1D0") S(x7, "d", "!", "", "", "", "s0E", "", "wD0c0j1+1")
/* two threads using, ending and deleting */
S(t0, "d", "", "", "", "", "s0g", "s0g", "g") S(t1, "dd", "", "", "", "", "s0s1g", "s1s0g", "") S(t2, "d", "1", "", "", "s0", "s0n0S0g", "s0", "g") S(t3, "d", "!", "", "", "s0", "s0E", "wD0", "") S(t4, "dd", "s1", "s0", "", "", "s0", "s1", "") S(t5, "d", "", "", "", "", "s0E", "s0w", "j1j2D0") S(t6, "dd", "!", "", "", "s0s1", "s0E", "s1wD0", "") S(t7, "--", "", "", "", "", "c0s0g", "c1s1g", "") S(t8, "--", "", "", "", "", "c0s0G0D0", "C1s1G1D1", "c2s2G2D2") S(t9, "dn", "", "", "", "", "s0s1g", "s1s0gx", "S1S0g") S(t10, "d", "", "", "", "", "s0pn0g", "s0W", "K2")
/* foreign threads */
S(f0, "dd", "1g", "s0", "", "s0", "Fs0s1g", "", "g") S(f1, "d", "!", "", "", "", "Fs0E", "", "wD0") S(f2, "dd", "", "S", "", "", "Fs0s1X", "s0s1", "") S(f3, "dd", "r", "", "", "", "Fs1s0g", "Fs0g", "")
/* successive threads start with null values */
S(n0, "dd", "r", "", "", "", "gs0s1g", "", "j1+1j1+1") S(n1, "nd", "", "r", "", "s0", "gs0s1g", "Fgs0s1", "j2j1+1+2") S(n2, "d", "!", "", "", "s0", "s0E", "", "wj1D0c0g+1g")
/* all histories over two keys: main and one thread at a time */
static HANDLE go_; static int op_, opk_;
static void *hist(void *a)
{
  int t = 1;
  for (;;) { WaitForSingleObject(go_, INFINITE); getall(t); if (op_ == 0) set(opk_, t, mkv(opk_, t, 2)); else if (op_ == 1) set(opk_, t, 0); else if (op_ == 2) break; else if (op_ == 3) { leave(t); pthread_exit(VP(1)); } else if (op_ == 4) { pthread_cleanup_push(hnd, VP(1)); sem_wait(&never); pthread_cleanup_pop(0); } else del(opk_); getall(t); }
  leave(t); return VP(1);
}
static void histories(int depth, const char *b0, const char *b1)
{
  void *v; ev = CreateEvent(0, 1, 0, 0); go_ = CreateEvent(0, 0, 0, 0); sem_init(&never, 0, 0); beh[0] = b0; beh[1] = b1; beh[2] = beh[3] = ""; prog[1] = ""; int running = 0;
  for (int d = 0; d <= depth; d++)
    {
      int k = 0, op = d == depth ? 6 : mc_choose(10); if (op < 4 || op == 9) k = mc_choose(2);
      switch (op)
        {
        case 0: if (has[k]) { if (!mc_choose(2)) del(k); } else create(k, mc_choose(2)); break;
        case 1: if (has[k]) set(k, 0, mkv(k, 0, d)); break;
        case 2: case 3: case 9: if (!running) { ending(1) = 0; delseen(1) = 0; for (int j = 0; j < NK; j++) { V(j, 1) = 0; GH(16 + j) &= ~0xff00LL; } OK(pthread_create(&th[1], NULL, hist, NULL)); running = 1; } if (has[k]) { op_ = op == 9 ? 5 : op - 2; opk_ = k; SetEvent(go_); mc_quiesce(); } break;
        case 4: if (has[0]) { set(0, 0, 0); } break;
        case 5: if (has[1]) { set(1, 0, 0); } break;
        default: if (running) { op_ = op - 4; SetEvent(go_); if (op_ == 4) { mc_quiesce(); OK(pthread_cancel(th[1])); } OK(pthread_join(th[1], &v)); if (op_ == 4) MC_ASSERT(v == PTHREAD_CANCELED, "marker"); else MC_EQ((intptr_t)v, 1, "value"); check(1); running = 0; } break;
        }
      getall(0);
    }
  for (int k = 0; k < NK; k++) if (has[k]) del(k);
  CloseHandle(go_); CloseHandle(ev); OK(sem_destroy(&never)); MC_EQ(mc_tls_used(), 2, "TLS slots leaked"); done(); MC_EQ(mc_blocks(), 0, "memory leaked"); MC_EQ(mc_handles(), 0, "handles leaked");
}
#define H(n, d, a, b) static void n(void) { histories(d, a, b); }
H(h4, 4, "", "") H(h5, 5, "", "") H(h6, 6, "", "") H(h4a, 4, "1", "s0") H(h4b, 4, "D1C1s1", "r") H(h5a, 5, "s1", "s0") H(h5b, 5, "!D0", "1D0")
/* many keys: allocation, distinctness, exhaustion and recovery */
static void many(void)
{
  pthread_key_t k[80]; int n = 0, r; while ((r = pthread_key_create(&k[n], NULL)) == 0) { MC_ASSERT(pthread_getspecific(k[n]) == NULL, "a new key is not null"); OK(pthread_setspecific(k[n], VP(n + 1))); n++; MC_ASSERT(n < 79, ""); }
  MC_EQ(r, EAGAIN, "exhaustion"); for (int i = 0; i < n; i++) MC_EQ((intptr_t)pthread_getspecific(k[i]), i + 1, "value read");
  OK(pthread_key_delete(k[n / 2])); OK(pthread_key_create(&k[n / 2], NULL)); MC_ASSERT(pthread_getspecific(k[n / 2]) == NULL, "a new key is not null"); EQ(pthread_key_create(&k[n], NULL), EAGAIN);
  for (int i = 0; i < n; i++) OK(pthread_key_delete(k[i])); done(); MC_EQ(mc_blocks(), 0, "memory leaked"); MC_EQ(mc_tls_used(), 0, "TLS slots leaked");
}
#define E(x) {#x, x, ""}
#define B(x, q) {#x, x, q}
mc_scen_t mc_scenarios[] = {E(r0), E(r1), E(r2), E(r3), E(r4), E(r5), E(r6), E(r7), E(k0), E(k1), E(k2), E(k3), E(k4), E(k5), E(k6), E(x0), E(x1), E(x2), E(x3), E(x4), E(x5), E(x6), E(x7), E(t0), E(t1), E(t2), E(t3), E(t4), E(t5), E(t6), E(t7), E(t8), E(t9), E(t10), E(f0), E(f1), E(f2), E(f3), E(n0), B(n1, "q=2 t=u"), E(n2), B(h4, "q=0 t=0"), B(h5, "q=0 t=1"), B(h6, "q=- t=0"), B(h4a, "q=0 t=0"), B(h4b, "q=0 t=0"), B(h5a, "q=0 t=1"), B(h5b, "q=0 t=1"), E(many), {0, 0, 0}};
