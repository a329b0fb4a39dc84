/* Harness interface: what scenarios may call. */
#ifndef MC_H
#define MC_H
#ifdef __cplusplus
extern "C" {
#endif
typedef unsigned long long mcu64;
void mc_fail_(const char *msg, mcu64 a, mcu64 b) __attribute__((noreturn));
void mc_point(void);              /* explicit scheduling point */
int mc_choose(int n);             /* nondeterministic choice 0..n-1, explored exhaustively */
int mc_self(void);                /* simulated Win32 thread number */
mcu64 mc_now(void);               /* virtual time, 100 ns units since 1601 */
void mc_set_now(mcu64 t);
void mc_step_clock(long long d);  /* step the system clock; waits under way are relative and not affected */
void mc_faults(int n, int mask);  /* allow up to n injected failures of the kinds in mask */
int mc_faults_left(void);
void mc_outcome(unsigned x);      /* folded into the state: distinguishes executions */
void mc_cover(unsigned x);        /* 0..4095: counts distinct observations without distinguishing states */
void mc_cpus(mcu64 proc, mcu64 sys);
void mc_wait_all(void);           /* block until every other thread has exited */
void mc_quiesce(void);            /* block until no other thread can run; pending timeouts may or may not have fired */
void mc_settle(void);             /* the same, with every pending timeout fired */
int mc_blocks(void); int mc_handles(void); int mc_tls_used(void);
int mc_exited(int i); int mc_nfib(void); int mc_live_threads(void); int mc_prio(int i); mcu64 mc_affinity(int i); mcu64 mc_proc_affinity(void); unsigned mc_exitcode(int i);
mcu64 *mc_ghost(void);
void mc_proc_attach(void); void mc_proc_detach(void);
enum { F_MALLOC = 1, F_EVENT = 2, F_SEM = 4, F_THREAD = 8, F_TLS = 16, F_PRIO = 32, F_AFF = 64, F_DUP = 128, F_TLSSET = 256 };
#define MC_STR2(x) #x
#define MC_STR(x) MC_STR2(x)
#define MC_ASSERT(c, msg) do { if (!(c)) mc_fail_(msg " [" #c "]", 0, 0); } while (0)
#define MC_EQ(got, want, msg) do { mcu64 g_ = (mcu64)(long long)(got), w_ = (mcu64)(long long)(want); if (g_ != w_) mc_fail_(msg ": got %lld, expected %lld [" #got "]", g_, w_); } while (0)
#define MC_FAIL(msg) mc_fail_(msg, 0, 0)
void mc_on_terminate(void (*fn)(void));  /* std::terminate calls fn and ends the thread (default: a violation); call in every execution */
typedef struct { const char *name; void (*fn)(void); const char *opts; } mc_scen_t;
extern mc_scen_t mc_scenarios[];
#ifdef __cplusplus
}
#endif
#endif
