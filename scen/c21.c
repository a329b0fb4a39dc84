/* C21: attribute objects against a reference record.  One thread applies setters (valid and invalid values), destroy
   and init in every order up to a bounded length; after each step every getter of every object is compared with the
   record. */
#include "common.h"
#define N(a) ((int)(sizeof (a) / sizeof *(a)))
static const int V2[] = {0, 1, 2, -1, 7};
/* ---- pthread_attr_t ---- */
typedef struct { int live, det, inh, pri, scope; size_t ss; void *sa; int saok; unsigned long long cpu; int nm; } R;
static pthread_attr_t A[2]; static R rec[2];
static const int PRI[] = {0, -15, -2, 2, 15, -16, 16, 2147483647};
static const size_t SS[] = {0, 1, 65536, (size_t)1 << 20};
static const char *const NM[] = {"", "a", "wombat", "0123456789abcde"};
static unsigned long long cs(cpu_set_t *s) { int i; unsigned long long r = 0; for (i = 0; i < 64; i++) if (CPU_ISSET(i, s)) r |= 1ULL << i; return r; }
static void mk(unsigned long long v, cpu_set_t *s) { int i; CPU_ZERO(s); for (i = 0; i < 64; i++) if (v >> i & 1) CPU_SET(i, s); }
static const unsigned long long CP[] = {0, 1, 5, ~0ULL};
static void fresh(int o) { R r = {1, PTHREAD_CREATE_JOINABLE, PTHREAD_EXPLICIT_SCHED, 0, PTHREAD_SCOPE_SYSTEM, 0, 0, 0, 0, 0}; rec[o] = r; }
static void getall(int o)
{
  R *r = &rec[o]; int v, e; size_t z; struct sched_param sp; cpu_set_t c; char b[20]; void *sa; memset(&sp, 0x5a, sizeof sp);
  pthread_attr_t *a = &A[o];
  if (!r->live)
    {
      EQ(pthread_attr_getdetachstate(a, &v), EINVAL); EQ(pthread_attr_getinheritsched(a, &v), EINVAL); EQ(pthread_attr_getschedparam(a, &sp), EINVAL);
      EQ(pthread_attr_getschedpolicy(a, &v), EINVAL); EQ(pthread_attr_getstacksize(a, &z), EINVAL); EQ(pthread_attr_getaffinity_np(a, sizeof c, &c), EINVAL);
      EQ(pthread_attr_getscope(a, &v), EINVAL); EQ(pthread_attr_getname_np(a, b, sizeof b), EINVAL);
      e = pthread_attr_getstackaddr(a, &sa); MC_ASSERT(e == EINVAL || e == ENOSYS, "stackaddr of a destroyed object");
      EQ(pthread_attr_destroy(a), EINVAL);
      return;
    }
  OK(pthread_attr_getdetachstate(a, &v)); MC_EQ(v, r->det, "detachstate");
  OK(pthread_attr_getinheritsched(a, &v)); MC_EQ(v, r->inh, "inheritsched");
  OK(pthread_attr_getschedparam(a, &sp)); MC_EQ(sp.sched_priority, r->pri, "priority");
  OK(pthread_attr_getschedpolicy(a, &v)); MC_EQ(v, SCHED_OTHER, "policy");
  OK(pthread_attr_getscope(a, &v)); MC_EQ(v, r->scope, "scope");
  OK(pthread_attr_getstacksize(a, &z)); MC_EQ(z, r->ss, "stacksize");
  OK(pthread_attr_getaffinity_np(a, sizeof c, &c)); MC_EQ(cs(&c), r->cpu, "affinity");
  e = pthread_attr_getstackaddr(a, &sa); if (e == 0) MC_EQ((intptr_t)sa, (intptr_t)r->sa, "stackaddr"); else MC_EQ(e, ENOSYS, "stackaddr");
  memset(b, '#', sizeof b); OK(pthread_attr_getname_np(a, b, sizeof b)); MC_ASSERT(memchr(b, 0, sizeof b) && !strcmp(b, NM[r->nm]), "name");
  b[0] = b[1] = b[2] = b[3] = b[4] = '#'; OK(pthread_attr_getname_np(a, b, 4)); MC_ASSERT(!strncmp(b, NM[r->nm], 3) && strlen(b) == (strlen(NM[r->nm]) < 3 ? strlen(NM[r->nm]) : 3) && b[4] == '#', "shortened name");
}
static void setter(int o, int small)
{
  R *r = &rec[o]; pthread_attr_t *a = &A[o]; int v, e; struct sched_param sp; cpu_set_t c;
  memset(&sp, 0, sizeof sp);
  switch (mc_choose(10))
    {
    case 0: v = V2[mc_choose(N(V2))]; e = pthread_attr_setdetachstate(a, v); MC_EQ(e, r->live && (v == 0 || v == 1) ? 0 : EINVAL, "setdetachstate"); if (!e) r->det = v; break;
    case 1: v = V2[mc_choose(N(V2))]; e = pthread_attr_setinheritsched(a, v); MC_EQ(e, r->live && (v == 0 || v == 1) ? 0 : EINVAL, "setinheritsched"); if (!e) r->inh = v; break;
    case 2: v = PRI[mc_choose(N(PRI))]; sp.sched_priority = v; e = pthread_attr_setschedparam(a, &sp); MC_EQ(e, r->live && v >= sched_get_priority_min(SCHED_OTHER) && v <= sched_get_priority_max(SCHED_OTHER) ? 0 : EINVAL, "setschedparam"); if (!e) r->pri = v; break;
    case 3: v = V2[mc_choose(N(V2))]; e = pthread_attr_setschedpolicy(a, v); if (r->live) MC_EQ(e, v == SCHED_OTHER ? 0 : ENOTSUP, "setschedpolicy"); else MC_EQ(e, EINVAL, "setschedpolicy"); break;
    case 4: v = V2[mc_choose(N(V2))]; e = pthread_attr_setscope(a, v); if (!r->live) MC_EQ(e, EINVAL, "setscope"); else if (v == PTHREAD_SCOPE_SYSTEM) MC_EQ(e, 0, "setscope"); else if (v == PTHREAD_SCOPE_PROCESS) MC_EQ(e, ENOTSUP, "setscope"); else MC_EQ(e, EINVAL, "setscope"); break;
    case 5: { size_t z = SS[mc_choose(N(SS))]; e = pthread_attr_setstacksize(a, z); MC_EQ(e, r->live && z >= PTHREAD_STACK_MIN ? 0 : EINVAL, "setstacksize"); if (!e) r->ss = z; break; }
    case 6: { unsigned long long m = CP[mc_choose(N(CP))]; mk(m, &c); e = pthread_attr_setaffinity_np(a, sizeof c, &c); MC_EQ(e, r->live ? 0 : EINVAL, "setaffinity"); if (!e) r->cpu = m; break; }
    case 7: v = small ? mc_choose(2) * 2 : mc_choose(N(NM)); e = pthread_attr_setname_np(a, NM[v]); MC_EQ(e, r->live ? 0 : EINVAL, "setname"); if (!e) r->nm = v; break;
    case 8: { void *p = mc_choose(2) ? (void *)&rec : 0; e = pthread_attr_setstackaddr(a, p); if (e == 0 && r->live) r->sa = p; else MC_ASSERT(e == ENOSYS || (e == EINVAL && !r->live), "setstackaddr"); break; }
    case 9: if (!r->live) { OK(pthread_attr_init(a)); fresh(o); } else { OK(pthread_attr_destroy(a)); r->live = 0; } break;
    }
}
static void finish(int o) { if (rec[o].live) OK(pthread_attr_destroy(&A[o])); }
static void aw(int n, int small)
{ OK(pthread_attr_init(&A[0])); fresh(0); getall(0); while (n--) { setter(0, small); getall(0); } finish(0); done(); MC_EQ(mc_blocks(), 0, "memory leaked"); }
static void attr3(void) { aw(3, 0); }
static void attr4(void) { aw(4, 0); }
static void attr6(void) { aw(6, 1); }
static void attr8(void) { aw(8, 1); }
/* two objects: what is done to one never shows in the other */
static void attr_two(void)
{ int i; for (i = 0; i < 2; i++) { OK(pthread_attr_init(&A[i])); fresh(i); } for (i = 0; i < 3; i++) { setter(mc_choose(2), 1); getall(0); getall(1); } finish(0); finish(1); done(); MC_EQ(mc_blocks(), 0, "memory leaked"); }
/* null and absent arguments */
static void attr_null(void)
{
  int v; size_t z; struct sched_param sp = {0}; cpu_set_t c; char b[8]; pthread_attr_t n = 0, *w = mc_choose(2) ? &n : 0; CPU_ZERO(&c);
  EQ(pthread_attr_init(0), EINVAL); EQ(pthread_attr_destroy(w), EINVAL);
  EQ(pthread_attr_setdetachstate(w, 0), EINVAL); EQ(pthread_attr_setinheritsched(w, 0), EINVAL); EQ(pthread_attr_setschedparam(w, &sp), EINVAL); EQ(pthread_attr_setschedpolicy(w, 0), EINVAL);
  EQ(pthread_attr_setstacksize(w, 65536), EINVAL); EQ(pthread_attr_setaffinity_np(w, sizeof c, &c), EINVAL); EQ(pthread_attr_setscope(w, PTHREAD_SCOPE_SYSTEM), EINVAL); EQ(pthread_attr_setname_np(w, "x"), EINVAL);
  EQ(pthread_attr_getdetachstate(w, &v), EINVAL); EQ(pthread_attr_getinheritsched(w, &v), EINVAL); EQ(pthread_attr_getschedparam(w, &sp), EINVAL); EQ(pthread_attr_getschedpolicy(w, &v), EINVAL);
  EQ(pthread_attr_getstacksize(w, &z), EINVAL); EQ(pthread_attr_getaffinity_np(w, sizeof c, &c), EINVAL); EQ(pthread_attr_getscope(w, &v), EINVAL); EQ(pthread_attr_getname_np(w, b, 8), EINVAL);
  OK(pthread_attr_init(&A[0])); fresh(0);
  EQ(pthread_attr_setschedparam(&A[0], 0), EINVAL); EQ(pthread_attr_setaffinity_np(&A[0], sizeof c, 0), EINVAL);
  EQ(pthread_attr_getdetachstate(&A[0], 0), EINVAL); EQ(pthread_attr_getinheritsched(&A[0], 0), EINVAL); EQ(pthread_attr_getschedparam(&A[0], 0), EINVAL); EQ(pthread_attr_getschedpolicy(&A[0], 0), EINVAL); EQ(pthread_attr_getaffinity_np(&A[0], sizeof c, 0), EINVAL);
  getall(0); finish(0);
  { pthread_attr_t bad = A[0]; pthread_t t; EQ(pthread_attr_destroy(&A[0]), EINVAL); (void)bad; (void)t; }
  done(); MC_EQ(mc_blocks(), 0, "memory leaked");
}
/* an attribute object is read, not changed, by creating threads from it, and changes to it afterwards do not reach the thread */
static void *body(void *p) { mc_point(); return p; }
static void attr_use(void)
{
  int i, n = 1 + mc_choose(2); void *v; pthread_t t[2];
  OK(pthread_attr_init(&A[0])); fresh(0);
  setter(0, 1); setter(0, 1);
  if (!rec[0].live) { done(); return; }
  for (i = 0; i < n; i++) { OK(pthread_create(&t[i], &A[0], body, VP(i))); getall(0); }
  if (rec[0].det == PTHREAD_CREATE_JOINABLE) for (i = 0; i < n; i++) { OK(pthread_join(t[i], &v)); MC_EQ((intptr_t)v, i, "value"); }
  getall(0); finish(0); done(); MC_EQ(mc_blocks(), 0, "memory leaked"); MC_EQ(mc_handles(), 0, "handles leaked");
}
/* ---- mutex attributes ---- */
static pthread_mutexattr_t M[2]; static struct { int live, type, rob, psh; } mr[2];
static void mget(int o)
{
  int v = 77; pthread_mutexattr_t *a = &M[o];
  if (!mr[o].live) { EQ(pthread_mutexattr_gettype(a, &v), EINVAL); EQ(pthread_mutexattr_getkind_np(a, &v), EINVAL); EQ(pthread_mutexattr_getrobust(a, &v), EINVAL); EQ(pthread_mutexattr_getpshared(a, &v), EINVAL); EQ(pthread_mutexattr_destroy(a), EINVAL); MC_EQ(v, 77, "output untouched"); return; }
  OK(pthread_mutexattr_gettype(a, &v)); MC_EQ(v, mr[o].type, "type"); v = 77; OK(pthread_mutexattr_getkind_np(a, &v)); MC_EQ(v, mr[o].type, "kind");
  OK(pthread_mutexattr_getrobust(a, &v)); MC_EQ(v, mr[o].rob, "robustness"); OK(pthread_mutexattr_getpshared(a, &v)); MC_EQ(v, mr[o].psh, "pshared");
  EQ(pthread_mutexattr_gettype(a, 0), EINVAL); EQ(pthread_mutexattr_getrobust(a, 0), EINVAL); EQ(pthread_mutexattr_getpshared(a, 0), EINVAL);
}
static int shr(int e, int live, int v) /* accepted (and then stored) or not supported; anything else is invalid */
{ if (!live || (v != 0 && v != 1)) MC_EQ(e, EINVAL, "setpshared"); else if (v == PTHREAD_PROCESS_PRIVATE) MC_EQ(e, 0, "setpshared"); else MC_ASSERT(e == 0 || e == ENOSYS || e == ENOTSUP, "setpshared"); return e; }
static void mset(int o)
{
  static const int T[] = {PTHREAD_MUTEX_NORMAL, PTHREAD_MUTEX_RECURSIVE, PTHREAD_MUTEX_ERRORCHECK, PTHREAD_MUTEX_DEFAULT, PTHREAD_MUTEX_FAST_NP, PTHREAD_MUTEX_RECURSIVE_NP, PTHREAD_MUTEX_ERRORCHECK_NP, PTHREAD_MUTEX_TIMED_NP, PTHREAD_MUTEX_ADAPTIVE_NP, 3, 99, -1};
  int v, e, l = mr[o].live; pthread_mutexattr_t *a = &M[o];
  switch (mc_choose(5))
    {
    case 0: case 1: v = T[mc_choose(N(T))]; e = mc_choose(2) ? pthread_mutexattr_settype(a, v) : pthread_mutexattr_setkind_np(a, v); MC_EQ(e, l && (v == PTHREAD_MUTEX_NORMAL || v == PTHREAD_MUTEX_RECURSIVE || v == PTHREAD_MUTEX_ERRORCHECK) ? 0 : EINVAL, "settype"); if (!e) mr[o].type = v; break;
    case 2: v = V2[mc_choose(N(V2))]; e = pthread_mutexattr_setrobust(a, v); MC_EQ(e, l && (v == PTHREAD_MUTEX_STALLED || v == PTHREAD_MUTEX_ROBUST) ? 0 : EINVAL, "setrobust"); if (!e) mr[o].rob = v; break;
    case 3: v = V2[mc_choose(N(V2))]; if (!shr(pthread_mutexattr_setpshared(a, v), l, v)) mr[o].psh = v; break;
    case 4: if (l) { OK(pthread_mutexattr_destroy(a)); mr[o].live = 0; } else { OK(pthread_mutexattr_init(a)); mr[o].live = 1; mr[o].type = PTHREAD_MUTEX_DEFAULT; mr[o].rob = PTHREAD_MUTEX_STALLED; mr[o].psh = PTHREAD_PROCESS_PRIVATE; } break;
    }
}
static void mw(int n)
{ int o; mget(0); mget(1); while (n--) { mset(mc_choose(2)); mget(0); mget(1); } for (o = 0; o < 2; o++) if (mr[o].live) OK(pthread_mutexattr_destroy(&M[o])); done(); MC_EQ(mc_blocks(), 0, "memory leaked"); }
static void m4(void) { mw(4); }
static void m6(void) { mw(6); }
/* a mutex keeps the attributes it was made with */
static void muse(void)
{
  pthread_mutex_t m; int r, ty, rb;
  OK(pthread_mutexattr_init(&M[0])); ty = mc_choose(3); rb = mc_choose(2);
  if (mc_choose(2)) { OK(pthread_mutexattr_settype(&M[0], ty)); OK(pthread_mutexattr_setrobust(&M[0], rb)); } else { OK(pthread_mutexattr_setrobust(&M[0], rb)); OK(pthread_mutexattr_settype(&M[0], ty)); }
  OK(pthread_mutex_init(&m, &M[0])); mr[0].live = 1; mr[0].type = ty; mr[0].rob = rb; mget(0);
  mset(0);
  OK(pthread_mutex_lock(&m)); r = pthread_mutex_trylock(&m); MC_EQ(r, ty == PTHREAD_MUTEX_RECURSIVE ? 0 : EBUSY, "type"); if (!r) OK(pthread_mutex_unlock(&m));
  if (ty == PTHREAD_MUTEX_ERRORCHECK) EQ(pthread_mutex_lock(&m), EDEADLK);
  EQ(pthread_mutex_consistent(&m), EINVAL); OK(pthread_mutex_unlock(&m)); OK(pthread_mutex_destroy(&m)); mget(0);
  if (mr[0].live) OK(pthread_mutexattr_destroy(&M[0])); done(); MC_EQ(mc_blocks(), 0, "memory leaked");
}
/* ---- condition, read-write lock and barrier attributes ---- */
static pthread_condattr_t CA[2]; static pthread_rwlockattr_t RA[2]; static pthread_barrierattr_t BA[2]; static int xl[3][2], xp[3][2];
static int xi(int k, int o) { return k == 0 ? pthread_condattr_init(&CA[o]) : k == 1 ? pthread_rwlockattr_init(&RA[o]) : pthread_barrierattr_init(&BA[o]); }
static int xd(int k, int o) { return k == 0 ? pthread_condattr_destroy(&CA[o]) : k == 1 ? pthread_rwlockattr_destroy(&RA[o]) : pthread_barrierattr_destroy(&BA[o]); }
static int xs(int k, int o, int v) { return k == 0 ? pthread_condattr_setpshared(&CA[o], v) : k == 1 ? pthread_rwlockattr_setpshared(&RA[o], v) : pthread_barrierattr_setpshared(&BA[o], v); }
static int xg(int k, int o, int *v) { return k == 0 ? pthread_condattr_getpshared(&CA[o], v) : k == 1 ? pthread_rwlockattr_getpshared(&RA[o], v) : pthread_barrierattr_getpshared(&BA[o], v); }
static void xw(int n)
{
  int k, o, v;
  for (n++;;)
    {
      for (k = 0; k < 3; k++) for (o = 0; o < 2; o++)
        { v = 77; if (xl[k][o]) { OK(xg(k, o, &v)); MC_EQ(v, xp[k][o], "pshared"); EQ(xg(k, o, 0), EINVAL); } else { EQ(xg(k, o, &v), EINVAL); MC_EQ(v, 77, "output untouched"); EQ(xd(k, o), EINVAL); } }
      if (!--n) break;
      k = mc_choose(3); o = mc_choose(2);
      if (mc_choose(2)) { if (xl[k][o]) { OK(xd(k, o)); xl[k][o] = 0; } else { OK(xi(k, o)); xl[k][o] = 1; xp[k][o] = PTHREAD_PROCESS_PRIVATE; } }
      else { v = V2[mc_choose(N(V2))]; if (!shr(xs(k, o, v), xl[k][o], v)) xp[k][o] = v; }
    }
  for (k = 0; k < 3; k++) for (o = 0; o < 2; o++) if (xl[k][o]) OK(xd(k, o));
  done(); MC_EQ(mc_blocks(), 0, "memory leaked");
}
static void x4(void) { xw(4); }
static void x6(void) { xw(6); }
/* objects made from these attributes: private ones work, shared ones are refused, nothing is left behind */
static void xuse(void)
{
  int k = mc_choose(3), v = mc_choose(2), r, b; pthread_cond_t c; pthread_rwlock_t w; pthread_barrier_t ba;
  OK(xi(k, 0)); if (xs(k, 0, v)) v = 0; b = mc_blocks();
  r = k == 0 ? pthread_cond_init(&c, &CA[0]) : k == 1 ? pthread_rwlock_init(&w, &RA[0]) : pthread_barrier_init(&ba, &BA[0], 1);
  if (v == 0) MC_EQ(r, 0, "init"); else { MC_ASSERT(r != 0, "a process-shared object cannot be made"); MC_EQ(mc_blocks(), b, "memory leaked by a refused init"); }
  OK(xd(k, 0));
  if (!r) { if (k == 0) { OK(pthread_cond_signal(&c)); OK(pthread_cond_destroy(&c)); } if (k == 1) { OK(pthread_rwlock_wrlock(&w)); OK(pthread_rwlock_unlock(&w)); OK(pthread_rwlock_destroy(&w)); } if (k == 2) { EQ(pthread_barrier_wait(&ba), PTHREAD_BARRIER_SERIAL_THREAD); OK(pthread_barrier_destroy(&ba)); } }
  done(); MC_EQ(mc_blocks(), 0, "memory leaked"); MC_EQ(mc_handles(), 0, "handles leaked");
}
static void mnull(void)
{ int v; pthread_mutexattr_t n = 0, *w = mc_choose(2) ? &n : 0; EQ(pthread_mutexattr_settype(w, 0), EINVAL); EQ(pthread_mutexattr_gettype(w, &v), EINVAL); EQ(pthread_mutexattr_setrobust(w, 0), EINVAL); EQ(pthread_mutexattr_getrobust(w, &v), EINVAL); EQ(pthread_mutexattr_setpshared(w, 0), EINVAL); EQ(pthread_mutexattr_getpshared(w, &v), EINVAL); EQ(pthread_mutexattr_destroy(w), EINVAL);
  { pthread_condattr_t n2 = 0, *c = mc_choose(2) ? &n2 : 0; EQ(pthread_condattr_setpshared(c, 0), EINVAL); EQ(pthread_condattr_getpshared(c, &v), EINVAL); EQ(pthread_condattr_destroy(c), EINVAL); }
  { pthread_rwlockattr_t n2 = 0, *c = mc_choose(2) ? &n2 : 0; EQ(pthread_rwlockattr_setpshared(c, 0), EINVAL); EQ(pthread_rwlockattr_getpshared(c, &v), EINVAL); EQ(pthread_rwlockattr_destroy(c), EINVAL); }
  { pthread_barrierattr_t n2 = 0, *c = mc_choose(2) ? &n2 : 0; EQ(pthread_barrierattr_setpshared(c, 0), EINVAL); EQ(pthread_barrierattr_getpshared(c, &v), EINVAL); EQ(pthread_barrierattr_destroy(c), EINVAL); }
  done(); }
mc_scen_t mc_scenarios[] = {
  {"attr3", attr3, ""},
  {"attr4", attr4, ""},
  {"attr6", attr6, ""},
  {"attr8", attr8, "q=- tt=300"},
  {"attr_two", attr_two, ""},
  {"attr_null", attr_null, ""},
  {"attr_use", attr_use, ""},
  {"mattr4", m4, ""},
  {"mattr6", m6, ""},
  {"mattr_use", muse, ""},
  {"pshared4", x4, ""},
  {"pshared6", x6, ""},
  {"pshared_use", xuse, ""},
  {"null", mnull, ""},
  {0}
};
