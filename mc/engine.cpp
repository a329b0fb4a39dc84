// Explorer: stateful, exhaustive, optionally preemption-bounded depth-first search over every
// scheduling / timeout / fault / choice decision of the real library code running on fibres.
#include "world.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <algorithm>
#include <sys/mman.h>
#include <sys/time.h>
#include <signal.h>
#include <setjmp.h>
#include <unistd.h>
#include <time.h>
#define MSABI __attribute__((ms_abi))
struct Scen { const char *name; void *fn; const char *opts; };
extern "C" {
extern Scen W_mc_scenarios[];
extern char W_wdata_begin[], W_wdata_end[];
extern char __executable_start[], _end[];
MSABI void W_mc_boot(void);
void host_run(u64 rsp, u64 started);
}
static const u64 PAT = 0xCCCCCCCCCCCCCCCCULL;
static std::vector<u8> wdata0;
static u64 stack_top(u32 f) { return WORLD_BASE + ((u64)f << FREG_SHIFT) + FREG; }
static u64 stack_lo(u32 f) { return WORLD_BASE + ((u64)f << FREG_SHIFT) + HEAP_SZ; }
static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ------------------------------------------------------------------ world
static u64 scrub_lo[MAXF];            // lowest stack address that may hold non-pattern data
static void fill(u64 lo, u64 hi) { for (u64 a = lo & ~7ULL; a < hi; a += 8) *(u64 *)a = PAT; }
static void scrub(u32 f)
{ // fill everything below rsp that is not the pattern
  u64 rsp = K.f[f].rsp, lo = stack_lo(f);
  u64 a = rsp; unsigned clean = 0;
  while (a > lo && clean < 256) { a -= 8; if (*(u64 *)a == PAT) clean++; else { clean = 0; *(u64 *)a = PAT; } }
}
static u64 shadow_hi[MAXF];
static void reset_world(u32 scen)
{
  memset(&K, 0, sizeof(Kern));
  for (u32 f = 0; f < MAXF; f++)
    {
      memset(SHADOW + f * (HEAP_SZ / 8), 0, HEAP_SZ / 8);
      fill(stack_lo(f), stack_top(f));
    }
  memcpy(W_wdata_begin, wdata0.data(), wdata0.size());
  M.mainscen = scen; M.viol = 0;
  W_mc_boot();
}
struct Pack { u64 off; u32 len; };
static std::vector<u8> sbuf;          // snapshot stack
static inline void put(const void *p, u64 n) { size_t o = sbuf.size(); sbuf.resize(o + n); memcpy(&sbuf[o], p, n); }
static u64 kbytes() { return offsetof(Kern, f) + (u64)K.nfib * sizeof(Fiber); }
static Pack save()
{
  Pack pk; pk.off = sbuf.size();
  u64 kb = kbytes(); put(&kb, 8); put(&K, kb);
  put(W_wdata_begin, wdata0.size());
  for (u32 f = 0; f < K.nfib; f++)
    {
      u64 b = WORLD_BASE + ((u64)f << FREG_SHIFT);
      put((void *)b, K.f[f].heap_top);
      put(SHADOW + f * (HEAP_SZ / 8), K.f[f].heap_top / 8);
      if (!K.f[f].exited) put((void *)K.f[f].rsp, stack_top(f) - K.f[f].rsp);
    }
  pk.len = (u32)(sbuf.size() - pk.off);
  return pk;
}
static void restore(const Pack &pk)
{
  const u8 *p = &sbuf[pk.off];
  u64 kb = *(u64 *)p; p += 8;
  u64 oldtop[MAXF], oldrsp[MAXF]; u32 oldn = K.nfib; u8 oldex[MAXF];
  for (u32 f = 0; f < MAXF; f++) { oldtop[f] = f < oldn ? K.f[f].heap_top : 0; oldrsp[f] = f < oldn ? K.f[f].rsp : stack_top(f); oldex[f] = f < oldn ? K.f[f].exited : 0; }
  memcpy(&K, p, kb); p += kb;
  if (K.nfib < oldn) memset(&K.f[K.nfib], 0, (oldn - K.nfib) * sizeof(Fiber));
  for (u32 f = K.nfib; f < oldn; f++) K.f[f].affinity = 0;
  memcpy(W_wdata_begin, p, wdata0.size()); p += wdata0.size();
  for (u32 f = 0; f < std::max(oldn, K.nfib); f++)
    {
      u64 b = WORLD_BASE + ((u64)f << FREG_SHIFT), top = f < K.nfib ? K.f[f].heap_top : 0;
      u8 *sh = SHADOW + f * (HEAP_SZ / 8);
      if (f < K.nfib) { memcpy((void *)b, p, top); p += top; memcpy(sh, p, top / 8); p += top / 8; }
      if (oldtop[f] > top) memset(sh + top / 8, 0, (oldtop[f] - top) / 8);
      u64 rsp = stack_top(f);
      if (f < K.nfib && !K.f[f].exited) { rsp = K.f[f].rsp; memcpy((void *)rsp, p, stack_top(f) - rsp); p += stack_top(f) - rsp; }
      u64 lo = oldrsp[f];
      if (f >= K.nfib) fill(lo, stack_top(f));
      else if (lo < rsp && !K.f[f].exited) fill(lo, rsp);
    }
}
// ------------------------------------------------------------------ hashing (two independent 64-bit lanes)
static inline u64 mum(u64 a, u64 b) { __uint128_t r = (__uint128_t)a * b; return (u64)r ^ (u64)(r >> 64); }
struct HH { u64 a = 0x9E3779B97F4A7C15ULL, b = 0xC2B2AE3D27D4EB4FULL; };
static inline void hblk(HH &h, const void *p_, u64 n)
{
  const u64 *p = (const u64 *)p_; u64 w = n / 8, i = 0;
  u64 a = h.a, b = h.b;
  for (; i + 2 <= w; i += 2) { a = mum(a ^ p[i], 0xA0761D6478BD642FULL ^ p[i + 1]); b = mum(b + p[i], 0xE7037ED1A0B428DBULL ^ (p[i + 1] + 0x9E37)); }
  for (; i < w; i++) { a = mum(a ^ p[i], 0x8EBC6AF09C88C6E3ULL); b = mum(b + p[i], 0x589965CC75374CC3ULL); }
  h.a = a ^ n; h.b = b + n;
}
static HH hash_state()
{
  HH h; u32 sc = K.cur, ss = K.steps; K.cur = 0; K.steps = 0;
  hblk(h, &K, kbytes() & ~7ULL);
  K.cur = sc; K.steps = ss;
  hblk(h, W_wdata_begin, (wdata0.size()) & ~7ULL);
  for (u32 f = 0; f < K.nfib; f++)
    {
      u64 b = WORLD_BASE + ((u64)f << FREG_SHIFT);
      hblk(h, (void *)b, K.f[f].heap_top);
      if (!K.f[f].exited) hblk(h, (void *)K.f[f].rsp, stack_top(f) - K.f[f].rsp);
    }
  return h;
}
// ------------------------------------------------------------------ running a fibre
static sigjmp_buf jb; static volatile sig_atomic_t in_fibre; static u64 lastprog; static int stuck;
static u64 n_trans;
static void on_fault(int s, siginfo_t *si, void *)
{
  if (!in_fibre) { static const char m[] = "ENGINE: host fault\n"; (void)!write(2, m, sizeof m - 1); _exit(3); }
  M.viol = (u64)(s == SIGFPE ? "arithmetic fault at %#llx" : s == SIGILL ? "illegal instruction / unreachable code at %#llx" : "memory fault (access to %#llx)");
  M.va[0] = (u64)si->si_addr; M.viol_pc = M.lastpc;
  siglongjmp(jb, 1);
}
static void on_prof(int)
{
  if (!in_fibre) { stuck = 0; return; }
  if (M.progress == lastprog) { if (++stuck >= 10) { stuck = 0; M.viol = (u64)"a thread runs forever without reaching a scheduling point"; M.viol_pc = M.lastpc; siglongjmp(jb, 1); } }
  else { lastprog = M.progress; stuck = 0; }
}
static bool run_fibre(u32 f, i32 oc)
{ // returns false when a violation was reported
  K.cur = f; K.f[f].outcome = oc; M.invis = 0; M.progress++; n_trans++;
  u8 st = K.f[f].started;
  in_fibre = 1;
  if (sigsetjmp(jb, 0) == 0)
    {
      host_run(K.f[f].rsp, st);
      in_fibre = 0;
      if (!M.viol) { K.f[f].outcome = 0; if (!K.f[f].exited) { K.f[f].rsp = M.fib_rsp; scrub(f); } else { u64 s = M.fib_rsp; K.f[f].rsp = s; scrub(f); fill(s, stack_top(f)); K.f[f].rsp = stack_top(f); } }
    }
  in_fibre = 0;
  if (M.viol) { sigset_t z; sigemptyset(&z); sigprocmask(SIG_SETMASK, &z, nullptr); }
  // threads terminated from outside: drop their stacks
  for (u32 i = 0; i < K.nfib; i++)
    if (i != f && K.f[i].exited && K.f[i].rsp != stack_top(i)) { fill(K.f[i].rsp, stack_top(i)); K.f[i].rsp = stack_top(i); }
  return M.viol == 0;
}
struct Choice { u8 f; u8 o; };
static KObj *OBJ(u32 o) { return &K.f[o / NH].obj[o % NH]; }
static bool wready(const Fiber &f, u32 me)
{
  const Pend &p = f.p; u32 r = 0;
  for (u32 i = 0; i < p.n; i++) { KObj *k = OBJ(p.h[i]); r += k->type == O_MUTEX ? (k->count || k->owner == me) : k->count > 0; }
  return p.waitall ? r == p.n : r > 0;
}
enum { EN_NO, EN_YES, EN_TIMED };
static int base_enabled(u32 i, u64 *dl)
{ // ignoring QUIESCE
  Fiber &f = K.f[i];
  if (!f.created || f.exited || f.suspended) return EN_NO;
  switch (f.p.kind)
    {
    case P_WAIT:
      if (wready(f, i)) return EN_YES;
      if (f.p.rw) return EN_YES;                 // zero timeout: polls and fails
      if (f.p.deadline != ~0ULL) { *dl = f.p.deadline; return EN_TIMED; }
      return EN_NO;
    case P_SLEEP:
      if (f.p.deadline == 0) return EN_YES;
      if (f.p.deadline == ~0ULL) return EN_NO;
      *dl = f.p.deadline; return EN_TIMED;
    case P_ALL: for (u32 j = 0; j < K.nfib; j++) if (j != i && !K.f[j].exited) return EN_NO; return EN_YES;
    case P_QUIESCE: case P_DONE: return EN_NO;
    default: return EN_YES;
    }
}
static bool all_exited() { for (u32 i = 0; i < K.nfib; i++) if (!K.f[i].exited) return false; return true; }
// fills ch with the options in this state; ample = true when one fibre's options suffice
static void options(std::vector<Choice> &ch, bool &ample)
{
  ch.clear(); ample = false;
  int en[MAXF]; u64 dl[MAXF]; u64 mind = ~0ULL; bool any = false;
  for (u32 i = 0; i < K.nfib; i++)
    {
      dl[i] = ~0ULL; en[i] = base_enabled(i, &dl[i]);
      if (en[i] == EN_TIMED) mind = std::min(mind, dl[i]);
      if (en[i] == EN_YES) any = true;
    }
  for (u32 i = 0; i < K.nfib; i++)
    if (en[i] == EN_YES && (K.f[i].p.kind == P_START || K.f[i].p.kind == P_CHOOSE))
      {
        ample = true;
        u32 n = K.f[i].p.kind == P_CHOOSE ? K.f[i].p.n : 1;
        for (u32 o = 0; o < n; o++) ch.push_back({(u8)i, (u8)o});
        return;
      }
  for (u32 i = 0; i < K.nfib; i++)
    {
      Fiber &f = K.f[i];
      if (en[i] == EN_YES) { u8 o = f.p.kind == P_WAIT && !wready(f, i) ? 1 : 0; ch.push_back({(u8)i, o}); }
      else if (en[i] == EN_TIMED && dl[i] == mind) ch.push_back({(u8)i, 1});
    }
  if (!any)
    for (u32 i = 0; i < K.nfib; i++)
      if (K.f[i].created && !K.f[i].exited && !K.f[i].suspended && K.f[i].p.kind == P_QUIESCE && (!K.f[i].p.rw || mind == ~0ULL)) { ch.insert(ch.begin(), {(u8)i, 0}); break; }
}
// ------------------------------------------------------------------ visited set
struct Ent { u64 a; u32 b; u32 id; };
struct Table
{
  std::vector<Ent> t; u64 mask = 0, n = 0;
  void clear() { t.assign(1 << 16, Ent{0, 0, ~0u}); mask = t.size() - 1; n = 0; }
  u32 find_or_add(HH h, u32 nid, bool &isnew)
  {
    if (n * 10 > t.size() * 7) grow();
    u32 b = (u32)(h.b >> 20);
    for (u64 i = h.a & mask;; i = (i + 1) & mask)
      {
        if (t[i].id == ~0u) { t[i] = {h.a, b, nid}; n++; isnew = true; return nid; }
        if (t[i].a == h.a && t[i].b == b) { isnew = false; return t[i].id; }
      }
  }
  void grow() { std::vector<Ent> o; o.swap(t); t.assign(o.size() * 2, Ent{0, 0, ~0u}); mask = t.size() - 1; for (auto &e : o) if (e.id != ~0u) { u64 i = e.a & mask; while (t[i].id != ~0u) i = (i + 1) & mask; t[i] = e; } }
};
// ------------------------------------------------------------------ search

struct Edge { u32 a, b; };
struct Opt { Choice c; u8 cost; };
struct Node { Pack pk; u32 id; u32 cbase; u32 nch, next; u32 pathlen; u8 cost; u8 snap; };
static Table tab; static std::vector<u8> mincost, flags; static std::vector<u16> onstk; static std::vector<u32> pos;
enum { FL_TERM = 1, FL_YIELD = 2 };
static std::vector<Edge> edges; static std::vector<Node> stk; static std::vector<Opt> cstk; static std::vector<Choice> path;
static std::set<u32> outcomes; static u64 n_exec, max_depth; static std::vector<Choice> sample; static u32 sample_out;
static double t_end; static u64 max_states; static bool capped; static int bound; // -1 = unbounded
static bool live; static HH target; static bool have_target;
static std::string vmsg; static std::vector<Choice> vpath;
static u64 st_total;
static std::string fmt_viol()
{
  char b[512]; const char *m = (const char *)M.viol;
  snprintf(b, sizeof b, m, (unsigned long long)M.va[0], (unsigned long long)M.va[1], 0ULL);
  if (strstr(m, "%s used")) snprintf(b, sizeof b, m, (const char *)M.va[0], (unsigned long long)M.va[1]);
  return b;
}
static const char *kname(const Pend &p)
{
  switch (p.kind) { case P_START: return "start"; case P_MEM: return p.rw ? "mem-write" : "mem-read"; case P_WAIT: return p.rw ? "poll" : "wait"; case P_SLEEP: return p.deadline ? "sleep" : "yield";
    case P_CHOOSE: return "choose"; case P_POINT: return "point"; case P_EXIT: return "exit"; case P_ALL: return "wait-all-exit"; case P_QUIESCE: return "wait-quiescent"; case P_DONE: return "done"; case P_SUSPENDED: return "suspended";
    case P_KOBJ: { static const char *n[] = {"?", "CloseHandle", "SetEvent", "ResetEvent", "ReleaseSemaphore", "ReleaseMutex", "DuplicateHandle", "GetExitCodeThread", "SetThreadPriority", "GetThreadPriority", "SetThreadAffinityMask"}; return p.what < 11 ? n[p.what] : "kobj"; }
    case P_CTL: { static const char *n[] = {"?", "ResumeThread", "SuspendThread", "TerminateThread", "GetThreadContext", "SetThreadContext"}; return p.what < 6 ? n[p.what] : p.what == 100 ? "create-thread" : p.what == 101 ? "clock" : p.what == 102 ? "tls-index" : "ctl"; } }
  return "?";
}
static std::string blocked_desc()
{
  std::string r; char b[96];
  for (u32 i = 0; i < K.nfib; i++) if (!K.f[i].exited) { snprintf(b, sizeof b, " T%u:%s%s", i, K.f[i].suspended ? "suspended/" : "", kname(K.f[i].p)); r += b; }
  return r;
}
static void set_viol(const std::string &m) { vmsg = m; vpath = path; }
static std::vector<std::pair<std::string, u64>> known;   // listed findings: message prefix, times seen
static bool is_known(const std::string &m) { for (auto &k : known) if (!k.first.empty() && m.compare(0, k.first.size(), k.first) == 0) { k.second++; return true; } return false; }
static std::map<u64, std::set<u64>> *diag;
static void diag_state()
{
  auto w = [&](u64 lo, u64 hi) { for (u64 a = lo; a + 8 <= hi; a += 8) { auto &d = (*diag)[a]; if (d.size() < 5000) d.insert(*(u64 *)a); } };
  w((u64)&K, (u64)&K + kbytes()); w((u64)W_wdata_begin, (u64)W_wdata_begin + wdata0.size());
  for (u32 f = 0; f < K.nfib; f++) { u64 b = WORLD_BASE + ((u64)f << FREG_SHIFT); w(b, b + K.f[f].heap_top); if (!K.f[f].exited) w(K.f[f].rsp & ~7ULL, stack_top(f)); }
}
enum { ST_PRUNED, ST_PUSHED, ST_VIOL };
static int push_node(u32 id, int last, u8 cost, bool forced_yield, int yf)
{
  static std::vector<Choice> ch; bool ample;
  options(ch, ample);
  if (ch.empty()) { set_viol("deadlock: no thread can run;" + blocked_desc()); return ST_VIOL; }
  u32 cb = (u32)cstk.size();
  bool last_en = false;
  if (!ample && last >= 0)
    for (auto &c : ch) if (c.f == last)
      {
        Fiber &f = K.f[last];
        last_en = !(f.p.kind == P_SLEEP) && !(f.p.kind == P_WAIT && c.o == 1 && !f.p.rw);
      }
  for (int pass = 0; pass < 2; pass++)
    for (auto &c : ch)
      {
        bool isl = c.f == last;
        if ((pass == 0) != isl) continue;
        if (forced_yield) { if ((int)c.f == yf) continue; cstk.push_back({c, 0}); continue; }
        u8 k = (!ample && last_en && !isl) ? 1 : 0;
        if (bound >= 0 && cost + k > bound) continue;
        cstk.push_back({c, (u8)(bound >= 0 ? k : 0)});
      }
  u32 n = (u32)cstk.size() - cb;
  if (n == 0) { if (forced_yield) { set_viol("livelock: one thread spins forever and no other thread can run;" + blocked_desc()); return ST_VIOL; } return ST_PRUNED; }
  Node nd{}; nd.id = id; nd.cbase = cb; nd.nch = n; nd.next = 0; nd.pathlen = (u32)path.size(); nd.cost = cost; nd.snap = n > 1;
  nd.pk = Pack{sbuf.size(), 0};
  if (nd.snap) nd.pk = save();
  if (!onstk[id]++) pos[id] = nd.pathlen;
  stk.push_back(nd);
  return ST_PUSHED;
}
static int enter_state(u8 cost, int last, u32 parent)
{
  HH h = hash_state();
  if (bound >= 0 && last >= 0 && !K.f[last].exited) { u64 dl; int e = base_enabled(last, &dl); if (e == EN_YES && K.f[last].p.kind != P_SLEEP) { h.a ^= 0x1234567ULL * (last + 1); h.b += 0x9999ULL * (last + 1); } }
  bool isnew; u32 nid = (u32)flags.size();
  u32 id = tab.find_or_add(h, nid, isnew);
  if (isnew && diag && bound < 0 && (nid & 63) == 0) diag_state();
  if (isnew) { flags.push_back(0); onstk.push_back(0); pos.push_back(0); mincost.push_back(cost); }
  if (have_target && isnew && h.a == target.a && (u32)(h.b >> 20) == (u32)(target.b >> 20)) { set_viol("livelock: from this state no continuation lets every thread finish;" + blocked_desc()); return ST_VIOL; }
  if (live && parent != ~0u) edges.push_back({parent, id});
  if (path.size() > max_depth) max_depth = path.size();
  if (!isnew)
    {
      if (bound >= 0 && cost < mincost[id]) mincost[id] = cost;
      else
        {
          if (bound >= 0 && onstk[id] && last >= 0 && K.f[last].p.kind != P_CHOOSE)
            {
              bool same = true; for (size_t i = pos[id]; i < path.size(); i++) if (path[i].f != last) same = false;
              if (same && !(flags[id] & FL_YIELD)) { flags[id] |= FL_YIELD; return push_node(id, last, cost, true, last); }
            }
          return ST_PRUNED;
        }
    }
  if (all_exited()) { flags[id] |= FL_TERM; n_exec++; if (outcomes.insert(K.outcome).second && (sample.empty() || path.size() > sample.size())) { sample = path; sample_out = K.outcome; } return ST_PRUNED; }
  int r = push_node(id, last, cost, false, 0);
  if (r == ST_VIOL) flags[id] |= FL_TERM; // only matters when the violation is a listed finding: it counts as an end
  return r;
}
static bool search_from_here(int last0)
{ // returns true when a violation was found (vmsg, vpath)
  tab.clear(); mincost.clear(); flags.clear(); onstk.clear(); pos.clear(); edges.clear(); stk.clear(); cstk.clear(); sbuf.clear();
  size_t base = path.size(); capped = false; n_exec = 0; max_depth = 0; outcomes.clear(); sample.clear();
  u64 found_at = 0; u64 t0 = n_trans;
  int r = enter_state(0, last0, ~0u);
  if (r == ST_VIOL) return true;
  bool current = true;
  while (!stk.empty())
    {
      Node &nd = stk.back();
      if (nd.next == nd.nch)
        {
          sbuf.resize(nd.pk.off); cstk.resize(nd.cbase); path.resize(std::max<size_t>(nd.pathlen, base)); onstk[nd.id]--;
          stk.pop_back(); current = false; continue;
        }
      if (!current) restore(nd.pk);
      Opt o = cstk[nd.cbase + nd.next++];
      u32 pid = nd.id; u8 cost = nd.cost + o.cost;
      path.resize(nd.pathlen); path.push_back(o.c);
      int last = K.f[o.c.f].p.kind == P_START && K.f[o.c.f].started == 0 && nd.pathlen ? -2 : (int)o.c.f;
      if (last == -2) { last = -1; for (size_t i = path.size() - 1; i-- > 0;) { last = path[i].f; break; } }
      if (!run_fibre(o.c.f, o.c.o))
        {
          set_viol(fmt_viol());
          if (!is_known(vmsg)) return true;
          // a listed finding: treat this execution as ended here and go on with the others
          M.viol = 0; flags[pid] |= FL_TERM; current = false;
          fill(stack_lo(o.c.f), K.f[o.c.f].rsp);
          continue;
        }
      if (path.size() > 60000) { set_viol("ENGINE: execution too long"); return true; }
      r = enter_state(cost, last, pid);
      if (r == ST_VIOL) { if (!is_known(vmsg)) return true; flags[pid] |= FL_TERM; current = false; continue; }
      current = r == ST_PUSHED;
      if ((n_trans & 1023) == 0)
        {
          if (now_s() > t_end || tab.n > max_states) { capped = true; break; }
          if (M.found_new) { if (!found_at) found_at = n_trans; else if (n_trans - found_at > 5000) break; }
        }
    }
  (void)t0;
  path.resize(base);
  return false;
}
static bool check_live()
{ // every explored state must be able to reach a state where all threads have finished
  u32 n = (u32)flags.size();
  std::vector<u32> head(n + 1, 0), adj(edges.size());
  for (auto &e : edges) head[e.b + 1]++;
  for (u32 i = 0; i < n; i++) head[i + 1] += head[i];
  std::vector<u32> p(head.begin(), head.end() - 1);
  for (auto &e : edges) adj[p[e.b]++] = e.a;
  std::vector<u8> ok(n, 0); std::vector<u32> q;
  for (u32 i = 0; i < n; i++) if (flags[i] & FL_TERM) { ok[i] = 1; q.push_back(i); }
  while (!q.empty()) { u32 x = q.back(); q.pop_back(); for (u32 i = head[x]; i < head[x + 1]; i++) if (!ok[adj[i]]) { ok[adj[i]] = 1; q.push_back(adj[i]); } }
  for (u32 i = 0; i < n; i++) if (!ok[i]) { for (auto &e : tab.t) if (e.id == i) { target.a = e.a; target.b = (u64)e.b << 20; return false; } }
  return true;
}
static void masks_advance() { memcpy(M.cur, M.nxt, sizeof M.cur); memcpy(M.wcur, M.wnxt, sizeof M.wcur); memcpy(M.hcur, M.hnxt, sizeof M.hcur); memcpy(M.rcur, M.rnxt, sizeof M.rcur); M.found_new = 0; }
static u32 n_shared() { u32 c = 0; auto s = [&](Acc *a, size_t n) { for (size_t i = 0; i < n; i++) if (a[i].v) c++; }; s(M.cur, NGRAN); s(M.wcur, NWG); s(M.hcur, MAXF * NH); s(M.rcur, R_N); return c; }
static void dump_masks(FILE *f)
{
  auto s = [&](char t, Acc *a, size_t n) { for (size_t i = 0; i < n; i++) if (a[i].w && (a[i].a & (a[i].a - 1))) fprintf(f, "mask %c %zu %u %u %u\n", t, i, a[i].a, a[i].w, a[i].v); };
  s('g', M.cur, NGRAN); s('w', M.wcur, NWG); s('h', M.hcur, MAXF * NH); s('r', M.rcur, R_N);
}
static std::string sched_str(const std::vector<Choice> &p)
{ // run-length: T<f>*n, outcome shown when not 0
  std::string r; char b[40];
  for (size_t i = 0; i < p.size();)
    {
      size_t j = i; while (j < p.size() && p[j].f == p[i].f && p[j].o == 0 && p[i].o == 0) j++;
      if (j == i) { snprintf(b, sizeof b, "T%u=%u ", p[i].f, p[i].o); j = i + 1; } else if (j - i == 1) snprintf(b, sizeof b, "T%u ", p[i].f); else snprintf(b, sizeof b, "T%ux%zu ", p[i].f, j - i);
      r += b; i = j;
    }
  return r;
}
static std::string jesc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if ((unsigned char)c < 32) { r += ' '; continue; } r += c; } return r; }
static std::string addr_desc(u64 a)
{
  char b[80]; u64 off = a - WORLD_BASE;
  if (off < WORLD_SZ) snprintf(b, sizeof b, "%s of T%llu +%#llx", (off & (FREG - 1)) < HEAP_SZ ? "heap" : "stack", (unsigned long long)(off >> FREG_SHIFT), (unsigned long long)(off & (FREG - 1)));
  else snprintf(b, sizeof b, "static %#llx", (unsigned long long)a);
  return b;
}
static bool replay(const std::vector<Choice> &p, bool trace, std::string &msg)
{ // true when a violation shows up
  path.clear();
  for (size_t i = 0; i < p.size(); i++)
    {
      std::vector<Choice> ch; bool am; options(ch, am); bool okc = false;
      for (auto &c : ch) if (c.f == p[i].f && c.o == p[i].o) okc = true;
      if (!okc) { msg = "ENGINE: replay diverged"; if (trace) printf("replay diverged at step %zu\n", i); return false; }
      Fiber &f = K.f[p[i].f]; Pend pd = f.p;
      path.push_back(p[i]);
      if (trace)
        {
          printf("STEP %zu T%u %s", i, p[i].f, kname(pd));
          if (pd.kind == P_MEM) printf(" %s size %u", addr_desc(pd.addr).c_str(), pd.size);
          if (pd.kind == P_KOBJ || pd.kind == P_WAIT) for (u32 q = 0; q < std::max<u32>(pd.n, pd.kind == P_KOBJ); q++) printf(" object#%u(type %u,count %d)", pd.h[q], OBJ(pd.h[q])->type, OBJ(pd.h[q])->count);
          if (p[i].o) printf(pd.kind == P_WAIT || pd.kind == P_SLEEP ? " -> TIMEOUT" : " -> choice %u", p[i].o);
          static u64 pcs[MAXF];
          u32 fi = p[i].f;
          printf(" pc=%#llx", (unsigned long long)pcs[fi]);
          bool ok = run_fibre(p[i].f, p[i].o);
          pcs[fi] = M.lastpc; // where this thread stopped next
          printf("\n");
          if (!ok) { printf("VIOLATING STEP at pc=%#llx: %s\n", (unsigned long long)M.viol_pc, fmt_viol().c_str()); msg = fmt_viol(); return true; }
        }
      else if (!run_fibre(p[i].f, p[i].o)) { msg = fmt_viol(); return true; }
    }
  std::vector<Choice> ch; bool am; options(ch, am);
  if (ch.empty() && !all_exited()) { msg = "deadlock: no thread can run;" + blocked_desc(); if (trace) printf("END STATE: %s\n", msg.c_str()); return true; }
  msg = "no violation";
  return false;
}
static void load_masks_and_sched(const char *fn, std::vector<Choice> &p, std::string &scen, std::string &kind)
{
  FILE *f = fopen(fn, "r"); if (!f) { fprintf(stderr, "cannot open %s\n", fn); exit(3); }
  static char line[1 << 20];
  while (fgets(line, sizeof line, f))
    {
      char t; size_t i; unsigned a, w, v; char nm[200];
      if (sscanf(line, "mask %c %zu %u %u %u", &t, &i, &a, &w, &v) == 5) { Acc *b = t == 'g' ? M.cur : t == 'w' ? M.wcur : t == 'h' ? M.hcur : M.rcur; b[i] = {(u8)a, (u8)w, (u8)v, 0}; }
      else if (sscanf(line, "scenario %199s", nm) == 1) scen = nm;
      else if (!strncmp(line, "message ", 8)) { kind = line + 8; while (!kind.empty() && kind.back() == '\n') kind.pop_back(); }
      else if (!strncmp(line, "choices ", 8)) { char *q = line + 8; unsigned fb, o; int n; while (sscanf(q, " %u.%u%n", &fb, &o, &n) == 2) { p.push_back({(u8)fb, (u8)o}); q += n; } }
    }
  fclose(f);
  memcpy(M.nxt, M.cur, sizeof M.cur); memcpy(M.wnxt, M.wcur, sizeof M.wcur); memcpy(M.hnxt, M.hcur, sizeof M.hcur); memcpy(M.rnxt, M.rcur, sizeof M.rcur);
}
int main(int argc, char **argv)
{
  const char *scen = nullptr, *out = nullptr, *rout = nullptr, *rin = nullptr; int bmax = 2; double tl = 60; max_states = 20000000; bool wantlive = true, trace = false, M_naive = false;
  for (int i = 1; i < argc; i++)
    {
      std::string a = argv[i];
      if (a == "--list") { for (Scen *s = W_mc_scenarios; s->name; s++) printf("%s\t%s\n", s->name, s->opts); return 0; }
      else if (a == "--scen") scen = argv[++i];
      else if (a == "--bound") { i++; bmax = !strcmp(argv[i], "u") ? -1 : atoi(argv[i]); }
      else if (a == "--time") tl = atof(argv[++i]);
      else if (a == "--max-states") max_states = strtoull(argv[++i], 0, 10);
      else if (a == "--no-live") wantlive = false;
      else if (a == "--out") out = argv[++i];
      else if (a == "--replay-out") rout = argv[++i];
      else if (a == "--replay") rin = argv[++i];
      else if (a == "--naive") M_naive = true;
      else if (a == "--trace") trace = true;
      else if (a == "--diag") diag = new std::map<u64, std::set<u64>>;
      else if (a == "--known") known.push_back({argv[++i], 0});
      else { fprintf(stderr, "unknown option %s\n", argv[i]); return 3; }
    }
  auto map = [](u64 a, u64 n) { if (mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) != (void *)a) { perror("mmap"); exit(3); } };
  map(WORLD_BASE, WORLD_SZ); map(K_ADDR, (sizeof(Kern) + 4095) & ~4095ULL); map(M_ADDR, (sizeof(Meta) + 4095) & ~4095ULL); map(SHADOW_ADDR, MAXF * HEAP_SZ / 8);
  M.naive = M_naive;
  wdata0.assign(W_wdata_begin, W_wdata_end);
  M.wdata_lo = (u64)W_wdata_begin; M.wdata_hi = (u64)W_wdata_end; M.img_lo = (u64)__executable_start; M.img_hi = (u64)_end;
  if (M.wdata_hi - M.wdata_lo > NWG * 8) { fprintf(stderr, "static data too large\n"); return 3; }
  stack_t ss{}; ss.ss_sp = malloc(1 << 16); ss.ss_size = 1 << 16; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_sigaction = on_fault; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGTRAP}) sigaction(s, &sa, nullptr);
  struct sigaction sp{}; sp.sa_handler = on_prof; sp.sa_flags = SA_ONSTACK | SA_RESTART; sigaction(SIGPROF, &sp, nullptr);
  struct itimerval it{{1, 0}, {1, 0}}; setitimer(ITIMER_PROF, &it, nullptr);
  std::vector<Choice> rp; std::string rs, rk;
  if (rin) { load_masks_and_sched(rin, rp, rs, rk); scen = rs.c_str(); }
  u32 si = ~0u; for (u32 i = 0; W_mc_scenarios[i].name; i++) if (scen && !strcmp(W_mc_scenarios[i].name, scen)) si = i;
  if (si == ~0u) { fprintf(stderr, "no such scenario\n"); return 3; }
  double t0 = now_s(); t_end = t0 + tl;
  if (rin)
    {
      reset_world(si); std::string m; bool v = replay(rp, trace, m);
      if (!v && rk.compare(0, 8, "livelock") == 0 && m == "no violation")
        { bound = -1; live = true; max_states = 5000000; masks_advance(); if (!search_from_here(-1) && n_exec == 0 && !capped) { v = true; m = rk; } }
      printf("replay of %s: %s: %s\n", scen, v ? "violation reproduced" : "NOT reproduced", m.c_str());
      return v ? 1 : 0;
    }
  std::vector<int> bs; for (int b = 0; bmax >= 0 && b <= bmax; b++) bs.push_back(b);
  if (bmax < 0) bs = {0, 1, -1};
  int done_bound = -2; u64 rs_states = 0, rs_exec = 0, rs_depth = 0, rs_out = 0, rs_trans = 0, passes = 0; bool viol = false, livechk = false; std::string smp; std::vector<u32> outs;
  for (int b : bs)
    {
      bool again = true;
      while (again && !viol)
        {
          bound = b; live = wantlive && b < 0; path.clear(); masks_advance(); passes++;
          u64 tr0 = n_trans;
          reset_world(si);
          if (search_from_here(-1)) { viol = true; break; }
          st_total += tab.n;
          again = M.found_new && !capped;
          if (capped) break;
          if (!again)
            {
              done_bound = b; rs_states = tab.n; rs_exec = n_exec; rs_depth = max_depth; rs_out = outcomes.size(); rs_trans = n_trans - tr0; smp = sched_str(sample); outs.assign(outcomes.begin(), outcomes.end());
              if (live)
                {
                  livechk = true;
                  if (!check_live())
                    { have_target = true; live = false; path.clear(); reset_world(si); if (search_from_here(-1)) { viol = true; } else { fprintf(stderr, "ENGINE: lost target\n"); return 3; } }
                }
            }
        }
      if (viol || capped) break;
    }
  if (viol && vmsg.compare(0, 7, "ENGINE:") == 0) { fprintf(stderr, "%s: %s\n", scen, vmsg.c_str()); if (rout) { FILE *f = fopen(rout, "w"); fprintf(f, "scenario %s\nmessage %s\nchoices", scen, vmsg.c_str()); for (auto &c : vpath) fprintf(f, " %u.%u", c.f, c.o); fprintf(f, "\n"); dump_masks(f); fclose(f); } return 3; }
  std::string conf = "n/a";
  if (viol)
    { // the same schedule must fail again, twice, from a fresh world
      auto vp = vpath; auto vm = vmsg; bool ll = vm.compare(0, 8, "livelock") == 0;
      for (int k = 0; k < 2 && !ll; k++) { std::string m; have_target = false; reset_world(si); if (!replay(vp, false, m) || m != vm) { fprintf(stderr, "ENGINE: violation did not replay: %s / %s\n", vm.c_str(), m.c_str()); return 3; } }
      vpath = vp; vmsg = vm; conf = "replayed";
      if (rout) { FILE *f = fopen(rout, "w"); if (f) { fprintf(f, "scenario %s\nmessage %s\nschedule %s\nchoices", scen, vmsg.c_str(), sched_str(vpath).c_str()); for (auto &c : vpath) fprintf(f, " %u.%u", c.f, c.o); fprintf(f, "\n"); dump_masks(f); fclose(f); } }
    }
  if (diag)
    {
      std::vector<std::pair<size_t, u64>> v; for (auto &d : *diag) if (d.second.size() > 1) v.push_back({d.second.size(), d.first});
      std::sort(v.rbegin(), v.rend());
      for (size_t i = 0; i < v.size() && i < 80; i++)
        {
          u64 a = v[i].second; printf("%6zu %#llx ", v[i].first, (unsigned long long)a);
          if (a >= K_ADDR && a < K_ADDR + sizeof(Kern)) { u64 o = a - K_ADDR; if (o >= offsetof(Kern, f)) printf("K.f[%llu]+%llu", (unsigned long long)((o - offsetof(Kern, f)) / sizeof(Fiber)), (unsigned long long)((o - offsetof(Kern, f)) % sizeof(Fiber))); else printf("K+%llu", (unsigned long long)o); }
          else printf("%s", addr_desc(a).c_str());
          int n = 0; for (u64 x : (*diag)[a]) { printf(" %llx", (unsigned long long)x); if (++n == 8) break; }
          printf("\n");
        }
      printf("p at %zu obj at %zu foot at %zu\n", offsetof(Fiber, p), offsetof(Fiber, obj), offsetof(Fiber, foot));
    }
  std::string j; char b[1024];
  snprintf(b, sizeof b, "{\"scenario\":\"%s\",\"requested_bound\":\"%s\",\"completed_bound\":\"%s\",\"capped\":%s,\"states\":%llu,\"transitions\":%llu,\"all_states\":%llu,\"all_transitions\":%llu,\"executions\":%llu,\"max_depth\":%llu,\"outcomes\":%llu,\"shared_locations\":%u,\"passes\":%llu,\"termination_checked\":%s,\"wall_s\":%.2f,",
           scen, bmax < 0 ? "unbounded" : std::to_string(bmax).c_str(), done_bound == -1 ? "unbounded" : done_bound == -2 ? "none" : std::to_string(done_bound).c_str(), capped ? "true" : "false",
           (unsigned long long)rs_states, (unsigned long long)rs_trans, (unsigned long long)st_total + (viol ? tab.n : 0), (unsigned long long)n_trans, (unsigned long long)rs_exec, (unsigned long long)rs_depth, (unsigned long long)rs_out, n_shared(), (unsigned long long)passes, livechk ? "true" : "false", now_s() - t0);
  u32 nc = 0; for (u64 x : M.cover) nc += __builtin_popcountll(x);
  j = b; j += "\"observations\":" + std::to_string(nc) + ",\"known\":{"; for (size_t i = 0; i < known.size(); i++) j += (i ? ",\"" : "\"") + jesc(known[i].first) + "\":" + std::to_string(known[i].second); j += "},";
  j += "\"sample\":\"" + jesc(smp.substr(0, 600)) + "\",\"violation\":"; j += viol ? "\"" + jesc(vmsg) + "\"" : "null"; j += ",\"schedule\":\"" + (viol ? jesc(sched_str(vpath)) : "") + "\"}";
  if (out) { FILE *f = fopen(out, "w"); if (!f) return 3; fprintf(f, "%s\n", j.c_str()); fclose(f); } else printf("%s\n", j.c_str());
  return viol ? 1 : 0;
}
