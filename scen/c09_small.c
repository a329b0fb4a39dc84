/* C09 with tiny counters (INT_MAX is 5 in this flavour): the reader counts are renormalised within the search.
   Never more than four read locks are held at once (the real limit of simultaneous readers is not the property). */
#define mc_scenarios mc_unused_
#include "c09.c"
#undef mc_scenarios
#define P(nm, lo, n, call) static void nm(void) { pre_ = lo + mc_choose(n); call; }
P(y_r_w, 2, 3, run(0, "ruru", "wuwu", "", "")) P(y_rr_w, 2, 3, run(0, "rRuu", "wu", "", "")) P(y_R_w, 2, 3, run(0, "RuRu", "wuwu", "", "")) P(y_d_w, 2, 3, run(0, "dudu", "wuwu", "", "")) P(y_t_r, 2, 3, run(0, "tutu", "ruru", "", ""))
P(y_D_T, 2, 3, run(0, "DuDu", "Tuwu", "", "")) P(y_R_W, 2, 3, run(0, "RuRu", "WuWu", "", "")) P(y_c_rk, 2, 3, run(0, "cu", "ruk0ru", "", "")) P(y_e_rk, 2, 3, run(0, "eu", "ruk0ru", "", ""))
P(y_r_r, 2, 3, run(0, "ruru", "ruru", "", "")) P(y_R_r, 2, 3, run(0, "RuRu", "ruru", "", "")) P(y_d_r, 2, 3, run(0, "dudu", "ruru", "", "")) P(y_rR_dr, 2, 3, run(0, "rRuu", "druu", "", ""))
P(y_r_r_w, 3, 2, run(0, "ru", "ru", "wu", "")) P(y_R_d_w, 3, 2, run(0, "Ru", "du", "wu", "")) P(y_r_t_r, 3, 2, run(0, "ru", "tu", "ru", "")) P(y_r_w_w, 3, 2, run(0, "ru", "wu", "wu", "")) P(y_r_c_k, 3, 2, run(0, "ru", "cu", "k1ru", "")) P(y_d_d_d, 3, 2, run(0, "du", "du", "du", ""))
P(z_t_r, 2, 3, held(1, 0, "tu", "ru", "")) P(z_w_r, 2, 3, held(1, 0, "wu", "ru", "")) P(z_c_k, 2, 3, held(1, 0, "cu", "k0ru", "")) P(z_d_t, 2, 3, held(2, 0, "du", "tu", ""))  P(z_t_r_w, 3, 2, held(1, 0, "tu", "ru", "wu"))
/* all histories of two actors, long enough to wrap the counts; and of one with every operation */
static void hcap(int actors, int steps, const char *ops)
{
  static const char o[] = "rwRWdtDT"; int no = (int)strlen(ops); create(0); a_start(actors, ex);
  for (int s = 0; s < steps; s++)
    {
      int a = 1 + mc_choose(actors), k = mc_choose(no), op = ops[k] == 'u' ? 8 : (int)(strchr(o, ops[k]) - o), w = op != 8 && strchr("wWtT", ops[k]);
      if (a_busy[a] || (op == 8 && !hh[a])) break;
      if (op != 8 && (hh[a] < 0 ? !strchr("RWDT", ops[k]) : hh[a] > 0 && !strchr("rRdDWT", ops[k]))) break;
      if (op != 8 && !w && rd >= 3) break;
      int bw = 0, rd0 = (int)rd, wr0 = (int)wr; for (int i = 1; i <= actors; i++) bw += want(i) == 2;
      if (op == 0 && hh[a] && bw) break;
      a_callt(a, op); check(NA + 1);
      if (!a_busy[a] && op != 8) { if (!w) { if (wr0) MC_ASSERT(a_res[a] != 0, "read lock granted beside a writer"); else if (!bw) MC_EQ(a_res[a], 0, "read lock refused without a writer"); }
                                   else if (rd0 || wr0) MC_ASSERT(a_res[a] != 0, "write lock granted beside a holder"); else MC_EQ(a_res[a], 0, "write lock refused although free"); }
    }
  for (int g = 0; g < 12; g++) { int any = 0; for (int i = 1; i <= actors; i++) if (!a_busy[i] && hh[i]) { any = 1; a_callt(i, 8); check(NA + 1); } if (!any) break; }
  a_stop(); final();
}
P(g1, 3, 2, hcap(1, 6, "rRdDwWTu")) P(g2, 3, 2, hcap(2, 5, "rRdtwu")) P(g2d, 0, 5, hcap(2, 8, "rwtu"))
#undef E
#define E(x) {#x, x, ""}
#undef B
#define B(x, q) {#x, x, q}
mc_scen_t mc_scenarios[] = {E(y_r_w), E(y_rr_w), E(y_R_w), E(y_d_w), B(y_t_r, "q=3 t=u"), B(y_D_T, "q=3 t=u"), E(y_R_W), B(y_c_rk, "q=3 t=u"), B(y_e_rk, "q=3 t=u"), E(y_r_r), E(y_R_r), E(y_d_r), E(y_rR_dr),
  B(y_r_r_w, "q=2 t=u"), B(y_R_d_w, "q=2 t=u"), B(y_r_t_r, "q=2 t=u"), B(y_r_w_w, "q=2 t=u"), B(y_r_c_k, "q=2 t=u"), B(y_d_d_d, "q=2 t=u"), E(z_t_r), E(z_w_r), E(z_c_k), E(z_d_t), B(z_t_r_w, "q=2 t=u"),
  B(g1, "q=1 t=2"), B(g2, "q=1 t=2"), B(g2d, "q=- t=1"), {0, 0, 0}};
