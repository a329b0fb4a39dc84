/* C05 with tiny counters (INT_MAX is 5 in this flavour): the count of waiters that left by timeout or cancellation is
   folded back into the count of blocked ones within the search. */
#define mc_scenarios mc_unused_
#include "c05.c"
#undef mc_scenarios
#define P(nm, lo, n, call) static void nm(void) { pre_ = lo + mc_choose(n); call; }
P(y_t_s, 0, 3, logrun(2, "t", "s", "", "")) P(y_tt_s, 0, 2, logrun(2, "tt", "s", "", "")) P(y_pt_s, 0, 2, logrun(2, "pt", "s", "", "")) P(y_t_b, 0, 2, logrun(2, "t", "bs", "", "")) P(y_c_k, 0, 2, logrun(2, "c", "k0", "", "")) P(y_c_ks, 0, 2, logrun(2, "c", "k0s", "", ""))
P(y_pw_s, 0, 2, logrun(2, "ppw", "s", "", "")) P(y_p_p_s, 0, 2, logrun(3, "p", "p", "s", "")) P(y_t_w_s, 1, 1, logrun(3, "t", "w", "s", "")) P(y_t_w_b, 1, 1, logrun(3, "t", "w", "b", "")) P(y_t_t_s, 0, 2, logrun(3, "t", "t", "s", "")) P(y_c_w_ks, 1, 1, logrun(3, "c", "w", "k0s", "")) P(y_p_w_s, 0, 2, logrun(3, "p", "w", "s", "")) P(y_pp_w_s, 0, 2, logrun(3, "pp", "w", "s", "")) P(y_tw_s_s, 1, 1, logrun(3, "tw", "s", "s", "")) P(y_p_w_ss, 1, 1, logrun(3, "p", "w", "ss", ""))
P(g2, 0, 2, hist(5, 2, 2)) P(g3, 0, 2, hist(5, 3, 1)) P(g3d, 0, 2, hist(6, 3, 3))
#undef E
#define E(x) {#x, x, ""}
#undef B
#define B(x, q) {#x, x, q}
mc_scen_t mc_scenarios[] = {E(y_t_s), E(y_tt_s), E(y_pt_s), E(y_t_b), E(y_c_k), E(y_c_ks), E(y_pw_s), B(y_p_p_s, "q=2 t=u"), B(y_t_w_s, "q=2 t=u"), B(y_t_w_b, "q=2 t=u"), B(y_t_t_s, "q=1 t=u"), B(y_c_w_ks, "q=2 t=u"), B(y_p_w_s, "q=2 t=u"), B(y_pp_w_s, "q=2 t=u"), B(y_tw_s_s, "q=1 t=u"), B(y_p_w_ss, "q=2 t=u"),
  B(g2, "q=1 t=u"), B(g3, "q=- t=2"), B(g3d, "q=- t=1"), {0, 0, 0}};
