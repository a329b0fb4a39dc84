/* C07: cancelling semaphore waits: a cancelled wait takes no token and invents none. */
#include "sem.h"
S(c_k, 2, 0, "ce", "k0", "", "") S(d_k, 2, 0, "de", "k0", "", "") S(c_pk, 2, 0, "ce", "pk0", "", "") S(c_kp, 2, 0, "ce", "k0p", "", "") S(d_pk, 2, 0, "de", "pk0", "", "") S(d_kp, 2, 0, "de", "k0p", "", "") S(c_kT, 2, 1, "cce", "k0TpT", "", "") S(c_k2, 2, 0, "ce", "k02", "", "") S(cc_pk, 2, 0, "cce", "pk0", "", "") S(d_kD, 2, 0, "de", "k0Dp", "", "")
S(c_k_p, 3, 0, "ce", "k0", "p", "") S(d_k_p, 3, 0, "de", "k0", "p", "") S(c_W_kp, 3, 0, "ce", "W", "k0p", "") S(d_W_kp, 3, 0, "de", "W", "k0p", "") S(c_W_pk, 3, 0, "ce", "W", "pk0", "") S(d_W_pk, 3, 0, "de", "W", "pk0", "") S(c_c_k0k1, 3, 0, "ce", "ce", "k0k1", "") S(c_c_pk0k1, 3, 0, "ce", "ce", "pk0k1", "") S(c_d_2k, 3, 0, "ce", "de", "2k0", "") S(c_k_2, 3, 0, "ce", "k0", "2", "") S(c_k_T, 3, 1, "cce", "k0", "Tp", "") S(c_kW_p, 3, 0, "ce", "k0W", "p", "") S(c_D_kp, 3, 0, "ce", "D", "k0p", "") S(c_k_pT, 3, 0, "ce", "k0", "pT", "") S(d_D_pk, 3, 0, "de", "D", "pk0", "")
S(c_W_k_p, 4, 0, "ce", "W", "k0", "p") S(d_W_k_p, 4, 0, "de", "W", "k0", "p") S(c_W_k_2, 4, 0, "ce", "W", "k0", "2") S(c_c_k0_pk1, 4, 0, "ce", "ce", "k0", "pk1") S(c_W_k_pT, 4, 0, "ce", "W", "k0", "pT") S(d_W_k_2, 4, 0, "de", "W", "k0", "2") S(c_D_k_p, 4, 0, "ce", "D", "k0", "p")
#define E(x) {#x, x, ""}
#define B(x, q) {#x, x, q}
mc_scen_t mc_scenarios[] = {E(c_k), E(d_k), E(c_pk), E(c_kp), E(d_pk), E(d_kp), E(c_kT), E(c_k2), E(cc_pk), E(d_kD), B(c_k_p, "q=3 t=u w=5"), B(d_k_p, "q=3 t=u w=5"), E(c_W_kp), B(d_W_kp, "q=3 t=u"), B(c_W_pk, "q=3 t=u w=5"), B(d_W_pk, "q=3 t=u w=5"), B(c_c_k0k1, "q=3 t=u"), B(c_c_pk0k1, "q=3 t=u"), B(c_d_2k, "q=3 t=u"), B(c_k_2, "q=3 t=u w=5"), B(c_k_T, "q=3 t=u"), B(c_kW_p, "q=3 t=u"), B(c_D_kp, "q=3 t=u"), B(c_k_pT, "q=3 t=u w=5"), B(d_D_pk, "q=3 t=u"),
  B(c_W_k_p, "q=2 t=u"), B(d_W_k_p, "q=2 t=u"), B(c_W_k_2, "q=2 t=u"), B(c_c_k0_pk1, "q=2 t=u"), B(c_W_k_pT, "q=2 t=u"), B(d_W_k_2, "q=2 t=u"), B(c_D_k_p, "q=2 t=u"), {0, 0, 0}};
