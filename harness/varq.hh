// Queries about variables against the model.
#pragma once
#include "gops.hh"
// ---------------------------------------------------------------- all queries about variables against the model
inline void variables(Sys &s, const std::vector<int> &ord, const char *when) {   // ord: ids from top to bottom
  int N = (int)ord.size(); mc::ops(4 * N + 6);
  MC_CHECK(Cal_BddVars(s.m) == N, "%s: Cal_BddVars = %ld, expected %d", when, (long)Cal_BddVars(s.m), N);
  for (int i = 0; i < N; i++) {
    Cal_Bdd a = Cal_BddManagerGetVarWithIndex(s.m, i), b = Cal_BddManagerGetVarWithId(s.m, ord[i]);
    MC_CHECK(a && a == b, "%s: the variable at index %d is not the one with id %d", when, i, ord[i]);
    MC_CHECK(Cal_BddGetIfIndex(s.m, b) == i && Cal_BddGetIfId(s.m, b) == ord[i], "%s: variable with id %d answers index %d, id %d; expected index %d", when, ord[i], Cal_BddGetIfIndex(s.m, b), Cal_BddGetIfId(s.m, b), i);
    MC_CHECK(Cal_BddType(s.m, b) == CAL_BDD_TYPE_POSVAR, "%s: variable with id %d is not a variable", when, ord[i]);
  }
  for (int i : {N, N + 1, N + 100, 65535}) if (i <= 65535) MC_CHECK(!Cal_BddManagerGetVarWithIndex(s.m, i), "%s: GetVarWithIndex(%d) with %d variables is not null", when, i, N);
  for (int i : {0, N + 1, N + 100, 65535}) if (i <= 65535) MC_CHECK(!Cal_BddManagerGetVarWithId(s.m, i), "%s: GetVarWithId(%d) with %d variables is not null", when, i, N);
}
