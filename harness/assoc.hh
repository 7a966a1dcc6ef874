// variable associations in harnesses
#pragma once
#include "fixtures.hh"
// current association: bind the variables of `set` (model numbers). mode 0 temporary/list, 1 temporary/pairs (bound to One), 2 registered/list,
// 3 registered/pairs (bound to their own complement), 4 temporary built with augment one by one, 5 registered, listed in reverse
struct Bind {
  Sys &s; int id = -1, old = -1; bool temp;
  static const int MODES = 6;
  Bind(Sys &s_, unsigned set, int mode) : s(s_) {
    std::vector<Cal_Bdd> a; std::vector<Cal_Bdd> tofree;
    bool pairs = mode == 1 || mode == 3; temp = mode == 0 || mode == 1 || mode == 4;
    for (int v = 0; v < s.n; v++) if (set >> v & 1) {
      a.push_back(s.var[v]);
      if (mode == 1) a.push_back(Cal_BddOne(s.m));
      if (mode == 3) { Cal_Bdd x = Cal_BddNot(s.m, s.var[v]); a.push_back(x); tofree.push_back(x); }
    }
    if (mode == 5) std::reverse(a.begin(), a.end());
    a.push_back(nullptr);
    if (mode == 4) {
      Cal_Bdd none[1] = {nullptr}; Cal_TempAssociationInit(s.m, none, 0);
      for (size_t i = 0; i + 1 < a.size(); i++) { Cal_Bdd one[2] = {a[i], nullptr}; Cal_TempAssociationAugment(s.m, one, 0); }
    } else if (temp) Cal_TempAssociationInit(s.m, a.data(), pairs);
    else { id = Cal_AssociationInit(s.m, a.data(), pairs); MC_CHECK(id >= 0, "Cal_AssociationInit returned %d", id); }
    mc::op("bind set %x, mode %d -> association %d", set, mode, id);
    for (auto x : tofree) s.free(x);
    old = Cal_AssociationSetCurrent(s.m, temp ? -1 : id);
  }
  ~Bind() {}
  void end() { if (temp) Cal_TempAssociationQuit(s.m); else Cal_AssociationQuit(s.m, id); }
};
inline Cal_Bdd *vec(std::vector<Cal_Bdd> &a) { a.push_back(nullptr); return a.data(); }
