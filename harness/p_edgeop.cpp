// The combined edge operator equals cut, rename, split, reverse, transpose, merge done one by one.
#include "bridge.hpp"
#include "edgeop_case.hpp"
using TSplit = std::map<Name, std::vector<std::tuple<Name, TAT::BoseEdge<Symmetry>>>>;

static NameSet ns(const std::set<std::string>& s) {
   return NameSet(s.begin(), s.end());
}
static Tensor library(const Tensor& t, const Case& c) {
   std::map<Name, Name> rn;
   for (auto& [a, b] : c.rename) rn[a] = b;
   TSplit sp;
   for (auto& [n, v] : c.split) {
      auto& x = sp[n];
      for (auto& [m, e] : v) x.push_back({Name(m), bose_edge_to(e)});
   }
   std::map<Name, std::vector<Name>> mm;
   std::vector<Name> target;
   for (auto& [n, mem] : c.target) {
      target.push_back(n);
      if (n[0] == 'M') mm[n] = names_to(mem);
   }
   std::map<Name, std::map<Symmetry, TAT::Size>> ct;
   for (auto& [n, v] : c.cut)
      for (auto& [s, d] : v) ct[n][sym_to(s)] = d;
   return t.edge_operator(rn, sp, ns(c.reversed), mm, target, c.apply, std::array<NameSet, 4>{{ns(c.ex[0]), ns(c.ex[1]), ns(c.ex[2]), ns(c.ex[3])}}, ct);
}
PBT_TEST(edge_operator_is_composition, 40) {
   auto c = gen_case(src);
   describe(src, c);
   auto t = to_tat(c.source);
   auto want = model(c);
   same(library(t, c), want, "edge_operator");
   unchanged(t, c.source);
   bool merged = false;
   for (auto& x : c.target) merged |= x.second.size() > 1;
   int features = !c.cut.empty() + !c.rename.empty() + !c.split.empty() + (is_fermi_v && !c.reversed.empty()) + merged;
   src.nontrivial = features >= 2 && nonzeros(want) > 1;
   src.label("features" + std::to_string(features));
}
