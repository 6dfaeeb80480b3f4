// Conjugation.
#include "bridge.hpp"
static ref::T gen(Src& src, int lo, int hi, size_t cap = 200) {
   Gen g;
   g.cap = cap;
   g.zero_per_mille = src.coin(1, 16) ? 120 : 0;
   return gen_tensor(src, gen_names(src, int(src.range(lo, hi))), g);
}
static bool has_odd(const ref::T& t) {
   for (auto& e : t.edges)
      for (auto& s : e.segs)
         if (ref::odd(KIND, s.s)) return true;
   return false;
}
PBT_TEST(conjugate_definition, 40) {
   auto t = gen(src, 0, 6);
   src.note("conjugate " + ref::show(t));
   auto T = to_tat(t);
   auto C = T.conjugate();
   same(C, ref::conjugate(t), "conjugate");
   unchanged(T, t);
   same(C.conjugate(), t, "conjugate twice");
   src.nontrivial = nonzeros(t) > 1 && (!is_fermi_v || has_odd(t));
}
// <T|T> over one edge at a time is what the model says, and over all edges of a (possibly merged) single edge the norm
PBT_TEST(conjugate_contract, 20) {
   auto t = gen(src, 1, 4, 80);
   auto T = to_tat(t);
   std::string e = t.names[src.draw(t.names.size())];
   src.note("contract with conjugate over " + e + ": " + ref::show(t));
   std::map<std::string, std::string> rn;
   for (auto& n : t.names) rn[n] = n + "'";
   std::map<Name, Name> lrn;
   for (auto& [x, y] : rn) lrn[Name(x)] = Name(y);
   auto C = T.conjugate().edge_rename(lrn);
   auto R = T.contract(C, NamePairs{{Name(e), Name(e + "'")}});
   auto want = ref::normalize(ref::contract(t, ref::rename(ref::conjugate(t), rn), {{e, e + "'"}}));
   same(R, want, "T times conj(T)");
   src.nontrivial = nonzeros(t) > 1 && (!is_fermi_v || has_odd(t));
}
PBT_TEST(conjugate_norm, 20) {
   // edges with a single sector: no ambiguity in the fused order, so all edges may be contracted at once for every symmetry
   int rank = int(src.range(1, 5));
   std::vector<ref::Edge> edges;
   ref::Sym sum;
   for (int i = 0; i < rank; i++) {
      ref::Edge e;
      e.arrow = is_fermi_v && src.coin();
      auto s = i + 1 < rank ? gen_sym(src, 2) : ref::neg(KIND, sum);
      sum = ref::add(KIND, sum, s);
      e.segs = {{s, int(src.range(1, 3))}};
      edges.push_back(e);
   }
   auto t = ref::normalize(ref::make(KIND, gen_names(src, rank), edges));
   fill(t, src.draw(1 << 16), is_cplx, 5);
   src.note("norm via conjugate " + ref::show(t));
   auto T = to_tat(t);
   auto z = cd_from(Scalar(T.contract_all_edge()));
   double want = 0;
   int sign = 0;
   for (auto& e : t.edges) sign += !e.arrow && ref::odd(KIND, e.segs[0].s);
   want = ref::norm2(t) * (sign & 1 ? -1 : 1);
   require(z == ref::cd(want), "contract_all_edge() is " + std::to_string(z.real()) + " instead of " + std::to_string(want));
   src.nontrivial = nonzeros(t) > 1 && rank > 1;
}
// conjugation commutes with reordering
PBT_TEST(conjugate_transpose, 15) {
   auto t = gen(src, 1, 5);
   auto T = to_tat(t);
   auto p = src.permutation(t.rank());
   std::vector<Name> order;
   for (int i : p) order.push_back(Name(t.names[i]));
   src.note("conjugate and reorder " + ref::show(t));
   same(T.transpose(order).conjugate(), ref::permute(ref::conjugate(t), p), "conjugate of the transpose");
   src.nontrivial = nonzeros(t) > 1 && t.rank() > 1;
}
