// Transposing by names permutes axes, with the graded sign for odd sectors.
#include "bridge.hpp"

static std::vector<std::string> shuffled(Src& src, const std::vector<std::string>& n) {
   std::vector<std::string> r;
   for (int i : src.permutation(int(n.size()))) r.push_back(n[i]);
   return r;
}
static ref::T gen(Src& src, int max_rank) {
   Gen g;
   g.zero_per_mille = src.coin(1, 12) ? 150 : 0;
   if (src.coin(1, 4)) { // long thin tensors reach the multi-axis copy loops
      g.max_dim = 7;
      g.cap = 3000;
   }
   int rank = int(src.range(0, max_rank));
   if (rank >= 6) g.max_sectors = 2, g.max_dim = 2, g.cap = 2000;
   return gen_tensor(src, gen_names(src, rank), g);
}
static bool sign_active(const ref::T& r) {
   for (auto& e : r.edges)
      for (auto& s : e.segs)
         if (ref::odd(KIND, s.s)) return true;
   return !is_fermi_v;
}

PBT_TEST(transpose_is_graded_permutation, 60) {
   auto r = gen(src, 8);
   auto target = shuffled(src, r.names);
   src.note("transpose " + ref::show(r) + " to ");
   for (auto& n : target) src.note(n);
   auto t = to_tat(r);
   auto got = t.transpose(names_to(target));
   same(got, ref::normalize(ref::permute_names(r, target)), "transpose");
   unchanged(t, r);
   src.nontrivial = target != r.names && nonzeros(r) > 1 && sign_active(r);
   src.label("rank" + std::to_string(r.rank()));
}
PBT_TEST(transpose_composes_and_inverts, 20) {
   auto r = gen(src, 6);
   auto p = shuffled(src, r.names), q = shuffled(src, r.names);
   src.note("two transposes of " + ref::show(r));
   auto t = to_tat(r);
   auto two = t.transpose(names_to(p)).transpose(names_to(q));
   same(two, to_ref(t.transpose(names_to(q))), "transpose twice vs once");
   same(two.transpose(names_to(r.names)), r, "transpose there and back");
   src.nontrivial = p != r.names && q != p && nonzeros(r) > 1 && sign_active(r);
}
PBT_TEST(rename_keeps_data, 10) {
   auto r = gen(src, 6);
   // a permutation of the names, or fresh names, or absent ones
   std::map<Name, Name> m;
   std::map<std::string, std::string> rm;
   auto perm = shuffled(src, r.names);
   int mode = int(src.draw(3));
   for (int i = 0; i < r.rank(); i++) {
      if (mode == 0) rm[r.names[i]] = perm[i];
      else if (src.coin()) rm[r.names[i]] = "new" + std::to_string(i);
   }
   if (mode == 2) rm["absent"] = "whatever";
   for (auto& [a, b] : rm) m[a] = b;
   src.note("rename " + ref::show(r));
   auto t = to_tat(r);
   auto got = t.edge_rename(m);
   auto want = ref::rename(r, rm);
   same(got, want, "edge_rename");
   // renaming inside the combined operator followed by a transpose
   auto target = shuffled(src, want.names);
   auto got2 = t.edge_operator(m, {}, {}, {}, names_to(target));
   same(got2, ref::normalize(ref::permute_names(want, target)), "rename+transpose");
   unchanged(t, r);
   src.nontrivial = want.names != r.names && nonzeros(r) > 1;
}
PBT_TEST(reverse_edge_signs, 10) {
   auto r = gen(src, 5);
   std::set<std::string> rev, ex;
   for (auto& n : r.names) {
      if (src.coin()) rev.insert(n);
      if (src.coin(1, 3)) ex.insert(n);
   }
   bool apply = src.coin();
   std::set<std::string> marked;
   for (auto& n : rev)
      if (apply != bool(ex.count(n))) marked.insert(n);
   src.note("reverse_edge " + ref::show(r) + (apply ? " apply" : ""));
   for (auto& n : rev) src.note(" " + n + (marked.count(n) ? "*" : ""));
   auto t = to_tat(r);
   NameSet tr(rev.begin(), rev.end()), te(ex.begin(), ex.end());
   auto got = t.reverse_edge(tr, apply, std::move(te));
   same(got, ref::reverse(r, rev, marked), "reverse_edge");
   unchanged(t, r);
   src.nontrivial = !rev.empty() && nonzeros(r) > 1 && sign_active(r);
}

// blocks above the small-tensor threshold take a different copy strategy
PBT_TEST(transpose_large_blocks, 1) {
   auto names = gen_names(src, int(src.range(1, 6)));
   auto r = gen_large(src, names);
   auto target = shuffled(src, r.names);
   src.note("large transpose " + ref::show(r) + " to ");
   for (auto& n : target) src.note(n);
   auto t = to_tat(r);
   same(t.transpose(names_to(target)), ref::normalize(ref::permute_names(r, target)), "large transpose");
   src.nontrivial = target != r.names;
}
