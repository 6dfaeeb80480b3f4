// Merging and splitting edges: layout, arrows, signs; and the fused edge operator as a composition.
#include "bridge.hpp"
using Groups = std::vector<std::pair<std::string, std::vector<std::string>>>;
using SplitPlan = std::map<std::string, std::vector<std::pair<std::string, ref::Edge>>>;
using TSplit = std::map<Name, std::vector<std::tuple<Name, TAT::BoseEdge<Symmetry>>>>;

static Gen small(Src& src) {
   Gen g;
   g.max_dim = 2 + int(src.coin(1, 5));
   g.cap = 600;
   g.zero_per_mille = src.coin(1, 12) ? 150 : 0;
   return g;
}
static TSplit plan_to(const SplitPlan& p) {
   TSplit r;
   for (auto& [n, v] : p) {
      auto& x = r[n];
      for (auto& [m, e] : v) x.push_back({Name(m), bose_edge_to(e)});
   }
   return r;
}
static std::set<std::string> marks(bool apply, const std::set<std::string>& ex, const std::vector<std::string>& all) {
   std::set<std::string> r;
   for (auto& n : all)
      if (apply != bool(ex.count(n))) r.insert(n);
   return r;
}
static NameSet ns(const std::set<std::string>& s) {
   return NameSet(s.begin(), s.end());
}
static std::set<std::string> some(Src& src, const std::vector<std::string>& v, int num = 1, int den = 3) {
   std::set<std::string> r;
   for (auto& n : v)
      if (src.coin(num, den)) r.insert(n);
   return r;
}
// random disjoint groups over names; every name ends in exactly one group (size 1 = untouched, keeps its name)
static Groups gen_groups(Src& src, const std::vector<std::string>& names, const std::string& prefix, int max_group = 4) {
   Groups g;
   auto pool = names;
   std::vector<std::string> order;
   for (int i : src.permutation(int(pool.size()))) order.push_back(pool[i]);
   size_t p = 0;
   while (p < order.size()) {
      size_t n = 1 + src.weighted({4, 3, 2, 1});
      n = std::min({n, order.size() - p, size_t(max_group)});
      std::vector<std::string> mem(order.begin() + p, order.begin() + p + n);
      p += n;
      if (n == 1 && !src.coin(1, 4)) g.push_back({mem[0], mem});
      else g.push_back({prefix + std::to_string(g.size()), mem});
   }
   return g;
}
static bool odd_present(const ref::T& r) {
   for (auto& e : r.edges)
      for (auto& s : e.segs)
         if (ref::odd(KIND, s.s)) return true;
   return false;
}

PBT_TEST(merge_edge_layout, 50) {
   auto g = small(src);
   auto r = src.coin(1, 60) ? gen_large(src, gen_names(src, int(src.range(2, 5)))) : gen_tensor(src, gen_names(src, int(src.range(0, 6))), g);
   auto groups = gen_groups(src, r.names, "M");
   // the library's map: only real groups, sometimes with names that do not exist
   std::map<Name, std::vector<Name>> m;
   std::vector<std::string> merged_names;
   for (auto& [n, mem] : groups)
      if (n[0] == 'M') {
         std::vector<Name> v;
         for (auto& x : mem) {
            if (src.coin(1, 10)) v.push_back("absent");
            v.push_back(x);
         }
         m[n] = v;
         merged_names.push_back(n);
      }
   bool empty_group = src.coin(1, 12);
   if (empty_group) {
      m["Mempty"] = {};
      merged_names.push_back("Mempty");
   }
   bool apply = src.coin();
   auto ex_merge = some(src, merged_names), ex_rev = some(src, r.names);
   // documented position rule: a group goes where its last listed member was
   Groups target;
   if (empty_group) target.push_back({"Mempty", {}});
   for (auto& n : r.names)
      for (auto& gr : groups)
         if (gr.second.back() == n) target.push_back(gr);
   src.note("merge " + ref::show(r) + (apply ? " apply" : ""));
   for (auto& [n, mem] : target) {
      src.note(" " + n + "<-");
      for (auto& x : mem) src.note(x);
   }
   std::vector<std::string> tn;
   for (auto& x : target) tn.push_back(x.first);
   auto want = ref::normalize(ref::merge(r, target, marks(apply, ex_rev, r.names), marks(apply, ex_merge, tn)));
   auto t = to_tat(r);
   auto got = t.merge_edge(m, apply, ns(ex_merge), ns(ex_rev));
   same(got, want, "merge_edge");
   unchanged(t, r);
   bool real = false;
   for (auto& x : target) real |= x.second.size() > 1;
   src.nontrivial = real && nonzeros(r) > 1 && (!is_fermi_v || odd_present(r));
}

PBT_TEST(split_edge_inverts_layout, 40) {
   auto g = small(src);
   // build the finer tensor first, fuse it in the model, and let the library split it
   int rank = int(src.range(1, 6));
   auto names = gen_names(src, rank);
   std::vector<ref::Edge> edges;
   for (int i = 0; i < rank; i++) edges.push_back(gen_edge(src, g));
   close_edges(src, edges, g);
   cap_edges(edges, g.cap);
   // contiguous groups
   Groups groups;
   SplitPlan plan;
   for (int p = 0; p < rank;) {
      int n = std::min(rank - p, 1 + int(src.weighted({3, 3, 2, 1})));
      std::vector<std::string> mem(names.begin() + p, names.begin() + p + n);
      if (is_fermi_v)
         for (int i = 1; i < n; i++) edges[p + i].arrow = edges[p].arrow;
      if (n == 1 && !src.coin(1, 4)) groups.push_back({mem[0], mem});
      else {
         auto name = "S" + std::to_string(groups.size());
         groups.push_back({name, mem});
         for (int i = 0; i < n; i++) plan[name].push_back({mem[i], edges[p + i]});
      }
      p += n;
   }
   auto fine = ref::make(KIND, names, edges); // deliberately not normalised: the given pieces may have unused sectors
   fill(fine, src.draw(1 << 16), is_cplx);
   auto coarse = ref::merge(fine, groups, {}, {});
   for (size_t i = 0; i < groups.size(); i++) // the fused edge carries the members' common arrow
      coarse.edges[i].arrow = fine.edges[fine.find(groups[i].second[0])].arrow, coarse.edges[i].arrow_any = false;
   coarse = ref::normalize(coarse);
   bool apply = src.coin();
   std::vector<std::string> cn = coarse.names;
   auto ex = some(src, cn);
   auto want = ref::normalize(ref::split(coarse, plan, marks(apply, ex, cn)));
   src.note("split " + ref::show(coarse) + " into " + ref::show(fine) + (apply ? " apply" : ""));
   auto t = to_tat(coarse);
   auto tp = plan_to(plan);
   if (src.coin(1, 8)) tp["absent"] = {{Name("X1"), TAT::BoseEdge<Symmetry>(1)}};
   auto got = t.split_edge(tp, apply, ns(ex));
   same(got, want, "split_edge");
   unchanged(t, coarse);
   // merging back with the same parity choice restores the tensor when nothing was pruned from the pieces
   bool pruned = false;
   for (int i = 0; i < want.rank(); i++) pruned |= !(want.edges[i].segs == edges[i].segs);
   if (!pruned && !plan.empty()) {
      std::map<Name, std::vector<Name>> m;
      std::vector<std::string> gn;
      for (auto& [n, mem] : groups)
         if (plan.count(n)) {
            m[n] = names_to(mem);
            gn.push_back(n);
         }
      auto back = got.merge_edge(m, apply, ns(ex), NameSet{});
      auto w = coarse;
      for (size_t i = 0; i < groups.size(); i++)
         if (plan.count(groups[i].first)) {
            bool valid = false;
            for (auto& [mn, e] : plan[groups[i].first]) valid |= e.arrow_valid();
            w.edges[i].arrow_any = !valid && plan[groups[i].first].size() != 1;
         }
      same(back, w, "split then merge");
   }
   src.nontrivial = !plan.empty() && nonzeros(coarse) > 1 && coarse.rank() < fine.rank() && (!is_fermi_v || odd_present(fine));
}
PBT_TEST(empty_split_removes_trivial_edge, 3) {
   auto g = small(src);
   auto r = gen_tensor(src, gen_names(src, int(src.range(0, 4))), g);
   if (nblocks(r) == 0) throw pbt::Discard();
   // append a trivial edge in the model, split it into nothing
   int p = int(src.range(0, r.rank()));
   auto s = r;
   ref::Edge e;
   e.segs = {{ref::Sym{}, 1}};
   if (is_fermi_v) e.arrow = src.coin();
   s.edges.insert(s.edges.begin() + p, e);
   s.names.insert(s.names.begin() + p, "Z");
   src.note("split Z of " + ref::show(s) + " into nothing");
   auto t = to_tat(s);
   TSplit plan;
   plan["Z"] = {};
   same(t.split_edge(plan, src.coin()), r, "split into nothing");
   std::map<Name, std::vector<Name>> m;
   m["Z"] = {};
   auto back = to_tat(r).merge_edge(m, src.coin());
   auto w = s;
   w.edges.erase(w.edges.begin() + p);
   w.names.erase(w.names.begin() + p);
   e.arrow_any = true;
   w.edges.insert(w.edges.begin(), e);
   w.names.insert(w.names.begin(), "Z");
   same(back, w, "merge of nothing");
   src.nontrivial = nonzeros(r) > 1;
}
