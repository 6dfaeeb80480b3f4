// Random requests for the combined edge operator and their meaning, one elementary step after another.
#pragma once
#include "gens.hpp"
using Groups = std::vector<std::pair<std::string, std::vector<std::string>>>;
using SplitPlan = std::map<std::string, std::vector<std::pair<std::string, ref::Edge>>>;
static std::set<std::string> marks(bool apply, const std::set<std::string>& ex, const std::vector<std::string>& all) {
   std::set<std::string> r;
   for (auto& n : all)
      if (apply != bool(ex.count(n))) r.insert(n);
   return r;
}
static std::set<std::string> some(Src& src, const std::vector<std::string>& v, int num = 1, int den = 3) {
   std::set<std::string> r;
   for (auto& n : v)
      if (src.coin(num, den)) r.insert(n);
   return r;
}
static std::string join(const std::vector<std::string>& v) {
   std::string r;
   for (auto& x : v) r += (r.empty() ? "" : ",") + x;
   return r;
}

struct Case {
   ref::T source;
   std::map<std::string, std::map<ref::Sym, int>> cut;
   std::map<std::string, std::string> rename;
   SplitPlan split;
   std::set<std::string> reversed;
   Groups target; // in final order
   bool apply;
   std::set<std::string> ex[4];
   std::vector<std::string> fine_names;
};
static Case gen_case(Src& src) {
   Case c;
   Gen g;
   g.max_dim = 2 + int(src.coin(1, 5));
   g.cap = 500;
   g.zero_per_mille = src.coin(1, 16) ? 120 : 0;
   int rank = int(src.range(1, 6));
   auto names = gen_names(src, rank);
   std::vector<ref::Edge> edges;
   for (int i = 0; i < rank; i++) edges.push_back(gen_edge(src, g));
   close_edges(src, edges, g);
   cap_edges(edges, g.cap);
   Groups pre;
   std::vector<std::string> coarse_after_rename;
   for (int p = 0; p < rank;) {
      int n = std::min(rank - p, 1 + int(src.weighted({5, 3, 1})));
      std::vector<std::string> mem(names.begin() + p, names.begin() + p + n);
      if (is_fermi_v)
         for (int i = 1; i < n; i++) edges[p + i].arrow = edges[p].arrow;
      std::string after = n == 1 && !src.coin(1, 6) ? mem[0] : "S" + std::to_string(pre.size());
      std::string before = src.coin(1, 3) ? "R" + std::to_string(pre.size()) : after;
      if (before != after) c.rename[before] = after;
      if (after[0] == 'S')
         for (int i = 0; i < n; i++) c.split[after].push_back({mem[i], edges[p + i]});
      pre.push_back({before, mem});
      p += n;
   }
   auto fine = ref::make(KIND, names, edges);
   fill(fine, src.draw(1 << 16), is_cplx);
   auto coarse = ref::merge(fine, pre, {}, {});
   for (size_t i = 0; i < pre.size(); i++) coarse.edges[i].arrow = fine.edges[fine.find(pre[i].second[0])].arrow, coarse.edges[i].arrow_any = false;
   c.source = ref::normalize(coarse);
   c.fine_names = names;
   if (src.coin(1, 4))
      for (size_t i = 0; i < pre.size(); i++) {
         auto after = c.rename.count(pre[i].first) ? c.rename[pre[i].first] : pre[i].first;
         if (c.split.count(after) || !src.coin()) continue;
         for (auto& s : c.source.edges[i].segs)
            if (src.coin()) c.cut[pre[i].first][s.s] = int(src.range(0, s.dim + 1));
         if (src.coin(1, 4)) c.cut[pre[i].first][ref::Sym{KIND == ref::Kind::No || KIND == ref::Kind::Z2 ? 0 : 7, 0}] = 1;
         if (is_nosym) // removing the only sector is outside the domain
            for (auto& [s, d] : c.cut[pre[i].first]) d = std::max(d, 1);
      }
   if (src.coin()) c.reversed = some(src, names, 1, 2);
   // target
   std::vector<std::string> order;
   for (int i : src.permutation(rank)) order.push_back(names[i]);
   bool do_merge = src.coin();
   for (size_t p = 0; p < order.size();) {
      size_t n = do_merge ? 1 + src.weighted({4, 3, 2, 1}) : 1;
      n = std::min(n, order.size() - p);
      std::vector<std::string> mem(order.begin() + p, order.begin() + p + n);
      p += n;
      if (n == 1 && !(do_merge && src.coin(1, 5))) c.target.push_back({mem[0], mem});
      else c.target.push_back({"M" + std::to_string(c.target.size()), mem});
   }
   c.apply = src.coin();
   std::vector<std::string> cn;
   for (auto& p : c.source.names) cn.push_back(c.rename.count(p) ? c.rename[p] : p);
   c.ex[0] = some(src, cn);
   c.ex[1] = some(src, names);
   c.ex[2] = some(src, names);
   std::vector<std::string> tn;
   for (auto& x : c.target) tn.push_back(x.first);
   c.ex[3] = some(src, tn);
   return c;
}
static ref::T model(const Case& c) {
   auto r = ref::rename(ref::cut(c.source, c.cut), c.rename);
   r = ref::split(r, c.split, marks(c.apply, c.ex[0], r.names));
   r = ref::reverse(r, c.reversed, marks(c.apply, c.ex[1], r.names));
   std::vector<std::string> tn;
   for (auto& x : c.target) tn.push_back(x.first);
   return ref::normalize(ref::merge(r, c.target, marks(c.apply, c.ex[2], c.fine_names), marks(c.apply, c.ex[3], tn)));
}
static void describe(Src& src, const Case& c) {
   src.note("edge_operator on " + ref::show(c.source));
   for (auto& [n, v] : c.cut) src.note(" cut " + n);
   for (auto& [a, b] : c.rename) src.note(" " + a + "->" + b);
   for (auto& [n, v] : c.split) {
      src.note(" split " + n + ":");
      for (auto& [m, e] : v) src.note(m + ref::show(e, KIND));
   }
   for (auto& n : c.reversed) src.note(" reverse " + n);
   src.note(" to");
   for (auto& [n, m] : c.target) src.note(" " + n + "(" + join(m) + ")");
   src.note(c.apply ? " apply_parity" : "");
   for (int i = 0; i < 4; i++) src.note(" ex" + std::to_string(i) + "={" + join({c.ex[i].begin(), c.ex[i].end()}) + "}");
}
