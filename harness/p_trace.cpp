// Partial and full traces against the elementwise diagonal sum (graded for fermionic kinds).
#include "bridge.hpp"

struct Case {
   ref::T t;
   ref::Pairs pairs;
};
static Case gen_case(Src& src, const Gen& g, bool exact_only = false) {
   Case c;
   int np = int(src.range(1, 3)), nf = int(src.range(0, 3));
   if (np == 3) nf = std::min(nf, 1);
   std::vector<std::pair<std::string, ref::Edge>> l;
   Gen gp = g;
   gp.max_dim = np == 1 ? g.max_dim : 2;
   if (np == 3) gp.max_sectors = 2, gp.max_dim = src.coin(1, 4) ? 2 : 1;
   for (int i = 0; i < np; i++) {
      auto e = gen_edge(src, gp);
      auto f = e;
      f.arrow = !e.arrow;
      for (auto& s : f.segs) s.s = ref::neg(KIND, s.s);
      if (!is_nosym && !exact_only && src.coin(1, 4)) { // a sector only one side knows
         if (f.segs.size() > 1 && src.coin()) f.segs.erase(f.segs.begin() + src.draw(f.segs.size()));
         else {
            auto s = gen_sym(src, g.charge);
            if (!f.find(s) && !e.find(ref::neg(KIND, s))) f.segs.push_back({s, int(src.range(1, 2))});
         }
      }
      f.sort();
      std::string n = std::to_string(i);
      l.push_back({"x" + n, e});
      l.push_back({"y" + n, f});
      c.pairs.push_back({"x" + n, "y" + n});
   }
   std::vector<ref::Edge> fe;
   for (int i = 0; i < nf; i++) fe.push_back(gen_edge(src, g));
   if (nf && !src.coin(1, 8)) close_edges(src, fe, g);
   size_t com = 1;
   for (auto& e : l) com *= std::max(1, e.second.total());
   cap_edges(fe, std::max<size_t>(2, g.cap / com));
   for (int i = 0; i < nf; i++) l.push_back({"f" + std::to_string(i), fe[i]});
   std::vector<std::string> names;
   std::vector<ref::Edge> edges;
   for (int i : src.permutation(int(l.size()))) {
      names.push_back(l[i].first);
      edges.push_back(l[i].second);
   }
   c.t = ref::normalize(ref::make(KIND, names, edges));
   fill(c.t, src.draw(1 << 16), is_cplx);
   return c;
}
static NamePairs pairs_to(const ref::Pairs& p) {
   NamePairs r;
   for (auto& [x, y] : p) r.insert({Name(x), Name(y)});
   return r;
}
static std::string show(const Case& c) {
   std::string s = "trace " + ref::show(c.t) + " over";
   for (auto& [x, y] : c.pairs) s += " " + x + "-" + y;
   return s;
}
PBT_TEST(trace_definition, 60) {
   Gen g;
   g.cap = 600;
   g.charge = src.coin(1, 3) ? 2 : 1;
   g.zero_per_mille = src.coin(1, 16) ? 120 : 0;
   auto c = gen_case(src, g);
   // either order inside a pair
   ref::Pairs asked;
   for (auto& [x, y] : c.pairs) asked.push_back(src.coin() ? std::pair{y, x} : std::pair{x, y});
   src.note(show(c));
   auto t = to_tat(c.t);
   auto want = ref::normalize(ref::trace(c.t, c.pairs));
   same(t.trace(pairs_to(asked)), want, "trace");
   unchanged(t, c.t);
   src.nontrivial = nonzeros(want) > (want.rank() ? 1 : 0) && c.t.size() > 2;
   src.label("pairs" + std::to_string(c.pairs.size()));
}
// tracing pair by pair, in any order, gives the same result as tracing all pairs at once
PBT_TEST(trace_sequential, 15) {
   Gen g;
   g.cap = 400;
   g.charge = 1;
   auto c = gen_case(src, g);
   src.note("sequential " + show(c));
   auto t = to_tat(c.t);
   auto all = t.trace(pairs_to(c.pairs));
   auto step = t;
   for (int i : src.permutation(int(c.pairs.size()))) step = step.trace(pairs_to({c.pairs[i]}));
   same(step, to_ref(all), "trace pair by pair");
   src.nontrivial = c.pairs.size() > 1 && nonzeros(to_ref(all)) > 0;
}
// the trace of a product: contracting A with B over all pairs equals tracing the outer product
PBT_TEST(trace_of_outer_product, 15) {
   Gen g;
   g.cap = 40;
   g.max_dim = 2;
   int na = int(src.range(1, 3)), nb = int(src.range(1, 3));
   std::vector<std::string> an, bn;
   std::vector<ref::Edge> ae, be;
   for (int i = 0; i < na; i++) an.push_back("a" + std::to_string(i)), ae.push_back(gen_edge(src, g));
   close_edges(src, ae, g);
   cap_edges(ae, g.cap);
   auto link = src.draw(na);
   for (int i = 0; i < nb; i++) bn.push_back("b" + std::to_string(i)), be.push_back(gen_edge(src, g));
   be[0] = ae[link];
   be[0].arrow = !be[0].arrow;
   for (auto& s : be[0].segs) s.s = ref::neg(KIND, s.s);
   be[0].sort();
   if (nb > 1) {
      close_edges(src, be, g);
      std::vector<ref::Edge> tail(be.begin() + 1, be.end());
      cap_edges(tail, 8);
      std::copy(tail.begin(), tail.end(), be.begin() + 1);
   }
   auto a = ref::normalize(ref::make(KIND, an, ae)), b = ref::normalize(ref::make(KIND, bn, be));
   fill(a, src.draw(1 << 16), is_cplx);
   fill(b, src.draw(1 << 16), is_cplx);
   a = ref::permute(a, src.permutation(na));
   b = ref::permute(b, src.permutation(nb));
   src.note("outer " + ref::show(a) + " x " + ref::show(b) + " over " + an[link] + "-b0");
   if (!nblocks(a) || !nblocks(b)) throw pbt::Discard(); // the outer product of nothing forgets the sectors of the other operand
   auto A = to_tat(a), B = to_tat(b);
   auto outer = A.contract(B, NamePairs{});
   auto traced = outer.trace(NamePairs{{Name(an[link]), Name("b0")}});
   auto direct = A.contract(B, NamePairs{{Name(an[link]), Name("b0")}});
   same(traced, to_ref(direct), "trace of the outer product vs contraction");
   src.nontrivial = nonzeros(to_ref(direct)) > 0 && na + nb > 2;
}
PBT_TEST(trace_large, 1) {
   Gen g;
   g.max_dim = 14;
   g.max_sectors = 2;
   g.charge = 1;
   g.cap = 20000;
   auto c = gen_case(src, g);
   src.note("large " + show(c));
   same(to_tat(c.t).trace(pairs_to(c.pairs)), ref::normalize(ref::trace(c.t, c.pairs)), "large trace");
   src.nontrivial = c.t.size() > 500;
}
