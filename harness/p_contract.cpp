// Contraction against the elementwise definition (graded for fermionic kinds, batched for shared names without symmetry).
#include "bridge.hpp"

struct Case {
   ref::T a, b;
   ref::Pairs pairs;
};
static ref::Edge partner_edge(Src& src, const ref::Edge& e, const Gen& g, bool exact) {
   ref::Edge r;
   r.arrow = !e.arrow;
   for (auto& s : e.segs) r.segs.push_back({ref::neg(KIND, s.s), s.dim});
   if (!is_nosym && !exact) {
      // sectors known to one side only
      if (r.segs.size() > 1 && src.coin(1, 3)) r.segs.erase(r.segs.begin() + src.draw(r.segs.size()));
      if (src.coin(1, 3)) {
         auto s = gen_sym(src, g.charge);
         if (!r.find(s) && !e.find(ref::neg(KIND, s))) r.segs.push_back({s, int(src.range(1, g.max_dim))});
      }
   }
   r.sort();
   return r;
}
static void close_with(Src& src, std::vector<ref::Edge>& edges, int which, const Gen& g) {
   if (which < 0 || is_nosym) return;
   std::swap(edges[which], edges.back());
   close_edges(src, edges, g);
   std::swap(edges[which], edges.back());
}
static Case gen_case(Src& src, const Gen& g, int max_common, bool allow_shared_free, bool exact = false) {
   Case c;
   int nc = int(src.range(0, max_common)), fa = int(src.range(0, 3)), fb = int(src.range(0, 3));
   int nshared = allow_shared_free ? int(src.draw(3)) : 0;
   std::vector<std::pair<std::string, ref::Edge>> ea, eb;
   bool tied = src.coin(1, 2); // same names on both sides of a contraction
   std::vector<std::pair<std::string, ref::Edge>> shared;
   for (int i = 0; i < nshared; i++) shared.push_back({"F" + std::to_string(i), gen_edge(src, g)});
   for (int i = 0; i < fa; i++) ea.push_back({"a" + std::to_string(i), gen_edge(src, g)});
   for (int i = 0; i < nc; i++) ea.push_back({(tied ? "c" : "x") + std::to_string(i), gen_edge(src, g)});
   std::vector<ref::Edge> edges;
   for (auto& e : ea) edges.push_back(e.second);
   if (!edges.empty()) close_edges(src, edges, g);
   cap_edges(edges, g.cap);
   for (size_t i = 0; i < ea.size(); i++) ea[i].second = edges[i];
   for (int i = 0; i < nc; i++) {
      auto& e = ea[fa + i];
      eb.push_back({(tied ? "c" : "y") + std::to_string(i), partner_edge(src, e.second, g, exact)});
      c.pairs.push_back({e.first, eb.back().first});
   }
   for (int i = 0; i < fb; i++) eb.push_back({"b" + std::to_string(i), gen_edge(src, g)});
   edges.clear();
   for (auto& e : eb) edges.push_back(e.second);
   if (fb) {
      close_edges(src, edges, g);
      size_t com = 1;
      for (int i = 0; i < nc; i++) com *= std::max(1, edges[i].total());
      std::vector<ref::Edge> tail(edges.begin() + nc, edges.end());
      cap_edges(tail, std::max<size_t>(4, g.cap / com));
      std::copy(tail.begin(), tail.end(), edges.begin() + nc);
   }
   for (size_t i = 0; i < eb.size(); i++) eb[i].second = edges[i];
   for (auto& s : shared) {
      ea.push_back(s);
      eb.push_back(s);
   }
   auto build = [&](auto& list) {
      std::vector<std::string> names;
      std::vector<ref::Edge> es;
      for (int i : src.permutation(int(list.size()))) {
         names.push_back(list[i].first);
         es.push_back(list[i].second);
      }
      auto t = ref::normalize(ref::make(KIND, names, es));
      fill(t, src.draw(1 << 16), is_cplx);
      return t;
   };
   c.a = build(ea);
   c.b = build(eb);
   return c;
}
static std::string show(const Case& c) {
   std::string s = "contract " + ref::show(c.a) + " with " + ref::show(c.b) + " over";
   for (auto& [x, y] : c.pairs) s += " " + x + "-" + y;
   return s;
}
static NamePairs pairs_to(const ref::Pairs& p) {
   NamePairs r;
   for (auto& [x, y] : p) r.insert({Name(x), Name(y)});
   return r;
}
// accept the definition; for two or more common edges also exactly the recorded misalignment (KF01)
static void judge(Src& src, const Tensor& got, const Case& c, const std::string& what) {
   auto g = to_ref(got);
   auto want = ref::normalize(ref::contract(c.a, c.b, c.pairs));
   auto m = ref::compare(g, want);
   if (m.empty()) return;
   if (c.pairs.size() >= 2) {
      auto p = c.pairs;
      std::vector<int> idx;
      for (size_t i = 0; i < p.size(); i++) idx.push_back(int(i));
      do {
         ref::Pairs q;
         for (int i : idx) q.push_back(p[i]);
         if (ref::compare(g, ref::normalize(ref::contract_fused_misaligned(c.a, c.b, q))).empty()) {
            src.known_finding("KF01");
            return;
         }
      } while (std::next_permutation(idx.begin(), idx.end()));
   }
   fail(what + ": " + m);
}
static bool odd_common(const Case& c) {
   for (auto& [x, y] : c.pairs)
      for (auto& s : c.a.edges[c.a.find(x)].segs)
         if (ref::odd(KIND, s.s)) return true;
   return false;
}

PBT_TEST(contract_definition, 60) {
   Gen g;
   g.max_dim = 2 + int(src.coin(1, 4));
   g.cap = 300;
   g.zero_per_mille = src.coin(1, 16) ? 120 : 0;
   auto c = gen_case(src, g, src.coin(1, 4) ? 3 : (KIND == ref::Kind::No || KIND == ref::Kind::Z2 ? 3 : 1), false);
   src.note(show(c));
   auto a = to_tat(c.a), b = to_tat(c.b);
   auto p = pairs_to(c.pairs);
   if (src.coin(1, 10)) p.insert({Name("absent"), c.b.names.empty() ? Name("absent") : Name(c.b.names[0])});
   auto got = a.contract(b, NamePairs(p));
   judge(src, got, c, "contract");
   unchanged(a, c.a);
   unchanged(b, c.b);
   auto want = ref::contract(c.a, c.b, c.pairs);
   src.nontrivial = nonzeros(want) > 1 && !c.pairs.empty() && (!is_fermi_v || odd_common(c));
   src.label("common" + std::to_string(c.pairs.size()));
}
// dropping a pair: contracting edge by edge through trace is covered elsewhere; here operand order is exchanged
PBT_TEST(contract_exchange, 10) {
   Gen g;
   g.max_dim = 3;
   g.cap = 200;
   auto c = gen_case(src, g, KIND == ref::Kind::No || KIND == ref::Kind::Z2 ? 3 : 1, false);
   src.note("exchange " + show(c));
   auto a = to_tat(c.a), b = to_tat(c.b);
   ref::Pairs rp;
   for (auto& [x, y] : c.pairs) rp.push_back({y, x});
   auto ab = a.contract(b, pairs_to(c.pairs)), ba = b.contract(a, pairs_to(rp));
   same(ab, to_ref(ba.transpose(ab.names)), "A*B vs B*A");
   src.nontrivial = nonzeros(to_ref(ab)) > 1 && !c.pairs.empty() && (!is_fermi_v || odd_common(c));
}
PBT_TEST(contract_all_same_names, 8) {
   Gen g;
   g.max_dim = 2;
   g.cap = 200;
   auto c = gen_case(src, g, KIND == ref::Kind::No || KIND == ref::Kind::Z2 ? 3 : 1, false, true);
   std::map<std::string, std::string> rn;
   for (auto& [x, y] : c.pairs) rn[y] = x;
   c.b = ref::rename(c.b, rn);
   for (auto& [x, y] : c.pairs) y = x;
   src.note("contract_all_edge " + show(c));
   auto a = to_tat(c.a), b = to_tat(c.b);
   judge(src, a.contract_all_edge(b), c, "contract_all_edge");
   src.nontrivial = nonzeros(c.a) > 1 && nonzeros(c.b) > 1 && !c.pairs.empty();
}
PBT_TEST(contract_large, 1) {
   Gen g;
   g.max_dim = is_nosym ? 24 : 9;
   g.max_sectors = 2;
   g.charge = 1;
   g.cap = 6000;
   auto c = gen_case(src, g, KIND == ref::Kind::No || KIND == ref::Kind::Z2 ? 2 : 1, false);
   src.note("large " + show(c));
   judge(src, to_tat(c.a).contract(to_tat(c.b), pairs_to(c.pairs)), c, "large contract");
   src.nontrivial = !c.pairs.empty() && c.a.size() > 200;
}
#ifdef FUSE
// edges with the same name that are not contracted are kept once and matched position by position
PBT_TEST(contract_shared_names, 40) {
   Gen g;
   g.max_dim = 3;
   g.cap = 120;
   g.zero_per_mille = src.coin(1, 16) ? 120 : 0;
   auto c = gen_case(src, g, 2, true);
   src.note("batched " + show(c));
   auto a = to_tat(c.a), b = to_tat(c.b);
   auto got = a.contract(b, pairs_to(c.pairs));
   unchanged(a, c.a);
   unchanged(b, c.b);
   auto gr = to_ref(got);
   std::set<std::string> ca, cb;
   for (auto& [x, y] : c.pairs) ca.insert(x), cb.insert(y);
   std::set<std::string> fused;
   for (auto& n : c.a.names)
      if (c.b.find(n) >= 0 && !ca.count(n) && !cb.count(n)) fused.insert(n);
   // expected order: the shared names first (in any order), then what is left of the operands
   std::vector<std::string> order;
   require(gr.names.size() >= fused.size(), "too few edges in the result");
   std::set<std::string> head(gr.names.begin(), gr.names.begin() + fused.size());
   require(head == fused, "shared names are not the leading edges of the result: " + ref::show(gr));
   order.assign(gr.names.begin(), gr.names.begin() + fused.size());
   std::vector<ref::Edge> edges;
   for (auto& n : order) edges.push_back(c.a.edges[c.a.find(n)]);
   std::vector<std::string> fa, fb;
   for (auto& n : c.a.names)
      if (!ca.count(n) && !fused.count(n)) fa.push_back(n), order.push_back(n), edges.push_back(c.a.edges[c.a.find(n)]);
   for (auto& n : c.b.names)
      if (!cb.count(n) && !fused.count(n)) fb.push_back(n), order.push_back(n), edges.push_back(c.b.edges[c.b.find(n)]);
   auto want = ref::make(KIND, order, edges);
   auto wd = want.dims(), ad = c.a.dims(), bd = c.b.dims();
   std::vector<int> cd;
   for (auto& [x, y] : c.pairs) cd.push_back(c.a.edges[c.a.find(x)].total());
   ref::each(wd, [&](const std::vector<int>& idx) {
      std::vector<int> ai(c.a.rank(), 0), bi(c.b.rank(), 0);
      for (size_t i = 0; i < order.size(); i++) {
         bool f = fused.count(order[i]);
         if (f || i < fused.size() + fa.size()) ai[c.a.find(order[i])] = idx[i];
         if (f || i >= fused.size() + fa.size()) bi[c.b.find(order[i])] = idx[i];
      }
      ref::cd sum = 0;
      ref::each(cd, [&](const std::vector<int>& k) {
         for (size_t i = 0; i < k.size(); i++) {
            ai[c.a.find(c.pairs[i].first)] = k[i];
            bi[c.b.find(c.pairs[i].second)] = k[i];
         }
         sum += c.a.data[ref::flat(ad, ai)] * c.b.data[ref::flat(bd, bi)];
      });
      want.data[ref::flat(wd, idx)] = sum;
   });
   auto m = ref::compare(gr, want);
   if (!m.empty()) fail("batched contract: " + m);
   src.nontrivial = !fused.empty() && nonzeros(want) > 1;
   src.label("shared" + std::to_string(fused.size()));
}
#endif
