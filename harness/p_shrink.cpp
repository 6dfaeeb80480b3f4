// Fixing edges at a position (shrink) and adding edges at a position (expand).
#include "bridge.hpp"
using Pos = std::map<Name, typename Tensor::EdgePoint>;
using PosArrow = std::map<Name, typename Tensor::EdgePointWithArrow>;

struct Pick {
   std::string name;
   ref::Sym s;
   int index;
};
static ref::T one_hot(const ref::T& t, const std::vector<Pick>& picks, const std::string& extra, bool arrow) {
   std::vector<std::string> names;
   std::vector<ref::Edge> edges;
   ref::Sym total;
   std::vector<int> idx;
   for (auto& p : picks) {
      auto& e = t.edges[t.find(p.name)];
      ref::Edge h;
      h.arrow = !e.arrow;
      h.segs = {{ref::neg(KIND, p.s), e.find(p.s)->dim}};
      total = ref::add(KIND, total, p.s);
      names.push_back(p.name);
      edges.push_back(h);
      idx.push_back(p.index);
   }
   if (!extra.empty()) {
      ref::Edge h;
      h.arrow = arrow;
      h.segs = {{total, 1}};
      names.push_back(extra);
      edges.push_back(h);
      idx.push_back(0);
   }
   auto r = ref::make(KIND, names, edges);
   r.data[ref::flat(r.dims(), idx)] = 1;
   return r;
}
PBT_TEST(shrink_definition, 40) {
   Gen g;
   g.cap = 300;
   auto t = gen_tensor(src, gen_names(src, int(src.range(0, 5))), g);
   std::vector<Pick> picks;
   ref::Sym total;
   for (int i = 0; i < t.rank(); i++) {
      auto& e = t.edges[i];
      if (e.segs.empty() || !src.coin()) continue;
      auto& s = e.segs[src.draw(e.segs.size())];
      picks.push_back({t.names[i], s.s, int(src.draw(s.dim))});
      total = ref::add(KIND, total, s.s);
   }
   bool named = src.coin();
   bool arrow = is_fermi_v && src.coin();
   std::string text = "shrink " + ref::show(t) + (named ? " new edge" : "") + " at";
   for (auto& p : picks) text += " " + p.name + "=" + ref::show(p.s, KIND) + std::to_string(p.index);
   src.note(text);
   Pos c;
   for (auto& p : picks) c[Name(p.name)] = make_point(p.s, p.index);
   if (src.coin(1, 10)) c[Name("absent")] = typename Tensor::EdgePoint();
   auto T = to_tat(t);
   if (!named && total != ref::Sym{}) {
      require(raises([&] { (void)T.shrink(c); }), "removing a charge without a new edge is accepted");
      unchanged(T, t);
      src.nontrivial = true;
      src.label("charge refused");
      return;
   }
   auto R = named ? T.shrink(c, Name("new"), arrow) : T.shrink(c);
   ref::Pairs pairs;
   for (auto& p : picks) pairs.push_back({p.name, p.name});
   auto want = ref::normalize(ref::contract(one_hot(t, picks, named ? "new" : "", arrow), t, pairs));
   same(R, want, "shrink");
   unchanged(T, t);
   if (!is_fermi_v) { // entries are the entries of the slice
      auto rr = to_ref(R);
      std::vector<std::string> rest;
      for (auto& n : rr.names)
         if (n != "new") rest.push_back(n);
      ref::AxisSyms ax(rr.edges);
      auto rd = rr.dims(), td = t.dims();
      ref::each_allowed(rr, [&](const std::vector<int>& idx, size_t f) {
         std::vector<int> ti(t.rank());
         for (auto& p : picks) ti[t.find(p.name)] = t.edges[t.find(p.name)].offset(p.s) + p.index;
         for (int i = 0; i < rr.rank(); i++)
            if (rr.names[i] != "new") ti[t.find(rr.names[i])] = t.edges[t.find(rr.names[i])].offset(ax.s[i][idx[i]]) + ax.pos[i][idx[i]];
         require(rr.data[f] == t.data[ref::flat(td, ti)], "shrink is not the slice");
      });
   }
   src.nontrivial = !picks.empty() && nonzeros(want) > 0;
}
struct New {
   bool arrow;
   ref::Sym s;
   int index, dim;
};
PBT_TEST(expand_definition, 40) {
   Gen g;
   g.cap = 100;
   int rank = int(src.range(0, 3));
   // optional edge of extent one that is replaced
   bool replace = src.coin();
   std::map<std::string, New> news; // in name order
   ref::Sym total;
   int n = int(src.range(replace ? 1 : 0, 3));
   for (int i = 0; i < n; i++) {
      New w{is_fermi_v && src.coin(), gen_sym(src, 2), 0, int(src.range(1, 3))};
      if (!replace && i + 1 == n) w.s = ref::neg(KIND, total);
      total = ref::add(KIND, total, w.s);
      w.index = int(src.draw(w.dim));
      news["n" + std::to_string(i)] = w;
   }
   std::vector<std::string> names = gen_names(src, rank);
   std::vector<ref::Edge> edges;
   for (int i = 0; i < rank; i++) edges.push_back(gen_edge(src, g));
   ref::Edge oe;
   oe.arrow = is_fermi_v && src.coin();
   oe.segs = {{total, 1}};
   if (replace) {
      int at = int(src.draw(rank + 1));
      names.insert(names.begin() + at, "old");
      edges.insert(edges.begin() + at, oe);
   }
   if (!edges.empty() && names.back() != "old") close_edges(src, edges, g);
   cap_edges(edges, g.cap);
   auto t = ref::normalize(ref::make(KIND, names, edges));
   fill(t, src.draw(1 << 16), is_cplx);
   if (replace && t.edges[t.find("old")].segs.empty()) throw pbt::Discard();
   std::string text = "expand " + ref::show(t) + (replace ? " replacing old" : "") + " by";
   for (auto& [k, w] : news) text += " " + k + "{" + ref::show(w.s, KIND) + std::to_string(w.dim) + "}@" + std::to_string(w.index);
   src.note(text);
   PosArrow c;
   for (auto& [k, w] : news) c[Name(k)] = make_point_arrow(w.arrow, w.s, w.index, w.dim);
   auto T = to_tat(t);
   auto R = replace ? T.expand(c, Name("old")) : T.expand(c);
   // model: one-hot tensor times T
   std::vector<std::string> hn;
   std::vector<ref::Edge> he;
   std::vector<int> idx;
   for (auto& [k, w] : news) {
      ref::Edge e;
      e.arrow = w.arrow;
      e.segs = {{w.s, w.dim}};
      hn.push_back(k);
      he.push_back(e);
      idx.push_back(w.index);
   }
   if (replace) {
      ref::Edge e;
      e.arrow = !t.edges[t.find("old")].arrow;
      e.segs = {{ref::neg(KIND, total), 1}};
      hn.push_back("old");
      he.push_back(e);
      idx.push_back(0);
   }
   auto h = ref::make(KIND, hn, he);
   h.data[ref::flat(h.dims(), idx)] = 1;
   ref::Pairs pairs;
   if (replace) pairs.push_back({"old", "old"});
   auto want = ref::normalize(ref::contract(h, t, pairs));
   same(R, want, "expand");
   unchanged(T, t);
   src.nontrivial = !news.empty() && nonzeros(want) > 0 && (is_nosym || replace);
}
// expanding a shrunk edge and shrinking again is the identity
PBT_TEST(shrink_expand_roundtrip, 20) {
   Gen g;
   g.cap = 200;
   auto t = gen_tensor(src, gen_names(src, int(src.range(1, 4))), g);
   int i = int(src.draw(t.rank()));
   if (t.edges[i].segs.empty()) throw pbt::Discard();
   auto s = t.edges[i].segs[src.draw(t.edges[i].segs.size())];
   int at = int(src.draw(s.dim));
   std::string n = t.names[i];
   src.note("shrink " + n + ", expand, shrink again: " + ref::show(t));
   auto T = to_tat(t);
   Pos p;
   PosArrow q;
   p[Name(n)] = make_point(s.s, at);
   q[Name(n)] = make_point_arrow(t.edges[i].arrow, s.s, at, s.dim);
   auto A = T.shrink(p, Name("new"), t.edges[i].arrow);
   auto B = A.expand(q, Name("new"));
   auto C = B.shrink(p, Name("new"), t.edges[i].arrow);
   // for odd fermionic sectors each step may contribute one overall sign (fixed by the definition tests above)
   auto up_to_sign = [&](const ref::T& x, ref::T y, const std::string& w) {
      auto m = ref::compare(x, y);
      if (m.empty()) return;
      if (is_fermi_v) {
         for (auto& v : y.data) v = -v;
         m = ref::compare(x, y);
      }
      if (!m.empty()) fail(w + ": " + m);
   };
   up_to_sign(to_ref(C), to_ref(A), "shrink(expand(shrink))");
   // the expanded tensor is the original restricted to that position
   auto b = to_ref(B);
   auto want = t;
   ref::AxisSyms ax(t.edges);
   auto d = t.dims();
   ref::each(d, [&](const std::vector<int>& idx) {
      if (!(ax.s[i][idx[i]] == s.s && ax.pos[i][idx[i]] == at)) want.data[ref::flat(d, idx)] = 0;
   });
   std::vector<int> o{i};
   for (int k = 0; k < t.rank(); k++)
      if (k != i) o.push_back(k);
   want = ref::permute(want, o);
   // signs from moving the edge to the front are position dependent: take moduli for fermions
   auto e = ref::embed(b, want.edges);
   if (is_fermi_v) {
      for (auto& v : e.data) v = std::norm(v);
      for (auto& v : want.data) v = std::norm(v);
   }
   auto m = ref::compare(e, want);
   if (!m.empty()) fail("expand(shrink) is not the restriction: " + m);
   src.nontrivial = nonzeros(want) > 0 && t.rank() > 1;
}
