// Requests that cannot be honoured are refused with an exception, leave every operand as it was and do not disturb later work.
#include "bridge.hpp"

static ref::T gen(Src& src, int lo, int hi, int from = 0) {
   Gen g;
   g.cap = 80;
   return gen_tensor(src, gen_names(src, int(src.range(lo, hi)), from), g);
}
// after a refusal the library still works (scratch memory, shared storage, name tables)
static void still_works(Src& src, const Tensor& T, const ref::T& t) {
   unchanged(T, t);
   auto p = src.permutation(t.rank());
   auto want = ref::permute(t, p);
   same(T.transpose(names_to(want.names)), want, "transpose after a refusal");
   same(T.conjugate(), ref::conjugate(t), "conjugate after a refusal");
}
template<typename F>
static void refused(F&& f, const std::string& what) {
   require(raises(f), what + " is accepted");
}
static ref::Edge partner(const ref::Edge& e) {
   ref::Edge r;
   r.arrow = !e.arrow;
   for (auto& s : e.segs) r.segs.push_back({ref::neg(KIND, s.s), s.dim});
   r.sort();
   return r;
}
static std::string any_name(Src& src, const ref::T& t) {
   return t.names[src.draw(t.names.size())];
}
PBT_TEST(construct, 15) {
   auto t = gen(src, 1, 4);
   auto T = to_tat(t);
   std::vector<TEdge> edges;
   for (auto& e : t.edges) edges.push_back(edge_to(e));
   auto names = t.names;
   int kind = int(src.draw(3));
   if (kind == 0) names.push_back("Z");
   else if (kind == 1) names.pop_back();
   else {
      if (names.size() < 2) throw pbt::Discard();
      int i = int(src.draw(names.size())), j = int(src.draw(names.size() - 1));
      if (j >= i) j++;
      names[i] = names[j];
   }
   src.note("construct with bad names " + std::to_string(kind) + " " + ref::show(t));
   refused([&] { Tensor(names_to(names), edges); }, "a wrong name list");
   still_works(src, T, t);
   src.nontrivial = true;
}
PBT_TEST(transpose, 12) {
   auto t = gen(src, 1, 4);
   auto T = to_tat(t);
   auto names = t.names;
   int kind = int(src.draw(4));
   if (kind == 0) names.push_back("Z");
   else if (kind == 1) names.pop_back();
   else if (kind == 2) names[src.draw(names.size())] = "Z";
   else {
      if (names.size() < 2) throw pbt::Discard();
      names[0] = names[1];
   }
   src.note("transpose to a wrong list, kind " + std::to_string(kind) + " " + ref::show(t));
   refused([&] { (void)T.transpose(names_to(names)); }, "transpose to a list that is not a permutation of the names");
   still_works(src, T, t);
   src.nontrivial = true;
}
PBT_TEST(contract, 25) {
   auto a = gen(src, 1, 3);
   int i = int(src.draw(a.rank()));
   if (a.edges[i].segs.empty()) throw pbt::Discard();
   auto e = partner(a.edges[i]);
   int kind = int(src.draw(is_fermi_v ? 3 : 2));
   std::vector<ref::Edge> edges;
   std::vector<std::string> names;
   NamePairs pairs;
   if (kind == 0) { // extents differ
      auto& s = e.segs[src.draw(e.segs.size())];
      s.dim += int(src.range(1, 2));
      pairs.insert({Name(a.names[i]), Name("X")});
   } else if (kind == 2) { // same arrow
      e.arrow = a.edges[i].arrow;
      pairs.insert({Name(a.names[i]), Name("X")});
   } else { // one edge in two pairs
      pairs.insert({Name(a.names[i]), Name("X")});
      pairs.insert({Name(a.names[i]), Name("Y")});
   }
   names.push_back("X");
   edges.push_back(e);
   names.push_back("Y");
   auto f = partner(e);
   f.arrow = src.coin();
   edges.push_back(kind == 1 ? partner(a.edges[i]) : f);
   if (kind == 1) { // close with the opposite charges
      names.push_back("W");
      auto c = partner(partner(a.edges[i]));
      edges.push_back(c);
      names.push_back("V");
      edges.push_back(c);
   }
   auto b = ref::normalize(ref::make(KIND, names, edges));
   fill(b, src.draw(1 << 16), is_cplx);
   for (auto& n : {"X", "Y"})
      if (b.edges[b.find(n)].segs.size() != e.segs.size()) throw pbt::Discard();
   bool swap = src.coin();
   src.note("contract, kind " + std::to_string(kind) + " " + ref::show(a) + " " + ref::show(b));
   auto A = to_tat(a), B = to_tat(b);
   if (swap) {
      NamePairs q;
      for (auto& [x, y] : pairs) q.insert({y, x});
      refused([&] { (void)B.contract(A, q); }, "contraction over edges that do not fit");
   } else
      refused([&] { (void)A.contract(B, pairs); }, "contraction over edges that do not fit");
   unchanged(B, b);
   still_works(src, A, a);
   src.nontrivial = true;
   src.label("kind " + std::to_string(kind));
}
template<typename Te = Tensor>
void fuse_mismatch(Src& src) {
   if constexpr (is_nosym) {
      auto a = gen(src, 1, 3);
      auto b = a;
      int i = int(src.draw(a.rank()));
      b.edges[i].segs[0].dim += 1;
      b = ref::normalize(ref::make(KIND, b.names, b.edges));
      fill(b, src.draw(1 << 16), is_cplx);
      src.note("fuse " + ref::show(a) + " " + ref::show(b));
      auto A = to_tat(a), B = to_tat(b);
      refused([&] { (void)A.contract(B, NamePairs{}); }, "fusing edges of different dimension");
      unchanged(B, b);
      still_works(src, A, a);
      src.nontrivial = true;
   } else {
      // a name kept on both sides would appear twice
      auto a = gen(src, 1, 3);
      src.note("shared name " + ref::show(a));
      auto A = to_tat(a), C = to_tat(ref::conjugate(a));
      refused([&] { (void)A.contract(C, NamePairs{}); }, "a contraction result with duplicated names");
      still_works(src, A, a);
      src.nontrivial = true;
   }
}
PBT_TEST(shared_names, 8) { fuse_mismatch<>(src); }
PBT_TEST(positions, 25) {
   auto t = gen(src, 1, 4);
   auto keys = ref::conserved(KIND, t.edges);
   if (keys.empty()) throw pbt::Discard();
   auto T = to_tat(t);
   auto key = keys[src.draw(keys.size())];
   std::map<Name, typename Tensor::EdgePoint> pos;
   int bad = int(src.draw(t.rank()));
   int kind = int(src.draw(3));
   int over = kind == 0 ? int(src.range(0, 3)) : 0;
   std::vector<int> idx(t.rank());
   for (int i = 0; i < t.rank(); i++) {
      int d = t.edges[i].find(key[i])->dim;
      if (d == 0) throw pbt::Discard();
      idx[i] = int(src.draw(d));
      auto s = key[i];
      if (i == bad && kind == 0) idx[i] = d + over;
      if (i == bad && kind == 1) {
         if (is_nosym) throw pbt::Discard();
         s.a += KIND == ref::Kind::Z2 ? 1 - 2 * s.a : 40; // a sector that does not exist, or makes the charges not cancel
      }
      if (i == bad && kind == 2) continue;
      pos[Name(t.names[i])] = make_point(s, idx[i]);
   }
   src.note("position kind " + std::to_string(kind) + " " + ref::show(t));
   refused([&] { (void)T.const_at(pos); }, "reading at an invalid position");
   refused([&] { T.at(pos) = Scalar(99); }, "writing at an invalid position");
   auto copy = T;
   refused([&] { copy.at(pos) = Scalar(98); }, "writing at an invalid position of a shared tensor");
   unchanged(copy, t);
   if (kind == 0) refused([&] { (void)T.shrink(pos, Name("new")); }, "shrinking at an invalid position");
   still_works(src, T, t);
   src.nontrivial = true;
   src.label("kind " + std::to_string(kind));
}
PBT_TEST(expand, 12) {
   auto t = gen(src, 1, 3);
   auto T = to_tat(t);
   std::map<Name, typename Tensor::EdgePointWithArrow> c;
   int kind = int(src.draw(is_nosym ? 2 : 3));
   int d = int(src.range(1, 3));
   std::string old = any_name(src, t);
   src.note("expand kind " + std::to_string(kind) + " " + ref::show(t));
   if (kind == 0) { // index outside the new edge
      c[Name("N")] = make_point_arrow(src.coin(), ref::Sym{}, d + int(src.draw(3)), d);
      refused([&] { (void)T.expand(c); }, "expanding at an index outside the new edge");
   } else if (kind == 1) { // the replaced edge is not trivial
      auto& e = t.edges[t.find(old)];
      if (e.segs.size() == 1 && e.segs[0].dim == 1) throw pbt::Discard();
      c[Name("N")] = make_point_arrow(src.coin(), e.segs.empty() ? ref::Sym{} : e.segs[0].s, 0, d);
      refused([&] { (void)T.expand(c, Name(old)); }, "replacing an edge of more than one state");
   } else { // charge is not conserved
      c[Name("N")] = make_point_arrow(src.coin(), ref::Sym{1, 0}, 0, d);
      refused([&] { (void)T.expand(c); }, "expanding with a non-zero total charge");
   }
   still_works(src, T, t);
   src.nontrivial = true;
}
PBT_TEST(modes, 10) {
   auto t = gen(src, 1, 3);
   auto T = to_tat(t);
   auto n = any_name(src, t);
   char ok[] = "qQrR", c;
   do c = char(32 + src.draw(90));
   while (strchr(ok, c));
   src.note(std::string("qr mode ") + c);
   refused([&] { (void)T.qr(c, NameSet{Name(n)}, Name("q"), Name("r")); }, std::string("qr mode '") + c + "'");
   still_works(src, T, t);
   src.nontrivial = true;
}
PBT_TEST(trace_mismatch, 12) {
   auto t = gen(src, 0, 2);
   Gen g;
   auto e = gen_edge(src, g);
   auto f = partner(e);
   int kind = int(src.draw(is_fermi_v ? 2 : 1));
   if (kind == 0) {
      if (e.segs.empty()) throw pbt::Discard();
      for (auto& s : f.segs) s.dim += 1;
   } else
      f.arrow = e.arrow;
   auto names = t.names;
   auto edges = t.edges;
   int at = int(src.draw(names.size() + 1));
   names.insert(names.begin() + at, "X");
   edges.insert(edges.begin() + at, e);
   names.push_back("Y");
   edges.push_back(f);
   auto b = ref::normalize(ref::make(KIND, names, edges));
   fill(b, src.draw(1 << 16), is_cplx);
   if (b.edges[b.find("X")].segs.size() != e.segs.size() || b.edges[b.find("Y")].segs.size() != e.segs.size()) throw pbt::Discard();
   // a block on the diagonal must exist for the mismatch to matter
   auto keys = ref::conserved(KIND, b.edges);
   bool diagonal = false;
   int x = b.find("X"), y = b.find("Y");
   for (auto& k : keys) diagonal = diagonal || k[y] == ref::neg(KIND, k[x]);
   if (!diagonal) throw pbt::Discard();
   src.note("trace kind " + std::to_string(kind) + " " + ref::show(b));
   auto B = to_tat(b);
   refused([&] { (void)B.trace(NamePairs{{Name("X"), Name("Y")}}); }, "tracing edges that do not fit");
   still_works(src, B, b);
   src.nontrivial = true;
}
PBT_TEST(arithmetic, 20) {
   auto a = gen(src, 1, 3);
   auto b = a;
   int kind = int(src.draw(is_fermi_v ? 4 : 3));
   if (kind == 0) { // other rank
      b.names.push_back("Z");
      ref::Edge e;
      e.segs = {{ref::Sym{}, 1}};
      b.edges.push_back(e);
   } else if (kind == 1) { // other extent
      auto& e = b.edges[src.draw(b.rank())];
      if (e.segs.empty()) throw pbt::Discard();
      e.segs[src.draw(e.segs.size())].dim += int(src.range(1, 3));
   } else if (kind == 2) { // other name
      b.names[src.draw(b.names.size())] = "Z";
   } else { // other direction
      auto& e = b.edges[src.draw(b.rank())];
      e.arrow = !e.arrow;
   }
   b = ref::normalize(ref::make(KIND, b.names, b.edges));
   fill(b, src.draw(1 << 16), is_cplx);
   b = ref::permute(b, src.permutation(b.rank()));
   if (src.coin()) std::swap(a, b);
   src.note("arithmetic kind " + std::to_string(kind) + " " + ref::show(a) + " " + ref::show(b));
   auto A = to_tat(a), B = to_tat(b);
   switch (kind == 3 ? 4 + src.draw(4) : src.draw(8)) { // out of place other directions are accepted, the first operand's are taken
      case 0: refused([&] { (void)(A + B); }, "A + B of different shape"); break;
      case 1: refused([&] { (void)(A - B); }, "A - B of different shape"); break;
      case 2: refused([&] { (void)(A * B); }, "A * B of different shape"); break;
      case 3: refused([&] { (void)(A / B); }, "A / B of different shape"); break;
      case 4: refused([&] { A += B; }, "A += B of different shape"); break;
      case 5: refused([&] { A -= B; }, "A -= B of different shape"); break;
      case 6: refused([&] { A *= B; }, "A *= B of different shape"); break;
      default: refused([&] { A /= B; }, "A /= B of different shape");
   }
   unchanged(B, b);
   still_works(src, A, a);
   src.nontrivial = true;
   src.label("kind " + std::to_string(kind));
}
PBT_TEST(number, 6) {
   auto t = gen(src, 0, 3);
   if (t.size() == 1 && nblocks(t) == 1) throw pbt::Discard();
   size_t stored = 0;
   ref::each_allowed(t, [&](const std::vector<int>&, size_t) { stored++; });
   if (stored == 1) throw pbt::Discard();
   src.note("number of " + ref::show(t));
   auto T = to_tat(t);
   refused([&] { (void)Scalar(T); }, "reading several elements as one number");
   still_works(src, T, t);
   src.nontrivial = true;
}
#if TAT_ERROR_BITS == 7
// with errors switched on, missing names and implicit copies of shared storage are refused as well
PBT_TEST(strict, 40) {
   auto t = gen(src, 1, 3);
   auto T = to_tat(t);
   int kind = int(src.draw(7));
   src.note("strict kind " + std::to_string(kind) + " " + ref::show(t));
   auto n = any_name(src, t);
   switch (kind) {
      case 0: refused([&] { (void)T.contract(to_tat(ref::conjugate(t)), NamePairs{{Name("Z"), Name(n)}}); }, "a missing name in contract"); break;
      case 1: refused([&] { (void)T.svd(NameSet{Name(n), Name("Z")}, Name("u"), Name("v")); }, "a missing name in svd"); break;
      case 2: refused([&] { (void)T.qr(src.coin() ? 'Q' : 'R', NameSet{Name(n), Name("Z")}, Name("q"), Name("r")); }, "a missing name in qr"); break;
      case 3: {
         auto copy = T;
         refused([&] { T += T.copy(); }, "in-place arithmetic on shared storage");
         unchanged(copy, t);
         break;
      }
      case 4: {
         auto copy = T;
         refused([&] { T *= Scalar(2); }, "in-place scaling of shared storage");
         unchanged(copy, t);
         break;
      }
      case 5: {
         auto copy = T;
         refused([&] { T.set([] { return Scalar(3); }); }, "filling shared storage");
         unchanged(copy, t);
         break;
      }
      default: {
         auto s = make_singular({{ref::Sym(), {1.0}}});
         refused([&] { (void)T.multiple(s, Name("Z"), 'u'); }, "a missing name in multiple");
      }
   }
   still_works(src, T, t);
   src.nontrivial = true;
   src.label("kind " + std::to_string(kind));
}
#endif
