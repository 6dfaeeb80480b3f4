// Element and block access, norms, fills and elementwise functions.
#include "bridge.hpp"
using Pos = std::map<Name, typename Tensor::EdgePoint>;

static Pos position(const ref::T& t, const ref::AxisSyms& ax, const std::vector<int>& idx) {
   return make_position(t, ax, idx);
}
static ref::T gen(Src& src, int maxrank = 5, size_t cap = 150) {
   Gen g;
   g.cap = cap;
   g.zero_per_mille = src.coin(1, 16) ? 120 : 0;
   return gen_tensor(src, gen_names(src, int(src.range(0, maxrank))), g);
}
PBT_TEST(read_elements, 30) {
   auto t = gen(src);
   src.note("read " + ref::show(t));
   auto T = to_tat(t);
   const auto& C = T;
   ref::AxisSyms ax(t.edges);
   size_t n = 0;
   ref::each_allowed(t, [&](const std::vector<int>& idx, size_t f) {
      auto p = position(t, ax, idx);
      require(cd_from(T.const_at(p)) == t.data[f], "const_at returns another element of " + ref::show(t));
      require(cd_from(C.at(p)) == t.data[f], "at (const) returns another element of " + ref::show(t));
      if (n++ % 7 == 0) require(cd_from(T.at(p)) == t.data[f], "at returns another element of " + ref::show(t));
   });
   unchanged(T, t);
   src.nontrivial = n > 2 && t.rank() > 1;
}
PBT_TEST(write_elements, 25) {
   auto t = gen(src);
   auto T = to_tat(t);
   Tensor other = T; // shares storage until written
   auto old = t;
   std::vector<std::pair<std::vector<int>, size_t>> spots;
   ref::each_allowed(t, [&](const std::vector<int>& idx, size_t f) { spots.push_back({idx, f}); });
   if (spots.empty()) throw pbt::Discard();
   ref::AxisSyms ax(t.edges);
   int n = int(src.range(1, 4));
   std::string text = "write " + std::to_string(n) + " into " + ref::show(t);
   for (int i = 0; i < n; i++) {
      auto& [idx, f] = spots[src.draw(spots.size())];
      ref::cd v(double(100 + i), is_cplx ? 7.0 : 0.0);
      T.at(position(t, ax, idx)) = scalar_to<Scalar>(v);
      t.data[f] = v;
   }
   src.note(text);
   same(T, t, "after writing");
   unchanged(other, old);
   src.nontrivial = spots.size() > 2;
}
PBT_TEST(blocks, 20) {
   auto t = gen(src);
   src.note("blocks of " + ref::show(t));
   auto T = to_tat(t);
   const auto& C = T;
   auto d = t.dims();
   auto keys = ref::conserved(KIND, t.edges);
   for (auto& k : keys) {
      std::map<Name, Symmetry> p;
      for (int i = 0; i < t.rank(); i++) p[Name(t.names[i])] = sym_to(k[i]);
      auto& b = C.block(p);
      auto& cb = T.const_block(p);
      each_in_block(t.edges, d, k, [&](size_t q, size_t f) {
         require(cd_from(b[q]) == t.data[f] && cd_from(cb[q]) == t.data[f], "block is not the row-major sector data of " + ref::show(t));
      });
   }
   if (!keys.empty()) {
      auto& k = keys[src.draw(keys.size())];
      std::map<Name, Symmetry> p;
      for (int i = 0; i < t.rank(); i++) p[Name(t.names[i])] = sym_to(k[i]);
      Tensor other = T;
      auto old = t;
      auto& b = T.block(p);
      each_in_block(t.edges, d, k, [&](size_t q, size_t f) {
         b[q] = Scalar(Real(q + 1));
         t.data[f] = double(q + 1);
      });
      same(T, t, "after writing a block");
      unchanged(other, old);
   }
   src.nontrivial = (is_nosym ? t.size() > 2 : keys.size() > 1) && t.rank() > 0;
}
PBT_TEST(missing_positions, 8) {
   auto t = gen(src, 4);
   if (t.rank() == 0) throw pbt::Discard();
   std::vector<std::vector<int>> spots;
   ref::each_allowed(t, [&](const std::vector<int>& idx, size_t) { spots.push_back(idx); });
   if (spots.empty()) throw pbt::Discard();
   ref::AxisSyms ax(t.edges);
   auto T = to_tat(t);
   auto p = position(t, ax, spots[src.draw(spots.size())]);
   std::string drop = t.names[src.draw(t.names.size())];
   p.erase(Name(drop));
   src.note("access without " + drop + " in " + ref::show(t));
   require(raises([&] { (void)T.const_at(p); }), "const_at accepts an incomplete position");
   require(raises([&] { (void)T.at(p); }), "at accepts an incomplete position");
   if (!is_nosym) {
      auto q = position(t, ax, spots[0]);
      q[Name(drop)] = make_point(KIND == ref::Kind::Z2 ? ref::Sym{int(!ax.s[t.find(drop)][spots[0][t.find(drop)]].a), 0} : ref::Sym{77, 0}, 0);
      require(raises([&] { (void)T.const_at(q); }), "const_at accepts a position without block");
   }
   unchanged(T, t);
   src.nontrivial = true;
}
PBT_TEST(norms, 20) {
   auto t = gen(src);
   bool real_values = src.coin();
   if (real_values) fill_real(t, src.draw(1 << 16), is_cplx);
   src.note("norms of " + ref::show(t));
   auto T = to_tat(t);
   double m = 0, s1 = 0, s2 = 0, s3 = 0, s4 = 0, c = 0;
   ref::each_allowed(t, [&](const std::vector<int>&, size_t f) {
      double a = std::abs(t.data[f]);
      m = std::max(m, a);
      s1 += a;
      s2 += a * a;
      s3 += a * a * a;
      s4 += a * a * a * a;
      c += 1;
   });
   double tol = is_single ? 2e-5 : 1e-13;
   auto close = [&](double x, double y, const char* w) { require(std::abs(x - y) <= tol * std::max(1.0, std::abs(y)), std::string("norm ") + w + " is " + std::to_string(x) + " instead of " + std::to_string(y)); };
   close(T.template norm<-1>(), m, "max");
   close(T.template norm<0>(), c, "0");
   close(T.template norm<1>(), s1, "1");
   close(T.template norm<2>(), std::sqrt(s2), "2");
   close(T.template norm<3>(), std::cbrt(s3), "3");
   close(T.template norm<4>(), std::sqrt(std::sqrt(s4)), "4");
   unchanged(T, t);
   src.nontrivial = c > 2 && m > 0;
}
PBT_TEST(fills, 20) {
   auto t = gen(src);
   auto T = to_tat(t);
   Tensor keep = T;
   auto old = t;
   int what = int(src.draw(6));
   bool rvalue = src.coin();
   src.note("fill " + std::to_string(what) + " of " + ref::show(t));
   auto want = t;
   ref::cd first(double(src.range(-3, 3)), 0), step(double(src.range(-2, 2)), 0);
   // values are assigned block by block in ascending sector order, row-major inside a block
   auto number = [&](auto&& f) {
      long n = 0;
      auto d = t.dims();
      for (auto& k : ref::conserved(KIND, t.edges)) each_in_block(t.edges, d, k, [&](size_t, size_t i) { want.data[i] = f(n++, want.data[i]); });
   };
   Tensor R;
   switch (what) {
      case 0:
         if (rvalue) R = Tensor(T).zero();
         else R = T.zero();
         number([](long, ref::cd) { return ref::cd(0); });
         break;
      case 1:
         if (rvalue) R = Tensor(T).test(scalar_to<Scalar>(first), scalar_to<Scalar>(step));
         else R = T.test(scalar_to<Scalar>(first), scalar_to<Scalar>(step));
         number([&](long n, ref::cd) { return first + step * double(n); });
         break;
      case 2: {
         long c = 0;
         auto gen = [&] { return Scalar(Real(c++ * 3 % 17)); };
         if (rvalue) R = Tensor(T).set(gen);
         else R = T.set(gen);
         number([](long n, ref::cd) { return ref::cd(double(n * 3 % 17)); });
         break;
      }
      case 3: {
         auto f = [](Scalar x) { return x * Scalar(2) + Scalar(1); };
         if (rvalue) R = Tensor(T).transform(f);
         else R = T.transform(f);
         number([](long, ref::cd v) { return v * 2.0 + 1.0; });
         break;
      }
      case 4:
         R = T.map([](Scalar x) { return x * x; });
         number([](long, ref::cd v) { return v * v; });
         unchanged(T, old);
         break;
      default:
         R = T.copy();
         break;
   }
   same(R, want, "filled tensor");
   unchanged(keep, old);
   if (rvalue && what < 4) unchanged(T, old);
   auto S = T.same_shape();
   require(S.names == T.names && S.core->edges == T.core->edges, "same_shape has another shape");
   src.nontrivial = nonzeros(old) > 1;
}
PBT_TEST(scalars, 6) {
   double v = double(src.range(-9, 9));
   Tensor s{Scalar(Real(v))};
   require(s.names.empty() && s.is_scalar() && Scalar(s) == Scalar(Real(v)), "tensor from a number");
   int rank = int(src.range(0, 4));
   auto names = gen_names(src, rank);
   std::vector<Symmetry> syms;
   std::vector<TAT::Arrow> arrows;
   ref::Sym sum;
   std::vector<ref::Edge> edges;
   for (int i = 0; i < rank; i++) {
      auto x = i + 1 < rank ? gen_sym(src, 2) : ref::neg(KIND, sum);
      sum = ref::add(KIND, sum, x);
      ref::Edge e;
      e.arrow = is_fermi_v && src.coin();
      e.segs = {{x, 1}};
      edges.push_back(e);
      syms.push_back(sym_to(x));
      arrows.push_back(e.arrow);
   }
   auto want = ref::make(KIND, names, edges);
   want.data[0] = v;
   src.note("one " + ref::show(want));
   auto o = Tensor::one(Scalar(Real(v)), names_to(names), syms, arrows);
   same(o, want, "one()");
   require(o.is_scalar() && Scalar(o) == Scalar(Real(v)), "one() does not convert back to its number");
   auto t = gen(src, 3);
   auto T = to_tat(t);
   long stored = 0;
   ref::each_allowed(t, [&](const std::vector<int>&, size_t) { stored++; });
   bool single = nblocks(t) == 1 && stored == 1;
   require(T.is_scalar() == single, "is_scalar");
   require(raises([&] { (void)Scalar(T); }) == !single, "conversion of a tensor with several elements to a number");
   src.nontrivial = rank > 0;
}
