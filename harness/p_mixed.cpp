// Tensors of different scalar types: conversion, mixed arithmetic and mixed contraction.
#include "bridge.hpp"
template<typename S>
using T = TAT::Tensor<S, Symmetry, Name>;
using F = float;
using D = double;
using CF = std::complex<float>;
using CD = std::complex<double>;

template<typename S>
const char* sname() {
   if constexpr (std::is_same_v<S, F>) return "float";
   else if constexpr (std::is_same_v<S, D>) return "double";
   else if constexpr (std::is_same_v<S, CF>) return "complex<float>";
   else return "complex<double>";
}
template<typename S>
ref::cd cast(ref::cd v) {
   if constexpr (!TAT::is_complex_v<S>) v = v.real();
   if constexpr (std::is_same_v<TAT::real_base_t<S>, float>) return {double(float(v.real())), double(float(v.imag()))};
   return v;
}
template<typename S>
ref::T cast(ref::T t) {
   for (auto& v : t.data) v = cast<S>(v);
   return t;
}
template<typename S>
void expect(const T<S>& got, const ref::T& want, const std::string& what) {
   auto m = ref::compare(to_ref(got), want, 0);
   if (!m.empty()) fail(what + ": " + m);
}
static ref::T gen(Src& src, bool cplx, size_t cap = 120, int from = 0, int maxrank = 4) {
   Gen g;
   g.cap = cap;
   g.complex_data = cplx;
   g.zero_per_mille = src.coin(1, 16) ? 120 : 0;
   return gen_tensor(src, gen_names(src, int(src.range(0, maxrank)), from), g);
}
template<typename A, typename B>
void conversion(Src& src) {
   auto t = gen(src, TAT::is_complex_v<A>);
   if (src.coin()) { // not representable exactly in single precision
      fill_real(t, src.draw(1 << 16), TAT::is_complex_v<A>);
      for (auto& v : t.data) v *= 1.0 + 1e-9;
      t = cast<A>(t);
   }
   src.note(std::string(sname<A>()) + " to " + sname<B>() + " " + ref::show(t));
   auto X = to_tat<T<A>>(t);
   auto Y = X.template to<B>();
   static_assert(std::is_same_v<decltype(Y), T<B>>);
   expect<B>(Y, cast<B>(t), "conversion");
   expect<A>(X, t, "operand of a conversion");
   // the converted tensor is a value of its own
   Y.set([] { return B(5); });
   expect<A>(X, t, "source after writing to the converted tensor");
   src.nontrivial = nonzeros(t) > 1;
   src.label(std::string(sname<A>()) + ">" + sname<B>());
}
template<typename A, typename B>
void contraction(Src& src) {
   // second operand: conjugated structure of some edges of the first so that they can be contracted
   auto a = gen(src, TAT::is_complex_v<A>, 60, 0, 3);
   Gen g;
   g.cap = 60;
   std::vector<std::string> names;
   std::vector<ref::Edge> edges;
   NamePairs pairs;
   ref::Pairs rp;
   for (int i = 0; i < a.rank(); i++)
      if (rp.empty() && src.coin(2, 3)) { // a single pair (several pairs: KF01)
         ref::Edge e;
         e.arrow = !a.edges[i].arrow;
         for (auto& s : a.edges[i].segs) e.segs.push_back({ref::neg(KIND, s.s), s.dim});
         e.sort();
         names.push_back("c" + a.names[i]);
         edges.push_back(e);
         pairs.insert({Name(a.names[i]), Name("c" + a.names[i])});
         rp.push_back({a.names[i], "c" + a.names[i]});
      }
   int extra = int(src.range(0, 2));
   for (int i = 0; i < extra; i++) names.push_back(std::string("x") + char('0' + i)), edges.push_back(gen_edge(src, g));
   close_edges(src, edges, g);
   cap_edges(edges, 80);
   auto b = ref::normalize(ref::make(KIND, names, edges));
   fill(b, src.draw(1 << 16), TAT::is_complex_v<B>);
   for (auto& [x, y] : rp) { // closing or capping may have changed the extent
      auto &ea = a.edges[a.find(x)], &eb = b.edges[b.find(y)];
      for (auto& s : eb.segs)
         if (auto f = ea.find(ref::neg(KIND, s.s)); f && f->dim != s.dim) throw pbt::Discard();
   }
   src.note(std::string(sname<A>()) + " with " + sname<B>() + " " + ref::show(a) + " " + ref::show(b));
   using R = std::common_type_t<A, B>;
   auto X = to_tat<T<A>>(a);
   auto Y = to_tat<T<B>>(b);
   auto got = X.contract(Y, pairs);
   static_assert(std::is_same_v<decltype(got), T<R>>);
   auto plain = to_tat<T<R>>(cast<R>(a)).contract(to_tat<T<R>>(cast<R>(b)), pairs);
   auto want = to_ref(plain);
   expect<R>(got, want, "mixed contraction differs from contraction after conversion");
   expect<A>(X, a, "left operand");
   expect<B>(Y, b, "right operand");
   src.nontrivial = nonzeros(want) > 1;
   src.label(std::string(sname<A>()) + "*" + sname<B>());
}
template<typename X, typename Y>
auto op(int k, const X& x, const Y& y) {
   switch (k) {
      case 0: return x + y;
      case 1: return x - y;
      case 2: return x * y;
      default: return x / y;
   }
}
static ref::cd rop(int k, ref::cd x, ref::cd y) {
   return k == 0 ? x + y : k == 1 ? x - y : k == 2 ? x * y : x / y;
}
static void make_pow2(ref::T& t, uint64_t seed, bool cplx) {
   uint64_t st = seed + 5;
   ref::each_allowed(t, [&](const std::vector<int>&, size_t f) {
      auto v = pbt::splitmix(st);
      double m = double(1 << (v % 4)) * (v & 16 ? -1 : 1);
      t.data[f] = cplx && (v & 32) ? ref::cd(0, m) : ref::cd(m, 0);
   });
}
template<typename A, typename B>
void arithmetic(Src& src) {
   using R = std::common_type_t<A, B>;
   auto a = gen(src, TAT::is_complex_v<A>);
   auto b = a;
   fill(b, 1 + src.draw(1 << 16), TAT::is_complex_v<B>);
   int k = int(src.draw(4));
   if (k == 3) make_pow2(b, src.draw(1 << 16), TAT::is_complex_v<B>);
   auto perm = src.permutation(a.rank());
   int form = int(src.draw(4));
   ref::cd num(double(1 << src.draw(4)), TAT::is_complex_v<B> && k != 3 ? double(src.range(-2, 2)) : 0);
   src.note(std::string(sname<A>()) + " op" + std::to_string(k) + " " + sname<B>() + " " + ref::show(a));
   auto X = to_tat<T<A>>(a);
   auto want = a;
   auto each = [&](auto&& f) { ref::each_allowed(a, [&](const std::vector<int>&, size_t i) { want.data[i] = f(i); }); };
   if (form == 0) {
      if (is_fermi_v) perm = [&] { std::vector<int> p; for (int i = 0; i < a.rank(); i++) p.push_back(i); return p; }();
      auto Y = to_tat<T<B>>(ref::permute(b, perm));
      auto got = op(k, X, Y);
      static_assert(std::is_same_v<decltype(got), T<R>>);
      each([&](size_t i) { return rop(k, a.data[i], b.data[i]); });
      expect<R>(got, want, "mixed tensor arithmetic");
   } else if (form == 1) {
      B n = scalar_to<B>(num);
      auto got = op(k, X, n);
      static_assert(std::is_same_v<decltype(got), T<R>>);
      each([&](size_t i) { return rop(k, a.data[i], num); });
      expect<R>(got, want, "tensor with number of another type");
   } else if (form == 2) {
      if (k == 3) {
         make_pow2(a, src.draw(1 << 16), TAT::is_complex_v<A>);
         X = to_tat<T<A>>(a);
      }
      B n = scalar_to<B>(num);
      auto got = op(k, n, X);
      static_assert(std::is_same_v<decltype(got), T<R>>);
      each([&](size_t i) { return rop(k, num, a.data[i]); });
      expect<R>(got, want, "number of another type with tensor");
   } else if constexpr (std::is_same_v<R, A>) {
      auto keep = X;
      auto Y = to_tat<T<B>>(b);
      switch (k) {
         case 0: X += Y; break;
         case 1: X -= Y; break;
         case 2: X *= Y; break;
         default: X /= Y;
      }
      each([&](size_t i) { return rop(k, a.data[i], b.data[i]); });
      expect<A>(X, want, "in-place arithmetic with another type");
      expect<A>(keep, a, "tensor sharing storage with the target");
      expect<B>(Y, b, "right operand");
      return;
   }
   expect<A>(X, a, "left operand");
   src.nontrivial = nonzeros(a) > 1;
   src.label(std::string(sname<A>()) + "," + sname<B>());
}
template<template<typename, typename> typename Dummy = std::pair>
void unused() {}
#define ALL16(FN)                          \
   switch (src.draw(16)) {                 \
      case 0: return FN<D, D>(src);        \
      case 1: return FN<D, F>(src);        \
      case 2: return FN<D, CD>(src);       \
      case 3: return FN<D, CF>(src);       \
      case 4: return FN<F, D>(src);        \
      case 5: return FN<F, F>(src);        \
      case 6: return FN<F, CD>(src);       \
      case 7: return FN<F, CF>(src);       \
      case 8: return FN<CD, D>(src);       \
      case 9: return FN<CD, F>(src);       \
      case 10: return FN<CD, CD>(src);     \
      case 11: return FN<CD, CF>(src);     \
      case 12: return FN<CF, D>(src);      \
      case 13: return FN<CF, F>(src);      \
      case 14: return FN<CF, CD>(src);     \
      default: return FN<CF, CF>(src);     \
   }
PBT_TEST(convert, 30) { ALL16(conversion) }
PBT_TEST(contract, 30) { ALL16(contraction) }
PBT_TEST(arith, 40) {
   switch (src.draw(8)) {
      case 0: return arithmetic<D, F>(src);
      case 1: return arithmetic<F, D>(src);
      case 2: return arithmetic<D, CD>(src);
      case 3: return arithmetic<CD, D>(src);
      case 4: return arithmetic<F, CF>(src);
      case 5: return arithmetic<CF, F>(src);
      case 6: return arithmetic<CD, CD>(src);
      default: return arithmetic<D, D>(src);
   }
}
