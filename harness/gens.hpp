// Generators of reference tensors.  The including file defines KIND, is_fermi_v, is_nosym and is_cplx (constants or variables).
#pragma once
#include "pbt.hpp"
#include "ref.hpp"
using pbt::fail;
using pbt::require;
using pbt::Src;
// ---------------------------------------------------------------- generators
struct Gen {
   int max_sectors = 3;
   int max_dim = 3;
   int charge = 2;
   size_t cap = 800;
   int zero_per_mille = 0; // probability of a zero-dimensional sector
   bool complex_data = is_cplx;
};
inline ref::Sym gen_sym(Src& src, int range) {
   int m = 2 * range + 1;
   auto z = [&](int v) { return v & 1 ? (v + 1) / 2 : -(v / 2); }; // 0,1,-1,2,-2
   switch (KIND) {
      case ref::Kind::No: return {0, 0};
      case ref::Kind::Z2: return {int(src.draw(2)), 0};
      case ref::Kind::U1:
      case ref::Kind::Fermi: return {z(int(src.draw(m))), 0};
      case ref::Kind::FermiZ2: return {z(int(src.draw(m))), int(src.draw(2))};
      default: {
         int a = z(int(src.draw(m)));
         return {a, z(int(src.draw(3)))};
      }
   }
}
inline ref::Edge gen_edge(Src& src, const Gen& g) {
   ref::Edge e;
   if (is_fermi_v) e.arrow = src.coin();
   int n = is_nosym ? 1 : int(src.range(1, g.max_sectors));
   std::set<ref::Sym> used;
   for (int i = 0; i < n; i++) {
      auto s = gen_sym(src, g.charge);
      int d = int(src.range(1, g.max_dim));
      if (g.zero_per_mille && src.coin(g.zero_per_mille, 1000)) d = 0;
      if (used.insert(s).second) e.segs.push_back({s, d});
   }
   e.sort();
   return e;
}
// make the sum of one randomly chosen sector per edge vanish by extending the last edge
inline void close_edges(Src& src, std::vector<ref::Edge>& edges, const Gen& g) {
   if (is_nosym || edges.empty()) return;
   int n = int(src.range(1, 3));
   for (int k = 0; k < n; k++) {
      ref::Sym sum;
      for (size_t i = 0; i + 1 < edges.size(); i++)
         if (!edges[i].segs.empty()) sum = ref::add(KIND, sum, edges[i].segs[src.draw(edges[i].segs.size())].s);
      auto want = ref::neg(KIND, sum);
      auto& last = edges.back();
      if (!last.find(want)) {
         last.segs.push_back({want, int(src.range(1, g.max_dim))});
         last.sort();
      }
   }
}
inline void cap_edges(std::vector<ref::Edge>& edges, size_t cap) {
   auto total = [&]() {
      size_t t = 1;
      for (auto& e : edges) t *= std::max(1, e.total());
      return t;
   };
   while (total() > cap) {
      // shrink the largest edge by one
      size_t best = 0;
      for (size_t i = 1; i < edges.size(); i++)
         if (edges[i].total() > edges[best].total()) best = i;
      auto& s = edges[best].segs;
      size_t big = 0;
      for (size_t i = 1; i < s.size(); i++)
         if (s[i].dim >= s[big].dim) big = i;
      if (s[big].dim > 1) s[big].dim--;
      else if (s.size() > 1) s.pop_back();
      else break;
   }
}
inline void fill(ref::T& t, uint64_t seed, bool cplx, int lim = 9) {
   uint64_t st = seed * 7919 + 1;
   long n = 0;
   ref::each_allowed(t, [&](const std::vector<int>&, size_t f) {
      n++;
      if (seed == 0) {
         t.data[f] = cplx ? ref::cd(double(n % (lim + 1)), double((n / 3) % lim)) : ref::cd(double(1 + n % lim));
      } else {
         auto v = pbt::splitmix(st);
         double re = double(long(v % (2 * lim + 1)) - lim), im = cplx ? double(long((v >> 32) % (2 * lim + 1)) - lim) : 0;
         t.data[f] = {re, im};
      }
   });
}
inline void fill_real(ref::T& t, uint64_t seed, bool cplx) {
   uint64_t st = seed * 104729 + 3;
   auto u = [&]() { return double(pbt::splitmix(st) >> 11) / 9007199254740992.0 * 2 - 1; };
   ref::each_allowed(t, [&](const std::vector<int>&, size_t f) {
      double re = u(), im = cplx ? u() : 0;
      t.data[f] = {double(float(re)), double(float(im))};
   });
}
inline const std::vector<std::string>& name_pool() {
   static const std::vector<std::string> pool = {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L"};
   return pool;
}
inline std::vector<std::string> gen_names(Src& src, int n, int from = 0) {
   // names in an arbitrary (not alphabetical) order from a window of the pool
   std::vector<std::string> r;
   auto p = src.permutation(n);
   for (int i : p) r.push_back(name_pool()[from + i]);
   return r;
}
inline ref::T gen_tensor(Src& src, const std::vector<std::string>& names, const Gen& g) {
   std::vector<ref::Edge> edges;
   for (size_t i = 0; i < names.size(); i++) edges.push_back(gen_edge(src, g));
   if (!src.coin(1, 16)) close_edges(src, edges, g);
   cap_edges(edges, g.cap);
   if (KIND != ref::Kind::No && KIND != ref::Kind::Z2 && src.coin(1, 24)) { // the same structure with large charges of the same parity
      int u1 = src.coin() ? 101 : 33333333, fermi = src.coin() ? 101 : 1001; // numbers of fermions are 16 bits wide
      for (auto& e : edges)
         for (auto& x : e.segs) {
            x.s.a *= KIND == ref::Kind::U1 ? u1 : fermi;
            if (KIND == ref::Kind::FermiU1) x.s.b *= u1;
         }
   }
   auto t = ref::normalize(ref::make(KIND, names, edges));
   fill(t, src.draw(1 << 16), g.complex_data);
   return t;
}
inline size_t nonzeros(const ref::T& t) {
   size_t n = 0;
   for (auto& v : t.data) n += v != ref::cd(0);
   return n;
}
inline size_t nblocks(const ref::T& t) {
   return ref::conserved(t.kind, t.edges).size();
}
