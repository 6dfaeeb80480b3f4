// Conversion between library tensors and the reference model, plus generators.
// One binary is compiled per (SYM, SCALAR) pair, given as macros.
#pragma once
#include "pbt.hpp"
#include "ref.hpp"
// library
#include <TAT/TAT.hpp>

#ifndef SYM
#define SYM NoSymmetry
#endif
#ifndef SCALAR
#define SCALAR double
#endif

using Symmetry = TAT::SYM;
using Scalar = SCALAR;
using Name = TAT::DefaultName;
using Tensor = TAT::Tensor<Scalar, Symmetry, Name>;
using TEdge = TAT::Edge<Symmetry>;
using Real = TAT::real_base_t<Scalar>;
using pbt::fail;
using pbt::require;
using pbt::Src;
using NameSet = std::set<Name>;
using NamePairs = std::set<std::tuple<Name, Name>>;

constexpr bool is_cplx = TAT::is_complex_v<Scalar>;
constexpr bool is_fermi_v = TAT::is_fermi_symmetry_v<Symmetry>;
constexpr bool is_nosym = std::is_same_v<Symmetry, TAT::NoSymmetry>;
constexpr bool is_single = std::is_same_v<Real, float>;

template<typename S>
constexpr ref::Kind kind_of() {
   if constexpr (std::is_same_v<S, TAT::NoSymmetry>) return ref::Kind::No;
   else if constexpr (std::is_same_v<S, TAT::Z2Symmetry>) return ref::Kind::Z2;
   else if constexpr (std::is_same_v<S, TAT::U1Symmetry>) return ref::Kind::U1;
   else if constexpr (std::is_same_v<S, TAT::FermiSymmetry>) return ref::Kind::Fermi;
   else if constexpr (std::is_same_v<S, TAT::FermiZ2Symmetry>) return ref::Kind::FermiZ2;
   else return ref::Kind::FermiU1;
}
constexpr ref::Kind KIND = kind_of<Symmetry>();

template<typename S>
ref::Sym sym_from(const S& s) {
   if constexpr (std::is_same_v<S, TAT::NoSymmetry>) return {0, 0};
   else if constexpr (std::is_same_v<S, TAT::Z2Symmetry>) return {s.z2, 0};
   else if constexpr (std::is_same_v<S, TAT::U1Symmetry>) return {s.u1, 0};
   else if constexpr (std::is_same_v<S, TAT::FermiSymmetry>) return {s.fermi, 0};
   else if constexpr (std::is_same_v<S, TAT::FermiZ2Symmetry>) return {s.fermi, s.z2};
   else return {s.fermi, s.u1};
}
template<typename S = Symmetry>
S sym_to(const ref::Sym& s) {
   if constexpr (std::is_same_v<S, TAT::NoSymmetry>) return S();
   else if constexpr (std::is_same_v<S, TAT::Z2Symmetry>) return S(bool(s.a));
   else if constexpr (std::is_same_v<S, TAT::U1Symmetry>) return S(s.a);
   else if constexpr (std::is_same_v<S, TAT::FermiSymmetry>) return S(s.a);
   else if constexpr (std::is_same_v<S, TAT::FermiZ2Symmetry>) return S(s.a, bool(s.b));
   else return S(s.a, s.b);
}
template<typename E>
auto bose_map(const ref::Edge& e) {
   typename E::edge_map m;
   for (auto& s : e.segs) m[sym_to<typename E::symmetry_type>(s.s)] = s.dim;
   return m;
}
template<typename S = Symmetry>
TAT::Edge<S> edge_to(const ref::Edge& e) {
   TAT::Edge<S> r;
   r.map = bose_map<TAT::Edge<S>>(e);
   if constexpr (TAT::is_fermi_symmetry_v<S>) r.arrow = e.arrow;
   return r;
}
template<typename S = Symmetry>
TAT::BoseEdge<S> bose_edge_to(const ref::Edge& e) {
   TAT::BoseEdge<S> r;
   for (auto& s : e.segs) r.map[sym_to<S>(s.s)] = s.dim;
   return r;
}
template<typename E>
ref::Edge edge_from(const E& e) {
   ref::Edge r;
   if constexpr (TAT::is_fermi_symmetry_v<typename E::symmetry_type>) r.arrow = e.arrow;
   for (const auto& [s, d] : e.map) r.segs.push_back({sym_from(s), int(d)});
   return r;
}
inline std::string nm(const Name& n) {
   return static_cast<const std::string&>(n);
}
template<typename C>
inline std::vector<Name> names_to(const C& v) {
   return std::vector<Name>(v.begin(), v.end());
}
template<typename S>
ref::cd cd_from(const S& v) {
   return ref::cd(std::complex<double>(v).real(), std::complex<double>(v).imag());
}
template<>
inline ref::cd cd_from(const std::complex<float>& v) {
   return ref::cd(v.real(), v.imag());
}
template<typename S>
S scalar_to(const ref::cd& v) {
   if constexpr (TAT::is_complex_v<S>) return S(typename S::value_type(v.real()), typename S::value_type(v.imag()));
   else return S(v.real());
}
// visit (block, position in block, dense flat index) for a given sector tuple
template<typename F>
void each_in_block(const std::vector<ref::Edge>& edges, const std::vector<int>& dims, const std::vector<ref::Sym>& key, F&& f) {
   std::vector<int> bd, off;
   for (size_t i = 0; i < key.size(); i++) {
      bd.push_back(edges[i].find(key[i])->dim);
      off.push_back(edges[i].offset(key[i]));
   }
   size_t p = 0;
   ref::each(bd, [&](const std::vector<int>& idx) {
      auto g = idx;
      for (size_t i = 0; i < g.size(); i++) g[i] += off[i];
      f(p++, ref::flat(dims, g));
   });
}
// Read a tensor, checking every structural invariant on the way.
template<typename S, typename Sy, typename N>
ref::T to_ref(const TAT::Tensor<S, Sy, N>& t) {
   require(bool(t.core), "tensor has no data");
   ref::T r;
   r.kind = kind_of<Sy>();
   for (const auto& n : t.names) r.names.push_back(static_cast<const std::string&>(n));
   for (const auto& e : t.core->edges) r.edges.push_back(edge_from(e));
   require(r.names.size() == r.edges.size(), "number of names differs from number of edges");
   require(t.name_to_index.size() == r.names.size(), "name table has wrong size for " + ref::show(r));
   for (size_t i = 0; i < r.names.size(); i++) {
      auto f = t.name_to_index.find(t.names[i]);
      require(f != t.name_to_index.end() && f->second == i, "name table is inconsistent for " + ref::show(r));
   }
   r.data.assign(r.size(), 0);
   auto dims = r.dims();
   auto keys = ref::conserved(r.kind, r.edges);
   require(t.core->blocks.size() == keys.size(), "set of blocks is not the set of charge-conserving sector combinations: " + ref::show(r));
   for (auto& k : keys) {
      typename std::decay_t<decltype(t.core->blocks)>::key_type key;
      for (auto& s : k) key.push_back(sym_to<Sy>(s));
      auto f = t.core->blocks.find(key);
      require(f != t.core->blocks.end(), "missing block in " + ref::show(r));
      size_t want = 1;
      for (size_t i = 0; i < k.size(); i++) want *= r.edges[i].find(k[i])->dim;
      require(f->second.size() == want, "block has wrong size in " + ref::show(r));
      const auto& block = f->second;
      each_in_block(r.edges, dims, k, [&](size_t p, size_t d) { r.data[d] = cd_from(block[p]); });
   }
   // no sector that takes part in no block
   auto pr = ref::prune(r.kind, r.edges);
   for (int i = 0; i < r.rank(); i++) require(pr[i].segs == r.edges[i].segs, "edge keeps a sector that occurs in no block: " + ref::show(r));
   return r;
}
template<typename S, typename Sy, typename N>
void write_data(TAT::Tensor<S, Sy, N>& t, const ref::T& r) {
   auto dims = r.dims();
   for (auto& k : ref::conserved(r.kind, r.edges)) {
      typename std::decay_t<decltype(t.core->blocks)>::key_type key;
      for (auto& s : k) key.push_back(sym_to<Sy>(s));
      auto& block = t.core->blocks.at(key);
      each_in_block(r.edges, dims, k, [&](size_t p, size_t d) { block[p] = scalar_to<S>(r.data[d]); });
   }
}
// r must be normalised
template<typename Te = Tensor>
Te to_tat(const ref::T& r) {
   using Sy = typename Te::symmetry_t;
   std::vector<typename Te::name_t> names(r.names.begin(), r.names.end());
   std::vector<TAT::Edge<Sy>> edges;
   for (auto& e : r.edges) edges.push_back(edge_to<Sy>(e));
   Te t(names, edges);
   write_data(t, r);
   return t;
}
inline void same(const Tensor& got, const ref::T& want, const std::string& what, double tol = 0) {
   auto m = ref::compare(to_ref(got), want, tol);
   if (!m.empty()) fail(what + ": " + m);
}

// ---------------------------------------------------------------- generators
#include "gens.hpp"
inline void unchanged(const Tensor& t, const ref::T& before) {
   auto m = ref::compare(to_ref(t), before);
   if (!m.empty()) fail("operand was modified: " + m);
}
template<typename F>
bool raises(F&& f) {
   try {
      f();
   } catch (const pbt::Failure&) {
      throw;
   } catch (const std::exception&) {
      return true;
   }
   return false;
}
// One dominating block larger than the library's small-tensor threshold, plus a few small sectors.
inline ref::T gen_large(Src& src, const std::vector<std::string>& names) {
   int rank = int(names.size());
   size_t want = 98304 / sizeof(Scalar) + src.draw(2000); // threshold in elements
   std::vector<ref::Edge> edges;
   ref::Sym sum;
   size_t prod = 1;
   for (int i = 0; i < rank; i++) {
      ref::Edge e;
      if (is_fermi_v) e.arrow = src.coin();
      auto s = i + 1 < rank ? gen_sym(src, 1) : ref::neg(KIND, sum);
      sum = ref::add(KIND, sum, s);
      double left = double(want) / double(prod);
      int d = int(std::ceil(i + 1 < rank ? std::pow(left, 1.0 / (rank - i)) : left));
      if (i + 1 < rank && src.coin(1, 3)) d = int(src.range(1, 3));
      else if (i + 1 < rank) d = std::max(1, d + int(src.range(0, 6)) - 3);
      prod *= d;
      e.segs.push_back({s, d});
      if (!is_nosym && src.coin(1, 3)) {
         auto s2 = gen_sym(src, 1);
         if (!e.find(s2)) e.segs.push_back({s2, 1});
         e.sort();
      }
      edges.push_back(e);
   }
   auto t = ref::normalize(ref::make(KIND, names, edges));
   fill(t, src.draw(1 << 16), is_cplx);
   return t;
}
// positions on an edge (the tuple layout depends on the symmetry, hence templates)
template<typename P = typename Tensor::EdgePoint>
P make_point(const ref::Sym& s, int index) {
   if constexpr (is_nosym) return P(TAT::Size(index));
   else return P(sym_to(s), TAT::Size(index));
}
template<typename P = typename Tensor::EdgePointWithArrow>
P make_point_arrow(bool arrow, const ref::Sym& s, int index, int dim) {
   if constexpr (is_nosym) return P(TAT::Size(index), TAT::Size(dim));
   else if constexpr (is_fermi_v) return P(arrow, sym_to(s), TAT::Size(index), TAT::Size(dim));
   else return P(sym_to(s), TAT::Size(index), TAT::Size(dim));
}
inline std::map<Name, typename Tensor::EdgePoint> make_position(const ref::T& t, const ref::AxisSyms& ax, const std::vector<int>& idx) {
   std::map<Name, typename Tensor::EdgePoint> p;
   for (int i = 0; i < t.rank(); i++) p[Name(t.names[i])] = make_point(ax.s[i][idx[i]], ax.pos[i][idx[i]]);
   return p;
}

// Singular values by the sector of the U side, whatever type the library is configured to store them in.
using SingularSpec = std::map<ref::Sym, std::vector<double>>;
template<typename S>
SingularSpec singular_values(const S& singular) {
   SingularSpec r;
#ifdef TAT_USE_SINGULAR_MATRIX
   auto m = to_ref(singular);
   require(m.rank() == 2, "singular matrix does not have two edges");
   require(!is_fermi_v || (!m.edges[0].arrow && m.edges[1].arrow), "arrows of the singular matrix");
   for (auto& g : m.edges[1].segs) {
      auto& v = r[g.s];
      auto* p = m.edges[0].find(ref::neg(KIND, g.s));
      require(p && p->dim == g.dim, "edges of the singular matrix");
      int o1 = m.edges[1].offset(g.s), o0 = m.edges[0].offset(ref::neg(KIND, g.s)), w = m.edges[1].total();
      for (int i = 0; i < g.dim; i++)
         for (int j = 0; j < g.dim; j++) {
            auto x = m.data[size_t(o0 + i) * w + o1 + j];
            if (i == j) v.push_back(x.real());
            require(x.imag() == 0 && (i == j || x.real() == 0), "singular matrix is not real diagonal");
         }
   }
#else
   for (auto& [k, vec] : singular.value) r[sym_from(k)] = std::vector<double>(vec.begin(), vec.end());
#endif
   return r;
}
template<typename E>
void set_singular_arrows(std::vector<E>& e) {
   if constexpr (is_fermi_v) {
      e[0].arrow = false;
      e[1].arrow = true;
   }
}
inline typename Tensor::SingularType make_singular(const SingularSpec& s) {
#ifdef TAT_USE_SINGULAR_MATRIX
   std::vector<TEdge> e(2);
   for (auto& [k, v] : s) {
      e[0].map[sym_to(ref::neg(KIND, k))] = v.size();
      e[1].map[sym_to(k)] = v.size();
   }
   set_singular_arrows(e);
   auto r = Tensor(std::vector<Name>{Name("su"), Name("sv")}, e).zero();
   for (auto& [key, block] : r.core->blocks) {
      auto& v = s.at(sym_from(key[1]));
      for (size_t i = 0; i < v.size(); i++) block[i * (v.size() + 1)] = scalar_to<Scalar>(v[i]);
   }
   return r;
#else
   typename Tensor::SingularType r;
   for (auto& [k, v] : s) {
      auto& x = r.value[sym_to(k)];
      x.clear();
      for (auto d : v) x.push_back(Real(d));
   }
   return r;
#endif
}
