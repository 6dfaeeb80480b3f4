// The Python module, driven from an embedded interpreter and compared with the reference model.
// PY_MODULES (environment variable PBT_WORK + "/py/<symmetry>") holds the module built from the current sources; the
// symmetry is chosen by the environment variable PY_SYM, the scalar type per case.
#pragma once
#include <pybind11/complex.h>
#include <pybind11/embed.h>
#include <pybind11/functional.h>
#include <pybind11/numpy.h>
#include <pybind11/stl.h>
#include "pbt.hpp"
#include "ref.hpp"
namespace py = pybind11;

static ref::Kind KIND = ref::Kind::No;
static bool is_fermi_v = false, is_nosym = true, is_cplx = false;
#include "gens.hpp"

struct Py {
   std::string sym;
   py::module_ tat, np, builtins, pickle;
   py::object Sym, Edge, BoseEdge, Name;
   py::object cls[4];
   static constexpr const char* letters = "SDCZ";
};
static Py* P = nullptr;
static int scalar_type = 1; // index into "SDCZ"
static void python_start() {
   static const std::map<std::string, ref::Kind> kinds = {{"No", ref::Kind::No}, {"Z2", ref::Kind::Z2}, {"U1", ref::Kind::U1}, {"Fermi", ref::Kind::Fermi}, {"FermiZ2", ref::Kind::FermiZ2}, {"FermiU1", ref::Kind::FermiU1}};
   const char* s = getenv("PY_SYM");
   std::string sym = s ? s : "No";
   KIND = kinds.at(sym);
   is_fermi_v = ref::is_fermi(KIND);
   is_nosym = KIND == ref::Kind::No;
   py::initialize_interpreter(false);
   auto sys = py::module_::import("sys");
   sys.attr("path").attr("insert")(0, std::string(getenv("PBT_WORK")) + "/py/" + sym);
   P = new Py;
   P->sym = sym;
   P->tat = py::module_::import("TAT");
   P->np = py::module_::import("numpy");
   P->builtins = py::module_::import("builtins");
   P->pickle = py::module_::import("pickle");
   auto in = P->tat.attr("_internal");
   P->Sym = in.attr("Symmetry").attr(sym.c_str());
   P->Edge = in.attr("Edge").attr(sym.c_str());
   P->BoseEdge = in.attr("Edge").attr("NoArrow").attr(sym.c_str());
   P->Name = P->tat.attr("Name");
   for (int i = 0; i < 4; i++) P->cls[i] = P->tat.attr("Tensor").attr((std::string(1, Py::letters[i]) + sym).c_str());
}
static const int python_hook = (pbt::before_main = python_start, 0);

static void set_scalar(int i) {
   scalar_type = i;
   is_cplx = i >= 2;
}
static void pick_scalar(Src& src) {
   set_scalar(int(src.draw(4)) ^ 1); // 0 is double
}
static py::object cls() {
   return P->cls[scalar_type];
}
static std::string str(const py::handle& o) {
   return py::cast<std::string>(py::str(o));
}
// ---------------------------------------------------------------- model -> Python
// the plain Python spelling of a sector
static py::object raw_sym(const ref::Sym& s) {
   switch (KIND) {
      case ref::Kind::No: return P->Sym();
      case ref::Kind::Z2: return py::bool_(bool(s.a));
      case ref::Kind::U1:
      case ref::Kind::Fermi: return py::int_(s.a);
      case ref::Kind::FermiZ2: return py::make_tuple(s.a, bool(s.b));
      default: return py::make_tuple(s.a, s.b);
   }
}
static py::object obj_sym(const ref::Sym& s) {
   switch (KIND) {
      case ref::Kind::No: return P->Sym();
      case ref::Kind::Z2: return P->Sym(bool(s.a));
      case ref::Kind::U1:
      case ref::Kind::Fermi: return P->Sym(s.a);
      case ref::Kind::FermiZ2: return P->Sym(s.a, bool(s.b));
      default: return P->Sym(s.a, s.b);
   }
}
static py::object py_sym(const ref::Sym& s, bool raw) {
   return raw ? raw_sym(s) : obj_sym(s);
}
static py::dict seg_dict(const ref::Edge& e, bool raw) {
   py::dict d;
   for (auto& s : e.segs) d[py_sym(s.s, raw)] = s.dim;
   return d;
}
// any of the accepted spellings of an edge; `how` is an arbitrary number
static py::object py_edge(const ref::Edge& e, unsigned how) {
   bool raw = how & 1, wrap = how & 2, as_set = how & 4, as_int = how & 8, tuple = how & 16;
   if (is_nosym) return wrap ? P->Edge(e.total()) : py::object(py::int_(e.total()));
   bool ones = true, trivial = e.segs.size() == 1 && e.segs[0].s == ref::Sym{};
   for (auto& s : e.segs) ones = ones && s.dim == 1;
   bool plain = !is_fermi_v || !e.arrow; // no direction needs to be given
   py::object r;
   if (plain && trivial && as_int) r = py::int_(e.segs[0].dim);
   else if (plain && ones && as_set && !e.segs.empty()) {
      py::set s;
      for (auto& g : e.segs) s.add(py_sym(g.s, raw));
      r = s;
   } else if (is_fermi_v && (e.arrow || tuple)) {
      if (wrap) return P->Edge(e.arrow, seg_dict(e, raw));
      return py::make_tuple(e.arrow, seg_dict(e, raw));
   } else
      r = seg_dict(e, raw);
   return wrap ? P->Edge(r) : r;
}
static py::object py_bose_edge(const ref::Edge& e, unsigned how) {
   bool raw = how & 1, wrap = how & 2;
   if (is_nosym) return wrap ? P->BoseEdge(e.total()) : py::object(py::int_(e.total()));
   py::object d = seg_dict(e, raw);
   return wrap ? P->BoseEdge(d) : d;
}
static py::object py_name(const std::string& n, bool wrap) {
   return wrap ? P->Name(n) : py::object(py::str(n));
}
template<typename C>
static py::list py_names(const C& v, unsigned how = 0) {
   py::list l;
   for (auto& n : v) l.append(py_name(n, how & 1));
   return l;
}
template<typename C>
static py::set py_name_set(const C& v) {
   py::set l;
   for (auto& n : v) l.add(py::str(n));
   return l;
}
static py::set py_pairs(const ref::Pairs& p) {
   py::set l;
   for (auto& [x, y] : p) l.add(py::make_tuple(x, y));
   return l;
}
static py::object py_scalar(const ref::cd& v, int type = scalar_type) {
   if (type >= 2) return py::cast(v);
   return py::cast(v.real());
}
// blocks of the dense model as a list of (sectors, dims, values in row-major order)
struct Block {
   std::vector<ref::Sym> key;
   std::vector<int> dims;
   std::vector<size_t> at; // dense positions, row-major inside the block
};
static std::vector<Block> blocks_of(const ref::T& t) {
   std::vector<Block> r;
   auto dims = t.dims();
   for (auto& k : ref::conserved(t.kind, t.edges)) {
      Block b;
      b.key = k;
      std::vector<int> off;
      for (int i = 0; i < t.rank(); i++) {
         b.dims.push_back(t.edges[i].find(k[i])->dim);
         off.push_back(t.edges[i].offset(k[i]));
      }
      ref::each(b.dims, [&](const std::vector<int>& idx) {
         auto g = idx;
         for (size_t i = 0; i < g.size(); i++) g[i] += off[i];
         b.at.push_back(ref::flat(dims, g));
      });
      r.push_back(b);
   }
   return r;
}
static py::object py_shape(const std::vector<int>& d) {
   py::tuple t(d.size());
   for (size_t i = 0; i < d.size(); i++) t[i] = d[i];
   return t;
}
static py::array block_array(const ref::T& t, const Block& b) {
   py::array_t<std::complex<double>> flat(py::ssize_t(b.at.size()));
   for (size_t i = 0; i < b.at.size(); i++) flat.mutable_at(i) = t.data[b.at[i]];
   py::object a = flat.attr("reshape")(py_shape(b.dims));
   if (!is_cplx) a = a.attr("real");
   return a;
}
// key of a block in one of the accepted spellings; `order` (for ordered keys) is a permutation of the edges
static py::object block_key(const ref::T& t, const Block& b, const std::vector<int>* order, unsigned how) {
   if (order) {
      py::list l;
      for (int i : *order) {
         auto n = py_name(t.names[i], how & 1);
         if (is_nosym && (how & 2)) l.append(n);
         else l.append(py::make_tuple(n, py_sym(b.key[i], how & 4)));
      }
      return l;
   }
   py::dict d;
   if (is_nosym && (how & 2)) return d;
   for (int i = 0; i < t.rank(); i++) d[py_name(t.names[i], how & 1)] = py_sym(b.key[i], how & 4);
   return d;
}
static py::object make_empty(const ref::T& t, unsigned how) {
   py::list edges;
   unsigned h = how;
   for (auto& e : t.edges) {
      edges.append(py_edge(e, h));
      h = h * 5 + 3;
   }
   if (how & 64) return cls()(py::arg("names") = py_names(t.names, how), py::arg("edges") = edges);
   return cls()(py_names(t.names, how), edges);
}
static py::object to_py(const ref::T& t, unsigned how = 0) {
   auto r = make_empty(t, how);
   for (auto& b : blocks_of(t)) r.attr("block").attr("__setitem__")(block_key(t, b, nullptr, how), block_array(t, b));
   return r;
}
// ---------------------------------------------------------------- Python -> model
static ref::Sym from_sym(const py::handle& s) {
   switch (KIND) {
      case ref::Kind::No: return {0, 0};
      case ref::Kind::Z2: return {int(py::cast<bool>(s.attr("z2"))), 0};
      case ref::Kind::U1: return {py::cast<int>(s.attr("u1")), 0};
      case ref::Kind::Fermi: return {py::cast<int>(s.attr("fermi")), 0};
      case ref::Kind::FermiZ2: return {py::cast<int>(s.attr("fermi")), int(py::cast<bool>(s.attr("z2")))};
      default: return {py::cast<int>(s.attr("fermi")), py::cast<int>(s.attr("u1"))};
   }
}
static ref::Edge from_edge(const py::handle& e) {
   ref::Edge r;
   for (auto kv : py::cast<py::dict>(e.attr("map"))) r.segs.push_back({from_sym(kv.first), py::cast<int>(kv.second)});
   r.sort();
   if (is_fermi_v && py::hasattr(e, "arrow")) r.arrow = py::cast<bool>(e.attr("arrow"));
   return r;
}
static const char* dtype_of(int type) {
   static const char* n[] = {"float32", "float64", "complex64", "complex128"};
   return n[type];
}
static ref::T from_py(const py::handle& t, unsigned how = 0, int type = -1) {
   if (type < 0) type = scalar_type;
   require(py::isinstance(t, P->cls[type]), "result is a " + str(py::type::of(t)));
   ref::T r;
   r.kind = KIND;
   for (auto n : py::cast<py::list>(t.attr("name"))) r.names.push_back(str(n));
   for (auto e : py::cast<py::list>(t.attr("edge"))) r.edges.push_back(from_edge(e));
   require(r.names.size() == r.edges.size(), "number of names differs from number of edges");
   r.data.assign(r.size(), 0);
   auto blocks = t.attr("block");
   for (auto& b : blocks_of(r)) {
      py::object a = blocks.attr("__getitem__")(block_key(r, b, nullptr, how));
      require(str(a.attr("dtype")) == dtype_of(type), "a block has type " + str(a.attr("dtype")));
      require(py::cast<py::tuple>(a.attr("shape")).equal(py_shape(b.dims)), "a block has shape " + str(a.attr("shape")) + " in " + ref::show(r));
      py::array_t<std::complex<double>> c = py::cast<py::array_t<std::complex<double>>>(P->np.attr("ascontiguousarray")(a, py::arg("dtype") = "complex128").attr("reshape")(-1));
      require(size_t(c.size()) == b.at.size(), "a block has the wrong size");
      for (size_t i = 0; i < b.at.size(); i++) r.data[b.at[i]] = c.at(i);
   }
   auto pr = ref::prune(r.kind, r.edges);
   for (int i = 0; i < r.rank(); i++) require(pr[i].segs == r.edges[i].segs, "edge keeps a sector that occurs in no block: " + ref::show(r));
   return r;
}
static void same(const py::handle& got, const ref::T& want, const std::string& what, double tol = 0) {
   auto m = ref::compare(from_py(got), want, tol);
   if (!m.empty()) fail(what + ": " + m);
}
static void unchanged(const py::handle& t, const ref::T& before) {
   auto m = ref::compare(from_py(t), before);
   if (!m.empty()) fail("operand was modified: " + m);
}
template<typename F>
static bool raises(F&& f) {
   try {
      f();
   } catch (const py::error_already_set&) {
      return true;
   }
   return false;
}
static double eps() {
   return scalar_type % 2 == 0 ? 3e-4 : 1e-11;
}
