// The Python lattice library (square/*.py) driven from an embedded interpreter, compared with sums written out over
// configurations and bond indices.
#include "pybridge.hpp"
#include <fcntl.h>
#include <unistd.h>
static const double EPS = 1e-8;
#include "square_model.hpp"

static py::module_* SQ = nullptr;
static void square_start() {
   // the library reports progress on standard output and warnings on standard error
   python_start();
   set_scalar(1);
   auto sys = py::module_::import("sys");
   sys.attr("dont_write_bytecode") = true;
   sys.attr("pycache_prefix") = std::string(getenv("PBT_WORK")) + "/pyc";
   sys.attr("path").attr("insert")(0, std::string(getenv("TAT_REPO")));
   sys.attr("path").attr("append")("/opt/vp/py");
   sys.attr("stdout") = P->builtins.attr("open")("/dev/null", "w");
   int null = open("/dev/null", O_WRONLY);
   dup2(null, 2);
   close(null);
   SQ = new py::module_(py::module_::import("square"));
}
static const int square_hook = (pbt::before_main = square_start, 0);
static py::object sq(const char* n) { return SQ->attr(n); }

// ------------------------------------------------------------------------------------------------ to and from Python
static ref::T dense(const std::vector<std::string>& names, const std::vector<int>& dims, const Vec& data) {
   std::vector<ref::Edge> e;
   for (int d : dims) {
      ref::Edge x;
      x.segs.push_back({ref::Sym{}, d});
      e.push_back(x);
   }
   auto t = ref::make(KIND, names, e);
   t.data = data;
   return t;
}
static py::object py_op(Src& src, const Op& o, int type = 1) {
   std::vector<std::string> names;
   for (int i = 0; i < o.body; i++) names.push_back("I" + std::to_string(i));
   for (int i = 0; i < o.body; i++) names.push_back("O" + std::to_string(i));
   auto t = dense(names, std::vector<int>(names.size(), o.d), o.m);
   auto p = src.permutation(int(names.size()));
   std::vector<std::string> order;
   for (int i : p) order.push_back(names[i]);
   set_scalar(type);
   auto r = to_py(ref::permute_names(t, order));
   set_scalar(1);
   return r;
}
static py::object py_pos(const Pos& p) { return py::make_tuple(std::get<0>(p), std::get<1>(p)); }
static py::object py_positions(const Positions& p) {
   py::tuple t(p.size());
   for (size_t i = 0; i < p.size(); i++) t[i] = py_pos(p[i]);
   return t;
}
static Site site_of(const py::handle& T) {
   auto t = from_py(T);
   return {t.names, t.dims(), t.data};
}
static py::object py_site(const Site& s) { return to_py(dense(s.names, s.dims, s.data)); }
static double number(const py::handle& t) { return py::cast<double>(P->builtins.attr("float")(t)); }
static void set_item(const py::object& o, const py::object& key, const py::object& v) { o.attr("__setitem__")(key, v); }
static py::object get_item(const py::object& o, const py::object& key) { return o.attr("__getitem__")(key); }
static Vec vector_of(const Lat& l, const py::object& e) {
   auto t = from_py(e.attr("vector"));
   std::vector<std::string> order;
   for (int i = 0; i < l.M; i++)
      for (int j = 0; j < l.N; j++) order.push_back(pname(i, j));
   require(std::set<std::string>(t.names.begin(), t.names.end()) == std::set<std::string>(order.begin(), order.end()) && t.names.size() == order.size(),
           "the state does not have exactly one edge per site: " + ref::show(t));
   auto p = ref::permute_names(t, order);
   for (auto& e2 : p.edges) require(e2.total() == l.d, "physical extent changed");
   return p.data;
}
static Net net_of(const Lat& l, const py::object& a) {
   Net n;
   n.l = l;
   require(py::cast<int>(a.attr("M")) == l.M && py::cast<int>(a.attr("N")) == l.N && py::cast<int>(a.attr("dimension_physics")) == l.d, "lattice extents");
   for (int i = 0; i < l.M; i++)
      for (int j = 0; j < l.N; j++) n.sites.push_back(site_of(get_item(a, py::make_tuple(i, j))));
   if (py::hasattr(a, "environment"))
      for (auto [k, v] : py::cast<py::dict>(a.attr("environment"))) {
         py::tuple key = py::cast<py::tuple>(k);
         auto s = from_py(v);
         require(s.rank() == 2 && s.edges[0].total() == s.edges[1].total(), "bond weights are not a square matrix");
         std::vector<double> w;
         int d = s.edges[0].total();
         for (int x = 0; x < d; x++)
            for (int y = 0; y < d; y++) {
               auto e = s.data[x * d + y];
               if (x == y) w.push_back(e.real());
               else require(e == cd(0), "bond weights are not diagonal");
            }
         n.weights[{py::cast<std::string>(key[0])[0], py::cast<int>(key[1]), py::cast<int>(key[2])}] = w;
      }
   n.check_shape();
   return n;
}
using Ordered = std::vector<std::pair<Positions, Op>>; // insertion order matters
static bool has(const Ordered& t, const Positions& p) {
   for (auto& x : t)
      if (x.first == p) return true;
   return false;
}
static std::string show(const Ordered& t) {
   std::string r;
   for (auto& [p, o] : t) r += " " + show(p);
   return r;
}
static void put_term(Src& src, const py::object& lat, Ordered& t, const Positions& p, const Op& o) {
   if (has(t, p)) return;
   t.push_back({p, o});
   set_item(lat.attr("hamiltonian"), py_positions(p), py_op(src, o));
}
static void seed_engine(Src& src) { P->tat.attr("random").attr("seed")(int(src.draw(1 << 20)) + 1); }
static Site random_site(const std::vector<std::string>& names, const std::vector<int>& dims, uint64_t& st, bool positive) {
   Site s{names, dims, {}};
   size_t n = 1;
   for (int d : dims) n *= d;
   for (size_t k = 0; k < n; k++) s.data.push_back(cd(float(positive ? 0.6 + 0.4 * unit(st) : unit(st)), 0));
   return s;
}
static void refill(Src& src, const Lat& l, const py::object& lat, bool positive) {
   uint64_t st = src.draw(1 << 16) * 977 + 11;
   bool shuffle = src.coin();
   for (int i = 0; i < l.M; i++)
      for (int j = 0; j < l.N; j++) {
         auto s = site_of(get_item(lat, py::make_tuple(i, j)));
         if (shuffle) std::reverse(s.names.begin(), s.names.end()), std::reverse(s.dims.begin(), s.dims.end());
         set_item(lat, py::make_tuple(i, j), py_site(random_site(s.names, s.dims, st, positive)));
      }
}
static void gen_environment(Src& src, const Lat& l, const py::object& s) {
   auto n = net_of(l, s);
   for (auto& b : n.bonds()) {
      if (src.coin(1, 3)) continue;
      auto& [k, i, j] = b;
      int d = n.sites[i * l.N + j].dim(std::string(1, k));
      Vec w(d * d, 0);
      for (int x = 0; x < d; x++) w[x * d + x] = std::ldexp(1.0, -int(src.draw(3)));
      set_item(s.attr("environment"), py::make_tuple(std::string(1, k), i, j), to_py(dense({",SVD_U", ",SVD_V"}, {d, d}, w)));
   }
}
static void same_state(Vec a, Vec b, const std::string& what) {
   normalise(a);
   normalise(b);
   double d = distance(a, b);
   if (!(d <= EPS * 10)) fail(what + ": states differ by " + std::to_string(d));
}
static void check_number(double got, double want, const std::string& what, double scale = 1) { close(got, want, scale, what); }
static py::object make_simple(const Lat& l, int D) { return sq("SimpleUpdateLattice")(l.M, l.N, py::arg("D") = D, py::arg("d") = l.d); }
static py::object make_sampling(const Lat& l, int D, int Dc) { return sq("SamplingGradientLattice")(l.M, l.N, py::arg("D") = D, py::arg("Dc") = Dc, py::arg("d") = l.d); }
static void check_terms(const py::object& a, const py::object& b, const std::string& what) {
   py::dict x = a.attr("hamiltonian"), y = b.attr("hamiltonian");
   require(x.size() == y.size(), what + ": number of terms");
   auto i = x.begin();
   for (auto [k, v] : y) {
      require(x.contains(k), what + ": term lost");
      auto m = ref::compare(from_py(x[k]), from_py(v));
      if (!m.empty()) fail(what + ": term " + m);
   }
   (void)i;
}

// ------------------------------------------------------------------------------------------------ exact states, conversions, evolution
#ifdef TEST_STATES
PBT_TEST(exact_update, 25) {
   auto l = gen_lat(src, 6);
   seed_engine(src);
   auto e = sq("ExactLattice")(l.M, l.N, py::arg("d") = l.d);
   auto v = vector_of(l, e);
   check_number(max_norm(v), 1, "largest amplitude of a new exact state");
   Ordered terms;
   int n = int(src.draw(5));
   for (int k = 0; k < n; k++) {
      auto p = gen_any_positions(src, l, 3);
      put_term(src, e, terms, p, gen_op(src, int(p.size()), l.d, Kind::any, false));
   }
   int steps = int(src.range(0, 4));
   double approx = double(src.range(-8, 8)) / 4;
   src.note("exact update " + show(l) + show(terms) + " steps=" + std::to_string(steps) + " approximate energy " + std::to_string(approx));
   auto copy = sq("ExactLattice")(e);
   auto original = v;
   double got = py::cast<double>(e.attr("update")(steps, approx));
   double a = std::abs(approx) * l.sites(), want = 0;
   for (int s = 0; s < steps; s++) {
      Vec h(v.size(), 0);
      for (auto& [p, o] : terms) {
         auto w = act(l, o, p, v);
         for (size_t i = 0; i < h.size(); i++) h[i] += w[i];
      }
      for (size_t i = 0; i < h.size(); i++) v[i] = a * v[i] - h[i];
      double m = max_norm(v);
      if (m < 1e-3) throw pbt::Discard();
      want = (a - m) / l.sites();
      normalise(v);
   }
   double dist = distance(vector_of(l, e), v);
   if (dist > EPS) fail("state after the update differs from (a - H)^n v by " + std::to_string(dist));
   check_number(got, want, "returned energy", a);
   require(distance(vector_of(l, copy), original) == 0, "a copy of the lattice changed");
   check_terms(copy, e, "copy");
   src.nontrivial = steps > 0 && !terms.empty() && l.sites() > 1;
}
PBT_TEST(exact_observe, 20) {
   auto l = gen_lat(src, 6);
   seed_engine(src);
   auto e = sq("ExactLattice")(l.M, l.N, py::arg("d") = l.d);
   if (src.coin()) e.attr("vector") = py::object(e.attr("vector")) * py::float_(std::ldexp(1.0, -int(src.draw(4))));
   auto v = vector_of(l, e);
   auto p = gen_any_positions(src, l, 3);
   bool cplx = src.coin(1, 3), denominator = src.coin();
   auto o = gen_op(src, int(p.size()), l.d, Kind::any, cplx);
   src.note(std::string(cplx ? "complex " : "") + "observe " + show(l) + " " + show(p));
   double got = py::cast<double>(e.attr("observe")(py_positions(p), py_op(src, o, cplx ? 3 : 1), denominator));
   double want = form(l, o, p, v).real();
   check_number(py::cast<double>(e.attr("denominator")()), norm2(v), "denominator", norm2(v));
   if (denominator) want /= norm2(v);
   check_number(got, want, "observed value", norm2(v));
   Ordered terms;
   int n = int(src.draw(4));
   double energy = 0;
   for (int k = 0; k < n; k++) {
      auto q = gen_any_positions(src, l, 2);
      if (has(terms, q)) continue;
      put_term(src, e, terms, q, gen_op(src, int(q.size()), l.d, Kind::any, false));
      energy += form(l, terms.back().second, q, v).real();
   }
   check_number(py::cast<double>(e.attr("observe_energy")()), energy / norm2(v) / l.sites(), "energy");
   require(distance(vector_of(l, e), v) == 0, "observing changed the state");
   src.nontrivial = l.sites() > 1;
}
PBT_TEST(set_all_terms, 10) {
   auto l = gen_lat(src, 6);
   seed_engine(src);
   int which = int(src.draw(3));
   auto e = which == 0 ? sq("ExactLattice")(l.M, l.N, py::arg("d") = l.d) : which == 1 ? make_simple(l, 2) : make_sampling(l, 2, 4);
   auto one = py_op(src, gen_op(src, 1, l.d, Kind::any, false)), two = py_op(src, gen_op(src, 2, l.d, Kind::any, false)), three = py_op(src, gen_op(src, 2, l.d, Kind::any, false));
   bool s = src.coin(), h = src.coin(), v = src.coin();
   src.note("set all terms on " + show(l));
   if (s) e.attr("single_site_hamiltonian") = one;
   if (h) e.attr("horizontal_bond_hamiltonian") = two;
   if (v) e.attr("vertical_bond_hamiltonian") = three;
   std::map<Positions, py::object> want;
   for (int i = 0; i < l.M; i++)
      for (int j = 0; j < l.N; j++) {
         if (s) want[{{i, j}}] = one;
         if (h && j + 1 < l.N) want[{{i, j}, {i, j + 1}}] = two;
         if (v && i + 1 < l.M) want[{{i, j}, {i + 1, j}}] = three;
      }
   py::dict got = e.attr("hamiltonian");
   require(got.size() == want.size(), "number of terms");
   for (auto& [p, t] : want) require(got.contains(py_positions(p)) && py::object(got[py_positions(p)]).is(t), "term set on a wrong place");
   // a term can not be set twice, and wrong names are refused
   if (s) require(raises([&] { e.attr("single_site_hamiltonian") = one; }), "terms set twice");
   if (h && l.N > 1) require(raises([&] { e.attr("horizontal_bond_hamiltonian") = two; }), "terms set twice");
   if (v && l.M > 1) require(raises([&] { e.attr("vertical_bond_hamiltonian") = three; }), "terms set twice");
   require(raises([&] { e.attr("single_site_hamiltonian") = two; }), "a two-site term accepted for single sites");
   require(raises([&] { e.attr("vertical_bond_hamiltonian") = one; }) && raises([&] { e.attr("horizontal_bond_hamiltonian") = one; }), "a single-site term accepted for bonds");
   require(py::cast<py::dict>(e.attr("hamiltonian")).size() == want.size(), "a refused term was set");
   src.nontrivial = !want.empty();
}
PBT_TEST(common_operators, 1) {
   src.note("spin operators");
   cd x[2][2] = {{0, 0.5}, {0.5, 0}}, y[2][2] = {{0, cd(0, -0.5)}, {cd(0, 0.5), 0}}, z[2][2] = {{0.5, 0}, {0, -0.5}};
   auto elem = [&](const char* n, int type, std::vector<int> in, std::vector<int> out) {
      auto r = from_py(sq(n), 0, type);
      std::vector<std::string> order;
      for (size_t i = 0; i < in.size(); i++) order.push_back("I" + std::to_string(i));
      for (size_t i = 0; i < in.size(); i++) order.push_back("O" + std::to_string(i));
      auto p = ref::permute_names(r, order);
      auto idx = in;
      idx.insert(idx.end(), out.begin(), out.end());
      return p.data[ref::flat(p.dims(), idx)];
   };
   for (int a = 0; a < 2; a++)
      for (int b = 0; b < 2; b++) {
         require(elem("Sx", 1, {a}, {b}) == x[a][b] && elem("Sy", 3, {a}, {b}) == y[a][b] && elem("Sz", 1, {a}, {b}) == z[a][b], "single spin operators");
         for (int c = 0; c < 2; c++)
            for (int e = 0; e < 2; e++) {
               require(elem("SxSx", 1, {a, c}, {b, e}) == x[a][b] * x[c][e], "SxSx");
               require(elem("SySy", 1, {a, c}, {b, e}) == y[a][b] * y[c][e], "SySy");
               require(elem("SzSz", 1, {a, c}, {b, e}) == z[a][b] * z[c][e], "SzSz");
               require(elem("SS", 1, {a, c}, {b, e}) == x[a][b] * x[c][e] + y[a][b] * y[c][e] + z[a][b] * z[c][e], "SS");
            }
      }
   src.nontrivial = true;
}
PBT_TEST(conversions, 25) {
   auto l = gen_lat(src, 6);
   int D = int(src.range(1, 3));
   if (l.sites() > 4 && D > 2) D = 2;
   seed_engine(src);
   auto s = make_simple(l, D);
   refill(src, l, s, false);
   Ordered terms;
   int n = int(src.draw(4));
   for (int k = 0; k < n; k++) {
      auto p = gen_any_positions(src, l, 2);
      put_term(src, s, terms, p, gen_op(src, int(p.size()), l.d, Kind::any, false));
   }
   gen_environment(src, l, s);
   src.note("conversions of " + show(l) + " D=" + std::to_string(D));
   auto want = net_of(l, s).state();
   if (max_norm(want) < 1e-2) throw pbt::Discard();
   auto e = sq("ExactLattice")(s);
   check_terms(e, s, "simple update to exact");
   same_state(vector_of(l, e), want, "simple update to exact");
   check_number(max_norm(vector_of(l, e)), 1, "largest amplitude after conversion");
   int Dc = int(src.range(2, 9));
   auto g = Dc == 2 ? sq("SamplingGradientLattice")(s) : sq("SamplingGradientLattice")(s, py::arg("Dc") = Dc);
   require(py::cast<int>(g.attr("dimension_cut")) == Dc && py::cast<int>(g.attr("dimension_virtual")) == D, "dimensions after conversion");
   check_terms(g, s, "simple update to sampling");
   same_state(net_of(l, g).state(), want, "simple update to sampling");
   auto e2 = sq("ExactLattice")(g);
   check_terms(e2, s, "sampling to exact");
   same_state(vector_of(l, e2), want, "sampling to exact");
   auto s2 = sq("SimpleUpdateLattice")(g);
   require(py::cast<py::dict>(s2.attr("environment")).size() == 0, "environment after conversion from sampling");
   check_terms(s2, s, "sampling to simple update");
   same_state(net_of(l, s2).state(), want, "sampling to simple update");
   auto s3 = sq("SimpleUpdateLattice")(s);
   same_state(net_of(l, s3).state(), want, "copy of a simple update lattice");
   // the copies are independent
   refill(src, l, s3, true);
   s3.attr("environment").attr("clear")();
   s3.attr("hamiltonian").attr("clear")();
   refill(src, l, s2, true);
   refill(src, l, g, true);
   same_state(net_of(l, s).state(), want, "source after conversions");
   require(py::cast<py::dict>(s.attr("hamiltonian")).size() == terms.size(), "terms of the source after conversions");
   // stored and loaded
   auto s4 = P->pickle.attr("loads")(P->pickle.attr("dumps")(s, -1));
   same_state(net_of(l, s4).state(), want, "pickled simple update lattice");
   check_terms(s4, s, "pickled simple update lattice");
   same_state(vector_of(l, P->pickle.attr("loads")(P->pickle.attr("dumps")(e, -1))), want, "pickled exact lattice");
   src.nontrivial = l.sites() > 1 && D > 1;
}
PBT_TEST(simple_update, 25) {
   Lat l;
   int shape = int(src.draw(9));
   l.d = src.coin(1, 5) ? 3 : 2;
   const int ms[] = {1, 2, 1, 3, 2, 1, 1, 4, 1}, ns[] = {2, 1, 3, 1, 2, 1, 4, 1, 5};
   l.M = ms[shape];
   l.N = ns[shape];
   if (l.sites() > 3) l.d = 2;
   seed_engine(src);
   int D = int(src.range(1, 2));
   auto s = make_simple(l, D);
   refill(src, l, s, false);
   std::vector<Positions> places;
   for (int i = 0; i < l.M; i++)
      for (int j = 0; j < l.N; j++) {
         auto put = [&](Positions p) {
            if (src.coin(1, 4)) return;
            if (p.size() == 2 && src.coin()) std::swap(p[0], p[1]);
            places.push_back(p);
         };
         if (src.coin(1, 3)) put({{i, j}});
         if (j + 1 < l.N) put({{i, j}, {i, j + 1}});
         if (i + 1 < l.M) put({{i, j}, {i + 1, j}});
      }
   Ordered terms;
   for (int k : src.permutation(int(places.size()))) {
      auto& p = places[k];
      auto o = gen_op(src, int(p.size()), l.d, src.coin(1, 3) ? Kind::symmetric : Kind::any, false);
      // a term that entangles in every direction: bonds of exactly vanishing weight have no inverse and are outside the domain
      for (size_t a = 0; a < o.n(); a++)
         for (size_t b = 0; b < o.n(); b++) o.at(a, b) += 0.1 * std::cos(1 + 1.7 * double(a + b) + 2.3 * double(a * b));
      put_term(src, s, terms, p, o);
   }
   int steps = l.sites() > 3 || l.d > 2 ? int(src.range(0, 1)) : int(src.range(0, 2));
   double dt = double(src.range(1, 6)) / 16;
   int cap = 32;
   src.note("simple update " + show(l) + " D=" + std::to_string(D) + show(terms) + " steps=" + std::to_string(steps) + " dt=" + std::to_string(dt));
   auto v = net_of(l, s).state();
   if (max_norm(v) < 0.05) throw pbt::Discard();
   for (int t = 0; t < steps; t++) {
      for (auto& [p, o] : terms) v = act(l, exp_op(o, -dt), p, v);
      for (size_t k = terms.size(); k-- > 0;) v = act(l, exp_op(terms[k].second, -dt), terms[k].first, v);
   }
   if (max_norm(v) < 1e-3) throw pbt::Discard();
   auto before = sq("SimpleUpdateLattice")(s);
   auto old = net_of(l, s).state();
   s.attr("simple_update")(steps, dt, cap);
   require(py::cast<int>(s.attr("dimension_virtual")) == cap, "virtual dimension after the update");
   require(distance(net_of(l, before).state(), old) == 0, "updating changed an earlier copy");
   auto n = net_of(l, s);
   double smallest = 1;
   for (auto& [b, w] : n.weights) {
      require(!w.empty() && std::abs(w[0] - 1) < 1e-6, "largest bond weight is not one");
      for (size_t k = 0; k < w.size(); k++) {
         smallest = std::min(smallest, w[k]);
         require(k == 0 || w[k] <= w[k - 1], "bond weights are not sorted");
      }
      require(int(w.size()) <= cap, "bond larger than the requested dimension");
      if (int(w.size()) == cap) throw pbt::Discard();
   }
   if (smallest < 1e-6) throw pbt::Discard();
   auto now = n.state();
   normalise(v);
   normalise(now);
   double dist = distance(now, v);
   if (!(dist <= 2e-4)) fail("evolved state differs from the product of exponentials by " + std::to_string(dist));
   for (auto& [p, o] : terms)
      if (p.size() == 2) {
         auto a = std::min(p[0], p[1]);
         if (steps) require(n.weights.count({std::get<0>(p[0]) == std::get<0>(p[1]) ? 'R' : 'D', std::get<0>(a), std::get<1>(a)}) == 1, "updated bond has no weights");
      }
   src.nontrivial = steps > 0 && terms.size() > 1;
}
PBT_TEST(simple_update_truncates, 6) {
   Lat l = gen_lat(src, 6, 2);
   l.d = 2;
   seed_engine(src);
   int D = int(src.range(1, 3)), cap = int(src.range(1, 4));
   auto s = make_simple(l, D);
   refill(src, l, s, false);
   s.attr("horizontal_bond_hamiltonian") = sq("SS");
   s.attr("vertical_bond_hamiltonian") = sq("SS");
   src.note("truncated simple update " + show(l) + " D=" + std::to_string(D) + " cap=" + std::to_string(cap));
   bool keep = src.coin();
   if (keep) s.attr("simple_update")(2, 0.1);
   else s.attr("simple_update")(2, 0.1, cap);
   int limit = keep ? D : cap;
   require(py::cast<int>(s.attr("dimension_virtual")) == limit, "virtual dimension after the update");
   auto n = net_of(l, s);
   for (auto& b : n.bonds()) {
      auto& [k, i, j] = b;
      require(n.sites[i * l.N + j].dim(std::string(1, k)) <= limit, "bond larger than the requested dimension");
      require(n.weights.count(b) && std::abs(n.weights[b][0] - 1) < 1e-6, "bond weights after an update");
   }
   src.nontrivial = l.sites() > 1;
}
PBT_TEST(refused_terms, 4) {
   Lat l = gen_lat(src, 6, 2);
   seed_engine(src);
   auto s = make_simple(l, 2);
   auto p = gen_any_positions(src, l, 3);
   if (p.size() < 2) throw pbt::Discard();
   auto [x1, y1] = p[0];
   auto [x2, y2] = p[1];
   if (p.size() == 2 && std::abs(x1 - x2) + std::abs(y1 - y2) == 1) throw pbt::Discard();
   Ordered terms;
   put_term(src, s, terms, p, gen_op(src, int(p.size()), l.d, Kind::any, false));
   src.note("simple update of distant sites " + show(l) + show(terms));
   require(raises([&] { s.attr("simple_update")(1, 0.1); }), "simple update of distant sites accepted");
   s.attr("initialize_auxiliary")(64);
   require(raises([&] { s.attr("observe")(py_positions(p), py_op(src, terms[0].second)); }), "observing distant sites accepted");
   src.nontrivial = true;
}
PBT_TEST(observe_network, 20) {
   auto l = gen_lat(src, 6);
   int D = int(src.range(1, 2));
   seed_engine(src);
   auto s = make_simple(l, D);
   refill(src, l, s, false);
   gen_environment(src, l, s);
   Ordered terms;
   int n = int(src.draw(4));
   for (int k = 0; k < n; k++) {
      auto p = gen_near(src, l);
      put_term(src, s, terms, p, gen_op(src, int(p.size()), l.d, Kind::any, false));
   }
   auto v = net_of(l, s).state();
   if (norm2(v) < 1e-2) throw pbt::Discard();
   src.note("observe the network " + show(l) + " D=" + std::to_string(D) + show(terms));
   require(raises([&] { s.attr("denominator")(); }), "observing without auxiliaries");
   s.attr("initialize_auxiliary")(400);
   int reads = int(src.range(1, 4));
   py::object t = s;
   for (int k = 0; k < reads; k++) {
      if (src.coin(1, 4)) t = sq("SimpleUpdateLattice")(t);
      switch (int(src.weighted({4, 1, 2}))) {
         case 0: {
            auto p = gen_near(src, l);
            auto o = gen_op(src, int(p.size()), l.d, Kind::any, false);
            bool denominator = src.coin();
            double got = py::cast<double>(denominator ? t.attr("observe")(py_positions(p), py_op(src, o)) : t.attr("observe")(py_positions(p), py_op(src, o), false));
            double want = form(l, o, p, v).real() / (denominator ? norm2(v) : 1);
            check_number(got, want, "observed value at " + show(p), denominator ? 10 : norm2(v) * 10);
            break;
         }
         case 1: check_number(py::cast<double>(t.attr("denominator")()), norm2(v), "denominator", norm2(v)); break;
         default: {
            double e = 0;
            for (auto& [p, o] : terms) e += form(l, o, p, v).real();
            check_number(py::cast<double>(t.attr("observe_energy")()), e / norm2(v) / l.sites(), "energy", 10);
         }
      }
   }
   src.nontrivial = l.sites() > 1 && D > 1;
}
#endif

// ------------------------------------------------------------------------------------------------ cached contractions
static Site free_site(Src& src, const Lat& l, int D, int s, bool shuffle = true) {
   // a tensor without physical edge that fits into site s
   int i = s / l.N, j = s % l.N;
   std::vector<std::string> names;
   if (i) names.push_back("U");
   if (j) names.push_back("L");
   if (i + 1 < l.M) names.push_back("D");
   if (j + 1 < l.N) names.push_back("R");
   std::vector<std::string> on;
   if (shuffle)
      for (int k : src.permutation(int(names.size()))) on.push_back(names[k]);
   else
      on = names;
   uint64_t st = src.draw(1 << 16) + 3;
   return random_site(on, std::vector<int>(on.size(), D), st, false);
}
// compare a tensor with open edges around the sites `where` (names with the number of the site appended) with the network
static void check_holes(const Net& n, const std::vector<int>& conf, const Positions& where, const py::object& T, int D, const std::string& what) {
   auto& l = n.l;
   auto hole = site_of(T);
   std::vector<std::map<std::string, std::string>> open(where.size()); // edge of the left-out site -> name in the result
   std::set<std::string> names;
   for (size_t k = 0; k < where.size(); k++) {
      auto [i, j] = where[k];
      auto add = [&](std::string e, int x, int y) {
         if (x < 0 || y < 0 || x >= l.M || y >= l.N) return;
         for (auto& p : where)
            if (p == Pos{x, y}) return;
         names.insert(open[k][e] = e + std::to_string(k));
      };
      add("U", i - 1, j);
      add("L", i, j - 1);
      add("D", i + 1, j);
      add("R", i, j + 1);
   }
   require(std::set<std::string>(hole.names.begin(), hole.names.end()) == names && hole.names.size() == names.size(), what + ": edges of a hole");
   for (int x : hole.dims) require(x == D, what + ": extents of a hole");
   ref::each(hole.dims, [&](const std::vector<int>& idx) {
      Net m = n;
      for (size_t k = 0; k < where.size(); k++) {
         int s = l.site(where[k]);
         auto [i, j] = where[k];
         Site one;
         std::map<std::string, int> at;
         if (i) one.names.push_back("U");
         if (j) one.names.push_back("L");
         if (i + 1 < l.M) one.names.push_back("D");
         if (j + 1 < l.N) one.names.push_back("R");
         one.dims.assign(one.names.size(), D);
         std::vector<int> pos;
         size_t size = 1;
         for (auto& e : one.names) {
            int x = 0;
            if (open[k].count(e))
               for (size_t q = 0; q < hole.names.size(); q++)
                  if (hole.names[q] == open[k][e]) x = idx[q];
            pos.push_back(x);
            size *= D;
         }
         one.data.assign(size, 0);
         one.data[ref::flat(one.dims, pos)] = 1;
         m.sites[s] = one;
      }
      double want = m.amplitude(conf).real(), got = hole.data[ref::flat(hole.dims, idx)].real();
      if (!(std::abs(got - want) <= EPS * std::max(1.0, std::abs(want)))) fail(what + ": element of the hole at " + show(where) + " is " + std::to_string(got) + " instead of " + std::to_string(want));
   });
}
#ifdef TEST_AUXILIARIES
struct Aux {
   Lat l;
   int D;
   py::object o;
   Net n;
   std::vector<bool> set;
   bool complete(const Positions& except = {}) const {
      for (int s = 0; s < l.sites(); s++) {
         bool skip = false;
         for (auto& p : except) skip = skip || l.site(p) == s;
         if (!skip && !set[s]) return false;
      }
      return true;
   }
};
static void aux_set(Src& src, Aux& a, int s) {
   auto t = free_site(src, a.l, a.D, s);
   set_item(a.o, py::make_tuple(s / a.l.N, s % a.l.N), py_site(t));
   a.n.sites[s] = t;
   a.set[s] = true;
}
static Aux new_aux(const Lat& l, int D, int Dc) {
   Aux a{l, D, sq("SquareAuxiliariesSystem")(l.M, l.N, Dc), Net(), std::vector<bool>(l.sites(), false)};
   a.n.l = l;
   a.n.sites.resize(l.sites());
   return a;
}
static void aux_read(Src& src, Aux& a, std::string& log, int& reads) {
   auto& l = a.l;
   std::vector<int> conf(l.sites(), 0);
   int what = int(src.weighted({3, 4, 4, 4, 1}));
   auto p = gen_near(src, l);
   log += " read" + std::to_string(what) + show(p);
   src.text = log;
   switch (what) {
      case 0: {
         py::object key = src.coin() ? py::object(py::none()) : py::object(py::tuple(0));
         if (!a.complete()) {
            // something is missing: the result can not be a number made up from old pieces
            require(raises([&] { (void)number(get_item(a.o, key)); }), "a network with a missing site has a value");
            return;
         }
         check_number(number(get_item(a.o, key)), a.n.amplitude(conf).real(), "value of the network");
         break;
      }
      case 1:
      case 2: {
         if (!a.complete(p)) return;
         check_holes(a.n, conf, p, get_item(a.o, py_positions(p)), a.D, "auxiliaries");
         break;
      }
      case 3: {
         if (!a.complete(p)) return;
         py::dict r;
         Net m = a.n;
         for (auto& x : p) {
            auto t = free_site(src, l, a.D, l.site(x));
            m.sites[l.site(x)] = t;
            r[py_pos(x)] = py_site(t);
         }
         check_number(number(get_item(a.o, r)), m.amplitude(conf).real(), "value with replaced sites at " + show(p));
         break;
      }
      default: {
         if (!a.complete()) return;
         auto q = gen_any_positions(src, l, 3);
         if (q.size() < 2) return;
         auto [x1, y1] = q[0];
         auto [x2, y2] = q[1];
         if (q.size() == 2 && std::abs(x1 - x2) + std::abs(y1 - y2) == 1) return;
         require(raises([&] { (void)get_item(a.o, py_positions(q)); }), "several distant holes accepted");
      }
   }
   reads++;
}
PBT_TEST(auxiliaries_history, 40) {
   auto l = gen_lat(src, 9);
   int D = int(src.range(1, 3));
   if (l.sites() > 4) D = std::min(D, 2);
   auto a = new_aux(l, D, 100);
   std::string log = "auxiliaries history on " + show(l) + " D=" + std::to_string(D) + ":";
   if (!src.coin(1, 4))
      for (int s : src.permutation(l.sites())) aux_set(src, a, s);
   int steps = int(src.range(1, 10)), reads = 0, changes = 0;
   for (int k = 0; k < steps; k++) {
      switch (int(src.weighted({7, 2, 2, 1, 1, 1}))) {
         case 0: {
            int s = int(src.draw(l.sites()));
            aux_set(src, a, s);
            log += " set" + std::to_string(s);
            break;
         }
         case 1: {
            int s = int(src.draw(l.sites()));
            a.o.attr("__delitem__")(py::make_tuple(s / l.N, s % l.N));
            a.set[s] = false;
            log += " delete" + std::to_string(s);
            break;
         }
         case 2: { // fill what is missing
            for (int s = 0; s < l.sites(); s++)
               if (!a.set[s]) aux_set(src, a, s);
            log += " fill";
            break;
         }
         case 3: { // go on with a copy
            a.o = sq("SquareAuxiliariesSystem")(a.o);
            log += " copy";
            break;
         }
         case 4: { // a copy that goes its own way
            auto b = a;
            b.o = sq("SquareAuxiliariesSystem")(a.o);
            int s = int(src.draw(l.sites()));
            aux_set(src, b, s);
            log += " sibling" + std::to_string(s);
            int r = 0;
            if (src.coin()) aux_read(src, b, log, r);
            break;
         }
         default: { // combine with the part of the sites that is missing here
            auto b = new_aux(l, D, 100);
            for (int s = 0; s < l.sites(); s++)
               if (!a.set[s] && !src.coin(1, 4)) aux_set(src, b, s);
            int r = 0;
            if (src.coin()) aux_read(src, b, log, r);
            auto before = a.set;
            if (src.coin()) {
               auto c = a.o + b.o;
               a.o = c;
               log += " sum";
            } else {
               auto same = a.o;
               a.o += b.o;
               require(a.o.is(same), "in-place sum gives another object");
               log += " add";
            }
            for (int s = 0; s < l.sites(); s++)
               if (b.set[s]) a.set[s] = true, a.n.sites[s] = b.n.sites[s];
         }
      }
      changes++;
      int n = int(src.range(1, 3));
      for (int q = 0; q < n; q++) aux_read(src, a, log, reads);
   }
   src.text = log;
   src.nontrivial = reads > 1 && changes > 1 && l.sites() > 1;
}
// a line of n sites has at most D^(n/2) independent states across a bond, so this cut loses nothing
PBT_TEST(smallest_exact_cut, 12) {
   auto l = gen_lat(src, 9);
   int D = int(src.range(2, 3)), cut = 1;
   if (l.sites() > 6) D = 2;
   for (int i = 0; i < std::max(l.M, l.N) / 2; i++) cut *= D;
   auto a = new_aux(l, D, cut);
   for (int s = 0; s < l.sites(); s++) aux_set(src, a, s);
   std::string log = "smallest exact cut " + std::to_string(cut) + " on " + show(l) + " D=" + std::to_string(D);
   int reads = 0, n = int(src.range(1, 3));
   for (int k = 0; k < n; k++) aux_read(src, a, log, reads);
   src.nontrivial = reads > 0 && l.sites() > 1;
}
PBT_TEST(contradicting_sums, 3) {
   auto l = gen_lat(src, 6);
   auto a = new_aux(l, 2, 30), b = new_aux(l, 2, 30);
   int s = int(src.draw(l.sites()));
   aux_set(src, a, s);
   aux_set(src, b, s);
   src.note("sum of contradicting systems");
   require(raises([&] { (void)(a.o + b.o); }), "systems with different tensors on one site are combined");
   auto c = new_aux(l, 2, 31);
   require(raises([&] { (void)(a.o + c.o); }), "systems of different cuts are combined");
   Lat m = l;
   if (src.coin()) m.M++;
   else m.N++;
   auto d = new_aux(m, 2, 30);
   require(raises([&] { (void)(a.o + d.o); }), "systems of different extents are combined");
   src.nontrivial = true;
}
struct World {
   Lat l;
   int D;
   Net n;     // current site tensors
   Net spun;  // site tensors as they were when the spins were set
   Conf conf;
   bool complete(const Positions& except = {}) const {
      for (int i = 0; i < l.M; i++)
         for (int j = 0; j < l.N; j++)
            if (conf[i][j] < 0 && std::find(except.begin(), except.end(), Pos{i, j}) == except.end()) return false;
      return true;
   }
   std::vector<int> flat() const {
      std::vector<int> r;
      for (auto& a : conf) r.insert(r.end(), a.begin(), a.end());
      return r;
   }
};
static Conf conf_of(const py::object& spin) { return py::cast<Conf>(spin.attr("configuration")); }
static void spin_read(Src& src, const py::object& g, const World& w, std::string& log, int& reads) {
   auto& l = w.l;
   auto spin = g.attr("spin");
   require(conf_of(spin) == w.conf, "configuration");
   auto conf = w.flat();
   int what = int(src.weighted({3, 4, 4, 2, 1}));
   auto p = gen_near(src, l);
   log += " read" + std::to_string(what) + show(p);
   src.text = log;
   switch (what) {
      case 0: {
         py::object key = src.coin() ? py::object(py::none()) : py::object(py::tuple(0));
         if (!w.complete()) {
            require(raises([&] { (void)number(get_item(spin, key)); }), "an incomplete configuration has an amplitude");
            return;
         }
         check_number(number(get_item(spin, key)), w.spun.amplitude(conf).real(), "amplitude of the configuration");
         break;
      }
      case 1: {
         if (!w.complete(p)) return;
         py::dict r;
         auto c2 = conf;
         Net m = w.spun;
         for (auto& x : p) {
            int s = int(src.draw(l.d));
            r[py_pos(x)] = s;
            if (c2[l.site(x)] != s) m.sites[l.site(x)] = w.n.sites[l.site(x)]; // a flipped site uses the present tensor
            c2[l.site(x)] = s;
         }
         check_number(number(get_item(spin, r)), m.amplitude(c2).real(), "amplitude after flipping " + show(p));
         break;
      }
      case 2: {
         if (!w.complete(p)) return;
         check_holes(w.spun, conf, p, get_item(spin, py_positions(p)), w.D, "spins");
         break;
      }
      case 3: {
         if (!w.complete(p)) return;
         py::dict r;
         Net m = w.spun;
         for (auto& x : p) {
            auto t = free_site(src, l, w.D, l.site(x));
            m.sites[l.site(x)] = t;
            r[py_pos(x)] = py_site(t);
         }
         check_number(number(get_item(spin, r)), m.amplitude(conf).real(), "amplitude with replaced tensors at " + show(p));
         break;
      }
      default: {
         if (!w.complete()) return;
         auto q = gen_any_positions(src, l, 3);
         if (q.size() < 2) return;
         auto [x1, y1] = q[0];
         auto [x2, y2] = q[1];
         if (q.size() == 2 && std::abs(x1 - x2) + std::abs(y1 - y2) == 1) return;
         py::dict r;
         for (auto& x : q) r[py_pos(x)] = (conf[l.site(x)] + 1) % l.d;
         require(raises([&] { (void)get_item(spin, r); }), "flipping distant sites accepted");
      }
   }
   reads++;
}
PBT_TEST(spin_history, 40) {
   auto l = gen_lat(src, 6);
   int D = int(src.range(1, 3));
   if (l.sites() > 4) D = std::min(D, 2);
   seed_engine(src);
   auto g = make_sampling(l, D, 100);
   refill(src, l, g, false);
   World w{l, D, net_of(l, g), net_of(l, g), Conf(l.M, std::vector<int>(l.N, -1))};
   std::string log = "spin history on " + show(l) + " D=" + std::to_string(D) + ":";
   auto put = [&](int i, int j, int s) {
      if (w.conf[i][j] != s) w.spun.sites[i * l.N + j] = w.n.sites[i * l.N + j];
      w.conf[i][j] = s;
   };
   int steps = int(src.range(1, 10)), reads = 0, changes = 0;
   for (int k = 0; k < steps; k++) {
      int what = int(src.weighted({6, 4, 1, 1, 1, 1, 1, 1}));
      if (!w.complete() && src.coin()) what = 1;
      switch (what) {
         case 0: {
            int i = int(src.draw(l.M)), j = int(src.draw(l.N)), s = int(src.draw(l.d));
            set_item(g.attr("spin"), py::make_tuple(i, j), py::int_(s));
            put(i, j, s);
            log += " set";
            break;
         }
         case 1: {
            int how = int(src.draw(2));
            Conf c = w.conf;
            for (int i = 0; i < l.M; i++)
               for (int j = 0; j < l.N; j++) c[i][j] = how == 0 ? int(src.draw(l.d)) : (i + j) % l.d;
            if (how == 0) g.attr("initialize_spin")(c);
            else g.attr("initialize_spin")();
            for (int i = 0; i < l.M; i++)
               for (int j = 0; j < l.N; j++) put(i, j, c[i][j]);
            log += " init";
            break;
         }
         case 2: {
            int i = int(src.draw(l.M)), j = int(src.draw(l.N));
            g.attr("spin").attr("__delitem__")(py::make_tuple(i, j));
            w.conf[i][j] = -1;
            log += " delete";
            break;
         }
         case 3:
            g = sq("SamplingGradientLattice")(g);
            log += " copy";
            break;
         case 4: // stored and loaded
            g = P->pickle.attr("loads")(P->pickle.attr("dumps")(g, -1));
            log += " reload";
            break;
         case 5: { // a new tensor on one site; the spin there is set again
            int s = int(src.draw(l.sites())), i = s / l.N, j = s % l.N;
            auto old = w.n.sites[s];
            uint64_t st = src.draw(1 << 16) + 5;
            auto t = random_site(old.names, old.dims, st, false);
            set_item(g, py::make_tuple(i, j), py_site(t));
            w.n.sites[s] = t;
            if (!src.coin(1, 4)) {
               g.attr("spin").attr("__delitem__")(py::make_tuple(i, j));
               w.conf[i][j] = -1;
               int v = int(src.draw(l.d));
               set_item(g.attr("spin"), py::make_tuple(i, j), py::int_(v));
               put(i, j, v);
            }
            log += " tensor";
            break;
         }
         case 6: { // combine two partial configurations
            auto b = py::type::of(g.attr("spin"))(g);
            World v = w;
            for (auto& r : v.conf)
               for (auto& x : r) x = -1;
            for (int i = 0; i < l.M; i++)
               for (int j = 0; j < l.N; j++)
                  if (w.conf[i][j] < 0) {
                     int s = int(src.draw(l.d));
                     set_item(b, py::make_tuple(i, j), py::int_(s));
                     put(i, j, s);
                  }
            if (src.coin()) g.attr("spin") = py::object(g.attr("spin")) + b;
            else {
               py::object s = g.attr("spin");
               s += b;
               require(s.is(py::object(g.attr("spin"))), "in-place sum gives another object");
            }
            log += " combine";
            break;
         }
         default: { // a second lattice that evolves on its own
            auto h = sq("SamplingGradientLattice")(g);
            World v = w;
            int i = int(src.draw(l.M)), j = int(src.draw(l.N)), s = int(src.draw(l.d));
            uint64_t st = src.draw(1 << 16) + 5;
            int at = i * l.N + j;
            auto t = random_site(v.n.sites[at].names, v.n.sites[at].dims, st, false);
            set_item(h, py::make_tuple(i, j), py_site(t));
            v.n.sites[at] = t;
            set_item(h.attr("spin"), py::make_tuple(i, j), py::int_(s));
            if (v.conf[i][j] != s) v.spun.sites[at] = t;
            v.conf[i][j] = s;
            log += " sibling";
            int r = 0;
            if (src.coin()) spin_read(src, h, v, log, r);
         }
      }
      changes++;
      src.text = log;
      spin_read(src, g, w, log, reads);
      if (src.coin()) spin_read(src, g, w, log, reads);
   }
   src.text = log;
   src.nontrivial = reads > 1 && changes > 1 && l.sites() > 1;
}
#endif

// ------------------------------------------------------------------------------------------------ sampling
#ifdef TEST_SAMPLING
using Observers = std::vector<std::pair<std::string, Ordered>>;
static py::dict py_observers(Src& src, const Observers& o) {
   py::dict r;
   for (auto& [k, t] : o) {
      py::dict g;
      for (auto& [p, op] : t) g[py_positions(p)] = py_op(src, op);
      r[py::str(k)] = g;
   }
   return r;
}
static Observers gen_observers(Src& src, const Lat& l) {
   Observers o;
   int n = int(src.draw(3));
   for (int k = 0; k < n; k++) {
      Ordered t;
      int m = int(src.range(1, 2));
      for (int q = 0; q < m; q++) {
         auto p = gen_near(src, l);
         if (!has(t, p)) t.push_back({p, gen_op(src, int(p.size()), l.d, src.coin() ? Kind::any : Kind::symmetric, false)});
      }
      o.push_back({"kind" + std::to_string(k), t});
   }
   return o;
}
static void same_keys(const py::dict& d, const Observers& want) {
   require(d.size() == want.size(), "number of observed kinds");
   for (auto& [k, t] : want) {
      require(d.contains(k.c_str()), "kind lost");
      py::dict g = d[k.c_str()];
      require(g.size() == t.size(), "observed positions of " + k);
      for (auto& [p, o] : t) require(g.contains(py_positions(p)), "position lost");
   }
}
PBT_TEST(ergodic, 25) {
   auto l = gen_lat(src, 4, 3);
   if (l.sites() > 3) l.d = 2;
   int D = int(src.range(1, 2));
   seed_engine(src);
   auto g = make_sampling(l, D, 30);
   refill(src, l, g, false);
   bool holes = src.coin(1, 4);
   if (holes) { // some amplitudes vanish
      int s = int(src.draw(l.sites()));
      auto t = site_of(get_item(g, py::make_tuple(s / l.N, s % l.N)));
      ref::each(t.dims, [&](const std::vector<int>& idx) {
         for (size_t k = 0; k < idx.size(); k++)
            if (t.names[k] == "P" && idx[k] == 0) t.data[ref::flat(t.dims, idx)] = 0;
      });
      set_item(g, py::make_tuple(s / l.N, s % l.N), py_site(t));
   }
   auto v = net_of(l, g).state();
   if (max_norm(v) < 1e-2) throw pbt::Discard();
   Ordered terms;
   int n = int(src.draw(4));
   for (int k = 0; k < n; k++) {
      auto p = gen_near(src, l);
      put_term(src, g, terms, p, gen_op(src, int(p.size()), l.d, Kind::any, false));
   }
   bool energy = src.coin();
   auto obs = gen_observers(src, l);
   src.note("ergodic " + show(l) + " D=" + std::to_string(D) + show(terms) + " kinds=" + std::to_string(obs.size()) + (energy ? " energy" : "") + (holes ? " holes" : ""));
   int runs = int(src.range(1, 3));
   for (int r = 0; r < runs; r++) {
      auto d = py_observers(src, obs);
      auto keep = py_observers(src, obs);
      py::dict result;
      if (obs.empty() && src.coin()) result = g.attr("ergodic")(py::arg("calculate_energy") = energy);
      else result = g.attr("ergodic")(d, py::arg("calculate_energy") = energy);
      same_keys(d, obs); // what the caller passed is as before
      auto want = obs;
      if (energy) want.push_back({"Energy", terms});
      same_keys(result, want);
      for (auto& [k, t] : want)
         for (auto& [p, o] : t) check_number(py::cast<double>(py::cast<py::dict>(result[k.c_str()])[py_positions(p)]), form(l, o, p, v).real(), "sum of " + k + " at " + show(p), norm2(v) * 10);
      if (src.coin()) obs = gen_observers(src, l);
      energy = src.coin();
      if (!terms.empty() && src.coin(1, 3)) { // change a term in place
         auto& [p, o] = terms[src.draw(terms.size())];
         py::object t = py::cast<py::dict>(g.attr("hamiltonian"))[py_positions(p)];
         t *= py::float_(2.0);
         for (auto& x : o.m) x *= 2;
      }
   }
   src.nontrivial = l.sites() > 1;
}
static py::object markov_lattice(Src& src, const Lat& l, int D, Ordered& terms, int kind) {
   // kind 0: arbitrary symmetric terms; 1: every configuration reaches every other, all with the same number of moves; 2: diagonal terms only
   auto g = make_sampling(l, D, 30);
   refill(src, l, g, true);
   auto put = [&](const Positions& p) {
      auto o = gen_op(src, int(p.size()), l.d, Kind::symmetric, false);
      for (size_t i = 0; i < o.n(); i++)
         for (size_t j = 0; j < o.n(); j++) {
            if (kind == 1 && j <= i) o.at(i, j) = o.at(j, i) = cd(float(0.3 + 0.7 * std::abs(o.at(i, j).real())), 0);
            if (kind == 2 && i != j) o.at(i, j) = 0;
         }
      for (size_t i = 0; i < o.n(); i++)
         for (size_t j = 0; j < i; j++) o.at(j, i) = o.at(i, j);
      put_term(src, g, terms, p, o);
   };
   for (int i = 0; i < l.M; i++)
      for (int j = 0; j < l.N; j++) {
         bool flip = src.coin();
         auto pair = [&](Pos a, Pos b) { put(flip ? Positions{b, a} : Positions{a, b}); };
         if (kind == 1 || src.coin()) put({{i, j}});
         if (j + 1 < l.N && (kind == 1 || src.coin())) pair({i, j}, {i, j + 1});
         if (i + 1 < l.M && (kind == 1 || src.coin())) pair({i, j}, {i + 1, j});
      }
   return g;
}
static std::vector<int> spins(const Lat& l, const py::object& g) {
   std::vector<int> f;
   for (auto& row : py::cast<Conf>(g.attr("spin").attr("configuration")))
      for (int x : row) {
         require(x >= 0 && x < l.d, "impossible spin");
         f.push_back(x);
      }
   require(int(f.size()) == l.sites(), "number of spins");
   return f;
}
// which configurations can be reached from s by the moves of the terms
static std::set<size_t> reachable(const Lat& l, const Ordered& terms, size_t s) {
   std::set<size_t> r{s};
   std::vector<size_t> todo{s};
   while (!todo.empty()) {
      auto x = todo.back();
      todo.pop_back();
      auto dg = l.digits(x);
      for (auto& [p, o] : terms) {
         size_t in = 0;
         for (auto& q : p) in = in * l.d + dg[l.site(q)];
         for (size_t out = 0; out < o.n(); out++) {
            if (o.at(in, out) == cd(0)) continue;
            auto e = dg;
            size_t q = out;
            for (size_t k = p.size(); k-- > 0;) e[l.site(p[k])] = int(q % l.d), q /= l.d;
            if (r.insert(l.index(e)).second) todo.push_back(l.index(e));
         }
      }
   }
   return r;
}
PBT_TEST(markov_consistency, 30) {
   auto l = gen_lat(src, 6, 3);
   if (l.sites() > 3) l.d = 2;
   int D = int(src.range(1, 2));
   seed_engine(src);
   Ordered terms;
   bool still = src.coin(1, 3); // diagonal terms: nothing moves, so several samples are known exactly
   auto g = markov_lattice(src, l, D, terms, still ? 2 : 0);
   auto n = net_of(l, g);
   auto v = n.state();
   for (auto& x : v)
      if (std::abs(x) < 1e-3 * max_norm(v)) throw pbt::Discard();
   Conf c(l.M, std::vector<int>(l.N));
   for (auto& r : c)
      for (auto& x : r) x = int(src.draw(l.d));
   g.attr("initialize_spin")(c);
   auto obs = gen_observers(src, l);
   src.note("markov bookkeeping " + show(l) + " D=" + std::to_string(D) + show(terms));
   int rounds = int(src.range(1, 3));
   for (int r = 0; r < rounds; r++) {
      auto from = reachable(l, terms, l.index(spins(l, g)));
      g.attr("equilibrate")(int(src.draw(3)));
      bool energy = src.coin(), gradient = src.coin(1, 3);
      int steps = still ? int(src.range(1, 3)) : 1;
      auto d = py_observers(src, obs);
      py::dict result = g.attr("markov_chain")(steps, d, py::arg("calculate_energy") = energy, py::arg("calculate_gradient") = gradient);
      same_keys(d, obs);
      auto f = spins(l, g);
      size_t s = l.index(f);
      require(from.count(s) == 1, "the chain reached a configuration that no term connects");
      check_number(number(get_item(g.attr("spin"), py::none())), v[s].real(), "amplitude of the configuration", max_norm(v));
      auto want = obs;
      if (energy || gradient) want.push_back({"Energy", terms});
      double es = 0;
      for (auto& [k, t] : want)
         for (auto& [p, o] : t) {
            double x = local(l, o, p, v, s).real();
            if (k == "Energy") es += x;
            check_number(py::cast<double>(py::cast<py::dict>(result[k.c_str()])[py_positions(p)]), x * steps, "measured value of " + k + " at " + show(p), 1000);
         }
      require(result.size() == want.size() + (gradient ? 2 : 0), "number of results");
      if (gradient) {
         py::dict de = result["Delta"], ed = result["EDelta"];
         require(int(de.size()) == l.sites() && int(ed.size()) == l.sites(), "gradient on every site");
         for (int q = 0; q < l.sites(); q++) {
            Positions p{{q / l.N, q % l.N}};
            auto one = py::object(de[py_positions(p)]) * py::float_(v[s].real() / steps);
            check_holes(n, f, p, one, D, "amplitude derivative");
            if (std::abs(es) > 0.05) check_holes(n, f, p, py::object(ed[py_positions(p)]) * py::float_(v[s].real() / steps / es), D, "amplitude derivative times energy");
         }
      }
   }
   src.nontrivial = l.sites() > 1 && !terms.empty();
}
PBT_TEST(markov_conserves, 5) {
   Lat l = gen_lat(src, 6, 2);
   l.d = 2;
   seed_engine(src);
   auto g = make_sampling(l, 2, 30);
   refill(src, l, g, true);
   g.attr("horizontal_bond_hamiltonian") = sq("SS");
   g.attr("vertical_bond_hamiltonian") = sq("SS");
   Conf c(l.M, std::vector<int>(l.N));
   int sum = 0, now = 0;
   for (auto& r : c)
      for (auto& x : r) sum += x = int(src.draw(2));
   g.attr("initialize_spin")(c);
   src.note("spin conservation on " + show(l));
   g.attr("equilibrate")(3);
   for (int x : spins(l, g)) now += x;
   require(sum == now, "total spin changed");
   src.nontrivial = l.sites() > 1;
}
// the same seed gives the same chain
PBT_TEST(markov_reproducible, 5) {
   Lat l = gen_lat(src, 4, 2);
   seed_engine(src);
   Ordered terms;
   auto g = markov_lattice(src, l, 2, terms, 1);
   g.attr("initialize_spin")();
   auto h = sq("SamplingGradientLattice")(g);
   int seed = int(src.draw(1000)), steps = int(src.range(1, 6));
   src.note("reproducible chain on " + show(l) + show(terms));
   P->tat.attr("random").attr("seed")(seed);
   g.attr("equilibrate")(steps);
   P->tat.attr("random").attr("seed")(seed);
   h.attr("equilibrate")(steps);
   require(spins(l, g) == spins(l, h), "the same seed gives another chain");
   src.nontrivial = l.sites() > 1 && steps > 1;
}
#endif
#ifdef TEST_STATISTICS
PBT_TEST(markov_statistics, 1) {
   Lat l{1, 1, 2};
   int shape = int(src.draw(4));
   l.M = shape == 1 ? 2 : 1;
   l.N = shape == 0 ? 2 : shape == 2 ? 3 : 1;
   if (shape == 3) l = {1, 1, 4};
   seed_engine(src);
   auto g = make_sampling(l, 2, 30);
   refill(src, l, g, true);
   Ordered terms;
   auto put = [&](const Positions& p) {
      auto o = gen_op(src, int(p.size()), l.d, Kind::symmetric, false);
      for (size_t i = 0; i < o.n(); i++)
         for (size_t j = 0; j <= i; j++) o.at(i, j) = o.at(j, i) = cd(float(0.3 + 0.7 * std::abs(o.at(i, j).real())), 0);
      put_term(src, g, terms, p, o);
   };
   for (int i = 0; i < l.M; i++)
      for (int j = 0; j < l.N; j++) {
         if (j + 1 < l.N) put({{i, j}, {i, j + 1}});
         if (i + 1 < l.M) put({{i, j}, {i + 1, j}});
      }
   if (l.sites() == 1) put({{0, 0}});
   auto v = net_of(l, g).state();
   double lo = 1e9;
   for (auto& x : v) lo = std::min(lo, std::abs(x));
   if (lo < 0.25 * max_norm(v)) throw pbt::Discard();
   g.attr("initialize_spin")();
   src.note("markov statistics " + show(l));
   const int batches = 30, length = 40;
   double total = norm2(v);
   std::vector<std::vector<double>> freq(batches, std::vector<double>(v.size(), 0));
   for (int b = 0; b < batches; b++)
      for (int k = 0; k < length; k++) {
         g.attr("equilibrate")(1);
         std::vector<int> f;
         for (auto& row : py::cast<Conf>(g.attr("spin").attr("configuration"))) f.insert(f.end(), row.begin(), row.end());
         freq[b][l.index(f)] += 1.0 / length;
      }
   for (size_t s = 0; s < v.size(); s++) {
      double mean = 0, var = 0, p = std::norm(v[s]) / total;
      for (auto& f : freq) mean += f[s] / batches;
      for (auto& f : freq) var += (f[s] - mean) * (f[s] - mean) / (batches - 1);
      double sigma = std::sqrt(var / batches) + 0.005;
      if (std::abs(mean - p) > 6 * sigma) fail("configuration " + std::to_string(s) + " is visited with frequency " + std::to_string(mean) + " +- " + std::to_string(sigma) + " instead of " + std::to_string(p));
   }
   src.nontrivial = true;
}
#endif
