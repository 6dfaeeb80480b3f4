// Square lattice library (include/square): exact states, networks, spin amplitudes, sampling, imaginary time evolution.
// Everything is compared with sums written out over configurations and bond indices.
#define PBT_NO_MAIN
#include "bridge.hpp"

#include <square/square.hpp>

using Ten = std::shared_ptr<const square::Tensor<Scalar>>;
using Exact = square::ExactLattice<Scalar>;
using Simple = square::SimpleUpdateLattice<Scalar>;
using Sampling = square::SamplingGradientLattice<Scalar>;
static const double EPS = is_single ? 2e-3 : 1e-8;
#include "square_model.hpp"

// ------------------------------------------------------------------------------------------------ reading library objects
static Vec vector_of(const Lat& l, const Exact& e) {
   auto t = to_ref(e.vector);
   std::vector<std::string> order;
   for (int i = 0; i < l.M; i++)
      for (int j = 0; j < l.N; j++) order.push_back(pname(i, j));
   require(std::set<std::string>(t.names.begin(), t.names.end()) == std::set<std::string>(order.begin(), order.end()) && t.names.size() == order.size(),
           "the state does not have exactly one edge per site: " + ref::show(t));
   auto p = ref::permute_names(t, order);
   for (auto& e2 : p.edges) require(e2.total() == l.d, "physical extent changed");
   return p.data;
}
static Site site_of(const Tensor& T) {
   auto t = to_ref(T);
   return {t.names, t.dims(), t.data};
}
static Net net_of(const Lat& l, const square::AbstractNetworkLattice<Scalar>& a) {
   Net n;
   n.l = l;
   require(a.M == l.M && a.N == l.N && int(a.dimension_physics) == l.d, "lattice extents");
   require(int(a.lattice.size()) == l.M, "number of rows");
   for (auto& row : a.lattice) {
      require(int(row.size()) == l.N, "number of columns");
      for (auto& t : row) n.sites.push_back(site_of(t));
   }
   n.check_shape();
   return n;
}
static Net net_of(const Lat& l, const Simple& a) {
   auto n = net_of(l, static_cast<const square::AbstractNetworkLattice<Scalar>&>(a));
   for (auto& [k, s] : a.environment) {
      auto v = singular_values(s);
      if (v.size()) n.weights[k] = v.begin()->second;
   }
   n.check_shape();
   return n;
}
template<typename S = Scalar>
static std::shared_ptr<const square::Tensor<S>> op_to(const Op& o, Src& src) {
   std::vector<std::string> names;
   for (int i = 0; i < o.body; i++) names.push_back("I" + std::to_string(i));
   for (int i = 0; i < o.body; i++) names.push_back("O" + std::to_string(i));
   std::vector<TAT::Size> dims(names.size(), o.d);
   auto t = square::Tensor<S>(std::vector<Name>(names.begin(), names.end()), std::vector<TAT::Edge<TAT::NoSymmetry>>(dims.begin(), dims.end()));
   auto& b = t.core->blocks.begin()->second;
   for (size_t i = 0; i < o.m.size(); i++) b[i] = scalar_to<S>(o.m[i]);
   // any storage order
   auto p = src.permutation(int(names.size()));
   std::vector<Name> order;
   for (int i : p) order.push_back(Name(names[i]));
   return std::make_shared<const square::Tensor<S>>(t.transpose(order));
}
static void seed_engine(Src& src) {
   square::random::engine.seed(uint32_t(src.draw(1 << 20)) + 1);
}
// overwrite the random site tensors by moderate numbers from the tape (keeps amplitudes well away from zero when positive)
template<typename L>
static void refill(Src& src, L& lat, bool positive) {
   uint64_t st = src.draw(1 << 16) * 977 + 11;
   for (auto& row : lat.lattice)
      for (auto& t : row)
         t.set([&]() -> Scalar {
            double re = positive ? 0.6 + 0.4 * unit(st) : unit(st), im = is_cplx ? (positive ? 0.3 : 1.0) * unit(st) : 0;
            return scalar_to<Scalar>(cd(float(re), float(im)));
         });
}
static void silent() { std::cout.clear(); }

// ------------------------------------------------------------------------------------------------ exact lattice
#ifdef TEST_EXACT
PBT_TEST(exact_update, 30) {
   auto l = gen_lat(src, 6);
   seed_engine(src);
   Exact e(l.M, l.N, l.d);
   auto v = vector_of(l, e);
   close(max_norm(v), 1, 1, "largest amplitude of a new exact state");
   Terms terms;
   int n = int(src.draw(5));
   for (int k = 0; k < n; k++) {
      auto p = gen_any_positions(src, l, 3);
      if (terms.count(p)) continue;
      terms[p] = gen_op(src, int(p.size()), l.d, Kind::any, is_cplx);
      e.hamiltonians[p] = op_to(terms[p], src);
   }
   int steps = int(src.range(0, 4));
   double approx = double(src.range(-8, 8)) / 4;
   src.note("exact update " + show(l) + show(terms) + " steps=" + std::to_string(steps) + " approximate energy " + std::to_string(approx));
   Exact copy = e;
   double got = e.update(steps, Real(approx));
   double a = std::abs(approx) * l.sites(), want = 0;
   for (int s = 0; s < steps; s++) {
      Vec h(v.size(), 0);
      for (auto& [p, o] : terms) {
         auto w = act(l, o, p, v);
         for (size_t i = 0; i < h.size(); i++) h[i] += w[i];
      }
      for (size_t i = 0; i < h.size(); i++) v[i] = a * v[i] - h[i];
      double m = max_norm(v);
      if (m < 1e-3) throw pbt::Discard();
      want = (a - m) / l.sites();
      normalise(v);
   }
   auto now = vector_of(l, e);
   double dist = distance(now, v);
   if (dist > EPS) fail("state after the update differs from (a - H)^n v by " + std::to_string(dist));
   close(got, want, a, "returned energy");
   auto old = vector_of(l, copy);
   close(max_norm(old), 1, 1, "a copy of the lattice changed");
   src.nontrivial = steps > 0 && !terms.empty() && l.sites() > 1;
}
template<typename C>
static void exact_observe(Src& src) {
   auto l = gen_lat(src, 6);
   seed_engine(src);
   Exact e(l.M, l.N, l.d);
   uint64_t st = src.draw(1 << 16) * 13 + 5;
   e.vector.set([&]() -> Scalar { return scalar_to<Scalar>(cd(float(unit(st)), is_cplx ? float(unit(st)) : 0)); });
   auto v = vector_of(l, e);
   auto p = gen_any_positions(src, l, 3);
   auto o = gen_op(src, int(p.size()), l.d, Kind::any, TAT::is_complex_v<C>);
   bool denominator = src.coin();
   src.note("observe " + show(l) + " " + show(p));
   double got = e.observe(p, *op_to<C>(o, src), denominator);
   double want = form(l, o, p, v).real();
   close(e.denominator(), norm2(v), norm2(v), "denominator");
   if (denominator) want /= norm2(v);
   close(got, want, norm2(v), "observed value");
   Terms terms;
   int n = int(src.draw(4));
   double energy = 0;
   for (int k = 0; k < n; k++) {
      auto q = gen_any_positions(src, l, 2);
      if (terms.count(q)) continue;
      terms[q] = gen_op(src, int(q.size()), l.d, Kind::any, is_cplx);
      e.hamiltonians[q] = op_to(terms[q], src);
      energy += form(l, terms[q], q, v).real();
   }
   close(e.observe_energy(), energy / norm2(v) / l.sites(), 1, "energy");
   require(distance(vector_of(l, e), v) == 0, "observing changed the state");
   src.nontrivial = l.sites() > 1;
}
PBT_TEST(exact_observe_same, 20) { exact_observe<Scalar>(src); }
PBT_TEST(exact_observe_complex, 10) { exact_observe<std::complex<Real>>(src); }
// a finished update converges to the ground state (largest eigenvalue of a - H)
PBT_TEST(set_all_terms, 10) {
   auto l = gen_lat(src, 6);
   seed_engine(src);
   Exact e(l.M, l.N, l.d);
   auto one = op_to(gen_op(src, 1, l.d, Kind::any, is_cplx), src), two = op_to(gen_op(src, 2, l.d, Kind::any, is_cplx), src), three = op_to(gen_op(src, 2, l.d, Kind::any, is_cplx), src);
   bool s = src.coin(), h = src.coin(), v = src.coin();
   src.note("set all terms on " + show(l));
   if (s) e.set_all_site(one);
   if (h) e.set_all_horizontal_bond(two);
   if (v) e.set_all_vertical_bond(three);
   std::map<Positions, Ten> want;
   for (int i = 0; i < l.M; i++)
      for (int j = 0; j < l.N; j++) {
         if (s) want[{{i, j}}] = one;
         if (h && j + 1 < l.N) want[{{i, j}, {i, j + 1}}] = two;
         if (v && i + 1 < l.M) want[{{i, j}, {i + 1, j}}] = three;
      }
   require(e.hamiltonians == want, "terms set on wrong places");
   src.nontrivial = !want.empty();
}
// spin operators
PBT_TEST(common_operators, 2) {
   using C = square::Common<Scalar>;
   src.note("spin operators");
   auto elem = [&](auto& t, std::vector<int> in, std::vector<int> out) {
      auto r = to_ref(*t);
      std::vector<std::string> order;
      for (size_t i = 0; i < in.size(); i++) order.push_back("I" + std::to_string(i));
      for (size_t i = 0; i < in.size(); i++) order.push_back("O" + std::to_string(i));
      auto p = ref::permute_names(r, order);
      auto idx = in;
      idx.insert(idx.end(), out.begin(), out.end());
      return p.data[ref::flat(p.dims(), idx)];
   };
   cd x[2][2] = {{0, 0.5}, {0.5, 0}}, y[2][2] = {{0, cd(0, -0.5)}, {cd(0, 0.5), 0}}, z[2][2] = {{0.5, 0}, {0, -0.5}};
   auto sx = C::Sx(), sz = C::Sz(), xx = C::SxSx(), yy = C::SySy(), zz = C::SzSz(), ss = C::SS();
   auto sy = C::Sy();
   for (int a = 0; a < 2; a++)
      for (int b = 0; b < 2; b++) {
         require(elem(sx, {a}, {b}) == x[a][b] && elem(sy, {a}, {b}) == y[a][b] && elem(sz, {a}, {b}) == z[a][b], "single spin operators");
         for (int c = 0; c < 2; c++)
            for (int e = 0; e < 2; e++) {
               require(elem(xx, {a, c}, {b, e}) == x[a][b] * x[c][e], "SxSx");
               require(elem(yy, {a, c}, {b, e}) == y[a][b] * y[c][e], "SySy");
               require(elem(zz, {a, c}, {b, e}) == z[a][b] * z[c][e], "SzSz");
               require(elem(ss, {a, c}, {b, e}) == x[a][b] * x[c][e] + y[a][b] * y[c][e] + z[a][b] * z[c][e], "SS");
            }
      }
   src.nontrivial = true;
}
#endif

// ------------------------------------------------------------------------------------------------ networks, conversions, files
#ifdef TEST_NETWORK
static void check_terms(const square::AbstractLattice<Scalar>& a, const square::AbstractLattice<Scalar>& b, const std::string& what) {
   require(a.M == b.M && a.N == b.N && a.dimension_physics == b.dimension_physics, what + ": extents");
   require(a.hamiltonians.size() == b.hamiltonians.size(), what + ": number of terms");
   for (auto& [p, t] : a.hamiltonians) {
      auto f = b.hamiltonians.find(p);
      require(f != b.hamiltonians.end(), what + ": term lost at " + show(p));
      auto m = ref::compare(to_ref(*t), to_ref(*f->second));
      if (!m.empty()) fail(what + ": term at " + show(p) + " " + m);
   }
}
static void check_sites(const square::AbstractNetworkLattice<Scalar>& a, const square::AbstractNetworkLattice<Scalar>& b, const std::string& what) {
   check_terms(a, b, what);
   require(a.dimension_virtual == b.dimension_virtual, what + ": virtual dimension");
   require(a.lattice.size() == b.lattice.size(), what + ": rows");
   for (size_t i = 0; i < a.lattice.size(); i++) {
      require(a.lattice[i].size() == b.lattice[i].size(), what + ": columns");
      for (size_t j = 0; j < a.lattice[i].size(); j++) {
         auto m = ref::compare(to_ref(a.lattice[i][j]), to_ref(b.lattice[i][j]));
         if (!m.empty()) fail(what + ": site " + m);
      }
   }
}
static void gen_terms(Src& src, const Lat& l, square::AbstractLattice<Scalar>& a, int max) {
   int n = int(src.draw(max + 1));
   Ten last;
   size_t body = 0;
   for (int k = 0; k < n; k++) {
      auto p = gen_any_positions(src, l, 2);
      if (last && body == p.size() && src.coin()) a.hamiltonians[p] = last;
      else a.hamiltonians[p] = last = op_to(gen_op(src, int(p.size()), l.d, Kind::any, is_cplx), src);
      body = p.size();
   }
}
static void gen_environment(Src& src, const Lat& l, Simple& s) {
   auto n = net_of(l, static_cast<const square::AbstractNetworkLattice<Scalar>&>(s));
   for (auto& b : n.bonds()) {
      if (src.coin(1, 3)) continue;
      auto& [k, i, j] = b;
      std::vector<double> w;
      for (int x = 0; x < n.sites[i * l.N + j].dim(std::string(1, k)); x++) w.push_back(std::ldexp(1.0, -int(src.draw(3))));
      s.environment[b] = make_singular({{ref::Sym(), w}});
   }
}
// same ray: equal up to a positive factor
static void same_state(Vec a, Vec b, const std::string& what) {
   normalise(a);
   normalise(b);
   double d = distance(a, b);
   if (!(d <= EPS * 10)) fail(what + ": states differ by " + std::to_string(d));
}
PBT_TEST(conversions, 30) {
   auto l = gen_lat(src, 6);
   int D = int(src.range(1, 3));
   if (l.sites() > 4 && D > 2) D = 2;
   seed_engine(src);
   Simple s(l.M, l.N, D, l.d);
   for (auto& row : s.lattice)
      for (auto& t : row) close(t.template norm<-1>(), 1, 1, "largest element of a new site");
   refill(src, s, false);
   gen_terms(src, l, s, 3);
   gen_environment(src, l, s);
   src.note("conversions of " + show(l) + " D=" + std::to_string(D));
   auto want = net_of(l, s).state();
   if (max_norm(want) < 1e-2) throw pbt::Discard();
   Exact e(s);
   check_terms(e, s, "simple update to exact");
   same_state(vector_of(l, e), want, "simple update to exact");
   close(max_norm(vector_of(l, e)), 1, 1, "largest amplitude after conversion");
   TAT::Size Dc = 4 + src.draw(5);
   Sampling g(s, Dc);
   require(g.dimension_cut == Dc && g.dimension_virtual == TAT::Size(D), "dimensions after conversion");
   check_terms(g, s, "simple update to sampling");
   same_state(net_of(l, g).state(), want, "simple update to sampling");
   Exact e2(g);
   check_terms(e2, s, "sampling to exact");
   same_state(vector_of(l, e2), want, "sampling to exact");
   Simple s2(g);
   require(s2.environment.empty(), "environment after conversion from sampling");
   check_sites(s2, g, "sampling to simple update");
   same_state(net_of(l, s2).state(), want, "sampling to simple update");
   same_state(net_of(l, s).state(), want, "source after conversions");
   src.nontrivial = l.sites() > 1 && D > 1;
}
PBT_TEST(files, 30) {
   auto l = gen_lat(src, 6);
   int D = int(src.range(1, 3));
   seed_engine(src);
   using TAT::operator<;
   using TAT::operator>;
   std::stringstream f;
   std::vector<int> kinds;
   int n = int(src.range(1, 3));
   Exact e(l.M, l.N, l.d), e2;
   Simple s(l.M, l.N, D, l.d), s2;
   TAT::Size Dc = 1 + src.draw(9);
   Sampling g(l.M, l.N, D, Dc, l.d), g2;
   gen_terms(src, l, e, 4);
   gen_terms(src, l, s, 4);
   gen_terms(src, l, g, 4);
   gen_environment(src, l, s);
   Conf conf(l.M, std::vector<int>(l.N, -1));
   if (src.coin())
      for (auto& r : conf)
         for (auto& x : r) x = int(src.range(-1, l.d - 1));
   g.initialize_spin(conf);
   if (src.coin(1, 3)) { // loading over something else
      Lat o = gen_lat(src, 4);
      e2 = Exact(o.M, o.N, o.d);
      s2 = Simple(o.M, o.N, 2, o.d);
      gen_terms(src, o, s2, 3);
      gen_environment(src, o, s2);
      g2 = Sampling(o.M, o.N, 2, 5, o.d);
      g2.initialize_spin([](int, int) { return 0; });
   }
   src.note("files of " + show(l) + " D=" + std::to_string(D));
   for (int k = 0; k < n; k++) {
      kinds.push_back(int(src.draw(3)));
      if (kinds.back() == 0) f < e;
      else if (kinds.back() == 1) f < s;
      else f < g;
   }
   long sentinel = 0x0123456789abcdef, back = 0;
   f.write((const char*)&sentinel, sizeof sentinel);
   for (int k : kinds) {
      if (k == 0) {
         f > e2;
         check_terms(e2, e, "exact lattice file");
         auto m = ref::compare(to_ref(e2.vector), to_ref(e.vector));
         if (!m.empty()) fail("exact lattice file: " + m);
      } else if (k == 1) {
         f > s2;
         check_sites(s2, s, "simple update lattice file");
         require(s2.environment.size() == s.environment.size(), "number of environments");
         for (auto& [k2, v] : s.environment) require(s2.environment.count(k2) && singular_values(s2.environment.at(k2)) == singular_values(v), "environment changed");
      } else {
         f > g2;
         check_sites(g2, g, "sampling lattice file");
         require(g2.dimension_cut == g.dimension_cut, "cut dimension");
         require(g2.spin.configuration == conf, "configuration changed");
         require(g2.spin.owner == &g2, "configuration belongs to another lattice");
      }
   }
   f.read((char*)&back, sizeof back);
   require(f.good() && back == sentinel, "reading consumed too much or too little");
   // terms that shared one tensor still do, so that they can be changed together cheaply
   src.nontrivial = l.sites() > 1;
}
#endif

// ------------------------------------------------------------------------------------------------ amplitudes of spin configurations
#ifdef TEST_SPIN
static Tensor gen_site(Src& src, const Net& n, int s) {
   // a tensor without physical edge that fits into site s
   auto& t = n.sites[s];
   std::vector<std::string> names;
   std::vector<TEdge> edges;
   for (auto& x : t.names)
      if (x != "P") names.push_back(x), edges.push_back(TEdge(TAT::Size(t.dim(x))));
   auto p = src.permutation(int(names.size()));
   std::vector<Name> on;
   std::vector<TEdge> oe;
   for (int i : p) on.push_back(Name(names[i])), oe.push_back(edges[i]);
   Tensor r(on, oe);
   uint64_t st = src.draw(1 << 16) + 3;
   r.set([&]() -> Scalar { return scalar_to<Scalar>(cd(float(unit(st)), is_cplx ? float(unit(st)) : 0)); });
   return r;
}
static Site with_p(const Tensor& r, int d) {
   auto s = site_of(r);
   Site o;
   o.names = s.names;
   o.dims = s.dims;
   o.names.push_back("P");
   o.dims.push_back(d);
   for (auto& x : s.data)
      for (int k = 0; k < d; k++) o.data.push_back(x);
   return o;
}
struct World {
   Lat l;
   Net n;
   Conf conf;
   bool complete() const {
      for (auto& r : conf)
         for (int x : r)
            if (x < 0) return false;
      return true;
   }
   std::vector<int> flat() const {
      std::vector<int> r;
      for (auto& a : conf) r.insert(r.end(), a.begin(), a.end());
      return r;
   }
};
static void check_amplitude(cd got, cd want, double scale, const std::string& what) {
   if (!(std::abs(got - want) <= EPS * std::max(1.0, scale))) fail(what + ": amplitude (" + std::to_string(got.real()) + "," + std::to_string(got.imag()) + ") instead of (" + std::to_string(want.real()) + "," + std::to_string(want.imag()) + ")");
}
static void check_world(Src& src, const Sampling& g, const World& w, std::string& log, int& reads) {
   require(g.spin.configuration == w.conf, "configuration");
   require(g.spin.owner == &g, "configuration belongs to another lattice");
   if (!w.complete()) return;
   reads++;
   auto& l = w.l;
   auto conf = w.flat();
   cd here = w.n.amplitude(conf);
   int what = int(src.weighted({3, 4, 4, 3, 2, 2}));
   char hint = "hv "[src.draw(3)];
   log += " read" + std::to_string(what) + hint;
   switch (what) {
      case 0: check_amplitude(cd_from(Scalar(g.spin())), here, 1, "amplitude of the configuration"); break;
      case 1:
      case 2: { // flipping one or two adjacent sites
         auto p = gen_near(src, l);
         std::map<Pos, int> r;
         auto c2 = conf;
         for (auto& x : p) {
            r[x] = int(src.draw(l.d));
            c2[l.site(x)] = r[x];
         }
         check_amplitude(cd_from(Scalar(g.spin(r, scalar_to<Scalar>(here), hint))), w.n.amplitude(c2), 1, "amplitude after flipping " + show(p));
         break;
      }
      case 3: { // environment of one site
         int s = int(src.draw(l.sites()));
         int i = s / l.N, j = s % l.N;
         auto hole = site_of(g.spin(Positions{{i, j}}, hint));
         auto want = w.n.contract(conf, s);
         std::vector<std::string> names;
         for (std::string x : {"L", "U", "D", "R"})
            if (w.n.sites[s].dim(x) > 0) names.push_back(x + "0");
         require(std::set<std::string>(names.begin(), names.end()) == std::set<std::string>(hole.names.begin(), hole.names.end()) && names.size() == hole.names.size(), "edges of a hole");
         for (auto& n : names) require(hole.dim(n) == w.n.sites[s].dim(n.substr(0, 1)), "extents of a hole");
         ref::each(hole.dims, [&](const std::vector<int>& idx) {
            std::vector<int> key;
            for (auto& n : names)
               for (size_t k = 0; k < idx.size(); k++)
                  if (hole.names[k] == n) key.push_back(idx[k]);
            auto f = want.find(key);
            check_amplitude(hole.data[ref::flat(hole.dims, idx)], f == want.end() ? cd(0) : f->second, 1, "element of the hole at " + show(Positions{{i, j}}));
         });
         break;
      }
      case 4: { // foreign tensors on one or two sites
         auto p = gen_near(src, l);
         std::map<Pos, Tensor> r;
         Net m = w.n;
         for (auto& x : p) {
            r[x] = gen_site(src, w.n, l.site(x));
            m.sites[l.site(x)] = with_p(r[x], l.d);
         }
         check_amplitude(cd_from(Scalar(g.spin(r, hint))), m.amplitude(conf), 1, "amplitude with replaced tensors at " + show(p));
         break;
      }
      default: { // requests that are not supported are refused
         auto p = gen_any_positions(src, l, 3);
         if (p.size() < 2) break;
         auto [x1, y1] = p[0];
         auto [x2, y2] = p[1];
         if (p.size() == 2 && std::abs(x1 - x2) + std::abs(y1 - y2) == 1) break;
         if (src.coin()) require(raises([&] { (void)g.spin(p, hint); }), "several holes accepted");
         else {
            std::map<Pos, Tensor> r;
            for (auto& x : p) r[x] = gen_site(src, w.n, l.site(x));
            require(raises([&] { (void)g.spin(r, hint); }), "replacement of distant sites accepted");
         }
      }
   }
}
PBT_TEST(spin_history, 40) {
   auto l = gen_lat(src, 6);
   int D = int(src.range(1, 3));
   if (l.sites() > 4) D = std::min(D, 2);
   seed_engine(src);
   auto g = std::make_unique<Sampling>(l.M, l.N, D, 200, l.d);
   refill(src, *g, false);
   World w{l, net_of(l, *g), Conf(l.M, std::vector<int>(l.N, -1))};
   std::string log = "spin history on " + show(l) + " D=" + std::to_string(D) + ":";
   int steps = int(src.range(1, 10)), reads = 0, changes = 0;
   for (int k = 0; k < steps; k++) {
      int what = int(src.weighted({6, 4, 1, 1, 1, 1, 1, 1}));
      if (!w.complete() && src.coin()) what = 1;
      switch (what) {
         case 0: {
            int i = int(src.draw(l.M)), j = int(src.draw(l.N)), s = int(src.range(-1, l.d - 1));
            if (s < 0 && !src.coin(1, 4)) s = 0;
            g->spin.set({i, j}, s);
            w.conf[i][j] = s;
            log += " set";
            break;
         }
         case 1: {
            for (auto& r : w.conf)
               for (auto& x : r) x = int(src.draw(l.d));
            if (src.coin()) g->initialize_spin(w.conf);
            else g->initialize_spin([&](int i, int j) { return w.conf[i][j]; });
            log += " init";
            break;
         }
         case 2: {
            auto h = std::make_unique<Sampling>(*g);
            g = std::move(h);
            log += " copy";
            break;
         }
         case 3: {
            auto h = std::make_unique<Sampling>(std::move(*g));
            g = std::move(h);
            log += " move";
            break;
         }
         case 4: {
            auto h = std::make_unique<Sampling>(1, 2, 2, 7, 2);
            h->initialize_spin([](int, int) { return 0; });
            (void)h->spin();
            if (src.coin()) *h = *g;
            else *h = std::move(*g);
            g = std::move(h);
            log += " assign";
            break;
         }
         case 5: {
            using TAT::operator<;
            using TAT::operator>;
            std::stringstream f;
            f < *g;
            auto h = std::make_unique<Sampling>();
            f > *h;
            g = std::move(h);
            log += " reload";
            break;
         }
         case 6:
            g->set_dimension_cut(150 + src.draw(100));
            log += " cut";
            break;
         default: { // a second lattice that evolves on its own
            Sampling h = *g;
            if (w.complete()) (void)h.spin();
            int i = int(src.draw(l.M)), j = int(src.draw(l.N));
            h.spin.set({i, j}, int(src.draw(l.d)));
            log += " sibling";
         }
      }
      changes++;
      src.text = log;
      check_world(src, *g, w, log, reads);
      src.text = log;
      if (src.coin(1, 3)) check_world(src, *g, w, log, reads);
      src.text = log;
   }
   require(!g->spin.lattice.empty(), "no lattice");
   src.nontrivial = reads > 1 && changes > 1 && l.sites() > 1;
}
// limited cut: still a consistent approximation that becomes exact when the bond is not limited
PBT_TEST(cut_is_exact_when_large_enough, 8) {
   auto l = gen_lat(src, 6);
   int D = 2;
   seed_engine(src);
   int cut = 1;
   for (int i = 0; i < std::max(l.M, l.N); i++) cut *= D;
   Sampling g(l.M, l.N, D, cut, l.d);
   refill(src, g, false);
   auto n = net_of(l, g);
   Conf c(l.M, std::vector<int>(l.N));
   std::vector<int> f;
   for (auto& r : c)
      for (auto& x : r) x = int(src.draw(l.d)), f.push_back(x);
   g.initialize_spin(c);
   src.note("smallest exact cut " + std::to_string(cut) + " on " + show(l));
   check_amplitude(cd_from(Scalar(g.spin())), n.amplitude(f), 1, "amplitude with the smallest exact cut");
   src.nontrivial = l.sites() > 1;
}
#endif

// ------------------------------------------------------------------------------------------------ sampling
#ifdef TEST_SAMPLING
static std::map<std::string, std::map<Positions, Ten>> to_observers(const std::map<std::string, Terms>& o, Src& src) {
   std::map<std::string, std::map<Positions, Ten>> r;
   for (auto& [k, t] : o) {
      r[k];
      for (auto& [p, op] : t) r[k][p] = op_to(op, src);
   }
   return r;
}
// complex lattices with complex operators would depend on which index faces the bra, so operators there are real symmetric
static Op gen_observable(Src& src, int body, int d) {
   return is_cplx ? gen_op(src, body, d, Kind::symmetric, false) : gen_op(src, body, d, src.coin() ? Kind::any : Kind::symmetric, false);
}
static std::map<std::string, Terms> gen_observers(Src& src, const Lat& l) {
   std::map<std::string, Terms> o;
   int n = int(src.draw(3));
   for (int k = 0; k < n; k++) {
      auto& t = o["kind" + std::to_string(k)];
      int m = int(src.range(1, 2));
      for (int q = 0; q < m; q++) {
         auto p = gen_near(src, l);
         t[p] = gen_observable(src, int(p.size()), l.d);
      }
   }
   return o;
}
PBT_TEST(ergodic, 30) {
   auto l = gen_lat(src, 4, 3);
   if (l.sites() > 3) l.d = 2;
   int D = int(src.range(1, 2));
   seed_engine(src);
   Sampling g(l.M, l.N, D, 30, l.d);
   refill(src, g, false);
   auto v = net_of(l, g).state();
   for (auto& x : v)
      if (std::abs(x) < 1e-3 * max_norm(v) || max_norm(v) < 1e-2) throw pbt::Discard();
   Terms terms;
   int n = int(src.draw(4));
   for (int k = 0; k < n; k++) {
      auto p = gen_near(src, l);
      if (terms.count(p)) continue;
      terms[p] = gen_observable(src, int(p.size()), l.d);
      g.hamiltonians[p] = op_to(terms[p], src);
   }
   bool energy = src.coin();
   auto obs = gen_observers(src, l);
   src.note("ergodic " + show(l) + " D=" + std::to_string(D) + show(terms) + " kinds=" + std::to_string(obs.size()) + (energy ? " energy" : ""));
   if (energy && terms.empty()) energy = false;
   int runs = int(src.range(1, 2));
   for (int r = 0; r < runs; r++) {
      auto result = g.ergodic(to_observers(obs, src), energy);
      auto want = obs;
      if (energy) want["Energy"] = terms;
      require(result.size() == want.size(), "number of observed kinds");
      for (auto& [k, t] : want) {
         require(result.count(k) && result[k].size() == t.size(), "observed positions of " + k);
         for (auto& [p, o] : t) {
            require(result[k].count(p) == 1, "position lost");
            close(result[k][p], form(l, o, p, v).real() / norm2(v), 1, "expectation of " + k + " at " + show(p), EPS * 100);
         }
      }
      obs = gen_observers(src, l);
   }
   src.nontrivial = l.sites() > 1;
}
static Sampling markov_lattice(Src& src, const Lat& l, int D, Terms& terms, bool connected) {
   Sampling g(l.M, l.N, D, 30, l.d);
   refill(src, g, true);
   auto put = [&](const Positions& p) {
      auto o = gen_op(src, int(p.size()), l.d, Kind::symmetric, false);
      if (connected)
         for (size_t i = 0; i < o.m.size(); i++) o.m[i] = cd(0.3 + 0.7 * std::abs(o.m[i].real()), 0);
      // no empty rows and a symmetric pattern: the chain needs every move to be reversible
      for (size_t i = 0; i < o.n(); i++)
         for (size_t j = 0; j < o.n(); j++) o.at(j, i) = o.at(i, j);
      terms[p] = o;
      g.hamiltonians[p] = op_to(o, src);
   };
   for (int i = 0; i < l.M; i++)
      for (int j = 0; j < l.N; j++) {
         bool flip = src.coin();
         auto pair = [&](Pos a, Pos b) { put(flip ? Positions{b, a} : Positions{a, b}); };
         if (connected || src.coin()) put({{i, j}});
         if (j + 1 < l.N && (connected || src.coin())) pair({i, j}, {i, j + 1});
         if (i + 1 < l.M && (connected || src.coin())) pair({i, j}, {i + 1, j});
      }
   return g;
}
// the chain keeps its bookkeeping: amplitude, configuration and measured values belong together
PBT_TEST(markov_consistency, 30) {
   auto l = gen_lat(src, 6, 3);
   if (l.sites() > 3) l.d = 2;
   int D = int(src.range(1, 2));
   seed_engine(src);
   Terms terms;
   auto g = markov_lattice(src, l, D, terms, false);
   auto n = net_of(l, g);
   auto v = n.state();
   for (auto& x : v)
      if (std::abs(x) < 1e-3 * max_norm(v)) throw pbt::Discard();
   Conf c(l.M, std::vector<int>(l.N));
   for (auto& r : c)
      for (auto& x : r) x = int(src.draw(l.d));
   g.initialize_spin(c);
   auto obs = gen_observers(src, l);
   src.note("markov bookkeeping " + show(l) + " D=" + std::to_string(D) + show(terms));
   int rounds = int(src.range(1, 4));
   for (int r = 0; r < rounds; r++) {
      g.equilibrate(src.draw(3));
      bool energy = src.coin(), gradient = src.coin(1, 3);
      if (terms.empty()) energy = gradient = false;
      auto [value, variance, grad] = g.markov(1, to_observers(obs, src), energy, gradient);
      std::vector<int> f;
      for (auto& row : g.spin.configuration)
         for (int x : row) {
            require(x >= 0 && x < l.d, "impossible spin");
            f.push_back(x);
         }
      size_t s = l.index(f);
      double got = std::abs(cd_from(Scalar(g.spin())) - v[s]);
      if (!(got <= EPS * 10 * max_norm(v))) fail("amplitude does not belong to the configuration");
      auto want = obs;
      if ((energy || gradient) && !terms.empty()) want["Energy"] = terms;
      for (auto& [k, t] : want)
         for (auto& [p, o] : t) close(value[k][p], local(l, o, p, v, s).real(), 10, "measured value of " + k + " at " + show(p), EPS * 100);
      if (gradient) {
         require(int(grad.size()) == l.M, "shape of the gradient");
         for (int i = 0; i < l.M; i++)
            for (int j = 0; j < l.N; j++) {
               auto m = to_ref(grad[i][j]);
               // one sample: covariance with itself vanishes
               for (auto& x : m.data) require(std::abs(x) <= EPS * 1000 * (1 + max_norm(v)), "gradient of a single sample");
               auto a = site_of(grad[i][j]);
               require(std::set<std::string>(a.names.begin(), a.names.end()) == std::set<std::string>(n.sites[i * l.N + j].names.begin(), n.sites[i * l.N + j].names.end()), "edges of the gradient");
            }
      }
   }
   src.nontrivial = l.sites() > 1 && !terms.empty();
}
// values +1 and -1 only: the spread follows from the mean
PBT_TEST(markov_variance, 6) {
   Lat l = gen_lat(src, 4, 3);
   seed_engine(src);
   Terms terms;
   auto g = markov_lattice(src, l, 2, terms, false);
   auto v = net_of(l, g).state();
   for (auto& x : v)
      if (std::abs(x) < 1e-3 * max_norm(v)) throw pbt::Discard();
   g.initialize_spin([](int, int) { return 0; });
   Op o = gen_op(src, 1, l.d, Kind::symmetric, false);
   for (size_t i = 0; i < o.n(); i++)
      for (size_t j = 0; j < o.n(); j++) o.at(i, j) = i != j ? 0 : i == 0 ? 1 : -1;
   std::map<std::string, Terms> obs;
   for (int i = 0; i < l.M; i++)
      for (int j = 0; j < l.N; j++) obs["sign"][{{i, j}}] = o;
   int n = int(src.range(2, 9));
   src.note("spread of " + std::to_string(n) + " samples on " + show(l) + show(terms));
   auto [value, variance, grad] = g.markov(n, to_observers(obs, src), false, false);
   for (auto& [p, x] : obs["sign"]) {
      double m = value["sign"][p];
      close(std::abs(m * n - std::round(m * n)), 0, 1, "mean of signs times their number");
      close(variance["sign"][p], (1 - m * m) / (n - 1), 1, "squared error of the mean");
   }
   src.nontrivial = l.sites() > 1 && !terms.empty();
}
// total spin is conserved by moves that conserve it
PBT_TEST(markov_conserves, 6) {
   Lat l = gen_lat(src, 6, 2);
   l.d = 2;
   seed_engine(src);
   Sampling g(l.M, l.N, 2, 30, 2);
   refill(src, g, true);
   g.set_all_horizontal_bond(square::Common<Scalar>::SS());
   g.set_all_vertical_bond(square::Common<Scalar>::SS());
   Conf c(l.M, std::vector<int>(l.N));
   int sum = 0, now = 0;
   for (auto& r : c)
      for (auto& x : r) sum += x = int(src.draw(2));
   g.initialize_spin(c);
   src.note("spin conservation on " + show(l));
   g.equilibrate(3);
   for (auto& r : g.spin.configuration)
      for (int x : r) now += x;
   require(sum == now, "total spin changed");
   src.nontrivial = l.sites() > 1;
}
#endif
#ifdef TEST_STATISTICS
static Sampling markov_lattice(Src& src, const Lat& l, Terms& terms) {
   Sampling g(l.M, l.N, 2, 30, l.d);
   refill(src, g, true);
   // uneven moves: some pairs of configurations are not connected directly, so the number of moves differs between them
   auto put = [&](const Positions& p) {
      auto o = gen_op(src, int(p.size()), l.d, Kind::symmetric, false);
      size_t n = o.n();
      for (size_t i = 0; i < n; i++)
         for (size_t j = 0; j <= i; j++) {
            double x = 0.3 + 0.7 * std::abs(o.at(i, j).real());
            if (i != j && j > 0 && n > 2 && (i + j) % 2 == 0) x = 0; // configuration 0 reaches all, others fewer
            o.at(i, j) = o.at(j, i) = x;
         }
      terms[p] = o;
      g.hamiltonians[p] = op_to(o, src);
   };
   for (int i = 0; i < l.M; i++)
      for (int j = 0; j < l.N; j++) {
         if (j + 1 < l.N) put({{i, j}, {i, j + 1}});
         if (i + 1 < l.M) put({{i, j}, {i + 1, j}});
      }
   if (l.sites() == 1) put({{0, 0}});
   return g;
}
// The chain visits configurations with the squared amplitude; gradient and values agree with the exact ones.
PBT_TEST(markov_statistics, 1) {
   Lat l{1, 1, 2};
   int shape = int(src.draw(4));
   l.M = shape == 1 ? 2 : 1;
   l.N = shape == 0 ? 2 : shape == 2 ? 3 : 1;
   if (shape == 3) l = {1, 1, 4};
   seed_engine(src);
   Terms terms;
   auto g = markov_lattice(src, l, terms);
   auto n = net_of(l, g);
   auto v = n.state();
   double lo = 1e9;
   for (auto& x : v) lo = std::min(lo, std::abs(x));
   if (lo < 0.25 * max_norm(v)) throw pbt::Discard();
   g.initialize_spin([](int, int) { return 0; });
   src.note("markov statistics " + show(l));
   const int batches = 40, length = 60;
   double total = norm2(v);
   std::vector<std::vector<double>> freq(batches, std::vector<double>(v.size(), 0));
   for (int b = 0; b < batches; b++)
      for (int k = 0; k < length; k++) {
         g.equilibrate(1);
         std::vector<int> f;
         for (auto& row : g.spin.configuration) f.insert(f.end(), row.begin(), row.end());
         freq[b][l.index(f)] += 1.0 / length;
      }
   for (size_t s = 0; s < v.size(); s++) {
      double mean = 0, var = 0, p = std::norm(v[s]) / total;
      for (auto& f : freq) mean += f[s] / batches;
      for (auto& f : freq) var += (f[s] - mean) * (f[s] - mean) / (batches - 1);
      double sigma = std::sqrt(var / batches) + 0.005;
      if (std::abs(mean - p) > 6 * sigma) fail("configuration " + std::to_string(s) + " is visited with frequency " + std::to_string(mean) + " +- " + std::to_string(sigma) + " instead of " + std::to_string(p));
   }
   src.nontrivial = true;
}
PBT_TEST(markov_gradient, 1) {
   Lat l{1, 2, 2};
   if (src.coin()) std::swap(l.M, l.N);
   seed_engine(src);
   Terms terms;
   auto g = markov_lattice(src, l, terms);
   auto n = net_of(l, g);
   auto v = n.state();
   double lo = 1e9;
   for (auto& x : v) lo = std::min(lo, std::abs(x));
   if (lo < 0.25 * max_norm(v)) throw pbt::Discard();
   g.initialize_spin([](int, int) { return 0; });
   src.note("markov gradient " + show(l));
   double total = norm2(v);
   // exact gradient: 2 (<conj(hole/w) E> - <E> <conj(hole/w)>)
   std::vector<cd> es(v.size(), 0);
   cd emean = 0;
   for (size_t s = 0; s < v.size(); s++) {
      auto dg = l.digits(s);
      for (auto& [p, o] : terms) {
         size_t in = 0;
         for (auto& x : p) in = in * l.d + dg[l.site(x)];
         for (size_t out = 0; out < o.n(); out++) {
            auto e = dg;
            size_t q = out;
            for (size_t k = p.size(); k-- > 0;) e[l.site(p[k])] = int(q % l.d), q /= l.d;
            es[s] += o.at(in, out) * v[l.index(e)] / v[s];
         }
      }
      emean += es[s] * std::norm(v[s]) / total;
   }
   const int batches = 30, length = 80;
   std::vector<std::vector<std::vector<cd>>> got(l.sites());
   std::vector<double> energy;
   for (int b = 0; b < batches; b++) {
      auto [value, variance, grad] = g.markov(length, {}, true, true);
      double e = 0;
      for (auto& [p, x] : value["Energy"]) e += x;
      energy.push_back(e);
      for (int s = 0; s < l.sites(); s++) got[s].push_back(site_of(grad[s / l.N][s % l.N].transpose(g.lattice[s / l.N][s % l.N].names)).data);
   }
   double em = 0, ev = 0;
   for (double e : energy) em += e / batches;
   for (double e : energy) ev += (e - em) * (e - em) / (batches - 1);
   double sigma = std::sqrt(ev / batches) + 0.003;
   if (std::abs(em - emean.real()) > 6 * sigma) fail("energy " + std::to_string(em) + " +- " + std::to_string(sigma) + " instead of " + std::to_string(emean.real()));
   for (int s = 0; s < l.sites(); s++) {
      auto& site = n.sites[s];
      std::vector<cd> want(site.data.size(), 0);
      std::vector<std::string> names;
      for (std::string x : {"L", "U", "D", "R"})
         if (site.dim(x) > 0) names.push_back(x);
      for (size_t c = 0; c < v.size(); c++) {
         auto dg = l.digits(c);
         auto hole = n.contract(dg, s);
         ref::each(site.dims, [&](const std::vector<int>& idx) {
            std::vector<int> key;
            bool here = true;
            for (auto& x : names)
               for (size_t k = 0; k < idx.size(); k++)
                  if (site.names[k] == x) key.push_back(idx[k]);
            for (size_t k = 0; k < idx.size(); k++)
               if (site.names[k] == "P") here = idx[k] == dg[s];
            if (!here) return;
            want[ref::flat(site.dims, idx)] += 2.0 * std::conj(hole.at(key) / v[c]) * (es[c] - emean) * std::norm(v[c]) / total;
         });
      }
      for (size_t k = 0; k < want.size(); k++) {
         cd mean = 0;
         double var = 0;
         for (auto& x : got[s]) mean += x[k] / double(batches);
         for (auto& x : got[s]) var += std::norm(x[k] - mean) / (batches - 1);
         // the product of two averages in each batch biases the estimate by O(1/length)
         double sg = std::sqrt(var / batches) + 0.02;
         if (std::abs(mean - want[k]) > 6 * sg) fail("gradient element " + std::to_string(mean.real()) + " +- " + std::to_string(sg) + " instead of " + std::to_string(want[k].real()));
      }
   }
   src.nontrivial = true;
}
#endif

// ------------------------------------------------------------------------------------------------ simple update
#ifdef TEST_UPDATE
template<typename F>
static void collectively(F&& body) {
   std::string msg;
   int discard = 0;
   alarm(60);
   try {
      body();
   } catch (const pbt::Discard&) {
      discard = 1;
   } catch (const std::exception& e) {
      msg = std::string(e.what()) + " [on rank " + std::to_string(TAT::mpi.rank) + "]";
   }
   int mine = msg.empty() ? TAT::mpi.size : TAT::mpi.rank, first = TAT::mpi.size, any = 0;
   MPI_Allreduce(&mine, &first, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
   MPI_Allreduce(&discard, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
   if (first < TAT::mpi.size) {
      int len = int(msg.size());
      MPI_Bcast(&len, 1, MPI_INT, first, MPI_COMM_WORLD);
      msg.resize(len);
      MPI_Bcast(msg.data(), len, MPI_CHAR, first, MPI_COMM_WORLD);
      alarm(0);
      fail(msg);
   }
   alarm(0);
   if (any) throw pbt::Discard();
}
PBT_TEST(simple_update, 30) {
   Lat l;
   int shape = int(src.draw(12));
   l.d = src.coin(1, 5) ? 3 : 2;
   const int ms[] = {1, 2, 1, 3, 1, 4, 2, 1, 1, 5, 1, 6}, ns[] = {2, 1, 3, 1, 4, 1, 2, 1, 5, 1, 6, 1};
   l.M = ms[shape];
   l.N = ns[shape];
   if (l.sites() > 3) l.d = 2;
   seed_engine(src);
   int D = int(src.range(1, 2));
   Simple s(l.M, l.N, D, l.d);
   refill(src, s, false);
   Terms terms;
   for (int i = 0; i < l.M; i++)
      for (int j = 0; j < l.N; j++) {
         auto put = [&](Positions p) {
            if (src.coin(1, 4)) return;
            if (p.size() == 2 && src.coin()) std::swap(p[0], p[1]);
            auto o = gen_op(src, int(p.size()), l.d, src.coin(1, 3) ? Kind::symmetric : Kind::any, is_cplx);
            // a term that entangles in every direction: bonds of exactly vanishing weight have no inverse and are outside the domain
            for (size_t a = 0; a < o.n(); a++)
               for (size_t b = 0; b < o.n(); b++) o.at(a, b) += 0.1 * std::cos(1 + 1.7 * double(a + b) + 2.3 * double(a * b));
            terms[p] = o;
            s.hamiltonians[p] = op_to(o, src);
         };
         if (src.coin(1, 3)) put({{i, j}});
         if (j + 1 < l.N) put({{i, j}, {i, j + 1}});
         if (i + 1 < l.M) put({{i, j}, {i + 1, j}});
      }
   int steps = l.sites() > 3 || l.d > 2 ? int(src.range(0, 1)) : int(src.range(0, 2));
   double dt = double(src.range(1, 6)) / 16;
   int cap = 32;
   src.note("simple update " + show(l) + " D=" + std::to_string(D) + show(terms) + " steps=" + std::to_string(steps) + " dt=" + std::to_string(dt) + " ranks=" + std::to_string(TAT::mpi.size));
   collectively([&] {
      auto v = net_of(l, s).state();
      if (max_norm(v) < 0.05) throw pbt::Discard();
      // order of application: sites, then bonds by direction and parity; then the same backwards
      auto group = [&](const Positions& p) {
         if (p.size() == 1) return 0;
         auto [x1, y1] = p[0];
         auto [x2, y2] = p[1];
         if (x1 == x2) return std::min(y1, y2) % 2 == 0 ? 1 : 2;
         return std::min(x1, x2) % 2 == 0 ? 3 : 4;
      };
      auto apply_group = [&](int k) {
         for (auto& [p, o] : terms)
            if (group(p) == k) v = act(l, exp_op(o, -dt), p, v);
      };
      for (int t = 0; t < steps; t++) {
         for (int k = 0; k < 5; k++) apply_group(k);
         for (int k = 5; k-- > 0;) apply_group(k);
      }
      if (max_norm(v) < 1e-3) throw pbt::Discard();
      s.update(steps, Real(dt), cap);
      require(int(s.dimension_virtual) == cap, "virtual dimension after the update");
      auto n = net_of(l, s);
      double smallest = 1;
      for (auto& [b, w] : n.weights) {
         require(!w.empty() && std::abs(w[0] - 1) < 1e-6, "largest bond weight is not one");
         for (size_t k = 0; k < w.size(); k++) {
            smallest = std::min(smallest, w[k]);
            require(k == 0 || w[k] <= w[k - 1], "bond weights are not sorted");
         }
         require(int(w.size()) <= cap, "bond larger than the requested dimension");
         if (int(w.size()) == cap) throw pbt::Discard();
      }
      if (smallest < (is_single ? 1e-3 : 1e-6)) throw pbt::Discard();
      auto now = n.state();
      normalise(v);
      normalise(now);
      double dist = distance(now, v);
      if (!(dist <= (is_single ? 3e-2 : 2e-4))) fail("evolved state differs from the product of exponentials by " + std::to_string(dist));
      for (auto& [p, o] : terms)
         if (p.size() == 2) {
            auto a = std::min(p[0], p[1]);
            if (steps) require(s.environment.count({std::get<0>(p[0]) == std::get<0>(p[1]) ? 'R' : 'D', std::get<0>(a), std::get<1>(a)}) == 1, "updated bond has no weights");
         }
   });
   src.nontrivial = steps > 0 && terms.size() > 1;
}
PBT_TEST(simple_update_truncates, 10) {
   Lat l = gen_lat(src, 6, 2);
   l.d = 2;
   seed_engine(src);
   int D = int(src.range(1, 3)), cap = int(src.range(1, 4));
   Simple s(l.M, l.N, D, l.d);
   refill(src, s, false);
   s.set_all_horizontal_bond(square::Common<Scalar>::SS());
   s.set_all_vertical_bond(square::Common<Scalar>::SS());
   src.note("truncated simple update " + show(l) + " D=" + std::to_string(D) + " cap=" + std::to_string(cap) + " ranks=" + std::to_string(TAT::mpi.size));
   collectively([&] {
      bool keep = src.coin();
      s.update(2, Real(0.1), keep ? 0 : cap);
      int limit = keep ? D : cap;
      require(int(s.dimension_virtual) == limit, "virtual dimension after the update");
      auto n = net_of(l, s);
      for (auto& b : n.bonds()) {
         auto& [k, i, j] = b;
         require(n.sites[i * l.N + j].dim(std::string(1, k)) <= limit, "bond larger than the requested dimension");
         require(n.weights.count(b) && std::abs(n.weights[b][0] - 1) < 1e-6, "bond weights after an update");
      }
      // every rank holds the same state
      double digest = 0;
      for (auto& x : n.state()) digest += std::abs(x);
      for (auto& t : n.sites)
         for (auto& x : t.data) digest += std::norm(x);
      double lo, hi;
      MPI_Allreduce(&digest, &lo, 1, MPI_DOUBLE, MPI_MIN, MPI_COMM_WORLD);
      MPI_Allreduce(&digest, &hi, 1, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
      require(lo == hi, "ranks hold different states");
   });
   src.nontrivial = l.sites() > 1;
}
// every rank needs bond weights only from the rank that computed them; a chain over ranks is the same as without
#endif

static void on_alarm(int) {
   const char m[] = "PBT-TIMEOUT: ranks are stuck waiting for each other\n";
   [[maybe_unused]] auto r = write(2, m, sizeof m - 1);
   _exit(97);
}
int main(int argc, char** argv) {
   signal(SIGALRM, on_alarm);
   std::cout.rdbuf(nullptr);
   for (auto n : {"P", "U", "D", "L", "R", "I0", "I1", "I2", "O0", "O1", "O2", "P0", "P1"}) (void)Name(n);
   std::vector<char*> a(argv, argv + argc);
   static char null[] = "/dev/null";
   static char none[] = "--ignored";
   if (TAT::mpi.rank) {
      if (!freopen("/dev/null", "w", stdout)) return 6;
      for (int i = 1; i + 1 < argc; i += 2) {
         if (!strcmp(a[i], "--out")) a[i + 1] = null;
         if (!strcmp(a[i], "--crash")) a[i] = none;
      }
   }
   return pbt::main(argc, a.data());
}
