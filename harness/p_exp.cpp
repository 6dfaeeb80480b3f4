// Identity tensors and matrix exponentials over paired edges.
#include "bridge.hpp"
typedef std::complex<long double> cl;
using Mat = std::vector<std::vector<cl>>;

static Mat mul(const Mat& a, const Mat& b) {
   size_t n = a.size();
   Mat r(n, std::vector<cl>(n));
   for (size_t i = 0; i < n; i++)
      for (size_t k = 0; k < n; k++)
         if (a[i][k] != cl(0))
            for (size_t j = 0; j < n; j++) r[i][j] += a[i][k] * b[k][j];
   return r;
}
static long double row_norm(const Mat& a) {
   long double m = 0;
   for (auto& r : a) {
      long double s = 0;
      for (auto& v : r) s += std::abs(v);
      m = std::max(m, s);
   }
   return m;
}
// scaled Taylor series in extended precision
static Mat expm(Mat a) {
   size_t n = a.size();
   int j = 0;
   for (auto x = row_norm(a); x > 0.125L; x /= 2) j++;
   for (auto& r : a)
      for (auto& v : r) v /= std::pow(2.0L, j);
   Mat e(n, std::vector<cl>(n)), p = e;
   for (size_t i = 0; i < n; i++) e[i][i] = p[i][i] = 1;
   for (int k = 1; k <= 20; k++) {
      p = mul(p, a);
      for (auto& r : p)
         for (auto& v : r) v /= (long double)(k);
      for (size_t x = 0; x < n; x++)
         for (size_t y = 0; y < n; y++) e[x][y] += p[x][y];
   }
   while (j--) e = mul(e, e);
   return e;
}
struct Paired {
   ref::T t;
   ref::Pairs pairs;
};
static Paired gen_paired(Src& src, int maxpairs, size_t cap, int maxdim) {
   int n = int(src.range(0, maxpairs));
   Gen g;
   g.max_dim = maxdim;
   g.max_sectors = n > 1 ? 2 : 3;
   g.zero_per_mille = src.coin(1, 12) ? 150 : 0;
   auto names = gen_names(src, 2 * n);
   std::vector<ref::Edge> e1;
   size_t total = 1;
   for (int i = 0; i < n; i++) {
      e1.push_back(gen_edge(src, g));
      cap_edges(e1, cap);
   }
   std::vector<std::string> nn;
   std::vector<ref::Edge> ee;
   Paired p;
   for (int i = 0; i < n; i++) {
      ref::Edge f;
      f.arrow = is_fermi_v && src.coin();
      for (auto& s : e1[i].segs) f.segs.push_back({ref::neg(KIND, s.s), s.dim});
      f.sort();
      p.pairs.push_back({names[2 * i], names[2 * i + 1]});
      nn.push_back(names[2 * i]);
      ee.push_back(e1[i]);
      nn.push_back(names[2 * i + 1]);
      ee.push_back(f);
   }
   auto o = src.permutation(2 * n);
   std::vector<std::string> n2;
   std::vector<ref::Edge> e2;
   for (int i : o) n2.push_back(nn[i]), e2.push_back(ee[i]);
   p.t = ref::normalize(ref::make(KIND, n2, e2));
   fill_real(p.t, src.draw(1 << 16), is_cplx);
   return p;
}
static NamePairs to_pairs(const ref::Pairs& p) {
   NamePairs r;
   for (auto& [x, y] : p) r.insert({Name(x), Name(y)});
   return r;
}
static std::string show(const Paired& p) {
   std::string s = ref::show(p.t) + " pairs";
   for (auto& [x, y] : p.pairs) s += " " + x + "-" + y;
   return s;
}
// index of the partner state on the other edge
static int partner(const ref::Edge& from, const ref::Edge& to, int i) {
   auto [s, in] = from.locate(i);
   return to.offset(ref::neg(KIND, s)) + in;
}
// dense positions of matrix element (row, column): one entry per row tuple / column tuple of the first edges
struct Layout {
   std::vector<std::vector<int>> rows; // index tuples on the first edges
   std::vector<std::vector<int>> cols; // index tuples on the second edges, aligned with rows
};
static Layout aligned(const Paired& p) {
   Layout l;
   std::vector<int> d;
   for (auto& [x, y] : p.pairs) d.push_back(p.t.edges[p.t.find(x)].total());
   ref::each(d, [&](const std::vector<int>& idx) {
      std::vector<int> c;
      for (size_t k = 0; k < idx.size(); k++) c.push_back(partner(p.t.edges[p.t.find(p.pairs[k].first)], p.t.edges[p.t.find(p.pairs[k].second)], idx[k]));
      l.rows.push_back(idx);
      l.cols.push_back(c);
   });
   return l;
}
static Layout fused(const Paired& p, const std::vector<int>& order) {
   std::vector<ref::Edge> g1, g2;
   std::vector<int> d1, d2;
   for (int k : order) {
      g1.push_back(p.t.edges[p.t.find(p.pairs[k].first)]);
      g2.push_back(p.t.edges[p.t.find(p.pairs[k].second)]);
      d1.push_back(g1.back().total());
      d2.push_back(g2.back().total());
   }
   auto f1 = ref::fuse(KIND, g1), f2 = ref::fuse(KIND, g2);
   std::vector<std::vector<int>> t1(f1.to.size()), t2(f2.to.size());
   auto back = [&](const std::vector<int>& idx) {
      std::vector<int> r(idx.size());
      for (size_t i = 0; i < idx.size(); i++) r[order[i]] = idx[i];
      return r;
   };
   size_t n = 0;
   ref::each(d1, [&](const std::vector<int>& idx) { t1[f1.to[n++]] = back(idx); });
   n = 0;
   ref::each(d2, [&](const std::vector<int>& idx) { t2[f2.to[n++]] = back(idx); });
   Layout l;
   for (size_t i = 0; i < t1.size(); i++) {
      l.rows.push_back(t1[i]);
      l.cols.push_back(t2[partner(f1.edge, f2.edge, int(i))]);
   }
   return l;
}
static size_t position(const Paired& p, const std::vector<int>& dims, const std::vector<int>& r, const std::vector<int>& c) {
   std::vector<int> idx(p.t.rank());
   for (size_t k = 0; k < p.pairs.size(); k++) {
      idx[p.t.find(p.pairs[k].first)] = r[k];
      idx[p.t.find(p.pairs[k].second)] = c[k];
   }
   return ref::flat(dims, idx);
}
static ref::T model_exp(const Paired& p, const Layout& l, long double* norm) {
   size_t n = l.rows.size();
   auto d = p.t.dims();
   Mat m(n, std::vector<cl>(n));
   for (size_t i = 0; i < n; i++)
      for (size_t j = 0; j < n; j++) m[i][j] = cl(p.t.data[position(p, d, l.rows[i], l.cols[j])]);
   *norm = row_norm(m);
   auto e = expm(m);
   auto r = p.t;
   for (size_t i = 0; i < n; i++)
      for (size_t j = 0; j < n; j++) r.data[position(p, d, l.rows[i], l.cols[j])] = ref::cd(e[i][j]);
   return r;
}
static void scale(ref::T& t, double f) {
   for (auto& v : t.data) v = ref::cd(double(float(v.real() * f)), double(float(v.imag() * f)));
}
PBT_TEST(identity, 40) {
   auto p = gen_paired(src, is_fermi_v ? 1 : 3, 24, 3);
   src.note("identity " + show(p));
   auto T = to_tat(p.t);
   auto R = T.identity(to_pairs(p.pairs));
   auto want = p.t;
   for (auto& v : want.data) v = 0;
   auto l = aligned(p);
   auto d = p.t.dims();
   for (size_t i = 0; i < l.rows.size(); i++) want.data[position(p, d, l.rows[i], l.cols[i])] = 1;
   same(R, want, "identity");
   unchanged(T, p.t);
   src.nontrivial = l.rows.size() > 1;
   src.label(std::to_string(p.pairs.size()) + " pairs");
}
static void check_exponential(Src& src, const Paired& p, int step, double tol, bool relative = false) {
   auto T = to_tat(p.t);
   auto R = step ? T.exponential(to_pairs(p.pairs), step) : T.exponential(to_pairs(p.pairs));
   unchanged(T, p.t);
   auto got = to_ref(R);
   long double norm = 0;
   auto want = model_exp(p, aligned(p), &norm);
   require(std::set<std::string>(got.names.begin(), got.names.end()) == std::set<std::string>(want.names.begin(), want.names.end()), "names of the exponential are " + ref::show(got));
   auto reorder = [&](const ref::T& t) {
      std::vector<int> o;
      for (auto& n : got.names) o.push_back(t.find(n));
      return ref::permute(t, o);
   };
   double eps = tol * double(std::exp(norm));
   if (relative) {
      double m = 0;
      for (auto& v : want.data) m = std::max(m, std::abs(v));
      eps = tol * m;
   }
   auto m = ref::compare(got, reorder(want), eps);
   if (m.empty()) return;
   if (p.pairs.size() >= 2 && !is_nosym) {
      std::vector<int> o;
      for (size_t i = 0; i < p.pairs.size(); i++) o.push_back(int(i));
      do {
         if (ref::compare(got, reorder(model_exp(p, fused(p, o), &norm)), eps).empty()) {
            src.known_finding("KF02");
            return;
         }
      } while (std::next_permutation(o.begin(), o.end()));
   }
   fail("exponential: " + m);
}
PBT_TEST(exponential, 50) {
   auto p = gen_paired(src, is_fermi_v ? 1 : 3, 6, 4);
   double f[] = {0.25, 1, 1.5, 0.01, 2.5};
   scale(p.t, f[src.draw(5)]);
   if (src.coin(1, 4)) // sparse, nilpotent or diagonal parts
      for (size_t i = 0; i < p.t.data.size(); i++)
         if (pbt::mix(i, 3) % 3) p.t.data[i] = 0;
   int step = 10 + int(src.draw(5));
   src.note("exponential(" + std::to_string(step) + ") " + show(p));
   check_exponential(src, p, step, is_single ? 2e-4 : 1e-10);
   src.nontrivial = p.t.data.size() > 1 && nonzeros(p.t) > 1;
   src.label(std::to_string(p.pairs.size()) + " pairs");
}
PBT_TEST(exponential_default_step, 10) {
   auto p = gen_paired(src, is_fermi_v ? 1 : 2, 5, 3);
   scale(p.t, 0.09);
   src.note("exponential() " + show(p));
   check_exponential(src, p, 0, 1e-3);
   src.nontrivial = p.t.data.size() > 1 && nonzeros(p.t) > 1;
}

// large arguments: non-negative matrices (scaling and squaring is forward stable for them), so the comparison is relative to the result
PBT_TEST(exponential_large, 25) {
   auto p = gen_paired(src, is_fermi_v ? 1 : 2, 4, 3);
   double top = double(src.range(1, is_single ? 12 : 40));
   for (auto& v : p.t.data) v = ref::cd(double(float(std::abs(v) * top / 4)), 0);
   long double norm = 0;
   (void)model_exp(p, aligned(p), &norm);
   long double limit = is_single ? 40 : 200;
   if (norm > limit) scale(p.t, double(limit / norm / 1.01L));
   int step = 10 + int(src.draw(5));
   src.note("exponential(" + std::to_string(step) + ") large " + show(p));
   check_exponential(src, p, step, is_single ? 3e-3 : 1e-9, true);
   src.nontrivial = p.t.data.size() > 1 && nonzeros(p.t) > 1;
   src.label(norm > 32 ? "norm>32" : norm > 8 ? "norm>8" : "small norm");
}
