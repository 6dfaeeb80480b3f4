// Dense model of states, operators and networks on a square lattice, and their generators.
#pragma once
#include "gens.hpp"

using Pos = std::tuple<int, int>;
using Positions = std::vector<Pos>;
using cd = ref::cd;
using Vec = std::vector<cd>;
using Conf = std::vector<std::vector<int>>;
// ------------------------------------------------------------------------------------------------ dense model
struct Lat {
   int M, N, d;
   int sites() const { return M * N; }
   size_t dim() const {
      size_t r = 1;
      for (int i = 0; i < sites(); i++) r *= d;
      return r;
   }
   // site (0,0) is the most significant digit
   std::vector<int> digits(size_t s) const {
      std::vector<int> r(sites());
      for (int i = sites(); i-- > 0;) r[i] = int(s % d), s /= d;
      return r;
   }
   size_t index(const std::vector<int>& v) const {
      size_t s = 0;
      for (int x : v) s = s * d + x;
      return s;
   }
   int site(const Pos& p) const { return std::get<0>(p) * N + std::get<1>(p); }
};
struct Op {
   int body = 0, d = 0;
   Vec m; // element (in, out), first site most significant
   size_t n() const {
      size_t r = 1;
      for (int i = 0; i < body; i++) r *= d;
      return r;
   }
   cd& at(size_t in, size_t out) { return m[in * n() + out]; }
   cd at(size_t in, size_t out) const { return m[in * n() + out]; }
};
// out[...O...] = sum over I of op(I, O) v[...I...]
static Vec act(const Lat& l, const Op& op, const Positions& where, const Vec& v) {
   Vec r(v.size(), 0);
   for (size_t s = 0; s < v.size(); s++) {
      auto dg = l.digits(s);
      size_t in = 0;
      for (auto& p : where) in = in * l.d + dg[l.site(p)];
      for (size_t out = 0; out < op.n(); out++) {
         auto x = op.at(in, out);
         if (x == cd(0)) continue;
         auto e = dg;
         size_t o = out;
         for (size_t k = where.size(); k-- > 0;) e[l.site(where[k])] = int(o % l.d), o /= l.d;
         r[l.index(e)] += x * v[s];
      }
   }
   return r;
}
static Op exp_op(const Op& a, double factor) {
   size_t n = a.n();
   Op r = a;
   for (auto& x : r.m) x *= factor / 1024;
   Op term = r, sum = r;
   auto mul = [&](const Op& x, const Op& y) {
      Op z = x;
      for (size_t i = 0; i < n; i++)
         for (size_t j = 0; j < n; j++) {
            cd s = 0;
            for (size_t k = 0; k < n; k++) s += x.at(i, k) * y.at(k, j);
            z.at(i, j) = s;
         }
      return z;
   };
   for (size_t i = 0; i < n; i++) sum.at(i, i) += 1.0;
   for (int k = 2; k < 12; k++) {
      term = mul(term, r);
      for (auto& x : term.m) x /= double(k);
      for (size_t i = 0; i < sum.m.size(); i++) sum.m[i] += term.m[i];
   }
   for (int k = 0; k < 10; k++) sum = mul(sum, sum);
   return sum;
}
static double max_norm(const Vec& v) {
   double m = 0;
   for (auto& x : v) m = std::max(m, std::abs(x));
   return m;
}
static double norm2(const Vec& v) {
   double m = 0;
   for (auto& x : v) m += std::norm(x);
   return m;
}
static void normalise(Vec& v) {
   double m = max_norm(v);
   if (m > 0)
      for (auto& x : v) x /= m;
}
static double distance(const Vec& a, const Vec& b) {
   double m = 0;
   for (size_t i = 0; i < a.size(); i++) m = std::max(m, std::abs(a[i] - b[i]));
   return a.size() == b.size() ? m : 1e300;
}
static std::string pname(int i, int j) { return "P-" + std::to_string(i) + "-" + std::to_string(j); }
struct Site {
   std::vector<std::string> names;
   std::vector<int> dims;
   Vec data;
   int dim(const std::string& n) const {
      for (size_t i = 0; i < names.size(); i++)
         if (names[i] == n) return dims[i];
      return -1;
   }
   cd at(const std::map<std::string, int>& x) const {
      size_t f = 0;
      for (size_t i = 0; i < names.size(); i++) f = f * dims[i] + x.at(names[i]);
      return data[f];
   }
};
struct Net {
   Lat l;
   std::vector<Site> sites;
   std::map<std::tuple<char, int, int>, std::vector<double>> weights; // on the bond towards 'R' or 'D'
   // all bonds: (kind, i, j)
   std::vector<std::tuple<char, int, int>> bonds() const {
      std::vector<std::tuple<char, int, int>> b;
      for (int i = 0; i < l.M; i++)
         for (int j = 0; j < l.N; j++) {
            if (j + 1 < l.N) b.push_back({'R', i, j});
            if (i + 1 < l.M) b.push_back({'D', i, j});
         }
      return b;
   }
   void check_shape() const {
      for (int i = 0; i < l.M; i++)
         for (int j = 0; j < l.N; j++) {
            auto& s = sites[i * l.N + j];
            std::set<std::string> want{"P"};
            if (i) want.insert("U");
            if (j) want.insert("L");
            if (i + 1 < l.M) want.insert("D");
            if (j + 1 < l.N) want.insert("R");
            require(std::set<std::string>(s.names.begin(), s.names.end()) == want && s.names.size() == want.size(), "a site tensor has wrong edges");
            require(s.dim("P") == l.d, "physical extent of a site");
            if (j + 1 < l.N) require(s.dim("R") == sites[i * l.N + j + 1].dim("L"), "bond extents differ");
            if (i + 1 < l.M) require(s.dim("D") == sites[(i + 1) * l.N + j].dim("U"), "bond extents differ");
         }
      for (auto& [b, w] : weights) {
         auto& [k, i, j] = b;
         require(int(w.size()) == sites[i * l.N + j].dim(std::string(1, k)), "number of bond weights");
      }
   }
   // For one configuration contract site after site, keeping a dense array over the open bonds.  If skip >= 0 that site is
   // left out and the result keeps its bonds open.
   std::map<std::vector<int>, cd> contract(const std::vector<int>& conf, int skip = -1) const {
      // open bonds in order; state is a map from their values to a number
      std::vector<std::tuple<char, int, int>> open;
      std::map<std::vector<int>, cd> state{{{}, 1}};
      auto bond_of = [&](int i, int j, const std::string& n) -> std::tuple<char, int, int> {
         if (n == "L") return {'R', i, j - 1};
         if (n == "U") return {'D', i - 1, j};
         return {n[0], i, j};
      };
      for (int s = 0; s < l.sites(); s++) {
         if (s == skip) continue;
         int i = s / l.N, j = s % l.N;
         auto& t = sites[s];
         std::vector<int> mine; // position in `open` of every bond of t, or -1 when new
         std::vector<std::tuple<char, int, int>> tb;
         for (auto& n : t.names) {
            if (n == "P") {
               mine.push_back(-2);
               tb.push_back({});
               continue;
            }
            auto b = bond_of(i, j, n);
            tb.push_back(b);
            auto f = std::find(open.begin(), open.end(), b);
            mine.push_back(f == open.end() ? -1 : int(f - open.begin()));
         }
         std::vector<std::tuple<char, int, int>> next;
         std::vector<int> keep;
         for (size_t k = 0; k < open.size(); k++)
            if (std::find(mine.begin(), mine.end(), int(k)) == mine.end()) next.push_back(open[k]), keep.push_back(int(k));
         for (size_t k = 0; k < tb.size(); k++)
            if (mine[k] == -1) next.push_back(tb[k]);
         std::map<std::vector<int>, cd> result;
         ref::each(t.dims, [&](const std::vector<int>& idx) {
            for (size_t k = 0; k < idx.size(); k++)
               if (mine[k] == -2 && idx[k] != conf[s]) return;
            cd v = t.data[ref::flat(t.dims, idx)];
            if (v == cd(0)) return;
            for (size_t k = 0; k < idx.size(); k++)
               if (mine[k] == -1) {
                  auto w = weights.find(tb[k]);
                  if (w != weights.end()) v *= w->second[idx[k]];
               }
            for (auto& [key, x] : state) {
               bool fits = true;
               for (size_t k = 0; k < idx.size() && fits; k++)
                  if (mine[k] >= 0) fits = key[mine[k]] == idx[k];
               if (!fits) continue;
               std::vector<int> nk;
               for (int k : keep) nk.push_back(key[k]);
               for (size_t k = 0; k < idx.size(); k++)
                  if (mine[k] == -1) nk.push_back(idx[k]);
               result[nk] += v * x;
            }
         });
         open = next;
         state = result;
      }
      if (skip >= 0) { // reorder the open bonds as L U D R of the left-out site
         int i = skip / l.N, j = skip % l.N;
         std::vector<int> at;
         for (std::string n : {"L", "U", "D", "R"}) {
            auto f = std::find(open.begin(), open.end(), bond_of(i, j, n));
            at.push_back(f == open.end() ? -1 : int(f - open.begin()));
         }
         std::map<std::vector<int>, cd> r;
         for (auto& [k, v] : state) {
            std::vector<int> nk;
            for (int a : at)
               if (a >= 0) nk.push_back(k[a]);
            r[nk] += v;
         }
         return r;
      }
      return state;
   }
   cd amplitude(const std::vector<int>& conf) const {
      auto r = contract(conf);
      return r.empty() ? cd(0) : r.begin()->second;
   }
   Vec state() const {
      Vec v(l.dim());
      for (size_t s = 0; s < v.size(); s++) v[s] = amplitude(l.digits(s));
      return v;
   }
};
// ------------------------------------------------------------------------------------------------ generators
static Lat gen_lat(Src& src, int max_sites, int max_d = 3) {
   Lat l;
   do {
      l.M = int(src.range(1, 3));
      l.N = int(src.range(1, 3));
      l.d = int(src.range(2, max_d));
      if (l.sites() > max_sites) l.M = 1;
      if (l.dim() > 256) l.d = 2;
   } while (false);
   return l;
}
static double unit(uint64_t& st) { return double(pbt::splitmix(st) >> 11) / 9007199254740992.0 * 2 - 1; }
enum class Kind { any, symmetric, sparse };
static Op gen_op(Src& src, int body, int d, Kind kind, bool cplx) {
   Op o;
   o.body = body;
   o.d = d;
   size_t n = o.n();
   o.m.assign(n * n, 0);
   uint64_t st = src.draw(1 << 16) * 31 + 7;
   bool sparse = kind == Kind::sparse || src.coin(1, 4);
   for (size_t i = 0; i < n; i++)
      for (size_t j = 0; j < n; j++) {
         double re = unit(st), im = unit(st), u = unit(st);
         if (sparse && u > 0) continue;
         o.at(i, j) = cplx ? cd(float(re), float(im)) : cd(float(re), 0);
      }
   if (kind == Kind::symmetric)
      for (size_t i = 0; i < n; i++)
         for (size_t j = 0; j < i; j++) o.at(i, j) = o.at(j, i);
   return o;
}
static Positions gen_near(Src& src, const Lat& l) {
   // one site or two adjacent sites, in any order
   int i = int(src.draw(l.M)), j = int(src.draw(l.N));
   bool right = j + 1 < l.N, down = i + 1 < l.M;
   if ((!right && !down) || src.coin(1, 3)) return {{i, j}};
   bool h = right && (!down || src.coin());
   Positions p{{i, j}, h ? Pos{i, j + 1} : Pos{i + 1, j}};
   if (src.coin()) std::swap(p[0], p[1]);
   return p;
}
static Positions gen_any_positions(Src& src, const Lat& l, int max_body) {
   auto p = src.permutation(l.sites());
   int b = int(src.range(1, std::min<long>(max_body, l.sites())));
   Positions r;
   for (int k = 0; k < b; k++) r.push_back({p[k] / l.N, p[k] % l.N});
   return r;
}
using Terms = std::map<Positions, Op>;
static std::string show(const Positions& p) {
   std::string r = "[";
   for (auto& [x, y] : p) r += "(" + std::to_string(x) + "," + std::to_string(y) + ")";
   return r + "]";
}
static std::string show(const Lat& l) {
   return std::to_string(l.M) + "x" + std::to_string(l.N) + " d=" + std::to_string(l.d);
}
static std::string show(const Terms& t) {
   std::string r;
   for (auto& [p, o] : t) r += " " + show(p);
   return r;
}
static cd form(const Lat& l, const Op& o, const Positions& p, const Vec& v) {
   // sum over O of conj(v_O) (op v)_O
   auto w = act(l, o, p, v);
   cd s = 0;
   for (size_t i = 0; i < v.size(); i++) s += std::conj(v[i]) * w[i];
   return s;
}
static void close(double got, double want, double scale, const std::string& what, double eps = EPS) {
   if (!(std::abs(got - want) <= eps * std::max(1.0, scale))) fail(what + " is " + std::to_string(got) + " instead of " + std::to_string(want));
}
static cd local(const Lat& l, const Op& o, const Positions& p, const Vec& v, size_t s) {
   auto dg = l.digits(s);
   size_t in = 0;
   for (auto& x : p) in = in * l.d + dg[l.site(x)];
   cd r = 0;
   for (size_t out = 0; out < o.n(); out++) {
      auto e = dg;
      size_t q = out;
      for (size_t k = p.size(); k-- > 0;) e[l.site(p[k])] = int(q % l.d), q /= l.d;
      r += o.at(in, out) * v[l.index(e)] / v[s];
   }
   return r;
}
