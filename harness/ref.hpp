// Independent reference model of (graded) symmetric tensors.
//
// Everything is a plain dense row-major array over the direct sum of the sectors of every edge,
// elements in symmetry-forbidden positions being zero.  No code is shared with the library under
// test; all operations are written from the mathematical definition, one elementary step at a time.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <cstdint>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace ref {
   using cd = std::complex<double>;
   enum class Kind { No, Z2, U1, Fermi, FermiZ2, FermiU1 };
   struct Sym {
      int a = 0, b = 0;
      bool operator<(const Sym& o) const {
         return a != o.a ? a < o.a : b < o.b;
      }
      bool operator==(const Sym& o) const {
         return a == o.a && b == o.b;
      }
      bool operator!=(const Sym& o) const {
         return !(*this == o);
      }
   };
   inline bool is_fermi(Kind k) {
      return k == Kind::Fermi || k == Kind::FermiZ2 || k == Kind::FermiU1;
   }
   inline Sym add(Kind k, Sym x, Sym y) {
      Sym r{x.a + y.a, x.b + y.b};
      if (k == Kind::No) r = {0, 0};
      if (k == Kind::Z2) r.a &= 1;
      if (k == Kind::FermiZ2) r.b &= 1;
      return r;
   }
   inline Sym neg(Kind k, Sym x) {
      Sym r{-x.a, -x.b};
      if (k == Kind::Z2) r.a &= 1;
      if (k == Kind::FermiZ2) r.b &= 1;
      return r;
   }
   inline bool odd(Kind k, Sym x) {
      return is_fermi(k) && (x.a & 1);
   }

   struct Seg {
      Sym s;
      int dim;
      bool operator==(const Seg& o) const {
         return s == o.s && dim == o.dim;
      }
   };
   struct Edge {
      bool arrow = false;
      std::vector<Seg> segs; // sorted by s
      bool arrow_any = false; // arrow carries no information (only even-zero sectors in a merged edge)
      int total() const {
         int t = 0;
         for (auto& x : segs) t += x.dim;
         return t;
      }
      bool arrow_valid() const {
         for (auto& x : segs)
            if (x.s.a != 0) return true;
         return false;
      }
      const Seg* find(Sym s) const {
         for (auto& x : segs)
            if (x.s == s) return &x;
         return nullptr;
      }
      int offset(Sym s) const {
         int o = 0;
         for (auto& x : segs) {
            if (x.s == s) return o;
            o += x.dim;
         }
         return -1;
      }
      // dense index -> (sector, position inside)
      std::pair<Sym, int> locate(int i) const {
         for (auto& x : segs) {
            if (i < x.dim) return {x.s, i};
            i -= x.dim;
         }
         return {Sym{}, -1};
      }
      void sort() {
         std::sort(segs.begin(), segs.end(), [](auto& x, auto& y) { return x.s < y.s; });
      }
   };

   struct T {
      Kind kind = Kind::No;
      std::vector<std::string> names;
      std::vector<Edge> edges;
      std::vector<cd> data;

      int rank() const {
         return int(edges.size());
      }
      std::vector<int> dims() const {
         std::vector<int> d;
         for (auto& e : edges) d.push_back(e.total());
         return d;
      }
      int find(const std::string& n) const {
         for (size_t i = 0; i < names.size(); i++)
            if (names[i] == n) return int(i);
         return -1;
      }
      size_t size() const {
         size_t s = 1;
         for (auto& e : edges) s *= e.total();
         return s;
      }
   };

   inline size_t flat(const std::vector<int>& dims, const std::vector<int>& idx) {
      size_t r = 0;
      for (size_t i = 0; i < dims.size(); i++) r = r * dims[i] + idx[i];
      return r;
   }
   // call f(idx) for every multi-index
   template<typename F>
   void each(const std::vector<int>& dims, F&& f) {
      for (int d : dims)
         if (d == 0) return;
      std::vector<int> idx(dims.size(), 0);
      while (true) {
         f(idx);
         int i = int(dims.size()) - 1;
         for (; i >= 0; i--) {
            if (++idx[i] < dims[i]) break;
            idx[i] = 0;
         }
         if (i < 0) return;
      }
   }
   struct AxisSyms { // per-axis dense index -> sector
      std::vector<std::vector<Sym>> s;
      std::vector<std::vector<int>> pos;
      explicit AxisSyms(const std::vector<Edge>& edges) {
         for (auto& e : edges) {
            std::vector<Sym> v;
            std::vector<int> p;
            for (auto& x : e.segs)
               for (int i = 0; i < x.dim; i++) {
                  v.push_back(x.s);
                  p.push_back(i);
               }
            s.push_back(v);
            pos.push_back(p);
         }
      }
   };

   // every sector tuple (zero-dimensional sectors included) whose charges sum to zero
   inline std::vector<std::vector<Sym>> conserved(Kind k, const std::vector<Edge>& edges) {
      std::vector<std::vector<Sym>> out;
      std::vector<int> n;
      for (auto& e : edges) n.push_back(int(e.segs.size()));
      each(n, [&](const std::vector<int>& idx) {
         Sym sum;
         std::vector<Sym> t;
         for (size_t i = 0; i < idx.size(); i++) {
            t.push_back(edges[i].segs[idx[i]].s);
            sum = add(k, sum, t.back());
         }
         if (sum == Sym{}) out.push_back(t);
      });
      return out;
   }
   // edges without the sectors that take part in no conserved combination
   inline std::vector<Edge> prune(Kind k, const std::vector<Edge>& edges) {
      auto c = conserved(k, edges);
      auto out = edges;
      for (size_t i = 0; i < edges.size(); i++) {
         std::set<Sym> used;
         for (auto& t : c) used.insert(t[i]);
         out[i].segs.clear();
         for (auto& s : edges[i].segs)
            if (used.count(s.s)) out[i].segs.push_back(s);
      }
      return out;
   }
   inline T make(Kind k, std::vector<std::string> names, std::vector<Edge> edges) {
      T t{k, std::move(names), std::move(edges), {}};
      t.data.assign(t.size(), 0);
      return t;
   }
   inline T normalize(const T& t) {
      auto r = make(t.kind, t.names, prune(t.kind, t.edges));
      AxisSyms ax(r.edges);
      auto rd = r.dims(), td = t.dims();
      each(rd, [&](const std::vector<int>& idx) {
         std::vector<int> src(idx.size());
         for (size_t i = 0; i < idx.size(); i++) src[i] = t.edges[i].offset(ax.s[i][idx[i]]) + ax.pos[i][idx[i]];
         r.data[flat(rd, idx)] = t.data[flat(td, src)];
      });
      return r;
   }
   template<typename F>
   void each_allowed(const T& t, F&& f) {
      AxisSyms ax(t.edges);
      auto d = t.dims();
      each(d, [&](const std::vector<int>& idx) {
         Sym s;
         for (size_t i = 0; i < idx.size(); i++) s = add(t.kind, s, ax.s[i][idx[i]]);
         if (s == Sym{}) f(idx, flat(d, idx));
      });
   }

   inline T rename(T t, const std::map<std::string, std::string>& m) {
      for (auto& n : t.names)
         if (auto f = m.find(n); f != m.end()) n = f->second;
      return t;
   }
   // result axis i = source axis order[i]
   inline T permute(const T& t, const std::vector<int>& order) {
      std::vector<std::string> names;
      std::vector<Edge> edges;
      for (int o : order) {
         names.push_back(t.names[o]);
         edges.push_back(t.edges[o]);
      }
      auto r = make(t.kind, names, edges);
      AxisSyms ax(t.edges);
      auto rd = r.dims(), td = t.dims();
      each(rd, [&](const std::vector<int>& idx) {
         std::vector<int> src(idx.size());
         for (size_t i = 0; i < idx.size(); i++) src[order[i]] = idx[i];
         int inv = 0;
         for (size_t i = 0; i < idx.size(); i++)
            for (size_t j = i + 1; j < idx.size(); j++)
               if (order[i] > order[j] && odd(t.kind, ax.s[order[i]][src[order[i]]]) && odd(t.kind, ax.s[order[j]][src[order[j]]])) inv++;
         auto v = t.data[flat(td, src)];
         r.data[flat(rd, idx)] = (inv & 1) ? -v : v;
      });
      return r;
   }
   inline T permute_names(const T& t, const std::vector<std::string>& names) {
      std::vector<int> o;
      for (auto& n : names) o.push_back(t.find(n));
      return permute(t, o);
   }
   // flip arrows of `which`; multiply odd components of `marked` (subset) by -1
   inline T reverse(T t, const std::set<std::string>& which, const std::set<std::string>& marked) {
      if (!is_fermi(t.kind)) return t;
      AxisSyms ax(t.edges);
      auto d = t.dims();
      each(d, [&](const std::vector<int>& idx) {
         int n = 0;
         for (size_t i = 0; i < idx.size(); i++)
            if (which.count(t.names[i]) && marked.count(t.names[i]) && odd(t.kind, ax.s[i][idx[i]])) n++;
         if (n & 1) t.data[flat(d, idx)] *= -1;
      });
      for (size_t i = 0; i < t.names.size(); i++)
         if (which.count(t.names[i])) t.edges[i].arrow = !t.edges[i].arrow;
      return t;
   }
   struct Fused {
      Edge edge;
      std::vector<int> to; // flat row-major index over group dims -> fused index
   };
   inline Fused fuse(Kind k, const std::vector<Edge>& group) {
      Fused f;
      if (group.empty()) {
         f.edge.segs = {{Sym{}, 1}};
         f.edge.arrow_any = true;
         f.to = {0};
         return f;
      }
      std::vector<int> n;
      for (auto& e : group) n.push_back(int(e.segs.size()));
      std::map<Sym, int> dim;
      std::map<std::vector<int>, std::pair<Sym, int>> where; // sector tuple -> (sum, offset inside sum)
      each(n, [&](const std::vector<int>& idx) {
         Sym s;
         int d = 1;
         for (size_t i = 0; i < idx.size(); i++) {
            s = add(k, s, group[i].segs[idx[i]].s);
            d *= group[i].segs[idx[i]].dim;
         }
         int& cur = dim[s];
         where[idx] = {s, cur};
         cur += d;
      });
      for (auto& [s, d] : dim) f.edge.segs.push_back({s, d});
      std::vector<int> gd;
      for (auto& e : group) gd.push_back(e.total());
      each(gd, [&](const std::vector<int>& idx) {
         std::vector<int> sec(idx.size());
         int in = 0;
         for (size_t i = 0; i < idx.size(); i++) {
            int x = idx[i], j = 0;
            while (x >= group[i].segs[j].dim) x -= group[i].segs[j++].dim;
            sec[i] = j;
            in = in * group[i].segs[j].dim + x;
         }
         auto [s, o] = where[sec];
         f.to.push_back(f.edge.offset(s) + o + in);
      });
      // arrow: first edge with a defined arrow decides
      f.edge.arrow_any = true;
      for (auto& e : group)
         if (e.arrow_valid()) {
            f.edge.arrow = e.arrow;
            f.edge.arrow_any = false;
            break;
         }
      if (group.size() == 1) {
         f.edge.arrow = group[0].arrow;
         f.edge.arrow_any = group[0].arrow_any;
      }
      return f;
   }
   // Merge contiguous groups: groups[i] lists (already adjacent, in order) names for result axis i.
   // `rev_marked`: names whose reversal before merging carries the sign; `marked`: result names whose merge carries the reorder sign.
   inline T merge(
         T t,
         const std::vector<std::pair<std::string, std::vector<std::string>>>& groups,
         const std::set<std::string>& rev_marked,
         const std::set<std::string>& marked) {
      // order
      std::vector<int> order;
      for (auto& [n, g] : groups)
         for (auto& x : g) order.push_back(t.find(x));
      t = permute(t, order);
      // align arrows
      std::set<std::string> rev;
      if (is_fermi(t.kind))
         for (auto& [n, g] : groups) {
            if (g.size() < 2) continue;
            bool have = false, arrow = false;
            for (auto& x : g) {
               auto& e = t.edges[t.find(x)];
               if (!e.arrow_valid()) continue;
               if (!have) {
                  have = true;
                  arrow = e.arrow;
               } else if (e.arrow != arrow)
                  rev.insert(x);
            }
         }
      t = reverse(t, rev, rev_marked);
      std::vector<Fused> fs;
      std::vector<std::string> names;
      std::vector<Edge> edges;
      int p = 0;
      std::vector<int> begin;
      for (auto& [n, g] : groups) {
         std::vector<Edge> ge(t.edges.begin() + p, t.edges.begin() + p + g.size());
         begin.push_back(p);
         p += int(g.size());
         fs.push_back(fuse(t.kind, ge));
         names.push_back(n);
         edges.push_back(fs.back().edge);
      }
      auto r = make(t.kind, names, edges);
      AxisSyms ax(t.edges);
      auto td = t.dims(), rd = r.dims();
      each(td, [&](const std::vector<int>& idx) {
         std::vector<int> dst(groups.size());
         int sign = 0;
         for (size_t g = 0; g < groups.size(); g++) {
            int n = int(groups[g].second.size());
            size_t fi = 0;
            int odds = 0;
            for (int i = begin[g]; i < begin[g] + n; i++) {
               fi = fi * td[i] + idx[i];
               odds += odd(t.kind, ax.s[i][idx[i]]);
            }
            dst[g] = fs[g].to[fi];
            if (marked.count(groups[g].first)) sign += odds * (odds - 1) / 2;
         }
         auto v = t.data[flat(td, idx)];
         r.data[flat(rd, dst)] = (sign & 1) ? -v : v;
      });
      return r;
   }
   inline T split(const T& t, const std::map<std::string, std::vector<std::pair<std::string, Edge>>>& plan, const std::set<std::string>& marked) {
      std::vector<std::string> names;
      std::vector<Edge> edges;
      std::vector<int> begin, count;
      std::vector<Fused> fs(t.rank());
      for (int i = 0; i < t.rank(); i++) {
         begin.push_back(int(edges.size()));
         if (auto f = plan.find(t.names[i]); f != plan.end()) {
            std::vector<Edge> g;
            for (auto& [n, e] : f->second) {
               names.push_back(n);
               edges.push_back(e);
               edges.back().arrow = t.edges[i].arrow;
               edges.back().arrow_any = t.edges[i].arrow_any;
               g.push_back(e);
            }
            fs[i] = fuse(t.kind, g);
            count.push_back(int(g.size()));
         } else {
            names.push_back(t.names[i]);
            edges.push_back(t.edges[i]);
            count.push_back(-1);
         }
      }
      auto r = make(t.kind, names, edges);
      AxisSyms ax(r.edges);
      auto td = t.dims(), rd = r.dims();
      each(rd, [&](const std::vector<int>& idx) {
         std::vector<int> src(t.rank());
         int sign = 0;
         for (int i = 0; i < t.rank(); i++) {
            if (count[i] < 0) {
               src[i] = idx[begin[i]];
               continue;
            }
            size_t fi = 0;
            int odds = 0;
            for (int j = begin[i]; j < begin[i] + count[i]; j++) {
               fi = fi * rd[j] + idx[j];
               odds += odd(t.kind, ax.s[j][idx[j]]);
            }
            auto [s, in] = fs[i].edge.locate(fs[i].to[fi]);
            int o = t.edges[i].offset(s);
            if (o < 0) return; // sector absent: zero
            src[i] = o + in;
            if (marked.count(t.names[i])) sign += odds * (odds - 1) / 2;
         }
         auto v = t.data[flat(td, src)];
         r.data[flat(rd, idx)] = (sign & 1) ? -v : v;
      });
      return r;
   }
   // keep only the first `dim` positions of listed sectors (0 removes the sector)
   inline T cut(const T& t, const std::map<std::string, std::map<Sym, int>>& plan) {
      auto edges = t.edges;
      for (int i = 0; i < t.rank(); i++) {
         auto f = plan.find(t.names[i]);
         if (f == plan.end()) continue;
         edges[i].segs.clear();
         for (auto& x : t.edges[i].segs) {
            auto g = f->second.find(x.s);
            int d = g == f->second.end() ? x.dim : std::min(x.dim, g->second);
            if (g != f->second.end() && g->second == 0) continue;
            edges[i].segs.push_back({x.s, d});
         }
      }
      auto r = make(t.kind, t.names, edges);
      AxisSyms ax(edges);
      auto rd = r.dims(), td = t.dims();
      each(rd, [&](const std::vector<int>& idx) {
         std::vector<int> src(idx.size());
         for (size_t i = 0; i < idx.size(); i++) src[i] = t.edges[i].offset(ax.s[i][idx[i]]) + ax.pos[i][idx[i]];
         r.data[flat(rd, idx)] = t.data[flat(td, src)];
      });
      return r;
   }
   using Pairs = std::vector<std::pair<std::string, std::string>>;

   // sign-adjusted, matrix-ordered operands of a graded contraction:
   // A -> (free, commons), B -> (commons, free); commons in the given order
   inline std::pair<T, T> contract_operands(const T& A, const T& B, const Pairs& pairs) {
      std::vector<int> oa, ob;
      std::set<std::string> ca, cb;
      for (auto& [x, y] : pairs) {
         ca.insert(x);
         cb.insert(y);
      }
      std::vector<int> free_a, free_b, com_a, com_b;
      for (int i = 0; i < A.rank(); i++)
         if (!ca.count(A.names[i])) free_a.push_back(i);
      for (int i = 0; i < B.rank(); i++)
         if (!cb.count(B.names[i])) free_b.push_back(i);
      for (auto& [x, y] : pairs) {
         com_a.push_back(A.find(x));
         com_b.push_back(B.find(y));
      }
      // A: free, then commons reversed (so that neighbours annihilate from the inside)
      oa = free_a;
      oa.insert(oa.end(), com_a.rbegin(), com_a.rend());
      ob = com_b;
      ob.insert(ob.end(), free_b.begin(), free_b.end());
      auto a = permute(A, oa);
      auto b = permute(B, ob);
      // annihilating (A side outgoing=false) costs a sign per odd leg
      std::set<std::string> flip;
      for (auto& [x, y] : pairs)
         if (!A.edges[A.find(x)].arrow) flip.insert(x);
      if (is_fermi(A.kind)) a = reverse(a, flip, flip);
      // plain (unsigned) reorder of A's commons into list order
      T a2 = a;
      a2.kind = Kind::No; // no signs for this bookkeeping step
      std::vector<int> o;
      int nf = int(free_a.size()), nc = int(com_a.size());
      for (int i = 0; i < nf; i++) o.push_back(i);
      for (int i = 0; i < nc; i++) o.push_back(nf + nc - 1 - i);
      a2 = permute(a2, o);
      a2.kind = A.kind;
      return {a2, b};
   }
   inline T contract_result_shell(const T& A, const T& B, const Pairs& pairs) {
      std::set<std::string> ca, cb;
      for (auto& [x, y] : pairs) {
         ca.insert(x);
         cb.insert(y);
      }
      std::vector<std::string> names;
      std::vector<Edge> edges;
      for (int i = 0; i < A.rank(); i++)
         if (!ca.count(A.names[i])) {
            names.push_back(A.names[i]);
            edges.push_back(A.edges[i]);
         }
      for (int i = 0; i < B.rank(); i++)
         if (!cb.count(B.names[i])) {
            names.push_back(B.names[i]);
            edges.push_back(B.edges[i]);
         }
      return make(A.kind, names, edges);
   }
   // sector-wise contraction of named pairs; sectors without partner contribute nothing
   inline T contract(const T& A, const T& B, const Pairs& pairs) {
      auto [a, b] = contract_operands(A, B, pairs);
      int nc = int(pairs.size());
      int nfa = a.rank() - nc;
      auto r = contract_result_shell(A, B, pairs);
      // index maps of the commons
      AxisSyms bx(b.edges);
      std::vector<std::vector<int>> partner(nc); // b index -> a index or -1
      for (int c = 0; c < nc; c++) {
         for (size_t i = 0; i < bx.s[c].size(); i++) {
            auto s = neg(A.kind, bx.s[c][i]);
            int o = a.edges[nfa + c].offset(s);
            partner[c].push_back(o < 0 ? -1 : o + bx.pos[c][i]);
         }
      }
      size_t MF = 1, MB = 1;
      for (int i = 0; i < nfa; i++) MF *= a.edges[i].total();
      for (int i = nc; i < b.rank(); i++) MB *= b.edges[i].total();
      std::vector<int> cdim_b, cdim_a;
      for (int c = 0; c < nc; c++) {
         cdim_b.push_back(b.edges[c].total());
         cdim_a.push_back(a.edges[nfa + c].total());
      }
      size_t KA = 1;
      for (int d : cdim_a) KA *= d;
      each(cdim_b, [&](const std::vector<int>& idx) {
         std::vector<int> ai(nc);
         for (int c = 0; c < nc; c++) {
            ai[c] = partner[c][idx[c]];
            if (ai[c] < 0) return;
         }
         size_t ka = flat(cdim_a, ai), kb = flat(cdim_b, idx);
         for (size_t f = 0; f < MF; f++) {
            auto v = a.data[f * KA + ka];
            if (v == cd(0)) continue;
            for (size_t g = 0; g < MB; g++) r.data[f * MB + g] += v * b.data[kb * MB + g];
         }
      });
      return r;
   }
   // The recorded defect: commons are fused per operand and p-th position of fused sector S is paired
   // with p-th position of the partner's fused sector -S (the two enumerations differ when charges have a sign).
   inline T contract_fused_misaligned(const T& A, const T& B, const Pairs& pairs) {
      // remove sectors without partner first
      std::map<std::string, std::map<Sym, int>> cutA, cutB;
      for (auto& [x, y] : pairs) {
         auto &ea = A.edges[A.find(x)], &eb = B.edges[B.find(y)];
         for (auto& s : ea.segs)
            if (!eb.find(neg(A.kind, s.s))) cutA[x][s.s] = 0;
         for (auto& s : eb.segs)
            if (!ea.find(neg(A.kind, s.s))) cutB[y][s.s] = 0;
      }
      auto [a, b] = contract_operands(cut(A, cutA), cut(B, cutB), pairs);
      int nc = int(pairs.size()), nfa = a.rank() - nc;
      auto r = contract_result_shell(A, B, pairs);
      std::vector<Edge> ga(a.edges.begin() + nfa, a.edges.end()), gb(b.edges.begin(), b.edges.begin() + nc);
      auto fa = fuse(A.kind, ga), fb = fuse(A.kind, gb);
      std::vector<int> inv_a(fa.to.size());
      for (size_t i = 0; i < fa.to.size(); i++) inv_a[fa.to[i]] = int(i);
      size_t MF = 1, MB = 1, KA = fa.to.size(), KB = fb.to.size();
      for (int i = 0; i < nfa; i++) MF *= a.edges[i].total();
      for (int i = nc; i < b.rank(); i++) MB *= b.edges[i].total();
      // free edges of the cut operands are unchanged, so r has the right extents
      for (size_t kb = 0; kb < KB; kb++) {
         auto [s, in] = fb.edge.locate(fb.to[kb]);
         int o = fa.edge.offset(neg(A.kind, s));
         if (o < 0) continue;
         if (in >= fa.edge.find(neg(A.kind, s))->dim) continue;
         size_t ka = inv_a[o + in];
         for (size_t f = 0; f < MF; f++)
            for (size_t g = 0; g < MB; g++) r.data[f * MB + g] += a.data[f * KA + ka] * b.data[kb * MB + g];
      }
      return r;
   }

   // partial trace over one pair: outgoing (or either, for bosons) leg first, then its partner
   inline T trace1(const T& t, std::string x, std::string y) {
      if (is_fermi(t.kind) && !t.edges[t.find(x)].arrow) std::swap(x, y);
      std::vector<int> o{t.find(x), t.find(y)};
      for (int i = 0; i < t.rank(); i++)
         if (i != o[0] && i != o[1]) o.push_back(i);
      auto p = permute(t, o);
      auto r = make(t.kind, {p.names.begin() + 2, p.names.end()}, {p.edges.begin() + 2, p.edges.end()});
      size_t L = r.size(), dy = p.edges[1].total();
      for (auto& s : p.edges[0].segs) {
         auto q = p.edges[1].find(neg(t.kind, s.s));
         if (!q) continue;
         int ox = p.edges[0].offset(s.s), oy = p.edges[1].offset(q->s);
         for (int i = 0; i < s.dim; i++)
            for (size_t l = 0; l < L; l++) r.data[l] += p.data[((ox + i) * dy + oy + i) * L + l];
      }
      return r;
   }
   inline T trace(T t, const Pairs& pairs) {
      for (auto& [x, y] : pairs) t = trace1(t, x, y);
      return t;
   }
   // entrywise complex conjugate of the mirrored tensor: charges negated, arrows flipped, order kept;
   // reversing the order of all odd legs gives the sign
   inline T conjugate(const T& t) {
      auto edges = t.edges;
      for (auto& e : edges) {
         e.arrow = !e.arrow;
         for (auto& s : e.segs) s.s = neg(t.kind, s.s);
         e.sort();
      }
      auto r = make(t.kind, t.names, edges);
      AxisSyms ax(t.edges);
      auto td = t.dims(), rd = r.dims();
      each(td, [&](const std::vector<int>& idx) {
         std::vector<int> dst(idx.size());
         int odds = 0;
         for (size_t i = 0; i < idx.size(); i++) {
            auto s = ax.s[i][idx[i]];
            odds += odd(t.kind, s);
            dst[i] = r.edges[i].offset(neg(t.kind, s)) + ax.pos[i][idx[i]];
         }
         auto v = std::conj(t.data[flat(td, idx)]);
         r.data[flat(rd, dst)] = (odds * (odds - 1) / 2) & 1 ? -v : v;
      });
      return r;
   }
   inline double norm2(const T& t) {
      double s = 0;
      for (auto& v : t.data) s += std::norm(v);
      return s;
   }

   // the same tensor with (super)set sectors on its edges, zero elsewhere
   inline T embed(const T& t, const std::vector<Edge>& edges) {
      auto r = make(t.kind, t.names, edges);
      AxisSyms ax(t.edges);
      auto td = t.dims(), rd = r.dims();
      each(td, [&](const std::vector<int>& idx) {
         std::vector<int> dst(idx.size());
         for (size_t i = 0; i < idx.size(); i++) {
            int o = edges[i].offset(ax.s[i][idx[i]]);
            if (o < 0) return;
            dst[i] = o + ax.pos[i][idx[i]];
         }
         r.data[flat(rd, dst)] = t.data[flat(td, idx)];
      });
      return r;
   }
   inline T scale_axis(T t, const std::string& name, const std::map<Sym, std::vector<double>>& s, bool negate, bool divide = false) {
      int a = t.find(name);
      AxisSyms ax(t.edges);
      auto d = t.dims();
      each(d, [&](const std::vector<int>& idx) {
         auto q = ax.s[a][idx[a]];
         double v = s.at(negate ? neg(t.kind, q) : q).at(ax.pos[a][idx[a]]);
         auto& x = t.data[flat(d, idx)];
         x = divide ? x * (1 / v) : x * v;
      });
      return t;
   }
   // largest deviation of (matrix over `axis` as columns) from having orthonormal columns
   inline double orthonormality(const T& t, const std::string& axis) {
      int a = t.find(axis), n = t.edges[a].total();
      std::vector<std::vector<cd>> cols(n);
      auto d = t.dims();
      each(d, [&](const std::vector<int>& idx) { cols[idx[a]].push_back(t.data[flat(d, idx)]); });
      double worst = 0;
      for (int i = 0; i < n; i++)
         for (int j = 0; j <= i; j++) {
            cd s = 0;
            for (size_t k = 0; k < cols[i].size(); k++) s += std::conj(cols[i][k]) * cols[j][k];
            double e = std::abs(s - cd(i == j));
            if (!(e <= worst)) worst = e;
         }
      return worst;
   }

   inline std::string show(const Sym& s, Kind k) {
      if (k == Kind::No) return "";
      if (k == Kind::FermiZ2 || k == Kind::FermiU1) return "(" + std::to_string(s.a) + "," + std::to_string(s.b) + "):";
      return std::to_string(s.a) + ":";
   }
   inline std::string show(const Edge& e, Kind k) {
      std::string r;
      if (is_fermi(k)) r += e.arrow ? "out" : "in";
      r += "{";
      for (size_t i = 0; i < e.segs.size(); i++) r += (i ? "," : "") + show(e.segs[i].s, k) + std::to_string(e.segs[i].dim);
      return r + "}";
   }
   inline std::string show(const T& t, bool with_data = false) {
      std::string r = "[";
      for (int i = 0; i < t.rank(); i++) r += (i ? " " : "") + t.names[i] + show(t.edges[i], t.kind);
      r += "]";
      if (with_data) {
         std::ostringstream o;
         o << "(";
         for (size_t i = 0; i < t.data.size() && i < 64; i++) o << (i ? " " : "") << t.data[i].real() << (t.data[i].imag() != 0 ? "+" + std::to_string(t.data[i].imag()) + "i" : "");
         o << ")";
         r += o.str();
      }
      return r;
   }

   // empty string when equal
   inline std::string compare(const T& got, const T& want, double tol = 0) {
      if (got.names != want.names) return "names differ: got " + show(got) + " want " + show(want);
      for (int i = 0; i < want.rank(); i++) {
         if (!(got.edges[i].segs == want.edges[i].segs)) return "edge " + want.names[i] + " differs: got " + show(got) + " want " + show(want);
         if (is_fermi(want.kind) && !want.edges[i].arrow_any && got.edges[i].arrow != want.edges[i].arrow)
            return "arrow of " + want.names[i] + " differs: got " + show(got) + " want " + show(want);
      }
      double worst = 0;
      size_t at = 0;
      double scale = 1;
      for (size_t i = 0; i < want.data.size(); i++) {
         double d = std::abs(got.data[i] - want.data[i]);
         scale = std::max(scale, std::abs(want.data[i]));
         if (!(d <= worst)) {
            worst = d;
            at = i;
         }
      }
      if (!(worst <= tol * scale)) {
         std::ostringstream o;
         o << "value differs at dense position " << at << " of " << show(want) << ": got " << got.data[at] << " want " << want.data[at];
         if (want.data.size() <= 64) o << " got data " << show(got, true) << " want data " << show(want, true);
         return o.str();
      }
      return "";
   }
} // namespace ref
