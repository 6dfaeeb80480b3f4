// The Python module against the reference model: every tensor operation (TEST_OPS) and the module's own surface (TEST_SURFACE).
#include "pybridge.hpp"
#include "edgeop_case.hpp"

static Gen small(Src& src) {
   Gen g;
   g.max_dim = 2 + int(src.coin(1, 5));
   g.cap = 200;
   g.zero_per_mille = src.coin(1, 16) ? 120 : 0;
   return g;
}
static ref::T gen(Src& src, int lo, int hi, int from = 0) {
   return gen_tensor(src, gen_names(src, int(src.range(lo, hi)), from), small(src));
}
static unsigned gen_how(Src& src) {
   return unsigned(src.draw(128));
}
static bool signless() {
   return KIND == ref::Kind::No || KIND == ref::Kind::Z2;
}
static py::object point(const ref::Sym& s, int i, bool raw) {
   if (is_nosym) return py::int_(i);
   return py::make_tuple(py_sym(s, raw), i);
}
static py::dict position(const ref::T& t, const ref::AxisSyms& ax, const std::vector<int>& idx, bool raw) {
   py::dict d;
   for (int i = 0; i < t.rank(); i++) d[py::str(t.names[i])] = point(ax.s[i][idx[i]], ax.pos[i][idx[i]], raw);
   return d;
}
template<typename F>
static ref::T mapped(ref::T t, F&& f) {
   ref::each_allowed(t, [&](const std::vector<int>&, size_t i) { t.data[i] = f(t.data[i]); });
   return t;
}
static std::vector<std::string> order_names(const ref::T& t, const std::vector<int>& p) {
   std::vector<std::string> r;
   for (int i : p) r.push_back(t.names[i]);
   return r;
}
static ref::Edge partner(const ref::Edge& e) {
   ref::Edge r;
   r.arrow = !e.arrow;
   for (auto& s : e.segs) r.segs.push_back({ref::neg(KIND, s.s), s.dim});
   r.sort();
   return r;
}
static double absmax(const ref::T& t) {
   double m = 1;
   for (auto& v : t.data) m = std::max(m, std::abs(v));
   return m;
}

#ifdef TEST_OPS
PBT_TEST(transpose, 12) {
   pick_scalar(src);
   auto t = gen(src, 0, 5);
   auto how = gen_how(src);
   auto p = src.permutation(t.rank());
   auto names = order_names(t, p);
   src.note("transpose " + ref::show(t) + " to");
   for (auto& n : names) src.note(" " + n);
   auto T = to_py(t, how);
   same(T.attr("transpose")(py_names(names, how)), ref::permute(t, p), "transpose");
   unchanged(T, t);
   src.nontrivial = nonzeros(t) > 1 && t.rank() > 1;
}
PBT_TEST(rename_and_reverse, 12) {
   pick_scalar(src);
   auto t = gen(src, 0, 5);
   std::map<std::string, std::string> m;
   py::dict d;
   auto fresh = gen_names(src, int(t.names.size()), 6);
   for (size_t i = 0; i < t.names.size(); i++)
      if (src.coin()) {
         m[t.names[i]] = fresh[i];
         d[py::str(t.names[i])] = fresh[i];
      }
   src.note("rename/reverse " + ref::show(t));
   auto T = to_py(t, gen_how(src));
   auto R = T.attr("edge_rename")(d);
   auto r = ref::rename(t, m);
   same(R, r, "edge_rename");
   bool apply = src.coin();
   auto which = some(src, r.names, 1, 2), ex = some(src, r.names);
   py::object Q;
   switch (src.draw(3)) {
      case 0:
         Q = R.attr("reverse_edge")(py_name_set(which));
         apply = false;
         ex.clear();
         break;
      case 1: Q = R.attr("reverse_edge")(py_name_set(which), apply, py_name_set(ex)); break;
      default: Q = R.attr("reverse_edge")(py::arg("parity_exclude_name_set") = py_name_set(ex), py::arg("apply_parity") = apply, py::arg("reversed_name_set") = py_name_set(which));
   }
   same(Q, ref::reverse(r, which, marks(apply, ex, r.names)), "reverse_edge");
   unchanged(T, t);
   unchanged(R, r);
   src.nontrivial = nonzeros(t) > 1;
}
static py::dict py_split(const SplitPlan& p, unsigned how) {
   py::dict d;
   for (auto& [n, v] : p) {
      py::list l;
      for (auto& [m, e] : v) {
         l.append(py::make_tuple(m, py_bose_edge(e, how)));
         how = how * 5 + 1;
      }
      d[py::str(n)] = l;
   }
   return d;
}
PBT_TEST(edge_operator, 20) {
   pick_scalar(src);
   auto c = gen_case(src);
   int call = int(src.draw(3));
   if (call == 0) {
      c.apply = false;
      for (auto& e : c.ex) e.clear();
      c.cut.clear();
   }
   describe(src, c);
   auto T = to_py(c.source, gen_how(src));
   py::dict rn, mm, cut;
   for (auto& [a, b] : c.rename) rn[py::str(a)] = b;
   py::list target;
   for (auto& [n, mem] : c.target) {
      target.append(n);
      if (n[0] == 'M') mm[py::str(n)] = py_names(mem);
   }
   for (auto& [n, v] : c.cut) {
      py::dict d;
      for (auto& [s, k] : v) d[obj_sym(s)] = k;
      cut[py::str(n)] = d;
   }
   auto sp = py_split(c.split, gen_how(src));
   auto f = T.attr("edge_operator");
   py::object R;
   if (call == 0) R = f(rn, sp, py_name_set(c.reversed), mm, target);
   else if (call == 1)
      R = f(rn, sp, py_name_set(c.reversed), mm, target, c.apply, py_name_set(c.ex[0]), py_name_set(c.ex[1]), py_name_set(c.ex[2]), py_name_set(c.ex[3]), cut);
   else
      R = f(py::arg("new_names") = target, py::arg("merge_map") = mm, py::arg("reversed_name") = py_name_set(c.reversed), py::arg("split_map") = sp, py::arg("rename_map") = rn,
            py::arg("edge_and_symmetries_to_cut_before_all") = cut, py::arg("parity_exclude_name_merge_set") = py_name_set(c.ex[3]),
            py::arg("parity_exclude_name_reverse_before_merge_set") = py_name_set(c.ex[2]), py::arg("parity_exclude_name_reverse_set") = py_name_set(c.ex[1]),
            py::arg("parity_exclude_name_split_set") = py_name_set(c.ex[0]), py::arg("apply_parity") = c.apply);
   auto want = model(c);
   same(R, want, "edge_operator");
   unchanged(T, c.source);
   src.nontrivial = nonzeros(want) > 1;
}
PBT_TEST(merge_and_split, 20) {
   pick_scalar(src);
   auto c = gen_case(src);
   c.cut.clear();
   c.rename.clear();
   c.split.clear();
   // merge: groups over the names of the source; a group goes where its last member was
   auto& t = c.source;
   std::vector<std::string> order;
   for (int i : src.permutation(t.rank())) order.push_back(t.names[i]);
   Groups groups;
   for (size_t p = 0; p < order.size();) {
      size_t n = std::min(1 + src.weighted({4, 3, 2, 1}), order.size() - p);
      groups.push_back({n == 1 ? order[p] : "M" + std::to_string(p), {order.begin() + p, order.begin() + p + n}});
      p += n;
   }
   Groups target;
   for (auto& n : t.names)
      for (auto& gr : groups)
         if (gr.second.back() == n) target.push_back(gr);
   std::vector<std::string> tn, mn;
   py::dict mm;
   for (auto& [n, mem] : target) {
      tn.push_back(n);
      if (n[0] == 'M') mm[py::str(n)] = py_names(mem), mn.push_back(n);
   }
   bool apply = src.coin();
   auto ex_merge = some(src, mn), ex_rev = some(src, t.names);
   auto T = to_py(t, gen_how(src));
   src.note("merge " + ref::show(t) + (apply ? " apply" : ""));
   for (auto& [n, mem] : target) src.note(" " + n + "(" + join(mem) + ")");
   py::object R;
   switch (src.draw(3)) {
      case 0:
         apply = false;
         ex_merge.clear();
         ex_rev.clear();
         R = T.attr("merge_edge")(mm);
         break;
      case 1: R = T.attr("merge_edge")(mm, apply, py_name_set(ex_merge), py_name_set(ex_rev)); break;
      default:
         R = T.attr("merge_edge")(mm, py::arg("parity_exclude_name_reverse_set") = py_name_set(ex_rev), py::arg("parity_exclude_name_merge_set") = py_name_set(ex_merge), py::arg("apply_parity") = apply);
   }
   auto want = ref::normalize(ref::merge(t, target, marks(apply, ex_rev, t.names), marks(apply, ex_merge, tn)));
   same(R, want, "merge_edge");
   unchanged(T, t);
   // split what was merged into the original pieces
   SplitPlan plan;
   for (auto& [n, mem] : target)
      if (n[0] == 'M')
         for (auto& x : mem) plan[n].push_back({x, t.edges[t.find(x)]});
   auto got = from_py(R);
   auto ex = some(src, mn);
   bool ap = src.coin();
   py::object S;
   switch (src.draw(3)) {
      case 0:
         ap = false;
         ex.clear();
         S = R.attr("split_edge")(py_split(plan, gen_how(src)));
         break;
      case 1: S = R.attr("split_edge")(py_split(plan, gen_how(src)), ap, py_name_set(ex)); break;
      default: S = R.attr("split_edge")(py::arg("parity_exclude_name_split_set") = py_name_set(ex), py::arg("split_map") = py_split(plan, gen_how(src)), py::arg("apply_parity") = ap);
   }
   same(S, ref::normalize(ref::split(got, plan, marks(ap, ex, got.names))), "split_edge");
   src.nontrivial = !mn.empty() && nonzeros(t) > 1;
}
PBT_TEST(contract, 20) {
   pick_scalar(src);
   auto g = small(src);
   g.zero_per_mille = 0;
   int n = int(src.range(0, signless() ? 2 : 1));
   auto a = gen_tensor(src, gen_names(src, n + int(src.range(0, 2))), g);
   bool all = src.coin(1, 3); // same names on both sides
   auto fresh = gen_names(src, 3, 6);
   std::vector<std::string> names;
   std::vector<ref::Edge> edges;
   ref::Pairs pairs;
   auto pick = src.permutation(a.rank());
   for (int i = 0; i < n; i++) {
      auto& e = a.edges[pick[i]];
      if (e.segs.empty()) throw pbt::Discard();
      names.push_back(all ? a.names[pick[i]] : "x" + std::to_string(i));
      edges.push_back(partner(e));
      pairs.push_back({a.names[pick[i]], names.back()});
   }
   int more = int(src.range(0, 2));
   for (int i = 0; i < more; i++) {
      names.push_back(fresh[i]);
      edges.push_back(gen_edge(src, g));
   }
   close_edges(src, edges, g);
   for (int i = 0; i < n; i++) { // closing may have added sectors of another extent to a contracted edge
      auto p = partner(a.edges[pick[i]]);
      edges[i].segs.erase(std::remove_if(edges[i].segs.begin(), edges[i].segs.end(), [&](auto& s) { return !p.find(s.s); }), edges[i].segs.end());
   }
   auto b = ref::normalize(ref::make(KIND, names, edges));
   fill(b, src.draw(1 << 16), is_cplx);
   b = ref::permute(b, src.permutation(b.rank()));
   src.note("contract " + ref::show(a) + " " + ref::show(b) + " over " + std::to_string(n) + (all ? " same names" : ""));
   auto A = to_py(a, gen_how(src)), B = to_py(b, gen_how(src));
   py::object R;
   if (all && (is_nosym || src.coin())) R = A.attr("contract_all_edge")(B);
   else if (src.coin()) R = A.attr("contract")(B, py_pairs(pairs));
   else R = A.attr("contract")(py::arg("contract_names") = py_pairs(pairs), py::arg("another_tensor") = B);
   auto want = ref::normalize(ref::contract(a, b, pairs));
   same(R, want, "contract");
   unchanged(A, a);
   unchanged(B, b);
   src.nontrivial = n > 0 && nonzeros(want) > 1;
}
PBT_TEST(conjugate_and_norm, 12) {
   pick_scalar(src);
   auto t = gen(src, 0, 4);
   src.note("conjugate " + ref::show(t));
   auto T = to_py(t, gen_how(src));
   same(T.attr("conjugate")(), ref::conjugate(t), "conjugate");
   if (t.rank() <= 1 || signless()) { // several edges of charged tensors: see KF01
      auto s = T.attr("contract_all_edge")();
      ref::Pairs p;
      for (auto& n : t.names) p.push_back({n, n});
      same(s, ref::normalize(ref::contract(t, ref::conjugate(t), p)), "contract_all_edge");
   }
   double m = 0, sum = 0, two = 0, num = 0;
   ref::each_allowed(t, [&](const std::vector<int>&, size_t i) {
      double a = std::abs(t.data[i]);
      m = std::max(m, a);
      sum += a;
      two += a * a;
      num++;
   });
   auto near = [&](const char* n, double want) {
      double got = py::cast<double>(T.attr(n)());
      require(std::abs(got - want) <= eps() * std::max(1.0, want), std::string(n) + " is " + std::to_string(got) + " instead of " + std::to_string(want));
   };
   near("norm_max", m);
   near("norm_num", num);
   near("norm_sum", sum);
   near("norm_2", std::sqrt(two));
   unchanged(T, t);
   src.nontrivial = nonzeros(t) > 1;
}
PBT_TEST(trace, 10) {
   pick_scalar(src);
   auto g = small(src);
   g.zero_per_mille = 0;
   int k = int(src.range(1, 2)), f = int(src.range(0, 2));
   std::vector<std::string> names;
   std::vector<ref::Edge> edges;
   ref::Pairs pairs;
   for (int i = 0; i < k; i++) {
      auto e = gen_edge(src, g);
      names.push_back("p" + std::to_string(i));
      edges.push_back(e);
      names.push_back("q" + std::to_string(i));
      edges.push_back(partner(e));
      pairs.push_back({names[2 * i], names[2 * i + 1]});
      if (src.coin()) std::swap(pairs.back().first, pairs.back().second);
   }
   for (auto& n : gen_names(src, f)) {
      names.push_back(n);
      edges.push_back(gen_edge(src, g));
   }
   auto t = ref::normalize(ref::make(KIND, names, edges));
   fill(t, src.draw(1 << 16), is_cplx);
   t = ref::permute(t, src.permutation(t.rank()));
   src.note("trace " + ref::show(t));
   auto T = to_py(t, gen_how(src));
   auto R = T.attr("trace")(py_pairs(pairs));
   auto want = ref::normalize(ref::trace(t, pairs));
   if (want.rank() == 0 || nblocks(want)) same(R, want, "trace");
   unchanged(T, t);
   src.nontrivial = nonzeros(want) > 0;
}
static ref::T matrix_case(Src& src, ref::Pairs& pairs, int k) {
   Gen g;
   g.max_dim = 2;
   std::vector<std::string> names;
   std::vector<ref::Edge> edges;
   for (int i = 0; i < k; i++) {
      auto e = gen_edge(src, g);
      names.push_back("p" + std::to_string(i));
      edges.push_back(e);
      names.push_back("q" + std::to_string(i));
      edges.push_back(partner(e));
      pairs.push_back({names[2 * i], names[2 * i + 1]});
   }
   auto t = ref::normalize(ref::make(KIND, names, edges));
   fill_real(t, src.draw(1 << 16), is_cplx);
   return ref::permute(t, src.permutation(t.rank()));
}
PBT_TEST(identity_and_exponential, 10) {
   pick_scalar(src);
   ref::Pairs pairs;
   int k = signless() ? int(src.range(1, 2)) : 1;
   auto t = matrix_case(src, pairs, k);
   src.note("identity/exponential " + ref::show(t));
   auto T = to_py(t, gen_how(src));
   // the matrix of the tensor's own elements: rows are the first edges, columns the states of the second edges that they pair with
   ref::AxisSyms ax(t.edges);
   auto dims = t.dims();
   std::vector<int> rd;
   for (auto& [x, y] : pairs) rd.push_back(dims[t.find(x)]);
   std::vector<std::vector<int>> row, col;
   ref::each(rd, [&](const std::vector<int>& idx) {
      std::vector<int> c;
      for (size_t i = 0; i < idx.size(); i++) {
         int x = t.find(pairs[i].first), y = t.find(pairs[i].second);
         c.push_back(t.edges[y].offset(ref::neg(KIND, ax.s[x][idx[i]])) + ax.pos[x][idx[i]]);
      }
      row.push_back(idx);
      col.push_back(c);
   });
   int n = int(row.size());
   auto at = [&](int i, int j) {
      std::vector<int> idx(t.rank());
      for (size_t k2 = 0; k2 < pairs.size(); k2++) idx[t.find(pairs[k2].first)] = row[i][k2], idx[t.find(pairs[k2].second)] = col[j][k2];
      return ref::flat(dims, idx);
   };
   std::vector<std::vector<ref::cd>> x(n, std::vector<ref::cd>(n));
   for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) x[i][j] = t.data[at(i, j)];
   auto e = x, term = x;
   for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) e[i][j] = term[i][j] = i == j;
   for (int k2 = 1; k2 < 60; k2++) {
      auto nx = term;
      for (int i = 0; i < n; i++)
         for (int j = 0; j < n; j++) {
            nx[i][j] = 0;
            for (int l = 0; l < n; l++) nx[i][j] += term[i][l] * x[l][j] / double(k2);
         }
      term = nx;
      for (int i = 0; i < n; i++)
         for (int j = 0; j < n; j++) e[i][j] += term[i][j];
   }
   auto W = t, D = t;
   for (auto& v : W.data) v = 0;
   for (auto& v : D.data) v = 0;
   for (int i = 0; i < n; i++) {
      D.data[at(i, i)] = 1;
      for (int j = 0; j < n; j++) W.data[at(i, j)] = e[i][j];
   }
   auto I = from_py(T.attr("identity")(py_pairs(pairs)));
   auto m = ref::compare(I, D);
   if (!m.empty()) fail("identity: " + m);
   auto X = from_py(T.attr("exponential")(py_pairs(pairs), py::arg("step") = 12));
   require(std::set<std::string>(X.names.begin(), X.names.end()) == std::set<std::string>(t.names.begin(), t.names.end()), "names of the exponential are " + ref::show(X));
   m = ref::compare(X, ref::permute_names(W, X.names), eps() * 10);
   if (!m.empty()) fail("exponential: " + m);
   unchanged(T, t);
   src.nontrivial = nonzeros(t) > 1;
}
PBT_TEST(arithmetic, 25) {
   pick_scalar(src);
   auto t = gen(src, 0, 4);
   auto u = t;
   auto nonzero = [&](ref::T& x, uint64_t seed) {
      uint64_t st = seed;
      ref::each_allowed(x, [&](const std::vector<int>&, size_t i) {
         auto v = pbt::splitmix(st);
         double m = double(1 << (v % 4)) * ((v >> 8) & 1 ? -1 : 1);
         x.data[i] = is_cplx && ((v >> 16) & 1) ? ref::cd(0, m) : ref::cd(m, 0);
      });
   };
   nonzero(u, src.draw(1 << 16));
   nonzero(t, src.draw(1 << 16) + 1);
   auto p = src.permutation(u.rank());
   auto v = ref::permute(u, p);
   double num = double(1 << src.draw(4)) * (src.coin() ? -1 : 1);
   ref::cd k = is_cplx && src.coin() ? ref::cd(0, num) : ref::cd(num, 0);
   const char* names[] = {"add", "sub", "mul", "truediv"};
   int op = int(src.draw(4));
   auto eval = [&](ref::cd a, ref::cd b) { return op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b; };
   int form = int(src.draw(5));
   src.note(std::string(names[op]) + " form " + std::to_string(form) + " " + ref::show(t) + " " + ref::show(v));
   auto T = to_py(t, gen_how(src)), V = to_py(v, gen_how(src));
   auto operators = py::module_::import("operator");
   auto plain = operators.attr(names[op]);
   auto inplace = operators.attr((std::string("i") + names[op]).c_str());
   auto N = py_scalar(k);
   if (form == 0 || form == 1) {
      auto want = t;
      ref::each_allowed(want, [&](const std::vector<int>&, size_t i) { want.data[i] = eval(t.data[i], u.data[i]); });
      if (form == 0) {
         same(plain(T, V), want, "tensor op tensor");
         unchanged(T, t);
      } else {
         auto R = inplace(T, V);
         same(R, want, "tensor op= tensor");
      }
      unchanged(V, v);
   } else if (form == 2) {
      same(plain(T, N), mapped(t, [&](ref::cd a) { return eval(a, k); }), "tensor op number");
      unchanged(T, t);
   } else if (form == 3) {
      same(plain(N, T), mapped(t, [&](ref::cd a) { return eval(k, a); }), "number op tensor");
      unchanged(T, t);
   } else {
      auto R = inplace(T, N);
      same(R, mapped(t, [&](ref::cd a) { return eval(a, k); }), "tensor op= number");
   }
   src.nontrivial = nonzeros(t) > 1;
}
static std::map<ref::Sym, std::vector<double>> singular(const ref::T& m) {
   std::map<ref::Sym, std::vector<double>> r;
   require(m.rank() == 2, "singular values do not have two edges");
   for (auto& g : m.edges[1].segs) {
      auto& v = r[g.s];
      auto* p = m.edges[0].find(ref::neg(KIND, g.s));
      require(p && p->dim == g.dim, "edges of the singular matrix");
      int o1 = m.edges[1].offset(g.s), o0 = m.edges[0].offset(ref::neg(KIND, g.s)), w = m.edges[1].total();
      for (int i = 0; i < g.dim; i++)
         for (int j = 0; j < g.dim; j++) {
            auto x = m.data[size_t(o0 + i) * w + o1 + j];
            if (i == j) v.push_back(x.real());
            require(i == j || x == ref::cd(0), "singular matrix is not diagonal");
         }
   }
   return r;
}
PBT_TEST(svd, 15) {
   pick_scalar(src);
   auto g = small(src);
   g.zero_per_mille = 0;
   auto t = gen_tensor(src, gen_names(src, int(src.range(2, 4))), g);
   fill_real(t, src.draw(1 << 16), is_cplx);
   std::vector<std::string> us, vs;
   for (auto& n : t.names) (src.coin() ? us : vs).push_back(n);
   if (us.empty() || vs.empty() || nonzeros(t) == 0) throw pbt::Discard();
   bool cut = src.coin(1, 3);
   int keep = int(src.range(1, 4));
   src.note("svd " + ref::show(t) + " U:" + join(us) + (cut ? " keep " + std::to_string(keep) : ""));
   auto T = to_py(t, gen_how(src));
   py::tuple r = cut ? (src.coin() ? T.attr("svd")(py_name_set(us), "cu", "cv", keep) : T.attr("svd")(py_name_set(us), py::arg("common_name_v") = "cv", py::arg("common_name_u") = "cu", py::arg("cut") = keep))
                     : T.attr("svd")(py_name_set(us), "cu", "cv");
   require(r.size() == 3, "svd does not return three parts");
   auto u = from_py(r[0]), v = from_py(r[2]);
   auto s = singular(from_py(r[1]));
   auto un = us, vn = vs;
   std::vector<std::string> wu, wv{"cv"};
   for (auto& n : t.names) (std::count(us.begin(), us.end(), n) ? wu : wv).push_back(n);
   wu.push_back("cu");
   require(u.names == wu && v.names == wv, "names of U " + ref::show(u) + " and V " + ref::show(v));
   require(ref::orthonormality(u, "cu") < eps() * 10, "U is not an isometry");
   require(ref::orthonormality(v, "cv") < eps() * 10, "V is not an isometry");
   std::vector<std::string> all;
   std::vector<ref::Edge> alle;
   for (auto& n : wu)
      if (n != "cu") all.push_back(n), alle.push_back(t.edges[t.find(n)]);
   for (auto& n : wv)
      if (n != "cv") all.push_back(n), alle.push_back(t.edges[t.find(n)]);
   auto want = ref::permute_names(t, all);
   auto usv = ref::embed(ref::contract(ref::scale_axis(u, "cu", s, false), v, {{"cu", "cv"}}), alle);
   double err = 0, norm = ref::norm2(t), kept = 0;
   size_t count = 0;
   for (auto& [k, x] : s)
      for (double y : x) kept += y * y, count++;
   for (size_t i = 0; i < want.data.size(); i++) err += std::norm(want.data[i] - usv.data[i]);
   require(std::abs(err - (norm - kept)) <= eps() * std::max(1.0, norm) * 10, "error of U S V is not the discarded weight");
   if (cut) require(count <= size_t(keep), "more values kept than asked for");
   else require(err <= eps() * std::max(1.0, norm), "U S V differs from the tensor");
   // multiple: scale U by S from the library, then divide again
   auto U = py::reinterpret_borrow<py::object>(r[0]);
   auto US = U.attr("multiple")(r[1], "cu", 'u');
   auto m = ref::compare(from_py(US), ref::scale_axis(u, "cu", s, false), eps());
   if (!m.empty()) fail("multiple on U: " + m);
   auto VS = py::reinterpret_borrow<py::object>(r[2]).attr("multiple")(py::arg("singular") = r[1], py::arg("name") = "cv", py::arg("direction") = 'v');
   m = ref::compare(from_py(VS), ref::scale_axis(v, "cv", s, true), eps());
   if (!m.empty()) fail("multiple on V: " + m);
   double least = 1e300;
   for (auto& [k, x] : s)
      for (double y : x) least = std::min(least, y);
   if (least > 1e-2) {
      auto back = US.attr("multiple")(r[1], "cu", 'u', py::arg("division") = true);
      m = ref::compare(from_py(back), u, eps() * 100);
      if (!m.empty()) fail("multiplying and dividing by S: " + m);
      m = ref::compare(from_py(VS.attr("multiple")(r[1], "cv", 'v', true)), v, eps() * 100);
      if (!m.empty()) fail("multiplying and dividing V by S: " + m);
   }
   unchanged(U, u);
   unchanged(T, t);
   src.nontrivial = count > 1;
}
PBT_TEST(qr, 10) {
   pick_scalar(src);
   auto g = small(src);
   g.zero_per_mille = 0;
   auto t = gen_tensor(src, gen_names(src, int(src.range(2, 4))), g);
   fill_real(t, src.draw(1 << 16), is_cplx);
   std::vector<std::string> qs, rs;
   for (auto& n : t.names) (src.coin() ? qs : rs).push_back(n);
   if (qs.empty() || rs.empty() || nonzeros(t) == 0) throw pbt::Discard();
   bool by_q = src.coin();
   src.note("qr " + ref::show(t) + " Q:" + join(qs) + (by_q ? "" : " (named by R)"));
   auto T = to_py(t, gen_how(src));
   char c = by_q ? (src.coin() ? 'Q' : 'q') : (src.coin() ? 'R' : 'r');
   py::tuple r = T.attr("qr")(c, py_name_set(by_q ? qs : rs), "cq", "cr");
   require(r.size() == 2, "qr does not return two parts");
   auto q = from_py(r[0]), w = from_py(r[1]);
   require(q.find("cq") >= 0 && w.find("cr") >= 0, "names of the common edges");
   require(q.rank() == int(qs.size()) + 1 && w.rank() == int(rs.size()) + 1, "ranks of Q and R");
   require(ref::orthonormality(q, "cq") < eps() * 10, "Q is not an isometry");
   std::vector<std::string> all;
   std::vector<ref::Edge> alle;
   for (auto& n : q.names)
      if (n != "cq") all.push_back(n), alle.push_back(t.edges[t.find(n)]);
   for (auto& n : w.names)
      if (n != "cr") all.push_back(n), alle.push_back(t.edges[t.find(n)]);
   auto m = ref::compare(ref::embed(ref::contract(q, w, {{"cq", "cr"}}), alle), ref::permute_names(t, all), eps() * 10);
   if (!m.empty()) fail("Q R: " + m);
   unchanged(T, t);
   src.nontrivial = nonzeros(t) > 1;
}
PBT_TEST(shrink_and_expand, 12) {
   pick_scalar(src);
   auto g = small(src);
   g.zero_per_mille = 0;
   auto t = gen_tensor(src, gen_names(src, int(src.range(1, 4))), g);
   bool raw = src.coin();
   py::dict c;
   ref::Sym total;
   std::vector<std::string> hn;
   std::vector<ref::Edge> he;
   std::vector<int> idx;
   ref::Pairs pairs;
   for (int i = 0; i < t.rank(); i++) {
      auto& e = t.edges[i];
      if (e.segs.empty() || !src.coin()) continue;
      auto& s = e.segs[src.draw(e.segs.size())];
      int at = int(src.draw(s.dim));
      c[py::str(t.names[i])] = point(s.s, at, raw);
      total = ref::add(KIND, total, s.s);
      ref::Edge h;
      h.arrow = !e.arrow;
      h.segs = {{ref::neg(KIND, s.s), s.dim}};
      hn.push_back(t.names[i]);
      he.push_back(h);
      idx.push_back(at);
      pairs.push_back({t.names[i], t.names[i]});
   }
   bool named = src.coin(), arrow = is_fermi_v && src.coin();
   src.note("shrink " + ref::show(t) + " at " + str(c) + (named ? " new edge" : ""));
   auto T = to_py(t, gen_how(src));
   if (!named && total != ref::Sym{}) {
      require(raises([&] { T.attr("shrink")(c); }), "removing a charge without a new edge is accepted");
      unchanged(T, t);
      return;
   }
   py::object R;
   if (!named) R = T.attr("shrink")(c);
   else if (!arrow && src.coin()) R = T.attr("shrink")(c, "new");
   else if (src.coin()) R = T.attr("shrink")(c, "new", arrow);
   else R = T.attr("shrink")(py::arg("configure") = c, py::arg("arrow") = arrow, py::arg("new_name") = "new");
   if (named) {
      ref::Edge h;
      h.arrow = arrow;
      h.segs = {{total, 1}};
      hn.push_back("new");
      he.push_back(h);
      idx.push_back(0);
   }
   auto hot = ref::make(KIND, hn, he);
   hot.data[ref::flat(hot.dims(), idx)] = 1;
   auto want = ref::normalize(ref::contract(hot, t, pairs));
   same(R, want, "shrink");
   unchanged(T, t);
   src.nontrivial = !pairs.empty() && nonzeros(want) > 0;
   // expand the result (or the tensor itself, charge-free) by a new edge
   py::dict x;
   bool replace = named && want.find("new") >= 0 && !want.edges[want.find("new")].segs.empty();
   ref::Sym s = replace ? total : ref::Sym{};
   int dim = int(src.range(1, 3)), at = int(src.draw(dim));
   bool ea = is_fermi_v && src.coin();
   x[py::str("X")] = is_nosym ? py::make_tuple(at, dim) : is_fermi_v ? py::make_tuple(ea, py_sym(s, raw), at, dim) : py::make_tuple(py_sym(s, raw), at, dim);
   auto E = replace ? (src.coin() ? R.attr("expand")(x, "new") : R.attr("expand")(py::arg("old_name") = "new", py::arg("configure") = x)) : R.attr("expand")(x);
   std::vector<std::string> n2{"X"};
   ref::Edge e2;
   e2.arrow = ea;
   e2.segs = {{s, dim}};
   std::vector<ref::Edge> e3{e2};
   std::vector<int> i3{at};
   ref::Pairs p3;
   if (replace) {
      ref::Edge o;
      o.arrow = !want.edges[want.find("new")].arrow;
      o.segs = {{ref::neg(KIND, s), 1}};
      n2.push_back("new");
      e3.push_back(o);
      i3.push_back(0);
      p3.push_back({"new", "new"});
   }
   auto hot2 = ref::make(KIND, n2, e3);
   hot2.data[ref::flat(hot2.dims(), i3)] = 1;
   same(E, ref::normalize(ref::contract(hot2, want, p3)), "expand");
}
PBT_TEST(fills_and_maps, 15) {
   pick_scalar(src);
   auto t = gen(src, 0, 4);
   src.note("fills and maps " + ref::show(t));
   auto T = to_py(t, gen_how(src));
   auto add = py_scalar(is_cplx ? ref::cd(1, 2) : ref::cd(3));
   ref::cd k = is_cplx ? ref::cd(1, 2) : ref::cd(3);
   py::object f = py::cpp_function([add](py::object v) { return py::module_::import("operator").attr("add")(v, add); });
   auto shifted = mapped(t, [&](ref::cd v) { return v + k; });
   auto sorted_fill = [&](ref::cd first, ref::cd step) { // blocks in ascending key order, row-major inside
      auto r = t;
      double n = 0;
      for (auto& b : blocks_of(r))
         for (auto at : b.at) r.data[at] = first + step * n, n++;
      return r;
   };
   switch (src.draw(9)) {
      case 0:
         same(T.attr("map")(f), shifted, "map");
         unchanged(T, t);
         break;
      case 1: {
         auto keep = T.attr("copy")();
         auto R = T.attr("transform")(f);
         require(R.is(T), "transform does not return the tensor itself");
         same(T, shifted, "transform");
         unchanged(keep, t);
         break;
      }
      case 2: {
         auto keep = T.attr("edge_rename")(py::dict());
         require(T.attr("zero")().is(T), "zero does not return the tensor itself");
         same(T, mapped(t, [](ref::cd) { return ref::cd(0); }), "zero");
         unchanged(keep, t);
         break;
      }
      case 3: {
         double first = double(src.range(0, 5)), step = double(src.range(0, 3));
         auto keep = T.attr("edge_rename")(py::dict());
         require(T.attr("test")(first, step).is(T), "test does not return the tensor itself");
         same(T, sorted_fill(first, step), "test");
         unchanged(keep, t);
         break;
      }
      case 4:
         T.attr("test")();
         same(T, sorted_fill(0, 1), "test with defaults");
         break;
      case 5: {
         int n = 0;
         py::object counter = py::cpp_function([&n]() { return double(n++); });
         require(T.attr("set")(counter).is(T), "set does not return the tensor itself");
         same(T, sorted_fill(0, 1), "set");
         size_t stored = 0;
         ref::each_allowed(t, [&](const std::vector<int>&, size_t) { stored++; });
         require(size_t(n) == stored, "set called the function " + std::to_string(n) + " times");
         break;
      }
      case 6: {
         auto C = T.attr("copy")();
         same(C, t, "copy");
         C.attr("zero")();
         unchanged(T, t);
         auto S = T.attr("same_shape")();
         S.attr("zero")();
         same(S, mapped(t, [](ref::cd) { return ref::cd(0); }), "same_shape");
         unchanged(T, t);
         break;
      }
      case 7: {
         auto q = mapped(t, [](ref::cd v) { return v * v; });
         if (is_cplx) q = t;
         auto Q = to_py(q, gen_how(src));
         auto m = ref::compare(from_py(Q.attr("sqrt")()), mapped(q, [](ref::cd v) { return std::sqrt(v); }), eps());
         if (!m.empty()) fail("sqrt: " + m);
         break;
      }
      default: { // conversion to every scalar type
         int type = int(src.draw(4));
         if (is_cplx && type < 2) t = mapped(t, [](ref::cd v) { return ref::cd(v.real()); }), T = to_py(t, gen_how(src));
         static const std::vector<std::vector<std::string>> spell = {{"float32", "S", "<class 'numpy.float32'>"}, {"float", "float64", "D"}, {"complex32", "C"}, {"complex", "complex128", "Z"}};
         auto& names = spell[type];
         int j = int(src.draw(names.size() + 1));
         py::object arg;
         if (j < int(names.size())) arg = py::str(names[j]);
         else arg = type == 1 ? P->builtins.attr("float") : type == 3 ? P->builtins.attr("complex") : py::object(py::str(names[0]));
         auto R = T.attr("to")(arg);
         auto m = ref::compare(from_py(R, 0, type), t);
         if (!m.empty()) fail("to(" + str(arg) + "): " + m);
         unchanged(T, t);
      }
   }
   src.nontrivial = nonzeros(t) > 1;
}
PBT_TEST(refusals, 12) {
   pick_scalar(src);
   auto t = gen(src, 1, 3);
   auto T = to_py(t, gen_how(src));
   auto names = t.names;
   int kind = int(src.draw(7));
   src.note("refusal " + std::to_string(kind) + " " + ref::show(t));
   auto refused = [&](auto&& f, const char* what) { require(raises(f), std::string(what) + " is accepted"); };
   switch (kind) {
      case 0:
         names.push_back("Z");
         refused([&] { T.attr("transpose")(py_names(names)); }, "transpose to a longer list");
         break;
      case 1:
         names.pop_back();
         refused([&] { T.attr("transpose")(py_names(names)); }, "transpose to a shorter list");
         break;
      case 2:
         refused([&] { cls()(py_names(std::vector<std::string>{"A", "B"}), py::list()); }, "a tensor with more names than edges");
         break;
      case 3: {
         auto c = ref::conjugate(t);
         int i = int(src.draw(t.rank()));
         if (t.edges[i].segs.empty()) throw pbt::Discard();
         auto e = c.edges;
         for (auto& s : e[i].segs) s.dim++;
         auto w = ref::normalize(ref::make(KIND, c.names, e));
         auto W = to_py(w);
         for (int k = 0; k < w.rank(); k++)
            if (w.names[k] == t.names[i] && w.edges[k].segs.empty()) throw pbt::Discard();
         refused([&] { T.attr("contract")(W.attr("edge_rename")(py::dict(py::arg(t.names[i].c_str()) = "Y")), py_pairs({{t.names[i], "Y"}})); }, "contracting edges of different extent");
         break;
      }
      case 4: refused([&] { T.attr("qr")('x', py_name_set(std::vector<std::string>{t.names[0]}), "q", "r"); }, "an unknown qr mode"); break;
      case 5: {
         py::dict d;
         refused([&] { py::object(T.attr("__getitem__")(d)); }, "reading without a position");
         break;
      }
      default: {
         auto u = t;
         u.names[src.draw(u.names.size())] = "Z";
         auto U = to_py(u);
         refused([&] { py::module_::import("operator").attr("add")(T, U); }, "adding tensors with other names");
         refused([&] { py::module_::import("operator").attr("iadd")(T, U); }, "adding a tensor with other names in place");
      }
   }
   unchanged(T, t);
   auto p = src.permutation(t.rank());
   same(T.attr("transpose")(py_names(order_names(t, p))), ref::permute(t, p), "transpose after a refusal");
   src.nontrivial = true;
}
#endif

#ifdef TEST_SURFACE
PBT_TEST(blocks, 25) {
   pick_scalar(src);
   auto t = gen(src, 0, 4);
   auto bs = blocks_of(t);
   auto how = gen_how(src);
   src.note("blocks of " + ref::show(t));
   auto T = make_empty(t, how).attr("zero")();
   auto blank = mapped(t, [](ref::cd) { return ref::cd(0); });
   // write every block through one of the spellings of its key
   for (auto& b : bs) {
      auto p = src.permutation(t.rank());
      auto h = gen_how(src);
      bool ordered = src.coin();
      auto a = block_array(t, b);
      auto key = block_key(t, b, ordered ? &p : nullptr, h);
      py::tuple axes(p.size());
      for (size_t i = 0; i < p.size(); i++) axes[i] = p[i];
      py::object value = ordered ? a.attr("transpose")(axes) : py::object(a);
      auto sibling = T.attr("edge_rename")(py::dict());
      auto before = from_py(T);
      if (src.coin()) T.attr("block").attr("__setitem__")(key, value);
      else {
         auto view = T.attr("block").attr("__getitem__")(key);
         view.attr("__setitem__")(py::ellipsis(), value);
      }
      unchanged(sibling, before);
   }
   same(T, t, "blocks written one by one");
   // read them back through other spellings
   for (auto& b : bs) {
      auto p = src.permutation(t.rank());
      auto key = block_key(t, b, &p, gen_how(src));
      auto got = T.attr("block").attr("__getitem__")(key);
      py::tuple axes(p.size());
      for (size_t i = 0; i < p.size(); i++) axes[i] = p[i];
      auto want = block_array(t, b).attr("transpose")(axes);
      require(py::cast<bool>(P->np.attr("array_equal")(got, want)), "block read in another order: got " + str(got) + " want " + str(want));
      require(str(got.attr("dtype")) == dtype_of(scalar_type), "type of a block");
   }
   if (!bs.empty() && !bs[0].at.empty()) { // a view follows and changes the tensor
      auto& b = bs[src.draw(bs.size())];
      if (!b.at.empty()) {
         auto v = T.attr("block").attr("__getitem__")(block_key(t, b, nullptr, 0));
         v.attr("fill")(py_scalar(7));
         auto w = t;
         for (auto at : b.at) w.data[at] = 7;
         same(T, w, "writing through a view");
      }
   }
   (void)blank;
   src.nontrivial = nonzeros(t) > 1 && t.rank() > 1;
}
PBT_TEST(elements, 20) {
   pick_scalar(src);
   auto t = gen(src, 0, 4);
   auto T = to_py(t, gen_how(src));
   src.note("elements of " + ref::show(t));
   ref::AxisSyms ax(t.edges);
   bool raw = src.coin();
   auto w = t;
   auto sibling = T.attr("edge_rename")(py::dict());
   int n = 0;
   ref::each_allowed(t, [&](const std::vector<int>& idx, size_t at) {
      auto p = position(t, ax, idx, raw);
      auto v = py::cast<std::complex<double>>(T.attr("__getitem__")(p));
      require(v == t.data[at], "element " + str(p) + " is wrong");
      if (src.coin(1, 6)) {
         w.data[at] = ref::cd(double(100 + n));
         T.attr("__setitem__")(p, py_scalar(w.data[at]));
         n++;
      }
   });
   same(T, w, "after writing elements");
   unchanged(sibling, t);
   src.nontrivial = n > 0 && nonzeros(t) > 1;
}
PBT_TEST(data_property, 8) {
   pick_scalar(src);
   auto t = gen(src, 0, 4);
   auto T = to_py(t, gen_how(src));
   src.note("data of " + ref::show(t));
   auto d = py::cast<py::dict>(T.attr("data"));
   auto bs = blocks_of(t);
   require(d.size() == bs.size(), "data has " + std::to_string(d.size()) + " blocks instead of " + std::to_string(bs.size()));
   for (auto& b : bs) {
      py::tuple key(b.key.size());
      for (size_t i = 0; i < b.key.size(); i++) key[i] = obj_sym(b.key[i]);
      require(d.contains(key), "block missing in data");
      auto v = py::cast<std::vector<std::complex<double>>>(py::object(d[key]));
      require(v.size() == b.at.size(), "size of a block in data");
      for (size_t i = 0; i < v.size(); i++) require(v[i] == t.data[b.at[i]], "value in data");
   }
   src.nontrivial = nonzeros(t) > 1;
}
PBT_TEST(store_and_load, 20) {
   pick_scalar(src);
   auto t = gen(src, 0, 4);
   if (src.coin(1, 10)) { // larger than any buffer one might think of
      Gen g;
      g.max_dim = 16;
      g.cap = 4000;
      g.complex_data = is_cplx;
      t = gen_tensor(src, gen_names(src, int(src.range(1, 3))), g);
   }
   int kind = int(src.draw(6));
   auto T = to_py(t, gen_how(src));
   src.note("store and load, way " + std::to_string(kind) + " " + ref::show(t));
   auto other = gen(src, 0, 3);
   switch (kind) {
      case 0: {
         auto L = to_py(other);
         auto keep = L.attr("edge_rename")(py::dict());
         require(L.attr("load")(T.attr("dump")()).is(L), "load does not return the tensor itself");
         same(L, t, "dump and load");
         unchanged(keep, other);
         break;
      }
      case 1: same(P->pickle.attr("loads")(P->pickle.attr("dumps")(T)), t, "pickle"); break;
      case 2: {
         auto l = P->pickle.attr("loads")(P->pickle.attr("dumps")(py::make_tuple(T, 3, to_py(other)), -1));
         py::tuple p = l;
         same(p[0], t, "first pickled tensor");
         same(p[2], other, "second pickled tensor");
         break;
      }
      case 3: {
         auto C = py::module_::import("copy").attr("deepcopy")(T);
         same(C, t, "deepcopy");
         C.attr("zero")();
         break;
      }
      case 4: same(cls()(py::str(T)), t, "tensor from its text"); break;
      default: {
         auto fill = mapped(t, [](ref::cd v) { return v / 8.0; }); // exact in six digits
         auto F = to_py(fill);
         same(cls()(py::str(F)), fill, "tensor from its text");
      }
   }
   unchanged(T, t);
   src.nontrivial = nonzeros(t) > 1;
}
PBT_TEST(scalars, 10) {
   pick_scalar(src);
   double a = double(src.range(0, 40)) - 20, b = is_cplx ? double(src.range(0, 40)) - 20 : 0;
   ref::cd v(a, b);
   auto T = cls()(py_scalar(v));
   src.note("number " + std::to_string(a) + "," + std::to_string(b));
   auto t = ref::make(KIND, {}, {});
   t.data = {v};
   same(T, t, "tensor from a number");
   auto back = is_cplx ? py::cast<std::complex<double>>(P->builtins.attr("complex")(T)) : std::complex<double>(py::cast<double>(P->builtins.attr("float")(T)));
   require(back == v, "number from a tensor");
   // one element on several edges
   int n = int(src.range(0, 3));
   auto names = gen_names(src, n);
   ref::T o;
   py::list syms, arrows;
   std::vector<ref::Edge> edges;
   ref::Sym total;
   bool with_sym = src.coin(), with_arrow = src.coin();
   for (int i = 0; i < n; i++) {
      ref::Sym s = with_sym ? (i + 1 < n ? gen_sym(src, 2) : ref::neg(KIND, total)) : ref::Sym{};
      total = ref::add(KIND, total, s);
      bool ar = with_arrow && is_fermi_v && src.coin();
      ref::Edge e;
      e.arrow = ar;
      e.segs = {{s, 1}};
      edges.push_back(e);
      syms.append(py_sym(s, src.coin()));
      arrows.append(ar);
   }
   auto want = ref::make(KIND, names, edges);
   want.data = {v};
   py::object O;
   if (with_sym && with_arrow) O = cls().attr("one")(py_scalar(v), py_names(names), syms, arrows);
   else if (with_sym) O = cls().attr("one")(py_scalar(v), py_names(names), py::arg("edge_symmetry") = syms);
   else if (with_arrow) O = cls().attr("one")(py_scalar(v), py_names(names), py::arg("edge_arrow") = arrows);
   else O = cls().attr("one")(py_scalar(v), py_names(names));
   same(O, want, "one");
   if (n) {
      auto d = is_cplx ? py::cast<std::complex<double>>(P->builtins.attr("complex")(O)) : std::complex<double>(py::cast<double>(P->builtins.attr("float")(O)));
      require(d == v, "number from a tensor with one element");
   }
   src.nontrivial = true;
}
PBT_TEST(symmetry, 12) {
   auto x = gen_sym(src, 4), y = gen_sym(src, 4);
   auto X = obj_sym(x), Y = obj_sym(y);
   src.note("symmetry " + ref::show(x, KIND) + " " + ref::show(y, KIND));
   auto op = py::module_::import("operator");
   auto yes = [&](const char* n) { return py::cast<bool>(op.attr(n)(X, Y)); };
   require(yes("eq") == (x == y) && yes("ne") == (x != y), "equality");
   require(yes("lt") == (x < y) && yes("gt") == (y < x) && yes("le") == !(y < x) && yes("ge") == !(x < y), "order");
   require(from_sym(op.attr("add")(X, Y)) == ref::add(KIND, x, y), "sum");
   require(from_sym(op.attr("neg")(X)) == ref::neg(KIND, x), "negative");
   auto Z = obj_sym(x);
   require(from_sym(op.attr("iadd")(Z, Y)) == ref::add(KIND, x, y), "in-place sum");
   require(from_sym(X) == x && from_sym(Y) == y, "operands of symmetry arithmetic changed");
   if (x == y) require(py::hash(X) == py::hash(Y), "equal symmetries have different hashes");
   auto W = obj_sym(x);
   py::dict d;
   d[X] = 1;
   require(d.contains(W), "an equal symmetry is not found in a dictionary");
   if (!is_nosym) {
      require(from_sym(P->Sym(raw_sym(x))) == x, "constructing from the plain spelling");
      std::string want = KIND == ref::Kind::FermiZ2 || KIND == ref::Kind::FermiU1 ? "(" + std::to_string(x.a) + "," + std::to_string(x.b) + ")" : std::to_string(x.a);
      require(str(X) == want, "text of a symmetry is " + str(X));
      require(py::cast<std::string>(py::repr(X)) == P->sym + "Symmetry[" + want + "]", "repr of a symmetry is " + py::cast<std::string>(py::repr(X)));
   }
   src.nontrivial = !is_nosym;
}
PBT_TEST(edges, 12) {
   Gen g;
   g.zero_per_mille = 50;
   auto e = gen_edge(src, g);
   auto how = gen_how(src);
   auto E = py_edge(e, how);
   if (!py::isinstance(E, P->Edge)) E = P->Edge(E);
   src.note("edge " + ref::show(e, KIND) + " as " + str(py::repr(E)));
   auto got = from_edge(E);
   require(got.segs == e.segs, "sectors of the edge are " + ref::show(got, KIND));
   if (is_fermi_v) require(got.arrow == e.arrow, "direction of the edge");
   auto B = py_bose_edge(e, how);
   if (!py::isinstance(B, P->BoseEdge)) B = P->BoseEdge(B);
   require(from_edge(B).segs == e.segs, "sectors of the edge without direction");
   require(str(py::repr(E)).find(P->sym + "Edge") == 0, "repr of an edge");
   // its text is the one used in a tensor's text
   auto t = str(E);
   for (auto& s : e.segs) require(t.find(std::to_string(s.dim)) != std::string::npos, "text of the edge " + t);
   src.nontrivial = e.segs.size() > 1 || is_nosym;
}
PBT_TEST(names, 10) {
   std::string a, b;
   auto word = [&](std::string& s) {
      int n = int(src.range(1, 4));
      for (int i = 0; i < n; i++) s += char("abcXYZ019._-"[src.draw(12)]);
   };
   word(a);
   word(b);
   src.note("names " + a + " " + b);
   auto A = P->Name(a), B = P->Name(b), C = P->Name(a);
   auto op = py::module_::import("operator");
   require(py::cast<std::string>(A.attr("name")) == a && str(A) == a, "text of a name");
   require(str(py::repr(A)) == "Name[" + a + "]", "repr of a name");
   require(py::cast<bool>(op.attr("eq")(A, C)) && py::hash(A) == py::hash(C), "equal names");
   require(py::cast<bool>(op.attr("eq")(A, B)) == (a == b) && py::cast<bool>(op.attr("ne")(A, B)) == (a != b), "equality of names");
   int l = py::cast<bool>(op.attr("lt")(A, B)), g = py::cast<bool>(op.attr("gt")(A, B)), le = py::cast<bool>(op.attr("le")(A, B)), ge = py::cast<bool>(op.attr("ge")(A, B));
   require(l + g == (a != b) && le == !g && ge == !l, "order of names is not total");
   require(py::cast<bool>(op.attr("eq")(P->Name(A.attr("id")), A)), "name from its id");
   src.nontrivial = a != b;
}
PBT_TEST(hub, 8) {
   pick_scalar(src);
   static const char* scalars[] = {"float32", "float", "complex32", "complex"};
   std::vector<py::object> words;
   py::object sc = py::str(scalars[scalar_type]);
   if (scalar_type == 1 && src.coin()) sc = P->builtins.attr("float");
   if (scalar_type == 3 && src.coin()) sc = P->builtins.attr("complex");
   if (scalar_type == 0 && src.coin()) sc = P->np.attr("float32");
   words.push_back(sc);
   std::string rest = P->sym;
   if (is_fermi_v) {
      if (src.coin()) words.push_back(py::str(rest));
      else {
         words.push_back(py::str("Fermi"));
         if (rest.size() > 5) words.push_back(py::str(rest.substr(5)));
      }
   } else if (is_nosym) {
      if (src.coin()) words.push_back(py::str("No"));
   } else
      words.push_back(py::str(rest));
   if (!is_fermi_v && src.coin(1, 3)) words.push_back(py::str("Bose"));
   auto p = src.permutation(int(words.size()));
   auto call = [&](const std::vector<py::object>& w, bool kw) {
      py::tuple args(kw ? w.size() - 1 : w.size());
      py::dict k;
      for (size_t i = 0; i < w.size(); i++)
         if (kw && i + 1 == w.size()) k["kind"] = w[i];
         else args[i] = w[i];
      return py::object(P->tat(*args, **k));
   };
   std::vector<py::object> w;
   for (int i : p) w.push_back(words[i]);
   src.note("TAT(");
   for (auto& x : w) src.note(str(x) + " ");
   src.note(")");
   require(call(w, src.coin()).is(cls()), "the wrong tensor type");
   // contradictions are refused
   auto bad = w;
   switch (src.draw(4)) {
      case 0: bad.push_back(py::str(scalar_type < 2 ? "complex" : "float")); break;
      case 1:
         if (!is_fermi_v) bad.push_back(py::str("Fermi"));
         bad.push_back(py::str("Bose"));
         break;
      case 2:
         bad.push_back(py::str("U1"));
         bad.push_back(py::str("Z2"));
         break;
      default: bad.erase(bad.begin() + (std::find(p.begin(), p.end(), 0) - p.begin()));
   }
   // with no word at all the module greets instead of selecting a type
   if (!bad.empty()) require(raises([&] { call(bad, false); }), "a contradictory or incomplete request is accepted");
   src.nontrivial = true;
}
PBT_TEST(random_tensors, 10) {
   pick_scalar(src);
   auto t = gen(src, 0, 4);
   auto seed = int(src.draw(1000));
   double lo = double(src.range(0, 8)) - 4, w = double(src.range(1, 5)), lo2 = double(src.range(0, 8)) - 4, w2 = double(src.range(1, 5));
   ref::cd a(lo, is_cplx ? lo2 : 0), b(lo + w, is_cplx ? lo2 + w2 : 0);
   src.note("random " + ref::show(t));
   auto T = to_py(t, gen_how(src));
   auto R = P->tat.attr("random");
   auto keep = T.attr("edge_rename")(py::dict());
   auto shape = [&](const ref::T& x) {
      auto m = ref::compare(x, x);
      require(x.names == t.names, "names changed");
      for (int i = 0; i < t.rank(); i++) require(x.edges[i].segs == t.edges[i].segs && x.edges[i].arrow == t.edges[i].arrow, "edges changed");
   };
   bool uniform = src.coin(), defaults = src.coin(1, 3);
   R.attr("seed")(seed);
   auto draw = [&] {
      if (uniform) return defaults ? T.attr("rand")() : src.coin() ? T.attr("rand")(py_scalar(a), py_scalar(b)) : T.attr("rand")(py::arg("max") = py_scalar(b), py::arg("min") = py_scalar(a));
      return defaults ? T.attr("randn")() : T.attr("randn")(py_scalar(a), py_scalar(ref::cd(w, is_cplx ? w2 : 0)));
   };
   require(draw().is(T), "a random fill does not return the tensor itself");
   auto x = from_py(T);
   shape(x);
   unchanged(keep, t);
   if (uniform) {
      ref::cd l = defaults ? ref::cd(0, 0) : a, h = defaults ? ref::cd(1, is_cplx ? 1 : 0) : b;
      ref::each_allowed(x, [&](const std::vector<int>&, size_t i) {
         require(x.data[i].real() >= l.real() && x.data[i].real() <= h.real(), "random real part outside the interval");
         require(!is_cplx || (x.data[i].imag() >= l.imag() && x.data[i].imag() <= h.imag()), "random imaginary part outside the interval");
      });
   }
   auto y = from_py(draw());
   R.attr("seed")(seed);
   auto z = from_py(draw());
   auto m = ref::compare(z, x);
   if (!m.empty()) fail("the same seed gives other numbers: " + m);
   if (x.data.size() > 3 && nonzeros(x)) require(!ref::compare(x, y).empty(), "two random fills are equal");
   src.nontrivial = nonzeros(x) > 1;
}
// moments of large random tensors
PBT_TEST(random_moments, 3) {
   pick_scalar(src);
   double a = double(src.range(0, 8)) - 4, w = double(src.range(1, 8)) / 2, a2 = double(src.range(0, 8)) - 4, w2 = double(src.range(1, 8)) / 2;
   bool uniform = src.coin();
   const int n = 1500;
   auto T = cls()(py::make_tuple("A"), py::make_tuple(n));
   P->tat.attr("random").attr("seed")(int(src.draw(1 << 16)));
   src.note(std::string(uniform ? "rand " : "randn ") + std::to_string(a) + "," + std::to_string(a2) + " " + std::to_string(w) + "," + std::to_string(w2));
   if (uniform) T.attr("rand")(py_scalar(ref::cd(a, is_cplx ? a2 : 0)), py_scalar(ref::cd(a + w, is_cplx ? a2 + w2 : 0)));
   else T.attr("randn")(py::arg("stddev") = py_scalar(ref::cd(w, is_cplx ? w2 : 0)), py::arg("mean") = py_scalar(ref::cd(a, is_cplx ? a2 : 0)));
   auto x = from_py(T);
   require(int(x.data.size()) == n, "size");
   for (int part = 0; part < (is_cplx ? 2 : 1); part++) {
      double m = part ? a2 : a, d = part ? w2 : w, s1 = 0, s2 = 0;
      if (uniform) m += d / 2, d /= std::sqrt(12.0);
      for (auto& v : x.data) {
         double y = (part ? v.imag() : v.real()) - m;
         s1 += y;
         s2 += y * y;
      }
      require(std::abs(s1 / n) <= 7 * d / std::sqrt(double(n)), "mean of a random tensor");
      require(std::abs(std::sqrt(s2 / n) - d) <= 0.15 * d, "deviation of a random tensor");
   }
   src.nontrivial = true;
}
PBT_TEST(random_numbers, 6) {
   auto R = P->tat.attr("random");
   auto seed = int(src.draw(1000));
   int lo = int(src.range(0, 8)) - 4, w = int(src.range(0, 5));
   src.note("random numbers from " + std::to_string(lo) + " to " + std::to_string(lo + w));
   R.attr("seed")(seed);
   std::vector<double> first;
   for (int round = 0; round < 2; round++) {
      R.attr("seed")(seed);
      auto I = R.attr("uniform_int")(lo, lo + w), F = R.attr("uniform_real")(py::arg("min") = lo, py::arg("max") = lo + w), N = R.attr("normal")(double(lo), double(w + 1)), D = R.attr("uniform_int")(), U = R.attr("uniform_real")();
      std::vector<double> all;
      std::set<int> seen;
      double sum = 0, sq = 0;
      int n = 300;
      for (int i = 0; i < n; i++) {
         int k = py::cast<int>(I());
         seen.insert(k);
         require(k >= lo && k <= lo + w, "uniform_int outside its interval");
         double f = py::cast<double>(F()), g = py::cast<double>(N());
         require(f >= lo && f <= lo + w, "uniform_real outside its interval");
         int d = py::cast<int>(D());
         require(d == 0 || d == 1, "uniform_int with default interval");
         double u = py::cast<double>(U());
         require(u >= 0 && u <= 1, "uniform_real with default interval");
         sum += g;
         sq += (g - lo) * (g - lo);
         all.insert(all.end(), {double(k), f, g, double(d), u});
      }
      require(int(seen.size()) == w + 1, "uniform_int does not reach every value");
      require(std::abs(sum / n - lo) <= 6 * (w + 1) / std::sqrt(double(n)), "mean of normal");
      require(std::abs(std::sqrt(sq / n) - (w + 1)) <= 0.3 * (w + 1), "deviation of normal");
      if (round) require(all == first, "the same seed gives other numbers");
      first = all;
   }
   R.attr("seed")(seed);
   auto again = R.attr("uniform_real")();
   std::vector<double> mine;
   for (int i = 0; i < 8; i++) mine.push_back(py::cast<double>(again()));
   R.attr("seed")(seed + (1 << src.range(0, 20)));
   auto third = R.attr("uniform_real")();
   int equal = 0;
   for (int i = 0; i < 8; i++) equal += py::cast<double>(third()) == mine[i];
   require(equal < 8, "different seeds give the same numbers");
   src.nontrivial = true;
}
PBT_TEST(text_forms, 6) {
   pick_scalar(src);
   auto t = gen(src, 0, 3);
   auto T = to_py(t, gen_how(src));
   auto s = str(T), r = str(py::repr(T));
   src.note("text of " + ref::show(t));
   for (auto& n : t.names) require(s.find(n) != std::string::npos && r.find(n) != std::string::npos, "a name is missing in the text");
   require(r.find(std::string(1, Py::letters[scalar_type]) + P->sym + "Tensor") == 0, "repr does not name the type: " + r);
   auto E = cls()();
   (void)str(E);
   (void)str(py::repr(E));
   require(py::cast<int>(P->tat.attr("mpi").attr("rank")) == 0 && py::cast<int>(P->tat.attr("mpi").attr("size")) == 1, "rank and size of a single process");
   src.nontrivial = t.rank() > 0;
}
#endif
