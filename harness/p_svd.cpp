// Singular value decomposition: factorisation, isometry, ordering and optimal truncation.
#include "bridge.hpp"

static const double EPS = is_single ? 3e-4 : 1e-11;

static ref::T gen_input(Src& src, int& nu, std::vector<std::string>& uset, size_t cap, int maxdim) {
   int rank = int(src.range(1, 5));
   Gen g;
   g.max_dim = maxdim;
   g.cap = cap;
   g.charge = src.coin(1, 3) ? 2 : 1;
   g.zero_per_mille = src.coin(1, 20) ? 120 : 0;
   auto names = gen_names(src, rank);
   auto t = gen_tensor(src, names, g);
   int style = int(src.draw(5));
   if (style <= 1) fill_real(t, src.draw(1 << 16), is_cplx);
   if (style == 3) fill(t, src.draw(1 << 16), is_cplx, 1); // many ties and rank deficiency
   if (style == 4) // only a few non-zero entries
      for (size_t i = 0; i < t.data.size(); i++)
         if (pbt::mix(i, 7) % 4) t.data[i] = 0;
   uset.clear();
   nu = 0;
   for (auto& n : t.names)
      if (src.coin()) uset.push_back(n), nu++;
   return t;
}
static void check_svd(Src& src, const ref::T& t, const std::vector<std::string>& uset, long cut) {
   auto T = to_tat(t);
   std::set<std::string> us(uset.begin(), uset.end());
   NameSet ns(uset.begin(), uset.end());
   if (src.coin(1, 12)) ns.insert(Name("absent"));
   auto [U, S, V] = cut < 0 ? T.svd(ns, Name("cu"), Name("cv")) : T.svd(ns, Name("cu"), Name("cv"), TAT::Size(cut));
   unchanged(T, t);
   auto u = to_ref(U), v = to_ref(V);
   std::vector<std::string> un, vn{"cv"}, all;
   std::vector<ref::Edge> alle;
   for (auto& n : t.names)
      if (us.count(n)) un.push_back(n), all.push_back(n), alle.push_back(t.edges[t.find(n)]);
   for (auto& n : t.names)
      if (!us.count(n)) vn.push_back(n), all.push_back(n), alle.push_back(t.edges[t.find(n)]);
   un.push_back("cu");
   require(u.names == un, "names of U are " + ref::show(u));
   require(v.names == vn, "names of V are " + ref::show(v));
   auto& uc = u.edges[u.find("cu")];
   auto& vc = v.edges[0];
   if (is_fermi_v) require(uc.arrow != vc.arrow, "common edges cannot be contracted: same arrow");
   std::map<ref::Sym, std::vector<double>> s;
   s = singular_values(S);
   require(s.size() == uc.segs.size() && s.size() == vc.segs.size(), "sectors of S differ from those of U or V");
   double smax = 0;
   long kept = 0;
   for (auto& [k, vec] : s) {
      auto a = uc.find(k), b = vc.find(ref::neg(KIND, k));
      require(a && b && a->dim == int(vec.size()) && b->dim == int(vec.size()), "extent of S differs from U or V");
      for (size_t i = 0; i < vec.size(); i++) {
         require(vec[i] >= 0, "negative singular value");
         require(i == 0 || vec[i] <= vec[i - 1], "singular values are not in descending order");
         smax = std::max(smax, vec[i]);
      }
      kept += long(vec.size());
   }
   double scale = std::max(1.0, std::sqrt(ref::norm2(t)));
   require(ref::orthonormality(u, "cu") < EPS * 10, "U does not have orthonormal columns");
   require(ref::orthonormality(v, "cv") < EPS * 10, "V does not have orthonormal rows");
   auto usv = ref::embed(ref::contract(ref::scale_axis(u, "cu", s, false), v, {{"cu", "cv"}}), alle);
   auto want = ref::permute_names(t, all);
   for (int i = 0; i < want.rank(); i++) {
      auto f = u.find(want.names[i]);
      auto& e = f >= 0 ? u.edges[f] : v.edges[v.find(want.names[i])];
      if (is_fermi_v) require(e.arrow == want.edges[i].arrow, "arrow of " + want.names[i] + " changed");
   }
   double err = 0;
   for (size_t i = 0; i < want.data.size(); i++) err += std::norm(usv.data[i] - want.data[i]);
   err = std::sqrt(err);
   // values available for selection
   long total = 0;
   std::vector<ref::Edge> ue, ve;
   for (auto& n : t.names) (us.count(n) ? ue : ve).push_back(t.edges[t.find(n)]);
   auto fu = ref::fuse(KIND, ue), fv = ref::fuse(KIND, ve);
   for (auto& x : fu.edge.segs)
      if (auto y = fv.edge.find(ref::neg(KIND, x.s))) total += std::min(x.dim, y->dim);
   if (cut < 0 || cut >= total) {
      require(kept == total, "number of singular values is " + std::to_string(kept) + " instead of " + std::to_string(total));
      require(err <= EPS * scale, "U S V differs from the tensor by " + std::to_string(err));
      require(std::abs(ref::norm2(want) - [&] {
                 double x = 0;
                 for (auto& [k, vec] : s)
                    for (double y : vec) x += y * y;
                 return x;
              }()) <= 10 * EPS * scale * scale,
              "singular values do not carry the norm");
   } else {
      require(kept == cut, "kept " + std::to_string(kept) + " singular values instead of " + std::to_string(cut));
      auto full = T.svd(ns, Name("cu"), Name("cv")).S;
      std::vector<double> every;
      for (auto& [k, vec] : singular_values(full)) every.insert(every.end(), vec.begin(), vec.end());
      std::sort(every.rbegin(), every.rend());
      std::vector<double> have;
      for (auto& [k, vec] : s) have.insert(have.end(), vec.begin(), vec.end());
      std::sort(have.rbegin(), have.rend());
      double lost = 0;
      for (size_t i = 0; i < every.size(); i++) {
         if (i < have.size()) require(std::abs(have[i] - every[i]) <= EPS * scale, "truncation does not keep the largest singular values");
         else lost += every[i] * every[i];
      }
      require(std::abs(err - std::sqrt(lost)) <= 10 * EPS * scale, "truncation error " + std::to_string(err) + " is not the discarded weight " + std::to_string(std::sqrt(lost)));
      src.label("truncated");
   }
   src.nontrivial = kept > 1 && smax > 0 && !uset.empty() && uset.size() < t.names.size();
   if (s.size() > 1) src.label("several sectors");
}
PBT_TEST(svd_full, 20) {
   int nu;
   std::vector<std::string> uset;
   auto t = gen_input(src, nu, uset, 160, 4);
   std::string text = "svd " + ref::show(t) + " u:";
   for (auto& n : uset) text += " " + n;
   src.note(text);
   check_svd(src, t, uset, -1);
}
PBT_TEST(svd_cut, 20) {
   int nu;
   std::vector<std::string> uset;
   auto t = gen_input(src, nu, uset, 160, 4);
   long cut = src.range(1, 8);
   if (src.coin(1, 10)) cut = 1000000;
   std::string text = "svd cut=" + std::to_string(cut) + " " + ref::show(t, t.size() < 20) + " u:";
   for (auto& n : uset) text += " " + n;
   src.note(text);
   check_svd(src, t, uset, cut);
}
PBT_TEST(svd_big, 1) {
   int nu;
   std::vector<std::string> uset;
   auto t = gen_input(src, nu, uset, 2500, 24);
   long cut = src.coin() ? -1 : src.range(1, 20);
   src.note("svd big cut=" + std::to_string(cut) + " " + ref::show(t));
   check_svd(src, t, uset, cut);
}
// the library's own recomposition (multiple + contract) gives the tensor back
PBT_TEST(svd_recompose, 8) {
   int nu;
   std::vector<std::string> uset;
   auto t = gen_input(src, nu, uset, 120, 3);
   src.note("recompose " + ref::show(t));
   auto T = to_tat(t);
   auto [U, S, V] = T.svd(NameSet(uset.begin(), uset.end()), Name("cu"), Name("cv"));
#ifdef TAT_USE_SINGULAR_MATRIX
   {
      auto [U2, S2, V2] = T.svd(NameSet(uset.begin(), uset.end()), Name("cu"), Name("cv"), TAT::Size(-1), Name("su"), Name("sv"));
      auto R2 = U2.contract(S2, NamePairs{{Name("cu"), Name("su")}}).contract(V2, NamePairs{{Name("sv"), Name("cv")}});
      auto m2 = ref::compare(to_ref(R2.transpose(T.names)), t, EPS);
      if (!m2.empty()) fail("product of the three factors: " + m2);
   }
#endif
   bool left = src.coin();
   auto A = left ? U.multiple(S, Name("cu"), 'u') : U;
   auto B = left ? V : V.multiple(S, Name("cv"), 'v');
   bool swap = src.coin();
   auto R = swap ? B.contract(A, NamePairs{{Name("cv"), Name("cu")}}) : A.contract(B, NamePairs{{Name("cu"), Name("cv")}});
   auto m = ref::compare(to_ref(R.transpose(T.names)), t, EPS);
   if (!m.empty()) fail("recomposed tensor: " + m);
   src.nontrivial = t.size() > 3 && !uset.empty() && uset.size() < t.names.size();
}
