// Multiplying and dividing an edge by singular values.
#include "bridge.hpp"
using Singular = typename Tensor::SingularType;
using Spec = std::map<ref::Sym, std::vector<double>>;
static Singular make_s(const Spec& s) {
   return make_singular(s);
}
// powers of two, one list per sector of the edge (keyed for 'u', negated for 'v')
static Spec gen_s(Src& src, const ref::Edge& e, bool v) {
   Spec s;
   for (auto& g : e.segs) {
      auto& x = s[v ? ref::neg(KIND, g.s) : g.s];
      for (int i = 0; i < g.dim; i++) x.push_back(std::ldexp(1.0, int(src.range(0, 6)) - 2));
   }
   if (!is_nosym && src.coin(1, 5)) { // a sector the tensor does not have
      auto k = gen_sym(src, 2);
      if (!s.count(k)) s[k] = {3.0};
   }
   return s;
}
PBT_TEST(definition, 60) {
   Gen g;
   g.cap = 500;
   g.max_dim = src.coin(1, 4) ? 18 : 3;
   g.zero_per_mille = src.coin(1, 16) ? 120 : 0;
   auto t = gen_tensor(src, gen_names(src, int(src.range(1, 4))), g);
   std::string n = t.names[src.draw(t.names.size())];
   bool v = src.coin(), divide = src.coin(), upper = src.coin();
   auto s = gen_s(src, t.edges[t.find(n)], v);
   src.note(std::string(divide ? "divide " : "multiply ") + ref::show(t) + " on " + n + (v ? " as v" : " as u"));
   auto T = to_tat(t);
   auto S = make_s(s);
   auto before = singular_values(S);
   auto R = T.multiple(S, Name(n), v ? (upper ? 'V' : 'v') : (upper ? 'U' : 'u'), divide);
   same(R, ref::scale_axis(t, n, s, v, divide), "multiple");
   unchanged(T, t);
   require(singular_values(S) == before, "singular values modified");
   auto B = R.multiple(S, Name(n), v ? 'v' : 'u', !divide);
   same(B, t, "multiply and divide");
   src.nontrivial = nonzeros(t) > 1;
   src.label(divide ? "divide" : "multiply");
}
PBT_TEST(vanishing, 8) {
   // multiplying and dividing by the same values removes exactly the slices whose value is zero
   Gen g;
   g.cap = 200;
   auto t = gen_tensor(src, gen_names(src, int(src.range(1, 3))), g);
   std::string n = t.names[src.draw(t.names.size())];
   bool v = src.coin();
   auto s = gen_s(src, t.edges[t.find(n)], v);
   auto mask = s;
   for (auto& [k, x] : s)
      for (size_t i = 0; i < x.size(); i++) {
         if (src.coin(1, 3)) x[i] = 0;
         mask[k][i] = x[i] == 0 ? 0 : 1;
      }
   src.note("vanishing values " + ref::show(t) + " on " + n);
   auto T = to_tat(t);
   auto S = make_s(s);
   same(T.multiple(S, Name(n), v ? 'v' : 'u').multiple(S, Name(n), v ? 'v' : 'u', true), ref::scale_axis(t, n, mask, v, false), "multiplying and dividing by vanishing values");
   unchanged(T, t);
   src.nontrivial = nonzeros(t) > 1;
}
PBT_TEST(refusals, 10) {
   Gen g;
   g.cap = 60;
   auto t = gen_tensor(src, gen_names(src, int(src.range(1, 3))), g);
   std::string n = t.names[src.draw(t.names.size())];
   auto& e = t.edges[t.find(n)];
   if (e.segs.empty()) throw pbt::Discard();
   auto s = gen_s(src, e, false);
   int what = int(src.draw(4));
   src.note("multiple refusal " + std::to_string(what) + " " + ref::show(t));
   auto T = to_tat(t);
   switch (what) {
      case 0: { // wrong length
         auto& x = s[e.segs[src.draw(e.segs.size())].s];
         if (src.coin() && x.size() > 1) x.pop_back();
         else x.push_back(1);
         require(raises([&] { (void)T.multiple(make_s(s), Name(n), 'u'); }), "wrong number of singular values accepted");
         break;
      }
      case 1: // bad direction
         require(raises([&] { (void)T.multiple(make_s(s), Name(n), 'x'); }), "unknown direction accepted");
         break;
      case 2: // missing sector
         s.erase(e.segs[src.draw(e.segs.size())].s);
         require(raises([&] { (void)T.multiple(make_s(s), Name(n), 'u'); }), "missing singular sector accepted");
         break;
      default: same(T.multiple(make_s(s), Name("absent"), 'u'), t, "multiple on an absent edge"); break;
   }
   unchanged(T, t);
   src.nontrivial = true;
}
PBT_TEST(svd_recomposition, 25) {
   Gen g;
   g.cap = 200;
   auto t = gen_tensor(src, gen_names(src, int(src.range(1, 4))), g);
   fill_real(t, src.draw(1 << 16), is_cplx);
   NameSet us;
   ref::T order = t;
   std::vector<std::string> un, vn;
   for (auto& n : t.names)
      if (src.coin()) us.insert(Name(n)), un.push_back(n);
      else vn.push_back(n);
   src.note("svd and multiple " + ref::show(t) + " nu=" + std::to_string(un.size()));
   auto T = to_tat(t);
   auto [U, S, V] = T.svd(us, Name("cu"), Name("cv"));
   auto all = un;
   all.insert(all.end(), vn.begin(), vn.end());
   auto want = ref::permute_names(t, all);
   double eps = (is_single ? 3e-4 : 1e-11) * std::max(1.0, std::sqrt(ref::norm2(t)));
   NamePairs p{{Name("cu"), Name("cv")}};
   same(U.multiple(S, Name("cu"), 'u').contract(V, p), want, "(U S) V", eps);
   same(U.contract(V.multiple(S, Name("cv"), 'v'), p), want, "U (S V)", eps);
   double m = 0, s1 = 0;
   for (auto& [k, v] : singular_values(S))
      for (auto x : v) m = std::max(m, double(x)), s1 += double(x);
   double tol = is_single ? 1e-5 : 1e-13;
   require(std::abs(S.template norm<-1>() - m) <= tol * std::max(1.0, m), "largest singular value");
   require(std::abs(S.template norm<1>() - s1) <= tol * std::max(1.0, s1), "sum of singular values");
   auto C = S.copy();
   require(singular_values(C) == singular_values(S), "copy of singular values");
   src.nontrivial = nonzeros(t) > 1;
}
