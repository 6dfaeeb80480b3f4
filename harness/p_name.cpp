// Edge names: the name table, its persistence, and independence of results from the name representation.
#include "bridge.hpp"
using STensor = TAT::Tensor<Scalar, Symmetry, std::string>;

static std::string gen_string(Src& src) {
   switch (src.draw(4)) {
      case 0: return std::string(1, char('a' + src.draw(26)));
      case 1: return "n" + std::to_string(src.draw(5000));
      case 2: return std::string(src.draw(40), char(32 + src.draw(90)));
      default: return std::string("\xe4\xb8\x8a.") + std::to_string(src.draw(100));
   }
}
PBT_TEST(bijection, 20) {
   int n = int(src.range(2, 8));
   std::vector<std::string> s;
   std::vector<TAT::FastName> f;
   for (int i = 0; i < n; i++) {
      s.push_back(src.coin(1, 4) && i ? s[src.draw(s.size())] : gen_string(src));
      if (src.coin()) f.push_back(TAT::FastName(s.back()));
      else if (s.back().find('\0') == std::string::npos) f.push_back(TAT::FastName(s.back().c_str()));
      else f.push_back(TAT::FastName(s.back()));
   }
   src.note("names " + s[0] + " " + s[1]);
   for (int i = 0; i < n; i++) {
      require(static_cast<const std::string&>(f[i]) == s[i], "a name changed its string");
      for (int j = 0; j < n; j++) {
         require((f[i] == f[j]) == (s[i] == s[j]) && (f[i] != f[j]) == (s[i] != s[j]), "name equality is not string equality");
         require((f[i] < f[j]) + (f[j] < f[i]) + (f[i] == f[j]) == 1, "names are not totally ordered");
         require((f[i] <= f[j]) == !(f[i] > f[j]) && (f[i] >= f[j]) == !(f[i] < f[j]), "inconsistent comparisons");
         for (int k = 0; k < n; k++)
            if (f[i] < f[j] && f[j] < f[k]) require(f[i] < f[k], "name order is not transitive");
      }
   }
   src.nontrivial = n > 2;
}
// tensors dumped together with the name table are readable by a process with another name table
PBT_TEST(dataset, 15) {
   auto saved = TAT::fast_name_dataset;
   struct Restore {
      TAT::fast_name_dataset_t& saved;
      ~Restore() { TAT::fast_name_dataset = saved; }
   } restore{saved};
   int rank = int(src.range(1, 4));
   std::vector<std::string> names;
   std::set<std::string> used;
   while (int(names.size()) < rank) {
      auto s = gen_string(src);
      while (!used.insert(s).second) s += "'";
      names.push_back(s);
   }
   Gen g;
   g.cap = 40;
   auto t = gen_tensor(src, names, g);
   src.note("name table with " + ref::show(t));
   auto bytes = to_tat(t).dump();
   auto table = TAT::dump_fast_name_dataset();
   // "another process": same library names, different user names in another order
   TAT::fast_name_dataset = TAT::fast_name_dataset_t();
   for (size_t i = 0; i < saved.id_to_name.size() && i < 20; i++)
      if (!saved.id_to_name[i].empty() && saved.id_to_name[i][0] == ',') (void)TAT::FastName(saved.id_to_name[i]);
   int extra = int(src.range(0, 4));
   std::vector<std::string> others;
   for (int i = 0; i < extra; i++) {
      others.push_back(gen_string(src));
      (void)TAT::FastName(others.back());
   }
   TAT::load_fast_name_dataset(table);
   Tensor R;
   R.load(bytes);
   same(R, t, "tensor read with a loaded name table");
   for (auto& n : names) require(static_cast<const std::string&>(TAT::FastName(n)) == n, "lookup after loading the name table");
   for (auto& n : names) require(R.name_to_index.count(TAT::FastName(n)), "loaded tensor does not know its own edge name");
   // names of the previous table are looked up in the loaded one
   for (auto& o : others) {
      TAT::FastName f(o);
      require(static_cast<const std::string&>(f) == o, "name " + o + " used before loading the name table now reads as another string");
      for (auto& n : names) require((f == TAT::FastName(n)) == (o == n), "name " + o + " used before loading the name table now collides with " + n);
   }
   // names created afterwards are new
   std::string fresh = "fresh" + std::to_string(src.draw(1000)) + "!";
   TAT::FastName f(fresh);
   for (auto& n : names) require(f != TAT::FastName(n), "a new name collides with a loaded one");
   require(static_cast<const std::string&>(f) == fresh, "a new name has another string");
   require(TAT::FastName() == TAT::FastName(""), "default name is not the empty name");
   src.nontrivial = rank > 1;
}
// the same computation with FastName and std::string names gives the same tensors
template<typename A, typename B>
void agree(const A& a, const B& b, const std::string& what, double tol = 0) {
   auto m = ref::compare(to_ref(a), to_ref(b), tol);
   if (!m.empty()) fail(what + " depends on the name type: " + m);
}
template<typename N>
std::vector<N> conv(const std::vector<std::string>& v) {
   return {v.begin(), v.end()};
}
PBT_TEST(name_type_differential, 40) {
   Gen g;
   g.cap = 120;
   auto t = gen_tensor(src, gen_names(src, int(src.range(1, 4))), g);
   // register names in a random order so that FastName order differs from string order
   std::map<std::string, std::string> alias;
   std::vector<std::string> renamed;
   for (auto& n : t.names) {
      std::string s(1, char('a' + src.draw(26)));
      s += n;
      alias[n] = s;
      (void)TAT::FastName(s);
   }
   t = ref::rename(t, alias);
   auto F = to_tat<Tensor>(t);
   auto S = to_tat<STensor>(t);
   int what = int(src.draw(7));
   src.note("op " + std::to_string(what) + " on " + ref::show(t));
   switch (what) {
      case 0: {
         auto o = ref::permute(t, src.permutation(t.rank())).names;
         agree(F.transpose(conv<Name>(o)), S.transpose(o), "transpose");
         break;
      }
      case 1: {
         std::map<Name, std::vector<Name>> m1;
         std::map<std::string, std::vector<std::string>> m2;
         std::vector<std::string> a, b;
         for (auto& n : t.names)
            if (auto k = src.draw(3); k == 1) a.push_back(n);
            else if (k == 2) b.push_back(n);
         if (!a.empty()) m1[Name("ma")] = conv<Name>(a), m2["ma"] = a;
         if (!b.empty()) m1[Name("mb")] = conv<Name>(b), m2["mb"] = b;
         agree(F.merge_edge(m1), S.merge_edge(m2), "merge");
         break;
      }
      case 2: {
         auto n = t.names[src.draw(t.names.size())];
         auto c = ref::conjugate(t);
         std::map<std::string, std::string> r;
         for (auto& x : c.names) r[x] = "c" + x;
         c = ref::rename(c, r);
         agree(F.contract(to_tat<Tensor>(c), NamePairs{{Name(n), Name("c" + n)}}), S.contract(to_tat<STensor>(c), std::set<std::tuple<std::string, std::string>>{{n, "c" + n}}), "contract");
         break;
      }
      case 3: agree(F.conjugate(), S.conjugate(), "conjugate"); break;
      case 4: {
         NameSet f;
         std::set<std::string> s;
         for (auto& n : t.names)
            if (src.coin()) f.insert(Name(n)), s.insert(n);
         auto [Q, R] = F.qr('Q', f, Name("q"), Name("r"));
         auto [Q2, R2] = S.qr('Q', s, std::string("q"), std::string("r"));
         agree(Q, Q2, "Q", 0);
         agree(R, R2, "R", 0);
         break;
      }
      case 5: {
         std::map<Name, Name> f;
         std::map<std::string, std::string> s;
         for (auto& n : t.names)
            if (src.coin()) f[Name(n)] = Name(n + "2"), s[n] = n + "2";
         agree(F.edge_rename(f), S.edge_rename(s), "rename");
         break;
      }
      default: {
         NameSet f;
         std::set<std::string> s;
         for (auto& n : t.names)
            if (src.coin()) f.insert(Name(n)), s.insert(n);
         agree(F.reverse_edge(f, true), S.reverse_edge(s, true), "reverse");
      }
   }
   src.nontrivial = nonzeros(t) > 1 && t.rank() > 1;
}
