// Value semantics: tensors are shared lazily, yet every handle must behave like an independent value.
// Stateful test: a pool of library tensors and a pool of model tensors are driven by the same random history of
// copies, moves, sharing operations, in-place writes and reloads; after every step every pool member is compared.
#include "bridge.hpp"

struct Slot {
   Tensor t;
   ref::T m;
};
static double biggest(const ref::T& t) {
   double r = 0;
   for (auto& v : t.data) r = std::max({r, std::abs(v.real()), std::abs(v.imag())});
   return r;
}
template<typename F>
static void number(ref::T& m, F&& f) {
   long n = 0;
   auto d = m.dims();
   for (auto& k : ref::conserved(KIND, m.edges)) each_in_block(m.edges, d, k, [&](size_t, size_t i) { m.data[i] = f(n++, m.data[i]); });
}
static std::vector<std::vector<int>> spots(const ref::T& m) {
   std::vector<std::vector<int>> r;
   ref::each_allowed(m, [&](const std::vector<int>& i, size_t) { r.push_back(i); });
   return r;
}
// a tensor that shares (or may share) its storage with T
static Slot alias(Src& src, const Slot& s, std::string& text) {
   Slot r{Tensor(), s.m};
   int how = int(src.draw(11));
   text += "alias" + std::to_string(how);
   std::vector<Name> same_names = names_to(s.m.names);
   switch (how) {
      case 0: r.t = s.t; break;
      case 1: {
         Tensor c(s.t);
         r.t = std::move(c);
         break;
      }
      case 2: r.t = s.t.template to<Scalar>(); break;
      case 3: r.t = s.t.transpose(same_names); break;
      case 4: { // rename (and back)
         std::map<Name, Name> m;
         std::map<std::string, std::string> mm;
         for (auto& n : s.m.names)
            if (src.coin()) {
               std::string to = n[0] == 'r' ? n.substr(1) : "r" + n;
               m[Name(n)] = Name(to);
               mm[n] = to;
            }
         r.t = s.t.edge_rename(m);
         r.m = ref::rename(s.m, mm);
         break;
      }
      case 5: r.t = s.t.edge_operator(std::map<Name, Name>(), std::map<Name, std::vector<std::tuple<Name, TAT::BoseEdge<Symmetry>>>>(), std::set<Name>(), std::map<Name, std::vector<Name>>(), same_names); break;
      case 6: r.t = s.t.reverse_edge(std::set<Name>()); break;
      case 7: r.t = s.t.merge_edge(std::map<Name, std::vector<Name>>()); break;
      case 8: r.t = s.t.split_edge(std::map<Name, std::vector<std::tuple<Name, TAT::BoseEdge<Symmetry>>>>()); break;
      case 9: r.t = s.t.trace(NamePairs()); break;
      default: r.t = s.t.shrink(std::map<Name, typename Tensor::EdgePoint>()); break;
   }
   return r;
}
// a fresh value computed from s
static Slot derive(Src& src, const Slot& s, std::string& text) {
   Slot r{Tensor(), s.m};
   int how = int(src.draw(8));
   text += "derive" + std::to_string(how);
   auto dbl = [](ref::T m, double f) {
      for (auto& v : m.data) v *= f;
      return m;
   };
   switch (how) {
      case 0: r.t = s.t.copy(); break;
      case 1:
         r.t = s.t.map([](Scalar x) { return x + x; });
         r.m = dbl(s.m, 2);
         break;
      case 2: {
         auto p = src.permutation(s.m.rank());
         r.m = ref::permute(s.m, p);
         r.t = s.t.transpose(names_to(r.m.names));
         break;
      }
      case 3:
         r.t = Scalar(Real(-1)) * s.t;
         r.m = dbl(s.m, -1);
         break;
      case 4:
         r.t = s.t + s.t;
         r.m = dbl(s.m, 2);
         break;
      case 5:
         r.t = Tensor().load(s.t.dump());
         break;
      case 6: {
         std::stringstream ss;
         ss < s.t;
         ss > r.t;
         break;
      }
      default:
         r.t = s.t.conjugate();
         r.m = ref::conjugate(s.m);
         break;
   }
   return r;
}
static void mutate(Src& src, std::vector<Slot>& pool, size_t i, std::string& text) {
   auto& s = pool[i];
   int how = int(src.draw(13));
   if (biggest(s.m) > 3000 && how > 3) how = 0;
   text += "mutate" + std::to_string(how);
   switch (how) {
      case 0:
         s.t.zero();
         number(s.m, [](long, ref::cd) { return ref::cd(0); });
         break;
      case 1: {
         double f = double(src.range(-3, 3)), st = double(src.range(1, 2));
         s.t.test(Scalar(Real(f)), Scalar(Real(st)));
         number(s.m, [&](long n, ref::cd) { return ref::cd(f + st * double(n)); });
         break;
      }
      case 2: {
         long c = 0;
         s.t.set([&] { return Scalar(Real(c++ % 5)); });
         number(s.m, [](long n, ref::cd) { return ref::cd(double(n % 5)); });
         break;
      }
      case 3: { // load over an existing value
         size_t j = src.draw(pool.size());
         auto bytes = pool[j].t.dump();
         if (src.coin()) s.t.load(bytes);
         else {
            std::stringstream ss(bytes);
            ss > s.t;
         }
         s.m = pool[j].m;
         text += "<-" + std::to_string(j);
         break;
      }
      case 4:
         s.t.transform([](Scalar x) { return x + Scalar(Real(1)); });
         number(s.m, [](long, ref::cd v) { return v + 1.0; });
         break;
      case 5:
         s.t *= Scalar(Real(2));
         number(s.m, [](long, ref::cd v) { return v * 2.0; });
         break;
      case 6:
         s.t += Scalar(Real(3));
         number(s.m, [](long, ref::cd v) { return v + 3.0; });
         break;
      case 7:
         s.t -= s.t;
         number(s.m, [](long, ref::cd v) { return v - v; });
         break;
      case 8: { // += another member of compatible shape
         std::vector<size_t> ok;
         for (size_t j = 0; j < pool.size(); j++) {
            auto& b = pool[j].m;
            if (std::set<std::string>(b.names.begin(), b.names.end()) != std::set<std::string>(s.m.names.begin(), s.m.names.end())) continue;
            bool good = true;
            for (int k = 0; k < b.rank(); k++) {
               auto& e = s.m.edges[s.m.find(b.names[k])];
               good = good && e.segs == b.edges[k].segs && (!is_fermi_v || e.arrow == b.edges[k].arrow);
            }
            if (good) ok.push_back(j);
         }
         size_t j = ok[src.draw(ok.size())];
         auto b = ref::permute_names(pool[j].m, s.m.names);
         s.t += pool[j].t;
         for (size_t k = 0; k < s.m.data.size(); k++) s.m.data[k] += b.data[k];
         text += "+=" + std::to_string(j);
         break;
      }
      case 9:
      case 10: {
         auto sp = spots(s.m);
         if (sp.empty()) break;
         auto& idx = sp[src.draw(sp.size())];
         ref::AxisSyms ax(s.m.edges);
         double v = double(src.range(20, 40));
         s.t.at(make_position(s.m, ax, idx)) = Scalar(Real(v));
         s.m.data[ref::flat(s.m.dims(), idx)] = v;
         break;
      }
      case 11: {
         auto keys = ref::conserved(KIND, s.m.edges);
         if (keys.empty()) break;
         auto& k = keys[src.draw(keys.size())];
         std::map<Name, Symmetry> p;
         for (int a = 0; a < s.m.rank(); a++) p[Name(s.m.names[a])] = sym_to(k[a]);
         auto& b = s.t.block(p);
         each_in_block(s.m.edges, s.m.dims(), k, [&](size_t q, size_t f) {
            b[q] = Scalar(Real(q + 50));
            s.m.data[f] = double(q + 50);
         });
         break;
      }
      default: { // in-place functions on a temporary that shares storage
         auto z = Tensor(s.t).zero();
         auto w = Tensor(s.t).transform([](Scalar x) { return x + Scalar(Real(7)); });
         auto wm = s.m;
         number(wm, [](long, ref::cd v) { return v + 7.0; });
         same(w, wm, "transform of a temporary");
         break;
      }
   }
}
PBT_TEST(history, 60) {
   std::vector<Slot> pool;
   Gen g;
   g.cap = 40;
   g.max_dim = 2;
   int n = int(src.range(1, 2));
   for (int i = 0; i < n; i++) {
      auto m = gen_tensor(src, gen_names(src, int(src.range(0, 3))), g);
      pool.push_back({to_tat(m), m});
      src.note((i ? " " : "") + ref::show(m));
   }
   int steps = int(src.range(2, 14));
   int writes_while_shared = 0;
   for (int k = 0; k < steps; k++) {
      size_t i = src.draw(pool.size());
      std::string text = "; " + std::to_string(i) + ":";
      switch (src.weighted({4, 5, 2, 1})) {
         case 0: {
            auto s = alias(src, pool[i], text);
            pool.push_back(std::move(s));
            break;
         }
         case 1: {
            bool shared = pool[i].t.core.use_count() > 1;
            mutate(src, pool, i, text);
            writes_while_shared += shared;
            break;
         }
         case 2: {
            auto s = derive(src, pool[i], text);
            pool.push_back(std::move(s));
            break;
         }
         default: { // assignment, self-assignment, swap, destruction
            size_t j = src.draw(pool.size());
            int how = int(src.draw(4));
            text += "assign" + std::to_string(how) + "," + std::to_string(j);
            if (how == 0) {
               pool[i].t = pool[j].t;
               pool[i].m = pool[j].m;
            } else if (how == 1) {
               std::swap(pool[i].t, pool[j].t);
               std::swap(pool[i].m, pool[j].m);
            } else if (how == 2 && i != j) {
               pool[i].t = std::move(pool[j].t);
               pool[i].m = pool[j].m;
               pool.erase(pool.begin() + j);
            } else if (pool.size() > 1) pool.erase(pool.begin() + i);
         }
      }
      src.note(text);
      if (pool.size() > 6) pool.erase(pool.begin() + src.draw(pool.size()));
      for (size_t j = 0; j < pool.size(); j++) {
         auto m = ref::compare(to_ref(pool[j].t), pool[j].m);
         if (!m.empty()) fail("after step " + std::to_string(k) + " value " + std::to_string(j) + " is wrong: " + m);
      }
   }
   src.nontrivial = writes_while_shared > 0;
   if (writes_while_shared) src.label("write to shared storage");
}
// references obtained from a const handle stay valid and unchanged while other handles are written
PBT_TEST(const_views, 10) {
   Gen g;
   g.cap = 60;
   auto m = gen_tensor(src, gen_names(src, int(src.range(0, 3))), g);
   auto sp = spots(m);
   if (sp.empty()) throw pbt::Discard();
   src.note("views of " + ref::show(m));
   auto T = to_tat(m);
   Tensor other = T;
   auto& idx = sp[src.draw(sp.size())];
   ref::AxisSyms ax(m.edges);
   auto pos = make_position(m, ax, idx);
   const Scalar& view = T.const_at(pos);
   auto before = view;
   if (src.coin()) other.zero();
   else other.at(pos) = before + Scalar(Real(1));
   require(view == before, "element seen through one handle changed by writing another");
   Tensor third = other;
   T = Tensor(Scalar(Real(1)));
   auto om = to_ref(other), tm = to_ref(third);
   require(ref::compare(om, tm).empty(), "copies differ");
   src.nontrivial = m.rank() > 0;
}
