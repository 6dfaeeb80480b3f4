// Binary serialisation: dump/load and stream operators.
#include "bridge.hpp"
using STensor = TAT::Tensor<Scalar, Symmetry, std::string>;
using Singular = TAT::Singular<Scalar, Symmetry, Name>;

static std::vector<std::string> odd_names(Src& src, int n) {
   std::vector<std::string> r;
   std::set<std::string> used;
   for (int i = 0; i < n; i++) {
      std::string s;
      switch (src.draw(5)) {
         case 0: s = name_pool()[src.draw(12)]; break;
         case 1: s = "Leg." + std::to_string(src.draw(30)); break;
         case 2: s = std::string("\xe5\xb7\xa6") + std::to_string(src.draw(3)); break;
         case 3: s = std::string(src.range(1, 300), char('a' + src.draw(3))); break;
         default: s = std::string("x y\0z,[", 7) + char(src.draw(256)); break;
      }
      while (!used.insert(s).second) s += "'";
      r.push_back(s);
   }
   return r;
}
static ref::T gen(Src& src, bool odd) {
   Gen g;
   g.cap = 120;
   g.zero_per_mille = src.coin(1, 8) ? 200 : 0;
   int rank = int(src.range(0, 5));
   auto t = gen_tensor(src, odd ? odd_names(src, rank) : gen_names(src, rank), g);
   if (src.coin(1, 3)) fill_real(t, src.draw(1 << 16), is_cplx);
   return t;
}
template<typename Te>
void roundtrip(Src& src, const ref::T& t) {
   auto T = to_tat<Te>(t);
   auto bytes = T.dump();
   Te other = to_tat<Te>(gen(src, false)), shared = other;
   auto before = to_ref(other);
   Te R;
   switch (src.draw(5)) {
      case 0: R.load(bytes); break;
      case 1: R = Te().load(bytes); break;
      case 2:
         other.load(bytes); // replaces a value that is shared with another handle
         R = other;
         break;
      case 3: {
         std::stringstream s;
         s < T;
         s > R;
         require(s.good() || s.eof(), "stream failed");
         break;
      }
      default: {
         std::stringstream m, d;
         T.meta_put(m);
         T.data_put(d);
         R.meta_get(m);
         R.data_get(d);
         require(m.str() + d.str() == bytes, "metadata and data do not concatenate to the dump");
      }
   }
   auto msg = ref::compare(to_ref(R), t);
   if (!msg.empty()) fail("after reloading: " + msg);
   require(R.dump() == bytes, "dump of the reloaded tensor differs");
   msg = ref::compare(to_ref(shared), before);
   if (!msg.empty()) fail("loading changed another tensor: " + msg);
   msg = ref::compare(to_ref(T), t);
   if (!msg.empty()) fail("dumping changed the tensor: " + msg);
   // the reloaded tensor is a working tensor
   auto p = src.permutation(t.rank());
   auto want = ref::permute(t, p);
   std::vector<typename Te::name_t> nn(want.names.begin(), want.names.end());
   msg = ref::compare(to_ref(R.transpose(nn)), want);
   if (!msg.empty()) fail("transpose of the reloaded tensor: " + msg);
}
PBT_TEST(roundtrip_fast_name, 25) {
   auto t = gen(src, src.coin(1, 3));
   src.note("dump " + ref::show(t));
   roundtrip<Tensor>(src, t);
   src.nontrivial = nonzeros(t) > 1;
}
PBT_TEST(roundtrip_string_name, 25) {
   auto t = gen(src, src.coin());
   src.note("dump (string names) " + ref::show(t));
   roundtrip<STensor>(src, t);
   src.nontrivial = nonzeros(t) > 1;
}
// every bit pattern survives
PBT_TEST(bit_patterns, 10) {
   auto t = gen(src, false);
   auto T = to_tat(t);
   uint64_t st = src.draw(1 << 20);
   bool special = src.coin();
   src.note("bits of " + ref::show(t));
   for (auto& [k, b] : T.core->blocks)
      for (auto& v : b) {
         unsigned char raw[sizeof(Scalar)];
         for (auto& c : raw) c = (unsigned char)(pbt::splitmix(st) >> 7);
         if (special) {
            Real x[] = {Real(0.0), Real(-0.0), std::numeric_limits<Real>::infinity(), std::numeric_limits<Real>::quiet_NaN(), std::numeric_limits<Real>::denorm_min(), std::numeric_limits<Real>::max(), std::numeric_limits<Real>::lowest()};
            for (size_t o = 0; o + sizeof(Real) <= sizeof(Scalar); o += sizeof(Real)) std::memcpy(raw + o, &x[pbt::splitmix(st) % 7], sizeof(Real));
         }
         std::memcpy(&v, raw, sizeof raw);
      }
   auto R = Tensor().load(T.dump());
   require(R.core->blocks.size() == T.core->blocks.size(), "block count");
   for (auto& [k, b] : T.core->blocks) {
      auto& c = R.core->blocks.at(k);
      require(c.size() == b.size() && (b.empty() || !std::memcmp(b.data(), c.data(), b.size() * sizeof(Scalar))), "bits of a block changed");
   }
   src.nontrivial = t.data.size() > 1;
}
static Singular gen_singular(Src& src) {
   Singular s;
   int n = is_nosym ? 1 : int(src.range(0, 3));
   for (int i = 0; i < n; i++) {
      auto& v = s.value[sym_to(gen_sym(src, 3))];
      int d = int(src.range(0, 5));
      v.clear();
      for (int k = 0; k < d; k++) v.push_back(Real(src.range(0, 1000)) / Real(7));
   }
   return s;
}
// several objects after one another in one stream
PBT_TEST(concatenated, 20) {
   int n = int(src.range(1, 4));
   std::stringstream s;
   std::vector<ref::T> ts;
   std::vector<Singular> ss;
   std::vector<int> kind;
   std::string text = "stream";
   for (int i = 0; i < n; i++) {
      kind.push_back(int(src.draw(3)));
      if (kind.back() == 1) {
         ss.push_back(gen_singular(src));
         s < ss.back();
      } else {
         ts.push_back(gen(src, false));
         text += " " + ref::show(ts.back());
         if (kind.back()) s < to_tat<STensor>(ts.back());
         else s < to_tat(ts.back());
      }
   }
   src.note(text);
   long sentinel = 0x1234567890abcdef;
   s.write((const char*)&sentinel, sizeof sentinel);
   size_t a = 0, b = 0;
   Tensor R;
   STensor Q;
   Singular S = gen_singular(src);
   for (int k : kind) {
      if (k == 1) {
         s > S;
         require(S.value == ss[b++].value, "singular values changed");
      } else {
         std::string msg;
         if (k) {
            s > Q;
            msg = ref::compare(to_ref(Q), ts[a++]);
         } else {
            s > R;
            msg = ref::compare(to_ref(R), ts[a++]);
         }
         if (!msg.empty()) fail("object in a stream: " + msg);
      }
   }
   long back = 0;
   s.read((char*)&back, sizeof back);
   require(s.good() && back == sentinel, "reading consumed too much or too little");
   src.nontrivial = n > 1 && !ts.empty();
}
PBT_TEST(singular, 8) {
   auto s = gen_singular(src);
   src.note("singular values, " + std::to_string(s.value.size()) + " sectors");
   Singular r = gen_singular(src);
   if (src.coin()) r.load(s.dump());
   else r = Singular().load(s.dump());
   require(r.value == s.value, "singular values changed by dump and load");
   src.nontrivial = s.value.size() && !s.value.begin()->second.empty();
}
// A truncated dump is detected (failed stream or exception), and never damages anything.
PBT_TEST(truncated, 10) {
   auto t = gen(src, false);
   bool strings = src.coin();
   std::string bytes = strings ? to_tat<STensor>(t).dump() : to_tat(t).dump();
   size_t cut = src.draw(bytes.size());
   src.note("first " + std::to_string(cut) + " of " + std::to_string(bytes.size()) + " bytes of " + ref::show(t));
   std::stringstream s(bytes.substr(0, cut));
   bool noticed = false;
   if (strings) {
      STensor R;
      noticed = raises([&] { s > R; });
   } else {
      Tensor R;
      noticed = raises([&] { s > R; });
   }
   require(noticed || s.fail(), "a truncated dump loads as if it were complete");
   src.nontrivial = t.rank() > 0;
}
