// Text serialisation.
#include "bridge.hpp"
#include <iomanip>
using STensor = TAT::Tensor<Scalar, Symmetry, std::string>;
using Singular = TAT::Singular<Scalar, Symmetry, Name>;

static std::vector<std::string> text_names(Src& src, int n) {
   static const std::string ok = [] {
      std::string r;
      for (char c = 33; c < 127; c++)
         if (c != ',' && c != '[' && c != ']') r += c;
      return r;
   }();
   std::vector<std::string> r;
   std::set<std::string> used;
   bool plain = src.coin();
   for (int i = 0; i < n; i++) {
      std::string s;
      int len = plain ? 1 : src.coin(1, 10) ? int(src.range(200, 700)) : int(src.range(1, 8));
      uint64_t st = src.draw(1 << 20);
      for (int k = 0; k < len; k++) s += plain ? name_pool()[i][0] : ok[pbt::splitmix(st) % ok.size()];
      while (!used.insert(s).second) s += "'";
      r.push_back(s);
   }
   return r;
}
struct Style {
   int precision = 0;
   bool colour = true;
};
static ref::T gen(Src& src, Style& st) {
   Gen g;
   g.cap = 80;
   g.zero_per_mille = src.coin(1, 8) ? 200 : 0;
   int rank = int(src.range(0, 4));
   auto t = gen_tensor(src, text_names(src, rank), g);
   int style = int(src.draw(4));
   if (style == 1) {
      fill_real(t, src.draw(1 << 16), is_cplx);
      st.precision = std::numeric_limits<Real>::max_digits10;
   } else if (style == 2) { // wide exponents, both signs, zero parts
      uint64_t s = src.draw(1 << 16);
      ref::each_allowed(t, [&](const std::vector<int>&, size_t f) {
         auto one = [&] {
            auto v = pbt::splitmix(s);
            if (v % 4 == 0) return 0.0;
            return double(float(std::ldexp(double(long((v >> 20) % 65536) - 32768), int(v % 91) - 45)));
         };
         double re = one(), im = is_cplx ? one() : 0;
         t.data[f] = {re, im};
      });
      st.precision = std::numeric_limits<Real>::max_digits10;
   }
   return t;
}
static std::string strip(const std::string& s) {
   std::string r;
   for (size_t i = 0; i < s.size(); i++) {
      if (s[i] == '\x1b') {
         while (s[i] != 'm') i++;
      } else r += s[i];
   }
   return r;
}
template<typename Te>
std::string print(const Te& t, const Style& st) {
   std::stringstream s;
   if (st.precision) s << std::setprecision(st.precision);
   s << t;
   return st.colour ? s.str() : strip(s.str());
}
template<typename Te>
void roundtrip(Src& src) {
   Style st;
   int n = int(src.range(1, 3));
   std::string text;
   std::vector<ref::T> ts;
   std::vector<Te> Ts;
   st.colour = src.coin();
   for (int i = 0; i < n; i++) {
      auto t = gen(src, st);
      auto T = to_tat<Te>(t);
      text += print(T, st) + "?";
      auto m = ref::compare(to_ref(T), t);
      if (!m.empty()) fail("printing changed the tensor: " + m);
      ts.push_back(t);
   }
   src.note("read back " + strip(text).substr(0, 600));
   std::stringstream s(text);
   Te R;
   for (auto& t : ts) {
      Te shared = R;
      s >> R;
      char c = 0;
      s >> c;
      require(bool(s) && c == '?', "reading a printed tensor consumed the wrong number of characters");
      auto m = ref::compare(to_ref(R), t);
      if (!m.empty()) fail("reading back: " + m);
      if (nonzeros(t) > 1) src.nontrivial = true;
   }
   if (!st.colour) src.label("plain");
}
PBT_TEST(tensor_fast_name, 30) {
   roundtrip<Tensor>(src);
}
PBT_TEST(tensor_string_name, 20) {
   roundtrip<STensor>(src);
}
PBT_TEST(show_is_print, 5) {
   Style st;
   auto t = gen(src, st);
   src.note("show " + ref::show(t));
   auto T = to_tat(t);
   std::stringstream s;
   s << T;
   require(T.show() == s.str(), "show differs from printing");
   std::stringstream h;
   h << T.shape();
   auto full = strip(s.str()), shape = strip(h.str());
   require(full.substr(0, shape.size() - 1) == shape.substr(0, shape.size() - 1), "printed shape is not the head of the printed tensor");
   src.nontrivial = nonzeros(t) > 1;
}
PBT_TEST(singular, 10) {
   Singular a, b;
   int n = is_nosym ? 1 : int(src.range(0, 3));
   for (int i = 0; i < n; i++) {
      auto& v = a.value[sym_to(gen_sym(src, 3))];
      int d = int(src.range(0, 5));
      v.clear();
      for (int k = 0; k < d; k++) v.push_back(Real(src.range(0, 100000)) / Real(64));
   }
   b.value[sym_to(gen_sym(src, 3))] = {Real(1), Real(2)};
   if (is_nosym) b.value = a.value;
   Style st;
   st.precision = 12;
   st.colour = src.coin();
   std::stringstream s(print(a, st) + "?");
   src.note("singular values " + strip(s.str()));
   char c = 0;
   s >> b >> c;
   require(bool(s) && c == '?', "reading singular values consumed the wrong number of characters");
   require(a.value == b.value, "singular values changed by printing and reading");
   src.nontrivial = a.value.size() && !a.value.begin()->second.empty();
}
// A truncated text ends the reading (failed stream or exception); it never hangs and never yields another tensor.
PBT_TEST(truncated, 15) {
   Style st;
   st.colour = src.coin();
   auto t = gen(src, st);
   auto text = print(to_tat(t), st);
   size_t cut = src.draw(text.size());
   src.note("first " + std::to_string(cut) + " characters of " + strip(text).substr(0, 500));
   std::stringstream s(text.substr(0, cut));
   Tensor R;
   bool noticed = raises([&] { s >> R; });
   if (!noticed && !s.fail()) {
      auto m = ref::compare(to_ref(R), t);
      if (!m.empty()) fail("truncated text reads as another tensor: " + m);
   }
   src.nontrivial = t.rank() > 0;
}
