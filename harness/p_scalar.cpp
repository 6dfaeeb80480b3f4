// Elementwise arithmetic between tensors and numbers.
#include "bridge.hpp"

static ref::T combine(const ref::T& a, const ref::T& b0, char op) {
   auto b = ref::permute_names(b0, a.names);
   auto edges = a.edges;
   for (int i = 0; i < a.rank(); i++) {
      for (auto& s : b.edges[i].segs)
         if (!edges[i].find(s.s)) edges[i].segs.push_back(s);
      edges[i].sort();
   }
   auto x = ref::embed(a, edges), y = ref::embed(b, edges);
   ref::each_allowed(x, [&](const std::vector<int>&, size_t i) {
      switch (op) {
         case '+': x.data[i] += y.data[i]; break;
         case '-': x.data[i] -= y.data[i]; break;
         case '*': x.data[i] *= y.data[i]; break;
         default: x.data[i] /= y.data[i];
      }
   });
   return ref::normalize(x);
}
static void powers(ref::T& t, uint64_t seed, bool cplx) {
   uint64_t st = seed + 11;
   ref::each_allowed(t, [&](const std::vector<int>&, size_t i) {
      auto v = pbt::splitmix(st);
      double m = double(1 << (v % 4)) * ((v >> 8) & 1 ? -1 : 1);
      t.data[i] = cplx && ((v >> 16) & 1) ? ref::cd(0, m) : ref::cd(m, 0);
   });
}
static ref::T base(Src& src, const Gen& g) {
   return gen_tensor(src, gen_names(src, int(src.range(0, 4))), g);
}
// shape-compatible partner: same edges, or with some sectors dropped/added
static ref::T partner(Src& src, const ref::T& a, bool same_shape) {
   auto edges = a.edges;
   if (!is_nosym && !same_shape)
      for (auto& e : edges) {
         if (e.segs.size() > 1 && src.coin(1, 3)) e.segs.erase(e.segs.begin() + src.draw(e.segs.size()));
         if (src.coin(1, 3)) {
            auto s = gen_sym(src, 2);
            if (!e.find(s)) e.segs.push_back({s, int(src.range(1, 2))}), e.sort();
         }
      }
   // a sector may not come back with another extent
   for (int i = 0; i < a.rank(); i++)
      for (auto& s : edges[i].segs)
         if (auto f = a.edges[i].find(s.s)) s.dim = f->dim;
   auto b = ref::normalize(ref::make(KIND, a.names, edges));
   fill(b, src.draw(1 << 16), is_cplx);
   return ref::permute(b, src.permutation(b.rank()));
}
// permute() keeps values but for fermions moves signs; both operands are compared after alignment, so any data will do
template<typename A, typename B>
auto apply(char op, const A& a, const B& b) {
   switch (op) {
      case '+': return a + b;
      case '-': return a - b;
      case '*': return a * b;
      default: return a / b;
   }
}
template<typename A, typename B>
void apply_in(char op, A& a, const B& b) {
   switch (op) {
      case '+': a += b; break;
      case '-': a -= b; break;
      case '*': a *= b; break;
      default: a /= b;
   }
}
static char gen_op(Src& src) {
   return "+-*/"[src.draw(4)];
}
PBT_TEST(tensor_tensor, 40) {
   Gen g;
   g.cap = 150;
   g.zero_per_mille = src.coin(1, 16) ? 120 : 0;
   auto a = base(src, g);
   char op = gen_op(src);
   auto b = partner(src, a, op == '/');
   if (op == '/') powers(b, src.draw(1 << 16), is_cplx);
   src.note(ref::show(a) + " " + op + " " + ref::show(b));
   auto A = to_tat(a), B = to_tat(b);
   auto R = apply(op, A, B);
   same(R, combine(a, b, op), "result");
   unchanged(A, a);
   unchanged(B, b);
   src.nontrivial = nonzeros(a) > 1 && nonzeros(b) > 1;
   src.label(std::string(1, op));
   if (a.names != b.names) src.label("reordered");
}
PBT_TEST(tensor_tensor_inplace, 25) {
   Gen g;
   g.cap = 150;
   auto a = base(src, g);
   char op = gen_op(src);
   auto b = partner(src, a, true);
   if (op == '/') powers(b, src.draw(1 << 16), is_cplx);
   bool shared = src.coin();
   src.note(ref::show(a) + " " + op + "= " + ref::show(b) + (shared ? " shared" : ""));
   auto A = to_tat(a), B = to_tat(b);
   Tensor keep = shared ? A : Tensor();
   apply_in(op, A, B);
   same(A, combine(a, b, op), "in-place result");
   unchanged(B, b);
   if (shared) unchanged(keep, a);
   src.nontrivial = nonzeros(a) > 1 && nonzeros(b) > 1;
}
PBT_TEST(self_operand, 10) {
   Gen g;
   g.cap = 100;
   auto a = base(src, g);
   powers(a, src.draw(1 << 16), is_cplx);
   char op = gen_op(src);
   bool in = src.coin();
   src.note(std::string("x ") + op + (in ? "= x " : " x ") + ref::show(a));
   auto A = to_tat(a);
   auto want = combine(a, a, op);
   if (in) {
      apply_in(op, A, A);
      same(A, want, "x op= x");
   } else {
      same(apply(op, A, A), want, "x op x");
      unchanged(A, a);
   }
   src.nontrivial = nonzeros(a) > 1;
}
PBT_TEST(tensor_number, 25) {
   Gen g;
   g.cap = 150;
   g.zero_per_mille = src.coin(1, 16) ? 120 : 0;
   auto a = base(src, g);
   char op = gen_op(src);
   int form = int(src.draw(3)); // tensor op number, number op tensor, in place
   double num = double(src.range(-8, 8));
   ref::cd z(num, is_cplx ? double(src.range(-3, 3)) : 0);
   if (op == '/') {
      z = ref::cd(double(1 << src.draw(4)), 0);
      if (form == 1) powers(a, src.draw(1 << 16), is_cplx);
   }
   src.note(std::string(form == 1 ? "number " : "") + ref::show(a) + " " + op + (form == 2 ? "= number" : ""));
   auto A = to_tat(a);
   Scalar n = scalar_to<Scalar>(z);
   auto want = a;
   ref::each_allowed(a, [&](const std::vector<int>&, size_t i) {
      auto x = form == 1 ? z : a.data[i], y = form == 1 ? a.data[i] : z;
      want.data[i] = op == '+' ? x + y : op == '-' ? x - y : op == '*' ? x * y : x / y;
   });
   if (form == 0) same(apply(op, A, n), want, "tensor op number");
   else if (form == 1) same(apply(op, n, A), want, "number op tensor");
   else {
      bool kept = src.coin();
      Tensor keep = kept ? A : Tensor();
      apply_in(op, A, n);
      same(A, want, "tensor op= number");
      if (kept) unchanged(keep, a);
   }
   if (form != 2) unchanged(A, a);
   src.nontrivial = nonzeros(a) > 1;
}
// shapes that do not fit are refused and nothing is changed
PBT_TEST(incompatible, 10) {
   Gen g;
   g.cap = 60;
   auto a = gen_tensor(src, gen_names(src, int(src.range(1, 3))), g);
   auto b = a;
   char op = gen_op(src);
   bool in = src.coin();
   int kind = int(src.draw(is_fermi_v ? 4 : 3));
   bool swap = src.coin(); // the odd one comes first
   if (kind == 3) in = true; // out of place the direction of the first operand is taken, examples/fermi-diag relies on that
   if (kind == 0) { // other rank
      b.names.push_back("Z");
      ref::Edge e;
      e.segs = {{ref::Sym{}, 1}};
      b.edges.push_back(e);
   } else if (kind == 1) { // other extent
      int i = int(src.draw(b.rank()));
      if (b.edges[i].segs.empty()) throw pbt::Discard();
      b.edges[i].segs[src.draw(b.edges[i].segs.size())].dim += 1;
   } else if (kind == 3) { // other direction
      auto& e = b.edges[src.draw(b.rank())];
      e.arrow = !e.arrow;
   } else { // other name
      b.names[src.draw(b.names.size())] = "Z";
   }
   b = ref::normalize(ref::make(KIND, b.names, b.edges));
   fill(b, src.draw(1 << 16), is_cplx);
   if (swap) std::swap(a, b);
   src.note(ref::show(a) + " " + op + (in ? "= " : " ") + ref::show(b));
   src.label("kind " + std::to_string(kind) + (swap ? " swapped" : "") + (in ? " in place" : ""));
   auto A = to_tat(a), B = to_tat(b);
   require(raises([&] {
              if (in) apply_in(op, A, B);
              else (void)apply(op, A, B);
           }),
           "incompatible operands are accepted");
   unchanged(A, a);
   unchanged(B, b);
   src.nontrivial = true;
}
