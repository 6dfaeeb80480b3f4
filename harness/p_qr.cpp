// QR decomposition: factorisation, isometry of Q, triangular R.
#include "bridge.hpp"

static const double EPS = is_single ? 3e-4 : 1e-11;

static void check_qr(Src& src, const ref::T& t, size_t unused) {
   (void)unused;
   auto T = to_tat(t);
   std::set<std::string> qn;
   for (auto& n : t.names)
      if (src.coin()) qn.insert(n);
   bool by_r = src.coin();
   NameSet given;
   for (auto& n : t.names)
      if (bool(qn.count(n)) != by_r) given.insert(Name(n));
   if (src.coin(1, 12)) given.insert(Name("absent"));
   char dir = by_r ? (src.coin() ? 'r' : 'R') : (src.coin() ? 'q' : 'Q');
   std::string text = std::string("qr ") + dir + " " + ref::show(t, t.size() < 20) + " Q gets:";
   for (auto& n : qn) text += " " + n;
   src.note(text);
   auto [Q, R] = T.qr(dir, given, Name("cq"), Name("cr"));
   unchanged(T, t);
   auto q = to_ref(Q), r = to_ref(R);
   std::set<std::string> wq = qn, wr;
   wq.insert("cq");
   for (auto& n : t.names)
      if (!qn.count(n)) wr.insert(n);
   wr.insert("cr");
   require(std::set<std::string>(q.names.begin(), q.names.end()) == wq, "edges of Q are " + ref::show(q));
   require(std::set<std::string>(r.names.begin(), r.names.end()) == wr, "edges of R are " + ref::show(r));
   auto &qc = q.edges[q.find("cq")], &rc = r.edges[r.find("cr")];
   if (is_fermi_v) require(qc.arrow != rc.arrow, "common edges cannot be contracted: same arrow");
   // extent of the common edge: the smaller side of every block
   std::vector<ref::Edge> ue, ve, alle;
   std::vector<std::string> all;
   for (auto& n : q.names)
      if (n != "cq") all.push_back(n);
   for (auto& n : r.names)
      if (n != "cr") all.push_back(n);
   for (auto& n : t.names) (qn.count(n) ? ue : ve).push_back(t.edges[t.find(n)]);
   auto fu = ref::fuse(KIND, ue), fv = ref::fuse(KIND, ve);
   size_t sectors = 0;
   for (auto& x : fu.edge.segs)
      if (auto y = fv.edge.find(ref::neg(KIND, x.s))) {
         sectors++;
         auto a = qc.find(ref::neg(KIND, x.s)), b = rc.find(x.s);
         int k = std::min(x.dim, y->dim);
         require(a && b && a->dim == k && b->dim == k, "common edge has a wrong extent: " + ref::show(q) + " " + ref::show(r));
      }
   require(qc.segs.size() == sectors && rc.segs.size() == sectors, "common edge has a wrong number of sectors");
   double scale = std::max(1.0, std::sqrt(ref::norm2(t)));
   require(ref::orthonormality(q, "cq") < EPS * 10, "Q is not an isometry");
   auto want = ref::permute_names(t, all);
   auto qr = ref::embed(ref::contract(q, r, {{"cq", "cr"}}), want.edges);
   for (int i = 0; i < want.rank(); i++) {
      auto f = q.find(want.names[i]);
      auto& e = f >= 0 ? q.edges[f] : r.edges[r.find(want.names[i])];
      if (is_fermi_v) require(e.arrow == want.edges[i].arrow, "arrow of " + want.names[i] + " changed");
   }
   double err = 0;
   for (size_t i = 0; i < want.data.size(); i++) err = std::max(err, std::abs(qr.data[i] - want.data[i]));
   require(err <= EPS * scale, "Q R differs from the tensor by " + std::to_string(err));
   auto lib = Q.contract(R, NamePairs{{Name("cq"), Name("cr")}}).transpose(T.names);
   auto m = ref::compare(to_ref(lib), t, EPS);
   if (!m.empty()) fail("library product Q R: " + m);
   // triangular: entry with common position beyond the free position vanishes
   if (r.rank() == 2) {
      int c = r.find("cr"), f = 1 - c;
      ref::AxisSyms ax(r.edges);
      auto d = r.dims();
      ref::each(d, [&](const std::vector<int>& idx) {
         if (ax.pos[c][idx[c]] > ax.pos[f][idx[f]]) require(std::abs(r.data[ref::flat(d, idx)]) <= EPS * scale, "R is not triangular: " + ref::show(r, true));
      });
      src.label("triangular");
   }
   src.nontrivial = nonzeros(t) > 1 && !qn.empty() && qn.size() < t.names.size();
   if (sectors > 1) src.label("several sectors");
}
static ref::T gen_input(Src& src, size_t cap, int maxdim, int maxrank) {
   int rank = int(src.range(1, maxrank));
   Gen g;
   g.max_dim = maxdim;
   g.cap = cap;
   g.charge = src.coin(1, 3) ? 2 : 1;
   g.zero_per_mille = src.coin(1, 20) ? 120 : 0;
   auto t = gen_tensor(src, gen_names(src, rank), g);
   int style = int(src.draw(5));
   if (style <= 1) fill_real(t, src.draw(1 << 16), is_cplx);
   if (style == 3) fill(t, src.draw(1 << 16), is_cplx, 1);
   if (style == 4)
      for (size_t i = 0; i < t.data.size(); i++)
         if (pbt::mix(i, 7) % 4) t.data[i] = 0;
   return t;
}
PBT_TEST(qr_general, 30) {
   check_qr(src, gen_input(src, 160, 4, 5), 0);
}
PBT_TEST(qr_matrix, 10) {
   check_qr(src, gen_input(src, 160, 7, 2), 0);
}
PBT_TEST(qr_big, 1) {
   check_qr(src, gen_input(src, 2500, 24, 4), 0);
}
