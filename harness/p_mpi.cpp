// Message passing: every rank runs the same generated script; failures are agreed on collectively so that shrinking stays in step.
#define PBT_NO_MAIN
#include "bridge.hpp"

#include <mpi.h>
#include <atomic>

static int R() { return TAT::mpi.rank; }
static int N() { return TAT::mpi.size; }
static std::atomic<long>* shared_counter = nullptr;
static long expected_counter = 0;

template<typename F>
static void collectively(F&& body) {
   std::string msg;
   alarm(40);
   try {
      body();
   } catch (const std::exception& e) {
      msg = std::string(e.what()) + " [on rank " + std::to_string(R()) + "]";
   }
   int mine = msg.empty() ? N() : R(), first = N();
   MPI_Allreduce(&mine, &first, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
   if (first < N()) {
      int len = int(msg.size());
      MPI_Bcast(&len, 1, MPI_INT, first, MPI_COMM_WORLD);
      msg.resize(len);
      MPI_Bcast(msg.data(), len, MPI_CHAR, first, MPI_COMM_WORLD);
      alarm(0);
      fail(msg);
   }
   alarm(0);
}
static ref::T gen_any(Src& src) {
   Gen g;
   g.cap = 200;
   g.zero_per_mille = src.coin(1, 8) ? 150 : 0;
   return gen_tensor(src, gen_names(src, int(src.range(0, 4))), g);
}
// one tensor per rank
static std::vector<ref::T> gen_all(Src& src) {
   std::vector<ref::T> v;
   for (int i = 0; i < N(); i++) v.push_back(gen_any(src));
   return v;
}
static ref::T maybe_big(Src& src) {
   if (!src.coin(1, 25)) return gen_any(src);
   return gen_large(src, gen_names(src, int(src.range(1, 3))));
}
PBT_TEST(broadcast, 30) {
   auto v = gen_all(src);
   int root = int(src.draw(N()));
   v[root] = maybe_big(src);
   bool method = src.coin();
   src.note("broadcast from " + std::to_string(root) + " of " + std::to_string(N()) + " " + ref::show(v[root]));
   collectively([&] {
      auto t = to_tat(v[R()]);
      auto r = method ? t.broadcast(root) : TAT::mpi.broadcast(t, root);
      same(r, v[root], "broadcast result");
      unchanged(t, v[R()]);
      r.set([] { return Scalar(7); });
      unchanged(t, v[R()]);
   });
   src.nontrivial = N() > 1 && nonzeros(v[root]) > 1;
   src.label("root " + std::to_string(root));
}
PBT_TEST(reduce, 30) {
   auto base = src.coin(1, 10) ? maybe_big(src) : gen_any(src);
   std::vector<ref::T> v(N(), base);
   for (int i = 0; i < N(); i++) fill(v[i], 1 + src.draw(1 << 16), is_cplx);
   int root = int(src.draw(N()));
   bool method = src.coin();
   src.note("reduce to " + std::to_string(root) + " of " + std::to_string(N()) + " " + ref::show(base));
   collectively([&] {
      auto t = to_tat(v[R()]);
      auto f = [](const Tensor& a, const Tensor& b) { return a + b; };
      auto r = method ? t.reduce(root, f) : TAT::mpi.reduce(t, root, f);
      unchanged(t, v[R()]);
      if (R() == root) {
         auto want = v[0];
         for (int i = 1; i < N(); i++)
            for (size_t k = 0; k < want.data.size(); k++) want.data[k] += v[i].data[k];
         same(r, want, "reduced sum at the root");
      }
   });
   src.nontrivial = N() > 1 && nonzeros(base) > 1;
   src.label("root " + std::to_string(root));
}
// values of other types; every rank contributes exactly once
PBT_TEST(reduce_other, 20) {
   int root = int(src.draw(N()));
   std::vector<long> v;
   for (int i = 0; i < N(); i++) v.push_back(src.range(-1000, 1000));
   src.note("reduce lists to " + std::to_string(root));
   collectively([&] {
      auto r = TAT::mpi.reduce(std::vector<long>{v[R()] * 100 + R()}, root, [](std::vector<long> a, const std::vector<long>& b) {
         a.insert(a.end(), b.begin(), b.end());
         return a;
      });
      if (R() == root) {
         std::multiset<long> want, got(r.begin(), r.end());
         for (int i = 0; i < N(); i++) want.insert(v[i] * 100 + i);
         require(want == got, "the root did not combine every rank's value exactly once");
      }
      long m = TAT::mpi.reduce(v[R()], root, [](long a, long b) { return std::max(a, b); });
      if (R() == root) require(m == *std::max_element(v.begin(), v.end()), "reduced maximum is wrong");
      std::string s = TAT::mpi.broadcast("s" + std::to_string(v[R()]), root);
      require(s == "s" + std::to_string(v[root]), "broadcast string is wrong");
      auto c = TAT::mpi.broadcast(std::complex<double>(v[R()], R()), root);
      require(c == std::complex<double>(v[root], root), "broadcast number is wrong");
   });
   src.nontrivial = N() > 1;
}
// a random schedule of point to point messages; per pair first in first out
PBT_TEST(messages, 40) {
   if (N() == 1) {
      src.note("single rank");
      return;
   }
   int n = int(src.range(1, 6));
   struct Msg {
      int from, to, how;
      ref::T t;
   };
   std::vector<Msg> m;
   std::string log;
   for (int i = 0; i < n; i++) {
      Msg x;
      x.from = int(src.draw(N()));
      x.to = int(src.draw(N() - 1));
      if (x.to >= x.from) x.to++;
      x.how = int(src.draw(3));
      x.t = maybe_big(src);
      log += " " + std::to_string(x.from) + ">" + std::to_string(x.to) + ref::show(x.t);
      m.push_back(std::move(x));
   }
   src.note("messages" + log);
   collectively([&] {
      for (auto& x : m) {
         if (x.how == 0) {
            auto t = to_tat(R() == x.from ? x.t : ref::make(KIND, {}, {}));
            auto r = src.rec.size() % 2 ? t.send_receive(x.from, x.to) : TAT::mpi.send_receive(t, x.from, x.to);
            if (R() == x.to) same(r, x.t, "send_receive");
            if (R() == x.from) unchanged(t, x.t);
         } else if (x.how == 1) {
            if (R() == x.from) TAT::mpi.send(to_tat(x.t), x.to);
            if (R() == x.to) same(TAT::mpi.receive<Tensor>(x.from), x.t, "receive");
         } else {
            if (R() == x.from) to_tat(x.t).send(x.to);
            if (R() == x.to) same(Tensor::receive(x.from), x.t, "receive");
         }
      }
   });
   src.nontrivial = n > 1;
}
// several messages under way at once from different sources, collected in an order the receiver chooses
PBT_TEST(gather_any_order, 15) {
   if (N() < 3) {
      src.note("too few ranks");
      return;
   }
   int to = int(src.draw(N()));
   auto order = src.permutation(N());
   int rounds = int(src.range(1, 3));
   std::vector<std::vector<ref::T>> v;
   for (int k = 0; k < rounds; k++) {
      v.push_back(gen_all(src));
   }
   src.note("gather at " + std::to_string(to));
   collectively([&] {
      if (R() != to) {
         for (int k = 0; k < rounds; k++) TAT::mpi.send(to_tat(v[k][R()]), to);
      } else {
         for (int i : order)
            if (i != to)
               for (int k = 0; k < rounds; k++) same(TAT::mpi.receive<Tensor>(i), v[k][i], "message " + std::to_string(k) + " from " + std::to_string(i));
      }
   });
   src.nontrivial = true;
}
// plain string names need no shared table
PBT_TEST(string_names, 10) {
   using STensor = TAT::Tensor<Scalar, Symmetry, std::string>;
   auto v = gen_all(src);
   int root = int(src.draw(N()));
   src.note("broadcast with string names from " + std::to_string(root) + ref::show(v[root]));
   collectively([&] {
      auto r = TAT::mpi.broadcast(to_tat<STensor>(v[R()]), root);
      auto m = ref::compare(to_ref(r), v[root]);
      require(m.empty(), "broadcast with string names: " + m);
   });
   src.nontrivial = N() > 1 && nonzeros(v[root]) > 1;
}
PBT_TEST(barrier, 15) {
   std::vector<int> delay;
   int k = int(src.range(1, 4));
   for (int i = 0; i < N() * k; i++) delay.push_back(src.coin(1, 3) ? int(src.draw(300)) : 0);
   bool method = src.coin();
   src.note("barrier x" + std::to_string(k));
   collectively([&] {
      // agree on the starting value first
      MPI_Barrier(MPI_COMM_WORLD);
      long start = shared_counter->load();
      MPI_Barrier(MPI_COMM_WORLD);
      for (int r = 0; r < k; r++) {
         if (int d = delay[r * N() + R()]) usleep(d);
         shared_counter->fetch_add(1);
         if (method) TAT::mpi.barrier();
         else Tensor::barrier();
         long seen = shared_counter->load();
         require(seen >= start + long(N()) * (r + 1), "a rank left the barrier before all had entered it");
      }
   });
   src.nontrivial = N() > 1;
}
PBT_TEST(output, 10) {
   int who = int(src.draw(N()));
   long x = src.range(0, 1000);
   src.note("output on " + std::to_string(who));
   collectively([&] {
      std::ostringstream s, l, e;
      auto *o1 = std::cout.rdbuf(s.rdbuf()), *o2 = std::clog.rdbuf(l.rdbuf()), *o3 = std::cerr.rdbuf(e.rdbuf());
      TAT::mpi.out_one(who) << "a" << x << "b";
      TAT::mpi.log_one(who) << "l" << x;
      TAT::mpi.err_one(who) << "e" << x;
      std::string one = s.str(), lone = l.str(), eone = e.str();
      TAT::mpi.out_rank() << "c" << x;
      TAT::mpi.log_rank() << "m" << x;
      std::cout.rdbuf(o1);
      std::clog.rdbuf(o2);
      std::cerr.rdbuf(o3);
      auto v = std::to_string(x);
      require(one == (R() == who ? "a" + v + "b" : ""), "out_one wrote '" + one + "'");
      require(lone == (R() == who ? "l" + v : ""), "log_one wrote '" + lone + "'");
      require(eone == (R() == who ? "e" + v : ""), "err_one wrote '" + eone + "'");
      std::string prefix = N() == 1 ? "" : "[rank " + std::to_string(R()) + "] ";
      require(s.str() == one + prefix + "c" + v, "out_rank wrote '" + s.str() + "'");
      require(l.str() == lone + prefix + "m" + v, "log_rank wrote '" + l.str() + "'");
   });
   src.nontrivial = N() > 1;
}
PBT_TEST(invalid_root, 5) {
   if (N() == 1) {
      src.note("single rank");
      return;
   }
   int root = src.coin() ? -1 - int(src.draw(3)) : N() + int(src.draw(3));
   src.note("root " + std::to_string(root));
   collectively([&] {
      require(raises([&] { TAT::mpi.broadcast(Tensor(1), root); }), "broadcast accepted root " + std::to_string(root));
      require(raises([&] { TAT::mpi.reduce(Tensor(1), root, [](const Tensor& a, const Tensor& b) { return a + b; }); }), "reduce accepted root " + std::to_string(root));
   });
   src.nontrivial = true;
}
static void on_alarm(int) {
   const char m[] = "PBT-TIMEOUT: ranks are stuck waiting for each other\n";
   [[maybe_unused]] auto r = write(2, m, sizeof m - 1);
   _exit(97);
}
int main(int argc, char** argv) {
   int size, rank;
   MPI_Comm_size(MPI_COMM_WORLD, &size);
   MPI_Comm_rank(MPI_COMM_WORLD, &rank);
   if (size != TAT::mpi.size || rank != TAT::mpi.rank) {
      fprintf(stderr, "mpi_t reports rank %d of %d instead of %d of %d\n", TAT::mpi.rank, TAT::mpi.size, rank, size);
      return 5;
   }
   signal(SIGALRM, on_alarm);
   // shared memory of all ranks (they run on one machine)
   MPI_Win win;
   void* base = nullptr;
   MPI_Comm node;
   MPI_Comm_split_type(MPI_COMM_WORLD, MPI_COMM_TYPE_SHARED, 0, MPI_INFO_NULL, &node);
   MPI_Win_allocate_shared(rank == 0 ? 64 : 0, 1, MPI_INFO_NULL, node, &base, &win);
   MPI_Aint bytes;
   int unit;
   MPI_Win_shared_query(win, 0, &bytes, &unit, &base);
   shared_counter = (std::atomic<long>*)base;
   if (rank == 0) new (shared_counter) std::atomic<long>(0);
   MPI_Barrier(MPI_COMM_WORLD);
   for (auto& n : name_pool()) (void)Name(n); // interned names travel as table positions, so all ranks share one table
   std::vector<char*> a(argv, argv + argc);
   static char null[] = "/dev/null";
   static char none[] = "--ignored";
   if (rank) {
      if (!freopen("/dev/null", "w", stdout)) return 6;
      for (int i = 1; i + 1 < argc; i += 2) {
         if (!strcmp(a[i], "--out")) a[i + 1] = null;
         if (!strcmp(a[i], "--crash")) a[i] = none;
      }
   }
   int rc = pbt::main(argc, a.data());
   alarm(40);
   MPI_Win_free(&win);
   return rc;
}
