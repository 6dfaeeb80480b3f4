// Message passing through the Python module: every rank runs an embedded interpreter with the same generated script.
#define PBT_NO_MAIN
#include "pybridge.hpp"

#include <mpi.h>
#include <signal.h>

static int rank_ = 0, size_ = 1;
static int R() { return rank_; }
static int N() { return size_; }
static py::object M() { return P->tat.attr("mpi"); }

template<typename F>
static void collectively(F&& body) {
   std::string msg;
   alarm(40);
   try {
      body();
   } catch (const std::exception& e) {
      msg = std::string(e.what()) + " [on rank " + std::to_string(R()) + "]";
   }
   int mine = msg.empty() ? N() : R(), first = N();
   MPI_Allreduce(&mine, &first, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
   if (first < N()) {
      int len = int(msg.size());
      MPI_Bcast(&len, 1, MPI_INT, first, MPI_COMM_WORLD);
      msg.resize(len);
      MPI_Bcast(msg.data(), len, MPI_CHAR, first, MPI_COMM_WORLD);
      alarm(0);
      fail(msg);
   }
   alarm(0);
}
static ref::T gen_any(Src& src) {
   Gen g;
   g.cap = 200;
   g.zero_per_mille = src.coin(1, 8) ? 150 : 0;
   return gen_tensor(src, gen_names(src, int(src.range(0, 4))), g);
}
static std::vector<ref::T> gen_all(Src& src) {
   std::vector<ref::T> v;
   for (int i = 0; i < N(); i++) v.push_back(gen_any(src));
   return v;
}
PBT_TEST(broadcast, 30) {
   pick_scalar(src);
   auto v = gen_all(src);
   int root = int(src.draw(N()));
   src.note("broadcast from " + std::to_string(root) + " of " + std::to_string(N()) + " " + ref::show(v[root]));
   collectively([&] {
      auto t = to_py(v[R()]);
      auto r = M().attr("broadcast")(t, root);
      require(py::type::of(r).is(cls()), "broadcast gives another type");
      same(r, v[root], "broadcast result");
      unchanged(t, v[R()]);
      r.attr("zero")();
      unchanged(t, v[R()]);
   });
   src.nontrivial = N() > 1 && nonzeros(v[root]) > 1;
   src.label("root " + std::to_string(root));
}
PBT_TEST(reduce, 30) {
   pick_scalar(src);
   auto base = gen_any(src);
   std::vector<ref::T> v(N(), base);
   for (int i = 0; i < N(); i++) fill(v[i], 1 + src.draw(1 << 16), is_cplx);
   int root = int(src.draw(N()));
   int how = int(src.draw(3));
   src.note("reduce, way " + std::to_string(how) + ", to " + std::to_string(root) + " of " + std::to_string(N()) + " " + ref::show(base));
   collectively([&] {
      auto t = to_py(v[R()]);
      py::object r;
      if (how == 0) r = M().attr("summary")(t, root);
      else if (how == 1) r = M().attr("reduce")(t, root, py::module_::import("operator").attr("add"));
      else r = M().attr("reduce")(t, root, py::cpp_function([](py::object a, py::object b) { return a.attr("__add__")(b); }));
      unchanged(t, v[R()]);
      if (R() == root) {
         auto want = v[0];
         for (int i = 1; i < N(); i++)
            for (size_t k = 0; k < want.data.size(); k++) want.data[k] += v[i].data[k];
         same(r, want, "reduced sum at the root");
      }
   });
   src.nontrivial = N() > 1 && nonzeros(base) > 1;
   src.label("root " + std::to_string(root));
}
PBT_TEST(messages, 40) {
   if (N() == 1) {
      src.note("single rank");
      return;
   }
   int n = int(src.range(1, 5));
   struct Msg {
      int from, to, how, type;
      ref::T t;
   };
   std::vector<Msg> m;
   std::string log;
   for (int i = 0; i < n; i++) {
      pick_scalar(src);
      Msg x;
      x.type = scalar_type;
      x.from = int(src.draw(N()));
      x.to = int(src.draw(N() - 1));
      if (x.to >= x.from) x.to++;
      x.how = int(src.draw(1));
      x.t = gen_any(src);
      log += " " + std::to_string(x.from) + ">" + std::to_string(x.to) + ref::show(x.t);
      m.push_back(std::move(x));
   }
   src.note("messages" + log);
   collectively([&] {
      for (auto& x : m) {
         set_scalar(x.type);
         auto t = to_py(R() == x.from ? x.t : ref::make(KIND, {}, {}));
         auto r = M().attr("send_receive")(t, x.from, x.to);
         if (R() == x.to) same(r, x.t, "send_receive");
         if (R() == x.from) unchanged(t, x.t);
      }
   });
   src.nontrivial = n > 1;
}
PBT_TEST(information, 5) {
   int k = int(src.range(1, 3));
   src.note("rank, size and print");
   collectively([&] {
      require(py::cast<int>(M().attr("rank")) == R() && py::cast<int>(M().attr("size")) == N(), "rank or size");
      require(py::cast<bool>(M().attr("enabled")), "not enabled");
      auto io = py::module_::import("io"), sys = py::module_::import("sys");
      auto buf = io.attr("StringIO")();
      auto old = sys.attr("stdout");
      sys.attr("stdout") = buf;
      for (int i = 0; i < k; i++) M().attr("print")("a", i, py::arg("sep") = "-", py::arg("end") = ";");
      sys.attr("stdout") = old;
      std::string want;
      if (R() == 0)
         for (int i = 0; i < k; i++) want += "a-" + std::to_string(i) + ";";
      require(py::cast<std::string>(buf.attr("getvalue")()) == want, "print wrote " + py::cast<std::string>(buf.attr("getvalue")()));
      M().attr("barrier")();
      require(P->tat("mpi").is(M()), "TAT('mpi') is not the communicator");
   });
   src.nontrivial = N() > 1;
}
static void on_alarm(int) {
   const char m[] = "PBT-TIMEOUT: ranks are stuck waiting for each other\n";
   [[maybe_unused]] auto r = write(2, m, sizeof m - 1);
   _exit(97);
}
int main(int argc, char** argv) {
   python_start();
   MPI_Comm_size(MPI_COMM_WORLD, &size_);
   MPI_Comm_rank(MPI_COMM_WORLD, &rank_);
   signal(SIGALRM, on_alarm);
   for (auto& n : name_pool()) (void)P->Name(n); // interned names travel as table positions, so all ranks share one table
   std::vector<char*> a(argv, argv + argc);
   static char null[] = "/dev/null";
   static char none[] = "--ignored";
   if (rank_) {
      if (!freopen("/dev/null", "w", stdout)) return 6;
      for (int i = 1; i + 1 < argc; i += 2) {
         if (!strcmp(a[i], "--out")) a[i + 1] = null;
         if (!strcmp(a[i], "--crash")) a[i] = none;
      }
   }
   int rc = pbt::main(argc, a.data());
   alarm(40);
   return rc;
}
