// Minimal property-based testing engine with integrated (choice-tape) shrinking.
//
// A test case is a pure function of a *tape* of 64-bit choices.  In generation mode the
// choices come from a PRNG seeded by (VERIF_SEED, shard, test, case index); every choice is
// recorded.  Shrinking edits the tape (drop spans, zero, halve, decrement) and re-runs the
// test, so every generator shrinks for free and a replay file is just the tape.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {
   struct Discard {};
   struct Failure : std::runtime_error {
      using std::runtime_error::runtime_error;
   };

   struct Leak : std::runtime_error {
      using std::runtime_error::runtime_error;
   };
   inline void (*before_main)() = nullptr;
   inline long live_blocks = 0, live_bytes = 0; // maintained by the leak-checking build

   inline uint64_t splitmix(uint64_t& s) {
      uint64_t z = (s += 0x9e3779b97f4a7c15ull);
      z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
      z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
      return z ^ (z >> 31);
   }
   inline uint64_t mix(uint64_t a, uint64_t b) {
      uint64_t s = a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c15ull);
      splitmix(s);
      return splitmix(s);
   }
   inline uint64_t hash_str(const std::string& t) {
      uint64_t h = 1469598103934665603ull;
      for (unsigned char c : t) h = (h ^ c) * 1099511628211ull;
      return h;
   }

   // shared crash record: magic, test id, count, values...
   struct CrashArea {
      static constexpr size_t capacity = 1 << 16;
      uint64_t* base = nullptr;
      void open(const char* path) {
         int fd = ::open(path, O_RDWR | O_CREAT | O_TRUNC, 0644);
         if (fd < 0) return;
         size_t bytes = (capacity + 4) * 8;
         if (ftruncate(fd, bytes)) return;
         void* p = mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
         ::close(fd);
         if (p != MAP_FAILED) base = (uint64_t*)p;
      }
      void start(uint64_t test) {
         if (base) {
            base[1] = test;
            base[2] = 0;
            base[0] = 1;
         }
      }
      void push(uint64_t v) {
         if (base && base[2] < capacity) base[3 + base[2]++] = v;
      }
      void stop() {
         if (base) base[0] = 0;
      }
   };
   inline CrashArea crash_area;

   // One generated case.
   class Src {
      bool replaying;
      const std::vector<uint64_t>* tape = nullptr;
      size_t pos = 0;
      uint64_t state = 0;

   public:
      std::vector<uint64_t> rec;
      bool nontrivial = false;
      std::vector<std::string> labels;
      std::vector<std::string> known;
      std::string text;

      explicit Src(uint64_t seed) : replaying(false), state(seed) {}
      explicit Src(const std::vector<uint64_t>& t) : replaying(true), tape(&t) {}

      // uniform in [0, n)
      uint64_t draw(uint64_t n) {
         if (n <= 1) n = 1;
         uint64_t v;
         if (replaying) {
            v = pos < tape->size() ? (*tape)[pos] : 0;
            pos++;
            if (v >= n) v %= n;
         } else {
            v = splitmix(state) % n;
         }
         rec.push_back(v);
         crash_area.push(v);
         return v;
      }
      long range(long lo, long hi) { // inclusive, shrinks to lo
         return lo + long(draw(uint64_t(hi - lo + 1)));
      }
      // shrinks to false; true with probability num/den
      bool coin(int num = 1, int den = 2) {
         return long(draw(den)) >= den - num;
      }
      // weighted choice; index 0 is simplest
      size_t weighted(const std::vector<int>& w) {
         long total = 0;
         for (int x : w) total += x;
         long v = draw(total);
         for (size_t i = 0; i < w.size(); i++) {
            if (v < w[i]) return i;
            v -= w[i];
         }
         return w.size() - 1;
      }
      template<typename T>
      const T& pick(const std::vector<T>& v) {
         return v[draw(v.size())];
      }
      // permutation; zero tape = identity
      std::vector<int> permutation(int n) {
         std::vector<int> pool(n), out;
         for (int i = 0; i < n; i++) pool[i] = i;
         while (!pool.empty()) {
            size_t k = draw(pool.size());
            out.push_back(pool[k]);
            pool.erase(pool.begin() + k);
         }
         return out;
      }
      void label(const std::string& s) {
         labels.push_back(s);
      }
      void note(const std::string& s) {
         if (text.size() < 4000) text += s;
      }
      void known_finding(const std::string& id) {
         known.push_back(id);
      }
   };

   inline void fail(const std::string& m) {
      throw Failure(m);
   }
   inline void require(bool c, const std::string& m) {
      if (!c) throw Failure(m);
   }

   struct Test {
      std::string name;
      int weight;
      std::function<void(Src&)> body;
   };
   inline std::vector<Test>& tests() {
      static std::vector<Test> t;
      return t;
   }
   struct Registrar {
      Registrar(const std::string& name, int weight, std::function<void(Src&)> body) {
         tests().push_back({name, weight, std::move(body)});
      }
   };
#ifndef PBT_PREFIX
#define PBT_PREFIX ""
#endif
#define PBT_CAT_(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT_(a, b)
#define PBT_TEST(NAME, WEIGHT)                                                          \
   static void PBT_CAT(pbt_test_, NAME)(pbt::Src & src);                                \
   static pbt::Registrar PBT_CAT(pbt_reg_, NAME)(PBT_PREFIX #NAME, WEIGHT, PBT_CAT(pbt_test_, NAME)); \
   static void PBT_CAT(pbt_test_, NAME)(pbt::Src & src)

   enum class Status { pass, fail, discard };
   struct Outcome {
      Status status = Status::pass;
      std::string message;
   };
   inline Outcome run_once(const Test& t, Src& s) {
      Outcome o;
      try {
         t.body(s);
      } catch (const Discard&) {
         o.status = Status::discard;
#ifdef PBT_ONLY_CRASHES
         // Wrong results are decided by other checks; this build looks for memory errors only.
      } catch (const Leak& f) {
         o.status = Status::fail;
         o.message = f.what();
      } catch (...) {
         s.label("ended by an exception");
#else
      } catch (const Failure& f) {
         o.status = Status::fail;
         o.message = f.what();
      } catch (const std::exception& e) {
         o.status = Status::fail;
         o.message = std::string("unexpected exception: ") + e.what();
      } catch (...) {
         o.status = Status::fail;
         o.message = "unexpected exception of unknown type";
#endif
      }
#ifdef PBT_ONLY_CRASHES
      s.known.clear();
#endif
      return o;
   }

   inline std::string json_escape(const std::string& s) {
      std::string r = "\"";
      for (unsigned char c : s) {
         if (c == '"' || c == '\\') {
            r += '\\';
            r += c;
         } else if (c == '\n') {
            r += "\\n";
         } else if (c < 32 || c >= 127) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
         } else
            r += c;
      }
      return r + "\"";
   }
   inline std::string json_tape(const std::vector<uint64_t>& t) {
      std::string r = "[";
      for (size_t i = 0; i < t.size(); i++) r += (i ? "," : "") + std::to_string(t[i]);
      return r + "]";
   }

   inline std::vector<uint64_t> shrink(const Test& t, std::vector<uint64_t> best, std::string& message, std::string& text, int budget = 1500) {
      auto attempt = [&](const std::vector<uint64_t>& cand) {
         if (budget-- <= 0) return false;
         Src s(cand);
         auto o = run_once(t, s);
         if (o.status != Status::fail) return false;
         // canonicalise to the choices really used
         auto used = s.rec;
         bool better = used.size() < best.size() || (used.size() == best.size() && used < best);
         if (!better) return false;
         best = used;
         message = o.message;
         text = s.text;
         return true;
      };
      bool progress = true;
      while (progress && budget > 0) {
         progress = false;
         for (size_t span : {size_t(32), size_t(16), size_t(8), size_t(4), size_t(2), size_t(1)}) {
            for (size_t i = best.size(); i-- > 0 && budget > 0;) {
               if (i + span > best.size()) continue;
               auto c = best;
               c.erase(c.begin() + i, c.begin() + i + span);
               if (attempt(c)) {
                  progress = true;
                  if (i > best.size()) i = best.size();
               }
            }
         }
         for (size_t i = 0; i < best.size() && budget > 0; i++) {
            if (best[i] == 0) continue;
            for (uint64_t v : {uint64_t(0), uint64_t(1), best[i] / 2, best[i] - 1}) {
               if (i >= best.size() || v >= best[i]) continue;
               auto c = best;
               c[i] = v;
               if (attempt(c)) {
                  progress = true;
                  break;
               }
            }
         }
      }
      return best;
   }

   inline void on_timeout(int) {
      const char m[] = "PBT-TIMEOUT: a single case exceeded its CPU budget\n";
      [[maybe_unused]] auto r = write(2, m, sizeof m - 1);
      _exit(97);
   }
   inline void arm(int seconds) {
      itimerval v{};
      v.it_value.tv_sec = seconds;
      setitimer(ITIMER_VIRTUAL, &v, nullptr);
      alarm(seconds * 4); // also when it waits instead of computing
   }

   inline std::vector<uint64_t> read_tape(const std::string& path) {
      std::vector<uint64_t> t;
      FILE* f = fopen(path.c_str(), "r");
      if (!f) {
         fprintf(stderr, "cannot open tape %s\n", path.c_str());
         exit(3);
      }
      unsigned long long v;
      while (fscanf(f, "%llu", &v) == 1) t.push_back(v);
      fclose(f);
      return t;
   }

   inline int main(int argc, char** argv) {
      uint64_t seed = 1;
      long cases = 1000;
      int shard = 0;
      int case_cpu = 120;
      std::string out, crash, replay_test, replay_tape, only;
      for (int i = 1; i + 1 < argc; i += 2) {
         std::string k = argv[i], v = argv[i + 1];
         if (k == "--seed") seed = strtoull(v.c_str(), 0, 10);
         else if (k == "--cases") cases = atol(v.c_str());
         else if (k == "--shard") shard = atoi(v.c_str());
         else if (k == "--out") out = v;
         else if (k == "--crash") crash = v;
         else if (k == "--test") replay_test = v;
         else if (k == "--tape") replay_tape = v;
         else if (k == "--only") only = v;
         else if (k == "--case-cpu") case_cpu = atoi(v.c_str());
         else if (k == "--list") {
            for (auto& t : tests()) printf("TEST %s\n", t.name.c_str());
            return 0;
         }
      }
      signal(SIGVTALRM, on_timeout);
      auto previous_alarm = signal(SIGALRM, on_timeout);
      if (previous_alarm != SIG_DFL) signal(SIGALRM, previous_alarm);
#ifndef __SANITIZE_ADDRESS__
      for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) signal(s, SIG_DFL); // the handlers of the MPI runtime can hang
#endif
      if (!replay_tape.empty()) {
         for (auto& t : tests())
            if (t.name == replay_test) {
               auto tape = read_tape(replay_tape);
               Src s(tape);
               arm(case_cpu);
               auto o = run_once(t, s);
               if (o.status == Status::fail) {
                  printf("REPLAY-FAIL %s: %s\n%s\n", t.name.c_str(), o.message.c_str(), s.text.c_str());
                  return 1;
               }
               printf("REPLAY-%s\n%s\n", o.status == Status::pass ? "PASS" : "DISCARD", s.text.c_str());
               for (auto& k : s.known) printf("KNOWN %s\n", k.c_str());
               return 0;
            }
         fprintf(stderr, "no such test\n");
         return 3;
      }
      if (!crash.empty()) crash_area.open(crash.c_str());
      long total_weight = 0;
      for (auto& t : tests())
         if (only.empty() || only == t.name) total_weight += t.weight;
      std::ostringstream js;
      js << "{";
      long evaluations = 0, discards = 0, nontrivial_total = 0;
      std::unordered_set<uint64_t> distinct;
      std::vector<std::string> samples;
      std::map<std::string, long> label_count, per_test;
      std::map<std::string, std::pair<long, std::string>> known;
      std::string failure;
      for (size_t ti = 0; ti < tests().size() && failure.empty(); ti++) {
         auto& t = tests()[ti];
         if (!only.empty() && only != t.name) continue;
         long n = std::max(1l, cases * t.weight / total_weight);
         int sampled = 0;
         for (long c = 0; c < n; c++) {
            Src s(mix(mix(seed, hash_str(t.name)), uint64_t(shard) * 1000003ull + c));
            crash_area.start(ti);
            arm(case_cpu);
            auto o = run_once(t, s);
            crash_area.stop();
            evaluations++;
            per_test[t.name]++;
            if (o.status == Status::discard) {
               discards++;
               continue;
            }
            if (o.status == Status::fail) {
               arm(0);
               std::string msg = o.message, text = s.text;
               // reproducible?
               int again = 0;
               for (int r = 0; r < 3; r++) {
                  Src s2(s.rec);
                  again += run_once(t, s2).status == Status::fail;
               }
               auto tape = s.rec;
               if (again == 3) tape = shrink(t, tape, msg, text);
               std::ostringstream f;
               f << "{\"test\":" << json_escape(t.name) << ",\"tape\":" << json_tape(tape) << ",\"message\":" << json_escape(msg)
                 << ",\"text\":" << json_escape(text) << ",\"reproduced\":" << again << ",\"case\":" << c << "}";
               failure = f.str();
               break;
            }
            for (auto& l : s.labels) label_count[t.name + ":" + l]++;
            for (auto& k : s.known) {
               auto& e = known[k];
               if (!e.first++) e.second = "{\"test\":" + json_escape(t.name) + ",\"tape\":" + json_tape(s.rec) + ",\"text\":" + json_escape(s.text) + "}";
            }
            if (s.nontrivial) {
               nontrivial_total++;
               uint64_t h = hash_str(t.name);
               for (auto v : s.rec) h = mix(h, v);
               distinct.insert(h);
               if (sampled < 2 && c >= n / 3) {
                  sampled++;
                  samples.push_back(t.name + ": " + (s.text.size() > 300 ? s.text.substr(0, 300) + "..." : s.text));
               }
            }
         }
         arm(0);
      }
      js << "\"evaluations\":" << evaluations << ",\"discards\":" << discards << ",\"nontrivial\":" << nontrivial_total
         << ",\"distinct_nontrivial\":" << distinct.size() << ",\"failure\":" << (failure.empty() ? "null" : failure);
      js << ",\"samples\":[";
      for (size_t i = 0; i < samples.size(); i++) js << (i ? "," : "") << json_escape(samples[i]);
      js << "],\"labels\":{";
      bool first = true;
      for (auto& [k, v] : label_count) {
         js << (first ? "" : ",") << json_escape(k) << ":" << v;
         first = false;
      }
      js << "},\"per_test\":{";
      first = true;
      for (auto& [k, v] : per_test) {
         js << (first ? "" : ",") << json_escape(k) << ":" << v;
         first = false;
      }
      js << "},\"known\":{";
      first = true;
      for (auto& [k, v] : known) {
         js << (first ? "" : ",") << json_escape(k) << ":{\"count\":" << v.first << ",\"first\":" << v.second << "}";
         first = false;
      }
      js << "}}";
      if (out.empty()) {
         printf("%s\n", js.str().c_str());
      } else {
         FILE* f = fopen(out.c_str(), "w");
         fputs(js.str().c_str(), f);
         fclose(f);
      }
      return failure.empty() ? 0 : 1;
   }
} // namespace pbt

#ifndef PBT_NO_MAIN
#ifdef PBT_FUZZ
// Coverage-guided mode: first byte selects the test, the rest is the tape.
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
   if (size < 2) return 0;
   auto& t = pbt::tests()[data[0] % pbt::tests().size()];
   std::vector<uint64_t> tape;
   for (size_t i = 1; i + 1 < size; i += 2) tape.push_back(data[i] | (uint64_t(data[i + 1]) << 8));
   pbt::Src s(tape);
   auto o = pbt::run_once(t, s);
   if (o.status == pbt::Status::fail) {
      if (const char* p = getenv("PBT_FUZZ_OUT")) {
         FILE* f = fopen(p, "w");
         std::string j = "{\"test\":" + pbt::json_escape(t.name) + ",\"tape\":" + pbt::json_tape(s.rec) + ",\"message\":" + pbt::json_escape(o.message) +
                         ",\"text\":" + pbt::json_escape(s.text) + "}";
         fputs(j.c_str(), f);
         fclose(f);
      }
      fprintf(stderr, "FUZZ-FAIL %s: %s\n", t.name.c_str(), o.message.c_str());
      abort();
   }
   return 0;
}
#else
int main(int argc, char** argv) {
   if (pbt::before_main) pbt::before_main();
   return pbt::main(argc, argv);
}
#endif
#endif
