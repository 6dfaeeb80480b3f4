// Scratch memory: nested scopes hand out aligned, disjoint, stable memory and always restore the previous resource.
#include <TAT/TAT.hpp>
#include "pbt.hpp"
using pbt::require;
using pbt::Src;
namespace pmr = TAT::pmr;

struct Block {
   unsigned char* p;
   size_t n, align;
   unsigned char fill;
   pmr::memory_resource* owner;
};
static bool intact(const Block& b) {
   for (size_t i = 0; i < b.n; i++)
      if (b.p[i] != b.fill) return false;
   return true;
}
template<typename Scope>
static void level(Src& src, std::vector<Block>& live, int depth, int& steps);
static void steps_here(Src& src, std::vector<Block>& live, int depth, int& steps, bool& thrown) {
   auto* mine = pmr::get_default_resource();
   while (steps > 0) {
      steps--;
      int op = int(src.weighted({10, 3, 2, 2, 1, 1}));
      require(pmr::get_default_resource() == mine, "default resource changed behind the caller's back");
      if (op == 0 || op == 5) {
         size_t n = src.coin(1, 6) ? src.draw(70000) : src.coin(1, 3) ? src.draw(3000) : src.draw(64);
         size_t a = size_t(1) << src.draw(5);
         auto* p = (unsigned char*)mine->allocate(n, a);
         require(p != nullptr, "null pointer");
         require(size_t(p) % a == 0, "misaligned memory for alignment " + std::to_string(a));
         for (auto& b : live) require(n == 0 || b.n == 0 || p + n <= b.p || b.p + b.n <= p, "memory handed out twice");
         Block b{p, n, a, (unsigned char)(1 + src.draw(255)), mine};
         std::memset(p, b.fill, n);
         live.push_back(b);
      } else if (op == 1) {
         int k = int(src.draw(3));
         if (k == 0) level<TAT::scope_resource<>>(src, live, depth + 1, steps);
         else if (k == 1) level<TAT::scope_resource<64>>(src, live, depth + 1, steps);
         else level<TAT::scope_resource<1024>>(src, live, depth + 1, steps);
      } else if (op == 2) {
         if (depth) return;
      } else if (op == 3 && !live.empty()) {
         auto i = src.draw(live.size());
         require(intact(live[i]), "contents changed before release");
         live[i].owner->deallocate(live[i].p, live[i].n, live[i].align);
         live.erase(live.begin() + i);
      } else if (op == 4) {
         if (depth) {
            thrown = true;
            throw 17;
         }
      }
      for (auto& b : live) require(intact(b), "contents of a live allocation changed");
   }
}
template<typename Scope>
static void level(Src& src, std::vector<Block>& live, int depth, int& steps) {
   auto* before = pmr::get_default_resource();
   bool thrown = false;
   if (depth < 6) {
      try {
         auto scope = Scope();
         auto* now = pmr::get_default_resource();
         require(now != before, "a scope does not install its own resource");
         try {
            steps_here(src, live, depth, steps, thrown);
         } catch (...) {
            for (size_t i = live.size(); i-- > 0;)
               if (live[i].owner == now) live.erase(live.begin() + i);
            throw;
         }
         for (size_t i = live.size(); i-- > 0;)
            if (live[i].owner == now) live.erase(live.begin() + i);
      } catch (int) {
         require(thrown, "unexpected exception");
      }
   }
   require(pmr::get_default_resource() == before, "the previous resource is not restored at the end of a scope");
   for (auto& b : live) require(intact(b), "contents of an outer allocation changed");
}
PBT_TEST(nested_scopes, 30) {
   std::vector<Block> live;
   int steps = int(src.range(1, 40));
   src.note("scope history of " + std::to_string(steps) + " steps");
   auto* base = pmr::get_default_resource();
   bool thrown = false;
   int total = steps;
   steps_here(src, live, 0, steps, thrown);
   require(pmr::get_default_resource() == base, "the default resource is not restored");
   for (auto& b : live) b.owner->deallocate(b.p, b.n, b.align);
   src.nontrivial = total > 3;
}
// one arena used directly, with releases
PBT_TEST(arena, 20) {
   size_t size = src.coin(1, 4) ? 0 : src.draw(600);
   std::vector<unsigned char> storage(size + 64, 0xee);
   size_t shift = src.draw(16);
   int steps = int(src.range(1, 30));
   src.note("arena of " + std::to_string(size) + " bytes, " + std::to_string(steps) + " steps");
   {
      pmr::monotonic_buffer_resource arena(storage.data() + 16 + shift, size);
      std::vector<Block> live;
      for (int i = 0; i < steps; i++) {
         if (src.coin(1, 12)) {
            arena.release();
            live.clear();
            continue;
         }
         size_t n = src.coin(1, 5) ? src.draw(5000) : src.draw(100);
         size_t a = size_t(1) << src.draw(5);
         auto* p = (unsigned char*)arena.allocate(n, a);
         require(p && size_t(p) % a == 0, "misaligned memory for alignment " + std::to_string(a));
         for (auto& b : live) require(n == 0 || b.n == 0 || p + n <= b.p || b.p + b.n <= p, "memory handed out twice");
         Block b{p, n, a, (unsigned char)(1 + src.draw(200)), &arena};
         std::memset(p, b.fill, n);
         live.push_back(b);
         for (auto& x : live) require(intact(x), "contents of a live allocation changed");
      }
   }
   for (size_t i = 0; i < storage.size(); i++)
      if (i < 16 + shift || i >= 16 + shift + size) require(storage[i] == 0xee, "memory outside the arena was written");
   src.nontrivial = steps > 3;
}
// containers in scratch memory: a container keeps using the memory it was created with, copies use the current scope
PBT_TEST(containers, 20) {
   std::vector<std::vector<int>> model(4);
   std::vector<pmr::vector<int>> outer(4);
   pmr::map<int, int> dict;
   std::map<int, int> dict_model;
   int n = int(src.range(1, 20));
   src.note("container history of " + std::to_string(n) + " steps");
   for (int i = 0; i < n; i++) {
      int k = int(src.draw(4));
      int v = int(src.draw(1000));
      auto guard = TAT::scope_resource<128>();
      pmr::vector<int> scratch;
      for (int j = 0; j < v % 37; j++) scratch.push_back(j * v);
      auto copy = scratch;
      require(copy.get_allocator().resource() == pmr::get_default_resource(), "a copy does not use the memory of the current scope");
      require(copy == scratch, "copy of a scratch container");
      model[k].assign(copy.begin(), copy.end());
      outer[k].assign(copy.begin(), copy.end());
      dict[v % 11] = v;
      dict_model[v % 11] = v;
      pmr::set<int> inner(scratch.begin(), scratch.end());
      require(std::set<int>(inner.begin(), inner.end()) == std::set<int>(scratch.begin(), scratch.end()), "scratch set");
   }
   for (int k = 0; k < 4; k++) require(std::vector<int>(outer[k].begin(), outer[k].end()) == model[k], "container of an outer scope changed");
   require(std::map<int, int>(dict.begin(), dict.end()) == dict_model, "map of an outer scope changed");
   src.nontrivial = n > 3;
}
