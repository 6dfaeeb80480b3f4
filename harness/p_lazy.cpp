// Lazy computation graphs: every value read equals the function of the current root values.
#include <lazy.hpp>

#include "pbt.hpp"
using pbt::fail;
using pbt::require;
using pbt::Src;

struct Item {
   int kind; // 0 root, 1 node (long), 2 path, 3 node (string)
   int op = 0;
   std::vector<int> up;
   bool dropped = false;
   int graph = 0;
   long value = 0;  // roots
   bool valid = false; // cached in the model
   long evals = 0;     // observed evaluations
   long allowed = 0;   // evaluations the model needs
   std::shared_ptr<lazy::root<long>> r;
   std::shared_ptr<lazy::node<long>> n;
   std::shared_ptr<lazy::path<long>> p;
   std::shared_ptr<lazy::node<std::string>> s;
};
struct Boom {};
static long compute(int op, const std::vector<long>& a) {
   if (op == 3 && (a[0] % 5 == 0)) throw Boom();
   long v = op;
   for (size_t i = 0; i < a.size(); i++) v = (v * 31 + a[i] * (long(i) + 2)) % 1000003;
   return v;
}
struct World {
   std::vector<std::unique_ptr<Item>> items;
   // model
   long eval(int i) {
      auto& x = *items[i];
      if (x.kind == 0) return x.value;
      if ((x.kind == 1 || x.kind == 3) && x.valid) return model_value(i);
      std::vector<long> a;
      for (int u : x.up) a.push_back(eval(u));
      x.allowed++;
      long v = compute(x.op, a);
      if (x.kind != 2) x.valid = true;
      return v;
   }
   // value without touching the counters
   long model_value(int i) {
      auto& x = *items[i];
      if (x.kind == 0) return x.value;
      std::vector<long> a;
      for (int u : x.up) a.push_back(model_value(u));
      return compute(x.op, a);
   }
   void invalidate(int i) {
      for (size_t j = 0; j < items.size(); j++)
         for (int u : items[j]->up)
            if (u == i) {
               items[j]->valid = false;
               invalidate(int(j));
            }
   }
   bool readable(int i) {
      return !items[i]->dropped;
   }
};
static long to_long(long v) { return v; }
static long to_long(const std::string& s) { return std::stol(s.substr(1)); }

template<typename A>
static void derive(Item* x, A& a) {
   auto f = [x](const auto& v) { x->evals++; return compute(x->op, {to_long(v)}); };
   if (x->kind == 1) x->n = lazy::Node(f, a);
   else if (x->kind == 2) x->p = lazy::Path(f, a);
   else x->s = lazy::Node([x](const auto& v) { x->evals++; return "v" + std::to_string(compute(x->op, {to_long(v)})); }, a);
}
template<typename A, typename B>
static void derive(Item* x, A& a, B& b) {
   auto f = [x](const auto& v, const auto& w) { x->evals++; return compute(x->op, {to_long(v), to_long(w)}); };
   if (x->kind == 1) x->n = lazy::Node(f, a, b);
   else if (x->kind == 2) x->p = lazy::Path(f, a, b);
   else x->s = lazy::Node([x](const auto& v, const auto& w) { x->evals++; return "v" + std::to_string(compute(x->op, {to_long(v), to_long(w)})); }, a, b);
}
template<typename F>
static void with(Item& i, F&& f) {
   if (i.kind == 0) f(i.r);
   else if (i.kind == 1) f(i.n);
   else if (i.kind == 2) f(i.p);
   else f(i.s);
}
PBT_TEST(lazy_history, 1) {
   World w;
   lazy::Graph graphs[3];
   struct Restore {
      ~Restore() { lazy::use_graph(); }
   } restore;
   struct Snap {
      int graph;
      lazy::Snapshot data;
      std::vector<long> values;
      std::vector<bool> valid;
   };
   std::vector<std::unique_ptr<Snap>> snaps;
   bool exotic = src.coin(1, 3); // throwing functions
   auto add_root = [&](int g) {
      auto x = std::make_unique<Item>();
      x->kind = 0;
      x->graph = g;
      x->value = src.range(0, 50);
      lazy::use_graph(graphs[g]);
      long v = x->value;
      switch (src.draw(3)) {
         case 0: x->r = lazy::Root(v); break;
         case 1: x->r = lazy::Root(long(v)); break;
         default:
            x->r = lazy::Root<long>();
            x->r->set(v);
      }
      w.items.push_back(std::move(x));
   };
   add_root(0);
   int steps = int(src.range(1, 24));
   int reads = 0, changes = 0, loads = 0, stale_risk = 0;
   std::string log = "root";
   for (int step = 0; step < steps; step++) {
      int n = int(w.items.size());
      switch (src.weighted({30, 18, 8, 22, 6, 6, 4})) {
         case 0: { // read
            int i = int(src.draw(n));
            auto& x = *w.items[i];
            if (!w.readable(i)) break;
            log += " get" + std::to_string(i);
            long want = 0;
            bool boom = false;
            try {
               want = w.eval(i);
            } catch (const Boom&) { boom = true; }
            bool got_boom = false;
            long got = 0;
            try {
               with(x, [&](auto& h) { got = to_long(h->get()); });
            } catch (const Boom&) { got_boom = true; }
            require(boom == got_boom, "exception of the user's function was lost or invented" + log);
            if (!boom && got != want)
               fail("node " + std::to_string(i) + " reads " + std::to_string(got) + " but the current roots give " + std::to_string(want) + ":" + log);
            if (!boom)
               for (size_t k = 0; k < w.items.size(); k++)
                  if (w.items[k]->evals > w.items[k]->allowed)
                     fail("node " + std::to_string(k) + " was computed " + std::to_string(w.items[k]->evals) + " times where " + std::to_string(w.items[k]->allowed) + " are needed:" + log);
            if (boom) // which arguments were computed before the exception is unspecified; resynchronise
               for (auto& k : w.items) k->allowed = std::max(k->allowed, k->evals) + 1;
            reads++;
            break;
         }
         case 1: { // derived value
            auto x = std::make_unique<Item>();
            x->kind = int(src.range(1, 3));
            x->op = exotic ? int(src.draw(4)) : int(src.draw(3));
            x->graph = src.coin(1, 4) ? 2 : src.coin(1, 3);
            std::vector<int> cand;
            for (int i = 0; i < n; i++)
               if (!w.items[i]->dropped && (x->graph == 2 || w.items[i]->graph == x->graph)) cand.push_back(i);
            if (cand.empty()) break;
            int a = cand[src.draw(cand.size())], b = cand[src.draw(cand.size())];
            bool two = src.coin();
            x->up = {a};
            if (two) x->up.push_back(b);
            lazy::use_graph(graphs[x->graph]);
            auto* raw = x.get();
            with(*w.items[a], [&](auto& ha) {
               if (!two) derive(raw, ha);
               else with(*w.items[b], [&](auto& hb) { derive(raw, ha, hb); });
            });
            const char* kinds[] = {"root", "node", "path", "snode"};
            log += std::string(" ") + kinds[x->kind] + std::to_string(n) + "@" + std::to_string(x->graph) + "(" + std::to_string(a) + (two ? "," + std::to_string(b) : "") + ")";
            w.items.push_back(std::move(x));
            break;
         }
         case 2:
            add_root(int(src.draw(2)));
            log += " root" + std::to_string(n);
            break;
         case 3: { // set
            int i = int(src.draw(n));
            auto& x = *w.items[i];
            if (x.kind != 0 || x.dropped) break;
            x.value = src.range(0, 50);
            log += " set" + std::to_string(i) + "=" + std::to_string(x.value);
            long v = x.value;
            if (src.coin(1, 6)) x.r->unset();
            if (src.coin()) x.r->set(v);
            else x.r->set(long(v));
            w.invalidate(i);
            changes++;
            break;
         }
         case 4: { // snapshot
            auto s = std::make_unique<Snap>();
            s->graph = int(src.draw(2));
            log += " dump@" + std::to_string(s->graph);
            s->data = graphs[s->graph].dump();
            for (auto& x : w.items) s->values.push_back(x->value), s->valid.push_back(x->valid);
            snaps.push_back(std::move(s));
            break;
         }
         case 5: { // restore
            if (snaps.empty()) break;
            int k = int(src.draw(snaps.size()));
            auto& s = *snaps[k];
            log += " load" + std::to_string(k);
            graphs[s.graph].load(s.data);
            for (size_t i = 0; i < s.values.size(); i++)
               if (w.items[i]->graph == s.graph) {
                  w.items[i]->value = s.values[i];
                  w.items[i]->valid = s.valid[i];
               }
            for (size_t i = 0; i < w.items.size(); i++)
               if (w.items[i]->graph != s.graph || i >= s.values.size()) w.items[i]->valid = false;
            loads++;
            break;
         }
         default: { // forget a handle
            int i = int(src.draw(n));
            auto& x = *w.items[i];
            if (x.dropped) break;
            x.dropped = true;
            x.r.reset();
            x.n.reset();
            x.p.reset();
            x.s.reset();
            log += " drop" + std::to_string(i);
         }
      }
   }
   // finally every live handle agrees
   log += " readall";
   for (size_t i = 0; i < w.items.size(); i++) {
      if (w.items[i]->dropped) continue;
      long want = 0, got = 0;
      bool boom = false, got_boom = false;
      try {
         want = w.model_value(int(i));
      } catch (const Boom&) { boom = true; }
      try {
         with(*w.items[i], [&](auto& h) { got = to_long(h->get()); });
      } catch (const Boom&) { got_boom = true; }
      require(boom == got_boom && got == want, "node " + std::to_string(i) + " reads " + std::to_string(got) + " but the current roots give " + std::to_string(want) + ":" + log);
   }
   src.note(log);
   src.nontrivial = reads > 0 && changes > 0;
   if (loads) src.label("restored a snapshot");
}
