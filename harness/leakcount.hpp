// Counting replacements of the global allocation functions, for the leak-checking build.
#pragma once
#include <cstdlib>
#include <new>
#include "pbt.hpp"
static void* counted(std::size_t n, std::size_t align = 16) {
   std::size_t head = align < 16 ? 16 : align;
   char* p = (char*)std::aligned_alloc(head, (n + head + head - 1) / head * head);
   if (!p) throw std::bad_alloc();
   *(std::size_t*)(p + head - 16) = n;
   *(std::size_t*)(p + head - 8) = head;
   pbt::live_blocks++;
   pbt::live_bytes += n;
   return p + head;
}
static void uncounted(void* q) {
   if (!q) return;
   char* p = (char*)q;
   std::size_t head = *(std::size_t*)(p - 8);
   pbt::live_bytes -= *(std::size_t*)(p - 16);
   pbt::live_blocks--;
   std::free(p - head);
}
void* operator new(std::size_t n) { return counted(n); }
void* operator new[](std::size_t n) { return counted(n); }
void* operator new(std::size_t n, std::align_val_t a) { return counted(n, std::size_t(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return counted(n, std::size_t(a)); }
void operator delete(void* p) noexcept { uncounted(p); }
void operator delete[](void* p) noexcept { uncounted(p); }
void operator delete(void* p, std::size_t) noexcept { uncounted(p); }
void operator delete[](void* p, std::size_t) noexcept { uncounted(p); }
void operator delete(void* p, std::align_val_t) noexcept { uncounted(p); }
void operator delete[](void* p, std::align_val_t) noexcept { uncounted(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { uncounted(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { uncounted(p); }
// run a case twice more: the second repetition must leave exactly as much memory in use as the first
static struct WrapLeak {
   WrapLeak() {
      pbt::before_main = wrap;
   }
   static void wrap() {
      for (auto& t : pbt::tests()) {
         auto body = t.body;
         t.body = [body](pbt::Src& src) {
            try {
               body(src);
            } catch (const pbt::Discard&) {
               throw;
            } catch (...) {
            }
            auto again = [&]() {
               {
                  pbt::Src s(src.rec);
                  try {
                     body(s);
                  } catch (...) {
                  }
               }
               return std::make_pair(pbt::live_blocks, pbt::live_bytes);
            };
            auto a = again(), b = again(), c = again();
            if (b.first > a.first && c.first > b.first)
               throw pbt::Leak("every repetition of this case leaves " + std::to_string(c.first - b.first) + " more blocks (" + std::to_string(c.second - b.second) + " bytes) allocated");
         };
      }
   }
} wrap_leak;
