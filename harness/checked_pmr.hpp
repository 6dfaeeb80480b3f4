// Replacement for TAT/pmr_resource.hpp with the same interface in which every scratch allocation is a heap block of
// its own, released when its scope ends.  Under AddressSanitizer, overruns between scratch objects and uses after the
// end of a scope become visible, which the packed buffers of the original would hide.
#pragma once
#define TAT_PMR_RESOURCE_HPP
#include <cstddef>
#include <list>
#include <map>
#include <new>
#include <set>
#include <vector>
namespace TAT {
   namespace pmr {
      struct memory_resource {
         std::vector<void*> blocks;
         bool scratch = true;
         void* allocate(std::size_t bytes, std::size_t = alignof(std::max_align_t)) {
            void* p = ::operator new(bytes);
            if (scratch) blocks.push_back(p);
            return p;
         }
         void deallocate(void* p, std::size_t, std::size_t = alignof(std::max_align_t)) {
            if (!scratch) ::operator delete(p);
         }
         void release() {
            for (void* p : blocks) ::operator delete(p);
            blocks.clear();
         }
         ~memory_resource() {
            release();
         }
         bool is_equal(const memory_resource& o) const noexcept {
            return this == &o;
         }
      };
      inline bool operator==(const memory_resource& a, const memory_resource& b) noexcept {
         return &a == &b;
      }
      inline bool operator!=(const memory_resource& a, const memory_resource& b) noexcept {
         return &a != &b;
      }
      struct new_delete_resource : memory_resource {
         new_delete_resource() {
            scratch = false;
         }
      };
      inline new_delete_resource new_delete_resource_object;
      inline memory_resource* default_resource = &new_delete_resource_object;
      inline memory_resource* get_default_resource() {
         return default_resource;
      }
      inline memory_resource* set_default_resource(memory_resource* r) {
         auto old = default_resource;
         default_resource = r;
         return old;
      }
      template<typename T>
      struct polymorphic_allocator {
         memory_resource* m_resource;
         using value_type = T;
         polymorphic_allocator() noexcept : m_resource(get_default_resource()) {}
         polymorphic_allocator(const polymorphic_allocator&) = default;
         template<typename U>
         polymorphic_allocator(const polymorphic_allocator<U>& o) noexcept : m_resource(o.resource()) {}
         polymorphic_allocator(memory_resource* r) : m_resource(r) {}
         polymorphic_allocator& operator=(const polymorphic_allocator&) = delete;
         T* allocate(std::size_t n) {
            return static_cast<T*>(m_resource->allocate(n * sizeof(T), alignof(T)));
         }
         void deallocate(T* p, std::size_t n) {
            m_resource->deallocate(p, n * sizeof(T), alignof(T));
         }
         template<class U, class... Args>
         void construct(U* p, Args&&... args) {
            new (p) U(std::forward<Args>(args)...);
         }
         template<class U>
         void destroy(U* p) {
            p->~U();
         }
         polymorphic_allocator select_on_container_copy_construction() const {
            return polymorphic_allocator();
         }
         memory_resource* resource() const {
            return m_resource;
         }
      };
      template<class A, class B>
      bool operator==(const polymorphic_allocator<A>& a, const polymorphic_allocator<B>& b) noexcept {
         return a.resource() == b.resource();
      }
      template<class A, class B>
      bool operator!=(const polymorphic_allocator<A>& a, const polymorphic_allocator<B>& b) noexcept {
         return a.resource() != b.resource();
      }
      template<typename T>
      using vector = std::vector<T, polymorphic_allocator<T>>;
      template<typename T>
      using list = std::list<T, polymorphic_allocator<T>>;
      template<typename Key, typename T, typename Compare = std::less<Key>>
      using map = std::map<Key, T, Compare, polymorphic_allocator<std::pair<const Key, T>>>;
      template<class Key, class Compare = std::less<Key>>
      using set = std::set<Key, Compare, polymorphic_allocator<Key>>;
   } // namespace pmr
   constexpr std::size_t default_buffer_size = 1 << 15;
   template<std::size_t buffer_size = default_buffer_size>
   struct scope_resource {
      pmr::memory_resource resource;
      pmr::memory_resource* upstream;
      scope_resource() : upstream(pmr::set_default_resource(&resource)) {}
      ~scope_resource() {
         pmr::set_default_resource(upstream);
      }
   };
} // namespace TAT
