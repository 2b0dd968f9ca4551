// Memory mapped files whose allocations can be made to fail, and which never come back to the address they had.
//
// To be included before anything of boost interprocess: the allocation algorithm of the library's managed files gets
// a derived class that fails the chosen allocation once, exactly as it does when the file is full. --wrap=mmap places every
// file at a fresh address, so that whatever still points into a file that was closed or grown crashes.
#pragma once
#include <cstdint>
#include <cstddef>
#define rbtree_best_fit rbtree_best_fit_of_boost
#include <boost/interprocess/mem_algo/rbtree_best_fit.hpp>
#undef rbtree_best_fit
#include <boost/interprocess/offset_ptr.hpp>
#include <map>
#include <sys/mman.h>
#include <sys/stat.h>

namespace fault {
    inline bool armed = false;
    inline long at = -1, count = 0, failed = 0;

    // from now on count the allocations, and let the n-th fail
    inline void arm(long n) { armed = true, at = n, count = 0, failed = 0; }
    inline void off() { armed = false; }

    inline bool hit() {
        if (not armed) { return false; }
        if (++count == at) { ++failed; return true; }
        return false;
    }

    // each file comes back to the address it had (for maps that keep raw pointers)
    inline bool stay = false;
    inline std::uintptr_t next = 0x200000000000ull;
    inline std::map<std::uint64_t, std::uintptr_t> places;
}

extern "C" void *__real_mmap(void *, std::size_t, int, int, int, long);
extern "C" void *__wrap_mmap(void *a, std::size_t n, int prot, int flags, int fd, long off) {
    if (a == nullptr and fd >= 0) {
        struct stat st{};
        if (fault::stay and fstat(fd, &st) == 0) {
            auto &p = fault::places[st.st_ino];
            if (not p) { p = fault::next, fault::next += 1ull << 30; }
            a = reinterpret_cast<void *>(p);
        } else {
            a = reinterpret_cast<void *>(fault::next);
            fault::next += ((n + (1u << 20)) | ((1u << 20) - 1)) + 1;
        }
    }
    return __real_mmap(a, n, prot, flags, fd, off);
}

namespace boost::interprocess {
    template<class MutexFamily, class VoidPointer = offset_ptr<void>, std::size_t MemAlignment = 0>
    class rbtree_best_fit : public rbtree_best_fit_of_boost<MutexFamily, VoidPointer, MemAlignment> {
        using base = rbtree_best_fit_of_boost<MutexFamily, VoidPointer, MemAlignment>;

    public:
        using size_type = typename base::size_type;
        using multiallocation_chain = typename base::multiallocation_chain;
        using base::base;

        void *allocate(size_type n) { return fault::hit() ? nullptr : base::allocate(n); }

        void *allocate_aligned(size_type n, size_type al) { return fault::hit() ? nullptr : base::allocate_aligned(n, al); }

        template<class T>
        T *allocation_command(allocation_type c, size_type limit, size_type &prefer, T *&reuse) {
            if (fault::hit()) { reuse = nullptr; return nullptr; }
            return base::template allocation_command<T>(c, limit, prefer, reuse);
        }

        void *raw_allocation_command(allocation_type c, size_type limit, size_type &prefer, void *&reuse, size_type sizeof_object = 1) {
            if (fault::hit()) { reuse = nullptr; return nullptr; }
            return base::raw_allocation_command(c, limit, prefer, reuse, sizeof_object);
        }

        void allocate_many(size_type n, size_type k, multiallocation_chain &chain) {
            if (not fault::hit()) { base::allocate_many(n, k, chain); }
        }

        void allocate_many(const size_type *n, size_type k, size_type s, multiallocation_chain &chain) {
            if (not fault::hit()) { base::allocate_many(n, k, s, chain); }
        }
    };
}
