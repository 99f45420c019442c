// Observes and disturbs the heap: counts what is allocated and not yet released, and makes the n-th
// allocation from now on fail. Included by one translation unit of a harness (it replaces operator new).
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <malloc.h>
#include <new>

namespace heap {
inline std::atomic<int64_t> blocks{0}, bytes{0};
inline thread_local int64_t allocations = 0; // so far, by this thread
inline thread_local int64_t failIn = -1;     // the n-th allocation from now on fails
inline thread_local bool failed = false;     // it did
inline thread_local bool keepFailing = false;
inline thread_local uint64_t requested = 0; // bytes so far, by this thread

inline bool fails() noexcept
{
    ++allocations;
    if (failIn < 0) return false;
    if (failIn > 0) { --failIn; return false; }
    if (!keepFailing) failIn = -1;
    failed = true;
    return true;
}
inline void* take(std::size_t n, std::size_t align = 0) noexcept
{
    if (fails()) return nullptr;
    requested += n;
    void* p = align ? std::aligned_alloc(align, (n + align - 1) / align * align) : std::malloc(n ? n : 1);
    if (p) { ++blocks; bytes += (int64_t)malloc_usable_size(p); }
    return p;
}
inline void* must(std::size_t n, std::size_t align = 0)
{
    if (auto p = take(n, align)) return p;
    throw std::bad_alloc();
}
inline void give(void* p) noexcept
{
    if (!p) return;
    --blocks;
    bytes -= (int64_t)malloc_usable_size(p);
    std::free(p);
}
/// Allocations fail within this scope.
struct Fail
{
    Fail(int64_t n, bool from = false) { failed = false; keepFailing = from; failIn = n; }
    ~Fail() { failIn = -1; keepFailing = false; }
};
struct Level
{
    int64_t blocks = heap::blocks, bytes = heap::bytes;
    bool operator==(const Level&) const = default;
};
} // namespace heap

void* operator new(std::size_t n) { return heap::must(n); }
void* operator new[](std::size_t n) { return heap::must(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return heap::take(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return heap::take(n); }
void* operator new(std::size_t n, std::align_val_t a) { return heap::must(n, (std::size_t)a); }
void* operator new[](std::size_t n, std::align_val_t a) { return heap::must(n, (std::size_t)a); }
void* operator new(std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return heap::take(n, (std::size_t)a); }
void* operator new[](std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return heap::take(n, (std::size_t)a); }
void operator delete(void* p) noexcept { heap::give(p); }
void operator delete[](void* p) noexcept { heap::give(p); }
void operator delete(void* p, std::size_t) noexcept { heap::give(p); }
void operator delete[](void* p, std::size_t) noexcept { heap::give(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { heap::give(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { heap::give(p); }
void operator delete(void* p, std::align_val_t) noexcept { heap::give(p); }
void operator delete[](void* p, std::align_val_t) noexcept { heap::give(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { heap::give(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { heap::give(p); }
