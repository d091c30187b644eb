// Allocator of the "custom" configuration, and a ledger of allocations that the alloc harness also connects to the
// default (global operator new) and pmr (memory_resource) configurations.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <new>

namespace ledger {

struct Entry { void* p; std::size_t n; int owner; };
struct Ledger
{
    Entry       e[4096]{};      // live allocations
    std::size_t live = 0;
    std::size_t total = 0;      // allocations so far
    long        fail_at = -1;   // fail the n-th allocation from now on (0: the next one)
    const char* error = nullptr;

    Entry* find(const void* p)
    {
        for (std::size_t i = live; i-- > 0;)
            if (e[i].p == p) return &e[i];
        return nullptr;
    }
    // true: this allocation has to fail
    bool must_fail() { return fail_at >= 0 && fail_at-- == 0; }
    void add(void* p, std::size_t n, int owner)
    {
        ++total;
        if (live == 4096) { fprintf(stderr, "ledger full\n"); abort(); }
        e[live++] = { p, n, owner };
    }
    // n == size_t(-1): size not known
    bool remove(void* p, std::size_t n, int owner, bool must_be_ours)
    {
        Entry* x = p ? find(p) : nullptr;
        if (!x) { if (must_be_ours) error = "memory released that was not allocated here"; return false; }
        if (n != std::size_t(-1) && x->n != n) error = "memory released with another size than allocated";
        if (x->owner != owner) error = "memory released through another allocator";
        *x = e[--live];
        return true;
    }
    void reset() { live = total = 0; fail_at = -1; error = nullptr; }
};
inline Ledger g;

} // namespace ledger

#if NIMIDI2_CUSTOM_SYSEX_DATA_ALLOCATOR
#include <midi/sysex.h>
namespace midi {
#ifdef MC_LEDGER
uint8_t* sysex::data_allocator::allocate(std::size_t n)
{
    if (ledger::g.must_fail()) throw std::bad_alloc{};
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc{};
    ledger::g.add(p, n, 0);
    return static_cast<uint8_t*>(p);
}
void sysex::data_allocator::deallocate(uint8_t* p, std::size_t n) noexcept
{
    ledger::g.remove(p, n, 0, true);
    free(p);
}
#else
// sizes and ownership checked through a header in front of every block
struct alloc_header { std::size_t n, magic; };
uint8_t* sysex::data_allocator::allocate(std::size_t n)
{
    auto* h = static_cast<alloc_header*>(malloc(sizeof(alloc_header) + n));
    if (!h) throw std::bad_alloc{};
    h->n = n; h->magic = 0x5A5AC3C3A5A53C3Cull;
    return reinterpret_cast<uint8_t*>(h + 1);
}
void sysex::data_allocator::deallocate(uint8_t* p, std::size_t n) noexcept
{
    auto* h = reinterpret_cast<alloc_header*>(p) - 1;
    if (h->magic != 0x5A5AC3C3A5A53C3Cull || h->n != n)
    {
        fprintf(stderr, "custom allocator: block released that was not allocated here, or with another size\n");
        abort();
    }
    h->magic = 0;
    free(h);
}
#endif
} // namespace midi
#endif
