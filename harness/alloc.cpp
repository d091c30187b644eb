// C34: SysEx values, parser and collectors in every allocator configuration.  C35: allocation failures.
// Built once per configuration; all of them are compared with the same model.
#define MC_LEDGER 1
#include "alloc_ledger.h"
#include "mc.h"
#include <memory>
#include <midi/capability_inquiry.h>
#include <midi/midi1_byte_stream.h>
#include <midi/sysex.h>
#include <midi/sysex_collector.h>
#include <midi/universal_sysex.h>
#include <optional>
#if NIMIDI2_PMR_SYSEX_DATA
#include <memory_resource>
#endif
using namespace mc;
using Bytes = std::vector<u8>;

// true while library code runs (default configuration: only then do allocations count)
static bool armed = false;
struct Arm { bool old = armed; Arm() { armed = true; } ~Arm() { armed = old; } };
struct Disarm { bool old = armed; Disarm() { armed = false; } ~Disarm() { armed = old; } };

#if NIMIDI2_PMR_SYSEX_DATA
struct Resource : std::pmr::memory_resource
{
    int id;
    explicit Resource(int i) : id(i) {}
    void* do_allocate(std::size_t n, std::size_t) override
    {
        if (ledger::g.must_fail()) throw std::bad_alloc{};
        void* p = malloc(n ? n : 1);
        ledger::g.add(p, n, id);
        return p;
    }
    void do_deallocate(void* p, std::size_t n, std::size_t) override { ledger::g.remove(p, n, id, true); free(p); }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
static Resource res0(0), res1(1);
#define CONFIG_NAME "pmr"
static void config_init() { std::pmr::set_default_resource(&res0); }
#elif NIMIDI2_CUSTOM_SYSEX_DATA_ALLOCATOR
#define CONFIG_NAME "custom"
static void config_init() {}
#else
#define CONFIG_NAME "default"
static void config_init() {}
void* operator new(std::size_t n)
{
    if (armed && ledger::g.must_fail()) throw std::bad_alloc{};
    void* p = malloc(n ? n : 1);
    if (!p) abort();
    if (armed) ledger::g.add(p, n, 0);
    return p;
}
void operator delete(void* p) noexcept { ledger::g.remove(p, std::size_t(-1), 0, false); free(p); }
void operator delete(void* p, std::size_t n) noexcept { ledger::g.remove(p, n, 0, false); free(p); }
#endif

static void ledger_ok(Ctx& c, bool empty)
{
    MC_CHECK(c, !ledger::g.error, "%s", ledger::g.error);
    if (empty) MC_CHECK(c, ledger::g.live == 0, "%zu allocations were never released (first: %zu bytes)", ledger::g.live, ledger::g.e[0].n);
}

struct Val
{
    u32   man = 0;
    Bytes data;
    bool  known = true; // false: moved from
};

struct Machine
{
    std::optional<midi::sysex7> s[2];
    Val m[2];
    std::vector<Val> *delivered = nullptr;
};

static void groups(Bytes& b, u64 v, int n) { while (n--) { b.push_back(v % 128); v /= 128; } }
static u8 byte_at(unsigned seed, unsigned i) { return u8((seed * 31 + i * 7 + (i >> 5)) & 0x7F); }

static void verify(Ctx& c, Machine& x, u64 op)
{
    for (int i = 0; i < 2; ++i)
    {
        const auto& s = *x.s[i];
        const auto& m = x.m[i];
        if (m.known)
        {
            MC_CHECK(c, s.manufacturerID == m.man, "after op %llu slot %d has manufacturer %06X, expected %06X", (unsigned long long)op, i, s.manufacturerID, m.man);
            MC_CHECK(c, s.data.size() == m.data.size() && std::equal(m.data.begin(), m.data.end(), s.data.begin()), "after op %llu slot %d holds %zu bytes %s, expected %zu bytes %s", (unsigned long long)op, i,
                     s.data.size(), hex(Bytes(s.data.begin(), s.data.begin() + std::min<std::size_t>(20, s.data.size()))).c_str(), m.data.size(), hex(Bytes(m.data.begin(), m.data.begin() + std::min<std::size_t>(20, m.data.size()))).c_str());
            MC_CHECK(c, s.empty() == (m.man == 0 && m.data.empty()), "empty()");
            MC_CHECK(c, s.total_data_size() == m.data.size() + (m.man == 0 ? 0 : m.man & 0xFF0000 ? 1 : 3), "total_data_size() is %zu", s.total_data_size());
            bool seven = true;
            for (auto b : m.data) seven &= b < 0x80;
            MC_CHECK(c, s.is_7bit() == seven && s.is_8bit() == !seven && s.is_valid() == seven, "is_7bit/is_8bit/is_valid");
        }
        if (s.data.capacity())
            MC_CHECK(c, ledger::g.find(s.data.data()), "SysEx data is not in memory of the configured allocator");
    }
    if (x.m[0].known && x.m[1].known)
    {
        const bool eq = x.m[0].man == x.m[1].man && x.m[0].data == x.m[1].data;
        MC_CHECK(c, (*x.s[0] == *x.s[1]) == eq && (*x.s[1] == *x.s[0]) == eq && (*x.s[0] != *x.s[1]) == !eq, "comparison");
        const midi::sysex &a = *x.s[0], &b = *x.s[1];
        MC_CHECK(c, (a == b) == eq && (a != b) == !eq, "comparison of base");
        MC_CHECK(c, *x.s[0] == *x.s[0] && !(*x.s[1] != *x.s[1]), "self comparison");
    }
    ledger_ok(c, false);
}

enum { OP_DEFAULT, OP_MAN, OP_CAP, OP_BUF, OP_LIST, OP_VEC, OP_RES, OP_RES_BUF, OP_COPY_CTOR, OP_MOVE_CTOR, OP_COPY, OP_MOVE, OP_SELF, OP_CLEAR, OP_ADD7, OP_ADD28, OP_ADD_DATA,
       OP_IDENTITY, OP_LARGE, OP_LIMIT, OP_EIGHT, OP_ERASE, OP_VIA_COLLECTOR, OP_VIA_PARSER, OP_CI, OP_SET_MAN, OP_SWAP, OP_COUNT };

// one operation on slot i; may throw bad_alloc (the slot's model is then marked unknown by the caller)
static void apply(Ctx& c, Machine& x, unsigned op, int i)
{
    auto& s = x.s[i];
    auto& o = x.s[1 - i];
    auto& m = x.m[i];
    auto& mo = x.m[1 - i];
    auto set = [&](u32 man, Bytes d) { Disarm z; m = { man, std::move(d), true }; };
    auto append = [&](const Bytes& d) { Disarm z; m.data.insert(m.data.end(), d.begin(), d.end()); };
    Arm a;
    switch (op)
    {
    case OP_DEFAULT: s.emplace(); set(0, {}); break;
    case OP_MAN: s.emplace(midi::manufacturer_t(0x7E0000)); set(0x7E0000, {}); break;
    case OP_CAP: s.emplace(midi::manufacturer_t(0x002109), midi::size_t(20)); MC_CHECK(c, s->data.capacity() >= 20, "capacity"); set(0x002109, {}); break;
    case OP_BUF: { static const u8 b[5] = { 1, 2, 3, 4, 5 }; s.emplace(midi::manufacturer_t(0x410000), b, sizeof b); set(0x410000, { 1, 2, 3, 4, 5 }); break; }
    case OP_LIST: s.emplace(midi::manufacturer_t(0x000001), std::initializer_list<u8>{ 9, 8, 7 }); set(0x000001, { 9, 8, 7 }); break;
    case OP_VEC: { midi::sysex::data_type d{ 5, 5, 6 }; s.emplace(midi::manufacturer_t(0x7D0000), std::move(d)); set(0x7D0000, { 5, 5, 6 }); break; }
#if NIMIDI2_PMR_SYSEX_DATA
    case OP_RES:
        s.emplace(midi::manufacturer_t(0x002109), midi::size_t(3), &res1);
        MC_CHECK(c, s->data.get_allocator().resource() == &res1, "memory resource not used");
        set(0x002109, {});
        break;
    case OP_RES_BUF:
    {
        static const u8 b[5] = { 1, 2, 3, 4, 5 };
        switch (i)
        {
        case 0: s.emplace(midi::manufacturer_t(0x410000), b, sizeof b, &res1); break;
        default: s.emplace(midi::manufacturer_t(0x410000), std::vector<u8>(b, b + 5), &res1); break;
        }
        MC_CHECK(c, s->data.get_allocator().resource() == &res1, "memory resource not used");
        MC_CHECK(c, ledger::g.find(s->data.data()) && ledger::g.find(s->data.data())->owner == 1, "data not in the given memory resource");
        set(0x410000, { 1, 2, 3, 4, 5 });
        break;
    }
#else
    case OP_RES: s.emplace(midi::manufacturer_t(0x002109), midi::size_t(3)); set(0x002109, {}); break;
    case OP_RES_BUF: { static const u8 b[5] = { 1, 2, 3, 4, 5 }; s.emplace(midi::manufacturer_t(0x410000), b, sizeof b); set(0x410000, { 1, 2, 3, 4, 5 }); break; }
#endif
    case OP_COPY_CTOR: { midi::sysex7 t(*o); s.reset(); s.emplace(std::move(t)); Disarm z; m = mo; break; }
    case OP_MOVE_CTOR: s.reset(); s.emplace(std::move(*o)); { Disarm z; m = mo; mo = { 0, {}, false }; } break;
    case OP_COPY: *s = *o; { Disarm z; m = mo; } break;
    case OP_MOVE: *s = std::move(*o); { Disarm z; m = mo; mo = { 0, {}, false }; } break;
    case OP_SELF: { auto& r = *s; *s = r; break; }
    case OP_CLEAR: s->clear(); set(0, {}); break;
    case OP_ADD7: s->add_uint7(0x55); append({ 0x55 }); break;
    case OP_ADD28: s->add_uint28(0xABCDEF1); { Disarm z; groups(m.data, 0xABCDEF1, 4); } break;
    case OP_ADD_DATA: { Bytes d; { Disarm z; for (unsigned k = 0; k < 70; ++k) d.push_back(byte_at(3, k)); } s->add_data(d.data(), d.size()); append(d); Disarm z; d = Bytes(); break; }
    case OP_IDENTITY:
    {
        midi::device_identity d; d.manufacturer = 0x002109; d.family = 0x1234 & 0x3FFF; d.model = 0x2AAA; d.revision = 0x7F01020;
        s->add_device_identity(d);
        append({ 0x00, 0x21, 0x09 });
        { Disarm z; groups(m.data, d.family, 2); groups(m.data, d.model, 2); groups(m.data, d.revision, 4); }
        break;
    }
    case OP_LARGE: { Bytes d; { Disarm z; for (unsigned k = 0; k < 16390; ++k) d.push_back(byte_at(5, k)); } s->add_data(d.data(), d.size()); append(d); Disarm z; d = Bytes(); break; }
    case OP_LIMIT: s->data.resize(16384); { Disarm z; m.data.resize(16384); } break;
    case OP_EIGHT: s->data.push_back(0x80); append({ 0x80 }); break;
    case OP_ERASE: if (!s->data.empty()) { s->data.pop_back(); m.data.pop_back(); } break;
    case OP_VIA_COLLECTOR:
    {
        Val got; unsigned n = 0;
        if (!m.known || m.man == 0 || !s->is_7bit()) break;
        midi::sysex7_collector col([&](const midi::sysex7& r) { *o = r; Disarm z; ++n; });
        midi::send_sysex7(*s, 4, [&](const midi::data_message& p) { col.feed(p); });
        MC_CHECK(c, n == 1, "collector delivered %u messages", n);
        Disarm z; mo = m;
        break;
    }
    case OP_VIA_PARSER:
    {
        unsigned n = 0;
        if (!m.known || m.man == 0 || !s->is_7bit()) break;
        midi::midi1_byte_stream_parser p([](midi::universal_packet) {}, [&](const midi::sysex7& r) { *o = r; Disarm z; ++n; });
        p.feed(0xF0);
        if (m.man & 0xFF0000) p.feed(u8(m.man >> 16)); else { p.feed(0); p.feed(u8(m.man >> 8)); p.feed(u8(m.man)); }
        p.feed(s->data.data(), s->data.size());
        p.feed(0xF7);
        MC_CHECK(c, n == 1, "parser delivered %u messages", n);
        Disarm z; mo = m;
        break;
    }
    case OP_CI:
    {
        midi::sysex7 t = midi::ci::make_invalidate_muid_message(0x0123456, 0x7654321);
        *s = std::move(t);
        set(0x7E0000, { 0x7F, 0x0D, 0x7E, 0x02 });
        { Disarm z; groups(m.data, 0x0123456, 4); groups(m.data, 0xFFFFFFF, 4); groups(m.data, 0x7654321, 4); }
        break;
    }
    case OP_SET_MAN: s->manufacturerID = 0x00007F; m.man = 0x00007F; break;
    case OP_SWAP:
#if NIMIDI2_PMR_SYSEX_DATA
        if (!(s->data.get_allocator() == o->data.get_allocator())) { break; } // swapping unequal allocators is undefined
#endif
        std::swap(*s, *o);
        { Disarm z; std::swap(m, mo); }
        break;
    }
}

// moved-from slots may only be assigned, cleared, or destroyed
static bool legal(const Machine& x, unsigned op, int i)
{
    const bool me = x.m[i].known, other = x.m[1 - i].known;
    switch (op)
    {
    case OP_COPY_CTOR: case OP_MOVE_CTOR: case OP_COPY: case OP_MOVE: return other;
    case OP_SELF: case OP_ADD7: case OP_ADD28: case OP_ADD_DATA: case OP_IDENTITY: case OP_LARGE: case OP_LIMIT: case OP_EIGHT: case OP_ERASE:
    case OP_VIA_COLLECTOR: case OP_VIA_PARSER: case OP_SET_MAN: return me;
    case OP_SWAP: return me && other;
    default: return true;
    }
}

// case: ops, op = kind * 2 + slot
MC_SECTION("C34", value_operations);
void value_operations::run(Ctx& c, Args a)
{
    Bytes keep;
    ledger::g.reset();
    u64 h = 7;
    {
        Machine x;
        { Arm z; x.s[0].emplace(); x.s[1].emplace(midi::manufacturer_t(0x7F0000)); }
        x.m[1].man = 0x7F0000;
        for (std::size_t k = 0; k < a.n; ++k)
        {
            const unsigned op = unsigned(a[k] >> 1);
            const int i = int(a[k] & 1);
            if (!legal(x, op, i)) break;
            apply(c, x, op, i);
            verify(c, x, a[k]);
            ++c.st->transitions;
            h = mix(1, x.m[0].known);
            h = mix(h, x.m[1].known);
            for (auto& m : x.m) { h = mix(h, m.man); h = fnv(m.data.data(), m.data.size(), h); h = mix(h, m.data.size()); }
            c.state(h);
        }
        Disarm z;
        x.m[0] = {}; x.m[1] = {};
    }
    ledger_ok(c, true);
    ++c.st->traces;
    c.nontrivial();
    c.outcome(h);
}
void value_operations::enumerate(Ctx& c)
{
    config_init();
    const unsigned depth = c.thorough ? 4 : 3;
    std::vector<u64> v(depth);
    std::function<void(unsigned)> rec = [&](unsigned d) {
        if (d == depth) { c.exec_vec<value_operations>(v); return; }
        for (u64 o = 0; o < OP_COUNT * 2; ++o)
        {
            if (d == 1 && !c.mine()) continue;
            v[d] = o;
            rec(d + 1);
        }
    };
    rec(0);
    c.bound(fmt("configuration " CONFIG_NAME ": all sequences of %u out of %d operations (construct in all ways, copy, move, self-assign, swap, clear, append, grow beyond 16384 bytes, through collector, through parser, MIDI-CI builder) on either of two SysEx messages", depth, OP_COUNT));
}

//---------------------------------------------------------------------------------------------------------------------
// every constructor of every SysEx type with and without a memory resource, then one or two operations
// case: type, constructor, resource given, length, first, second operation
enum { K_DEFAULT, K_MAN, K_CAP, K_BUF, K_DATA, K_LIST, K_VEC, K_COUNT };
enum { F_NONE, F_COPY, F_MOVE, F_ASSIGN_TO, F_MOVE_TO, F_ASSIGN_FROM, F_MOVE_FROM, F_GROW, F_CLEAR_GROW, F_COUNT };
MC_SECTION("C34", constructors);
#if NIMIDI2_PMR_SYSEX_DATA
#define MR , mr
#else
#define MR
#endif
template<class T> static void construct_case(Ctx& c, Args a)
{
    ledger::g.reset();
    const u64 kind = a[1], len = a[3];
    Bytes want; want.reserve(len + 200);
    for (u64 k = 0; k < len; ++k) want.push_back(byte_at(unsigned(len + 1), unsigned(k)));
    u32 man = 0x002109;
    u64 h = mix(kind, len);
    {
        std::optional<T> s, o;
        int owner[2] = { 0, 0 }; // resource of s, o
#if NIMIDI2_PMR_SYSEX_DATA
        std::pmr::memory_resource* mr = a[2] ? &res1 : &res0;
        if (kind != K_DEFAULT) owner[0] = int(a[2]);
        const bool give = a[2] != 0;
#define CONSTRUCT(...) do { if (give) s.emplace(__VA_ARGS__ MR); else s.emplace(__VA_ARGS__); } while (0)
#else
#define CONSTRUCT(...) s.emplace(__VA_ARGS__)
#endif
        {
            Arm z;
            switch (kind)
            {
            case K_DEFAULT: s.emplace(); man = 0; want.clear(); break;
            case K_MAN: CONSTRUCT(midi::manufacturer_t(man)); want.clear(); break;
            case K_CAP: CONSTRUCT(midi::manufacturer_t(man), midi::size_t(len)); want.clear(); MC_CHECK(c, s->data.capacity() >= len, "capacity %zu after construction with capacity %llu", s->data.capacity(), (unsigned long long)len); break;
            case K_BUF: CONSTRUCT(midi::manufacturer_t(man), static_cast<const u8*>(want.data()), midi::size_t(len)); break;
            case K_DATA: { typename T::data_type d(want.begin(), want.end()); CONSTRUCT(midi::manufacturer_t(man), std::move(d)); break; }
            case K_LIST:
                switch (len)
                {
                case 0: CONSTRUCT(midi::manufacturer_t(man), std::initializer_list<u8>{}); break;
                case 1: CONSTRUCT(midi::manufacturer_t(man), std::initializer_list<u8>{ want[0] }); break;
                default: CONSTRUCT(midi::manufacturer_t(man), std::initializer_list<u8>{ want[0], want[1], 0x7F }); { Disarm q; want.resize(2); want.push_back(0x7F); } break;
                }
                break;
            case K_VEC:
            {
#if NIMIDI2_PMR_SYSEX_DATA
                Disarm q; std::vector<u8> d(want.begin(), want.end()); Arm w; CONSTRUCT(midi::manufacturer_t(man), static_cast<const std::vector<u8>&>(d));
#else
                typename T::data_type d(want.begin(), want.end()); s.emplace(midi::manufacturer_t(man), d);
#endif
                break;
            }
            }
        }
        u32 other_man = 0x7D0000; Bytes other{ 3, 4 };
        auto compare = [&](const T& v, u32 m, const Bytes& b, int own, const char* when) {
            MC_CHECK(c, v.manufacturerID == m && v.data.size() == b.size() && std::equal(b.begin(), b.end(), v.data.begin()), "%s: manufacturer %06X and %zu bytes, expected %06X and %zu bytes (or other content)", when, v.manufacturerID,
                     v.data.size(), m, b.size());
            MC_CHECK(c, v.empty() == (m == 0 && b.empty()) && v.total_data_size() == b.size() + (m == 0 ? 0 : m & 0xFF0000 ? 1 : 3), "%s: empty() or total_data_size()", when);
#if NIMIDI2_PMR_SYSEX_DATA
            MC_CHECK(c, v.data.get_allocator().resource() == (own ? &res1 : &res0), "%s: data has another memory resource", when);
#endif
            if (v.data.capacity())
            {
                auto* e = ledger::g.find(v.data.data());
                MC_CHECK(c, e, "%s: data is not in memory of the configured allocator", when);
                MC_CHECK(c, e->owner == own, "%s: data is in another memory resource", when);
            }
        };
        compare(*s, man, want, owner[0], "constructed");
        for (std::size_t k = 0; k < ledger::g.live; ++k) MC_CHECK(c, ledger::g.e[k].owner == owner[0], "memory of another resource is held");
        { Arm z; o.emplace(midi::manufacturer_t(other_man), std::initializer_list<u8>{ 3, 4 }); }
        for (int f = 4; f < 6; ++f)
        {
            bool s_known = true, o_known = true;
            {
                Arm z;
                switch (a[f])
                {
                case F_NONE: break;
                case F_COPY: o.reset(); o.emplace(static_cast<const T&>(*s)); { Disarm q; owner[1] = 0; other = want; other_man = man; } break;
                case F_MOVE: o.reset(); o.emplace(std::move(*s)); { Disarm q; owner[1] = owner[0]; other = want; other_man = man; s_known = false; } break;
                case F_ASSIGN_TO: *o = *s; { Disarm q; other = want; other_man = man; } break;
                case F_MOVE_TO: *o = std::move(*s); { Disarm q; other = want; other_man = man; s_known = false; } break;
                case F_ASSIGN_FROM: *s = *o; { Disarm q; want = other; man = other_man; } break;
                case F_MOVE_FROM: *s = std::move(*o); { Disarm q; want = other; man = other_man; o_known = false; } break;
                case F_GROW: case F_CLEAR_GROW:
                    if (a[f] == F_CLEAR_GROW) { s->clear(); Disarm q; want.clear(); man = 0; compare(*s, 0, {}, owner[0], "cleared"); }
                    for (u8 k = 0; k < 100; ++k) { s->data.push_back(k); Disarm q; want.push_back(k); }
                    break;
                }
            }
            if (s_known) compare(*s, man, want, owner[0], "after operation");
            if (o_known) compare(*o, other_man, other, owner[1], "after operation (other)");
            if (s_known && o_known)
            {
                const bool eq = man == other_man && want == other;
                MC_CHECK(c, (*s == *o) == eq && (*o == *s) == eq && (*s != *o) == !eq, "comparison");
            }
            // a moved-from message can be cleared and used again
            if (!s_known) { Arm z; s->clear(); Disarm q; man = 0; want.clear(); compare(*s, 0, {}, owner[0], "cleared"); }
            if (!o_known) { Arm z; o->clear(); Disarm q; other_man = 0; other.clear(); compare(*o, 0, {}, owner[1], "cleared"); }
            h = mix(mix(h, a[f]), want.size());
            ++c.st->transitions;
            c.state(mix(mix(h, owner[0]), owner[1]));
        }
    }
    ledger_ok(c, true);
    ++c.st->traces;
    c.nontrivial();
    c.outcome(h);
}
void constructors::run(Ctx& c, Args a)
{
    switch (a[0])
    {
    case 0: construct_case<midi::sysex>(c, a); break;
    case 1: construct_case<midi::sysex7>(c, a); break;
    default: construct_case<midi::sysex8>(c, a); break;
    }
}
void constructors::enumerate(Ctx& c)
{
    config_init();
    std::vector<u64> lengths;
    for (u64 k = 0; k <= (c.thorough ? 300 : 40); ++k) lengths.push_back(k);
    for (u64 k : { 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096, 16383, 16384, 16385, 65535, 65536, 65537 }) lengths.push_back(k);
    for (u64 t = 0; t < 3; ++t)
        for (u64 k = 0; k < K_COUNT; ++k)
            for (u64 r = 0; r < 2; ++r)
                for (u64 l : lengths)
                    for (u64 f = 0; f < F_COUNT; ++f)
                        for (u64 g = 0; g < F_COUNT; ++g)
                            if (c.mine()) c.exec<constructors>(t, k, r, l, f, g);
    c.bound("configuration " CONFIG_NAME ": every constructor of sysex, sysex7 and sysex8 with and without a memory resource, data lengths 0.." + std::string(c.thorough ? "300" : "40") + " and around powers of two up to 65537, followed by every pair out of 9 operations (copy, move, assign in both directions between resources, append, clear and append)");
}

//---------------------------------------------------------------------------------------------------------------------
// parser and collectors: chunks fed to one parser (whole SysEx), one parser + collector 7 and one collector 8; deliveries
// compared with the model; fault: the n-th allocation fails.
struct Delivery { u32 man; Bytes data; bool operator==(const Delivery& o) const { return man == o.man && data == o.data; } };
enum { CH_SHORT, CH_THREE, CH_LONG, CH_HUGE, CH_PART, CH_ABORT, CH_NOTE, CH_RESET, CH_COUNT };

static Bytes chunk_bytes(unsigned k)
{
    Bytes b;
    auto fill = [&](unsigned n) { for (unsigned i = 0; i < n; ++i) b.push_back(byte_at(n, i)); };
    switch (k)
    {
    case CH_SHORT: b = { 0xF0, 0x7E, 1, 2, 3, 0xF7 }; break;
    case CH_THREE: b = { 0xF0, 0x00, 0x21, 0x09 }; fill(150); b.push_back(0xF7); break;
    case CH_LONG: b = { 0xF0, 0x41 }; fill(1100); b.push_back(0xF7); break;
    case CH_HUGE: b = { 0xF0, 0x43 }; fill(17000); b.push_back(0xF7); break;
    case CH_PART: b = { 0xF0, 0x7D }; fill(140); break;
    case CH_ABORT: b = { 0xF0, 0x7D, 1, 2, 0xF6 }; break;
    case CH_NOTE: b = { 0x90, 0x3C, 0x40 }; break;
    }
    return b;
}
// expected deliveries of a fault free chunk (every chunk but CH_PART is self contained; CH_PART is abandoned by whatever follows)
static std::optional<Delivery> chunk_delivery(unsigned k)
{
    const auto b = chunk_bytes(k);
    if (b.empty() || b.back() != 0xF7) return {};
    if (b[1]) return Delivery{ u32(b[1]) << 16, Bytes(b.begin() + 2, b.end() - 1) };
    return Delivery{ u32(b[2]) << 8 | b[3], Bytes(b.begin() + 4, b.end() - 1) };
}
static const std::vector<midi::universal_packet>& chunk_packets8(unsigned k)
{
    static std::vector<midi::universal_packet> cache[CH_COUNT];
    auto& r = cache[k];
    if (!r.empty()) return r;
    const auto d = chunk_delivery(k == CH_PART ? CH_THREE : k);
    if (d)
    {
        midi::sysex8 s(d->man);
        s.data.assign(d->data.begin(), d->data.end());
        for (auto& p : midi::as_sysex8_packets(s, 7)) r.push_back(p);
        if (k == CH_PART) r.pop_back();
    }
    return r;
}

struct Rig
{
    std::vector<Delivery> whole, collected, eight;
    unsigned notes = 0;
    midi::midi1_byte_stream_parser pw, pp;
    midi::sysex7_collector c7;
    midi::sysex8_collector c8;
    static Delivery of(const midi::sysex& s) { return { u32(s.manufacturerID), Bytes(s.data.begin(), s.data.end()) }; }
    Rig(std::size_t limit)
      : pw([this](midi::universal_packet) { ++notes; }, [this](const midi::sysex7& s) { Disarm z; whole.push_back(of(s)); })
      , pp([this](midi::universal_packet p) { c7.feed(p); })
      , c7([this](const midi::sysex7& s) { Disarm z; collected.push_back(of(s)); })
      , c8([this](const midi::sysex8& s, u8) { Disarm z; eight.push_back(of(s)); })
    {
        Arm z;
        if (limit) { c7.set_max_sysex_data_size(limit); c8.set_max_sysex_data_size(limit); }
    }
    Rig(const Rig&) = delete;
};

// Feeds one chunk.  Returns true if an allocation failed on the way (parts: bit 0 pw, 1 pp/c7, 2 c8).
static unsigned feed(Rig& r, unsigned k)
{
    unsigned bad = 0;
    if (k == CH_RESET) { Arm z; r.pw.reset(); r.pp.reset(); r.c7.reset(); r.c8.reset(); return 0; }
    static Bytes cache[CH_COUNT];
    if (cache[k].empty()) cache[k] = chunk_bytes(k);
    const auto& b = cache[k];
    const auto& p8 = chunk_packets8(k);
    Arm z;
    try { r.pw.feed(b.data(), b.size()); } catch (const std::bad_alloc&) { bad |= 1; r.pw.reset(); }
    try { r.pp.feed(b.data(), b.size()); } catch (const std::bad_alloc&) { bad |= 2; r.pp.reset(); r.c7.reset(); }
    try { for (auto& p : p8) r.c8.feed(p); } catch (const std::bad_alloc&) { bad |= 4; r.c8.reset(); }
    return bad;
}

// the rest of a message whose collection failed: ignored after reset
static void feed_tail(Rig& r, unsigned parts)
{
    static const u8 tail[] = { 1, 2, 3, 4, 5, 6, 7, 8, 0xF7 };
    Arm z;
    if (parts & 1) r.pw.feed(tail, sizeof tail);
    if (parts & 2)
    {
        r.pp.feed(tail, sizeof tail);
        r.c7.feed(midi::universal_packet{ 0x30260102, 0x03040506 });
        r.c7.feed(midi::universal_packet{ 0x30330102, 0x03000000 });
    }
    if (parts & 4)
    {
        r.c8.feed(midi::universal_packet{ 0x502E0701, 0x02030405, 0x06070809, 0x0A0B0C0D });
        r.c8.feed(midi::universal_packet{ 0x50330701, 0x02000000, 0, 0 });
    }
}

// case: limit, fail_at + 1 (0: none), recovery (1 + first chunk; 0: rest of the message), chunks...
static void run_rig(Ctx& c, Args a)
{
    ledger::g.reset();
    std::vector<Delivery> ew, ec, e8;
    bool failed = false;
    unsigned failed_parts = 0;
    {
        const std::size_t limit = a[0];
        Rig r(limit);
        for (std::size_t k = 3; k < a.n; ++k)
        {
            if (k + 1 == a.n && a[1]) ledger::g.fail_at = long(a[1]) - 1; // the failure hits the last chunk but one position
            const unsigned bad = feed(r, unsigned(a[k]));
            failed |= bad != 0;
            failed_parts = bad;
            Disarm z;
            if (auto d = chunk_delivery(unsigned(a[k])))
            {
                if (!(bad & 1)) ew.push_back(*d);
                const bool fits = !limit || d->data.size() <= limit;
                if (!(bad & 2) && fits) ec.push_back(*d);
                if (!(bad & 4) && fits) e8.push_back(*d);
            }
            MC_CHECK(c, r.whole == ew, "parser delivered %zu SysEx messages, expected %zu (or contents differ)", r.whole.size(), ew.size());
            MC_CHECK(c, r.collected == ec, "collector delivered %zu SysEx messages, expected %zu (or contents differ)", r.collected.size(), ec.size());
            MC_CHECK(c, r.eight == e8, "sysex8 collector delivered %zu messages, expected %zu (or contents differ)", r.eight.size(), e8.size());
            ledger_ok(c, false);
            ++c.st->transitions;
        }
        ledger::g.fail_at = -1;
        if (failed)
        {
            // after the failure everything works again
            if (a[2] == 0) { feed_tail(r, failed_parts); MC_CHECK(c, r.whole == ew && r.collected == ec && r.eight == e8, "after a failed allocation and reset, the rest of the message was delivered"); }
            for (unsigned k : { a[2] ? unsigned(a[2] - 1) : unsigned(CH_THREE), unsigned(CH_THREE), unsigned(CH_SHORT), unsigned(CH_LONG), unsigned(CH_HUGE) })
            {
                feed(r, k);
                if (auto d = chunk_delivery(k))
                {
                    ew.push_back(*d);
                    if (!limit || d->data.size() <= limit) { ec.push_back(*d); e8.push_back(*d); }
                }
                MC_CHECK(c, r.whole == ew && r.collected == ec && r.eight == e8, "after a failed allocation and reset, chunk %u was not delivered correctly (%zu/%zu/%zu of %zu/%zu/%zu)", k, r.whole.size(), r.collected.size(), r.eight.size(), ew.size(), ec.size(), e8.size());
            }
            c.nontrivial();
        }
        else if (!a[1]) c.nontrivial();
    }
    ledger_ok(c, true);
    ++c.st->traces;
    c.state(fnv(a.v, a.n * sizeof(u64)));
    c.outcome(mix(ew.size() * 100 + ec.size() * 10 + e8.size(), failed));
}

MC_SECTION("C34", stream_operations);
void stream_operations::run(Ctx& c, Args a) { run_rig(c, a); }
void stream_operations::enumerate(Ctx& c)
{
    config_init();
    const unsigned depth = c.thorough ? 5 : 4;
    for (u64 limit : { 0, 150, 1100 })
    {
        std::vector<u64> v(3 + depth);
        v[0] = limit;
        std::function<void(unsigned)> rec = [&](unsigned d) {
            if (d == depth) { c.exec_vec<stream_operations>(v); return; }
            for (u64 o = 0; o < CH_COUNT; ++o)
            {
                if (d == 1 && !c.mine()) continue;
                v[3 + d] = o;
                rec(d + 1);
            }
        };
        rec(0);
    }
    c.bound(fmt("configuration " CONFIG_NAME ": all sequences of %u chunks (short, three byte manufacturer, 1100 bytes, 17000 bytes, unfinished, aborted SysEx, note, reset) through parser, parser + collector and sysex8 collector, with size limits none/150/1100", depth));
}

//---------------------------------------------------------------------------------------------------------------------
// C35: every allocation of every chunk fails once, after every history of chunks
MC_SECTION("C35", stream_failures);
void stream_failures::run(Ctx& c, Args a) { run_rig(c, a); }
void stream_failures::enumerate(Ctx& c)
{
    config_init();
    const unsigned depth = c.thorough ? 5 : 4;
    for (u64 limit : { 0, 150, 1100 })
        for (unsigned len = 1; len <= depth; ++len)
        {
            std::vector<u64> v(3 + len);
            v[0] = limit;
            std::function<void(unsigned)> rec = [&](unsigned d) {
                if (d == len)
                {
                    // number of allocations of the last chunk in the fault free run
                    std::size_t n;
                    {
                        ledger::g.reset();
                        Rig r(limit);
                        for (unsigned k = 0; k + 1 < len; ++k) feed(r, unsigned(v[3 + k]));
                        const auto before = ledger::g.total;
                        feed(r, unsigned(v[2 + len]));
                        n = ledger::g.total - before;
                    }
                    for (u64 f = 1; f <= n; ++f) for (u64 w = 0; w <= (len < depth ? CH_COUNT : 1); ++w) { v[1] = f; v[2] = w; c.exec_vec<stream_failures>(v); }
                    return;
                }
                for (u64 o = 0; o < CH_COUNT; ++o)
                {
                    if (d == 0 && !c.mine()) continue;
                    v[3 + d] = o;
                    rec(d + 1);
                }
            };
            rec(0);
        }
    c.bound(fmt("configuration " CONFIG_NAME ": all histories of up to %u chunks; every single allocation of the last chunk fails once; then reset, and every chunk or the rest of the message (longest histories: two of these), and four further messages", depth));
}

// the same objects fail again and again
// case: limit, chunk, repetitions
MC_SECTION("C35", repeated_failures);
void repeated_failures::run(Ctx& c, Args a)
{
    ledger::g.reset();
    {
        Rig r(a[0]);
        const auto d = chunk_delivery(unsigned(a[1]));
        const bool fits = d && (!a[0] || d->data.size() <= a[0]);
        u64 at = 0;
        bool any = false;
        for (u64 i = 0; i < a[2]; ++i)
        {
            for (unsigned pass = 0; pass < 2; ++pass) // with failure, without
            {
                r.whole.clear(); r.collected.clear(); r.eight.clear();
                if (!pass) ledger::g.fail_at = long(at);
                const unsigned bad = feed(r, unsigned(a[1]));
                ledger::g.fail_at = -1;
                if (!pass) { if (bad) { ++at; any = true; feed_tail(r, bad); } else at = 0; } // next allocation, or from the first one
                else MC_CHECK(c, !bad, "failure without a failed allocation (repetition %llu)", (unsigned long long)i);
                const std::size_t n = d ? 1 : 0, f = fits ? 1 : 0;
                MC_CHECK(c, r.whole.size() == (bad & 1 ? 0 : n) && r.collected.size() == (bad & 2 ? 0 : f) && r.eight.size() == (bad & 4 ? 0 : f), "repetition %llu of a failing allocation: %zu/%zu/%zu messages delivered (failures %u)", (unsigned long long)i,
                         r.whole.size(), r.collected.size(), r.eight.size(), bad);
                for (auto* v : { &r.whole, &r.collected, &r.eight }) for (auto& x : *v) MC_CHECK(c, x == *d, "repetition %llu of a failing allocation: wrong message delivered", (unsigned long long)i);
                if (!d) feed(r, CH_RESET);
                ledger_ok(c, false);
                ++c.st->transitions;
            }
        }
        if (any) c.nontrivial();
    }
    ledger_ok(c, true);
    ++c.st->traces;
    c.state(fnv(a.v, a.n * sizeof(u64)));
    c.outcome(mix(a[0], a[1]));
}
void repeated_failures::enumerate(Ctx& c)
{
    config_init();
    const u64 reps = c.thorough ? 66000 : 3000;
    for (u64 limit : { 0, 150, 1100 }) for (u64 k = 0; k < CH_RESET; ++k) if (c.mine()) c.exec<repeated_failures>(limit, k, k == CH_HUGE ? reps / 10 : reps);
    c.bound(fmt("configuration " CONFIG_NAME ": every chunk %llu times on the same objects, one allocation failing each time (each in turn), reset, rest of the message, then without failure", (unsigned long long)reps));
}

// value operations: the n-th allocation of the last operation fails; the other message is untouched, nothing leaks
MC_SECTION("C35", value_failures);
void value_failures::run(Ctx& c, Args a)
{
    ledger::g.reset();
    bool failed = false;
    {
        Machine x;
        { Arm z; x.s[0].emplace(); x.s[1].emplace(midi::manufacturer_t(0x7F0000)); }
        x.m[1].man = 0x7F0000;
        for (std::size_t k = 1; k < a.n; ++k)
        {
            const unsigned op = unsigned(a[k] >> 1);
            const int i = int(a[k] & 1);
            if (!legal(x, op, i)) break;
            const Val before[2] = { x.m[0], x.m[1] };
            if (k + 1 == a.n) ledger::g.fail_at = long(a[0]) - 1;
            try { apply(c, x, op, i); }
            catch (const std::bad_alloc&)
            {
                armed = false;
                failed = true;
                x.m[0] = before[0]; x.m[1] = before[1];
                for (int q = 0; q < 2; ++q) if (!x.s[q]) { x.s[q].emplace(); x.m[q] = {}; }
                // the message operated on has an unspecified but valid value (also the target of a transfer)
                x.m[i].known = false;
                if (op == OP_VIA_COLLECTOR || op == OP_VIA_PARSER) { x.m[1 - i].known = false; x.m[i].known = before[i].known; }
            }
            ledger::g.fail_at = -1;
            verify(c, x, a[k]);
            ++c.st->transitions;
        }
        if (failed)
        {
            for (int q = 0; q < 2; ++q)
                if (!x.m[q].known) { Arm z; x.s[q]->clear(); x.m[q] = {}; }
            verify(c, x, 999);
            for (int q = 0; q < 2; ++q) { apply(c, x, OP_COPY, q); apply(c, x, OP_ADD_DATA, q); verify(c, x, 1000); }
        }
    }
    ledger_ok(c, true);
    ++c.st->traces;
    c.nontrivial(failed);
    c.state(fnv(a.v, a.n * sizeof(u64)));
    c.outcome(mix(failed, a.n ? a[a.n - 1] : 0));
}
void value_failures::enumerate(Ctx& c)
{
    config_init();
    const unsigned depth = c.thorough ? 4 : 3;
    for (unsigned len = 1; len <= depth; ++len)
    {
        std::vector<u64> v(1 + len);
        std::function<void(unsigned)> rec = [&](unsigned d) {
            if (d == len)
            {
                std::size_t n = 0;
                ledger::g.reset();
                {
                    Machine x;
                    { Arm z; x.s[0].emplace(); x.s[1].emplace(midi::manufacturer_t(0x7F0000)); }
                    x.m[1].man = 0x7F0000;
                    for (unsigned k = 0; k < len; ++k)
                    {
                        if (!legal(x, unsigned(v[1 + k] >> 1), int(v[1 + k] & 1))) return;
                        n = ledger::g.total;
                        apply(c, x, unsigned(v[1 + k] >> 1), int(v[1 + k] & 1));
                        n = ledger::g.total - n;
                    }
                }
                for (u64 f = 1; f <= n; ++f) { v[0] = f; c.exec_vec<value_failures>(v); }
                return;
            }
            for (u64 o = 0; o < OP_COUNT * 2; ++o)
            {
                if (d == 0 && !c.mine()) continue;
                v[1 + d] = o;
                rec(d + 1);
            }
        };
        rec(0);
    }
    c.bound(fmt("configuration " CONFIG_NAME ": all sequences of up to %u operations on two SysEx messages; every single allocation of the last operation fails once", depth));
}

int main(int argc, char** argv) { config_init(); return main_(argc, argv); }
