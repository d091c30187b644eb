// C36: separate objects never influence each other: all interleavings of two histories, copies taken at any time, and
// (ThreadSanitizer build) every pair of operations in two threads.
#include "mc.h"
#include <atomic>
#include <memory>
#include <midi/capability_inquiry.h>
#include <midi/channel_voice_message.h>
#include <midi/flex_data_message.h>
#include <midi/jitter_reduction_timestamps.h>
#include <midi/midi1_byte_stream.h>
#include <midi/midi1_channel_voice_message.h>
#include <midi/midi2_channel_voice_message.h>
#include <midi/stream_message.h>
#include <midi/sysex.h>
#include <midi/sysex_collector.h>
#include <midi/universal_sysex.h>
#include <sstream>
#include "two_threads.h"
#include <midi/system_message.h>
#include <midi/utility_message.h>
#if defined(__SANITIZE_THREAD__)
constexpr bool TSAN = true;
#else
constexpr bool TSAN = false;
#endif
using namespace mc;
using Bytes = std::vector<u8>;
using Trace = std::vector<u64>;

// where callbacks of the object being operated on go
static thread_local Trace* sink = nullptr;
static void note(u64 v) { if (sink) sink->push_back(v); }
static void note(const midi::universal_packet& p) { for (int i = 0; i < 4; ++i) note(p.data[i]); }
static void note(const midi::sysex& s) { note(s.manufacturerID); note(s.data.size()); note(fnv(s.data.data(), s.data.size())); }

static midi::sysex7 sx7(u32 man, unsigned n, u8 seed) { midi::sysex7 s(man); for (unsigned i = 0; i < n; ++i) s.data.push_back(u8((seed + i * 5) & 0x7F)); return s; }
static midi::sysex8 sx8(u32 man, unsigned n, u8 seed) { midi::sysex8 s(man); for (unsigned i = 0; i < n; ++i) s.data.push_back(u8(seed + i * 5)); return s; }

// An object with history: steps of a script are applied to it; clone() copies the library object.
struct Obj
{
    virtual ~Obj() = default;
    virtual void step(unsigned script, unsigned k) = 0;
    virtual void configure(unsigned) {}                 // 0: as constructed; 1, 2: other settings
    virtual std::unique_ptr<Obj> clone() const = 0;     // copy constructor
    virtual std::unique_ptr<Obj> take() = 0;            // move constructor
    virtual bool assign(const Obj&) = 0;                // false: this kind of object cannot be assigned
    virtual bool take_from(Obj&) = 0;                   // move assignment
};
template<class T> struct Copyable : Obj
{
    T&       self() { return static_cast<T&>(*this); }
    std::unique_ptr<Obj> clone() const override { return std::make_unique<T>(static_cast<const T&>(*this)); }
    std::unique_ptr<Obj> take() override { return std::make_unique<T>(std::move(self())); }
    bool assign(const Obj& o) override
    {
        if constexpr (std::is_copy_assignable_v<T>) { self() = static_cast<const T&>(o); return true; }
        else return false;
    }
    bool take_from(Obj& o) override
    {
        if constexpr (std::is_move_assignable_v<T>) { self() = std::move(static_cast<T&>(o)); return true; }
        else return false;
    }
};
constexpr unsigned STEPS = 5; // steps per script
constexpr unsigned SCRIPTS = 7;

static const std::vector<std::vector<Bytes>>& byte_scripts()
{
    static const std::vector<std::vector<Bytes>> s = {
        { { 0x90, 0x3C }, { 0x40 }, { 0x3D }, { 0x41, 0x3E }, { 0x42 } },
        { { 0xF0, 0x7E, 1, 2 }, { 3, 4, 5, 6 }, { 7, 8, 9, 10, 11 }, { 12, 0xF8, 13 }, { 0xF7, 0xC3, 0x05 } },
        { { 0xF0, 0x00 }, { 0x21 }, { 0x09, 0x11 }, { 0xF7 }, { 0xF0, 0x41, 0x01, 0xF7 } },
        { { 0xF2 }, { 0x11 }, { 0x22 }, { 0xF6, 0xE1, 0x01 }, { 0x7F, 0x02, 0x7E } },
        { { 0xF0, 0x7D, 1, 2, 3, 4, 5, 6, 7 }, { 0x91 }, { 0x10, 0x20 }, { 0xF0 }, { 0x7D, 0x55, 0xF7 } },
        { { 0xF0 }, { 0x00 }, { 0x00 }, { 0x7F }, { 0x33, 0xF7 } },
        { { 0xF0, 0x43 }, { 0xFE, 0x11 }, { 0xF6 }, { 0x12, 0xD5 }, { 0x13, 0xF7, 0x14 } },
    };
    return s;
}
template<bool SYSEX>
struct ParserObj : Copyable<ParserObj<SYSEX>>
{
    midi::midi1_byte_stream_parser p;
    ParserObj() : p(midi::group_t(3), [](midi::universal_packet q) { note(q); }, SYSEX ? midi::midi1_byte_stream_parser::sysex_callback([](const midi::sysex7& s) { note(s); }) : midi::midi1_byte_stream_parser::sysex_callback{}) {}
    void step(unsigned s, unsigned k) override { const auto& b = byte_scripts()[s][k]; p.feed(b.data(), b.size()); note(p.group()); note(p.callbacks_enabled()); }
    void configure(unsigned v) override { if (v == 1) p.set_group(9); if (v == 2) { p.set_group(14); p.enable_callbacks(false); } }
};
static std::vector<midi::universal_packet> script_packets7(unsigned s)
{
    std::vector<midi::universal_packet> r;
    auto add = [&](const midi::sysex7& m) { for (auto& p : midi::as_sysex7_packets(m, 2)) r.push_back(p); };
    switch (s)
    {
    case 0: add(sx7(0x7E0000, 27, 1)); break;
    case 1: add(sx7(0x002109, 20, 9)); add(sx7(0x410000, 1, 3)); break;
    case 2: add(sx7(0x7F0000, 2, 1)); add(sx7(0x000001, 0, 1)); add(sx7(0x7D0000, 10, 4)); add(sx7(0x7D0000, 0, 4)); break;
    case 3: add(sx7(0x7F0000, 10, 7)); r.pop_back(); add(sx7(0x430000, 18, 2)); break;
    case 4: add(sx7(0x010000, 11, 5)); add(sx7(0x020000, 11, 6)); add(sx7(0x020000, 1, 7)); break;
    case 5: for (u64 w : { 0x3211000000000000ull, 0x3221210000000000ull, 0x3220000000000000ull, 0x3222090500000000ull, 0x3231060000000000ull }) r.push_back({ u32(w >> 32), u32(w) }); break;
    default: for (u64 w : { 0x3212000000000000ull, 0x3220000000000000ull, 0x3221110000000000ull, 0x3230000000000000ull, 0x3202424300000000ull }) r.push_back({ u32(w >> 32), u32(w) }); break;
    }
    r.resize(STEPS);
    return r;
}
struct C7Obj : Copyable<C7Obj>
{
    midi::sysex7_collector c{ [](const midi::sysex7& s) { note(s); } };
    void step(unsigned s, unsigned k) override { c.feed(script_packets7(s)[k]); }
    void configure(unsigned v) override { if (v) c.set_max_sysex_data_size(v == 1 ? 15 : 2); }
};
struct C8Obj : Copyable<C8Obj>
{
    midi::sysex8_collector c{ [](const midi::sysex8& s, u8 id) { note(s); note(id); } };
    static std::vector<midi::universal_packet> packets(unsigned s)
    {
        std::vector<midi::universal_packet> r;
        auto add = [&](const midi::sysex8& m, u8 id) { for (auto& p : midi::as_sysex8_packets(m, id, 2)) r.push_back(p); };
        switch (s)
        {
        case 0: add(sx8(0x7E0000, 60, 1), 1); break;
        case 1: add(sx8(0x002109, 40, 9), 2); add(sx8(0x410000, 1, 3), 3); break;
        case 2: add(sx8(0x7F0000, 2, 1), 1); add(sx8(0x000001, 0, 1), 2); add(sx8(0x7D0000, 20, 4), 1); add(sx8(0x7D0000, 0, 4), 9); break;
        case 3: add(sx8(0x7F0000, 20, 7), 4); r.pop_back(); add(sx8(0x430000, 37, 2), 4); break;
        case 4: add(sx8(0x010000, 12, 5), 5); add(sx8(0x020000, 12, 6), 6); add(sx8(0x020000, 1, 7), 7); break;
        case 5: for (u64 w : { 0x5211090000000000ull, 0x5222098000000000ull, 0x5222090900000000ull, 0x5222099500000000ull, 0x5232096600000000ull }) r.push_back({ u32(w >> 32), u32(w), 0, 0 }); break;
        default: for (u64 w : { 0x5212030000000000ull, 0x5222044400000000ull, 0x5222034300000000ull, 0x5221030000000000ull, 0x5232035500000000ull }) r.push_back({ u32(w >> 32), u32(w), 0, 0 }); break;
        }
        r.resize(STEPS);
        return r;
    }
    void step(unsigned s, unsigned k) override { c.feed(packets(s)[k]); note(c.stream_id()); }
    void configure(unsigned v) override { if (v) c.set_max_sysex_data_size(v == 1 ? 15 : 2); }
};
struct FollowerObj : Copyable<FollowerObj>
{
    midi::jr_clock_follower f;
    void step(unsigned s, unsigned k) override
    {
        using namespace std::chrono;
        static const int delays[SCRIPTS][5] = { { 3, 3, 3, 3, 9 }, { 0, 0, 20, 0, 0 }, { 1, 1, 1, 1, 1 }, { 5, 1, 3, 9, 2 }, { 2, 2, 8, 2, 2 }, { 0, 7, 7, 0, 1 }, { 9, 4, 4, 1, 0 } };
        const auto t0 = midi::jr_clock_follower::time_point(hours(1000000));
        const unsigned ticks = 60000 + k * 3125 * (s + 1);
        const auto arrival = t0 + microseconds(32ll * ticks) + milliseconds(delays[s][k]);
        const midi::jr_timestamp_t ts{ u16(ticks) };
        if (k % 2 == 0) f.process_clock(arrival, ts);
        else note(u64((f.schedule_message(arrival, ts) - t0).count()));
        note(u64(f.jitter().count()));
        note(u64(f.security_offset().count()));
    }
    using u16 = std::uint16_t;
    void configure(unsigned v) override { if (v) f.set_security_offset(std::chrono::milliseconds(v == 1 ? 7 : 0)); }
};
constexpr unsigned KINDS = 5;
static std::unique_ptr<Obj> make(unsigned k)
{
    switch (k)
    {
    case 0: return std::make_unique<ParserObj<false>>();
    case 1: return std::make_unique<ParserObj<true>>();
    case 2: return std::make_unique<C7Obj>();
    case 3: return std::make_unique<C8Obj>();
    default: return std::make_unique<FollowerObj>();
    }
}
static const Trace& solo(unsigned kind, unsigned script)
{
    static Trace cache[KINDS][SCRIPTS];
    auto& t = cache[kind][script];
    if (t.empty())
    {
        auto o = make(kind);
        sink = &t;
        for (unsigned k = 0; k < STEPS; ++k) o->step(script, k);
        sink = nullptr;
    }
    return t;
}

//---------------------------------------------------------------------------------------------------------------------
// case: kind A, script A, kind B, script B, interleaving mask over 2*STEPS positions (bit: B's turn), copy point
// copy point 0: two separate objects.  p > 0 (same kind): one object runs the first p-1 steps of A's script, is copied,
// and original (script A) and copy (also script A up to the copy point, then script B's remaining steps) continue interleaved.
MC_SECTION("C36", interleavings);
void interleavings::run(Ctx& c, Args a)
{
    const unsigned ka = unsigned(a[0]), sa = unsigned(a[1]), kb = unsigned(a[2]), sb = unsigned(a[3]);
    Trace ta, tb;
    auto A = make(ka), B = make(kb);
    unsigned ia = 0, ib = 0;
    u64 m = a[4];
    while (ia < STEPS || ib < STEPS)
    {
        const bool b = ia == STEPS || (ib < STEPS && (m & 1));
        m >>= 1;
        sink = b ? &tb : &ta;
        if (b) B->step(sb, ib++); else A->step(sa, ia++);
        sink = nullptr;
        ++c.st->transitions;
    }
    MC_CHECK(c, ta == solo(ka, sa), "first object (kind %u script %u) behaves differently next to kind %u script %u", ka, sa, kb, sb);
    MC_CHECK(c, tb == solo(kb, sb), "second object (kind %u script %u) behaves differently next to kind %u script %u", kb, sb, ka, sa);
    ++c.st->traces;
    c.nontrivial();
    c.state(fnv(a.v, a.n * sizeof(u64)));
    c.outcome(fnv(ta.data(), ta.size() * 8, fnv(tb.data(), tb.size() * 8)));
}
static void each_interleaving(const std::function<void(u64)>& f)
{
    for (u64 m = 0; m < (1u << (2 * STEPS)); ++m)
        if (__builtin_popcountll(m) == STEPS) f(m);
}
void interleavings::enumerate(Ctx& c)
{
    if (TSAN) return; // explored in the plain build
    for (u64 ka = 0; ka < KINDS; ++ka)
        for (u64 kb = 0; kb < KINDS; ++kb)
            for (u64 sa = 0; sa < SCRIPTS; ++sa)
            {
                if (!c.mine()) continue;
                for (u64 sb = 0; sb < SCRIPTS; ++sb)
                    each_interleaving([&](u64 m) { c.exec<interleavings>(ka, sa, kb, sb, m); });
            }
    c.bound("all pairs of 5 object kinds (parser in both modes, both collectors, JR clock follower) x 7 x 7 scripts of 5 steps x all 252 interleavings");
}

// case: kind, script A, script B, copy point, mask, way of copying, settings
// ways: 0 copy construction, 1 assignment to a new object, 2 assignment to an object with another history and other settings,
//       3 move construction, 4 move assignment to an object with another history and other settings (3, 4: the original is not used any more)
MC_SECTION("C36", copies);
void copies::run(Ctx& c, Args a)
{
    const unsigned kind = unsigned(a[0]), sa = unsigned(a[1]), sb = unsigned(a[2]), p = unsigned(a[3]), way = unsigned(a[5]), set = unsigned(a[6]);
    // reference: the histories on fresh objects
    Trace ra, rb, ta, tb;
    for (int x = 0; x < 2; ++x)
    {
        auto o = make(kind);
        o->configure(set);
        sink = x ? &rb : &ra;
        for (unsigned k = 0; k < STEPS; ++k) o->step(x && k >= p ? sb : sa, k);
        sink = nullptr;
    }
    auto A = make(kind);
    A->configure(set);
    sink = &ta;
    for (unsigned k = 0; k < p; ++k) A->step(sa, k);
    sink = nullptr;
    tb = ta;
    std::unique_ptr<Obj> B;
    if (way == 0) B = A->clone();
    else if (way == 3) { B = A->take(); A.reset(); }
    else
    {
        B = make(kind);
        if (way != 1)
        {
            Trace t;
            B->configure(set == 1 ? 2 : 1);
            sink = &t;
            for (unsigned k = 0; k < 1 + p % 3; ++k) B->step((sb + 1) % SCRIPTS, k);
            sink = nullptr;
        }
        if (!(way == 4 ? B->take_from(*A) : B->assign(*A))) return; // cannot be assigned
        if (way == 4) A.reset();
    }
    unsigned ia = A ? p : STEPS, ib = p;
    u64 m = a[4];
    while (ia < STEPS || ib < STEPS)
    {
        const bool b = ia == STEPS || (ib < STEPS && (m & 1));
        m >>= 1;
        sink = b ? &tb : &ta;
        if (b) { B->step(sb, ib++); if (ib == STEPS) B.reset(); }
        else { A->step(sa, ia++); if (ia == STEPS && (a[4] & 4)) A.reset(); }
        sink = nullptr;
        ++c.st->transitions;
    }
    if (way < 3) MC_CHECK(c, ta == ra, "object (kind %u script %u settings %u) changed by its copy made at step %u (way %u)", kind, sa, set, p, way);
    MC_CHECK(c, tb == rb, "copy (kind %u scripts %u/%u settings %u) made at step %u (way %u) behaves differently from an object with its history", kind, sa, sb, set, p, way);
    ++c.st->traces;
    c.nontrivial();
    c.state(fnv(a.v, a.n * sizeof(u64)));
}
void copies::enumerate(Ctx& c)
{
    if (TSAN) return; // explored in the plain build
    for (u64 kind = 0; kind < KINDS; ++kind)
        for (u64 sa = 0; sa < SCRIPTS; ++sa)
        {
            if (!c.mine()) continue;
            for (u64 sb = 0; sb < SCRIPTS; ++sb)
                for (u64 p = 0; p < STEPS; ++p)
                    for (u64 set = 0; set < 3; ++set)
                        for (u64 way = 0; way < 5; ++way)
                            for (u64 m = 0; m < (way >= 3 ? 1u : 1u << (2 * (STEPS - p) - 1)); ++m) c.exec<copies>(kind, sa, sb, p, m, way, set);
        }
    c.bound("5 object kinds x 7 x 7 scripts x 3 settings x copy, assignment (to a new or used object) or move at every step x all interleavings of original and copy");
}

#if defined(__SANITIZE_THREAD__)
//---------------------------------------------------------------------------------------------------------------------
// every pair of operations, unsynchronised in two threads, on separate objects; ThreadSanitizer observes
using OpFn = void (*)();
static const midi::sysex7& shared_sysex()
{
    // an invalidate MUID message
    static const u8 b[] = { 0x7F, 0x0D, 0x7E, 0x02, 1, 2, 3, 4, 0x7F, 0x7F, 0x7F, 0x7F, 5, 6, 7, 8 };
    static const midi::sysex7 s(0x7E0000, b, sizeof b);
    return s;
}
static const midi::universal_packet shared_packets[] = { midi::universal_packet{ 0x20903C40 }, midi::universal_packet{ 0x40903C00, 0x80004000 }, midi::universal_packet{ 0x10F20102 }, midi::universal_packet{ 0x00201234 }, midi::universal_packet{ 0x30160102, 0x03040506 }, midi::universal_packet{ 0x30063F01, 0x02030405 }, midi::universal_packet{ 0x50020300, 0x11000000 }, midi::universal_packet{ 0xF0000101, 1 }, midi::universal_packet{ 0xF0020000, 0x41, 0x01020304, 0x05060708 }, midi::universal_packet{ 0xF0108000, 0x01020304 }, midi::universal_packet{ 0xF0050201, 0 }, midi::universal_packet{ 0xD0100000, 0x12345678 } };
static const std::vector<OpFn>& thread_ops()
{
    static const std::vector<OpFn> ops = {
        [] { ParserObj<false> o; for (unsigned s = 0; s < 5; ++s) for (unsigned k = 0; k < STEPS; ++k) o.step(s, k); o.p.reset(); },
        [] { ParserObj<true> o; for (unsigned s = 0; s < 5; ++s) for (unsigned k = 0; k < STEPS; ++k) o.step(s, k); o.p.reset(); },
        [] { C7Obj o; for (unsigned s = 0; s < 5; ++s) for (unsigned k = 0; k < STEPS; ++k) o.step(s, k); },
        [] { C8Obj o; for (unsigned s = 0; s < 5; ++s) for (unsigned k = 0; k < STEPS; ++k) o.step(s, k); },
        [] { FollowerObj o; for (unsigned k = 0; k < STEPS; ++k) o.step(1, k); o.f.reset(); o.f.set_security_offset(std::chrono::milliseconds(3)); },
        [] { (void)midi::jr_clock::now(); (void)midi::jr_clock::now(); },
        [] { for (unsigned t = 0; t < 16; ++t) { midi::universal_packet p(t << 28 | 0x00903C40, 0x12345678); u8 b[8]; note(midi::to_midi1_byte_stream(p, b)); note(p == midi::universal_packet(p)); note(p.size()); } },
        [] { std::ostringstream o; o << midi::universal_packet(0x40903C00, 0x12345678); midi::universal_packet q; std::istringstream i(o.str()); i >> q; note(q); },
        [] { for (unsigned s = 8; s < 15; ++s) { midi::universal_packet p(0x20000000 | s << 20 | 0x3C40); note(midi::is_note_on_message(p)); if (auto v = midi::as_midi1_channel_voice_message_view(p)) if (auto q = midi::as_midi2_channel_voice_message(*v)) note(*q); } },
        [] { for (unsigned s = 0; s < 16; ++s) { midi::universal_packet p(0x40000000 | s << 20 | 0x3C00, 0x80004000); if (auto v = midi::as_midi2_channel_voice_message_view(p)) if (auto q = midi::as_midi1_channel_voice_message(*v)) note(*q); } },
        [] { note(midi::upsample_7_to_32bit(5)); note(midi::upsample_14_to_32bit(5000)); note(midi::velocity{ 0.3f }.value); note(midi::pitch_bend{ 0.3f }.value); },
        [] { midi::send_endpoint_name("a name of more than fourteen bytes", [](const midi::universal_packet& p) { note(p); }); midi::send_function_block_name(3, "another name that is longer", [](const midi::universal_packet& p) { note(p); }); },
        [] { auto m = midi::make_device_identity_message(midi::device_identity{}); note(m); if (auto v = midi::as_device_identity_view(m)) note(v->identity().manufacturer); },
        [] { auto m = midi::universal_sysex::make_identity_reply(midi::device_identity{}); if (auto v = midi::universal_sysex::as_identity_reply_view(m)) note(v->identity().manufacturer); },
        [] { if (auto v = midi::ci::as<midi::ci::invalidate_muid_view>(shared_sysex())) { note(v->target_muid()); note(v->source_muid()); } note(shared_sysex()); for (auto& p : midi::as_sysex7_packets(shared_sysex())) note(p); },
        [] { std::vector<midi::ci::profile_id> l(3); auto m = midi::ci::make_profile_inquiry_reply(1, 2, l, l); if (auto v = midi::ci::as<midi::ci::profile_inquiry_reply_view>(m)) note(v->enabled_profiles().size() + v->disabled_profiles().size()); },
        [] { auto m = midi::ci::make_get_property_data_inquiry(1, 2, "Resource", 3); if (auto v = midi::ci::as<midi::ci::get_property_data_view>(m)) note(v->header_size()); note(m); },
        [] { auto m = midi::ci::make_discovery_inquiry(1, midi::device_identity{}, 0x1C, 512); if (auto v = midi::ci::as<midi::ci::discovery_inquiry_view>(m)) note(v->maximum_message_size()); note(m); },
        [] { auto& x = shared_sysex(); note(x.is_valid()); note(x.is_7bit()); note(x.is_8bit()); note(x.empty()); note(x.total_data_size()); note(x == shared_sysex()); note(x.make_uint28(4)); note(midi::universal_sysex_type_of(x)); note(midi::universal_sysex_device_id_of(x)); note(midi::universal_sysex_subtype_of(x)); note(midi::is_capability_inquiry_message(x)); },
        [] {
            for (auto& p : shared_packets)
            {
                note(p.size()); note(u64(p.type())); note(p.group()); note(p.status()); note(p == shared_packets[0]); note(p.get_byte(3));
                u8 b[8]; note(midi::to_midi1_byte_stream(p, b)); note(midi::midi1_byte_stream_size(p));
                note(midi::is_note_on_message(p)); note(midi::is_control_change_message(p)); note(midi::is_sysex7_packet(p)); note(midi::is_sysex8_packet(p)); note(midi::is_stream_message(p)); note(midi::is_flex_data_message(p));
                if (auto v = midi::as_endpoint_discovery_view(p)) note(v->filter());
                if (auto v = midi::as_device_identity_view(p)) note(v->identity().manufacturer);
                if (auto v = midi::as_function_block_discovery_view(p)) note(v->function_block());
                if (auto v = midi::as_stream_configuration_view(p)) note(v->protocol());
                if (midi::is_note_on_message(p)) { note(midi::get_note_nr(p)); note(midi::get_note_velocity(p).value); }
                midi::sysex7_collector c7([](const midi::sysex7& s) { note(s); }); c7.feed(p);
                midi::sysex8_collector c8([](const midi::sysex8& s, u8) { note(s); }); c8.feed(p);
                std::ostringstream o; o << p; note(o.str().size());
            }
        },
        [] { note(midi::make_set_tempo_message(3, 50000000)); note(midi::make_set_time_signature_message(3, 4, 4, 8)); note(midi::make_flex_data_text_message(3, midi::packet_format::complete, midi::packet_address::group, 0, 1, 2, "lyrics")); note(midi::make_song_position_message(1, midi::uint14_t(1234))); note(midi::jr_clock_message(midi::jr_timestamp_t(77))); },
        [] { for (unsigned g = 0; g < 16; ++g) { note(midi::make_midi1_note_on_message(midi::group_t(g), 1, 60, midi::velocity{ u8(5) })); note(midi::make_midi2_note_on_message(midi::group_t(g), 1, 60, midi::velocity{ u8(5) })); note(midi::make_per_note_management_message(midi::group_t(g), 1, 60, 1)); } },
        [] { midi::pitch_7_25 p{ 60.5 }; p += midi::pitch_increment{ 1000 }; note(p.value); midi::pitch_bend b{ 0.5 }; midi::pitch_bend_sensitivity s; note((b * s).value); midi::controller_value v{ 0.25 }; v += midi::controller_increment{ 77 }; note(v.value); note(u64(v.as_double() * 1e9)); },
        [] { midi::sysex7 a = shared_sysex(), b = a; b.add_uint28(77); note(a == b); a = std::move(b); a.clear(); note(a.empty()); },
    };
    return ops;
}
MC_SECTION("C36", threads);
void threads::run(Ctx& c, Args a)
{
    shared_sysex(); thread_ops(); byte_scripts();
    Trace t[2], s[2];
    auto op = [&](Trace* r, u64 o) {
        sink = r;
        thread_ops()[o]();
        const std::size_t n = r->size();
        thread_ops()[o]();
        r->resize(n);
        sink = nullptr;
    };
    const int rc = in_two_threads([&] { op(&t[0], a[0]); }, [&] { op(&t[1], a[1]); }, [&] {
        for (int i = 0; i < 2; ++i) op(&s[i], a[i]);
        return t[0] == s[0] && t[1] == s[1] ? 0 : 5;
    });
    MC_CHECK(c, rc != 66, "data race between operation %llu and operation %llu in two threads", (unsigned long long)a[0], (unsigned long long)a[1]);
    MC_CHECK(c, rc == 0, "operation %llu and operation %llu in two threads: %s", (unsigned long long)a[0], (unsigned long long)a[1], rc == 5 ? "other results than one after another" : fmt("exit %d", rc).c_str());
    ++c.st->traces; c.st->transitions += 4;
    c.nontrivial();
    c.state(mix(a[0], a[1]));
    c.tick();
}
void threads::enumerate(Ctx& c)
{
    const u64 n = thread_ops().size();
    const unsigned rounds = c.thorough ? 20 : 2;
    for (u64 i = 0; i < n; ++i)
        for (u64 j = 0; j <= i; ++j)
            if (c.mine())
                for (unsigned r = 0; r < rounds; ++r) c.exec<threads>(i, j);
    c.bound(fmt("all pairs of %llu operations on separate objects, unsynchronised in two threads, happens-before race detection", (unsigned long long)n));
}
#endif

int main(int argc, char** argv) { return main_(argc, argv); }
