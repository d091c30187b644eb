// C06..C10: SysEx packetisation and the SysEx collectors
#include "mc.h"
#include <midi/data_message.h>
#include <midi/extended_data_message.h>
#include <midi/sysex.h>
#include <midi/sysex_collector.h>
using namespace mc;

using Bytes = std::vector<u8>;
struct Msg
{
    u32   man = 0;
    Bytes data;
    unsigned stream = 0;
    std::string str() const { return fmt("{%06X stream %u: %s}", man, stream, hex(data).c_str()).substr(0, 400); }
    u64 hash() const { return mix(mix(fnv(data.data(), data.size()), man), stream); }
};

static Msg of(const midi::sysex& s, unsigned stream = 0) { return { u32(s.manufacturerID), Bytes(s.data.begin(), s.data.end()), stream }; }

static u8 pb(const midi::universal_packet& p, unsigned i) { return u8(p.data[i / 4] >> ((3 - i % 4) * 8)); }

static u8 content(unsigned pat, unsigned i, bool eight)
{
    u8 b = 0;
    switch (pat)
    {
    case 0: b = u8(i * 7 + 1); break;
    case 1: b = 0; break;
    case 2: b = 0xFF; break;
    case 3: b = u8((i >> 3) ^ (i * 29) ^ 0x55); break;
    default: b = u8(i % 6 == pat % 6 ? 0xFF : i); break;
    }
    return eight ? b : b & 0x7F;
}

static const u32 mans[] = { 0x010000, 0x7E0000, 0x7F0000, 0x7D0000, 0x410000, 0x000001, 0x000100, 0x007F7F, 0x002033, 0x00007F, 0x007F00, 0x002109 };

// checks the packet sequence of one message; returns packets
template<class P>
static void check7(Ctx& c, const midi::sysex7& s, unsigned group, const std::vector<P>& ps)
{
    Bytes wire;
    if (s.manufacturerID & 0xFF0000) wire = { u8(s.manufacturerID >> 16) };
    else wire = { 0, u8(s.manufacturerID >> 8), u8(s.manufacturerID) };
    wire.insert(wire.end(), s.data.begin(), s.data.end());
    const std::size_t np = (wire.size() + 5) / 6;
    MC_CHECK(c, ps.size() == np, "%zu packets for %zu wire bytes", ps.size(), wire.size());
    for (std::size_t i = 0; i < np; ++i)
    {
        const auto& p = ps[i];
        const unsigned f = np == 1 ? 0 : i == 0 ? 1 : i + 1 == np ? 3 : 2;
        const unsigned n = unsigned(std::min<std::size_t>(6, wire.size() - 6 * i));
        MC_CHECK(c, (p.data[0] >> 16) == (0x3000u | (group << 8) | (f << 4) | n), "packet %zu of %zu has header %04X (data length %zu)", i, np, p.data[0] >> 16, s.data.size());
        for (unsigned k = 0; k < 6; ++k)
            MC_CHECK(c, pb(p, 2 + k) == (k < n ? wire[6 * i + k] : 0), "packet %zu payload byte %u is %02X", i, k, pb(p, 2 + k));
    }
}
static void check8(Ctx& c, const midi::sysex8& s, unsigned stream, unsigned group, const std::vector<midi::universal_packet>& ps)
{
    Bytes wire;
    if (s.manufacturerID & 0xFF0000) wire = { 0, u8(s.manufacturerID >> 16) };
    else wire = { u8(0x80 | (s.manufacturerID >> 8)), u8(s.manufacturerID) };
    wire.insert(wire.end(), s.data.begin(), s.data.end());
    const std::size_t np = (wire.size() + 12) / 13;
    MC_CHECK(c, ps.size() == np, "%zu packets for %zu wire bytes", ps.size(), wire.size());
    for (std::size_t i = 0; i < np; ++i)
    {
        const auto& p = ps[i];
        const unsigned f = np == 1 ? 0 : i == 0 ? 1 : i + 1 == np ? 3 : 2;
        const unsigned n = unsigned(std::min<std::size_t>(13, wire.size() - 13 * i));
        MC_CHECK(c, (p.data[0] >> 16) == (0x5000u | (group << 8) | (f << 4) | (n + 1)), "packet %zu of %zu has header %04X (data length %zu)", i, np, p.data[0] >> 16, s.data.size());
        MC_CHECK(c, pb(p, 2) == stream, "packet %zu has stream %u", i, pb(p, 2));
        for (unsigned k = 0; k < 13; ++k)
            MC_CHECK(c, pb(p, 3 + k) == (k < n ? wire[13 * i + k] : 0), "packet %zu payload byte %u is %02X", i, k, pb(p, 3 + k));
    }
}

template<class S> static S make(u32 man, unsigned len, unsigned pat, bool eight)
{
    S s{ midi::manufacturer_t(man) };
    for (unsigned i = 0; i < len; ++i) s.data.push_back(content(pat, i, eight));
    return s;
}

static std::vector<Msg> got;

//---------------------------------------------------------------------------------------------------------------------
// case: man, len, pat, group
static void roundtrip7(Ctx& c, midi::sysex7_collector& col, const midi::sysex7& s, unsigned group)
{
    const auto ps = midi::as_sysex7_packets(s, midi::group_t(group));
    check7(c, s, group, ps);
    std::vector<midi::universal_packet> ps2;
    midi::send_sysex7(s, midi::group_t(group), [&](const midi::universal_packet& p) { ps2.push_back(p); });
    check7(c, s, group, ps2);
    got.clear();
    for (std::size_t i = 0; i < ps.size(); ++i)
    {
        MC_CHECK(c, got.empty(), "delivered before the last packet");
        col.feed(ps[i]);
        if ((i & 255) == 0) c.tick();
    }
    MC_CHECK(c, got.size() == 1, "%zu deliveries", got.size());
    MC_CHECK(c, got[0].man == s.manufacturerID && got[0].data == Bytes(s.data.begin(), s.data.end()), "sent %s delivered %s", of(s).str().c_str(), got[0].str().c_str());
    c.st->transitions += ps.size(); ++c.st->traces;
    c.outcome(got[0].hash());
    c.state(mix(s.data.size(), s.manufacturerID));
    if (ps.size() > 1) c.nontrivial();
}
static void roundtrip8(Ctx& c, midi::sysex8_collector& col, const midi::sysex8& s, unsigned stream, unsigned group)
{
    const auto ps0 = midi::as_sysex8_packets(s, u8(stream), midi::group_t(group));
    const std::vector<midi::universal_packet> ps(ps0.begin(), ps0.end());
    check8(c, s, stream, group, ps);
    std::vector<midi::universal_packet> ps2;
    midi::send_sysex8(s, u8(stream), midi::group_t(group), [&](const midi::universal_packet& p) { ps2.push_back(p); });
    check8(c, s, stream, group, ps2);
    got.clear();
    for (std::size_t i = 0; i < ps.size(); ++i)
    {
        MC_CHECK(c, got.empty(), "delivered before the last packet");
        col.feed(ps[i]);
        if ((i & 255) == 0) c.tick();
    }
    MC_CHECK(c, got.size() == 1, "%zu deliveries", got.size());
    MC_CHECK(c, got[0].man == s.manufacturerID && got[0].data == Bytes(s.data.begin(), s.data.end()), "sent %s delivered %s", of(s).str().c_str(), got[0].str().c_str());
    MC_CHECK(c, got[0].stream == stream, "delivered stream id %u instead of %u", got[0].stream, stream);
    c.st->transitions += ps.size(); ++c.st->traces;
    c.outcome(got[0].hash());
    c.state(mix(s.data.size(), s.manufacturerID));
    if (ps.size() > 1) c.nontrivial();
}
static midi::sysex7_collector mk7() { return midi::sysex7_collector{ [](const midi::sysex7& s) { got.push_back(of(s)); } }; }
static midi::sysex8_collector mk8() { return midi::sysex8_collector{ [](const midi::sysex8& s, u8 id) { got.push_back(of(s, id)); } }; }

static std::vector<unsigned> big_lens(const Ctx& c)
{
    std::vector<unsigned> v{ 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8193, 16383, 16384, 16385, 16386, 20000, 32768, 40001, 66000, 262144, 1048577 };
    for (unsigned b : { 16384u, 32768u, 65536u, 131072u }) for (unsigned d = 0; d < 72; ++d) v.push_back(b - 24 + d);
    if (c.thorough) for (unsigned b : { 1u << 20, 1u << 24 }) for (unsigned d = 0; d < 24; ++d) v.push_back(b - 8 + d);
    return v;
}

MC_SECTION("C06", lengths7);
void lengths7::enumerate(Ctx& c)
{
    const unsigned L = c.thorough ? 6000 : c.mid ? 1500 : 200;
    for (unsigned len = 0; len <= L; ++len)
    {
        if (!c.mine()) continue;
        for (auto m : mans)
            for (unsigned pat = 0; pat < 6; ++pat) c.exec<lengths7>(m, len, pat, len % 16, 0, 0, 0);
    }
    // all groups, all one byte manufacturers, all three byte manufacturers
    for (unsigned g = 0; g < 16; ++g)
        for (unsigned len = 0; len <= 24; ++len)
            if (c.mine()) for (auto m : mans) c.exec<lengths7>(m, len, 0, g, 0, 0, 0);
    for (unsigned m = 1; m < 128; ++m)
        if (c.mine()) for (unsigned len = 0; len <= 20; ++len) c.exec<lengths7>(m << 16, len, 3, 1, 0, 0, 0);
    for (unsigned m = 1; m < 16384; ++m)
        if (c.mine()) for (unsigned len : { 0u, 3u, 4u, 9u, 10u }) c.exec<lengths7>(((m >> 7) << 8) | (m & 0x7F), len, 3, 2, 0, 0, 0);
    // pairs of consecutive messages on one collector
    const unsigned PL = c.thorough ? 150 : c.mid ? 60 : 28;
    for (unsigned l1 = 0; l1 <= PL; ++l1)
        for (unsigned l2 = 0; l2 <= PL; ++l2)
        {
            if (!c.mine()) continue;
            for (auto m1 : { 0x7E0000u, 0x002033u }) for (auto m2 : { 0x410000u, 0x000102u }) c.exec<lengths7>(m1, l1, 0, 3, m2, l2, 1);
        }
    for (auto len : big_lens(c)) if (c.mine()) for (auto m : { 0x7E0000u, 0x002033u }) { c.exec<lengths7>(m, len, 0, 3, m, 5, 1); }
    c.bound(fmt("data lengths 0..%u (and selected up to 2^20, every length from 24 below to 47 above 2^14, 2^15, 2^16, 2^17) x 12 manufacturers x 6 contents; all groups x lengths 0..24; all 127 one-byte and 16383 three-byte manufacturers; all pairs of lengths 0..%u on one collector", L, PL));
}
void lengths7::run(Ctx& c, Args a)
{
    auto col = mk7();
    roundtrip7(c, col, make<midi::sysex7>(u32(a[0]), unsigned(a[1]), unsigned(a[2]), false), unsigned(a[3]));
    if (a[6])
    {
        roundtrip7(c, col, make<midi::sysex7>(u32(a[4]), unsigned(a[5]), 3, false), 0);
        roundtrip7(c, col, make<midi::sysex7>(u32(a[0]), unsigned(a[1]) % 77, 4, false), 15);
    }
    if (c.want_sample() && a[1] > 6) c.sample(fmt("manufacturer %06X, %u data bytes, group %u", u32(a[0]), unsigned(a[1]), unsigned(a[3])));
}

MC_SECTION("C07", lengths8);
void lengths8::enumerate(Ctx& c)
{
    const unsigned L = c.thorough ? 6000 : c.mid ? 2000 : 260;
    for (unsigned len = 0; len <= L; ++len)
    {
        if (!c.mine()) continue;
        for (auto m : mans)
            for (unsigned pat = 0; pat < 6; ++pat) c.exec<lengths8>(m, len, pat, len % 16, (len * 5) & 0xFF, 0, 0);
    }
    for (unsigned g = 0; g < 16; ++g)
        for (unsigned st = 0; st < 256; ++st)
            if (c.mine()) for (unsigned len : { 0u, 1u, 10u, 11u, 12u, 13u, 24u, 25u, 37u }) c.exec<lengths8>(mans[(st + len) % 12], len, 0, g, st, 0, 0);
    for (unsigned m = 1; m < 128; ++m)
        if (c.mine()) for (unsigned len = 0; len <= 30; ++len) c.exec<lengths8>(m << 16, len, 3, 1, 7, 0, 0);
    for (unsigned m = 1; m < 16384; ++m)
        if (c.mine()) for (unsigned len : { 0u, 11u, 12u, 24u }) c.exec<lengths8>(((m >> 7) << 8) | (m & 0x7F), len, 3, 2, 200, 0, 0);
    const unsigned PL = c.thorough ? 200 : c.mid ? 80 : 40;
    for (unsigned l1 = 0; l1 <= PL; ++l1)
        for (unsigned l2 = 0; l2 <= PL; ++l2)
        {
            if (!c.mine()) continue;
            for (auto m1 : { 0x7E0000u, 0x002033u }) for (auto m2 : { 0x410000u, 0x000102u }) c.exec<lengths8>(m1, l1, 0, 3, m2 & 0x7F, l2, 1 + m2);
        }
    for (auto len : big_lens(c)) if (c.mine()) for (auto m : { 0x7E0000u, 0x002033u }) c.exec<lengths8>(m, len, 0, 3, 9, 5, 1 + m);
    c.bound(fmt("data lengths 0..%u (and selected up to 2^20, every length from 24 below to 47 above 2^14, 2^15, 2^16, 2^17) x 12 manufacturers x 6 contents; all groups x all stream ids; all 127 one-byte and 16383 three-byte manufacturers; all pairs of lengths 0..%u on one collector", L, PL));
}
void lengths8::run(Ctx& c, Args a)
{
    auto col = mk8();
    roundtrip8(c, col, make<midi::sysex8>(u32(a[0]), unsigned(a[1]), unsigned(a[2]), true), unsigned(a[4]), unsigned(a[3]));
    if (a[6])
    {
        roundtrip8(c, col, make<midi::sysex8>(u32(a[6] - 1), unsigned(a[5]), 3, true), 255, 0);
        roundtrip8(c, col, make<midi::sysex8>(u32(a[0]), unsigned(a[1]) % 77, 4, true), 0, 15);
    }
    if (c.want_sample() && a[1] > 6) c.sample(fmt("manufacturer %06X, %u data bytes, group %u stream %u", u32(a[0]), unsigned(a[1]), unsigned(a[3]), unsigned(a[4])));
}

//---------------------------------------------------------------------------------------------------------------------
// contents: case = manufacturer, length, fill, position, byte, next byte (256: as the fill)
MC_SECTION("C06,C07", contents);
void contents::run(Ctx& c, Args a)
{
    const unsigned len = unsigned(a[1]), pos = unsigned(a[3]);
    auto fill = [&](auto& d, unsigned mask) {
        d.assign(len, u8(a[2] & mask));
        if (pos < len) d[pos] = u8(a[4]);
        if (pos + 1 < len && a[5] < 256) d[pos + 1] = u8(a[5]);
    };
    if (c.property == "C06")
    {
        auto col = mk7();
        midi::sysex7 s{ midi::manufacturer_t(a[0]) };
        fill(s.data, 0x7F);
        roundtrip7(c, col, s, 5);
        roundtrip7(c, col, make<midi::sysex7>(0x002109, 8, 3, false), 5);
    }
    else
    {
        auto col = mk8();
        midi::sysex8 s{ midi::manufacturer_t(a[0]) };
        fill(s.data, 0xFF);
        roundtrip8(c, col, s, 77, 5);
        roundtrip8(c, col, make<midi::sysex8>(0x002109, 15, 3, true), 77, 5);
    }
    if (c.want_sample() && len > 6) c.sample(fmt("%u bytes %02X with %02X %02X at %u", len, unsigned(a[2]), unsigned(a[4]), unsigned(a[5] & 0xFF), pos));
}
void contents::enumerate(Ctx& c)
{
    const bool eight = c.property == "C07";
    const unsigned N = eight ? 256 : 128, L = c.thorough ? 60 : c.mid ? 30 : 14;
    for (unsigned len = 1; len <= L; ++len)
        for (unsigned pos = 0; pos < len; ++pos)
            if (c.mine())
                for (unsigned b = 0; b < N; ++b)
                    for (unsigned fill : { 0u, 0x55u, N - 1 }) c.exec<contents>(pos & 1 ? 0x002033 : 0x7E0000, len, fill, pos, b, 256);
    const unsigned P = c.mid ? (eight ? 14 : 7) : 1;
    for (unsigned b = 0; b < N; ++b)
        for (unsigned b2 = 0; b2 < N; ++b2)
            if (c.mine())
                for (unsigned pos = 0; pos < P; ++pos) c.exec<contents>(0x410000, eight ? 29 : 15, 0x33, pos, b, b2);
    c.bound(fmt("every byte value at every position of lengths 1..%u on 3 fills; every pair of adjacent bytes at %u positions (all alignments to packets)", L, P));
}

//---------------------------------------------------------------------------------------------------------------------
// Reference model of a collector.  Works on the byte string carried by a message.
struct Model
{
    bool eight = false;
    bool active = false;
    unsigned stream = 0;
    Bytes bytes;
    std::size_t limit = 0;
    bool cb = true;
    bool changed = false, exceeded = false; // the limit was changed during the message; it once exceeded the limit in force

    static constexpr int incomplete = -1;
    // number of id bytes, or incomplete
    int id_len() const
    {
        if (eight) return bytes.size() >= 2 ? 2 : incomplete;
        if (bytes.empty()) return incomplete;
        if (bytes[0]) return 1;
        return bytes.size() >= 3 ? 3 : incomplete;
    }
    bool too_big() const
    {
        if (!limit) return false;
        const int n = id_len();
        return n != incomplete && bytes.size() - n > limit;
    }
    u64 key() const { return mix(mix(mix(fnv(bytes.data(), bytes.size()), active), active ? stream : 0), limit * 8 + cb + changed * 2 + exceeded * 4); }
};

struct Sys
{
    Model m;
    midi::sysex7_collector c7;
    midi::sysex8_collector c8;
    u64 out_hash = 0;

    explicit Sys(bool eight) : c7(mk7()), c8(mk8()) { m.eight = eight; }

    void feed_real(const midi::universal_packet& p) { if (m.eight) c8.feed(p); else c7.feed(p); }

    void feed(Ctx& c, const midi::universal_packet& p)
    {
        got.clear();
        // ---- model
        enum { nothing, must, may, unchanged } expect = nothing; // unchanged: delivered as it is or not at all
        Bytes whole;
        unsigned stream = 0;
        const unsigned type = p.data[0] >> 28, st = (p.data[0] >> 16) & 0xFF, f = st >> 4, n = st & 0xF;
        const bool valid = m.eight ? (type == 5 && f <= 3 && n >= 1 && n <= 14) : (type == 3 && f <= 3 && n <= 6);
        if (valid)
        {
            const unsigned sid = m.eight ? pb(p, 2) : 0;
            bool relevant = true;
            if (f == 0 || f == 1) { m.active = true; m.bytes.clear(); m.stream = sid; m.changed = m.exceeded = false; }
            else if (!m.active) relevant = false;
            else if (sid != m.stream) relevant = false;
            if (relevant)
            {
                const unsigned pn = m.eight ? n - 1 : n, off = m.eight ? 3 : 2;
                for (unsigned i = 0; i < pn; ++i) m.bytes.push_back(pb(p, off + i));
                if (m.too_big()) m.exceeded = true;
                if (m.too_big() && !m.changed) { m.active = false; m.bytes.clear(); }
                else if (f == 0 || f == 3)
                {
                    expect = m.too_big() ? nothing : m.id_len() == Model::incomplete ? may : m.exceeded ? unchanged : must;
                    whole = m.bytes; stream = m.stream;
                    m.active = false; m.bytes.clear();
                }
            }
        }
        if (!m.cb && expect != nothing) expect = nothing;
        // ---- implementation
        feed_real(p);
        if (expect == nothing) MC_CHECK(c, got.empty(), "unexpected delivery %s", got[0].str().c_str());
        if (expect == must) MC_CHECK(c, got.size() == 1, "%zu deliveries, expected one of [%s]", got.size(), hex(whole).c_str());
        if (expect == unchanged)
        {
            MC_CHECK(c, got.size() <= 1, "%zu deliveries", got.size());
            if (got.size() == 1) expect = must;
        }
        if (expect == may)
        {
            MC_CHECK(c, got.size() <= 1, "%zu deliveries", got.size());
            if (!got.empty()) MC_CHECK(c, got[0].data.empty(), "delivered %s for [%s]", got[0].str().c_str(), hex(whole).c_str());
        }
        if (expect == must)
        {
            Msg e; e.stream = stream;
            bool any_man = false;
            if (m.eight)
            {
                if (whole[0] & 0x80) e.man = u32(whole[0] & 0x7F) << 8 | (whole[1] & 0x7F);
                else if (whole[0] == 0) e.man = u32(whole[1] & 0x7F) << 16;
                else any_man = true; // not a defined manufacturer id
                e.data.assign(whole.begin() + 2, whole.end());
            }
            else if (whole[0]) { e.man = u32(whole[0]) << 16; e.data.assign(whole.begin() + 1, whole.end()); }
            else { e.man = u32(whole[1]) << 8 | whole[2]; e.data.assign(whole.begin() + 3, whole.end()); }
            MC_CHECK(c, (any_man || got[0].man == e.man) && got[0].data == e.data && got[0].stream == e.stream, "expected %s delivered %s", e.str().c_str(), got[0].str().c_str());
        }
        if (!got.empty()) out_hash = mix(out_hash, got[0].hash());
        if (m.eight && m.active && !m.exceeded && f <= 3 && valid) MC_CHECK(c, c8.stream_id() == m.stream, "stream_id() is %u during stream %u", c8.stream_id(), m.stream);
    }
    void reset() { m.active = false; m.bytes.clear(); c7.reset(); c8.reset(); }
    void set_limit(std::size_t l) { m.limit = l; m.changed = true; if (m.active && m.too_big()) m.exceeded = true; if (m.eight) c8.set_max_sysex_data_size(l); else c7.set_max_sysex_data_size(l); }
    void set_cb(bool on)
    {
        m.cb = on;
        if (m.eight) c8.set_callback(on ? midi::sysex8_collector::callback([](const midi::sysex8& s, u8 id) { got.push_back(of(s, id)); }) : midi::sysex8_collector::callback{});
        else c7.set_callback(on ? midi::sysex7_collector::callback([](const midi::sysex7& s) { got.push_back(of(s)); }) : midi::sysex7_collector::callback{});
    }
};

// operations are encoded as: kind(8) | format(4) | size(8) | stream(8) | lead(8) | salt via position
enum Kind : u64 { k_packet = 0, k_other = 1, k_reset = 2, k_limit = 3, k_cboff = 4, k_cbon = 5 };
static u64 op(u64 kind, u64 f = 0, u64 n = 0, u64 stream = 0, u64 lead = 0) { return kind | f << 8 | n << 12 | stream << 20 | lead << 28; }
static std::string show_op(u64 o)
{
    const u64 k = o & 0xFF;
    if (k == k_packet) return fmt("pkt(f%u n%u s%u lead%u) ", unsigned(o >> 8) & 0xF, unsigned(o >> 12) & 0xFF, unsigned(o >> 20) & 0xFF, unsigned(o >> 28) & 0xFF);
    if (k == k_other) return fmt("other%u ", unsigned(o >> 12) & 0xFF);
    if (k == k_limit) return fmt("limit%u ", unsigned(o >> 12) & 0xFF);
    return k == k_reset ? "reset " : k == k_cboff ? "cb-off " : "cb-on ";
}

static const midi::universal_packet others[] = { midi::universal_packet{ 0x12F80000u }, midi::universal_packet{ 0x20903C40u }, midi::universal_packet{ 0x40903C00u, 0x12345678u },
    midi::universal_packet{ 0u }, midi::universal_packet{ 0x51060011u, 0x21222324u, 0x25262728u, 0u }, midi::universal_packet{ 0x31061122u, 0x33445566u },
    midi::universal_packet{ 0xF0030000u, 0x41424344u }, midi::universal_packet{ 0x50820011u, 0x11111111u, 0x22222222u }, midi::universal_packet{ 0x50950011u, 0x11111111u, 0x22222222u } };

static void apply(Ctx& c, Sys& s, u64 o, unsigned pos)
{
    switch (o & 0xFF)
    {
    case k_packet: {
        const unsigned f = unsigned(o >> 8) & 0xF, n = unsigned(o >> 12) & 0xFF, stream = unsigned(o >> 20) & 0xFF, lead = unsigned(o >> 28) & 0xFF;
        midi::universal_packet p{ ((s.m.eight ? 5u : 3u) << 28) | 0x01000000u | (f << 20) | (n << 16) };
        const unsigned off = s.m.eight ? 3 : 2;
        if (s.m.eight) p.set_byte(2, u8(stream));
        for (unsigned b = off; b < (s.m.eight ? 16u : 8u); ++b) p.set_byte(b, u8((pos * 16 + b) & 0x7F) | 1);
        // lead: 0 -> first byte(s) zero; 1 -> ordinary; 2 -> 0x81 (three byte id in SysEx8); 3 -> two zeros
        if (lead == 0 || lead == 3) p.set_byte(off, 0);
        if (lead == 3) p.set_byte(off + 1, 0);
        if (lead == 2) p.set_byte(off, 0x81);
        s.feed(c, p);
        break;
    }
    case k_other: {
        const unsigned i = unsigned(o >> 12) & 0xFF;
        s.feed(c, others[i]);
        break;
    }
    case k_reset: s.reset(); break;
    case k_limit: s.set_limit(unsigned(o >> 12) & 0xFF); break;
    case k_cboff: s.set_cb(false); break;
    case k_cbon: s.set_cb(true); break;
    }
}

static void dfs(Ctx& c, const Sys& s, const std::vector<u64>& A, int depth, unsigned pos)
{
    for (auto o : A)
    {
        Sys n = s;
        c.push(o);
        apply(c, n, o, pos);
        ++c.st->transitions;
        c.state(n.m.key());
        if (depth > 1) dfs(c, n, A, depth - 1, pos + 1);
        else
        {
            ++c.st->traces; ++c.st->evaluations;
            if (n.out_hash)
            {
                c.nontrivial();
                c.outcome(n.out_hash);
                if (c.want_sample()) { std::string x; auto v = c.path(); for (size_t i = 2; i < v.size(); ++i) x += show_op(v[i]); c.sample(x); }
            }
        }
        c.pop();
    }
}
static void replay(Ctx& c, Args a) // a[0]: eight, a[1]: initial limit
{
    Sys s(a[0] & 1);
    if (a[1]) s.set_limit(a[1]);
    for (std::size_t i = 2; i < a.n; ++i) apply(c, s, a[i], unsigned(i - 2));
}
static void explore(Ctx& c, bool eight, u64 limit, const std::vector<u64>& A, int depth)
{
    for (auto o1 : A)
        for (auto o2 : A)
        {
            if (!c.mine()) continue;
            const u64 init[] = { eight, limit, o1, o2 };
            c.set_case(init, 4);
            Sys s(eight);
            if (limit) s.set_limit(limit);
            apply(c, s, o1, 0);
            apply(c, s, o2, 1);
            dfs(c, s, A, depth - 2, 2);
        }
}

MC_SECTION("C08", dfs7);
void dfs7::enumerate(Ctx& c)
{
    std::vector<u64> A;
    for (u64 f = 0; f < 4; ++f)
        for (u64 n : { 0, 1, 2, 3, 4, 6 })
            for (u64 lead : { 1, 0 })
                if (n || lead) A.push_back(op(k_packet, f, n, 0, lead));
    A.push_back(op(k_packet, 2, 7, 0, 1));
    A.push_back(op(k_packet, 1, 15, 0, 1));
    A.push_back(op(k_packet, 4, 3, 0, 1));
    A.push_back(op(k_packet, 3, 9, 0, 1));
    for (u64 i : { 0, 1, 2, 3, 4, 7 }) A.push_back(op(k_other, 0, i));
    A.push_back(op(k_reset));
    A.push_back(op(k_cboff));
    A.push_back(op(k_cbon));
    explore(c, false, 0, A, c.thorough ? 5 : 4);
    // deeper over a reduced alphabet
    std::vector<u64> B;
    for (u64 f = 0; f < 4; ++f) for (u64 n : { 1, 6 }) B.push_back(op(k_packet, f, n, 0, f & 1));
    B.push_back(op(k_packet, 2, 0, 0, 1)); B.push_back(op(k_packet, 3, 0, 0, 1));
    B.push_back(op(k_other, 0, 1)); B.push_back(op(k_reset));
    explore(c, false, 0, B, c.thorough ? 9 : c.mid ? 8 : 7);
    c.bound(fmt("all sequences of %d packets/operations over %zu (all formats, sizes 0..6, malformed sizes and statuses, other packet types, reset, callback changes) and of %d over %zu", c.thorough ? 5 : 4, A.size(), c.thorough ? 9 : c.mid ? 8 : 7, B.size()));
}
void dfs7::run(Ctx& c, Args a) { replay(c, a); }

MC_SECTION("C09", dfs8);
void dfs8::enumerate(Ctx& c)
{
    std::vector<u64> A;
    for (u64 f = 0; f < 4; ++f)
        for (u64 s : { 0, 5 })
            for (u64 n : { 1, 2, 3, 5, 14 })
                for (u64 lead : { 0, 1, 2 })
                    if (n > 1 || lead == 0)
                        if (f < 2 || lead == 1 || n == 2 || n == 1) A.push_back(op(k_packet, f, n, s, lead));
    A.push_back(op(k_packet, 2, 0, 0, 1));
    A.push_back(op(k_packet, 1, 15, 0, 1));
    A.push_back(op(k_packet, 3, 15, 5, 1));
    A.push_back(op(k_packet, 8, 3, 0, 1));
    for (u64 i : { 0, 2, 5, 7, 8 }) A.push_back(op(k_other, 0, i));
    A.push_back(op(k_reset));
    A.push_back(op(k_cboff));
    A.push_back(op(k_cbon));
    explore(c, true, 0, A, c.thorough ? 5 : 4);
    std::vector<u64> B;
    for (u64 f = 0; f < 4; ++f) for (u64 s : { 1, 255 }) for (u64 n : { 4, 14 }) if (f || n == 4) B.push_back(op(k_packet, f, n, s, f == 1 ? 2 : 1));
    B.push_back(op(k_packet, 3, 1, 1, 0)); B.push_back(op(k_other, 0, 5)); B.push_back(op(k_reset));
    explore(c, true, 0, B, c.thorough ? 8 : c.mid ? 7 : 6);
    c.bound(fmt("all sequences of %d packets/operations over %zu (formats x streams x sizes x manufacturer forms, malformed packets, other types, reset, callback changes) and of %d over %zu", c.thorough ? 5 : 4, A.size(), c.thorough ? 8 : c.mid ? 7 : 6, B.size()));
}
void dfs8::run(Ctx& c, Args a) { replay(c, a); }

// every pair of stream ids: a message on A met by every kind of packet of B
MC_SECTION("C09", stream_pairs);
void stream_pairs::enumerate(Ctx& c)
{
    c.bound("all 2^16 pairs (A, B) of stream ids: start A, [continue A], every format of B, [continue/end B], end A; on the real collector in lockstep with the model");
    for (u64 a = 0; a < 256; ++a)
        if (c.mine())
            for (u64 b = 0; b < 256; ++b)
                for (u64 f = 0; f < 4; ++f)
                    for (u64 k = 0; k < 6; ++k) c.exec<stream_pairs>(a, b, f, k);
}
void stream_pairs::run(Ctx& c, Args a)
{
    c.nontrivial();
    Sys s(true);
    unsigned pos = 0;
    auto go = [&](u64 f, u64 n, u64 stream) { apply(c, s, op(k_packet, f, n, stream, f < 2 ? 2 : 1), pos++); ++c.st->transitions; };
    go(1, 5, a[0]);
    if (a[3] & 1) go(2, 9, a[0]);
    go(a[2], 14, a[1]);
    if (a[3] >= 2) go(a[3] >= 4 ? 3 : 2, 4, a[1]);
    go(3, 3, a[0]);
    go(3, 3, a[1]);
    ++c.st->traces;
    c.outcome(s.out_hash);
}

//---------------------------------------------------------------------------------------------------------------------
// what the packets contain; case: mode, ...
//  mode 0: first, second payload byte: every third byte, as one packet and split at every place
//  mode 1: length, position, byte: every next byte, in full packets and with a first packet of one byte
MC_SECTION("C08,C09", packet_contents);
static void feed_bytes(Ctx& c, Sys& s, const Bytes& b, std::size_t first, std::size_t per)
{
    const bool e = s.m.eight;
    std::size_t i = 0;
    do
    {
        const std::size_t n = std::min(i ? per : first, b.size() - i);
        const bool last = i + n == b.size();
        const unsigned f = i == 0 ? (last ? 0 : 1) : last ? 3 : 2;
        midi::universal_packet p{ ((e ? 5u : 3u) << 28) | 0x02000000u | (f << 20) | (unsigned(n + e) << 16) };
        if (e) p.set_byte(2, 9);
        for (std::size_t k = 0; k < n; ++k) p.set_byte((e ? 3 : 2) + k, b[i + k]);
        s.feed(c, p);
        ++c.st->transitions;
        i += n;
    } while (i < b.size());
    ++c.st->traces;
}
void packet_contents::run(Ctx& c, Args a)
{
    const bool e = c.property == "C09";
    const std::size_t per = e ? 13 : 6;
    const unsigned N = e ? 256 : 128;
    c.nontrivial();
    Sys s(e);
    u64 k = 0;
    if (a[0] == 0)
    {
        for (unsigned v = 0; v < N; ++v)
        {
            const Bytes b{ u8(a[1]), u8(a[2]), u8(v), 0x55, 0x2A };
            for (std::size_t len : { 3, 4, 5 })
                for (std::size_t first = len; first >= 1; first = first > 4 ? 3 : first - 1)
                {
                    if (e && len == 4) break;
                    feed_bytes(c, s, Bytes(b.begin(), b.begin() + len), first, per);
                    ++k;
                    if (first == 1 || (e && first == 2)) break;
                }
        }
    }
    else
    {
        Bytes b(a[1], 0x33);
        if (e) b[0] = 0;
        for (unsigned v = 0; v < N; ++v)
        {
            b[a[2]] = u8(a[3]);
            if (a[2] + 1 < b.size()) b[a[2] + 1] = u8(v);
            for (std::size_t first : { per, std::size_t(1) }) { feed_bytes(c, s, b, first, per); ++k; }
            if (a[2] + 1 >= b.size()) break;
        }
    }
    c.st->evaluations += k - 1;
    c.outcome(s.out_hash);
}
void packet_contents::enumerate(Ctx& c)
{
    const bool e = c.property == "C09";
    const u64 N = e ? 256 : 128;
    c.bound(e ? "every content of the first three payload bytes x ways to split; every pair of adjacent bytes in messages of 1..5, 12..16, 25..29 payload bytes"
              : "every content of the first three payload bytes x ways to split; every pair of adjacent bytes in messages of 1..20 payload bytes");
    for (u64 x = 0; x < N; ++x)
        for (u64 y = 0; y < N; ++y)
            if ((c.mid || x < 4 || (x & (x - 1)) == 0 || x == N - 1 || x == y) && c.mine()) c.exec<packet_contents>(0, x, y);
    for (u64 len = 1; len <= (e ? 29 : 20); ++len)
    {
        if (e && len > 5 && len < 25 && !(len >= 12 && len <= 16)) continue;
        if (!c.mid && len > 8 && len != 14) continue;
        for (u64 pos = 0; pos < len; ++pos)
            for (u64 v = 0; v < N; ++v) if (c.mine()) c.exec<packet_contents>(1, len, pos, v);
    }
}

//---------------------------------------------------------------------------------------------------------------------
// copies of a collector do not keep the buffer's capacity, so every sequence is executed from scratch here
MC_SECTION("C10", limit_seq);
static void limit_explore(Ctx& c, bool eight, u64 limit, const std::vector<u64>& A, unsigned depth)
{
    u64 total = 1;
    for (unsigned i = 0; i < depth; ++i) total *= A.size();
    u64 v[12] = { eight, limit };
    for (u64 k = 0; k < total; ++k)
    {
        if (!c.mine(k)) continue;
        u64 x = k;
        for (unsigned i = 0; i < depth; ++i) { v[2 + i] = A[x % A.size()]; x /= A.size(); }
        c.set_case(v, 2 + depth);
        ++c.st->evaluations;
        limit_seq::run(c, Args{ v, 2 + depth });
    }
}
void limit_seq::enumerate(Ctx& c)
{
    const unsigned depth = c.thorough ? 6 : c.mid ? 5 : 4;
    std::vector<u64> A;
    for (u64 f = 0; f < 4; ++f) for (u64 n : { 1, 3, 5, 6 }) A.push_back(op(k_packet, f, n, 0, 1));
    A.push_back(op(k_packet, 0, 4, 0, 0)); A.push_back(op(k_packet, 1, 4, 0, 0)); A.push_back(op(k_packet, 1, 2, 0, 0)); A.push_back(op(k_packet, 3, 0, 0, 1));
    A.push_back(op(k_reset)); A.push_back(op(k_limit, 0, 0)); A.push_back(op(k_limit, 0, 2)); A.push_back(op(k_limit, 0, 5));
    for (u64 limit : { 0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12 }) limit_explore(c, false, limit, A, depth);
    std::vector<u64> B;
    for (u64 f = 0; f < 4; ++f) for (u64 n : { 3, 4, 8, 14 }) B.push_back(op(k_packet, f, n, 1, 1));
    B.push_back(op(k_packet, 0, 5, 1, 0)); B.push_back(op(k_packet, 1, 6, 1, 2)); B.push_back(op(k_packet, 2, 9, 2, 1)); B.push_back(op(k_packet, 3, 1, 1, 0));
    B.push_back(op(k_reset)); B.push_back(op(k_limit, 0, 0)); B.push_back(op(k_limit, 0, 2)); B.push_back(op(k_limit, 0, 11));
    for (u64 limit : { 0, 1, 2, 5, 6, 10, 11, 12, 13, 14, 22, 24, 25 }) limit_explore(c, true, limit, B, depth);
    c.bound(fmt("all sequences of %u packets/operations (formats x sizes, reset, limit changes between and inside messages), limits 0..25, both collectors", depth));
}
void limit_seq::run(Ctx& c, Args a)
{
    Sys s(a[0] & 1);
    if (a[1]) s.set_limit(a[1]);
    for (std::size_t i = 2; i < a.n; ++i)
    {
        apply(c, s, a[i], unsigned(i - 2));
        ++c.st->transitions;
        c.state(s.m.key());
    }
    ++c.st->traces;
    if (s.out_hash) { c.nontrivial(); c.outcome(s.out_hash); if (c.want_sample()) { std::string x = fmt("limit %u: ", unsigned(a[1])); for (size_t i = 2; i < a.n; ++i) x += show_op(a[i]); c.sample(x); } }
}

// whole messages around the limit: case = eight, limit, before-limit, man index, len1, len2, len3, unfinished packets, chunk
MC_SECTION("C10", limit_messages);
void limit_messages::enumerate(Ctx& c)
{
    std::vector<unsigned> limits;
    for (unsigned l = 0; l <= (c.thorough ? 64u : 34u); ++l) limits.push_back(l);
    for (unsigned l : { 127u, 128u, 129u, 255u, 256u, 257u, 1000u, 1024u, 16384u, 16385u, 20000u }) limits.push_back(l);
    for (unsigned eight = 0; eight < 2; ++eight)
        for (auto limit : limits)
            for (unsigned mi = 0; mi < 2; ++mi)
            {
                if (!c.mine()) continue;
                std::vector<unsigned> lens;
                for (unsigned l = (limit > 16 ? limit - 16 : 0); l <= limit + 16; ++l) lens.push_back(l);
                lens.push_back(2 * limit + 1); lens.push_back(0); lens.push_back(300);
                for (unsigned before : { 0u, 1u })
                    for (auto l1 : lens)
                        for (unsigned l2 : { limit, limit ? limit - 1 : 0, limit + 1, 0u, 7u })
                            for (unsigned un : { 0u, 1u, 3u })
                                for (unsigned chunk : { 0u, 1u, 2u, 5u })
                                    if (limit <= 300 || chunk == 0) c.exec<limit_messages>(eight, limit, before, mi, l1, l2, un, chunk);
            }
    c.bound(fmt("limits 0..%u and selected up to 20000 x data lengths limit-16..limit+16, 2*limit+1 x following message around the limit x unfinished message in between x packetisations (library, 1, 2, 5 bytes per packet) x limit set before/after a larger message", c.thorough ? 64 : 34));
}
static std::vector<midi::universal_packet> packets(bool eight, u32 man, unsigned len, unsigned pat, unsigned chunk)
{
    std::vector<midi::universal_packet> r;
    Bytes w;
    if (eight) { if (man & 0xFF0000) w = { 0, u8(man >> 16) }; else w = { u8(0x80 | man >> 8), u8(man) }; }
    else { if (man & 0xFF0000) w = { u8(man >> 16) }; else w = { 0, u8(man >> 8), u8(man) }; }
    for (unsigned i = 0; i < len; ++i) w.push_back(content(pat, i, eight));
    const unsigned maxn = chunk ? chunk : eight ? 13 : 6;
    for (std::size_t o = 0; o < w.size(); o += maxn)
    {
        const unsigned n = unsigned(std::min<std::size_t>(maxn, w.size() - o));
        const unsigned f = w.size() <= maxn ? 0 : o == 0 ? 1 : o + maxn >= w.size() ? 3 : 2;
        midi::universal_packet p{ ((eight ? 5u : 3u) << 28) | (f << 20) | ((n + (eight ? 1 : 0)) << 16) };
        for (unsigned i = 0; i < n; ++i) p.set_byte((eight ? 3 : 2) + i, w[o + i]);
        if (eight) p.set_byte(2, 3);
        r.push_back(p);
    }
    return r;
}
void limit_messages::run(Ctx& c, Args a)
{
    const bool eight = a[0]; const unsigned limit = unsigned(a[1]);
    const u32 man = a[3] ? 0x002033 : 0x7E0000;
    const unsigned chunk = unsigned(a[7]);
    Sys s(eight);
    u64 n = 0;
    auto feed = [&](const std::vector<midi::universal_packet>& ps, std::size_t upto = ~std::size_t{ 0 }) {
        for (std::size_t i = 0; i < ps.size() && i < upto; ++i, ++n) { s.feed(c, ps[i]); if ((i & 255) == 0) c.tick(); }
    };
    if (a[2]) feed(packets(eight, man, limit + 150, 0, 0)); // larger message before a limit is set
    s.set_limit(limit);
    feed(packets(eight, man, unsigned(a[4]), 0, chunk));
    if (a[6]) feed(packets(eight, 0x410000, unsigned(a[4]) + 20, 3, chunk), std::size_t(a[6])); // unfinished
    feed(packets(eight, man, unsigned(a[5]), 4, chunk));
    feed(packets(eight, 0x002109, unsigned(a[4]), 3, 0));
    feed(packets(eight, 0x7D0000, limit, 0, 0));
    c.st->transitions += n; ++c.st->traces;
    if (limit) c.nontrivial();
    c.outcome(s.out_hash);
    c.state(mix(mix(limit, a[4]), a[5] * 4 + a[2] * 2 + a[0]));
    if (c.want_sample() && limit > 2) c.sample(fmt("SysEx%u limit %u, message lengths %u, %u", eight ? 8 : 7, limit, unsigned(a[4]), unsigned(a[5])));
}

//---------------------------------------------------------------------------------------------------------------------
// long histories on one collector: unit A n times, then unit B twice, then A
// case: eight, limit, A, n, B
MC_SECTION("C06,C07,C08,C09,C10", long_runs);
// unit: length | flag << 32; flags: 0 whole message, 1 last packet missing, 2 first packet missing, 3 only the middle,
// 4 interrupted by packets of other kinds, 5 reset, 6 another stream in between,
// 7 packets of other kinds after every packet
static std::size_t n_small; // the other units are very long
static const std::vector<u64>& units()
{
    static const auto u = [] {
        std::vector<u64> r;
        for (u64 l : { 0, 2, 3, 5, 6, 10, 11, 12, 13, 24, 25, 40, 100, 300 }) r.push_back(l);
        for (u64 l : { 12, 25, 40, 300 }) for (u64 f : { 1, 2, 3, 4, 6 }) r.push_back(l | f << 32);
        r.push_back(u64(5) << 32);
        n_small = r.size();
        // very long messages
        for (u64 l : { 700, 1529, 1530, 1535, 1536, 1541, 1542, 2000, 3328, 3400, 5000, 8191, 10000, 16384, 16385, 20000, 33000, 65535, 65536, 65541, 100000, 131072, 131080, 262150, 400000, 1000000 })
            for (u64 f : { 0, 1, 4, 6, 7 }) if (l <= 20000 || f == 0 || l == 400000) r.push_back(l | f << 32);
        return r;
    }();
    return u;
}
void long_runs::enumerate(Ctx& c)
{
    std::vector<u64> counts = { 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257 };
    if (c.thorough) counts.insert(counts.end(), { 511, 512, 513, 1024, 1025, 4096 });
    units();
    const auto n = n_small;
    for (unsigned eight = 0; eight < 2; ++eight)
    {
        if ((c.property == "C06" || c.property == "C08") && eight) continue;
        if ((c.property == "C07" || c.property == "C09") && !eight) continue;
        for (u64 limit : { 0, 13, 100 })
        {
            if (c.property != "C10" && limit) continue;
            for (u64 a = 0; a < n; ++a)
                for (u64 b = 0; b < n; ++b)
                    if (c.mine()) for (auto k : counts) c.exec<long_runs>(eight, limit, a, k, b);
            for (u64 a = 0; a < n; ++a)
                if (u32(units()[a]) <= 25 && c.mine()) for (u64 k : { 32768, 65535, 65536, 65537 }) c.exec<long_runs>(eight, limit, a, k, a ? 3 : 9);
            for (u64 a = n; a < units().size(); ++a)
                for (u64 b : { u64(3), u64(10), u64(13), a })
                    if (c.mine()) for (u64 k : { 1, 2 }) c.exec<long_runs>(eight, limit, a, k, b);
        }
    }
    c.bound(fmt("all pairs (A, B) of %zu units (messages of 0..300 data bytes, whole, without start, without end, interrupted, other stream in between; reset): A %zu different numbers of times (2..257, short ones up to 65537), then B, B, A on the same collector; very long messages (700..1000000 bytes) likewise", (std::size_t)n, counts.size()));
}
void long_runs::run(Ctx& c, Args a)
{
    const bool eight = a[0];
    Sys s(eight);
    if (a[1]) s.set_limit(a[1]);
    u64 n = 0;
    std::vector<midi::universal_packet> ps[2];
    for (unsigned k = 0; k < 2; ++k)
    {
        const u64 u = units()[k ? a[4] : a[2]];
        ps[k] = packets(eight, (u & 1) ? 0x002109 : 0x7E0000, unsigned(u32(u)), 3 + k, 0);
        const unsigned f = unsigned(u >> 32);
        if (f == 1 || f == 3) ps[k].pop_back();
        if (f == 2 || f == 3) ps[k].erase(ps[k].begin());
        if (f == 5) ps[k].clear();
        if (f == 4) ps[k].insert(ps[k].begin() + 1, { others[0], others[1], others[2], others[eight ? 5 : 4] });
        if (f == 7)
        {
            auto x = std::move(ps[k]);
            ps[k].clear();
            for (std::size_t i = 0; i < x.size(); ++i) { ps[k].push_back(x[i]); ps[k].push_back(others[i % 4]); }
        }
        if (f == 6)
        {
            auto x = ps[k];
            for (auto& p : x) if (eight) p.set_byte(2, 9); else p.data[0] = 0x40903C00u;
            if (x.size() > 2) ps[k].insert(ps[k].begin() + 1, x.begin() + 1, x.end() - 1);
        }
    }
    auto unit = [&](unsigned k) {
        if (ps[k].empty()) s.reset();
        for (auto& p : ps[k]) s.feed(c, p);
        n += ps[k].size();
        c.tick();
    };
    for (u64 i = 0; i < a[3]; ++i) unit(0);
    unit(1); unit(1); unit(0);
    c.st->transitions += n; ++c.st->traces;
    if (s.out_hash) { c.nontrivial(); c.outcome(s.out_hash); }
    c.state(mix(mix(a[2], a[3]), a[4] * 2 + eight));
    if (c.want_sample() && a[3] > 5) c.sample(fmt("SysEx%u limit %u: unit %llx %u times, then %llx twice", eight ? 8 : 7, unsigned(a[1]), (unsigned long long)units()[a[2]], unsigned(a[3]), (unsigned long long)units()[a[4]]));
}

int main(int argc, char** argv) { return mc::main_(argc, argv); }
