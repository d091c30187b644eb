// C33: SysEx and other messages through packets -> MIDI 1 byte stream -> parser -> collector.
#include "parser_model.h"
#include "ci_views.h"
#include <midi/capability_inquiry.h>
#include <midi/midi1_byte_stream.h>
#include <midi/midi1_channel_voice_message.h>
#include <midi/midi2_channel_voice_message.h>
#include <midi/stream_message.h>
#include <midi/sysex.h>
#include <midi/sysex_collector.h>
#include <midi/system_message.h>
#include <midi/universal_sysex.h>
#include <midi/utility_message.h>
using namespace mc;
using pm::Ev;
using pm::Sink;
using Packets = std::vector<midi::universal_packet>;

static Ev ev(const midi::sysex7& s)
{
    Ev e; e.is_sysex = true; e.manufacturer = s.manufacturerID; e.data.assign(s.data.begin(), s.data.end());
    return e;
}

// what arrived, in order of arrival
static Sink got;

// Mode 0: whole SysEx from the parser.  Mode 1: packets from the parser, SysEx reassembled by the collector.
struct Receiver
{
    midi::sysex7_collector collector{ [](const midi::sysex7& s) { got.push_back(ev(s)); } };
    midi::midi1_byte_stream_parser parser;
    Receiver(unsigned mode, unsigned group)
      : parser(midi::group_t(group), [this](midi::universal_packet p) { packet(p); }, mode ? midi::midi1_byte_stream_parser::sysex_callback{} : [](const midi::sysex7& s) { got.push_back(ev(s)); })
    {
    }
    Receiver(const Receiver&) = delete;
    void packet(const midi::universal_packet& p)
    {
        collector.feed(p);
        if ((p.data[0] >> 28) == 3) return;
        Ev e;
        for (int i = 0; i < 4; ++i) e.w[i] = p.data[i];
        got.push_back(e);
    }
};

// One thing on the wire: packet(s) of the sender and what must arrive for it on `group`
struct Item
{
    Packets packets;
    std::vector<Ev> arrives; // none for packets that have no MIDI 1 form
};

static Item sysex_item(const midi::sysex7& s, unsigned group, bool via_vector = false)
{
    Item i;
    if (via_vector) for (auto& p : midi::as_sysex7_packets(s, midi::group_t(group))) i.packets.push_back(p);
    else midi::send_sysex7(s, midi::group_t(group), [&](const midi::data_message& p) { i.packets.push_back(p); });
    i.arrives = { ev(s) };
    return i;
}
static Item plain_item(u32 w0, unsigned group)
{
    Item i;
    midi::universal_packet p;
    p.data[0] = (w0 & 0xF0FFFFFFu) | (group << 24);
    i.packets = { p };
    Ev e; e.w[0] = p.data[0];
    i.arrives = { e };
    return i;
}
static Item foreign_item(u32 w0)
{
    Item i;
    midi::universal_packet p;
    const u32 w[4] = { w0, 0x01020304, 0x7F7F7F7F, 0x11223344 };
    for (int k = 0; k < 4; ++k) p.data[k] = w[k];
    i.packets = { p };
    return i;
}

static u8 content(unsigned pat, unsigned i)
{
    switch (pat)
    {
    case 0: return u8((i * 7 + 1) & 0x7F);
    case 1: return 0;
    case 2: return 0x7F;
    default: return u8(((i >> 3) ^ (i * 29) ^ 0x55) & 0x7F);
    }
}
static midi::sysex7 make_sysex(u32 man, unsigned len, unsigned pat)
{
    midi::sysex7 s{ midi::manufacturer_t(man) };
    for (unsigned i = 0; i < len; ++i) s.data.push_back(content(pat, i));
    return s;
}
static const u32 mans[] = { 0x7E0000, 0x7F0000, 0x7D0000, 0x010000, 0x002109, 0x000001, 0x000100, 0x007F7F };

static void to_bytes(Ctx& c, const midi::universal_packet& p, std::vector<u8>& out)
{
    u8 b[10];
    memset(b, 0xEE, sizeof b);
    const auto n = midi::to_midi1_byte_stream(p, b);
    MC_CHECK(c, n <= 8 && b[8] == 0xEE && b[9] == 0xEE, "more than eight bytes for packet %08X", p.data[0]);
    out.insert(out.end(), b, b + n);
}

static void compare(Ctx& c, const Sink& want, const std::vector<u8>& bytes, unsigned mode)
{
    if (want.size() == got.size() && std::equal(want.begin(), want.end(), got.begin())) return;
    c.fail(fmt("mode %u, bytes %s: ", mode, hex(bytes).substr(0, 600).c_str()) + "sent " + pm::str(want).substr(0, 900) + " arrived " + pm::str(got).substr(0, 900));
}

// chunk: 0 byte-wise, 1 whole buffer, n>1 pieces of n bytes
static void transmit(Ctx& c, Receiver& r, const std::vector<u8>& bytes, unsigned chunk)
{
    if (chunk == 0) for (auto b : bytes) r.parser.feed(b);
    else if (chunk == 1) r.parser.feed(bytes.data(), bytes.size());
    else
        for (std::size_t i = 0; i < bytes.size(); i += chunk)
        {
            const auto n = std::min<std::size_t>(chunk, bytes.size() - i);
            if ((i / chunk) & 1) r.parser.feed(bytes.data() + i, bytes.data() + i + n);
            else r.parser.feed(bytes.data() + i, n);
        }
    c.st->transitions += bytes.size();
}

//---------------------------------------------------------------------------------------------------------------------
// every length: the message twice in a row, in both modes.  case: man, len, pat, group
MC_SECTION("C33", single_message);
void single_message::run(Ctx& c, Args a)
{
    const auto s = make_sysex(u32(a[0]), unsigned(a[1]), unsigned(a[2]));
    const auto item = sysex_item(s, unsigned(a[3]), a[1] & 1);
    std::vector<u8> bytes;
    for (auto& p : item.packets) to_bytes(c, p, bytes);
    bytes.insert(bytes.end(), bytes.begin(), bytes.begin() + bytes.size());
    for (unsigned mode = 0; mode < 2; ++mode)
    {
        Receiver r(mode, unsigned(a[3]));
        got.clear();
        transmit(c, r, bytes, unsigned(a[1] % 5));
        compare(c, { ev(s), ev(s) }, bytes, mode);
        ++c.st->traces;
        c.tick();
    }
    c.state(mix(a[1], a[0]));
    c.outcome(ev(s).hash());
    if (item.packets.size() > 1) c.nontrivial();
}
void single_message::enumerate(Ctx& c)
{
    const unsigned all = c.thorough ? 6000 : 700;
    for (auto man : mans)
        for (unsigned len = 0; len <= all; ++len)
            if (c.mine())
                for (unsigned pat = 0; pat < 4; ++pat) c.exec<single_message>(man, len, pat, (len + pat) % 16);
    for (auto man : { 0x7E0000u, 0x002109u })
        for (unsigned len : { 1020u, 1021u, 1022u, 1023u, 1024u, 1025u, 2047u, 2048u, 2049u, 4096u, 16383u, 16384u, 16385u, 32768u, 65535u, 65536u, 70000u, 131080u, 262150u, 300000u, 600000u, 1050000u })
            if (c.mine()) c.exec<single_message>(man, len, 3, 5);
    for (unsigned b : { 32768u, 65536u, 131072u })
        for (unsigned d = 0; d < 32; ++d) if (c.mine()) c.exec<single_message>(d & 16 ? 0x002109u : 0x7E0000u, b - 4 + d % 16, 3, 5);
    c.bound(fmt("8 manufacturers x all lengths 0..%u x 4 contents, lengths around 1024/16384/65536, up to 1050000; both receiver modes; byte-wise and buffered feeding", all));
}

//---------------------------------------------------------------------------------------------------------------------
// real-time bytes at byte positions inside and around a SysEx.  case: man, len, rt1, pos1, rt2, pos2 (pos: 1-based, 0 none), mode
static const u8 realtime[] = { 0xF8, 0xFA, 0xFB, 0xFC, 0xFE, 0xFF };
static Ev rt_event(u8 b, unsigned group) { Ev e; e.w[0] = 0x10000000u | (group << 24) | (u32(b) << 16); return e; }

MC_SECTION("C33", realtime_positions);
void realtime_positions::run(Ctx& c, Args a)
{
    const unsigned group = 9, mode = unsigned(a[6]);
    const auto s = make_sysex(u32(a[0]), unsigned(a[1]), 3);
    const auto item = sysex_item(s, group);
    const auto after = plain_item(0x20903C40, group);
    std::vector<u8> base;
    for (auto& p : item.packets) to_bytes(c, p, base);
    const std::size_t end = base.size();
    to_bytes(c, after.packets[0], base);
    std::vector<u8> bytes;
    Sink want;
    for (std::size_t i = 0; i <= base.size(); ++i)
    {
        if (a[3] == i + 1) { bytes.push_back(u8(a[2])); want.push_back(rt_event(u8(a[2]), group)); }
        if (a[5] == i + 1) { bytes.push_back(u8(a[4])); want.push_back(rt_event(u8(a[4]), group)); }
        if (i == base.size()) break;
        bytes.push_back(base[i]);
        if (i + 1 == end) want.push_back(ev(s));
        if (i + 1 == base.size()) want.push_back(after.arrives[0]);
    }
    Receiver r(mode, group);
    got.clear();
    transmit(c, r, bytes, a[3] % 3 == 0);
    compare(c, want, bytes, mode);
    ++c.st->traces;
    c.state(mix(mix(a[1], a[0]), mix(a[3], a[5])));
    c.nontrivial();
}
void realtime_positions::enumerate(Ctx& c)
{
    const unsigned pairs = c.thorough ? 60 : 24, singles = c.thorough ? 600 : 120;
    for (u32 man : { 0x7E0000u, 0x002109u })
        for (unsigned len = 0; len <= singles; ++len)
        {
            if (!c.mine()) continue;
            const unsigned n = len + (man & 0xFF0000 ? 1 : 3) + 2 + 3;
            for (unsigned mode = 0; mode < 2; ++mode)
                for (unsigned p = 1; p <= n + 1; ++p)
                {
                    for (auto b : realtime) c.exec<realtime_positions>(man, len, b, p, 0, 0, mode);
                    if (len <= pairs)
                        for (unsigned q = p; q <= n + 1; ++q)
                            for (auto b : { 0xF8, 0xFE }) c.exec<realtime_positions>(man, len, 0xFA, p, b, q, mode);
                }
        }
    c.bound(fmt("2 manufacturers, lengths 0..%u, all 6 real-time messages at every byte position; two at all position pairs for lengths 0..%u", singles, pairs));
}

//---------------------------------------------------------------------------------------------------------------------
// other packets between the packets of a SysEx: real-time messages arrive, packets without a MIDI 1 form have no effect.
// case: man, len, n, kind x n (one per packet boundary, 0: nothing), mode
static const u32 foreign[] = { 0x00000000, 0x00101234, 0x00201234, 0x43903C00, 0x52143401, 0xD3100300, 0xF0000101 };
MC_SECTION("C33", packet_boundaries);
void packet_boundaries::run(Ctx& c, Args a)
{
    const unsigned group = 3, n = unsigned(a[2]), mode = unsigned(a[3 + n]);
    const auto s = make_sysex(u32(a[0]), unsigned(a[1]), 0);
    const auto item = sysex_item(s, group, true);
    MC_CHECK(c, item.packets.size() + 1 == n, "%zu packets for %llu data bytes", item.packets.size(), (unsigned long long)a[1]);
    std::vector<u8> bytes;
    Sink want;
    for (unsigned i = 0; i < n; ++i)
    {
        const u64 k = a[3 + i];
        if (k >= 0xF8)
        {
            const auto x = plain_item(0x10000000u | u32(k) << 16, group);
            to_bytes(c, x.packets[0], bytes);
            want.push_back(x.arrives[0]);
        }
        else if (k)
        {
            const auto before = bytes.size();
            to_bytes(c, foreign_item(foreign[k - 1]).packets[0], bytes);
            MC_CHECK(c, bytes.size() == before, "packet %08X has no MIDI 1 form but gave bytes", foreign[k - 1]);
        }
        if (i + 1 < n) to_bytes(c, item.packets[i], bytes);
        if (i + 2 == n) want.push_back(ev(s));
    }
    Receiver r(mode, group);
    got.clear();
    transmit(c, r, bytes, 0);
    compare(c, want, bytes, mode);
    ++c.st->traces;
    c.state(fnv(a.v, a.n * sizeof(u64)));
    c.nontrivial();
}
void packet_boundaries::enumerate(Ctx& c)
{
    std::vector<u64> kinds{ 0 };
    for (auto b : realtime) kinds.push_back(b);
    for (u64 i = 0; i < sizeof(foreign) / sizeof(*foreign); ++i) kinds.push_back(i + 1);
    const unsigned maxp = c.thorough ? 5 : 4;
    for (u32 man : { 0x7F0000u, 0x000100u })
        for (unsigned len = 0; len <= 40; ++len)
        {
            const unsigned wire = len + (man & 0xFF0000 ? 1 : 3), np = (wire + 5) / 6, n = np + 1;
            if (n > maxp) continue;
            std::vector<u64> v{ man, len, n };
            v.resize(4 + n);
            std::function<void(unsigned)> rec = [&](unsigned i) {
                if (i == n)
                {
                    for (u64 mode = 0; mode < 2; ++mode) { v[3 + n] = mode; c.exec_vec<packet_boundaries>(v); }
                    return;
                }
                for (auto k : kinds)
                {
                    if (i == 0 && !c.mine()) continue;
                    v[3 + i] = k;
                    rec(i + 1);
                }
            };
            rec(0);
        }
    c.bound(fmt("2 manufacturers, all lengths up to %u packets, every combination of 6 real-time packets, %zu kinds of packets without MIDI 1 form or nothing at every packet boundary", maxp - 1, sizeof(foreign) / sizeof(*foreign)));
}

//---------------------------------------------------------------------------------------------------------------------
// sequences of messages.  case: item indices
static std::vector<Item> menu(unsigned group)
{
    std::vector<Item> m;
    m.push_back(sysex_item(make_sysex(0x7E0000, 0, 0), group));
    m.push_back(sysex_item(make_sysex(0x7D0000, 5, 2), group));  // one full packet
    m.push_back(sysex_item(make_sysex(0x7F0000, 6, 3), group));  // one byte in the second packet
    m.push_back(sysex_item(make_sysex(0x002109, 9, 1), group));  // two full packets
    m.push_back(sysex_item(make_sysex(0x000001, 0, 1), group));
    {
        m.push_back(sysex_item(midi::universal_sysex::make_identity_request(0x12), group));
    }
    m.push_back(sysex_item(midi::ci::make_invalidate_muid_message(0x1234567, 0x7654321), group));
    m.push_back(plain_item(0x20903C40, group));
    m.push_back(plain_item(0x20913C40, group));
    m.push_back(plain_item(0x20C50700, group));
    m.push_back(plain_item(0x20E27F01, group));
    m.push_back(plain_item(0x10F25511, group));
    m.push_back(plain_item(0x10F10100, group));
    m.push_back(plain_item(0x10F60000, group));
    m.push_back(plain_item(0x10F80000, group));
    m.push_back(foreign_item(0x43903C00 | (group << 24)));
    m.push_back(foreign_item(0x00101234 | (group << 24)));
    return m;
}
MC_SECTION("C33", message_sequences);
void message_sequences::run(Ctx& c, Args a)
{
    static const auto m = menu(7);
    std::vector<u8> bytes;
    Sink want;
    u64 h = 1;
    for (std::size_t i = 0; i < a.n; ++i)
    {
        const auto& it = m[a[i] % m.size()];
        for (auto& p : it.packets) to_bytes(c, p, bytes);
        want.insert(want.end(), it.arrives.begin(), it.arrives.end());
        h = mix(h, a[i]);
    }
    for (unsigned mode = 0; mode < 2; ++mode)
    {
        Receiver r(mode, 7);
        got.clear();
        transmit(c, r, bytes, unsigned(a[0] % 3));
        compare(c, want, bytes, mode);
        ++c.st->traces;
    }
    c.state(h);
    if (c.st->outcomes.size() < 5000) c.outcome(fnv(bytes.data(), bytes.size()));
    c.nontrivial(want.size() > 1);
    if (a.n == 4 && c.want_sample()) c.sample(fmt("bytes %s -> %s", hex(bytes).c_str(), pm::str(want).c_str()));
}
void message_sequences::enumerate(Ctx& c)
{
    const unsigned depth = c.thorough ? 6 : 5;
    const auto n = menu(7).size();
    std::vector<u64> v;
    std::function<void()> rec = [&] {
        if (!v.empty()) c.exec_vec<message_sequences>(v);
        if (v.size() == depth) return;
        for (u64 i = 0; i < n; ++i)
        {
            if (v.size() == 1 && !c.mine()) continue;
            v.push_back(i);
            rec();
            v.pop_back();
        }
    };
    rec();
    c.bound(fmt("all sequences of up to %u messages from a menu of %zu (SysEx of all packet shapes, identity request, MIDI-CI, channel voice, system common, real-time, packets without MIDI 1 form), both receiver modes", depth, n));
}

//---------------------------------------------------------------------------------------------------------------------
// long histories on one receiver: message A n times, B twice, A.  case: A, n, B, real-time byte after every byte (0: none), mode
MC_SECTION("C33", long_runs);
void long_runs::run(Ctx& c, Args a)
{
    static const auto m = [] {
        auto x = menu(7);
        for (unsigned len : { 20u, 100u, 1500u }) x.push_back(sysex_item(make_sysex(len & 4 ? 0x002109 : 0x7E0000, len, 3), 7));
        return x;
    }();
    Receiver r(unsigned(a[4]), 7);
    u64 bytes_total = 0;
    auto send = [&](const Item& it) {
        std::vector<u8> bytes, line;
        for (auto& p : it.packets) to_bytes(c, p, bytes);
        Sink want;
        for (std::size_t i = 0; i < bytes.size(); ++i)
        {
            line.push_back(bytes[i]);
            if (i + 1 == bytes.size()) want.insert(want.end(), it.arrives.begin(), it.arrives.end());
            if (a[3]) { line.push_back(u8(a[3])); want.push_back(rt_event(u8(a[3]), 7)); }
        }
        got.clear();
        transmit(c, r, line, unsigned(a[1] & 1));
        compare(c, want, line, unsigned(a[4]));
        bytes_total += line.size();
        c.tick();
    };
    for (u64 i = 0; i < a[1]; ++i) send(m[a[0]]);
    send(m[a[2]]); send(m[a[2]]); send(m[a[0]]);
    ++c.st->traces;
    c.state(fnv(a.v, a.n * sizeof(u64)));
    c.nontrivial();
}
void long_runs::enumerate(Ctx& c)
{
    const u64 n = menu(7).size() + 3;
    std::vector<u64> counts = { 17, 300, 1100 };
    if (c.thorough) counts.insert(counts.end(), { 64, 130, 5000 });
    for (u64 x = 0; x < n; ++x)
        for (u64 y = 0; y < n; ++y)
            for (u64 mode = 0; mode < 2; ++mode)
                if (c.mine())
                    for (auto k : counts)
                        for (u64 rt : { 0, 0xF8, 0xFE })
                            if (k <= 300 || x < n - 3) c.exec<long_runs>(x, k, y, rt, mode);
    for (u64 x = 0; x < n - 3; ++x)
        for (u64 mode = 0; mode < 2; ++mode)
            for (u64 rt : { 0, 0xF8, 0xFA, 0xFB, 0xFC, 0xFE, 0xFF })
                if (c.mid && c.mine()) c.exec<long_runs>(x, 66000, 3, rt, mode);
    c.bound(fmt("all pairs (A, B) of %llu messages: A 17, 300 and 1100 times (short ones up to 66000), B twice, A, without and with a real-time message after every byte, both receiver modes", (unsigned long long)n));
}

//---------------------------------------------------------------------------------------------------------------------
// MIDI-CI and identity messages: what arrives offers the same view with the same fields.
// case: message kind, size parameter, mode
static midi::sysex7 ci_message(u64 kind, unsigned n)
{
    using namespace midi;
    const muid_t a = 0x0ABCDEF, b = 0x7654321;
    device_identity id; id.manufacturer = 0x002109; id.family = 0x1234; id.model = 0x3FFF; id.revision = 0x7F01020;
    std::vector<ci::profile_id> l1, l2;
    for (unsigned i = 0; i < n && i < 120; ++i) (i % 3 ? l1 : l2).push_back(ci::profile_id(0x7E, u8(i & 0x7F), u8((i * 3) & 0x7F), 1, 2));
    std::vector<uint7_t> data;
    for (unsigned i = 0; i < n; ++i) data.push_back(uint7_t(content(3, i)));
    const std::string text(n, 'x');
    switch (kind)
    {
    case 0: return universal_sysex::make_identity_request(uint7_t(n & 0x7F));
    case 1: return universal_sysex::make_identity_reply(id);
    case 2: return ci::make_discovery_inquiry(a, id, 0x1C, 512 + n);
    case 3: return ci::make_discovery_reply(a, b, id, 0x1C, 512 + n, 3, 4);
    case 4: return ci::make_invalidate_muid_message(a, b);
    case 5: return ci::make_profile_inquiry_message(a, b, uint7_t(n & 0x7F));
    case 6: return ci::make_profile_inquiry_reply(a, b, l1, l2);
    case 7: return ci::make_profile_specific_data_message(a, b, ci::profile_id(0x7E, 1, 2, 3, 4), data);
    case 8: return ci::make_property_exchange_capabilities_inquiry(a, b, uint7_t(n & 0x7F));
    case 9: return ci::make_get_property_data_inquiry(a, b, text, 5);
    case 10: return ci::make_get_property_data_reply(a, b, 200, 3, 2, midi::ci::property_exchange::chunk(data), 7);
    default: return ci::make_nak_message_v1(a, b, uint7_t(n & 0x7F));
    }
}
static midi::sysex7 arrived;
MC_SECTION("C33", ci_messages);
void ci_messages::run(Ctx& c, Args a)
{
    const auto s = ci_message(a[0], unsigned(a[1]));
    const unsigned mode = unsigned(a[2]), group = 15;
    std::vector<u8> bytes;
    for (auto& p : sysex_item(s, group).packets) to_bytes(c, p, bytes);
    unsigned count = 0;
    auto keep = [&](const midi::sysex7& x) { arrived = x; ++count; };
    midi::sysex7_collector col{ keep };
    midi::midi1_byte_stream_parser::sysex_callback cb;
    if (!mode) cb = keep;
    midi::midi1_byte_stream_parser parser(midi::group_t(group), [&](midi::universal_packet p) { col.feed(p); }, cb);
    for (auto b : bytes) parser.feed(b);
    c.st->transitions += bytes.size();
    MC_CHECK(c, count == 1, "arrived %u times", count);
    MC_CHECK(c, arrived == s && !(arrived != s), "sent %s arrived %s", ev(s).str().c_str(), ev(arrived).str().c_str());
    unsigned offered = 0;
    for (int k = 0; k < K_COUNT; ++k)
    {
        Fields f, g;
        const int o = real::offer(k, f, s, false), q = real::offer(k, g, arrived, false);
        MC_CHECK(c, o == q && f == g, "view %s: sent %d%s, arrived %d%s", kind_name[k], o, f.str().c_str(), q, g.str().c_str());
        offered += o == 1;
    }
    MC_CHECK(c, offered >= 1, "no view offered");
    ++c.st->traces;
    c.state(mix(a[0], a[1]));
    c.outcome(ev(s).hash());
    c.nontrivial();
}
void ci_messages::enumerate(Ctx& c)
{
    const unsigned n = c.thorough ? 1500 : 200;
    for (u64 k = 0; k < 12; ++k)
        for (u64 i = 0; i <= n; ++i)
            if (c.mine())
                for (u64 mode = 0; mode < 2; ++mode) c.exec<ci_messages>(k, i, mode);
    c.bound(fmt("12 kinds of identity and MIDI-CI messages, all sizes 0..%u of their lists, texts or data; all views of original and arrived message compared", n));
}

int main(int argc, char** argv) { return main_(argc, argv); }
