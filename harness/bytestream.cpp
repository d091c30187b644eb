// C05: packet <-> byte stream conversion
#include "parser_model.h"
#include <midi/data_message.h>
#include <midi/system_message.h>
#include <midi/midi1_channel_voice_message.h>
using namespace mc;
using namespace pm;

// what the MIDI 1.0 / UMP rules say about one packet
static std::vector<u8> expected_bytes(const midi::universal_packet& p)
{
    const unsigned type = p.data[0] >> 28, status = (p.data[0] >> 16) & 0xFF;
    std::vector<u8> r;
    auto byte = [&](unsigned i) { return u8(p.data[i / 4] >> ((3 - i % 4) * 8)); };
    if (type == 1 && status >= 0xF0 && data_bytes(u8(status)) >= 0)
        for (int i = 0; i <= data_bytes(u8(status)); ++i) r.push_back(byte(1 + i));
    if (type == 2 && status >= 0x80 && status < 0xF0)
        for (int i = 0; i <= data_bytes(u8(status)); ++i) r.push_back(byte(1 + i));
    if (type == 3 && (status >> 4) <= 3 && (status & 0xF) <= 6)
    {
        const unsigned f = status >> 4, n = status & 0xF;
        if (f == 0 || f == 1) r.push_back(0xF0);
        for (unsigned i = 0; i < n; ++i) r.push_back(byte(2 + i));
        if (f == 0 || f == 3) r.push_back(0xF7);
    }
    return r;
}

static void convert_one(Ctx& c, const midi::universal_packet& p)
{
    const auto exp = expected_bytes(p);
    u8 guard[24];
    memset(guard, 0xA5, sizeof(guard));
    u8* buf = guard + 8;
    const auto n = midi::to_midi1_byte_stream(p, buf);
    MC_CHECK(c, n <= 8, "%zu bytes written", size_t(n));
    for (int i = 0; i < 8; ++i) MC_CHECK(c, guard[i] == 0xA5 && guard[16 + i] == 0xA5, "wrote outside the buffer");
    MC_CHECK(c, n == exp.size() && std::equal(exp.begin(), exp.end(), buf), "packet %08X %08X: expected [%s] got [%s]", p.data[0], p.data[1], hex(exp).c_str(), hex({ buf, buf + n }).c_str());
    const unsigned type = p.data[0] >> 28;
    const auto sz = midi::midi1_byte_stream_size(p);
    if (type == 3) MC_CHECK(c, sz == (exp.empty() ? 0 : (p.status() & 0xFu)), "size %zu of %08X", size_t(sz), p.data[0]);
    else MC_CHECK(c, sz == exp.size(), "size %zu of %08X, %zu bytes", size_t(sz), p.data[0], exp.size());
    if (!exp.empty()) { c.nontrivial(); c.outcome(fnv(exp.data(), exp.size())); }
}

// all system and channel voice packets: case = type, group, status (inner loop: all data bytes)
MC_SECTION("C05", short_packets);
void short_packets::enumerate(Ctx& c)
{
    for (unsigned type : { 1u, 2u })
#ifdef MC_SAN
        for (unsigned g : { 0, 15 })
#else
        for (unsigned g = 0; g < 16; ++g)
#endif
            for (unsigned st = 0; st < 256; ++st)
                if (c.mine()) c.exec<short_packets>(type, g, st);
    c.bound("every system and MIDI 1 channel voice packet: all groups, all 256 statuses, all 128x128 data bytes (2^27 packets)");
}
void short_packets::run(Ctx& c, Args a)
{
    const unsigned type = unsigned(a[0]), g = unsigned(a[1]), st = unsigned(a[2]);
    Sink sink; Sink* cur = &sink;
    auto parser = make_parser(g, false, &cur);
    for (unsigned d1 = 0; d1 < 128; ++d1)
        for (unsigned d2 = 0; d2 < 128; ++d2)
        {
            const midi::universal_packet p{ (type << 28) | (g << 24) | (st << 16) | (d1 << 8) | d2 };
            convert_one(c, p);
            // inverse
            const auto exp = expected_bytes(p);
            if (!exp.empty() && (d2 < 3 || d2 == d1 || d2 == 127))
            {
                u8 b[8];
                const auto n = midi::to_midi1_byte_stream(p, b);
                sink.clear();
                parser.feed(b, n);
                Ev e;
                e.w[0] = (type << 28) | (g << 24) | (st << 16) | (exp.size() > 1 ? d1 << 8 : 0) | (exp.size() > 2 ? d2 : 0);
                MC_CHECK(c, sink.size() == 1 && sink[0] == e, "parsing the bytes of %08X yields %s", p.data[0], str(sink).c_str());
                ++c.st->traces;
            }
            ++c.st->transitions;
        }
    if (c.want_sample() && st >= 0x80) c.sample(fmt("type %u group %u status %02X, all data bytes", type, g, st));
}

// all packet types x all statuses x payload patterns
MC_SECTION("C05", all_types);
static const u32 words[] = { 0, 0x01020304, 0x7F7F7F7F, 0x11223344, 0x00000001, 0x40000000, 0x55555555, 0x2A2A2A2A };
void all_types::enumerate(Ctx& c)
{
    for (unsigned type = 0; type < 16; ++type)
        for (unsigned g = 0; g < 16; ++g)
            for (unsigned st = 0; st < 256; ++st)
            {
                if (!c.mine()) continue;
                for (unsigned low = 0; low < 8; ++low)
                    for (unsigned w = 0; w < 8; ++w) c.exec<all_types>(type, g, st, low, w);
            }
    c.bound("all 16 message types x 16 groups x 256 statuses x 64 payload patterns");
}
void all_types::run(Ctx& c, Args a)
{
    midi::universal_packet p{ u32(a[0] << 28) | u32(a[1] << 24) | u32(a[2] << 16) | (words[a[3]] & 0xFFFF), words[a[4]], words[7 - a[4]], 0xFFFFFFFF };
    convert_one(c, p);
    ++c.st->transitions;
    if (c.want_sample() && a[0] == 3) c.sample(fmt("%08X %08X", p.data[0], p.data[1]));
}

// SysEx7 payload: one position takes all 128 values, each size and format
MC_SECTION("C05", sysex_packets);
void sysex_packets::enumerate(Ctx& c)
{
    for (unsigned f = 0; f < 4; ++f)
        for (unsigned n = 0; n <= 6; ++n)
            for (unsigned pos = 0; pos < 6; ++pos)
            {
                if (!c.mine()) continue;
                for (unsigned v = 0; v < 128; ++v)
                    for (unsigned v2 = 0; v2 < 128; ++v2) c.exec<sysex_packets>(f, n, pos, v, v2);
            }
    c.bound("SysEx7 packets: all formats, sizes 0..6, all values of each pair of neighbouring payload bytes");
}
void sysex_packets::run(Ctx& c, Args a)
{
    midi::sysex7_packet p(midi::status_t(a[0] << 4), 4);
    for (unsigned i = 0; i < 6; ++i) p.set_payload_byte(i, i == a[2] ? u8(a[3]) : i == (a[2] + 1) % 6 ? u8(a[4]) : u8(0x31 + i));
    p.set_payload_size(a[1]);
    convert_one(c, p);
    ++c.st->transitions;
}

// sequences of packets through bytes and back. case: list of menu indices
struct Item { int kind; u32 w0, w1; }; // kind 0: plain; 1: SysEx packet
static std::vector<midi::universal_packet> menu()
{
    std::vector<midi::universal_packet> m;
    for (u32 w : { 0x22803C40u, 0x22903C00u, 0x22913D7Fu, 0x22A50102u, 0x22B00700u, 0x22C17F00u, 0x22D20100u, 0x22E30040u,
                   0x12F14200u, 0x12F27F01u, 0x12F30500u, 0x12F60000u, 0x12F80000u, 0x12FA0000u, 0x12FF0000u })
        m.emplace_back(w);
    return m;
}
MC_SECTION("C05", sequences);
void sequences::enumerate(Ctx& c)
{
    const auto m = menu();
    const unsigned N = unsigned(m.size()) + 8; // 8 SysEx shapes
    const unsigned L = c.thorough ? 6 : c.mid ? 5 : 4;
    u64 total = 1;
    for (unsigned i = 0; i < L; ++i) total *= N;
    for (u64 k = 0; k < total; ++k)
    {
        if (!c.mine(k)) continue;
        u64 x = k, v[8];
        for (unsigned i = 0; i < L; ++i) { v[i] = x % N; x /= N; }
        c.set_case(v, L);
        ++c.st->evaluations;
        run(c, Args{ v, L });
    }
    c.bound(fmt("all sequences of %u messages over %u (every message kind; SysEx of 1,2,5,6,7,12,13 and 20 bytes with real-time packets interleaved)", L, N));
}
void sequences::run(Ctx& c, Args a)
{
    static const auto m = menu();
    static const unsigned lens[8] = { 1, 2, 5, 6, 7, 12, 13, 20 };
    std::vector<midi::universal_packet> in;
    for (std::size_t i = 0; i < a.n; ++i)
    {
        if (a[i] < m.size()) { in.push_back(m[a[i]]); continue; }
        const unsigned n = lens[(a[i] - m.size()) & 7];
        midi::universal_packet rt{ 0x12F80000u };
        for (unsigned o = 0; o < n; o += 6)
        {
            const unsigned k = std::min(6u, n - o);
            midi::universal_packet p{ 0x32000000u | ((n <= 6 ? 0u : o == 0 ? 1u : o + 6 >= n ? 3u : 2u) << 20) | (k << 16) };
            for (unsigned b = 0; b < k; ++b) p.set_byte(2 + b, u8((o + b + 3 * i) & 0x7F));
            if (o) in.push_back(rt);
            in.push_back(p);
        }
    }
    std::vector<u8> bytes;
    for (auto& p : in)
    {
        u8 b[8];
        const auto n = midi::to_midi1_byte_stream(p, b);
        bytes.insert(bytes.end(), b, b + n);
    }
    static Sink sink; static Sink* cur = &sink;
    sink.clear();
    auto parser = make_parser(2, false, &cur);
    parser.feed(bytes.data(), bytes.size());
    // normal form: SysEx bytes as a byte string, plain packets as they are
    auto plain_of = [](const std::vector<midi::universal_packet>& v) { std::vector<u32> r; for (auto& p : v) if ((p.data[0] >> 28) != 3) r.push_back(p.data[0]); return r; };
    auto sysex_of = [](const std::vector<midi::universal_packet>& v) {
        std::vector<u32> r; bool open = false;
        for (auto& p : v)
        {
            if ((p.data[0] >> 28) != 3) continue;
            const unsigned f = (p.data[0] >> 20) & 0xF, n = (p.data[0] >> 16) & 0xF;
            if (f == 0 || f == 1) { r.push_back(open ? 0xBAD : 0xF0); open = true; }
            else if (!open) r.push_back(0xBAD);
            r.push_back(p.group() << 8);
            r.pop_back();
            for (unsigned i = 0; i < n; ++i) r.push_back(p.get_byte(2 + i));
            if (f == 0 || f == 3) { r.push_back(0xF7); open = false; }
        }
        return r;
    };
    std::vector<midi::universal_packet> out;
    for (auto& e : sink) out.emplace_back(e.w[0], e.w[1]);
    MC_CHECK(c, plain_of(in) == plain_of(out), "messages differ after the round trip; bytes [%s] parsed as %s", hex(bytes).c_str(), str(sink).c_str());
    MC_CHECK(c, sysex_of(in) == sysex_of(out), "SysEx differs after the round trip; bytes [%s] parsed as %s", hex(bytes).c_str(), str(sink).c_str());
    ++c.st->traces; c.st->transitions += bytes.size();
    c.nontrivial();
    c.outcome(fnv(bytes.data(), bytes.size()));
    if (c.want_sample()) c.sample(hex(bytes));
}

// packets from status and data bytes: case = status
MC_SECTION("C05", from_bytes);
void from_bytes::enumerate(Ctx& c)
{
    for (unsigned st = 0; st < 256; ++st) if (c.mine()) c.exec<from_bytes>(st);
    c.bound("all 256 statuses x 128 x 128 data bytes");
}
void from_bytes::run(Ctx& c, Args a)
{
    const unsigned st = unsigned(a[0]);
    const bool ok = (st >= 0x80 && st < 0xF0) || (st >= 0xF0 && data_bytes(u8(st)) >= 0);
    for (unsigned d1 = 0; d1 < 128; ++d1)
        for (unsigned d2 = 0; d2 < 128; ++d2)
        {
            const auto p = midi::from_midi1_byte_stream(u8(st), u8(d1), u8(d2));
            const u32 e = ok ? ((st >= 0xF0 ? 0x10000000u : 0x20000000u) | (st << 16) | (d1 << 8) | d2) : 0;
            u32 got = p.data[0];
            // bytes that do not belong to the message are not specified
            if (ok && data_bytes(u8(st)) < 2) { got &= ~0xFFu; }
            if (ok && data_bytes(u8(st)) < 1) { got &= ~0xFF00u; }
            u32 ee = e;
            if (ok && data_bytes(u8(st)) < 2) ee &= ~0xFFu;
            if (ok && data_bytes(u8(st)) < 1) ee &= ~0xFF00u;
            MC_CHECK(c, got == ee, "from %02X %02X %02X: %08X", st, d1, d2, p.data[0]);
            ++c.st->transitions;
            if (ok) c.nontrivial();
        }
}

int main(int argc, char** argv) { return mc::main_(argc, argv); }
