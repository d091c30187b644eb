// C01..C04: midi1_byte_stream_parser against the reference model
#include "parser_model.h"
using namespace mc;
using namespace pm;

// representative bytes: every status kind (two channels for one), all system bytes, data extremes
static const std::vector<u64> A_full = { 0x00, 0x01, 0x40, 0x7F, 0x80, 0x90, 0x9F, 0xA3, 0xB0, 0xC1, 0xDF, 0xE5,
                                         0xF0, 0xF7, 0xF1, 0xF2, 0xF3, 0xF4, 0xF5, 0xF6, 0xF8, 0xF9, 0xFA, 0xFD, 0xFF };
static const std::vector<u64> A_small = { 0x00, 0x15, 0x7F, 0x91, 0xC1, 0xF0, 0xF7, 0xF1, 0xF2, 0xF5, 0xF6, 0xF8, 0xF9 };

static std::string show(const std::vector<u64>& v)
{
    std::string s;
    for (auto x : v) s += x < 256 ? fmt("%02X ", (unsigned)x) : x == op_reset ? "reset " : x == op_disable ? "disable " : x == op_enable ? "enable " : fmt("group%u ", (unsigned)(x - op_group));
    return s;
}

static void dfs(Ctx& c, const Sys& s, const std::vector<u64>& alphabet, int depth)
{
    for (auto op : alphabet)
    {
        Sys n = s;
        c.push(op);
        n.step(c, op);
        ++c.st->transitions;
        c.state(n.m.key());
        if (n.out_hash != s.out_hash) c.outcome(n.out_hash);
        if (depth > 1) dfs(c, n, alphabet, depth - 1);
        else { ++c.st->traces; ++c.st->evaluations; if (n.out_hash) c.nontrivial(); if (n.out_hash && c.want_sample()) c.sample("ops " + show(c.path())); }
        c.pop();
    }
}

static void replay_ops(Ctx& c, Args a) // a[0]: mode, a[1]: group, rest ops
{
    Sys s(a[0] & 1, unsigned(a[1]), !(a[0] & 2));
    for (std::size_t i = 2; i < a.n; ++i) s.step(c, a[i]);
}

// C02 is about packets only, C03 about the SysEx handler only
static bool other_mode(Ctx& c, unsigned mode) { return (c.property == "C02" && (mode & 1)) || (c.property == "C03" && !(mode & 1)); }

//---------------------------------------------------------------------------------------------------------------------
// all byte sequences up to the depth over the representative alphabet
MC_SECTION("C01,C02,C03", stream_dfs);
void stream_dfs::enumerate(Ctx& c)
{
    const int depth = c.thorough ? 7 : 6;
    const bool both = c.property == "C01";
    for (unsigned mode = 0; mode < 2; ++mode)
    {
        if (!both && mode != (c.property == "C03")) continue;
        for (auto o1 : A_full)
            for (auto o2 : A_full)
            {
                if (!c.mine()) continue;
                const u64 init[] = { mode, 3, o1, o2 };
                c.set_case(init, 4);
                Sys s(mode, 3);
                s.step(c, o1);
                s.step(c, o2);
                dfs(c, s, A_full, depth - 2);
            }
    }
    c.bound(fmt("all byte sequences of length %d over %zu representative bytes", depth, A_full.size()));
}
void stream_dfs::run(Ctx& c, Args a) { replay_ops(c, a); }

//---------------------------------------------------------------------------------------------------------------------
// every model state x every byte value x every 2-step continuation
MC_SECTION("C01,C02,C03", state_cover);
static std::vector<std::vector<u64>> access_sequences()
{
    std::vector<std::vector<u64>> r;
    r.push_back({});
    for (unsigned st = 0x80; st < 0xF0; ++st)
    {
        r.push_back({ st });
        if (data_bytes(u8(st)) == 2) r.push_back({ st, 0x2A });
        // running status: one message complete
        r.push_back({ st, 0x11, 0x22 });
        if ((st & 0xF) < 2) r.push_back({ st, 0x11, 0x22, 0x33 });
    }
    for (u64 st : { 0xF1, 0xF2, 0xF3 }) r.push_back({ st });
    r.push_back({ 0xF2, 0x05 });
    for (unsigned n = 0; n <= 20; ++n)
    {
        std::vector<u64> v{ 0xF0 };
        for (unsigned i = 0; i < n; ++i) v.push_back((i * 5 + 1) & 0x7F);
        r.push_back(v);
        v.assign({ 0xF0 });
        for (unsigned i = 0; i < n; ++i) v.push_back(i < 1 ? 0 : (i * 3 + 1) & 0x7F);
        r.push_back(v);
    }
    // sysex interrupted / ended, then in progress again
    r.push_back({ 0xF0, 0x7E, 0x01, 0x90 });
    r.push_back({ 0xF0, 0x00, 0x01, 0xF7, 0xF0, 0x7E });
    r.push_back({ 0xF0, 1, 2, 3, 4, 5, 6, 7, 0xF0, 1, 2 });
    return r;
}
void state_cover::enumerate(Ctx& c)
{
    const auto acc = access_sequences();
    static const std::vector<u64> suffix = { 0x00, 0x22, 0x7F, 0x95, 0xC2, 0xF0, 0xF7, 0xF2, 0xF4, 0xF6, 0xFE };
    const bool both = c.property == "C01";
    for (unsigned mode = 0; mode < 2; ++mode)
    {
        if (!both && mode != (c.property == "C03")) continue;
        for (auto& a : acc)
        {
            if (!c.mine()) continue;
            const u64 init[] = { mode, 15 };
            c.set_case(init, 2);
            Sys s(mode, 15);
            for (auto op : a) { c.push(op); s.step(c, op); }
            for (unsigned b = 0; b < 256; ++b)
            {
                Sys n = s;
                c.push(b);
                n.step(c, b);
                ++c.st->transitions;
                c.state(n.m.key());
                dfs(c, n, suffix, c.thorough ? 4 : 3);
                c.pop();
            }
        }
    }
    c.bound(fmt("%zu access sequences covering every assembly state (all channel statuses, SysEx lengths 0..20) x all 256 bytes x all %d-byte continuations over %zu bytes", acc.size(), c.thorough ? 4 : 3, suffix.size()));
}
void state_cover::run(Ctx& c, Args a) { replay_ops(c, a); }

//---------------------------------------------------------------------------------------------------------------------
// every data pair for every status (values travel unchanged), with running status
MC_SECTION("C01", all_messages);
void all_messages::enumerate(Ctx& c)
{
    for (unsigned st = 0x80; st < 0x100; ++st)
    {
        if (st == 0xF0) continue;
        if (!c.mine()) continue;
        for (unsigned d1 = 0; d1 < 128; ++d1)
            for (unsigned d2 = 0; d2 < 128; ++d2)
                c.exec<all_messages>(st, d1, d2, st & 0xF);
    }
    c.bound("every status byte x all 16384 data byte pairs, followed by a running status repetition, on every group");
}
void all_messages::run(Ctx& c, Args a)
{
    Sys s(false, unsigned(a[3]));
    for (u64 op : { a[0], a[1], a[2], a[2], a[1], u64(0xF8), a[1] }) { s.step(c, op); ++c.st->transitions; }
    ++c.st->traces;
    if (s.out_hash) c.nontrivial();
    c.outcome(s.out_hash);
    if (c.want_sample() && a[1] > 3) c.sample(fmt("%02X %02X %02X + running status", (unsigned)a[0], (unsigned)a[1], (unsigned)a[2]));
}

//---------------------------------------------------------------------------------------------------------------------
// SysEx of every length with up to two interfering bytes at every position (deviation bound 0, 1, 2)
// case: mode, len, pattern, pos1, byte1, pos2, byte2, prefix
MC_SECTION("C02,C03", sysex_lengths);
static u8 sx_byte(unsigned pattern, unsigned i)
{
    switch (pattern)
    {
    case 0: return u8((i * 7 + 1) & 0x7F);          // one byte manufacturer 01
    case 1: return i == 0 ? 0 : u8((i * 11 + 3) & 0x7F); // three byte manufacturer
    case 2: return 0x7F;
    case 3: return 0;
    default: return u8(((i ^ (i >> 7)) * 13 + pattern) & 0x7F);
    }
}
static const std::vector<std::vector<u64>> prefixes = { {}, { 0x93, 0x40 }, { 0xB1, 0x07, 0x64 }, { 0xF0, 0x00, 0x21 }, { 0xF0, 0x41, 0x10, 0x42, 1, 2, 3, 4, 0xF6 }, { 0xF2, 0x33 }, { 0xF0, 0xF7 }, { 0xF0, 0x00, 0x20, 0x33, 0x01, 0xF7 }, { 0xF0, 0x7D, 0x55 } };
constexpr u64 none = ~u64{ 0 };
void sysex_lengths::enumerate(Ctx& c)
{
    const unsigned mode = c.property == "C03";
    const unsigned maxlen = c.thorough ? 400 : 80;
    // deviation 0: all lengths x patterns x prefixes
    for (unsigned len = 0; len <= maxlen; ++len)
    {
        if (!c.mine()) continue;
        for (unsigned pat = 0; pat < 5; ++pat)
            for (unsigned pre = 0; pre < prefixes.size(); ++pre) c.exec<sysex_lengths>(mode, len, pat, none, 0, none, 0, pre);
    }
    // buffer growth
    for (unsigned len : { 1000u, 1023u, 1024u, 1025u, 1026u, 1027u, 1028u, 2047u, 2048u, 2049u, 2050u, 2052u, 4095u, 4096u, 4097u, 4100u, 8193u, 16383u, 16384u, 16385u, 16388u, 20000u, 33000u, 65535u, 65536u, 65540u, 70000u, 131073u, 131080u, 262143u, 262150u, 300000u, 524300u, 1050000u })
        if (c.mine()) for (unsigned pat : { 0u, 1u, 5u }) c.exec<sysex_lengths>(mode, len, pat, none, 0, none, 0, 0);
    // deviation 1: each byte value >= 0x80 at each position
    const unsigned dev1 = c.thorough ? 64 : 26;
    for (unsigned len = 0; len <= dev1; ++len)
        for (unsigned pos = 0; pos <= len + 1; ++pos)
        {
            if (!c.mine()) continue;
            for (unsigned b = 0x80; b < 0x100; ++b)
                for (unsigned pat : { 0u, 1u })
                    c.exec<sysex_lengths>(mode, len, pat, pos, b, none, 0, (pos + b) % prefixes.size());
        }
    // deviation 2
    static const std::vector<u64> D = { 0xF8, 0xFF, 0xF9, 0x90, 0xC5, 0xF0, 0xF7, 0xF6, 0xF2, 0xF4 };
    const unsigned dev2 = c.thorough ? 30 : 14;
    for (unsigned len = 0; len <= dev2; ++len)
        for (unsigned p1 = 0; p1 <= len; ++p1)
        {
            if (!c.mine()) continue;
            for (unsigned p2 = p1; p2 <= len + 1; ++p2)
                for (auto b1 : D) for (auto b2 : D) for (unsigned pat : { 0u, 1u }) c.exec<sysex_lengths>(mode, len, pat, p1, b1, p2, b2, 0);
        }
    c.bound(fmt("SysEx data lengths 0..%u and selected lengths up to 1050000 x contents x preceding streams; every byte value 80..FF at every position for lengths <= %u; all pairs of %zu interfering bytes at all position pairs for lengths <= %u; each followed by two further SysEx and a channel message", maxlen, dev1, D.size(), dev2));
}
void sysex_lengths::run(Ctx& c, Args a)
{
    Sys s(a[0] & 1, 9);
    u64 n = 0;
    auto feed = [&](u64 b) { s.step(c, b); ++n; };
    for (auto b : prefixes[a[7]]) feed(b);
    const unsigned len = unsigned(a[1]);
    feed(0xF0);
    for (unsigned i = 0; i <= len; ++i)
    {
        if (a[3] == i) feed(a[4]);
        if (a[5] == i) feed(a[6]);
        if (i < len) feed(sx_byte(unsigned(a[2]), i));
        if ((i & 1023) == 0) c.tick();
    }
    feed(0xF7);
    if (a[3] == len + 1) feed(a[4]);
    if (a[5] == len + 1) feed(a[6]);
    // what follows must be unaffected
    for (u64 b : { 0x12, 0xF0, 0x00, 0x21, 0x09, 0x55, 0xF7, 0x91, 0x3C, 0xF8, 0x40, 0x3C, 0x00, 0xF0, 0x7E, 0x7F, 0x06, 0x01, 0x01, 0x02, 0x03, 0xF7 }) feed(b);
    c.st->transitions += n; ++c.st->traces;
    c.outcome(s.out_hash);
    if (a[3] != none || len > 5) c.nontrivial();
    if (c.want_sample() && a[3] != none) c.sample(fmt("len %u pattern %u, byte %02X at %u", len, (unsigned)a[2], (unsigned)a[4], (unsigned)a[3]));
}

// every pair of adjacent data bytes at every alignment; case: mode, length, position, byte, next byte
MC_SECTION("C02,C03", sysex_contents);
void sysex_contents::run(Ctx& c, Args a)
{
    Sys s(a[0] & 1, 4);
    s.step(c, 0xF0);
    for (unsigned i = 0; i < a[1]; ++i) s.step(c, i == a[2] ? a[3] : i == a[2] + 1 ? a[4] : 0x33);
    s.step(c, 0xF7);
    for (u64 b : { 0xF0, 0x00, 0x21, 0x09, 0x55, 0xF7, 0x91, 0x3C, 0x40 }) s.step(c, b);
    c.st->transitions += a[1] + 11; ++c.st->traces;
    c.outcome(s.out_hash);
    c.nontrivial();
    if (c.want_sample() && a[2] > 3) c.sample(fmt("%u bytes with %02X %02X at %u", unsigned(a[1]), unsigned(a[3]), unsigned(a[4]), unsigned(a[2])));
}
void sysex_contents::enumerate(Ctx& c)
{
    const unsigned mode = c.property == "C03", P = c.thorough ? 20 : c.mid ? 9 : 2;
    for (u64 b = 0; b < 128; ++b)
        for (u64 b2 = 0; b2 < 128; ++b2)
            if (c.mine())
                for (u64 pos = 0; pos < P; ++pos) { c.exec<sysex_contents>(mode, pos + 2, pos, b, b2); c.exec<sysex_contents>(mode, 15, pos, b, b2); }
    c.bound(fmt("every pair of adjacent SysEx bytes at positions 0..%u, at the end and inside a longer message", P - 1));
}

// every content of the first three bytes; case: mode, first, second byte
MC_SECTION("C02,C03", sysex_heads);
void sysex_heads::run(Ctx& c, Args a)
{
    Sys s(a[0] & 1, 4);
    for (u64 v = 0; v < 128; ++v)
        for (unsigned more = 0; more < 3; more += 2)
        {
            for (u64 b : { u64(0xF0), a[1], a[2], v }) s.step(c, b);
            for (unsigned i = 0; i < more; ++i) s.step(c, 0x70 + i);
            s.step(c, 0xF7);
            c.st->transitions += 5 + more; ++c.st->traces;
        }
    c.st->evaluations += 255;
    c.nontrivial();
    c.outcome(s.out_hash);
}
void sysex_heads::enumerate(Ctx& c)
{
    const unsigned mode = c.property == "C03";
    for (u64 b = 0; b < 128; ++b)
        for (u64 b2 = 0; b2 < 128; ++b2)
            if ((c.mid || b < 4 || b == b2 || b > 0x7B) && c.mine()) c.exec<sysex_heads>(mode, b, b2);
    c.bound("every content of the first three SysEx bytes, ended there and after two more");
}

//---------------------------------------------------------------------------------------------------------------------
// C03: enable / disable / reset histories around SysEx delivery
MC_SECTION("C03", toggled_dfs);
void toggled_dfs::enumerate(Ctx& c)
{
    static const std::vector<u64> A = { 0x00, 0x42, 0xF0, 0xF7, 0x90, 0xF8, op_disable, op_enable, op_reset };
    const int depth = c.thorough ? 9 : 8;
    for (unsigned dis = 0; dis < 2; ++dis)
        for (auto o1 : A)
            for (auto o2 : A)
            {
                if (!c.mine()) continue;
                const u64 init[] = { 1 + 2 * dis, 2, o1, o2 };
                c.set_case(init, 4);
                Sys s(true, 2, !dis);
                s.step(c, o1);
                s.step(c, o2);
                dfs(c, s, A, depth - 2);
            }
    c.bound(fmt("all sequences of %d operations over {00,42,F0,F7,90,F8,disable,enable,reset}, parser created enabled and disabled", depth));
}
void toggled_dfs::run(Ctx& c, Args a) { replay_ops(c, a); }

//---------------------------------------------------------------------------------------------------------------------
// C04: control operations: model plus a continuously enabled twin
struct Twin
{
    Sys s;          // subject (with model)
    midi::midi1_byte_stream_parser t; // same operations except enable/disable
    bool sysex_mode;
    static inline Sink  tsink;
    static inline Sink* tcur = &tsink;
    bool sx_open = false, sx_started_enabled = true;
    Twin(bool sm, unsigned g, bool enabled) : s(sm, g, enabled), t(make_parser(g, sm, &tcur)), sysex_mode(sm) { }
    void step(Ctx& c, u64 op)
    {
        tsink.clear();
        if (op < 256) t.feed(u8(op));
        else if (op == op_reset) t.reset();
        else if (op >= op_group) t.set_group(midi::group_t(op - op_group));
        const bool started_enabled = s.m.sysex_started_enabled;
        s.step(c, op);
        Sink expected;
        if (s.m.enabled)
            for (auto& e : tsink) if (!e.is_sysex || started_enabled) expected.push_back(e);
        MC_CHECK(c, expected.size() == Sys::sink.size() && std::equal(expected.begin(), expected.end(), Sys::sink.begin()),
                 "op %llX: continuously enabled parser reported %s, subject %s (enabled=%d)", (unsigned long long)op, str(tsink).c_str(), str(Sys::sink).c_str(), int(s.m.enabled));
    }
};
static void twin_dfs(Ctx& c, const Twin& s, const std::vector<u64>& A, int depth)
{
    for (auto op : A)
    {
        Twin n = s;
        c.push(op);
        n.step(c, op);
        ++c.st->transitions;
        c.state(n.s.m.key());
        if (depth > 1) twin_dfs(c, n, A, depth - 1);
        else { ++c.st->traces; ++c.st->evaluations; if (n.s.out_hash) { c.nontrivial(); c.outcome(n.s.out_hash); if (c.want_sample()) c.sample("ops " + show(c.path())); } }
        c.pop();
    }
}
MC_SECTION("C01,C02,C03,C04", control_dfs);
void control_dfs::enumerate(Ctx& c)
{
    static const std::vector<u64> A = { 0x00, 0x25, 0x90, 0xC3, 0xF0, 0xF7, 0xF2, 0xF8, op_reset, op_disable, op_enable, op_group + 0, op_group + 11 };
    const int depth = (c.thorough ? 7 : 6) - (c.property != "C04");
    for (unsigned mode = 0; mode < 4; ++mode)
        for (auto o1 : A)
            for (auto o2 : A)
            {
                if (!c.mine() || other_mode(c, mode)) continue;
                const u64 init[] = { mode, 5, o1, o2 };
                c.set_case(init, 4);
                Twin s(mode & 1, 5, !(mode & 2));
                s.step(c, o1);
                s.step(c, o2);
                twin_dfs(c, s, A, depth - 2);
            }
    c.bound(fmt("all sequences of %d operations over %zu bytes and control operations (reset, enable, disable, two group changes), both SysEx modes, created enabled and disabled", depth, A.size()));
}
static void replay_twin(Ctx& c, Args a)
{
    Twin s(a[0] & 1, unsigned(a[1]), !(a[0] & 2));
    for (std::size_t i = 2; i < a.n; ++i) s.step(c, a[i]);
}
void control_dfs::run(Ctx& c, Args a) { replay_twin(c, a); }

// control operations injected at every position (and pair of positions) of longer streams
MC_SECTION("C04", control_injection);
static std::vector<std::vector<u64>> long_streams()
{
    std::vector<std::vector<u64>> r;
    r.push_back({ 0x90, 0x3C, 0x40, 0x3E, 0x41, 0xC5, 0x07, 0x08, 0xF2, 0x01, 0x02, 0xE3, 0x00, 0xF8, 0x40, 0xF6, 0x11 });
    for (unsigned n : { 3u, 6u, 7u, 13u })
    {
        std::vector<u64> v{ 0x91, 0x10, 0xF0 };
        for (unsigned i = 0; i < n; ++i) v.push_back(i ? (i * 9) & 0x7F : 0x7E);
        v.insert(v.end(), { 0xF7, 0x22, 0xB4, 0x01, 0x02, 0x03, 0x04, 0xF0, 0x00, 0x20, 0x33, 0x05, 0xF7 });
        r.push_back(v);
    }
    return r;
}
static const std::vector<u64> ctl = { op_reset, op_disable, op_enable, op_group + 1, op_group + 15 };
void control_injection::enumerate(Ctx& c)
{
    auto ls = long_streams();
    for (unsigned mode = 0; mode < 4; ++mode)
        for (unsigned k = 0; k < ls.size(); ++k)
            for (unsigned p1 = 0; p1 <= ls[k].size(); ++p1)
            {
                if (!c.mine()) continue;
                for (unsigned p2 = p1; p2 <= ls[k].size(); ++p2)
                    for (auto c1 : ctl) for (auto c2 : ctl)
                    {
                        if (!c.thorough) { c.exec<control_injection>(mode, k, p1, c1, p2, c2, 999, 0); continue; }
                        for (unsigned p3 = p2; p3 <= ls[k].size(); p3 += 2) for (auto c3 : { op_reset, op_enable, op_disable }) c.exec<control_injection>(mode, k, p1, c1, p2, c2, p3, c3);
                    }
            }
    c.bound(c.thorough ? "three control operations at all (third: every other) position triples of 5 streams" : "two control operations at all position pairs of 5 streams");
}
void control_injection::run(Ctx& c, Args a)
{
    auto v = long_streams()[a[1]];
    Twin s(a[0] & 1, 7, !(a[0] & 2));
    for (unsigned i = 0; i <= v.size(); ++i)
    {
        if (a[2] == i) s.step(c, a[3]);
        if (a[4] == i) s.step(c, a[5]);
        if (a[6] == i) s.step(c, a[7]);
        if (i < v.size()) s.step(c, v[i]);
    }
    c.st->transitions += v.size() + 2; ++c.st->traces;
    if (s.s.out_hash) c.nontrivial();
    c.outcome(s.s.out_hash);
    if (c.want_sample()) c.sample(fmt("stream %u, op %s at %u, op %s at %u", (unsigned)a[1], show({ a[3] }).c_str(), (unsigned)a[2], show({ a[5] }).c_str(), (unsigned)a[4]));
}

// chunking: case = mode, partition bits, overload bits, bytes...
MC_SECTION("C04", chunking);
static void chunk_case(Ctx& c, bool mode, u64 parts, unsigned overload, const std::vector<u8>& bytes)
{
    static Sink s1, s2; static Sink *c1 = &s1, *c2 = &s2;
    s1.clear(); s2.clear();
    auto a = make_parser(6, mode, &c1), b = make_parser(6, mode, &c2);
    for (auto x : bytes) a.feed(x);
    std::size_t begin = 0;
    const std::vector<u8> heap(bytes); // exact size: reads outside a chunk at the end are visible to ASan
    for (std::size_t i = 0; i < bytes.size(); ++i)
    {
        if (i + 1 == bytes.size() || ((parts >> i) & 1))
        {
            const u8* p = heap.data() + begin;
            const std::size_t n = i + 1 - begin;
            switch ((overload + begin) % 3)
            {
            case 0: b.feed(p, n); break;
            case 1: b.feed(p, p + n); break;
            case 2: if (n == 1) b.feed(*p); else { std::vector<u8> copy(p, p + n); b.feed(copy.data(), copy.size()); } break;
            }
            if (overload & 4) { b.feed(heap.data() + begin, size_t{ 0 }); b.feed(heap.data(), heap.data()); }
            begin = i + 1;
        }
    }
    MC_CHECK(c, s1.size() == s2.size() && std::equal(s1.begin(), s1.end(), s2.begin()), "byte-wise: %s chunked: %s", str(s1).c_str(), str(s2).c_str());
    c.st->transitions += bytes.size(); ++c.st->traces;
    if (!s1.empty()) { c.nontrivial(); c.outcome(s1[0].hash()); }
}
void chunking::enumerate(Ctx& c)
{
    static const std::vector<u64> A = { 0x10, 0x92, 0xC1, 0xF0, 0xF7, 0xF3, 0xF8, 0x00 };
    const int L = c.thorough ? 6 : 5;
    std::vector<u64> idx(L, 0);
    u64 total = 1;
    for (int i = 0; i < L; ++i) total *= A.size();
    for (u64 k = 0; k < total; ++k)
    {
        if (!c.mine(k)) continue;
        for (unsigned mode = 0; mode < 2; ++mode)
            for (u64 parts = 0; parts < (1u << (L - 1)); ++parts)
                for (unsigned ov : { 0u, 1u, 6u })
                {
                    std::vector<u64> v{ mode, parts, ov };
                    u64 x = k;
                    for (int i = 0; i < L; ++i) { v.push_back(A[x % A.size()]); x /= A.size(); }
                    c.exec_vec<chunking>(v);
                }
    }
    // longer streams, all two-cut partitions
    auto ls = long_streams();
    for (unsigned k = 0; k < ls.size(); ++k)
        for (unsigned p1 = 0; p1 < ls[k].size(); ++p1)
        {
            if (!c.mine()) continue;
            for (unsigned p2 = p1; p2 < ls[k].size(); ++p2)
                for (unsigned mode = 0; mode < 2; ++mode)
                    for (unsigned ov = 0; ov < 8; ++ov)
                    {
                        std::vector<u64> v{ mode, (u64(1) << p1) | (u64(1) << p2), ov };
                        v.insert(v.end(), ls[k].begin(), ls[k].end());
                        c.exec_vec<chunking>(v);
                    }
        }
    c.bound(fmt("all byte sequences of length %d over 8 bytes x all partitions x overload choices; all two-cut partitions of 5 longer streams", L));
}
void chunking::run(Ctx& c, Args a)
{
    std::vector<u8> b;
    for (std::size_t i = 3; i < a.n; ++i) b.push_back(u8(a[i]));
    chunk_case(c, a[0] & 1, a[1], unsigned(a[2]), b);
    if (c.want_sample() && a[1] > 2) c.sample(fmt("partition bits %llX of ", (unsigned long long)a[1]) + hex(b));
}

// block feeding from every assembly state: access sequence (byte-wise, or part of the same block), then all blocks
// of the given length as one call, then a tail that exposes the residual state
// case: mode (bit 0 SysEx handler, bit 1 callbacks disabled before the block and enabled after it, bit 2 access part of
// the block), access index, tail index, block bytes...
MC_SECTION("C01,C02,C03,C04", block_cover);
static const std::vector<std::vector<u8>>& tails()
{
    static const std::vector<std::vector<u8>> t = { { 0x11, 0x22, 0x33, 0xF7, 0x91, 0x3C, 0x40, 0xF0, 0x7D, 0x01, 0xF7 }, { 0xF7, 0x11, 0x22, 0x33, 0xF0, 0x00, 0x21, 0x09, 0x05, 0xF7 } };
    return t;
}
static void block_case(Ctx& c, unsigned mode, const std::vector<u64>& acc, const std::vector<u8>& block, const std::vector<u8>& tail)
{
    static Sink s1, s2; static Sink *c1 = &s1, *c2 = &s2;
    s1.clear(); s2.clear();
    auto a = make_parser(4, mode & 1, &c1), b = make_parser(4, mode & 1, &c2);
    std::vector<u8> blk;
    for (auto x : acc)
    {
        a.feed(u8(x));
        if (mode & 4) blk.push_back(u8(x)); else b.feed(u8(x));
    }
    if (mode & 2) { a.enable_callbacks(false); b.enable_callbacks(false); }
    for (auto x : block) { a.feed(x); blk.push_back(x); }
    b.feed(blk.data(), blk.data() + blk.size());
    if (mode & 2) { a.enable_callbacks(true); b.enable_callbacks(true); }
    MC_CHECK(c, s1.size() == s2.size() && std::equal(s1.begin(), s1.end(), s2.begin()), "byte-wise: %s as one block: %s", str(s1).c_str(), str(s2).c_str());
    for (auto x : tail) { a.feed(x); b.feed(x); }
    MC_CHECK(c, s1.size() == s2.size() && std::equal(s1.begin(), s1.end(), s2.begin()), "after the block; byte-wise: %s as one block: %s", str(s1).c_str(), str(s2).c_str());
    c.st->transitions += acc.size() + block.size() + tail.size(); ++c.st->traces;
    if (!s1.empty()) { c.nontrivial(); u64 h = 0; for (auto& e : s1) h = mix(h, e.hash()); c.outcome(h); }
}
static std::vector<std::vector<u64>> block_access()
{
    std::vector<std::vector<u64>> r;
    for (auto& a : access_sequences())
        if (a.empty() || a[0] >= 0xF0 || a[0] == 0x92 || a[0] == 0xC2 || a[0] == 0xE0) r.push_back(a);
    return r;
}
void block_cover::enumerate(Ctx& c)
{
    const auto acc = block_access();
    static const std::vector<u64> A = { 0x00, 0x01, 0x40, 0x7F, 0x80, 0x92, 0xC1, 0xE5, 0xF0, 0xF7, 0xF1, 0xF2, 0xF4, 0xF6, 0xF8, 0xF9, 0xFE };
    const unsigned L = c.thorough ? 4 : 3;
    for (unsigned k = 0; k < acc.size(); ++k)
        for (auto b1 : A)
        {
            if (!c.mine()) continue;
            for (unsigned mode = 0; mode < 6; ++mode)
            {
                if (other_mode(c, mode)) continue;
                for (unsigned tail = 0; tail < tails().size(); ++tail)
                {
                    c.exec<block_cover>(mode, k, tail, b1);
                    for (auto b2 : A)
                    {
                        c.exec<block_cover>(mode, k, tail, b1, b2);
                        for (auto b3 : A)
                        {
                            c.exec<block_cover>(mode, k, tail, b1, b2, b3);
                            if (L > 3) for (auto b4 : A) c.exec<block_cover>(mode, k, tail, b1, b2, b3, b4);
                        }
                    }
                }
            }
        }
    c.bound(fmt("%zu access sequences (assembly states, SysEx lengths 0..20) x all blocks of 1..%u bytes over %zu bytes fed as one call, byte-wise or joined access, callbacks enabled or not, x two tails", acc.size(), L, A.size()));
}
void block_cover::run(Ctx& c, Args a)
{
    static const auto acc = block_access();
    std::vector<u8> b;
    for (std::size_t i = 3; i < a.n; ++i) b.push_back(u8(a[i]));
    block_case(c, unsigned(a[0]), acc[a[1]], b, tails()[a[2]]);
    if (c.want_sample() && a.n > 4) c.sample("access " + show(acc[a[1]]) + "block " + hex(b));
}

// large blocks: SysEx of many lengths with one interfering byte, cut into blocks of every size
// case: mode, data length, pattern, block size, position and value of the interfering byte
MC_SECTION("C01,C02,C03,C04", block_sizes);
void block_sizes::enumerate(Ctx& c)
{
    static const std::vector<u64> X = { 0xF8, 0xF9, 0x90, 0xF6, 0xF0, 0xF7, 0xF4 };
    const unsigned maxlen = c.thorough ? 70 : 40;
    for (unsigned len = 0; len <= maxlen; ++len)
        for (unsigned bs = 1; bs <= len + 3; ++bs)
        {
            if (!c.mine()) continue;
            for (unsigned mode = c.property == "C03"; mode < (c.property == "C02" ? 1u : 2u); ++mode)
                for (unsigned pat = 0; pat < 2; ++pat)
                    for (unsigned pos = 0; pos <= len; ++pos)
                        for (auto x : X) c.exec<block_sizes>(mode, len, pat, bs, pos, x);
        }
    for (unsigned len : { 1000u, 1024u, 1025u, 2049u, 4097u, 16385u, 70000u })
        for (unsigned bs : { 7u, 64u, 255u, 256u, 257u, 1024u, 1025u, 4096u, 65536u, 100000u })
        {
            if (!c.mine()) continue;
            for (unsigned mode = c.property == "C03"; mode < (c.property == "C02" ? 1u : 2u); ++mode)
                for (unsigned pat = 0; pat < 2; ++pat)
                    for (unsigned pos : { 0u, 1u, len / 2, len })
                        for (auto x : { 0xF8, 0xF6, 0xF0 }) c.exec<block_sizes>(mode, len, pat, bs, pos, x);
        }
    c.bound(fmt("SysEx lengths 0..%u x every block size x %zu interfering bytes at every position; selected lengths to 70000 and block sizes to 100000", maxlen, X.size()));
}
void block_sizes::run(Ctx& c, Args a)
{
    static Sink s1, s2; static Sink *c1 = &s1, *c2 = &s2;
    s1.clear(); s2.clear();
    std::vector<u8> v{ 0x93, 0x40, 0xF0 };
    for (unsigned i = 0; i <= a[1]; ++i)
    {
        if (i == a[4]) v.push_back(u8(a[5]));
        if (i < a[1]) v.push_back(sx_byte(unsigned(a[2]), i));
    }
    for (u8 x : { 0xF7, 0x91, 0x3C, 0x40, 0x3D, 0x41 }) v.push_back(x);
    auto p = make_parser(4, a[0] & 1, &c1), q = make_parser(4, a[0] & 1, &c2);
    for (auto x : v) p.feed(x);
    for (std::size_t i = 0; i < v.size(); i += a[3]) { q.feed(v.data() + i, std::min<std::size_t>(a[3], v.size() - i)); c.tick(); }
    MC_CHECK(c, s1.size() == s2.size() && std::equal(s1.begin(), s1.end(), s2.begin()), "byte-wise: %zu events %s blocks of %u: %zu events %s", s1.size(), str(s1).substr(0, 1500).c_str(), unsigned(a[3]), s2.size(), str(s2).substr(0, 1500).c_str());
    c.st->transitions += v.size(); ++c.st->traces;
    if (a[1] > 2) c.nontrivial();
    u64 h = 0; for (auto& e : s1) h = mix(h, e.hash());
    c.outcome(h);
    if (c.want_sample() && a[1] > 5) c.sample(fmt("SysEx of %u bytes, %02X at %u, in blocks of %u", unsigned(a[1]), unsigned(a[5]), unsigned(a[4]), unsigned(a[3])));
}

// long histories: block A repeated n times, then block B twice, then A once (counters, buffers, stale state)
// case: mode, A, n, B, feeding (0 byte-wise, 1 each repetition as one block)
MC_SECTION("C01,C02,C03,C04", long_runs);
static const std::vector<std::vector<u64>>& run_blocks()
{
    static const auto blocks = [] {
        std::vector<std::vector<u64>> r = { { 0x93, 0x3C, 0x40 }, { 0x3C, 0x40 }, { 0x3D }, { 0xC2, 0x05 }, { 0xE1, 0x00, 0x40, 0x7F, 0x7F }, { 0xF2, 0x01, 0x02 }, { 0xF1, 0x33 }, { 0xF6 }, { 0xF8 }, { 0xF4 }, { 0x9F, 0x11 },
            { 0xF0, 0xF7 }, { 0xF7 }, { 0xF0, 0x41 }, { 0xF0, 0x00, 0x20 }, { op_disable, 0x90, 0x01, 0x02, op_enable }, { op_disable, 0xF0, 0x7D, 0x01, 0xF7, op_enable }, { op_reset }, { op_group + 2, 0xB0, 1, 2 }, { op_group + 13 } };
        for (unsigned n : { 1u, 3u, 5u, 6u, 7u, 12u, 13u, 40u, 300u })
        {
            std::vector<u64> v{ 0xF0 };
            for (unsigned i = 0; i < n; ++i) v.push_back(sx_byte(n & 1, i));
            r.push_back(v); // left unfinished
            v.push_back(0xF7);
            r.push_back(v);
        }
        return r;
    }();
    return blocks;
}
void long_runs::enumerate(Ctx& c)
{
    std::vector<unsigned> counts = { 2, 3, 5, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300 };
    if (c.thorough) counts.insert(counts.end(), { 511, 512, 513, 1023, 1024, 1025, 4096, 4097 });
    const auto n = run_blocks().size();
    for (u64 a = 0; a < n; ++a)
    {
        for (u64 b = 0; b < n; ++b)
        {
            if (!c.mine()) continue;
            for (unsigned mode = 0; mode < 2; ++mode)
                if (!other_mode(c, mode))
                    for (auto k : counts) for (u64 f = 0; f < 2; ++f) c.exec<long_runs>(mode, a, k, b, f);
        }
        if (c.mine() && run_blocks()[a].size() < 10)
            for (unsigned mode = 0; mode < 2; ++mode)
                if (!other_mode(c, mode)) for (u64 k : { 32767, 32768, 65535, 65536, 65537 }) c.exec<long_runs>(mode, a, k, 1, 0);
    }
    c.bound(fmt("all pairs (A, B) of %zu blocks (every message kind, SysEx finished and unfinished of 1..300 bytes, control operations): A repeated 2..300 times at %zu counts (short blocks: up to 65537), then B, B, A; byte-wise and as blocks", (std::size_t)n, counts.size()));
}
void long_runs::run(Ctx& c, Args a)
{
    Sys s(a[0] & 1, 9);
    static Sink qs; static Sink* qc = &qs;
    auto q = make_parser(9, a[0] & 1, &qc);
    u64 n = 0;
    auto feed = [&](const std::vector<u64>& blk) {
        n += blk.size();
        c.tick();
        if (!a[4]) { for (auto x : blk) s.step(c, x); return; }
        Sink all;
        qs.clear();
        std::vector<u8> bytes;
        auto flush = [&] { if (!bytes.empty()) q.feed(bytes.data(), bytes.data() + bytes.size()); bytes.clear(); };
        for (auto x : blk)
        {
            s.step(c, x);
            if (x < 256) { all.insert(all.end(), Sys::sink.begin(), Sys::sink.end()); bytes.push_back(u8(x)); continue; }
            flush();
            if (x == op_reset) q.reset();
            else if (x == op_disable) q.enable_callbacks(false);
            else if (x == op_enable) q.enable_callbacks(true);
            else q.set_group(midi::group_t(x - op_group));
        }
        flush();
        MC_CHECK(c, all.size() == qs.size() && std::equal(all.begin(), all.end(), qs.begin()), "byte-wise: %s as one block: %s", str(all).substr(0, 1500).c_str(), str(qs).substr(0, 1500).c_str());
    };
    for (u64 i = 0; i < a[2]; ++i) feed(run_blocks()[a[1]]);
    feed(run_blocks()[a[3]]);
    feed(run_blocks()[a[3]]);
    feed(run_blocks()[a[1]]);
    c.st->transitions += n; ++c.st->traces;
    if (s.out_hash) { c.nontrivial(); c.outcome(s.out_hash); }
    if (c.want_sample() && a[2] > 5) c.sample(fmt("%u x ", unsigned(a[2])) + show(run_blocks()[a[1]]).substr(0, 60) + " then " + show(run_blocks()[a[3]]).substr(0, 60));
}

int main(int argc, char** argv) { return mc::main_(argc, argv); }
