// C17 packet container and text form, C30 (packet part) edits of header fields
#include "mc.h"
#include <iomanip>
#include <midi/universal_packet.h>
#include <sstream>

using namespace mc;
using midi::universal_packet;

static constexpr u32 ref_size[16] = { 1, 1, 1, 2, 2, 4, 1, 1, 2, 2, 2, 3, 3, 4, 4, 4 };
using Words = std::array<u32, 4>;
static Words words(const universal_packet& p) { return { p.data[0], p.data[1], p.data[2], p.data[3] }; }
static universal_packet mk(const Words& w) { return universal_packet{ w[0], w[1], w[2], w[3] }; }
static const std::vector<Words>& patterns()
{
    static const std::vector<Words> p = [] {
        std::vector<Words> r;
        for (u32 x : { 0u, ~0u, 0x55555555u, 0xAAAAAAAAu }) r.push_back({ x, x, x, x });
        r.push_back({ 0x01234567u, 0x89ABCDEFu, 0xFEDCBA98u, 0x76543210u });
        r.push_back({ 0, ~0u, 0, ~0u });
        r.push_back({ ~0u, 0, ~0u, 0 });
        r.push_back({ 0x80808080u, 0x7F7F7F7Fu, 0x80808080u, 0x7F7F7F7Fu });
        return r;
    }();
    return p;
}
static u8 ref_byte(const Words& w, unsigned b) { return u8(w[b / 4] >> (24 - 8 * (b % 4))); }
static void ref_set_byte(Words& w, unsigned b, u8 v)
{
    const unsigned s = 24 - 8 * (b % 4);
    w[b / 4]         = (w[b / 4] & ~(0xFFu << s)) | (u32(v) << s);
}

//---------------------------------------------------------------------------------------------------------------------

static void check_header(Ctx& c, const universal_packet& p)
{
    const u32 w = p.data[0], t = w >> 28, st = (w >> 16) & 0xFF;
    MC_CHECK(c, u32(p.type()) == t && p.size() == ref_size[t], "type/size of %08x", w);
    MC_CHECK(c, p.group() == ((w >> 24) & 0xF) && p.status() == st && p.byte2() == st && p.byte3() == ((w >> 8) & 0xFF) && p.byte4() == (w & 0xFF), "header fields of %08x", w);
    const bool hc = t == 2 || t == 4 || t == 13;
    MC_CHECK(c, p.has_channel() == hc, "has_channel of %08x", w);
    if (hc) MC_CHECK(c, p.channel() == (st & 0xF), "channel of %08x", w);
    MC_CHECK(c, p.is_utility_message() == (t == 0) && p.is_system_message() == (t == 1) && p.is_channel_voice_message() == (t == 2 || t == 4) && p.is_data_message() == (t == 3 || t == 5), "kind of %08x", w);
    const bool sys = st == 0xF1 || st == 0xF2 || st == 0xF3 || st == 0xF6 || st == 0xF8 || st == 0xFA || st == 0xFB || st == 0xFC || st == 0xFE || st == 0xFF;
    MC_CHECK(c, p.is_midi1_protocol_message() == ((t == 1 && sys) || (t == 2 && st >= 0x80 && st < 0xF0)), "MIDI 1 protocol kind of %08x", w);
}

MC_SECTION("C17", c17_header);
void c17_header::run(Ctx& c, Args a)
{
    universal_packet p{ 0, ~0u, ~0u, ~0u };
    for (u32 i = 0; i < (1u << 20); ++i)
    {
        u32 w = u32(a[0] << 20) | i;
        asm volatile("" : "+r"(w));
        p.data[0] = w;
        check_header(c, p);
    }
    c.st->evaluations += (1u << 20) - 1;
    c.nontrivial();
    c.outcome(a[0]);
}
void c17_header::enumerate(Ctx& c)
{
    c.bound("header accessors: all 2^32 first words");
    for (u32 h = 0; h < 4096; ++h) if (c.mine()) c.exec<c17_header>(h);
}

MC_SECTION("C17", c17_bytes);
// case: pattern, byte, value
void c17_bytes::run(Ctx& c, Args a)
{
    const Words&   w0 = patterns()[a[0]];
    const unsigned b  = unsigned(a[1]);
    c.nontrivial();
    for (int seven = 0; seven < 2; ++seven)
    {
        universal_packet p = mk(w0);
        MC_CHECK(c, words(p) == w0, "constructor");
        for (unsigned k = 0; k < 16; ++k) MC_CHECK(c, p.get_byte(k) == ref_byte(w0, k) && p.get_byte_7bit(k) == (ref_byte(w0, k) & 0x7F), "get byte %u", k);
        Words e = w0;
        if (seven) { p.set_byte_7bit(b, u8(a[2])); ref_set_byte(e, b, u8(a[2]) & 0x7F); }
        else { p.set_byte(b, u8(a[2])); ref_set_byte(e, b, u8(a[2])); }
        MC_CHECK(c, words(p) == e, "set_byte(%u, %02x)", b, unsigned(a[2]));
        MC_CHECK(c, p.get_byte(b) == (seven ? u8(a[2]) & 0x7F : u8(a[2])), "byte %u does not read back", b);
        universal_packet q{ p }, r;
        r = p;
        MC_CHECK(c, words(q) == e && words(r) == e, "copy");
        r.reset();
        MC_CHECK(c, words(r) == (Words{ 0, 0, 0, 0 }), "reset");
    }
    const Words& w = w0;
    MC_CHECK(c, words(universal_packet{ w[0] }) == (Words{ w[0], 0, 0, 0 }) && words(universal_packet{ w[0], w[1] }) == (Words{ w[0], w[1], 0, 0 }) && words(universal_packet{ w[0], w[1], w[2] }) == (Words{ w[0], w[1], w[2], 0 }), "constructors");
    c.outcome(a[1] * 256 + a[2]);
}
void c17_bytes::enumerate(Ctx& c)
{
    c.bound("set_byte/set_byte_7bit: 8 prior contents x 16 positions x 256 values");
    for (u64 p = 0; p < patterns().size(); ++p)
        for (u64 b = 0; b < 16; ++b)
            for (u64 v = 0; v < 256; ++v) if (c.mine()) c.exec<c17_bytes>(p, b, v);
}

MC_SECTION("C17", c17_equality);
// case: type, pattern, first differing bit (128 = none), second (128 = none)
void c17_equality::run(Ctx& c, Args a)
{
    Words w = patterns()[a[1]];
    w[0]    = (w[0] & 0x0FFFFFFFu) | u32(a[0] << 28);
    Words v = w;
    for (int k = 2; k < 4; ++k)
        if (a[k] < 128) v[a[k] / 32] ^= 1u << (a[k] % 32);
    const auto p = mk(w), q = mk(v);
    bool       eq = true;
    for (u32 i = 0; i < ref_size[a[0]]; ++i) eq = eq && w[i] == v[i];
    c.nontrivial(eq != (w == v) || !eq);
    MC_CHECK(c, (p == q) == eq && (p != q) == !eq && p == p && !(p != p), "%08x %08x %08x %08x vs %08x %08x %08x %08x", w[0], w[1], w[2], w[3], v[0], v[1], v[2], v[3]);
    if ((w[0] ^ v[0]) >> 28 == 0) MC_CHECK(c, (q == p) == eq && (q != p) == !eq, "not symmetric");
    c.outcome(eq ? a[0] : 16);
}
void c17_equality::enumerate(Ctx& c)
{
    c.bound("equality: 16 types x 8 contents x all 0, 1 and 2 bit differences");
    for (u64 t = 0; t < 16; ++t)
        for (u64 p = 0; p < patterns().size(); ++p)
        {
            if (!c.mine()) continue;
            for (u64 i = 0; i <= 128; ++i)
                for (u64 j = i + 1; j <= 129; ++j) c.exec<c17_equality>(t, p, i, j == 129 ? 128 : j);
        }
}

//---------------------------------------------------------------------------------------------------------------------
// text

static std::string hex8(u32 w) { char b[16]; snprintf(b, sizeof(b), "%08x", w); return b; }

MC_SECTION("C17", c17_text_out);
// case: pattern, type, format state index
static const std::vector<std::pair<std::ios_base::fmtflags, char>>& fmts()
{
    using B = std::ios_base;
    static const std::vector<std::pair<B::fmtflags, char>> f = [] {
        std::vector<std::pair<B::fmtflags, char>> r;
        for (auto base : { B::dec, B::hex, B::oct })
            for (auto adj : { B::fmtflags{}, B::left, B::right, B::internal })
                for (int up = 0; up < 2; ++up)
                    for (char fill : { ' ', '0', '*' }) r.push_back({ base | adj | B::skipws | (up ? B::uppercase : B::fmtflags{}), fill });
        return r;
    }();
    return f;
}
void c17_text_out::run(Ctx& c, Args a)
{
    Words w = patterns()[a[0]];
    w[0]    = (w[0] & 0x0FFFFFFFu) | u32(a[1] << 28);
    if (a[3]) for (u32 k = 1; k < 4; ++k) w[k] >>= a[3];
    if (a[3]) w[0] = (w[0] & 0xF0000000u) | ((w[0] & 0x0FFFFFFFu) >> a[3]);
    const auto p = mk(w);
    std::stringstream s;
    s.flags(fmts()[a[2]].first);
    s.fill(fmts()[a[2]].second);
    s.precision(3);
    s << p;
    c.nontrivial();
    MC_CHECK(c, s.flags() == fmts()[a[2]].first && s.fill() == fmts()[a[2]].second && s.precision() == 3 && s.width() == 0, "writing a packet changed the stream's format state");
    std::string e;
    for (u32 i = 0; i < p.size(); ++i) e += (i ? " " : "") + hex8(w[i]);
    std::string got = s.str();
    for (auto& ch : got) if (ch >= 'A' && ch <= 'F') ch = char(ch - 'A' + 'a');
    MC_CHECK(c, got == e, "text is \"%s\", expected \"%s\"", s.str().c_str(), e.c_str());
    // read back, alone and followed by other text
    for (const char* tail : { "", "\n", " ", " 20903c40", "\ngarbage" })
    {
        std::istringstream in(s.str() + tail);
        in.flags(fmts()[a[2]].first);
        universal_packet q{ u32((a[0] + a[1] + a[2] + a[3] / 4 + u64(tail[0])) % 16) << 28 | 0xFFFFFFFu, 1, 2, 3 };
        in >> q;
        MC_CHECK(c, !in.fail() && q == p && words(q)[0] == w[0], "\"%s%s\" does not read back", s.str().c_str(), tail);
        MC_CHECK(c, in.flags() == fmts()[a[2]].first, "reading a packet changed the stream's format state");
    }
    c.outcome(fnv(e.data(), e.size()));
}
void c17_text_out::enumerate(Ctx& c)
{
    c.bound(fmt("text: 8 contents (and shifted by 0..28 bits) x 16 types x %zu stream format states, read back with 5 continuations", fmts().size()));
    for (u64 p = 0; p < patterns().size(); ++p)
        for (u64 t = 0; t < 16; ++t)
            for (u64 f = 0; f < fmts().size(); ++f)
                for (u64 sh = 0; sh < 32; sh += 4)
                    if (c.mine()) c.exec<c17_text_out>(p, t, f, sh);
}

MC_SECTION("C17", c17_text_in);
// case: sequence of token indices
static const char* const tokens[] = { "20903c40", "40903c00", "d0100000", "b1234567", "f", "0", "FFFFFFFF", "g", "100000000", " ", "\n" };
static constexpr u64     n_tokens = sizeof(tokens) / sizeof(*tokens);
// reference: sequence of reads
static bool ref_word(const std::string& s, std::size_t& pos, u32& out)
{
    while (pos < s.size() && (s[pos] == ' ' || s[pos] == '\n')) ++pos;
    u64  v = 0;
    bool any = false, over = false;
    while (pos < s.size() && isxdigit((unsigned char)s[pos]))
    {
        const char ch = s[pos];
        v = v * 16 + u64(ch <= '9' ? ch - '0' : (ch | 0x20) - 'a' + 10);
        if (v > 0xFFFFFFFFull) over = true;
        if (over) v = 0xFFFFFFFFull;
        any = true;
        ++pos;
    }
    out = u32(v);
    return any && !over;
}
void c17_text_in::run(Ctx& c, Args a)
{
    std::string text;
    for (std::size_t i = 0; i < a.n; ++i) text += tokens[a[i] % n_tokens];
    // the packet read into: the one read before, or (short texts) one of any type
    const int targets = a.n <= 5 ? 17 : 1;
    for (int target = 0; target < targets; ++target)
    {
        std::istringstream in(text);
        std::size_t        pos = 0;
        universal_packet   p{ 0x12345678u, 0x9ABCDEF0u, 0x11111111u, 0x22222222u };
        for (int n = 0; n < 12; ++n)
        {
            if (target) p = universal_packet{ u32(target - 1) << 28 | 0x2345678u, 0x9ABCDEF0u, 0x11111111u, 0x22222222u };
            in >> p;
            Words r{};
            bool  ok = ref_word(text, pos, r[0]);
            if (ok)
                for (u32 k = 1; ok && k < ref_size[r[0] >> 28]; ++k) ok = ref_word(text, pos, r[k]);
            MC_CHECK(c, in.fail() == !ok, "packet %d of \"%s\": %s", n, text.c_str(), ok ? "failed" : "accepted although malformed or truncated");
            if (!ok) break;
            c.nontrivial(n == 0);
            MC_CHECK(c, p == mk(r), "packet %d of \"%s\" read wrong", n, text.c_str());
            c.outcome(fnv(r.data(), 16));
        }
    }
}
static void tokens_rec(Ctx& c, std::vector<u64>& v, int depth)
{
    c.exec_vec<c17_text_in>(v);
    if (depth == 0) return;
    for (u64 t = 0; t < n_tokens; ++t)
    {
        v.push_back(t);
        tokens_rec(c, v, depth - 1);
        v.pop_back();
    }
}
void c17_text_in::enumerate(Ctx& c)
{
    const int depth = c.thorough ? 8 : c.mid ? 7 : 6;
    c.bound(fmt("all texts of up to %d tokens out of %d (packet heads of 1, 2, 3, 4 words, short words, over-long word, non-hex, blanks), read into the packet read before and (up to 5 tokens) into packets of all 16 types", depth, int(n_tokens)));
    for (u64 t = 0; t < n_tokens; ++t)
        for (u64 u = 0; u < n_tokens; ++u)
        {
            if (!c.mine()) continue;
            std::vector<u64> v{ t, u };
            tokens_rec(c, v, depth - 2);
        }
}

//---------------------------------------------------------------------------------------------------------------------
// C30, packet part: every edit sequence up to a depth, every step compared with the reference words

MC_SECTION("C30", c30_packet_edits);
// case: pattern, type, ops...   op = kind*256+value: kind 0 set_group, 1 set_type, 2..17 set_byte
static void c30_apply(universal_packet& p, Words& w, u64 op)
{
    const u32 k = u32(op >> 8), v = u32(op & 0xFF);
    if (k == 0) { p.set_group(midi::group_t(v)); w[0] = (w[0] & 0xF0FFFFFFu) | (v << 24); }
    else if (k == 1) { p.set_type(midi::packet_type(v)); w[0] = (w[0] & 0x0FFFFFFFu) | (v << 28); }
    else { p.set_byte(k - 2, u8(v)); ref_set_byte(w, k - 2, u8(v)); }
}
void c30_packet_edits::run(Ctx& c, Args a)
{
    Words w = patterns()[a[0]];
    w[0]    = (w[0] & 0x0FFFFFFFu) | u32(a[1] << 28);
    auto p  = mk(w);
    c.nontrivial();
    for (std::size_t i = 2; i < a.n; ++i)
    {
        c30_apply(p, w, a[i]);
        ++c.st->transitions;
        MC_CHECK(c, words(p) == w, "edit %zu (%lx): %08x %08x %08x %08x, expected %08x %08x %08x %08x", i - 2, long(a[i]), p.data[0], p.data[1], p.data[2], p.data[3], w[0], w[1], w[2], w[3]);
        MC_CHECK(c, p.group() == ((w[0] >> 24) & 0xF) && u32(p.type()) == w[0] >> 28 && p.size() == ref_size[w[0] >> 28], "fields after edit %lx", long(a[i]));
        c.state(fnv(w.data(), 16));
    }
    ++c.st->traces;
    c.outcome(fnv(w.data(), 16));
}
void c30_packet_edits::enumerate(Ctx& c)
{
    c.bound("packets: 8 contents x 16 types x all sequences of 3 edits out of set_group (16), set_type (16), set_byte (16 positions x 2 values); every single byte edit with every value");
    std::vector<u64> ops;
    for (u64 v = 0; v < 16; ++v) ops.push_back(v);
    for (u64 v = 0; v < 16; ++v) ops.push_back(256 + v);
    const std::size_t headers = ops.size();
    for (u64 b = 0; b < 16; ++b) { ops.push_back((b + 2) * 256 + 0x5A); ops.push_back((b + 2) * 256 + 0xFF); }
    (void)headers;
    for (u64 p = 0; p < patterns().size(); ++p)
        for (u64 t = 0; t < 16; ++t)
        {
            if (!c.mine()) continue;
            for (u64 x : ops)
                for (u64 y : ops)
                    for (u64 z : ops) if (c.mid || z < 512 || y < 512) c.exec<c30_packet_edits>(p, t, x, y, z);
            for (u64 b = 0; b < 16; ++b)
                for (u64 v = 0; v < 256; ++v) c.exec<c30_packet_edits>(p, t, (b + 2) * 256 + v, 7);
        }
}

int main(int argc, char** argv) { return mc::main_(argc, argv); }
