// C18 stream messages, C19 names, C20 flex data, C21 system/utility/JR messages, C22 typed views
#include "mc.h"
#include <midi/data_message.h>
#include <midi/extended_data_message.h>
#include <midi/flex_data_message.h>
#include <midi/jitter_reduction_timestamps.h>
#include <midi/midi1_channel_voice_message.h>
#include <midi/midi2_channel_voice_message.h>
#include <midi/stream_message.h>
#include <midi/system_message.h>
#include <midi/utility_message.h>

using namespace mc;
using midi::packet_address;
using midi::packet_format;
using midi::universal_packet;

using Words = std::array<u32, 4>;
static Words words(const universal_packet& p) { return { p.data[0], p.data[1], p.data[2], p.data[3] }; }
static u8    rb(const Words& w, unsigned b) { return u8(w[b / 4] >> (24 - 8 * (b % 4))); }
static void  sb(Words& w, unsigned b, u32 v)
{
    const unsigned s = 24 - 8 * (b % 4);
    w[b / 4]         = (w[b / 4] & ~(0xFFu << s)) | ((v & 0xFF) << s);
}
static std::string ws(const Words& w) { return fmt("%08x %08x %08x %08x", w[0], w[1], w[2], w[3]); }

#define CHECK_WORDS(c, p, e, what) MC_CHECK(c, words(p) == e, "%s: %s, expected %s", what, ws(words(p)).c_str(), ws(e).c_str())

//---------------------------------------------------------------------------------------------------------------------
// C18

static Words stream(u32 status, u32 format = 0) { return { 0xF0000000u | format << 26 | status << 16, 0, 0, 0 }; }

// all views of the stream family: exactly the one matching the status is offered
static void c18_views(Ctx& c, const universal_packet& p)
{
    using namespace midi;
    const u32  t = p.data[0] >> 28, s = (p.data[0] >> 16) & 0xFF;
    const bool st = t == 15;
    MC_CHECK(c, is_stream_message(p) == st, "is_stream_message of %08x", p.data[0]);
    const bool ok = as_endpoint_discovery_view(p).has_value() == (st && s == 0x00) && as_endpoint_info_view(p).has_value() == (st && s == 0x01) &&
                    as_device_identity_view(p).has_value() == (st && s == 0x02) && as_endpoint_name_view(p).has_value() == (st && s == 0x03) &&
                    as_product_instance_id_view(p).has_value() == (st && s == 0x04) &&
                    as_stream_configuration_view(p).has_value() == (st && (s == 0x05 || s == 0x06)) &&
                    as_function_block_discovery_view(p).has_value() == (st && s == 0x10) &&
                    as_function_block_info_view(p).has_value() == (st && s == 0x11) && as_function_block_name_view(p).has_value() == (st && s == 0x12);
    MC_CHECK(c, ok, "stream views offered for %08x", p.data[0]);
}
static void c18_common(Ctx& c, const midi::stream_message& p)
{
    c18_views(c, p);
    MC_CHECK(c, u32(p.type()) == 15 && p.size() == 4 && u32(p.format()) == ((p.data[0] >> 26) & 3), "header %08x", p.data[0]);
}

MC_SECTION("C18", c18_endpoint_discovery);
void c18_endpoint_discovery::run(Ctx& c, Args a)
{
    using namespace midi;
    c.nontrivial();
    for (u32 maj = 0; maj < 256; ++maj)
        for (u32 min = 0; min < 256; ++min)
        {
            const auto m = make_endpoint_discovery_message(uint8_t(a[0]), uint8_t(maj), uint8_t(min));
            Words      e = stream(0);
            sb(e, 2, maj); sb(e, 3, min); sb(e, 7, u32(a[0]));
            CHECK_WORDS(c, m, e, "endpoint discovery");
            c18_common(c, m);
            const auto v = as_endpoint_discovery_view(m);
            MC_CHECK(c, v->ump_version_major() == maj && v->ump_version_minor() == min && v->ump_version() == (maj << 8 | min) && v->filter() == a[0], "fields");
            MC_CHECK(c, v->requests_info() == ((a[0] & 1) != 0) && v->requests_device_identity() == ((a[0] & 2) != 0) && v->requests_name() == ((a[0] & 4) != 0) && v->requests_product_instance_id() == ((a[0] & 8) != 0) && v->requests_stream_configuration() == ((a[0] & 16) != 0), "filter %lx", long(a[0]));
        }
    Words e = stream(0);
    sb(e, 2, 1); sb(e, 3, 1); sb(e, 7, u32(a[0]));
    CHECK_WORDS(c, make_endpoint_discovery_message(uint8_t(a[0])), e, "default version");
    c.st->evaluations += 65535;
    c.outcome(a[0]);
}
void c18_endpoint_discovery::enumerate(Ctx& c)
{
    c.bound("endpoint discovery: 32 filters x 2^16 versions");
    for (u64 f = 0; f < 32; ++f) if (c.mine()) c.exec<c18_endpoint_discovery>(f);
}

MC_SECTION("C18", c18_endpoint_info);
void c18_endpoint_info::run(Ctx& c, Args a)
{
    using namespace midi;
    c.nontrivial();
    static const u32 vers[][2] = { { 1, 1 }, { 0, 0 }, { 255, 255 }, { 0, 255 }, { 255, 0 }, { 0x12, 0x34 }, { 128, 127 } };
    const u32 n = u32(a[0]), st = u32(a[1]);
    auto one = [&](u32 pr, u32 ex, u32 maj, u32 min) {
        const auto m = make_endpoint_info_message(uint8_t(n), st != 0, uint8_t(pr), uint8_t(ex), uint8_t(maj), uint8_t(min));
        Words      e = stream(1);
        sb(e, 2, maj); sb(e, 3, min); sb(e, 4, n | (st ? 0x80 : 0)); sb(e, 6, pr); sb(e, 7, ex);
        CHECK_WORDS(c, m, e, "endpoint info");
        c18_common(c, m);
        const auto v = as_endpoint_info_view(m);
        MC_CHECK(c, v->ump_version_major() == maj && v->ump_version_minor() == min && v->ump_version() == (maj << 8 | min) && v->num_function_blocks() == n && v->static_function_blocks() == (st != 0) && v->protocols() == pr && v->extensions() == ex, "endpoint info fields of %s", ws(e).c_str());
    };
    for (u32 pr = 0; pr < 4; ++pr)
        for (u32 ex = 0; ex < 4; ++ex)
        {
            for (auto& v : vers) one(pr, ex, v[0], v[1]);
            Words e = stream(1);
            sb(e, 2, 1); sb(e, 3, 1); sb(e, 4, n | (st ? 0x80 : 0)); sb(e, 6, pr); sb(e, 7, ex);
            CHECK_WORDS(c, make_endpoint_info_message(uint8_t(n), st != 0, uint8_t(pr), uint8_t(ex)), e, "default version");
        }
    for (u32 v = 0; v < 65536; v += (n % 8 == 0) ? 1 : 257) one(2, 1, v >> 8, v & 0xFF);
    c.st->evaluations += 16 * 7;
    c.outcome(n * 2 + st);
}
void c18_endpoint_info::enumerate(Ctx& c)
{
    c.bound("endpoint info: 128 block counts x static x protocols x extensions x 7 versions; all versions");
    for (u64 n = 0; n < 128; ++n)
        for (u64 s = 0; s < 2; ++s) if (c.mine()) c.exec<c18_endpoint_info>(n, s);
}

MC_SECTION("C18", c18_device_identity);
void c18_device_identity::run(Ctx& c, Args a)
{
    using namespace midi;
    c.nontrivial();
    midi::device_identity id{};
    id.manufacturer = u32(a[0]); id.family = uint14_t(a[1]); id.model = uint14_t(a[2]); id.revision = u32(a[3]);
    const auto m = make_device_identity_message(id);
    Words      e = stream(2);
    e[1] = u32(a[0]);
    sb(e, 8, a[1] & 0x7F); sb(e, 9, a[1] >> 7); sb(e, 10, a[2] & 0x7F); sb(e, 11, a[2] >> 7);
    for (unsigned k = 0; k < 4; ++k) sb(e, 12 + k, (a[3] >> (7 * k)) & 0x7F);
    CHECK_WORDS(c, m, e, "device identity");
    c18_common(c, m);
    const auto v = as_device_identity_view(m)->identity();
    MC_CHECK(c, v.manufacturer == id.manufacturer && v.family == id.family && v.model == id.model && v.revision == id.revision, "identity %lx %lx %lx %lx reads back as %x %x %x %x", long(a[0]), long(a[1]), long(a[2]), long(a[3]), unsigned(v.manufacturer), v.family, v.model, unsigned(v.revision));
    c.outcome(mix(mix(mix(a[0], a[1]), a[2]), a[3]));
}
void c18_device_identity::enumerate(Ctx& c)
{
    c.bound("device identity: all 2^14 families and models, all single/double bit and byte patterns of manufacturer (3x7 bit) and revision (2^28: every 16 bit window), all pairs of edge values");
    std::vector<u64> mf, e14, rev;
    for (u64 b = 0; b < 128; ++b) { mf.push_back(b << 16); mf.push_back(b << 8); mf.push_back(b); }
    for (u64 k = 0; k < 14; ++k) { e14.push_back(1u << k); e14.push_back(0x3FFF ^ (1u << k)); }
    e14.push_back(0); e14.push_back(0x3FFF);
    for (u64 k = 0; k < 28; ++k) { rev.push_back(1u << k); rev.push_back(0xFFFFFFF ^ (1u << k)); }
    rev.push_back(0); rev.push_back(0xFFFFFFF);
    for (u64 v = 0; v < 16384; ++v) if (c.mine()) { c.exec<c18_device_identity>(0x002109, v, 0, 0); c.exec<c18_device_identity>(0x7F7F7F, 0x3FFF, v, 0xFFFFFFF); c.exec<c18_device_identity>(0, 0, v, 0); c.exec<c18_device_identity>(0x7D0000, v, 0x3FFF, 0xFFFFFFF); }
    for (u64 m : mf)
    {
        if (!c.mine()) continue;
        for (u64 r : rev) for (u64 f : { 0, 0x3FFF, 0x1555 }) for (u64 x : { 0, 0x3FFF, 0x1555, 0x2AAA }) c.exec<c18_device_identity>(m, f, x, r);
    }
    for (u64 f : e14)
        for (u64 m : e14) { if (!c.mine()) continue; for (u64 r : rev) for (u64 x : { 0, 0x7E7D01, 0x7F7F7F, 0x002109 }) c.exec<c18_device_identity>(x, f, m, r); }
    for (u64 sh = 0; sh <= 12; sh += 4)
        for (u64 v = 0; v < 65536; ++v) if (c.mine()) c.exec<c18_device_identity>(0x010203, 0x1234, 0x2B2B, v << sh);
}

MC_SECTION("C18", c18_configuration);
void c18_configuration::run(Ctx& c, Args a)
{
    using namespace midi;
    c.nontrivial();
    for (int req = 0; req < 2; ++req)
    {
        const auto m = req ? make_stream_configuration_request(protocol_t(a[0]), extensions_t(a[1])) : make_stream_configuration_notification(protocol_t(a[0]), extensions_t(a[1]));
        Words      e = stream(req ? 5 : 6);
        sb(e, 2, u32(a[0])); sb(e, 3, u32(a[1]));
        CHECK_WORDS(c, m, e, "stream configuration");
        c18_common(c, m);
        const auto v = as_stream_configuration_view(m);
        MC_CHECK(c, v->protocol() == a[0] && v->extensions() == a[1], "configuration fields");
    }
    Words e = stream(5);
    sb(e, 2, u32(a[0]));
    CHECK_WORDS(c, make_stream_configuration_request(protocol_t(a[0])), e, "default extensions");
    e = stream(6);
    sb(e, 2, u32(a[0]));
    CHECK_WORDS(c, make_stream_configuration_notification(protocol_t(a[0])), e, "default extensions");
    c.outcome(a[0] * 4 + a[1]);
}
void c18_configuration::enumerate(Ctx& c)
{
    c.bound("stream configuration request/notification: both protocols x 4 extensions");
    for (u64 p = 1; p < 3; ++p) for (u64 e = 0; e < 4; ++e) if (c.mine()) c.exec<c18_configuration>(p, e);
}

MC_SECTION("C18", c18_fb_discovery);
void c18_fb_discovery::run(Ctx& c, Args a)
{
    using namespace midi;
    c.nontrivial();
    const auto m = make_function_block_discovery_message(uint8_t(a[0]), uint8_t(a[1]));
    Words      e = stream(0x10);
    sb(e, 2, u32(a[0])); sb(e, 3, u32(a[1]));
    CHECK_WORDS(c, m, e, "function block discovery");
    c18_common(c, m);
    const auto v = as_function_block_discovery_view(m);
    MC_CHECK(c, v->function_block() == a[0] && v->filter() == a[1] && v->requests_info() == ((a[1] & 1) != 0) && v->requests_name() == ((a[1] & 2) != 0), "fields");
    for (u32 b = 0; b < 32; ++b) MC_CHECK(c, v->requests_function_block(uint8_t(b)) == (a[0] == 0xFF || a[0] == b), "block %u requested by %lx", b, long(a[0]));
    c.outcome(a[0] * 16 + a[1]);
}
void c18_fb_discovery::enumerate(Ctx& c)
{
    c.bound("function block discovery: 32 blocks and all-blocks x 4 filters");
    for (u64 b = 0; b < 33; ++b) for (u64 f = 0; f < 4; ++f) if (c.mine()) c.exec<c18_fb_discovery>(b == 32 ? 0xFF : b, f);
}

MC_SECTION("C18", c18_fb_info);
// case: block, first group, number of groups
void c18_fb_info::run(Ctx& c, Args a)
{
    using namespace midi;
    c.nontrivial();
    const u32 fb = u32(a[0]), fg = u32(a[1]), n = u32(a[2]);
    u64       k  = 0;
    for (u32 dir = 1; dir < 4; ++dir)
    {
        const auto m = make_function_block_info_message(uint7_t(fb), uint2_t(dir), group_t(fg), uint4_t(n));
        Words      e = stream(0x11);
        sb(e, 2, 0x80 | fb); sb(e, 3, dir << 4 | dir); sb(e, 4, fg); sb(e, 5, n);
        CHECK_WORDS(c, m, e, "function block info (short form)");
        c18_common(c, m);
        const auto v = as_function_block_info_view(m);
        MC_CHECK(c, v->active() && v->function_block() == fb && v->direction() == dir && v->midi1() == 0 && v->ui_hint() == dir && v->first_group() == fg && v->num_groups_spanned() == n && v->ci_message_version() == 0 && v->max_num_sysex8_streams() == 0, "short form fields");
        for (u32 act = 0; act < 2; ++act)
            for (u32 m1 = 0; m1 < 3; ++m1)
                for (u32 ui = 0; ui < 4; ++ui)
                {
                    if (ui && !(dir & ui)) continue;
                    auto one = [&](u32 ci, u32 s8) {
                        function_block_options o;
                        o.active = act != 0; o.direction = uint2_t(dir); o.midi1 = uint2_t(m1); o.ui_hint = uint2_t(ui); o.ci_message_version = uint8_t(ci); o.max_num_sysex8_streams = uint8_t(s8);
                        const auto x = make_function_block_info_message(uint7_t(fb), o, group_t(fg), uint4_t(n));
                        Words      f = stream(0x11);
                        sb(f, 2, (act ? 0x80 : 0) | fb); sb(f, 3, (ui ? ui : dir) << 4 | m1 << 2 | dir); sb(f, 4, fg); sb(f, 5, n); sb(f, 6, ci); sb(f, 7, s8);
                        CHECK_WORDS(c, x, f, "function block info");
                        c18_common(c, x);
                        const auto w = as_function_block_info_view(x);
                        MC_CHECK(c, w->active() == (act != 0) && w->function_block() == fb && w->direction() == dir && w->midi1() == m1 && w->ui_hint() == (ui ? ui : dir) && w->first_group() == fg && w->num_groups_spanned() == n && w->ci_message_version() == ci && w->max_num_sysex8_streams() == s8, "fields of %s", ws(f).c_str());
                        ++k;
                    };
                    for (auto [ci, s8] : { std::pair<u32, u32>{ 0, 0 }, { 127, 255 }, { 1, 128 }, { 0, 255 }, { 127, 0 }, { 2, 1 } }) one(ci, s8);
                    if (fb % 8 == 3 && fg % 5 == 0 && n % 5 == 1)
                    {
                        for (u32 ci = 0; ci < 128; ++ci) one(ci, 255 - ci);
                        for (u32 s8 = 0; s8 < 256; ++s8) one(s8 / 2, s8);
                    }
                }
    }
    if (n == 1)
    {
        Words e = stream(0x11);
        sb(e, 2, 0x80 | fb); sb(e, 3, 0x33); sb(e, 4, fg); sb(e, 5, 1);
        CHECK_WORDS(c, make_function_block_info_message(uint7_t(fb), function_block_options{}, group_t(fg)), e, "defaults");
        CHECK_WORDS(c, make_function_block_info_message(uint7_t(fb), uint2_t(3), group_t(fg)), e, "defaults");
    }
    c.st->evaluations += k;
    c.outcome(mix(mix(fb, fg), n));
}
void c18_fb_info::enumerate(Ctx& c)
{
    c.bound("function block info: 32 blocks x 16 first groups x 1..16 groups x all directions, active, MIDI 1 modes, legal UI hints, CI versions and SysEx8 stream counts");
    for (u64 b = 0; b < 32; ++b)
        for (u64 g = 0; g < 16; ++g)
            for (u64 n = 1; n <= 16; ++n) if (c.mine()) c.exec<c18_fb_info>(b, g, n);
}

MC_SECTION("C18", c18_format_and_views);
void c18_format_and_views::run(Ctx& c, Args a)
{
    c.nontrivial();
    // every 16 bit header: views; set_format on every prior content
    for (u32 lo : { 0u, 0xFFFFu, 0x8001u, 0x1011u })
    {
        const universal_packet p{ u32(a[0]) << 16 | lo, ~0u, 0x01234567u, 0x89ABCDEFu };
        c18_views(c, p);
    }
    if ((a[0] >> 12) == 15)
        for (u32 f = 0; f < 4; ++f)
            for (u32 lo : { 0u, 0xFFFFu })
            {
                midi::stream_message m;
                m.data[0] = u32(a[0]) << 16 | lo;
                m.data[1] = ~0u;
                Words e = words(m);
                e[0] = (e[0] & 0xF3FFFFFFu) | f << 26;
                m.set_format(packet_format(f));
                CHECK_WORDS(c, m, e, "set_format");
                MC_CHECK(c, u32(m.format()) == f, "format");
                const midi::stream_message n{ midi::status_t(a[0]), packet_format(f) };
                CHECK_WORDS(c, n, stream(u32(a[0]) & 0xFF, f), "constructor");
            }
    CHECK_WORDS(c, midi::stream_message{}, stream(0), "default constructor");
    c.outcome(a[0] >> 8);
}
void c18_format_and_views::enumerate(Ctx& c)
{
    c.bound("views offered for all 2^16 packet headers (type, format, status); set_format/constructors with all formats and statuses");
    for (u64 h = 0; h < 65536; ++h) if (c.mine()) c.exec<c18_format_and_views>(h);
}

//---------------------------------------------------------------------------------------------------------------------
// C19

static void c19_name(Ctx& c, int kind, u32 block, const std::string& name)
{
    using namespace midi;
    // kind 0 endpoint name, 1 product instance id, 2 function block name
    const std::size_t cap = kind == 2 ? 13 : 14, off = kind == 2 ? 3 : 2;
    const u32         status = kind == 0 ? 3 : kind == 1 ? 4 : 0x12;
    std::vector<universal_packet> got;
    auto sender = [&](const auto& p) { got.push_back(p); };
    if (kind == 0) send_endpoint_name(name, sender);
    else if (kind == 1) send_product_instance_id(name, sender);
    else send_function_block_name(uint7_t(block), name, sender);
    const std::size_t n = name.empty() ? 1 : (name.size() + cap - 1) / cap;
    MC_CHECK(c, got.size() == n, "%zu packets for a name of %zu bytes", got.size(), name.size());
    std::string text;
    for (std::size_t i = 0; i < n; ++i)
    {
        const u32 f = n == 1 ? 0 : i == 0 ? 1 : i + 1 == n ? 3 : 2;
        Words     e = stream(status, f);
        if (kind == 2) sb(e, 2, block);
        const std::string part = name.substr(i * cap, cap);
        for (std::size_t k = 0; k < part.size(); ++k) sb(e, unsigned(off + k), u8(part[k]));
        CHECK_WORDS(c, got[i], e, "name packet");
        std::string pl;
        u32         fm = 99;
        if (kind == 0) { const auto v = as_endpoint_name_view(got[i]); MC_CHECK(c, v.has_value(), "view"); pl = v->payload(); fm = u32(v->format()); }
        if (kind == 1) { const auto v = as_product_instance_id_view(got[i]); MC_CHECK(c, v.has_value(), "view"); pl = v->payload(); fm = u32(v->format()); }
        if (kind == 2) { const auto v = as_function_block_name_view(got[i]); MC_CHECK(c, v.has_value(), "view"); pl = v->payload(); fm = u32(v->format()); MC_CHECK(c, v->function_block() == block, "block"); }
        MC_CHECK(c, fm == f, "format %u of packet %zu/%zu", fm, i, n);
        text += pl;
        ++c.st->transitions;
        c.state(mix(mix(kind, f), part.size()));
    }
    MC_CHECK(c, text == name, "name of %zu bytes arrives as %zu bytes: [%s] -> [%s]", name.size(), text.size(), hex({ name.begin(), name.end() }).c_str(), hex({ text.begin(), text.end() }).c_str());
    ++c.st->traces;
    c.outcome(mix(fnv(name.data(), name.size()), kind));
}

MC_SECTION("C19", c19_lengths);
// case: kind, block, length, seed: content varied by position
void c19_lengths::run(Ctx& c, Args a)
{
    std::string n;
    for (u64 i = 0; i < a[2]; ++i)
    {
        u32 ch = u32(i * 7 + a[3] * 31 + 1) % 255 + 1;
        if (a[0] == 1) ch = (ch - 1) % 127 + 1;
        n.push_back(char(ch));
    }
    c.nontrivial();
    if (c.want_sample() && a[2] == 29) c.sample(fmt("kind %lu name of 29 bytes: %s", (unsigned long)a[0], hex({ n.begin(), n.end() }).c_str()));
    c19_name(c, int(a[0]), u32(a[1]), n);
}
void c19_lengths::enumerate(Ctx& c)
{
    const u64 maxlen = c.thorough ? 3000 : c.mid ? 600 : 130;
    c.bound(fmt("names of every length 0..%lu (product instance id 0..16) x 32 function blocks x 8 contents over all non-zero bytes; every length to %d, and around 2^k bytes / 2^k packets to 2^20 bytes, x 3 function blocks", (unsigned long)maxlen, c.thorough ? 40000 : c.mid ? 8000 : 4000));
    for (u64 len = 0; len <= maxlen; ++len)
        for (u64 s = 0; s < 8; ++s)
        {
            if (c.mine()) c.exec<c19_lengths>(0, 0, len, s);
            if (len <= 16 && c.mine()) c.exec<c19_lengths>(1, 0, len, s);
            for (u64 b = 0; b < 32; ++b) if (c.mine()) c.exec<c19_lengths>(2, b, len, s);
        }
    auto one = [&](u64 len) {
        if (!c.mine()) return;
        c.exec<c19_lengths>(0, 0, len, len);
        for (u64 b : { 0, 17, 31 }) c.exec<c19_lengths>(2, b, len, len);
    };
    const u64 dense = c.thorough ? 40000 : c.mid ? 8000 : 4000;
    for (u64 len = maxlen + 1; len <= dense; ++len) one(len);
    for (u64 k = 12; k <= (c.mid ? 20 : 16); ++k)
        for (u64 unit : { 1, 13, 14, 16 })
            for (u64 d = 0; d < 66; ++d) { const u64 len = (u64(1) << k) / (unit == 1 ? 1 : 16) * unit + d - 33; if (len > dense) one(len); }
}

MC_SECTION("C19", c19_bytes);
// case: kind, length, position, byte : single byte value everywhere else 'x'
void c19_bytes::run(Ctx& c, Args a)
{
    std::string n(a[1], 'x');
    n[a[2]] = char(a[3]);
    c.nontrivial();
    c19_name(c, int(a[0]), u32(a[2] % 32), n);
}
void c19_bytes::enumerate(Ctx& c)
{
    c.bound("every byte value 1..255 (product instance id 1..127) at every position of names of length 1, 12..16, 26..29, 39..43");
    for (u64 len : { 1, 12, 13, 14, 15, 16, 26, 27, 28, 29, 39, 40, 42, 43 })
        for (u64 pos = 0; pos < len; ++pos)
        {
            if (!c.mine()) continue;
            for (u64 v = 1; v < 256; ++v)
            {
                c.exec<c19_bytes>(0, len, pos, v);
                if (len <= 16 && v < 128) c.exec<c19_bytes>(1, len, pos, v);
                c.exec<c19_bytes>(2, len, pos, v);
            }
        }
}

MC_SECTION("C19", c19_utf8);
// case: kind, words over {1,2,3,4 byte UTF-8 characters}
void c19_utf8::run(Ctx& c, Args a)
{
    static const char* const ch[] = { "a", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x8E\xB9" };
    std::string n;
    for (std::size_t i = 1; i < a.n; ++i) n += ch[a[i] & 3];
    c.nontrivial();
    c19_name(c, int(a[0]), 5, n);
}
static void utf_rec(Ctx& c, std::vector<u64>& v, int depth)
{
    c.exec_vec<c19_utf8>(v);
    if (!depth) return;
    for (u64 k = 0; k < 4; ++k) { v.push_back(k); utf_rec(c, v, depth - 1); v.pop_back(); }
}
void c19_utf8::enumerate(Ctx& c)
{
    const int depth = c.thorough ? 11 : c.mid ? 10 : 8;
    c.bound(fmt("all endpoint and function block names of up to %d UTF-8 characters of 1..4 bytes", depth));
    for (u64 kind : { 0, 2 })
        for (u64 x = 0; x < 16; ++x)
        {
            if (!c.mine()) continue;
            std::vector<u64> v{ kind, x & 3, x >> 2 };
            utf_rec(c, v, depth - 2);
        }
}

// characters an implementation may be tempted to treat specially
static const u8 special_chars[] = { ' ', '0', 'k', '.', '"', '\n', 0x01, 0x7F, 0x80, 0xC3, 0xFF };

MC_SECTION("C19", c19_patterns);
// case: kind, prefix length, length, first char, second char: every pattern of two characters
void c19_patterns::run(Ctx& c, Args a)
{
    c.nontrivial();
    std::string n(a[1] + a[2], 'x');
    u64 k = 0;
    for (u64 m = 0; m < (u64(1) << a[2]); ++m)
    {
        for (u64 i = 0; i < a[2]; ++i) n[a[1] + i] = char(m >> i & 1 ? a[3] : a[4]);
        c19_name(c, int(a[0]), u32(m % 32), n);
        ++k;
    }
    c.st->evaluations += k - 1;
}
void c19_patterns::enumerate(Ctx& c)
{
    const u64 maxlen = c.mid ? 14 : 12, nc = sizeof(special_chars);
    c.bound(fmt("names ending in every pattern of length 1..%lu of every two out of %lu characters (blank, digit, punctuation, control, high bytes), alone and after a full packet", (unsigned long)maxlen, (unsigned long)nc));
    for (u64 kind = 0; kind < 3; ++kind)
        for (u64 pre : { u64(0), u64(kind == 2 ? 13 : 14) })
            for (u64 l = 1; l <= maxlen; ++l)
                for (u64 x = 0; x < nc; ++x)
                    for (u64 y = x + 1; y < nc; ++y)
                        if (kind != 1 || (!pre && special_chars[x] < 0x80 && special_chars[y] < 0x80))
                            if (c.mine()) c.exec<c19_patterns>(kind, pre, l, special_chars[x], special_chars[y]);
}

MC_SECTION("C19", c19_pairs);
// case: kind, length, byte: every pair of final bytes
void c19_pairs::run(Ctx& c, Args a)
{
    c.nontrivial();
    std::string n(a[1], 'x');
    const u64 top = a[0] == 1 ? 128 : 256;
    for (u64 v = 1; v < top; ++v)
    {
        n[a[1] - 2] = char(a[2]);
        n[a[1] - 1] = char(v);
        c19_name(c, int(a[0]), u32(v % 32), n);
    }
    c.st->evaluations += top - 2;
}
void c19_pairs::enumerate(Ctx& c)
{
    c.bound("every pair of final bytes of names of length 2, 12..16, 25..30");
    for (u64 kind = 0; kind < 3; ++kind)
        for (u64 len : { 2, 12, 13, 14, 15, 16, 25, 26, 27, 28, 29, 30 })
            for (u64 v = 1; v < 256; ++v)
                if (kind != 1 || (len <= 16 && v < 128))
                    if (c.mine()) c.exec<c19_pairs>(kind, len, v);
}

MC_SECTION("C19", c19_single);
// the single-packet builders with every format
void c19_single::run(Ctx& c, Args a)
{
    using namespace midi;
    const u32   f = u32(a[0]);
    std::string n;
    for (u64 i = 0; i < a[1]; ++i) n.push_back(char(i * 9 + a[2] + 1));
    for (auto& x : n) if (!x) x = 1;
    c.nontrivial();
    if (a[1] <= 14)
    {
        Words e = stream(3, f);
        for (std::size_t k = 0; k < n.size(); ++k) sb(e, unsigned(2 + k), u8(n[k]));
        const auto m = make_endpoint_name_message(packet_format(f), n);
        CHECK_WORDS(c, m, e, "endpoint name");
        MC_CHECK(c, as_endpoint_name_view(m)->payload() == n && u32(as_endpoint_name_view(m)->format()) == f, "payload");
        std::string n7 = n;
        for (auto& x : n7) { x = char(x & 0x7F); if (!x) x = 1; }
        if (f != 2)
        {
            Words g = stream(4, f);
            for (std::size_t k = 0; k < n7.size(); ++k) sb(g, unsigned(2 + k), u8(n7[k]));
            const auto q = make_product_instance_id_message(packet_format(f), n7);
            CHECK_WORDS(c, q, g, "product instance id");
            MC_CHECK(c, as_product_instance_id_view(q)->payload() == n7, "payload");
        }
    }
    if (a[1] <= 13)
        for (u32 b = 0; b < 32; ++b)
        {
            Words e = stream(0x12, f);
            sb(e, 2, b);
            for (std::size_t k = 0; k < n.size(); ++k) sb(e, unsigned(3 + k), u8(n[k]));
            const auto m = make_function_block_name_message(packet_format(f), uint7_t(b), n);
            CHECK_WORDS(c, m, e, "function block name");
            const auto v = as_function_block_name_view(m);
            MC_CHECK(c, v->payload() == n && v->function_block() == b && u32(v->format()) == f, "function block name fields");
        }
    ++c.st->transitions; ++c.st->traces;
    c.state(mix(f, a[1]));
    c.outcome(mix(mix(f, a[1]), a[2]));
}
void c19_single::enumerate(Ctx& c)
{
    c.bound("single name packets: all formats x lengths 0..14 x 256 contents x 32 blocks");
    for (u64 f = 0; f < 4; ++f) for (u64 l = 0; l <= 14; ++l) for (u64 s = 0; s < 256; ++s) if (c.mine()) c.exec<c19_single>(f, l, s);
}

//---------------------------------------------------------------------------------------------------------------------
// C20

static Words flex(u32 g, u32 f, u32 addr, u32 ch, u32 bank, u32 st, u32 d1 = 0, u32 d2 = 0, u32 d3 = 0)
{
    return { 0xD0000000u | g << 24 | f << 22 | addr << 20 | ch << 16 | bank << 8 | st, d1, d2, d3 };
}
static void c20_check(Ctx& c, const midi::flex_data_message& m, const Words& e, const char* what)
{
    CHECK_WORDS(c, m, e, what);
    const auto v = midi::as_flex_data_message_view(m);
    MC_CHECK(c, v && midi::is_flex_data_message(m) && m.size() == 4, "no view for %s", ws(e).c_str());
    const u32 w = e[0];
    MC_CHECK(c, v->group() == ((w >> 24) & 0xF) && u32(v->format()) == ((w >> 22) & 3) && u32(v->address()) == ((w >> 20) & 3) && v->channel() == ((w >> 16) & 0xF) && v->status_bank() == ((w >> 8) & 0xFF) && v->status() == (w & 0xFF), "view header of %08x", w);
    MC_CHECK(c, m.group() == ((w >> 24) & 0xF) && u32(m.format()) == ((w >> 22) & 3) && u32(m.address()) == ((w >> 20) & 3) && m.channel() == ((w >> 16) & 0xF) && m.status_bank() == ((w >> 8) & 0xFF) && m.status() == (w & 0xFF), "header of %08x", w);
    MC_CHECK(c, v->data1() == e[1] && v->data2() == e[2] && v->data3() == e[3], "payload of %s", ws(e).c_str());
}

MC_SECTION("C20", c20_generic);
// case: group, address/channel, bank
void c20_generic::run(Ctx& c, Args a)
{
    using namespace midi;
    static const Words pl[] = { { 0, 0, 0, 0 }, { 0, ~0u, ~0u, ~0u }, { 0, 0x01234567u, 0x89ABCDEFu, 0xDEADBEEFu }, { 0, ~0u, 0, 0 }, { 0, 0, ~0u, 0 }, { 0, 0, 0, ~0u } };
    const u32 g = u32(a[0]), addr = a[1] == 16 ? 1 : 0, ch = a[1] == 16 ? 0 : u32(a[1]), bank = u32(a[2]);
    c.nontrivial();
    for (u32 f = 0; f < 4; ++f)
        for (u32 st = 0; st < 256; ++st)
            for (auto& d : pl)
            {
                const auto m = make_flex_data_message(group_t(g), packet_format(f), packet_address(addr), channel_t(ch), status_t(bank), status_t(st), d[1], d[2], d[3]);
                c20_check(c, m, flex(g, f, addr, ch, bank, st, d[1], d[2], d[3]), "flex data");
            }
    CHECK_WORDS(c, flex_data_message(group_t(g)), flex(g, 0, 0, 0, 0, 0), "group constructor");
    CHECK_WORDS(c, make_flex_data_message(group_t(g), packet_format::complete, packet_address(addr), channel_t(ch), status_t(bank), 1), flex(g, 0, addr, ch, bank, 1), "default data");
    c.st->evaluations += 4 * 256 * 6;
    c.outcome(mix(mix(g, a[1]), bank));
}
void c20_generic::enumerate(Ctx& c)
{
    c.bound("generic: 16 groups x (16 channels + group address) x 256 banks x 256 statuses x 4 formats x 6 payloads");
    for (u64 g = 0; g < 16; ++g) for (u64 x = 0; x < 17; ++x) for (u64 b = 0; b < 256; ++b) if (c.mine()) c.exec<c20_generic>(g, x, b);
}

MC_SECTION("C20", c20_setup);
// case: kind, group, block
void c20_setup::run(Ctx& c, Args a)
{
    using namespace midi;
    const u32     g = u32(a[1]), blk = u32(a[2]);
    const group_t gg = group_t(g);
    c.nontrivial();
    u64 n = 0;
    if (a[0] == 0)
    { // tempo
        for (u32 i = 0; i < 4096; ++i)
        {
            const u32 v = blk * 4096 + i; // 16 bit window
            for (u32 t : { v, v << 8, v << 16, ~v, ~(v << 16) }) { c20_check(c, make_set_tempo_message(gg, t), flex(g, 0, 1, 0, 0, 0, t), "tempo"); ++n; }
        }
    }
    else if (a[0] == 1)
    { // time signature: numerator block, denominator, 32nd notes
        for (u32 num = blk * 16; num < blk * 16 + 16; ++num)
            for (u32 den = 0; den < 256; ++den)
                for (u32 t = 0; t < 256; t += (num % 16 == 5) ? 1 : 51) { c20_check(c, make_set_time_signature_message(gg, u8(num), u8(den), u8(t)), flex(g, 0, 1, 0, 0, 1, num << 24 | den << 16 | t << 8), "time signature"); ++n; }
    }
    else if (a[0] == 2)
    { // metronome: every pair of the six fields over all values of one, edges of the others
        static const u32 ed[] = { 0, 1, 0x7F, 0x80, 0xFF };
        for (u32 v = blk * 16; v < blk * 16 + 16; ++v)
            for (u32 pos = 0; pos < 6; ++pos)
                for (u32 x : ed)
                    for (u32 other = 0; other < 6; ++other)
                        for (u32 y : ed)
                        {
                            u32 f[6] = { x, x, x, x, x, x };
                            f[other] = y;
                            f[pos]   = v;
                            c20_check(c, make_set_metronome_message(gg, u8(f[0]), u8(f[1]), u8(f[2]), u8(f[3]), u8(f[4]), u8(f[5])), flex(g, 0, 1, 0, 0, 2, f[0] << 24 | f[1] << 16 | f[2] << 8 | f[3], f[4] << 24 | f[5] << 16), "metronome");
                            ++n;
                        }
    }
    else if (a[0] == 3)
    { // key signature
        for (u32 x = 0; x < 17; ++x)
            for (u32 s = 0; s < 16; ++s)
            {
                const u32 t = blk;
                c20_check(c, make_set_key_signature_message(gg, packet_address(x == 16), channel_t(x == 16 ? 0 : x), uint4_t(s), uint4_t(t)), flex(g, 0, x == 16, x == 16 ? 0 : x, 0, 5, (s << 4 | t) << 24), "key signature");
                ++n;
            }
    }
    else
    { // chord
        for (u32 x = 0; x < 17; ++x)
            for (u32 k = 0; k < 32; ++k)
                for (u32 w = 0; w < 3; ++w)
                    for (int inv = 0; inv < 2; ++inv)
                    {
                        u32 d[3] = { 0, 0, 0 };
                        d[w]     = (1u << k) | blk * 0x01010101u;
                        if (inv) for (auto& q : d) q = ~q;
                        c20_check(c, make_set_chord_message(gg, packet_address(x == 16), channel_t(x == 16 ? 0 : x), d[0], d[1], d[2]), flex(g, 0, x == 16, x == 16 ? 0 : x, 0, 6, d[0], d[1], d[2]), "chord");
                        ++n;
                    }
    }
    c.st->evaluations += n - 1;
    c.outcome(mix(mix(a[0], a[1]), a[2]));
}
void c20_setup::enumerate(Ctx& c)
{
    c.bound("tempo, time signature, metronome, key signature, chord: all groups, channels/addresses, all values of every 8/4 bit field, 16 bit windows of 32 bit fields, edge pairs");
    for (u64 k = 0; k < 5; ++k) for (u64 g = 0; g < 16; ++g) for (u64 b = 0; b < 16; ++b) if (c.mine()) c.exec<c20_setup>(k, g, b);
}

MC_SECTION("C20", c20_text);
// case: group, channel/address, bank, length
void c20_text::run(Ctx& c, Args a)
{
    using namespace midi;
    const u32 g = u32(a[0]), addr = a[1] == 16, ch = a[1] == 16 ? 0 : u32(a[1]), bank = u32(a[2]);
    c.nontrivial();
    u64 k = 0;
    auto one = [&](const std::string& t, u32 f, u32 st) {
        Words e = flex(g, f, addr, ch, bank, st);
        for (std::size_t i = 0; i < t.size(); ++i) sb(e, unsigned(4 + i), u8(t[i]));
        const auto m = make_flex_data_text_message(group_t(g), packet_format(f), packet_address(addr), channel_t(ch), status_t(bank), status_t(st), t);
        c20_check(c, m, e, "text");
        MC_CHECK(c, m.payload_as_string() == t && as_flex_data_message_view(m)->payload_as_string() == t && flex_data_message::payload_as_string(m) == t, "text [%s] reads back as [%s]", hex({ t.begin(), t.end() }).c_str(), hex({ m.payload_as_string().begin(), m.payload_as_string().begin() }).c_str());
        ++k;
    };
    for (u64 pos = 0; pos < std::max<u64>(a[3], 1); ++pos)
        for (u32 v = 1; v < 256; ++v)
        {
            std::string t(a[3], 'k');
            if (a[3]) t[pos] = char(v);
            for (u32 f : { 0u, 3u }) one(t, f, v);
            if (a[3] == 12) { one(t, 1, 255 - v); one(t, 2, v); }
        }
    c.st->evaluations += k - 1;
    c.outcome(mix(mix(mix(a[0], a[1]), a[2]), a[3]));
}
void c20_text::enumerate(Ctx& c)
{
    c.bound("text: lengths 0..12, every byte value at every position, all legal formats, 4 groups x (16 channels + group) x banks 1, 2, 255");
    for (u64 g : { 0, 5, 10, 15 }) for (u64 x = 0; x < 17; ++x) for (u64 b : { 1, 2, 255 }) for (u64 l = 0; l <= 12; ++l) if (c.mine()) c.exec<c20_text>(g, x, b, l);
}

MC_SECTION("C20", c20_text_content);
// case: mode, length / position pair, char(s)
static void c20_content(Ctx& c, const std::string& t, u32 f)
{
    using namespace midi;
    Words e = flex(3, f, 0, 9, 1, 2);
    for (std::size_t i = 0; i < t.size(); ++i) sb(e, unsigned(4 + i), u8(t[i]));
    const auto m = make_flex_data_text_message(group_t(3), packet_format(f), packet_address::channel, channel_t(9), status_t(1), status_t(2), t);
    CHECK_WORDS(c, m, e, "text");
    MC_CHECK(c, m.payload_as_string() == t && as_flex_data_message_view(m)->payload_as_string() == t && flex_data_message::payload_as_string(m) == t, "text [%s] reads back as [%s]", hex({ t.begin(), t.end() }).c_str(), m.payload_as_string().c_str());
}
void c20_text_content::run(Ctx& c, Args a)
{
    c.nontrivial();
    u64 k = 0;
    if (a[0] == 0)
    { // every pair of bytes at every pair of positions
        std::string t(a[1], 'k');
        for (u64 q = 0; q < a[1]; ++q)
            for (u64 p = 0; p < q; ++p)
            {
                if (a[1] < 12 && p + 1 != q) continue;
                t.assign(a[1], 'k');
                t[p] = char(a[2]);
                for (u32 v = 1; v < 256; ++v, ++k) { t[q] = char(v); c20_content(c, t, (v & 1) ? 0 : 3); }
            }
    }
    else
    { // every pattern of two characters
        std::string t(a[1], 'k');
        for (u64 m = 0; m < (u64(1) << a[1]); ++m, ++k)
        {
            for (u64 i = 0; i < a[1]; ++i) t[i] = char(m >> i & 1 ? a[2] : a[3]);
            for (u32 f = 0; f < 4; ++f) if (f == 0 || f == 3 || a[1] == 12) c20_content(c, t, f);
        }
    }
    c.st->evaluations += k ? k - 1 : 0;
    c.outcome(mix(mix(mix(a[0], a[1]), a[2]), a.n > 3 ? a[3] : 0));
}
void c20_text_content::enumerate(Ctx& c)
{
    const u64 nc = sizeof(special_chars);
    c.bound(fmt("text: every pair of bytes at every pair of positions of 12 byte texts and at neighbouring positions of shorter ones; every pattern of length 1..12 of every two out of %lu characters", (unsigned long)nc));
    for (u64 l = 2; l <= 12; ++l) for (u64 v = 1; v < 256; ++v) if (c.mine()) c.exec<c20_text_content>(0, l, v, 0);
    for (u64 l = 1; l <= 12; ++l) for (u64 x = 0; x < nc; ++x) for (u64 y = x + 1; y < nc; ++y) if (c.mine()) c.exec<c20_text_content>(1, l, special_chars[x], special_chars[y]);
}

//---------------------------------------------------------------------------------------------------------------------
// C21

MC_SECTION("C21", c21_system);
void c21_system::run(Ctx& c, Args a)
{
    using namespace midi;
    const u32 g = u32(a[0]), st = u32(a[1]);
    c.nontrivial();
    for (u32 d1 = 0; d1 < 128; ++d1)
        for (u32 d2 = 0; d2 < 128; ++d2)
        {
            const auto  m = make_system_message(group_t(g), status_t(st), uint7_t(d1), uint7_t(d2));
            const Words e{ 0x10000000u | g << 24 | st << 16 | d1 << 8 | d2, 0, 0, 0 };
            CHECK_WORDS(c, m, e, "system message");
            CHECK_WORDS(c, (system_message{ group_t(g), status_t(st), uint7_t(d1), uint7_t(d2) }), e, "system message");
            const auto v = as_system_message_view(m);
            MC_CHECK(c, v && midi::is_system_message(m) && m.size() == 1, "no view for %08x", e[0]);
            MC_CHECK(c, v->group() == g && v->status() == st && v->data_byte_1() == d1 && v->data_byte_2() == d2, "view of %08x", e[0]);
            MC_CHECK(c, v->get_song_position() == (st == 0xF2 ? d1 | d2 << 7 : 0u), "song position of %08x", e[0]);
            if (st == 0xF2)
            {
                const auto s = make_song_position_message(group_t(g), uint14_t(d1 | d2 << 7));
                CHECK_WORDS(c, s, e, "song position");
                MC_CHECK(c, as_system_message_view(s)->get_song_position() == (d1 | d2 << 7), "song position");
            }
        }
    const Words e{ 0x10000000u | g << 24 | st << 16, 0, 0, 0 };
    CHECK_WORDS(c, make_system_message(group_t(g), status_t(st)), e, "no data");
    CHECK_WORDS(c, make_system_message(group_t(g), status_t(st), 0x5A), (Words{ e[0] | 0x5A00u, 0, 0, 0 }), "one data byte");
    CHECK_WORDS(c, system_message{}, (Words{ 0x10000000u, 0, 0, 0 }), "default");
    c.st->evaluations += 16383;
    c.outcome(mix(g, st));
}
void c21_system::enumerate(Ctx& c)
{
    c.bound("system messages: 16 groups x status 0xF0..0xFF x 2^14 data; all song positions");
    for (u64 g = 0; g < 16; ++g) for (u64 s = 0xF0; s < 0x100; ++s) if (c.mine()) c.exec<c21_system>(g, s);
}

MC_SECTION("C21", c21_utility);
void c21_utility::run(Ctx& c, Args a)
{
    using namespace midi;
    const u32 st = u32(a[0]);
    c.nontrivial();
    for (u32 v = 0; v < 65536; ++v)
    {
        const auto  m = make_utility_message(status_t(st), uint16_t(v));
        const Words e{ st << 16 | v, 0, 0, 0 };
        CHECK_WORDS(c, m, e, "utility message");
        CHECK_WORDS(c, (utility_message{ status_t(st), uint16_t(v) }), e, "utility message");
        const utility_message_view w{ m };
        MC_CHECK(c, w.status() == st && w.payload() == v && m.is_utility_message() && m.size() == 1 && u32(m.type()) == 0, "view of %08x", e[0]);
        if (st == 0x10 || st == 0x20)
        {
            const jr_timestamp_t ts{ uint16_t(v) };
            auto one = [&](auto j) {
                CHECK_WORDS(c, j, e, "JR message");
                MC_CHECK(c, j.timestamp() == ts && j.timestamp().value == v && !(j.timestamp() != ts), "timestamp of %08x", e[0]);
                const jr_timestamp_t other{ uint16_t(v * 40503u + 12345u) };
                j.set_timestamp(other);
                CHECK_WORDS(c, j, (Words{ st << 16 | other.value, 0, 0, 0 }), "set_timestamp");
                MC_CHECK(c, j.timestamp() == other && (j.timestamp() != ts) == (other.value != v), "set_timestamp");
                const utility_message_view uv{ j };
                MC_CHECK(c, uv.status() == st && uv.payload() == other.value, "utility view of JR message");
            };
            if (st == 0x10) { one(jr_clock_message{ ts }); CHECK_WORDS(c, jr_clock_message{}, (Words{ 0x00100000u, 0, 0, 0 }), "default"); }
            else { one(jr_timestamp_message{ ts }); CHECK_WORDS(c, jr_timestamp_message{}, (Words{ 0x00200000u, 0, 0, 0 }), "default"); }
        }
    }
    CHECK_WORDS(c, utility_message{ status_t(st) }, (Words{ st << 16, 0, 0, 0 }), "no payload");
    CHECK_WORDS(c, utility_message{}, (Words{ 0, 0, 0, 0 }), "default");
    c.st->evaluations += 65535;
    c.outcome(st);
}
void c21_utility::enumerate(Ctx& c)
{
    c.bound("utility messages: 256 statuses x 2^16 payloads; JR clock and JR timestamp messages with all 2^16 timestamps");
    for (u64 s = 0; s < 256; ++s) if (c.mine()) c.exec<c21_utility>(s);
}

//---------------------------------------------------------------------------------------------------------------------
// C22

static inline void c22_packet(Ctx& c, const universal_packet& p)
{
    using namespace midi;
    const u32  w = p.data[0], t = w >> 28, st = (w >> 16) & 0xFF, k = st & 0xF0, b3 = (w >> 8) & 0xFF, b4 = w & 0xFF;
    const bool sx7 = t == 3 && k <= 0x30 && (st & 0xF) <= 6;
    const bool sx8 = t == 5 && k <= 0x30 && (st & 0xF) >= 1 && (st & 0xF) <= 14;
    const bool ok1 = is_midi1_channel_voice_message(p) == (t == 2) && is_midi2_channel_voice_message(p) == (t == 4) && midi::is_system_message(p) == (t == 1) &&
                     midi::is_data_message(p) == (t == 3) && is_sysex7_packet(p) == sx7 && is_extended_data_message(p) == (t == 5) && is_sysex8_packet(p) == sx8 &&
                     is_flex_data_message(p) == (t == 13) && is_stream_message(p) == (t == 15);
    MC_CHECK(c, ok1, "kind of %08x", w);
    const bool ok2 = as_midi1_channel_voice_message_view(p).has_value() == (t == 2) && as_midi2_channel_voice_message_view(p).has_value() == (t == 4) &&
                     as_system_message_view(p).has_value() == (t == 1) && as_sysex7_packet_view(p).has_value() == sx7 && as_sysex8_packet_view(p).has_value() == sx8 &&
                     as_flex_data_message_view(p).has_value() == (t == 13);
    MC_CHECK(c, ok2, "views of %08x", w);
    const bool m2 = t == 4;
    const bool ok3 = is_registered_controller_message(p) == (m2 && k == 0x20) && is_assignable_controller_message(p) == (m2 && k == 0x30) &&
                     is_registered_per_note_controller_message(p) == (m2 && k == 0x00) && is_assignable_per_note_controller_message(p) == (m2 && k == 0x10) &&
                     is_registered_per_note_controller_pitch_message(p) == (m2 && k == 0x00 && b4 == 3) && is_per_note_pitch_bend_message(p) == (m2 && k == 0x60) &&
                     is_note_on_with_attribute(p, uint8_t(b4)) == (m2 && k == 0x90) && is_note_off_with_attribute(p, uint8_t(b4)) == (m2 && k == 0x80) &&
                     !is_note_on_with_attribute(p, uint8_t(b4 ^ 1)) && !is_note_off_with_attribute(p, uint8_t(b4 ^ 0x80)) &&
                     is_note_on_with_pitch_7_9(p) == (m2 && k == 0x90 && b4 == 3) && is_pitch_bend_sensitivity_message(p) == (m2 && k == 0x20 && b3 == 0 && b4 == 0) &&
                     is_per_note_pitch_bend_sensitivity_message(p) == (m2 && k == 0x20 && b3 == 0 && b4 == 7);
    MC_CHECK(c, ok3, "MIDI 2 kind of %08x", w);
    const bool ok4 = is_midi2_registered_controller_message(p) == (m2 && k == 0x20) && is_midi2_assignable_controller_message(p) == (m2 && k == 0x30) &&
                     is_midi2_registered_per_note_controller_message(p) == (m2 && k == 0x00) && is_midi2_assignable_per_note_controller_message(p) == (m2 && k == 0x10) &&
                     is_midi2_per_note_pitch_bend_message(p) == (m2 && k == 0x60);
    MC_CHECK(c, ok4, "MIDI 2 kind (former names) of %08x", w);
    if (t == 15) c18_views(c, p);
}

MC_SECTION("C22", c22_all_headers);
void c22_all_headers::run(Ctx& c, Args a)
{
    universal_packet p{ 0, u32(a[1]), u32(a[1]), u32(a[1]) };
    for (u32 i = 0; i < (1u << 20); ++i)
    {
        u32 w = u32(a[0] << 20) | i;
        asm volatile("" : "+r"(w));
        p.data[0] = w;
        c22_packet(c, p);
    }
    c.st->evaluations += (1u << 20) - 1;
    c.nontrivial();
    c.outcome(a[0]);
}
void c22_all_headers::enumerate(Ctx& c)
{
    c.bound("predicates and checked views of all message kinds on all 2^32 first words");
    for (u64 h = 0; h < 4096; ++h) if (c.mine()) c.exec<c22_all_headers>(h, c.thorough ? ~u64{ 0 } : 0);
    if (c.thorough) for (u64 h = 0; h < 4096; ++h) if (c.mine()) c.exec<c22_all_headers>(h, 0);
}

MC_SECTION("C22", c22_view_contents);
// case: header (16 bits), pattern
void c22_view_contents::run(Ctx& c, Args a)
{
    using namespace midi;
    static const Words pat[] = { { 0, 0, 0, 0 }, { 0xFFFF, ~0u, ~0u, ~0u }, { 0x1234, 0x56789ABCu, 0xDEF01234u, 0x567890ABu }, { 0xFEDC, 0xBA987654u, 0x3210FEDCu, 0x80017FFEu } };
    const u32 h = u32(a[0]), t = h >> 12;
    Words     w = pat[a[1]];
    w[0]        = h << 16 | (w[0] & 0xFFFF);
    const universal_packet p{ w[0], w[1], w[2], w[3] };
    c.nontrivial();
    c22_packet(c, p);
    int offered = 0;
    if (auto v = as_midi1_channel_voice_message_view(p)) { ++offered; MC_CHECK(c, v->group() == ((h >> 8) & 0xF) && v->status() == (h & 0xF0) && v->channel() == (h & 0xF) && v->data_byte_1() == (rb(w, 2) & 0x7F) && v->data_byte_2() == (rb(w, 3) & 0x7F), "MIDI 1 view"); }
    if (auto v = as_midi2_channel_voice_message_view(p)) { ++offered; MC_CHECK(c, v->group() == ((h >> 8) & 0xF) && v->status() == (h & 0xF0) && v->channel() == (h & 0xF) && v->byte3() == (rb(w, 2) & 0x7F) && v->byte4() == rb(w, 3) && v->data() == w[1], "MIDI 2 view"); }
    if (auto v = as_system_message_view(p)) { ++offered; MC_CHECK(c, v->group() == ((h >> 8) & 0xF) && v->status() == (h & 0xFF) && v->data_byte_1() == (rb(w, 2) & 0x7F) && v->data_byte_2() == (rb(w, 3) & 0x7F), "system view"); }
    if (auto v = as_sysex7_packet_view(p))
    {
        ++offered;
        MC_CHECK(c, v->group() == ((h >> 8) & 0xF) && v->status() == (h & 0xF0) && u32(v->format()) == ((h >> 4) & 3) && v->payload_size() == (h & 0xF), "sysex7 view");
        for (unsigned b = 0; b < 6; ++b) MC_CHECK(c, v->payload_byte(b) == rb(w, 2 + b), "sysex7 payload %u", b);
    }
    if (auto v = as_sysex8_packet_view(p))
    {
        ++offered;
        MC_CHECK(c, v->group() == ((h >> 8) & 0xF) && u32(v->format()) == ((h >> 4) & 3) && v->stream_id() == rb(w, 2) && v->payload_size() == (h & 0xF) - 1, "sysex8 view");
        for (unsigned b = 0; b < 13; ++b) MC_CHECK(c, v->payload_byte(b) == rb(w, 3 + b), "sysex8 payload %u", b);
    }
    if (auto v = as_flex_data_message_view(p)) { ++offered; MC_CHECK(c, v->group() == ((h >> 8) & 0xF) && u32(v->format()) == ((h >> 6) & 3) && u32(v->address()) == ((h >> 4) & 3) && v->channel() == (h & 0xF) && v->status_bank() == rb(w, 2) && v->status() == rb(w, 3) && v->data1() == w[1] && v->data2() == w[2] && v->data3() == w[3], "flex view"); }
    if (as_endpoint_discovery_view(p) || as_endpoint_info_view(p) || as_device_identity_view(p) || as_endpoint_name_view(p) || as_product_instance_id_view(p) || as_stream_configuration_view(p) || as_function_block_discovery_view(p) || as_function_block_info_view(p) || as_function_block_name_view(p))
    {
        ++offered;
        MC_CHECK(c, t == 15, "stream view for type %u", t);
        if (auto v = as_endpoint_discovery_view(p)) MC_CHECK(c, v->ump_version_major() == rb(w, 2) && v->ump_version_minor() == rb(w, 3) && v->filter() == (rb(w, 7) & 0x1F), "endpoint discovery view");
        if (auto v = as_endpoint_info_view(p)) MC_CHECK(c, v->ump_version() == (w[0] & 0xFFFF) && v->num_function_blocks() == (rb(w, 4) & 0x7F) && v->static_function_blocks() == (rb(w, 4) >> 7 != 0) && v->protocols() == (rb(w, 6) & 3) && v->extensions() == (rb(w, 7) & 3), "endpoint info view");
        if (auto v = as_stream_configuration_view(p)) MC_CHECK(c, v->protocol() == (rb(w, 2) & 3) && v->extensions() == (rb(w, 3) & 3), "configuration view");
        if (auto v = as_function_block_discovery_view(p)) MC_CHECK(c, v->function_block() == rb(w, 2) && v->requests_info() == ((w[0] & 1) != 0) && v->requests_name() == ((w[0] & 2) != 0), "function block discovery view");
        if (auto v = as_function_block_info_view(p)) MC_CHECK(c, v->active() == (rb(w, 2) >> 7 != 0) && v->function_block() == (rb(w, 2) & 0x7F) && v->direction() == (w[0] & 3) && v->midi1() == ((w[0] >> 2) & 3) && v->ui_hint() == ((w[0] >> 4) & 3) && v->first_group() == rb(w, 4) && v->num_groups_spanned() == rb(w, 5) && v->max_num_sysex8_streams() == rb(w, 7), "function block info view");
    }
    MC_CHECK(c, offered <= 1, "%d views offered for %08x", offered, w[0]);
    c.outcome(mix(t, offered));
}
void c22_view_contents::enumerate(Ctx& c)
{
    c.bound("view contents and exclusivity: all 2^16 headers x 4 payloads");
    for (u64 h = 0; h < 65536; ++h) for (u64 p = 0; p < 4; ++p) if (c.mine()) c.exec<c22_view_contents>(h, p);
}

MC_SECTION("C22", c22_payloads);
// case: header (16 bits): all uniform payloads, products of byte patterns, every byte value at every position over three backgrounds
void c22_payloads::run(Ctx& c, Args a)
{
    const u32        h = u32(a[0]) << 16;
    u64              n = 0;
    universal_packet p{ 0, 0, 0, 0 };
    auto one = [&](u32 lo, u32 w1, u32 w2, u32 w3) {
        p.data[0] = h | lo; p.data[1] = w1; p.data[2] = w2; p.data[3] = w3;
        asm volatile("" : : "r"(&p) : "memory");
        c22_packet(c, p);
        ++n;
    };
    for (u32 b = 0; b < 256; ++b) { const u32 w = b * 0x01010101u; one(w & 0xFFFF, w, w, w); one(w & 0xFFFF, w, 0, 0); one(0, w, w, w); }
    static const u32 lows[] = { 0, 1, 0x7F, 0x80, 0xFF, 0x100, 0x7F00, 0x7F7F, 0x8000, 0xFF00, 0xFFFF, 3, 7, 0x0103, 0x0107 };
    static const u32 words[] = { 0, 1, 0x7F, 0x80000000u, 0x7FFFFFFFu, ~0u, 0x7F7F7F7Fu, 0x00FF0000u, 0x04000000u, 0x7F000000u };
    for (u32 l : lows) for (u32 w1 : words) for (u32 w2 : { 0u, ~0u, 0x7F7F7F7Fu }) for (u32 w3 : { 0u, ~0u, 1u }) one(l, w1, w2, w3);
    if (c.mid)
        for (u32 back : { 0u, 0xFFu, 0x7Fu })
            for (unsigned k = 2; k < 16; ++k)
                for (u32 b = 0; b < 256; ++b)
                {
                    Words w; w.fill(back * 0x01010101u);
                    sb(w, k, b);
                    one(w[0] & 0xFFFF, w[1], w[2], w[3]);
                }
    c.st->evaluations += n - 1;
    c.nontrivial();
    c.outcome(a[0] >> 4);
}
void c22_payloads::enumerate(Ctx& c)
{
    c.bound(fmt("predicates and checked views, all 2^16 headers x uniform payloads of every byte, 1350 products of payload words%s", c.mid ? ", every byte value at every other position over the backgrounds 00, 7F, FF" : ""));
    for (u64 h = 0; h < 65536; ++h) if (c.mine()) c.exec<c22_payloads>(h);
}

MC_SECTION("C22", c22_sysex_packets);
// case: kind (0 sysex7, 1 sysex8), format, group, stream id, byte pattern
void c22_sysex_packets::run(Ctx& c, Args a)
{
    using namespace midi;
    const u32     f = u32(a[1]), g = u32(a[2]), id = u32(a[3]);
    const group_t gg = group_t(g);
    c.nontrivial();
    auto byte = [&](unsigned k) { return u8(k * 37 + a[4]); };
    if (a[0] == 0)
    {
        auto  m = f == 0 ? make_sysex7_complete_packet(gg) : f == 1 ? make_sysex7_start_packet(gg) : f == 2 ? make_sysex7_continue_packet(gg) : make_sysex7_end_packet(gg);
        Words e{ 0x30000000u | g << 24 | f << 20, 0, 0, 0 };
        CHECK_WORDS(c, m, e, "sysex7 packet");
        for (unsigned k = 0; k < 6; ++k)
        {
            m.add_payload_byte(byte(k));
            sb(e, 2 + k, byte(k) & 0x7F);
            e[0] = (e[0] & 0xFFF0FFFFu) | (k + 1) << 16;
            CHECK_WORDS(c, m, e, "add_payload_byte");
            MC_CHECK(c, is_sysex7_packet(m) && m.payload_size() == k + 1 && u32(m.format()) == f && m.group() == g && m.payload_byte(k) == (byte(k) & 0x7F), "sysex7 packet fields");
            const auto v = as_sysex7_packet_view(m);
            MC_CHECK(c, v && v->payload_size() == k + 1 && u32(v->format()) == f && v->group() == g && v->payload_byte(k) == (byte(k) & 0x7F), "sysex7 view fields");
        }
        for (unsigned k = 0; k < 6; ++k)
        {
            m.set_payload_byte(k, u8(~byte(k)));
            sb(e, 2 + k, ~byte(k) & 0x7F);
            CHECK_WORDS(c, m, e, "set_payload_byte");
        }
        for (unsigned k = 0; k <= 6; ++k)
        {
            m.set_payload_size(k);
            e[0] = (e[0] & 0xFFF0FFFFu) | k << 16;
            CHECK_WORDS(c, m, e, "set_payload_size");
        }
    }
    else
    {
        auto  m = f == 0 ? make_sysex8_complete_packet(u8(id), gg) : f == 1 ? make_sysex8_start_packet(u8(id), gg) : f == 2 ? make_sysex8_continue_packet(u8(id), gg) : make_sysex8_end_packet(u8(id), gg);
        Words e{ 0x50010000u | g << 24 | f << 20 | id << 8, 0, 0, 0 };
        CHECK_WORDS(c, m, e, "sysex8 packet");
        MC_CHECK(c, m.payload_size() == 0, "payload size");
        for (unsigned k = 0; k < 13; ++k)
        {
            m.add_payload_byte(byte(k));
            sb(e, 3 + k, byte(k));
            e[0] = (e[0] & 0xFFF0FFFFu) | (k + 2) << 16;
            CHECK_WORDS(c, m, e, "add_payload_byte");
            MC_CHECK(c, is_sysex8_packet(m) && m.payload_size() == k + 1 && u32(m.format()) == f && m.group() == g && m.stream_id() == id && m.payload_byte(k) == byte(k), "sysex8 packet fields");
            const auto v = as_sysex8_packet_view(m);
            MC_CHECK(c, v && v->payload_size() == k + 1 && u32(v->format()) == f && v->group() == g && v->stream_id() == id && v->payload_byte(k) == byte(k), "sysex8 view fields");
        }
        for (unsigned k = 0; k < 13; ++k)
        {
            m.set_payload_byte(k, u8(~byte(k)));
            sb(e, 3 + k, u8(~byte(k)));
            CHECK_WORDS(c, m, e, "set_payload_byte");
        }
        for (unsigned k = 0; k <= 13; ++k)
        {
            m.set_payload_size(k);
            e[0] = (e[0] & 0xFFF0FFFFu) | (k + 1) << 16;
            CHECK_WORDS(c, m, e, "set_payload_size");
        }
        m.set_stream_id(u8(~id));
        sb(e, 2, u8(~id));
        CHECK_WORDS(c, m, e, "set_stream_id");
        CHECK_WORDS(c, sysex8_packet{}, (Words{ 0x50010000u, 0, 0, 0 }), "default");
    }
    c.outcome(mix(mix(a[0], f), mix(g, id)));
}
void c22_sysex_packets::enumerate(Ctx& c)
{
    c.bound("SysEx7/8 packets built byte by byte: all formats, groups, stream ids, payload sizes, every byte value in every position");
    for (u64 f = 0; f < 4; ++f)
        for (u64 g = 0; g < 16; ++g)
            for (u64 b = 0; b < 256; ++b)
            {
                if (c.mine()) c.exec<c22_sysex_packets>(0, f, g, 0, b);
                if (c.mine()) c.exec<c22_sysex_packets>(1, f, g, b, 255 - b);
                if (c.mine()) c.exec<c22_sysex_packets>(1, f, g, (b * 7 + g) & 0xFF, b);
            }
}

int main(int argc, char** argv) { return mc::main_(argc, argv); }
