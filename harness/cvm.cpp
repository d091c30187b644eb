// C11 MIDI 1 <-> 2 translation, C15 channel voice builders/views, C16 protocol-agnostic predicates and readers
#include "mc.h"
#include <midi/channel_voice_message.h>

using namespace mc;
using midi::universal_packet;

//---------------------------------------------------------------------------------------------------------------------
// reference helpers (independent of types.h)

static u32 up(u32 v, unsigned x, unsigned y)
{
    u64 r = u64(v) << (y - x);
    if (v > (1u << (x - 1)))
    {
        unsigned src = x - 2;
        for (int dst = int(y - x) - 1; dst >= 0; --dst)
        {
            if ((v >> src) & 1) r |= u64{ 1 } << dst;
            src = src == 0 ? x - 2 : src - 1;
        }
    }
    return u32(r);
}
static const u32* up7_16() { static const auto t = [] { std::array<u32, 128> a{}; for (u32 i = 0; i < 128; ++i) a[i] = up(i, 7, 16); return a; }(); return t.data(); }
static const u32* up7_32() { static const auto t = [] { std::array<u32, 128> a{}; for (u32 i = 0; i < 128; ++i) a[i] = up(i, 7, 32); return a; }(); return t.data(); }
static const u32* up14_32() { static const auto t = [] { std::array<u32, 16384> a{}; for (u32 i = 0; i < 16384; ++i) a[i] = up(i, 14, 32); return a; }(); return t.data(); }

static bool refused_cc(u32 cc) { return cc == 0 || cc == 6 || cc == 32 || cc == 38 || cc == 88 || (cc >= 98 && cc <= 101); }

static const std::vector<u32>& edge32()
{
    static const std::vector<u32> e = [] {
        std::set<u32> s{ 0x55555555u, 0xAAAAAAAAu, 0x01234567u, 0xFEDCBA98u, 0x00FF00FFu };
        for (int k = 0; k < 32; ++k) { s.insert(1u << k); s.insert(~(1u << k)); s.insert((1u << k) - 1); s.insert(0u - (1u << k)); s.insert(0x80000000u + (1u << k)); }
        s.insert(0);
        s.insert(~0u);
        return std::vector<u32>(s.begin(), s.end());
    }();
    return e;
}

static u32 w0(u32 type, u32 g, u32 st, u32 ch, u32 b3, u32 b4) { return (type << 28) | (g << 24) | ((st | ch) << 16) | (b3 << 8) | b4; }

//---------------------------------------------------------------------------------------------------------------------
// C11

MC_SECTION("C11", c11_midi1_to_2);
// case: group, status byte; inner: all data bytes
void c11_midi1_to_2::run(Ctx& c, Args a)
{
    const u32 g = u32(a[0]), sb = u32(a[1]), st = sb & 0xF0, ch = sb & 0xF;
    for (u32 d1 = 0; d1 < 128; ++d1)
        for (u32 d2 = 0; d2 < 128; ++d2)
        {
            const universal_packet p{ w0(2, g, st, ch, d1, d2) };
            const auto             v = midi::as_midi1_channel_voice_message_view(p);
            MC_CHECK(c, v.has_value(), "no view for %08x", p.data[0]);
            const auto r = midi::as_midi2_channel_voice_message(*v);
            u32        e0 = 0, e1 = 0;
            bool       ok = true;
            switch (st)
            {
            case 0x80: e0 = w0(4, g, 0x80, ch, d1, 0); e1 = up7_16()[d2] << 16; break;
            case 0x90:
                if (d2) { e0 = w0(4, g, 0x90, ch, d1, 0); e1 = up7_16()[d2] << 16; }
                else { e0 = w0(4, g, 0x80, ch, d1, 0); e1 = 0x80000000u; }
                break;
            case 0xA0: e0 = w0(4, g, 0xA0, ch, d1, 0); e1 = up7_32()[d2]; break;
            case 0xB0: e0 = w0(4, g, 0xB0, ch, d1, 0); e1 = up7_32()[d2]; ok = !refused_cc(d1); break;
            case 0xC0: e0 = w0(4, g, 0xC0, ch, 0, 0); e1 = d1 << 24; break;
            case 0xD0: e0 = w0(4, g, 0xD0, ch, 0, 0); e1 = up7_32()[d1]; break;
            case 0xE0: e0 = w0(4, g, 0xE0, ch, 0, 0); e1 = up14_32()[d1 | d2 << 7]; break;
            default: ok = false;
            }
            MC_CHECK(c, r.has_value() == ok, "MIDI 1 %08x %s", p.data[0], ok ? "refused" : "translated");
            if (!ok) continue;
            MC_CHECK(c, r->data[0] == e0 && r->data[1] == e1 && r->data[2] == 0 && r->data[3] == 0, "MIDI 1 %08x -> %08x %08x, expected %08x %08x", p.data[0], r->data[0], r->data[1], e0, e1);
            const auto v2 = midi::as_midi2_channel_voice_message_view(*r);
            MC_CHECK(c, v2.has_value(), "result is no MIDI 2 message");
            const auto back = midi::as_midi1_channel_voice_message(*v2);
            u32        eb   = p.data[0];
            if (st == 0x90 && d2 == 0) eb = w0(2, g, 0x80, ch, d1, 64);
            if (st == 0xC0 || st == 0xD0) eb &= 0xFFFFFF00u;
            MC_CHECK(c, back.has_value() && back->data[0] == eb, "MIDI 1 %08x -> MIDI 2 -> %08x, expected %08x", p.data[0], back ? back->data[0] : 0, eb);
        }
    c.st->evaluations += 16383;
    c.nontrivial(sb >= 0x80 && sb < 0xF0);
    c.outcome(sb);
    if (c.want_sample() && sb == 0x95) c.sample(fmt("group %u status %02x all 16384 data byte pairs", g, sb));
}
void c11_midi1_to_2::enumerate(Ctx& c)
{
    c.bound("every MIDI 1 channel voice packet (16 groups x 256 status bytes x 2^14 data), and its translation back");
    for (u32 g = 0; g < 16; ++g)
        for (u32 s = 0; s < 256; ++s) if (c.mine()) c.exec<c11_midi1_to_2>(g, s);
}

static void check_2_to_1(Ctx& c, u32 g, u32 st, u32 ch, u32 b3, u32 b4, u32 d)
{
    const universal_packet p{ w0(4, g, st, ch, b3, b4), d };
    const auto             v = midi::as_midi2_channel_voice_message_view(p);
    MC_CHECK(c, v.has_value(), "no view for %08x", p.data[0]);
    const auto r = midi::as_midi1_channel_voice_message(*v);
    bool       ok = true;
    u32        d1 = b3, d2 = 0;
    switch (st)
    {
    case 0x80: ok = b4 == 0; d2 = d >> 25; break;
    case 0x90: ok = b4 == 0; d2 = d >> 25; if (!d2) d2 = 1; break;
    case 0xA0: d2 = d >> 25; break;
    case 0xB0: ok = !refused_cc(b3); d2 = d >> 25; break;
    case 0xC0: ok = !(b4 & 1); d1 = (d >> 24) & 0x7F; break;
    case 0xD0: d1 = d >> 25; break;
    case 0xE0: d1 = (d >> 18) & 0x7F; d2 = d >> 25; break;
    default: ok = false;
    }
    MC_CHECK(c, r.has_value() == ok, "MIDI 2 %08x %08x %s", p.data[0], d, ok ? "refused" : "translated");
    if (ok) MC_CHECK(c, r->data[0] == w0(2, g, st, ch, d1, d2) && r->size() == 1, "MIDI 2 %08x %08x -> %08x, expected %08x", p.data[0], d, r->data[0], w0(2, g, st, ch, d1, d2));
}

MC_SECTION("C11", c11_midi2_to_1);
// case: group, status byte; inner: all index bytes x edge data
void c11_midi2_to_1::run(Ctx& c, Args a)
{
    static const u32 few[] = { 0, ~0u, 0x01FF0000u, 0x02000000u, 0x7FFFFFFFu, 0x80000000u };
    const u32        g = u32(a[0]), sb = u32(a[1]);
    for (u32 b3 = 0; b3 < 128; ++b3)
        for (u32 b4 = 0; b4 < 256; ++b4)
            for (u32 d : few) check_2_to_1(c, g, sb & 0xF0, sb & 0xF, b3, b4, d);
    for (u32 b3 : { 0, 1, 64, 127 })
        for (u32 d : edge32()) check_2_to_1(c, g, sb & 0xF0, sb & 0xF, b3, 0, d);
    c.st->evaluations += 128 * 256 * 6 + 4 * edge32().size() - 1;
    c.nontrivial(sb >= 0x80 && sb < 0xF0);
    c.outcome(sb);
}
void c11_midi2_to_1::enumerate(Ctx& c)
{
    c.bound("MIDI 2: all groups, status bytes, 128 x 256 index/attribute/flag bytes x 6 data values, plus all edge data words");
    for (u32 g = 0; g < 16; ++g)
        for (u32 s = 0; s < 256; ++s) if (c.mine()) c.exec<c11_midi2_to_1>(g, s);
}

MC_SECTION("C11", c11_midi2_data);
// case: status, high 12 bits; inner: low 20 bits (step)
void c11_midi2_data::run(Ctx& c, Args a)
{
    const u32 st = u32(a[0]), step = u32(a[2]);
    for (u32 i = 0; i < (1u << 20); i += step)
    {
        const u32 low = step == 1 ? i : (i | (i >> 10 & 1 ? step - 1 : 0));
        check_2_to_1(c, 5, st, 10, 7, 0, u32(a[1] << 20) | low);
    }
    c.st->evaluations += (1u << 20) / step - 1;
    c.nontrivial();
    c.outcome(mix(st, a[1]));
}
void c11_midi2_data::enumerate(Ctx& c)
{
    c.bound(c.thorough ? "all 2^32 data words for each of the 7 translatable kinds" : "all values of the upper 28 data bits for each of the 7 translatable kinds");
    for (u32 st = 0x80; st < 0xF0; st += 0x10)
        for (u32 h = 0; h < 4096; ++h) if (c.mine()) c.exec<c11_midi2_data>(st, h, c.thorough ? 1 : 16);
}

//---------------------------------------------------------------------------------------------------------------------
// C15

enum Builder {
    B_m1_generic, B_m1_off, B_m1_on, B_m1_poly, B_m1_cc, B_m1_prog, B_m1_press, B_m1_bend,
    B_m2_generic, B_m2_off, B_m2_off_attr, B_m2_on, B_m2_on_pitch, B_m2_on_attr, B_m2_poly, B_m2_rpnc, B_m2_apnc, B_m2_mgmt,
    B_m2_cc, B_m2_rc, B_m2_ac, B_m2_rrc, B_m2_rac, B_m2_prog, B_m2_prog_bank, B_m2_press, B_m2_bend, B_m2_pnbend, B_count
};

// g, ch, i1 (7 bit), i2 (8 bit: attribute/controller/flags/index), d (32 bit value), e (16 bit: attribute data / bank)
static void c15_check(Ctx& c, u32 b, u32 g_, u32 ch_, u32 i1_, u32 i2_, u32 d, u32 e)
{
    using namespace midi;
    const group_t   g  = group_t(g_);
    const channel_t ch = channel_t(ch_);
    const uint7_t   i1 = uint7_t(i1_);
    const uint8_t   i2 = uint8_t(i2_);
    universal_packet p;
    u32              type = b < B_m2_generic ? 2 : 4, st = 0, b3 = 0, b4 = 0, x1 = 0;
    const u32        i27 = i2_ & 0x7F;
    const velocity   vel{ uint16_t(d >> 16) };
    const controller_value cv{ d };
    bool             n2 = false;
    switch (b)
    {
    case B_m1_generic: st = 0x80 | ((d & 7) == 7 ? 0x60 : (d & 7) << 4); p = make_midi1_channel_voice_message(g, status_t(st), ch, i1, uint7_t(i27)); b3 = i1; b4 = i27; break;
    case B_m1_off: st = 0x80; p = make_midi1_note_off_message(g, ch, i1, vel); b3 = i1; b4 = d >> 25; break;
    case B_m1_on: st = 0x90; p = make_midi1_note_on_message(g, ch, i1, vel); b3 = i1; b4 = d >> 25; break;
    case B_m1_poly: st = 0xA0; p = make_midi1_poly_pressure_message(g, ch, i1, cv); b3 = i1; b4 = d >> 25; break;
    case B_m1_cc: st = 0xB0; p = make_midi1_control_change_message(g, ch, i1, cv); b3 = i1; b4 = d >> 25; break;
    case B_m1_prog: st = 0xC0; p = make_midi1_program_change_message(g, ch, i1); b3 = i1; break;
    case B_m1_press: st = 0xD0; p = make_midi1_channel_pressure_message(g, ch, cv); b3 = d >> 25; break;
    case B_m1_bend: st = 0xE0; p = make_midi1_pitch_bend_message(g, ch, pitch_bend{ d }); b3 = (d >> 18) & 0x7F; b4 = d >> 25; break;
    case B_m2_generic: st = (e & 0xF) << 4; p = make_midi2_channel_voice_message(g, status_t(st), ch, i1, uint7_t(i27), d); b3 = i1; b4 = i27; x1 = d; break;
    case B_m2_off: st = 0x80; p = make_midi2_note_off_message(g, ch, i1, vel); b3 = i1; x1 = d & 0xFFFF0000u; break;
    case B_m2_off_attr: st = 0x80; p = make_midi2_note_off_message(g, ch, i1, vel, i2, uint16_t(e)); b3 = i1; b4 = i2; x1 = (d & 0xFFFF0000u) | e; n2 = true; break;
    case B_m2_on: st = 0x90; p = make_midi2_note_on_message(g, ch, i1, vel); b3 = i1; x1 = d & 0xFFFF0000u; break;
    case B_m2_on_pitch: st = 0x90; p = make_midi2_note_on_message(g, ch, i1, vel, pitch_7_9{ uint16_t(e) }); b3 = i1; b4 = 3; x1 = (d & 0xFFFF0000u) | e; break;
    case B_m2_on_attr: st = 0x90; p = make_midi2_note_on_message(g, ch, i1, vel, i2, uint16_t(e)); b3 = i1; b4 = i2; x1 = (d & 0xFFFF0000u) | e; n2 = true; break;
    case B_m2_poly: st = 0xA0; p = make_midi2_poly_pressure_message(g, ch, i1, cv); b3 = i1; x1 = d; break;
    case B_m2_rpnc: st = 0x00; p = make_registered_per_note_controller_message(g, ch, i1, i2, cv); b3 = i1; b4 = i2; x1 = d; break;
    case B_m2_apnc: st = 0x10; p = make_assignable_per_note_controller_message(g, ch, i1, i2, cv); b3 = i1; b4 = i2; x1 = d; break;
    case B_m2_mgmt: st = 0xF0; p = make_per_note_management_message(g, ch, i1, i2); b3 = i1; b4 = i2; break;
    case B_m2_cc: st = 0xB0; p = make_midi2_control_change_message(g, ch, i1, cv); b3 = i1; x1 = d; break;
    case B_m2_rc: st = 0x20; p = make_registered_controller_message(g, ch, i1, uint7_t(i27), cv); b3 = i1; b4 = i27; x1 = d; break;
    case B_m2_ac: st = 0x30; p = make_assignable_controller_message(g, ch, i1, uint7_t(i27), cv); b3 = i1; b4 = i27; x1 = d; break;
    case B_m2_rrc: st = 0x40; p = make_relative_registered_controller_message(g, ch, i1, uint7_t(i27), controller_increment{ midi::int32_t(d) }); b3 = i1; b4 = i27; x1 = d; break;
    case B_m2_rac: st = 0x50; p = make_relative_assignable_controller_message(g, ch, i1, uint7_t(i27), controller_increment{ midi::int32_t(d) }); b3 = i1; b4 = i27; x1 = d; break;
    case B_m2_prog: st = 0xC0; p = make_midi2_program_change_message(g, ch, i1); x1 = i1_ << 24; break;
    case B_m2_prog_bank: st = 0xC0; p = make_midi2_program_change_message(g, ch, i1, uint14_t(e & 0x3FFF)); b4 = 1; x1 = (i1_ << 24) | ((e >> 7 & 0x7F) << 8) | (e & 0x7F); break;
    case B_m2_press: st = 0xD0; p = make_midi2_channel_pressure_message(g, ch, cv); x1 = d; break;
    case B_m2_bend: st = 0xE0; p = make_midi2_pitch_bend_message(g, ch, pitch_bend{ d }); x1 = d; break;
    case B_m2_pnbend: st = 0x60; p = make_per_note_pitch_bend_message(g, ch, i1, pitch_bend{ d }); b3 = i1; x1 = d; break;
    }
    const u32 e0 = w0(type, g_, st, ch_, b3, b4);
    MC_CHECK(c, p.data[0] == e0 && p.data[1] == x1 && p.data[2] == 0 && p.data[3] == 0, "builder %u: %08x %08x, expected %08x %08x", b, p.data[0], p.data[1], e0, x1);
    MC_CHECK(c, p.group() == g_ && p.channel() == ch_ && p.size() == (type == 2 ? 1u : 2u) && p.has_channel(), "builder %u header", b);
    // views
    if (type == 2)
    {
        const auto v = as_midi1_channel_voice_message_view(p);
        MC_CHECK(c, v && is_midi1_channel_voice_message(p) && !is_midi2_channel_voice_message(p) && !as_midi2_channel_voice_message_view(p), "view of %08x", p.data[0]);
        MC_CHECK(c, v->group() == g_ && v->status() == st && v->channel() == ch_ && v->data_byte_1() == b3 && v->data_byte_2() == b4 && v->get_14bit_value() == (b3 | b4 << 7), "view fields of %08x", p.data[0]);
        const midi1_channel_voice_message m{ p };
        MC_CHECK(c, m == p, "copy");
    }
    else
    {
        const auto v = as_midi2_channel_voice_message_view(p);
        MC_CHECK(c, v && is_midi2_channel_voice_message(p) && !is_midi1_channel_voice_message(p) && !as_midi1_channel_voice_message_view(p), "view of %08x", p.data[0]);
        MC_CHECK(c, v->group() == g_ && v->status() == st && v->channel() == ch_ && v->byte3() == b3 && v->byte4() == b4 && v->data() == x1, "view fields of %08x %08x (byte3 %02x byte4 %02x)", p.data[0], p.data[1], v->byte3(), v->byte4());
        const midi2_channel_voice_message m{ p };
        MC_CHECK(c, m == p, "copy");
        if (st == 0x80 || st == 0x90)
        {
            MC_CHECK(c, get_midi2_note_attribute(p) == b4 && get_midi2_note_attribute_data(p) == (x1 & 0xFFFF), "attribute of %08x %08x", p.data[0], p.data[1]);
            MC_CHECK(c, is_note_on_with_attribute(p, uint8_t(b4)) == (st == 0x90) && is_note_off_with_attribute(p, uint8_t(b4)) == (st == 0x80), "attribute kind of %08x", p.data[0]);
            MC_CHECK(c, !is_note_on_with_attribute(p, uint8_t(b4 ^ 0x80)) && !is_note_off_with_attribute(p, uint8_t(b4 + 1)), "attribute kind of %08x", p.data[0]);
            MC_CHECK(c, is_note_on_with_pitch_7_9(p) == (st == 0x90 && b4 == 3), "pitch 7.9 kind of %08x", p.data[0]);
        }
        if (st == 0x00 || st == 0x10) MC_CHECK(c, get_per_note_controller_index(p) == b4 && get_midi2_per_note_controller_index(p) == b4, "per note controller index");
        if (st == 0x60) MC_CHECK(c, get_per_note_pitch_bend_value(p).value == x1, "per note pitch bend");
        if (st == 0x20)
        {
            MC_CHECK(c, is_pitch_bend_sensitivity_message(p) == (b3 == 0 && b4 == 0), "pb sensitivity kind");
            MC_CHECK(c, is_per_note_pitch_bend_sensitivity_message(p) == (b3 == 0 && b4 == 7), "pn pb sensitivity kind");
            // channel pitch bend sensitivity carries 7 bit semitones + 7 bit cents only
            MC_CHECK(c, get_pitch_bend_sensitivity_value(p).value == (x1 & 0xFFFC0000u), "pb sensitivity of %08x", x1);
            MC_CHECK(c, get_per_note_pitch_bend_sensitivity_value(p).value == x1, "pn pb sensitivity of %08x", x1);
        }
    }
    // value accessors
    if (st == 0x80 || st == 0x90 || st == 0xA0) MC_CHECK(c, get_note_nr(p) == i1, "note nr");
    if (st == 0x80 || st == 0x90)
    {
        const u32 ev = type == 4 ? x1 >> 16 : (st == 0x90 && b4 == 0) ? up7_16()[64] : up7_16()[b4];
        MC_CHECK(c, get_note_velocity(p).value == ev, "velocity of %08x: %x expected %x", p.data[0], get_note_velocity(p).value, ev);
    }
    if (st == 0x90) MC_CHECK(c, get_note_pitch(p).value == (type == 4 && b4 == 3 ? (x1 & 0xFFFF) : i1_ << 9), "pitch");
    if (st == 0xA0) MC_CHECK(c, get_poly_pressure_value(p).value == (type == 2 ? up7_32()[b4] : x1), "poly pressure");
    if (st == 0xB0) MC_CHECK(c, get_controller_nr(p) == i1 && get_controller_value(p).value == (type == 2 ? up7_32()[b4] : x1), "controller");
    if (st == 0xC0) MC_CHECK(c, get_program_value(p) == (type == 4 ? (x1 >> 24 & 0x7F) : b3), "program");
    if (st == 0xD0) MC_CHECK(c, get_channel_pressure_value(p).value == (type == 2 ? up7_32()[b3] : x1), "channel pressure");
    if (st == 0xE0) MC_CHECK(c, get_channel_pitch_bend_value(p).value == (type == 2 ? up14_32()[b3 | b4 << 7] : x1), "pitch bend");
    (void)n2;
}

MC_SECTION("C15", c15_fields);
// case: builder, group, channel ; inner: all i1 x all i2 (if used) x few values
void c15_fields::run(Ctx& c, Args a)
{
    static const u32 few[][2] = { { 0, 0 }, { ~0u, 0xFFFF }, { 0x80000000u, 0x8000 }, { 0x7FFFFFFFu, 0x3FFF }, { 0xA5A5A5A5u, 0x5A5A }, { 0x00010001u, 0x0080 }, { 0x02020202u, 0x0007 } };
    const u32 b = u32(a[0]);
    const bool uses_i2 = b == B_m1_generic || b == B_m2_generic || b == B_m2_off_attr || b == B_m2_on_attr || b == B_m2_rpnc || b == B_m2_apnc || b == B_m2_mgmt || (b >= B_m2_rc && b <= B_m2_rac);
    u64 n = 0;
    for (u32 i1 = 0; i1 < 128; ++i1)
        for (u32 i2 = 0; i2 < (uses_i2 ? 256u : 1u); ++i2)
            for (auto& f : few)
                for (u32 s = 0; s < (b == B_m2_generic ? 16u : 1u); ++s, ++n)
                    c15_check(c, b, u32(a[1]), u32(a[2]), i1, i2, f[0], b == B_m2_generic ? s : f[1]);
    c.st->evaluations += n - 1;
    c.nontrivial();
    c.outcome(b);
    if (a[1] == 9 && a[2] == 9 && c.want_sample()) c.sample(fmt("builder %u group 9 channel 9, all indices", b));
}
void c15_fields::enumerate(Ctx& c)
{
    c.bound("28 builders x 16 groups x 16 channels x all 7/8 bit index fields x 7 value patterns");
    for (u32 b = 0; b < B_count; ++b)
        for (u32 g = 0; g < 16; ++g)
            for (u32 ch = 0; ch < 16; ++ch) if (c.mine()) c.exec<c15_fields>(b, g, ch);
}

MC_SECTION("C15", c15_values);
// case: builder, block of 4096 upper-16-bit values
void c15_values::run(Ctx& c, Args a)
{
    static const u32 ctx[][4] = { { 0, 0, 0, 0 }, { 15, 15, 127, 255 }, { 6, 9, 60, 3 } };
    const u32 b = u32(a[0]);
    u64       n = 0;
    for (u32 v = u32(a[1]); v < u32(a[1]) + 4096; ++v)
        for (auto& x : ctx)
        {
            // all 16 bit values in the upper half, lower half, attribute data / bank, with the rest 0 / all ones
            c15_check(c, b, x[0], x[1], x[2], x[3], v << 16, 0);
            c15_check(c, b, x[0], x[1], x[2], x[3], v << 16 | 0xFFFF, 0xFFFF);
            c15_check(c, b, x[0], x[1], x[2], x[3], v, 0);
            c15_check(c, b, x[0], x[1], x[2], x[3], v | 0xFFFF0000u, 0x5555);
            c15_check(c, b, x[0], x[1], x[2], x[3], 0, v);
            c15_check(c, b, x[0], x[1], x[2], x[3], ~0u, v);
            n += 6;
        }
    if (a[1] == 0)
        for (u32 d : edge32())
            for (u32 e : edge32())
                for (auto& x : ctx) { c15_check(c, b, x[0], x[1], x[2], x[3], d, e & 0xFFFF); ++n; }
    c.st->evaluations += n - 1;
    c.nontrivial();
    c.outcome(mix(b, a[1]));
}
void c15_values::enumerate(Ctx& c)
{
    c.bound("28 builders: all 2^16 values of each half of the 32 bit value and of the 16 bit attribute data/bank (other bits 0 and 1), all pairs of edge patterns, 3 contexts");
    for (u32 b = 0; b < B_count; ++b)
        for (u32 v = 0; v < 65536; v += 4096) if (c.mine()) c.exec<c15_values>(b, v);
}

MC_SECTION("C15", c15_pairs);
// case: builder, i1: every velocity/value high byte x second index x note
void c15_pairs::run(Ctx& c, Args a)
{
    const u32 b = u32(a[0]), i1 = u32(a[1]);
    u64       n = 0;
    for (u32 hv = 0; hv < 256; ++hv)
        for (u32 i2 = 0; i2 < 256; i2 += 1)
        {
            c15_check(c, b, i1 & 0xF, hv & 0xF, i1, i2, hv << 24 | (255 - hv), (hv * 257) & 0xFFFF);
            ++n;
        }
    c.st->evaluations += n - 1;
    c.nontrivial();
    c.outcome(mix(b, i1));
}
void c15_pairs::enumerate(Ctx& c)
{
    c.bound("28 builders: all pairs of first index and value high byte, with second index");
    for (u32 b = 0; b < B_count; ++b)
        for (u32 i = 0; i < 128; ++i) if (c.mine()) c.exec<c15_pairs>(b, i);
}

MC_SECTION("C15", c15_full32);
// case: builder, high 12 bits: all 2^32 values of the value field (thorough)
void c15_full32::run(Ctx& c, Args a)
{
    for (u32 i = 0; i < (1u << 20); ++i) c15_check(c, u32(a[0]), 3, 12, 77, 5, u32(a[1] << 20) | i, i & 0xFFFF);
    c.st->evaluations += (1u << 20) - 1;
    c.nontrivial();
    c.outcome(mix(a[0], a[1]));
}
void c15_full32::enumerate(Ctx& c)
{
    c.bound(c.thorough ? "28 builders: all 2^32 values of the value field" : "28 builders: 241 complete blocks of 2^20 values of the value field");
    for (u32 b = 0; b < B_count; ++b)
        for (u32 h = 0; h < 4096; h += c.thorough ? 1 : 17) if (c.mine()) c.exec<c15_full32>(b, h);
}

//---------------------------------------------------------------------------------------------------------------------
// C16

static void c16_packet(Ctx& c, const universal_packet& p)
{
    using namespace midi;
    const u32 w = p.data[0], type = w >> 28, st = (w >> 16) & 0xF0, b4 = w & 0xFF;
    const bool cv = type == 2 || type == 4;
    const bool zero_on = type == 2 && st == 0x90 && b4 == 0;
    const bool on = cv && st == 0x90 && !zero_on, off = (cv && st == 0x80) || zero_on;
    const bool pp = cv && st == 0xA0, cc = cv && st == 0xB0, pc = cv && st == 0xC0, cp = cv && st == 0xD0, pb = cv && st == 0xE0;
    const bool ok = is_note_on_message(p) == on && is_note_off_message(p) == off && is_poly_pressure_message(p) == pp &&
                    is_control_change_message(p) == cc && is_program_change_message(p) == pc && is_channel_pressure_message(p) == cp &&
                    is_channel_pitch_bend_message(p) == pb && is_channel_voice_message_with_status(p, status_t(st)) == cv &&
                    !is_channel_voice_message_with_status(p, status_t(st ^ 0x10));
    MC_CHECK(c, ok, "classification of %08x %08x", w, p.data[1]);
}

MC_SECTION("C16", c16_predicates);
// case: high 12 bits of first word, second word
void c16_predicates::run(Ctx& c, Args a)
{
    universal_packet p{ 0, u32(a[1]), u32(a[1]), u32(a[1]) };
    for (u32 i = 0; i < (1u << 20); ++i)
    {
        u32 w = u32(a[0] << 20) | i;
        asm volatile("" : "+r"(w)); // really execute every value
        p.data[0] = w;
        c16_packet(c, p);
    }
    c.st->evaluations += (1u << 20) - 1;
    const u32 type = u32(a[0] >> 8);
    c.nontrivial(type == 2 || type == 4);
    c.outcome(a[0]);
}
void c16_predicates::enumerate(Ctx& c)
{
    c.bound("all 2^32 first words with the remaining words all zero and all ones (thorough: 4 patterns)");
    for (u32 d : { 0u, ~0u, 0x80000000u, 0x00900040u })
    {
        if (!c.thorough && d != 0 && d != ~0u) continue;
        for (u32 h = 0; h < 4096; ++h) if (c.mine()) c.exec<c16_predicates>(h, d);
    }
}

MC_SECTION("C16", c16_read_midi1);
void c16_read_midi1::run(Ctx& c, Args a)
{
    using namespace midi;
    const u32 g = u32(a[0]), sb = u32(a[1]), st = sb & 0xF0, ch = sb & 0xF;
    for (u32 d1 = 0; d1 < 128; ++d1)
        for (u32 d2 = 0; d2 < 128; ++d2)
        {
            const universal_packet p{ w0(2, g, st, ch, d1, d2), 0xDEADBEEFu };
            bool                   ok = true;
            switch (st)
            {
            case 0x80: ok = get_note_nr(p) == d1 && get_note_velocity(p).value == up7_16()[d2]; break;
            case 0x90: ok = get_note_nr(p) == d1 && get_note_velocity(p).value == up7_16()[d2 ? d2 : 64] && get_note_pitch(p).value == d1 << 9; break;
            case 0xA0: ok = get_note_nr(p) == d1 && get_poly_pressure_value(p).value == up7_32()[d2]; break;
            case 0xB0: ok = get_controller_nr(p) == d1 && get_controller_value(p).value == up7_32()[d2]; break;
            case 0xC0: ok = get_program_value(p) == d1; break;
            case 0xD0: ok = get_channel_pressure_value(p).value == up7_32()[d1]; break;
            case 0xE0: ok = get_channel_pitch_bend_value(p).value == up14_32()[d1 | d2 << 7]; break;
            }
            MC_CHECK(c, ok && p.group() == g && p.channel() == ch, "reading %08x", p.data[0]);
        }
    c.st->evaluations += 16383;
    c.nontrivial();
    c.outcome(sb);
}
void c16_read_midi1::enumerate(Ctx& c)
{
    c.bound("readers: every MIDI 1 channel voice packet");
    for (u32 g = 0; g < 16; ++g)
        for (u32 s = 0x80; s < 0xF0; ++s) if (c.mine()) c.exec<c16_read_midi1>(g, s);
}

static void c16_read2(Ctx& c, u32 g, u32 sb, u32 b3, u32 b4, u32 d)
{
    using namespace midi;
    const universal_packet p{ w0(4, g, sb, 0, b3, b4), d };
    bool                   ok = true;
    switch (sb & 0xF0)
    {
    case 0x80: ok = get_note_nr(p) == b3 && get_note_velocity(p).value == d >> 16; break;
    case 0x90: ok = get_note_nr(p) == b3 && get_note_velocity(p).value == d >> 16 && get_note_pitch(p).value == (b4 == 3 ? (d & 0xFFFF) : b3 << 9); break;
    case 0xA0: ok = get_note_nr(p) == b3 && get_poly_pressure_value(p).value == d; break;
    case 0xB0: ok = get_controller_nr(p) == b3 && get_controller_value(p).value == d; break;
    case 0xC0: ok = get_program_value(p) == ((d >> 24) & 0x7F); break;
    case 0xD0: ok = get_channel_pressure_value(p).value == d; break;
    case 0xE0: ok = get_channel_pitch_bend_value(p).value == d; break;
    }
    MC_CHECK(c, ok && p.group() == g && p.channel() == (sb & 0xF), "reading %08x %08x", p.data[0], d);
}
MC_SECTION("C16", c16_read_midi2);
void c16_read_midi2::run(Ctx& c, Args a)
{
    for (u32 b3 = 0; b3 < 128; ++b3)
        for (u32 b4 = 0; b4 < 256; ++b4)
            for (u32 d : { 0u, ~0u, 0x81234567u, 0x7EDCBA98u }) c16_read2(c, u32(a[0]), u32(a[1]), b3, b4, d);
    for (u32 b4 : { 0, 3 })
        for (u32 d : edge32()) c16_read2(c, u32(a[0]), u32(a[1]), 60, b4, d);
    c.st->evaluations += 128 * 256 * 4 - 1;
    c.nontrivial();
    c.outcome(a[1]);
}
void c16_read_midi2::enumerate(Ctx& c)
{
    c.bound("readers: MIDI 2 channel voice packets, all groups, status bytes 0x80..0xEF, index bytes, 4 data patterns + edge data");
    for (u32 g = 0; g < 16; ++g)
        for (u32 s = 0x80; s < 0xF0; ++s) if (c.mine()) c.exec<c16_read_midi2>(g, s);
}
MC_SECTION("C16", c16_read_midi2_data);
void c16_read_midi2_data::run(Ctx& c, Args a)
{
    const u32 step = u32(a[2]);
    for (u32 i = 0; i < (1u << 20); i += step)
    {
        const u32 d = u32(a[1] << 20) | i;
        c16_read2(c, 2, u32(a[0]) | 11, 99, 0, d);
        c16_read2(c, 14, u32(a[0]) | 4, 1, 3, d);
    }
    c.st->evaluations += 2 * (1u << 20) / step - 1;
    c.nontrivial();
    c.outcome(mix(a[0], a[1]));
}
void c16_read_midi2_data::enumerate(Ctx& c)
{
    c.bound(c.thorough ? "readers: all 2^32 data words per MIDI 2 kind" : "readers: every 7th of all 2^32 data words per MIDI 2 kind");
    for (u32 st = 0x80; st < 0xF0; st += 0x10)
        for (u32 h = 0; h < 4096; ++h) if (c.mine()) c.exec<c16_read_midi2_data>(st, h, c.thorough ? 1 : 7);
}

int main(int argc, char** argv) { return mc::main_(argc, argv); }
