// Reference model of MIDI 1.0 byte stream decoding (MIDI 1.0 Detailed Specification, "running status",
// "system common", "real time", "exclusive"), written without looking at how the library does it, and a
// product automaton (model x real parser) that compares every step.
#pragma once
#include "mc.h"
#include <midi/midi1_byte_stream.h>
#include <midi/data_message.h>
#include <memory>

namespace pm {
using mc::u8; using mc::u32; using mc::u64;

struct Ev
{
    bool            is_sysex = false;
    u32             w[4]{};
    u32             manufacturer = 0;
    std::vector<u8> data;
    bool operator==(const Ev& o) const
    {
        if (is_sysex != o.is_sysex) return false;
        if (is_sysex) return manufacturer == o.manufacturer && data == o.data;
        const unsigned t = w[0] >> 28;
        const unsigned n = (t == 3 || t == 4) ? 2 : (t == 5 || t >= 13) ? 4 : 1;
        for (unsigned i = 0; i < n; ++i) if (w[i] != o.w[i]) return false;
        return true;
    }
    std::string str() const
    {
        if (is_sysex) return mc::fmt("sysex(%06X: %s)", manufacturer, mc::hex(data).c_str()).substr(0, 300);
        return mc::fmt("packet(%08X %08X)", w[0], w[1]);
    }
    u64 hash() const
    {
        u64 h = mc::fnv(w, 8);
        h = mc::mix(h, manufacturer);
        return mc::fnv(data.data(), data.size(), h);
    }
};

using Sink = std::vector<Ev>;

inline std::string str(const Sink& s)
{
    std::string r;
    for (auto& e : s) r += e.str() + " ";
    return r.empty() ? "(nothing)" : r;
}

inline midi::midi1_byte_stream_parser make_parser(unsigned group, bool sysex_mode, Sink** sink, bool enabled = true)
{
    auto pcb = [sink](midi::universal_packet p) {
        Ev e;
        for (int i = 0; i < 4; ++i) e.w[i] = p.data[i];
        (*sink)->push_back(e);
    };
    if (sysex_mode)
    {
        auto scb = [sink](const midi::sysex7& s) {
            Ev e;
            e.is_sysex = true;
            e.manufacturer = s.manufacturerID;
            e.data.assign(s.data.begin(), s.data.end());
            (*sink)->push_back(e);
        };
        return midi::midi1_byte_stream_parser(static_cast<midi::group_t>(group), pcb, scb, enabled);
    }
    return midi::midi1_byte_stream_parser(static_cast<midi::group_t>(group), pcb, {}, enabled);
}

// number of data bytes of a status byte; -1: undefined / not a plain message
inline int data_bytes(u8 s)
{
    switch (s >> 4)
    {
    case 0x8: case 0x9: case 0xA: case 0xB: case 0xE: return 2;
    case 0xC: case 0xD: return 1;
    case 0xF:
        switch (s)
        {
        case 0xF1: case 0xF3: return 1;
        case 0xF2: return 2;
        case 0xF6: case 0xF8: case 0xFA: case 0xFB: case 0xFC: case 0xFE: case 0xFF: return 0;
        default: return -1;
        }
    default: return -1;
    }
}

// ops >= 256 are control operations
enum Op : u64 { op_reset = 256, op_disable = 257, op_enable = 258, op_group = 0x200 /* + group */ };

struct Model
{
    bool sysex_mode = false;
    unsigned group = 0;
    bool enabled = true;

    // message being assembled / running status
    u8  status = 0; // 0: none
    unsigned msg_group = 0;
    unsigned msg_groups = 0; // groups in force since the status byte (bit mask)
    u8  d[2]{};
    int have = 0;

    bool in_sysex = false;
    bool sysex_started_enabled = true;
    std::vector<u8> sx;      // all data bytes so far
    // packet mode bookkeeping of what the implementation has reported for the current SysEx
    std::size_t reported = 0; // payload bytes reported
    bool started = false;     // start packet seen
    bool toggled = false;     // callbacks were disabled at some time during this SysEx
    unsigned sysex_groups = 0; // groups in force at some time during this SysEx (bit mask)

    void clear_message() { status = 0; have = 0; }

    static Ev packet(unsigned g, u8 st, u8 a, u8 b)
    {
        Ev e;
        e.w[0] = ((st >= 0xF0 ? 1u : 2u) << 28) | (g << 24) | (u32(st) << 16) | (u32(a) << 8) | b;
        return e;
    }

    // returns plain (non packet-mode-SysEx) events that must be reported for this byte;
    // sets end_of_sysex when a SysEx is terminated by 0xF7 in packet mode
    Sink feed(u8 b, bool& sysex_end, bool& sysex_abort)
    {
        Sink out;
        sysex_end = sysex_abort = false;
        if (b >= 0xF8)
        {
            if (data_bytes(b) == 0) out.push_back(packet(group, b, 0, 0));
            return finish(out);
        }
        if (in_sysex)
        {
            if (b < 0x80) { sx.push_back(b); return {}; }
            in_sysex = false;
            if (b == 0xF7)
            {
                sysex_end = true;
                if (sysex_mode)
                {
                    const bool one = !sx.empty() && sx[0] != 0;
                    const bool three = sx.size() >= 3 && sx[0] == 0;
                    if ((one || three) && sysex_started_enabled)
                    {
                        Ev e; e.is_sysex = true;
                        e.manufacturer = one ? u32(sx[0]) << 16 : (u32(sx[1]) << 8) | sx[2];
                        e.data.assign(sx.begin() + (one ? 1 : 3), sx.end());
                        out.push_back(e);
                    }
                }
                return finish(out);
            }
            sysex_abort = true;
        }
        if (b == 0xF0)
        {
            clear_message();
            in_sysex = true; sx.clear(); reported = 0; started = false;
            sysex_started_enabled = enabled; toggled = !enabled; sysex_groups = 1u << group;
            return {};
        }
        if (b >= 0x80)
        {
            clear_message();
            const int n = data_bytes(b);
            if (n < 0) return {};
            if (n == 0) { out.push_back(packet(group, b, 0, 0)); return finish(out); }
            status = b; msg_group = group; msg_groups = 1u << group;
            return {};
        }
        // data byte
        if (!status) return {};
        d[have++] = b;
        if (have == data_bytes(status))
        {
            out.push_back(packet(msg_group, status, d[0], have > 1 ? d[1] : 0));
            have = 0;
            if (status >= 0xF0) status = 0;
        }
        return finish(out);
    }
    Sink finish(Sink& s) { if (!enabled) s.clear(); return std::move(s); }

    u64 key() const // canonical abstract state (used for state counting)
    {
        u64 h = mc::mix(1, status);
        h = mc::mix(h, have);
        h = mc::mix(h, have ? d[0] : 0);
        h = mc::mix(h, group * 64 + msg_group * (status ? 1 : 0));
        h = mc::mix(h, enabled * 4 + in_sysex * 2 + sysex_mode);
        if (in_sysex) { h = mc::fnv(sx.data(), sx.size(), h); h = mc::mix(h, sysex_started_enabled); h = mc::mix(h, reported); }
        return h;
    }
};

struct Sys
{
    Model m;
    midi::midi1_byte_stream_parser p;
    static inline Sink* current = nullptr;
    static inline Sink  sink;

    Sys(bool sysex_mode, unsigned group, bool enabled = true)
      : p(make_parser(group, sysex_mode, &current, enabled))
    {
        m.sysex_mode = sysex_mode; m.group = group; m.enabled = enabled;
        current = &sink;
    }

    static unsigned format(const Ev& e) { return (e.w[0] >> 20) & 0xF; }
    static unsigned psize(const Ev& e) { return (e.w[0] >> 16) & 0xF; }
    static u8 pbyte(const Ev& e, unsigned i)
    {
        const unsigned b = 2 + i;
        return (e.w[b / 4] >> ((3 - b % 4) * 8)) & 0xFF;
    }

    u64 out_hash = 0;

    void step(mc::Ctx& c, u64 op)
    {
        if (op >= 256) { control(c, op); return; }
        sink.clear();
        current = &sink;
        const u8 b = static_cast<u8>(op);
        // remember packet-mode SysEx context before the byte
        const bool was_in = m.in_sysex;
        bool end, abort;
        Sink expected = m.feed(b, end, abort);
        p.feed(b);
        if (m.sysex_mode || !was_in)
        {
            check(c, expected, sink, b);
        }
        else
        {
            // packet mode, SysEx in progress: SysEx packets may be interleaved with the expected plain events
            Sink plain;
            for (auto& e : sink)
            {
                if ((e.w[0] >> 28) != 3) { plain.push_back(e); continue; }
                MC_CHECK(c, m.enabled, "SysEx packet reported while callbacks are disabled: %s", e.str().c_str());
                MC_CHECK(c, b < 0x80 || b == 0xF7, "SysEx packet %s reported on byte %02X", e.str().c_str(), b);
                if (m.toggled) continue; // covered differentially (C04)
                const unsigned g = (e.w[0] >> 24) & 0xF;
                MC_CHECK(c, (m.sysex_groups >> g) & 1, "SysEx packet on group %u instead of %u: %s", g, m.group, e.str().c_str());
                const unsigned n = psize(e), f = format(e);
                MC_CHECK(c, n <= 6, "SysEx packet payload size %u: %s", n, e.str().c_str());
                MC_CHECK(c, m.reported + n <= m.sx.size(), "SysEx packets carry more bytes than were received: %s", e.str().c_str());
                for (unsigned i = 0; i < n; ++i)
                    MC_CHECK(c, pbyte(e, i) == m.sx[m.reported + i], "SysEx payload byte %zu is %02X, expected %02X", m.reported + i, pbyte(e, i), m.sx[m.reported + i]);
                for (unsigned i = n; i < 6; ++i)
                    MC_CHECK(c, pbyte(e, i) == 0, "unused SysEx payload byte not zero: %s", e.str().c_str());
                m.reported += n;
                if (!m.started) MC_CHECK(c, f == (end ? 0u : 1u), "first SysEx packet has format %u: %s", f, e.str().c_str());
                else MC_CHECK(c, f == (end ? 3u : 2u), "SysEx packet has format %u: %s", f, e.str().c_str());
                m.started = true;
            }
            if (end && !m.toggled)
            {
                std::size_t nd = 0;
                for (auto& e : sink) nd += (e.w[0] >> 28) == 3;
                if (m.sx.empty()) MC_CHECK(c, nd == 0, "empty SysEx reported: %s", str(sink).c_str());
                else
                {
                    MC_CHECK(c, nd == 1, "%zu SysEx packets on the end byte: %s", nd, str(sink).c_str());
                    MC_CHECK(c, m.reported == m.sx.size(), "SysEx payload lost: %zu of %zu bytes reported", m.reported, m.sx.size());
                }
            }
            check(c, expected, plain, b);
        }
        for (auto& e : sink) out_hash = mc::mix(out_hash, e.hash());
    }

    void check(mc::Ctx& c, const Sink& expected_, const Sink& got, unsigned b)
    {
        Sink expected = expected_;
        if (b < 0x80 && expected.size() == 1 && got.size() == 1 && !expected[0].is_sysex && !got[0].is_sysex)
        {
            // a message whose status byte precedes a group change may be reported on either group
            const unsigned g = (got[0].w[0] >> 24) & 0xF;
            if ((m.msg_groups >> g) & 1) expected[0].w[0] = (expected[0].w[0] & 0xF0FFFFFFu) | (g << 24);
        }
        MC_CHECK(c, expected.size() == got.size() && std::equal(expected.begin(), expected.end(), got.begin()),
                 "byte %02X: expected %s but parser reported %s", b, str(expected).c_str(), str(got).c_str());
    }

    void control(mc::Ctx& c, u64 op)
    {
        sink.clear();
        current = &sink;
        if (op == op_reset) { p.reset(); m.clear_message(); m.in_sysex = false; }
        else if (op == op_disable) { p.enable_callbacks(false); m.enabled = false; m.toggled = true; }
        else if (op == op_enable) { p.enable_callbacks(true); m.enabled = true; }
        else if (op >= op_group) { p.set_group(static_cast<midi::group_t>(op - op_group)); m.group = unsigned(op - op_group); m.sysex_groups |= 1u << m.group; m.msg_groups |= 1u << m.group; }
        MC_CHECK(c, sink.empty(), "control operation reported %s", str(sink).c_str());
        MC_CHECK(c, p.callbacks_enabled() == m.enabled && p.group() == m.group, "group/enable accessors");
    }
};

} // namespace pm
