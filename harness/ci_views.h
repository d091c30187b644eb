// Reading every universal SysEx / MIDI-CI view of the library ("real"), and an independent decoder of the same
// messages written from the M2-101 message layouts ("ref").  Both produce a flat list of field values.
#pragma once
#include "mc.h"
#include <midi/capability_inquiry.h>
#include <midi/universal_sysex.h>

using mc::u64; using mc::u32; using mc::u8;
using Bytes = std::vector<u8>;

enum Kind {
    K_UNIVERSAL, K_CI, K_IDENTITY_REPLY,
    K_DISC_INQ, K_DISC_REPLY, K_EP_INQ, K_EP_REPLY, K_ACK, K_NAK, K_INVALIDATE,
    K_PROF_INQ, K_PROF_REPLY, K_PROF_ID, K_PROF_DEST, K_PROF_DET_INQ, K_PROF_DET_REPLY, K_PROF_SPECIFIC,
    K_PE_ANY, K_PE_CAPS, K_PE_GET, K_PE_SET, K_PE_SUB, K_PE_NOTIFY,
    K_PI_REPLY, K_MR_INQ, K_MR_REPLY,
    K_COUNT
};
static const char* kind_name[] = {
    "universal", "capability_inquiry", "identity_reply",
    "discovery_inquiry", "discovery_reply", "endpoint_info_inquiry", "endpoint_info_reply", "ack", "nak", "invalidate_muid",
    "profile_inquiry", "profile_inquiry_reply", "profile_id", "profile_destination", "profile_details_inquiry",
    "profile_details_reply", "profile_specific_data",
    "property_data", "pe_capabilities", "get_property", "set_property", "subscription", "notify",
    "process_inquiry_caps_reply", "midi_message_report_inquiry", "midi_message_report_reply" };

// flat list of field values
struct Fields
{
    std::vector<u64> v;
    std::string      bad; // set when a returned range lies outside the message
    void clear() { v.clear(); bad.clear(); }
    Fields& operator<<(u64 x) { v.push_back(x); return *this; }
    bool operator==(const Fields& o) const { return v == o.v && bad.empty() && o.bad.empty(); }
    std::string str() const
    {
        std::string s = bad;
        for (std::size_t i = 0; i < v.size() && i < 60; ++i) s += mc::fmt(" %llx", (unsigned long long)v[i]);
        return s;
    }
};

namespace real {

using namespace midi;

inline void range(Fields& f, const sysex7& sx, const uint7_t* p, std::size_t n)
{
    const auto b = sx.data.data();
    if (n && (p < b || p + n > b + sx.data.size()))
    {
        f.bad = mc::fmt("range [%td,+%zu) outside message of %zu bytes", p - b, n, sx.data.size());
        return;
    }
    f << n;
    for (std::size_t i = 0; i < n; ++i) f << p[i];
}
inline void head(Fields& f, const universal_sysex::message_view& v) { f << v.device_id() << v.type() << v.subtype(); }
inline void cihead(Fields& f, const capability_inquiry_view& v) { head(f, v); f << v.message_version() << v.source_muid() << v.destination_muid(); }
inline void pid(Fields& f, const ci::profile_id& p) { f << p.byte1 << p.byte2 << p.byte3 << p.byte4 << p.byte5; }
inline void ident(Fields& f, const device_identity& i) { f << i.manufacturer << i.family << i.model << i.revision; }

inline void read(Fields& f, const universal_sysex::message_view& v) { head(f, v); f << v.data_size(); }
inline void read(Fields& f, const capability_inquiry_view& v) { cihead(f, v); }
inline void read(Fields& f, const universal_sysex::identity_reply_view& v) { head(f, v); ident(f, v.identity()); }
inline void disc(Fields& f, const ci::discovery::message_view& v) { cihead(f, v); ident(f, v.identity()); f << v.categories() << v.maximum_message_size() << v.output_path_id(); }
inline void read(Fields& f, const ci::discovery_inquiry_view& v) { disc(f, v); }
inline void read(Fields& f, const ci::discovery_reply_view& v) { disc(f, v); f << v.function_block(); }
inline void read(Fields& f, const ci::endpoint_information_inquiry_view& v) { cihead(f, v); f << v.status(); }
inline void read(Fields& f, const ci::endpoint_information_reply_view& v) { cihead(f, v); f << v.status(); range(f, v.sx, v.information_data(), v.information_data_length()); }
inline void nack(Fields& f, const ci::nack::view& v)
{
    cihead(f, v); f << v.transaction() << v.status_code() << v.status_data();
    range(f, v.sx, v.details(), 5);
    range(f, v.sx, v.message_data(), v.message_length());
    const auto m = v.message();
    range(f, v.sx, reinterpret_cast<const uint7_t*>(m.data()), m.size());
}
inline void read(Fields& f, const ci::ack_view& v) { nack(f, v); }
inline void read(Fields& f, const ci::nak_view& v) { nack(f, v); }
inline void read(Fields& f, const ci::invalidate_muid_view& v) { cihead(f, v); f << v.target_muid(); }
inline void read(Fields& f, const ci::profile_inquiry_view& v) { cihead(f, v); }
inline void read(Fields& f, const ci::profile_inquiry_reply_view& v)
{
    cihead(f, v);
    f << v.has_enabled_profiles() << v.has_disabled_profiles() << v.num_enabled_profiles() << v.num_disabled_profiles();
    for (auto& p : v.enabled_profiles()) { f << 0xE; pid(f, p); }
    for (auto& p : v.disabled_profiles()) { f << 0xD; pid(f, p); }
}
inline void read(Fields& f, const ci::profile_id_view& v) { cihead(f, v); pid(f, v.profile()); }
inline void read(Fields& f, const ci::profile_destination_view& v) { cihead(f, v); pid(f, v.profile()); f << v.num_channels() << v.params().scope << v.params().num_channels; }
inline void read(Fields& f, const ci::profile_details_inquiry_view& v) { cihead(f, v); pid(f, v.profile()); f << v.target(); }
inline void read(Fields& f, const ci::profile_details_reply_view& v) { cihead(f, v); pid(f, v.profile()); f << v.target(); range(f, v.sx, v.target_data(), v.target_data_length()); }
inline void read(Fields& f, const ci::profile_specific_data_view& v)
{
    cihead(f, v); pid(f, v.profile()); range(f, v.sx, v.data_begin(), v.data_size());
    f << std::size_t(v.data_end() - v.data_begin());
}
inline void read(Fields& f, const ci::property_exchange::property_data_message_view& v)
{
    cihead(f, v); f << v.request_id();
    range(f, v.sx, v.header_begin(), v.header_size()); f << std::size_t(v.header_end() - v.header_begin());
    f << v.number_of_chunks() << v.number_of_this_chunk();
    range(f, v.sx, v.chunk_begin(), v.chunk_size()); f << std::size_t(v.chunk_end() - v.chunk_begin());
}
inline void read(Fields& f, const ci::property_exchange_capabilities_view& v) { cihead(f, v); f << v.maximum_number_of_requests() << v.pe_version_major() << v.pe_version_minor(); }
inline void read(Fields& f, const ci::process_inquiry_capabilities_reply_view& v) { cihead(f, v); f << v.supported_features(); }
inline void read(Fields& f, const ci::midi_message_report_inquiry_view& v) { cihead(f, v); f << v.message_data_control() << v.system_message_types() << v.channel_controller_message_types() << v.note_data_message_types(); }
inline void read(Fields& f, const ci::midi_message_report_reply_view& v) { cihead(f, v); f << v.system_message_types() << v.channel_controller_message_types() << v.note_data_message_types(); }

// all the ways to ask for a view; -1: they disagree
template<class V>
int offer(Fields& f, const sysex7& sx, bool all_routes)
{
    f.clear();
    const auto o = universal_sysex::message_view::make_optional<V>(sx);
    if (all_routes)
    {
        int n = o ? 1 : 0;
        if (n != (V::validate(sx) ? 1 : 0)) return -1;
        if (const auto u = as_universal_sysex_view(sx)) { if (n != (u->template as<V>() ? 1 : 0)) return -1; }
        else if (n) return -1; // any view implies the universal view
        if constexpr (std::is_base_of_v<capability_inquiry_view, V>)
        {
            if (n != (ci::as<V>(sx) ? 1 : 0)) return -1;
            if (const auto q = as_capability_inquiry_view(sx)) { if (n != (ci::as<V>(*q) ? 1 : 0)) return -1; }
            else if (n) return -1;
        }
    }
    if (!o) return 0;
    read(f, *o);
    return 1;
}
template<>
inline int offer<universal_sysex::message_view>(Fields& f, const sysex7& sx, bool all_routes)
{
    f.clear();
    const auto o = as_universal_sysex_view(sx);
    if (all_routes && is_universal_sysex_message(sx) != bool(o)) return -1;
    if (!o) return 0;
    read(f, *o);
    return 1;
}
template<>
inline int offer<capability_inquiry_view>(Fields& f, const sysex7& sx, bool all_routes)
{
    f.clear();
    const auto o = as_capability_inquiry_view(sx);
    if (all_routes)
    {
        if (is_capability_inquiry_message(sx) != bool(o) || capability_inquiry_view::validate(sx) != bool(o)) return -1;
        if (bool(ci::as<capability_inquiry_view>(sx)) != bool(o)) return -1;
    }
    if (!o) return 0;
    read(f, *o);
    return 1;
}
template<>
inline int offer<universal_sysex::identity_reply_view>(Fields& f, const sysex7& sx, bool all_routes)
{
    f.clear();
    const auto o = universal_sysex::as_identity_reply_view(sx);
    if (all_routes)
    {
        if (universal_sysex::is_identity_reply(sx) != bool(o) || universal_sysex::identity_reply_view::validate(sx) != bool(o)) return -1;
        if (const auto u = as_universal_sysex_view(sx)) { if (bool(o) != bool(u->as<universal_sysex::identity_reply_view>())) return -1; }
        else if (o) return -1;
    }
    if (!o) return 0;
    read(f, *o);
    return 1;
}

inline int offer(int k, Fields& f, const sysex7& sx, bool all)
{
    using namespace ci;
    switch (k)
    {
    case K_UNIVERSAL: return offer<universal_sysex::message_view>(f, sx, all);
    case K_CI: return offer<capability_inquiry_view>(f, sx, all);
    case K_IDENTITY_REPLY: return offer<universal_sysex::identity_reply_view>(f, sx, all);
    case K_DISC_INQ: return offer<discovery_inquiry_view>(f, sx, all);
    case K_DISC_REPLY: return offer<discovery_reply_view>(f, sx, all);
    case K_EP_INQ: return offer<endpoint_information_inquiry_view>(f, sx, all);
    case K_EP_REPLY: return offer<endpoint_information_reply_view>(f, sx, all);
    case K_ACK: return offer<ack_view>(f, sx, all);
    case K_NAK: return offer<nak_view>(f, sx, all);
    case K_INVALIDATE: return offer<invalidate_muid_view>(f, sx, all);
    case K_PROF_INQ: return offer<profile_inquiry_view>(f, sx, all);
    case K_PROF_REPLY: return offer<profile_inquiry_reply_view>(f, sx, all);
    case K_PROF_ID: return offer<profile_id_view>(f, sx, all);
    case K_PROF_DEST: return offer<profile_destination_view>(f, sx, all);
    case K_PROF_DET_INQ: return offer<profile_details_inquiry_view>(f, sx, all);
    case K_PROF_DET_REPLY: return offer<profile_details_reply_view>(f, sx, all);
    case K_PROF_SPECIFIC: return offer<profile_specific_data_view>(f, sx, all);
    case K_PE_ANY: return offer<property_exchange::property_data_message_view>(f, sx, all);
    case K_PE_CAPS: return offer<property_exchange_capabilities_view>(f, sx, all);
    case K_PE_GET: return offer<get_property_data_view>(f, sx, all);
    case K_PE_SET: return offer<set_property_data_view>(f, sx, all);
    case K_PE_SUB: return offer<subscription_view>(f, sx, all);
    case K_PE_NOTIFY: return offer<notify_view>(f, sx, all);
    case K_PI_REPLY: return offer<process_inquiry_capabilities_reply_view>(f, sx, all);
    case K_MR_INQ: return offer<midi_message_report_inquiry_view>(f, sx, all);
    case K_MR_REPLY: return offer<midi_message_report_reply_view>(f, sx, all);
    }
    return -2;
}

} // namespace real

//---------------------------------------------------------------------------------------------------------------------
// independent decoder: manufacturer id + bytes after it (device id, 0x0D, sub id, version, source, destination, ...)
namespace ref {

struct In { u32 manu; const u8* d; std::size_t n; };
inline u64 n14(const u8* p) { return u64(p[0]) + u64(p[1]) * 128; }  // 7 bit data; equals the library's for 7 bit bytes
inline u64 n28(const u8* p) { return u64(p[0]) + u64(p[1]) * 128 + u64(p[2]) * 16384 + u64(p[3]) * 2097152; }

inline void blob(Fields& f, const u8* p, u64 n) { f << n; for (u64 i = 0; i < n; ++i) f << p[i]; }
inline void head(Fields& f, In m) { f << m.d[0] << ((u64(m.manu) >> 8) + m.d[1]) << (m.n > 2 ? m.d[2] : 0); }
inline void cihead(Fields& f, In m) { head(f, m); f << m.d[3] << n28(m.d + 4) << n28(m.d + 8); }
inline void bytes(Fields& f, const u8* p, int n) { for (int i = 0; i < n; ++i) f << p[i]; }
inline void ident(Fields& f, const u8* p) { f << (u64(p[0]) * 65536 + u64(p[1]) * 256 + p[2]) << n14(p + 3) << n14(p + 5) << n28(p + 7); }

// true: the view must be offered with these fields.  Only meant for 7-bit content.
inline bool offer(int k, Fields& f, u32 manu, const u8* d, std::size_t n)
{
    f.clear();
    const In m{ manu, d, n };
    const bool universal = (manu == 0x7E0000 || manu == 0x7F0000) && n >= 2;
    if (k == K_UNIVERSAL)
    {
        if (!universal) return false;
        head(f, m); f << n; return true;
    }
    if (k == K_IDENTITY_REPLY)
    {
        if (manu != 0x7E0000 || n < 3 || d[1] != 0x06 || d[2] != 0x02) return false;
        if (!((n == 12 && d[3] != 0) || n == 14)) return false;
        head(f, m);
        const int o = d[3] ? 4 : 6;
        f << (d[3] ? u64(d[3]) << 16 : u64(d[4]) * 256 + d[5]) << n14(d + o) << n14(d + o + 2) << n28(d + o + 4);
        return true;
    }
    if (manu != 0x7E0000 || n < 12 || d[1] != 0x0D) return false;
    const u8 sub = d[2], ver = d[3];
    const u8* p = d + 12; const std::size_t pn = n - 12; // payload
    switch (k)
    {
    case K_CI: cihead(f, m); return true;
    case K_DISC_INQ: case K_DISC_REPLY:
    {
        if (sub != (k == K_DISC_INQ ? 0x70 : 0x71)) return false;
        const std::size_t need = 16 + (ver >= 2 ? (k == K_DISC_INQ ? 1 : 2) : 0);
        if (pn < need) return false;
        cihead(f, m); ident(f, p); f << p[11] << n28(p + 12) << (ver >= 2 ? p[16] : 0);
        if (k == K_DISC_REPLY) f << (ver >= 2 ? p[17] : 0x7F);
        return true;
    }
    case K_EP_INQ: if (sub != 0x72 || pn < 1) return false; cihead(f, m); f << p[0]; return true;
    case K_EP_REPLY: if (sub != 0x73 || pn < 3 || pn < 3 + n14(p + 1)) return false; cihead(f, m); f << p[0]; blob(f, p + 3, n14(p + 1)); return true;
    case K_ACK: case K_NAK:
        if (sub != (k == K_ACK ? 0x7D : 0x7F) || pn < 10 || pn < 10 + n14(p + 8)) return false;
        if (k == K_NAK && ver < 2) return false;
        cihead(f, m); f << p[0] << p[1] << p[2]; blob(f, p + 3, 5); blob(f, p + 10, n14(p + 8)); blob(f, p + 10, n14(p + 8));
        return true;
    case K_INVALIDATE: if (sub != 0x7E || pn < 4) return false; cihead(f, m); f << n28(p); return true;
    case K_PROF_INQ: if (sub != 0x20) return false; cihead(f, m); return true;
    case K_PROF_REPLY:
    {
        if (sub != 0x21 || pn < 4) return false;
        const u64 e = n14(p);
        if (pn < 4 + e * 5) return false;
        const u64 x = n14(p + 2 + e * 5);
        if (pn < 4 + (e + x) * 5) return false;
        cihead(f, m); f << (e != 0) << (x != 0) << e << x;
        for (u64 i = 0; i < e; ++i) { f << 0xE; bytes(f, p + 2 + i * 5, 5); }
        for (u64 i = 0; i < x; ++i) { f << 0xD; bytes(f, p + 4 + (e + i) * 5, 5); }
        return true;
    }
    case K_PROF_ID: if (sub < 0x22 || sub > 0x27 || pn < 5) return false; cihead(f, m); bytes(f, p, 5); return true;
    case K_PROF_DEST: if (sub < 0x22 || sub > 0x25 || pn < 7) return false; cihead(f, m); bytes(f, p, 5); f << n14(p + 5) << d[0] << n14(p + 5); return true;
    case K_PROF_DET_INQ: if (sub != 0x28 || pn < 6) return false; cihead(f, m); bytes(f, p, 5); f << p[5]; return true;
    case K_PROF_DET_REPLY: if (sub != 0x29 || pn < 8 || pn < 8 + n14(p + 6)) return false; cihead(f, m); bytes(f, p, 5); f << p[5]; blob(f, p + 8, n14(p + 6)); return true;
    case K_PROF_SPECIFIC: if (sub != 0x2F || pn < 9 || pn < 9 + n28(p + 5)) return false; cihead(f, m); bytes(f, p, 5); blob(f, p + 9, n28(p + 5)); f << n28(p + 5); return true;
    case K_PE_CAPS:
        if ((sub != 0x30 && sub != 0x31) || pn < (ver >= 2 ? 3u : 1u)) return false;
        cihead(f, m); f << p[0] << (ver >= 2 ? p[1] : 0) << (ver >= 2 ? p[2] : 0); return true;
    case K_PE_ANY: case K_PE_GET: case K_PE_SET: case K_PE_SUB: case K_PE_NOTIFY:
    {
        bool mine = false;
        switch (k)
        {
        case K_PE_ANY: mine = (sub >= 0x34 && sub <= 0x39) || sub == 0x3F; break;
        case K_PE_GET: mine = sub == 0x34 || sub == 0x35; break;
        case K_PE_SET: mine = sub == 0x36 || sub == 0x37; break;
        case K_PE_SUB: mine = sub == 0x38 || sub == 0x39; break;
        default: mine = sub == 0x3F;
        }
        if (!mine || pn < 9) return false;
        const u64 hs = n14(p + 1);
        if (pn < 9 + hs) return false;
        const u8* q = p + 3 + hs;
        const u64 num = n14(q), cur = n14(q + 2), cs = n14(q + 4);
        if (pn < 9 + hs + cs) return false;
        if (num && cur > num) return false;   // chunk beyond the last one
        if (hs && cur > 1) return false;      // header data only in the first chunk
        if (cs && cur < 1) return false;      // body needs a chunk number
        cihead(f, m); f << p[0]; blob(f, p + 3, hs); f << hs << num << cur; blob(f, q + 6, cs); f << cs;
        return true;
    }
    case K_PI_REPLY: if (sub != 0x41 || pn < 1) return false; cihead(f, m); f << p[0]; return true;
    case K_MR_INQ: if (sub != 0x42 || pn < 5) return false; cihead(f, m); f << p[0] << p[1] << p[3] << p[4]; return true;
    case K_MR_REPLY: if (sub != 0x43 || pn < 4) return false; cihead(f, m); f << p[0] << p[2] << p[3]; return true;
    }
    return false;
}

} // namespace ref
