// C23..C28, C30 (MIDI-CI part): universal SysEx and MIDI-CI messages and views.
#include "ci_views.h"

using namespace mc;
using midi::sysex7;

static sysex7 mk(u32 manu, const u8* d, std::size_t n) { return sysex7(manu, d, n); } // capacity == size

static std::string show(const sysex7& s) { return fmt("%06x:", s.manufacturerID) + hex(Bytes(s.data.begin(), s.data.end())); }
static std::string show(const Bytes& b) { return b.size() > 200 ? hex(Bytes(b.begin(), b.begin() + 200)) + fmt(" ... %zu bytes", b.size()) : hex(b); }

// append helpers of the reference encoder
static void p14(Bytes& b, u64 v) { b.push_back(v % 128); b.push_back(v / 128 % 128); }
static void p28(Bytes& b, u64 v) { for (int i = 0; i < 4; ++i) { b.push_back(v % 128); v /= 128; } }
static Bytes ci_head(u64 dev, u64 sub, u64 ver, u64 src, u64 dst)
{
    Bytes b{ u8(dev), 0x0D, u8(sub), u8(ver) };
    p28(b, src); p28(b, dst);
    return b;
}
static const u64 BROADCAST = 0xFFFFFFF;

//---------------------------------------------------------------------------------------------------------------------
// Builders.  A builder has integer fields with a bit width and, optionally, one or two variable length parts.

struct Call
{
    std::vector<u64> f;       // field values, as many as widths
    Bytes            a, b;    // variable length parts
};
struct Built
{
    sysex7 msg;
    Bytes  expect;            // all bytes after the manufacturer id
    int    kind = -1;         // view to ask for
    Fields fields;            // what it must return
    bool   refused = false;   // no view of that kind exists for it
};
struct Builder
{
    const char*        prop;
    const char*        name;
    std::vector<int>   widths;
    int                a_max = -1, b_max = -1; // maximum sizes of the variable parts; -1: none
    bool               text = false;           // variable parts are text
    Built (*make)(const Call&) = nullptr;
};

static void chead(Fields& f, u64 dev, u64 sub, u64 ver, u64 src, u64 dst) { f << dev << 0x7E0D << sub << ver << src << dst; }
static void fblob(Fields& f, const Bytes& b) { f << b.size(); for (auto x : b) f << x; }

static midi::device_identity identity_of(const u64* f)
{
    midi::device_identity i;
    i.manufacturer = u32(f[0]); i.family = midi::uint14_t(f[1]); i.model = midi::uint14_t(f[2]); i.revision = u32(f[3]);
    return i;
}
// manufacturer fields: width code -21: three 7-bit bytes
constexpr int MANU = -21;

static Built disc(const Call& c, bool reply, int ver)
{
    using namespace midi::ci;
    // fields: src, [dst], manu, fam, model, rev, cat, max, [path, [fb]]
    std::size_t i = 0;
    const u64 src = c.f[i++], dst = reply ? c.f[i++] : BROADCAST;
    const auto id = identity_of(&c.f[i]);
    const u64 manu = c.f[i], fam = c.f[i + 1], mod = c.f[i + 2], rev = c.f[i + 3]; i += 4;
    const u64 cat = c.f[i++], mx = c.f[i++];
    const u64 path = ver == 2 ? c.f[i++] : 0, fb = ver == 2 && reply ? c.f[i++] : 0x7F;
    const u64 sub = reply ? 0x71 : 0x70;
    Built r{ !reply ? (ver == 2 ? make_discovery_inquiry(u32(src), id, u8(cat), u32(mx), u8(path)) : make_discovery_inquiry_v1(u32(src), id, u8(cat), u32(mx)))
                    : (ver == 2 ? make_discovery_reply(u32(src), u32(dst), id, u8(cat), u32(mx), u8(path), u8(fb)) : make_discovery_reply_v1(u32(src), u32(dst), id, u8(cat), u32(mx))) };
    r.expect = ci_head(0x7F, sub, ver, src, dst);
    r.expect.insert(r.expect.end(), { u8(manu >> 16), u8(manu >> 8 & 0x7F), u8(manu & 0x7F) });
    p14(r.expect, fam); p14(r.expect, mod); p28(r.expect, rev);
    r.expect.push_back(u8(cat)); p28(r.expect, mx);
    if (ver == 2) { r.expect.push_back(u8(path)); if (reply) r.expect.push_back(u8(fb)); }
    r.kind = reply ? K_DISC_REPLY : K_DISC_INQ;
    chead(r.fields, 0x7F, sub, ver, src, dst); r.fields << manu << fam << mod << rev << cat << mx << path;
    if (reply) r.fields << fb;
    return r;
}
static Built simple(sysex7 m, u64 dev, u64 sub, u64 ver, u64 src, u64 dst, int kind, const Bytes& payload = {})
{
    Built r{ std::move(m) };
    r.expect = ci_head(dev, sub, ver, src, dst);
    r.expect.insert(r.expect.end(), payload.begin(), payload.end());
    r.kind = kind;
    chead(r.fields, dev, sub, ver, src, dst);
    return r;
}
static std::string_view sv(const Bytes& b) { return { reinterpret_cast<const char*>(b.data()), b.size() }; }

static Built nack_case(const Call& c, int how)
{
    using namespace midi::ci;
    // fields: src dst dev trans code sdata d0..d4 ; text
    const auto& f = c.f;
    midi::uint7_t det[5] = { u8(f[6]), u8(f[7]), u8(f[8]), u8(f[9]), u8(f[10]) };
    u64 src = f[0], dst = f[1];
    Built r;
    const u64 sub = how == 0 ? 0x7D : 0x7F;
    if (how == 0) r.msg = make_ack_message(u32(src), u32(dst), u8(f[2]), u8(f[3]), u8(f[4]), u8(f[5]), det, sv(c.a));
    if (how == 1) r.msg = make_nak_message(u32(src), u32(dst), u8(f[2]), u8(f[3]), u8(f[4]), u8(f[5]), det, sv(c.a));
    if (how == 2)
    {
        const Bytes q = ci_head(f[2], f[3], 2, src, dst);
        const auto  req = mk(0x7E0000, q.data(), q.size());
        r.msg = make_nak_message(*midi::as_capability_inquiry_view(req), u8(f[4]), u8(f[5]), det, sv(c.a));
        std::swap(src, dst);
    }
    r.expect = ci_head(f[2], sub, 2, src, dst);
    Bytes d(det, det + 5);
    r.expect.insert(r.expect.end(), { u8(f[3]), u8(f[4]), u8(f[5]) });
    r.expect.insert(r.expect.end(), d.begin(), d.end());
    p14(r.expect, c.a.size());
    r.expect.insert(r.expect.end(), c.a.begin(), c.a.end());
    r.kind = how == 0 ? K_ACK : K_NAK;
    chead(r.fields, f[2], sub, 2, src, dst);
    r.fields << f[3] << f[4] << f[5]; fblob(r.fields, d); fblob(r.fields, c.a); fblob(r.fields, c.a);
    return r;
}
static midi::ci::profile_id pid_of(const u64* f) { return { u8(f[0]), u8(f[1]), u8(f[2]), u8(f[3]), u8(f[4]) }; }
static void pidb(Bytes& b, const u64* f) { for (int i = 0; i < 5; ++i) b.push_back(u8(f[i])); }

static Built prof_dest(const Call& c, int sub)
{
    using namespace midi::ci;
    const auto& f = c.f; // src dst p0..4 scope num
    const auto  p = pid_of(&f[2]);
    const profile_destination dest{ u8(f[7]), midi::uint14_t(f[8]) };
    Built r;
    switch (sub)
    {
    case 0x22: r.msg = make_profile_on_request(u32(f[0]), u32(f[1]), p, dest); break;
    case 0x23: r.msg = make_profile_off_request(u32(f[0]), u32(f[1]), p, dest); break;
    case 0x24: r.msg = make_profile_enabled_notification(u32(f[0]), u32(f[1]), p, dest); break;
    default: r.msg = make_profile_disabled_notification(u32(f[0]), u32(f[1]), p, dest);
    }
    const u64 num = sub == 0x23 ? 0 : f[8]; // reserved in the off request
    r.expect = ci_head(f[7], sub, 2, f[0], f[1]);
    pidb(r.expect, &f[2]); p14(r.expect, num);
    r.kind = K_PROF_DEST;
    chead(r.fields, f[7], sub, 2, f[0], f[1]);
    for (int i = 2; i < 7; ++i) r.fields << f[i];
    r.fields << num << f[7] << num;
    return r;
}
static Built prof_id(const Call& c, int sub)
{
    using namespace midi::ci;
    const auto& f = c.f; // src dst p0..4 dev
    Built r;
    r.msg = sub == 0x26 ? make_profile_added_notification(u32(f[0]), u32(f[1]), pid_of(&f[2]), u8(f[7])) : make_profile_removed_notification(u32(f[0]), u32(f[1]), pid_of(&f[2]), u8(f[7]));
    r.expect = ci_head(f[7], sub, 2, f[0], f[1]);
    pidb(r.expect, &f[2]);
    r.kind = K_PROF_ID;
    chead(r.fields, f[7], sub, 2, f[0], f[1]);
    for (int i = 2; i < 7; ++i) r.fields << f[i];
    return r;
}
static Built prof_specific(const Call& c, bool vec)
{
    using namespace midi::ci;
    const auto& f = c.f; // src dst p0..4 dev ; data
    Built r;
    r.msg = vec ? make_profile_specific_data_message(u32(f[0]), u32(f[1]), pid_of(&f[2]), c.a, u8(f[7]))
                : make_profile_specific_data_message(u32(f[0]), u32(f[1]), pid_of(&f[2]), c.a.data(), c.a.size(), u8(f[7]));
    r.expect = ci_head(f[7], 0x2F, 2, f[0], f[1]);
    pidb(r.expect, &f[2]); p28(r.expect, c.a.size());
    r.expect.insert(r.expect.end(), c.a.begin(), c.a.end());
    r.kind = K_PROF_SPECIFIC;
    chead(r.fields, f[7], 0x2F, 2, f[0], f[1]);
    for (int i = 2; i < 7; ++i) r.fields << f[i];
    fblob(r.fields, c.a); r.fields << c.a.size();
    return r;
}
// list of profiles from raw bytes: every five bytes make a profile
static std::vector<midi::ci::profile_id> profiles(const Bytes& b)
{
    std::vector<midi::ci::profile_id> r;
    for (std::size_t i = 0; i + 5 <= b.size(); i += 5) r.emplace_back(b[i], b[i + 1], b[i + 2], b[i + 3], b[i + 4]);
    return r;
}
static Built prof_reply(const Call& c, bool vec)
{
    using namespace midi::ci;
    const auto& f = c.f; // src dst dev ; enabled, disabled
    const auto  e = profiles(c.a), d = profiles(c.b);
    Built r;
    r.msg = vec ? make_profile_inquiry_reply(u32(f[0]), u32(f[1]), e, d, u8(f[2]))
                : make_profile_inquiry_reply(u32(f[0]), u32(f[1]), e.data(), midi::uint14_t(e.size()), d.data(), midi::uint14_t(d.size()), u8(f[2]));
    r.expect = ci_head(f[2], 0x21, 2, f[0], f[1]);
    p14(r.expect, e.size()); r.expect.insert(r.expect.end(), c.a.begin(), c.a.begin() + e.size() * 5);
    p14(r.expect, d.size()); r.expect.insert(r.expect.end(), c.b.begin(), c.b.begin() + d.size() * 5);
    r.kind = K_PROF_REPLY;
    chead(r.fields, f[2], 0x21, 2, f[0], f[1]);
    r.fields << !e.empty() << !d.empty() << e.size() << d.size();
    for (std::size_t i = 0; i < e.size(); ++i) { r.fields << 0xE; for (int k = 0; k < 5; ++k) r.fields << c.a[i * 5 + k]; }
    for (std::size_t i = 0; i < d.size(); ++i) { r.fields << 0xD; for (int k = 0; k < 5; ++k) r.fields << c.b[i * 5 + k]; }
    return r;
}

// the data of a header or chunk, handed over in each of the ways there are
template<class T>
static T pe_part(const Bytes& b)
{
    static thread_local std::string text;
    switch (b.size() % 5)
    {
    case 0: return T{ b.data(), b.size() };
    case 1: return T{ reinterpret_cast<const char*>(b.data()), b.size() };
    case 2: return T{ b };
    case 3: text.assign(b.begin(), b.end()); return T{ text };
    default: return T{ T{ std::string_view{ reinterpret_cast<const char*>(b.data()), b.size() } }.as_string_view() };
    }
}
// property data messages: header and body supplied as bytes
static Built pe_data(u64 sub, const Call& c, midi::ci::message m, const Bytes& header, u64 num, u64 cur, const Bytes& body, u64 req, u64 dev, int kind)
{
    const auto& f = c.f;
    Built r{ std::move(m) };
    r.expect = ci_head(dev, sub, 2, f[0], f[1]);
    r.expect.push_back(u8(req)); p14(r.expect, header.size());
    r.expect.insert(r.expect.end(), header.begin(), header.end());
    p14(r.expect, num); p14(r.expect, cur); p14(r.expect, body.size());
    r.expect.insert(r.expect.end(), body.begin(), body.end());
    r.kind = kind;
    chead(r.fields, dev, sub, 2, f[0], f[1]);
    r.fields << req; fblob(r.fields, header); r.fields << header.size() << num << cur; fblob(r.fields, body); r.fields << body.size();
    return r;
}
static Bytes bs(const std::string& s) { return Bytes(s.begin(), s.end()); }
static std::string q(std::string_view s) { return "\"" + std::string(s) + "\""; }
static int as_int(u64 v) { return static_cast<int>(static_cast<std::int64_t>(v)); }
// legal chunk numbers out of two arbitrary 14 bit values: 1 <= this <= number (or number unknown = 0)
static void chunks(u64& num, u64& cur, bool header)
{
    if (header) cur = 1;
    if (cur == 0) cur = 1;
    if (num && cur > num) std::swap(num, cur);
}
#define PE_ARGS u32(f[0]), u32(f[1])

static const std::vector<Builder>& builders()
{
    using namespace midi::ci;
    static const std::vector<Builder> b = [] {
        std::vector<Builder> v;
        auto add = [&](const char* prop, const char* n, std::vector<int> w, Built (*mkf)(const Call&), int am = -1, int bm = -1, bool text = false) {
            Builder x; x.prop = prop; x.name = n; x.widths = std::move(w); x.make = mkf; x.a_max = am; x.b_max = bm; x.text = text; v.push_back(std::move(x));
        };
        // C24 --------------------------------------------------------------------------------------------------
        add("C24", "discovery_inquiry", { 28, MANU, 14, 14, 28, 7, 28, 7 }, [](const Call& c) { return disc(c, false, 2); });
        add("C24", "discovery_inquiry_v1", { 28, MANU, 14, 14, 28, 7, 28 }, [](const Call& c) { return disc(c, false, 1); });
        add("C24", "discovery_reply", { 28, 28, MANU, 14, 14, 28, 7, 28, 7, 7 }, [](const Call& c) { return disc(c, true, 2); });
        add("C24", "discovery_reply_v1", { 28, 28, MANU, 14, 14, 28, 7, 28 }, [](const Call& c) { return disc(c, true, 1); });
        add("C24", "endpoint_information_inquiry", { 28, 28, 7 }, [](const Call& c) { auto& f = c.f; auto r = simple(make_endpoint_information_inquiry(u32(f[0]), u32(f[1]), u8(f[2])), 0x7F, 0x72, 2, f[0], f[1], K_EP_INQ, { u8(f[2]) }); r.fields << f[2]; return r; });
        add("C24", "endpoint_information_reply", { 28, 28, 7 }, [](const Call& c) {
            auto& f = c.f; Bytes p{ u8(f[2]) }; p14(p, c.a.size()); p.insert(p.end(), c.a.begin(), c.a.end());
            auto r = simple(make_endpoint_information_reply(u32(f[0]), u32(f[1]), u8(f[2]), c.a.data(), c.a.size()), 0x7F, 0x73, 2, f[0], f[1], K_EP_REPLY, p);
            r.fields << f[2]; fblob(r.fields, c.a); return r; }, 16383);
        add("C24", "ack", { 28, 28, 7, 7, 7, 7, 7, 7, 7, 7, 7 }, [](const Call& c) { return nack_case(c, 0); }, 16383);
        add("C24", "nak", { 28, 28, 7, 7, 7, 7, 7, 7, 7, 7, 7 }, [](const Call& c) { return nack_case(c, 1); }, 16383);
        add("C24", "nak_to_request", { 28, 28, 7, 7, 7, 7, 7, 7, 7, 7, 7 }, [](const Call& c) { return nack_case(c, 2); }, 16383);
        add("C24", "nak_v1", { 28, 28, 7 }, [](const Call& c) { auto& f = c.f; auto r = simple(make_nak_message_v1(u32(f[0]), u32(f[1]), u8(f[2])), f[2], 0x7F, 1, f[0], f[1], K_CI); return r; });
        add("C24", "nak_v1_to_request", { 28, 28, 7, 7 }, [](const Call& c) {
            auto& f = c.f; const Bytes q = ci_head(f[2], f[3], 1, f[0], f[1]); const auto req = mk(0x7E0000, q.data(), q.size());
            return simple(make_nak_message_v1(*midi::as_capability_inquiry_view(req)), f[2], 0x7F, 1, f[1], f[0], K_CI); });
        add("C24", "invalidate_muid", { 28, 28 }, [](const Call& c) { auto& f = c.f; Bytes p; p28(p, f[1]); auto r = simple(make_invalidate_muid_message(u32(f[0]), u32(f[1])), 0x7F, 0x7E, 2, f[0], BROADCAST, K_INVALIDATE, p); r.fields << f[1]; return r; });
        add("C24", "process_inquiry_capabilities_inquiry", { 28, 28, 7 }, [](const Call& c) { auto& f = c.f; return simple(make_process_inquiry_capabilities_inquiry(u32(f[0]), u32(f[1]), u8(f[2])), f[2], 0x40, 2, f[0], f[1], K_CI); });
        add("C24", "process_inquiry_capabilities_reply", { 28, 28, 7, 7 }, [](const Call& c) { auto& f = c.f; auto r = simple(make_process_inquiry_capabilities_reply(u32(f[0]), u32(f[1]), u8(f[3]), u8(f[2])), f[2], 0x41, 2, f[0], f[1], K_PI_REPLY, { u8(f[3]) }); r.fields << f[3]; return r; });
        add("C24", "midi_message_report_inquiry", { 28, 28, 7, 7, 7, 7, 7 }, [](const Call& c) { auto& f = c.f; auto r = simple(make_midi_message_report_inquiry(u32(f[0]), u32(f[1]), u8(f[3]), u8(f[4]), u8(f[5]), u8(f[6]), u8(f[2])), f[2], 0x42, 2, f[0], f[1], K_MR_INQ, { u8(f[3]), u8(f[4]), 0, u8(f[5]), u8(f[6]) }); r.fields << f[3] << f[4] << f[5] << f[6]; return r; });
        add("C24", "midi_message_report_reply", { 28, 7, 7, 7, 7 }, [](const Call& c) { auto& f = c.f; auto r = simple(make_midi_message_report_reply(u32(f[0]), u8(f[2]), u8(f[3]), u8(f[4]), u8(f[1])), f[1], 0x43, 2, f[0], BROADCAST, K_MR_REPLY, { u8(f[2]), 0, u8(f[3]), u8(f[4]) }); r.fields << f[2] << f[3] << f[4]; return r; });
        add("C24", "midi_message_report_end", { 28, 7 }, [](const Call& c) { auto& f = c.f; return simple(make_midi_message_report_end(u32(f[0]), u8(f[1])), f[1], 0x44, 2, f[0], BROADCAST, K_CI); });
        // C25 --------------------------------------------------------------------------------------------------
        add("C25", "profile_inquiry", { 28, 28, 7 }, [](const Call& c) { auto& f = c.f; return simple(make_profile_inquiry_message(u32(f[0]), u32(f[1]), u8(f[2])), f[2], 0x20, 2, f[0], f[1], K_PROF_INQ); });
        add("C25", "profile_inquiry_reply", { 28, 28, 7 }, [](const Call& c) { return prof_reply(c, true); }, 5 * 16383, 5 * 16383);
        add("C25", "profile_inquiry_reply_ptr", { 28, 28, 7 }, [](const Call& c) { return prof_reply(c, false); }, 5 * 16383, 5 * 16383);
        add("C25", "set_profile_on", { 28, 28, 7, 7, 7, 7, 7, 7, 14 }, [](const Call& c) { return prof_dest(c, 0x22); });
        add("C25", "set_profile_off", { 28, 28, 7, 7, 7, 7, 7, 7, 14 }, [](const Call& c) { return prof_dest(c, 0x23); });
        add("C25", "profile_enabled", { 28, 28, 7, 7, 7, 7, 7, 7, 14 }, [](const Call& c) { return prof_dest(c, 0x24); });
        add("C25", "profile_disabled", { 28, 28, 7, 7, 7, 7, 7, 7, 14 }, [](const Call& c) { return prof_dest(c, 0x25); });
        add("C25", "profile_added", { 28, 28, 7, 7, 7, 7, 7, 7 }, [](const Call& c) { return prof_id(c, 0x26); });
        add("C25", "profile_removed", { 28, 28, 7, 7, 7, 7, 7, 7 }, [](const Call& c) { return prof_id(c, 0x27); });
        add("C25", "profile_details_inquiry", { 28, 28, 7, 7, 7, 7, 7, 7, 7 }, [](const Call& c) {
            auto& f = c.f; Bytes p; pidb(p, &f[2]); p.push_back(u8(f[7]));
            auto r = simple(make_profile_details_inquiry(u32(f[0]), u32(f[1]), pid_of(&f[2]), u8(f[7]), u8(f[8])), f[8], 0x28, 2, f[0], f[1], K_PROF_DET_INQ, p);
            for (int i = 2; i < 8; ++i) r.fields << f[i];
            return r; });
        add("C25", "profile_details_reply", { 28, 28, 7, 7, 7, 7, 7, 7, 7 }, [](const Call& c) {
            auto& f = c.f; Bytes p; pidb(p, &f[2]); p.push_back(u8(f[7])); p14(p, c.a.size()); p.insert(p.end(), c.a.begin(), c.a.end());
            auto r = simple(make_profile_details_reply(u32(f[0]), u32(f[1]), pid_of(&f[2]), u8(f[7]), c.a.data(), c.a.size(), u8(f[8])), f[8], 0x29, 2, f[0], f[1], K_PROF_DET_REPLY, p);
            for (int i = 2; i < 8; ++i) r.fields << f[i];
            fblob(r.fields, c.a); return r; }, 16383);
        add("C25", "profile_specific_data", { 28, 28, 7, 7, 7, 7, 7, 7 }, [](const Call& c) { return prof_specific(c, true); }, 1 << 21);
        add("C25", "profile_specific_data_ptr", { 28, 28, 7, 7, 7, 7, 7, 7 }, [](const Call& c) { return prof_specific(c, false); }, 1 << 21);
        // C26 --------------------------------------------------------------------------------------------------
        add("C26", "pe_capabilities_inquiry", { 28, 28, 7, 7 }, [](const Call& c) { auto& f = c.f; auto r = simple(make_property_exchange_capabilities_inquiry(PE_ARGS, u8(f[2]), u8(f[3])), f[3], 0x30, 2, f[0], f[1], K_PE_CAPS, { u8(f[2]), 0, 0 }); r.fields << f[2] << 0 << 0; return r; });
        add("C26", "pe_capabilities_reply", { 28, 28, 7, 7 }, [](const Call& c) { auto& f = c.f; auto r = simple(make_property_exchange_capabilities_reply(PE_ARGS, u8(f[2]), u8(f[3])), f[3], 0x31, 2, f[0], f[1], K_PE_CAPS, { u8(f[2]), 0, 0 }); r.fields << f[2] << 0 << 0; return r; });
        // fields: src dst num cur req dev ; a = header or resource, b = body
        add("C26", "get_inquiry", { 28, 28, 7, 7 }, [](const Call& c) { auto& f = c.f; return pe_data(0x34, c, make_get_property_data_inquiry(PE_ARGS, sv(c.a), u8(f[2]), u8(f[3])), bs("{\"resource\":" + q(sv(c.a)) + "}"), 1, 1, {}, f[2], f[3], K_PE_GET); }, 200, -1, true);
        add("C26", "get_inquiry_options", { 28, 28, 7, 7, 14, 14 }, [](const Call& c) {
            auto& f = c.f; const auto o = std::to_string(f[4]), l = std::to_string(f[5]); const std::string id(c.b.begin(), c.b.end());
            return pe_data(0x34, c, make_get_property_data_inquiry(PE_ARGS, sv(c.a), { { "resId", id }, { property_exchange::tags::offset, o }, { property_exchange::tags::limit, l } }, u8(f[2]), u8(f[3])),
                           bs("{\"resource\":" + q(sv(c.a)) + ",\"resId\":" + q(id) + ",\"offset\":" + o + ",\"limit\":" + l + "}"), 1, 1, {}, f[2], f[3], K_PE_GET); }, 200, 200, true);
        add("C26", "get_reply_header", { 28, 28, 14, 14, 7, 7 }, [](const Call& c) {
            auto& f = c.f; u64 n = f[2], k = f[3]; chunks(n, k, !c.a.empty());
            return pe_data(0x35, c, make_get_property_data_reply(PE_ARGS, pe_part<property_exchange::header>(c.a), midi::uint14_t(n), midi::uint14_t(k), pe_part<property_exchange::chunk>(c.b), u8(f[4]), u8(f[5])), c.a, n, k, c.b, f[4], f[5], K_PE_GET); }, 16383, 16383);
        add("C26", "get_reply_status", { 28, 28, 14, 14, 7, 7, -32 }, [](const Call& c) {
            auto& f = c.f; u64 n = f[2], k = 1; chunks(n, k, true);
            return pe_data(0x35, c, make_get_property_data_reply(PE_ARGS, as_int(f[6]), midi::uint14_t(n), midi::uint14_t(k), pe_part<property_exchange::chunk>(c.b), u8(f[4]), u8(f[5])), bs("{\"status\":" + std::to_string(as_int(f[6])) + "}"), n, k, c.b, f[4], f[5], K_PE_GET); }, -1, 16383);
        add("C26", "get_reply_status_message", { 28, 28, 14, 14, 7, 7, -32 }, [](const Call& c) {
            auto& f = c.f; u64 n = f[2], k = 1; chunks(n, k, true);
            return pe_data(0x35, c, make_get_property_data_reply(PE_ARGS, as_int(f[6]), sv(c.a), midi::uint14_t(n), midi::uint14_t(k), pe_part<property_exchange::chunk>(c.b), u8(f[4]), u8(f[5])), bs("{\"status\":" + std::to_string(as_int(f[6])) + ",\"message\":" + q(sv(c.a)) + "}"), n, k, c.b, f[4], f[5], K_PE_GET); }, 200, 16383, true);
        add("C26", "get_reply_chunk", { 28, 28, 14, 14, 7, 7 }, [](const Call& c) {
            auto& f = c.f; u64 n = f[2], k = f[3]; chunks(n, k, false);
            return pe_data(0x35, c, make_get_property_data_reply(PE_ARGS, midi::uint14_t(n), midi::uint14_t(k), pe_part<property_exchange::chunk>(c.b), u8(f[4]), u8(f[5])), {}, n, k, c.b, f[4], f[5], K_PE_GET); }, -1, 16383);
        add("C26", "set_inquiry", { 28, 28, 14, 14, 7, 7 }, [](const Call& c) {
            auto& f = c.f; u64 n = f[2], k = 1; chunks(n, k, true);
            return pe_data(0x36, c, make_set_property_data_inquiry(PE_ARGS, sv(c.a), midi::uint14_t(n), midi::uint14_t(k), pe_part<property_exchange::chunk>(c.b), u8(f[4]), u8(f[5])), bs("{\"resource\":" + q(sv(c.a)) + "}"), n, k, c.b, f[4], f[5], K_PE_SET); }, 200, 16383, true);
        add("C26", "set_inquiry_options", { 28, 28, 14, 14, 7, 7, -32 }, [](const Call& c) {
            auto& f = c.f; u64 n = f[2], k = 1; chunks(n, k, true); const auto o = std::to_string(as_int(f[6]));
            return pe_data(0x36, c, make_set_property_data_inquiry(PE_ARGS, sv(c.a), { { property_exchange::tags::encoding, "Mcoded7" }, { "n", o } }, midi::uint14_t(n), midi::uint14_t(k), pe_part<property_exchange::chunk>(c.b), u8(f[4]), u8(f[5])), bs("{\"resource\":" + q(sv(c.a)) + ",\"encoding\":\"Mcoded7\",\"n\":" + o + "}"), n, k, c.b, f[4], f[5], K_PE_SET); }, 200, 16383, true);
        add("C26", "set_inquiry_chunk", { 28, 28, 14, 14, 7, 7 }, [](const Call& c) {
            auto& f = c.f; u64 n = f[2], k = f[3]; chunks(n, k, false);
            return pe_data(0x36, c, make_set_property_data_inquiry(PE_ARGS, midi::uint14_t(n), midi::uint14_t(k), pe_part<property_exchange::chunk>(c.b), u8(f[4]), u8(f[5])), {}, n, k, c.b, f[4], f[5], K_PE_SET); }, -1, 16383);
        add("C26", "set_reply", { 28, 28, 7, 7, -32 }, [](const Call& c) { auto& f = c.f; return pe_data(0x37, c, make_set_property_data_reply(PE_ARGS, as_int(f[4]), u8(f[2]), u8(f[3])), bs("{\"status\":" + std::to_string(as_int(f[4])) + "}"), 1, 1, {}, f[2], f[3], K_PE_SET); });
        add("C26", "set_reply_message", { 28, 28, 7, 7, -32 }, [](const Call& c) { auto& f = c.f; return pe_data(0x37, c, make_set_property_data_reply(PE_ARGS, as_int(f[4]), sv(c.a), u8(f[2]), u8(f[3])), bs("{\"status\":" + std::to_string(as_int(f[4])) + ",\"message\":" + q(sv(c.a)) + "}"), 1, 1, {}, f[2], f[3], K_PE_SET); }, 200, -1, true);
        add("C26", "subscription_inquiry", { 28, 28, 7, 7 }, [](const Call& c) {
            auto& f = c.f; const std::string id(c.b.begin(), c.b.end());
            auto m = make_subscription_inquiry(PE_ARGS, sv(c.a), "start", id, u8(f[2]), u8(f[3]));
            return pe_data(0x38, c, m, bs("{\"resource\":" + q(sv(c.a)) + ",\"command\":\"start\",\"subscribeId\":" + q(id) + "}"), 0, 0, {}, f[2], f[3], K_PE_SUB); }, 200, 100, true);
        add("C26", "subscription_inquiry_chunked", { 28, 28, 14, 14, 7, 7 }, [](const Call& c) {
            auto& f = c.f; u64 n = f[2], k = 1; chunks(n, k, true);
            auto m = make_subscription_inquiry(PE_ARGS, sv(c.a), "partial", "sub1", midi::uint14_t(n), midi::uint14_t(k), pe_part<property_exchange::chunk>(c.b), u8(f[4]), u8(f[5]));
            return pe_data(0x38, c, m, bs("{\"resource\":" + q(sv(c.a)) + ",\"command\":\"partial\",\"subscribeId\":\"sub1\"}"), n, k, c.b, f[4], f[5], K_PE_SUB); }, 200, 16383, true);
        add("C26", "subscription_inquiry_chunk", { 28, 28, 14, 14, 7, 7 }, [](const Call& c) {
            auto& f = c.f; u64 n = f[2], k = f[3]; chunks(n, k, false);
            return pe_data(0x38, c, make_subscription_inquiry(PE_ARGS, midi::uint14_t(n), midi::uint14_t(k), pe_part<property_exchange::chunk>(c.b), u8(f[4]), u8(f[5])), {}, n, k, c.b, f[4], f[5], K_PE_SUB); }, -1, 16383);
        add("C26", "subscription_reply", { 28, 28, 7, 7, -32 }, [](const Call& c) { auto& f = c.f; return pe_data(0x39, c, make_subscription_reply(PE_ARGS, as_int(f[4]), u8(f[2]), u8(f[3])), bs("{\"status\":" + std::to_string(as_int(f[4])) + "}"), 1, 1, {}, f[2], f[3], K_PE_SUB); });
        add("C26", "subscription_reply_message", { 28, 28, 7, 7, -32 }, [](const Call& c) { auto& f = c.f; return pe_data(0x39, c, make_subscription_reply(PE_ARGS, as_int(f[4]), sv(c.a), u8(f[2]), u8(f[3])), bs("{\"status\":" + std::to_string(as_int(f[4])) + ",\"message\":" + q(sv(c.a)) + "}"), 1, 1, {}, f[2], f[3], K_PE_SUB); }, 200, -1, true);
        add("C26", "notify", { 28, 28, 7, 7, -32 }, [](const Call& c) { auto& f = c.f; return pe_data(0x3F, c, make_notify_message(PE_ARGS, as_int(f[4]), u8(f[2]), u8(f[3])), bs("{\"status\":" + std::to_string(as_int(f[4])) + "}"), 1, 1, {}, f[2], f[3], K_PE_NOTIFY); });
        add("C26", "notify_message", { 28, 28, 7, 7, -32 }, [](const Call& c) { auto& f = c.f; return pe_data(0x3F, c, make_notify_message(PE_ARGS, as_int(f[4]), sv(c.a), u8(f[2]), u8(f[3])), bs("{\"status\":" + std::to_string(as_int(f[4])) + ",\"message\":" + q(sv(c.a)) + "}"), 1, 1, {}, f[2], f[3], K_PE_NOTIFY); }, 200, -1, true);
        return v;
    }();
    return b;
}

// value of a field for a "pattern"; patterns: 0 all zero, 1 all ones, 2 distinct bytes, 3 single top bit, 4 single bottom bit
static u64 field_max(int w) { return w == MANU ? 0x7F7F7F : w == -32 ? 0x7FFFFFFF : (u64(1) << w) - 1; }
static u64 pattern(int w, std::size_t i, int p)
{
    const u64 mx = field_max(w);
    u64 v = 0;
    switch (p)
    {
    case 0: v = 0; break;
    case 1: v = mx; break;
    case 2: v = 0x0123456789ABCDEFull * (i * 2 + 1) >> 13; break;
    case 3: v = (mx + 1) >> 1; break;
    case 4: v = 1; break;
    default: v = ~(0x0123456789ABCDEFull * (i * 2 + 7) >> 11);
    }
    if (w == MANU) return v & 0x7F7F7F;
    if (w == -32) return p == 5 ? u64(-404) : v & 0x3FF;
    return v & mx;
}
static Bytes content(std::size_t n, int p, bool text)
{
    Bytes b(n);
    for (std::size_t i = 0; i < n; ++i)
    {
        const u64 x = p == 0 ? 0 : p == 1 ? 127 : (i * 37 + i / 128 * 11 + p * 5) % 128;
        b[i] = u8(text ? "aZ/._ -"[x % 7] : x);
    }
    return b;
}
static bool i64_t_le(u64 n, int m) { return m >= 0 && n <= u64(m); }

static void check_built(Ctx& c, const Builder& b, const Call& call)
{
    const Built r = b.make(call);
    const Bytes got(r.msg.data.begin(), r.msg.data.end());
    MC_CHECK(c, r.msg.manufacturerID == 0x7E0000, "%s: manufacturer %x", b.name, r.msg.manufacturerID);
    MC_CHECK(c, got == r.expect, "%s: built %s expected %s", b.name, show(got).c_str(), show(r.expect).c_str());
    MC_CHECK(c, r.msg.is_valid(), "%s: not valid 7-bit SysEx: %s", b.name, show(got).c_str());
    static Fields f;
    const int o = real::offer(r.kind, f, r.msg, true);
    MC_CHECK(c, o == 1, "%s: view %s not offered (%d) for %s", b.name, kind_name[r.kind], o, show(got).c_str());
    MC_CHECK(c, f == r.fields, "%s: view %s reads%s expected%s of %s", b.name, kind_name[r.kind], f.str().c_str(), r.fields.str().c_str(), show(got).c_str());
    // generic headers
    const int u = real::offer(K_CI, f, r.msg, true);
    MC_CHECK(c, u == 1, "%s: capability inquiry view refused", b.name);
    c.nontrivial();
    c.outcome(fnv(got.data(), got.size()));
}

// characters which need no escaping and do not make a number
static bool plain_text(u64 v) { return v >= 0x20 && v < 0x7F && v != '"' && v != '\\' && !(v >= '0' && v <= '9'); }

// case: builder, mode, ...
//  mode 0: [pattern per field ...] + content pattern + size a + size b
//  mode 1: base pattern, field, value
//  mode 2: base pattern, field, value, field, value
//  mode 3: which part, size, first byte: every second byte at every other position of that part
//  mode 4: two words over three letters (profiles, for lists of profiles) as the variable parts
template<class Sec>
static void run_build(Ctx& c, Args a)
{
    const auto& b = builders().at(a[0]);
    Call call;
    const std::size_t nf = b.widths.size();
    if (a[1] == 0)
    {
        u64 code = a[2];
        for (std::size_t i = 0; i < nf; ++i) { call.f.push_back(pattern(b.widths[i], i, int(code % 3))); code /= 3; }
        if (b.a_max >= 0) call.a = content(a[4], int(a[3]), b.text);
        if (b.b_max >= 0) call.b = content(a[5], int(a[3]) + 1, b.text);
    }
    else if (a[1] == 3)
    {
        for (std::size_t i = 0; i < nf; ++i) call.f.push_back(pattern(b.widths[i], i, 2));
        if (b.a_max >= 0) call.a = content(b.b_max > 16383 ? 5 : 3, 2, b.text);
        if (b.b_max >= 0) call.b = content(5, 3, b.text);
        Bytes& part = a[2] ? call.b : call.a;
        u64    k    = 0;
        for (u64 p = 0; p < a[3]; ++p)
            for (u64 q = 0; q < a[3]; ++q)
            {
                if (p == q && a[3] > 1) continue;
                for (u64 v = 0; v < 128; ++v)
                {
                    if (b.text && !plain_text(v)) continue;
                    part.assign(a[3], u8('k'));
                    part[q] = u8(v);
                    part[p] = u8(a[4]);
                    check_built(c, b, call);
                    ++k;
                }
            }
        c.st->evaluations += k - 1;
        return;
    }
    else if (a[1] == 4)
    {
        for (std::size_t i = 0; i < nf; ++i) call.f.push_back(pattern(b.widths[i], i, 2));
        static const char letters[3][6] = { "aZ/._", "aZ/.m", "ZZa/_" };
        auto word = [&](u64 code) { // bijective base 3
            Bytes w;
            for (; code; code = (code - 1) / 3)
                for (int k = 0; k < (b.b_max > 16383 ? 5 : 1); ++k) w.push_back(u8(letters[(code - 1) % 3][b.b_max > 16383 ? k : 4]));
            return w;
        };
        if (b.a_max >= 0) call.a = word(a[2]);
        if (b.b_max >= 0) call.b = word(a[3]);
    }
    else
    {
        for (std::size_t i = 0; i < nf; ++i) call.f.push_back(pattern(b.widths[i], i, int(a[2])));
        call.f.at(a[3]) = a[4];
        if (a[1] == 2) call.f.at(a[5]) = a[6];
        if (b.a_max >= 0) call.a = content(6, 2, b.text);
        if (b.b_max >= 0) call.b = content(5, 3, b.text);
    }
    check_built(c, b, call);
    if (c.want_sample()) c.sample(b.name);
}
template<class Sec>
static void enum_build(Ctx& c)
{
    c.bound(c.mid ? "every builder of the property: all 3^n combinations of zero / all-ones / distinct field values (n <= 11); every field swept over all its values (7, 14 bit: all; 28 bit: all values of every pair of 7-bit groups) on 6 base patterns; every pair of fields over 8 edge values (equal ones included); every pair of bytes in variable parts of up to 5 bytes, all pairs of words of up to 3 letters / profiles; variable parts of every length 0..2100 (thorough: 9000), all pairs of lengths 0..40 of two variable parts, and at 14-bit and 16-bit boundaries"
                      : "every builder of the property: all 3^n combinations of zero / all-ones / distinct field values (n <= 11); every field swept over all its values (7, 14 bit: all; 28 bit: all values of every 7-bit group) on 3 base patterns; every pair of fields over 8 edge values; every pair of bytes in variable parts of up to 5 bytes, all pairs of words of up to 3 letters / profiles; variable parts of every length 0..300 and at 14-bit and 16-bit boundaries");
    const auto& bl = builders();
    for (u64 bi = 0; bi < bl.size(); ++bi)
    {
        const auto& b = bl[bi];
        if (c.property != b.prop) continue;
        const std::size_t nf = b.widths.size();
        u64 combos = 1;
        for (std::size_t i = 0; i < nf; ++i) combos *= 3;
        const u64 a0 = b.a_max < 0 ? 0 : 3, b0 = b.b_max < 0 ? 0 : 10;
        for (u64 k = 0; k < combos; ++k)
            if (c.mine()) c.exec<Sec>(bi, 0, k, 2, a0, b0);
        // field sweeps
        const int bases = c.mid ? 6 : 3;
        for (int base = 0; base < bases; ++base)
            for (std::size_t i = 0; i < nf; ++i)
            {
                const int w = b.widths[i];
                auto sweep = [&](u64 v) { if (c.mine()) c.exec<Sec>(bi, 1, base, i, v); };
                if (w == 7 || w == 14) for (u64 v = 0; v < (u64(1) << w); ++v) sweep(v);
                else if (w == MANU)
                {
                    for (u64 v = 1; v < 128; ++v) sweep(v << 16);
                    for (u64 v = 1; v < 16384; ++v) sweep((v / 128) << 8 | v % 128);
                }
                else if (w == -32) { for (std::int64_t v = -1100; v < 1100; ++v) sweep(u64(v)); sweep(0x7FFFFFFF); sweep(u64(std::int64_t(-2147483647) - 1)); }
                else
                {
                    for (int g = 0; g < 4; ++g)
                        for (int h = c.mid ? g + 1 : 4; h <= 4; ++h)
                            for (u64 v = 0; v < 128; ++v)
                                for (u64 x = 0; x < (h < 4 ? 128u : 1u); ++x)
                                    for (u64 rest : { u64(0), BROADCAST })
                                    {
                                        u64 r = (rest & ~(u64(127) << 7 * g)) | v << 7 * g;
                                        if (h < 4) r = (r & ~(u64(127) << 7 * h)) | x << 7 * h;
                                        sweep(r);
                                    }
                }
            }
        // pairs of fields at their edges, equal values included
        for (int base = 0; base < 3; ++base)
            for (std::size_t i = 0; i < nf; ++i)
                for (std::size_t j = i + 1; j < nf; ++j)
                {
                    auto edges = [&](int w) {
                        const u64 mx = field_max(w);
                        std::vector<u64> e{ 0, 1, mx, mx - 1, (mx + 1) >> 1, 0x0D & mx, 0x7E & mx, 0x10 & mx };
                        if (w == -32) e = { 0, 1, 100, 200, 202, 404, u64(-1), 0x7FFFFFFF };
                        if (w == MANU) e = { 0x002109, 0x000001, 0x007F7F, 0x010000, 0x7D0000, 0x7E0000, 0x7F0000, 0x000100 };
                        return e;
                    };
                    if (!c.mine()) continue;
                    for (u64 x : edges(b.widths[i]))
                        for (u64 y : edges(b.widths[j])) c.exec<Sec>(bi, 2, base, i, x, j, y);
                }
        // contents of the variable parts
        for (u64 part = 0; part < 2; ++part)
            if ((part ? b.b_max : b.a_max) >= 0)
                for (u64 n : { 1, 2, 3, 5 })
                    for (u64 v = 0; v < 128; ++v)
                        if ((!b.text || plain_text(v)) && n % (b.b_max > 16383 ? 5 : 1) == 0 && c.mine()) c.exec<Sec>(bi, 3, part, n, v);
        if (b.a_max >= 0 || b.b_max >= 0)
            for (u64 x = b.text ? 1 : 0; x < (b.a_max >= 0 ? 40 : 1); ++x)
                for (u64 y = b.text && b.b_max <= 200 ? 1 : 0; y < (b.b_max >= 0 ? 40 : 2); ++y)
                    if ((b.b_max >= 0 || y < 2) && c.mine()) c.exec<Sec>(bi, 4, x, y);
        // sizes
        const u64 lim = c.thorough ? 9000 : c.mid ? 2100 : 300;
        auto size = [&](u64 x, u64 y) { for (int p = 0; p < 3; ++p) if (c.mine()) c.exec<Sec>(bi, 0, 0x1D2, p, x, y); };
        if (b.a_max >= 0)
            for (u64 n = b.text ? 1 : 0; n <= std::min<u64>(lim * (b.b_max > 16383 ? 5 : 1), u64(b.a_max)); n += b.b_max > 16383 ? 5 : 1) size(n, b.b_max >= 0 ? (b.text ? 2 : 0) : 0);
        if (b.b_max >= 0)
            for (u64 n = b.text && b.b_max <= 200 ? 1 : 0; n <= std::min<u64>(lim * (b.b_max > 16383 ? 5 : 1), u64(b.b_max)); n += b.b_max > 16383 ? 5 : 1) size(b.a_max >= 0 ? (b.text ? 3 : b.b_max > 16383 ? 15 : 3) : 0, n);
        if (c.mid && b.a_max >= 0 && b.b_max >= 0)
        {
            const u64 unit = b.b_max > 16383 ? 5 : 1;
            for (u64 x = b.text ? 1 : 0; x <= 40; ++x)
                for (u64 y = b.text && b.b_max <= 200 ? 1 : 0; y <= 40; ++y)
                    if (i64_t_le(x * unit, b.a_max) && i64_t_le(y * unit, b.b_max) && c.mine()) c.exec<Sec>(bi, 0, 0x1D2, 2, x * unit, y * unit);
        }
        for (u64 n : { 1022, 1023, 1024, 2047, 2048, 4095, 4096, 8191, 8192, 16000, 16382, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 81915, 131072, 1 << 21 })
        {
            if (i64_t_le(n, b.a_max)) size(n, b.b_max >= 0 ? (b.text ? 2 : 0) : 0);
            if (i64_t_le(n, b.b_max)) size(b.a_max >= 0 ? 3 : 0, n);
            if (i64_t_le(n, b.a_max) && i64_t_le(n, b.b_max)) size(n, n);
        }
    }
}

MC_SECTION("C24", c24_build);
void c24_build::run(Ctx& c, Args a) { run_build<c24_build>(c, a); }
void c24_build::enumerate(Ctx& c) { enum_build<c24_build>(c); }
MC_SECTION("C25", c25_build);
void c25_build::run(Ctx& c, Args a) { run_build<c25_build>(c, a); }
void c25_build::enumerate(Ctx& c) { enum_build<c25_build>(c); }
MC_SECTION("C26", c26_build);
void c26_build::run(Ctx& c, Args a) { run_build<c26_build>(c, a); }
void c26_build::enumerate(Ctx& c) { enum_build<c26_build>(c); }

// default arguments and the profile destination helpers
MC_SECTION("C24,C25,C26", ci_defaults);
void ci_defaults::run(Ctx& c, Args)
{
    using namespace midi::ci;
    c.nontrivial();
    const u32 s = 0x1234567, d = 0xABCDEF0;
    const midi::device_identity id{ 0x002109, 1, 2, 3 };
    const profile_id p{ 1, 2, 3, 4, 5 };
    const u8 x[3] = { 1, 2, 3 };
    MC_CHECK(c, make_discovery_inquiry(s, id, 1, 2) == make_discovery_inquiry(s, id, 1, 2, 0), "discovery inquiry");
    MC_CHECK(c, make_discovery_reply(s, d, id, 1, 2, 3) == make_discovery_reply(s, d, id, 1, 2, 3, 0x7F), "discovery reply");
    MC_CHECK(c, make_profile_inquiry_message(s, d) == make_profile_inquiry_message(s, d, 0x7F), "profile inquiry");
    MC_CHECK(c, make_profile_inquiry_reply(s, d, { p }, { p, p }) == make_profile_inquiry_reply(s, d, { p }, { p, p }, 0x7F), "profile inquiry reply");
    MC_CHECK(c, make_profile_added_notification(s, d, p) == make_profile_added_notification(s, d, p, 0x7F), "profile added");
    MC_CHECK(c, make_profile_removed_notification(s, d, p) == make_profile_removed_notification(s, d, p, 0x7F), "profile removed");
    MC_CHECK(c, make_profile_details_inquiry(s, d, p, 7) == make_profile_details_inquiry(s, d, p, 7, 0x7F), "details inquiry");
    MC_CHECK(c, make_profile_details_reply(s, d, p, 7, x, 3) == make_profile_details_reply(s, d, p, 7, x, 3, 0x7F), "details reply");
    MC_CHECK(c, make_profile_specific_data_message(s, d, p, x, 3) == make_profile_specific_data_message(s, d, p, x, 3, 0x7F), "specific data");
    MC_CHECK(c, make_property_exchange_capabilities_inquiry(s, d) == make_property_exchange_capabilities_inquiry(s, d, 1, 0x7F), "pe caps");
    MC_CHECK(c, make_get_property_data_inquiry(s, d, "A") == make_get_property_data_inquiry(s, d, "A", 0, 0x7F), "get");
    MC_CHECK(c, make_process_inquiry_capabilities_inquiry(s, d) == make_process_inquiry_capabilities_inquiry(s, d, 0x7F), "process inquiry");
    for (u32 ch = 0; ch < 16; ++ch)
        for (u32 n = 0; n < 300; ++n)
        {
            const auto q = channel_profile(u8(ch), midi::uint14_t(n));
            MC_CHECK(c, q.scope == ch && q.num_channels == n, "channel_profile");
            MC_CHECK(c, q == channel_profile(u8(ch), midi::uint14_t(n)) && !(q == channel_profile(u8(ch), midi::uint14_t(n + 1))) && !(q == channel_profile(u8(ch + 1), midi::uint14_t(n))), "equality");
        }
    MC_CHECK(c, group_profile.scope == 0x7E && group_profile.num_channels == 0 && function_block_profile.scope == 0x7F && function_block_profile.num_channels == 0, "scopes");
    for (int i = 0; i < 5; ++i)
        for (int bit = 0; bit < 7; ++bit)
        {
            profile_id r = p;
            (&r.byte1)[i] ^= u8(1 << bit);
            MC_CHECK(c, p == p && !(p == r), "profile id equality");
        }
}
void ci_defaults::enumerate(Ctx& c) { c.bound("default arguments, destination helpers, equality"); if (c.mine()) c.exec<ci_defaults>(0); }

// specific data of any size; several chunks (all sizes up to 2^16 plus a few larger ones) are part of c25_build

//---------------------------------------------------------------------------------------------------------------------
// C26: JSON headers.  Independent strict parser of a flat JSON object.

struct JVal { std::string key; bool number; std::string text; };
static bool json_object(const std::string& s, std::vector<JVal>& out)
{
    std::size_t i = 0;
    auto str = [&](std::string& r) {
        if (i >= s.size() || s[i] != '"') return false;
        ++i;
        while (i < s.size() && s[i] != '"')
        {
            if (s[i] == '\\' || u8(s[i]) < 0x20) return false; // the alphabet needs no escapes
            r += s[i++];
        }
        if (i >= s.size()) return false;
        ++i;
        return true;
    };
    if (i >= s.size() || s[i++] != '{') return false;
    for (;;)
    {
        JVal v{};
        if (!str(v.key)) return false;
        if (i >= s.size() || s[i++] != ':') return false;
        if (i < s.size() && s[i] == '"') { if (!str(v.text)) return false; }
        else
        {
            v.number = true;
            if (i < s.size() && s[i] == '-') v.text += s[i++];
            if (i >= s.size() || s[i] < '0' || s[i] > '9') return false;
            if (s[i] == '0') v.text += s[i++];
            else while (i < s.size() && s[i] >= '0' && s[i] <= '9') v.text += s[i++];
        }
        out.push_back(v);
        if (i >= s.size()) return false;
        if (s[i] == ',') { ++i; continue; }
        if (s[i] == '}') return i + 1 == s.size();
        return false;
    }
}
static bool canonical_integer(const std::string& s)
{
    std::size_t i = 0;
    if (i < s.size() && s[i] == '-') ++i;
    if (i >= s.size()) return false;
    if (s[i] == '0') return i + 1 == s.size();
    for (; i < s.size(); ++i) if (s[i] < '0' || s[i] > '9') return false;
    return true;
}
static const char json_alpha[] = "-019aZ. {:,}";
static std::string token(u64 code, u64 len)
{
    std::string s;
    for (u64 i = 0; i < len; ++i) { s += json_alpha[code % 12]; code /= 12; }
    return s;
}
static void json_check(Ctx& c, const std::string& got, const std::vector<std::pair<std::string, std::string>>& want, bool first_is_int)
{
    std::vector<JVal> o;
    MC_CHECK(c, json_object(got, o), "not a JSON object: <%s>", got.c_str());
    MC_CHECK(c, o.size() == want.size(), "%zu members instead of %zu in <%s>", o.size(), want.size(), got.c_str());
    for (std::size_t i = 0; i < want.size(); ++i)
    {
        MC_CHECK(c, o[i].key == want[i].first && o[i].text == want[i].second, "member %zu of <%s>", i, got.c_str());
        const bool num = i == 0 ? first_is_int : canonical_integer(want[i].second);
        if (want[i].second != "-0") MC_CHECK(c, o[i].number == num, "member %zu of <%s> has the wrong JSON type", i, got.c_str());
    }
}
MC_SECTION("C26", c26_json);
void c26_json::run(Ctx& c, Args a)
{
    using namespace midi::ci::property_exchange;
    c.nontrivial();
    // a0 len1, a1 code1, a2 len2, a3 code2 (len2 = 99: one option), a4 status
    const std::string v1 = token(a[1], a[0]), v2 = a[2] == 99 ? "" : token(a[3], a[2]);
    const int status = as_int(a[4]);
    header_options o{ { "limit", v1 } };
    std::vector<std::pair<std::string, std::string>> w{ { "resource", "DeviceInfo" }, { "limit", v1 } };
    if (a[2] != 99) { o.emplace_back("offset", v2); w.emplace_back("offset", v2); }
    json_check(c, make_rjson("resource", std::string_view("DeviceInfo"), o), w, false);
    w[0] = { "status", std::to_string(status) };
    json_check(c, make_rjson("status", status, o), w, true);
    w.resize(1);
    json_check(c, make_rjson("status", status), w, true);
    json_check(c, make_rjson("status", status, header_options{}), w, true);
    w[0] = { "resource", v1 };
    json_check(c, make_rjson("resource", std::string_view(v1)), w, false);
    json_check(c, make_rjson("resource", std::string_view(v1), header_options{}), w, false);
    // through the message builders: the option text lies in its own exactly sized buffer
    const std::vector<char> exact(v1.begin(), v1.end());
    const auto m = midi::ci::make_get_property_data_inquiry(1, 2, "DeviceInfo", header_options{ { "limit", std::string_view(exact.data(), exact.size()) } });
    const auto g = midi::ci::as<midi::ci::get_property_data_view>(m);
    MC_CHECK(c, g.has_value(), "get view refused for option value <%s>", v1.c_str());
    json_check(c, std::string(g->header_begin(), g->header_end()), { { "resource", "DeviceInfo" }, { "limit", v1 } }, false);
    c.outcome(fnv(v1.data(), v1.size()));
}
void c26_json::enumerate(Ctx& c)
{
    const u64 max1 = c.thorough ? 7 : c.mid ? 6 : 5;
    c.bound(fmt("make_rjson: all option values of length 0..%d over the alphabet [%s], all pairs of values up to length 2, statuses", int(max1), json_alpha));
    u64 p = 1;
    for (u64 l = 0; l <= max1; ++l, p *= 12)
        for (u64 k = 0; k < p; ++k) if (c.mine()) c.exec<c26_json>(l, k, 99, 0, k % 1000 - 300);
    u64 p1 = 1;
    for (u64 l1 = 0; l1 <= 2; ++l1, p1 *= 12)
        for (u64 k1 = 0; k1 < p1; ++k1)
        {
            u64 p2 = 1;
            for (u64 l2 = 0; l2 <= 2; ++l2, p2 *= 12)
                for (u64 k2 = 0; k2 < p2; ++k2) if (c.mine()) c.exec<c26_json>(l1, k1, l2, k2, 200);
        }
}

// every name the library or the MIDI-CI documents give a meaning to, in every place a caller can put it, and every pair
// of printable characters that JSON carries unescaped
static const char* const pe_resources[] = { "ResourceList", "DeviceInfo", "ChannelList", "JSONSchema", "ModeList", "CurrentMode", "ProgramList", "ClockMode", "LocalOn", "ChannelMode", "BasicChannelRx", "BasicChannelTx", "MaxSysex8Streams", "StateList", "State", "AllCtrlList", "ChCtrlList", "CtrlMapList", "X-Vendor", "123", "" };
static const char* const pe_keys[] = { "command", "id", "offset", "limit", "encoding", "message", "subscribeId", "resId", "mediaType", "mutualEncoding", "cacheTime", "totalCount", "setPartial", "path", "x" };
static const char* const pe_values[] = { "", "0", "1", "7", "42", "100", "16383", "-1", "-0", "-", "007", "1.5", "1e5", "0x10", "+1", " 1", "1 ", "99999999999999999999", "abc", "start", "partial", "full", "notify", "end", "true", "false", "null", "ASCII", "Mcoded7", "zlib+Mcoded7", "application/json", "{}", "[1]", "DeviceInfo", "status", "resource" };
static const char* const pe_commands[] = { "start", "partial", "full", "notify", "end", "", "Start", "stop", "unsubscribe", "1", "-7" };
static const int pe_status[] = { 200, 202, 144, 341, 342, 343, 400, 403, 404, 405, 408, 413, 415, 445, 500, 505, 0, 1, -1, 9, 10, 99, 100, 999, 1000, 127, 128, 16383, 16384, 65535, 65536, 2147483647, -2147483647 - 1 };
template<std::size_t N, class T> constexpr u64 countof(const T (&)[N]) { return N; }
static std::string printable_pair(u64 k)
{
    std::string alpha;
    for (char ch = 0x20; ch < 0x7F; ++ch) if (ch != '"' && ch != '\\') alpha += ch;
    std::string s;
    s += alpha[k / 93 % 93]; s += alpha[k % 93];
    return s;
}
static void names_message(Ctx& c, const midi::ci::message& m, u8 subtype, const std::vector<std::pair<std::string, std::string>>& want, bool first_is_int, const Bytes& chunk, u32 n, u32 k)
{
    using V = midi::ci::property_exchange::property_data_message_view;
    MC_CHECK(c, m.is_valid() && m.data.size() > 2 && m.data[2] == subtype, "message of subtype %02x: %s", subtype, show(m).c_str());
    const V v(m);
    json_check(c, std::string(v.header_begin(), v.header_end()), want, first_is_int);
    MC_CHECK(c, v.number_of_chunks() == n && v.number_of_this_chunk() == k && Bytes(v.chunk_begin(), v.chunk_end()) == chunk, "chunk of %s", show(m).c_str());
}
static void names_all(Ctx& c, const std::string& res, const midi::ci::property_exchange::header_options& o, const std::vector<std::pair<std::string, std::string>>& ow)
{
    using namespace midi::ci;
    namespace pe = midi::ci::property_exchange;
    auto with = [&](const char* k, const std::string& v) { std::vector<std::pair<std::string, std::string>> w{ { k, v } }; w.insert(w.end(), ow.begin(), ow.end()); return w; };
    const Bytes body{ 1, 2, 0x7F };
    const auto ch = pe_part<pe::chunk>(body);
    for (const char* k : { "resource", "status", "command", "id" })
    {
        bool clash = false;
        for (auto& e : ow) clash |= e.first == k;
        if (clash) continue;
        json_check(c, pe::make_rjson(k, std::string_view(res), o), with(k, res), false);
        if (o.empty()) json_check(c, pe::make_rjson(k, std::string_view(res)), with(k, res), false);
    }
    names_message(c, make_get_property_data_inquiry(1, 2, res, o, 3, 4), 0x34, with("resource", res), false, {}, 1, 1);
    names_message(c, make_set_property_data_inquiry(1, 2, res, o, midi::uint14_t(1), midi::uint14_t(1), ch, 3, 4), 0x36, with("resource", res), false, body, 1, 1);
    if (o.empty())
    {
        names_message(c, make_get_property_data_inquiry(1, 2, res, 3, 4), 0x34, with("resource", res), false, {}, 1, 1);
        names_message(c, make_set_property_data_inquiry(1, 2, res, midi::uint14_t(1), midi::uint14_t(1), ch, 3, 4), 0x36, with("resource", res), false, body, 1, 1);
    }
}
static void names_sub(Ctx& c, const std::string& res, const std::string& cmd, const std::string& id)
{
    using namespace midi::ci;
    namespace pe = midi::ci::property_exchange;
    const Bytes body{ 1, 2, 0x7F };
    std::vector<std::pair<std::string, std::string>> w{ { "resource", res }, { "command", cmd }, { "subscribeId", id } };
    names_message(c, make_subscription_inquiry(1, 2, res, cmd, id, midi::uint14_t(5), midi::uint14_t(1), pe_part<pe::chunk>(body), 3, 4), 0x38, w, false, body, 5, 1);
    names_message(c, make_subscription_inquiry(1, 2, res, cmd, id, 3, 4), 0x38, w, false, {}, 0, 0);
}
static void names_status(Ctx& c, int st, const std::string& msg)
{
    using namespace midi::ci;
    namespace pe = midi::ci::property_exchange;
    const Bytes body{ 1, 2, 0x7F };
    const auto ch = pe_part<pe::chunk>(body);
    const std::vector<std::pair<std::string, std::string>> w1{ { "status", std::to_string(st) } }, w2{ w1[0], { "message", msg } };
    const midi::uint14_t one(1);
    names_message(c, make_get_property_data_reply(1, 2, st, one, one, ch, 3, 4), 0x35, w1, true, body, 1, 1);
    names_message(c, make_get_property_data_reply(1, 2, st, std::string_view(msg), one, one, ch, 3, 4), 0x35, w2, true, body, 1, 1);
    names_message(c, make_set_property_data_reply(1, 2, st, 3, 4), 0x37, w1, true, {}, 1, 1);
    names_message(c, make_set_property_data_reply(1, 2, st, std::string_view(msg), 3, 4), 0x37, w2, true, {}, 1, 1);
    names_message(c, make_subscription_reply(1, 2, st, 3, 4), 0x39, w1, true, {}, 1, 1);
    names_message(c, make_subscription_reply(1, 2, st, std::string_view(msg), 3, 4), 0x39, w2, true, {}, 1, 1);
    names_message(c, make_notify_message(1, 2, st, 3, 4), 0x3F, w1, true, {}, 1, 1);
    names_message(c, make_notify_message(1, 2, st, std::string_view(msg), 3, 4), 0x3F, w2, true, {}, 1, 1);
    json_check(c, pe::make_rjson("status", st, { { "message", msg } }), w2, true);
}
MC_SECTION("C26", c26_names);
void c26_names::run(Ctx& c, Args a)
{
    c.nontrivial();
    const std::string res = pe_resources[a[1]];
    auto kv = [](u64 k) { return std::pair<std::string, std::string>{ pe_keys[k / countof(pe_values)], pe_values[k % countof(pe_values)] }; };
    switch (a[0])
    {
    case 0: // resource; one, or two different, options (code 0: none)
    {
        std::vector<std::pair<std::string, std::string>> w;
        for (u64 i : { a[2], a[3] }) if (i) w.push_back(kv(i - 1));
        midi::ci::property_exchange::header_options o;
        for (auto& e : w) o.emplace_back(e.first, e.second);
        names_all(c, res, o, w);
        break;
    }
    case 1: names_sub(c, res, pe_commands[a[2]], pe_values[a[3]]); break;
    case 2: names_status(c, pe_status[a[2]], pe_values[a[3]]); break;
    default: // printable characters, alone inside a name or as the whole text
    {
        const std::string p = printable_pair(a[2]), t = a[3] == 0 ? p : a[3] == 1 ? "a" + p : a[3] == 2 ? p + "z" : std::string(1, p[0]) + "mid" + p[1];
        names_all(c, t, {}, {});
        names_all(c, "R", { { "resId", t } }, { { "resId", t } });
        names_all(c, "R", { { t, "v" } }, { { t, "v" } });
        names_sub(c, t, "start", "s");
        names_sub(c, "R", t, "s");
        names_sub(c, "R", "start", t);
        names_status(c, 200, t);
    }
    }
    c.outcome(mix(mix(a[0], a[1]), mix(a[2], a[3])));
}
void c26_names::enumerate(Ctx& c)
{
    c.bound(fmt("property exchange texts: %d resources x (no option, every one of %d key/value options, %s), x %d commands x %d subscription ids; %d status codes x %d messages; all 93^2 pairs of printable characters in 4 positions of every text",
                int(countof(pe_resources)), int(countof(pe_keys) * countof(pe_values)), c.mid ? "every pair of options with different keys" : "every pair of values under a few pairs of keys", int(countof(pe_commands)), int(countof(pe_values)), int(countof(pe_status)), int(countof(pe_values))));
    const u64 nv = countof(pe_values), no = countof(pe_keys) * nv;
    for (u64 r = 0; r < countof(pe_resources); ++r)
    {
        for (u64 i = 0; i <= no; ++i) if (c.mine()) c.exec<c26_names>(0, r, i, 0);
        for (u64 k = 0; k < countof(pe_commands); ++k)
            for (u64 v = 0; v < nv; ++v) if (c.mine()) c.exec<c26_names>(1, r, k, v);
        for (u64 i = 1; i <= no; ++i)
            for (u64 j = 1; j <= no; ++j)
            {
                const u64 ki = (i - 1) / nv, kj = (j - 1) / nv;
                if (ki == kj) continue;
                if (!c.mid && (r != 1 || ki > 6 || kj != (ki + 1) % 7)) continue;
                if (c.mid && !c.thorough && r % 7 != 1) continue;
                if (c.mine()) c.exec<c26_names>(0, r, i, j);
            }
    }
    for (u64 s = 0; s < countof(pe_status); ++s)
        for (u64 v = 0; v < nv; ++v) if (c.mine()) c.exec<c26_names>(2, 0, s, v);
    for (u64 k = 0; k < 93 * 93; ++k)
        for (u64 how = 0; how < 4; ++how) if (c.mine()) c.exec<c26_names>(3, 0, k, how);
}

//---------------------------------------------------------------------------------------------------------------------
// C23: universal SysEx and identity messages

static void c23_reply(Ctx& c, u32 manu, u32 fam, u32 mod, u32 rev, u32 dev)
{
    using namespace midi::universal_sysex;
    Bytes e{ u8(dev), 6, 2 };
    if (manu >> 16) e.push_back(u8(manu >> 16));
    else { e.push_back(0); e.push_back(u8(manu >> 8)); e.push_back(u8(manu)); }
    p14(e, fam); p14(e, mod); p28(e, rev);
    Fields want, f;
    want << dev << 0x7E06 << 2 << manu << fam << mod << rev;
    auto one = [&](const sysex7& m, const char* how) {
        MC_CHECK(c, m.manufacturerID == 0x7E0000 && Bytes(m.data.begin(), m.data.end()) == e && m.is_valid(), "%s: %s expected %s", how, show(m).c_str(), hex(e).c_str());
        MC_CHECK(c, real::offer(K_IDENTITY_REPLY, f, m, true) == 1, "%s: identity reply view refused for %s", how, show(m).c_str());
        MC_CHECK(c, f == want, "%s: identity fields%s expected%s", how, f.str().c_str(), want.str().c_str());
        MC_CHECK(c, is_identity_reply(m) && !is_identity_request(m), "%s: classification", how);
    };
    one(make_identity_reply(manu, midi::uint14_t(fam), midi::uint14_t(mod), rev, u8(dev)), "make_identity_reply");
    one(identity_reply(manu, midi::uint14_t(fam), midi::uint14_t(mod), rev, u8(dev)), "identity_reply");
    if (dev == 0x7F)
    {
        midi::device_identity i; i.manufacturer = manu; i.family = midi::uint14_t(fam); i.model = midi::uint14_t(mod); i.revision = rev;
        one(make_identity_reply(i), "make_identity_reply(identity)");
        one(identity_reply(i), "identity_reply(identity)");
        one(make_identity_reply(manu, midi::uint14_t(fam), midi::uint14_t(mod), rev), "default device");
    }
}
MC_SECTION("C23", c23_reply_fields);
void c23_reply_fields::run(Ctx& c, Args a) { c.nontrivial(); c23_reply(c, u32(a[0]), u32(a[1]), u32(a[2]), u32(a[3]), u32(a[4])); c.outcome(mix(mix(a[0], a[1]), mix(a[2], mix(a[3], a[4])))); }
void c23_reply_fields::enumerate(Ctx& c)
{
    c.bound("identity replies: all 127 one-byte and all 16384 three-byte manufacturers, all 2^14 families and models, all values of every pair of 7-bit groups of the revision, all device ids; each on extreme and distinct values of the other fields");
    struct B { u32 m, f, o, r, d; };
    const B bases[] = { { 0x410000, 0, 0, 0, 0x7F }, { 0x410000, 0x3FFF, 0x3FFF, 0xFFFFFFF, 0x7F }, { 0x002109, 0x0102, 0x0283, 0x3040506, 0x10 }, { 0x000001, 0x2AAA, 0x1555, 0xAAAAAAA, 0 }, { 0x7F0000, 0x0080, 0x007F, 0x0204081, 0x7F } };
    for (auto& b : bases)
    {
        auto ex = [&](u32 m, u32 f, u32 o, u32 r, u32 d) { if (c.mine()) c.exec<c23_reply_fields>(m, f, o, r, d); };
        for (u32 v = 1; v < 128; ++v) ex(v << 16, b.f, b.o, b.r, b.d);
        for (u32 v = 0; v < 16384; ++v) ex((v >> 7) << 8 | (v & 127), b.f, b.o, b.r, b.d);
        for (u32 v = 0; v < 16384; ++v) { ex(b.m, v, b.o, b.r, b.d); ex(b.m, b.f, v, b.r, b.d); }
        for (u32 v = 0; v < 128; ++v) { ex(b.m, b.f, b.o, b.r, v); ex(0x002109, b.f, b.o, b.r, v); }
        for (int g = 0; g < 4; ++g)
            for (int h = g + 1; h < 4; ++h)
                for (u32 x = 0; x < 128; ++x)
                    for (u32 y = 0; y < 128; ++y) ex(b.m, b.f, b.o, (b.r & ~(127u << 7 * g) & ~(127u << 7 * h)) | x << 7 * g | y << 7 * h, b.d);
    }
}

MC_SECTION("C23", c23_request);
void c23_request::run(Ctx& c, Args a)
{
    using namespace midi::universal_sysex;
    c.nontrivial();
    const u8 dev = u8(a[0]);
    const Bytes e{ dev, 6, 1 };
    auto one = [&](const sysex7& m) {
        MC_CHECK(c, m.manufacturerID == 0x7E0000 && Bytes(m.data.begin(), m.data.end()) == e && m.is_valid(), "identity request %s", show(m).c_str());
        MC_CHECK(c, is_identity_request(m) && !is_identity_reply(m) && !as_identity_reply_view(m), "classification of %s", show(m).c_str());
    };
    one(make_identity_request(dev));
    one(identity_request(dev));
    const message m = make_identity_request(dev);
    MC_CHECK(c, m.device_id() == dev && m.type() == 0x7E06 && m.subtype() == 1, "message accessors");
    if (dev == 0x7F) { one(make_identity_request()); one(identity_request()); }
    for (u32 d2 = 0; d2 < 128; ++d2)
    {
        message n = m;
        n.set_device_id(u8(d2));
        MC_CHECK(c, n.device_id() == d2 && n.data.size() == 3 && n.data[1] == 6 && n.data[2] == 1, "set_device_id");
    }
}
void c23_request::enumerate(Ctx& c) { c.bound("identity requests: all device ids, edited to all device ids"); for (u64 d = 0; d < 128; ++d) if (c.mine()) c.exec<c23_request>(d); }

// arbitrary SysEx: classification functions and views
MC_SECTION("C23", c23_any);
static const u32 manus[] = { 0x7E0000, 0x7F0000, 0, 0x7D0000, 0x410000, 0x002109, 0x00007E, 0x007E00, 0x007F00, 0x7E0001 };
void c23_any::run(Ctx& c, Args a)
{
    using namespace midi;
    // a0 manufacturer, a1 sub id 1; all sub ids 2, lengths 0..16, third byte values
    const u32 manu = manus[a[0]];
    static Fields f, g;
    for (u32 s2 = 0; s2 < 128; ++s2)
        for (u32 n = 0; n <= 16; ++n)
            for (u32 d3 : { 0u, 1u, 0x7Fu })
            {
                Bytes b(n);
                for (u32 i = 0; i < n; ++i) b[i] = u8(i * 9 + 3);
                if (n > 0) b[0] = u8((s2 * 3 + n) & 0x7F);
                if (n > 1) b[1] = u8(a[1]);
                if (n > 2) b[2] = u8(s2);
                if (n > 3) b[3] = u8(d3);
                const auto sx = mk(manu, b.data(), n);
                const bool uni = (manu == 0x7E0000 || manu == 0x7F0000) && n >= 2;
                const u32  type = uni ? (manu >> 8) + u32(a[1]) : 0, sub = uni && n > 2 ? s2 : 0;
                MC_CHECK(c, is_universal_sysex_message(sx) == uni, "is_universal_sysex_message(%s)", show(sx).c_str());
                MC_CHECK(c, universal_sysex_type_of(sx) == type && universal_sysex_subtype_of(sx) == sub && universal_sysex_device_id_of(sx) == (uni ? b[0] : 0xFF), "type/subtype/device of %s", show(sx).c_str());
                MC_CHECK(c, universal_sysex::is_identity_request(sx) == (type == 0x7E06 && n > 2 && s2 == 1), "is_identity_request(%s)", show(sx).c_str());
                for (int k : { K_UNIVERSAL, K_CI, K_IDENTITY_REPLY })
                {
                    const int r = real::offer(k, f, sx, true);
                    MC_CHECK(c, (r == 1) == ref::offer(k, g, manu, b.data(), n) && r >= 0, "view %s of %s: %d", kind_name[k], show(sx).c_str(), r);
                    if (r == 1) MC_CHECK(c, f == g, "view %s of %s:%s expected%s", kind_name[k], show(sx).c_str(), f.str().c_str(), g.str().c_str());
                }
                // the message helper on the same content
                const universal_sysex::message m(manu, b.data(), n);
                MC_CHECK(c, m.device_id() == (n ? b[0] : 0xFF) && m.subtype() == (n > 2 ? s2 : 0), "message accessors of %s", show(sx).c_str());
                if (uni || n < 2) MC_CHECK(c, m.type() == type, "message type of %s", show(sx).c_str());
                c.nontrivial(uni);
            }
    c.st->evaluations += 128 * 17 * 3 - 1;
    c.outcome(a[0] << 8 | a[1]);
}
void c23_any::enumerate(Ctx& c)
{
    c.bound("arbitrary SysEx: 10 manufacturers x all 128 sub ids 1 x all 128 sub ids 2 x lengths 0..16 x third byte {0,1,7F}");
    for (u64 m = 0; m < 10; ++m)
        for (u64 s = 0; s < 128; ++s) if (c.mine()) c.exec<c23_any>(m, s);
}

// identity replies as received: lengths around the two valid ones, uniform fills, one or two positions replaced
MC_SECTION("C23", c23_reply_contents);
static const u8 c23_fill[] = { 0, 1, 0x40, 0x7F };
void c23_reply_contents::run(Ctx& c, Args a)
{
    // a0 length, a1 fill, a2 first position (from 3), a3 second position; all boundary values of both
    static Fields f, g;
    static const u8 vals[] = { 0, 1, 2, 3, 6, 7, 0x0F, 0x10, 0x20, 0x3F, 0x40, 0x41, 0x7D, 0x7E, 0x7F };
    const u32 n = u32(a[0]);
    u64 cnt = 0;
    for (u8 v1 : vals)
        for (u8 v2 : vals)
        {
            Bytes b(n, c23_fill[a[1]]);
            const u8 head[] = { 0x10, 6, 2 };
            for (u32 i = 0; i < 3 && i < n; ++i) b[i] = head[i];
            b[a[2]] = v1;
            b[a[3]] = v2;
            const auto sx = mk(0x7E0000, b.data(), n);
            const int  r  = real::offer(K_IDENTITY_REPLY, f, sx, true);
            MC_CHECK(c, (r == 1) == ref::offer(K_IDENTITY_REPLY, g, 0x7E0000, b.data(), n) && r >= 0, "identity reply view of %s: %d", show(sx).c_str(), r);
            if (r == 1) { c.nontrivial(); MC_CHECK(c, f == g, "identity reply %s:%s expected%s", show(sx).c_str(), f.str().c_str(), g.str().c_str()); }
            ++cnt;
        }
    c.st->evaluations += cnt - 1;
    c.outcome(a[0] << 12 | a[1] << 10 | a[2] << 5 | a[3]);
}
void c23_reply_contents::enumerate(Ctx& c)
{
    c.bound("identity replies as received: lengths 4..24 x fills {0,1,40,7F} x all pairs of positions x 15 x 15 boundary values");
    for (u64 n = 4; n <= 24; ++n)
        for (u64 fi = 0; fi < 4; ++fi)
            for (u64 p = 0; p < n; ++p)
                for (u64 q = p; q < n; ++q) if (c.mine()) c.exec<c23_reply_contents>(n, fi, p, q);
}

#if defined(__SANITIZE_THREAD__)
//---------------------------------------------------------------------------------------------------------------------
// C36: every pair of builders in two threads: build, read all views of the own and of a shared message
#include "two_threads.h"
MC_SECTION("C36", ci_threads);
static const sysex7& shared_message(u64 which)
{
    // plain content, not produced by the library: property data and profile lists
    static const sysex7 m[] = {
        [] { Bytes b = ci_head(0x10, 0x35, 2, 1, 2); b.push_back(5); p14(b, 2); b.push_back('{'); b.push_back('}'); p14(b, 1); p14(b, 1); p14(b, 3); for (u8 x : { 1, 2, 3 }) b.push_back(x); return mk(0x7E0000, b.data(), b.size()); }(),
        [] { Bytes b = ci_head(0x7F, 0x21, 2, 1, 2); p14(b, 1); for (u8 x : { 1, 2, 3, 4, 5 }) b.push_back(x); p14(b, 1); for (u8 x : { 6, 2, 3, 4, 5 }) b.push_back(x); return mk(0x7E0000, b.data(), b.size()); }() };
    return m[which];
}
void ci_threads::run(Ctx& c, Args a)
{
    shared_message(0); builders();
    bool same[2] = {};
    auto op = [&](int i) {
        const auto& b = builders()[a[i]];
        Call call;
        for (std::size_t k = 0; k < b.widths.size(); ++k)
        {
            const int w = b.widths[k];
            call.f.push_back(w == MANU ? 0x002109 : (0x0123456 + k * 0x11111 + u64(i) * 7) & (w < 0 ? 0xFF : (u64(1) << w) - 1));
        }
        if (b.a_max >= 0) call.a = content(b.b_max > 16383 ? 15 : 6, 2, b.text);
        if (b.b_max >= 0) call.b = content(5, 3, b.text);
        bool good = true;
        for (int n = 0; n < 2; ++n)
        {
            const Built r = b.make(call);
            Fields f;
            good = good && Bytes(r.msg.data.begin(), r.msg.data.end()) == r.expect && real::offer(r.kind, f, r.msg, true) == 1 && f == r.fields;
            for (int k = 0; k < K_COUNT; ++k)
            {
                Fields g;
                real::offer(k, f, r.msg, true);
                for (u64 m = 0; m < 2; ++m)
                {
                    const auto& sm = shared_message(m);
                    const bool o = real::offer(k, f, sm, true) == 1;
                    good = good && o == ref::offer(k, g, 0x7E0000, &sm.data[0], sm.data.size()) && (!o || f == g);
                }
            }
        }
        same[i] = good;
    };
    const int rc = in_two_threads([&] { op(0); }, [&] { op(1); }, [&] { return same[0] && same[1] ? 0 : 5; });
    MC_CHECK(c, rc != 66, "data race between %s and %s in two threads", builders()[a[0]].name, builders()[a[1]].name);
    MC_CHECK(c, rc == 0, "%s and %s in two threads: %s", builders()[a[0]].name, builders()[a[1]].name, rc == 5 ? "wrong results" : fmt("exit %d", rc).c_str());
    ++c.st->traces; c.st->transitions += 4;
    c.nontrivial();
    c.state(mix(a[0], a[1]) + 1);
    c.tick();
}
void ci_threads::enumerate(Ctx& c)
{
    const u64 n = builders().size();
    c.bound(fmt("every pair of %llu MIDI-CI builders on separate messages and a shared constant one, unsynchronised in two threads, happens-before race detection", (unsigned long long)n));
    for (u64 i = 0; i < n; ++i) for (u64 j = 0; j <= i; ++j) if (c.mine()) c.exec<ci_threads>(i, j);
}
#endif

//---------------------------------------------------------------------------------------------------------------------
// C27 (memory safety, hostile content) and C28 (kind and completeness, 7-bit content) share their enumerations.

static void examine(Ctx& c, u32 manu, const Bytes& b, bool seven)
{
    static Fields f, g;
    const auto sx = mk(manu, b.data(), b.size());
    bool any = false;
    for (int k = 0; k < K_COUNT; ++k)
    {
        const int r = real::offer(k, f, sx, seven);
        MC_CHECK(c, f.bad.empty(), "view %s of %s: %s", kind_name[k], show(sx).c_str(), f.bad.c_str());
        any |= r == 1;
        if (!seven) continue;
        const bool o = ref::offer(k, g, manu, b.data(), b.size());
        MC_CHECK(c, r >= 0, "routes to view %s disagree on %s", kind_name[k], show(sx).c_str());
        MC_CHECK(c, (r == 1) == o, "view %s %s for %s", kind_name[k], r == 1 ? "offered" : "refused", show(sx).c_str());
        if (o) MC_CHECK(c, f == g, "view %s of %s reads%s expected%s", kind_name[k], show(sx).c_str(), f.str().c_str(), g.str().c_str());
    }
    if (!seven)
    {
        using namespace midi;
        volatile u32 sink = universal_sysex_type_of(sx) + universal_sysex_subtype_of(sx) + universal_sysex_device_id_of(sx) +
                            universal_sysex::is_identity_request(sx) + universal_sysex::is_identity_reply(sx) + sx.is_valid() + u32(sx.total_data_size());
        const universal_sysex::message m(manu, b.data(), b.size());
        sink = sink + m.device_id() + m.type() + m.subtype();
    }
    c.nontrivial(any);
    ++c.st->transitions;
}
static bool seven_of(const Ctx& c) { return c.property == "C28"; }

static const u8 subs[] = { 0x70, 0x71, 0x72, 0x73, 0x7D, 0x7E, 0x7F, 0x20, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2F,
                           0x30, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3F, 0x40, 0x41, 0x42, 0x43, 0x44 };
static const u64 nsubs = sizeof(subs);

static Bytes raw(u64 len, u8 fill, u8 d1, u8 sub, u8 ver)
{
    Bytes b(len, fill);
    if (len > 0) b[0] = 0x7F;
    if (len > 1) b[1] = d1;
    if (len > 2) b[2] = sub;
    if (len > 3) b[3] = ver;
    return b;
}

// headers: all sub ids, versions, manufacturers, short lengths
MC_SECTION("C27,C28", cx_heads);
void cx_heads::run(Ctx& c, Args a)
{
    // a0 manufacturer a1 d1 a2 sub a3 fill
    const bool s = seven_of(c);
    for (u64 len = 0; len <= 42; ++len)
        for (u32 ver : { 0u, 1u, 2u, 3u, 0x7Fu, 0xFFu })
        {
            if (s && ver > 0x7F) continue;
            examine(c, manus[a[0]], raw(len, u8(a[3]), u8(a[1]), u8(a[2]), u8(ver)), s);
            c.tick();
        }
    c.st->evaluations += 43 * (s ? 5 : 6) - 1;
    c.outcome(mix(mix(a[0], a[1]), a[2]));
}
void cx_heads::enumerate(Ctx& c)
{
    const bool s = seven_of(c);
    c.bound("headers: 10 manufacturers x sub id 1 {0D,06,0C,0} x all sub ids 2 x versions x lengths 0..42 x fills");
    for (u64 m = 0; m < 10; ++m)
        for (u64 d1 : { 0x0D, 0x06, 0x0C, 0x00 })
            for (u64 sub = 0; sub < (s ? 128u : 256u); ++sub)
                for (u64 fill : { 0, 1, 0x7F, 0xFF })
                    if (!(s && fill > 0x7F) && (m < 2 || fill == 0))
                        if (c.mine()) c.exec<cx_heads>(m, d1, sub, fill);
}

// every pair of payload bytes set to small / extreme values
MC_SECTION("C27,C28", cx_pairs);
void cx_pairs::run(Ctx& c, Args a)
{
    // a0 sub, a1 version, a2 length, a3 fill
    const bool s = seven_of(c);
    static const u8 vals[] = { 1, 2, 3, 5, 0x7F, 0x80, 0xFF };
    const int nv = s ? 5 : 7;
    const u64 last = std::min<u64>(a[2], 30);
    const Bytes base = raw(a[2], u8(a[3]), 0x0D, u8(a[0]), u8(a[1]));
    for (u64 p = 12; p < last; ++p)
        for (int i = 0; i < nv; ++i)
        {
            Bytes b = base;
            b[p] = vals[i];
            examine(c, 0x7E0000, b, s);
            for (u64 q = p + 1; q < std::min<u64>(last, p + 8); ++q)
                for (int j = 0; j < nv; ++j)
                {
                    const u8 keep = b[q];
                    b[q] = vals[j];
                    examine(c, 0x7E0000, b, s);
                    b[q] = keep;
                    ++c.st->evaluations;
                }
            c.tick();
        }
    c.outcome(mix(mix(a[0], a[1]), a[2]));
}
void cx_pairs::enumerate(Ctx& c)
{
    const u64 top = c.thorough ? 60 : c.mid ? 48 : 40;
    c.bound(fmt("payload bytes: 34 sub ids x 4 versions x lengths 12..%d x every pair of payload bytes (positions 12..29, distance < 8) set to every combination of 5 (7 with 8-bit) extreme values, on fills 0, 1 and 7F", int(top)));
    for (u64 i = 0; i < nsubs; ++i)
        for (u64 v : { 1, 2, 0, 0x7F })
            for (u64 len = 12; len <= top; ++len)
                for (u64 fill : { 0, 1, 0x7F })
                    if (!c.thorough && fill && v != 2) continue; else
                    if (c.mine()) c.exec<cx_pairs>(subs[i], v, len, fill);
}

// length fields close to the real size: a 14-bit number at every payload position, declared size = real size +- k
MC_SECTION("C27,C28", cx_border);
void cx_border::run(Ctx& c, Args a)
{
    const bool s = seven_of(c);
    const u64 len = a[2];
    Bytes b = raw(len, 0, 0x0D, u8(a[0]), u8(a[1]));
    for (u64 i = 16; i < len; ++i) b[i] = u8((i * 7) & 0x3F);
    for (u64 p = 12; p < 22 && p + 1 < len; ++p)
        for (u64 k = 0; k <= 26; ++k)
            for (u64 div : { 1, 5 })
            {
                if (len - 12 + 2 < k) continue;
                const u64 v = (len - 12 + 2 - k) / div;
                Bytes d = b;
                for (u64 z = 12; z < 22 && z < len; ++z) d[z] = 0;
                d[p] = u8(v & 0x7F); d[p + 1] = u8(v >> 7 & 0x7F);
                examine(c, 0x7E0000, d, s);
                ++c.st->evaluations;
            }
    c.tick();
    c.outcome(mix(mix(a[0], a[1]), a[2]));
}
void cx_border::enumerate(Ctx& c)
{
    const u64 top = c.thorough ? 700 : c.mid ? 300 : 160;
    c.bound(fmt("length fields: 34 sub ids x versions 1,2 x lengths 12..%d x a 14-bit count at every payload position declaring (real size - k) bytes or 5-byte entries, k = -2..24", int(top)));
    for (u64 i = 0; i < nsubs; ++i)
        for (u64 v : { 1, 2 })
            for (u64 len = 12; len <= top; ++len)
                if (c.mine()) c.exec<cx_border>(subs[i], v, len);
}

// does the kind accept messages with this sub id at all (header views aside)?
static bool kind_takes(int k, u8 sub)
{
    static signed char t[K_COUNT][256];
    if (k == K_UNIVERSAL || k == K_CI || k == K_IDENTITY_REPLY) return false;
    if (!t[k][sub]) { Fields g; const Bytes b = raw(64, 0, 0x0D, sub, 2); t[k][sub] = ref::offer(k, g, 0x7E0000, b.data(), b.size()) ? 1 : -1; }
    return t[k][sub] > 0;
}

// length fields: every 14-bit number at every payload position of short messages (sizes computed from it may wrap)
MC_SECTION("C27,C28", cx_counts);
void cx_counts::run(Ctx& c, Args a)
{
    // a0 sub, a1 length, a2 position, a3 second position (0: none): the same number there
    const bool s = seven_of(c);
    static Fields f, g;
    Bytes b = raw(a[1], 0, 0x0D, u8(a[0]), 2);
    for (u64 v = 0; v < 16384; ++v)
    {
        b[a[2]] = u8(v & 0x7F); b[a[2] + 1] = u8(v >> 7);
        const auto sx = mk(0x7E0000, b.data(), b.size());
        for (int k = 0; k < K_COUNT; ++k)
        {
            if (!kind_takes(k, u8(a[0]))) continue;
            const int r = real::offer(k, f, sx, s);
            MC_CHECK(c, f.bad.empty(), "view %s of %s: %s", kind_name[k], show(sx).c_str(), f.bad.c_str());
            if (r == 1) c.nontrivial();
            if (!s) continue;
            const bool o = ref::offer(k, g, 0x7E0000, b.data(), b.size());
            MC_CHECK(c, r >= 0 && (r == 1) == o && (!o || f == g), "view %s of %s: %d expected %d:%s expected%s", kind_name[k], show(sx).c_str(), r, int(o), f.str().c_str(), g.str().c_str());
        }
        if (v % 64 == 0) c.tick();
    }
    c.st->transitions += 16384;
    c.st->evaluations += 16383;
    c.outcome(mix(mix(a[0], a[1]), a[2]));
}
void cx_counts::enumerate(Ctx& c)
{
    c.bound(fmt("length fields: 34 sub ids x lengths %s x all 16384 values at every payload position", c.mid ? "14..40" : "16, 21, 26, 33"));
    for (u64 i = 0; i < nsubs; ++i)
        for (u64 len = 14; len <= 40; ++len)
        {
            if (!c.mid && len != 16 && len != 21 && len != 26 && len != 33) continue;
            for (u64 p = 12; p + 1 < len && p < 26; ++p) if (c.mine()) c.exec<cx_counts>(subs[i], len, p);
        }
}

// nested length fields: property data (header, body) and profile lists (enabled, disabled)
MC_SECTION("C27,C28", cx_nested);
void cx_nested::run(Ctx& c, Args a)
{
    const bool s = seven_of(c);
    if (a[0] != 0x21)
    {
        // a0 sub, a1 header size, a2 body size
        for (u64 num = 0; num < 4; ++num)
            for (u64 cur = 0; cur < 4; ++cur)
                for (int delta = -10; delta <= 3; ++delta)
                {
                    Bytes b = ci_head(0x10, a[0], 2, 0x1234567, 0x7654321 & 0xFFFFFFF);
                    b.push_back(5); p14(b, a[1]);
                    for (u64 i = 0; i < a[1]; ++i) b.push_back(u8(0x20 + i % 64));
                    p14(b, num); p14(b, cur); p14(b, a[2]);
                    for (u64 i = 0; i < a[2]; ++i) b.push_back(u8(0x40 + i % 60));
                    b.resize(std::max<int>(0, int(b.size()) + delta), 0x11);
                    examine(c, 0x7E0000, b, s);
                    ++c.st->evaluations;
                }
    }
    else
    {
        for (int delta = -12; delta <= 6; ++delta)
        {
            Bytes b = ci_head(0x7F, 0x21, 2, 1, 2);
            p14(b, a[1]); for (u64 i = 0; i < a[1] * 5; ++i) b.push_back(u8(0x10 + i % 100));
            p14(b, a[2]); for (u64 i = 0; i < a[2] * 5; ++i) b.push_back(u8(0x70 - i % 100));
            b.resize(std::max<int>(0, int(b.size()) + delta), 0x11);
            examine(c, 0x7E0000, b, s);
            ++c.st->evaluations;
        }
    }
    c.tick();
    c.outcome(mix(mix(a[0], a[1]), a[2]));
}
void cx_nested::enumerate(Ctx& c)
{
    const u64 big = c.thorough ? 140 : c.mid ? 40 : 24;
    c.bound(fmt("nested counts: 8 property data sub ids x header sizes 0..%d x body sizes 0..%d (and around 128) x chunk numbers 0..3 each x 14 truncations / extensions; profile lists 0..40 x 0..40 x 19 truncations / extensions", int(big), int(big)));
    for (u64 sub : { 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3F, 0x3A })
        for (u64 h = 0; h <= big + 6; ++h)
            for (u64 b = 0; b <= big + 6; ++b)
                if (c.mine()) c.exec<cx_nested>(sub, h > big ? 124 + (h - big) : h, b > big ? 124 + (b - big) : b);
    for (u64 e = 0; e <= 40; ++e)
        for (u64 d = 0; d <= 40; ++d)
            if (c.mine()) c.exec<cx_nested>(0x21, e, d);
}

// every message the library builds: cut at every length, and every single byte replaced
MC_SECTION("C27,C28", cx_mutate);
static Bytes built_bytes(u64 which, u64 pat)
{
    if (which < builders().size())
    {
        const auto& b = builders()[which];
        Call call;
        for (std::size_t i = 0; i < b.widths.size(); ++i) call.f.push_back(pattern(b.widths[i], i, int(pat)));
        if (b.a_max >= 0) call.a = content(10, int(pat), b.text);
        if (b.b_max >= 0) call.b = content(15, int(pat), b.text);
        const auto m = b.make(call).msg;
        return Bytes(m.data.begin(), m.data.end());
    }
    const auto m = which == builders().size() ? midi::universal_sysex::make_identity_request()
                 : midi::universal_sysex::make_identity_reply(which == builders().size() + 1 ? 0x410000 : 0x002109, midi::uint14_t(pat * 999), midi::uint14_t(pat * 1234), u32(pat * 1234567));
    return Bytes(m.data.begin(), m.data.end());
}
void cx_mutate::run(Ctx& c, Args a)
{
    // a0 message, a1 pattern, a2 length after cutting
    const bool s = seven_of(c);
    Bytes b = built_bytes(a[0], a[1]);
    if (a[2] > b.size()) b.resize(a[2], 0x2A); else b.resize(a[2]);
    examine(c, 0x7E0000, b, s);
    for (u32 m : { 0x7F0000u, 0u, 0x410000u, 0x00210Du }) examine(c, m, b, s);
    c.st->evaluations += 4;
    for (std::size_t i = 0; i < b.size(); ++i)
    {
        const u8 keep = b[i];
        // full sweep of the header and of bytes close to the end of the cut message, extreme values elsewhere
        const bool full = i < 4 || i + 3 > b.size() || (i >= 12 && i < 26);
        for (u32 v = 0; v < (s ? 128u : 256u); v += full ? 1 : (s ? 127 : 51))
        {
            b[i] = u8(v);
            examine(c, 0x7E0000, b, s);
            ++c.st->evaluations;
        }
        b[i] = keep;
        c.tick();
    }
    c.outcome(fnv(b.data(), b.size()));
}
void cx_mutate::enumerate(Ctx& c)
{
    c.bound("mutations: every message of every builder of the library (54 builders, field patterns zero / distinct / all ones), cut at every length or extended by 1..3 bytes, with every single byte replaced by every value (header, fixed fields and last bytes: all values; inside variable parts: extremes)");
    for (u64 w = 0; w < builders().size() + 3; ++w)
        for (u64 p = 0; p < 3; ++p)
        {
            if (!c.mid && p == 1) continue;
            const auto n = built_bytes(w, p).size();
            for (u64 l = 0; l <= n + 3; ++l)
                if (c.mine()) c.exec<cx_mutate>(w, p, l);
        }
}

//---------------------------------------------------------------------------------------------------------------------
// C30: editing the routing fields of MIDI-CI messages

MC_SECTION("C30", c30_ci);
void c30_ci::run(Ctx& c, Args a)
{
    // a0 builder, a1 pattern, a2 field, a3 block of 2^16 values
    using namespace midi;
    const auto base = built_bytes(a[0], a[1]);
    c.nontrivial();
    ci::message m(0x20, 0, 0);
    m.data.assign(base.begin(), base.end());
    const auto keep = m;
    if (a[2] == 2)
    {
        for (u32 v = 0; v < 128; ++v)
        {
            m = keep;
            m.set_device_id(u8(v));
            Bytes e = base; e[0] = u8(v);
            MC_CHECK(c, m.manufacturerID == 0x7E0000 && Bytes(m.data.begin(), m.data.end()) == e && m.device_id() == v, "set_device_id(%x) of %s gives %s", v, hex(base).c_str(), show(m).c_str());
        }
        c.st->evaluations += 127;
        return;
    }
    const std::size_t off = a[2] == 0 ? 4 : 8;
    Bytes e = base;
    for (u64 k = 0; k < 65536; ++k)
    {
        const u32 v = u32(a[3] << 16 | k);
        if (a[2] == 0) m.set_source_muid(v); else m.set_destination_muid(v);
        u32 x = v;
        for (int i = 0; i < 4; ++i) { e[off + i] = u8(x % 128); x /= 128; }
        MC_CHECK(c, m.data.size() == e.size() && memcmp(m.data.data(), e.data(), e.size()) == 0, "set muid %x: %s expected %s", v, show(m).c_str(), hex(e).c_str());
        MC_CHECK(c, m.source_muid() == (a[2] == 0 ? v : keep.source_muid()) && m.destination_muid() == (a[2] == 1 ? v : keep.destination_muid()), "muids after setting %x", v);
    }
    MC_CHECK(c, m.manufacturerID == 0x7E0000, "manufacturer");
    c.st->evaluations += 65535;
    c.outcome(mix(a[0], a[1] << 8 | a[2]));
}
void c30_ci::enumerate(Ctx& c)
{
    c.bound("MIDI-CI: messages of every builder x 3 patterns x all device ids and structured MUIDs; all 2^28 source and destination MUIDs on two messages");
    for (u64 w = 0; w < builders().size(); ++w)
        for (u64 p = 0; p < 3; ++p)
        {
            if (c.mine()) c.exec<c30_ci>(w, p, 2, 0);
            for (u64 f = 0; f < 2; ++f)
                for (u64 blk : { 0x000, 0x001, 0x123, 0xFFF, 0x800, 0x7FF })
                    if (c.mine()) c.exec<c30_ci>(w, p, f, blk);
        }
    for (u64 w : { 0, 7 })
        for (u64 f = 0; f < 2; ++f)
            for (u64 blk = 0; blk < 4096; ++blk)
                if (c.mine()) c.exec<c30_ci>(w, 2, f, blk);
}

int main(int argc, char** argv) { return mc::main_(argc, argv); }
