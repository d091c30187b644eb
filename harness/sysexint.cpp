// C29: 7-bit integer encoding helpers of sysex7.
#include "mc.h"
#include <midi/sysex.h>

using namespace mc;
using midi::sysex7;
using Bytes = std::vector<u8>;

static void groups(Bytes& b, u64 v, int n) { for (int i = 0; i < n; ++i) { b.push_back(u8(v % 128)); v /= 128; } }
static Bytes bytes(const sysex7& s) { return Bytes(s.data.begin(), s.data.end()); }

// all values, at one position after a fixed prefix
MC_SECTION("C29", c29_values);
void c29_values::run(Ctx& c, Args a)
{
    // a0: 7, 14, 28 or 32 bits; a1: block of 2^20 values; a2: prefix length
    c.nontrivial();
    const int   n = a[0] == 7 ? 1 : a[0] == 14 ? 2 : a[0] == 28 ? 4 : 5;
    const u64   pre = a[2];
    const u64   lo = a[1] << 20, hi = std::min<u64>(lo + (1 << 20), u64(1) << a[0]);
    sysex7 s(0x002109, 64);
    for (u64 i = 0; i < pre; ++i) s.data.push_back(u8(0x55 ^ i));
    const Bytes prefix = bytes(s);
    for (u64 v = lo; v < hi; ++v)
    {
        u32 x = u32(v);
        asm volatile("" : "+r"(x));
        s.data.resize(pre);
        u64 back = 0;
        switch (n)
        {
        case 1: s.add_uint7(u8(x)); back = s.data.back(); break;
        case 2: s.add_uint14(midi::uint14_t(x)); back = s.make_uint14(pre); break;
        case 4: s.add_uint28(x); back = s.make_uint28(pre); break;
        default: s.add_uint32(x); back = s.make_uint32(pre);
        }
        bool ok = s.data.size() == pre + n && back == v;
        u64  w = v;
        for (int i = 0; ok && i < n; ++i) { ok = s.data[pre + i] == (w & 127); w >>= 7; }
        MC_CHECK(c, ok, "%d bit value %llx appended as %s, read back %llx", int(a[0]), (unsigned long long)v, hex(bytes(s)).c_str(), (unsigned long long)back);
        if ((v & 0xFFFF) == 0) c.tick();
    }
    const Bytes b = bytes(s);
    MC_CHECK(c, std::equal(prefix.begin(), prefix.end(), b.begin()) && s.manufacturerID == 0x002109 && s.is_valid(), "prefix damaged");
    c.st->evaluations += hi - lo - 1;
    c.outcome(mix(a[0], a[1]));
}
void c29_values::enumerate(Ctx& c)
{
    c.bound("all 2^7, 2^14, 2^28 and 2^32 values appended and read back; 7 and 14 bit values and 28/32 bit blocks at prefix lengths 0..20");
    for (u64 p = 0; p <= 20; ++p)
    {
        if (c.mine()) c.exec<c29_values>(7, 0, p);
        if (c.mine()) c.exec<c29_values>(14, 0, p);
        for (u64 b : { 0, 255, 129 }) if (c.mine()) c.exec<c29_values>(28, b, p);
        for (u64 b : { 0, 4095, 2064, 2048 }) if (c.mine()) c.exec<c29_values>(32, b, p);
    }
    for (u64 b = 0; b < 256; ++b) if (c.mine()) c.exec<c29_values>(28, b, 3);
    for (u64 b = 0; b < 4096; ++b) if (c.mine()) c.exec<c29_values>(32, b, 3);
}

// reading depends on exactly the bytes at the position
MC_SECTION("C29", c29_positions);
void c29_positions::run(Ctx& c, Args a)
{
    // a0 length, a1 position, a2 fill
    c.nontrivial();
    Bytes b(a[0]);
    for (u64 i = 0; i < a[0]; ++i) b[i] = u8(a[2] == 0 ? 0 : a[2] == 1 ? 0x7F : (i * 29 + 17) & 0x7F);
    const u64 p = a[1];
    auto val = [&](int n) { u64 v = 0; for (int i = n; i-- > 0;) v = v * 128 + b[p + i]; return v; };
    for (u64 pos = 0; pos < a[0]; ++pos)
        for (u32 x = 0; x < 128; ++x)
        {
            const u8 keep = b[pos];
            b[pos] = u8(x);
            const sysex7 s(0x410000, b.data(), b.size());
            if (p + 2 <= a[0]) MC_CHECK(c, s.make_uint14(p) == val(2), "make_uint14(%d) of %s", int(p), hex(b).c_str());
            if (p + 4 <= a[0]) MC_CHECK(c, s.make_uint28(p) == val(4), "make_uint28(%d) of %s", int(p), hex(b).c_str());
            if (p + 5 <= a[0] && b[p + 4] < 16) MC_CHECK(c, s.make_uint32(p) == val(5), "make_uint32(%d) of %s", int(p), hex(b).c_str());
            if (p + 11 <= a[0])
            {
                const auto i = s.make_device_identity(p);
                auto v = [&](u64 o, int n) { u64 r = 0; for (int k = n; k-- > 0;) r = r * 128 + b[p + o + k]; return r; };
                MC_CHECK(c, i.manufacturer == (u32(b[p]) << 16 | u32(b[p + 1]) << 8 | b[p + 2]) && i.family == v(3, 2) && i.model == v(5, 2) && i.revision == v(7, 4), "make_device_identity(%d) of %s", int(p), hex(b).c_str());
            }
            MC_CHECK(c, bytes(s) == b, "reading changed the message");
            b[pos] = keep;
            ++c.st->evaluations;
        }
    c.outcome(mix(mix(a[0], a[1]), a[2]));
}
void c29_positions::enumerate(Ctx& c)
{
    c.bound("reads at every position of messages of 2..24 bytes, every single byte set to every 7-bit value, 3 fills");
    for (u64 n = 2; n <= 24; ++n)
        for (u64 p = 0; p + 1 < n; ++p)
            for (u64 f = 0; f < 3; ++f) if (c.mine()) c.exec<c29_positions>(n, p, f);
}

MC_SECTION("C29", c29_identity);
void c29_identity::run(Ctx& c, Args a)
{
    // a0 field, a1 block, a2 base
    c.nontrivial();
    static const u32 base[3][4] = { { 0, 0, 0, 0 }, { 0x7F7F7F, 0x3FFF, 0x3FFF, 0xFFFFFFF }, { 0x002109, 0x0102, 0x2A55, 0x3040506 } };
    sysex7 s(0x7E0000, 64);
    s.add_uint7(0x33);
    for (u64 k = 0; k < 16384; ++k)
    {
        u32 f[4]; memcpy(f, base[a[2]], sizeof(f));
        const u32 v = u32(a[1] * 16384 + k);
        f[a[0]] = a[0] == 0 ? (v >> 14 & 127) << 16 | (v >> 7 & 127) << 8 | (v & 127) : v;
        midi::device_identity i; i.manufacturer = f[0]; i.family = midi::uint14_t(f[1]); i.model = midi::uint14_t(f[2]); i.revision = f[3];
        s.data.resize(1);
        s.add_device_identity(i);
        Bytes e{ 0x33, u8(f[0] >> 16), u8(f[0] >> 8), u8(f[0]) };
        groups(e, f[1], 2); groups(e, f[2], 2); groups(e, f[3], 4);
        MC_CHECK(c, bytes(s) == e && s.is_valid(), "identity %x %x %x %x: %s expected %s", f[0], f[1], f[2], f[3], hex(bytes(s)).c_str(), hex(e).c_str());
        const auto r = s.make_device_identity(1);
        MC_CHECK(c, r.manufacturer == f[0] && r.family == f[1] && r.model == f[2] && r.revision == f[3], "identity %x %x %x %x read back", f[0], f[1], f[2], f[3]);
    }
    c.tick();
    c.st->evaluations += 16383;
    c.outcome(mix(a[0], a[1]));
}
void c29_identity::enumerate(Ctx& c)
{
    c.bound("device identities: all 2^21 manufacturers, all families and models, 2^28 revisions (thorough: all; quick: all with one of the two upper groups 0 or 7F)");
    for (u64 b = 0; b < 3; ++b)
    {
        for (u64 k = 0; k < 128; ++k) if (c.mine()) c.exec<c29_identity>(0, k, b);
        if (c.mine()) c.exec<c29_identity>(1, 0, b);
        if (c.mine()) c.exec<c29_identity>(2, 0, b);
        for (u64 k = 0; k < 16384; ++k)
        {
            const u64 h = k >> 7, l = k & 127;
            if (c.thorough || ((h == 0 || h == 127 || l == 0 || l == 127) && b == 2)) { if (c.mine()) c.exec<c29_identity>(3, k, b); }
        }
    }
}

// sequences of appends: depth-bounded exploration against a byte vector
MC_SECTION("C29", c29_sequences);
struct Op { int kind; u64 v; };
static std::vector<Op> ops()
{
    std::vector<Op> o;
    for (u64 v : { 0x00, 0x7F, 0x2A }) o.push_back({ 7, v });
    for (u64 v : { 0x0000, 0x3FFF, 0x0080, 0x2A55 }) o.push_back({ 14, v });
    for (u64 v : { 0x0, 0xFFFFFFF, 0x1234567, 0x0204080 }) o.push_back({ 28, v });
    for (u64 v : { 0x0ull, 0xFFFFFFFFull, 0x89ABCDEFull, 0x10204081ull }) o.push_back({ 32, v });
    for (u64 v : { 0, 1 }) o.push_back({ 100, v });                 // identities
    for (u64 v : { 1, 2, 7 }) o.push_back({ 200, v });              // raw data
    return o;
}
void c29_sequences::run(Ctx& c, Args a)
{
    static const auto al = ops();
    c.nontrivial(a.n > 1);
    sysex7 s(0x002109);
    Bytes  e;
    struct W { u64 pos; Op op; };
    std::vector<W> w;
    for (std::size_t k = 0; k < a.n; ++k)
    {
        const Op op = al[a[k]];
        w.push_back({ e.size(), op });
        switch (op.kind)
        {
        case 7: s.add_uint7(u8(op.v)); groups(e, op.v, 1); break;
        case 14: s.add_uint14(midi::uint14_t(op.v)); groups(e, op.v, 2); break;
        case 28: s.add_uint28(u32(op.v)); groups(e, op.v, 4); break;
        case 32: s.add_uint32(u32(op.v)); groups(e, op.v, 5); break;
        case 100:
        {
            midi::device_identity i;
            i.manufacturer = op.v ? 0x412109 : 0x00007F; i.family = op.v ? 0x3FFF : 0x0081; i.model = op.v ? 0x2A55 : 1; i.revision = op.v ? 0xFFFFFFF : 0x0204081;
            s.add_device_identity(i);
            groups(e, u64(i.manufacturer >> 16), 1); groups(e, u64(i.manufacturer >> 8 & 0x7F), 1); groups(e, u64(i.manufacturer & 0x7F), 1);
            groups(e, i.family, 2); groups(e, i.model, 2); groups(e, i.revision, 4);
            break;
        }
        default:
        {
            Bytes d;
            for (u64 i = 0; i < op.v; ++i) d.push_back(u8(0x70 + i));
            s.add_data(d.data(), d.size());
            e.insert(e.end(), d.begin(), d.end());
        }
        }
        ++c.st->transitions;
        MC_CHECK(c, bytes(s) == e, "after %zu appends: %s expected %s", k + 1, hex(bytes(s)).c_str(), hex(e).c_str());
        MC_CHECK(c, s.is_valid() && s.is_7bit() && !s.is_8bit() && s.total_data_size() == e.size() + 3 && !s.empty(), "validity / size after %zu appends", k + 1);
        for (auto& x : w)
        {
            u64 r = x.op.v;
            if (x.op.kind == 14) r = s.make_uint14(x.pos);
            if (x.op.kind == 28) r = s.make_uint28(x.pos);
            if (x.op.kind == 32) r = s.make_uint32(x.pos);
            MC_CHECK(c, r == x.op.v, "%d bit value %llx at %d reads %llx", x.op.kind, (unsigned long long)x.op.v, int(x.pos), (unsigned long long)r);
        }
        c.state(fnv(e.data(), e.size()));
    }
    ++c.st->traces;
    c.outcome(fnv(e.data(), e.size()));
}
void c29_sequences::enumerate(Ctx& c)
{
    const int depth = c.thorough ? 5 : 4;
    const u64 n = ops().size();
    c.bound(fmt("all sequences of up to %d appends over %d operations", depth, int(n)));
    std::vector<u64> v;
    std::function<void()> rec = [&] {
        if (!v.empty() && c.mine()) c.exec_vec<c29_sequences>(v);
        if (int(v.size()) == depth) return;
        for (u64 i = 0; i < n; ++i) { v.push_back(i); rec(); v.pop_back(); }
    };
    rec();
}

// far positions: append after and read at long prefixes
MC_SECTION("C29", c29_far);
void c29_far::run(Ctx& c, Args a)
{
    // a0 prefix length, a1 bits, a2 value
    const int n = a[1] == 7 ? 1 : a[1] == 14 ? 2 : a[1] == 28 ? 4 : a[1] == 32 ? 5 : 11;
    Bytes e;
    for (u64 i = 0; i < a[0]; ++i) e.push_back(u8((i * 31 + (i >> 8) + 5) & 0x7F));
    sysex7 s(0x7E0000, e.data(), e.size());
    midi::device_identity id;
    id.manufacturer = 0x412109; id.family = midi::uint14_t(a[2] & 0x3FFF); id.model = 0x2A55; id.revision = u32(a[2] & 0xFFFFFFF);
    switch (n)
    {
    case 1: s.add_uint7(u8(a[2])); break;
    case 2: s.add_uint14(midi::uint14_t(a[2])); break;
    case 4: s.add_uint28(u32(a[2])); break;
    case 5: s.add_uint32(u32(a[2])); break;
    default: s.add_device_identity(id);
    }
    if (n < 11) groups(e, a[2], n);
    else { e.push_back(0x41); e.push_back(0x21); e.push_back(0x09); groups(e, id.family, 2); groups(e, id.model, 2); groups(e, id.revision, 4); }
    MC_CHECK(c, bytes(s) == e, "%d bit value %llx appended after %d bytes", int(a[1]), (unsigned long long)a[2], int(a[0]));
    s.add_uint7(0x11); // something behind it
    const u64 pos = a[0];
    switch (n)
    {
    case 2: MC_CHECK(c, s.make_uint14(pos) == a[2], "14 bit value at %d", int(pos)); break;
    case 4: MC_CHECK(c, s.make_uint28(pos) == a[2], "28 bit value at %d", int(pos)); break;
    case 5: MC_CHECK(c, s.make_uint32(pos) == a[2], "32 bit value at %d", int(pos)); break;
    case 11: { const auto r = s.make_device_identity(pos); MC_CHECK(c, r.manufacturer == id.manufacturer && r.family == id.family && r.model == id.model && r.revision == id.revision, "identity at %d", int(pos)); }
    }
    c.nontrivial(); ++c.st->traces; c.outcome(fnv(e.data() + a[0], e.size() - a[0]));
}
void c29_far::enumerate(Ctx& c)
{
    c.bound("every prefix length 0..700 and around 1024 .. 2^20, edge values of every width and identities appended and read back");
    std::vector<u64> pre;
    for (u64 i = 0; i <= 700; ++i) pre.push_back(i);
    for (u64 p : { 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 1 << 20 }) for (u64 d = 0; d < 12; ++d) pre.push_back(p - 6 + d);
    for (auto p : pre)
    {
        if (!c.mine()) continue;
        for (u64 w : { 7, 14, 28, 32, 100 })
            for (u64 v : { 0x0ull, 0xFFFFFFFFull, 0x89ABCDEFull, 0x10204081ull, 0x55555555ull, 0x80ull, 0x4000ull })
                c.exec<c29_far>(p, w, w == 100 ? v : v & ((u64(1) << w) - 1));
    }
}

//---------------------------------------------------------------------------------------------------------------------
// C37: queries and comparison of SysEx messages of every content
static void queries(Ctx& c, u32 man, const Bytes& b, bool seven)
{
    const sysex7       s(man, b.data(), b.size());
    const midi::sysex8 t(man, b.data(), b.size());
    const bool valid_man = (man & 0xFF808080) == 0;
    MC_CHECK(c, s.is_7bit() == seven && s.is_8bit() == !seven && t.is_7bit() == seven && t.is_8bit() == !seven, "7/8 bit of %zu bytes", b.size());
    MC_CHECK(c, s.is_valid() == (seven && valid_man), "is_valid of manufacturer %06X, %zu bytes", man, b.size());
    MC_CHECK(c, s.empty() == (man == 0 && b.empty()) && t.empty() == s.empty(), "empty()");
    const std::size_t total = b.size() + (man == 0 ? 0 : (man & 0xFF0000) ? 1 : 3);
    MC_CHECK(c, man > 0xFFFFFF || (s.total_data_size() == total && t.total_data_size() == total), "total_data_size() %zu of manufacturer %06X and %zu bytes", s.total_data_size(), man, b.size());
}
MC_SECTION("C37", c37_content);
void c37_content::run(Ctx& c, Args a)
{
    // a0 length, a1 fill, a2/a3 position and value, a4/a5 second position and value, a6 manufacturer
    static const u8 fill[] = { 0, 0x7F, 0x80, 0xFF, 0x33 };
    Bytes b(a[0], fill[a[1]]);
    if (a[2] < b.size()) b[a[2]] = u8(a[3]);
    if (a[4] < b.size()) b[a[4]] = u8(a[5]);
    bool seven = true;
    for (auto x : b) if (x >= 0x80) seven = false;
    queries(c, u32(a[6]), b, seven);
    if (!b.empty()) c.nontrivial();
    c.outcome(mix(mix(a[0], seven), a[2]));
}
void c37_content::enumerate(Ctx& c)
{
    const u64 top = c.thorough ? 700 : 300, pairs = c.thorough ? 40 : 20;
    c.bound(fmt("SysEx contents of 0..%d bytes (and around 1024 .. 2^17), fills 00, 7F, 80, FF, 33, every position set to 10 values (lengths up to 24: all 256), all position pairs for lengths up to %d, 11 manufacturers; all 2^24 manufacturers on three contents", int(top), int(pairs)));
    static const u64 mm[] = { 0, 0x7E0000, 0x000001, 0x007F7F, 0x410000, 0x000100, 0x800000, 0x000080, 0x008000, 0x01000000, 0x80000001 };
    static const u64 vals[] = { 0x80, 0x00, 0x7F, 0xFF, 0x81, 0x40, 0xC0, 0xF7, 0xF0, 0x01 };
    for (u64 n = 0; n <= top; ++n)
    {
        if (!c.mine()) continue;
        for (u64 f = 0; f < 5; ++f)
        {
            for (auto m : mm) c.exec<c37_content>(n, f, ~u64{ 0 }, 0, ~u64{ 0 }, 0, m);
            for (u64 p = 0; p < n; ++p)
            {
                if (n <= 24) for (u64 v = 0; v < 256; ++v) c.exec<c37_content>(n, f, p, v, ~u64{ 0 }, 0, mm[v % 11]);
                else for (auto v : vals) c.exec<c37_content>(n, f, p, v, ~u64{ 0 }, 0, mm[p % 11]);
                if (n <= pairs) for (u64 q = p + 1; q < n; ++q) for (auto v : vals) for (auto w : vals) c.exec<c37_content>(n, f, p, v, q, w, mm[q % 11]);
            }
        }
    }
    for (u64 base : { 1024, 4096, 16384, 65536, 131072 })
        for (u64 d = 0; d < 8; ++d)
            if (c.mine()) for (u64 f = 0; f < 5; ++f) for (u64 p : { u64(0), base / 2, base - 5 + d, base - 4 + d }) for (u64 v : { 0x80, 0x7F }) c.exec<c37_content>(base - 4 + d, f, p, v, ~u64{ 0 }, 0, mm[d]);
}
MC_SECTION("C37", c37_manufacturers);
void c37_manufacturers::run(Ctx& c, Args a)
{
    for (u32 m = u32(a[0]); m < u32(a[0]) + 65536; ++m)
        for (const Bytes& b : { Bytes{}, Bytes{ 0x7F }, Bytes{ 0x10, 0x90, 0x20 } }) queries(c, m, b, b.size() < 3);
    c.tick(); c.nontrivial(); c.outcome(a[0]);
    c.st->evaluations += 65536 * 3 - 1;
}
void c37_manufacturers::enumerate(Ctx& c)
{
    c.bound("all 2^24 manufacturer values on three contents");
    for (u64 k = 0; k < 256; ++k) if (c.mine()) c.exec<c37_manufacturers>(k << 16);
}
// comparison: two messages differing in nothing, one byte, length, manufacturer
MC_SECTION("C37", c37_compare);
void c37_compare::run(Ctx& c, Args a)
{
    // a0 length, a1 position, a2 xor value, a3 length of the other, a4 manufacturer difference
    Bytes b(a[0]);
    for (u64 i = 0; i < a[0]; ++i) b[i] = u8(i * 37 + 11);
    Bytes d(b);
    d.resize(a[3], 0);
    if (a[1] < d.size()) d[a[1]] ^= u8(a[2]);
    const u32 m1 = 0x002109, m2 = u32(m1 ^ a[4]);
    const bool eq = m1 == m2 && b == d;
    const sysex7 x(m1, b.data(), b.size()), y(m2, d.data(), d.size());
    const midi::sysex8 u(m1, b.data(), b.size()), v(m2, d.data(), d.size());
    const midi::sysex &p = x, &q = v;
    MC_CHECK(c, (x == y) == eq && (y == x) == eq && (x != y) != eq && (u == v) == eq && (v == u) == eq && (u != v) != eq && (p == q) == eq && (p != q) != eq,
             "comparison of %d and %d bytes, byte %d, manufacturers %06X %06X", int(a[0]), int(a[3]), int(a[1]), m1, m2);
    c.nontrivial(!eq); c.outcome(mix(a[0], a[1]));
}
void c37_compare::enumerate(Ctx& c)
{
    const u64 top = 300;
    c.bound("pairs of messages of 0..300 bytes (and 1024, 4097, 65537): equal, each byte changed in each bit, each pair of lengths up to 40, every manufacturer bit");
    std::vector<u64> lens;
    for (u64 n = 0; n <= top; ++n) lens.push_back(n);
    for (u64 n : { 1024, 4097, 65537 }) lens.push_back(n);
    for (auto n : lens)
    {
        if (!c.mine()) continue;
        c.exec<c37_compare>(n, 0, 0, n, 0);
        for (int m = 0; m < 32; ++m) c.exec<c37_compare>(n, 0, 0, n, u64(1) << m);
        c.exec<c37_compare>(n, 0, 0, n + 1, 0);
        if (n) c.exec<c37_compare>(n, 0, 0, n - 1, 0);
        for (u64 p = 0; p < n; p += n > 1000 ? (n < 5000 ? 61 : 4095) : 1) for (int k = 0; k < 9; ++k) c.exec<c37_compare>(n, p, k == 8 ? 0xFF : 1 << k, n, 0);
        if (n) for (int k = 0; k < 8; ++k) c.exec<c37_compare>(n, n - 1, 1 << k, n, 0);
        if (n <= 40) for (u64 k = 0; k <= 40; ++k) c.exec<c37_compare>(n, 0, 0, k, 0);
    }
}

int main(int argc, char** argv) { return mc::main_(argc, argv); }
