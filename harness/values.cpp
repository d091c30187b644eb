// C12 resolution scaling, C13 float conversions, C14 saturating arithmetic, C40 comparison (inc/midi/types.h)
#include "mc.h"
#include <cmath>
#include <cstring>
#include <limits>
#include <midi/capability_inquiry.h>
#include <midi/types.h>

using namespace mc;
using midi::controller_increment;
using midi::controller_value;
using midi::pitch_7_25;
using midi::pitch_7_9;
using midi::pitch_bend;
using midi::pitch_bend_sensitivity;
using midi::pitch_increment;
using midi::velocity;

//---------------------------------------------------------------------------------------------------------------------
// reference: MIDI 2.0 min-center-max ("expanded bit repeat") upscaling, written bit by bit

static u32 ref_up(u32 v, unsigned x, unsigned y)
{
    const u64 center = u64{ 1 } << (x - 1);
    u64       r      = u64(v) << (y - x);
    if (v <= center) return u32(r);
    unsigned src = x - 2; // highest bit below the top bit
    for (int dst = int(y - x) - 1; dst >= 0; --dst)
    {
        if ((v >> src) & 1) r |= u64{ 1 } << dst;
        src = (src == 0) ? x - 2 : src - 1;
    }
    return u32(r);
}

static const std::vector<u32>& edge32()
{
    static const std::vector<u32> e = [] {
        std::set<u32> s;
        for (int k = 0; k < 32; ++k)
            for (int d = -2; d <= 2; ++d)
            {
                s.insert((1u << k) + u32(d));
                s.insert(~((1u << k) + u32(d)));
                s.insert(0x80000000u + (1u << k) + u32(d));
            }
        for (u32 p : { 0x55555555u, 0xAAAAAAAAu, 0x33333333u, 0x0F0F0F0Fu, 0x00FF00FFu, 0xDEADBEEFu, 0x12345678u, 0xFEDCBA98u })
            s.insert(p);
        return std::vector<u32>(s.begin(), s.end());
    }();
    return e;
}

//---------------------------------------------------------------------------------------------------------------------
// C12

MC_SECTION("C12", c12_generic_up);
// case: x, y, first, count  -- strictly increasing, rule, min/center/max, round trip
void c12_generic_up::run(Ctx& c, Args a)
{
    const unsigned x = unsigned(a[0]), y = unsigned(a[1]);
    const u64      first = a[2], count = a[3], lim = u64{ 1 } << x;
    u32            prev = 0;
    for (u64 i = 0; i < count && first + i < lim; ++i)
    {
        const u32 v = u32(first + i);
        const u32 r = midi::upsample_x_to_ybit(v, midi::uint8_t(x), midi::uint8_t(y));
        MC_CHECK(c, r == ref_up(v, x, y), "upsample %u bit value %x to %u bit = %x, expected %x", x, v, y, r, ref_up(v, x, y));
        MC_CHECK(c, (r >> (y - x)) == v, "not restored by downscaling: %x", v);
        if (i) MC_CHECK(c, r > prev, "not strictly increasing at %x", v);
        prev = r;
        c.tick();
    }
    c.st->evaluations += count - 1;
    c.nontrivial();
    if (first == 0)
    {
        MC_CHECK(c, midi::upsample_x_to_ybit(0, x, y) == 0, "min");
        MC_CHECK(c, midi::upsample_x_to_ybit(u32(lim / 2), x, y) == u32(u64{ 1 } << (y - 1)), "center");
        MC_CHECK(c, midi::upsample_x_to_ybit(u32(lim - 1), x, y) == u32((u64{ 1 } << y) - 1), "max");
    }
    c.outcome(mix(x * 64 + y, prev));
}
void c12_generic_up::enumerate(Ctx& c)
{
    const unsigned full = c.thorough ? 31 : 28;
    c.bound(fmt("upsample_x_to_ybit: every value of x = 2..%u bits, edge values of wider x, every y in x+1..32", full));
    for (unsigned x = 2; x < 32; ++x)
        for (unsigned y = x + 1; y <= 32; ++y)
        {
            if (x <= full)
                for (u64 f = 0; f < (u64{ 1 } << x); f += 65535) { if (c.mine()) c.exec<c12_generic_up>(x, y, f, 65536); }
            else if (c.mine())
                for (u32 e : edge32())
                {
                    const u32 v = e & u32((u64{ 1 } << x) - 1);
                    c.exec<c12_generic_up>(x, y, v ? v - 1 : 0, 3);
                }
        }
}

MC_SECTION("C12", c12_fixed_up);
// case: which, v
void c12_fixed_up::run(Ctx& c, Args a)
{
    const u32 v = u32(a[1]);
    c.nontrivial();
    if (a[0] == 0)
    {
        const midi::uint7_t v7 = midi::uint7_t(v);
        const u32           w = ref_up(v, 7, 16), l = ref_up(v, 7, 32);
        MC_CHECK(c, midi::upsample_7_to_16bit(v7) == w, "7->16 of %x", v);
        MC_CHECK(c, midi::upsample_7_to_32bit(v7) == l, "7->32 of %x", v);
        MC_CHECK(c, midi::upsample_x_to_ybit(v, 7, 16) == w && midi::upsample_x_to_ybit(v, 7, 32) == l, "generic of %x", v);
        MC_CHECK(c, midi::downsample_16_to_7bit(midi::uint16_t(w)) == v, "16->7 of %x", w);
        MC_CHECK(c, midi::downsample_32_to_7bit(l) == v, "32->7 of %x", l);
        MC_CHECK(c, velocity{ v7 }.value == w && velocity{ v7 }.as_uint7() == v, "velocity of %x", v);
        MC_CHECK(c, controller_value{ v7 }.value == l && controller_value{ v7 }.as_uint7() == v, "controller of %x", v);
        MC_CHECK(c, pitch_7_9{ v7 }.value == (v << 9) && pitch_7_9{ v7 }.note_nr() == v, "pitch_7_9 of note %x", v);
        MC_CHECK(c, pitch_7_25{ v7 }.value == (v << 25) && pitch_7_25{ v7 }.note_nr() == v, "pitch_7_25 of note %x", v);
        MC_CHECK(c, pitch_bend_sensitivity{ v7 }.value == (v << 25), "sensitivity of %x", v);
        c.outcome(mix(w, l));
    }
    else if (a[0] == 1)
    {
        const midi::uint14_t v14 = midi::uint14_t(v);
        const u32            l = ref_up(v, 14, 32);
        MC_CHECK(c, midi::upsample_14_to_32bit(v14) == l, "14->32 of %x", v);
        MC_CHECK(c, midi::upsample_x_to_ybit(v, 14, 32) == l, "generic of %x", v);
        MC_CHECK(c, midi::downsample_32_to_14bit(l) == v, "32->14 of %x", l);
        MC_CHECK(c, pitch_bend{ v14 }.value == l && pitch_bend{ v14 }.as_uint14() == v, "pitch bend of %x", v);
        MC_CHECK(c, controller_value{ v14 }.value == l && controller_value{ v14 }.as_uint14() == v, "controller of %x", v);
        c.outcome(l);
    }
    else
    {
        const midi::uint16_t w = midi::uint16_t(v);
        MC_CHECK(c, midi::downsample_16_to_7bit(w) == (w >> 9), "16->7 of %x", w);
        MC_CHECK(c, velocity{ w }.value == w && velocity{ w }.as_uint7() == (w >> 9), "velocity of %x", w);
        MC_CHECK(c, pitch_7_9{ w }.value == w && pitch_7_9{ w }.note_nr() == (w >> 9), "pitch_7_9 of %x", w);
        const pitch_7_25 p{ pitch_7_9{ w } };
        pitch_7_25       q{ ~u32{ 0 } };
        q = pitch_7_9{ w };
        MC_CHECK(c, p.value == (u32(w) << 16) && q == p && p.note_nr() == (w >> 9), "pitch_7_25 of pitch_7_9 %x", w);
        c.outcome(w);
    }
}
void c12_fixed_up::enumerate(Ctx& c)
{
    c.bound("fixed width upscalers and typed values: all 7, 14 and 16 bit values; pitch bend reset and defaults");
    for (u32 v = 0; v < 128; ++v) if (c.mine()) c.exec<c12_fixed_up>(0, v);
    for (u32 v = 0; v < 16384; ++v) if (c.mine()) c.exec<c12_fixed_up>(1, v);
    for (u32 v = 0; v < 65536; ++v) if (c.mine()) c.exec<c12_fixed_up>(2, v);
}

MC_SECTION("C12", c12_down_32);
// case: high 12 bits of the value
void c12_down_32::run(Ctx& c, Args a)
{
    for (u32 i = 0; i < (1u << 20); ++i)
    {
        u32 v = u32(a[0] << 20) | i;
        asm volatile("" : "+r"(v)); // really execute every value
        const u32 d7 = midi::downsample_32_to_7bit(v), d14 = midi::downsample_32_to_14bit(v);
        MC_CHECK(c, d7 == (v >> 25) && d14 == (v >> 18), "32 bit %x -> %x / %x", v, d7, d14);
        MC_CHECK(c, controller_value{ v }.as_uint7() == (v >> 25) && controller_value{ v }.as_uint14() == (v >> 18) && controller_value{ v }.value == v, "controller %x", v);
        MC_CHECK(c, pitch_bend{ v }.as_uint14() == (v >> 18) && pitch_bend{ v }.value == v, "pitch bend %x", v);
        MC_CHECK(c, pitch_7_25{ v }.note_nr() == (v >> 25) && pitch_7_25{ v }.value == v, "pitch %x", v);
        MC_CHECK(c, controller_value{ pitch_7_25{ v } }.value == v && pitch_7_25{ controller_value{ v } }.value == v, "controller/pitch %x", v);
    }
    c.st->evaluations += (1u << 20) - 1;
    c.nontrivial();
    c.outcome(midi::downsample_32_to_14bit(u32(a[0] << 20)));
}
void c12_down_32::enumerate(Ctx& c)
{
    c.bound("downscaling: every one of the 2^32 32 bit values");
    for (u32 h = 0; h < 4096; ++h) if (c.mine()) c.exec<c12_down_32>(h);
}

//---------------------------------------------------------------------------------------------------------------------
// C13

MC_SECTION("C13", c13_stored_16);
void c13_stored_16::run(Ctx& c, Args a)
{
    const midi::uint16_t v = midi::uint16_t(a[0]);
    const velocity       vel{ v };
    const double         d = vel.as_double();
    const float          f = vel.as_float();
    c.nontrivial();
    MC_CHECK(c, d >= 0. && d <= 1. && f >= 0.f && f <= 1.f, "velocity %x -> %.17g", v, d);
    MC_CHECK(c, velocity{ d }.value == v, "velocity %x -> %.17g -> %x", v, d, velocity{ d }.value);
    MC_CHECK(c, std::abs(double(f) - d) <= 1. / (1 << 24), "velocity %x float/double", v);
    if (v == 0) MC_CHECK(c, d == 0. && f == 0.f, "min");
    if (v == 0x8000) MC_CHECK(c, d == 0.5 && f == 0.5f, "center");
    if (v == 0xFFFF) MC_CHECK(c, d == 1. && f == 1.f, "max");
    if (v) MC_CHECK(c, velocity{ midi::uint16_t(v - 1) }.as_double() < d && velocity{ midi::uint16_t(v - 1) }.as_float() <= f, "monotone at %x", v);

    const pitch_7_9 p{ v };
    MC_CHECK(c, p.as_double() == v / 512. && p.as_float() == float(v / 512.), "pitch_7_9 %x", v);
    MC_CHECK(c, pitch_7_9{ p.as_double() }.value == v && pitch_7_9{ p.as_float() }.value == v, "pitch_7_9 %x round trip", v);
    MC_CHECK(c, velocity{ v } == vel && !(velocity{ v } != vel), "velocity compare");
    MC_CHECK(c, pitch_7_9{ v } == p && !(pitch_7_9{ v } != p), "pitch compare");
    for (int b = 0; b < 16; ++b)
    {
        const midi::uint16_t w = midi::uint16_t(v ^ (1u << b));
        MC_CHECK(c, velocity{ w } != vel && !(velocity{ w } == vel) && pitch_7_9{ w } != p && !(pitch_7_9{ w } == p), "compare %x %x", v, w);
    }
    c.outcome(u64(d * 1e9));
}
void c13_stored_16::enumerate(Ctx& c)
{
    c.bound("velocity and pitch_7_9: all 2^16 stored values, float and double");
    for (u32 v = 0; v < 65536; ++v) if (c.mine()) c.exec<c13_stored_16>(v);
}

MC_SECTION("C13", c13_stored_32);
void c13_stored_32::run(Ctx& c, Args a)
{
    const u32 base = u32(a[0] << 20);
    double    pd = -1, pb_ = -2;
    float     pf = -1;
    if (base)
    {
        pd  = controller_value{ base - 1 }.as_double();
        pf  = controller_value{ base - 1 }.as_float();
        pb_ = pitch_bend{ base - 1 }.as_double();
    }
    for (u32 i = 0; i < (1u << 20); ++i)
    {
        const u32    v = base | i;
        const double d = controller_value{ v }.as_double();
        const float  f = controller_value{ v }.as_float();
        MC_CHECK(c, d >= 0. && d <= 1. && f >= 0.f && f <= 1.f, "controller %x -> %.17g", v, d);
        MC_CHECK(c, d > pd && f >= pf, "controller monotone at %x", v);
        MC_CHECK(c, std::abs(double(f) - d) <= 1. / (1 << 24), "controller %x float/double", v);
        MC_CHECK(c, controller_value{ d }.value == v, "controller %x -> %.17g -> %x", v, d, controller_value{ d }.value);
        pd = d; pf = f;
        const double b = pitch_bend{ v }.as_double();
        const float  bf = pitch_bend{ v }.as_float();
        MC_CHECK(c, b >= -1. && b <= 1. && bf >= -1.f && bf <= 1.f, "pitch bend %x -> %.17g", v, b);
        MC_CHECK(c, b > pb_, "pitch bend monotone at %x", v);
        MC_CHECK(c, std::abs(double(bf) - b) <= 1. / (1 << 24), "pitch bend %x float/double", v);
        const u32 r = pitch_bend{ b }.value;
        MC_CHECK(c, std::abs(double(r) - double(v)) <= 1., "pitch bend %x -> %.17g -> %x", v, b, r);
        pb_ = b;
        const double p = pitch_7_25{ v }.as_double();
        MC_CHECK(c, p == double(v) / 33554432., "pitch_7_25 %x -> %.17g", v, p);
        MC_CHECK(c, pitch_7_25{ p }.value == v, "pitch_7_25 %x round trip", v);
        const float pf725 = pitch_7_25{ v }.as_float();
        MC_CHECK(c, std::abs(double(pf725) - p) <= 4e-6 && pf725 >= 0.f && pf725 <= 128.f, "pitch_7_25 %x float", v);
    }
    auto exact = [&](u32 v, double cv, double pb) {
        MC_CHECK(c, controller_value{ v }.as_double() == cv && controller_value{ v }.as_float() == float(cv), "controller %x", v);
        MC_CHECK(c, pitch_bend{ v }.as_double() == pb && pitch_bend{ v }.as_float() == float(pb), "pitch bend %x", v);
        MC_CHECK(c, controller_value{ cv }.value == v && controller_value{ float(cv) }.value == v, "controller from %g", cv);
        MC_CHECK(c, pitch_bend{ pb }.value == v && pitch_bend{ float(pb) }.value == v, "pitch bend from %g", pb);
    };
    if (base == 0) exact(0, 0., -1.);
    if (base == 0x80000000u) exact(base, .5, 0.);
    if (base == 0xFFF00000u) exact(0xFFFFFFFFu, 1., 1.);
    c.st->evaluations += (1u << 20) - 1;
    c.nontrivial();
    c.outcome(u64(pd * 1e12));
}
void c13_stored_32::enumerate(Ctx& c)
{
    c.bound("controller_value, pitch_bend, pitch_7_25: all 2^32 stored values");
    for (u32 h = 0; h < 4096; ++h) if (c.mine()) c.exec<c13_stored_32>(h);
}

static float f_of(u32 bits) { float f; memcpy(&f, &bits, 4); return f; }
// order-preserving map of float bit patterns: index 0 = -inf .. N = +inf
static constexpr u64 n_floats = 2ull * 0x7F800000ull + 1; // finite values and both infinities, -0 folded into +0
static float float_at(u64 i)
{
    return i < 0x7F800000ull ? f_of(0x80000000u | u32(0x7F800000ull - i)) : f_of(u32(i - 0x7F800000ull));
}

template<class V, class X> struct Conv;

MC_SECTION("C13", c13_from_float);
// case: first index (in the ordered list of all non-NaN floats), count
void c13_from_float::run(Ctx& c, Args a)
{
    // previous values for monotonicity
    u64  p_v = 0, p_c = 0, p_b = 0, p_bd = 0, p_9 = 0, p_25 = 0;
    long p_i = std::numeric_limits<int>::min();
    auto one = [&](double x, auto arg, bool is_double) {
        const u64 v = velocity{ arg }.value, cv = controller_value{ arg }.value, pb = pitch_bend{ arg }.value,
                  p9 = pitch_7_9{ arg }.value, p25 = pitch_7_25{ arg }.value;
        const long inc = pitch_increment{ arg }.value;
        const double x01 = std::clamp(x, 0., 1.), x11 = std::clamp(x, -1., 1.), x128 = std::clamp(x, 0., 128.), x64 = std::clamp(x, -64., 64.);
        // clamping
        if (x <= 0.) MC_CHECK(c, v == 0 && cv == 0 && p9 == 0 && p25 == 0, "not clamped to minimum: %.17g", x);
        if (x >= 1.) MC_CHECK(c, v == 0xFFFF && cv == 0xFFFFFFFFu && pb == 0xFFFFFFFFu, "not clamped to maximum: %.17g", x);
        if (x <= -1.) MC_CHECK(c, pb == 0, "pitch bend not clamped to minimum: %.17g", x);
        if (x >= 128.) MC_CHECK(c, p9 == 0xFFFF && p25 == 0xFFFFFFFFu, "pitch not clamped to maximum: %.17g", x);
        if (x >= 64.) MC_CHECK(c, inc == 0x7FFFFFFF, "increment not clamped to maximum: %.17g", x);
        if (x <= -64.) MC_CHECK(c, inc == -0x80000000l, "increment not clamped to minimum: %.17g", x);
        // nearness: own conversion within one step of the input
        MC_CHECK(c, std::abs(velocity{ midi::uint16_t(v) }.as_double() - x01) <= 1.0001 / 65535, "velocity of %.17g = %lx", x, long(v));
        MC_CHECK(c, std::abs(controller_value{ u32(cv) }.as_double() - x01) <= 1.0001 / 4294967295., "controller of %.17g = %lx", x, long(cv));
        MC_CHECK(c, std::abs(pitch_bend{ u32(pb) }.as_double() - x11) <= (is_double ? 1.0001 / 2147483647. : 3e-7), "pitch bend of %.17g = %lx", x, long(pb));
        MC_CHECK(c, std::abs(double(p9) - x128 * 512.) <= 1.0001, "pitch_7_9 of %.17g = %lx", x, long(p9));
        MC_CHECK(c, std::abs(double(p25) - x128 * 33554432.) <= 1.0001, "pitch_7_25 of %.17g = %lx", x, long(p25));
        MC_CHECK(c, std::abs(double(inc) - x64 * 33554432.) <= 1.0001, "pitch_increment of %.17g = %ld", x, inc);
        // monotone
        u64& pbp = is_double ? p_bd : p_b;
        MC_CHECK(c, v >= p_v && cv >= p_c && pb >= pbp && p9 >= p_9 && p25 >= p_25 && inc >= p_i, "not monotone at %.17g", x);
        p_v = v; p_c = cv; pbp = pb; p_9 = p9; p_25 = p25; p_i = inc;
    };
    const u64 end = std::min<u64>(a[0] + a[1], n_floats);
    for (u64 i = a[0]; i < end; ++i)
    {
        const float f = float_at(i);
        one(double(f), f, false);
        one(double(f), double(f), true);
        if (i + 1 < end)
        { // doubles between this float and the next one
            const double d = f, n = float_at(i + 1);
            if (std::isfinite(d) && std::isfinite(n))
            {
                const double r = std::nextafter(d, INFINITY);
                one(r, r, true);
                one(d + (n - d) / 2, d + (n - d) / 2, true);
                const double q = std::nextafter(n, -INFINITY);
                one(q, q, true);
            }
        }
    }
    c.st->evaluations += (end - a[0]) * 5 - 1;
    c.nontrivial();
    c.outcome(mix(p_c, p_25));
    c.tick();
}
void c13_from_float::enumerate(Ctx& c)
{
    c.bound(c.mid ? "all 2^32 non-NaN float bit patterns (+ the double midpoint between neighbours and the doubles just above and just below each float) into every type, in increasing order" :
                         "float bit patterns of every exponent and sign in increasing order (complete mantissa blocks around every power of two, +-0.5, +-1, +-64, +-128; every 8th block of the significant exponents 2^-34..2^8), + double midpoints");
    constexpr u64 blk = 1 << 16;
    for (u64 i = 0; i + 1 < n_floats; i += blk - 1)
    {
        bool take = c.mid;
        if (!take)
        {
            const double lo = float_at(i), hi = float_at(std::min<u64>(i + blk - 1, n_floats - 1));
            const double m = std::max(std::abs(lo), std::abs(hi)), n = std::min(std::abs(lo), std::abs(hi));
            int          em = 0, en = 0;
            std::frexp(m, &em); std::frexp(n, &en);
            const bool pow2 = !std::isfinite(m) || em != en || n == 0 || lo * hi <= 0;
            const bool sig = m >= 5.8e-11 && n <= 256.;
            const bool edge = (lo <= 1. && hi >= 1.) || (lo <= -1. && hi >= -1.) || (lo <= .5 && hi >= .5);
            take = (pow2 && (sig || (i / (blk - 1)) % 5 == 0)) || edge || (sig && (i / (blk - 1)) % 29 == 0);
        }
        if (take && c.mine()) c.exec<c13_from_float>(i, blk);
    }
}

MC_SECTION("C13", c13_from_double_steps);
// case: which, block: doubles at, just below, just above and between every representable step
void c13_from_double_steps::run(Ctx& c, Args a)
{
    u64 pv = 0, pc = 0, pb = 0, p9 = 0;
    auto one = [&](double x) {
        const u64 v = velocity{ x }.value, cv = controller_value{ x }.value, b = pitch_bend{ x }.value, q = pitch_7_9{ x * 128 }.value;
        MC_CHECK(c, std::abs(velocity{ midi::uint16_t(v) }.as_double() - x) <= 1.0001 / 65535, "velocity of %.17g = %lx", x, long(v));
        MC_CHECK(c, std::abs(controller_value{ u32(cv) }.as_double() - x) <= 1.0001 / 4294967295., "controller of %.17g = %lx", x, long(cv));
        MC_CHECK(c, std::abs(pitch_bend{ u32(b) }.as_double() - x) <= 1.0001 / 2147483647., "pitch bend of %.17g = %lx", x, long(b));
        MC_CHECK(c, std::abs(double(q) - x * 65536.) <= 1.0001, "pitch_7_9 of %.17g = %lx", x * 128, long(q));
        MC_CHECK(c, v >= pv && cv >= pc && b >= pb && q >= p9, "not monotone at %.17g", x);
        pv = v; pc = cv; pb = b; p9 = q;
    };
    const u64 n = a[0] ? 65536 : 65535; // denominators of the two halves of the mapping
    for (u64 i = a[1]; i < a[1] + 4096 && i <= n; ++i)
    {
        const double s = double(i) / double(n);
        if (s > 0) one(std::nextafter(s, -1.));
        one(s);
        if (s < 1) { one(std::nextafter(s, 2.)); if (i < n) one(double(i) / double(n) + .5 / double(n)); }
    }
    c.st->evaluations += 4 * 4096 - 1;
    c.nontrivial();
    c.outcome(mix(pv, pc));
}
void c13_from_double_steps::enumerate(Ctx& c)
{
    c.bound("double input at, 1 ulp below, 1 ulp above and half way between every one of the 2^16 steps i/65535 and i/65536");
    for (u64 w = 0; w < 2; ++w)
        for (u64 b = 0; b <= 65536; b += 4096) if (c.mine()) c.exec<c13_from_double_steps>(w, b);
}

//---------------------------------------------------------------------------------------------------------------------
// C14

static long clamp_i32(__int128 v) { return v < -(__int128)0x80000000ll ? -0x80000000l : v > 0x7FFFFFFF ? 0x7FFFFFFF : long(v); }
static u32  clamp_u32(__int128 v) { return v < 0 ? 0 : v > 0xFFFFFFFFll ? 0xFFFFFFFFu : u32(v); }

static void c14_pair(Ctx& c, u32 x, u32 y)
{
    const pitch_increment      iy{ midi::int32_t(y) };
    const controller_increment cy{ midi::int32_t(y) };
    {
        const u32  e = clamp_u32(__int128(x) + midi::int32_t(y));
        pitch_7_25 p{ x };
        MC_CHECK(c, (p + iy).value == e, "pitch %x + %d = %x, expected %x", x, int(y), (p + iy).value, e);
        MC_CHECK(c, p.value == x, "operand changed");
        p += iy;
        MC_CHECK(c, p.value == e, "pitch %x += %d gives %x, expected %x", x, int(y), p.value, e);
        controller_value v{ x };
        MC_CHECK(c, (v + cy).value == e, "controller %x + %d = %x, expected %x", x, int(y), (v + cy).value, e);
        v += cy;
        MC_CHECK(c, v.value == e, "controller %x += %d gives %x, expected %x", x, int(y), v.value, e);
    }
    {
        const long      e = clamp_i32(__int128(midi::int32_t(x)) + midi::int32_t(y));
        pitch_increment i{ midi::int32_t(x) };
        MC_CHECK(c, (i + iy).value == e, "increment %d + %d = %d, expected %ld", int(x), int(y), (i + iy).value, e);
        i += iy;
        MC_CHECK(c, i.value == e, "increment %d += %d = %d, expected %ld", int(x), int(y), i.value, e);
    }
    {
        const pitch_bend             b{ x };
        const pitch_bend_sensitivity s{ y };
        const __int128               prod = (__int128(x) - 0x80000000ll) * y;
        const long                   e = clamp_i32(prod / 2147483648ll); // toward zero
        MC_CHECK(c, (b * s).value == e && (s * b).value == e, "pitch bend %x * sensitivity %x = %d / %d, expected %ld", x, y, (b * s).value, (s * b).value, e);
    }
}

MC_SECTION("C14", c14_edges);
void c14_edges::run(Ctx& c, Args a)
{
    c.nontrivial();
    c14_pair(c, u32(a[0]), u32(a[1]));
    c.outcome((pitch_7_25{ u32(a[0]) } + pitch_increment{ midi::int32_t(a[1]) }).value);
    // detune in semitones: y as S6.25 (exact in double)
    const double d = double(midi::int32_t(a[1])) / 33554432.;
    const u32    e = clamp_u32(__int128(u32(a[0])) + midi::int32_t(a[1]));
    MC_CHECK(c, (pitch_7_25{ u32(a[0]) } + d).value == e, "pitch %x + %.17g = %x, expected %x", u32(a[0]), d, (pitch_7_25{ u32(a[0]) } + d).value, e);
    const float f = float(d);
    const double ef = std::clamp(double(u32(a[0])) + double(f) * 33554432., 0., 4294967295.);
    MC_CHECK(c, std::abs(double((pitch_7_25{ u32(a[0]) } + f).value) - ef) <= 1., "pitch %x + float %.9g = %x", u32(a[0]), double(f), (pitch_7_25{ u32(a[0]) } + f).value);
    for (double big : { 64., 127.999999999, 128., 1e6, 1e300, double(INFINITY) })
    {
        const double hi = std::min(double(u32(a[0])) + big * 33554432., 4294967295.), lo = std::max(double(u32(a[0])) - big * 33554432., 0.);
        MC_CHECK(c, std::abs(double((pitch_7_25{ u32(a[0]) } + big).value) - hi) <= 1., "pitch %x + %g", u32(a[0]), big);
        MC_CHECK(c, std::abs(double((pitch_7_25{ u32(a[0]) } + -big).value) - lo) <= 1., "pitch %x - %g", u32(a[0]), big);
        MC_CHECK(c, (pitch_7_25{ u32(a[0]) } + float(big)).value == (pitch_7_25{ u32(a[0]) } + double(float(big))).value, "pitch %x + float %g", u32(a[0]), big);
    }
}
void c14_edges::enumerate(Ctx& c)
{
    const auto& e = edge32();
    c.bound(fmt("all %zu x %zu pairs of edge values (every power of two +-0..2, complements, around the centre, patterns), every operator and operator form, detunes", e.size(), e.size()));
    for (u32 x : e)
    {
        if (!c.mine()) continue;
        for (u32 y : e) c.exec<c14_edges>(x, y);
    }
}

MC_SECTION("C14", c14_sweep);
// case: fixed operand, position (0: fixed left, 1: fixed right), high 16 bits of the other operand
void c14_sweep::run(Ctx& c, Args a)
{
    for (u32 i = 0; i < 65536; ++i)
    {
        const u32 v = u32(a[2] << 16) | i;
        if (a[1]) c14_pair(c, v, u32(a[0]));
        else c14_pair(c, u32(a[0]), v);
    }
    c.st->evaluations += 65535;
    c.nontrivial();
    c.outcome(mix(a[0], (pitch_bend{ u32(a[2] << 16) } * pitch_bend_sensitivity{ u32(a[0]) }).value));
}
void c14_sweep::enumerate(Ctx& c)
{
    static const u32 fixed[] = { 0x7FFFFFFFu, 0x80000000u, 0x04000000u, 0xFFFFFFFFu, 1u, 0x80000001u, 0x40000000u, 0xC0000000u };
    c.bound(c.thorough ? "all 2^32 values of either operand against 8 edge values of the other" :
                         "every 4th block of 2^16 consecutive values of either operand, and the blocks around every power of two, against 8 edge values of the other");
    for (u32 f : fixed)
        for (u32 pos = 0; pos < 2; ++pos)
            for (u32 h = 0; h < 65536; ++h)
            {
                const bool p2 = (h & (h - 1)) == 0 || (midi::uint16_t(~h) & (midi::uint16_t(~h) - 1)) == 0;
                if ((c.thorough || p2 || h % 4 == 1) && c.mine()) c.exec<c14_sweep>(f, pos, h);
            }
}

//---------------------------------------------------------------------------------------------------------------------
// C40: comparison operators and neutral defaults
static void c40_pair(Ctx& c, u32 v, u32 w)
{
    const bool e = v == w;
    const auto i = midi::int32_t(v), j = midi::int32_t(w);
    MC_CHECK(c, (pitch_bend{ v } == pitch_bend{ w }) == e && (pitch_bend{ v } != pitch_bend{ w }) != e, "compare pitch bend %08x %08x", v, w);
    MC_CHECK(c, (controller_value{ v } == controller_value{ w }) == e && (controller_value{ v } != controller_value{ w }) != e, "compare controller values %08x %08x", v, w);
    MC_CHECK(c, (pitch_7_25{ v } == pitch_7_25{ w }) == e && (pitch_7_25{ v } != pitch_7_25{ w }) != e, "compare pitches %08x %08x", v, w);
    MC_CHECK(c, (pitch_bend_sensitivity{ v } == pitch_bend_sensitivity{ w }) == e && (pitch_bend_sensitivity{ v } != pitch_bend_sensitivity{ w }) != e, "compare sensitivities %08x %08x", v, w);
    MC_CHECK(c, (pitch_increment{ i } == pitch_increment{ j }) == e && (pitch_increment{ i } != pitch_increment{ j }) != e, "compare pitch increments %08x %08x", v, w);
    MC_CHECK(c, (controller_increment{ i } == controller_increment{ j }) == e && (controller_increment{ i } != controller_increment{ j }) != e, "compare controller increments %08x %08x", v, w);
}
MC_SECTION("C40", c40_edges);
void c40_edges::run(Ctx& c, Args a)
{
    const auto& e = edge32();
    for (u32 w : e) c40_pair(c, e[a[0]], w);
    for (int k = 0; k < 32; ++k)
    {
        c40_pair(c, e[a[0]], e[a[0]] ^ (1u << k));
        for (int l = 0; l < k; ++l) c40_pair(c, e[a[0]], e[a[0]] ^ (1u << k) ^ (1u << l));
    }
    c.st->evaluations += e.size() + 528 - 1;
    c.nontrivial(); c.outcome(e[a[0]]);
}
void c40_edges::enumerate(Ctx& c)
{
    c.bound(fmt("comparison of 32-bit values: all pairs of %zu edge values and all differences of one or two bits from each", edge32().size()));
    for (std::size_t i = 0; i < edge32().size(); ++i) if (c.mine()) c.exec<c40_edges>(i);
}
MC_SECTION("C40", c40_sweep);
void c40_sweep::run(Ctx& c, Args a)
{
    for (u32 i = 0; i < 65536; ++i)
    {
        const u32 v = u32(a[0] << 16) | i;
        c40_pair(c, v, v);
        c40_pair(c, v, v ^ (1u << ((v * 2654435761u) >> 27)));
        c40_pair(c, v, v + 1);
    }
    c.st->evaluations += 65536 * 3 - 1;
    c.nontrivial(); c.outcome(a[0]);
}
void c40_sweep::enumerate(Ctx& c)
{
    c.bound(c.thorough ? "comparison of every 32-bit value with itself, its successor and a value that differs in one bit" : "comparison of every 32-bit value of every 8th block of 2^16, and of the blocks around every power of two, with itself, its successor and a value that differs in one bit");
    for (u32 h = 0; h < 65536; ++h)
    {
        const bool p2 = (h & (h - 1)) == 0 || (midi::uint16_t(~h) & (midi::uint16_t(~h) - 1)) == 0;
        if ((c.thorough || p2 || h % 8 == 3) && c.mine()) c.exec<c40_sweep>(h);
    }
}
MC_SECTION("C40", c40_16bit);
void c40_16bit::run(Ctx& c, Args a)
{
    const auto v = midi::uint16_t(a[0]);
    for (u32 x = 0; x < 65536; ++x)
    {
        const auto w = midi::uint16_t(x);
        const bool e = v == w;
        MC_CHECK(c, (velocity{ v } == velocity{ w }) == e && (velocity{ v } != velocity{ w }) != e, "compare velocities %04x %04x", v, w);
        MC_CHECK(c, (pitch_7_9{ v } == pitch_7_9{ w }) == e && (pitch_7_9{ v } != pitch_7_9{ w }) != e, "compare pitches %04x %04x", v, w);
    }
    c.st->evaluations += 65535;
    c.nontrivial(); c.outcome(a[0]);
}
void c40_16bit::enumerate(Ctx& c)
{
    c.bound("all 2^32 pairs of velocities and of 7.9 pitches");
    for (u32 v = 0; v < 65536; ++v) if (c.mine()) c.exec<c40_16bit>(v);
}
MC_SECTION("C40", c40_profiles);
void c40_profiles::run(Ctx& c, Args a)
{
    // a0 pattern of a profile id, a1 position, a2 value; all values at a second position
    using midi::ci::profile_id;
    static const u8 pat[][5] = { { 0, 0, 0, 0, 0 }, { 0x7E, 0, 0, 0, 0 }, { 0x7F, 0x7F, 0x7F, 0x7F, 0x7F }, { 1, 2, 3, 4, 5 }, { 0x40, 0x20, 0x10, 8, 4 } };
    u8 p[5], q[5];
    std::memcpy(p, pat[a[0]], 5);
    std::memcpy(q, p, 5);
    q[a[1]] = u8(a[2]);
    auto id = [](const u8* x) { return profile_id{ x[0], x[1], x[2], x[3], x[4] }; };
    for (int k = 0; k < 5; ++k)
        for (int v = 0; v < 128; ++v)
        {
            u8 r[5];
            std::memcpy(r, q, 5);
            r[k] = u8(v);
            MC_CHECK(c, (id(p) == id(r)) == (std::memcmp(p, r, 5) == 0) && (id(r) == id(p)) == (std::memcmp(p, r, 5) == 0) && (id(q) == id(r)) == (std::memcmp(q, r, 5) == 0), "compare profile ids");
        }
    c.nontrivial(); c.outcome(mix(a[0], mix(a[1], a[2])));
}
void c40_profiles::enumerate(Ctx& c)
{
    c.bound("profile ids: 5 patterns, all differences in one or two bytes with all 7-bit values; profile destinations: all pairs of scopes with 9 x 9 channel counts");
    for (u64 p = 0; p < 5; ++p) for (u64 k = 0; k < 5; ++k) for (u64 v = 0; v < 128; ++v) if (c.mine()) c.exec<c40_profiles>(p, k, v);
}
MC_SECTION("C40", c40_destinations);
void c40_destinations::run(Ctx& c, Args a)
{
    using midi::ci::profile_destination;
    static const midi::uint16_t n[] = { 0, 1, 2, 15, 16, 127, 128, 256, 16383 };
    for (unsigned s = 0; s < 128; ++s)
        for (auto x : n)
            for (auto y : n)
            {
                const profile_destination d{ u8(a[0]), x }, e{ u8(s), y };
                MC_CHECK(c, (d == e) == (a[0] == s && x == y), "compare profile destinations %d/%d %d/%d", int(a[0]), x, s, y);
            }
    const auto ch = midi::ci::channel_profile(u8(a[0] & 15), midi::uint16_t(a[0]));
    MC_CHECK(c, ch.scope == (a[0] & 15) && ch.num_channels == a[0] && midi::ci::channel_profile(3).num_channels == 1, "channel profile");
    MC_CHECK(c, midi::ci::group_profile.scope == 0x7E && midi::ci::group_profile.num_channels == 0 && midi::ci::function_block_profile.scope == 0x7F && midi::ci::function_block_profile.num_channels == 0 && profile_destination{} == midi::ci::function_block_profile, "group and function block profile");
    c.nontrivial(); c.outcome(a[0]);
}
void c40_destinations::enumerate(Ctx& c)
{
    for (u64 p = 0; p < 128; ++p) if (c.mine()) c.exec<c40_destinations>(p);
}
MC_SECTION("C40", c40_defaults);
void c40_defaults::run(Ctx& c, Args)
{
    c.nontrivial();
    MC_CHECK(c, velocity{}.value == 0x8000 && pitch_bend{}.value == 0x80000000u && controller_value{}.value == 0 && pitch_increment{}.value == 0 && controller_increment{}.value == 0 && pitch_7_9{}.value == 0 && pitch_7_25{}.value == 0, "defaults");
    MC_CHECK(c, pitch_bend_sensitivity{}.value == (2u << 25), "default sensitivity");
    for (u32 v : edge32())
    {
        pitch_bend b{ v };
        b.reset();
        MC_CHECK(c, b == pitch_bend{} && b.value == 0x80000000u && (b * pitch_bend_sensitivity{ v }).value == 0, "reset pitch bend bends");
    }
    c.outcome(1);
}
void c40_defaults::enumerate(Ctx& c)
{
    c.bound("defaults and pitch bend reset from all edge values");
    if (c.mine()) c.exec<c40_defaults>(0);
}

int main(int argc, char** argv) { return mc::main_(argc, argv); }
