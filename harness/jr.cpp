// C31 JR timestamps and clock, C32 JR clock follower.
#include "mc.h"
#include <midi/jitter_reduction_timestamps.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <thread>
#include <time.h>
#include <unistd.h>

using namespace mc;
using namespace midi;

// the clock the library reads is ours when g_fake is set
static bool         g_fake = false;
static std::int64_t g_now  = 0; // ns
extern "C" int clock_gettime(clockid_t id, struct timespec* ts)
{
    if (g_fake) { ts->tv_sec = g_now / 1000000000; ts->tv_nsec = g_now % 1000000000; return 0; }
    return int(syscall(SYS_clock_gettime, id, ts));
}

//---------------------------------------------------------------------------------------------------------------------
// C31

MC_SECTION("C31", c31_pairs);
void c31_pairs::run(Ctx& c, Args a)
{
    c.nontrivial();
    const u32 x = u32(a[0]);
    const jr_timestamp_t t{ std::uint16_t(x) };
    MC_CHECK(c, t.value == x, "value");
    for (u32 y = 0; y < 65536; ++y)
    {
        u32 yy = y;
        asm volatile("" : "+r"(yy));
        const jr_timestamp_t s{ std::uint16_t(yy) };
        const long long      d = (t - s).count();
        // the unique n in 0..65535 with s + n == t modulo 2^16
        MC_CHECK(c, d >= 0 && d < 65536 && ((y + d) & 0xFFFF) == x, "%x - %x gives %lld", x, y, d);
        MC_CHECK(c, (t == s) == (x == y) && (t != s) == (x != y), "equality of %x and %x", x, y);
    }
    MC_CHECK(c, std::chrono::duration_cast<std::chrono::nanoseconds>(t - jr_timestamp_t{}).count() == std::int64_t(x) * 32000, "a tick is 32 us");
    c.st->evaluations += 65535;
    c.outcome(x);
}
void c31_pairs::enumerate(Ctx& c)
{
    c.bound("all 2^32 pairs of timestamps");
    MC_CHECK(c, jr_clock_frequency == 31250 && jr_timestamp_t{}.value == 0, "constants");
    for (u64 x = 0; x < 65536; ++x) if (c.mine()) c.exec<c31_pairs>(x);
}

MC_SECTION("C31", c31_messages);
void c31_messages::run(Ctx& c, Args a)
{
    c.nontrivial();
    const u32            x = u32(a[0]);
    const jr_timestamp_t t{ std::uint16_t(x) };
    const jr_clock_message     k(t);
    const jr_timestamp_message m(t);
    auto same = [&](const universal_packet& p, u32 w0) { return p.data[0] == w0 && p.data[1] == 0 && p.data[2] == 0 && p.data[3] == 0; };
    MC_CHECK(c, same(k, 0x00100000u | x) && k.timestamp() == t, "jr clock %x is %08x", x, k.data[0]);
    MC_CHECK(c, same(m, 0x00200000u | x) && m.timestamp() == t, "jr timestamp %x is %08x", x, m.data[0]);
    jr_clock_message     k0;
    jr_timestamp_message m0;
    MC_CHECK(c, same(k0, 0x00100000u) && same(m0, 0x00200000u), "default messages");
    for (u32 before : { 0u, 0xFFFFu, 0x1234u, x ^ 0xFFFF, x ^ 1 })
    {
        k0.set_timestamp(jr_timestamp_t{ std::uint16_t(before) });
        k0.set_timestamp(t);
        m0.set_timestamp(jr_timestamp_t{ std::uint16_t(before) });
        m0.set_timestamp(t);
        MC_CHECK(c, same(k0, 0x00100000u | x) && same(m0, 0x00200000u | x), "set_timestamp(%x) after %x", x, before);
    }
    c.outcome(x);
}
void c31_messages::enumerate(Ctx& c)
{
    c.bound("JR clock and JR timestamp messages: all 2^16 timestamps, constructed and edited");
    for (u64 x = 0; x < 65536; ++x) if (c.mine()) c.exec<c31_messages>(x);
}

MC_SECTION("C31", c31_now);
void c31_now::run(Ctx& c, Args a)
{
    c.nontrivial();
    const std::int64_t t0 = 1700000000123456789ll;
    g_fake = true;
    g_now  = t0;
    const auto z = jr_clock::now();
    g_now = t0 + std::int64_t(a[0]);
    const auto r = jr_clock::now();
    g_fake = false;
    MC_CHECK(c, z.value == 0, "clock does not start at 0");
    MC_CHECK(c, r.value == (a[0] / 32000) % 65536, "now() after %llu ns is %u", (unsigned long long)a[0], r.value);
    c.outcome(r.value);
}
void c31_now::enumerate(Ctx& c)
{
    c.bound("jr_clock::now() under a controlled system clock: every tick boundary -1/+0/+1 ns of 2^18 ticks, and around 10^2..10^10 ticks");
    for (u64 k = 0; k < (1u << 18); ++k)
        if (c.mine())
            for (int d : { -1, 0, 1 })
                if (k || d >= 0) c.exec<c31_now>(k * 32000 + d);
    for (u64 k = 100; k <= 10000000000ull; k *= 10)
        for (u64 j = 0; j < 100; ++j) if (c.mine()) c.exec<c31_now>((k + j) * 32000 + j);
}

// the clock is one clock: read it in `where & 1`, then in the other thread
MC_SECTION("C31", c31_threads);
void c31_threads::run(Ctx& c, Args a)
{
    c.nontrivial();
    const std::int64_t t0 = 1700000000123456789ll;
    const pid_t pid = fork(); // so that the first reading of the process is ours
    if (!pid)
    {
        g_fake = true;
        auto read = [](bool thread) {
            jr_timestamp_t r{};
            if (thread) { std::thread t([&] { r = jr_clock::now(); }); t.join(); }
            else r = jr_clock::now();
            return r.value;
        };
        unsigned bad = 0;
        for (unsigned k = 0; k < 4; ++k) // readings 0..3: bit k of a[1] says where
        {
            const u64 at = a[0] * k;
            g_now = t0 + std::int64_t(at);
            if (read(a[1] >> k & 1) != (at / 32000) % 65536) bad |= 1u << k;
        }
        _exit(int(bad));
    }
    int st = 0;
    waitpid(pid, &st, 0);
    MC_CHECK(c, WIFEXITED(st) && WEXITSTATUS(st) == 0, "readings every %llu ns by threads %llx: wrong readings mask %x", (unsigned long long)a[0], (unsigned long long)a[1], WEXITSTATUS(st));
    c.outcome(mix(a[0], a[1]));
}
void c31_threads::enumerate(Ctx& c)
{
    c.bound("four readings of the clock in a fresh process, each made by the main thread or by a new thread (16 assignments) x 10 distances");
    for (u64 step : { 0ull, 31999ull, 32000ull, 64001ull, 1000000ull, 1000000000ull, 2097152000ull, 2097120000ull, 700000000ull, 60000000000ull })
        for (u64 who = 0; who < 16; ++who)
            if (c.mine()) c.exec<c31_threads>(step, who);
}

//---------------------------------------------------------------------------------------------------------------------
// C32: depth-bounded exploration of sender/network histories against a reference in unwrapped time

using Follower = jr_clock_follower;
using ns       = std::int64_t;
static Follower::time_point tp(ns t) { return Follower::time_point(std::chrono::duration_cast<Follower::duration>(std::chrono::nanoseconds(t))); }
static ns nsof(Follower::time_point t) { return std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count(); }
static ns nsof(Follower::duration t) { return std::chrono::duration_cast<std::chrono::nanoseconds>(t).count(); }
constexpr ns ms = 1000000, TICK = 32000;

struct Model
{
    // environment
    u64 sent = 0;      // unwrapped sender time in ticks of the last event
    ns  arrived = 0;   // arrival of the last event
    // follower
    bool locked = false;
    u64  clock = 0;    // sender time of the last clock
    ns   dmin = 0, dmax = 0;
    ns   floor_ = 0;   // no message is placed before this
    ns   offset = 2 * ms;
    ns   last_result = INT64_MIN;
    bool steady = true; // all clocks had the same delay and no message was held back so far
    bool have_prev = false; u64 prev_sent = 0; ns prev_result = 0, prev_offset = 0;
};
struct OpDef { char kind; u64 dticks; ns arg; };
static const ns T0 = 5000 * 1000 * ms; // receiver time of sender tick 0 without delay (arbitrary skew)

// created at receiver time 1000 s, before anything arrives
static Follower make_follower()
{
    struct Fake { Fake() { g_fake = true; g_now = 1000 * 1000 * ms; } ~Fake() { g_fake = false; } } fake;
    return Follower{};
}

// 0 quick, 1 thorough, 2 large and tiny delays
static std::vector<OpDef> alphabet(u64 which)
{
    std::vector<OpDef> a;
    const bool thorough = which == 1;
    if (which == 2)
    {
        for (u64 t : { 1, 3125, 65535 })
            for (ns d : { ns(0), ns(1), ns(31999), 99 * ms, 250 * ms + 7, 1500 * ms, 4000 * ms, 70000 * ms }) { a.push_back({ 'c', t, d }); a.push_back({ 'm', t, d }); }
        a.push_back({ 'm', 0, 0 });
        a.push_back({ 'o', 0, 0 });
        a.push_back({ 'o', 0, 300 * ms });
        a.push_back({ 'o', 0, 100000 * ms });
        a.push_back({ 'r', 0, 0 });
        return a;
    }
    const std::vector<u64> dt = { 1, 100, 40000 };
    const std::vector<ns>  de = thorough ? std::vector<ns>{ 0, 1 * ms, 5 * ms, 1 * ms + 1 } : std::vector<ns>{ 0, 1 * ms, 5 * ms };
    for (auto t : dt) for (auto d : de) a.push_back({ 'c', t, d });
    for (auto t : dt) for (auto d : de) a.push_back({ 'm', t, d });
    a.push_back({ 'm', 0, 0 });
    a.push_back({ 'm', 65535, 0 });
    a.push_back({ 'c', 65535, 0 });
    a.push_back({ 'o', 0, 0 });
    a.push_back({ 'o', 0, 7 * ms });
    a.push_back({ 'r', 0, 0 });
    return a;
}
// true: executed; false: outside the assumptions (more than 65535 ticks since the last clock)
static bool step(Ctx& c, Follower& f, Model& m, const OpDef& o)
{
    if (o.kind == 'o') { f.set_security_offset(std::chrono::nanoseconds(o.arg)); if (o.arg < m.offset) { m.last_result = INT64_MIN; } m.offset = o.arg; m.have_prev = false; }
    else if (o.kind == 'r')
    {
        f.reset();
        const Model old = m;
        m = Model{}; m.sent = old.sent; m.arrived = old.arrived;
    }
    else
    {
        const u64 sent = m.sent + o.dticks;
        if (m.locked && sent - m.clock > 65535) return false;
        m.sent = sent;
        const ns ideal = T0 + ns(sent) * TICK;
        const ns arr   = std::max(m.arrived, ideal + o.arg);
        m.arrived = arr;
        const jr_timestamp_t ts{ std::uint16_t(sent & 0xFFFF) };
        if (o.kind == 'c')
        {
            f.process_clock(tp(arr), ts);
            const ns delay = arr - ideal;
            if (!m.locked) { m.locked = true; m.dmin = m.dmax = delay; m.floor_ = arr; m.have_prev = false; }
            else
            {
                const ns jit = m.dmax - m.dmin;
                // nothing is scheduled (before the offset) earlier than the arrival of a clock that preceded it
                m.floor_ = std::max(m.floor_, arr);
                if (delay != m.dmin) m.steady = false;
                m.dmin = std::min(m.dmin, delay);
                m.dmax = std::max(m.dmax, delay);
                if (m.dmax - m.dmin > jit) m.offset = std::max(m.offset, (m.dmax - m.dmin) * 12 / 10);
            }
            m.clock = sent;
        }
        else
        {
            const ns r = nsof(f.schedule_message(tp(arr), ts));
            ns e;
            if (!m.locked) { e = arr + m.offset; m.floor_ = arr; }
            else { m.floor_ = std::max(m.floor_, ideal + m.dmin); e = m.floor_ + m.offset; }
            MC_CHECK(c, r == e, "message sent at tick %llu (timestamp %x), arrived %lld: scheduled %lld expected %lld", (unsigned long long)sent, ts.value, (long long)(arr - T0), (long long)(r - T0), (long long)(e - T0));
            MC_CHECK(c, r >= m.last_result, "order: scheduled %lld before the previous message at %lld", (long long)(r - T0), (long long)(m.last_result - T0));
            if (!m.locked || arr - ideal - m.dmin <= m.offset)
                MC_CHECK(c, r >= arr, "scheduled %lld before arrival %lld", (long long)(r - T0), (long long)(arr - T0));
            if (m.locked && m.steady && m.have_prev && m.offset == m.prev_offset)
                MC_CHECK(c, r - m.prev_result == ns(sent - m.prev_sent) * TICK, "distance %lld instead of %llu ticks", (long long)(r - m.prev_result), (unsigned long long)(sent - m.prev_sent));
            m.last_result = r;
            if (m.locked) { m.have_prev = true; m.prev_sent = sent; m.prev_result = r; m.prev_offset = m.offset; }
            c.outcome(u64(r - arr));
        }
    }
    MC_CHECK(c, nsof(f.jitter()) == m.dmax - m.dmin, "jitter %lld expected %lld", (long long)nsof(f.jitter()), (long long)(m.dmax - m.dmin));
    MC_CHECK(c, nsof(f.security_offset()) == m.offset, "security offset %lld expected %lld", (long long)nsof(f.security_offset()), (long long)m.offset);
    ++c.st->transitions;
    return true;
}
static u64 canon(const Model& m)
{
    u64 h = mix(m.sent & 0xFFFF, m.locked);
    h = mix(h, m.locked ? m.sent - m.clock : 0);
    h = mix(h, u64(m.dmin)); h = mix(h, u64(m.dmax)); h = mix(h, u64(m.offset));
    h = mix(h, u64(m.floor_ - (T0 + ns(m.sent) * TICK)));
    return mix(h, u64(m.arrived - (T0 + ns(m.sent) * TICK)));
}

MC_SECTION("C32", c32_histories);
// case: initial sender tick, then operations (last element of thorough alphabets keeps its index: alphabet flag first)
void c32_histories::run(Ctx& c, Args a)
{
    const auto al = alphabet(a[0]);
    Follower   f = make_follower();
    Model      m;
    m.sent = a[1];
    for (std::size_t i = 2; i < a.n; ++i)
        if (!step(c, f, m, al[a[i]])) return;
}
static void c32_dfs(Ctx& c, const std::vector<OpDef>& al, const Follower& f, const Model& m, int depth)
{
    for (std::size_t i = 0; i < al.size(); ++i)
    {
        Follower g(f);
        Model    n = m;
        c.push(i);
        if (step(c, g, n, al[i]))
        {
            ++c.st->evaluations;
            c.nontrivial(n.dmax != n.dmin);
            c.state(canon(n));
            if (depth > 1) c32_dfs(c, al, g, n, depth - 1);
            else ++c.st->traces;
        }
        c.pop();
    }
}
void c32_histories::enumerate(Ctx& c)
{
    c.bound(fmt("all histories of %d operations over %zu: clock / message with sender advances {1,100,40000,65535} ticks and network delays {0,1,5 ms%s} on a FIFO link, message at the same tick, security offset set to 0 / 7 ms, reset; from timestamps 0 and 65500; at most 65535 ticks after the last clock; all histories of %d operations with delays {0, 1, 31999 ns, 99, 250.000007 ms, 1.5, 4, 70 s} and offsets {0, 0.3, 100 s}", c.thorough ? 7 : 6, alphabet(c.thorough).size(), c.thorough ? ",1 ms + 1 ns" : "", c.thorough ? 5 : 4));
    for (u64 which : { u64(c.thorough), u64(2) })
    {
        const int  depth = which == 2 ? (c.thorough ? 5 : 4) : c.thorough ? 7 : 6;
        const auto al = alphabet(which);
        for (u64 start : { 0, 65500 })
            for (std::size_t i = 0; i < al.size(); ++i)
                for (std::size_t j = 0; j < al.size(); ++j)
                {
                    if (!c.mine()) continue;
                    const u64 head[] = { which, start, i, j };
                    c.set_case(head, 4);
                    Follower f = make_follower();
                    Model    m;
                    m.sent = start;
                    if (!step(c, f, m, al[i])) continue;
                    c.state(canon(m));
                    if (!step(c, f, m, al[j])) continue;
                    c.state(canon(m));
                    if (c.want_sample()) c.sample(fmt("start %llu, first operations %zu %zu, %d more", (unsigned long long)start, i, j, depth - 2));
                    c32_dfs(c, al, f, m, depth - 2);
                }
    }
}

// a prefix, then a loop of one or two operations many times, then every operation (counters, accumulated state)
MC_SECTION("C32", c32_loops);
void c32_loops::run(Ctx& c, Args a)
{
    // a0 number of rounds, a1 a2 prefix (0: none), a3 a4 loop (a4 0: one operation)
    const auto al = alphabet(0);
    Follower   f = make_follower();
    Model      m;
    m.sent = 65000;
    auto go = [&](u64 i) { return i == 0 || step(c, f, m, al[i - 1]); };
    if (!go(a[1]) || !go(a[2])) return;
    for (u64 i = 0; i < a[0]; ++i)
    {
        if (!go(a[3]) || !go(a[4])) return;
        if ((i & 4095) == 0) c.tick();
    }
    c.state(canon(m));
    c.nontrivial(m.dmax != m.dmin);
    for (auto& o : al)
    {
        Follower g(f);
        Model    n = m;
        step(c, g, n, o);
    }
    ++c.st->traces;
}
void c32_loops::enumerate(Ctx& c)
{
    const u64 n = alphabet(0).size(), rounds = c.thorough ? 20000 : 2100;
    c.bound(fmt("every loop of one or two operations after every prefix of one operation %llu times, after a clock and a message 70000 times, then every operation", (unsigned long long)rounds));
    for (u64 x = 1; x <= n; ++x)
        for (u64 y = 0; y <= n; ++y)
        {
            for (u64 p = 0; p <= n; ++p) if (c.mine()) c.exec<c32_loops>(rounds, p, 0, x, y);
            for (u64 p : { 1, 2, 3 }) if (c.mine()) c.exec<c32_loops>(70000, p, 11, x, y);
        }
}

// long regular streams: clock every k ticks, messages in between, jitter pattern; wraps many times
MC_SECTION("C32", c32_streams);
void c32_streams::run(Ctx& c, Args a)
{
    // a0 clock interval (ticks), a1 messages per interval, a2 delay pattern, a3 number of intervals, a4 initial tick
    static const ns pat[][4] = { { 0, 0, 0, 0 }, { 2 * ms, 2 * ms, 2 * ms, 2 * ms }, { 5 * ms, 3 * ms, 1 * ms, 0 }, { 0, 1 * ms, 3 * ms, 5 * ms }, { 1 * ms, 0, 4 * ms, 0 }, { 9 * ms, 1, 9 * ms, 2 } };
    // patterns 6.. : drifting sender clocks and a change of the route
    auto delay = [&](u64 i) -> ns {
        switch (a[2])
        {
        case 6: return std::max<ns>(0, 2000 * ms - ns(i) * ms);
        case 7: return ns(i) * 37001;
        case 8: return ns(i % 50) * 3 * ms;
        case 9: return i < a[3] / 2 ? 20000 * ms : 1;
        case 10: return i < a[3] / 2 ? 3 * ms : 900 * ms;
        default: return pat[a[2]][i % 4];
        }
    };
    Follower f = make_follower();
    Model    m;
    m.sent = a[4];
    const u64 nm = a[1];
    const u64 gap = a[0] / (nm + 1);
    for (u64 i = 0; i < a[3]; ++i)
    {
        const u64 dt = i == 0 ? 0 : a[0] - gap * nm;
        MC_CHECK(c, step(c, f, m, { 'c', dt, delay(i) }), "harness: advance too large");
        for (u64 k = 0; k < nm; ++k) MC_CHECK(c, step(c, f, m, { 'm', gap, delay(i + k + 1) }), "harness: advance too large");
        c.state(canon(m));
    }
    c.nontrivial(m.dmax != m.dmin);
    ++c.st->traces;
}
void c32_streams::enumerate(Ctx& c)
{
    c.bound("regular streams of 400 clocks (thorough: 4000) at 12 intervals from 1 to 65535 ticks, 0..4 messages between clocks, 11 delay patterns (constant, jittering, drifting, changing route), 3 initial timestamps");
    for (u64 iv : { 5, 31, 100, 3125, 6250, 15625, 31250, 32767, 32768, 40000, 65534, 65535 })
        for (u64 nm = 0; nm <= 4; ++nm)
            for (u64 p = 0; p < 11; ++p)
                for (u64 s : { 0, 1, 65535 })
                    if (c.mine()) c.exec<c32_streams>(iv, nm, p, c.thorough ? 4000 : 400, s);
}

int main(int argc, char** argv) { return mc::main_(argc, argv); }
