// C38: callbacks that throw; C39: callbacks that reconfigure (further down).  Every bounded history; the callback of its last step throws (for each of the callbacks of
// that step); the exception must arrive unchanged; after reset() the object must behave like a new one with the same
// settings on each of several continuations.
#include "mc.h"
#include <midi/midi1_byte_stream.h>
#include <midi/sysex.h>
#include <midi/sysex_collector.h>
#include <midi/data_message.h>
#include <midi/extended_data_message.h>
using namespace mc;
using midi::universal_packet;

#include <future>
#include <stdexcept>
#include <string>
#include <system_error>
struct Boom { u64 id; };
// the kinds of exceptions a callback may throw: of no class, with and without standard bases, standard ones
struct Derived : std::runtime_error { u64 id; explicit Derived(u64 i) : std::runtime_error("derived"), id(i) {} };
struct Multiple : std::logic_error, Boom { explicit Multiple(u64 i) : std::logic_error("multiple"), Boom{ i } {} };
struct Memory : std::bad_alloc { u64 id; explicit Memory(u64 i) : id(i) {} };
constexpr unsigned n_thrown = 10;
[[noreturn]] static void throw_it(unsigned what, u64 id)
{
    switch (what)
    {
    case 0: throw Boom{ id };
    case 1: throw Derived(id);
    case 2: throw Multiple(id);
    case 3: throw Memory(id);
    case 4: throw id;
    case 5: throw std::to_string(id);
    case 6: throw std::bad_alloc();
    case 7: throw std::system_error(std::make_error_code(std::errc::io_error), std::to_string(id));
    case 8: throw std::length_error(std::to_string(id));
    default: throw std::bad_function_call();
    }
}
// what arrived: exactly that exception
static bool arrived(unsigned what, u64 id)
{
    try { throw; }
    catch (const Derived& e) { return what == 1 && e.id == id && typeid(e) == typeid(Derived); }
    catch (const Multiple& e) { return what == 2 && e.id == id && typeid(static_cast<const std::exception&>(e)) == typeid(Multiple); }
    catch (const Boom& e) { return what == 0 && e.id == id; }
    catch (const Memory& e) { return what == 3 && e.id == id; }
    catch (u64 e) { return what == 4 && e == id; }
    catch (const std::string& e) { return what == 5 && e == std::to_string(id); }
    catch (const std::bad_alloc& e) { return what == 6 && typeid(e) == typeid(std::bad_alloc); }
    catch (const std::system_error& e) { return what == 7 && e.code() == std::errc::io_error && typeid(e) == typeid(std::system_error) && std::string(e.what()).find(std::to_string(id)) == 0; }
    catch (const std::length_error& e) { return what == 8 && e.what() == std::to_string(id); }
    catch (const std::bad_function_call&) { return what == 9; }
    catch (...) { return false; }
}

// what the callbacks see
struct Rec
{
    std::vector<std::vector<u32>> ev;
    long countdown = -1; // callbacks until one throws
    u64  id = 0;
    unsigned what = 0;
    std::function<void()> action; // called instead of throwing
    void add(std::vector<u32> v)
    {
        ev.push_back(std::move(v));
        if (countdown >= 0 && countdown-- == 0) { if (action) action(); else throw_it(what, id); }
    }
    void packet(const universal_packet& p) { std::vector<u32> v{ 1 }; for (std::size_t i = 0; i < p.size(); ++i) v.push_back(p.data[i]); add(v); }
    void sysex(const midi::sysex& s, unsigned stream) { std::vector<u32> v{ 2, u32(s.manufacturerID), stream }; for (auto b : s.data) v.push_back(b); add(v); }
};
static std::string str(const std::vector<std::vector<u32>>& e)
{
    std::string s;
    for (auto& x : e) { s += "{"; for (auto w : x) s += fmt("%X ", w); s += "}"; if (s.size() > 600) break; }
    return s;
}

enum Kind { parser_packets, parser_sysex, collector7, collector8, n_kinds };
static const char* kind_name[] = { "parser", "parser with SysEx handler", "SysEx7 collector", "SysEx8 collector" };

struct Obj
{
    Kind k;
    Rec* r;
    midi::midi1_byte_stream_parser p;
    midi::sysex7_collector c7;
    midi::sysex8_collector c8;
    // settings: 0 as constructed, 1 other group, size limit set
    Obj(Kind kind, Rec* rec, u64 settings = 0)
      : k(kind)
      , r(rec)
      , p(settings ? 14 : 3, [rec](universal_packet x) { rec->packet(x); },
          kind == parser_sysex ? midi::midi1_byte_stream_parser::sysex_callback([rec](const midi::sysex7& s) { rec->sysex(s, 0); }) : midi::midi1_byte_stream_parser::sysex_callback{})
      , c7([rec](const midi::sysex7& s) { rec->sysex(s, 0); })
      , c8([rec](const midi::sysex8& s, u8 id) { rec->sysex(s, id); })
    {
        if (settings) { c7.set_max_sysex_data_size(30); c8.set_max_sysex_data_size(30); }
    }
    void reset() { if (k <= parser_sysex) p.reset(); else if (k == collector7) c7.reset(); else c8.reset(); }
};

struct Block { std::vector<u8> bytes; std::vector<universal_packet> packets; };
static std::vector<Block> make_blocks(Kind k)
{
    std::vector<Block> r;
    if (k <= parser_sysex)
    {
        for (std::vector<u8> v : { std::vector<u8>{ 0x90, 0x3C, 0x40 }, { 0x3C, 0x00 }, { 0x3D }, { 0xC2, 0x05 }, { 0xF2, 0x01, 0x02 }, { 0xF6 }, { 0xF3, 0x07 }, { 0xF8 }, { 0xF0 }, { 0xF7 }, { 0x7E, 0x01, 0x02 }, { 0x00, 0x21, 0x09 },
                                   { 0xF0, 0x7E, 0x7F, 0x06, 0x01, 0xF7 }, { 0xF0, 0x41, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 0xF7 }, { 0xF0, 0x00, 0x20, 0x33, 1, 2, 3 }, { 0xF4 },
                                   { 0x91, 1, 2, 3, 4, 0xF8, 5, 6, 0xF0, 0x7D, 1, 0xFE, 2, 3, 4, 5, 6, 7, 0xF7, 0xE0, 0, 0 } })
            r.push_back({ v, {} });
        return r;
    }
    auto add = [&](u32 man, unsigned len, unsigned cut) {
        Block b;
        std::vector<u8> d;
        for (unsigned i = 0; i < len; ++i) d.push_back(u8(i * 7 + man) & 0x7F);
        if (k == collector7) { for (auto& p : midi::as_sysex7_packets(midi::sysex7(man, d.data(), d.size()), 1)) b.packets.push_back(p); }
        else for (auto& p : midi::as_sysex8_packets(midi::sysex8(man, d.data(), d.size()), u8(len), 1)) b.packets.push_back(p);
        if (cut == 1) b.packets.pop_back();
        if (cut == 2) b.packets.erase(b.packets.begin());
        r.push_back(b);
    };
    for (u32 m : { 0x7E0000u, 0x002109u }) for (unsigned l : { 0u, 1u, 3u, 12u, 13u, 40u, 200u }) add(m, l, 0);
    for (u32 m : { 0x410000u, 0x00200Au }) for (unsigned l : { 20u, 40u }) for (unsigned cut : { 1u, 2u }) add(m, l, cut);
    r.push_back({ {}, { universal_packet{ 0x20903C40u } } });
    return r;
}
static const std::vector<Block>& blocks(Kind k)
{
    static const std::vector<Block> b[n_kinds] = { make_blocks(parser_packets), make_blocks(parser_sysex), make_blocks(collector7), make_blocks(collector8) };
    return b[k];
}
static void feed(Obj& o, const Block& b, unsigned how)
{
    if (o.k <= parser_sysex)
    {
        if (how % 2 == 0) for (auto x : b.bytes) o.p.feed(x);
        else o.p.feed(b.bytes.data(), b.bytes.data() + b.bytes.size());
    }
    else for (auto& p : b.packets) if (o.k == collector7) o.c7.feed(p); else o.c8.feed(p);
}

// case: kind, feeding, blocks...
MC_SECTION("C38", throwing);
void throwing::run(Ctx& c, Args a)
{
    const Kind k = Kind(a[0]);
    const auto& bl = blocks(k);
    // number of callbacks of the last block
    std::size_t before = 0, all = 0;
    {
        Rec r; Obj o(k, &r, a[1] / 2);
        for (std::size_t i = 2; i < a.n; ++i) { if (i + 1 == a.n) before = r.ev.size(); feed(o, bl[a[i]], unsigned(a[1])); }
        all = r.ev.size();
    }
    // short histories: every kind of exception
    u64 sum = 0;
    for (std::size_t i = 0; i < a.n; ++i) sum += a[i];
    const unsigned kinds = a.n <= 4 ? n_thrown : 1;
    for (std::size_t fail = before; fail < all; ++fail)
        for (unsigned twice = 0; twice < 2 * kinds; ++twice)
        {
            Rec r; Obj o(k, &r, a[1] / 2);
            r.what = unsigned((kinds > 1 ? twice / 2 : sum + fail) % n_thrown);
            for (std::size_t i = 2; i + 1 < a.n; ++i) feed(o, bl[a[i]], unsigned(a[1]));
            for (unsigned n = 0; n <= twice % 2; ++n)
            {
                r.countdown = long(fail - before);
                r.id = 1000 + fail + n;
                const auto had = r.ev.size();
                bool thrown = false;
                try { feed(o, bl[a[a.n - 1]], unsigned(a[1])); }
                catch (...) { thrown = true; MC_CHECK(c, arrived(r.what, 1000 + fail + n), "%s: another exception arrived instead of kind %u", kind_name[k], r.what); }
                if (n == 0) MC_CHECK(c, thrown && r.ev.size() == had + (fail - before) + 1, "%s: exception of callback %zu lost, or further callbacks (%zu)", kind_name[k], fail - before, r.ev.size() - had);
                r.countdown = -1;
                o.reset();
            }
            ++c.st->transitions; ++c.st->traces;
            // all later messages like a new object: every block, then two fixed ones
            for (std::size_t s = 0; s < bl.size(); ++s)
            {
                Rec n; Obj f(k, &n, a[1] / 2);
                Obj copy = o; // the copy reports to r as well
                r.ev.clear();
                for (std::size_t x : { s, std::size_t(9), std::size_t(0), bl.size() - 5 }) /* 9: end of SysEx */ { feed(copy, bl[x], unsigned(a[1])); feed(f, bl[x], unsigned(a[1])); }
                MC_CHECK(c, r.ev == n.ev, "%s, after a throwing callback and reset: %s instead of %s", kind_name[k], str(r.ev).c_str(), str(n.ev).c_str());
                ++c.st->transitions;
            }
            r.ev.clear();
            Rec n; Obj f(k, &n, a[1] / 2);
            for (auto& b : bl) { feed(o, b, unsigned(a[1])); feed(f, b, unsigned(a[1])); }
            MC_CHECK(c, r.ev == n.ev, "%s, after a throwing callback and reset: %s instead of %s", kind_name[k], str(r.ev).c_str(), str(n.ev).c_str());
            MC_CHECK(c, o.p.group() == f.p.group() && o.p.callbacks_enabled(), "settings changed");
        }
    if (all > before) { c.nontrivial(); c.outcome(mix(mix(a[0], all), a[a.n - 1])); }
    u64 h = a[0];
    for (std::size_t i = 2; i < a.n; ++i) h = mix(h, a[i]);
    c.state(h);
    if (c.want_sample() && a.n > 3 && all > before) c.sample(fmt("%s: %zu blocks, %zu callbacks in the last one", kind_name[k], a.n - 2, all - before));
}
void throwing::enumerate(Ctx& c)
{
    const unsigned depth = !c.mid ? 3 : c.thorough && !c.san ? 5 : 4;
    c.bound(fmt("parser (packets / SysEx handler; byte-wise / blocks), both collectors: all histories of up to %u blocks out of 17 / 23, with other group / size limit set one block less; every callback of the last block throws (histories of up to two blocks: each of 10 kinds of exceptions) once or twice, then reset, then every block and all blocks in a row", depth));
    for (u64 k = 0; k < n_kinds; ++k)
        for (u64 how = 0; how < 4; ++how)
        {
            if (how % 2 && k > parser_sysex) continue;
            std::vector<u64> v{ k, how };
            std::function<void(unsigned)> rec = [&](unsigned left) {
                if (v.size() > 2 && c.mine()) c.exec_vec<throwing>(v);
                if (!left) return;
                for (u64 b = 0; b < blocks(Kind(k)).size(); ++b) { v.push_back(b); rec(left - 1); v.pop_back(); }
            };
            rec(how < 2 ? depth : depth - 1);
        }
}

// C39: a callback reconfigures or resets the object that called it: same as doing so right after the feed call
enum Action { act_reset, act_disable, act_group, act_group_reset, act_disable_enable, act_limit_0, act_limit_3, act_limit_100, act_limit_20000, act_limit_reset, n_actions };
static void act(Obj& o, u64 a)
{
    if (o.k <= parser_sysex)
        switch (a)
        {
        case act_reset: o.p.reset(); break;
        case act_disable: o.p.enable_callbacks(false); break;
        case act_group: o.p.set_group(9); break;
        case act_group_reset: o.p.set_group(11); o.p.reset(); break;
        case act_disable_enable: o.p.enable_callbacks(false); o.p.enable_callbacks(true); break;
        }
    else
    {
        auto lim = [&](std::size_t n) { if (o.k == collector7) o.c7.set_max_sysex_data_size(n); else o.c8.set_max_sysex_data_size(n); };
        switch (a)
        {
        case act_reset: o.reset(); break;
        case act_limit_0: lim(0); break;
        case act_limit_3: lim(3); break;
        case act_limit_100: lim(100); break;
        case act_limit_20000: lim(20000); break;
        case act_limit_reset: lim(13); o.reset(); break;
        }
    }
}
static bool has_action(Kind k, u64 a) { return k <= parser_sysex ? a <= act_disable_enable : a == act_reset || a >= act_limit_0; }

// case: kind, feeding, action, blocks...
MC_SECTION("C39", reconfigure);
void reconfigure::run(Ctx& c, Args a)
{
    const Kind k = Kind(a[0]);
    const auto& bl = blocks(k);
    std::size_t before = 0, all = 0;
    {
        Rec r; Obj o(k, &r, a[1] / 2);
        for (std::size_t i = 3; i < a.n; ++i) { if (i + 1 == a.n) before = r.ev.size(); feed(o, bl[a[i]], unsigned(a[1])); }
        all = r.ev.size();
    }
    for (std::size_t at = before; at < all; ++at)
    {
        Rec r, n;
        Obj o(k, &r, a[1] / 2), f(k, &n, a[1] / 2);
        for (std::size_t i = 3; i + 1 < a.n; ++i) { feed(o, bl[a[i]], unsigned(a[1])); feed(f, bl[a[i]], 0); }
        // inside the callback
        const auto& last = bl[a[a.n - 1]];
        bool done = false;
        r.action = [&] { act(o, a[2]); };
        r.countdown = long(at - before);
        feed(o, last, unsigned(a[1]));
        r.action = nullptr;
        r.countdown = -1;
        // right after the call
        auto step = [&] { if (!done && n.ev.size() == at + 1) { act(f, a[2]); done = true; } };
        if (k <= parser_sysex) for (auto b : last.bytes) { f.p.feed(b); step(); }
        else for (auto& p : last.packets) { if (k == collector7) f.c7.feed(p); else f.c8.feed(p); step(); }
        MC_CHECK(c, done && r.ev == n.ev, "%s, action %d in callback %zu: %s instead of %s", kind_name[k], int(a[2]), at, str(r.ev).c_str(), str(n.ev).c_str());
        ++c.st->transitions; ++c.st->traces;
        // continuations: every block; for the parser also with callbacks enabled again before or after it
        const int modes = k <= parser_sysex && a[2] == act_disable ? 3 : 1;
        for (int mode = 0; mode < modes; ++mode)
            for (std::size_t s = 0; s < bl.size(); ++s)
            {
                Obj co = o, cf = f; // report to r and n
                r.ev.clear(); n.ev.clear();
                int i = 0;
                for (std::size_t x : { s, std::size_t(9), std::size_t(0), bl.size() - 5 }) // 9: end of SysEx
                {
                    if (i++ == mode - 1) { co.p.enable_callbacks(true); cf.p.enable_callbacks(true); }
                    feed(co, bl[x], unsigned(a[1])); feed(cf, bl[x], 0);
                }
                MC_CHECK(c, r.ev == n.ev, "%s, after action %d in callback %zu: %s instead of %s", kind_name[k], int(a[2]), at, str(r.ev).c_str(), str(n.ev).c_str());
                ++c.st->transitions;
            }
        MC_CHECK(c, o.p.group() == f.p.group() && o.p.callbacks_enabled() == f.p.callbacks_enabled(), "%s, action %d: settings differ", kind_name[k], int(a[2]));
    }
    if (all > before) { c.nontrivial(); c.outcome(mix(mix(mix(a[0], all), a[a.n - 1]), a[2])); }
    u64 h = mix(a[0], a[2]);
    for (std::size_t i = 3; i < a.n; ++i) h = mix(h, a[i]);
    c.state(h);
    if (c.want_sample() && a.n > 4 && all > before) c.sample(fmt("%s: %zu blocks, action %d in each of %zu callbacks", kind_name[k], a.n - 3, int(a[2]), all - before));
}
void reconfigure::enumerate(Ctx& c)
{
    const unsigned depth = !c.mid ? 3 : c.thorough && !c.san ? 5 : 4;
    c.bound(fmt("parser (packets / SysEx handler; byte-wise / blocks), both collectors: all histories of up to %u blocks out of 17 / 23, with other group / size limit set one block less; every callback of the last block resets the object, changes group, enables, disables or changes the size limit, then every block", depth));
    for (u64 k = 0; k < n_kinds; ++k)
        for (u64 how = 0; how < 4; ++how)
            for (u64 x = 0; x < n_actions; ++x)
            {
                if (!has_action(Kind(k), x) || (how % 2 && k > parser_sysex)) continue;
                std::vector<u64> v{ k, how, x };
                std::function<void(unsigned)> rec = [&](unsigned left) {
                    if (v.size() > 3 && c.mine()) c.exec_vec<reconfigure>(v);
                    if (!left) return;
                    for (u64 b = 0; b < blocks(Kind(k)).size(); ++b) { v.push_back(b); rec(left - 1); v.pop_back(); }
                };
                rec(how < 2 ? depth : depth - 1);
            }
}

// C38, C39: many times on the same object
// case: kind, feeding, repetitions, blocks...
MC_SECTION("C38", throwing_again);
void throwing_again::run(Ctx& c, Args a)
{
    const Kind k = Kind(a[0]);
    const auto& bl = blocks(k);
    Rec r, n; Obj o(k, &r, a[1] / 2);
    std::size_t count = 0;
    { Obj x(k, &n, a[1] / 2); for (std::size_t i = 3; i < a.n; ++i) { n.ev.clear(); feed(x, bl[a[i]], unsigned(a[1])); } count = n.ev.size(); }
    if (!count) return;
    c.nontrivial();
    for (u64 i = 0; i < a[2]; ++i)
    {
        r.ev.clear(); n.ev.clear();
        for (std::size_t j = 3; j + 1 < a.n; ++j) feed(o, bl[a[j]], unsigned(a[1]));
        const auto had = r.ev.size();
        r.what = unsigned(i % n_thrown); r.id = i;
        r.countdown = long(i % count);
        bool thrown = false;
        try { feed(o, bl[a[a.n - 1]], unsigned(a[1])); }
        catch (...) { thrown = true; MC_CHECK(c, arrived(r.what, i), "%s: another exception arrived instead of kind %u (repetition %llu)", kind_name[k], r.what, (unsigned long long)i); }
        MC_CHECK(c, thrown && r.ev.size() == had + i % count + 1, "%s: exception lost, or further callbacks (repetition %llu)", kind_name[k], (unsigned long long)i);
        r.countdown = -1;
        o.reset();
        ++c.st->transitions; ++c.st->traces;
        r.ev.clear();
        Obj f(k, &n, a[1] / 2);
        for (std::size_t x : { std::size_t(i % bl.size()), std::size_t(9), std::size_t(0) }) { feed(o, bl[x], unsigned(a[1])); feed(f, bl[x], unsigned(a[1])); }
        MC_CHECK(c, r.ev == n.ev && o.p.group() == f.p.group() && o.p.callbacks_enabled(), "%s, after %llu throwing callbacks and resets: %s instead of %s", kind_name[k], (unsigned long long)i + 1, str(r.ev).c_str(), str(n.ev).c_str());
        o.reset();
    }
    u64 h = mix(a[0], a[1]);
    for (std::size_t i = 3; i < a.n; ++i) h = mix(h, a[i]);
    c.state(h); c.outcome(h);
}
void throwing_again::enumerate(Ctx& c)
{
    const u64 reps = c.san ? 300 : c.thorough ? 66000 : 1100;
    c.bound(fmt("the same object thrown at and reset %llu times in a row (all kinds of exceptions, all callbacks in turn): every block alone and after every other; compared with a new object after each", (unsigned long long)reps));
    for (u64 k = 0; k < n_kinds; ++k)
        for (u64 how = 0; how < 4; ++how)
        {
            if (how % 2 && k > parser_sysex) continue;
            for (u64 x = 0; x < blocks(Kind(k)).size(); ++x)
            {
                if (c.mine()) c.exec_vec<throwing_again>(std::vector<u64>{ k, how, x == 0 && c.mid ? std::max<u64>(reps, 66000) : reps, x });
                if (c.mid) for (u64 y = 0; y < blocks(Kind(k)).size(); ++y) if (c.mine()) c.exec_vec<throwing_again>(std::vector<u64>{ k, how, reps, y, x });
            }
        }
}

// case: kind, feeding, action, repetitions, blocks...
MC_SECTION("C39", reconfigure_always);
void reconfigure_always::run(Ctx& c, Args a)
{
    const Kind k = Kind(a[0]);
    const auto& bl = blocks(k);
    Rec r, n;
    Obj o(k, &r, a[1] / 2), f(k, &n, a[1] / 2);
    bool any = false;
    for (u64 i = 0; i < a[3]; ++i)
    {
        for (std::size_t j = 4; j < a.n; ++j)
        {
            const auto& b = bl[a[j]];
            r.ev.clear(); n.ev.clear();
            r.action = [&] { act(o, a[2]); r.countdown = 0; };
            r.countdown = 0;
            feed(o, b, unsigned(a[1]));
            r.countdown = -1;
            std::size_t seen = 0;
            auto step = [&] { for (; seen < n.ev.size(); ++seen) act(f, a[2]); };
            if (k <= parser_sysex) for (auto x : b.bytes) { f.p.feed(x); step(); }
            else for (auto& p : b.packets) { if (k == collector7) f.c7.feed(p); else f.c8.feed(p); step(); }
            any |= !n.ev.empty();
            MC_CHECK(c, r.ev == n.ev, "%s, action %d in all callbacks, repetition %llu: %s instead of %s", kind_name[k], int(a[2]), (unsigned long long)i, str(r.ev).c_str(), str(n.ev).c_str());
            ++c.st->transitions;
        }
        ++c.st->traces;
        if (o.k <= parser_sysex && a[2] == act_disable) { o.p.enable_callbacks(true); f.p.enable_callbacks(true); }
        MC_CHECK(c, o.p.group() == f.p.group() && o.p.callbacks_enabled() == f.p.callbacks_enabled(), "%s, action %d: settings differ", kind_name[k], int(a[2]));
    }
    if (any) c.nontrivial();
    u64 h = mix(mix(a[0], a[1]), a[2]);
    for (std::size_t i = 4; i < a.n; ++i) h = mix(h, a[i]);
    c.state(h); c.outcome(h);
}
void reconfigure_always::enumerate(Ctx& c)
{
    const unsigned depth = !c.mid ? 2 : 3;
    const u64 reps = c.san ? 10 : c.thorough ? 3000 : 300;
    c.bound(fmt("every callback of the whole history acts: all sequences of up to %u blocks, each sequence repeated %llu times (longest: 3 times; single blocks: 66000) on the same object", depth, (unsigned long long)reps));
    for (u64 k = 0; k < n_kinds; ++k)
        for (u64 how = 0; how < 4; ++how)
            for (u64 x = 0; x < n_actions; ++x)
            {
                if (!has_action(Kind(k), x) || (how % 2 && k > parser_sysex)) continue;
                std::vector<u64> v{ k, how, x, reps };
                std::function<void(unsigned)> rec = [&](unsigned left) {
                    if (v.size() > 4 && c.mine()) { v[3] = v.size() == 5 && !c.san ? 66000 : v.size() == 7 ? 3 : reps; c.exec_vec<reconfigure_always>(v); }
                    if (!left) return;
                    for (u64 b = 0; b < blocks(Kind(k)).size(); ++b) { v.push_back(b); rec(left - 1); v.pop_back(); }
                };
                rec(depth);
            }
}

int main(int argc, char** argv) { return mc::main_(argc, argv); }
