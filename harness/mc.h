// Tiny explicit enumeration framework used by every checker in this directory.
//
//  * A "section" owns an enumerator and a run function.  The enumerator produces cases (flat arrays of
//    integers); every case is announced in a shared "crumb" (mmap'ed file) before it is executed, so that a
//    crash, a sanitizer abort or a hang can be attributed to it.
//  * run(case) is deterministic and starts from fresh objects: replaying a case = calling run again.
//  * A section that explores operation sequences with copies of live objects (DFS) keeps the path in the
//    crumb; its run function replays the path from scratch.
#pragma once
#include <algorithm>
#include <array>
#include <cinttypes>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <csignal>
#include <unistd.h>
#include <unordered_set>
#include <vector>
#if NIMIDI2_CUSTOM_SYSEX_DATA_ALLOCATOR
#include "alloc_ledger.h"
#endif

namespace mc {

using u64 = std::uint64_t;
using u32 = std::uint32_t;
using u8  = std::uint8_t;

constexpr std::size_t max_args = 16384;

struct Crumb
{
    volatile u64 ticks;     // advanced with every case / step
    volatile u64 n;         // number of valid args
    char         section[64];
    volatile u64 v[max_args];
};

struct Args
{
    const u64*  v;
    std::size_t n;
    u64         operator[](std::size_t i) const { return i < n ? v[i] : 0; }
};

struct Ctx;
using EnumFn = void (*)(Ctx&);
using RunFn  = void (*)(Ctx&, Args);

struct SectionDef
{
    std::string property; // "C01"
    std::string name;
    EnumFn      enumerate;
    RunFn       run;
};

inline std::vector<SectionDef>& sections()
{
    static std::vector<SectionDef> s;
    return s;
}

struct Registrar
{
    Registrar(const char* props, const char* name, EnumFn e, RunFn r)
    {
        // props: comma separated list of property ids
        std::string p = props;
        std::size_t pos = 0;
        while (pos <= p.size())
        {
            auto q = p.find(',', pos);
            if (q == std::string::npos) q = p.size();
            sections().push_back({ p.substr(pos, q - pos), name, e, r });
            pos = q + 1;
        }
    }
};

#define MC_SECTION(props, name)                                                                                        \
    struct name                                                                                                        \
    {                                                                                                                  \
        static void enumerate(mc::Ctx&);                                                                               \
        static void run(mc::Ctx&, mc::Args);                                                                           \
    };                                                                                                                 \
    static mc::Registrar registrar_##name(props, #name, &name::enumerate, &name::run)

struct SectionStat
{
    u64                evaluations = 0;
    u64                nontrivial  = 0;
    u64                transitions = 0, traces = 0;
    std::unordered_set<u64> states; // canonical (model) states, merged over workers by the driver
    std::unordered_set<u64> outcomes; // capped
    std::vector<std::string> samples;
    std::string        bound;
};

struct Ctx
{
    std::string property, tier, outdir;
    bool        thorough = false;
    bool        san = false; // sanitizer build
    bool        mid = false; // quick tier proper or deeper; false: light (sanitizer builds, repetitions in other configurations)
    int         shard = 0, shards = 1;
    bool        replaying = false;
    Crumb*      crumb = nullptr;
    SectionStat* st = nullptr;
    std::map<std::string, SectionStat> stats;
    u64 shard_counter = 0;

    // work distribution: true if this worker owns the next block of work
    bool mine() { return (int)(shard_counter++ % (u64)shards) == shard; }
    bool mine(u64 i) const { return (int)(i % (u64)shards) == shard; }

    void tick() { ++crumb->ticks; }

    void set_case(const u64* v, std::size_t n)
    {
        if (n > max_args) n = max_args;
        for (std::size_t i = 0; i < n; ++i) crumb->v[i] = v[i];
        crumb->n = n;
        ++crumb->ticks;
    }
    void push(u64 v)
    {
        const auto n = crumb->n;
        if (n < max_args) { crumb->v[n] = v; crumb->n = n + 1; }
        ++crumb->ticks;
    }
    void pop() { if (crumb->n) crumb->n = crumb->n - 1; }
    std::vector<u64> path() const
    {
        std::vector<u64> r;
        for (u64 i = 0; i < crumb->n; ++i) r.push_back(u64(crumb->v[i]));
        return r;
    }

    // execute one case
    template<class S, class... A>
    void exec(A... a)
    {
        const u64 arr[] = { static_cast<u64>(a)... };
        for (std::size_t i = 0; i < sizeof...(A); ++i) crumb->v[i] = arr[i];
        crumb->n = sizeof...(A);
        ++crumb->ticks;
        ++st->evaluations;
        S::run(*this, Args{ arr, sizeof...(A) });
    }
    template<class S>
    void exec_vec(const std::vector<u64>& v)
    {
        set_case(v.data(), v.size());
        ++st->evaluations;
        S::run(*this, Args{ v.data(), v.size() });
    }

    void nontrivial(bool b = true) { if (b && st) ++st->nontrivial; }
    bool state(u64 h) { return st && st->states.size() < 3000000 && st->states.insert(h).second; }
    void outcome(u64 h) { if (st && st->outcomes.size() < 100000) st->outcomes.insert(h); }
    void bound(const std::string& b) { if (st) st->bound = b; }
    bool want_sample() const { return st && st->samples.size() < 4; }
    void sample(const std::string& s) { if (st && st->samples.size() < 4) st->samples.push_back(s); }

    [[noreturn]] void fail(const std::string& why)
    {
        std::string f = outdir + "/fail." + std::to_string(shard);
        if (FILE* o = fopen(f.c_str(), "w"))
        {
            fprintf(o, "section=%s\ncase=", crumb->section);
            for (u64 i = 0; i < crumb->n; ++i) fprintf(o, "%s%" PRIx64, i ? " " : "", (u64)crumb->v[i]);
            fprintf(o, "\nwhy=%s\n", why.c_str());
            fclose(o);
        }
        fprintf(stderr, "FAIL %s section=%s why=%s\n", property.c_str(), crumb->section, why.c_str());
        fflush(stderr);
        _exit(1);
    }
};

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...)
{
    char    buf[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof(buf), f, ap);
    va_end(ap);
    return buf;
}

#define MC_CHECK(ctx, cond, ...)                                                                                       \
    do                                                                                                                 \
    {                                                                                                                  \
        if (__builtin_expect(!(cond), 0)) (ctx).fail(mc::fmt("[%s] ", #cond) + mc::fmt(__VA_ARGS__));                  \
    } while (0)

inline u64 fnv(const void* d, std::size_t n, u64 h = 1469598103934665603ull)
{
    auto p = static_cast<const u8*>(d);
    for (std::size_t i = 0; i < n; ++i) { h ^= p[i]; h *= 1099511628211ull; }
    return h;
}
inline u64 mix(u64 h, u64 v)
{
    h = (h ^ (v + 0x9e3779b97f4a7c15ull)) * 0xbf58476d1ce4e5b9ull;
    h ^= h >> 31;
    h *= 0x94d049bb133111ebull;
    return h ^ (h >> 29);
}

inline std::string hex(const std::vector<u8>& v)
{
    std::string s;
    for (auto b : v) s += fmt("%02X ", b);
    if (!s.empty()) s.pop_back();
    return s;
}

inline std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 0x20 || c >= 0x7F) o += fmt("\\u%04x", c);
        else o += (char)c;
    }
    return o + "\"";
}

//---------------------------------------------------------------------------------------------------------------------

inline Crumb* g_crumb = nullptr;
inline u64    g_last_ticks = ~u64{ 0 };
inline int    g_stalls = 0;
inline int    g_max_stalls = 10;
inline void on_alarm(int)
{
    const u64 t = g_crumb->ticks;
    if (t == g_last_ticks)
    {
        if (++g_stalls >= g_max_stalls) { static const char m[] = "STALL\n"; (void)!write(2, m, sizeof(m) - 1); _exit(3); }
    }
    else g_stalls = 0;
    g_last_ticks = t;
}

// usage: harness run <property> <tier> <shard> <shards> <outdir>
//        harness replay <property> <file> <outdir>
inline int main_(int argc, char** argv)
{
    if (argc < 2) return 2;
    Ctx c;
    const std::string mode = argv[1];
    if (mode == "probe") return 0;
    auto map_crumb = [&](const std::string& f) {
        int fd = open(f.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Crumb)) != 0) { perror("crumb"); _exit(2); }
        c.crumb = static_cast<Crumb*>(mmap(nullptr, sizeof(Crumb), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        g_crumb = c.crumb;
    };
    if (mode == "run" && argc == 7)
    {
        c.property = argv[2]; c.tier = argv[3]; c.thorough = c.tier == "thorough";
#ifdef MC_SAN
        c.san = true;
        c.mid = c.thorough;
#else
        c.mid = c.tier != "light";
#endif
        c.shard = atoi(argv[4]); c.shards = atoi(argv[5]); c.outdir = argv[6];
        map_crumb(c.outdir + "/crumb." + std::to_string(c.shard));
        struct sigaction sa{}; sa.sa_handler = on_alarm; sa.sa_flags = SA_RESTART; sigaction(SIGALRM, &sa, nullptr);
        itimerval it{ { 3, 0 }, { 3, 0 } }; setitimer(ITIMER_REAL, &it, nullptr);
        bool any = false;
        const std::string skipped = std::string(" ") + (getenv("MC_SKIP") ? getenv("MC_SKIP") : "") + " ";
        for (auto& s : sections())
        {
            if (s.property != c.property) continue;
            any = true;
            if (skipped.find(" " + s.name + " ") != std::string::npos) continue; // left to the thorough tier
            memset(c.crumb->section, 0, sizeof(c.crumb->section));
            strncpy(c.crumb->section, s.name.c_str(), sizeof(c.crumb->section) - 1);
            c.crumb->n = 0; c.shard_counter = 0;
            c.st = &c.stats[s.name];
            s.enumerate(c);
        }
        if (!any) { fprintf(stderr, "no section for %s\n", c.property.c_str()); return 2; }
        FILE* o = fopen((c.outdir + "/cov." + std::to_string(c.shard) + ".json").c_str(), "w");
        if (!o) return 2;
        fprintf(o, "{");
        bool first = true;
        for (auto& [n, s] : c.stats)
        {
            fprintf(o, "%s%s:{\"evaluations\":%" PRIu64 ",\"nontrivial\":%" PRIu64 ",\"transitions\":%" PRIu64 ",\"traces\":%" PRIu64 ",\"bound\":%s,\"outcomes\":[",
                    first ? "" : ",", jstr(n).c_str(), s.evaluations, s.nontrivial, s.transitions, s.traces, jstr(s.bound).c_str());
            bool f2 = true; std::size_t k = 0;
            for (auto h : s.outcomes) { if (k++ >= 20000) break; fprintf(o, "%s\"%" PRIx64 "\"", f2 ? "" : ",", h); f2 = false; }
            fprintf(o, "],\"samples\":[");
            f2 = true;
            for (auto& x : s.samples) { fprintf(o, "%s%s", f2 ? "" : ",", jstr(x).c_str()); f2 = false; }
            fprintf(o, "]}");
            first = false;
            if (!s.states.empty())
                if (FILE* b = fopen((c.outdir + "/states." + n + "." + std::to_string(c.shard)).c_str(), "wb"))
                {
                    for (auto h : s.states) fwrite(&h, sizeof(h), 1, b);
                    fclose(b);
                }
        }
        fprintf(o, "}\n");
        fclose(o);
        return 0;
    }
    if (mode == "replay" && argc == 5)
    {
        c.property = argv[2]; c.outdir = argv[4]; c.replaying = true; c.tier = "replay";
        map_crumb(c.outdir + "/crumb.replay");
        FILE* f = fopen(argv[3], "r");
        if (!f) return 2;
        std::string sec; std::vector<u64> v;
        std::vector<char> line(1 << 20);
        while (fgets(line.data(), (int)line.size(), f))
        {
            std::string l = line.data();
            while (!l.empty() && (l.back() == '\n')) l.pop_back();
            if (l.rfind("section=", 0) == 0) sec = l.substr(8);
            if (l.rfind("case=", 0) == 0)
            {
                const char* p = l.c_str() + 5;
                while (*p)
                {
                    char* e; u64 x = strtoull(p, &e, 16);
                    if (e == p) break;
                    v.push_back(x); p = e;
                    while (*p == ' ') ++p;
                }
            }
        }
        fclose(f);
        for (auto& s : sections())
        {
            if (s.property != c.property || s.name != sec) continue;
            strncpy(c.crumb->section, s.name.c_str(), sizeof(c.crumb->section) - 1);
            c.st = &c.stats[s.name];
            c.set_case(v.data(), v.size());
            s.run(c, Args{ v.data(), v.size() });
            fprintf(stderr, "replay passed\n");
            return 0;
        }
        fprintf(stderr, "no such section %s\n", sec.c_str());
        return 2;
    }
    return 2;
}

} // namespace mc
