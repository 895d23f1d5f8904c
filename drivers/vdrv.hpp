// Oracle-free conformance driver framework.
//
// A driver interprets calls ("ops": a name and up to NARG small integers)
// against real mdds containers through their public API and logs, per call,
// the observed state before, the call, the observed result and the observed
// state after, as one ndjson line.  It knows nothing about what is right.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <new>
#include <string>
#include <string_view>
#include <vector>
#include <unordered_set>
#include <iostream>
#include <fstream>
#include <sstream>
#include <functional>
#include <exception>
#include <stdexcept>
#include <unistd.h>
#include <sys/time.h>
#include <fcntl.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>
#endif

namespace vd {

// ---------------------------------------------------------------- allocation
// Live allocations made while library code runs ("in_lib") are counted.
inline long g_live = 0;
inline bool g_in_lib = false;
inline long g_bytes = 0;
void out_of_memory() noexcept;
struct LibScope
{
    bool old;
    LibScope() : old(g_in_lib) { g_in_lib = true; }
    ~LibScope() { g_in_lib = old; }
};
struct NoLibScope
{
    bool old;
    NoLibScope() : old(g_in_lib) { g_in_lib = false; }
    ~NoLibScope() { g_in_lib = old; }
};
// fault injection: the g_fail_at-th allocation in library scope throws
inline long g_fail_at = -1;

} // namespace vd

struct vd_hdr { std::uint64_t tag; std::uint64_t pad; };
inline void* vd_alloc(std::size_t n)
{
    if (vd::g_in_lib && vd::g_fail_at >= 0)
    {
        if (vd::g_fail_at-- == 0)
            throw std::bad_alloc();
    }
    auto* h = static_cast<vd_hdr*>(std::malloc(n + sizeof(vd_hdr)));
    if (!h)
        throw std::bad_alloc();
    h->tag = vd::g_in_lib ? 0x51AB1Eull : 0x0DDull;
    h->pad = n;
    if (vd::g_in_lib)
    {
        ++vd::g_live;
        vd::g_bytes += long(n);
        if (vd::g_bytes > (1L << 30))
            vd::out_of_memory();
    }
    return h + 1;
}
inline void vd_free(void* p) noexcept
{
    if (!p)
        return;
    auto* h = static_cast<vd_hdr*>(p) - 1;
    if (h->tag == 0x51AB1Eull)
    {
        --vd::g_live;
        vd::g_bytes -= long(h->pad);
    }
    h->tag = 0;
    std::free(h);
}
// one definition per program: further translation units define VDRV_UNIT
#ifndef VDRV_UNIT
void* operator new(std::size_t n) { return vd_alloc(n); }
void* operator new[](std::size_t n) { return vd_alloc(n); }
void operator delete(void* p) noexcept { vd_free(p); }
void operator delete[](void* p) noexcept { vd_free(p); }
void operator delete(void* p, std::size_t) noexcept { vd_free(p); }
void operator delete[](void* p, std::size_t) noexcept { vd_free(p); }
#endif

namespace vd {

struct Rng
{
    std::uint64_t s;
    explicit Rng(std::uint64_t seed = 1) : s(seed * 0xD1342543DE82EF95ull + 0x1234567ull)
    {
        s = next() ^ (seed << 32); // decorrelate neighbouring seeds
        s = next();
    }
    std::uint64_t next()
    {
        s += 0x9E3779B97F4A7C15ull;
        std::uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int below(int n) { return n <= 1 ? 0 : int(next() % std::uint64_t(n)); }
    int range(int a, int b) { return a + below(b - a + 1); } // inclusive
    bool chance(int num, int den) { return below(den) < num; }
};

constexpr int NARG = 10;
struct Op
{
    const char* name = "";
    int n = 0;
    int a[NARG] = {};
    Op() = default;
    Op(const char* nm, std::initializer_list<int> l = {}) : name(nm)
    {
        for (int v : l) a[n++] = v;
    }
    bool is(const char* s) const { return std::strcmp(name, s) == 0; }
};

using Out = std::string;
inline void jint(Out& o, long long v)
{
    char b[24];
    int k = std::snprintf(b, sizeof b, "%lld", v);
    o.append(b, k);
}
inline void jstr(Out& o, std::string_view s) { o += '"'; o += s; o += '"'; }
inline void jbool(Out& o, bool b) { o += b ? "true" : "false"; }
// list helper
struct JL
{
    Out& o; bool first = true; char close;
    JL(Out& out, char open = '[', char cl = ']') : o(out), close(cl) { o += open; }
    void sep() { if (!first) o += ','; first = false; }
    JL& i(long long v) { sep(); jint(o, v); return *this; }
    JL& s(std::string_view v) { sep(); jstr(o, v); return *this; }
    JL& b(bool v) { sep(); jbool(o, v); return *this; }
    JL& key(const char* k) { sep(); jstr(o, k); o += ':'; return *this; }
    ~JL() { o += close; }
};

class Driver
{
public:
    virtual ~Driver() = default;
    // profile: which mix of calls; variant: which container configuration
    virtual void reset(int variant, const std::string& profile) = 0;
    virtual Op gen(Rng& r) = 0;                       // next call of a random history
    virtual std::vector<Op> alphabet() { return {}; } // calls for exhaustive mode
    virtual std::vector<Op> prologue() { return {}; } // calls every trace of walk/exh modes starts with
    virtual bool enabled(const Op&) { return true; }  // API precondition holds
    virtual void exec(const Op& op, Out& res) = 0;    // JSON array
    virtual void obs(Out& o) = 0;                     // JSON of the observed state
    virtual void destroy() = 0;                       // destroy every container
    virtual void op_json(const Op& op, Out& o)
    {
        JL l(o);
        l.s(op.name);
        for (int i = 0; i < op.n; ++i) l.i(op.a[i]);
    }
    virtual bool end_line() { return true; }          // log the teardown accounting
    virtual int walk_len(Rng& r, int len) { return 1 + r.below(len); }
};

// ------------------------------------------------------------ crash handling
inline int g_fd = -1;
inline long g_trace = 0;   // the random trace being generated
inline char g_cur[1 << 20];
inline std::size_t g_cur_len = 0;
inline volatile long g_progress = 0, g_seen = -1;
inline volatile int g_stuck = 0;
inline void flush_fd(const char* p, std::size_t n)
{
    while (n)
    {
        ssize_t k = ::write(g_fd, p, n);
        if (k <= 0) break;
        p += k; n -= std::size_t(k);
    }
}
inline std::string g_buf; // pending complete lines
inline const char* g_crash_kind = "crash";
inline volatile bool g_crashed = false;
inline void on_death()
{
    if (g_crashed) return;
    g_crashed = true;
    if (g_fd < 0) return;
    flush_fd(g_buf.data(), g_buf.size());
    flush_fd(g_cur, g_cur_len);
    // g_cur holds {"w":..,"pre":..,"op":..,   with  "post":PRE} appended at the marker
    const char* a = "\"res\":[\"";
    flush_fd(a, std::strlen(a));
    flush_fd(g_crash_kind, std::strlen(g_crash_kind));
    const char* b = "\"],\"post\":";
    flush_fd(b, std::strlen(b));
    const char* pre = std::strstr(g_cur, "\"pre\":");
    const char* op = std::strstr(g_cur, ",\"op\":");
    if (pre && op && pre < op)
        flush_fd(pre + 6, std::size_t(op - pre - 6));
    else
        flush_fd("[]", 2);
    flush_fd("}\n", 2);
}
inline void on_signal(int)
{
    on_death();
    ::_exit(77);
}
inline void out_of_memory() noexcept
{
    g_crash_kind = "runaway-memory";
    on_death();
    ::_exit(77);
}
inline void on_tick(int)
{
    // fires once per second of process CPU time
    if (g_progress != g_seen) { g_seen = g_progress; g_stuck = 0; return; }
    g_stuck = g_stuck + 1;
    if (g_stuck < 8) return;
    g_crash_kind = "hang";
    on_death();
    ::_exit(77);
}
inline void install_handlers()
{
#if defined(__SANITIZE_ADDRESS__)
    __sanitizer_set_death_callback(on_death);
#else
    std::signal(SIGSEGV, on_signal);
    std::signal(SIGBUS, on_signal);
#endif
    std::signal(SIGFPE, on_signal);
    std::signal(SIGILL, on_signal); // -fsanitize-trap=undefined
    std::signal(SIGTRAP, on_signal);
    std::signal(SIGABRT, on_signal);
    struct sigaction sa{};
    sa.sa_handler = on_tick;
    sa.sa_flags = SA_RESTART;
    sigaction(SIGPROF, &sa, nullptr);
    itimerval tv{};
    tv.it_interval.tv_sec = 1;
    tv.it_value.tv_sec = 1;
    setitimer(ITIMER_PROF, &tv, nullptr);
}

// ------------------------------------------------------------------- runner
struct Runner
{
    Driver& d;
    std::unordered_set<std::uint64_t> seen;
    bool dedup = false;
    long max_lines = 1L << 40;
    long lines = 0, steps = 0, traces = 0;
    std::string variant_s;
    explicit Runner(Driver& dr) : d(dr) {}

    static std::uint64_t hash(std::string_view s, std::uint64_t h = 0xcbf29ce484222325ull)
    {
        for (unsigned char c : s) { h ^= c; h *= 0x100000001b3ull; }
        h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
        return h;
    }
    std::string pre, opj, res, post;
    std::vector<Op> hist;
    int hist_variant = 0;
    std::string hist_profile;
    void begin_trace(int variant, const std::string& profile)
    {
        hist.clear(); hist_variant = variant; hist_profile = profile;
        {
            LibScope ls;
            d.reset(variant, profile);
        }
        pre.clear();
        observe(pre);
        ++traces;
    }
    void observe(Out& o)
    {
        NoLibScope nl;
        // temporaries made by accessors are freed at once; do not count them
        d.obs(o);
    }
    void arm(const std::string& w)
    {
        // prefix for the crash handler
        std::size_t k = std::size_t(std::snprintf(
            g_cur, sizeof g_cur, "{\"w\":%s,\"pre\":%s,\"op\":%s,", w.c_str(), pre.c_str(), opj.c_str()));
        g_cur_len = k < sizeof g_cur ? k : 0;
        g_progress = g_progress + 1;
    }
    void step(const Op& op, const std::string& w)
    {
        opj.clear(); res.clear(); post.clear();
        d.op_json(op, opj);
        arm(w);
        hist.push_back(op);
        {
            LibScope ls;
            exec_guarded(op);
        }
        observe(post);
        emit(w);
        pre.swap(post);
        ++steps;
    }
    void exec_guarded(const Op& op)
    {
        try { d.exec(op, res); }
        catch (const std::exception& e) { res = "[\"unexpected-exception\"]"; }
    }
    void emit(const std::string& w)
    {
        if (dedup)
        {
            std::uint64_t h = hash(post, hash(res, hash(opj, hash(pre))));
            if (!seen.insert(h).second) return;
        }
        if (lines >= max_lines) return;
        ++lines;
        g_buf += "{\"w\":"; g_buf += w;
        g_buf += ",\"pre\":"; g_buf += pre;
        g_buf += ",\"op\":"; g_buf += opj;
        g_buf += ",\"res\":"; g_buf += res;
        g_buf += ",\"post\":"; g_buf += post;
        g_buf += "}\n";
        if (g_buf.size() > (1u << 19)) { flush_fd(g_buf.data(), g_buf.size()); g_buf.clear(); }
    }
    void end_trace(const std::string& w)
    {
        // teardown: destroy everything, report allocations still alive
        opj = "[\"end\"]";
        res.clear(); post.clear();
        arm(w);
        {
            LibScope ls;
            d.destroy();
        }
        long live = g_live;
        if (live != 0 && d.end_line())
        {
            // what stays allocated once (tables set up by the first call) is no leak: the same history again must add nothing
            g_live = 0;
            {
                LibScope ls;
                d.reset(hist_variant, hist_profile);
                for (const Op& op : hist) { exec_guarded(op); }
                d.destroy();
            }
            live = g_live;
        }
        if (d.end_line())
        {
            res = "[\"live\",";
            jint(res, live);
            res += "]";
            post = pre;
            emit(w);
        }
        g_live = 0;
    }
    void finish()
    {
        flush_fd(g_buf.data(), g_buf.size());
        g_buf.clear();
    }
};

inline std::string wit(const char* mode, long a, long b, long c)
{
    char buf[96];
    std::snprintf(buf, sizeof buf, "[\"%s\",%ld,%ld,%ld]", mode, a, b, c);
    return buf;
}

struct Args
{
    std::string mode, out, profile, script;
    long seed = 1, traces = 100, len = 30, depth = 3, from = 0, step = -1, shard = 0, shards = 1, variant = 0;
    long maxlines = 1L << 40, maxsteps = 1L << 60;
    bool dedup = false;
};

inline std::vector<std::string>& op_names() { static std::vector<std::string> v; return v; }
inline const char* intern(const std::string& s)
{
    for (auto& x : op_names()) if (x == s) return x.c_str();
    static std::vector<std::string*> keep;
    keep.push_back(new std::string(s));
    return keep.back()->c_str();
}

inline void print_hist_op(const Op& op)
{
    std::printf("%s", op.name);
    for (int i = 0; i < op.n; ++i) std::printf(" %d", op.a[i]);
    std::printf("\n");
}

inline int driver_main(int argc, char** argv, Driver& d)
{
    Args A;
    A.mode = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2)
    {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--out") A.out = v;
        else if (k == "--profile") A.profile = v;
        else if (k == "--script") A.script = v;
        else if (k == "--seed") A.seed = atol(v.c_str());
        else if (k == "--traces") A.traces = atol(v.c_str());
        else if (k == "--len") A.len = atol(v.c_str());
        else if (k == "--depth") A.depth = atol(v.c_str());
        else if (k == "--from") A.from = atol(v.c_str());
        else if (k == "--step") A.step = atol(v.c_str());
        else if (k == "--shard") A.shard = atol(v.c_str());
        else if (k == "--shards") A.shards = atol(v.c_str());
        else if (k == "--variant") A.variant = atol(v.c_str());
        else if (k == "--maxlines") A.maxlines = atol(v.c_str());
        else if (k == "--maxsteps") A.maxsteps = atol(v.c_str());
        else if (k == "--dedup") A.dedup = v == "1";
    }
    auto prologue_ = [&d] { NoLibScope n; return d.prologue(); };
    if (A.mode == "hist")
    {
        auto prologue = prologue_;
        // print the calls of one random trace up to (and including) step, without judging anything
        g_trace = A.traces;
        Rng r(std::uint64_t(A.seed) * 1000003ull + std::uint64_t(A.traces));
        Runner R(d);
        g_fd = ::open("/dev/null", O_WRONLY);
        install_handlers();
        R.begin_trace(int(A.variant), A.profile);
        std::printf("reset %ld %s\n", A.variant, A.profile.c_str());
        for (const Op& op : prologue()) { print_hist_op(op); if (A.step >= 0) R.step(op, "0"); }
        std::fflush(stdout);
        long L = d.walk_len(r, int(A.len));
        for (long k = 0; k < L && k <= A.step; ++k)
        {
            Op op = d.gen(r);
            print_hist_op(op);
            std::fflush(stdout);
            if (k == A.step) break;
            R.step(op, "0");
        }
        ::_exit(0);
    }
    g_fd = ::open(A.out.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (g_fd < 0) { std::perror("open"); return 3; }
    install_handlers();
    auto prologue = prologue_;
    Runner R(d);
    R.dedup = A.dedup;
    R.max_lines = A.maxlines;
    g_buf.reserve(1 << 20);
    R.pre.reserve(1 << 16); R.opj.reserve(1 << 12); R.res.reserve(1 << 16); R.post.reserve(1 << 16);
    if (A.mode == "walk")
    {
        for (long t = A.from; t < A.traces; ++t)
        {
            if (t % A.shards != A.shard) continue;
            if (R.lines >= A.maxlines || R.steps >= A.maxsteps) break;
            g_trace = t;
            Rng r(std::uint64_t(A.seed) * 1000003ull + std::uint64_t(t));
            std::string w = wit("walk", A.seed, t, -1);
            R.opj = "[\"reset\"]"; R.pre = "[]";
            R.arm(w);
            R.begin_trace(int(A.variant), A.profile);
            for (const Op& op : prologue()) R.step(op, wit("walk", A.seed, t, -1));
            long L = d.walk_len(r, int(A.len));
            for (long k = 0; k < L; ++k)
            {
                Op op = d.gen(r);
                R.step(op, wit("walk", A.seed, t, k));
            }
            R.end_trace(wit("walk", A.seed, t, L));
        }
    }
    else if (A.mode == "exh")
    {
        // all sequences of `depth` calls over the alphabet
        {
            LibScope ls;
            d.reset(int(A.variant), A.profile);
        }
        std::vector<Op> al;
        { NoLibScope n; al = d.alphabet(); }
        { LibScope ls; d.destroy(); }
        g_live = 0;
        long n = long(al.size()), total = 1;
        for (int i = 0; i < A.depth; ++i) total *= n;
        std::vector<long> idx(std::size_t(A.depth), 0);
        for (long t = A.from; t < total; ++t)
        {
            if (t % A.shards != A.shard) continue;
            if (R.lines >= A.maxlines || R.steps >= A.maxsteps) break;
            long x = t;
            for (int i = int(A.depth) - 1; i >= 0; --i) { idx[std::size_t(i)] = x % n; x /= n; }
            g_stuck = 0;
            R.begin_trace(int(A.variant), A.profile);
            for (const Op& op : prologue()) R.step(op, wit("exh", A.depth, t, -1));
            for (int k = 0; k < A.depth; ++k)
            {
                const Op& op = al[std::size_t(idx[std::size_t(k)])];
                if (!d.enabled(op)) break;
                R.step(op, wit("exh", A.depth, t, k));
            }
            R.end_trace(wit("exh", A.depth, t, A.depth));
        }
    }
    else if (A.mode == "exhhist")
    {
        { LibScope ls; d.reset(int(A.variant), A.profile); }
        std::vector<Op> al;
        { NoLibScope n; al = d.alphabet(); }
        long n = long(al.size()), x = A.traces;
        std::vector<long> idx(std::size_t(A.depth), 0);
        for (int i = int(A.depth) - 1; i >= 0; --i) { idx[std::size_t(i)] = x % n; x /= n; }
        std::printf("reset %ld %s\n", A.variant, A.profile.c_str());
        for (const Op& op : prologue()) print_hist_op(op);
        for (long k = 0; k < A.depth && k <= A.step; ++k) print_hist_op(al[std::size_t(idx[std::size_t(k)])]);
        std::fflush(stdout);
        ::_exit(0);
    }
    else if (A.mode == "script")
    {
        std::ifstream in(A.script);
        std::string line;
        long t = -1, k = 0;
        bool open = false, skip = false;
        auto close_trace = [&] { if (open) { R.end_trace(wit("script", 0, t, k)); open = false; } };
        while (std::getline(in, line))
        {
            std::istringstream is(line);
            std::string nm;
            if (!(is >> nm)) continue;
            if (nm == "reset")
            {
                close_trace();
                ++t; k = 0;
                skip = t < A.from || t % A.shards != A.shard;
                if (skip) continue;
                int v = 0; std::string prof;
                is >> v >> prof;
                R.opj = "[\"reset\"]"; R.pre = "[]";
                R.arm(wit("script", 0, t, -1));
                R.begin_trace(v, prof.empty() ? A.profile : prof);
                open = true;
                continue;
            }
            if (skip) continue;
            Op op;
            op.name = intern(nm);
            int v;
            while (op.n < NARG && is >> v) op.a[op.n++] = v;
            if (d.enabled(op)) R.step(op, wit("script", 0, t, k));
            ++k;
        }
        close_trace();
    }
    else
        return 2;
    R.finish();
    std::fprintf(stderr, "DONE traces=%ld steps=%ld lines=%ld\n", R.traces, R.steps, R.lines);
    std::fflush(stderr);
    ::_exit(0);
}

} // namespace vd
