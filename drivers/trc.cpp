// call tracing of soa::multi_type_vector: which reports a call leads to
#define MDDS_MULTI_TYPE_VECTOR_TRACE 1
#include "vdrv.hpp"
#include <mdds/multi_type_vector/soa/main.hpp>
#include <mdds/multi_type_vector/standard_element_blocks.hpp>
#include <mdds/multi_type_vector/macro.hpp>
#include <mdds/multi_type_vector/block_funcs.hpp>
#include <mdds/multi_type_vector/types.hpp>

using namespace vd;
namespace mv = mdds::mtv;
constexpr int NS = 3;

// --- recording
static bool g_rec = false;
static const void* g_self = nullptr;
static bool g_probe = false; // the trace function reads the container
struct Rec { int kind; std::string name, args; bool place; };
static std::vector<Rec> g_recs;
static long (*g_read)(const void*) = nullptr;
static void record(const mv::trace_method_properties_t& p)
{
    if (!g_rec || p.instance != g_self) return;
    if (g_recs.size() < 20)
    {
        NoLibScope nl;
        std::string a = p.function_args;
        // how a position hint prints is not specified
        std::size_t h = a.find("pos_hint=");
        if (h != std::string::npos)
        {
            std::size_t e = std::min(a.find("; pos=", h), a.find("; start_pos=", h));
            a = a.substr(0, h) + "pos_hint=?" + (e == std::string::npos ? "" : a.substr(e));
        }
        // the arguments of emplace_back are up to the caller
        if (!std::strcmp(p.function_name, "emplace_back")) a = "?";
        g_recs.push_back({int(p.type), p.function_name, a, p.filepath && *p.filepath && p.line_number > 0});
    }
    // looking at the container from within the trace function is not traced again
    if (g_probe && p.type != mv::trace_method_t::constructor) g_read(p.instance);
}

struct Ev
{
    void element_block_acquired(const mv::base_element_block*) {}
    void element_block_released(const mv::base_element_block*) {}
};
template<bool Cow, bool Trace> struct traits : mv::default_traits
{
    using event_func = Ev;
    static constexpr bool enable_cow = Cow;
    using block_funcs = mv::element_block_funcs<mv::double_element_block, mv::int32_element_block, mv::string_element_block>;
    static void trace(const mv::trace_method_properties_t& p) requires Trace { record(p); }
};

template<class F> static bool by_type(int ty, F f)
{
    if (ty == 1) f(double());
    else if (ty == 2) f(std::int32_t());
    else if (ty == 3) f(std::string());
    else return false;
    return true;
}
template<class V> static V mk(int v)
{
    if constexpr (std::is_same_v<V, std::string>) return std::string(v ? 20 : 0, 'x') + (v ? std::string(1, char('0' + v)) : "");
    else return V(v);
}
template<class V> static int un(const V& v)
{
    if constexpr (std::is_same_v<V, std::string>) return v.empty() ? 0 : v.back() - '0';
    else return int(v);
}
static int ty_of(mv::element_t t) { return t == mv::element_type_empty ? 0 : t == mv::element_type_double ? 1 : t == mv::element_type_int32 ? 2 : t == mv::element_type_string ? 3 : 9; }

struct SysBase
{
    virtual ~SysBase() = default;
    virtual void kill() = 0;
    virtual void obs(int k, Out& o) = 0;
    virtual void exec(const Op& op, Out& o) = 0;
    virtual bool alive(int k) = 0;
    virtual int size(int k) = 0;
    virtual int at(int k, int p) = 0;
};

template<class C, bool Cow>
struct Sys : SysBase
{
    alignas(C) unsigned char mem[NS][sizeof(C)];
    C* s[NS] = {};
    // under copy-on-write only mutating calls hand out hints
    static auto hint(C& c)
    {
        if constexpr (!Cow) return c.begin();
        else return c.insert_empty(0, 0);
    }
    static long read(const void* p) { const C& c = *static_cast<const C*>(p); return long(c.size() + c.block_size()) + (c.begin() == c.end()); }
    void drop(int k) { if (s[k]) { s[k]->~C(); s[k] = nullptr; } }
    void kill() override { for (int k = 0; k < NS; ++k) drop(k); }
    bool alive(int k) override { return s[k]; }
    int size(int k) override { return s[k] ? int(s[k]->size()) : 0; }
    int at(int k, int p) override
    {
        const C& c = *s[k];
        int t = ty_of(c.get_type(std::size_t(p))), v = 0;
        by_type(t, [&](auto x) { v = un(c.template get<decltype(x)>(std::size_t(p))); });
        return t ? t * 10 + v : 0;
    }
    void obs(int k, Out& o) override
    {
        JL r(o, '{', '}');
        r.key("al"); jbool(o, s[k]);
        r.key("c");
        JL l(o);
        if (s[k]) for (int p = 0, n = size(k); p < n && p < 200; ++p) l.i(at(k, p));
    }
    void exec(const Op& op, Out& o) override
    {
        const int* a = op.a;
        int k = a[0], j = a[1];
        C* c = s[k];
        using sz = std::size_t;
        long val = 0;
        const char* out = "ok";
        g_recs.clear();
        g_read = &read;
        g_self = c;
        auto go = [&](auto f) { g_rec = true; f(); g_rec = false; };
        auto vals = [&](auto x, int n, int v) { std::vector<decltype(x)> y; for (int i = 0; i < n; ++i) y.push_back(mk<decltype(x)>((v + i) % 3)); return y; };
        Ev ev;
        try
        {
            if (op.is("new"))
            {
                drop(k);
                void* m = mem[k]; g_self = m;
                int f = a[1]; sz n = sz(a[2]);
                if (f == 0) go([&] { s[k] = new (m) C(); });
                else if (f == 1) { const Ev& e = ev; go([&] { s[k] = new (m) C(e); }); }
                else if (f == 2) go([&] { s[k] = new (m) C(std::move(ev)); });
                else if (f == 3) go([&] { s[k] = new (m) C(n); });
                else if (f == 4) by_type(a[3], [&](auto x) { auto v = mk<decltype(x)>(a[4]); go([&] { s[k] = new (m) C(n, v); }); });
                else by_type(a[3], [&](auto x) { auto v = vals(x, a[2], a[4]); go([&] { s[k] = new (m) C(n, v.begin(), v.end()); }); });
            }
            else if (op.is("cctor")) { drop(j); g_self = mem[j]; go([&] { s[j] = new (mem[j]) C(*c); }); }
            else if (op.is("mctor")) { drop(j); g_self = mem[j]; go([&] { s[j] = new (mem[j]) C(std::move(*c)); }); drop(k); }
            else if (op.is("del")) go([&] { s[k] = nullptr; c->~C(); });
            else if (op.is("clo")) { drop(j); const C& cc = *c; go([&] { s[j] = new (mem[j]) C(cc.clone()); }); }
            else if (op.is("cloh")) { drop(j); const C& cc = *c; go([&] { s[j] = new (mem[j]) C(cc.clone(ev)); }); }
            else if (op.is("asg")) { g_self = s[j]; go([&] { *s[j] = *c; }); }
            else if (op.is("masg")) { g_self = s[j]; go([&] { *s[j] = std::move(*c); }); drop(k); }
            else if (op.is("swap")) go([&] { c->swap(*s[j]); });
            else if (op.is("swr")) go([&] { c->swap(sz(a[2]), sz(a[3]), *s[j], sz(a[4])); });
            else if (op.is("tra"))
            {
                auto h = hint(*c);
                if (a[5]) go([&] { c->transfer(h, sz(a[2]), sz(a[3]), *s[j], sz(a[4])); });
                else go([&] { c->transfer(sz(a[2]), sz(a[3]), *s[j], sz(a[4])); });
            }
            else if (op.is("set")) by_type(a[3], [&](auto x) {
                auto v = mk<decltype(x)>(a[4]); auto h = hint(*c);
                if (a[1]) go([&] { c->set(h, sz(a[2]), v); }); else go([&] { c->set(sz(a[2]), v); });
            });
            else if (op.is("setr")) by_type(a[3], [&](auto x) {
                auto v = vals(x, a[5], a[4]); auto h = hint(*c);
                if (a[1]) go([&] { c->set(h, sz(a[2]), v.begin(), v.end()); }); else go([&] { c->set(sz(a[2]), v.begin(), v.end()); });
            });
            else if (op.is("ins")) by_type(a[3], [&](auto x) {
                auto v = vals(x, a[5], a[4]); auto h = hint(*c);
                if (a[1]) go([&] { c->insert(h, sz(a[2]), v.begin(), v.end()); }); else go([&] { c->insert(sz(a[2]), v.begin(), v.end()); });
            });
            else if (op.is("push")) by_type(a[1], [&](auto x) {
                using V = decltype(x);
                auto v = mk<V>(a[2]);
                if (a[3] == 0) { const V& w = v; go([&] { c->push_back(w); }); } else if (a[3] == 1) go([&] { c->push_back(std::move(v)); });
                else go([&] { c->template emplace_back<V>(v); });
            });
            else if (op.is("pushe")) go([&] { c->push_back_empty(); });
            else if (op.is("emp"))
            {
                auto h = hint(*c);
                if (a[1]) go([&] { c->set_empty(h, sz(a[2]), sz(a[3])); }); else go([&] { c->set_empty(sz(a[2]), sz(a[3])); });
            }
            else if (op.is("inse"))
            {
                auto h = hint(*c);
                if (a[1]) go([&] { c->insert_empty(h, sz(a[2]), sz(a[3])); }); else go([&] { c->insert_empty(sz(a[2]), sz(a[3])); });
            }
            else if (op.is("era")) go([&] { c->erase(sz(a[1]), sz(a[2])); });
            else if (op.is("clr")) go([&] { c->clear(); });
            else if (op.is("rsz")) go([&] { c->resize(sz(j)); });
            else if (op.is("shr")) go([&] { c->shrink_to_fit(); });
            else if (op.is("det")) go([&] { c->detach(); });
            else if (op.is("get"))
            {
                int p = a[2], t = p < size(k) ? at(k, p) / 10 : 2;
                const C& cc = *c;
                by_type(t ? t : 2, [&](auto x) {
                    if (j) { decltype(x) v{}; go([&] { cc.get(sz(p), v); }); val = un(v); }
                    else go([&] { val = un(cc.template get<decltype(x)>(sz(p))); });
                });
            }
            else if (op.is("type")) { const C& cc = *c; go([&] { val = ty_of(cc.get_type(sz(j))); }); }
            else if (op.is("ise")) { const C& cc = *c; go([&] { val = cc.is_empty(sz(j)); }); }
            else if (op.is("size")) { const C& cc = *c; go([&] { val = long(cc.size()); }); }
            else if (op.is("bsz")) { const C& cc = *c; go([&] { val = long(cc.block_size()); }); }
            else if (op.is("empty")) { const C& cc = *c; go([&] { val = cc.empty(); }); }
            else if (op.is("pos"))
            {
                const C& cc = *c;
                auto h = hint(*c); auto ch = cc.begin();
                sz p = sz(a[2]), zs = cc.size();
                long lp = 0;
                // the end position has no logical position
                auto lg = [&](const auto& q) { return p == zs ? -1 : long(C::logical_position(q)); };
                if (j == 0) go([&] { auto q = c->position(p); lp = lg(q); });
                else if (j == 1) go([&] { auto q = cc.position(p); lp = lg(q); });
                else if (j == 2) go([&] { if constexpr (Cow) { auto q = c->position(ch, p); lp = lg(q); } else { auto q = c->position(h, p); lp = lg(q); } });
                else go([&] { auto q = cc.position(ch, p); lp = lg(q); });
                val = lp;
            }
            else if (op.is("it"))
            {
                const C& cc = *c;
                switch (j)
                {
                    case 0: go([&] { c->begin(); }); break;
                    case 1: go([&] { c->end(); }); break;
                    case 2: go([&] { cc.begin(); }); break;
                    case 3: go([&] { cc.end(); }); break;
                    case 4: go([&] { cc.cbegin(); }); break;
                    case 5: go([&] { cc.cend(); }); break;
                    case 6: go([&] { c->rbegin(); }); break;
                    case 7: go([&] { c->rend(); }); break;
                    case 8: go([&] { cc.rbegin(); }); break;
                    case 9: go([&] { cc.rend(); }); break;
                    case 10: go([&] { cc.crbegin(); }); break;
                    default: go([&] { cc.crend(); });
                }
            }
            else if (op.is("rel"))
            {
                int p = a[2], t = p < size(k) ? at(k, p) / 10 : 2;
                by_type(t, [&](auto x) {
                    decltype(x) v{};
                    auto h = hint(*c);
                    if (j == 0) go([&] { v = c->template release<decltype(x)>(sz(p)); });
                    else if (j == 1) go([&] { c->release(sz(p), v); });
                    else go([&] { c->release(h, sz(p), v); });
                    val = un(v);
                });
            }
            else if (op.is("rela")) go([&] { c->release(); });
            else if (op.is("relr"))
            {
                auto h = hint(*c);
                if (j) go([&] { c->release_range(h, sz(a[2]), sz(a[3])); }); else go([&] { c->release_range(sz(a[2]), sz(a[3])); });
            }
            else if (op.is("eq")) { const C& cc = *c; const C& d = *s[j]; if (a[2]) go([&] { val = cc != d; }); else go([&] { val = cc == d; }); }
            else if (op.is("evh")) { const C& cc = *c; if (j) go([&] { cc.event_handler(); }); else go([&] { c->event_handler(); }); }
            else out = "unknown call";
        }
        catch (const std::out_of_range&) { out = "oor"; }
        catch (const mdds::invalid_arg_error&) { out = "invalid"; }
        catch (const mv::shared_block_error&) { out = "shared"; }
        g_rec = false;
        JL l(o);
        l.s(out).i(val);
        l.sep();
        JL rs(o);
        for (auto& r : g_recs) { rs.sep(); JL x(o); x.i(r.kind).s(r.name).s(r.args).b(r.place); }
    }
};

struct Trc : Driver
{
    std::unique_ptr<SysBase> cur;
    std::string prof;
    int unit = 0;
    void reset(int variant, const std::string& p) override
    {
        prof = p;
        unit = variant % 10;
        g_probe = variant >= 10;
        if (unit == 0) cur = std::make_unique<Sys<mv::soa::multi_type_vector<traits<false, true>>, false>>();
        else if (unit == 1) cur = std::make_unique<Sys<mv::soa::multi_type_vector<traits<true, true>>, true>>();
        else cur = std::make_unique<Sys<mv::soa::multi_type_vector<traits<false, false>>, false>>(); // no trace function: nothing is reported
    }
    void destroy() override { cur->kill(); cur.reset(); }
    void obs(Out& o) override { JL l(o); for (int k = 0; k < NS; ++k) { l.sep(); cur->obs(k, o); } }
    void exec(const Op& op, Out& res) override { cur->exec(op, res); }
    void op_json(const Op& op, Out& o) override
    {
        JL l(o);
        l.s(op.name);
        for (int i = 0; i < op.n; ++i) l.i(op.a[i]);
        l.s(unit == 2 ? "untraced" : unit == 1 ? "cow" : "plain");
    }
    bool enabled(const Op& op) override
    {
        if (op.is("new")) return true;
        if (!cur->alive(op.a[0])) return false;
        for (auto n : {"asg", "masg", "swap", "swr", "tra", "eq"}) if (op.is(n) && !cur->alive(op.a[1])) return false;
        for (auto n : {"cctor", "mctor", "clo", "cloh", "masg", "swap", "swr"}) if (op.is(n) && op.a[0] == op.a[1]) return false;
        if (op.is("rel") && op.a[2] < cur->size(op.a[0]) && cur->at(op.a[0], op.a[2]) == 0) return false;
        if (op.is("det") || unit != 1) return true;
        return !(op.is("rel") || op.is("rela") || op.is("relr")); // refused while shared
    }
    Op gen(Rng& r) override
    {
        for (;;)
        {
            int k = r.below(NS);
            if (!cur->alive(k)) { int f = r.below(6); return Op("new", {k, f, r.below(6), r.range(1, 3), r.below(3)}); }
            int z = cur->size(k), j = r.below(NS), h = r.below(2);
            bool bad = r.chance(1, 8);
            auto P = [&] { return bad ? z + r.below(2) : z ? r.below(z) : 0; };
            int p = P(), ty = r.range(1, 3), v = r.below(3);
            int e = z ? p + r.below(z - p > 0 ? z - p : 1) : p;
            if (bad && r.chance(1, 2)) e = p + r.below(z + 2);
            Op op;
            switch (r.below(36))
            {
                case 0: case 1: op = Op("set", {k, h, p, ty, v}); break;
                case 2: op = Op("setr", {k, h, p, ty, v, 1 + r.below(4)}); break;
                case 3: op = Op("ins", {k, h, p, ty, v, 1 + r.below(3)}); break;
                case 4: op = Op("push", {k, ty, v, r.below(3)}); break;
                case 5: op = Op("pushe", {k}); break;
                case 6: op = Op("emp", {k, h, p, e}); break;
                case 7: op = Op("inse", {k, h, p, 1 + r.below(3)}); break;
                case 8: op = Op("era", {k, p, e}); break;
                case 9: op = r.chance(1, 4) ? Op("clr", {k}) : Op("shr", {k}); break;
                case 10: op = Op("rsz", {k, r.below(10)}); break;
                case 11: op = Op("det", {k}); break;
                case 12: op = Op("get", {k, h, p}); break;
                case 13: op = Op("type", {k, p}); break;
                case 14: op = Op("ise", {k, p}); break;
                case 15: op = Op("size", {k}); break;
                case 16: op = Op("bsz", {k}); break;
                case 17: op = Op("empty", {k}); break;
                case 18: op = Op("pos", {k, r.below(4), p}); break;
                case 19: case 20: op = Op("it", {k, r.below(12)}); break;
                case 21: case 22: op = Op("rel", {k, r.below(3), p}); break;
                case 23: op = r.chance(1, 4) ? Op("rela", {k}) : Op("relr", {k, h, p, e}); break;
                case 24: op = Op("relr", {k, h, p, e}); break;
                case 25: op = Op("eq", {k, j, h}); break;
                case 26: op = Op("evh", {k, h}); break;
                case 27: op = Op("cctor", {k, j}); break;
                case 28: op = Op("mctor", {k, j}); break;
                case 29: op = Op("del", {k}); break;
                case 30: op = Op(h ? "clo" : "cloh", {k, j}); break;
                case 31: op = Op("asg", {k, j}); break;
                case 32: op = Op("masg", {k, j}); break;
                case 33: op = Op("swap", {k, j}); break;
                default:
                {
                    int y = cur->size(j), d = y ? r.below(y) : 0;
                    if (!bad) { e = std::min(e, p + std::max(0, y - d - 1)); }
                    op = r.chance(1, 2) ? Op("swr", {k, j, p, e, d}) : Op("tra", {k, j, p, e, d, h});
                }
            }
            if (enabled(op)) return op;
        }
    }
};

int main(int argc, char** argv)
{
    Trc d;
    return driver_main(argc, argv, d);
}
