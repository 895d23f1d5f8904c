// segment_tree conformance driver
#include "vdrv.hpp"
#include "keymaps.hpp"
#include <mdds/segment_tree.hpp>
#include <memory>
#include <algorithm>
#include <array>

using namespace vd;
constexpr int NS = 3;
using Seg = std::array<long long, 3>;

template<typename K, typename V>
class SegSys
{
public:
    using T = mdds::segment_tree<K, V>;
    using KM = KeyMap<K>;
    using VM = ValMap<V>;
    std::unique_ptr<T> s[NS];

    void kill() { for (auto& p : s) p.reset(); }
    static void put(JL& l, Out& o, std::vector<Seg>& v, bool sorted = true)
    {
        if (sorted) std::sort(v.begin(), v.end());
        l.sep();
        JL q(o);
        for (auto& x : v) { q.sep(); JL z(o); z.i(x[0]).i(x[1]).i(x[2]); }
    }
    void obs_slot(int k, Out& o)
    {
        JL r(o, '{', '}');
        T* t = s[k].get();
        std::vector<Seg> all;
        if (t)
            t->erase_if([&](const K& a, const K& b, const V& v) { all.push_back({KM::from(a), KM::from(b), VM::from(v)}); return false; });
        std::sort(all.begin(), all.end());
        r.key("alive"); jbool(o, t != nullptr);
        r.key("segs");
        { JL q(o); for (auto& x : all) { q.sep(); JL z(o); z.i(x[0]).i(x[1]).i(x[2]); } }
        r.key("size"); jint(o, t ? (long long)t->size() : 0);
        r.key("empty"); jbool(o, t ? t->empty() : true);
        r.key("keys");
        { JL q(o); if (t) for (const K& x : t->boundary_keys()) q.i(KM::from(x)); }
        r.key("valid"); jbool(o, t ? t->valid_tree() : false);
    }
    template<typename R> static std::vector<Seg> forward(R& res)
    {
        std::vector<Seg> v; int cap = 1000;
        for (auto it = res.begin(); it != res.end() && cap-- > 0; ++it) v.push_back({KM::from(it->start), KM::from(it->end), VM::from(it->value)});
        return v;
    }
    template<typename R> static std::vector<Seg> backward(R& res)
    {
        std::vector<Seg> v; int cap = 1000;
        auto it = res.end(), b = res.begin();
        while (it != b && cap-- > 0) { --it; v.push_back({KM::from((*it).start), KM::from((*it).end), VM::from((*it).value)}); }
        return v;
    }
    void exec(const Op& op, Out& o)
    {
        int k = op.a[0];
        const int* a = op.a + 1;
        JL l(o);
        if (op.is("new")) { s[k] = std::make_unique<T>(); l.s("ok"); }
        else if (op.is("ins"))
        {
            try { s[k]->insert(KM::to(a[0]), KM::to(a[1]), VM::to(a[2])); l.s("ok"); }
            catch (const std::invalid_argument&) { l.s("rejected"); }
        }
        else if (op.is("build")) { s[k]->build_tree(); l.s("ok"); }
        else if (op.is("search"))
        {
            const T& t = *s[k];
            auto r = t.search(KM::to(a[0]));
            auto r2 = r; // results can be copied
            auto f = forward(r), b = backward(r2);
            bool rev = f.size() == b.size() && std::equal(f.rbegin(), f.rend(), b.begin());
            l.s("search").i((long long)r.size()).b(r.empty());
            put(l, o, f); put(l, o, b);
            l.b(rev);
        }
        else if (op.is("erit"))
        {
            // erase the segment at the i-th search result, then walk the same results object again
            T& t = *s[k];
            auto r = t.search(KM::to(a[0]));
            l.s("erit");
            int n = 0; bool done = false; Seg gone{};
            for (auto it = r.begin(); it != r.end() && n < 4096; ++it, ++n)
                if (n == a[1]) { gone = {KM::from(it->start), KM::from(it->end), VM::from(it->value)}; t.erase(it); done = true; break; }
            l.b(done);
            if (done)
            {
                l.sep(); { JL z(o); z.i(gone[0]).i(gone[1]).i(gone[2]); }
                l.i((long long)r.size()).b(r.empty());
                auto f = forward(r), b = backward(r);
                put(l, o, f); put(l, o, b);
            }
        }
        else if (op.is("erif"))
        {
            int kind = a[0], x = a[1], n = 0;
            auto c = s[k]->erase_if([&](const K& st, const K& en, const V& v) {
                ++n;
                long long p = KM::from(st), q = KM::from(en), w = VM::from(v);
                return kind == 0 ? w == x : kind == 1 ? (p <= x && x < q) : kind == 2 ? p == x : kind == 3 ? q == x : true; });
            l.s("erif").i((long long)c).i(n);
        }
        else if (op.is("clear")) { s[k]->clear(); l.s("ok"); }
        else if (op.is("copy")) { s[a[0]] = std::make_unique<T>(*s[k]); l.s("ok"); }
        else if (op.is("asg")) { *s[a[0]] = *s[k]; l.s("ok"); }
        else if (op.is("move")) { auto p = std::make_unique<T>(std::move(*s[k])); s[k].reset(); s[a[0]] = std::move(p); l.s("ok"); }
        else if (op.is("masg")) { *s[a[0]] = std::move(*s[k]); if (a[0] != k) s[k].reset(); l.s("ok"); }
        else if (op.is("moveclr"))
        {
            // a moved-from instance can be cleared and used again
            auto p = std::make_unique<T>(std::move(*s[k])); s[k]->clear(); s[a[0]] = std::move(p); l.s("ok");
        }
        else if (op.is("swap")) { s[k]->swap(*s[a[0]]); l.s("ok"); }
        else if (op.is("eq")) { l.s("eq").b(*s[k] == *s[a[0]]).b(*s[k] != *s[a[0]]); }
        else l.s("badop");
    }
};

#define DISPATCH(expr) \
    switch (var) { case 1: { auto& S = sl; expr; } break; case 2: { auto& S = sd; expr; } break; case 3: { auto& S = ss; expr; } break; default: { auto& S = si; expr; } }

class SegDriver : public Driver
{
    SegSys<int, int> si;
    SegSys<long, std::string> sl;
    SegSys<double, short> sd;
    SegSys<short, std::string> ss;
    int var = 0;
    std::string prof;
    int hi = 6, nv = 3, cap = 12;
    bool alive[NS] = {};
    int cnt[NS] = {};
    bool built[NS] = {};

public:
    void reset(int variant, const std::string& profile) override
    {
        NoLibScope nl;
        var = variant % 10; prof = profile;
        int sc = variant / 10;
        hi = sc == 0 ? 3 : sc == 1 ? 6 : sc == 2 ? 15 : 30;
        nv = sc == 0 ? 2 : sc == 3 ? 6 : 3;
        cap = sc == 0 ? 5 : sc == 1 ? 8 : sc == 2 ? 16 : 30;
        for (auto& b : alive) b = false;
        for (auto& c : cnt) c = 0;
        for (auto& b : built) b = false;
    }
    void destroy() override { DISPATCH(S.kill()); }
    void obs(Out& o) override { JL l(o); for (int k = 0; k < NS; ++k) { l.sep(); DISPATCH(S.obs_slot(k, o)); } }
    void exec(const Op& op, Out& res) override
    {
        DISPATCH(S.exec(op, res));
        int k = op.a[0], j = op.a[1];
        if (op.is("build")) built[k] = true;
        else if (op.is("ins") || op.is("clear") || op.is("new")) built[k] = false;
        else if (op.is("copy") || op.is("asg") || op.is("move") || op.is("masg")) built[j] = built[k];
        if (op.is("new")) { alive[k] = true; cnt[k] = 0; }
        else if (op.is("ins")) ++cnt[k];
        else if (op.is("clear")) cnt[k] = 0;
        else if (op.is("copy") || op.is("asg")) { alive[j] = true; cnt[j] = cnt[k]; }
        else if (op.is("move") || op.is("masg")) { if (j != k) alive[k] = false; alive[j] = true; cnt[j] = cnt[k]; }
        else if (op.is("moveclr")) { alive[j] = true; cnt[j] = cnt[k]; cnt[k] = 0; }
        else if (op.is("swap")) std::swap(cnt[k], cnt[j]);
    }
    bool enabled(const Op& op) override
    {
        if (op.is("new")) return true;
        if (!alive[op.a[0]]) return false;
        if (op.is("asg") || op.is("masg") || op.is("swap") || op.is("eq")) return alive[op.a[1]];
        if (op.is("move") || op.is("moveclr")) return op.a[1] != op.a[0];
        return true;
    }
    std::vector<Op> prologue() override { return {Op("new", {0})}; }
    int pick_alive(Rng& r) { while (true) { int k = r.below(NS); if (alive[k]) return k; } }
    Op gen(Rng& r) override
    {
        bool multi = prof.find('m') != std::string::npos;
        int k = multi ? pick_alive(r) : 0;
        int w = r.below(100);
        if (multi && w < 35)
        {
            int c = r.below(10), j = r.below(NS);
            static const char* nm[] = {"new", "copy", "asg", "move", "masg", "swap", "eq", "eq", "eq", "moveclr"};
            Op o = c == 0 ? Op("new", {j}) : Op(nm[c], {k, j});
            if (enabled(o)) return o;
            return Op("copy", {k, j});
        }
        if (cnt[k] >= cap) { if (r.chance(1, 3)) return Op("clear", {k}); return Op("erif", {k, r.below(4), r.below(hi)}); }
        if (built[k])
        {
            int c = r.below(100);
            if (c < 45) return Op("search", {k, r.range(-1, hi + 1)});
            if (c < 65) return Op("erit", {k, r.range(0, hi), r.below(4)});
            if (c < 72) return Op("erif", {k, r.below(4), r.below(hi)});
            if (c < 75) return Op("build", {k});
            if (c < 85) w = 0;
        }
        if (w < 60)
        {
            int a = r.range(0, hi - 1), b = a + 1 + r.below(hi - a);
            if (r.chance(1, 15)) b = r.range(0, a);
            return Op("ins", {k, a, b, r.below(nv)});
        }
        if (w < 72) return Op("build", {k});
        if (w < 88) return Op("search", {k, r.range(-1, hi + 1)});
        if (w < 94) return Op("erit", {k, r.range(0, hi), r.below(3)});
        if (w < 98) return Op("erif", {k, r.below(4), r.below(hi)});
        return Op("clear", {k});
    }
    std::vector<Op> alphabet() override
    {
        std::vector<Op> v;
        for (int a = 0; a < hi; ++a) for (int b = a + 1; b <= hi; ++b) for (int x = 0; x < nv; ++x) v.push_back(Op("ins", {0, a, b, x}));
        v.push_back(Op("build", {0}));
        for (int p = 0; p < hi; ++p) { v.push_back(Op("search", {0, p})); v.push_back(Op("erit", {0, p, 0})); }
        v.push_back(Op("erif", {0, 0, 0})); v.push_back(Op("erif", {0, 1, 1}));
        return v;
    }
};

int main(int argc, char** argv) { SegDriver d; return driver_main(argc, argv, d); }
