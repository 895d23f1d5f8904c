// flat_segment_tree conformance driver: two or three slots of containers.
#include "vdrv.hpp"
#include "keymaps.hpp"
#include <mdds/flat_segment_tree.hpp>
#include <memory>

using namespace vd;

constexpr int NS = 3;

template<typename K, typename V>
class FstSys
{
public:
    using T = mdds::flat_segment_tree<K, V>;
    using KM = KeyMap<K>;
    using VM = ValMap<V>;
    std::unique_ptr<T> s[NS];
    typename T::const_iterator last[NS]; // iterator returned by the directly preceding insertion
    bool last_ok[NS] = {};
    int lo[NS] = {}, hi[NS] = {};

    void create(int k, int l, int h, int d)
    {
        s[k] = std::make_unique<T>(KM::to(l), KM::to(h), VM::to(d));
        lo[k] = l; hi[k] = h;
    }
    void kill() { for (auto& p : s) p.reset(); for (auto& l : last) l = {}; for (auto& b : last_ok) b = false; }

    void obs_slot(int k, Out& o)
    {
        JL r(o, '{', '}');
        if (!s[k])
        {
            r.key("lo"); jint(o, 0); r.key("hi"); jint(o, 0); r.key("d"); jint(o, 0); r.key("s"); o += "[]"; r.key("tv"); jbool(o, false);
            return;
        }
        T& t = *s[k];
        r.key("lo"); jint(o, KM::from(t.min_key()));
        r.key("hi"); jint(o, KM::from(t.max_key()));
        r.key("d"); jint(o, VM::from(t.default_value()));
        r.key("s");
        {
            JL l(o);
            int cnt = 0;
            for (auto it = t.begin(); it != t.end() && cnt < 4096; ++it, ++cnt)
            {
                l.sep();
                JL q(o);
                auto n = *it;
                q.i(KM::from(n.first));
                // the value of the right border node is not content
                q.i(KM::from(n.first) == KM::from(t.max_key()) ? -1 : VM::from(n.second));
            }
        }
        r.key("tv"); jbool(o, t.valid_tree());
    }
    void it_json(JL& l, T& t, typename T::const_iterator it)
    {
        // position -> key of the segment start, or end marker
        if (it == t.end()) l.i(-1000);
        else l.i(KM::from(it->first));
    }
    typename T::const_iterator hint(int k, int h)
    {
        T& t = *s[k];
        if (h == -10) return typename T::const_iterator();
        if (h == -11) return t.end();
        if (h == -12) { for (int j = 0; j < NS; ++j) if (j != k && s[j]) return s[j]->begin(); return t.begin(); }
        if (h == -13) return last_ok[k] ? last[k] : t.begin();
        if (h == -14) { auto it = t.end(); --it; return it; } // right border node
        // iterator to the segment holding key h (clamped into the range)
        int key = h < lo[k] ? lo[k] : h >= hi[k] ? hi[k] - 1 : h;
        V v;
        auto r = t.search(KM::to(key), v);
        return r.second ? r.first : t.begin();
    }
    void exec(const Op& op, Out& o)
    {
        int k = op.a[0];
        const int* a = op.a + 1;
        bool keep_last = false;
        JL l(o);
        if (op.is("new")) { create(k, a[0], a[1], a[2]); l.s("ok"); }
        else if (op.is("insf") || op.is("insb") || op.is("insp"))
        {
            T& t = *s[k];
            std::pair<typename T::const_iterator, bool> r;
            if (op.is("insf")) r = t.insert_front(KM::to(a[0]), KM::to(a[1]), VM::to(a[2]));
            else if (op.is("insb")) r = t.insert_back(KM::to(a[0]), KM::to(a[1]), VM::to(a[2]));
            else r = t.insert(hint(k, a[3]), KM::to(a[0]), KM::to(a[1]), VM::to(a[2]));
            l.s("ins").b(r.second);
            it_json(l, t, r.first);
            last[k] = r.first; last_ok[k] = r.first != t.end(); keep_last = true;
        }
        else if (op.is("shl")) { s[k]->shift_left(KM::to(a[0]), KM::to(a[1])); l.s("ok"); }
        else if (op.is("shr")) { s[k]->shift_right(KM::to(a[0]), K(KM::to(a[1] ) - KM::to(0)), a[2] != 0); l.s("ok"); }
        else if (op.is("find") || op.is("findp") || op.is("tree"))
        {
            T& t = *s[k];
            V v = VM::to(0); K sk = KM::to(-77), ek = KM::to(-77);
            std::pair<typename T::const_iterator, bool> r;
            K key = KM::to(a[0]);
            if (op.is("find")) r = t.search(key, v, &sk, &ek);
            else if (op.is("findp")) r = t.search(hint(k, a[1]), key, v, &sk, &ek);
            else r = t.search_tree(key, v, &sk, &ek);
            l.s("find").b(r.second);
            it_json(l, t, r.first);
            if (r.second) l.i(VM::from(v)).i(KM::from(sk)).i(KM::from(ek));
            // the same lookup without optional out-parameters
            V v2 = VM::to(0);
            if (op.is("find")) r = t.search(key, v2);
            else if (op.is("findp")) r = t.search(hint(k, a[1]), key, v2);
            else r = t.search_tree(key, v2);
            l.b(r.second);
            if (r.second) l.i(VM::from(v2));
            keep_last = true;
        }
        else if (op.is("pos") || op.is("posp") || op.is("tpos"))
        {
            T& t = *s[k];
            typename T::const_iterator it;
            K key = KM::to(a[0]);
            if (op.is("pos")) it = t.search(key);
            else if (op.is("posp")) it = t.search(hint(k, a[1]), key);
            else it = t.search_tree(key);
            l.s("pos");
            it_json(l, t, it);
            if (it != t.end())
            {
                auto sg = it.to_segment();
                l.i(VM::from(it->second)).i(KM::from(sg->start)).i(KM::from(sg->end)).i(VM::from(sg->value));
            }
            keep_last = true;
        }
        else if (op.is("build")) { s[k]->build_tree(); l.s("ok"); }
        else if (op.is("clear")) { s[k]->clear(); l.s("ok"); }
        else if (op.is("copy")) { s[a[0]] = std::make_unique<T>(*s[k]); lo[a[0]] = lo[k]; hi[a[0]] = hi[k]; l.s("ok"); }
        else if (op.is("asg")) { *s[a[0]] = *s[k]; lo[a[0]] = lo[k]; hi[a[0]] = hi[k]; l.s("ok"); }
        else if (op.is("move")) { auto p = std::make_unique<T>(std::move(*s[k])); s[k].reset(); s[a[0]] = std::move(p); lo[a[0]] = lo[k]; hi[a[0]] = hi[k]; l.s("ok"); }
        else if (op.is("masg")) { *s[a[0]] = std::move(*s[k]); lo[a[0]] = lo[k]; hi[a[0]] = hi[k]; if (a[0] != k) s[k].reset(); l.s("ok"); }
        else if (op.is("swap")) { s[k]->swap(*s[a[0]]); std::swap(lo[k], lo[a[0]]); std::swap(hi[k], hi[a[0]]); l.s("ok"); }
        else if (op.is("eq")) { l.s("eq").b(*s[k] == *s[a[0]]).b(*s[k] != *s[a[0]]); }
        else if (op.is("trav"))
        {
            const T& t = *s[k];
            l.s("trav").i((long long)t.leaf_size());
            int cap = 1000;
            { l.sep(); JL q(o); for (auto it = t.rbegin(); it != t.rend() && cap-- > 0; ++it) { q.sep(); JL z(o); z.i(KM::from(it->first)); z.i(KM::from(it->first) == KM::from(t.max_key()) ? -1 : VM::from(it->second)); } }
            // backwards from end()
            { l.sep(); JL q(o); auto it = t.end(); while (cap-- > 0) { --it; q.i(KM::from(it->first)); if (it == t.begin()) break; } }
            // backwards on reverse iterator from rend()
            { l.sep(); JL q(o); auto it = t.rend(); while (cap-- > 0) { --it; q.i(KM::from(it->first)); if (it == t.rbegin()) break; } }
            // segments forward
            { l.sep(); JL q(o); for (auto it = t.begin_segment(); it != t.end_segment() && cap-- > 0; ++it) { q.sep(); JL z(o); z.i(KM::from(it->start)).i(KM::from(it->end)).i(VM::from(it->value)); } }
            // segments backward
            { l.sep(); JL q(o); auto it = t.end_segment(); while (cap-- > 0) { --it; q.sep(); { JL z(o); z.i(KM::from(it->start)).i(KM::from(it->end)).i(VM::from(it->value)); } if (it == t.begin_segment()) break; } }
            // range-for over segments
            { l.sep(); JL q(o); for (const auto& sg : t.segment_range()) { q.sep(); JL z(o); z.i(KM::from(sg.start)).i(KM::from(sg.end)).i(VM::from(sg.value)); if (cap-- <= 0) break; } }
            // from each key to its segment; from the last key and from the end to the end of the segments
            { l.sep(); JL q(o); for (auto it = t.begin(); it != t.end() && cap-- > 0; ++it) { auto sg = it.to_segment(); if (sg == t.end_segment()) continue; q.sep(); JL z(o); z.i(KM::from(sg->start)).i(KM::from(sg->end)).i(VM::from(sg->value)); } }
            {
                auto it = t.end();
                bool e1 = it.to_segment() == t.end_segment();
                --it;
                bool e2 = it.to_segment() == t.end_segment();
                l.b(e1).b(e2);
            }
            // segments with the postfix operators
            { l.sep(); JL q(o); for (auto it = t.begin_segment(); it != t.end_segment() && cap-- > 0;) { auto x = it++; q.sep(); JL z(o); z.i(KM::from(x->start)).i(KM::from(x->end)).i(VM::from(x->value)); } }
            { l.sep(); JL q(o); auto it = t.end_segment(); it--; while (cap-- > 0) { bool last = it == t.begin_segment(); auto x = it; if (!last) x = it--; q.sep(); { JL z(o); z.i(KM::from(x->start)).i(KM::from(x->end)).i(VM::from(x->value)); } if (last) break; } }
            keep_last = true;
        }
        else l.s("badop");
        if (!keep_last) for (auto& b : last_ok) b = false;
        else if (op.is("insf") || op.is("insb") || op.is("insp")) for (int j = 0; j < NS; ++j) if (j != k) last_ok[j] = false;
    }
};

struct SysBase { virtual ~SysBase() = default; };
#define DISPATCH(expr) \
    switch (var) { case 1: { auto& S = sl; expr; } break; case 2: { auto& S = sd; expr; } break; case 3: { auto& S = su; expr; } break; \
                   case 4: { auto& S = ss; expr; } break; default: { auto& S = si; expr; } }

class FstDriver : public Driver
{
    FstSys<int, int> si;
    FstSys<long, std::string> sl;
    FstSys<double, short> sd;
    FstSys<unsigned, bool> su;
    FstSys<short, int> ss;
    int var = 0;
    std::string prof;
    int lo = 0, hi = 6, nv = 3;
    bool alive[NS] = {};
    int clo[NS] = {}, chi[NS] = {};
    int alive_count() { int c = 0; for (bool b : alive) c += b; return c; }

public:
    void reset(int variant, const std::string& profile) override
    {
        NoLibScope nl;
        var = variant % 10;
        prof = profile;
        // variant / 10: size class
        int sc = variant / 10;
        lo = sc == 3 ? -2 : 0; hi = sc == 0 ? 4 : sc == 1 ? 6 : sc == 2 ? 24 : 5;
        nv = var == 3 ? 2 : sc == 2 ? 4 : sc == 0 ? 2 : 3;
        for (auto& b : alive) b = false;
    }
    std::vector<Op> prologue() override { return {Op("new", {0, lo, hi, 0})}; }
    void destroy() override { DISPATCH(S.kill()); }
    void obs(Out& o) override
    {
        JL l(o);
        for (int k = 0; k < NS; ++k) { l.sep(); DISPATCH(S.obs_slot(k, o)); }
    }
    void exec(const Op& op, Out& res) override
    {
        DISPATCH(S.exec(op, res));
        int k = op.a[0];
        if (op.is("new")) { alive[k] = true; clo[k] = op.a[1]; chi[k] = op.a[2]; }
        else if (op.is("copy") || op.is("asg")) { alive[op.a[1]] = true; clo[op.a[1]] = clo[k]; chi[op.a[1]] = chi[k]; }
        else if (op.is("move") || op.is("masg")) { if (op.a[1] != k) { alive[k] = false; } alive[op.a[1]] = true; clo[op.a[1]] = clo[k]; chi[op.a[1]] = chi[k]; }
        else if (op.is("swap")) { std::swap(clo[k], clo[op.a[1]]); std::swap(chi[k], chi[op.a[1]]); }
    }
    bool enabled(const Op& op) override
    {
        if (op.is("new")) return true;
        if (!alive[op.a[0]]) return false;
        if (op.is("asg") || op.is("masg") || op.is("swap") || op.is("eq")) return alive[op.a[1]];
        if (op.is("move")) return op.a[1] != op.a[0];
        return true;
    }
    int pick_alive(Rng& r) { while (true) { int k = r.below(NS); if (alive[k]) return k; } }
    int ghint(Rng& r, int k) { int c = r.below(10); return c < 5 ? r.range(clo[k], chi[k] - 1) : c == 5 ? -10 : c == 6 ? -11 : c == 7 ? -12 : c == 8 ? -13 : -14; }
    Op gen(Rng& r) override
    {
        bool multi = prof.find('m') != std::string::npos;
        int k = multi ? pick_alive(r) : 0;
        int L = clo[k], H = chi[k];
        int w = r.below(100);
        bool shifts = prof.find('s') != std::string::npos;
        bool look = prof.find('l') != std::string::npos;
        auto interval = [&](int& a, int& b) {
            a = r.range(L - 1, H + 1);
            b = r.chance(3, 4) ? a + r.range(1, (H - L) / 2 + 1) : r.range(L - 2, H + 2);
            if (r.chance(1, 12)) { a = r.range(L - 2, L); b = r.range(L - 1, L + 1); }
        };
        if (multi && w < 30)
        {
            int c = r.below(8), j = r.below(NS);
            if (c == 0) return Op("new", {j, L, H, r.below(nv)});
            if (c == 1) { int l2 = r.range(L - 1, L + 1); return Op("new", {j, l2, l2 + r.range(1, H - L + 1), r.below(nv)}); }
            Op o;
            switch (c) { case 2: o = Op("copy", {k, j}); break; case 3: o = Op("asg", {k, j}); break; case 4: o = Op("move", {k, j}); break;
                         case 5: o = Op("masg", {k, j}); break; case 6: o = Op("swap", {k, j}); break; default: o = Op("eq", {k, j}); }
            if (enabled(o)) return o;
            return Op("copy", {k, j});
        }
        if (shifts && w < 55)
        {
            if (r.chance(1, 2)) { int a = r.range(L - 1, H + 1); int b = r.chance(5, 6) ? a + r.range(1, H - L) : r.range(L - 1, H + 1); return Op("shl", {k, a, b}); }
            return Op("shr", {k, r.range(L - 1, H), r.range(var == 3 ? 0 : -1, H - L + 1), r.below(2)});
        }
        if (look && w < 60)
        {
            int c = r.below(9), key = r.range(L - 1, H + 1);
            switch (c) { case 0: return Op("find", {k, key}); case 1: return Op("findp", {k, key, ghint(r, k)}); case 2: return Op("pos", {k, key});
                         case 3: return Op("posp", {k, key, ghint(r, k)}); case 4: case 5: return Op("tree", {k, key}); case 6: return Op("tpos", {k, key});
                         default: return Op("build", {k}); }
        }
        if (w < 64) return Op("trav", {k});
        if (w < 66) return Op("clear", {k});
        if (w < 68) return Op("build", {k});
        if (w < 70) { int c = r.below(3), key = r.range(L - 1, H + 1); return c == 0 ? Op("find", {k, key}) : c == 1 ? Op("posp", {k, key, ghint(r, k)}) : Op("tree", {k, key}); }
        if (w < 73) return Op("shl", {k, r.range(L, H - 1), r.range(L, H)});
        int a, b;
        interval(a, b);
        int v = r.below(nv), c = r.below(3);
        if (c == 0) return Op("insf", {k, a, b, v});
        if (c == 1) return Op("insb", {k, a, b, v});
        return Op("insp", {k, a, b, v, ghint(r, k)});
    }
    std::vector<Op> alphabet() override
    {
        std::vector<Op> v;
        for (int a = lo - 1; a <= hi; ++a)
            for (int b = a + 1; b <= hi + 1; ++b)
                for (int x = 0; x < nv; ++x)
                {
                    if (prof.find('b') == std::string::npos) v.push_back(Op("insf", {0, a, b, x}));
                    else v.push_back(Op("insb", {0, a, b, x}));
                }
        if (prof.find('s') != std::string::npos)
        {
            for (int a = lo; a < hi; ++a) for (int b = a + 1; b <= hi; ++b) v.push_back(Op("shl", {0, a, b}));
            for (int a = lo; a < hi; ++a) for (int b = 1; b <= hi - lo; ++b) for (int q = 0; q < 2; ++q) v.push_back(Op("shr", {0, a, b, q}));
        }
        if (prof.find('l') != std::string::npos)
        {
            v.push_back(Op("build", {0}));
            for (int a = lo; a < hi; ++a) v.push_back(Op("tree", {0, a}));
        }
        return v;
    }
};

int main(int argc, char** argv)
{
    FstDriver d;
    return driver_main(argc, argv, d);
}
