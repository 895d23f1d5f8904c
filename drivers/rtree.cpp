#include "rtree_base.hpp"

template<> std::unique_ptr<SysBase> make_unit<0>();
template<> std::unique_ptr<SysBase> make_unit<1>();
template<> std::unique_ptr<SysBase> make_unit<2>();
template<> std::unique_ptr<SysBase> make_unit<3>();
template<> std::unique_ptr<SysBase> make_unit<4>();
template<> std::unique_ptr<SysBase> make_unit<5>();
template<> std::unique_ptr<SysBase> make_unit<6>();
template<> std::unique_ptr<SysBase> make_unit<7>();
template<> std::unique_ptr<SysBase> make_unit<8>();
template<> std::unique_ptr<SysBase> make_unit<9>();

class RtDriver : public Driver
{
    std::unique_ptr<SysBase> all[10];
    SysBase* S = nullptr;
    std::string prof;
    int var = 0, hi = 6, nv = 3, cap = 12, goal = 0;
    bool alive[NS] = {};
    int sweep = 0;
    std::vector<Obj> objs[NS]; // what may be stored (generation only)
    static constexpr int mx[10] = {4, 4, 3, 4, 6, 10, 6, 100, 2, 5}, mn[10] = {2, 2, 1, 2, 3, 4, 2, 40, 1, 2}, dm[10] = {2, 2, 1, 3, 2, 2, 3, 2, 2, 2};

    static std::unique_ptr<SysBase> make(int v)
    {
        switch (v)
        {
            case 0: return make_unit<0>();
            case 1: return make_unit<1>();
            case 2: return make_unit<2>();
            case 3: return make_unit<3>();
            case 4: return make_unit<4>();
            case 5: return make_unit<5>();
            case 6: return make_unit<6>();
            case 7: return make_unit<7>();
            case 8: return make_unit<8>();
            default: return make_unit<9>();
        }
    }

public:
    void reset(int variant, const std::string& profile) override
    {
        NoLibScope nl;
        var = variant % 10; prof = profile;
        if (!all[var]) all[var] = make(var);
        S = all[var].get();
        int sc = variant / 10;
        hi = sc == 0 ? 3 : sc == 1 ? 7 : sc == 2 ? 15 : 40;
        nv = sc == 0 ? 2 : 9;
        cap = sc == 0 ? 8 : sc == 1 ? 24 : sc == 2 ? 48 : 400;
        goal = sweep = 0;
        for (auto& b : alive) b = false;
        for (auto& p : objs) p.clear();
    }
    void destroy() override { for (auto& p : all) if (p) p->kill(); }
    void obs(Out& o) override
    {
        JL r(o, '{', '}');
        r.key("cfg"); { JL c(o); c.i(dm[var]).i(mx[var]).i(mn[var]); }
        r.key("s"); { JL l(o); for (int k = 0; k < NS; ++k) { l.sep(); S->obs_slot(k, o); } }
    }
    void exec(const Op& op, Out& res) override
    {
        S->exec(op, res);
        NoLibScope nl;
        int k = op.a[0], j = op.a[1];
        if (op.is("new")) { alive[k] = true; objs[k].clear(); }
        else if (op.is("copy") || op.is("asg")) { alive[j] = true; }
        else if (op.is("move") || op.is("masg")) { alive[j] = true; }
        else if (op.is("bulk")) alive[k] = true;
    }
    bool enabled(const Op& op) override
    {
        if (op.is("new") || op.is("bulk")) return true;
        if (!alive[op.a[0]]) return false;
        if (op.is("asg") || op.is("swap") || op.is("masg")) return alive[op.a[1]];
        if (op.is("move")) return op.a[0] != op.a[1];
        return true;
    }
    std::vector<Op> prologue() override { return {Op("new", {0})}; }
    int walk_len(Rng& r, int len) override { return prof == "s" ? 10 : Driver::walk_len(r, len); }
    int pick_alive(Rng& r) { while (true) { int k = r.below(NS); if (alive[k]) return k; } }
    void box(Rng& r, Op& o, bool point)
    {
        int D = dm[var], lo[3], h[3];
        int style = r.below(4);
        for (int d = 0; d < D; ++d)
        {
            int a = r.range(-2, hi - 2), b = style == 0 ? a : style == 1 ? r.range(-2, hi - 2) : std::min(a + r.below(3), hi - 2);
            lo[d] = std::min(a, b); h[d] = point ? lo[d] : std::max(a, b);
        }
        for (int d = 0; d < D; ++d) o.a[o.n++] = lo[d];
        for (int d = 0; d < D; ++d) o.a[o.n++] = h[d];
    }
    Op gen(Rng& r) override
    {
        NoLibScope nl;
        bool multi = prof.find('m') != std::string::npos, bulk = prof.find('b') != std::string::npos, big = prof.find('n') != std::string::npos;
        int k = multi ? pick_alive(r) : 0;
        int n = S->count(k);
        if (multi && r.chance(3, 10))
        {
            int c = r.below(8), j = r.below(NS);
            static const char* nm[] = {"new", "copy", "asg", "swap", "move", "masg", "swap", "copy"};
            Op o = c == 0 ? Op("new", {j}) : Op(nm[c], {k, j});
            if (enabled(o)) return o;
            return Op("copy", {k, j});
        }
        if (prof == "s")
        {
            // every number of objects in turn
            int n = 1 + int(g_trace * 10 + sweep++) % 300;
            return Op("bulk", {0, n, r.below(65537), r.below(3), hi + 1, nv, 0});
        }
        if (bulk && r.chance(1, 8))
        {
            int m = mx[var], w = r.below(4);
            int c = w == 0 ? r.below(m + 2) : w == 1 ? r.below(2 * m + 3) : w == 2 ? m * m - 1 + r.below(m + 2) : r.below(cap + 1);
            return Op("bulk", {k, std::min(c, cap + 4), r.below(65537), r.chance(1, 12) ? 3 : r.below(3), hi + 1, nv, r.below(3)});
        }
        if (big && r.chance(1, 6)) return Op("insn", {k, n >= cap ? 1 : 1 + r.below(std::max(2, (cap - n) / 2)), r.below(65537), r.chance(1, 12) ? 3 : r.below(3), hi + 1, nv});
        if (big && r.chance(1, 8)) return Op("eran", {k, 1 + r.below(std::max(1, n / 2)), r.below(65537)});
        int c = r.below(200);
        if (c < 2) return Op("clear", {k});
        if (c < 8) return Op("chk", {k});
        if (c < 11) return Op("exp", {k, r.below(2)});
        if (c < 13 && dm[var] <= 2) { Op o("geo", {k}); box(r, o, r.chance(1, 3)); box(r, o, r.chance(1, 3)); if (o.n <= NARG) return o; }
        if (c < 15) return Op("ptil", {k, r.below(5)});
        if (c < (prof.find('q') != std::string::npos ? 90 : 35))
        {
            Op o("search", {k, r.below(8)});
            box(r, o, false);
            return o;
        }
        if (c < 39) { Op o("upd", {k, r.below(4), r.below(5), r.below(nv)}); box(r, o, false); return o; }
        // drift between growing and shrinking
        if (n >= cap) goal = -1;
        if (n <= 1 || goal == 0) goal = 1;
        if (r.chance(1, 25)) goal = -goal;
        if (r.chance(goal > 0 ? 1 : 4, 5) && n)
        {
            if (r.chance(1, 3)) { Op o("era", {k, r.below(8), r.below(7)}); box(r, o, false); return o; }
            return Op("eran", {k, 1, r.below(65537)});
        }
        int form = r.below(4);
        Op o("ins", {k, form});
        box(r, o, form >= 2);
        o.a[o.n++] = r.below(nv);
        return o;
    }
    std::vector<Op> alphabet() override
    {
        std::vector<Op> v;
        int D = dm[var];
        for (int x = 0; x <= 3; ++x) for (int w = 0; w <= (x < 2 ? 1 : 0); ++w)
        {
            Op o("ins", {0, w ? 0 : 2});
            for (int d = 0; d < D; ++d) o.a[o.n++] = d == 0 ? x - 1 : d == 1 ? (x * 2) % 3 : 0;
            for (int d = 0; d < D; ++d) o.a[o.n++] = (d == 0 ? x - 1 : d == 1 ? (x * 2) % 3 : 0) + w * 2;
            o.a[o.n++] = (x + w) % nv;
            v.push_back(o);
        }
        for (int i = 0; i < 6; ++i) v.push_back(Op("eran", {0, 1, i}));
        return v;
    }
};
constexpr int RtDriver::mx[10], RtDriver::mn[10], RtDriver::dm[10];

int main(int argc, char** argv) { RtDriver d; return driver_main(argc, argv, d); }
