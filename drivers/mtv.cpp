// multi_type_vector conformance driver: histories, generator
#include "mtv_sys.hpp"
#include <algorithm>
using namespace vd;
using mtv::NS;

class MtvDriver : public Driver
{
    std::unique_ptr<mtv::ISys> cur;
    int cur_unit = -1;
    std::string prof;
    int scale = 0, maxn = 6, nv = 3;
    std::vector<int> types;

    bool P(char c) const { return prof.find(c) != std::string::npos; }

public:
    void reset(int variant, const std::string& profile) override
    {
        NoLibScope nl;
        int unit = variant % 100;
        scale = variant / 100;
        prof = profile;
        if (unit != cur_unit)
        {
            auto it = mtv::registry().find(unit);
            if (it == mtv::registry().end()) { std::fprintf(stderr, "no unit %d\n", unit); std::abort(); }
            cur.reset(it->second());
            cur_unit = unit;
        }
        mtv::reset_objects();
        types = cur->types();
        maxn = scale == 0 ? 5 : scale == 1 ? 10 : scale == 2 ? 20 : 70;
        nv = 4;
    }
    void destroy() override
    {
        if (!cur) return;
        cur->kill();
        // objects still alive, destroyed twice, or handlers that died with blocks outstanding add to what was left over
        for (int i = 1; i < mtv::g_nid; ++i) g_live += mtv::g_obj_live[i];
        g_live += mtv::g_dbl * 1000 + mtv::g_evbad * 1000000;
    }
    void obs(Out& o) override { cur->obs(o); }
    void exec(const Op& op, Out& res) override { cur->exec(op, res); }
    bool enabled(const Op& op) override
    {
        if (op.is("new")) return !(op.a[1] == 4 && op.a[3] >= 20); // managed blocks take no initial value
        if (!cur->alive(op.a[0])) return false;
        static const char* two1[] = {"asg", "swp", "eq", "cloa"};
        for (auto n : two1) if (op.is(n) && !cur->alive(op.a[1])) return false;
        if (op.is("move") || op.is("mclr")) return op.a[1] != op.a[0];
        if (op.is("masg")) return op.a[1] != op.a[0] && cur->alive(op.a[1]);
        if (op.is("tra") || op.is("swr")) return cur->alive(op.a[3]) && (op.is("tra") || op.a[3] != op.a[0]);
        // an exception under an execution policy terminates
        if (cur_unit == 15 || cur_unit == 16)
        {
            if (op.is("fdup") || op.is("fal")) return false;
            if (op.is("copy") || op.is("asg") || op.is("eqn"))
                for (int p = 0; p < cur->size(op.a[0]); ++p) if (cur->type_at(op.a[0], p) >= 22) return false;
        }
        if (op.is("fal") && std::find(types.begin(), types.end(), 24) != types.end()) return false;
        if (op.is("fdup") || op.is("fal"))
        {
            int kind = op.a[1];
            if ((kind == 1 || kind == 4)) return cur->alive(op.a[2]);
            return true;
        }
        if (op.is("eqn")) return op.a[1] < cur->size(op.a[0]);
        if (op.is("col")) { for (int q = op.a[1]; q; q /= 4) if (q % 4 == 0 || !cur->alive(q % 4 - 1)) return false; return op.a[1] > 0; }
        return true;
    }
    std::vector<Op> prologue() override
    {
        if (scale == 3)
            return {Op("new", {0, 0, 0, 0, 0}), Op("fill", {0, 45, 1, 0})};
        return {Op("new", {0, 0, 0, 0, 0})};
    }
    int walk_len(Rng& r, int len) override { return 1 + r.below(len); }
    bool end_line() override { return true; }

    int pick(Rng& r) { for (int i = 0; i < 20; ++i) { int k = r.below(NS); if (cur->alive(k)) return k; } for (int k = 0; k < NS; ++k) if (cur->alive(k)) return k; return -1; }
    int hint(Rng& r, int k)
    {
        if (!P('h') && r.chance(2, 3)) return -1;
        int c = r.below(3);
        if (c == 0) return -1;
        if (c == 1) return -2;
        return r.range(0, cur->blocks(k));
    }
    int type(Rng& r) { return types[std::size_t(r.below(int(types.size())))]; }
    // a type likely to meet a neighbour of its own kind
    int near(Rng& r, int k, int p)
    {
        int n = cur->size(k);
        if (r.chance(1, 2) && n)
        {
            int q = p + r.range(-1, 1);
            if (q >= 0 && q < n) { int t = cur->type_at(k, q); if (t > 0) return t; }
        }
        return type(r);
    }
    Op gen(Rng& r) override
    {
        for (int tries = 0; tries < 60; ++tries)
        {
            Op op = gen1(r);
            bool en;
            { NoLibScope nl; en = enabled(op); }
            if (en) return op;
        }
        return Op("pushe", {pick(r)});
    }
    Op gen1(Rng& r)
    {
        int k = pick(r);
        if (k < 0) return Op("new", {0, 0, 0, 0, 0});
        bool multi = P('m') || P('t') || P('d') || P('c');
        if (!multi) k = 0;
        int n = cur->size(k);
        auto rnd = [&](int m) { return m <= 0 ? 0 : r.below(m); };
        // a position: inside, or with profile x sometimes outside
        auto far = [&] { return r.chance(1, 4) ? (1 << 29) + r.below(3) : n + r.below(3); };
        auto pos = [&] { return P('x') && r.chance(1, 6) ? far() : rnd(n); };
        auto val = [&] { return r.below(nv); };
        int a = pos(), b = pos();
        if (a > b && !(P('x') && r.chance(1, 8))) std::swap(a, b);
        if (r.chance(1, 3) && n) { b = a + r.below(3); if (b >= n && !P('x')) b = n - 1; }
        if (n == 0 && !P('x')) a = b = 0;
        if (n == 0 && r.chance(2, 3))
        {
            int c = r.below(6);
            if (c == 0) return Op("new", {k, r.range(3, 5), r.range(1, maxn), type(r), val()});
            if (c == 1) return Op("res", {k, r.range(1, maxn)});
            if (c == 2) return Op("push", {k, type(r), val()});
            if (c == 3) return Op("pushe", {k});
            if (c == 4) return Op("fill", {k, r.range(1, maxn), val(), r.below(2)});
            return Op("emp", {k, type(r), val()});
        }
        int w = r.below(100);
        if (P('c') && r.chance(1, 5))
        {
            int j = r.below(NS);
            if (cur->alive(j)) return Op("res", {j, n});
            if (n > 0) return Op("new", {j, r.range(3, 5), n, type(r), val()});
        }
        if (multi && w < 45)
        {
            int j = r.below(NS), c = r.below(100);
            if (P('t') && c < 60)
            {
                // transfer and swap need somewhere to go
                j = pick(r);
                if (cur->alive(j))
                {
                    int m = cur->size(j), len = b - a + 1;
                    int d = m - len >= 0 ? r.below(m - len + 1) : 0;
                    if (m - len < 0 && !P('x') && n) { if (m == 0) return Op("res", {j, r.range(1, maxn)}); b = a + r.below(m); if (b >= n) b = n - 1; len = b - a + 1; d = m >= len ? r.below(m - len + 1) : 0; }
                    if (P('x') && r.chance(1, 6)) d = r.chance(1, 4) ? (1 << 29) + r.below(3) : r.below(m + 2);
                    if (c < 30) return Op("tra", {k, a, b, j, d, hint(r, k)});
                    if (j != k) return Op("swr", {k, a, b, j, d});
                }
            }
            if (P('d') && c < 30) return Op("fdup", {k, r.below(cur->soa() ? 6 : 5), j, r.below(n + 2)});
            if (P('d') && c < 38) return Op("fal", {k, r.below(5), j, r.below(12)});
            static const char* nm[] = {"new", "copy", "asg", "move", "masg", "swp", "eq", "clo", "cloh", "cloa", "mclr", "eqn", "copy", "new", "det"};
            int q = r.below(15);
            if (q == 0 || q == 13) { int f = r.below(6); return Op("new", {j, f, r.range(0, maxn), type(r), val()}); }
            if (std::strcmp(nm[q], "eqn") == 0) return Op("eqn", {k, rnd(n), r.below(5) == 0 ? 0 : type(r), val()});
            if (std::strcmp(nm[q], "det") == 0) return Op("det", {k});
            if (std::strcmp(nm[q], "masg") == 0 && r.chance(1, 2)) q = 1;
            return Op(nm[q], {k, j});
        }
        w = r.below(100);
        bool grow = n < maxn;
        if (!grow && w < 30) w = 30 + r.below(25);
        if (P('c') && w < 12) return collection(r);
        if (w < 12) return Op("ins", {k, a, near(r, k, a), val(), r.chance(1, 12) ? 0 : 1 + r.below(3), hint(r, k)});
        if (w < 20) return Op("inse", {k, a, r.chance(1, 12) ? 0 : 1 + r.below(3), hint(r, k)});
        if (w < 26) { int c = r.below(6); int t = near(r, k, n - 1); if (c < 3) return Op("push", {k, t, val()}); if (c < 5) return Op("emp", {k, t, val()}); return Op("pushe", {k}); }
        if (w < 30) return Op("res", {k, r.range(0, maxn)});
        if (w < 40) return Op("sete", {k, a, b, hint(r, k)});
        if (w < 48) return Op("era", {k, a, b});
        if (P('r') && w < 60)
        {
            int c = r.below(10);
            if (c < 5) return Op("rel", {k, a, r.below(3), hint(r, k)});
            if (c < 9) return Op("relr", {k, a, b, hint(r, k)});
            return Op("rela", {k});
        }
        if (w < 66) { int len = r.chance(1, 12) ? 0 : 1 + r.below(4); if (!P('x') && a + len > n) len = n - a; return Op("setr", {k, a, near(r, k, a), val(), len, hint(r, k)}); }
        if (P('x') && w < 72) return r.chance(1, 2) ? Op("pos", {k, r.range(0, n + 2), r.range(0, cur->blocks(k))}) : Op("q", {k, r.range(0, n + 2)});
        if (P('x') && w < 73) return Op("new", {k, 6, r.range(1, 4), type(r), val()});
        if (w < 97) return Op("set", {k, a, near(r, k, a), val(), hint(r, k)});
        if (w < 98) return Op("shrink", {k});
        if (w < 99) return Op("res", {k, r.range(0, n)});
        return Op("clear", {k});
    }
    Op collection(Rng& r)
    {
        // usually containers of one length
        int k = pick(r), n = cur->size(k);
        int sel = 0, cnt = 1 + r.below(4);
        for (int i = 0; i < cnt; ++i)
        {
            int j = pick(r);
            if (cur->size(j) != n && r.chance(4, 5)) j = k;
            sel = sel * 4 + j + 1;
        }
        auto rg = [&](int m, int& a, int& c) {
            if (r.chance(1, 3)) { a = 0; c = -1; return; }
            if (P('x') && r.chance(1, 3)) { a = r.below(m + 2); c = r.chance(1, 4) ? (1 << 29) + r.below(m + 2) : r.below(m + 2); return; }
            a = m > 0 ? r.below(m) : 0;
            c = m > a ? 1 + r.below(m - a) : 0;
        };
        int a, len, c, m;
        rg(n, a, len);
        rg(cnt, c, m);
        return Op("col", {k, sel, r.below(12), a, len, c, m});
    }
    std::vector<Op> alphabet() override
    {
        std::vector<Op> v;
        int t1 = types[0], t2 = types.size() > 1 ? types[1] : types[0];
        for (int h : {-1, -2})
        {
            for (int p = 0; p < 4; ++p)
                for (int t : {t1, t2})
                    v.push_back(Op("set", {0, p, t, p, h}));
            for (int p = 0; p < 4; ++p) { v.push_back(Op("ins", {0, p, t1, 1, 2, h})); v.push_back(Op("inse", {0, p, 1, h})); }
            for (int p = 0; p < 4; ++p) for (int q = p; q < 4; ++q) v.push_back(Op("sete", {0, p, q, h}));
            if (h == -1)
                for (int p = 0; p < 4; ++p) for (int q = p; q < 4; ++q) v.push_back(Op("era", {0, p, q}));
            for (int p = 0; p < 3; ++p) v.push_back(Op("setr", {0, p, t2, 2, 2, h}));
        }
        v.push_back(Op("push", {0, t1, 0})); v.push_back(Op("push", {0, t2, 1})); v.push_back(Op("pushe", {0})); v.push_back(Op("res", {0, 2}));
        return v;
    }
};

int main(int argc, char** argv) { MtvDriver d; return driver_main(argc, argv, d); }
