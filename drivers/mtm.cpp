// multi_type_matrix conformance driver
#include "vdrv.hpp"
#include <mdds/multi_type_matrix.hpp>
#include <mdds/multi_type_vector/macro.hpp>
#include <memory>
#include <limits>
#include <array>

using namespace vd;
constexpr int NS = 3;
enum { EMP = 0, DBL = 1, BOO = 2, STR = 3, INT = 4, I8 = 5 };

// a string type of the user's own
struct Txt
{
    std::string t;
    Txt() = default;
    explicit Txt(std::string s) : t(std::move(s)) {}
    bool operator==(const Txt&) const = default;
};
using TxtBlock = mdds::mtv::default_element_block<mdds::mtv::element_type_user_start, Txt>;
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(Txt, mdds::mtv::element_type_user_start, Txt(), TxtBlock)
struct TxtTraits
{
    using integer_element_block = mdds::mtv::int64_element_block;
    using string_element_block = TxtBlock;
};
struct ShortTraits
{
    using integer_element_block = mdds::mtv::int16_element_block;
    using string_element_block = mdds::mtv::string_element_block;
};

template<typename S> struct SC
{
    static S to(int v) { return S(v == 0 ? std::string() : v % 2 ? "s" + std::to_string(v) : std::string(30, 'x') + std::to_string(v)); }
    static const std::string& raw(const std::string& s) { return s; }
    static const std::string& raw(const Txt& s) { return s.t; }
    static int from(const S& s)
    {
        const std::string& t = raw(s);
        if (t.empty()) return 0;
        int v = t[0] == 's' ? std::atoi(t.c_str() + 1) : t.size() > 30 ? std::atoi(t.c_str() + 30) : -1;
        return to(v) == s ? v : -7777;
    }
};

template<typename Tr>
class MtmSys
{
public:
    using M = mdds::multi_type_matrix<Tr>;
    using Str = typename M::string_type;
    using Int = typename M::integer_type;
    using P = typename M::size_pair_type;
    using Node = typename M::element_block_node_type;
    std::unique_ptr<M> s[NS];

    void kill() { for (auto& p : s) p.reset(); }
    // codes >= 1000 stand for integers at the upper end of the type's exact range
    static Int ito(int v)
    {
        if (v < 1000) return Int(v);
        if constexpr (sizeof(Int) == 8) return Int((1ll << 53) + 1 + 2 * (v - 1000));
        else return Int(std::numeric_limits<Int>::max() - (v - 1000));
    }
    static int ifrom(Int x)
    {
        for (int v = 1000; v < 1010; ++v) if (ito(v) == x) return v;
        return x > -900 && x < 900 ? int(x) : -8888;
    }
    static int num(double d)
    {
        if (d >= double(std::numeric_limits<Int>::max()) - 20 || d >= 9e15) return 500000;
        double t = d * 2;
        return t == double(int(t)) ? int(t) : -9999;
    }
    static double dto(int v) { return v / 2.0; }
    template<typename F> static void with(int T, int v, F f)
    {
        switch (T)
        {
            case DBL: f(dto(v)); break;
            case BOO: f(bool(v)); break;
            case STR: { NoLibScope n; Str x = SC<Str>::to(v); LibScope l; f(x); } break;
            case INT: f(ito(v)); break;
            default: break;
        }
    }
    template<typename F> static void series(int T, int v, int n, int nv, F f)
    {
        NoLibScope nl;
        auto val = [&](int i) { return T == INT && v >= 1000 ? 1000 + (v - 1000 + i) % nv : (v + i) % nv; };
        switch (T)
        {
            case DBL: { std::vector<double> x; for (int i = 0; i < n; ++i) x.push_back(dto(val(i))); LibScope l; f(x.begin(), x.end()); } break;
            case BOO: { std::vector<bool> x; for (int i = 0; i < n; ++i) x.push_back(bool(val(i) % 2)); LibScope l; f(x.cbegin(), x.cend()); } break;
            case STR: { std::vector<Str> x; for (int i = 0; i < n; ++i) x.push_back(SC<Str>::to(val(i))); LibScope l; f(x.begin(), x.end()); } break;
            case INT: { std::vector<Int> x; for (int i = 0; i < n; ++i) x.push_back(ito(val(i))); LibScope l; f(x.begin(), x.end()); } break;
            case I8: { std::vector<std::int8_t> x(static_cast<std::size_t>(n), std::int8_t(1)); LibScope l; f(x.begin(), x.end()); } break;
            default: break;
        }
    }
    static int tcode(mdds::mtm::element_t t)
    {
        // the codes of the string and integer types are the same for every trait
        switch (t)
        {
            case mdds::mtm::element_empty: return EMP;
            case mdds::mtm::element_boolean: return BOO;
            case mdds::mtm::element_string: return STR;
            case mdds::mtm::element_numeric: return DBL;
            case mdds::mtm::element_integer: return INT;
        }
        return -1;
    }
    static void cell(const M& m, int r, int c, Out& o)
    {
        JL q(o);
        auto pos = m.position(r, c);
        int t = tcode(m.get_type(r, c));
        if (tcode(m.get_type(pos)) != t) t = -5;
        int v = 0;
        switch (t)
        {
            case DBL: v = num(m.template get<double>(r, c)); break;
            case BOO: v = m.template get<bool>(r, c); break;
            case STR: v = SC<Str>::from(m.template get<Str>(r, c)); break;
            case INT: v = ifrom(m.template get<Int>(r, c)); break;
        }
        q.i(t).i(v);
    }
    static void derived(const M& m, int r, int c, Out& o)
    {
        JL q(o);
        auto pos = m.position(r, c);
        int n = num(m.get_numeric(r, c));
        q.i(num(m.get_numeric(pos)) == n ? n : -1);
        int i = ifrom(m.get_integer(r, c));
        q.i(ifrom(m.get_integer(pos)) == i ? i : -1);
        bool b = m.get_boolean(r, c);
        q.i(m.get_boolean(pos) == b ? b : -1);
        int st = 0;
        try { int x = SC<Str>::from(m.get_string(r, c)); st = SC<Str>::from(m.get_string(pos)) == x ? 1 : 2; }
        catch (const mdds::general_error&)
        {
            try { m.get_string(pos); st = 3; }
            catch (const mdds::general_error&) {}
        }
        q.i(st);
        auto mp = m.matrix_position(pos);
        q.i((long long)mp.row).i((long long)mp.column);
    }
    void obs_slot(int k, Out& o)
    {
        JL r(o, '{', '}');
        M* m = s[k].get();
        int R = m ? int(m->size().row) : 0, C = m ? int(m->size().column) : 0;
        r.key("alive"); jbool(o, m != nullptr);
        r.key("rows"); jint(o, R);
        r.key("cols"); jint(o, C);
        bool any = m && R > 0 && C > 0;
        r.key("cells"); { JL q(o); for (int c = 0; any && c < C; ++c) for (int y = 0; y < R; ++y) { q.sep(); cell(*m, y, c, o); } }
        r.key("conv"); { JL q(o); for (int c = 0; any && c < C; ++c) for (int y = 0; y < R; ++y) { q.sep(); derived(*m, y, c, o); } }
        r.key("numeric"); jbool(o, m ? m->numeric() : false);
        r.key("empty"); jbool(o, m ? m->empty() : true);
    }
    static void pair(Out& o, const P& p) { JL q(o); q.i((long long)p.row).i((long long)p.column); }
    static void run(Out& o, const Node& n)
    {
        JL q(o);
        int t = tcode(n.type);
        q.i(t).sep();
        JL v(o);
        switch (t)
        {
            case EMP: for (std::size_t i = 0; i < n.size && i < 1000; ++i) v.i(0); break;
            case DBL: for (auto i = n.template begin<mdds::mtv::double_element_block>(), e = n.template end<mdds::mtv::double_element_block>(); i != e; ++i) v.i(num(*i)); break;
            case BOO: for (auto i = n.template begin<mdds::mtv::boolean_element_block>(), e = n.template end<mdds::mtv::boolean_element_block>(); i != e; ++i) v.i(*i); break;
            case STR: for (auto i = n.template begin<typename Tr::string_element_block>(), e = n.template end<typename Tr::string_element_block>(); i != e; ++i) v.i(SC<Str>::from(*i)); break;
            case INT: for (auto i = n.template begin<typename Tr::integer_element_block>(), e = n.template end<typename Tr::integer_element_block>(); i != e; ++i) v.i(ifrom(*i)); break;
        }
    }
    struct Walk1
    {
        Out* o; JL* l; int n = 0;
        void operator()(const Node& a) { NoLibScope x; ++n; l->sep(); run(*o, a); }
    };
    struct Walk2
    {
        Out* o; JL* l; int n = 0;
        void operator()(const Node& a, const Node& b) { NoLibScope x; ++n; l->sep(); JL q(*o); q.sep(); run(*o, a); q.sep(); run(*o, b); }
    };
    template<typename F> static void guarded(Out& res, F f)
    {
        Out tmp;
        const char* err = nullptr;
        try { f(tmp); }
        catch (const mdds::size_error&) { err = "size_error"; }
        catch (const mdds::type_error&) { err = "type_error"; }
        catch (const mdds::invalid_arg_error&) { err = "invalid_arg"; }
        catch (const mdds::general_error&) { err = "general_error"; }
        catch (const std::out_of_range&) { err = "out_of_range"; }
        NoLibScope nl;
        if (err) { JL l(res); l.s("thrown").s(err); }
        else if (tmp.empty()) { JL l(res); l.s("ok"); }
        else res += tmp;
    }
    void exec(const Op& op, int nv, Out& res)
    {
        int k = op.a[0];
        const int* a = op.a + 1;
        M* m = s[k].get();
        auto posres = [&](Out& o, const typename M::position_type& p) { NoLibScope nl; JL l(o); l.s("at").sep(); pair(o, s[k]->matrix_position(p)); };
        guarded(res, [&](Out& o) {
            if (op.is("new")) s[k] = a[0] < 0 ? std::make_unique<M>() : std::make_unique<M>(std::size_t(a[0]), std::size_t(a[1]));
            else if (op.is("newv")) with(a[2], a[3], [&](const auto& x) { s[k] = std::make_unique<M>(std::size_t(a[0]), std::size_t(a[1]), x); });
            else if (op.is("newr")) series(a[2], a[3], a[4], nv, [&](auto b, auto e) { s[k] = std::make_unique<M>(std::size_t(a[0]), std::size_t(a[1]), b, e); });
            else if (op.is("set")) with(a[2], a[3], [&](const auto& x) { m->set(a[0], a[1], x); });
            else if (op.is("setp")) with(a[2], a[3], [&](const auto& x) { auto p = m->position(m->position(a[4], a[5]), a[0], a[1]); posres(o, m->set(p, x)); });
            else if (op.is("sete")) m->set_empty(a[0], a[1]);
            else if (op.is("setep")) { auto p = m->position(m->position(a[2], a[3]), a[0], a[1]); posres(o, m->set_empty(p)); }
            else if (op.is("setel")) m->set_empty(a[0], a[1], std::size_t(a[2]));
            else if (op.is("setce")) m->set_column_empty(a[0]);
            else if (op.is("setre")) m->set_row_empty(a[0]);
            else if (op.is("setr")) series(a[2], a[3], a[4], nv, [&](auto b, auto e) { m->set(a[0], a[1], b, e); });
            else if (op.is("setpr")) series(a[2], a[3], a[4], nv, [&](auto b, auto e) { posres(o, m->set(m->position(a[0], a[1]), b, e)); });
            else if (op.is("setc")) series(a[1], a[2], a[3], nv, [&](auto b, auto e) { m->set_column(a[0], b, e); });
            else if (op.is("res")) m->resize(std::size_t(a[0]), std::size_t(a[1]));
            else if (op.is("resv")) with(a[2], a[3], [&](const auto& x) { m->resize(std::size_t(a[0]), std::size_t(a[1]), x); });
            else if (op.is("tr")) { M& r = m->transpose(); NoLibScope nl; JL l(o); l.s("self").b(&r == m); }
            else if (op.is("cpy")) m->copy(*s[a[0]]);
            else if (op.is("cpya")) series(a[2], a[3], a[4], nv, [&](auto b, auto e) { m->copy(std::size_t(a[0]), std::size_t(a[1]), b, e); });
            else if (op.is("clear")) m->clear();
            else if (op.is("swap")) m->swap(*s[a[0]]);
            else if (op.is("copy")) s[a[0]] = std::make_unique<M>(*m);
            else if (op.is("asg")) *s[a[0]] = *m;
            // what a moved-from matrix holds is not specified: it is destroyed, cleared or given a size
            else if (op.is("move")) { s[a[0]] = std::make_unique<M>(std::move(*m)); if (a[1]) s[k]->clear(); else s[k].reset(); }
            else if (op.is("masg")) { *s[a[0]] = std::move(*m); if (a[1]) s[k]->clear(); else s[k].reset(); }
            else if (op.is("eq")) { bool e = *m == *s[a[0]]; bool f = *s[a[0]] == *m; NoLibScope nl; JL l(o); l.s("eq").b(e).b(f); }
            else if (op.is("get"))
            {
                const M& cm = *m;
                int v = 0;
                try
                {
                    switch (a[2])
                    {
                        case DBL: v = num(cm.template get<double>(a[0], a[1])); break;
                        case BOO: v = cm.template get<bool>(a[0], a[1]); break;
                        case STR: v = SC<Str>::from(cm.template get<Str>(a[0], a[1])); break;
                        case INT: v = ifrom(cm.template get<Int>(a[0], a[1])); break;
                    }
                    NoLibScope nl; JL l(o); l.s("value").i(v);
                }
                catch (const mdds::general_error&) { NoLibScope nl; o.clear(); JL l(o); l.s("mismatch"); }
            }
            else if (op.is("pos"))
            {
                // lookup with a hint, const and not, and the step to the next position
                const M& cm = *m;
                auto p = m->position(m->position(a[2], a[3]), a[0], a[1]);
                auto q = cm.position(cm.position(a[2], a[3]), a[0], a[1]);
                NoLibScope nl;
                JL l(o);
                l.s("pos").sep(); pair(o, cm.matrix_position(p)); l.sep(); pair(o, cm.matrix_position(q));
                l.i(tcode(cm.get_type(q)));
                auto p2 = M::next_position(p);
                auto q2 = M::next_position(q);
                l.b(p2 == m->end_position()).b(q2 == cm.end_position());
                l.sep(); if (q2 == cm.end_position()) { JL z(o); } else pair(o, cm.matrix_position(q2));
            }
            else if (op.is("scan"))
            {
                const M& cm = *m;
                NoLibScope nl;
                JL l(o);
                l.s("scan").sep();
                JL q(o);
                int cap = 500;
                if (!cm.empty())
                    for (auto p = cm.position(0, 0); !(p == cm.end_position()) && cap-- > 0; p = M::next_position(p)) { q.sep(); pair(o, cm.matrix_position(p)); }
            }
            else if (op.is("walk")) { NoLibScope nl; JL l(o); l.s("walk").sep(); JL q(o); Walk1 w = static_cast<const M*>(m)->walk(Walk1{&o, &q}); if (w.n < 0) q.i(-1); }
            else if (op.is("walks")) { NoLibScope nl; JL l(o); l.s("walk").sep(); JL q(o); m->walk(Walk1{&o, &q}, P(a[0], a[1]), P(a[2], a[3])); }
            else if (op.is("walk2")) { NoLibScope nl; JL l(o); l.s("walk2").sep(); JL q(o); m->walk(Walk2{&o, &q}, *s[a[0]]); }
            else if (op.is("walk2s")) { NoLibScope nl; JL l(o); l.s("walk2").sep(); JL q(o); m->walk(Walk2{&o, &q}, *s[a[0]], P(a[1], a[2]), P(a[3], a[4])); }
            else { NoLibScope nl; JL l(o); l.s("badop"); }
        });
    }
};

#define DISPATCH(expr) \
    switch (var) { case 1: { auto& S = s1; expr; } break; case 2: { auto& S = s2; expr; } break; default: { auto& S = s0; expr; } }

class MtmDriver : public Driver
{
    MtmSys<mdds::mtm::std_string_traits> s0;
    MtmSys<TxtTraits> s1;
    MtmSys<ShortTraits> s2;
    int var = 0;
    std::string prof;
    int maxd = 3, nv = 3;
    bool alive[NS] = {};
    int R[NS] = {}, C[NS] = {}; // sizes (generation only)

    bool has(char c) const { return prof.find(c) != std::string::npos; }
    void sync()
    {
        for (int k = 0; k < NS; ++k)
            DISPATCH(alive[k] = bool(S.s[k]); R[k] = alive[k] ? int(S.s[k]->size().row) : 0; C[k] = alive[k] ? int(S.s[k]->size().column) : 0);
    }

public:
    void reset(int variant, const std::string& profile) override
    {
        NoLibScope nl;
        var = variant % 10; prof = profile;
        int sc = variant / 10;
        maxd = sc == 0 ? 3 : sc == 1 ? 5 : 9;
        nv = 3;
        for (int k = 0; k < NS; ++k) { alive[k] = false; R[k] = C[k] = 0; }
    }
    void destroy() override { DISPATCH(S.kill()); }
    void obs(Out& o) override { JL l(o); for (int k = 0; k < NS; ++k) { l.sep(); DISPATCH(S.obs_slot(k, o)); } }
    void op_json(const Op& op, Out& o) override
    {
        // the series written is spelled out: ["setr", k, r, c, T, v, n] means n values v, v+1, .. modulo nv
        Driver::op_json(op, o);
        (void)nv;
    }
    void exec(const Op& op, Out& res) override
    {
        DISPATCH(S.exec(op, nv, res));
        NoLibScope nl;
        sync();
    }
    bool in(int k, int r, int c) { return r >= 0 && c >= 0 && r < R[k] && c < C[k]; }
    bool enabled(const Op& op) override
    {
        const int* a = op.a;
        if (op.is("new") || op.is("newv") || op.is("newr")) return true;
        if (!alive[a[0]]) return false;
        if (op.is("set") || op.is("sete") || op.is("get") || op.is("setel") || op.is("setr") || op.is("setpr")) return in(a[0], a[1], a[2]) && !(op.is("setpr") && a[5] < 1);
        if (op.is("setp")) return in(a[0], a[1], a[2]) && in(a[0], a[5], a[6]);
        if (op.is("setep") || op.is("pos")) return in(a[0], a[1], a[2]) && in(a[0], a[3], a[4]);
        if (op.is("setce") || op.is("setc")) return in(a[0], 0, a[1]);
        if (op.is("setre")) return in(a[0], a[1], 0);
        if (op.is("cpy") || op.is("swap") || op.is("asg") || op.is("eq") || op.is("walk2") || op.is("walk2s")) return alive[a[1]];
        if (op.is("masg")) return alive[a[1]] && a[0] != a[1];
        if (op.is("move")) return a[0] != a[1];
        return true;
    }
    std::vector<Op> prologue() override { return {Op("new", {0, 2, maxd > 3 ? 3 : 2})}; }
    int dim(Rng& r) { return r.chance(1, 12) ? 0 : r.range(1, maxd); }
    int T(Rng& r) { return r.range(1, 4); }
    int V(Rng& r, int t) { return t == BOO ? r.below(2) : t == INT && r.chance(1, 4) ? 1000 + r.below(3) : t == DBL && r.chance(1, 5) ? -r.below(4) : r.below(nv); }
    int SV(Rng& r, int t) { return t == BOO ? r.below(2) : t == INT && r.chance(1, 4) ? 1000 + r.below(nv) : r.below(nv); }
    Op gen(Rng& r) override
    {
        for (int tries = 0; tries < 40; ++tries)
        {
            Op o = gen1(r);
            if (enabled(o)) return o;
        }
        return Op("new", {0, r.range(1, maxd), r.range(1, maxd)});
    }
    Op gen1(Rng& r)
    {
        bool multi = has('m') || has('w');
        int k = multi ? r.below(NS) : 0, j = r.below(NS);
        if (!alive[k]) k = 0;
        int w = r.below(100);
        int y = r.below(std::max(1, R[k])), x = r.below(std::max(1, C[k])), t = T(r), v = V(r, t), sv = SV(r, t);
        int y2 = r.below(std::max(1, R[k])), x2 = r.below(std::max(1, C[k]));
        int cells = R[k] * C[k];
        if (has('m') && w < 30)
        {
            static const char* nm[] = {"copy", "asg", "swap", "eq", "move", "masg", "cpy", "cpy", "eq", "cpy"};
            int c = r.below(10);
            if (c == 4 || c == 5) return Op(nm[c], {k, j, r.below(2)});
            return Op(nm[c], {k, j});
        }
        if (has('w') && w < 40)
        {
            int over = r.chance(1, 6) ? r.range(0, 2) : -1;
            int r1 = std::min(y, y2), r2 = std::max(y, y2), c1 = std::min(x, x2), c2 = std::max(x, x2);
            if (over == 0) r2 = R[k] + r.below(2);
            if (over == 1) c2 = C[k] + r.below(2);
            if (over == 2) { std::swap(r1, r2); if (r.chance(1, 2)) std::swap(c1, c2); }
            switch (r.below(6))
            {
                case 0: return Op("walk", {k});
                case 1: case 2: return Op("walks", {k, r1, c1, r2, c2});
                case 3: if (r.chance(1, 2)) for (int i = 0; i < NS; ++i) if (i != k && alive[i] && R[i] == R[k] && C[i] == C[k]) return Op("walk2", {k, i}); return Op("walk2", {k, j});
                default: return Op("walk2s", {k, j, r1, c1, r2, c2});
            }
        }
        if (has('q') && w < 25)
        {
            switch (r.below(3))
            {
                case 0: return Op("pos", {k, y, x, y2, x2});
                case 1: return Op("scan", {k});
                default: return Op("get", {k, y, x, t});
            }
        }
        if (has('z') && w < 30)
        {
            int a = dim(r), b = dim(r);
            switch (r.below(6))
            {
                case 0: case 1: return Op("res", {k, a, b});
                case 2: return Op("resv", {k, a, b, t, v});
                case 3: case 4: return Op("tr", {k});
                default: {
                    if (r.chance(2, 3)) { a = r.range(1, std::max(1, R[k])); b = r.range(1, std::max(1, C[k])); }
                    int n = r.chance(1, 6) ? r.below(a * b + 3) : a * b;
                    return r.chance(1, 12) ? Op("cpya", {k, a, b, I8, 0, a * b}) : Op("cpya", {k, a, b, t, sv, n});
                }
            }
        }
        if (w < 3 || !alive[k])
        {
            int a = dim(r), b = dim(r);
            switch (r.below(4))
            {
                case 0: return Op("new", {j, r.chance(1, 4) ? -1 : a, b});
                case 1: return Op("newv", {j, a, b, t, v});
                case 2: return r.chance(1, 6) ? Op("newr", {j, a, b, I8, 0, a * b}) : Op("newr", {j, a, b, t, sv, r.chance(1, 5) ? r.below(a * b + 3) : a * b});
                default: return Op("clear", {k});
            }
        }
        int left = cells - (x * R[k] + y);
        int n = r.chance(1, 8) ? left + r.range(0, 2) : r.range(1, std::max(1, std::min(left, maxd + 2)));
        switch (r.below(14))
        {
            case 0: case 1: case 2: return Op("set", {k, y, x, t, v});
            case 3: case 4: return Op("setp", {k, y, x, t, v, y2, x2});
            case 5: return Op("sete", {k, y, x});
            case 6: return Op("setep", {k, y, x, y2, x2});
            case 7: return Op("setel", {k, y, x, r.chance(1, 15) ? 0 : n});
            case 8: return r.chance(1, 3) ? Op("setce", {k, x}) : Op("setc", {k, x, t, sv, r.below(R[k] + 3)});
            case 9: return r.chance(1, 3) ? Op("setre", {k, y}) : Op("setc", {k, x, t, sv, R[k]});
            case 10: case 11: return Op("setr", {k, y, x, t, sv, r.chance(1, 20) ? 0 : n});
            default: return Op("setpr", {k, y, x, t, sv, n});
        }
    }
    std::vector<Op> alphabet() override { return {}; }
};

int main(int argc, char** argv) { MtmDriver d; return driver_main(argc, argv, d); }
