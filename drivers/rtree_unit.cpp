// one instantiation of the rtree driver per unit
#define VDRV_UNIT
#include "rtree_base.hpp"
#include <mdds/rtree.hpp>

template<std::size_t D, std::size_t MAX, std::size_t MIN, bool FR, std::size_t RS>
struct Tr
{
    static constexpr std::size_t dimensions = D, min_node_size = MIN, max_node_size = MAX, max_tree_depth = 100, reinsertion_size = RS;
    static constexpr bool enable_forced_reinsertion = FR;
};

template<class K> struct KM { static K to(int i) { return K(i); } static int from(double d) { return int(d); } static int from_str(const std::string& s) { return std::atoi(s.c_str()); } };
template<> struct KM<double> { static double to(int i) { return i * 0.25; } static int from(double d) { return int(d * 4); } static int from_str(const std::string& s) { return int(std::atof(s.c_str()) * 4); } };
// unsigned keys: 1000 stands for coordinate 0, as does the 0 of a new extent
template<> struct KM<unsigned> { static unsigned to(int i) { return unsigned(i + 1000); } static int from(double d) { return d == 0 ? 0 : int(d) - 1000; } static int from_str(const std::string& s) { return from(std::atoi(s.c_str())); } };
template<class V> struct VM { static V to(int i) { return V(i); } static int from(const V& v) { return int(v); } };
template<> struct VM<std::string> { static std::string to(int i) { return std::string(20, 'v') + std::to_string(i); } static int from(const std::string& s) { return s.size() > 20 ? std::atoi(s.c_str() + 20) : -1; } };

template<class K, class V, class T_>
class RtSys : public SysBase
{
public:
    using T = mdds::rtree<K, V, T_>;
    using Pt = typename T::point_type;
    using Ex = typename T::extent_type;
    static constexpr int D = int(T_::dimensions);
    std::unique_ptr<T> s[NS];
    int dims() const override { return D; }
    void kill() override { for (auto& p : s) p.reset(); }
    static Pt pt(const int* a) { Pt p; for (int i = 0; i < D; ++i) p.d[i] = KM<K>::to(a[i]); return p; }
    static Ex ex(const int* a) { return Ex(pt(a), pt(a + D)); }
    static void put_ext(Obj& o, const Ex& e)
    {
        for (int i = 0; i < D; ++i) o.push_back(KM<K>::from(e.start.d[i]));
        for (int i = 0; i < D; ++i) o.push_back(KM<K>::from(e.end.d[i]));
    }
    static Ex everything()
    {
        Pt a, b;
        for (int i = 0; i < D; ++i) { a.d[i] = KM<K>::to(-1000); b.d[i] = KM<K>::to(1000); }
        return Ex(a, b);
    }
    static void jobj(Out& o, const Obj& v) { JL l(o); for (int x : v) l.i(x); }
    static void jobjs(Out& o, const std::vector<Obj>& v) { JL l(o); for (auto& x : v) { l.sep(); jobj(o, x); } }
    template<class R> static std::vector<Obj> forward(R& r, bool depth)
    {
        std::vector<Obj> v;
        for (auto it = r.begin(), e = r.end(); !(it == e); ++it)
        {
            Obj o; put_ext(o, it.extent()); o.push_back(VM<V>::from(*it));
            if (depth) o.push_back(int(it.depth()));
            v.push_back(o);
        }
        return v;
    }
    template<class R> static std::vector<Obj> backward(R& r)
    {
        std::vector<Obj> v;
        auto it = r.end(), b = r.begin();
        while (!(it == b))
        {
            if (v.size() % 2) it--; else --it;
            Obj o; put_ext(o, it.extent()); o.push_back(VM<V>::from(*it.operator->())); o.push_back(int(it.depth()));
            v.push_back(o);
        }
        std::reverse(v.begin(), v.end());
        return v;
    }
    static std::vector<Obj> sorted(std::vector<Obj> v) { std::sort(v.begin(), v.end()); return v; }
    int count(int k) override
    {
        if (!s[k]) return 0;
        int n = 0;
        s[k]->walk([&n](const typename T::node_properties& p) { if (p.type == T::node_type::value) ++n; });
        return n;
    }
    // ---- the tree, from the textual export: nested [type, parent ok, extent, children]
    struct Line { int level; std::string self, parent, type, ext; };
    static std::vector<Line> export_lines(const T& t)
    {
        std::vector<Line> v;
        std::istringstream is(t.export_tree(T::export_tree_type::formatted_node_properties));
        std::string l;
        while (std::getline(is, l))
        {
            std::size_t p = l.find("node: "), q = l.find("; parent: "), r = l.find("; type: "), x = l.find("; extent: ");
            if (p == std::string::npos || q == std::string::npos || r == std::string::npos || x == std::string::npos) continue;
            v.push_back({int(p) / 4, l.substr(p + 6, q - p - 6), l.substr(q + 10, r - q - 10), l.substr(r + 8, x - r - 8), l.substr(x + 10)});
        }
        return v;
    }
    static Obj parse_ext(const std::string& e)
    {
        auto one = [](const std::string& p) {
            Obj o;
            std::size_t i = p.find('(') + 1;
            while (true)
            {
                std::size_t j = p.find_first_of(",)", i);
                if (j == std::string::npos) return o;
                o.push_back(KM<K>::from_str(p.substr(i, j - i)));
                if (p[j] == ')') return o;
                i = j + 2;
            }
        };
        std::size_t m = e.find(") - (");
        Obj a = one(m == std::string::npos ? e : e.substr(0, m + 1)), b = m == std::string::npos ? a : one(e.substr(m + 4));
        a.insert(a.end(), b.begin(), b.end());
        return a;
    }
    static int type_no(const std::string& s)
    {
        return s == "directory-nonleaf" ? 1 : s == "directory-leaf" ? 2 : s == "value" ? 3 : 0;
    }
    static void put_tree(Out& o, const std::vector<Line>& v, std::size_t& i, const std::string& parent)
    {
        const Line& n = v[i++];
        JL l(o);
        l.i(type_no(n.type)).b(n.parent == parent);
        l.sep(); jobj(o, parse_ext(n.ext)); l.sep();
        JL c(o);
        while (i < v.size() && v[i].level > n.level) { c.sep(); put_tree(o, v, i, n.self); }
    }
    void obs_slot(int k, Out& o) override
    {
        JL r(o, '{', '}');
        T* t = s[k].get();
        r.key("alive"); jbool(o, t != nullptr);
        std::vector<Obj> objs, objs2;
        Obj e;
        if (t)
        {
            auto res = const_cast<const T*>(t)->search(everything(), T::search_type::overlap);
            objs = sorted(forward(res, false));
            put_ext(e, t->extent());
        }
        r.key("objs"); jobjs(o, objs);
        r.key("size"); jint(o, t ? (long long)t->size() : 0);
        r.key("empty"); jbool(o, t ? t->empty() : true);
        r.key("ext"); jobj(o, e);
        r.key("tree");
        if (t)
        {
            auto v = export_lines(*t);
            std::size_t i = 0;
            if (v.empty()) o += "[]"; else put_tree(o, v, i, "(*, *)");
            // the node walk has to show the same nodes
            std::size_t n = 0; bool same = true;
            t->walk([&](const typename T::node_properties& p) {
                Obj a; put_ext(a, p.extent);
                int ty = p.type == T::node_type::directory_nonleaf ? 1 : p.type == T::node_type::directory_leaf ? 2 : p.type == T::node_type::value ? 3 : 0;
                if (n >= v.size() || type_no(v[n].type) != ty || parse_ext(v[n].ext) != a) same = false;
                ++n;
            });
            r.key("walk"); jbool(o, same && n == v.size());
        }
        else { o += "[]"; r.key("walk"); jbool(o, true); }
    }
    void insert(T& t, int form, const int* box, int v)
    {
        V val = VM<V>::to(v);
        switch (form)
        {
            case 0: t.insert(ex(box), val); break;
            case 1: t.insert(ex(box), std::move(val)); break;
            case 2: t.insert(pt(box), val); break;
            default: t.insert(pt(box), std::move(val));
        }
    }
    template<class F> auto with_results(T& t, int kind, const int* box, F f)
    {
        // kind: bit 0 match, bit 1 point query, bit 2 const search
        auto st = kind & 1 ? T::search_type::match : T::search_type::overlap;
        const T& c = t;
        if (kind & 4) { auto r = kind & 2 ? c.search(pt(box), st) : c.search(ex(box), st); return f(r); }
        auto r = kind & 2 ? t.search(pt(box), st) : t.search(ex(box), st);
        return f(r);
    }
    template<class R> static int length(R& r) { int n = 0; for (auto it = r.begin(); !(it == r.end()); it++) ++n; return n; }
    void exec(const Op& op, Out& o) override
    {
        int k = op.a[0];
        const int* a = op.a + 1;
        JL l(o);
        if (op.is("new")) { s[k] = std::make_unique<T>(); l.s("ok"); }
        else if (op.is("ins")) { insert(*s[k], a[0], a + 1, a[1 + 2 * D]); l.s("ok"); }
        else if (op.is("insn"))
        {
            Gen g(a[1]);
            for (int i = 0; i < a[0]; ++i) { Obj b = g.obj(D, a[2], a[3], a[4]); insert(*s[k], i % 2, b.data(), b[2 * D]); }
            l.s("ok");
        }
        else if (op.is("bulk"))
        {
            Gen g(a[1]);
            typename T::bulk_loader ld;
            for (int i = 0; i < a[0]; ++i)
            {
                Obj b = g.obj(D, a[2], a[3], a[4]);
                V v = VM<V>::to(b[2 * D]);
                bool p = true;
                for (int d = 0; d < D; ++d) p = p && b[d] == b[D + d];
                if (p && i % 3 != 0) { if (i % 2) ld.insert(pt(b.data()), v); else ld.insert(pt(b.data()), std::move(v)); }
                else if (i % 2) ld.insert(ex(b.data()), v);
                else ld.insert(ex(b.data()), std::move(v));
            }
            if (a[5] == 0 || !s[k]) s[k] = std::make_unique<T>(ld.pack());
            else *s[k] = ld.pack();
            l.s("ok");
            // the loader is left empty
            if (a[5] == 2) { T t = ld.pack(); l.i((long long)t.size()).b(t.empty()); }
        }
        else if (op.is("search"))
        {
            with_results(*s[k], a[0], a + 1, [&](auto& r) {
                auto f = forward(r, true), b = backward(r);
                l.s("search"); l.sep(); jobjs(o, sorted(f)); l.b(f == b).i(length(r));
                return 0;
            });
        }
        else if (op.is("era"))
        {
            Obj got;
            with_results(*s[k], a[0], a + 2, [&](auto& r) {
                int n = length(r);
                if (!n) return 0;
                auto it = r.begin();
                for (int i = 0; i < a[1] % n; ++i) ++it;
                put_ext(got, it.extent()); got.push_back(VM<V>::from(*it));
                s[k]->erase(it);
                return 0;
            });
            if (got.empty()) l.s("none");
            else { l.s("erased"); l.sep(); jobj(o, got); }
        }
        else if (op.is("eran"))
        {
            Gen g(a[1]);
            std::vector<Obj> gone;
            for (int i = 0; i < a[0]; ++i)
            {
                auto r = s[k]->search(everything(), T::search_type::overlap);
                int n = length(r);
                if (!n) break;
                int at = g.next() % n;
                auto it = r.begin();
                for (int j = 0; j < at; ++j) ++it;
                Obj got; put_ext(got, it.extent()); got.push_back(VM<V>::from(*it));
                gone.push_back(got);
                s[k]->erase(it);
            }
            l.s("erased"); l.sep(); jobjs(o, gone);
        }
        else if (op.is("upd"))
        {
            Obj got;
            auto r = a[0] & 2 ? s[k]->search(pt(a + 3), a[0] & 1 ? T::search_type::match : T::search_type::overlap)
                              : s[k]->search(ex(a + 3), a[0] & 1 ? T::search_type::match : T::search_type::overlap);
            int n = length(r);
            if (n)
            {
                auto it = r.begin();
                for (int i = 0; i < a[1] % n; ++i) ++it;
                put_ext(got, it.extent()); got.push_back(VM<V>::from(*it));
                *it = VM<V>::to(a[2]);
            }
            if (got.empty()) l.s("none");
            else { l.s("updated"); l.sep(); jobj(o, got); }
        }
        else if (op.is("clear")) { s[k]->clear(); l.s("ok"); }
        else if (op.is("copy")) { s[a[0]] = std::make_unique<T>(*s[k]); l.s("ok"); }
        else if (op.is("asg")) { *s[a[0]] = *s[k]; l.s("ok"); }
        else if (op.is("move")) { s[a[0]] = std::make_unique<T>(std::move(*s[k])); l.s("ok"); }
        else if (op.is("masg")) { *s[a[0]] = std::move(*s[k]); l.s("ok"); }
        else if (op.is("swap")) { s[k]->swap(*s[a[0]]); l.s("ok"); }
        else if (op.is("chk"))
        {
            l.s("chk");
            for (int m = 0; m < 4; ++m)
            {
                typename T::integrity_check_properties p;
                p.throw_on_first_error = m & 1;
                p.error_on_min_node_size = m & 2;
                bool ok = true;
                std::ostringstream sink;
                auto* old = std::cout.rdbuf(sink.rdbuf());
                try { s[k]->check_integrity(p); } catch (const mdds::integrity_error&) { ok = false; }
                std::cout.rdbuf(old);
                l.b(ok);
            }
        }
        else if (op.is("exp"))
        {
            try
            {
                std::string t = s[k]->export_tree(a[0] ? T::export_tree_type::extent_as_svg : T::export_tree_type::extent_as_obj);
                auto n = [&t](const char* w) { int c = 0; for (std::size_t i = t.find(w); i != std::string::npos; i = t.find(w, i + 1)) ++c; return c; };
                if (a[0]) l.s("svg").i(n("<rect ")).i(n("<circle "));
                else l.s("obj").i(n("o extent ")).i(n("\nv ")).i(n("\nf "));
            }
            catch (const mdds::size_error&) { l.s("size-error"); }
        }
        else if (op.is("geo"))
        {
            Ex x = ex(a), y = ex(a + 2 * D);
            Pt p = pt(a + 2 * D);
            l.s("geo").b(x.contains(p)).b(x.contains(y)).b(x.intersects(y)).b(y.intersects(x)).b(x == y).b(x.is_point());
        }
        else if (op.is("ptil"))
        {
            alignas(Pt) unsigned char buf[sizeof(Pt)];
            std::memset(buf, 0x5A, sizeof buf);
            K v[4] = {KM<K>::to(5), KM<K>::to(6), KM<K>::to(7), KM<K>::to(8)};
            try
            {
                Pt* p = a[0] == 0 ? new (buf) Pt(std::initializer_list<K>{}) : a[0] == 1 ? new (buf) Pt({v[0]}) : a[0] == 2 ? new (buf) Pt({v[0], v[1]}) : a[0] == 3 ? new (buf) Pt({v[0], v[1], v[2]}) : new (buf) Pt({v[0], v[1], v[2], v[3]});
                l.s("pt");
                for (int i = 0; i < D; ++i) l.i(p->d[i] == K() ? 0 : KM<K>::from(p->d[i]));
            }
            catch (const std::range_error&) { l.s("range-error"); }
        }
        else l.s("badop");
    }
};


// dimensions, maximum, minimum, forced reinsertion, reinsertion size: keep in step with rtree.cpp
#if UNIT == 0
using S = RtSys<int, int, Tr<2, 4, 2, false, 1>>;
#elif UNIT == 1
using S = RtSys<double, std::string, Tr<2, 4, 2, true, 2>>;
#elif UNIT == 2
using S = RtSys<int, int, Tr<1, 3, 1, true, 1>>;
#elif UNIT == 3
using S = RtSys<long, std::string, Tr<3, 4, 2, false, 1>>;
#elif UNIT == 4
using S = RtSys<double, int, Tr<2, 6, 3, true, 2>>;
#elif UNIT == 5
using S = RtSys<int, std::string, Tr<2, 10, 4, true, 3>>;
#elif UNIT == 6
using S = RtSys<std::int64_t, int, Tr<3, 6, 2, true, 2>>;
#elif UNIT == 7
using S = RtSys<double, int, mdds::detail::rtree::default_rtree_traits>;
#elif UNIT == 8
using S = RtSys<short, std::string, Tr<2, 2, 1, false, 1>>;
#elif UNIT == 9
using S = RtSys<unsigned, int, Tr<2, 5, 2, false, 1>>;
#endif
template<> std::unique_ptr<SysBase> make_unit<UNIT>() { return std::make_unique<S>(); }
