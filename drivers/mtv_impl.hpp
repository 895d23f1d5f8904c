// one multi_type_vector instantiation behind the ISys interface
#pragma once
#include "mtv_types.hpp"
#include <algorithm>
#include <mdds/multi_type_vector/collection.hpp>

namespace mtv {
using namespace vd;

template<typename C, typename Traits, bool SOA, typename... Ts>
class Sys : public ISys
{
public:
    using It = typename C::iterator;
    using CIt = typename C::const_iterator;
    static constexpr bool COW = Traits::enable_cow;
    std::unique_ptr<C> s[NS];
    std::optional<It> last[NS]; // iterator returned by the last mutation
    bool own[NS] = {};          // surely the sole owner of its blocks

    struct Blk { int type; int pos; int size; const void* data; bool operator==(const Blk&) const = default; };

    // ------------------------------------------------------------- helpers
    // arguments from 2^29 on stand for the largest values of size_t
    static std::size_t big(int x) { return x < (1 << 29) ? std::size_t(x) : std::size_t(-1) - std::size_t(x - (1 << 29)); }
    // iterates over the containers themselves
    struct ObjIt
    {
        using iterator_category = std::forward_iterator_tag;
        using value_type = C; using difference_type = std::ptrdiff_t; using pointer = const C*; using reference = const C&;
        const C* const* p;
        const C& operator*() const { return **p; }
        ObjIt& operator++() { ++p; return *this; }
        ObjIt operator++(int) { ObjIt t(*this); ++p; return t; }
        bool operator==(const ObjIt&) const = default;
    };
    template<typename F> static bool forT(int t, F f)
    {
        bool hit = false;
        ((t == Ts::code && !hit ? (f(Ts{}), hit = true, 0) : 0), ...);
        return hit;
    }
    static int code_of(element_t et)
    {
        int c = et == mdds::mtv::element_type_empty ? 0 : -1;
        ((et == Ts::et ? (c = Ts::code, 0) : 0), ...);
        return c;
    }
    template<typename T> static int idof(const typename T::value& v)
    {
        if constexpr (T::managed) return v ? v->id : 0; else { (void)v; return 0; }
    }
    template<typename T> static long long cell(const typename T::value& v)
    {
        int x = T::read(v);
        if (x < 0) return -1;
        return 1000LL * idof<T>(v) + T::code * 10 + x;
    }
    template<typename T> static void drop(const typename T::value& v) { if constexpr (T::managed) delete v; else (void)v; }
    template<typename T> static std::vector<typename T::value> mk(int v, int n)
    {
        NoLibScope nl;
        std::vector<typename T::value> r;
        for (int i = 0; i < n; ++i) r.push_back(T::make(T::norm(v + i)));
        return r;
    }
    static long long cell_at(const C& c, std::size_t p)
    {
        element_t et = c.get_type(p);
        int t = code_of(et);
        if (t == 0) return c.is_empty(p) ? 0 : -2;
        if (c.is_empty(p)) return -2;
        long long r = -1;
        forT(t, [&](auto tt) { using T = decltype(tt); r = cell<T>(c.template get<typename T::value>(p)); });
        return r;
    }
    static std::vector<long long> cells(const C& c)
    {
        std::vector<long long> v;
        for (std::size_t p = 0; p < c.size() && p < 4096; ++p) v.push_back(cell_at(c, p));
        return v;
    }
    template<typename I> static Blk node(const I& it)
    {
        return {code_of(it->type), int(it->position), int(it->size), it->data};
    }
    template<typename I> static std::vector<Blk> fwd(I it, const I& e)
    {
        std::vector<Blk> v; int cap = 4096;
        for (; !(it == e) && cap-- > 0; ++it) v.push_back(node(it));
        return v;
    }
    static void put_cells(JL& l, Out& o, const std::vector<long long>& v) { l.sep(); JL q(o); for (long long x : v) q.i(x); }

    // ---------------------------------------------------------- observation
    // names of the views that differ from element reads and forward block iteration
    std::vector<const char*> views(int k, const std::vector<long long>& cs, const std::vector<Blk>& bs)
    {
        std::vector<const char*> bad;
        C& m = *s[k];
        const C& c = m;
        auto chk = [&](const char* n, bool ok) { if (!ok) bad.push_back(n); };
        // back to front
        {
            auto r = fwd(c.rbegin(), c.rend());
            std::reverse(r.begin(), r.end());
            chk("rbegin", r == bs);
            auto q = fwd(c.crbegin(), c.crend());
            std::reverse(q.begin(), q.end());
            chk("crbegin", q == bs);
            chk("cbegin", fwd(c.cbegin(), c.cend()) == bs);
            std::vector<Blk> b; int cap = 4096;
            for (auto it = c.end(); !(it == c.begin()) && cap-- > 0;) { --it; b.push_back(node(it)); }
            std::reverse(b.begin(), b.end());
            chk("decrement", b == bs);
            if constexpr (!COW)
            {
                chk("begin", fwd(m.begin(), m.end()) == bs);
                auto z = fwd(m.rbegin(), m.rend());
                std::reverse(z.begin(), z.end());
                chk("rbegin-mutable", z == bs);
            }
        }
        // stored elements block by block
        bool okb = true, oksz = true, okr = true, okat = true;
        for (const Blk& b : bs)
        {
            if (b.type == 0) { oksz = oksz && b.data == nullptr; continue; }
            if (b.type < 0 || !b.data || b.pos < 0 || b.size <= 0 || std::size_t(b.pos) + b.size > cs.size()) { oksz = false; continue; }
            forT(b.type, [&](auto tt) {
                using T = decltype(tt);
                using B = typename T::block;
                const auto& d = *static_cast<const mdds::mtv::base_element_block*>(b.data);
                oksz = oksz && int(B::size(d)) == b.size;
                int i = 0;
                for (auto it = B::begin(d); it != B::end(d) && i < b.size; ++it, ++i)
                    okb = okb && cell<T>(*it) == cs[std::size_t(b.pos + i)];
                okb = okb && i == b.size;
                i = b.size;
                for (auto it = B::crbegin(d); it != B::crend(d) && i > 0; ++it)
                    okr = okr && cell<T>(*it) == cs[std::size_t(b.pos + --i)];
                okr = okr && i == 0;
                i = 0;
                for (auto x : B::range(d)) { if (i >= b.size) break; okb = okb && cell<T>(x) == cs[std::size_t(b.pos + i++)]; }
                for (i = 0; i < b.size && oksz; ++i)
                    okat = okat && cell<T>(B::get_value(d, std::size_t(i))) == cs[std::size_t(b.pos + i)];
            });
        }
        chk("block-elements", okb); chk("block-size", oksz); chk("block-reverse", okr); chk("block-at", okat);
        // positions
        std::size_t n = c.size();
        if (n && oksz && !bs.empty() && bs.back().pos + bs.back().size == int(n))
        {
            bool okp = true, okl = true, okg = true, okn = true, okadv = true, okh = true, okm = true;
            auto where = [&](std::size_t p) { std::size_t i = 0; while (i + 1 < bs.size() && std::size_t(bs[i].pos + bs[i].size) <= p) ++i; return i; };
            std::vector<typename C::const_position_type> at;
            for (std::size_t p = 0; p < n; ++p)
            {
                auto q = c.position(p);
                const Blk& b = bs[where(p)];
                bool ok = !(q.first == c.end()) && node(q.first) == b && q.second == p - std::size_t(b.pos);
                okp = okp && ok;
                if (!ok) break;
                okl = okl && C::logical_position(q) == p;
                if (b.type)
                    forT(b.type, [&](auto tt) { using T = decltype(tt); okg = okg && cell<T>(C::template get<typename T::block>(q)) == cs[p]; 
                        typename T::value v{}; c.template get<typename T::value>(p, v); okg = okg && cell<T>(v) == cs[p]; });
                else
                {
                    using T0 = std::tuple_element_t<0, std::tuple<Ts...>>;
                    okg = okg && c.template get<typename T0::value>(p) == typename T0::value{};
                }
                at.push_back(q);
                if constexpr (!COW)
                {
                    auto z = m.position(p);
                    okm = okm && node(z.first) == b && z.second == q.second && CIt(z.first) == q.first;
                }
            }
            if (at.size() == n)
            {
                auto q = at[0];
                for (std::size_t p = 1; p < n && okn; ++p) { q = C::next_position(q); okn = q.first == at[p].first && q.second == at[p].second && node(q.first) == node(at[p].first); }
                if (okn) { q = C::next_position(q); okn = q.first == c.end() && q.second == 0; }
                if constexpr (!COW)
                {
                    auto z = m.position(0);
                    for (std::size_t p = 1; p < n && okn; ++p) { z = C::next_position(z); okn = CIt(z.first) == at[p].first && z.second == at[p].second; }
                }
                for (std::size_t p : {std::size_t(0), n / 3, n / 2, n - 1})
                    for (std::size_t t = 0; t < n && okadv; ++t)
                    {
                        auto z = C::advance_position(at[p], int(t) - int(p));
                        okadv = z.first == at[t].first && z.second == at[t].second && node(z.first) == node(at[t].first);
                        if constexpr (!COW)
                        {
                            auto y = C::advance_position(m.position(p), int(t) - int(p));
                            okadv = okadv && CIt(y.first) == at[t].first && y.second == at[t].second;
                        }
                    }
                for (std::size_t p = 0; p < n && okadv; p += 1 + n / 4)
                {
                    auto z = C::advance_position(at[p], int(n) - int(p));
                    okadv = z.first == c.end() && z.second == 0;
                }
                // lookup with every block as hint, including blocks behind the position
                std::size_t step = 1 + n / 12;
                for (auto h = c.begin(); !(h == c.end()); ++h)
                    for (std::size_t t = 0; t < n && okh; t += step)
                    {
                        auto z = c.position(h, t);
                        okh = !(z.first == c.end()) && z.first == at[t].first && z.second == at[t].second;
                        if constexpr (!COW)
                        {
                            auto mh = m.begin(); std::advance(mh, std::distance(c.begin(), h));
                            auto y = m.position(mh, t);
                            okh = okh && CIt(y.first) == at[t].first && y.second == at[t].second;
                        }
                    }
            }
            chk("position", okp); chk("logical_position", okl); chk("get", okg); chk("next_position", okn);
            chk("advance_position", okadv); chk("position-hint", okh); chk("position-mutable", okm);
        }
        return bad;
    }
    bool shares(int k)
    {
        if (!s[k]) return false;
        for (int j = 0; j < NS; ++j)
        {
            if (j == k || !s[j]) continue;
            const C &a = *s[k], &b = *s[j];
            for (auto x = a.begin(); !(x == a.end()); ++x)
                for (auto y = b.begin(); x->data && !(y == b.end()); ++y)
                    if (x->data == y->data) return true;
        }
        return false;
    }
    void obs_slot(int k, Out& o)
    {
        JL r(o, '{', '}');
        C* c = s[k].get();
        r.key("alive"); jbool(o, c != nullptr);
        std::vector<long long> cs;
        std::vector<Blk> bs;
        if (c) { cs = cells(*c); const C& cc = *c; bs = fwd(cc.begin(), cc.end()); }
        r.key("c"); { JL q(o); for (auto x : cs) q.i(x); }
        r.key("blk"); { JL q(o); for (auto& b : bs) { q.sep(); JL z(o); z.i(b.type).i(b.pos).i(b.size); } }
        r.key("n"); { JL q(o); if (c) q.i((long long)c->size()).i((long long)c->block_size()).i(c->empty() ? 1 : 0); else q.i(0).i(0).i(1); }
        r.key("alt"); { JL q(o); if (c) for (auto n : views(k, cs, bs)) q.s(n); }
        r.key("ev"); { JL q(o); if (c) for (int i = 0; i < 128; ++i) if (int x = c->event_handler().c[i]) { q.sep(); JL z(o); z.i(code_of(element_t(i))).i(x); } }
        r.key("shr"); jbool(o, shares(k));
        r.key("own"); jbool(o, c && (!COW || own[k]));
    }
    void obs(Out& o) override
    {
        JL r(o, '{', '}');
        r.key("s"); { JL q(o); for (int k = 0; k < NS; ++k) { q.sep(); obs_slot(k, o); } }
        r.key("live"); { JL q(o); for (int i = 1; i < g_nid; ++i) if (g_obj_live[i]) q.i(i); }
        r.key("nid"); jint(o, g_nid);
        r.key("bad"); { JL q(o); q.i(g_dbl).i(g_evbad); }
        r.key("cow"); jbool(o, COW);
        r.key("ty"); { JL q(o); (q.i(Ts::code), ...); }
    }

    // ------------------------------------------------------------ iterators
    void put_it(JL& l, int k, const It& it)
    {
        NoLibScope nl;
        const C& c = *s[k];
        CIt ci(it);
        auto all = fwd(c.begin(), c.end());
        if (ci == c.end()) { l.s("end").b(true); return; }
        Blk b = node(it);
        std::size_t i = 0;
        while (i < all.size() && !(all[i] == b)) ++i;
        bool ok = i < all.size() && node(ci) == b;
        if (ok)
        {
            auto v = fwd(ci, c.end());
            ok = v.size() == all.size() - i && std::equal(v.begin(), v.end(), all.begin() + long(i));
            It w = it; // the mutable iterator itself steps both ways
            std::size_t j = i; int cap = 4096;
            while (ok && cap-- > 0) { ++w; ++j; if (j == all.size()) { ok = CIt(w) == c.end(); break; } ok = node(w) == all[j]; }
            w = it; j = i;
            while (ok && j > 0) { --w; --j; ok = node(w) == all[j]; }
            CIt walked = c.begin();
            std::advance(walked, long(i));
            ok = ok && walked == ci;
        }
        l.s("it").i(b.pos).i(b.size).i(b.type).b(ok);
        last[k] = it;
    }
    bool hint(int k, int h, It& out)
    {
        if (h == -1) return false;
        if constexpr (!COW)
            if (h >= 0)
            {
                out = s[k]->begin();
                for (int i = 0; i < h && !(out == s[k]->end()); ++i) ++out;
                return true;
            }
        if (last[k]) { out = *last[k]; return true; }
        return false;
    }
    // run a mutation; cleans up what a rejected call did not take over
    template<typename F, typename G> void guarded(JL& l, F f, G undo)
    {
        try { f(); }
        catch (const std::out_of_range&) { l.s("oor"); undo(); }
        catch (const mdds::mtv::element_block_error&) { l.s("ebe"); undo(); }
        catch (const mdds::mtv::shared_block_error&) { l.s("shared"); undo(); }
        catch (const mdds::invalid_arg_error&) { l.s("invalid"); undo(); }
        catch (const Boom&) { l.s("boom"); undo(); }
        catch (const std::bad_alloc&) { l.s("boom"); undo(); }
        catch (const mdds::general_error&) { l.s("error"); undo(); }
    }
    template<typename F> void guarded(JL& l, F f) { guarded(l, f, [] {}); }

    // objects alive that no container holds: they have been handed out
    std::vector<int> orphans()
    {
        NoLibScope nl;
        std::vector<char> held(std::size_t(g_nid), 0);
        for (int k = 0; k < NS; ++k)
            if (s[k]) for (long long x : cells(*s[k])) { long long id = x / 1000; if (id > 0 && id < g_nid) held[std::size_t(id)] = 1; }
        std::vector<int> r;
        for (int i = 1; i < g_nid; ++i) if (g_obj_live[i] && !held[std::size_t(i)]) r.push_back(i);
        return r;
    }
    std::map<int, std::function<void()>> del; // how to delete each managed object by id
    void note_objects(int k)
    {
        // remember raw pointers so that released objects can be deleted afterwards
        NoLibScope nl;
        del.clear();
        const C& c = *s[k];
        for (std::size_t p = 0; p < c.size(); ++p)
            forT(code_of(c.get_type(p)), [&](auto tt) {
                using T = decltype(tt);
                if constexpr (T::managed) { auto q = c.template get<typename T::value>(p); if (q) del[q->id] = [q] { delete q; }; }
            });
    }
    void put_orphans(JL& l, Out& o)
    {
        NoLibScope nl;
        auto v = orphans();
        l.sep();
        { JL q(o); for (int x : v) q.i(x); }
        for (int x : v) if (del.count(x)) del[x]();
        del.clear();
    }

    // the dispatch tables of the block functions are built by their first use: do that outside of any accounting
    Sys()
    {
        NoLibScope nl;
        using F = typename Traits::block_funcs;
        using T = std::tuple_element_t<0, std::tuple<Ts...>>;
        try
        {
            auto* a = F::create_new_block(T::et, 0);
            auto* b = F::create_new_block(T::et, 0);
            F::append_block(*a, *b);
            F::append_values_from_block(*a, *b, 0, 0);
            F::assign_values_from_block(*a, *b, 0, 0);
            F::prepend_values_from_block(*a, *b, 0, 0);
            F::swap_values(*a, *b, 0, 0, 0);
            F::overwrite_values(*a, 0, 0);
            F::equal_block(*a, *b);
            F::erase(*a, 0, 0);
            F::shrink_to_fit(*a);
            F::resize_block(*a, 1);
            F::resize_block(*b, 0);
            F::erase(*a, 0);
            F::size(*a);
            F::delete_block(a);
            a = nullptr;
            try { a = F::copy_block(*b); } catch (const std::exception&) {}
            F::delete_block(a);
            a = nullptr;
            try { a = F::clone_block(*b); } catch (const std::exception&) {}
            F::delete_block(a);
            F::delete_block(b);
        }
        catch (const std::exception&) {}
    }

    void kill() override
    {
        for (int k = 0; k < NS; ++k) { last[k].reset(); s[k].reset(); own[k] = false; }
    }
    std::vector<int> types() const override { return {Ts::code...}; }
    bool cow() const override { return COW; }
    bool soa() const override { return SOA; }
    bool alive(int k) const override { return bool(s[k]); }
    int size(int k) const override { return s[k] ? int(s[k]->size()) : 0; }
    int blocks(int k) const override { return s[k] ? int(s[k]->block_size()) : 0; }
    int type_at(int k, int p) const override { return code_of(s[k]->get_type(std::size_t(p))); }

    // which cloning object made each type-22 object of slot j, and as its how-manieth, block by block
    void put_cloners(JL& l, Out& o, int j)
    {
        NoLibScope nl;
        l.sep();
        JL q(o);
        const C& c = *s[j];
        std::map<int, int> rank;
        for (std::size_t p = 0; p < c.size(); ++p)
            forT(code_of(c.get_type(p)), [&](auto tt) {
                using T = decltype(tt);
                if constexpr (T::code == 22)
                {
                    auto x = c.template get<typename T::value>(p);
                    if (!rank.count(x->inst)) { int n = int(rank.size()); rank[x->inst] = n; }
                    q.sep(); JL z(o); z.i((long long)p).i(x->inst < 0 ? -1 : rank[x->inst]).i(x->seq);
                }
            });
    }

    void exec(const Op& op, Out& o) override;
    void exec2(const Op& op, int k, const int* a, JL& l, Out& o);
};

template<typename C, typename Tr, bool SOA, typename... Ts>
void Sys<C, Tr, SOA, Ts...>::exec(const Op& op, Out& o)
{
    int k = op.a[0];
    const int* a = op.a + 1;
    JL l(o);
    if (op.is("new"))
    {
        // form n t v
        last[k].reset();
        int form = a[0], n = a[1], t = a[2], v = a[3];
        std::unique_ptr<C> p;
        if (form == 0) p = std::make_unique<C>();
        else if (form == 1) { EvH h; p = std::make_unique<C>(static_cast<const EvH&>(h)); }
        else if (form == 2) { EvH h; p = std::make_unique<C>(std::move(h)); }
        else if (form == 3) p = std::make_unique<C>(std::size_t(n));
        else
            forT(t, [&](auto tt) {
                using T = decltype(tt);
                if (form == 4) { auto x = T::make(T::norm(v)); p = std::make_unique<C>(std::size_t(n), x); }
                else if (form == 5) { auto x = mk<T>(v, n); p = std::make_unique<C>(std::size_t(n), x.begin(), x.end()); }
                else
                {
                    auto x = mk<T>(v, n);
                    bool ok = false;
                    try { p = std::make_unique<C>(std::size_t(n) + 1, x.begin(), x.end()); ok = true; }
                    catch (const mdds::invalid_arg_error&) { for (typename T::value y : x) drop<T>(y); }
                    if (!ok) { NoLibScope nl; x.clear(); }
                }
            });
        if (p) { s[k] = std::move(p); own[k] = true; l.s("ok"); }
        else l.s("invalid");
        return;
    }
    exec2(op, k, a, l, o);
}

template<typename C, typename Tr, bool SOA, typename... Ts>
void Sys<C, Tr, SOA, Ts...>::exec2(const Op& op, int k, const int* a, JL& l, Out& o)
{
    auto sz = [](int x) { return big(x); };
    // mutations make the slot the sole owner of its blocks, unless they were rejected or had nothing to do
    auto mutated = [&](int q) { last[q].reset(); own[q] = true; };
    C& m = *s[k];
    It h;
    if (op.is("set") || op.is("push") || op.is("emp"))
    {
        bool set = op.is("set");
        int p = set ? a[0] : 0, t = set ? a[1] : a[0], v = set ? a[2] : a[1];
        bool uh = set && hint(k, a[3], h);
        forT(t, [&](auto tt) {
            using T = decltype(tt);
            typename T::value x = [&] { NoLibScope nl; return T::make(T::norm(v)); }();
            guarded(l, [&] {
                It it;
                if (set) it = uh ? m.set(h, sz(p), x) : m.set(sz(p), x);
                else if (op.is("push")) { if (v % 2) it = m.push_back(x); else { auto y = x; it = m.push_back(std::move(y)); } }
                else it = m.template emplace_back<typename T::value>(x);
                mutated(k);
                put_it(l, k, it);
            }, [&] { drop<T>(x); });
        });
    }
    else if (op.is("setr") || op.is("ins"))
    {
        // p t v n h
        bool set = op.is("setr");
        int p = a[0], t = a[1], v = a[2], n = a[3];
        bool uh = hint(k, a[4], h);
        forT(t, [&](auto tt) {
            using T = decltype(tt);
            auto x = mk<T>(v, n);
            guarded(l, [&] {
                It it;
                if (set) it = uh ? m.set(h, sz(p), x.begin(), x.end()) : m.set(sz(p), x.begin(), x.end());
                else it = uh ? m.insert(h, sz(p), x.begin(), x.end()) : m.insert(sz(p), x.begin(), x.end());
                if (n) mutated(k);
                put_it(l, k, it);
            }, [&] { for (typename T::value y : x) drop<T>(y); });
            NoLibScope nl; x.clear(); x.shrink_to_fit();
        });
    }
    else if (op.is("pushe")) guarded(l, [&] { It it = m.push_back_empty(); mutated(k); put_it(l, k, it); });
    else if (op.is("inse"))
    {
        bool uh = hint(k, a[2], h);
        guarded(l, [&] { It it = uh ? m.insert_empty(h, sz(a[0]), sz(a[1])) : m.insert_empty(sz(a[0]), sz(a[1])); if (a[1]) mutated(k); put_it(l, k, it); });
    }
    else if (op.is("sete"))
    {
        bool uh = hint(k, a[2], h);
        guarded(l, [&] { It it = uh ? m.set_empty(h, sz(a[0]), sz(a[1])) : m.set_empty(sz(a[0]), sz(a[1])); bool w = own[k]; mutated(k); own[k] = w; put_it(l, k, it); });
    }
    else if (op.is("era")) guarded(l, [&] { m.erase(sz(a[0]), sz(a[1])); mutated(k); l.s("ok"); });
    else if (op.is("clear")) guarded(l, [&] { m.clear(); mutated(k); l.s("ok"); });
    else if (op.is("res")) guarded(l, [&] { bool w = own[k]; bool same = m.size() == sz(a[0]); m.resize(sz(a[0])); mutated(k); if (same) own[k] = w; l.s("ok"); });
    else if (op.is("shrink")) guarded(l, [&] { bool w = own[k]; m.shrink_to_fit(); mutated(k); own[k] = w; l.s("ok"); });
    else if (op.is("det"))
    {
        guarded(l, [&] {
            if constexpr (SOA) { m.detach(); last[k].reset(); own[k] = true; }
            l.s("ok");
        });
    }
    else if (op.is("rel"))
    {
        // p form h
        int t = a[0] >= 0 && sz(a[0]) < m.size() ? code_of(m.get_type(sz(a[0]))) : 0;
        if (!t) t = std::get<0>(std::tuple<Ts...>{}).code;
        bool uh = a[1] == 2 && hint(k, a[2], h);
        note_objects(k);
        forT(t, [&](auto tt) {
            using T = decltype(tt);
            using V = typename T::value;
            guarded(l, [&] {
                V x{};
                It it;
                if (a[1] == 0) x = m.template release<V>(sz(a[0]));
                else it = uh ? m.release(h, sz(a[0]), x) : m.release(sz(a[0]), x);
                bool w = own[k];
                mutated(k); own[k] = w;
                NoLibScope nl;
                l.s("rel").i(x == V{} && T::code != 3 ? 0 : cell<T>(x));
                if (a[1]) put_it(l, k, it);
                put_orphans(l, o);
            });
        });
    }
    else if (op.is("rela"))
    {
        note_objects(k);
        guarded(l, [&] { m.release(); bool w = own[k]; mutated(k); own[k] = w; l.s("rel"); put_orphans(l, o); });
    }
    else if (op.is("relr"))
    {
        bool uh = hint(k, a[2], h);
        note_objects(k);
        guarded(l, [&] {
            It it = uh ? m.release_range(h, sz(a[0]), sz(a[1])) : m.release_range(sz(a[0]), sz(a[1]));
            bool w = own[k]; mutated(k); own[k] = w;
            l.s("rel"); put_it(l, k, it); put_orphans(l, o);
        });
    }
    else if (op.is("tra"))
    {
        // a b j d h
        int j = a[2];
        bool uh = hint(k, a[4], h);
        guarded(l, [&] {
            It it = uh ? m.transfer(h, sz(a[0]), sz(a[1]), *s[j], sz(a[3])) : m.transfer(sz(a[0]), sz(a[1]), *s[j], sz(a[3]));
            bool wk = own[k], wj = own[j];
            mutated(k); mutated(j);
            own[k] = wk; own[j] = wj;
            put_it(l, k, it);
        });
    }
    else if (op.is("swr"))
    {
        // a b j d
        int j = a[2];
        guarded(l, [&] {
            m.swap(sz(a[0]), sz(a[1]), *s[j], sz(a[3]));
            bool wk = own[k], wj = own[j];
            mutated(k); mutated(j);
            own[k] = wk; own[j] = wj;
            l.s("ok");
        });
    }
    else if (op.is("swp")) { int j = a[0]; m.swap(*s[j]); last[k].reset(); last[j].reset(); if (j != k) std::swap(own[k], own[j]); l.s("ok"); }
    else if (op.is("copy") || op.is("clo") || op.is("cloh"))
    {
        int j = a[0];
        guarded(l, [&] {
            const C& c = m;
            std::unique_ptr<C> p;
            if (op.is("copy")) p = std::make_unique<C>(c);
            else if (op.is("clo")) p = std::make_unique<C>(c.clone());
            else if constexpr (SOA) p = std::make_unique<C>(c.clone(EvH()));
            else p = std::make_unique<C>(c.clone());
            last[j].reset();
            if constexpr (COW) { own[k] = false; own[j] = false; } else own[j] = true;
            s[j] = std::move(p);
            l.s("ok");
            if (!op.is("copy")) put_cloners(l, o, j);
        });
    }
    else if (op.is("asg")) { int j = a[0]; guarded(l, [&] { const C& c = m; *s[j] = c; last[j].reset(); if constexpr (COW) { own[k] = false; own[j] = false; } l.s("ok"); }); }
    else if (op.is("cloa")) { int j = a[0]; guarded(l, [&] { const C& c = m; *s[j] = c.clone(); last[j].reset(); if constexpr (COW) { own[k] = false; own[j] = false; } l.s("ok"); put_cloners(l, o, j); }); }
    else if (op.is("move"))
    {
        int j = a[0];
        auto p = std::make_unique<C>(std::move(m));
        bool w = own[k];
        s[k].reset(); last[k].reset(); own[k] = false;
        s[j] = std::move(p); last[j].reset(); own[j] = w;
        l.s("ok");
    }
    else if (op.is("masg"))
    {
        int j = a[0];
        bool w = own[k];
        *s[j] = std::move(m);
        last[j].reset(); last[k].reset();
        if (j != k) { s[k].reset(); own[k] = false; }
        own[j] = w;
        l.s("ok");
    }
    else if (op.is("mclr"))
    {
        // a moved-from container can be cleared and used again
        int j = a[0];
        auto p = std::make_unique<C>(std::move(m));
        bool w = own[k];
        m.clear(); last[k].reset(); own[k] = true;
        s[j] = std::move(p); last[j].reset(); own[j] = w;
        l.s("ok");
    }
    else if (op.is("eq")) { const C &c = m, &d = *s[a[0]]; l.s("eq").b(c == d).b(c != d); }
    else if (op.is("eqn"))
    {
        // compare with a copy in which one cell differs (p t v; t = 0 empties it)
        guarded(l, [&] {
            const C& c = m;
            C d(c);
            if constexpr (COW) own[k] = false;
            if (a[1] == 0) d.set_empty(sz(a[0]), sz(a[0]));
            else forT(a[1], [&](auto tt) { using T = decltype(tt); if constexpr (!T::managed) { auto x = T::make(T::norm(a[2])); d.set(sz(a[0]), x); } });
            l.s("eq").b(c == d).b(d != c);
        });
    }
    else if (op.is("pos"))
    {
        // p h: position lookup outside and inside, mutable and const, with and without hint
        const C& c = m;
        l.s("pos");
        auto show = [&](auto f) {
            l.sep(); JL q(o);
            guarded(q, [&] { auto x = f(); if (CIt(x.first) == c.end()) q.s("end").i((long long)x.second); else q.i((long long)x.first->position).i((long long)x.second); });
        };
        show([&] { return c.position(sz(a[0])); });
        CIt ch = c.begin();
        for (int i = 0; i < a[1] && !(ch == c.end()); ++i) ++ch;
        show([&] { return c.position(ch, sz(a[0])); });
        if constexpr (!COW)
        {
            show([&] { return m.position(sz(a[0])); });
            It mh = m.begin();
            for (int i = 0; i < a[1] && !(mh == m.end()); ++i) ++mh;
            show([&] { return m.position(mh, sz(a[0])); });
        }
    }
    else if (op.is("q"))
    {
        // element queries at any position
        const C& c = m;
        using T0 = std::tuple_element_t<0, std::tuple<Ts...>>;
        l.s("q");
        auto show = [&](auto f) { l.sep(); JL q(o); guarded(q, [&] { f(); q.s("ok"); }); };
        show([&] { (void)c.get_type(sz(a[0])); });
        show([&] { (void)c.is_empty(sz(a[0])); });
        int t = a[0] >= 0 && sz(a[0]) < c.size() ? code_of(c.get_type(sz(a[0]))) : 0;
        if (!t) t = T0::code;
        forT(t, [&](auto tt) {
            using V = typename decltype(tt)::value;
            show([&] { (void)c.template get<V>(sz(a[0])); });
            show([&] { V x{}; c.template get<V>(sz(a[0]), x); });
        });
    }
    else if (op.is("fill"))
    {
        // append n cells of alternating types
        int i = 0;
        while (i < a[0])
        {
            ((i < a[0] ? [&] { auto x = [&] { NoLibScope nl; return Ts::make(Ts::norm(a[1] + i)); }(); m.push_back(x); ++i; }() : void()), ...);
            if (i < a[0] && a[2]) { m.push_back_empty(); ++i; }
        }
        mutated(k);
        l.s("ok");
    }
    else if (op.is("fdup") || op.is("fal"))
    {
        // kind j n: duplicate with the n-th element duplication (allocation) failing
        int kind = a[0], j = a[1];
        bool dup = op.is("fdup");
        long live = g_live;
        int objs = 0;
        for (int i = 1; i < g_nid; ++i) objs += g_obj_live[i];
        bool made = false, done = false;
        {
            std::unique_ptr<C> p;
            p.reset();
            const C& c = m;
            auto arm = [&] { if (dup) g_fail_copy = a[2]; else g_fail_at = a[2]; };
            alignas(C) static unsigned char buf[sizeof(C)];
            guarded(l, [&] {
                if (kind == 0 || kind == 2 || kind == 3)
                {
                    C* q = nullptr;
                    arm();
                    if (kind == 0) q = ::new (static_cast<void*>(buf)) C(c);
                    else if (kind == 2) q = ::new (static_cast<void*>(buf)) C(c.clone());
                    else if constexpr (SOA) q = ::new (static_cast<void*>(buf)) C(c.clone(EvH()));
                    else q = ::new (static_cast<void*>(buf)) C(c.clone());
                    g_fail_copy = -1; g_fail_at = -1;
                    s[j] = std::make_unique<C>(std::move(*q));
                    q->~C();
                    made = true;
                }
                else if (kind == 1) { arm(); *s[j] = c; made = true; }
                else if (kind == 4) { arm(); *s[j] = c.clone(); made = true; }
                else { arm(); if constexpr (SOA) m.detach(); done = true; }
                g_fail_copy = -1; g_fail_at = -1;
                l.s("ok");
            });
            g_fail_copy = -1; g_fail_at = -1;
        }
        if (made)
        {
            last[j].reset();
            if constexpr (COW) { own[k] = false; own[j] = false; } else own[j] = true;
        }
        else if (kind < 5)
        {
            // a failed duplication must not leave allocations behind (a shared holder may remain under copy-on-write)
            int now = 0;
            for (int i = 1; i < g_nid; ++i) now += g_obj_live[i];
            l.i(COW ? 0 : g_live - live).i(now - objs);
            if constexpr (COW) own[k] = false;
        }
        else if (done) { last[k].reset(); own[k] = true; }
    }
    else if (op.is("col"))
    {
        // sel form a n c m: side-by-side iteration of the selected slots (digits base 4), element range a n, container range c m
        using Col = mdds::mtv::collection<C>;
        std::vector<const C*> v;
        {
            NoLibScope nl;
            for (int q = a[0]; q; q /= 4) v.push_back(s[q % 4 - 1].get());
        }
        int form = a[1];
        bool built = false;
        guarded(l, [&] {
            std::unique_ptr<Col> x;
            if (form % 4 == 0) x = std::make_unique<Col>(v.begin(), v.end());
            else if (form % 4 == 1)
            {
                std::vector<std::shared_ptr<C>> w;
                for (auto* q : v) w.emplace_back(const_cast<C*>(q), [](C*) {});
                x = std::make_unique<Col>(w.begin(), w.end());
            }
            else if (form % 4 == 2)
            {
                struct Keep
                {
                    std::vector<std::unique_ptr<C>> w;
                    ~Keep() { for (auto& q : w) q.release(); }
                } w;
                for (auto* q : v) w.w.emplace_back(const_cast<C*>(q));
                x = std::make_unique<Col>(w.w.begin(), w.w.end());
            }
            else x = std::make_unique<Col>(ObjIt{v.data()}, ObjIt{v.data() + v.size()});
            built = true;
            Col y;
            Col& z = form >= 4 ? y : *x;
            bool nothing = y.begin() == y.end() && y.size() == 0;
            auto ranges = [&](Col& t) {
                std::string r;
                if (a[3] >= 0) { try { t.set_element_range(big(a[2]), big(a[3])); r += 'e'; } catch (const mdds::invalid_arg_error&) {} }
                if (a[5] >= 0) { try { t.set_collection_range(big(a[4]), big(a[5])); r += 'c'; } catch (const mdds::invalid_arg_error&) {} }
                return r;
            };
            std::string acc;
            if (form >= 8) { acc = ranges(*x); y.swap(*x); }
            else { if (form >= 4) y.swap(*x); acc = ranges(z); }
            if (form >= 4) nothing = nothing && x->begin() == x->end() && x->size() == 0;
            l.s("col").i((long long)z.size()).s(acc.c_str()).b(nothing);
            l.sep();
            bool eq = true;
            std::vector<typename Col::const_iterator> its;
            {
                JL q(o);
                auto it = z.begin();
                auto e = z.end();
                int cap = int(v.size() * z.size()) + 2;
                while (!(it == e) && cap-- > 0)
                {
                    NoLibScope nl;
                    its.push_back(it);
                    int t = code_of(it->type);
                    long long cell_ = t == 0 ? 0 : -1;
                    forT(t, [&](auto tt) { using T = decltype(tt); cell_ = cell<T>((*it).template get<typename T::block>()); });
                    q.sep();
                    { JL w(o); w.i((long long)it->index).i((long long)it->position).i(cell_); }
                    if (form % 2) { auto old = it++; eq = eq && old == its.back(); } else { auto& r = ++it; eq = eq && &r == &it; }
                }
                its.push_back(e);
            }
            NoLibScope nl;
            for (std::size_t i = 0; i < its.size(); ++i)
                for (std::size_t j = 0; j < its.size(); ++j) eq = eq && (its[i] == its[j]) == (i == j) && (its[i] != its[j]) == (i != j);
            l.b(eq);
        });
        NoLibScope nl;
        v = {};
    }
    else l.s("badop");
}

} // namespace mtv
