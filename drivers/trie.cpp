// trie_map / packed_trie_map conformance driver
// slots 0..2 hold trie_map, slots 3..4 packed_trie_map
#include "vdrv.hpp"
#include "seqkeys.hpp"
#include <mdds/trie_map.hpp>
#include <memory>
#include <map>
#include <algorithm>
#include <sstream>

using namespace vd;
constexpr int NT = 3, NP = 2, NS = NT + NP;

template<typename V> struct TV;
template<> struct TV<int> { static int to(int i) { return i * 257 - 3; } static int from(int v) { return (v + 3) % 257 ? 99 : (v + 3) / 257; } using other = long long; };
template<> struct TV<std::string> {
    static std::string to(int i) { return i == 0 ? std::string() : i == 3 ? std::string(70001, 'z') : std::string(std::size_t(i) * 299 - 298, char('a' + i)); }
    static int from(const std::string& v) { return v.empty() ? 0 : v == to(3) ? 3 : v == to(1) ? 1 : v == to(2) ? 2 : 99; } using other = int; };
template<> struct TV<std::vector<double>> {
    static std::vector<double> to(int i) { return std::vector<double>(std::size_t(i), i * 0.5); }
    static int from(const std::vector<double>& v) { for (double d : v) if (d != v.size() * 0.5) return 99; return int(v.size()); } using other = double; };
template<> struct TV<double> { static double to(int i) { return i * -0.25; } static int from(double v) { return int(v * -4); } using other = std::string; };
template<> struct TV<std::vector<unsigned char>> {
    static std::vector<unsigned char> to(int i) { return std::vector<unsigned char>(std::size_t(i * 3), (unsigned char)(250 + i)); }
    static int from(const std::vector<unsigned char>& v) { for (auto d : v) if (d != 250 + v.size() / 3) return 99; return int(v.size() / 3); } using other = short; };

struct P8 { using pack_value_type = std::uint8_t; };
struct P16 { using pack_value_type = std::uint16_t; };
struct P32 { using pack_value_type = std::uint32_t; };
struct PX { using pack_value_type = std::uint64_t; };

template<typename Key0, typename V, typename TR>
class TrieSys
{
public:
    using KS = Key0;
    using U = typename KS::value_type;
    using T = mdds::trie_map<KS, V, TR>;
    using P = mdds::packed_trie_map<KS, V, TR>;
    using VM = TV<V>;
    std::unique_ptr<T> t[NT];
    std::unique_ptr<P> p[NP];
    std::array<U, 40> tab{};
    U odd{};
    const U* letters() const { return tab.data(); }

    void kill() { for (auto& x : t) x.reset(); for (auto& x : p) x.reset(); }
    KS ks(int code) { return to_str<KS>(dec(code), letters()); }
    template<typename It> void item(Out& o, It& it)
    {
        auto v = *it;
        JL z(o);
        z.sep(); put_key(o, from_str<KS>(v.first, letters()));
        z.i(VM::from(it->second));
    }
    template<typename B> void forward(B b, B e, Out& o, bool post = false)
    {
        JL q(o); int cap = 400;
        for (; !(b == e) && cap-- > 0;) { q.sep(); item(o, b); if (post) b++; else ++b; }
    }
    template<typename B> void backward(B b, B e, Out& o, bool post = false)
    {
        std::vector<std::string> v; int cap = 400;
        while (!(e == b) && cap-- > 0) { if (post) e--; else --e; v.emplace_back(); item(v.back(), e); }
        std::reverse(v.begin(), v.end());
        JL q(o);
        for (auto& x : v) { q.sep(); o += x; }
    }
    template<typename N> void dfs(N n, Key& path, JL& q)
    {
        if (path.size() > 10) return;
        q.sep();
        {
            JL z(q.o);
            z.sep(); put_key(q.o, path);
            z.i(n.has_value() ? VM::from(n.value()) : -1).b(n.has_child());
        }
        for (int x = 0; x < g_base - 1; ++x)
        {
            auto c = n.child(tab[std::size_t(x)]);
            if (!c.valid()) continue;
            path.push_back(x); dfs(c, path, q); path.pop_back();
        }
        // a node that does not exist answers every question
        if (auto c = n.child(odd); !c.valid() && (c.has_child() || c.has_value() || c.child(odd).valid())) { q.sep(); q.o += "[\"missing node\"]"; }
        if (n.child(odd).valid()) { path.push_back(99); q.sep(); put_key(q.o, path); path.pop_back(); }
    }
    template<typename M> void obs_map(const M* m, Out& o)
    {
        JL r(o, '{', '}');
        r.key("alive"); jbool(o, m != nullptr);
        r.key("items"); if (m) forward(m->begin(), m->end(), o); else o += "[]";
        r.key("back"); if (m) backward(m->begin(), m->end(), o); else o += "[]";
        r.key("size"); jint(o, m ? (long long)m->size() : 0);
        r.key("empty"); jbool(o, m ? m->empty() : true);
        r.key("nodes"); { JL q(o); if (m) { Key k; dfs(m->root_node(), k, q); } }
    }
    void obs_slot(int k, Out& o) { if (k < NT) obs_map(t[k].get(), o); else obs_map(p[k - NT].get(), o); }

    template<typename It> void found(It it, It e, JL& l)
    {
        l.sep();
        if (it == e) { JL z(l.o); return; }
        item(l.o, it);
    }
    template<typename M> void find(const M& m, int code, JL& l)
    {
        KS s = ks(code);
        found(m.find(s), m.end(), l);
        found(m.find(s.data(), s.size()), m.end(), l);
    }
    // from it: a forward, b back, c forward, staying within [b0, e0]
    template<typename It, typename M> void steps(It it, It b0, It e0, const int* n, JL& l, const M& m, bool post)
    {
        bool same = true;
        auto at = [&] {
            l.sep();
            if (it == e0) { jstr(l.o, "end"); return; }
            item(l.o, it);
            auto v = *it;
            typename M::const_iterator c = it, f = m.find(v.first);
            same = same && c == f && !(f == m.end());
        };
        at();
        for (int ph = 0; ph < 3; ++ph)
            for (int i = 0; i < n[ph]; ++i)
            {
                if (ph == 1) { if (it == b0) break; if (post) it--; else --it; }
                else { if (it == e0) break; if (post) it++; else ++it; }
                at();
            }
        l.b(same);
    }
    template<typename M> void walk(M& m, int code, const int* n, JL& l, bool post)
    {
        auto it = m.begin();
        if (code >= 0)
        {
            it = m.find(ks(code));
            if (it == m.end()) { l.s("absent"); return; }
        }
        steps(it, m.begin(), m.end(), n, l, static_cast<const M&>(m), post);
    }
    template<typename M> void prefix(const M& m, int code, JL& l)
    {
        KS s = ks(code);
        auto r = m.prefix_search(s);
        l.sep(); forward(r.begin(), r.end(), l.o);
        l.sep(); backward(r.begin(), r.end(), l.o);
        auto c = r;
        auto mv = std::move(r);
        auto as = m.prefix_search(KS());
        as = c;
        l.sep(); forward(c.begin(), c.end(), l.o, true);
        l.sep(); backward(mv.begin(), mv.end(), l.o, true);
        l.sep(); forward(as.begin(), as.end(), l.o);
        auto r2 = m.prefix_search(s.data(), s.size());
        l.sep(); forward(r2.begin(), r2.end(), l.o);
    }
    template<typename M> void pwalk(const M& m, int code, const int* n, JL& l, bool post)
    {
        auto r = m.prefix_search(ks(code));
        auto b = r.begin();
        if (b == r.end()) { l.s("empty"); return; }
        steps(b, r.begin(), r.end(), n, l, m, post);
    }
    std::string save(const P& m) { std::ostringstream os; m.save_state(os); return os.str(); }
    template<typename M> static bool load(M& m, const std::string& bytes)
    {
        std::istringstream is(bytes);
        try { m.load_state(is); return true; }
        catch (const std::exception&) { return false; }
    }
    std::string dump(const P& m) { std::string o; obs_map(&m, o); return o; }
    // position of the check byte after the values, or 0 if there is none
    static std::size_t values_end(const std::string& b)
    {
        if (b.size() < 10) return 0;
        std::uint32_t cnt; std::memcpy(&cnt, b.data() + 2, 4);
        std::size_t pos = 6;
        if (b[0] & 1)
            for (std::uint32_t i = 0; i < cnt && pos + 4 <= b.size(); ++i) { std::uint32_t z; std::memcpy(&z, b.data() + pos, 4); pos += 4 + z; }
        else { std::uint32_t z; std::memcpy(&z, b.data() + 6, 4); pos = 10 + std::size_t(cnt) * z; }
        return pos < b.size() && (unsigned char)b[pos] == 0xFF ? pos : 0;
    }
    void exec(const Op& op, Out& o)
    {
        int k = op.a[0], j = op.a[1];
        const int* a = op.a + 1;
        JL l(o);
        bool isT = k < NT;
        T* x = isT ? t[k].get() : nullptr;
        P* y = isT ? nullptr : p[k - NT].get();
        if (op.is("new")) { if (isT) t[k] = std::make_unique<T>(); else p[k - NT] = std::make_unique<P>(); l.s("ok"); }
        else if (op.is("ins")) { KS s = ks(a[0]); if (a[1] & 1) x->insert(s, VM::to(a[1])); else x->insert(s.data(), s.size(), VM::to(a[1])); l.s("ok"); }
        else if (op.is("era")) { KS s = ks(a[0]); bool b = s.size() & 1 ? x->erase(s) : x->erase(s.data(), s.size()); l.s("era").b(b); }
        else if (op.is("find"))
        {
            l.s("find");
            if (isT)
            {
                find(static_cast<const T&>(*x), a[0], l);
                found(x->find(ks(a[0])), x->end(), l);
                KS s = ks(a[0]);
                typename T::const_iterator c = x->find(s.data(), s.size()); // iterator to const_iterator
                found(c, static_cast<const T&>(*x).end(), l);
            }
            else { find(*y, a[0], l); find(*y, a[0], l); }
        }
        else if (op.is("setv"))
        {
            auto it = x->find(ks(a[0]));
            if (it == x->end()) l.s("absent");
            else { it->second = VM::to(a[1]); l.s("set"); }
        }
        else if (op.is("pre")) { l.s("pre"); if (isT) prefix(*x, a[0], l); else prefix(*y, a[0], l); }
        else if (op.is("walk") || op.is("walkb"))
        {
            bool post = (a[1] + a[2]) % 2;
            int from = op.is("walk") ? a[0] : -1;
            const int* steps_n = op.is("walk") ? a + 1 : a;
            l.s("walk");
            if (!isT) walk(static_cast<const P&>(*y), from, steps_n, l, post);
            else if ((a[1] + a[3]) % 2) walk(static_cast<const T&>(*x), from, steps_n, l, post);
            else walk(*x, from, steps_n, l, post);
        }
        else if (op.is("pwalk")) { l.s("walk"); if (isT) pwalk(*x, a[0], a + 1, l, a[2] & 1); else pwalk(*y, a[0], a + 1, l, a[2] & 1); }
        else if (op.is("clear")) { x->clear(); l.s("ok"); }
        else if (op.is("copy")) { if (isT) t[j] = std::make_unique<T>(*x); else p[j - NT] = std::make_unique<P>(*y); l.s("ok"); }
        else if (op.is("asg")) { if (isT) *t[j] = *x; else *p[j - NT] = *y; l.s("ok"); }
        else if (op.is("move")) { if (isT) { t[j] = std::make_unique<T>(std::move(*x)); t[k].reset(); } else { p[j - NT] = std::make_unique<P>(std::move(*y)); p[k - NT].reset(); } l.s("ok"); }
        else if (op.is("masg")) { if (isT) { *t[j] = std::move(*x); t[k].reset(); } else { *p[j - NT] = std::move(*y); p[k - NT].reset(); } l.s("ok"); }
        else if (op.is("mclr")) { t[j] = std::make_unique<T>(std::move(*x)); x->clear(); l.s("ok"); }
        else if (op.is("swap")) { if (isT) x->swap(*t[j]); else y->swap(*p[j - NT]); l.s("ok"); }
        else if (op.is("eq")) { l.s("eq"); if (isT) l.b(*x == *t[j]).b(*x != *t[j]); else l.b(*y == *p[j - NT]).b(*y != *p[j - NT]); }
        else if (op.is("eqn"))
        {
            // equal to a container that differs in the entry of one key only (moved to another key, given another value)?
            T other;
            if (isT) { if (a[1] & 1) other = *x; else for (auto it = x->begin(); !(it == x->end()); ++it) other.insert(it->first, it->second); }
            else for (auto it = y->begin(); !(it == y->end()); ++it) other.insert(it->first, it->second);
            KS k1 = ks(a[0]), k2 = ks(a[2]);
            auto it = other.find(k1);
            if (!(it == other.end()))
            {
                V v = a[1] < 0 ? V(it->second) : VM::to(a[1]);
                other.erase(k1);
                other.insert(k2, v);
            }
            l.s("eqn");
            if (isT) l.b(*x == other).b(other == *x).b(*x != other);
            else { P q = other.pack(); l.b(*y == q).b(q == *y).b(*y != q); }
        }
        else if (op.is("pack"))
        {
            const T& src = *x;
            if (a[1] == 0) { T tmp(src); p[j - NT] = std::make_unique<P>(tmp.pack()); }
            else if (a[1] == 1) p[j - NT] = std::make_unique<P>(src);
            else
            {
                std::vector<KS> keys;
                std::vector<typename P::entry> es;
                for (auto it = src.begin(); !(it == src.end()); ++it) keys.push_back(it->first);
                std::size_t i = 0;
                for (auto it = src.begin(); !(it == src.end()); ++it, ++i) es.emplace_back(keys[i].data(), keys[i].size(), it->second);
                if (a[1] == 2) p[j - NT] = std::make_unique<P>(std::span<const typename P::entry>(es.data(), es.size()));
                else p[j - NT] = std::make_unique<P>(es.data(), es.size());
            }
            l.s("ok");
        }
        else if (op.is("sl")) { bool ok = load(*p[j - NT], save(*y)); l.s(ok ? "ok" : "rejected"); }
        else if (op.is("trunc"))
        {
            // every proper prefix of the saved bytes (a sample of them when there are many)
            std::string b = save(*y);
            bool rejected = true, kept = true;
            std::size_t stepn = b.size() / 120 + 1;
            std::string want = dump(*p[j - NT]);
            for (std::size_t n = std::size_t(a[1]) % stepn; n < b.size(); n += stepn)
            {
                if (load(*p[j - NT], b.substr(0, n))) rejected = false;
                if (dump(*p[j - NT]) != want) kept = false;
            }
            if (load(*p[j - NT], b.substr(0, b.size() - 1))) rejected = false;
            l.s("trunc").b(rejected).b(kept);
        }
        else if (op.is("hdr"))
        {
            std::string b = save(*y);
            std::size_t ve = values_end(b);
            l.s("hdr");
            bool rej = true;
            P& q = *p[j - NT];
            auto bad = [&](std::size_t pos, int xo) { std::string c = b; c[pos] = char(c[pos] ^ xo); if (load(q, c)) rej = false; };
            bad(0, 1);                 // fixed / variable size flag
            bad(b.size() - 1, 0x80);   // last check byte
            if (ve) { bad(ve, 0x10); bad(ve + 1, 0x03); } else rej = false; // check byte, size of the packing type
            if (!(b[0] & 1)) { bad(6, 0x04); bad(7, 0x01); }               // size of a value
            bad(5, 0x40);              // number of values
            l.b(rej);
        }
        else if (op.is("xload"))
        {
            // a map of another value type, and one of another packing type, must refuse the stream
            std::string b = save(*y);
            mdds::packed_trie_map<KS, typename VM::other, TR> m1;
            mdds::packed_trie_map<KS, V, std::conditional_t<sizeof(typename TR::pack_value_type) == 4, P16, P32>> m2;
            bool r1 = !load(m1, b), r2 = !load(m2, b);
            l.s("xload").b(r1).b(r2).b(m1.empty() && m2.empty());
        }
        else l.s("badop");
    }
};

// A map of n keys of two units, `wide` keys per first unit, packed with units of TR: how many entries the packed
// map delivers, whether it has others.
template<typename TR>
void big(int n, int wide, int how, JL& l)
{
    using T = mdds::trie_map<std::u16string, int, TR>;
    using P = typename T::packed_type;
    auto key = [&](int i) { return std::u16string{char16_t(i / wide * 7), char16_t(i % wide * 5 + 1)}; };
    T t;
    for (int i = 0; i < n; ++i) t.insert(key(i), i);
    try
    {
        std::unique_ptr<P> p;
        if (how == 0) p = std::make_unique<P>(t);
        else if (how == 1) { T c(t); p = std::make_unique<P>(c.pack()); }
        else
        {
            std::vector<std::u16string> ks;
            std::vector<typename P::entry> es;
            for (int i = 0; i < n; ++i) ks.push_back(key(i));
            for (int i = 0; i < n; ++i) es.emplace_back(ks[std::size_t(i)].data(), 2, i);
            p = std::make_unique<P>(std::span<const typename P::entry>(es.data(), es.size()));
        }
        int found = 0, wrong = 0;
        for (int i = 0; i < n; ++i)
        {
            auto it = p->find(key(i));
            if (!(it == p->end()) && it->second == i) ++found;
            auto k2 = key(i); k2[1] = char16_t(k2[1] + 1);
            if (!(p->find(k2) == p->end())) ++wrong;
        }
        l.i(found).i(wrong);
    }
    catch (const mdds::size_error&) { l.s("rejected"); }
}

#define DISPATCH(expr) \
    switch (var) { case 1: { auto& S = s1; expr; } break; case 2: { auto& S = s2; expr; } break; case 3: { auto& S = s3; expr; } break; \
                   case 4: { auto& S = s4; expr; } break; case 5: { auto& S = s5; expr; } break; default: { auto& S = s0; expr; } }

class TrieDriver : public Driver
{
    TrieSys<std::string, int, mdds::trie::default_traits> s0;
    TrieSys<std::string, std::string, P16> s1;
    TrieSys<std::u16string, int, P32> s2;
    TrieSys<std::u32string, std::vector<double>, PX> s3;
    TrieSys<std::vector<short>, double, P16> s4;
    TrieSys<std::string, std::vector<unsigned char>, P8> s5;
    int var = 0;
    std::string prof;
    int letters = 2, len = 3, nv = 2, cap = 7;
    bool alive[NS] = {};
    std::vector<int> keys[NS]; // key codes that may be stored (generation only)

public:
    void reset(int variant, const std::string& profile) override
    {
        NoLibScope nl;
        var = variant % 10; prof = profile;
        int sc = variant / 10;
        letters = sc == 0 ? 2 : sc == 1 ? 3 : 4;
        len = sc == 0 ? 3 : sc == 1 ? 4 : 6;
        nv = sc == 0 ? 2 : 4;
        cap = sc == 0 ? 8 : sc == 1 ? 12 : 18;
        if (var == 5) { cap = 9; if (len > 5) len = 5; }
        // ascending in the order of the container: strings order their units as unsigned
        g_base = 5;
        if (sc == 3)
        {
            // many children per node
            g_base = 41; letters = 40; len = 2; cap = 36; nv = 4;
            if (var == 5) letters = 12, cap = 9;
            for (int i = 0; i < 40; ++i)
            {
                auto u = std::size_t(i);
                s0.tab[u] = char(i * 6 + 3); s1.tab[u] = char(i * 6); s2.tab[u] = char16_t(i * 1600);
                s3.tab[u] = char32_t(i * 27000); s4.tab[u] = short(i * 1500 - 30000); s5.tab[u] = char(i * 6 + 1);
            }
            s0.odd = '\x02'; s1.odd = '\xff'; s2.odd = 801; s3.odd = 26999; s4.odd = 1; s5.odd = '\x80';
        }
        else
        {
            s0.tab = {'a', 'b', 'c', 'd'}; s0.odd = 'z';
            s1.tab = {'\0', 'A', '\x7f', '\xc3'}; s1.odd = '\xff';
            s2.tab = {0, 1, 0x8000, 0xffff}; s2.odd = 0x100;
            s3.tab = {U' ', U'a', 0x10000, 0x10ffff}; s3.odd = 5;
            s4.tab = {-300, -1, 0, 77}; s4.odd = 2;
            s5.tab = {'\0', '\x01', '\x80', '\xff'}; s5.odd = 'q';
        }
        for (auto& b : alive) b = false;
        for (auto& x : keys) x.clear();
    }
    void destroy() override { DISPATCH(S.kill()); }
    void obs(Out& o) override { JL l(o); for (int k = 0; k < NS; ++k) { l.sep(); DISPATCH(S.obs_slot(k, o)); } }
    static int key_arg(const Op& op)
    {
        for (const char* n : {"ins", "era", "find", "setv", "pre", "walk", "pwalk", "eqn"}) if (op.is(n)) return 1;
        return -1;
    }
    void op_json(const Op& op, Out& o) override
    {
        JL l(o);
        l.s(op.name);
        for (int i = 0; i < op.n; ++i) { if (i == key_arg(op) || (i == 3 && op.is("eqn"))) { l.sep(); put_key(o, dec(op.a[i])); } else l.i(op.a[i]); }
    }
    void exec(const Op& op, Out& res) override
    {
        if (op.is("big"))
        {
            JL l(res); l.s("big");
            const int* a = op.a + 1;
            if (a[0] == 8) big<P8>(a[1], a[2], a[3], l);
            else if (a[0] == 16) big<P16>(a[1], a[2], a[3], l);
            else if (a[0] == 32) big<P32>(a[1], a[2], a[3], l);
            else big<mdds::trie::default_traits>(a[1], a[2], a[3], l);
            return;
        }
        DISPATCH(S.exec(op, res));
        NoLibScope nl;
        int k = op.a[0], j = op.a[1];
        auto& K = keys[k];
        if (op.is("new")) { alive[k] = true; K.clear(); }
        else if (op.is("ins")) { if (std::find(K.begin(), K.end(), op.a[1]) == K.end()) K.push_back(op.a[1]); }
        else if (op.is("era")) K.erase(std::remove(K.begin(), K.end(), op.a[1]), K.end());
        else if (op.is("clear")) K.clear();
        else if (op.is("copy") || op.is("asg") || op.is("pack") || op.is("sl")) { alive[j] = true; if (j != k) keys[j] = K; }
        else if (op.is("move") || op.is("masg")) { alive[j] = true; keys[j] = K; if (j != k) { alive[k] = false; K.clear(); } }
        else if (op.is("mclr")) { alive[j] = true; keys[j] = K; K.clear(); }
        else if (op.is("swap")) std::swap(keys[k], keys[j]);
    }
    bool enabled(const Op& op) override
    {
        int k = op.a[0], j = op.a[1];
        if (op.is("new")) return k >= 0 && k < NS;
        if (!alive[k]) return false;
        bool isT = k < NT;
        auto kind = [](int s) { return s < NT; };
        for (const char* n : {"ins", "era", "setv", "clear"}) if (op.is(n)) return isT;
        if (op.is("copy")) return kind(j) == isT;
        if (op.is("move")) return kind(j) == isT && j != k;
        if (op.is("mclr")) return isT && kind(j) && j != k;
        if (op.is("asg") || op.is("swap") || op.is("eq")) return kind(j) == isT && alive[j];
        if (op.is("masg")) return kind(j) == isT && alive[j] && j != k;
        if (op.is("pack")) return isT && !kind(j);
        if (op.is("sl") || op.is("trunc") || op.is("hdr")) return !isT && !kind(j) && alive[j];
        if (op.is("xload")) return !isT;
        return true;
    }
    std::vector<Op> prologue() override { return {Op("new", {0})}; }
    int rnd(Rng& r)
    {
        Key k; int n = r.range(0, len);
        for (int i = 0; i < n; ++i) k.push_back(r.below(letters));
        return enc(k);
    }
    // stored keys, their prefixes, extensions and siblings
    int near(Rng& r, int s)
    {
        if (keys[s].empty() || r.chance(1, 6)) return rnd(r);
        Key k = dec(keys[s][std::size_t(r.below(int(keys[s].size())))]);
        switch (r.below(5))
        {
            case 0: if (int(k.size()) < len + 1 && int(k.size()) < 7) k.push_back(r.below(letters)); break;
            case 1: { int n = r.range(0, int(k.size())); k.resize(std::size_t(n)); break; }
            case 2: if (!k.empty()) k.back() = r.below(letters); break;
            case 3: if (!k.empty()) { k[std::size_t(r.below(int(k.size())))] = r.below(letters); } break;
            default: break;
        }
        if (int(k.size()) > len) k.resize(std::size_t(len));
        return enc(k);
    }
    bool has(char c) const { return prof.find(c) != std::string::npos; }
    Op gen(Rng& r) override
    {
        // profiles: m several slots, q queries and walks, p packed maps, s streams
        if (has('m') || has('p') || has('s'))
        {
            for (int tries = 0; tries < 8; ++tries)
            {
                if (!r.chance(has('s') ? 2 : 1, 3)) break;
                int k = r.below(NS), j = r.below(NS);
                int c = r.below(20);
                Op o;
                if (c < 1) o = Op("new", {k});
                else if (c < 3) o = Op("copy", {k, j});
                else if (c < 4) o = Op("asg", {k, j});
                else if (c < 5) o = Op("move", {k, j});
                else if (c < 6) o = Op("masg", {k, j});
                else if (c < 7) o = Op("mclr", {k, j});
                else if (c < 8) o = Op("swap", {k, j});
                else if (c < 11) o = Op("eq", {k, j});
                else if (c < 15) o = Op("pack", {r.below(NT), NT + r.below(NP), r.below(4)});
                else if (c < 17) o = Op("sl", {NT + r.below(NP), NT + r.below(NP)});
                else if (!has('s')) continue;
                else if (c < 18) o = Op("trunc", {NT + r.below(NP), NT + r.below(NP), r.below(50)});
                else if (c < 19) o = Op("hdr", {NT + r.below(NP), NT + r.below(NP)});
                else o = Op("xload", {NT + r.below(NP)});
                if (!has('p') && !has('s') && (o.is("pack") || o.is("sl"))) continue;
                if (enabled(o)) return o;
            }
        }
        int k = 0;
        if (has('m') || has('p') || has('s'))
            for (int tries = 0; tries < 10; ++tries) { int c = r.below(NS); if (alive[c]) { k = c; break; } }
        if (!alive[k]) return Op("new", {k});
        bool isT = k < NT;
        int c = r.below(100);
        if (!isT || c < (has('q') ? 50 : 25))
        {
            int key = near(r, k);
            switch (r.below(isT ? 7 : 6))
            {
                case 5: { int k2 = r.chance(1, 3) ? key : near(r, k); return Op("eqn", {k, key, r.range(-1, nv - 1), k2}); }
                case 0: return Op("find", {k, key});
                case 1: return Op("pre", {k, key});
                case 2: return Op("walk", {k, key, r.below(4), r.below(6), r.below(4)});
                case 3: return Op("walkb", {k, r.below(12), r.below(12), r.below(6)});
                case 4: return Op("pwalk", {k, key, r.below(8), r.below(8), r.below(6)});
                default: return Op("setv", {k, key, r.below(nv)});
            }
        }
        if (c >= 98) return Op("clear", {k});
        if (int(keys[k].size()) >= cap || r.chance(35, 100)) return Op("era", {k, near(r, k)});
        return Op("ins", {k, near(r, k), r.below(nv)});
    }
    std::vector<Op> alphabet() override
    {
        std::vector<Op> v;
        int i = 0;
        if (has('g'))
        {
            // the number of entries a packed map delivers
            for (int how : {0, 1, 2})
            {
                for (int n : {1, 7, 30, 55}) v.push_back(Op("big", {0, 8, n, n > 7 ? 30 : 3, how}));
                v.push_back(Op("big", {0, 8, 120, 10, how}));
                v.push_back(Op("big", {0, 8, 255, 255, how}));
                v.push_back(Op("big", {0, 16, 254, 254, how}));
                v.push_back(Op("big", {0, 16, 4000, 700, how}));
                v.push_back(Op("big", {0, 16, 4000, 2, how}));
                v.push_back(Op("big", {0, 16, 65535, 300, how}));
                v.push_back(Op("big", {0, 32, 20000, 5000, how}));
                v.push_back(Op("big", {0, 32, 70000, 300, how}));
                v.push_back(Op("big", {0, 64, 9000, 129, how}));
                v.push_back(Op("big", {0, 64, 9000, 257, how}));
            }
            return v;
        }
        for (int c : all_keys(2, 2)) v.push_back(Op("ins", {0, c, i++ % 2}));
        for (int c : all_keys(2, 2)) v.push_back(Op("era", {0, c}));
        if (has('w'))
        {
            v.push_back(Op("walkb", {0, 9, 9, 9}));
            for (int c : all_keys(2, 1)) v.push_back(Op("pwalk", {0, c, 9, 9, 9}));
        }
        return v;
    }
};

int main(int argc, char** argv) { TrieDriver d; return driver_main(argc, argv, d); }
