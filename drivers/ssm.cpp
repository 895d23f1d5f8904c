// sorted_string_map conformance driver
#include "vdrv.hpp"
#include "seqkeys.hpp"
#include <mdds/sorted_string_map.hpp>
#include <memory>
#include <map>
#include <algorithm>

using namespace vd;

enum class Colour : std::uint8_t { c0 = 0, c1 = 3, c2 = 77, c3 = 1, none = 200 };
template<typename V> struct EV;
template<> struct EV<int> { static int to(int i) { return i == 3 ? -5 : i * 1000; } static int null() { return -1; } };
template<> struct EV<std::string> { static std::string to(int i) { return std::string(std::size_t(i) * 20, char('p' + i)); } static std::string null() { return "<none>"; } };
template<> struct EV<Colour> { static Colour to(int i) { static const Colour c[] = {Colour::c0, Colour::c1, Colour::c2, Colour::c3}; return c[i]; } static Colour null() { return Colour::none; } };
template<> struct EV<std::string_view> { static std::string_view to(int i) { static const char* n[] = {"zero", "one", "", "three"}; return n[i]; } static std::string_view null() { return "null"; } };
constexpr int NV = 4;

static const char T0[] = {'a', 'b', 'c', 'd'};
static const char T1[] = {'\0', 'A', '\x7f', '\xe9'};

template<typename V>
struct SsmSys
{
    using L = mdds::sorted_string_map<V>;
    using H = mdds::sorted_string_map<V, mdds::ssmap::hash_key_finder>;
    using entry = typename L::entry_type;
    const char* t = T0;
    std::vector<std::string> names;
    std::vector<entry> tab;
    std::unique_ptr<L> lin;
    std::unique_ptr<H> hsh;
    static int from(const V& v) { for (int i = 0; i < NV; ++i) if (EV<V>::to(i) == v) return i; return v == EV<V>::null() ? -1 : -2; }
    void build(const std::map<Key, int>& m)
    {
        lin.reset(); hsh.reset();
        names.clear(); tab.clear();
        for (auto& kv : m) names.push_back(to_str<std::string>(kv.first, t));
        std::size_t i = 0;
        for (auto& kv : m) { tab.push_back(entry{names[i], EV<V>::to(kv.second)}); ++i; }
        lin = std::make_unique<L>(std::span<const entry>(tab.data(), tab.size()), EV<V>::null());
        H tmp(std::span<const entry>(tab.data(), tab.size()), EV<V>::null());
        hsh = std::make_unique<H>(tmp); // copies answer alike
    }
    void kill() { lin.reset(); hsh.reset(); names.clear(); tab.clear(); names.shrink_to_fit(); tab.shrink_to_fit(); }
    void find(const Key& k, JL& l)
    {
        std::string s = to_str<std::string>(k, t);
        l.i(from(lin->find(std::string_view(s)))).i(from(hsh->find(std::string_view(s)))).i(from(lin->find(s.data(), s.size())));
    }
    void rev(int v, JL& l)
    {
        V val = EV<V>::to(v);
        l.sep(); put_key(l.o, from_str(std::string(lin->find_key(val)), t));
        l.sep(); put_key(l.o, from_str(std::string(hsh->find_key(val)), t));
    }
    void sizes(JL& l) { l.i((long long)lin->size()).i((long long)hsh->size()); }
};

#define DISPATCH(expr) \
    switch (var) { case 1: { auto& S = ss; expr; } break; case 2: { auto& S = sc; expr; } break; case 3: { auto& S = sv; expr; } break; default: { auto& S = si; expr; } }

class SsmDriver : public Driver
{
    SsmSys<int> si; SsmSys<std::string> ss; SsmSys<Colour> sc; SsmSys<std::string_view> sv;
    int var = 0, letters = 2, len = 2, cap = 100;
    std::map<Key, int> m;
    std::vector<int> uni;

public:
    void reset(int variant, const std::string&) override
    {
        NoLibScope nl;
        var = variant % 10;
        int scn = variant / 10;
        letters = scn == 0 ? 2 : scn == 1 ? 3 : 4;
        len = scn == 0 ? 2 : scn == 1 ? 3 : 5;
        cap = scn == 0 ? 7 : scn == 1 ? 14 : 40;
        uni = all_keys(scn == 0 ? 2 : 4, scn == 0 ? 3 : 2);
        m.clear();
        si.t = T0; ss.t = T1; sc.t = T1; sv.t = T0;
        DISPATCH(S.build(m));
    }
    void destroy() override { NoLibScope nl; DISPATCH(S.kill()); m.clear(); }
    void obs(Out& o) override
    {
        JL r(o, '{', '}');
        r.key("tab"); { JL q(o); for (auto& kv : m) { q.sep(); JL z(o); z.sep(); put_key(o, kv.first); z.i(kv.second); } }
        // every query string of the universe that is answered with something else than the null value
        r.key("found");
        {
            JL q(o);
            for (int c : uni)
            {
                Key k = dec(c);
                std::string tmp;
                { JL z(tmp); z.sep(); put_key(tmp, k); DISPATCH(S.find(k, z)); }
                if (tmp.size() >= 10 && tmp.compare(tmp.size() - 10, 10, ",-1,-1,-1]") == 0) continue;
                q.sep(); o += tmp;
            }
        }
        r.key("rev"); { JL q(o); for (int v = 0; v < NV; ++v) { q.sep(); JL z(o); DISPATCH(S.rev(v, z)); } }
        r.key("size"); { JL q(o); DISPATCH(S.sizes(q)); }
    }
    void op_json(const Op& op, Out& o) override
    {
        JL l(o);
        l.s(op.name);
        if (op.n > 0) { l.sep(); put_key(o, dec(op.a[0])); }
        for (int i = 1; i < op.n; ++i) l.i(op.a[i]);
    }
    void exec(const Op& op, Out& o) override
    {
        NoLibScope nl;
        JL l(o);
        Key k = dec(op.a[0]);
        if (op.is("put")) { m[k] = op.a[1]; DISPATCH(S.build(m)); l.s("ok"); }
        else if (op.is("del")) { m.erase(k); DISPATCH(S.build(m)); l.s("ok"); }
        else if (op.is("find")) { l.s("find"); DISPATCH(S.find(k, l)); }
        else l.s("badop");
    }
    Key rnd(Rng& r)
    {
        Key k;
        int n = r.range(0, len);
        for (int i = 0; i < n; ++i) k.push_back(r.below(letters));
        return k;
    }
    Key near(Rng& r)
    {
        if (m.empty() || r.chance(1, 4)) return rnd(r);
        auto it = m.begin();
        std::advance(it, r.below(int(m.size())));
        Key k = it->first;
        switch (r.below(4))
        {
            case 0: if (int(k.size()) < 6) k.push_back(r.below(letters)); break;
            case 1: if (!k.empty()) k.pop_back(); break;
            case 2: if (!k.empty()) k.back() = r.below(letters); break;
            default: break;
        }
        return k;
    }
    Op gen(Rng& r) override
    {
        int c = r.below(100);
        if (c < 30) return Op("find", {enc(near(r))});
        if (int(m.size()) >= cap || c < 50) return Op("del", {enc(near(r))});
        return Op("put", {enc(near(r)), r.below(NV)});
    }
    std::vector<Op> alphabet() override
    {
        std::vector<Op> v;
        for (int c : all_keys(2, 2)) for (int x = 0; x < 2; ++x) v.push_back(Op("put", {c, x}));
        for (int c : all_keys(2, 2)) v.push_back(Op("del", {c}));
        return v;
    }
};

int main(int argc, char** argv) { SsmDriver d; return driver_main(argc, argv, d); }
