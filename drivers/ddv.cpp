// delayed_delete_vector conformance driver
#include "vdrv.hpp"
#include <mdds/multi_type_vector/types.hpp>
#include <memory>
#include <list>

using namespace vd;
constexpr int NS = 3;

template<class V> struct VM { static V to(int i) { return V(i); } static int from(V v) { return int(v); } };
template<> struct VM<bool> { static bool to(int i) { return i % 2; } static int from(bool b) { return b; } };
template<> struct VM<std::string> { static std::string to(int i) { return i ? std::string(18, 's') + char('0' + i) : std::string(); } static int from(const std::string& s) { return s.empty() ? 0 : s.size() == 19 ? s.back() - '0' : -1; } };

struct SysBase
{
    virtual ~SysBase() = default;
    virtual void kill() = 0;
    virtual void obs(int k, Out& o) = 0;
    virtual void exec(const Op& op, Out& o) = 0;
    virtual bool alive(int k) = 0;
    virtual int size(int k) = 0;
};

template<class V>
struct Sys : SysBase
{
    using T = mdds::mtv::delayed_delete_vector<V>;
    std::unique_ptr<T> s[NS];
    void kill() override { for (auto& p : s) p.reset(); }
    bool alive(int k) override { return bool(s[k]); }
    int size(int k) override { return s[k] ? int(s[k]->size()) : 0; }
    template<class It> static void range(Out& o, It b, It e)
    {
        JL l(o);
        for (int n = 0; b != e && n < 200; ++b, ++n) l.i(VM<V>::from(*b));
    }
    void obs(int k, Out& o) override
    {
        JL r(o, '{', '}');
        static const T none;
        T* t = s[k].get();
        const T& c = t ? *t : none;
        r.key("alive"); jbool(o, t != nullptr);
        std::size_t n = c.size();
        r.key("size"); jint(o, (long long)n);
        if (n > 200) n = 0; // nonsense: do not read
        bool ok = n == c.size();
        r.key("fwd"); if (t && ok) range(o, t->begin(), t->end()); else o += "[]";
        r.key("cfwd"); if (ok) range(o, c.begin(), c.end()); else o += "[]";
        std::vector<V> v;
        r.key("rev"); if (t && ok) for (auto it = t->rbegin(); it != t->rend(); ++it) v.insert(v.begin(), *it);
        range(o, v.begin(), v.end());
        v.clear();
        r.key("crev"); if (ok) for (auto it = c.rbegin(); it != c.rend(); ++it) v.insert(v.begin(), *it);
        range(o, v.begin(), v.end());
        r.key("idx"); { JL l(o); for (std::size_t i = 0; t && i < n; ++i) l.i(VM<V>::from((*t)[i])); }
        r.key("cidx"); { JL l(o); for (std::size_t i = 0; i < n; ++i) l.i(VM<V>::from(c[i])); }
        r.key("data");
        {
            JL l(o);
            for (std::size_t i = 0; t && i < n; ++i)
                if constexpr (std::is_same_v<V, bool>) l.i(VM<V>::from(c[i]));
                else { if (t->data() != c.data()) l.i(-2); l.i(VM<V>::from(c.data()[i])); }
        }
    }
    void exec(const Op& op, Out& o) override
    {
        const int* a = op.a;
        int k = a[0], j = a[1];
        JL l(o);
        auto pos = [&](auto it) { l.s("pos").i((long long)(it - s[k]->begin())); };
        auto src = [](int n, int v, int m) { std::vector<V> x; for (int i = 0; i < n; ++i) x.push_back(VM<V>::to((v + i) % m)); return x; };
        if (op.is("new"))
        {
            if (a[1] == 0) s[k] = std::make_unique<T>();
            else if (a[1] == 1) s[k] = std::make_unique<T>(std::size_t(a[2]), VM<V>::to(a[3]));
            else if (a[1] == 2) s[k] = std::make_unique<T>(std::size_t(a[2]));
            else { auto x = src(a[2], a[3], a[4]); std::list<V> y(x.begin(), x.end()); s[k] = std::make_unique<T>(y.begin(), y.end()); }
            l.s("ok");
        }
        else if (op.is("push"))
        {
            V v = VM<V>::to(a[2]);
            if (a[1] == 0) s[k]->push_back(v);
            else if (a[1] == 1) s[k]->push_back(std::move(v));
            else s[k]->emplace_back(v);
            l.s("ok");
        }
        else if (op.is("pushs"))
        {
            if constexpr (std::is_same_v<V, bool>) s[k]->push_back(bool((*s[k])[std::size_t(j)])); else s[k]->push_back((*s[k])[std::size_t(j)]);
            l.s("ok");
        }
        else if (op.is("ins"))
        {
            V v = VM<V>::to(a[3]);
            auto it = s[k]->begin() + a[2];
            if (a[1]) { typename T::const_iterator ci = it; pos(s[k]->insert(ci, std::move(v))); } else pos(s[k]->insert(it, v));
        }
        else if (op.is("inss"))
        {
            auto it = s[k]->begin() + a[1];
            if constexpr (std::is_same_v<V, bool>) { const bool b = (*s[k])[std::size_t(a[2])]; pos(s[k]->insert(it, b)); }
            else { const V& v = (*s[k])[std::size_t(a[2])]; pos(s[k]->insert(it, v)); }
        }
        else if (op.is("insr"))
        {
            auto x = src(a[2], a[3], a[4]);
            if (a[2] % 2) { std::list<V> y(x.begin(), x.end()); s[k]->insert(s[k]->begin() + a[1], y.begin(), y.end()); }
            else s[k]->insert(s[k]->begin() + a[1], x.begin(), x.end());
            l.s("ok");
        }
        else if (op.is("era")) pos(s[k]->erase(s[k]->begin() + j));
        else if (op.is("erar")) pos(s[k]->erase(s[k]->begin() + a[1], s[k]->begin() + a[2]));
        else if (op.is("res")) { s[k]->resize(std::size_t(j)); l.s("ok"); }
        else if (op.is("asn")) { auto x = src(a[1], a[2], a[3]); s[k]->assign(x.begin(), x.end()); l.s("ok"); }
        else if (op.is("rsv")) { s[k]->reserve(std::size_t(j)); l.s("room").b(s[k]->capacity() >= std::size_t(j) && s[k]->capacity() >= s[k]->size()); }
        else if (op.is("shr")) { s[k]->shrink_to_fit(); l.s("room").b(s[k]->capacity() >= s[k]->size()); }
        else if (op.is("set"))
        {
            V v = VM<V>::to(a[3]);
            std::size_t i = std::size_t(a[2]);
            if (a[1] == 0) (*s[k])[i] = v;
            else if (a[1] == 1) s[k]->at(i) = v;
            else if (a[1] == 2) *(s[k]->begin() + a[2]) = v;
            else *(s[k]->rbegin() + (int(s[k]->size()) - 1 - a[2])) = v;
            l.s("ok");
        }
        else if (op.is("copy")) { auto p = std::make_unique<T>(*s[k]); s[j] = std::move(p); l.s("ok"); }
        else if (op.is("asg")) { T& d = *s[j]; d = *s[k]; l.s("ok"); }
        else if (op.is("move")) { auto p = std::make_unique<T>(std::move(*s[k])); s[j] = std::move(p); l.s("ok"); }
        else if (op.is("masg")) { if (j != k) { T& d = *s[j]; d = std::move(*s[k]); } l.s("ok"); }
        else if (op.is("swap")) { s[k]->swap(*s[j]); l.s("ok"); }
        else if (op.is("eq")) l.s("eq").b(*s[k] == *s[j]).b(*s[k] != *s[j]);
        else if (op.is("at"))
        {
            const T& c = *s[k];
            std::size_t i = std::size_t(j);
            bool in = i < c.size();
            if (in) l.s("at");
            try { int v = VM<V>::from(s[k]->at(i)); l.i(v); } catch (const std::out_of_range&) { l.s("oor"); }
            try { int v = VM<V>::from(c.at(i)); l.i(v); } catch (const std::out_of_range&) { l.s("oor"); }
        }
        else l.s("badop");
    }
};

class DdvDriver : public Driver
{
    Sys<int> si; Sys<std::string> ss; Sys<bool> sb; Sys<short> sh;
    SysBase* S = &si;
    int cap = 6;
    bool multi = false;
    int nv = 8;

public:
    void reset(int variant, const std::string& profile) override
    {
        int v = variant % 10;
        S = v == 1 ? static_cast<SysBase*>(&ss) : v == 2 ? static_cast<SysBase*>(&sb) : v == 3 ? static_cast<SysBase*>(&sh) : &si;
        nv = v == 2 ? 2 : 8;
        cap = variant / 10 == 0 ? 6 : variant / 10 == 1 ? 16 : 48;
        multi = profile.find('m') != std::string::npos;
    }
    void destroy() override { S->kill(); }
    void obs(Out& o) override { JL l(o); for (int k = 0; k < NS; ++k) { l.sep(); S->obs(k, o); } }
    void exec(const Op& op, Out& o) override { S->exec(op, o); }
    bool enabled(const Op& op) override
    {
        if (op.is("new")) return true;
        int k = op.a[0], j = op.a[1];
        if (!S->alive(k)) return false;
        int z = S->size(k);
        if (op.is("asg") || op.is("masg") || op.is("swap") || op.is("eq")) return S->alive(j);
        if (op.is("move")) return k != j;
        if (op.is("pushs") || op.is("era")) return j < z;
        if (op.is("ins") || op.is("insr")) return (op.is("ins") ? op.a[2] : j) <= z;
        if (op.is("inss")) return j <= z && op.a[2] < z;
        if (op.is("erar")) return j <= op.a[2] && op.a[2] <= z;
        if (op.is("set")) return op.a[2] < z;
        return true;
    }
    std::vector<Op> prologue() override { return {Op("new", {0, 0, 0, 0, nv})}; }
    Op gen(Rng& r) override
    {
        int k = 0;
        if (multi) do k = r.below(NS); while (!S->alive(k));
        int z = S->size(k), v = r.below(nv);
        if (multi && r.chance(1, 3))
        {
            static const char* nm[] = {"copy", "asg", "move", "masg", "swap", "swap", "eq", "new"};
            int c = r.below(8), j = r.below(NS);
            Op o = c == 7 ? Op("new", {j, r.below(4), r.below(5), v, nv}) : Op(nm[c], {k, j});
            if (enabled(o)) return o;
        }
        int c = r.below(100);
        if (z >= cap) c = 60 + r.below(25);
        if (z && c >= 60 && c < 78) return Op("era", {k, r.chance(2, 3) ? 0 : r.below(z)});
        if (z && c >= 78 && c < 85) { int a = r.chance(1, 2) ? 0 : r.below(z + 1); return Op("erar", {k, a, r.range(a, z)}); }
        if (c < 15) return Op("push", {k, r.below(3), v});
        if (z && c < 20) return Op("pushs", {k, r.below(z)});
        if (c < 35) return Op("ins", {k, r.below(2), r.chance(1, 2) ? 0 : r.below(z + 1), v});
        if (z && c < 40) return Op("inss", {k, r.below(z + 1), r.below(z)});
        if (c < 48) return Op("insr", {k, r.below(z + 1), r.below(4), v, nv});
        if (z && c < 60) return Op("set", {k, r.below(4), r.below(z), v});
        if (c < 90) return Op("at", {k, r.below(z + 2)});
        if (c < 93) return Op("res", {k, r.below(cap + 1)});
        if (c < 95) return Op("asn", {k, r.below(cap / 2), v, nv});
        if (c < 98) return Op("rsv", {k, r.below(cap * 2)});
        return Op("shr", {k});
    }
    std::vector<Op> alphabet() override
    {
        std::vector<Op> v = {Op("push", {0, 0, 1}), Op("push", {0, 2, 0}), Op("era", {0, 0}), Op("era", {0, 1}), Op("ins", {0, 0, 0, 1}), Op("ins", {0, 1, 1, 1}), Op("insr", {0, 1, 2, 0, nv}), Op("erar", {0, 0, 1}), Op("erar", {0, 0, 2}),
            Op("res", {0, 2}), Op("asn", {0, 3, 0, nv}), Op("shr", {0}), Op("copy", {0, 1}), Op("move", {0, 1}), Op("masg", {1, 0}), Op("swap", {0, 1}), Op("asg", {1, 0})};
        return v;
    }
};

int main(int argc, char** argv) { DdvDriver d; return driver_main(argc, argv, d); }
