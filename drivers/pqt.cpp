// point_quad_tree conformance driver
#include "vdrv.hpp"
#include "keymaps.hpp"
#include <mdds/point_quad_tree.hpp>
#include <memory>
#include <algorithm>
#include <array>

using namespace vd;
constexpr int NS = 3;
using Pt = std::array<long long, 3>;

template<typename K, typename V>
class PqtSys
{
public:
    using T = mdds::point_quad_tree<K, V>;
    using KM = KeyMap<K>;
    using VM = ValMap<V>;
    std::unique_ptr<T> s[NS];
    int hi = 3;

    void kill() { for (auto& p : s) p.reset(); }
    static void put(Out& o, std::vector<Pt>& v, bool sorted = true)
    {
        if (sorted) std::sort(v.begin(), v.end());
        JL q(o);
        for (auto& x : v) { q.sep(); JL z(o); z.i(x[0]).i(x[1]).i(x[2]); }
    }
    static void walk(typename T::node_access n, std::vector<Pt>& v)
    {
        if (!n || v.size() > 500) return;
        v.push_back({KM::from(n.x()), KM::from(n.y()), VM::from(n.data())});
        walk(n.northeast(), v); walk(n.northwest(), v); walk(n.southeast(), v); walk(n.southwest(), v);
    }
    template<typename R> static std::vector<Pt> forward(R& res)
    {
        std::vector<Pt> v; int cap = 1000;
        for (auto it = res.begin(), e = res.end(); !(it == e) && cap-- > 0; ++it)
            v.push_back({KM::from(it->first.x), KM::from((*it).first.y), VM::from(it->second)});
        return v;
    }
    template<typename R> static std::vector<Pt> backward(R& res)
    {
        std::vector<Pt> v; int cap = 1000;
        auto it = res.end(), b = res.begin();
        while (!(it == b) && cap-- > 0) { --it; v.push_back({KM::from((*it).first.x), KM::from(it->first.y), VM::from((*it).second)}); }
        std::reverse(v.begin(), v.end());
        return v;
    }
    void obs_slot(int k, Out& o)
    {
        JL r(o, '{', '}');
        T* t = s[k].get();
        std::vector<Pt> all, found, reg;
        if (t)
        {
            walk(t->get_node_access(), all);
            unsigned salt = unsigned(all.size()) * 7u;
            for (int x = 0; x <= hi; ++x) for (int y = 0; y <= hi; ++y)
            {
                // a failed lookup is slow: in large grids, look up the stored points and some others
                if (hi > 4 && (unsigned(x * 31 + y) + salt) % 16u != 0 &&
                    std::find_if(all.begin(), all.end(), [&](const Pt& p) { return p[0] == x && p[1] == y; }) == all.end())
                    continue;
                try { auto v = t->find(KM::to(x), KM::to(y)); found.push_back({x, y, VM::from(v)}); }
                catch (const typename T::data_not_found&) {}
            }
            auto res = const_cast<const T*>(t)->search_region(KM::to(0), KM::to(0), KM::to(hi), KM::to(hi));
            reg = forward(res);
        }
        r.key("alive"); jbool(o, t != nullptr);
        r.key("pts"); put(o, all);
        r.key("find"); put(o, found);
        r.key("region"); put(o, reg);
        r.key("size"); jint(o, t ? (long long)t->size() : 0);
        r.key("empty"); jbool(o, t ? t->empty() : true);
    }
    void exec(const Op& op, Out& o)
    {
        int k = op.a[0];
        const int* a = op.a + 1;
        JL l(o);
        if (op.is("new")) { s[k] = std::make_unique<T>(); l.s("ok"); }
        else if (op.is("ins")) { s[k]->insert(KM::to(a[0]), KM::to(a[1]), VM::to(a[2])); l.s("ok"); }
        else if (op.is("rem")) { s[k]->remove(KM::to(a[0]), KM::to(a[1])); l.s("ok"); }
        else if (op.is("find"))
        {
            try { auto v = s[k]->find(KM::to(a[0]), KM::to(a[1])); l.s("found").i(VM::from(v)); }
            catch (const typename T::data_not_found&) { l.s("absent"); }
        }
        else if (op.is("search"))
        {
            const T& t = *s[k];
            K x1 = KM::to(a[0]), y1 = KM::to(a[1]), x2 = KM::to(a[2]), y2 = KM::to(a[3]);
            auto r = t.search_region(x1, y1, x2, y2);
            auto r2 = r;
            auto f = forward(r), b = backward(r2);
            std::vector<V> arr;
            t.search_region(x1, y1, x2, y2, arr);
            bool same = arr.size() == f.size();
            for (std::size_t i = 0; same && i < f.size(); ++i) same = VM::from(arr[i]) == f[i][2];
            std::vector<long long> vals;
            for (auto& v : arr) vals.push_back(VM::from(v));
            std::sort(vals.begin(), vals.end());
            l.s("search"); l.sep(); put(o, f); l.sep(); put(o, b); l.sep();
            { JL z(o); for (auto v : vals) z.i(v); }
        }
        else if (op.is("clear")) { s[k]->clear(); l.s("ok"); }
        else if (op.is("copy")) { s[a[0]] = std::make_unique<T>(*s[k]); l.s("ok"); }
        else if (op.is("asg")) { *s[a[0]] = *s[k]; l.s("ok"); }
        else if (op.is("swap")) { s[k]->swap(*s[a[0]]); l.s("ok"); }
        else if (op.is("eq")) { l.s("eq").b(*s[k] == *s[a[0]]).b(*s[k] != *s[a[0]]); }
        else l.s("badop");
    }
};

#define DISPATCH(expr) \
    switch (var) { case 1: { auto& S = sl; expr; } break; case 2: { auto& S = sd; expr; } break; case 3: { auto& S = ss; expr; } break; default: { auto& S = si; expr; } }

class PqtDriver : public Driver
{
    PqtSys<int, int> si;
    PqtSys<long, std::string> sl;
    PqtSys<double, short> sd;
    PqtSys<unsigned, std::string> ss;
    int var = 0;
    std::string prof;
    int hi = 6, nv = 3, cap = 12;
    bool alive[NS] = {};
    std::vector<std::array<int, 2>> pts[NS]; // where points may be stored (generation only)

public:
    void reset(int variant, const std::string& profile) override
    {
        NoLibScope nl;
        var = variant % 10; prof = profile;
        int sc = variant / 10;
        hi = sc == 0 ? 2 : sc == 1 ? 4 : sc == 2 ? 7 : 15;
        nv = sc == 0 ? 2 : 4;
        cap = sc == 0 ? 6 : sc == 1 ? 10 : sc == 2 ? 20 : 40;
        DISPATCH(S.hi = hi);
        for (auto& b : alive) b = false;
        for (auto& p : pts) p.clear();
    }
    void destroy() override { DISPATCH(S.kill()); }
    void obs(Out& o) override { JL l(o); for (int k = 0; k < NS; ++k) { l.sep(); DISPATCH(S.obs_slot(k, o)); } }
    void exec(const Op& op, Out& res) override
    {
        DISPATCH(S.exec(op, res));
        NoLibScope nl;
        int k = op.a[0], j = op.a[1];
        if (op.is("new")) { alive[k] = true; pts[k].clear(); }
        else if (op.is("ins")) { std::array<int, 2> p{op.a[1], op.a[2]}; if (std::find(pts[k].begin(), pts[k].end(), p) == pts[k].end()) pts[k].push_back(p); }
        else if (op.is("rem")) { std::array<int, 2> p{op.a[1], op.a[2]}; pts[k].erase(std::remove(pts[k].begin(), pts[k].end(), p), pts[k].end()); }
        else if (op.is("clear")) pts[k].clear();
        else if (op.is("copy") || op.is("asg")) { alive[j] = true; if (j != k) pts[j] = pts[k]; }
        else if (op.is("swap")) std::swap(pts[k], pts[j]);
    }
    bool enabled(const Op& op) override
    {
        if (op.is("new")) return true;
        if (!alive[op.a[0]]) return false;
        if (op.is("asg") || op.is("swap") || op.is("eq")) return alive[op.a[1]];
        return true;
    }
    std::vector<Op> prologue() override { return {Op("new", {0})}; }
    int pick_alive(Rng& r) { while (true) { int k = r.below(NS); if (alive[k]) return k; } }
    Op gen(Rng& r) override
    {
        bool multi = prof.find('m') != std::string::npos;
        int k = multi ? pick_alive(r) : 0;
        int w = r.below(100);
        if (multi && w < 35)
        {
            int c = r.below(8), j = r.below(NS);
            static const char* nm[] = {"new", "copy", "asg", "swap", "eq", "eq", "eq", "copy"};
            Op o = c == 0 ? Op("new", {j}) : Op(nm[c], {k, j});
            if (enabled(o)) return o;
            return Op("copy", {k, j});
        }
        int x = r.range(0, hi), y = r.range(0, hi);
        bool rem = int(pts[k].size()) >= cap ? true : r.chance(1, 3);
        int c = r.below(100);
        if (c < 3) return Op("clear", {k});
        if (c < 10) return Op("find", {k, x, y});
        if (c < (prof.find('q') != std::string::npos ? 45 : 20))
        {
            int x2 = r.range(0, hi), y2 = r.range(0, hi);
            return Op("search", {k, std::min(x, x2), std::min(y, y2), std::max(x, x2), std::max(y, y2)});
        }
        if (rem && !pts[k].empty())
        {
            // earlier insertions are more likely to be interior nodes
            int i = r.below(int(pts[k].size()));
            if (r.chance(1, 2)) i = r.below(i + 1);
            auto p = pts[k][std::size_t(i)];
            if (!r.chance(1, 12)) { x = p[0]; y = p[1]; }
            return Op("rem", {k, x, y});
        }
        return Op("ins", {k, x, y, r.below(nv)});
    }
    std::vector<Op> alphabet() override
    {
        std::vector<Op> v;
        for (int x = 0; x <= hi; ++x) for (int y = 0; y <= hi; ++y)
        {
            v.push_back(Op("ins", {0, x, y, (x + y) % nv}));
            v.push_back(Op("rem", {0, x, y}));
        }
        return v;
    }
};

int main(int argc, char** argv) { PqtDriver d; return driver_main(argc, argv, d); }
