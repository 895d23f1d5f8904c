// keys that are sequences of small letters, carried in one int (base g_base, digits from 1, first letter most significant)
#pragma once
#include <vector>
#include "vdrv.hpp"
using Key = std::vector<int>;
inline int g_base = 5; // number of letters plus one
inline Key dec(int code) { Key k; while (code > 0) { k.insert(k.begin(), code % g_base - 1); code /= g_base; } return k; }
inline int enc(const Key& k) { int c = 0; for (int l : k) c = c * g_base + l + 1; return c; }
inline void put_key(vd::Out& o, const Key& k) { vd::JL l(o); for (int x : k) l.i(x); }
// letter tables, ascending in the container's order
template<typename S> S to_str(const Key& k, const typename S::value_type* t) { S s; for (int x : k) s.push_back(t[x]); return s; }
template<typename S> Key from_str(const S& s, const typename S::value_type* t)
{
    Key k;
    for (auto ch : s) { int x = 99; for (int i = 0; i < g_base - 1; ++i) if (t[i] == ch) x = i; k.push_back(x); }
    return k;
}
inline std::vector<int> all_keys(int letters, int maxlen)
{
    std::vector<int> v{0}, cur{0};
    for (int n = 0; n < maxlen; ++n)
    {
        std::vector<int> nx;
        for (int c : cur) for (int l = 0; l < letters; ++l) nx.push_back(c * g_base + l + 1);
        v.insert(v.end(), nx.begin(), nx.end());
        cur = nx;
    }
    return v;
}
