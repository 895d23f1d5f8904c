// element types, event handler and traits for the multi_type_vector driver
#pragma once
#include "mtv_sys.hpp"
#include <deque>
#include <optional>
#include <execution>
#include <mdds/multi_type_vector/types.hpp>
#include <mdds/multi_type_vector/macro.hpp>
#include <mdds/multi_type_vector/block_funcs.hpp>

namespace mtv {

template<int K>
struct Obj
{
    int id, v;
    unsigned magic = 0xFEEDF00Du;
    int inst = -1, seq = -1; // which cloning object made it, and as its how-manieth
    explicit Obj(int val) : id(g_nid++), v(val) { g_obj_live[id] = 1; }
    Obj(const Obj& o) : id(0), v(o.v)
    {
        if (K != 24) tick_copy(); // an exception under an execution policy terminates
        id = g_nid++;
        g_obj_live[id] = 1;
    }
    Obj& operator=(const Obj&) = delete;
    ~Obj()
    {
        if (magic != 0xFEEDF00Du || g_obj_live[id] != 1) ++g_dbl;
        else g_obj_live[id] = 0;
        magic = 0;
    }
    bool operator==(const Obj& o) const { return v == o.v; }
};
using O20 = Obj<20>;
using O21 = Obj<21>;
using O22 = Obj<22>;
using O23 = Obj<23>;
using O24 = Obj<24>;

// counts announced blocks per type; a copy starts at zero, a move takes the counts along
struct EvH
{
    int c[128] = {};
    EvH() = default;
    EvH(const EvH&) {}
    EvH(EvH&& o) noexcept { take(o); }
    EvH& operator=(const EvH&) { check(); for (int& x : c) x = 0; return *this; }
    EvH& operator=(EvH&& o) noexcept { if (&o != this) { check(); take(o); } return *this; }
    ~EvH() { check(); }
    void check() { for (int x : c) if (x) ++g_evbad; }
    void take(EvH& o) { for (int i = 0; i < 128; ++i) { c[i] = o.c[i]; o.c[i] = 0; } }
    void element_block_acquired(const mdds::mtv::base_element_block* b) { ++c[mdds::mtv::get_block_type(*b) & 127]; }
    void element_block_released(const mdds::mtv::base_element_block* b) { --c[mdds::mtv::get_block_type(*b) & 127]; }
};

} // namespace mtv

namespace mdds { namespace mtv {
template<>
struct clone_value<::mtv::O22*>
{
    int inst, seq = 0;
    clone_value() : inst(::mtv::g_inst++) {}
    clone_value(const clone_value& o) : inst(::mtv::g_inst++), seq(o.seq) {}
    ::mtv::O22* operator()(::mtv::O22* const& p)
    {
        auto q = std::make_unique<::mtv::O22>(*p);
        q->inst = inst; q->seq = seq++;
        return q.release();
    }
};
template<>
struct clone_value<::mtv::O24*>
{
    using exec_policy = std::execution::sequenced_policy;
    ::mtv::O24* operator()(::mtv::O24* const& p) const { return new ::mtv::O24(*p); }
};
}} // namespace mdds::mtv

namespace mtv {

using mdds::mtv::element_t;

// type descriptions: code, C++ value type, block type, conversion
template<int CODE, typename V, typename Blk, typename Conv>
struct TT
{
    static constexpr int code = CODE;
    using value = V;
    using block = Blk;
    static constexpr element_t et = Blk::block_type;
    static constexpr bool managed = std::is_pointer_v<V>;
    static V make(int v) { return Conv::to(v); }
    static int read(const V& v) { return Conv::from(v); }
    static constexpr int norm(int v) { return CODE == 3 ? v & 1 : v % 10; }
};
// to(v) never yields the type's default value (bool excepted); from() yields -1 for anything no to(v) makes
inline int digit(long long x) { return x >= 0 && x <= 9 ? int(x) : -1; }
template<typename V> struct NumConv
{
    static V to(int v) { return V(v * 11 + 3); }
    static int from(V v) { long long x = (long long)v - 3; return V(x + 3) == v && x % 11 == 0 ? digit(x / 11) : -1; }
};
struct StrConv
{
    static std::string to(int v) { return (v % 2 ? "a string long enough for the heap #" : "#") + std::to_string(v); }
    static int from(const std::string& s) { int v = s.empty() ? -1 : digit(s.back() - '0'); return v >= 0 && s == to(v) ? v : -1; }
};
struct BoolConv { static bool to(int v) { return v & 1; } static int from(bool b) { return b ? 1 : 0; } };
template<typename T> struct ObjConv
{
    static T* to(int v) { return new T(v); }
    static int from(const T* p) { return p && p->magic == 0xFEEDF00Du ? digit(p->v) : -1; }
};

} // namespace mtv
