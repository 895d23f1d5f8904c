// multi_type_vector: interface between the driver and the container instantiations
#pragma once
#include "vdrv.hpp"
#include <map>
#include <memory>

namespace mtv {
constexpr int NS = 3;
using vd::Op;
using vd::Out;

// A cell is logged as one number: id * 1000 + type * 10 + value; 0 is an empty cell.
// type 1 double, 2 string, 3 bool, 4 int32, 5.. other plain types, 20/21 managed objects,
// 22 managed non-copyable with clone_value, 23 the same without clone_value, 24 with clone_value and exec_policy.
struct ISys
{
    virtual ~ISys() = default;
    virtual void kill() = 0;
    virtual void obs(Out& o) = 0;
    virtual void exec(const Op& op, Out& o) = 0;
    // for the generator
    virtual std::vector<int> types() const = 0;
    virtual bool cow() const = 0;
    virtual bool soa() const = 0;
    virtual bool alive(int k) const = 0;
    virtual int size(int k) const = 0;
    virtual int blocks(int k) const = 0;
    virtual int type_at(int k, int p) const = 0;
};
inline std::map<int, std::function<ISys*()>>& registry()
{
    static std::map<int, std::function<ISys*()>> m;
    return m;
}
struct Reg { Reg(int n, std::function<ISys*()> f) { registry()[n] = std::move(f); } };

// ------------------------------------------------------------ managed objects
constexpr int MAXOBJ = 1 << 16;
inline signed char g_obj_live[MAXOBJ];
inline int g_nid = 1, g_dbl = 0, g_evbad = 0, g_fail_copy = -1, g_inst = 0;
struct Boom : std::runtime_error { Boom() : std::runtime_error("boom") {} };
inline void reset_objects()
{
    for (int i = 0; i < g_nid; ++i) g_obj_live[i] = 0;
    g_nid = 1; g_dbl = 0; g_evbad = 0; g_fail_copy = -1; g_inst = 0;
}
inline void tick_copy()
{
    if (g_fail_copy >= 0 && g_fail_copy-- == 0) throw Boom();
}
} // namespace mtv
