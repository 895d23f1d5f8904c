// mdds::rtree driver.  Calls (slot first):
//   new k; ins k form box.. v; insn k n seed kind span nv; bulk k n seed kind span nv form
//   search k kind box..; era k kind idx box..; eran k n seed; upd k kind idx v box..
//   copy/asg/move/masg/swap k j; clear k; chk k; exp k mode; geo k a.. b..; ptil k n
// box = dims start coordinates, then dims end coordinates
#pragma once
#include "vdrv.hpp"
#include <algorithm>
#include <array>
#include <memory>

using namespace vd;

constexpr int NS = 3;
using Obj = std::vector<int>; // box, then value

// the objects of a scripted batch (the specification generates the same ones)
struct Gen
{
    int x;
    explicit Gen(int seed) : x(seed) {}
    int next() { x = (x * 75 + 74) % 65537; return x; }
    Obj obj(int dims, int kind, int span, int nv)
    {
        Obj lo, hi;
        for (int d = 0; d < dims; ++d)
        {
            int a = next() % span - 2;
            int b = kind == 0 ? next() % span - 2 : kind == 1 ? a : kind == 2 ? a + next() % 3 : 4;
            if (kind == 3) a = 1;
            lo.push_back(std::min(a, b)); hi.push_back(std::max(a, b));
        }
        lo.insert(lo.end(), hi.begin(), hi.end());
        lo.push_back(next() % nv);
        return lo;
    }
};

class SysBase
{
public:
    virtual ~SysBase() = default;
    virtual int dims() const = 0;
    virtual void kill() = 0;
    virtual void obs_slot(int k, Out& o) = 0;
    virtual void exec(const Op& op, Out& o) = 0;
    virtual int count(int k) = 0;
};

template<int N> std::unique_ptr<SysBase> make_unit();
