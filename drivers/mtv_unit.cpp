// container instantiations, one per value of UNIT
#define VDRV_UNIT
#include "mtv_types.hpp"
#ifndef UNIT
#error UNIT
#endif

#if UNIT % 2
#include <mdds/multi_type_vector/aos/main.hpp>
#else
#include <mdds/multi_type_vector/soa/main.hpp>
#endif
#include <mdds/multi_type_vector/standard_element_blocks.hpp>

namespace mtv {
template<template<typename, typename> class Store = mdds::mtv::delayed_delete_vector> using B20 = mdds::mtv::managed_element_block<60, O20, Store>;
using B20d = B20<>;
using B21 = mdds::mtv::managed_element_block<61, O21, std::deque>;
using B21v = mdds::mtv::managed_element_block<61, O21, std::vector>;
using B22 = mdds::mtv::noncopyable_managed_element_block<62, O22>;
using B23 = mdds::mtv::noncopyable_managed_element_block<63, O23, std::vector>;
using B24 = mdds::mtv::noncopyable_managed_element_block<64, O24, std::vector>;
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(O20, 60, nullptr, B20d)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(O21, 61, nullptr, B21)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(O22, 62, nullptr, B22)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(O23, 63, nullptr, B23)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(O24, 64, nullptr, B24)
// plain values in other stores
template<int N, typename X> struct W
{
    X x{};
    bool operator==(const W&) const = default;
};
using WD = W<30, double>;
using WS = W<31, std::string>;
using WI = W<32, int>;
using WB = W<33, std::string>;
using BWD = mdds::mtv::default_element_block<70, WD, std::vector>;
using BWS = mdds::mtv::default_element_block<71, WS, std::deque>;
using BWI = mdds::mtv::default_element_block<72, WI, std::deque>;
using BWB = mdds::mtv::default_element_block<73, WB, std::vector>;
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(WD, 70, WD{}, BWD)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(WS, 71, WS{}, BWS)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(WI, 72, WI{}, BWI)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(WB, 73, WB{}, BWB)
}
#include "mtv_impl.hpp"

namespace mtv {
namespace mm = mdds::mtv;
using TDbl = TT<1, double, mm::double_element_block, NumConv<double>>;
using TStr = TT<2, std::string, mm::string_element_block, StrConv>;
using TBool = TT<3, bool, mm::boolean_element_block, BoolConv>;
using TI32 = TT<4, std::int32_t, mm::int32_element_block, NumConv<std::int32_t>>;
using TI8 = TT<5, std::int8_t, mm::int8_element_block, NumConv<std::int8_t>>;
using TU8 = TT<6, std::uint8_t, mm::uint8_element_block, NumConv<std::uint8_t>>;
using TI16 = TT<7, std::int16_t, mm::int16_element_block, NumConv<std::int16_t>>;
using TU16 = TT<8, std::uint16_t, mm::uint16_element_block, NumConv<std::uint16_t>>;
using TU32 = TT<9, std::uint32_t, mm::uint32_element_block, NumConv<std::uint32_t>>;
using TI64 = TT<10, std::int64_t, mm::int64_element_block, NumConv<std::int64_t>>;
using TU64 = TT<11, std::uint64_t, mm::uint64_element_block, NumConv<std::uint64_t>>;
using TFlt = TT<12, float, mm::float_element_block, NumConv<float>>;
template<typename T, typename C> struct WConv
{
    static T to(int v) { return T{C::to(v)}; }
    static int from(const T& v) { return C::from(v.x); }
};
using TWD = TT<13, WD, BWD, WConv<WD, NumConv<double>>>;
using TWS = TT<14, WS, BWS, WConv<WS, StrConv>>;
using TWI = TT<15, WI, BWI, WConv<WI, NumConv<int>>>;
using TWB = TT<16, WB, BWB, WConv<WB, StrConv>>;
using T20 = TT<20, O20*, B20d, ObjConv<O20>>;
using T21 = TT<21, O21*, B21, ObjConv<O21>>;
using T22 = TT<22, O22*, B22, ObjConv<O22>>;
using T23 = TT<23, O23*, B23, ObjConv<O23>>;
using T24 = TT<24, O24*, B24, ObjConv<O24>>;

template<mm::lu_factor_t LU, bool COW, typename Pol, typename... Ts>
struct Tr : mm::default_traits
{
    using event_func = EvH;
    static constexpr mm::lu_factor_t loop_unrolling = LU;
    static constexpr bool enable_cow = COW;
    using exec_policy = Pol;
    using block_funcs = mm::element_block_funcs<typename Ts::block...>;
};
#if UNIT % 2
template<typename T> using Cont = mm::aos::multi_type_vector<T>;
#else
template<typename T> using Cont = mm::soa::multi_type_vector<T>;
#endif
template<mm::lu_factor_t LU, bool COW, typename Pol, typename... Ts>
using SysOf = Sys<Cont<Tr<LU, COW, Pol, Ts...>>, Tr<LU, COW, Pol, Ts...>, UNIT % 2 == 0, Ts...>;
using L = mm::lu_factor_t;
using DP = mm::default_exec_policy;
template<typename S> struct R1 : Reg { R1(int n) : Reg(n, [] { return new S; }) {} };

#if UNIT == 1 || UNIT == 2
static R1<SysOf<L::lu16, false, DP, TDbl, TStr, TBool, TI32>> r(UNIT);
#elif UNIT == 3 || UNIT == 4
static R1<SysOf<L::lu16, false, DP, TI8, TU8, TI16, TU16, TU32, TI64, TU64, TFlt>> r(UNIT);
#elif UNIT == 5 || UNIT == 6
static R1<SysOf<L::lu16, false, DP, T20, T21, TDbl, TStr>> r(UNIT);
#elif UNIT == 7 || UNIT == 8
static R1<SysOf<L::lu16, false, DP, TWD, TWS, TWI, TWB>> r(UNIT);
#elif UNIT == 9 || UNIT == 10
static R1<SysOf<L::lu16, false, DP, T22, T24, TDbl>> r(UNIT);
#elif UNIT == 11 || UNIT == 12
static R1<SysOf<L::lu16, false, DP, T23, TStr>> r(UNIT);
#elif UNIT == 14
static R1<SysOf<L::lu16, true, DP, TDbl, TStr, T20, T22>> r(UNIT);
#elif UNIT == 15 || UNIT == 16
static R1<SysOf<L::lu16, false, std::execution::sequenced_policy, T20, T22, TStr>> r(UNIT);
#elif UNIT == 17
static R1<SysOf<L::none, false, DP, TI32, TDbl>> r0(40);
static R1<SysOf<L::lu4, false, DP, TI32, TDbl>> r1(41);
#elif UNIT == 19
static R1<SysOf<L::lu8, false, DP, TI32, TDbl>> r0(42);
static R1<SysOf<L::lu32, false, DP, TI32, TDbl>> r1(43);
#elif UNIT == 18
static R1<SysOf<L::none, false, DP, TI32, TDbl>> r0(50);
static R1<SysOf<L::lu4, false, DP, TI32, TDbl>> r1(51);
#elif UNIT == 20
static R1<SysOf<L::lu8, false, DP, TI32, TDbl>> r0(52);
static R1<SysOf<L::lu32, false, DP, TI32, TDbl>> r1(53);
#elif UNIT == 22
static R1<SysOf<L::sse2_x64, false, DP, TI32, TDbl>> r0(54);
static R1<SysOf<L::sse2_x64_lu4, false, DP, TI32, TDbl>> r1(55);
#elif UNIT == 24
static R1<SysOf<L::sse2_x64_lu8, false, DP, TI32, TDbl>> r0(56);
static R1<SysOf<L::sse2_x64_lu16, false, DP, TI32, TDbl>> r1(57);
#elif UNIT == 26 // compiled with -mavx2, where the machine has it
static R1<SysOf<L::avx2_x64, false, DP, TI32, TDbl>> r0(58);
static R1<SysOf<L::avx2_x64_lu4, false, DP, TI32, TDbl>> r1(59);
#elif UNIT == 28
static R1<SysOf<L::avx2_x64_lu8, false, DP, TI32, TDbl>> r0(60);
#endif
} // namespace mtv
