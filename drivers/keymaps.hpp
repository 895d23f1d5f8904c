// order-preserving maps from small integers to key types, injective maps to value types
#pragma once
#include <string>
template<typename K> struct KeyMap;
template<> struct KeyMap<int> { static int to(int i) { return i; } static long long from(int k) { return k; } };
template<> struct KeyMap<long> {
    static long to(int i) { return -4000000000123L + long(i) * 1000000007L; }
    static long long from(long k) { long d = k + 4000000000123L; return d % 1000000007L ? 99999 : d / 1000000007L; } };
template<> struct KeyMap<double> {
    static double to(int i) { return -0.5 + i * 0.25; }
    static long long from(double k) { double d = (k + 0.5) / 0.25; return d == (double)(long long)d ? (long long)d : 99999; } };
template<> struct KeyMap<unsigned> {
    static unsigned to(int i) { return 0x7FFFFF00u + unsigned(i) * 16u; }
    static long long from(unsigned k) { int d = int(k - 0x7FFFFF00u); return d % 16 ? 99999 : d / 16; } };
template<> struct KeyMap<short> { static short to(int i) { return short(i * 3 - 7); } static long long from(short k) { return (k + 7) % 3 ? 99999 : (k + 7) / 3; } };
template<typename V> struct ValMap;
template<> struct ValMap<int> { static int to(int i) { return i; } static long long from(int v) { return v; } };
template<> struct ValMap<bool> { static bool to(int i) { return i != 0; } static long long from(bool v) { return v; } };
template<> struct ValMap<short> { static short to(int i) { return short(i); } static long long from(short v) { return v; } };
template<> struct ValMap<std::string> {
    static std::string to(int i) { return i == 0 ? std::string() : std::string(std::size_t(i) * 12, char('a' + i)); }
    static long long from(const std::string& v) { return v.empty() ? 0 : v[0] - 'a'; } };
