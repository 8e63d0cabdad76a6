// C02: fixed point conversions against exact arithmetic.
#pragma once
#include "vt.hpp"
#include <atomic>
#include <cmath>
#include <limits>
#include <thread>
#include <functional>

namespace c02 {
using ld = long double;
inline std::mutex* mx = nullptr;

// nearest code, halves away from zero; x = value * 2^R exactly (scaling by a power of two is exact)
template <class F> inline __int128 nearest(F v, int R)
{
    ld x = std::ldexp(static_cast<ld>(v), R);
    ld a = std::fabs(x);
    ld f = std::floor(a);       // exact
    ld frac = a - f;            // exact
    __int128 n = static_cast<__int128>(f);
    if (frac >= 0.5L) n += 1;
    return x < 0 ? -n : n;
}
struct Range { __int128 lo, hi; };
inline Range range(int N, bool uns) { __int128 one = 1; return uns ? Range{0, (one << N) - 1} : Range{-(one << (N - 1)), (one << (N - 1)) - 1}; }

inline std::string num(ld v) { char b[80]; std::snprintf(b, sizeof b, "%.25Lg (%La)", v, v); return b; }
inline std::string i128(__int128 v) { char b[60]; std::snprintf(b, sizeof b, "%lld", (long long)v); return b; }

// values of argument type F around code c
template <class F> inline void around(__int128 c, int R, bool fine, const std::function<void(F)>& fn)
{
    ld base = std::ldexp(static_cast<ld>(c), -R), u = std::ldexp(1.0L, -R);
    F b = static_cast<F>(base);
    fn(b);
    for (int k : {-4, -3, -2, -1, 1, 2, 3, 4}) {
        if (!fine && (k == 3 || k == -3 || k == 1 || k == -1)) continue;
        F v = static_cast<F>(base + u * k / 8);
        fn(v);
        if (k == 4 || k == -4) { fn(std::nextafter(v, static_cast<F>(INFINITY))); fn(std::nextafter(v, static_cast<F>(-INFINITY))); }
    }
    if (fine) { fn(std::nextafter(b, static_cast<F>(INFINITY))); fn(std::nextafter(b, static_cast<F>(-INFINITY))); }
}
inline std::vector<__int128> codes(int N, bool uns, bool all)
{
    Range r = range(N, uns);
    std::set<__int128> s;
    if (all && N <= 16) { for (__int128 c = r.lo; c <= r.hi; ++c) s.insert(c); }
    else {
        auto add = [&](__int128 c) { for (int d = -2; d <= 2; ++d) { __int128 x = c + d; if (x >= r.lo && x <= r.hi) s.insert(x); } };
        add(0); add(r.lo); add(r.hi);
        for (int i = 0; i < N; ++i) for (int j = 0; j <= i; ++j) {
            __int128 one = 1, v = (one << i) | (one << j), w = ((one << (i + 1)) - 1) & ~((one << j) - 1);
            for (__int128 x : {v, w, -v, -w}) { if (x >= r.lo && x <= r.hi) { if (all) add(x); else s.insert(x); } }
        }
    }
    return {s.begin(), s.end()};
}
} // namespace c02
