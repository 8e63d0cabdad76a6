// C17: UUID values: families of sixteen bytes, an independent text form, object histories.
#pragma once
#include "vt.hpp"
#include <array>
#include <functional>

namespace c17 {
using B16 = std::array<uint8_t, 16>;
inline std::string text(const B16& b, int letters)   // 0 lower, 1 upper, 2 alternating
{
    static const char *lo = "0123456789abcdef", *up = "0123456789ABCDEF";
    std::string s; int k = 0;
    for (int i = 0; i < 16; ++i) {
        if (i == 4 || i == 6 || i == 8 || i == 10) s += '-';
        for (int n : {b[i] >> 4, b[i] & 15}) s += ((letters == 1 || (letters == 2 && (k++ & 1))) ? up : lo)[n];
    }
    return s;
}
inline std::vector<B16> backgrounds()
{
    B16 z{}, f, inc, dec, alt;
    for (int i = 0; i < 16; ++i) { f[i] = 0xff; inc[i] = 0x10 * i + i; dec[i] = 0xf0 - 0x0e * i; alt[i] = i & 1 ? 0x5a : 0xa5; }
    return {z, f, inc, dec, alt};
}
// every value of every byte on every background, every value of every pair of adjacent nibbles across bytes, all one- and two-bit values, all runs of ones
inline std::vector<B16> family(bool thorough)
{
    std::set<B16> s;
    for (auto& bg : backgrounds()) for (int i = 0; i < 16; ++i) for (int v = 0; v < 256; ++v) {
        B16 b = bg; b[i] = v; s.insert(b);
        if (i < 15) { b = bg; b[i] = (b[i] & 0xf0) | (v >> 4); b[i + 1] = (b[i + 1] & 0x0f) | ((v & 15) << 4); s.insert(b); }
    }
    auto bit = [](B16& b, int k) { b[15 - k / 8] |= 1 << (k % 8); };
    for (int i = 0; i < 128; ++i) for (int j = 0; j <= i; ++j) {
        B16 b{}; bit(b, i); bit(b, j); s.insert(b);
        for (auto& x : b) x = ~x; s.insert(b);
        B16 r{}; for (int k = j; k <= i; ++k) bit(r, k); s.insert(r);
        if (thorough) for (int k = 0; k <= j; ++k) { B16 t{}; bit(t, i); bit(t, j); bit(t, k); s.insert(t); for (auto& x : t) x = ~x; s.insert(t); }
    }
    return {s.begin(), s.end()};
}
inline std::string show(const B16& b) { return vt::hex(b.data(), 16); }
inline std::string cls(const B16& a, const uint8_t* got) { for (int i = 0; i < 16; ++i) if (a[i] != got[i]) return "byte" + std::to_string(i); return "same"; }
} // namespace c17
