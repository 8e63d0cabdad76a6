// What the harnesses of generated controllers and controllees share (vt/devgen.py writes the rest for each description).
#pragma once
#include <cstdint>
#include <functional>
#include <optional>
#include <span>
#include <string>
#include <vector>
#include <vrtgen/vrtgen.hpp>

namespace g {
struct Req { bool v, x, s; };
struct Spec { const char* name; int v, x, s; int ce, cr; int cam; };
struct Acks {
    std::string packet;
    std::optional<std::string> v, x, s;
    bool has_v = false, has_x = false, has_s = false;
    template <class T>
    void put(char k, std::optional<T>& a)
    {
        auto& d = k == 'v' ? v : k == 'x' ? x : s;
        (k == 'v' ? has_v : k == 'x' ? has_x : has_s) = true;
        if (a) { auto b = a->data(); d = std::string(b.begin(), b.end()); }
    }
};
// words of text in commands and state acknowledges
inline std::size_t big = 0;
template <class P>
void text(P& p)
{
    if (big == 0) return;
    vrtgen::packing::GPS_ASCII g{};
    std::vector<uint8_t> d(big * 4);
    for (std::size_t i = 0; i < d.size(); i++) d[i] = static_cast<uint8_t>(i * 7 + i / 256);
    g.ascii_sentences(d);
    p.gps_ascii(g);
}
inline std::string str(std::span<const uint8_t> d) { return std::string(d.begin(), d.end()); }
inline vrtgen::UUID uuid(uint32_t n)
{
    char b[64];
    snprintf(b, sizeof b, "01234567-89ab-cdef-%04x-%08xfedc", (n * 7) & 0xffff, n);
    return vrtgen::UUID{ b };
}
void handled(char kind, int ctl, uint32_t id, std::string bytes);
void idle();   // the handlers called so far happened before
}
