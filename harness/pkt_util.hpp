#pragma once
#include "pkt.hpp"
namespace pkt {
template <class T> const T* ptr(const T& v) { return &v; }
template <class T> const T* ptr(const std::optional<T>& v) { return v ? &*v : nullptr; }

template <class G, class T> void val_eq(const char* n, const G& got, const std::vector<T>& vals, int idx, Bad& b)
{
    auto* g = ptr(got);
    if (idx < 0) { if (g) b.push_back(n); return; }
    if (!g || static_cast<long double>(*g) != static_cast<long double>(vals[idx])) b.push_back(n);
}
template <class G, class E> requires std::is_enum_v<E> void val_eq(const char* n, const G& got, const std::vector<E>& vals, int idx, Bad& b)
{
    auto* g = ptr(got);
    if (idx < 0) { if (g) b.push_back(n); return; }
    if (!g || *g != vals[idx]) b.push_back(n);
}
template <class G, class T> void obj_eq(const char* n, const G& got, const std::vector<T>& vals, int idx, Bad& b)
{
    auto* g = ptr(got);
    if (idx < 0) { if (g) b.push_back(n); return; }
    if (!g || packed_bytes(*g) != packed_bytes(vals[idx])) b.push_back(n);
}
// an indicator word as the object reports it, against the encoding of the model
template <class W> void words_eq(const char* n, const W& w, const Desc& d, const Model& m, int group, int k, Bad& b)
{
    bytes got = packed_bytes(w), want;
    for (auto& p : d.parts) if (p.kind == 2 && p.group == group && p.n == k) {
        Desc one; one.slots = d.slots;
        // encode the group alone behind a dummy header
        one.parts.push_back(Part{0});
        for (auto& q : d.parts) if (q.kind == 2 && q.group == group) one.parts.push_back(q);
        bytes all = one.encode(m);
        size_t off = 4;
        for (auto& q : d.parts) if (q.kind == 2 && q.group == group) {
            if (q.n == k) { if (d.word_present(q, m)) want.assign(all.begin() + off, all.begin() + off + 4); break; }
            if (d.word_present(q, m)) off += 4;
        }
    }
    if (got != want) b.push_back(n);
}
} // namespace pkt
