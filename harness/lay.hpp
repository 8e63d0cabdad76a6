// C19: user-defined layouts, explored on packets of the generated classes.
#pragma once
#include <algorithm>
#include <functional>
#include <optional>
#include <span>
#include "vt.hpp"

namespace lay {
constexpr uint64_t NONE = ~0ull;
template <class T> struct value_of { using type = T; };
template <class T> struct value_of<std::optional<T>> { using type = T; };
template <class T> using value_t = typename value_of<std::remove_cvref_t<T>>::type;

template <class T> uint64_t raw(T v) { return static_cast<uint64_t>(v); }
template <class T> uint64_t raw(const std::optional<T>& v) { return v ? raw(*v) : NONE; }
template <class T> auto& ref(T& t) { return t; }
template <class T> T& ref(std::optional<T>& t) { return *t; }

template <class P>
struct Part {
    const char* name;
    int width;              // bits the declaration asks for
    uint64_t max;           // values: 0..max
    bool opt;               // may be absent (indicator with an enable)
    uint64_t init;
    uint64_t (*get)(P&);
    void (*set)(P&, uint64_t);
    void (*reset)(P&);
    int ctype;              // bits of the parameter type, 0: only in-range values make sense
};

template <class P>
struct Explorer {
    std::string name;
    std::vector<Part<P>> parts;
    size_t word_bytes;
    std::function<void(P&)> prepare;
    bool thorough;
    using Model = std::vector<uint64_t>;
    std::vector<std::vector<uint64_t>> vals, few;
    std::vector<vt::bytes> mask;
    std::string trail;

    void fail(const std::string& what, const std::string& desc)
    {
        vt::violation(what + ":" + name, desc + "\n  after: " + trail);
    }
    static vt::bytes bytes(P& p) { auto s = p.data(); return vt::bytes(s.begin(), s.end()); }
    void apply(P& p, Model& m, size_t i, uint64_t v)
    {
        ++vt::stats.transitions;
        if (parts[i].opt && v == NONE) { if (parts[i].reset) parts[i].reset(p); else if (m[i] != NONE) return; } else parts[i].set(p, v);
        m[i] = v;
    }
    std::string show(const Model& m)
    {
        std::string s;
        for (size_t i = 0; i < m.size(); ++i) s += std::string(i ? " " : "") + parts[i].name + "=" + (m[i] == NONE ? "none" : std::to_string(m[i]));
        return s;
    }
    bool getters(P& p, const Model& m, const char* when, size_t skip = ~size_t(0))
    {
        for (size_t i = 0; i < parts.size(); ++i) {
            if (i == skip) continue;
            uint64_t g = parts[i].get(p);
            if (g != m[i]) {
                fail(std::string("value:") + parts[i].name, std::string("part ") + parts[i].name + " reads " + (g == NONE ? "none" : std::to_string(g)) + " instead of " + (m[i] == NONE ? "none" : std::to_string(m[i])) + " " + when + " (" + show(m) + ")");
                return false;
            }
        }
        return true;
    }
    // everything that must hold in a state
    bool state(P& p, const Model& m, vt::bytes* out = nullptr)
    {
        ++vt::stats.states;
        if (!getters(p, m, "after setting")) return false;
        auto b = bytes(p);
        if (out) *out = b;
        if (!getters(p, m, "after serializing")) return false;
        try {
            P d{std::span<const uint8_t>(b.data(), b.size())};
            ++vt::stats.traces;
            if (!getters(d, m, "in the decoded packet")) return false;
            if (bytes(d) != b) { fail("reencode", "the decoded packet serializes differently: " + vt::hex(bytes(d)) + " instead of " + vt::hex(b)); return false; }
        } catch (const std::exception& e) {
            fail("decode", std::string("decoding the serialized packet throws: ") + e.what() + " bytes " + vt::hex(b));
            return false;
        }
        return true;
    }
    void values()
    {
        for (auto& p : parts) {
            std::vector<uint64_t> v, f;
            uint64_t max = p.max;
            if (max < (thorough ? 4096 : 64)) for (uint64_t x = 0; x <= max; ++x) v.push_back(x);
            else {
                for (uint64_t x : {uint64_t(0), uint64_t(1), max, max - 1, max >> 1, (max >> 1) + 1, uint64_t(0xAAAAAAAAAAAAAAAAull & max), uint64_t(0x5555555555555555ull & max)}) v.push_back(x);
                for (int b = 0; b < p.width; ++b) { v.push_back(1ull << b); v.push_back(max ^ (1ull << b)); }
                std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
            }
            f = {0, max};
            if (max > 1) f.push_back(1);
            if (max > 2) f.push_back(0xAAAAAAAAAAAAAAAAull & max);
            std::sort(f.begin(), f.end()); f.erase(std::unique(f.begin(), f.end()), f.end());
            f.erase(std::remove_if(f.begin(), f.end(), [&](uint64_t x) { return x > max; }), f.end());
            if (p.opt && p.reset) { v.push_back(NONE); f.push_back(NONE); }
            vals.push_back(v); few.push_back(f);
        }
    }
    void step(const P& base, const Model& bm, const vt::bytes& bb, size_t i, uint64_t v, int depth, const std::string& from)
    {
        P q = base;
        Model m = bm;
        trail = from + "; " + parts[i].name + "=" + (v == NONE ? "none" : std::to_string(v));
        vt::set_trace(name + ": " + trail);
        apply(q, m, i, v);
        vt::bytes b;
        if (!state(q, m, &b)) return;
        if (b.size() != bb.size()) { fail("size", "setting a part changes the packet size"); return; }
        for (size_t k = 0; k < b.size(); ++k) mask[i][k] |= b[k] ^ bb[k];
        if (depth > 1) {
            auto t = trail;
            for (size_t j = 0; j < parts.size(); ++j) for (uint64_t w : few[j]) step(q, m, b, j, w, depth - 1, t);
        }
    }
    void from(const Model& bg, int depth)
    {
        P p; prepare(p);
        Model m(parts.size());
        for (size_t i = 0; i < parts.size(); ++i) m[i] = parts[i].init;
        trail = "";
        // parts are given their values in both orders
        for (size_t i = 0; i < parts.size(); ++i) apply(p, m, i, bg[i]);
        trail = show(m);
        vt::bytes b;
        if (!state(p, m, &b)) return;
        {
            P r; prepare(r);
            Model n = m;
            for (size_t i = parts.size(); i-- > 0;) apply(r, n, i, bg[i]);
            if (bytes(r) != b) fail("order", "setting the parts in the opposite order gives other bytes");
        }
        auto t = trail;
        for (size_t i = 0; i < parts.size(); ++i) {
            for (uint64_t v : vals[i]) step(p, m, b, i, v, depth, t);
            // values that do not fit must not spill into the neighbours
            if (parts[i].ctype > parts[i].width) {
                uint64_t all = parts[i].ctype == 64 ? ~0ull : (1ull << parts[i].ctype) - 1;
                for (uint64_t v : {parts[i].max + 1, all, all ^ parts[i].max}) {
                    P q = p;
                    trail = t + "; " + parts[i].name + "=" + std::to_string(v) + " (does not fit)";
                    parts[i].set(q, v);
                    ++vt::stats.transitions;
                    if (!getters(q, m, "after an oversized value", i)) continue;
                    auto c = bytes(q);
                    for (size_t k = 0; k < c.size(); ++k) mask[i][k] |= c[k] ^ b[k];
                }
            }
        }
    }
    void run()
    {
        values();
        P fresh; prepare(fresh);
        Model m(parts.size());
        for (size_t i = 0; i < parts.size(); ++i) m[i] = parts[i].init;
        trail = "construction";
        vt::bytes b0;
        if (!state(fresh, m, &b0)) return;
        mask.assign(parts.size(), vt::bytes(b0.size(), 0));
        long double space = 1;
        for (size_t i = 0; i < parts.size(); ++i) space *= vals[i].size();
        if (space <= (thorough ? 65536 : 2048)) {
            // every reachable state of the word, every single assignment from it
            std::printf("INFO complete=1\n");
            Model bg(parts.size());
            std::vector<size_t> k(parts.size());
            for (;;) {
                for (size_t i = 0; i < parts.size(); ++i) bg[i] = vals[i][k[i]];
                from(bg, 1);
                size_t i = 0;
                for (; i < parts.size(); ++i) { if (++k[i] < vals[i].size()) break; k[i] = 0; }
                if (i == parts.size()) break;
            }
        }
        for (int s = 0; s < 6; ++s) {
            Model bg(parts.size());
            for (size_t i = 0; i < parts.size(); ++i) {
                uint64_t lo = 0, hi = parts[i].max;
                if (s == 0) bg[i] = parts[i].opt ? NONE : lo;
                if (s == 1) bg[i] = hi;
                if (s == 2) bg[i] = i % 2 ? hi : lo;
                if (s == 3) bg[i] = i % 2 ? (parts[i].opt ? NONE : lo) : hi;
                if (s == 4) bg[i] = parts[i].max > 1 ? 0x5555555555555555ull & hi : lo;
                if (!(parts[i].opt && bg[i] == NONE) && bg[i] > hi) bg[i] = hi;
                if (s == 5) bg[i] = parts[i].opt ? lo : hi >> 1;
            }
            from(bg, thorough ? (parts.size() > 8 ? 2 : 3) : parts.size() > 12 ? 1 : 2);
        }
        size_t lo = b0.size(), hi = 0;
        for (size_t i = 0; i < parts.size(); ++i) {
            int n = 0;
            for (size_t k = 0; k < b0.size(); ++k) {
                n += __builtin_popcount(mask[i][k]);
                if (mask[i][k]) { lo = std::min(lo, k); hi = std::max(hi, k); }
                for (size_t j = 0; j < i; ++j)
                    if (mask[i][k] & mask[j][k]) { trail = ""; fail(std::string("overlap:") + parts[j].name, std::string("parts ") + parts[j].name + " and " + parts[i].name + " share bits of packet byte " + std::to_string(k)); }
            }
            int want = parts[i].width * (parts[i].opt ? 2 : 1);
            if (n < want) { trail = ""; fail(std::string("bits:") + parts[i].name, std::string("part ") + parts[i].name + " has only " + std::to_string(n) + " bits of its own, " + std::to_string(want) + " needed"); }
        }
        // a trailer indicator at bit n is enabled by bit n + 12
        for (size_t i = 0; i < parts.size(); ++i) if (parts[i].opt) {
            uint32_t w = 0;
            for (size_t k = b0.size() - 4; k < b0.size(); ++k) w = w << 8 | mask[i][k];
            if ((w >> 20) != (w >> 8 & 0xFFF) || (w & 0xFF)) { trail = ""; char t[16]; snprintf(t, sizeof t, "%08x", w); fail(std::string("enables:") + parts[i].name, std::string("the enable bits of part ") + parts[i].name + " are not those of its indicator bits: it owns " + t + " of the trailer"); }
        }
        if (!parts.empty() && lo / word_bytes * word_bytes + word_bytes <= hi && hi - lo >= word_bytes) {
            trail = ""; fail("outside", "the parts reach outside one word: packet bytes " + std::to_string(lo) + " to " + std::to_string(hi));
        }
    }
};
} // namespace lay
