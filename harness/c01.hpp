// C01: exhaustive exploration of set/reset histories over every packed structure.
#pragma once
#include "vt.hpp"
#include <optional>
#include <type_traits>
#include <cmath>
#include <new>

namespace c01 {
using vt::bytes;

struct Sub {
    std::string name;
    int off, bits, kind;            // kind: 0 uint 1 bool 2 enum 3 signed fixed 4 unsigned fixed 5 minus-one
    int radix, en_off, en_bits;
    uint64_t def;
    int argbits;                    // width of the setter's argument type (uint kinds)
    void (*set)(void*, uint64_t);   // store raw code
    void (*set_wide)(void*, uint64_t); // store an arbitrary argument value
    bool (*get)(const void*, uint64_t&); // false: absent; value as raw code
    void (*reset)(void*);
};
struct Struct {
    std::string name;
    int size;
    std::vector<Sub> subs;
    void* (*make)(void* mem);
    void (*copy)(void* dst, const void* src);
    void (*pack)(const void*, uint8_t*);
    void (*unpack)(void*, const uint8_t*);
    size_t (*sz)(const void*);
    size_t objsize;
};

template <class T> struct Ops {
    static void* make(void* m) { return new (m) T; }
    static void copy(void* d, const void* s) { *static_cast<T*>(d) = *static_cast<const T*>(s); }
    static void pack(const void* o, uint8_t* p) { static_cast<const T*>(o)->pack_into(p); }
    static void unpack(void* o, const uint8_t* p) { static_cast<T*>(o)->unpack_from(p); }
    static size_t sz(const void* o) { return static_cast<const T*>(o)->size(); }
};
template <class T> Struct mk(const char* n, int size, std::vector<Sub> subs)
{
    return {n, size, std::move(subs), &Ops<T>::make, &Ops<T>::copy, &Ops<T>::pack, &Ops<T>::unpack, &Ops<T>::sz, sizeof(T)};
}

// raw code <-> C++ value
template <class V> bool toraw(const V& v, int bits, int kind, int radix, uint64_t& out)
{
    uint64_t mask = bits == 64 ? ~0ull : (1ull << bits) - 1;
    if constexpr (std::is_floating_point_v<V>) {
        long double x = std::ldexp(static_cast<long double>(v), radix);
        if (x != std::floor(x)) { out = 0xBADBADBADull; return true; }
        if (kind == 4) out = static_cast<uint64_t>(x);
        else {
            // outside the code range: not a code
            if (x < -std::ldexp(1.0L, bits - 1) || x >= std::ldexp(1.0L, bits - 1)) { out = 0xBADBADBADull | (1ull << 63); return true; }
            out = static_cast<uint64_t>(static_cast<int64_t>(x)) & mask;
        }
        return true;
    } else if constexpr (std::is_enum_v<V>) {
        out = static_cast<uint64_t>(static_cast<std::underlying_type_t<V>>(v));
        return true;
    } else {
        if (kind == 5) { out = static_cast<uint64_t>(v) - 1; if (bits < 64) out &= mask; return true; }
        if (std::is_signed_v<V>) out = static_cast<uint64_t>(static_cast<int64_t>(v)) & mask;
        else out = static_cast<uint64_t>(v);
        return true;
    }
}
template <class V> bool toraw(const std::optional<V>& v, int bits, int kind, int radix, uint64_t& out)
{
    if (!v.has_value()) return false;
    return toraw(*v, bits, kind, radix, out);
}
template <class A> A fromraw(uint64_t raw, int bits, int kind, int radix)
{
    if constexpr (std::is_floating_point_v<A>) {
        if (kind == 4) return static_cast<A>(std::ldexp(static_cast<long double>(raw), -radix));
        int64_t s = bits == 64 ? static_cast<int64_t>(raw) : (static_cast<int64_t>(raw << (64 - bits)) >> (64 - bits));
        return static_cast<A>(std::ldexp(static_cast<long double>(s), -radix));
    } else if constexpr (std::is_enum_v<A>) {
        return static_cast<A>(static_cast<std::underlying_type_t<A>>(raw));
    } else if constexpr (std::is_same_v<A, bool>) {
        return raw != 0;
    } else {
        return static_cast<A>(kind == 5 ? raw + 1 : raw);
    }
}

struct Ref { // the oracle: a bit array
    bytes b;
    bool operator<(const Ref& o) const { return b < o.b; }
};

struct Op { int sub; int kind; uint64_t v; }; // kind 0 set, 1 reset, 2 wide set

struct Explorer {
    const Struct& s;
    std::set<bytes> seen;
    int depth;
    alignas(16) uint8_t mem1[512], mem2[512];
    explicit Explorer(const Struct& st, int d) : s(st), depth(d) {}

    std::string show(const Op& o) const
    {
        char buf[160];
        const char* k = o.kind == 0 ? "set" : o.kind == 1 ? "reset" : "set-overwide";
        std::snprintf(buf, sizeof buf, "%s(%s=%#llx)", k, s.subs[o.sub].name.c_str(), (unsigned long long)o.v);
        return buf;
    }
    static void canon(const Struct& s, bytes& b) { (void)s; (void)b; }

    void model(bytes& b, const Op& o) const
    {
        const Sub& x = s.subs[o.sub];
        if (o.kind == 0) {
            vt::putbits(b.data(), x.off, x.bits, o.v);
            if (x.en_off >= 0) vt::putbits(b.data(), x.en_off, x.en_bits, ~0ull);
        } else if (o.kind == 1) {
            vt::putbits(b.data(), x.off, x.bits, 0);
            vt::putbits(b.data(), x.en_off, x.en_bits, 0);
        }
    }
    void check_reads(const void* obj, const bytes& b, const std::string& where, const std::string& hist)
    {
        for (const auto& x : s.subs) {
            uint64_t want = vt::getbits(b.data(), x.off, x.bits), got = 0;
            bool present = true;
            if (x.en_off >= 0) {
                uint64_t e = vt::getbits(b.data(), x.en_off, x.en_bits);
                uint64_t full = (1ull << x.en_bits) - 1;
                if (e != 0 && e != full) continue;          // not a state the standard defines
                present = e == full;
            }
            bool has = x.get(obj, got);
            ++vt::stats.transitions;
            if (x.kind == 3 && x.bits == 64) { // double carries 53 bits
                got = static_cast<uint64_t>(static_cast<int64_t>(static_cast<double>(static_cast<int64_t>(got))));
                want = static_cast<uint64_t>(static_cast<int64_t>(static_cast<double>(static_cast<int64_t>(want))));
            }
            if (has != present || (present && got != want)) {
                char buf[400];
                std::snprintf(buf, sizeof buf, "%s.%s reads %s%#llx, stored bits say %s%#llx", s.name.c_str(), x.name.c_str(),
                    has ? "" : "absent ", (unsigned long long)got, present ? "" : "absent ", (unsigned long long)want);
                vt::violation("read:" + s.name + "." + x.name, std::string(buf) + "\nafter " + where + hist + "\nbytes " + vt::hex(b));
            }
        }
    }
    bytes packed(const void* obj)
    {
        bytes b(s.size + 16, 0xEE);
        s.pack(obj, b.data());
        for (int i = 0; i < 16; ++i)
            if (b[s.size + i] != 0xEE) { vt::violation("pack-overrun:" + s.name, "pack_into writes past size()"); break; }
        b.resize(s.size);
        return b;
    }
    // replay a history from scratch and compare
    bool step(const void* from, const bytes& ref, const Op& o, void* to, bytes& out, const std::string& start, const std::string& hist)
    {
        const Sub& x = s.subs[o.sub];
        vt::set_trace(s.name + " " + start + hist + " " + show(o));
        s.copy(to, from);
        if (o.kind == 0) x.set(to, o.v);
        else if (o.kind == 1) x.reset(to);
        else x.set_wide(to, o.v);
        out = ref;
        model(out, o);
        bytes got = packed(to);
        ++vt::stats.transitions;
        if (o.kind == 2) { // own bits and own enable bits unspecified
            if (x.en_off >= 0) vt::putbits(out.data(), x.en_off, x.en_bits, ~0ull);
            bytes a = got, c = out;
            vt::putbits(a.data(), x.off, x.bits, 0);
            vt::putbits(c.data(), x.off, x.bits, 0);
            out = got;
            if (a != c) {
                vt::violation("overwide:" + s.name + "." + x.name, s.name + ": " + start + hist + " " + show(o) + "\ngot      " + vt::hex(a) + "\nexpected " + vt::hex(c) + "  (own bits masked out)");
                return false;
            }
            return true;
        }
        if (got != out) {
            vt::violation((o.kind ? "reset:" : "set:") + s.name + "." + x.name, s.name + ": " + start + hist + " " + show(o) + "\nbefore   " + vt::hex(ref) + "\ngot      " + vt::hex(got) + "\nexpected " + vt::hex(out));
            return false;
        }
        return true;
    }
    void note(const bytes& b) { if (seen.insert(b).second) ++vt::stats.states; }

    static std::vector<uint64_t> values(const Sub& x, bool all)
    {
        std::vector<uint64_t> v;
        uint64_t m = x.bits == 64 ? ~0ull : (1ull << x.bits) - 1;
        if (all && x.bits <= 16) { for (uint64_t i = 0; i <= m; ++i) v.push_back(i); }
        else {
            std::set<uint64_t> t{0, 1, m, m - 1, m >> 1, (m >> 1) + 1, 0x5555555555555555ull & m, 0xAAAAAAAAAAAAAAAAull & m};
            if (all) for (int i = 0; i < x.bits; ++i) { t.insert(1ull << i); t.insert(m & ~(1ull << i)); t.insert(m >> i); t.insert((m << i) & m); }
            v.assign(t.begin(), t.end());
        }
        if (x.kind == 3 && x.bits == 64) // the argument type cannot hold every 64-bit code
            for (auto& e : v) e = static_cast<uint64_t>(static_cast<int64_t>(e) >> 12);
        return v;
    }
    void dfs(const void* obj, const bytes& ref, int d, const std::string& start, const std::string& hist)
    {
        if (d == 0) return;
        uint8_t* buf = static_cast<uint8_t*>(aligned_alloc(16, 512));
        s.make(buf);
        for (size_t i = 0; i < s.subs.size(); ++i) {
            const Sub& x = s.subs[i];
            std::vector<Op> ops;
            for (auto v : values(x, d == depth)) ops.push_back({(int)i, 0, v});
            if (x.reset) ops.push_back({(int)i, 1, 0});
            if (x.set_wide && x.argbits > x.bits) {
                uint64_t am = x.argbits == 64 ? ~0ull : (1ull << x.argbits) - 1;
                for (uint64_t w : std::initializer_list<uint64_t>{am, 1ull << x.bits, am & ~((1ull << x.bits) - 1), (1ull << x.bits) | 1})
                    ops.push_back({(int)i, 2, w});
            }
            for (auto& o : ops) {
                bytes nref;
                bool ok = step(obj, ref, o, buf, nref, start, hist);
                if (!ok) continue;
                note(nref);
                std::string h = hist + " " + show(o);
                check_reads(buf, nref, start, h);
                // pack -> unpack into a used object -> identical contents
                s.copy(mem2, obj);
                s.unpack(mem2, nref.data());
                bytes again = packed(mem2);
                ++vt::stats.traces;
                if (again != nref) vt::violation("roundtrip:" + s.name, s.name + ": " + start + h + "\npacked   " + vt::hex(nref) + "\nrepacked " + vt::hex(again));
                if (d > 1 && (d == depth ? is_boundary(x, o) : true)) dfs(buf, nref, d - 1, start, h);
            }
        }
        std::free(buf);
    }
    static bool is_boundary(const Sub& x, const Op& o)
    {
        if (o.kind) return true;
        uint64_t m = x.bits == 64 ? ~0ull : (1ull << x.bits) - 1;
        uint64_t v = o.v & m;
        return v == 0 || v == 1 || v == m || v == m >> 1 || v == (m >> 1) + 1 || v == (0x5555555555555555ull & m);
    }
    void run()
    {
        // default construction over memory with different residue
        bytes want(s.size, 0);
        for (auto& x : s.subs) vt::putbits(want.data(), x.off, x.bits, x.def);
        for (int fill : {0x00, 0xFF, 0xA5}) {
            std::memset(mem1, fill, sizeof mem1);
            vt::set_trace(s.name + " default construction");
            s.make(mem1);
            if ((int)s.sz(mem1) != s.size)
                vt::violation("size:" + s.name, s.name + ": size() is " + std::to_string(s.sz(mem1)) + ", the standard's size is " + std::to_string(s.size));
            bytes got = packed(mem1);
            ++vt::stats.transitions;
            if (got != want)
                for (auto& x : s.subs) {
                    if (vt::getbits(got.data(), x.off, x.bits) != vt::getbits(want.data(), x.off, x.bits)) {
                        vt::violation("default:" + s.name + "." + x.name, s.name + " default-constructed over memory filled with " + std::to_string(fill) + ":\ngot      " + vt::hex(got) + "\nexpected " + vt::hex(want));
                        vt::putbits(got.data(), x.off, x.bits, vt::getbits(want.data(), x.off, x.bits));
                    }
                }
            if (got != want) vt::violation("default:" + s.name, s.name + " default-constructed over memory filled with " + std::to_string(fill) + ":\ngot      " + vt::hex(got) + "\nexpected " + vt::hex(want));
        }
        if (depth == 0) return;
        // backgrounds, reserved bits included
        std::vector<bytes> bgs;
        for (int f : {0x00, 0xFF, 0xAA, 0x55}) bgs.push_back(bytes(s.size, f));
        bgs.push_back(want);
        if (depth > 2) { bytes c(s.size); for (int i = 0; i < s.size; ++i) c[i] = 0x1B * (i + 1); bgs.push_back(c); }
        // all the combinations of the enable bits
        for (auto& bg : bgs) {
            std::memset(mem1, 0x3C, sizeof mem1);
            s.make(mem1);
            s.unpack(mem1, bg.data());
            std::string start = "unpack[" + vt::hex(bg) + "]";
            bytes got = packed(mem1);
            if (s.size <= 4 || true) {
                // defined bits must be reproduced; undefined ones as well for single words
                bytes a = got, b = bg;
                bytes defined(s.size, 0);
                for (auto& x : s.subs) { vt::putbits(defined.data(), x.off, x.bits, ~0ull); if (x.en_off >= 0) vt::putbits(defined.data(), x.en_off, x.en_bits, ~0ull); }
                bool same = true;
                for (int i = 0; i < s.size; ++i) if ((a[i] ^ b[i]) & defined[i]) same = false;
                if (!same) { vt::violation("unpack:" + s.name, s.name + " unpack then pack: in " + vt::hex(bg) + " out " + vt::hex(got)); continue; }
            }
            note(got);
            check_reads(mem1, got, start, "");
            uint8_t* o = static_cast<uint8_t*>(aligned_alloc(16, 512));
            s.make(o);
            s.copy(o, mem1);
            dfs(o, got, depth, start, "");
            std::free(o);
        }
    }
};
} // namespace c01
