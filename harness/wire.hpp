// What packet types make of bytes: decoding well-formed packets (C07), recognising
// packets (C08), and surviving malformed ones (C09). Inputs are enumerated from the
// reference encoder of the packet description, not from the code under test.
#pragma once
#include "pkt.hpp"
#include "pkt_util.hpp"
#include <algorithm>
#include <fstream>

namespace wire {
using namespace pkt;

// heap copy of exactly the given bytes at a chosen alignment, so that sanitizers see
// every access outside; scribbled over before it is released
struct Buf {
    std::unique_ptr<uint8_t[]> mem; size_t off, n;
    explicit Buf(const bytes& b, size_t shift = 0) : mem(new uint8_t[b.size() + shift]), off(shift), n(b.size()) { std::copy(b.begin(), b.end(), mem.get() + off); }
    std::span<const uint8_t> span() const { return {mem.get() + off, n}; }
    void scribble() { std::fill(mem.get(), mem.get() + off + n, 0x5A); }
};

// the packet contents enumerated for a type
inline void contents(const Desc& d, bool pairs, bool values, const std::function<void(const Model&)>& f)
{
    Model ini = d.initial(), full = ini;
    int n = d.slots.size();
    for (int i = 0; i < n; ++i) full[i] = d.slots[i].nvals - 1;
    std::set<Model> seen;
    auto go = [&](Model m) { d.settle(m); if (seen.insert(m).second) f(m); };
    auto vals = [&](int i) { std::vector<int> v; for (int k = d.slots[i].init < 0 ? -1 : 0; k < d.slots[i].nvals; ++k) v.push_back(k); return v; };
    for (auto* base : {&ini, &full}) {
        go(*base);
        for (int i = 0; i < n; ++i) for (int k : vals(i)) { Model m = *base; m[i] = k; go(m); }
        if (!pairs) continue;
        for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) {
            auto vi = vals(i), vj = vals(j);
            if (!values) { // one representative of "different from the base" each
                vi = {(*base)[i] == vi.front() ? vi.back() : vi.front()};
                vj = {(*base)[j] == vj.front() ? vj.back() : vj.front()};
            }
            for (int a : vi) for (int b : vj) { Model m = *base; m[i] = a; m[j] = b; go(m); }
        }
    }
}
inline std::string show(const Desc& d, const Model& m)
{
    std::string s;
    for (size_t i = 0; i < m.size(); ++i) if (m[i] != d.slots[i].init) s += std::string(s.empty() ? "" : " ") + d.slots[i].name + (m[i] < 0 ? "-" : "#" + std::to_string(m[i]));
    return s.empty() ? "initial" : s;
}
// number of bytes before the given part
inline size_t offset(const Desc& d, const Model& m, size_t part)
{
    Desc e = d; e.parts.resize(part); e.fixup = nullptr;
    if (part == 0) return 0;
    // words of a group announce later ones through word_present, which needs the whole list
    size_t n = 0;
    for (size_t i = 0; i < part; ++i) {
        auto& p = d.parts[i];
        if (p.kind == 0) n += 4;
        else if (p.kind == 1) n += m[p.slot] >= 0 ? p.vals[m[p.slot]].size() : 0;
        else n += d.word_present(p, m) ? 4 : 0;
    }
    return n;
}

// ------------------------------------------------------------------ C07
template <class P> struct Decoding {
    using A = Adapter<P>;
    const Desc& d = A::desc();
    Explorer<P> e;
    int depth;
    void bad(const std::string& aspect, const Model& m, const bytes& in, const std::string& msg)
    {
        vt::violation(d.name + ":" + aspect, d.name + " from " + show(d, m) + "\nbytes " + vt::hex(in) + "\n" + msg);
    }
    void one(const Model& m)
    {
        bytes want = d.encode(m);
        ++vt::stats.states;
        vt::set_trace("decode " + d.name + " " + show(d, m));
        const size_t cap = size_t(65535) * 4;
        for (int variant = 0; variant < 6; ++variant) {
            bytes in = want;
            size_t shift = 0;
            if (variant == 1) in.insert(in.end(), 4, 0x00);
            if (variant == 2) in.insert(in.end(), 64, 0xFF);
            if (variant == 3) in.push_back(0xA5);
            if (variant == 4) shift = 1;
            if (variant == 5) { bytes o = d.encode(m); in.insert(in.end(), o.begin(), o.end()); } // two packets back to back
            if (in.size() > cap && variant) continue;
            static const char* vn[] = {"exact", "trailing zeros", "trailing ones", "one trailing byte", "odd address", "followed by another packet"};
            ++vt::stats.transitions;
            try {
                Buf b(in, shift);
                if (!(d.unmatched && d.unmatched(m))) if (auto r = P::match(b.span())) { bad(std::string("match.") + vn[variant], m, in, "not recognised: " + *r); }
                P p(b.span());
                b.scribble();
                Bad w;
                {
                    P c(p);
                    A::look(c, m, w);
                    if (!w.empty()) { bad("read." + w[0], m, in, std::string(vn[variant]) + ": decoding gives something else than was encoded: " + w[0]); return; }
                }
                bytes got = to_bytes(p.data());
                if (got != want) { bad("reencode", m, in, std::string(vn[variant]) + ": serialized again: " + vt::hex(got)); return; }
                if (p.size() != want.size()) { bad("size", m, in, "size() " + std::to_string(p.size())); return; }
                A::look(p, m, w);
                A::look_words(p, m, want, w);
                if (!w.empty()) { bad("read-after." + w[0], m, in, std::string(vn[variant]) + ": after serializing: " + w[0]); return; }
                ++vt::stats.traces;
            } catch (const std::exception& x) { bad("throws", m, in, std::string(vn[variant]) + ": throws " + x.what()); return; }
        }
        // edits of the decoded packet
        try {
            Buf b(want);
            P p(b.span());
            b.scribble();
            e.startname = "decoded " + show(d, m);
            e.origin = want;
            e.hist.clear();
            e.dfs(p, m, e.depth);
        } catch (const std::exception& x) { bad("throws", m, want, std::string("throws ") + x.what()); }
    }
    void run(int deep, int wide, int shard, int nshards, bool thorough)
    {
        Model ini = d.initial(), full = ini;
        for (size_t i = 0; i < full.size(); ++i) full[i] = d.slots[i].nvals - 1;
        long k = 0;
        e.shard = 0; e.nshards = 1;
        contents(d, true, thorough && d.slots.size() <= 16, [&](const Model& m) {
            bool base = m == ini || m == full;
            int diff = 0, diff2 = 0;
            for (size_t i = 0; i < m.size(); ++i) { diff += m[i] != ini[i]; diff2 += m[i] != full[i]; }
            e.depth = base ? deep : std::min(diff, diff2) <= 1 ? wide : 0;
            if (base) { e.shard = shard; e.nshards = nshards; }    // deep ones are shared out by their first edit
            else { e.shard = 0; e.nshards = 1; if (k++ % nshards != shard) return; }
            one(m);
        });
    }
};
template <class P> int decoding(int argc, char** argv)
{
    vt::install();
    Decoding<P> x;
    int depth = std::atoi(argv[1]);
    x.run(depth / 10, depth % 10, std::atoi(argv[2]), std::atoi(argv[3]), std::getenv("VT_THOROUGH"));
    vt::stats.states += x.e.seen.size();
    vt::finish();
    return 0;
}

// ------------------------------------------------------------------ C08
enum Verdict { open_, accept_, reject_ };
struct Field { size_t off; uint32_t mask, val; std::string what; };     // bits of the word at off
struct Rules {
    std::vector<Field> must;        // other values: not a packet of this type
    std::vector<Field> free;        // left open by the configuration
    std::vector<Field> any;         // at least one of the bits set
    int cif = -1;                   // position of the first indicator word
    uint32_t required[3] = {0, 0, 0};
    bool has[3] = {true, false, false};     // the type has fields of this indicator word
    size_t fixed = 0;               // bytes every packet of the type has
};
inline uint32_t word(const bytes& b, size_t off) { return uint32_t(b[off]) << 24 | b[off + 1] << 16 | b[off + 2] << 8 | b[off + 3]; }
inline void put(bytes& b, size_t off, uint32_t w) { for (int i = 0; i < 4; ++i) b[off + i] = w >> (24 - 8 * i); }
template <class P> struct RulesOf {};   // emitted

// why bytes cannot be a packet of the type; empty: no reason known
inline std::string reason(const Rules& r, const bytes& b)
{
    if (b.size() < 4) return "no header";
    for (auto& f : r.must) {
        if (f.off + 4 > b.size()) return "too short";
        if ((word(b, f.off) & f.mask) != f.val) return f.what;
    }
    for (auto& f : r.any) {
        if (f.off + 4 > b.size()) return "too short";
        if (!(word(b, f.off) & f.mask)) return f.what;
    }
    if (r.cif >= 0) {
        size_t pos = r.cif;
        if (pos + 4 > b.size()) return "too short";
        uint32_t c0 = word(b, pos);
        pos += 4;
        if ((c0 & r.required[0]) != r.required[0]) return "required field not announced";
        for (int k : {1, 2}) {
            bool there = c0 & (1u << k);
            if (!there) { if (r.required[k]) return "required field not announced"; continue; }
            if (!r.has[k]) return "";      // a word this type knows nothing about: not judged
            if (pos + 4 > b.size()) return "too short";
            if ((word(b, pos) & r.required[k]) != r.required[k]) return "required field not announced";
            pos += 4;
        }
    }
    return "";
}
// the bits in which two packets differ are all left open
inline bool only_free(const Rules& r, const bytes& a, const bytes& b)
{
    if (a.size() != b.size()) return false;
    bytes mask(a.size(), 0);
    for (auto& f : r.free) for (int i = 0; i < 4; ++i) if (f.off + i < mask.size()) mask[f.off + i] |= f.mask >> (24 - 8 * i);
    for (size_t i = 0; i < a.size(); ++i) if ((a[i] ^ b[i]) & ~mask[i]) return false;
    return true;
}
template <class P> struct Matching {
    using A = Adapter<P>;
    const Desc& d = A::desc();
    const Rules r = RulesOf<P>::rules();
    void must_reject(const bytes& b, const std::string& why, const std::string& how)
    {
        ++vt::stats.transitions;
        vt::set_trace("match " + d.name + " " + how);
        try {
            Buf x(b);
            if (!P::match(x.span())) vt::violation(d.name + ":accepts:" + why, d.name + " accepts a packet that differs from its configuration: " + why + "\n" + how + "\nbytes " + vt::hex(b));
            ++vt::stats.traces;
        } catch (const std::exception& e) { vt::violation(d.name + ":throws", how + std::string(": match throws ") + e.what() + "\nbytes " + vt::hex(b)); }
    }
    void must_accept(const bytes& b, const std::string& how, const std::string& tag)
    {
        ++vt::stats.transitions;
        vt::set_trace("match " + d.name + " " + how);
        try {
            Buf x(b);
            if (auto m = P::match(x.span())) vt::violation(d.name + ":rejects:" + tag, d.name + " rejects a packet of its own configuration: " + *m + "\n" + how + "\nbytes " + vt::hex(b));
            ++vt::stats.traces;
        } catch (const std::exception& e) { vt::violation(d.name + ":throws", how + std::string(": match throws ") + e.what() + "\nbytes " + vt::hex(b)); }
    }
    void judge(const bytes& b, const bytes& origin, const std::string& how)
    {
        std::string why = reason(r, b);
        if (!why.empty()) must_reject(b, why, how);
        else if (only_free(r, origin, b)) must_accept(b, how, "open");
    }
    // every combination of up to k flips of the given bits
    void flips(const bytes& b, const std::vector<std::pair<size_t, int>>& bits, int k, const std::string& how)
    {
        std::function<void(bytes&, size_t, int, const std::string&)> go = [&](bytes& x, size_t from, int left, const std::string& h) {
            for (size_t i = from; i < bits.size(); ++i) {
                x[bits[i].first] ^= 1u << bits[i].second;
                std::string hh = h + " flip " + std::to_string(bits[i].first) + "." + std::to_string(bits[i].second);
                judge(x, b, hh);
                if (left > 1) go(x, i + 1, left - 1, hh);
                x[bits[i].first] ^= 1u << bits[i].second;
            }
        };
        bytes x = b;
        go(x, 0, k, how);
    }
    void run(int shard, int nshards, bool thorough, const char* dump)
    {
        long n = 0;
        contents(d, true, thorough && d.slots.size() <= 16, [&](const Model& m) {
            if (n++ % nshards != shard) return;
            ++vt::stats.states;
            if (d.unmatched && d.unmatched(m)) return;
            bytes b = d.encode(m);
            must_accept(b, "packet with " + show(d, m), "own");
            bytes t = b;
            t.insert(t.end(), {0xDE, 0xAD, 0xBE, 0xEF});
            must_accept(t, "followed by other bytes, packet with " + show(d, m), "own-followed");
        });
        // single contents, with the bits that identify the type changed
        contents(d, false, false, [&](const Model& m) {
            if (n++ % nshards != shard || (d.unmatched && d.unmatched(m))) return;
            bytes b = d.encode(m);
            if (b.size() > 4096) return;
            Model ini = d.initial(), full = ini;
            for (size_t i = 0; i < full.size(); ++i) full[i] = d.slots[i].nvals - 1;
            bool base = m == ini || m == full;
            std::string how = "packet with " + show(d, m) + ",";
            // all values of the bits of the header that are not counters
            for (uint32_t v = 0; v < 4096; ++v) {
                if (!base && __builtin_popcount(v ^ (word(b, 0) >> 20)) > 1) continue;
                bytes x = b;
                put(x, 0, (word(b, 0) & 0x000FFFFF) | v << 20);
                judge(x, b, how + " header bits " + std::to_string(v));
            }
            for (uint32_t v = 0; v < 16; ++v) { bytes x = b; put(x, 0, (word(b, 0) & 0xFFF0FFFF) | v << 16); judge(x, b, how + " packet count"); }
            // up to three changes in the words that carry fixed bits
            std::vector<std::pair<size_t, int>> bits;
            std::set<size_t> words;
            for (auto* l : {&r.must, &r.any, &r.free}) for (auto& f : *l) if (f.off) words.insert(f.off);
            for (size_t w : words) { bits.clear(); for (int i = 0; i < 32; ++i) bits.push_back({w + 3 - i / 8, i % 8}); flips(b, bits, base ? (thorough ? 4 : 3) : 1, how); }
            bits.clear();
            for (size_t w : words) for (int i = 0; i < 32; ++i) bits.push_back({w + 3 - i / 8, i % 8});
            if (base) flips(b, bits, 2, how);
            // announced fields
            if (r.cif >= 0) {
                bits.clear();
                size_t pos = r.cif;
                uint32_t c0 = word(b, pos);
                for (int k = 0; k < 3; ++k) {
                    if (k && !(c0 & (1u << k))) continue;
                    for (int i = 0; i < 32; ++i) if ((r.required[k] >> i & 1) || (k == 0 && (i == 1 || i == 2))) bits.push_back({pos + 3 - i / 8, i % 8});
                    pos += 4;
                }
                flips(b, bits, base ? 2 : 1, how);
            }
        });
        if (dump && shard == 0) {
            std::ofstream o(dump, std::ios::binary | std::ios::app);
            contents(d, false, false, [&](const Model& m) {
                bytes b = d.encode(m);
                if (b.size() > 2000) return;
                o << d.name << ' ' << show(d, m).substr(0, 200) << '\n';
                for (auto c : b) { static const char* h = "0123456789abcdef"; o << h[c >> 4] << h[c & 15]; }
                o << '\n';
            });
        }
    }
    // packets of all other types
    void cross(const std::vector<std::string>& files)
    {
        for (auto& f : files) {
            std::ifstream i(f);
            std::string name, hexs;
            while (std::getline(i, name) && std::getline(i, hexs)) {
                bytes b;
                for (size_t k = 0; k + 1 < hexs.size(); k += 2) b.push_back(std::stoi(hexs.substr(k, 2), nullptr, 16));
                std::string why = reason(r, b);
                ++vt::stats.states;
                if (!why.empty()) must_reject(b, why, "packet of type " + name);
            }
        }
    }
};
template <class P> int matching(int argc, char** argv)
{
    vt::install();
    Matching<P> x;
    std::vector<std::string> a(argv, argv + argc);
    if (a[1] == "cross") x.cross({a.begin() + 5, a.end()});
    else x.run(std::atoi(argv[2]), std::atoi(argv[3]), std::getenv("VT_THOROUGH"), argc > 5 ? argv[5] : nullptr);
    vt::finish();
    return 0;
}

// ------------------------------------------------------------------ C09
template <class P> struct Malformed {
    using A = Adapter<P>;
    const Desc& d = A::desc();
    // offers the bytes to matcher and decoder; flagged: somebody noticed
    bool flagged = false;
    void offer(const bytes& b, const std::string& how, bool poke, bool must_flag)
    {
        ++vt::stats.states;
        vt::set_trace(d.name + ": " + how + ", " + std::to_string(b.size()) + " bytes " + vt::hex(b.data(), std::min<size_t>(b.size(), 1500)));
        Buf x(b);
        flagged = false;
        try { if (P::match(x.span())) flagged = true; }
        catch (const std::exception& e) { vt::violation(d.name + ":match-throws", d.name + ": " + how + "\nmatch throws " + e.what() + "\nbytes " + vt::hex(b)); }
        ++vt::stats.transitions;
        try {
            P p(x.span());
            x.scribble();
            if (poke) pokes(p);
        } catch (const std::exception&) { flagged = true; }
        ++vt::stats.transitions;
        ++vt::stats.traces;
        if (must_flag && !flagged)
            vt::violation(d.name + ":unnoticed:" + how.substr(0, how.find(' ')), d.name + ": " + how + "\nneither the matcher nor the decoder notices that the bytes are too short\n" + std::to_string(b.size()) + " bytes " + vt::hex(b));
    }
    // the object obtained is used like any other
    void pokes(P& p)
    {
        Bad w;
        Model m = d.initial();
        A::look(p, m, w);
        { P c(p); (void)c.data(); (void)c.size(); A::look(c, m, w); bytes dummy(4, 0); A::look_words(c, m, dummy, w); }
        if (poke_ops) for (int o = 0; o < (int)d.ops.size(); ++o) {
            ++vt::stats.transitions;
            P c(p);
            try { if (!d.ops[o].roundtrip) A::apply(c, o); (void)c.data(); (void)c.size(); A::look(c, m, w); } catch (const std::exception&) {}
        }
    }
    bool poke_ops = false;
    void set_size(bytes& b, size_t words) { b[2] = words >> 8; b[3] = words; }
    size_t shard, nshards, n = 0;
    bool mine() { return n++ % nshards == shard; }
    void run(int depth, bool thorough)
    {
        Model ini = d.initial(), full = ini;
        for (size_t i = 0; i < full.size(); ++i) full[i] = d.slots[i].nvals - 1;
        contents(d, false, false, [&](const Model& m) {
            bytes b = d.encode(m);
            bool big = b.size() > 4096;
            bool base = m == ini || m == full;
            if (big && !base) return;
            // bytes that may go without the packet becoming too short: the payload
            size_t pay = 0;
            for (size_t i = 0; i < d.parts.size(); ++i) if (d.parts[i].kind == 1 && std::string(d.slots[d.parts[i].slot].name) == "payload") pay = d.parts[i].vals[m[d.parts[i].slot]].size();
            size_t least = b.size() - pay;
            std::string how = "packet with " + show(d, m);
            // cut anywhere; the size the header announces unchanged
            bool brief = !base && !thorough && d.ops.size() > 90;     // large types: all details for the bases only
            size_t step = big ? 4093 : brief ? 13 : 1;
            for (size_t l = 0; l < b.size(); l += step) if (mine()) offer(bytes(b.begin(), b.begin() + l), "cut " + how, false, true);
            // the header announces another size, the bytes staying complete
            std::set<size_t> sizes;
            for (size_t w = 0; w <= b.size() / 4 + 3; w += big ? 1021 : brief ? 5 : 1) sizes.insert(w);
            sizes.insert({b.size() / 4 - 1, b.size() / 4, b.size() / 4 + 1});
            for (size_t w : {255, 256, 257, 0x7FFF, 0x8000, 0xFFFF}) sizes.insert(w);
            for (size_t w : sizes) {
                if (!mine()) continue;
                bytes x = b; set_size(x, w);
                offer(x, "announced " + std::to_string(w) + " words, " + how, base, w * 4 > b.size() || w * 4 < least || w == 0);
                // both cut and announced
                if (w * 4 < b.size()) {
                    x.resize(w * 4);
                    if (w) offer(x, "shortened to " + std::to_string(w) + " words, " + how, base, w * 4 < least);
                } else if (w < 1000) {
                    for (uint8_t fill : {0x00, 0xFF}) { bytes y = x; y.resize(w * 4, fill); offer(y, "lengthened to " + std::to_string(w) + " words, " + how, base, false); }
                }
            }
            // fields announced without being there
            // (behind a field of variable length the same bytes may well be read as something complete)
            bool variable = false;
            for (auto& p : d.parts) if (p.kind == 1 && std::string(d.slots[p.slot].name) != "payload") for (auto& v : p.vals) variable |= v.size() != p.vals[0].size();
            if (!big) for (size_t i = 0; i < d.parts.size(); ++i) {
                auto& p = d.parts[i];
                if (p.kind != 2 || !d.word_present(p, m)) continue;
                size_t off = offset(d, m, i);
                for (int bit = 0; bit < 32; ++bit) {
                    if (!mine()) continue;
                    bytes x = b;
                    x[off + 3 - bit / 8] ^= 1u << bit % 8;
                    bool must = false;
                    for (auto& q : p.ind) if (q.second == bit && m[q.first] < 0) { Model f = m; f[q.first] = 0; must = !variable && d.encode(f).size() > b.size(); }
                    poke_ops = base && d.ops.size() < 100;
                    offer(x, "announced-field bit " + std::to_string(bit) + " of the word at " + std::to_string(off) + " of " + how, true, must);
                    poke_ops = false;
                    if (thorough || (base && d.ops.size() < 100)) for (int b2 = bit + 1; b2 < 32; ++b2) { bytes y = x; y[off + 3 - b2 / 8] ^= 1u << b2 % 8; offer(y, "indicator bits " + std::to_string(bit) + "," + std::to_string(b2) + " at " + std::to_string(off) + " of " + how, false, false); }
                }
            }
            // every byte replaced by every value
            if (!big && (base || thorough)) for (size_t i = 0; i < b.size(); ++i) {
                if (!mine()) continue;
                for (int v = 0; v < 256; ++v) {
                    if ((i > 64 || d.ops.size() > 90) && !thorough && v % 17 && v != 1 && v != 128) continue;
                    bytes x = b; x[i] = v;
                    offer(x, "byte " + std::to_string(i) + " = " + std::to_string(v) + " in " + how, true, false);
                }
            }
            // every word replaced by extreme counts
            if (!big && (base || thorough)) for (size_t i = 4; i + 4 <= b.size(); i += 4) {
                if (!mine()) continue;
                for (uint32_t v : {0u, 1u, 2u, 3u, 0x7Fu, 0xFFu, 0x100u, 0x3FFFu, 0x7FFFu, 0xFFFFu, 0x10000u, 0x10001u, 0x7FFF7FFFu, 0x80000000u, 0x01FF81FFu, 0x20000000u, 0x3FFFFFFFu, 0x40000000u, 0x40000001u, 0x7FFFFFFFu, 0xFFFFFFFCu, 0xFFFFFFFDu, 0xFFFFFFFEu, 0xFFFFFFFFu}) {
                    bytes x = b;
                    for (int k = 0; k < 4; ++k) x[i + k] = v >> (24 - 8 * k);
                    offer(x, "word at " + std::to_string(i) + " = " + std::to_string(v) + " in " + how, true, false);
                    x.resize(i + 4); set_size(x, x.size() / 4);
                    offer(x, "word at " + std::to_string(i) + " = " + std::to_string(v) + " and nothing behind it in " + how, true, false);
                }
            }
        });
        // nothing but a plausible start
        bytes h = d.encode(ini);
        for (size_t l = 0; l <= 200; ++l) for (uint8_t fill : {0x00, 0xFF, 0x80, 0x01}) {
            if (!mine()) continue;
            bytes x(l, fill);
            offer(x, "constant", true, l < 4);
            for (size_t k : {4, 8, 12, 16, 20, 24, 28, 32, 40, 48, 64}) if (k <= l && k <= h.size()) {
                std::copy(h.begin(), h.begin() + k, x.begin());
                set_size(x, l / 4);
                offer(x, "start of " + std::to_string(k) + " bytes then constant", true, false);
            }
        }
    }
};
template <class P> int malformed(int, char** argv)
{
    vt::install();
    Malformed<P> x;
    x.shard = std::atoi(argv[2]); x.nshards = std::atoi(argv[3]);
    x.run(std::atoi(argv[1]), std::getenv("VT_THOROUGH"));
    vt::finish();
    return 0;
}
} // namespace wire
