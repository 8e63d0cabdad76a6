// C01: variable-length structures (GPS ASCII, context association lists, index list, sector/step-scan).
#include "vt.hpp"
#include <stdexcept>
#include <algorithm>
#include <string>
#include <functional>
#include <vrtgen/packing/cif0.hpp>
#include <vrtgen/packing/cif1.hpp>
using namespace vrtgen::packing;
using vt::bytes;

static void be(bytes& b, uint64_t v, int n) { for (int i = n - 1; i >= 0; --i) b.push_back(uint8_t(v >> (8 * i))); }

template <class T> static bytes pack(T& o, const std::string& key, const std::string& what)
{
    vt::set_trace(what);
    size_t n = o.size();
    if (n > 100000) { vt::violation("size:" + key, what + ": size() is " + std::to_string(n)); return {}; }
    bytes b(n + 64, 0xEE);
    o.pack_into(b.data());
    // size() may only be settled by packing
    n = o.size();
    for (size_t i = n; i < b.size(); ++i) if (b[i] != 0xEE) { vt::violation("overrun:" + key, what + ": packing writes past size()"); break; }
    b.resize(n);
    return b;
}
static std::set<bytes> seen;
static void expect(const std::string& key, const std::string& what, const bytes& got, const bytes& want)
{
    ++vt::stats.transitions;
    if (seen.insert(want).second) ++vt::stats.states;
    if (got != want) vt::violation(key, what + "\ngot      " + vt::hex(got) + "\nexpected " + vt::hex(want));
}
template <class T> static void expect_eq(const std::string& key, const std::string& what, const T& a, const T& b)
{
    ++vt::stats.transitions;
    if (!(a == b)) vt::violation(key, what + ": value read back differs");
}

static void gps(int maxlen)
{
    // histories: assign sentence of length a, then length b, optionally through the reference; oui before/after
    auto text = [](int n, int seed) { bytes t; for (int i = 0; i < n; ++i) t.push_back('A' + (i + seed) % 26); return t; };
    auto enc = [](uint32_t oui, bytes t) { while (t.size() % 4) t.push_back(0); bytes b; be(b, oui, 4); be(b, t.size() / 4, 4); b.insert(b.end(), t.begin(), t.end()); return b; };
    for (int a = 0; a <= maxlen; ++a) for (int b = -1; b <= maxlen; ++b) for (int ord = 0; ord < 2; ++ord) {
        GPS_ASCII g;
        std::string w = "GPS_ASCII sentence length " + std::to_string(a) + (b >= 0 ? " then " + std::to_string(b) : "");
        vt::set_trace(w);
        if (ord) g.manufacturer_oui(0xABCDEF);
        g.ascii_sentences(text(a, 0));
        if (b >= 0) g.ascii_sentences(text(b, 5));
        if (!ord) g.manufacturer_oui(0xABCDEF);
        bytes want = enc(0xABCDEF, b >= 0 ? text(b, 5) : text(a, 0));
        bytes got = pack(g, "GPS_ASCII", w);
        expect("GPS_ASCII:encode", w, got, want);
        if (g.number_of_words() != (want.size() - 8) / 4) vt::violation("GPS_ASCII:words", w + ": number_of_words " + std::to_string(g.number_of_words()));
        GPS_ASCII h; h.ascii_sentences(text(7, 1));
        h.unpack_from(want.data());
        bytes again = pack(h, "GPS_ASCII", w + " unpacked");
        ++vt::stats.traces;
        expect("GPS_ASCII:decode", w + " unpacked", again, want);
    }
    // 24-bit OUI boundary and over-wide values leave the reserved byte and count alone
    for (uint64_t oui : {0ull, 1ull, 0xFFFFFFull, 0x1000000ull, 0xFFFFFFFFull}) {
        GPS_ASCII g; g.ascii_sentences(text(4, 0)); g.manufacturer_oui(oui);
        bytes got = pack(g, "GPS_ASCII", "GPS_ASCII oui"), want = enc(oui & 0xFFFFFF, text(4, 0));
        if (got.size() > 4 && oui > 0xFFFFFF) { got[1] = got[2] = got[3] = want[1] = want[2] = want[3] = 0; }
        expect("GPS_ASCII:oui", "GPS_ASCII manufacturer_oui(" + std::to_string(oui) + ")", got, want);
    }
}

static void cal(int maxlen)
{
    using L = std::vector<uint32_t>;
    auto lst = [](int n, uint32_t s) { L l; for (int i = 0; i < n; ++i) l.push_back(s * 0x01010101u + 0x00010203u + i); return l; };
    auto enc = [](const L& a, const L& b, const L& c, const L& d, bool tag, const L& e) {
        bytes o; be(o, a.size(), 2); be(o, b.size(), 2); be(o, c.size(), 2); be(o, (tag ? 0x8000 : 0) | d.size(), 2);
        for (auto* l : {&a, &b, &c, &d}) for (auto x : *l) be(o, x, 4);
        if (tag) for (auto x : e) be(o, x, 4);
        return o; };
    for (int a = 0; a <= maxlen; ++a) for (int b = 0; b <= maxlen; ++b) for (int c = 0; c <= maxlen; ++c)
    for (int d = 0; d <= maxlen; ++d) for (int tag = 0; tag < 2; ++tag) for (int way = 0; way < 3; ++way) {
        std::string w = "ContextAssociationLists " + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(c) + "," + std::to_string(d) + (tag ? " tagged" : "") + " way " + std::to_string(way);
        vt::set_trace(w);
        ContextAssociationLists x;
        if (way == 1) { x.source_list(lst(2, 9)); x.system_list(lst(1, 9)); x.vector_component_list(lst(3, 9)); x.async_channel_list(lst(2, 8)); pack(x, "ContextAssociationLists", w); }
        if (way == 2) { x.source_list() = lst(a, 1); x.system_list() = lst(b, 2); x.vector_component_list() = lst(c, 3); x.async_channel_list() = lst(d, 4); }
        else { x.source_list(lst(a, 1)); x.system_list(lst(b, 2)); x.vector_component_list(lst(c, 3)); x.async_channel_list(lst(d, 4)); }
        x.async_channel_tag_list_enable(tag);
        if (tag) x.async_channel_tag_list(lst(d, 5));
        bytes want = enc(lst(a, 1), lst(b, 2), lst(c, 3), lst(d, 4), tag, lst(d, 5));
        bytes got = pack(x, "ContextAssociationLists", w);
        expect("ContextAssociationLists:encode", w, got, want);
        expect("ContextAssociationLists:repack", w + " packed twice", pack(x, "ContextAssociationLists", w), got);
        ContextAssociationLists y;
        bytes in = want; in.resize(want.size() + 256, 0x5A);
        y.unpack_from(in.data());
        ++vt::stats.traces;
        expect_eq("ContextAssociationLists:source", w, y.source_list(), lst(a, 1));
        expect_eq("ContextAssociationLists:system", w, y.system_list(), lst(b, 2));
        expect_eq("ContextAssociationLists:vector", w, y.vector_component_list(), lst(c, 3));
        expect_eq("ContextAssociationLists:async", w, y.async_channel_list(), lst(d, 4));
        expect_eq("ContextAssociationLists:tags", w, y.async_channel_tag_list(), tag ? lst(d, 5) : L{});
        expect("ContextAssociationLists:decode", w + " unpacked", pack(y, "ContextAssociationLists", w), want);
    }
    // boundary list sizes of the 9-bit counts
    for (int n : {255, 256, 511}) {
        ContextAssociationLists x; x.source_list(lst(n, 1)); x.system_list(lst(n, 2));
        vt::set_trace("ContextAssociationLists large");
        bytes got(x.size()); x.pack_into(got.data());
        expect("ContextAssociationLists:encode", "ContextAssociationLists lists of " + std::to_string(n), got, enc(lst(n, 1), lst(n, 2), {}, {}, false, {}));
    }
}

template <class T> static void index_list(int maxlen)
{
    for (int n = 0; n <= maxlen; ++n) for (int m = -1; m <= maxlen; ++m) {
        std::string w = "IndexList<" + std::to_string(sizeof(T) * 8) + " bits> of " + std::to_string(n) + (m >= 0 ? " then " + std::to_string(m) : "");
        vt::set_trace(w);
        auto lst = [](int k, int s) { std::vector<T> l; for (int i = 0; i < k; ++i) l.push_back(static_cast<T>(0x0102030405060708ull * (i + 1) + s)); return l; };
        IndexList<T> x;
        x.entry_size(static_cast<EntrySize>(sizeof(T)));
        x.entries(lst(n, 0)); x.num_entries(n);
        int k = n; auto cur = lst(n, 0);
        if (m >= 0) { x.entries() = lst(m, 7); x.num_entries(m); k = m; cur = lst(m, 7); }
        x.total_size(0x01020304);
        bytes want; be(want, 0x01020304, 4); be(want, (uint64_t(sizeof(T)) << 28) | k, 4);
        for (auto e : cur) be(want, e, sizeof(T));
        bytes got = pack(x, "IndexList", w);
        expect("IndexList:encode", w, got, want);
        IndexList<T> y; y.entries(lst(3, 1));
        y.unpack_from(want.data());
        ++vt::stats.traces;
        expect_eq("IndexList:entries", w, y.entries(), cur);
        expect("IndexList:decode", w + " unpacked", pack(y, "IndexList", w), want);
        if (y.num_entries() != (unsigned)k || (int)y.entry_size() != (int)sizeof(T) || y.total_size() != 0x01020304) vt::violation("IndexList:header", w + ": header read back wrong");
    }
    // header subfields: over-wide values stay inside their bits
    for (int order = 0; order < 2; ++order) for (uint32_t v : {0u, 1u, 0xFFFFFu, 0x100000u, 0xFFFFFFFFu}) {
        IndexList<T> x; x.entry_size(static_cast<EntrySize>(sizeof(T)));
        x.num_entries(v);
        bytes b(x.size()); x.pack_into(b.data());
        ++vt::stats.transitions;
        if ((b[4] >> 4) != (int)sizeof(T)) vt::violation("IndexList:overwide", "num_entries(" + std::to_string(v) + ") changes entry_size: " + vt::hex(b));
        if (v <= 0xFFFFF && x.num_entries() != v) vt::violation("IndexList:num", "num_entries reads back wrong");
    }
}

static void sss(bool deep)
{
    // header words: every value of each subfield against the other's extremes
    for (int other : {0, 1}) {
        for (uint32_t f = 0; f < 3; ++f) {
            uint32_t bits = f == 0 ? 8 : 12, lim = f == 0 ? 255 : 65535;
            for (uint32_t v = 0; v <= lim; ++v) {
                if (v >= (1u << bits) + 4 && v != lim && (v & (v - 1))) continue;
                SectorStepScan<Gain> s;
                s.array_size(0x0A0B0C0D);
                if (other) { s.header_size(0xFF); s.num_words_record(0xFFF); s.num_records(0xFFF); }
                if (f == 0) s.header_size(v); else if (f == 1) s.num_words_record(v); else s.num_records(v);
                uint32_t w = other ? 0xFFFFFFFF : 0;
                uint32_t sh = f == 0 ? 24 : f == 1 ? 12 : 0, msk = ((1u << bits) - 1) << sh;
                w = (w & ~msk) | ((v << sh) & msk);
                bytes got(s.size()), want; s.pack_into(got.data());
                be(want, 0x0A0B0C0D, 4); be(want, w, 4); be(want, 0, 4);
                if (v >= (1u << bits)) { for (int i = 0; i < 32; ++i) if (msk >> i & 1) { got[7 - i / 8] &= ~(1 << i % 8); want[7 - i / 8] &= ~(1 << i % 8); } }
                expect("SectorStepScan:header", "SectorStepScan subfield " + std::to_string(f) + " = " + std::to_string(v), got, want);
            }
        }
    }
    for (int n = 0; n <= (deep ? 8 : 4); ++n) {
        SectorStepScan<Gain> s; s.array_size(3 + n); s.header_size(3); s.num_words_record(1); s.num_records(n);
        SectorStepScanCIF cif; cif.default_gain(true); s.subfield_cif(cif); s.subfield_cif().sector_number(n & 1);
        std::vector<Gain> r; bytes want; be(want, 3 + n, 4); be(want, (3u << 24) | (1u << 12) | n, 4); be(want, 0x02000000u | (n & 1 ? 0x80000000u : 0), 4);
        for (int i = 0; i < n; ++i) { Gain g; g.stage_2(i + 0.5); g.stage_1(-i - 1.0); r.push_back(g); be(want, uint16_t((i * 2 + 1) * 64), 2); be(want, uint16_t(-(i + 1) * 128), 2); }
        s.records(r);
        std::string w = "SectorStepScan with " + std::to_string(n) + " records";
        bytes got = pack(s, "SectorStepScan", w);
        expect("SectorStepScan:encode", w, got, want);
        SectorStepScan<Gain> t; t.records(std::vector<Gain>(3));
        t.unpack_from(want.data());
        ++vt::stats.traces;
        expect("SectorStepScan:decode", w + " unpacked", pack(t, "SectorStepScan", w), want);
    }
}

int main(int, char** argv)
{
    vt::install();
    bool deep = argv[1][0] == 't';
    gps(deep ? 40 : 13);
    cal(deep ? 3 : 2);
    index_list<uint8_t>(deep ? 9 : 5);
    index_list<uint16_t>(deep ? 9 : 5);
    index_list<uint32_t>(deep ? 9 : 5);
    sss(deep);
    vt::finish();
}
