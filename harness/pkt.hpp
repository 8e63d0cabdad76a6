// Exhaustive bounded exploration of edit histories of a generated packet class.
// The adapter (emitted by vt/pktgen.py) supplies the operations, their effect on the
// abstract packet and the observations; the reference encoder below is the oracle.
#pragma once
#include "vt.hpp"
#include <functional>
#include <memory>
#include <optional>
#include <span>
#include <stdexcept>

namespace pkt {
template <class T> T& bare(std::optional<T>& t) { return *t; }
template <class T> T& bare(T& t) { return t; }

using vt::bytes;
using Model = std::vector<int8_t>;      // slot -> index of its value, -1: absent

struct BitSlot { int slot, shift, bits; std::vector<uint64_t> vals; };
struct Part {
    int kind;                           // 0 word, 1 value of a slot, 2 indicator word
    int slot = -1;                      // kind 1
    std::vector<bytes> vals;            // kind 1
    uint32_t base = 0;                  // kind 0/2: constant bits
    std::vector<BitSlot> bs;            // kind 0/2
    int group = 0, n = 0;               // kind 2
    bool always = false;                // kind 2: present whatever it announces
    std::vector<std::pair<int, int>> ind;   // kind 2: (slot, bit)
    std::vector<std::pair<int, int>> grp;   // kind 0: (group, bit) set when the group announces anything
};
struct Slot { const char* name; int nvals, init, owner = -1; };    // owner: slot this one comes and goes with
struct Effect { int slot, val, when; };    // when: 0 always, 1 only if present, 2 only if absent
struct OpInfo { std::string name; std::vector<Effect> eff; bool roundtrip; };

struct Desc {
    std::string name;
    std::vector<Slot> slots;
    std::vector<Part> parts;
    std::vector<OpInfo> ops;
    std::function<void(const Model&, bytes&)> fixup;    // payload padding and the like
    std::function<bool(const Model&)> unmatched;        // states the matcher need not accept

    Model initial() const { Model m; for (auto& s : slots) m.push_back(s.init); return m; }
    void settle(Model& m) const
    {
        for (size_t i = 0; i < slots.size(); ++i) if (int o = slots[i].owner; o >= 0) {
            if (m[o] < 0) m[i] = -1;
            else if (m[i] < 0) m[i] = 0;
        }
    }
    bool announces(const Part& p, const Model& m) const { for (auto& i : p.ind) if (m[i.first] >= 0) return true; return false; }
    bool word_present(const Part& p, const Model& m) const
    {
        if (p.always) return true;
        if (announces(p, m)) return true;
        if (p.n == 0) // the first word also announces the other words of its group
            for (auto& q : parts) if (q.kind == 2 && q.group == p.group && q.n != 0 && word_present(q, m)) return true;
        return false;
    }
    bytes encode(const Model& m) const
    {
        bytes o;
        for (auto& p : parts) {
            if (p.kind == 0) {
                uint32_t w = p.base;
                for (auto& b : p.bs) w |= static_cast<uint32_t>(b.vals[m[b.slot] < 0 ? 0 : m[b.slot]] << b.shift);
                for (auto& g : p.grp) for (auto& q : parts) if (q.kind == 2 && q.group == g.first && announces(q, m)) w |= 1u << g.second;
                for (int i = 3; i >= 0; --i) o.push_back(w >> (8 * i));
            } else if (p.kind == 1) {
                if (m[p.slot] >= 0) { auto& v = p.vals[m[p.slot]]; o.insert(o.end(), v.begin(), v.end()); }
            } else {
                if (!word_present(p, m)) continue;
                uint32_t w = p.base;
                for (auto& i : p.ind) if (m[i.first] >= 0) w |= 1u << i.second;
                for (auto& b : p.bs) w |= static_cast<uint32_t>(b.vals[m[b.slot] < 0 ? 0 : m[b.slot]] << b.shift);
                if (p.n == 0) for (auto& q : parts) if (q.kind == 2 && q.group == p.group && q.n != 0 && word_present(q, m)) w |= 1u << q.n;
                for (int i = 3; i >= 0; --i) o.push_back(w >> (8 * i));
            }
        }
        if (fixup) fixup(m, o);
        size_t words = (o.size() + 3) / 4;
        o[2] = words >> 8; o[3] = words;
        return o;
    }
    Model step(const Model& m, int op) const
    {
        Model r = m;
        for (auto& e : ops[op].eff) if (e.when == 0 || (e.when == 1) == (m[e.slot] >= 0)) r[e.slot] = e.val;
        return r;
    }
};

template <class T> bytes packed_bytes(T v) { bytes b(v.size()); v.pack_into(b.data()); return b; }
template <class T> bytes packed_bytes(const std::optional<T>& v) { return v ? packed_bytes(*v) : bytes{}; }

// One observation of the whole object against the model; appends the names of what differs
using Bad = std::vector<std::string>;

template <class P> struct Adapter {     // specialised per packet by the emitted code
    // static const Desc& desc();
    // static void apply(P&, int op);
    // static void look(P&, const Model&, Bad&);          getters
    // static void look_words(P&, const Model&, Bad&);    indicator words and header, after data()
};

inline bytes to_bytes(std::span<const uint8_t> s) { return {s.begin(), s.end()}; }

template <class P> struct Explorer {
    using A = Adapter<P>;
    const Desc& d = A::desc();
    int depth, shard, nshards;
    std::unordered_set<uint64_t> seen;
    std::vector<int> hist;
    std::string startname;
    std::vector<int> startops;
    bytes origin;                       // not empty: histories start from decoding these bytes

    std::string show() const
    {
        std::string s = d.name + ": " + startname;
        for (int o : hist) s += "; " + d.ops[o].name;
        return s;
    }
    std::string lastop() const { return hist.empty() ? "initial" : d.ops[hist.back()].name; }
    // straight-line replay on one fresh object, no copies
    std::string confirm(const bytes& want) const
    {
        try {
            P p = origin.empty() ? P() : P(std::span<const uint8_t>(origin.data(), origin.size()));
            for (int o : startops) A::apply(p, o);
            for (int o : hist) do_op(p, o);
            return to_bytes(p.data()) == want ? "(straight-line replay without copying: bytes correct)" : "(straight-line replay fails as well)";
        } catch (const std::exception& e) { return std::string("(straight-line replay throws ") + e.what() + ")"; }
    }
    static void do_op(P& p, int op)
    {
        if (A::desc().ops[op].roundtrip) { bytes b = to_bytes(p.data()); P q(std::span<const uint8_t>(b.data(), b.size())); p = q; }
        else A::apply(p, op);
    }
    std::string nearest(const Model& m)
    {
        std::string s = "model:";
        for (size_t i = 0; i < m.size(); ++i) if (m[i] >= 0 && m[i] != d.slots[i].init) s += std::string(" ") + d.slots[i].name + "#" + std::to_string(m[i]);
        return s;
    }
    void bad(const std::string& aspect, const std::string& msg, const bytes& want, const Model& m)
    {
        vt::violation(d.name + ":" + aspect + ":" + lastop() + (hist.empty() ? ":" + startname : ""), show() + "\n" + msg + "\n" + nearest(m) + "\n" + confirm(want));
    }
    // returns false when the node violates the property
    bool check(const P& obj, const Model& m)
    {
        bytes want = d.encode(m);
        seen.insert(vt::hash(reinterpret_cast<const uint8_t*>(m.data()), m.size()));
        std::string t = show();
        vt::set_trace(t);
        bool ok = true;
        Bad b;
        {
            P c(obj);
            A::look(c, m, b);
            if (!b.empty()) { bad("getter." + b[0], "reading gives something else than was set: " + b[0], want, m); ok = false; b.clear(); }
        }
        P c(obj);
        bytes got = to_bytes(c.data());
        if (got != want) { bad("bytes", "got      " + vt::hex(got) + "\nexpected " + vt::hex(want), want, m); return false; }
        bytes again = to_bytes(c.data());
        if (again != want) { bad("repeat", "serializing twice:\ngot      " + vt::hex(again) + "\nexpected " + vt::hex(want), want, m); return false; }
        if (c.size() != want.size()) { bad("size", "size() is " + std::to_string(c.size()) + ", the packet has " + std::to_string(want.size()) + " bytes", want, m); ok = false; }
        if (to_bytes(c.data()) != want) { bad("repeat", "serializing after size() differs", want, m); return false; }
        A::look(c, m, b);
        A::look_words(c, m, want, b);
        if (!b.empty()) { bad("getter-after." + b[0], "after serializing, reading gives something else than was set: " + b[0], want, m); ok = false; b.clear(); }
        // whatever was set, decoding the bytes gives it back
        if (d.unmatched && d.unmatched(m)) {}
        else if (auto r = P::match(std::span<const uint8_t>(want.data(), want.size()))) { bad("match", "own packet not recognised: " + *r, want, m); ok = false; }
        P e(std::span<const uint8_t>(want.data(), want.size()));
        A::look(e, m, b);
        A::look_words(e, m, want, b);
        if (!b.empty()) { bad("decoded." + b[0], "decoding gives something else than was encoded: " + b[0] + "\nbytes " + vt::hex(want), want, m); ok = false; b.clear(); }
        bytes re = to_bytes(e.data());
        if (re != want) { bad("reencode", "decoded then serialized:\ngot      " + vt::hex(re) + "\nexpected " + vt::hex(want), want, m); ok = false; }
        ++vt::stats.traces;
        return ok;
    }
    void dfs(const P& obj, const Model& m, int left)
    {
        if (left == 0) return;
        for (int o = 0; o < (int)d.ops.size(); ++o) {
            if (left == depth && nshards > 1 && o % nshards != shard) continue;
            hist.push_back(o);
            ++vt::stats.transitions;
            try {
                vt::set_trace(show());
                P p(obj);
                do_op(p, o);
                Model n = d.step(m, o);
                if (check(p, n)) dfs(p, n, left - 1);
            } catch (const std::exception& e) {
                vt::violation(d.name + ":throws:" + lastop(), show() + "\nthrows " + e.what());
            }
            hist.pop_back();
        }
    }
    void start(const std::string& name, const std::vector<int>& pre)
    {
        startname = name; startops = pre; hist.clear();
        try {
            vt::set_trace(show());
            P p; Model m = d.initial();
            for (int o : pre) { A::apply(p, o); m = d.step(m, o); }
            if (check(p, m)) dfs(p, m, depth);
        } catch (const std::exception& e) {
            vt::violation(d.name + ":throws:start-" + name, show() + "\nthrows " + e.what());
        }
    }
    // every model state reachable with "set value k" on everything / nothing
    void run()
    {
        start("fresh", {});
        std::vector<int> full;
        std::set<int> done;
        for (int o = 0; o < (int)d.ops.size(); ++o) {
            auto& e = d.ops[o].eff;
            bool sets = !e.empty() && e[0].when != 2 && e[0].val >= 0 && d.slots[e[0].slot].init != e[0].val;
            for (size_t i = 1; i < e.size(); ++i) sets = sets && e[i].when == 2;
            if (sets && done.insert(e[0].slot).second) full.push_back(o);
        }
        if (!full.empty()) {
            start("everything set", full);
            std::vector<int> rev(full.rbegin(), full.rend());
            start("everything set in reverse", rev);
        }
    }
};
template <class P> int main_(int argc, char** argv)
{
    vt::install();
    Explorer<P> e;
    e.depth = std::atoi(argv[1]); e.shard = std::atoi(argv[2]); e.nshards = std::atoi(argv[3]);
    e.run();
    vt::stats.states = e.seen.size();
    vt::finish();
    return 0;
}
} // namespace pkt
