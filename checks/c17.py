"""C17: UUID values, exhaustive families and object histories, alone and inside packets."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt.common import *

LIB = r'''
#include <string>
#include <cstdint>
#include <vrtgen/types/uuid.hpp>
#include "c17.hpp"
using namespace c17;
using vrtgen::UUID;
static void expect(const std::string& how, const UUID& u, const B16& want)
{
    vt::set_trace(how);
    uint8_t guard[48]; std::memset(guard, 0xC3, sizeof guard);
    u.pack_into(guard + 16);
    std::string op = how.substr(0, how.find(' '));
    if (u.size() != 16) vt::violation("size:" + op, how + ": size() is " + std::to_string(u.size()));
    if (std::memcmp(guard + 16, want.data(), 16)) vt::violation("bytes:" + op + ":" + cls(want, guard + 16), how + ": packs as " + vt::hex(guard + 16, 16) + ", expected " + show(want));
    for (int i = 0; i < 16; ++i) if (guard[i] != 0xC3 || guard[32 + i] != 0xC3) { vt::violation("overrun:" + op, how + ": pack_into writes outside its 16 bytes"); break; }
    auto t = u.get();
    if (t != text(want, 0)) vt::violation("text:" + op, how + ": formats as '" + t + "', expected '" + text(want, 0) + "'");
    ++vt::stats.transitions;
}
int main(int argc, char** argv)
{
    vt::install();
    bool deep = argc > 1 && std::string(argv[1]) == "thorough";
    auto fam = family(deep);
    expect("default", UUID{}, B16{});
    { UUID u; expect("default2", u, B16{}); auto* p = new (std::malloc(sizeof(UUID))) UUID{}; expect("default3", *p, B16{}); }
    // every value through every way of obtaining it, on a fresh and on a used object
    for (auto& v : fam) {
        ++vt::stats.states;
        for (int l = 0; l < 3; ++l) {
            UUID a{text(v, l)}; expect("construct " + text(v, l), a, v);
            UUID b; b.set(text(v, l)); expect("set " + text(v, l), b, v);
        }
        UUID c; c.unpack_from(v.data()); expect("unpack " + show(v), c, v);
        UUID d{c.get()}; expect("reparse " + show(v), d, v);
        UUID e{"ffffffff-ffff-ffff-ffff-ffffffffffff"}; e.set(text(v, 0)); expect("overwrite-set " + text(v, 0), e, v);
        UUID f{"ffffffff-ffff-ffff-ffff-ffffffffffff"}; f.unpack_from(v.data()); expect("overwrite-unpack " + show(v), f, v);
        alignas(8) uint8_t odd[40]; for (int o = 0; o < 8; ++o) { std::memset(odd, 0x77, sizeof odd); std::memcpy(odd + o, v.data(), 16); UUID g; g.unpack_from(odd + o); expect("unpack-unaligned " + show(v), g, v); }
    }
    // histories of two objects: set, unpack, copy, assign, reset to default, pack-unpack between them
    auto bg = backgrounds();
    struct S { UUID u[2]; B16 m[2]; };
    std::function<void(S&, int, std::string)> go = [&](S& s, int depth, std::string tr) {
        ++vt::stats.states;
        for (int o = 0; o < 2; ++o) expect("history " + tr + " object " + char('a' + o), s.u[o], s.m[o]);
        if (!depth) return;
        auto step = [&](const std::string& n, std::function<void(S&)> f) { S t = s; f(t); go(t, depth - 1, tr + "; " + n); };
        for (int o = 0; o < 2; ++o) {
            std::string w(1, 'a' + o);
            for (size_t k = 1; k < bg.size(); ++k) {
                step(w + ".set(#" + std::to_string(k) + ")", [&](S& t) { t.u[o].set(text(bg[k], k % 3)); t.m[o] = bg[k]; });
                step(w + ".unpack(#" + std::to_string(k) + ")", [&](S& t) { t.u[o].unpack_from(bg[k].data()); t.m[o] = bg[k]; });
            }
            step(w + " = UUID{}", [&](S& t) { t.u[o] = UUID{}; t.m[o] = B16{}; });
            step(w + " = other", [&](S& t) { t.u[o] = t.u[1 - o]; t.m[o] = t.m[1 - o]; });
            step(w + ".set(other.get())", [&](S& t) { t.u[o].set(t.u[1 - o].get()); t.m[o] = t.m[1 - o]; });
            step(w + ".unpack(other.pack)", [&](S& t) { uint8_t b[16]; t.u[1 - o].pack_into(b); t.u[o].unpack_from(b); t.m[o] = t.m[1 - o]; });
            step(w + " moved", [&](S& t) { UUID x = std::move(t.u[o]); t.u[o] = x; });
        }
    };
    S s{}; s.m[0] = s.m[1] = B16{};
    go(s, deep ? 5 : 4, "fresh");
    vt::finish();
}
'''

PKT = r'''
#include "ctl_id.hpp"
#include "ctx_id.hpp"
#include "c17.hpp"
using namespace c17;
using vrtgen::UUID;
int main(int argc, char** argv)
{
    vt::install();
    auto fam = family(false);
    auto bg = backgrounds();
    auto at = [](const auto& d) { return reinterpret_cast<const uint8_t*>(d.data()); };
    auto chk = [&](const std::string& what, const uint8_t* p, const B16& want) {
        ++vt::stats.transitions;
        if (std::memcmp(p, want.data(), 16)) vt::violation("packet:" + what, what + " is " + vt::hex(p, 16) + " in the packet, expected " + show(want));
    };
    auto ut = [&](const std::string& what, const UUID& u, const B16& want) {
        ++vt::stats.transitions;
        if (u.get() != text(want, 0)) vt::violation("packet-get:" + what, what + " reads back as " + u.get() + ", expected " + text(want, 0));
    };
    size_t n = 0;
    for (auto& v : fam) {
        auto& w = bg[n++ % bg.size()];
        ++vt::stats.states;
        vt::set_trace("packets with " + show(v));
        t::packets::CtlId p;
        p.controllee_id(UUID{text(w, 1)}); p.controller_id(UUID{text(w, 0)});
        p.controllee_id(UUID{text(v, 0)});
        chk("controllee identifier", at(p.data()) + 16, v); chk("controller identifier after the other", at(p.data()) + 32, w);
        p.controller_id(UUID{text(v, 1)}); p.controllee_id(UUID{text(w, 2)});
        chk("controller identifier", at(p.data()) + 32, v); chk("controllee identifier after the other", at(p.data()) + 16, w);
        ut("controller identifier", p.controller_id(), v); ut("controllee identifier", p.controllee_id(), w);
        auto d = p.data(); std::vector<uint8_t> raw(at(d), at(d) + d.size());
        t::packets::CtlId q{std::span<const uint8_t>(raw)};
        ut("decoded controller identifier", q.controller_id(), v); ut("decoded controllee identifier", q.controllee_id(), w);
        t::packets::CtxId c;
        c.controllee_uuid(UUID{text(w, 1)}); c.controller_uuid(UUID{text(v, 2)}); c.controllee_uuid(UUID{text(v, 0)});
        auto e = c.data(); std::vector<uint8_t> r2(at(e), at(e) + e.size());
        if (r2.size() == 8 + 8 + 32) { chk("controllee UUID field", r2.data() + 16, v); chk("controller UUID field", r2.data() + 32, v); } else vt::violation("packet:size", "context packet with two UUID fields has " + std::to_string(r2.size()) + " bytes");
        t::packets::CtxId x{std::span<const uint8_t>(r2)};
        ut("decoded controllee UUID field", x.controllee_uuid().value(), v); ut("decoded controller UUID field", x.controller_uuid().value(), v);
    }
    vt::finish();
}
'''
YAML = '''
CtlId: !Control
  stream_id: !StreamID
  controllee_id: uuid
  controller_id: uuid
  cam: !ControlAcknowledgeMode
    req_s: true
    action_mode: execute
CtxId: !Context
  stream_id: !StreamID
  cif_2: !CIF2
    controllee_uuid: optional
    controller_uuid: optional
'''


def build(c, name, text, *flags):
    src, exe = c.path(name + '.cpp'), c.path(name)
    open(src, 'w').write(text)
    ok, log = c.cxx([src] + [f for f in flags if f.endswith('.cpp')], exe, *[f for f in flags if not f.endswith('.cpp')])
    if not ok:
        c.violation('compile:' + name, 'a program using the UUID interface does not compile\n' + log[-1500:])
    return ok and exe


def lib(c):
    exe = build(c, 'lib', LIB)
    if exe:
        c.collect(run([exe, c.tier], 800), 'library', 'class vrtgen::UUID')


def pkt(c):
    rc, log, od = c.generate(YAML, 'ids')
    if rc:
        return
    exe = build(c, 'pkt', PKT, '-I' + od, *[os.path.join(od, f) for f in sorted(os.listdir(od)) if f.endswith('.cpp')])
    if exe:
        c.collect(run([exe], 800), 'packets', YAML)


def check(c):
    pmap(lambda f: f(c), [lib, pkt])
    c.assumptions.append('text that is not 32 hexadecimal digits in 8-4-4-4-12 grouping is outside the property')

if __name__ == '__main__':
    main('C17', check)
