"""C02: fixed-point conversion, exhaustive over codes and rounding boundaries."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import spec, pktgen
from vt.common import *

FUN = r'''
#include <mutex>
#include "c02.hpp"
#include <vrtgen/types/fixed.hpp>
using namespace c02;
// every code of N <= 16, all 2^32 codes for N == 32 (round trip), boundary families for rounding
template <int N, int R, class I> void roundtrip_all()
{
    constexpr int T = 8;
    std::vector<std::thread> th;
    std::atomic<long long> bad{0}; std::atomic<uint64_t> n{0};
    __int128 lo = range(N, !std::is_signed_v<I>).lo, hi = range(N, !std::is_signed_v<I>).hi;
    for (int t = 0; t < T; ++t) th.emplace_back([&, t] {
        __int128 span = (hi - lo + 1) / T;
        __int128 a = lo + span * t, b = t == T - 1 ? hi + 1 : a + span;
        uint64_t cnt = 0;
        for (long long c = (long long)a; c < (long long)b; ++c) {
            auto v = vrtgen::fixed::to_fp<N, R>(static_cast<I>(c));
            auto back = vrtgen::fixed::to_int<N, R>(v);
            ++cnt;
            if (static_cast<I>(back) != static_cast<I>(c) || v * static_cast<decltype(v)>(1ull << R) != static_cast<decltype(v)>(c)) { bad = c; std::printf("VIOL roundtrip:%d.%d\tcode %lld of <%d,%d> converts to %.20Lg and back to %lld\n", N, R, c, N, R, (ld)v, (long long)back); std::fflush(stdout); break; }
        }
        n += cnt;
    });
    for (auto& t : th) t.join();
    vt::stats.states += n; vt::stats.transitions += 2 * n;
}
template <int N, int R, class F, class I> void rounding(bool fine)
{
    Range r = range(N, !std::is_signed_v<I>);
    for (auto c : codes(N, !std::is_signed_v<I>, true)) {
        if (N > 16) {
            auto v = vrtgen::fixed::to_fp<N, R>(static_cast<I>(c));
            if ((ld)v != std::ldexp((ld)c, -R) && std::fabs((ld)c) < std::ldexp(1.0L, std::numeric_limits<decltype(v)>::digits))
                vt::violation("to_fp:" + std::to_string(N) + "." + std::to_string(R), "code " + i128(c) + " converts to " + num(v));
            ++vt::stats.states;
        }
        around<F>(c, R, true, [&](F v) {
            __int128 want = nearest(v, R);
            if (want < r.lo || want > r.hi || std::ldexp((ld)v, R) < (ld)r.lo || std::ldexp((ld)v, R) > (ld)r.hi) return;
            vt::set_trace("to_int " + num(v));
            __int128 got = static_cast<I>(vrtgen::fixed::to_int<N, R>(v));
            ++vt::stats.transitions;
            if (got != want) vt::violation("rounding:" + std::to_string(N) + "." + std::to_string(R) + ":" + std::to_string(sizeof(F)),
                "value " + num(v) + " in <" + std::to_string(N) + "," + std::to_string(R) + "> becomes code " + i128(got) + ", the nearest is " + i128(want));
        });
    }
}
template <int N, int R, class I> void all(bool deep)
{
    rounding<N, R, float, I>(deep); rounding<N, R, double, I>(deep); rounding<N, R, long double, I>(deep);
    if constexpr (N <= 16) roundtrip_all<N, R, I>();
    else if constexpr (N == 32) { if (deep || R == 22) roundtrip_all<N, R, I>(); }
}
int main(int, char** argv)
{
    vt::install(); bool deep = argv[1][0] == 't';
    @CALLS@
    vt::finish();
}
'''
# widths and radix points the standard's fields (and therefore the library) use
PAIRS = [(16, 7), (16, 6), (16, 13), (32, 22), (32, 5), (32, 16), (32, 6), (32, 12), (64, 20), (8, 7), (8, 0), (16, 0), (16, 15), (32, 0), (32, 31), (64, 44)]

FIELD = r'''
#include <mutex>
#include "c02.hpp"
#include <stdexcept>
#include <string>
#include <vector>
#include <optional>
@INC@
using namespace c02;
static void unwrap(ld& o, ld v) { o = v; }
template <class T> static ld val(const T& v) { return static_cast<ld>(v); }
template <class T> static ld val(const std::optional<T>& v) { return v ? static_cast<ld>(*v) : NAN; }
template <class F> void field(const char* name, int N, int R, bool uns, bool all, const std::function<__int128(F)>& setread, const std::function<ld()>& get)
{
    Range r = range(N, uns);
    ld prevv = -INFINITY; __int128 prevc = 0; 
    std::vector<F> vs;
    for (auto c : codes(N, uns, all)) around<F>(c, R, true, [&](F v) { vs.push_back(v); });
    std::sort(vs.begin(), vs.end());
    for (F v : vs) {
        __int128 want = nearest(v, R);
        if (std::ldexp((ld)v, R) < (ld)r.lo || std::ldexp((ld)v, R) > (ld)r.hi || want > r.hi) continue;
        vt::set_trace(std::string(name) + "(" + num(v) + ")");
        __int128 got = setread(v);
        ++vt::stats.transitions;
        if (got != want) { vt::violation(std::string("field:") + name, std::string(name) + "(" + num(v) + ") stores code " + i128(got) + ", the nearest is " + i128(want)); continue; }
        if (prevv != -INFINITY && got < prevc) vt::violation(std::string("monotonic:") + name, num(prevv) + " and " + num(v) + " are stored in reverse order");
        prevv = v; prevc = got;
        ld back = get(), exact = std::ldexp((ld)got, -R);
        if (back != exact && back != (ld)(double)exact) vt::violation(std::string("value:") + name, std::string(name) + " code " + i128(got) + " reads as " + num(back) + " instead of " + num(exact));
        ++vt::stats.states;
    }
}
static __int128 sx(uint64_t raw, int N, bool uns) { if (uns) return raw; return (__int128)(static_cast<int64_t>(raw << (64 - N)) >> (64 - N)); }
int main(int, char** argv)
{
    vt::install(); bool all = true; (void)all;
    @CALLS@
    vt::finish();
}
'''


def fun(c):
    jobs = []
    def one(p):
        n, r = p
        i = {8: 'int8_t', 16: 'int16_t', 32: 'int32_t', 64: 'int64_t'}[n]
        src = c.path(f'fun_{n}_{r}.cpp')
        open(src, 'w').write(FUN.replace('@CALLS@', f'all<{n}, {r}, {i}>(deep);'))
        # native, and with conversions out of range trapped
        ok, log = c.cxx(src, c.path(f'fun_{n}_{r}'), '-pthread', opt='-O2')
        if not ok:
            raise Broken('C02 harness does not compile:\n' + log[:3000])
        return run([c.path(f'fun_{n}_{r}'), c.tier], timeout=850)
    for p, res in zip(PAIRS, pmap(one, PAIRS, 4)):
        c.collect(res, f'conversion <{p[0]},{p[1]}>')


def struct_fields(c):
    calls, incs = [], set()
    for name, st in spec.STRUCTS.items():
        for s in st.subs:
            if s.kind not in ('fx', 'ufx'):
                continue
            incs.add(st.include)
            uns = s.kind == 'ufx'
            calls.append((f'''{{ {st.cpp} o; auto set = [&](double v) -> __int128 {{ o.{s.name}(v); uint8_t b[{st.size}]; o.pack_into(b); return sx(vt::getbits(b, {s.off}, {s.bits}), {s.bits}, {str(uns).lower()}); }};
  field<double>("{name}.{s.name}", {s.bits}, {s.radix}, {str(uns).lower()}, {'true' if s.bits <= 16 else str(c.thorough).lower()}, set, [&] {{ return val(o.{s.name}()); }}); }}'''))
    return sorted(incs), calls


def packet_fields(c):
    fx = [f for f in spec.FIELDS if f.kind == 'fx']
    calls = []
    rc, log, out = c.generate(pktgen.context('Fixed', [(f, 'required') for f in fx]) + pktgen.context('Loose', [(f, 'optional') for f in fx]), 'fixed')
    off = 4 + 4 + 4 + (4 if any(f.cif == 1 for f in fx) else 0)
    for f in sorted(fx, key=lambda f: (f.cif, -f.bit)):
        sub = f.size * 8 - f.vbits
        calls.append(f'''{{ static t::packets::Fixed o; auto set = [&]({f.ctype} v) -> __int128 {{ o.{f.name}(v); auto d = o.data(); return sx(vt::getbits(d.data(), {off * 8 + sub}, {f.vbits}), {f.vbits}, false); }};
  field<{f.ctype}>("required field {f.name}", {f.vbits}, {f.radix}, false, {'true' if f.vbits <= 16 else str(c.thorough).lower()}, set, [&] {{ return val(o.{f.name}()); }}); }}''')
        base = 4 + 4 + 4 + (4 if f.cif == 1 else 0)
        calls.append(f'''{{ static t::packets::Loose o; auto set = [&]({f.ctype} v) -> __int128 {{ o.{f.name}(v); auto d = o.data(); return sx(vt::getbits(d.data(), {base * 8 + sub}, {f.vbits}), {f.vbits}, false); }};
  field<{f.ctype}>("optional field {f.name}", {f.vbits}, {f.radix}, false, {'true' if f.vbits <= 16 else str(c.thorough).lower()}, set, [&] {{ return val(o.{f.name}()); }}); }}''')
        off += f.size
    return out, calls


def check(c):
    fun(c)
    incs, sc = struct_fields(c)
    out, pc = packet_fields(c)
    jobs = [('structs%d' % i, incs, sc[i::4], [], []) for i in range(4)]
    jobs += [('packets%d' % i, [f'#include "{out}/fixed.hpp"', f'#include "{out}/loose.hpp"'], pc[i::4], ['-I' + out], [out + '/fixed.cpp', out + '/loose.cpp']) for i in range(4)]
    def one(j):
        nm, inc, calls, fl, extra = j
        src = c.path(nm + '.cpp')
        open(src, 'w').write(FIELD.replace('@INC@', '#include <algorithm>\n' + '\n'.join(inc)).replace('@CALLS@', '\n'.join(calls)))
        ok, log = c.cxx([src] + extra, c.path(nm), '-fsanitize=float-cast-overflow', '-fsanitize-undefined-trap-on-error', *fl, opt='-O1')
        if not ok:
            raise Broken('C02 field harness does not compile:\n' + log[:3000])
        return run([c.path(nm), c.tier], timeout=850)
    for j, r in zip(jobs, pmap(one, jobs)):
        c.collect(r, 'fields ' + j[0])
    c.assumptions += ['8/16-bit formats: every code and, around each, offsets k/8 of a step and the neighbours of the halfway points, in every argument type',
                      '32-bit formats: every one of the 2^32 codes for the round trip (quick: radix 22 only); rounding at codes made of one or two bits or a run of bits, +-2',
                      '64-bit formats: the same code families']

if __name__ == '__main__':
    main('C02', check)
