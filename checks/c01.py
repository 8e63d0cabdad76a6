"""C01: packed structures, exhaustive bounded exploration of edit histories."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import spec
from vt.common import *

KIND = {'uint': 0, 'bool': 1, 'enum': 2, 'fx': 3, 'ufx': 4, 'm1': 5}


def argbits(s):
    return {'uint8_t': 8, 'uint16_t': 16, 'uint32_t': 32, 'uint64_t': 64, 'int32_t': 32}.get(s.ctype, 0)


def struct_code(name, st):
    T = st.cpp
    subs = []
    for s in st.subs:
        k = KIND[s.kind]
        fl = s.kind in ('fx', 'ufx')
        arg = ('long double' if s.bits >= 32 else 'double') if fl else s.ctype
        wide = 'nullptr'
        ab = argbits(s)
        if s.kind in ('uint', 'm1') and ab > s.bits:
            wide = f'[](void* o, uint64_t v) {{ static_cast<{T}*>(o)->{s.name}(static_cast<{s.ctype}>(v)); }}'
        rst = f'[](void* o) {{ static_cast<{T}*>(o)->reset_{s.name}(); }}' if s.reset else 'nullptr'
        subs.append(f'''    {{"{s.name}", {s.off}, {s.bits}, {k}, {s.radix}, {s.en_off}, {s.enable[1] if s.enable else 0}, {s.default}ull, {ab},
     [](void* o, uint64_t v) {{ static_cast<{T}*>(o)->{s.name}(c01::fromraw<{arg}>(v, {s.bits}, {k}, {s.radix})); }},
     {wide},
     [](const void* o, uint64_t& v) {{ return c01::toraw(static_cast<const {T}*>(o)->{s.name}(), {s.bits}, {k}, {s.radix}, v); }},
     {rst}}}''')
    return f'  v.push_back(c01::mk<{T}>("{name}", {st.size}, {{\n' + ',\n'.join(subs) + '}));\n'


def check(c):
    names = list(spec.STRUCTS)
    # one translation unit per group, compiled and run in parallel
    groups = [names[i::8] for i in range(8)]
    def one(i):
        src = c.path(f's{i}.cpp')
        incs = sorted({spec.STRUCTS[n].include for n in groups[i]})
        with open(src, 'w') as f:
            f.write('#include <stdexcept>\n#include <string>\n#include <vector>\n' + '\n'.join(incs) + '\n#include "c01.hpp"\n')
            f.write('int main(int argc, char** argv) {\n  vt::install(); int depth = std::atoi(argv[1]);\n  std::vector<c01::Struct> v;\n')
            for n in groups[i]:
                f.write(struct_code(n, spec.STRUCTS[n]))
            f.write('''  for (auto& s : v) {
    // the third level is bounded by the structure's width of choice
    int d = depth;
    if (d > 2 && s.subs.size() > 14) d = 2;
    c01::Explorer* e = new c01::Explorer(s, d); e->run(); delete e; }
  vt::finish(); return 0; }\n''')
        ok, log = c.cxx(src, c.path(f's{i}'), opt='-O1')
        if not ok:
            raise Broken('C01 harness does not compile:\n' + log[:3000])
        # default construction once more without optimisation (undefined conversions fold differently)
        ok, log = c.cxx(src, c.path(f's{i}-O0'), opt='-O0')
        if not ok:
            raise Broken('C01 harness does not compile:\n' + log[:3000])
        c.collect(run([c.path(f's{i}-O0'), '0'], timeout=600), 'default construction, unoptimised')
        return run([c.path(f's{i}'), '3' if c.thorough else '2'], timeout=850)
    for i, p in enumerate(pmap(one, range(8))):
        c.collect(p, 'group ' + ','.join(groups[i])[:60])
    # variable-length structures
    src = os.path.join(ROOT, 'harness', 'c01_lists.cpp')
    ok, log = c.cxx(src, c.path('lists'), opt='-O1')
    if not ok:
        raise Broken('C01 list harness does not compile:\n' + log[:3000])
    c.collect(run([c.path('lists'), c.tier], timeout=850), 'variable-length structures')
    # code points of the enumerators
    ok, log = c.cxx(os.path.join(ROOT, 'harness', 'c01_enums.cpp'), c.path('enums'), opt='-O1')
    if not ok:
        raise Broken('C01 enumerator harness does not compile:\n' + log[:3000])
    c.collect(run([c.path('enums')], timeout=120), 'enumerators')
    c.assumptions += [
        'subfields up to 16 bits: every value; wider ones: 0, max, alternating, every walking 1/0 bit and every prefix/suffix mask',
        f'histories of length {3 if c.thorough else 2} from 5-6 backgrounds (second and later values: boundary codes)',
        '64-bit fixed-point codes limited to those a double argument can carry']

if __name__ == '__main__':
    main('C01', check)
