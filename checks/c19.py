"""C19: every bounded user-defined layout of a stream identifier, trailer or discrete I/O word."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt.common import *


class Lay:
    """one packet with one user-defined word: parts = [(name, kind, arg)]"""
    def __init__(self, where, parts, sf=False, mode='optional', packet='Context', both=False):
        self.where, self.parts, self.sf, self.mode, self.packet, self.both = where, parts, sf, mode, packet, both
        self.name = ''

    def decl(self, ind):
        o = []
        for n, k, a in self.parts:
            if self.where == 'stream':
                o.append(f'{n}: !IntegerType')
                o.append(f'  bits: {a[0]}')
                if len(a) > 1:
                    o.append(f'  value: {a[1]}')
            elif k == 'enum':
                o.append(f'{n}: !!seq')
                o += [f'  - m{i}_{n}' for i in range(a)]
            elif k == 'int':
                o.append(f'{n}: {a}')
            else:
                o.append(f'{n}: {k}')
        return ''.join(' ' * ind + x + '\n' for x in o)

    def yaml(self):
        if self.where == 'stream':
            cam = '  cam: !ControlAcknowledgeMode\n    action_mode: execute\n' if self.packet == 'Control' else ''
            return f'{self.name}: !{self.packet}\n  stream_id: !StreamID\n' + self.decl(4) + cam
        if self.where == 'trailer':
            sf = '    sample_frame: required\n' if self.sf else ''
            first = self.sf == 1
            return f'{self.name}: !Data\n  trailer: !Trailer\n' + (sf if first else '') + self.decl(4) + ('' if first else sf)
        cam = '  cam: !ControlAcknowledgeMode\n    action_mode: execute\n' if self.packet == 'Control' else ''
        s = f'{self.name}: !{self.packet}\n{cam}  cif_1: !CIF1\n'
        for n in ('32', '64'):
            if self.where == n or self.both:
                s += f'    discrete_io_{n}: !DiscreteIO{n}\n      mode: {self.mode}\n' + self.decl(6)
        return s

    def cpp(self):
        P = 't::packets::' + self.name
        obj = {'stream': 'p.stream_id()', 'trailer': 'p.trailer()'}.get(self.where, f'lay::ref(p.discrete_io_{self.where}())')
        rows = []

        def row(n, width, count, opt=False, init=0, reset=False, isint=False):
            V = f'lay::value_t<decltype({obj}.{n}())>'
            rows.append(f'''    {{"{n}", {width}, {count - 1}ull, {int(opt)}, {'lay::NONE' if opt else str(init) + 'ull'},
     [](P& p) -> uint64_t {{ return lay::raw({obj}.{n}()); }},
     [](P& p, uint64_t v) {{ {obj}.{n}(static_cast<lay::value_t<decltype({obj}.{n}())>>(v)); }},
     {f'[](P& p) {{ {obj}.reset_{n}(); }}' if opt and n != 'sample_frame' else 'nullptr'}, ''' + (f'[&]{{ P p; prep(p); return int(sizeof({V}) * 8); }}()' if isint else '0') + '}')
        for n, k, a in self.parts:
            if self.where == 'stream':
                row(n, a[0], 1 << a[0], init=a[1] if len(a) > 1 else 0, isint=a[0] > 1)
            elif self.where == 'trailer':
                if k == 'enum':
                    row(n, (a - 1).bit_length(), a, opt=True)
                else:
                    row(n, 1, 2, opt=True)
            elif k == 'enum':
                row(n, (a - 1).bit_length(), a)
            elif k == 'int':
                row(n, a, 1 << a, isint=a > 1)
            else:
                row(n, 1, 2)
                if k == 'enable_indicator':
                    row(n + '_enable', 1, 2)
        if self.where == 'trailer':
            for n in ('calibrated_time', 'valid_data', 'reference_lock', 'agc_mgc', 'detected_signal', 'spectral_inversion', 'over_range', 'sample_loss'):
                row(n, 1, 2, opt=True)
            if self.sf:
                row('sample_frame', 2, 4, opt=True)
        prep = ''
        if self.where in ('32', '64') and self.mode == 'optional':
            prep = f'{{ std::remove_cvref_t<decltype(*p.discrete_io_{self.where}())> x; p.discrete_io_{self.where}(x); }}'
        other = ''
        if self.where == 'stream':
            # the whole identifier can be assigned at once
            other = '{ P a, b; auto x = a.stream_id(); ' + ''.join(f'x.{n}(1); ' for n, k, a in self.parts) + '''b.stream_id(x);
      for (auto& t : parts) if (t.get(b) != 1) vt::violation(std::string("whole:") + NAME, std::string("assigning the whole stream identifier loses part ") + t.name); }'''
        for n, k, v in self.parts:
            if k == 'enum':
                # the values are numbered from zero, in the order given
                other += f'''{{ P p; prep(p); using V = lay::value_t<decltype({obj}.{n}())>; const V all[] = {{ {', '.join(f'V::m{i}_{n}' for i in range(v))} }};
      for (uint64_t i = 0; i < {v}; i++) {{ {obj}.{n}(all[i]); if (lay::raw({obj}.{n}()) != i) vt::violation(std::string("enumerator:") + NAME, "value " + std::to_string(i) + " of {n} reads as " + std::to_string(lay::raw({obj}.{n}()))); }} }}
  '''
        word = {'64': 8}.get(self.where, 4)
        return f'''static void run_{self.name}(bool th) {{
  using P = {P}; constexpr const char* NAME = "{self.label()}"; (void)NAME;
  auto prep = [](P& p) {{ (void)p; {prep} }};
  std::vector<lay::Part<P>> parts = {{
{(','+chr(10)).join(rows)} }};
  {other}
  lay::Explorer<P> e; e.name = NAME; e.parts = parts; e.word_bytes = {word}; e.prepare = prep; e.thorough = th; e.run();
}}
'''

    def label(self):
        def one(p):
            n, k, a = p
            if self.where == 'stream':
                return f'{n}({",".join(map(str, a))})'
            return f'{n}({k}{a or ""})'
        return f'{self.packet + "-" if self.where != "trailer" else ""}{self.where}-{"sf-" if self.sf else ""}' + '+'.join(one(p) for p in self.parts) + ('-both' if self.both else '') + ('' if self.mode == 'optional' else '-' + self.mode)


def streams(th):
    W = [[w] for w in (range(1, 33) if th else (1, 7, 8, 9, 15, 16, 17, 31, 32))]
    W += [[a, 32 - a] for a in (range(1, 32) if th else (1, 8, 15, 16, 17, 31))]
    W += [[3, 5], [9, 3], [12, 12]]
    W += [list(p) for p in sorted(set(itertools.permutations((1, 15, 16))))] + [[8, 8, 8], [10, 10, 10], [11, 11, 10]]
    W += [[8] * 4, [4] * 8, [2] * 16, [1] * 32, [1, 30, 1], [5, 12, 15]]
    if th:
        W += [list(p) for a in (1, 4, 8, 11) for b in (1, 7, 8, 9, 16) for p in sorted(set(itertools.permutations((a, b, 32 - a - b)))) if 32 - a - b > 0]
    out = []
    for i, ws in enumerate(W):
        for pk in ('Data', 'Context', 'Control') if i % 5 == 0 else ('Data',):
            out.append(Lay('stream', [(f'part{k}', 'int', (w,)) for k, w in enumerate(ws)], packet=pk))
    # constants, and names that are ordinary words of the description language
    for cs in ([(8, 200), (8,), (16, 1)], [(5,), (12, 77), (15,)], [(32, 0xFEDCBA98)], [(1, 1), (31, 0)], [(10, 1023), (22, 0x3FFFFF)]):
        out.append(Lay('stream', [(f'part{k}', 'int', c) for k, c in enumerate(cs)], packet='Data'))
        out.append(Lay('stream', [(f'part{k}', 'int', c) for k, c in enumerate(reversed(cs))], packet='Context'))
    for names in (['value', 'name', 'bits'], ['enabled', 'required', 'packed'], ['mode', 'position', 'index', 'stream_id']):
        out.append(Lay('stream', [(n, 'int', (7,)) for n in names], packet='Data'))
    return out


TRAIL = [('enable_indicator', 1, None), ('enum', 1, 2), ('enum', 2, 3), ('enum', 2, 4), ('enum', 3, 5), ('enum', 3, 8), ('enum', 4, 9), ('enum', 4, 16)]


def seqs(alphabet, bits):
    """all sequences using at most the given number of bits"""
    if bits >= 0:
        yield []
    for a in alphabet:
        if a[1] <= bits:
            for r in seqs(alphabet, bits - a[1]):
                yield [a] + r


def trailers(th):
    out = []
    alpha = TRAIL if th else [t for t in TRAIL if t[2] not in (4, 8, 9)]
    for sf in (0, 1, 2):
        for s in seqs(alpha, 2 if sf else 4):
            if s:
                out.append(Lay('trailer', [(f'user_defined_{k}', a[0], a[2]) for k, a in enumerate(s)], sf=sf))
    out.append(Lay('trailer', [], sf=1))
    out.append(Lay('trailer', [('my_user_defined_thing', 'enum', 3), ('user_defined_9', 'enable_indicator', None)]))
    return out


def ios(th):
    A = [('bool', 1, None), ('enable_indicator', 2, None), ('int', 1, 1), ('int', 5, 5), ('int', 8, 8), ('int', 17, 17), ('enum', 1, 2), ('enum', 2, 3), ('enum', 3, 5)]
    if th:
        A += [('int', 9, 9), ('int', 16, 16), ('int', 31, 31), ('int', 7, 7), ('enum', 2, 4)]
    def mk(where, s, **kw):
        return Lay(where, [(f'q{k}', a[0], a[2]) for k, a in enumerate(s)], **kw)
    out = []
    for w in ('32', '64'):
        n = int(w)
        I = lambda b: ('int', b, b)
        B, E, E3, E5 = A[0], A[1], A[7], A[8]
        for a in A:
            out.append(mk(w, [a]))
        prs = list(itertools.product(A, A))
        for i, (a, b) in enumerate(prs):
            if a[1] + b[1] <= 32 and (th or i % 2 == (w == '64')):
                out.append(mk(w, [a, b]))
        # an enumeration takes one bit for every two values
        for k in (4, 7, 8, 9, 16, 17, 33, 60, n * 2 - 4):
            v = ('enum', (k + 1) // 2, k)
            for l in ([v], [I(5), v, B], [B, v, v, I(2)]):
                if sum(x[1] for x in l) <= n:
                    out.append(mk(w, l))
        for s in ([I(n)], [B] * n, [E] * (n // 2), [I(n - 1), B], [B, I(n - 1)], [E, I(n - 2)], [I(n - 2), E],
                  [I(n - 2), E3], [E3, I(n - 2)], [I(n - 5), B, E, E3], [I(7), E5, B, I(9), E3], [I(8)] * (n // 8), [I(5)] * (n // 5)):
            out.append(mk(w, s))
    # parts beside and across the boundary of the two words
    I = lambda b: ('int', b, b)
    for first in range(25, 36) if th else (27, 30, 31, 32, 33):
        for a in ([('bool', 1, None)], [('enable_indicator', 2, None)], [('enum', 3, 5)], [I(5)], [I(17), I(3)], [I(29)]):
            out.append(mk('64', [I(first)] + a))
            if first == 31:
                out.append(mk('64', a + [I(first)]))
    for s in ([('bool', 1, None), I(9)], [('enum', 2, 3), I(3)], [('enum', 2, 3), ('enable_indicator', 2, None), ('enum', 3, 5)]):
        for w in ('32', '64'):
            out.append(mk(w, s, both=True))
            out.append(mk(w, s, mode='required'))
            out.append(mk(w, s, packet='Control'))
            out.append(mk(w, s, packet='Control', mode='required', both=True))
    for w in ('32', '64'):
        out.append(Lay(w, [('value', 'int', 5), ('name', 'bool', None), ('bits', 'enum', 3), ('type', 'enable_indicator', None)]))
    return out


def illegal(th):
    S = lambda *w: Lay('stream', [(f'part{k}', 'int', x if isinstance(x, tuple) else (x,)) for k, x in enumerate(w)], packet='Data')
    out = [S(33), S(32, 1), S(1, 32), S(16, 17), S(*[1] * 33), S(64), S(0), S(8, 0), S(-1), S(40, -8), S((3, 8)), S((8, 256)), S(5, (1, 2)), S((8, -1)), S((32, 1 << 32))]
    alpha = TRAIL if th else [t for t in TRAIL if t[2] not in (4, 8, 9)]
    for sf, lim in ((0, 4), (1, 2), (2, 2)):
        for s in seqs(alpha, lim):
            for a in alpha:
                if sum(x[1] for x in s) + a[1] > lim and (th or a[1] < 3 or len(s) < 2) and (th or sf < 2 or len(s) < 2):
                    out.append(Lay('trailer', [(f'user_defined_{k}', x[0], x[2]) for k, x in enumerate(s + [a])], sf=sf))
    out += [Lay('trailer', [('user_defined_0', 'enum', 17)]), Lay('trailer', [('user_defined_0', 'enum', 33)])]
    for w in ('32', '64'):
        n = int(w)
        L = lambda *p: Lay(w, [(f'q{k}', *(x if isinstance(x, tuple) else ('int', x))) for k, x in enumerate(p)])
        b, e = ('bool', None), ('enable_indicator', None)
        out += [L(n + 1), L(n, b), L(b, n), L(n - 1, e), L(e, n - 1), L(n - 1, ('enum', 3)), L(n, ('enum', 2)), L(('enum', 5), n - 2), L(0), L(-1), L(5, 0), L(n + 8, -8), L(*[b] * (n + 1)), L(*[e] * (n // 2), b)]
    return out


def check(c):
    lays = streams(c.thorough) + trailers(c.thorough) + ios(c.thorough)
    for i, l in enumerate(lays):
        l.name = f'Lay{i}'
    groups = [lays[i::16 if not c.thorough else 48] for i in range(16 if not c.thorough else 48)]

    def one(ig):
        i, g = ig
        rc, log, out = c.generate(''.join(l.yaml() for l in g), f'g{i}', check=False)
        if rc:
            # find the refused ones
            good = []
            for l in g:
                rc, log, _ = c.generate(l.yaml(), 'one' + l.name, check=False)
                if rc:
                    c.violation('reject:' + l.label(), 'a legal layout is rejected:\n' + l.yaml() + log[-600:], l.yaml())
                else:
                    good.append(l)
            g = good
            rc, log, out = c.generate(''.join(l.yaml() for l in g), f'g{i}', check=False)
            if rc:
                c.violation(f'generate:{i}', 'the generator rejects legal descriptions: ' + log[-800:])
                return
        def program(ls, tag):
            src = c.path(f'{tag}.cpp')
            with open(src, 'w') as f:
                f.write(''.join(f'#include "{out}/lay{l.name[3:]}.cpp"\n' for l in ls) + '#include "lay.hpp"\n')
                f.write(''.join(l.cpp() for l in ls))
                f.write('int main(int argc, char** argv) { vt::install(); bool th = argc > 1;\n' + ''.join(f'  run_{l.name}(th);\n' for l in ls) + '  vt::finish(); return 0; }\n')
            return c.cxx(src, c.path(tag), '-I' + out, opt='-O0' if not c.thorough else '-O1')
        ok, log = program(g, f'p{i}')
        if not ok:
            good = []
            for l in g:
                ok, log = program([l], 'one' + l.name)
                if ok:
                    good.append(l)
                else:
                    err = [x for x in log.splitlines() if 'error' in x or 'undefined' in x or 'multiple' in x]
                    c.violation('compile:' + l.label(), 'the generated code does not compile or lacks the declared parts:\n' + l.yaml() + '\n'.join(err[:6]), l.yaml())
            ok, log = program(good, f'p{i}') if good else (False, '')
            if not ok:
                return
        c.collect(run([c.path(f'p{i}')] + (['t'] if c.thorough else []), timeout=3000), f'layouts {i}')
    pmap(one, list(enumerate(groups)))
    bad = illegal(c.thorough)

    def rej(il):
        i, l = il
        l.name = f'Bad{i}'
        rc, log, out = c.generate(l.yaml(), f'bad{i}', check=False)
        if rc == 0:
            c.violation('accept:' + l.label(), 'a layout that does not fit is accepted:\n' + l.yaml(), l.yaml())
    pmap(rej, list(enumerate(bad)))
    c.add('layouts that do not fit', len(bad), len(bad), len(bad))
    # two different enumerations of one name: refused, or working
    conf = 'Conf: !Context\n  cif_1: !CIF1\n    discrete_io_32: !DiscreteIO32\n      q: !!seq [a, b]\n    discrete_io_64: !DiscreteIO64\n      q: !!seq [c, d, e]\n'
    rc, log, out = c.generate(conf, 'conf', check=False)
    if rc == 0:
        open(c.path('conf.cpp'), 'w').write(f'#include "{out}/conf.hpp"\nint main() {{ t::packets::Conf c; return c.data().size() ? 0 : 1; }}\n')
        ok, log = c.cxx([c.path('conf.cpp'), out + '/conf.cpp'], c.path('conf'), '-I' + out)
        if not ok:
            c.violation('compile:conflicting-enums', 'accepted, but the generated code does not compile:\n' + log[:800], conf)
    c.parts.setdefault('layouts', {})['layouts'] = len(lays)
    c.assumptions += ['layouts: stream identifiers and discrete I/O words from the listed widths and orders; trailers: every sequence of parts that fits',
                      'per layout: every state and assignment where the word has at most 2^11 (thorough 2^16) states, otherwise boundary and walking-bit values from six backgrounds, two assignments deep']


if __name__ == '__main__':
    main('C19', check)
