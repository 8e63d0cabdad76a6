"""Packet descriptions: YAML for the generator under test, and the matching oracle
(slots, wire layout, operations, observations) for harness/pkt.hpp."""
import re
from . import spec


def cif_yaml(fields, ind='  ', extra=()):
    """fields: list of (CField, mode)"""
    out = []
    for c in (0, 1, 2, 3, 7):
        sel = [(f, m) for f, m in fields if f.cif == c]
        ex = [l for k, l in extra if k == c]
        if not sel and not ex:
            continue
        out.append(f'{ind}cif_{c}: !CIF{c}')
        out += [f'{ind}  {l}' for l in ex]
        for f, m in sel:
            if f.yaml:
                out.append(f'{ind}  {f.name}: ' + f.yaml.replace('{mode}', m))
            else:
                out.append(f'{ind}  {f.name}: {m}')
    return '\n'.join(out) + ('\n' if out else '')


def snake(name):
    return re.sub(r'(?<=[a-z0-9])(?=[A-Z])', '_', name).lower()


def cbytes(b):
    return '{' + ','.join(f'0x{x:02x}' for x in b) + '}'


TSI = {'none': 0, 'utc': 1, 'gps': 2, 'other': 3}
TSF = {'none': 0, 'samples': 1, 'picoseconds': 2, 'free-running': 3}
TSIE = {'utc': 'UTC', 'gps': 'GPS', 'other': 'OTHER'}
TSFE = {'samples': 'SAMPLE_COUNT', 'picoseconds': 'REAL_TIME', 'free-running': 'FREE_RUNNING'}


class WeifField:
    """the warning (kind 0) or error (kind 1) response of a field"""
    kind, size = 'struct', 4
    BITS = {'field_not_executed': 31, 'device_failure': 30, 'parameter_out_of_range': 28, 'timestamp_problem': 25, 'regional_interference': 19, 'hazardous_power_levels': 24}

    def __init__(self, f, kind):
        k = (f.cif * 40 + f.bit + kind * 3) % 4
        names = list(self.BITS)
        self.cif, self.bit, self.name = f.cif, f.bit, f.name
        self.v = ((names[k],), (names[k + 1], names[(k + 3) % 6]), ())

    def enc(self, i):
        return sum(1 << self.BITS[n] for n in self.v[i]).to_bytes(4, 'big')

    def cpp(self, i):
        return '[]{ vrtgen::packing::WarningErrorFields w{}; ' + ''.join(f'w.{n}(true); ' for n in self.v[i]) + 'return w; }()'

    def type(self):
        return 'vrtgen::packing::WarningErrorFields'


class Pkt:
    """A packet type: its description and the reference for it."""
    ptype = {'context': 4, 'ext_context': 5, 'data': 0, 'command': 6, 'ext_command': 7, 'ack_s': 6, 'ack_vx': 6, 'ext_ack_s': 7, 'ext_ack_vx': 7}

    def __init__(self, name, kind='context', fields=(), stream=None, class_id=None, tsi=None, tsf=None, tsm=None, ns='t',
                 payloads=(), trailer=None, sot=None, cam=None, controllee=None, controller=None, ack=None, attrs=(), codes=()):
        """stream: None, '' (declared, default 0) or int; class_id: None or (oui, ic, pc);
        data packets: payloads = sizes to set; trailer = None or {'sample_frame': bool, 'user': [(name, nvalues|'flag')]}; sot = None/'spectrum'/'time'"""
        self.codes = codes      # the codes of the information classes that share this packet type
        self.payloads, self.trailer, self.sot = payloads, trailer, sot
        self.attrs = [a for a in spec.IF[7] if a in attrs] if not self.is_ack_kind(kind) else []   # in wire order
        self.cam, self.controllee, self.controller, self.ack = dict(cam or {}), controllee, controller, ack
        self.name, self.kind, self.ns = name, kind, ns
        self.fields = sorted(fields, key=lambda x: (x[0].cif, -x[0].bit))
        self.stream, self.class_id, self.tsi, self.tsf, self.tsm = stream, class_id, tsi, tsf, tsm
        self.slots, self.parts, self.ops, self.looks, self.words = [], [], [], [], []
        self.build()

    # ----------------------------------------------------------------- helpers
    @staticmethod
    def is_ack_kind(kind):
        return 'ack' in kind

    @property
    def is_command(self):
        return self.kind.endswith('command') or self.is_ack

    @property
    def is_ack(self):
        return 'ack' in self.kind

    def acks(self):
        """the acknowledge types generated for this control packet"""
        c, out = self.cam, []
        kw = dict(fields=self.fields, stream=self.stream, class_id=self.class_id, tsi=self.tsi, tsf=self.tsf, ns=self.ns, cam=self.cam, codes=self.codes,
                  controllee=self.controllee, controller=self.controller, ack=self.ack)
        e = 'ext_' if self.kind == 'ext_command' else ''
        if c.get('req_v') or c.get('req_x'):
            out.append(Pkt(self.ack + 'VX', e + 'ack_vx', **kw))
        if c.get('req_s'):
            out.append(Pkt(self.ack + 'S', e + 'ack_s', **kw))
        return out

    @property
    def cls(self):
        return f'{self.ns}::packets::{self.name}'

    @property
    def file(self):
        return snake(self.ack if self.is_ack else self.name)

    def slot(self, name, nvals, init, owner=-1):
        self.slots.append((name, nvals, init, owner))
        return len(self.slots) - 1

    def word(self, base, bs=(), grp=()):
        b = ','.join('{%d,%d,%d,{%s}}' % (s, sh, n, ','.join(f'{v}ull' for v in vals)) for s, sh, n, vals in bs)
        g = ','.join('{%d,%d}' % x for x in grp)
        self.parts.append(f'{{0,-1,{{}},{base:#x}u,{{{b}}},0,0,false,{{}},{{{g}}}}}')

    def val(self, slot, vals):
        self.parts.append(f'{{1,{slot},{{' + ','.join(cbytes(v) for v in vals) + '}}')

    def ifword(self, group, n, always, ind, base=0, bs=()):
        b = ','.join('{%d,%d,%d,{%s}}' % (s, sh, k, ','.join(f'{v}ull' for v in vals)) for s, sh, k, vals in bs)
        i = ','.join('{%d,%d}' % x for x in ind)
        self.parts.append(f'{{2,-1,{{}},{base:#x}u,{{{b}}},{group},{n},{str(always).lower()},{{{i}}}}}')

    def op(self, name, code, *eff):
        """eff: (slot, val), (slot, val, 1) if only when present, (slot, val, 2) if only when absent"""
        self.ops.append((name, code, [(e[0], e[1], int(e[2]) if len(e) > 2 else 0) for e in eff]))

    def look(self, name, cond_bad):
        self.looks.append(f'if ({cond_bad}) b.push_back("{name}");')

    # ----------------------------------------------------------------- construction
    def header_yaml(self):
        tag = {'context': '!Context', 'ext_context': '!ExtensionContext', 'data': '!Data', 'command': '!Control', 'ext_command': '!ExtensionControl'}[self.kind]
        s = f'{self.name}: {tag}\n'
        return s

    def prologue_yaml(self):
        s = ''
        if self.stream is not None:
            s += '  stream_id: !StreamID' + (f' {self.stream:#x}' if isinstance(self.stream, int) else '') + '\n'
            if isinstance(self.stream, tuple):
                for n, bits, v in self.stream:
                    s += f'    {n}: !IntegerType\n      bits: {bits}\n' + (f'      value: {v}\n' if v else '')
        if self.class_id is not None:
            s += '  class_id: !ClassID\n'
            if self.class_id[0] is not None:
                o = f'{self.class_id[0]:06X}'
                s += f'    oui: {o[0:2]}-{o[2:4]}-{o[4:6]}\n'
            if self.class_id[1] is not None:
                s += f'    information_code: {self.class_id[1]:#x}\n'
            if self.class_id[2] is not None:
                s += f'    packet_code: {self.class_id[2]:#x}\n'
        if self.tsi or self.tsf:
            s += '  timestamp: !Timestamp\n'
            if self.tsi:
                s += f'    integer: {self.tsi}\n'
            if self.tsf:
                s += f'    fractional: {self.tsf}\n'
        return s

    def yaml(self):
        if self.is_ack:
            return ''
        s = self.header_yaml() + self.prologue_yaml()
        if self.controllee:
            s += f'  controllee_id: {self.controllee}\n'
        if self.controller:
            s += f'  controller_id: {self.controller}\n'
        if self.cam:
            s += '  cam: !ControlAcknowledgeMode\n'
            for k, v in self.cam.items():
                s += f'    {k}: {str(v).lower() if isinstance(v, bool) else v}\n'
        if self.tsm:
            s += f'  tsm: {self.tsm}\n'
        if self.sot:
            s += f'  spectrum_or_time: {self.sot}\n'
        if self.trailer is not None:
            s += '  trailer: !Trailer\n'
            if self.trailer.get('sample_frame'):
                s += '    sample_frame: required\n'
            for n, k in self.trailer.get('user', ()):
                s += f'    {n}: ' + ('enable_indicator\n' if k == 'flag' else '[' + ', '.join(f'{n}_{i}' for i in range(k)) + ']\n')
        s += cif_yaml(self.fields, extra=[(7, f'{a}: required') for a in self.attrs])
        if self.ack:
            s += f'{self.ack}: !' + ('ExtensionAck' if self.kind == 'ext_command' else 'Ack') + f'\n  responds_to: {self.name}\n'
        return s

    def head(self, base, bs=()):
        """header word + prologue"""
        bs = list(bs)
        pc = self.slot('packet_count', 3, 0)
        base |= self.class_bit()
        bs.append((pc, 16, 4, [0, 5, 15]))
        for i, v in enumerate([0, 5, 15]):
            if i:
                self.op(f'packet_count({v})', f'p.packet_count({v});', (pc, i))
        self.op('packet_count(0)', 'p.packet_count(0);', (pc, 0))
        self.look('packet_count', f'p.packet_count() != (m[{pc}] == 0 ? 0 : m[{pc}] == 1 ? 5 : 15)')
        for nm, kind, E, EN, T, sh in (('tsi', self.tsi, TSI, TSIE, 'TSI', 22), ('tsf', self.tsf, TSF, TSFE, 'TSF', 20)):
            if kind is None:
                continue
            if kind == 'any':
                keys = ['none'] + list(EN)
                s = self.slot(nm, 4, 0)
                bs.append((s, sh, 2, [0, 1, 2, 3]))
                for i, k in enumerate(keys):
                    if i:
                        self.op(f'{nm}({k})', f'p.{nm}(vrtgen::packing::{T}::{EN[k]});', (s, i))
                self.look(nm, f'static_cast<int>(p.{nm}()) != m[{s}]')
                self.any_slots = getattr(self, 'any_slots', []) + [s]
            else:
                base |= E[kind] << sh
        self.word(base, bs)
        if isinstance(self.stream, tuple):
            # the first part has the least significant bits
            at, bs, ones, full = 0, [], [], (1 << 32) - 1
            for n, bits, v in self.stream:
                top = (1 << bits) - 1
                vals = [v, top, 0xAAAAAAAA & top] if v != top else [v, 0, 0x55555555 & top]
                s = self.slot('stream_id.' + n, 3, 0)
                bs.append((s, at, bits, vals))
                for i in (1, 2):
                    self.op(f'stream_id().{n}({vals[i]:#x})', f'p.stream_id().{n}({vals[i]:#x}u);', (s, i))
                self.look('stream_id.' + n, f'p.stream_id().{n}() != (m[{s}] == 0 ? {vals[0]:#x}u : m[{s}] == 1 ? {vals[1]:#x}u : {vals[2]:#x}u)')
                ones.append((s, 1, f'x.{n}({vals[1]:#x}u); '))
                at += bits
            self.op('stream_id(x)', '{ auto x = p.stream_id(); ' + ''.join(o[2] for o in ones) + 'p.stream_id(x); }', *[o[:2] for o in ones])
            self.word(0, bs)
        elif self.kind in ('context', 'ext_context') or self.is_command or self.stream is not None:
            s = self.slot('stream_id', 3, 0)
            d = self.stream if self.stream not in (None, '') else 0
            vals = [d, 0x89ABCDEF, 0x00000001]
            self.val(s, [v.to_bytes(4, 'big') for v in vals])
            for i in (1, 2):
                self.op(f'stream_id({vals[i]:#x})', f'p.stream_id({vals[i]:#x}u);', (s, i))
            self.look('stream_id', f'p.stream_id() != (m[{s}] == 0 ? {vals[0]:#x}u : m[{s}] == 1 ? {vals[1]:#x}u : {vals[2]:#x}u)')
        if self.class_id is not None:
            o, i, k = (x or 0 for x in self.class_id)
            s = self.slot('pad_bits', 3, 0)
            self.pad_slot = s
            self.word(o, [(s, 27, 5, [0, 8, 31])])
            if self.codes:
                i = self.codes[0]
                ic = self.slot('information_code', len(self.codes) + 1, 0)
                cv = [*self.codes, 0xBEEF]
                self.word(k, [(ic, 16, 16, cv)])
                for j, v in enumerate(cv):
                    self.op(f'information_code({v:#x})', f'p.information_code({v:#x});', (ic, j))
                icode = ' : '.join(f'm[{ic}] == {j} ? {v:#x}' for j, v in enumerate(cv)) + ' : -1'
                self.look('information_code', f'p.information_code() != ({icode})')
            else:
                self.word(i << 16 | k)
                icode = f'{i:#x}u'
            for j, v in ((0, 0), (1, 8), (2, 31)):
                if j:
                    self.op(f'pad_bits({v})', f'p.pad_bits({v});', (s, j))
            self.look('pad_bits', f'p.pad_bits() != (m[{s}] == 0 ? 0 : m[{s}] == 1 ? 8 : 31)')
            self.look('class_id', f'p.class_id().oui() != {o:#x}u || p.class_id().information_code() != ({icode}) || p.class_id().packet_code() != {k:#x}u || p.class_id().pad_bits() != p.pad_bits()')
        for nm, kind, T, size, vals in (('integer_timestamp', self.tsi, 'uint32_t', 4, (0, 0x01020304, 0xFFFFFFFE)),
                                        ('fractional_timestamp', self.tsf, 'uint64_t', 8, (0, 0x0102030405060708, 0xFFFFFFFFFFFFFFFD))):
            if kind is None:
                continue
            s = self.slot(nm, 3, 0)
            self.val(s, [v.to_bytes(size, 'big') for v in vals])
            for i in (1, 2):
                self.op(f'{nm}({vals[i]:#x})', f'p.{nm}({vals[i]:#x}ull);', (s, i))
            self.look(nm, f'p.{nm}() != static_cast<{T}>(m[{s}] == 0 ? {vals[0]:#x}ull : m[{s}] == 1 ? {vals[1]:#x}ull : {vals[2]:#x}ull)')

    def class_bit(self):
        return (1 << 27) if self.class_id is not None else 0

    def cif_section(self, change=True):
        """indicator words and fields"""
        ind = {0: [], 1: [], 2: []}
        vals = []
        self.fslot = {}
        for f, mode in self.fields:
            req = mode == 'required'
            n = len(f.v)
            enc = [f.enc(i) for i in range(n)]
            if req:
                enc = [self.default_enc(f)] + enc
            s = self.slot(f.name, len(enc), 0 if req else -1)
            self.fslot[(f.cif, f.name)] = s
            ind[f.cif].append((s, f.bit))
            at = self.attr_slots(f, req, s)
            vals.append((f, req, s, enc, at))
        bs = []
        if change:
            ci = self.slot('change_indicator', 2, 0)
            bs = [(ci, 31, 1, [0, 1])]
            self.op('change_indicator(true)', 'p.change_indicator(true);', (ci, 1))
            self.op('change_indicator(false)', 'p.change_indicator(false);', (ci, 0))
            self.look('change_indicator', f'p.change_indicator() != (m[{ci}] == 1)')
        self.ifword(0, 0, True, ind[0], (1 << 7) if self.attrs else 0, bs)
        self.words.append('pkt::words_eq("cif_0", p.cif_0(), A, m, 0, 0, b);')
        for c in (1, 2):
            if ind[c]:
                self.ifword(0, c, False, ind[c])
                self.words.append(f'pkt::words_eq("cif_{c}", p.cif_{c}(), A, m, 0, {c}, b);')
                opt = [(self.fslot[(f.cif, f.name)], -1) for f, m in self.fields if f.cif == c]
                opt += [(a[1], -1) for f, _, _, _, at in vals for a in at if f.cif == c]
                if all(m == 'optional' for f, m in self.fields if f.cif == c):
                    self.op(f'reset_cif_{c}()', f'p.reset_cif_{c}();', *opt)
        if self.attrs:
            w = sum(1 << spec.IF[7][a] for a in self.attrs)
            self.word(w)
            self.words.append('if (packed_bytes(p.cif_7()) != bytes{%s}) b.push_back("cif_7");' % ','.join(str(x) for x in w.to_bytes(4, 'big')))
        for f, req, s, enc, at in vals:
            if not self.attrs or 'current_value' in self.attrs:
                self.val(s, enc)
            for a, t, aenc, _ in at:
                self.val(t, aenc)
            self.field_ops(f, req, s, attrs=[t for _, t, _, _ in at])
            self.attr_ops(f, req, s, at)

    def attr_slots(self, f, req, fs):
        """[(attribute, slot, encodings, [C++ values])] of a field; the first encoding is what an untouched attribute has"""
        out = []
        for k, a in enumerate(x for x in self.attrs if x != 'current_value'):
            if a == 'probability':
                P = spec.NS + 'Probability'
                enc = [bytes(4), bytes([0, 0, 3 + k, 90 + f.bit % 10])]
                cpp = [f'[]{{ {P} s{{}}; s.probability_function({3 + k}); s.probability_percent({90 + f.bit % 10}); return s; }}()']
            elif a == 'belief':
                P = spec.NS + 'Belief'
                enc = [bytes(4), bytes([0, 0, 0, 40 + f.bit])]
                cpp = [f'[]{{ {P} s{{}}; s.belief_percent({40 + f.bit}); return s; }}()']
            else:
                P = f.type()
                use = [(k + j) % len(f.v) for j in range(2 if k == 0 else 1)]
                enc = [self.default_enc(f)] + [f.enc(i) for i in use]
                cpp = [f.cpp(i) for i in use]
            s = self.slot(f'{f.name}.{a}', len(enc), 0 if req else -1, fs)
            out.append((a, s, enc, (P, cpp)))
        return out

    def attr_ops(self, f, req, fs, at):
        for a, s, enc, (T, cpp) in at:
            obj = a in ('probability', 'belief') or f.kind in ('struct', 'uuid')
            g = f'v_{s}'
            d = f'{T}{{}}' if obj else f'static_cast<{T}>(0)'
            self.decls.append(f'static const std::vector<{T}>& {g}() {{ static const std::vector<{T}> v{{' + ', '.join([d] + cpp) + '}; return v; }')
            n = f'{f.name}_attributes()'
            for i in range(1, len(enc)):
                if req:
                    self.op(f'{n}.{a}(v{i})', f'p.{n}.{a}({g}()[{i}]);', (s, i))
                else:
                    self.op(f'{n}->{a}(v{i})', f'if (p.{f.name}()) {{ auto& a = p.{n}; if (!a) a.emplace(); a->{a}({g}()[{i}]); }}', (s, i, 1))
            if obj:
                i = len(enc) - 1
                if req:
                    self.op(f'{n}.{a}()=v{i}', f'p.{n}.{a}() = {g}()[{i}];', (s, i))
                else:
                    self.op(f'{n}->{a}()=v{i}', f'if (p.{f.name}()) {{ auto& a = p.{n}; if (!a) a.emplace(); a->{a}() = {g}()[{i}]; }}', (s, i, 1))
            cmp = 'obj_eq' if obj else 'val_eq'
            look = f'pkt::{cmp}("{f.name}.{a}", a->{a}(), {g}(), m[{s}], b);'
            if req:
                self.words.append(f'{{ auto* a = &p.{n}; {look} }}')
            else:
                self.words.append(f'if (m[{s}] >= 0) {{ auto& a = p.{n}; if (!a) b.push_back("{f.name}_attributes"); else {look} }}')

    def default_enc(self, f):
        if isinstance(f, (spec.VarField, spec.UserField)):
            return f.default
        if f.kind == 'struct':
            return spec.STRUCTS[f.ctype].encode()
        return bytes(f.size)

    def field_ops(self, f, req, s, acc=None, reset=None, attrs=()):
        new = [(t, 0, 2) for t in attrs]      # attributes appear with the field
        gone = [(t, -1) for t in attrs]
        acc = acc or f.name
        reset = reset or f'reset_{f.name}'
        n = len(f.v)
        k0 = 1 if req else 0
        g = f'v_{s}'
        T = f.type()
        dflt = {'struct': f'{T}{{}}', 'uuid': 'vrtgen::UUID{}'}.get(f.kind, f'static_cast<{T}>(0)')
        items = ([dflt] if req else []) + [f.cpp(i) for i in range(n)]
        self.decls = getattr(self, 'decls', [])
        self.decls.append(f'static const std::vector<{T}>& {g}() {{ static const std::vector<{T}> v{{' + ', '.join(items) + '}; return v; }')
        for i in range(n):
            self.op(f'{acc}(v{i})', f'p.{acc}({g}()[{i + k0}]);', (s, i + k0), *new)
        obj = f.kind in ('struct', 'uuid')
        if not req:
            self.op(f'{reset}()', f'p.{reset}();', (s, -1), *gone)
        if obj:
            if req:
                self.op(f'{acc}()=v{n-1}', f'p.{acc}() = {g}()[{n - 1 + k0}];', (s, n - 1 + k0))
            else:
                self.op(f'{acc}()=v{n-1}', f'p.{acc}() = {g}()[{n - 1}];', (s, n - 1), *new)
                self.op(f'*{acc}()=v0', f'if (p.{acc}()) *p.{acc}() = {g}()[0];', (s, 0, True))
                self.op(f'{acc}().reset()', f'p.{acc}().reset();' + (f' p.{acc}_attributes().reset();' if attrs else ''), (s, -1), *gone)
            self.looks.append(f'pkt::obj_eq("{acc}", p.{acc}(), {g}(), m[{s}], b);')
        else:
            self.looks.append(f'pkt::val_eq("{acc}", p.{acc}(), {g}(), m[{s}], b);')

    def build(self):
        base = self.ptype[self.kind] << 28
        bs = []
        if self.kind in ('context', 'ext_context'):
            if self.attrs or any(f.cif in (1, 2, 7) for f, _ in self.fields):
                base |= 1 << 25
            if self.tsm == 'coarse':
                base |= 1 << 24
            if self.tsm == 'any':
                s = self.slot('tsm', 2, 0)
                bs.append((s, 24, 1, [0, 1]))
                self.op('tsm(coarse)', 'p.tsm(vrtgen::packing::TSM::COARSE);', (s, 1))
                self.op('tsm(fine)', 'p.tsm(vrtgen::packing::TSM::FINE);', (s, 0))
                self.look('tsm', f'static_cast<int>(p.tsm()) != m[{s}]')
            self.head(base, bs)
            self.cif_section()
        elif self.kind == 'data':
            base |= (1 << 28) if self.stream is not None else 0
            base |= (1 << 26) if self.trailer is not None else 0
            base |= (1 << 24) if self.sot == 'spectrum' else 0
            base |= (1 << 25) if self.sot == 'spectrum' or (self.trailer or {}).get('sample_frame') else 0
            self.head(base, bs)
            self.payload_section()
            if self.trailer is not None:
                self.trailer_section()
        elif self.is_command:
            if self.is_ack:
                base |= 1 << 26
            self.head(base, bs)
            self.command_section()
            if self.kind.endswith('ack_vx'):
                self.weif_section()
            elif 'ext_' in self.kind and not self.fields:
                pass    # extension commands have indicator words only when described
            elif self.cam.get('action_mode') in ('execute', 'dry-run') or self.is_ack:
                self.cif_section()
            else:
                self.query_section()
        self.finish_ops()

    CAM = {'req_v': 20, 'req_x': 19, 'req_s': 18, 'req_w': 17, 'req_er': 16, 'permit_partial': 27, 'permit_warnings': 26, 'permit_errors': 25}

    def command_section(self):
        base, bs, grp = 0, [], []
        for who, e, f in ((self.controllee, 31, 30), (self.controller, 29, 28)):
            if who:
                base |= 1 << e
                base |= (1 << f) if who == 'uuid' else 0
        mode = {'none': 0, 'dry-run': 1, 'execute': 2}[self.cam.get('action_mode', 'none')]
        base |= mode << 23
        def enum(nm, T, pos, bits, vals):
            s = self.slot(nm, len(vals), 0)
            bs.append((s, pos, bits, vals))
            for i, v in enumerate(vals):
                self.op(f'{nm}({v})', f'p.{nm}(static_cast<{T}>({v}));', (s, i))
            self.look(nm, f'static_cast<int>(p.{nm}()) != std::vector<int>{{{",".join(map(str, vals))}}}[m[{s}]]')
            self.look('cam.' + nm, f'static_cast<int>(p.cam().{nm}()) != std::vector<int>{{{",".join(map(str, vals))}}}[m[{s}]]')
            return s
        enum('timing_control', 'vrtgen::packing::TimestampControlMode', 12, 3, [0, 4, 7, 1, 2, 3])
        for k, v in self.cam.items():
            if k not in self.CAM:
                continue
            pos = self.CAM[k]
            if k.startswith('req_'):
                if self.is_ack:
                    continue
                if v == 'optional' and k in ('req_v', 'req_x', 'req_s'):
                    enum(k, 'bool', pos, 1, [0, 1])
                    continue
            if v in (True, 'required'):
                base |= 1 << pos
        if self.is_ack:
            enum('partial_action', 'bool', 11, 1, [0, 1])
            enum('scheduled_or_executed', 'bool', 10, 1, [0, 1])
            if self.kind.endswith('ack_s'):
                base |= 1 << 18
            else:
                sl = []
                for k, pos in (('v', 20), ('x', 19)):
                    if self.cam.get('req_' + k):
                        sl.append(enum('ack_' + k, 'bool', pos, 1, [0, 1]))
                self.unmatched = ' && '.join(f'm[{x}] == 0' for x in sl)
                grp = [(0, 17), (1, 16)]
        self.look('action_mode', f'static_cast<int>(p.action_mode()) != {mode}')
        self.word(base, bs, grp)
        s = self.slot('message_id', 3, 0)
        vals = [0, 0x0A0B0C0D, 0xFFFFFFFE]
        self.val(s, [v.to_bytes(4, 'big') for v in vals])
        for i in (1, 2):
            self.op(f'message_id({vals[i]:#x})', f'p.message_id({vals[i]:#x}u);', (s, i))
        self.look('message_id', f'p.message_id() != std::vector<uint32_t>{{{vals[0]}u,{vals[1]}u,{vals[2]}u}}[m[{s}]]')
        for nm, fmt, u1, u2 in (('controllee_id', self.controllee, '00112233-4455-6677-8899-aabbccddeeff', 'f0e1d2c3-b4a5-9687-7869-5a4b3c2d1e0f'),
                                ('controller_id', self.controller, '13579bdf-0246-8ace-1122-334455667788', '8badf00d-dead-beef-cafe-0123456789ab')):
            if fmt == 'word':
                s = self.slot(nm, 3, 0)
                vals = [0, int(u1[:8], 16) or 0x112233, int(u2[:8], 16)]
                self.val(s, [v.to_bytes(4, 'big') for v in vals])
                for i in (1, 2):
                    self.op(f'{nm}({vals[i]:#x})', f'p.{nm}({vals[i]:#x}u);', (s, i))
                self.look(nm, f'p.{nm}() != std::vector<uint32_t>{{{vals[0]}u,{vals[1]}u,{vals[2]}u}}[m[{s}]]')
            elif fmt == 'uuid':
                s = self.slot(nm, 3, 0)
                self.val(s, [bytes(16), bytes.fromhex(u1.replace('-', '')), bytes.fromhex(u2.replace('-', ''))])
                g = f'u_{nm}'
                self.decls = getattr(self, 'decls', [])
                self.decls.append(f'static const std::vector<vrtgen::UUID>& {g}() {{ static const std::vector<vrtgen::UUID> v{{vrtgen::UUID{{}}, vrtgen::UUID{{"{u1}"}}, vrtgen::UUID{{"{u2}"}}}}; return v; }}')
                self.op(f'{nm}(u1)', f'p.{nm}({g}()[1]);', (s, 1))
                self.op(f'{nm}(u2)', f'p.{nm}({g}()[2]);', (s, 2))
                self.op(f'{nm}() = u2', f'p.{nm}() = {g}()[2];', (s, 2))
                self.looks.append(f'pkt::obj_eq("{nm}", p.{nm}(), {g}(), m[{s}], b);')

    def query_section(self):
        """a control packet without action announces the fields it asks about and carries no values"""
        ind = {0: [], 1: [], 2: []}
        for f, mode in self.fields:
            s = self.slot(f.name, 1, 0 if mode == 'required' else -1)
            ind[f.cif].append((s, f.bit))
            if mode != 'required':
                self.op(f'{f.name}_enabled(true)', f'p.{f.name}_enabled(true);', (s, 0))
                self.op(f'{f.name}_enabled(false)', f'p.{f.name}_enabled(false);', (s, -1))
                self.op(f'reset_{f.name}()', f'p.reset_{f.name}();', (s, -1))
            self.look(f.name, f'p.{f.name}_enabled() != (m[{s}] >= 0)')
        for c in (0, 1, 2):
            if c == 0 or ind[c]:
                self.ifword(0, c, c == 0, ind[c])
                self.words.append(f'pkt::words_eq("cif_{c}", p.cif_{c}(), A, m, 0, {c}, b);')
                if c and all(m == 'optional' for f, m in self.fields if f.cif == c):
                    self.op(f'reset_cif_{c}()', f'p.reset_cif_{c}();', *[(x, -1) for x, _ in ind[c]])

    def weif_section(self):
        vals = []
        for g, (tag, on) in enumerate((('warnings', self.cam.get('req_w') in (True, 'required')), ('errors', self.cam.get('req_er') in (True, 'required')))):
            if not on:
                continue
            ind = {0: [], 1: [], 2: []}
            for f, mode in self.fields:
                w = WeifField(f, g)
                s = self.slot(f'{f.name}_{tag}', len(w.v), -1)
                ind[f.cif].append((s, f.bit))
                vals.append((w, s, f'{f.name}_{tag}'))
            w = 'we'[g] + 'if'
            for c in (0, 1, 2):
                if c == 0 or ind[c]:
                    self.ifword(g, c, False, ind[c])
                    self.words.append(f'pkt::words_eq("{w}_{c}", p.{w}_{c}(), A, m, {g}, {c}, b);')
                    kill = ind[0] + ind[1] + ind[2] if c == 0 else ind[c]
                    self.op(f'reset_{w}_{c}()', f'p.reset_{w}_{c}();', *[(x, -1) for x, _ in kill])
        for w, s, nm in vals:
            self.val(s, [w.enc(i) for i in range(len(w.v))])
            self.field_ops(w, False, s, acc=nm, reset='reset_' + nm)

    @staticmethod
    def payload_bytes(k, n):
        return bytes(((k * 37 + i * 11 + (i >> 8)) % 255) + 1 for i in range(n))

    def payload_section(self):
        sizes = [0] + list(self.payloads)
        s = self.slot('payload', len(sizes), 0)
        self.val(s, [self.payload_bytes(k, n) + bytes(-n % 4) for k, n in enumerate(sizes)])
        self.decls = getattr(self, 'decls', [])
        self.decls.append('static const std::vector<bytes>& pay() { static const std::vector<bytes> v = [] { std::vector<bytes> r; int k = 0; for (size_t n : {' +
                          ','.join(f'{n}ul' for n in sizes) + '}) { bytes b; for (size_t i = 0; i < n; ++i) b.push_back((k * 37 + i * 11 + (i >> 8)) % 255 + 1); r.push_back(b); ++k; } return r; }(); return v; }')
        for k, n in enumerate(sizes):
            self.op(f'payload({n} bytes)', f'p.payload(std::span<const uint8_t>(pay()[{k}].data(), pay()[{k}].size()));', (s, k))
        self.looks.append(f'{{ bytes w = pay()[m[{s}]]; w.resize((w.size() + 3) / 4 * 4); if (to_bytes(p.payload()) != w) b.push_back("payload"); if (p.payload_size() != w.size()) b.push_back("payload_size"); }}')

    def trailer_section(self):
        bs = []
        def flag(name, pos, reset):
            s = self.slot('trailer.' + name, 3, 0)
            bs.append((s, pos, 1, [0, 0, 1]))
            bs.append((s, pos + 12, 1, [0, 1, 1]))
            self.op(f'trailer().{name}(true)', f'p.trailer().{name}(true);', (s, 2))
            self.op(f'trailer().{name}(false)', f'p.trailer().{name}(false);', (s, 1))
            if reset:
                self.op(f'trailer().reset_{name}()', f'p.trailer().reset_{name}();', (s, 0))
            self.looks.append(f'{{ auto g = p.trailer().{name}(); if (g.has_value() != (m[{s}] > 0) || (g && *g != (m[{s}] == 2))) b.push_back("trailer.{name}"); }}')
        for i, name in enumerate(('sample_loss', 'over_range', 'spectral_inversion', 'detected_signal', 'agc_mgc', 'reference_lock', 'valid_data', 'calibrated_time')):
            flag(name, 12 + i, True)
        pos = 8
        for n, k in self.trailer.get('user', ()):
            if k == 'flag':
                flag(n, pos, True)
                pos += 1
            else:
                nb = max(1, (k - 1).bit_length())
                s = self.slot('trailer.' + n, k + 1, 0)
                T = f'{self.ns}::packets::{snake(self.name)}::enums::{n}'
                bs.append((s, pos, nb, [0] + list(range(k))))
                bs.append((s, pos + 12, nb, [0] + [(1 << nb) - 1] * k))
                for i in range(k):
                    self.op(f'trailer().{n}({i})', f'p.trailer().{n}({T}::{n}_{i});', (s, i + 1))
                self.op(f'trailer().reset_{n}()', f'p.trailer().reset_{n}();', (s, 0))
                self.looks.append(f'{{ auto g = p.trailer().{n}(); if (g.has_value() != (m[{s}] > 0) || (g && static_cast<int>(*g) != m[{s}] - 1)) b.push_back("trailer.{n}"); }}')
                pos += nb
        if self.trailer.get('sample_frame'):
            s = self.slot('trailer.sample_frame', 5, 0)
            bs.append((s, 10, 2, [0, 0, 1, 2, 3]))
            bs.append((s, 22, 2, [0, 3, 3, 3, 3]))
            for i in range(4):
                self.op(f'trailer().sample_frame({i})', f'p.trailer().sample_frame(static_cast<vrtgen::packing::SSI>({i}));', (s, i + 1))
            self.looks.append(f'{{ auto g = p.trailer().sample_frame(); if (g.has_value() != (m[{s}] > 0) || (g && static_cast<int>(*g) != m[{s}] - 1)) b.push_back("trailer.sample_frame"); }}')
        s = self.slot('trailer.associated_context_packets_count', 4, 0)
        bs.append((s, 0, 7, [0, 0, 77, 127]))
        bs.append((s, 7, 1, [0, 1, 1, 1]))
        for i, v in ((1, 0), (2, 77), (3, 127)):
            self.op(f'trailer().associated_context_packets_count({v})', f'p.trailer().associated_context_packets_count({v});', (s, i))
        self.looks.append(f'{{ static const int w[] = {{0, 0, 77, 127}}; auto g = p.trailer().associated_context_packets_count(); if (g.has_value() != (m[{s}] > 0) || (g && *g != w[m[{s}]])) b.push_back("trailer.associated_context_packets_count"); }}')
        self.op('trailer() = {}', 'p.trailer() = std::remove_reference_t<decltype(p.trailer())>{};', *[(i, 0) for i, x in enumerate(self.slots) if x[0].startswith('trailer.')])
        self.word(0, bs)

    def finish_ops(self):
        self.op('serialize', 'p.data();')
        self.ops.append(('reparse', None, []))

    # ----------------------------------------------------------------- what the matcher must go by
    def rules(self):
        must, free, any_ = [], [], []
        m = lambda off, mask, val, what: must.append((off, mask, val, what))
        f = lambda off, mask: free.append((off, mask, 0, ''))
        cmd, data, ctx = self.is_command, self.kind == 'data', 'context' in self.kind
        t = self.ptype[self.kind]
        if data and self.stream is not None:
            t = 1
        m(0, 0xF0000000, t << 28, 'packet type')
        m(0, 1 << 27, self.class_bit(), 'class identifier presence')
        f(0, 0x000F0000)
        if ctx:
            if self.tsm == 'any':
                f(0, 1 << 24)
            else:
                m(0, 1 << 24, (1 << 24) if self.tsm == 'coarse' else 0, 'timestamp mode')
        if data:
            m(0, 1 << 26, (1 << 26) if self.trailer is not None else 0, 'trailer')
            m(0, 1 << 24, (1 << 24) if self.sot == 'spectrum' else 0, 'spectrum or time')
        if cmd:
            m(0, 1 << 26, (1 << 26) if self.is_ack else 0, 'acknowledge')
            m(0, 1 << 24, 0, 'cancellation')
        for k, E, sh, what in ((self.tsi, TSI, 22, 'integer timestamp kind'), (self.tsf, TSF, 20, 'fractional timestamp kind')):
            if k == 'any':
                f(0, 3 << sh)
            else:
                m(0, 3 << sh, E[k or 'none'] << sh, what)
        off = 4
        if not data or self.stream is not None:
            if self.stream in (None, '') or isinstance(self.stream, tuple) and not any(v for n, b, v in self.stream):
                f(off, 0xFFFFFFFF)
            off += 4
        if self.class_id is not None:
            f(off, 0xF8000000)
            if self.codes:
                f(off + 4, 0xFFFF0000)
            for o, mask, sh, v, what in ((off, 0xFFFFFF, 0, self.class_id[0], 'OUI'), (off + 4, 0xFFFF0000, 16, None if self.codes else self.class_id[1], 'information class'), (off + 4, 0xFFFF, 0, self.class_id[2], 'packet class')):
                if v is not None:
                    m(o, mask, v << sh, what)
            off += 8
        for k, n in ((self.tsi, 1), (self.tsf, 2)):
            if k:
                for _ in range(n):
                    f(off, 0xFFFFFFFF)
                    off += 4
        cif, req = -1, [0, 0, 0]
        if cmd:
            c = self.cam
            for who, e, b, what in ((self.controllee, 31, 30, 'controllee'), (self.controller, 29, 28, 'controller')):
                m(off, 1 << e, (1 << e) if who else 0, what + ' identifier presence')
                if who:
                    m(off, 1 << b, (1 << b) if who == 'uuid' else 0, what + ' identifier format')
            m(off, 3 << 23, {'none': 0, 'dry-run': 1, 'execute': 2}[c.get('action_mode', 'none')] << 23, 'action mode')
            for k, pos in self.CAM.items():
                v = c.get(k)
                if k.startswith('req_') and self.is_ack:
                    continue
                if v in (True, 'required'):
                    m(off, 1 << pos, 1 << pos, k)
                elif v == 'optional' and k in ('req_v', 'req_x', 'req_s'):
                    f(off, 1 << pos)
            f(off, 7 << 12)
            if self.is_ack:
                f(off, 3 << 10)
                if self.kind.endswith('ack_s'):
                    m(off, 1 << 18, 1 << 18, 'state acknowledge')
                else:
                    any_.append((off, 3 << 19, 0, 'validation or execution acknowledge'))
            off += 4
            f(off, 0xFFFFFFFF)
            off += 4
            for who in (self.controllee, self.controller):
                if who:
                    for _ in range(4 if who == 'uuid' else 1):
                        f(off, 0xFFFFFFFF)
                        off += 4
        if not data and not self.kind.endswith('ack_vx') and not ('ext_' in self.kind and cmd and not self.fields):
            cif = off
            for x, mode in self.fields:
                if mode == 'required':
                    req[x.cif] |= 1 << x.bit
            off += 4
            if not (cmd and not self.is_ack and self.cam.get('action_mode') not in ('execute', 'dry-run')):
                f(cif, 1 << 31)
        L = lambda l: ','.join(f'{{{o},{k:#x}u,{v:#x}u,"{w}"}}' for o, k, v, w in l)
        return (f'namespace wire {{ template <> struct RulesOf<{self.cls}> {{ static Rules rules() {{ Rules r; r.must = {{{L(must)}}}; r.free = {{{L(free)}}}; '
                f'r.any = {{{L(any_)}}}; r.cif = {cif}; ' + ' '.join(f'r.required[{i}] = {x:#x}u;' for i, x in enumerate(req)) +
                ' '.join(f' r.has[{i}] = true;' for i in {x.cif for x, _ in self.fields} if i < 3) + ' return r; } }; }')

    # ----------------------------------------------------------------- emission
    def cpp(self, fixup=''):
        o = ['namespace pkt {', f'template <> struct Adapter<{self.cls}> {{', f'  using P = {self.cls};']
        o += ['  ' + d for d in getattr(self, 'decls', [])]
        o.append('  static const Desc& desc() { static const Desc d = make(); return d; }')
        o.append('  static Desc make() { Desc d; d.name = "%s";' % self.name)
        for s in self.slots:
            o.append('    d.slots.push_back({"%s",%d,%d,%d});' % s)
        for p in self.parts:
            o.append(f'    d.parts.push_back(Part{p});')
        for n, c, e in self.ops:
            ef = ','.join('{%d,%d,%d}' % x for x in e)
            o.append('    d.ops.push_back({"%s",{%s},%s});' % (n.replace('"', '\\"'), ef, 'true' if c is None else 'false'))
        if getattr(self, 'unmatched', None):
            o.append(f'    d.unmatched = [](const Model& m) {{ return {self.unmatched}; }};')
        o.append(fixup + '    return d; }')
        o.append('  static void apply(P& p, int op) { switch (op) {')
        for i, (n, c, e) in enumerate(self.ops):
            if c is not None:
                o.append(f'    case {i}: {{ {c} break; }}')
        o.append('    } }')
        o.append('  static void look(P& p, const Model& m, Bad& b) {')
        o += ['    ' + l for l in self.looks]
        o.append('  }')
        o.append('  static void look_words(P& p, const Model& m, const bytes& w, Bad& b) { const Desc& A = desc(); (void)A;')
        o.append('    if (packed_bytes(p.header()) != bytes(w.begin(), w.begin() + 4)) b.push_back("header");')
        o += ['    ' + l for l in self.words]
        o.append('  }\n};\n}')
        return '\n'.join(o)


def describe(c, pk, name='desc'):
    """generate the code of all packets; those shared by several information classes are described in a file of their own"""
    rc, log, out = c.generate(''.join(p.yaml() for p in pk if not p.codes), name)
    groups = {}
    for p in pk:
        if p.codes and not p.is_ack:
            groups.setdefault(p.codes, []).append(p)
    for i, (codes, ps) in enumerate(sorted(groups.items())):
        names = [n for p in ps for n in [p.name] + ([p.ack] if p.ack else [])]
        y = ''.join(p.yaml() for p in ps)
        for k, v in enumerate(codes):
            y += f'Class{chr(65 + k)}: !InformationClass\n  code: {v:#x}\n  packet_classes:\n' + ''.join(f'    - {n}\n' for n in names)
        if rc == 0:
            rc, log, _ = c.generate(y, f'shared{i}', out=out)
    return rc, log, out


def program(pkts, outdir, entry='pkt::main_', rules=False):
    """a program exploring the given packets: argv = depth shard nshards index"""
    s = ['#include "pkt.hpp"', '#include "pkt_util.hpp"', '#include "wire.hpp"']
    s += sorted({f'#include "{outdir}/{p.file}.hpp"' for p in pkts})
    for p in pkts:
        s.append(p.cpp(getattr(p, 'fixup', '')))
        if rules:
            s.append(p.rules())
    s.append('int main(int argc, char** argv) { int k = argc > 4 ? std::atoi(argv[4]) : 0; switch (k) {')
    for i, p in enumerate(pkts):
        s.append(f'  case {i}: return {entry}<{p.cls}>(argc, argv);')
    s.append('  } return 2; }')
    return '\n'.join(s) + '\n'


def context(name, fields):
    """YAML of a context packet with the given fields and nothing else"""
    return Pkt(name, 'context', fields=fields, stream='').yaml()
