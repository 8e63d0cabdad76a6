"""Descriptions of information classes with controls, data and context packets, and the C++ that drives what is generated
from them: the same interface for every description (harness/dev.hpp), so that one harness explores all of them."""

FIELDS = ['bandwidth', 'sample_rate', 'if_ref_frequency', 'rf_ref_frequency']


class Ctl:
    """a control packet; v, x, s: '' (not described), 'optional' or 'true'; ids: '', 'word' or 'uuid'"""

    def __init__(self, name, v='', x='', s='', ce='', cr='', we=True, ack=None, mode='execute'):
        self.name, self.req, self.ce, self.cr, self.we, self.mode = name, dict(v=v, x=x, s=s), ce, cr, we and (v or x), mode
        self.ack = ack or name + 'Ack'


class Dev:
    def __init__(self, name, transport, ctls, class_id=False, sid_parts=False, dctx=True, timestamp=False):
        self.name, self.transport, self.ctls, self.class_id, self.sid_parts, self.dctx, self.timestamp = name, transport, ctls, class_id, sid_parts, dctx, timestamp

    def yaml(self):
        s = ''
        cid = '  class_id: !ClassID\n    oui: 12-34-56\n    information_code: 0x7\n    packet_code: 0x9\n' if self.class_id else ''
        ts = '  timestamp: !Timestamp\n    integer: utc\n    fractional: picoseconds\n' if self.timestamp else ''
        for i, c in enumerate(self.ctls):
            s += f'{c.name}: !Control\n'
            if self.sid_parts:
                s += '  stream_id: !StreamID\n    upper: !IntegerType\n      bits: 12\n    lower: !IntegerType\n      bits: 20\n'
            s += cid + ts
            s += f'  cam: !ControlAcknowledgeMode\n    action_mode: {c.mode}\n'
            for k, v in c.req.items():
                if v:
                    s += f'    req_{k}: {v}\n'
            if c.we:
                s += '    req_w: true\n    req_er: true\n'
            if c.ce:
                s += f'  controllee_id: {c.ce}\n'
            if c.cr:
                s += f'  controller_id: {c.cr}\n'
            s += f'  cif_0: !CIF0\n    {FIELDS[i]}: required\n    reference_point_id: optional\n' + ('    gps_ascii: optional\n' if self.name == 'all' else '')
            if any(c.req.values()):
                s += f'{c.ack}: !Ack\n  responds_to: {c.name}\n'
        if self.dctx:
            s += ('Sig: !Data\n  stream_id: !StreamID\n' if self.transport != 'udp' else 'Sig: !Data\n') + '  trailer: !Trailer\n    sample_frame: required\n'
            s += 'CtxOne: !Context\n  cif_0: !CIF0\n    bandwidth: required\n    gain: optional\n'
            s += 'CtxTwo: !Context\n  cif_0: !CIF0\n    sample_rate: required\n    gain: optional\n'
        names = [n for c in self.ctls for n in ([c.name, c.ack] if any(c.req.values()) else [c.name])] + (['Sig', 'CtxOne', 'CtxTwo'] if self.dctx else [])
        s += 'Info: !InformationClass\n  packet_classes:\n' + ''.join(f'      - {n}\n' for n in names)
        return s

    def foreign(self):
        """packets of other kinds, for the same generator run of their own"""
        return 'Other: !Context\n  cif_0: !CIF0\n    temperature: required\nOtherCtl: !Control\n  cam: !ControlAcknowledgeMode\n    action_mode: execute\n    req_v: optional\n    req_x: optional\n    req_s: optional\n  cif_0: !CIF0\n    temperature: required\nOtherCtlAck: !Ack\n  responds_to: OtherCtl\n'

    def glue(self):
        """C++ after the generated headers have been included"""
        o = ['namespace g {', 'using namespace t::packets;', f'constexpr int NC = {len(self.ctls)};',
             f'constexpr bool LARGE = {str(self.name == "all").lower()};', f'constexpr bool DCTX = {str(self.dctx).lower()};', f'constexpr char TRANSPORT = \'{self.transport[0]}\';']
        k = {'': 0, 'optional': 1, 'true': 2}
        w = {'': 0, 'word': 1, 'uuid': 4}
        cid = 8 if self.class_id else 0
        ts = 12 if self.timestamp else 0
        o.append('const Spec SPEC[] = {' + ', '.join(
            '{ "%s", %d, %d, %d, %d, %d, %d }' % (c.name, k[c.req['v']], k[c.req['x']], k[c.req['s']], w[c.ce], w[c.cr], 8 + cid) for c in self.ctls) + '};')

        def idval(fmt, base):
            return f'{base} + id' if fmt == 'word' else f'uuid({base} + id)'

        def ids(c, p, controller=True):
            s = f'    {p}.message_id(id);\n'
            s += f'    {p}.stream_id().upper(id & 0xfff); {p}.stream_id().lower(0x30 + id);\n' if self.sid_parts else f'    {p}.stream_id(0x30 + id);\n'
            if c.ce:
                s += f'    {p}.controllee_id({idval(c.ce, "0x1000u")});\n'
            if c.cr and controller:
                s += f'    {p}.controller_id({idval(c.cr, "0x2000u")});\n'
            return s
        for i, c in enumerate(self.ctls):
            reqs = ''.join(f'    p.req_{q}(r.{q});\n' for q, v in c.req.items() if v == 'optional')
            has_vx = c.req['v'] or c.req['x']
            f = FIELDS[i]
            text = '    text(p);\n' if self.name == 'all' else ''
            n = c.name
            o.append(f'inline void fill({n}& p, Req r, uint32_t id)\n{{\n    (void)r;\n{reqs}{ids(c, "p")}    p.{f}(1e6 + id);\n    if (id & 1) p.reference_point_id(id); else p.reset_reference_point_id();\n{text}}}')
            if has_vx:
                o.append(f'inline void mark({c.ack}VX& a, char kind, uint32_t id)\n{{\n    (void)a; (void)kind; (void)id;\n'
                         + (f'    vrtgen::packing::WarningErrorFields e{{}};\n    if (kind == \'v\') {{ e.device_failure(true); a.{f}_warnings(e); }}\n    else {{ e.parameter_out_of_range(true); a.{f}_errors(e); if (id & 2) a.reference_point_id_warnings(e); }}\n' if c.we else '') + '}')
            if c.req['s']:
                o.append(f'inline void mark({c.ack}S& a, char, uint32_t id) {{ a.{f}(2e6 + id); a.reference_point_id(7 + id); {text.replace("(p)", "(a)").strip()} }}')
        for what, sig in (('command', 'Req r, uint32_t id'), ('ack', 'char kind, uint32_t id'), ('stub', 'char kind, uint32_t id')):
            o.append(f'inline std::string {what}(int c, {sig})\n{{\n    switch (c) {{')
            for i, c in enumerate(self.ctls):
                if what == 'command':
                    o.append(f'    case {i}: {{ {c.name} p; fill(p, r, id); return str(p.data()); }}')
                    continue
                s = f'    case {i}: {{\n'
                mark = (lambda k: f'mark(a, {k}, id);') if what == 'ack' else (lambda k: '')
                if c.req['s']:
                    s += f'    if (kind == \'s\') {{ {c.ack}S a; {mark("kind")}\n{ids(c, "a")} return str(a.data()); }}\n'
                if c.req['v']:
                    s += f'    if (kind == \'v\') {{ {c.ack}VX a; {mark("kind")} a.ack_v(true);\n{ids(c, "a")} return str(a.data()); }}\n'
                if c.req['x']:
                    s += f'    if (kind == \'x\') {{ {c.ack}VX a; {mark("kind")} a.ack_x(true);\n{ids(c, "a")} return str(a.data()); }}\n'
                o.append(s + '    break; }')
            o.append('    }\n    (void)0; return "";\n}')
        # controllee
        o.append('#ifdef DEV_CONTROLLEE\nusing Stub = t::controllee::Controllee;\nstruct Handlers : Stub {\n    using Stub::Stub;\n    ~Handlers() override { idle(); }')
        for i, c in enumerate(self.ctls):
            n, low = c.name, snake(c.name)
            if c.req['v']:
                o.append(f'    auto validate_{low}({n}& p) -> {c.ack}VX override\n    {{\n        handled(\'v\', {i}, p.message_id(), str(p.data()));\n        {c.ack}VX a; mark(a, \'v\', p.message_id()); return a;\n    }}')
            if c.req['x'] and c.req['s']:
                o.append(f'    auto execute_{low}({n}& p) -> std::tuple<{c.ack}VX, {c.ack}S> override\n    {{\n        handled(\'x\', {i}, p.message_id(), str(p.data()));\n        {c.ack}VX a; mark(a, \'x\', p.message_id()); {c.ack}S b; mark(b, \'s\', p.message_id()); return {{ a, b }};\n    }}')
            elif c.req['x']:
                o.append(f'    auto execute_{low}({n}& p) -> {c.ack}VX override\n    {{\n        handled(\'x\', {i}, p.message_id(), str(p.data()));\n        {c.ack}VX a; mark(a, \'x\', p.message_id()); return a;\n    }}')
            elif c.req['s']:
                o.append(f'    auto execute_{low}({n}& p) -> {c.ack}S override\n    {{\n        handled(\'x\', {i}, p.message_id(), str(p.data()));\n        {c.ack}S b; mark(b, \'s\', p.message_id()); return b;\n    }}')
        o.append('};\n#endif')
        # controller
        o.append('#ifdef DEV_CONTROLLER\nusing Ctrl = t::Controller;')
        if any(c.cr for c in self.ctls):
            fmt = [c.cr for c in self.ctls if c.cr][0]
            o.append(f'constexpr int CRFMT = {w[fmt]};\ninline void set_controller_id(Ctrl& c, uint32_t id) {{ c.controller_id({idval(fmt, "0x2000u")}); }}')
        else:
            o.append('constexpr int CRFMT = 0;\ninline void set_controller_id(Ctrl&, uint32_t) {}')
        # send command c: the message and controller identifiers are the controller's to set
        o.append('inline void send(Ctrl& ctl, int c, Req r, uint32_t id, Acks& out)\n{\n    switch (c) {')
        for i, c in enumerate(self.ctls):
            acks = [q for q in 'vxs' if c.req[q]]
            s = f'    case {i}: {{ static thread_local {c.name}* keep = nullptr; (void)keep; {c.name} p; fill(p, r, id); p.message_id(0xdead);'
            call = f'ctl.send_{snake(c.name)}(p)'
            if acks:
                s += f' auto acks = {call};'
                for j, q in enumerate(acks):
                    s += f' out.put(\'{q}\', std::get<{j}>(acks));'
            else:
                s += f' {call};'
            o.append(s + ' out.packet = str(p.data()); break; }')
        o.append('    }\n}')
        if self.dctx:
            o.append('constexpr int NT = 3;\ninline const char* TYPE[] = { "Sig", "CtxOne", "CtxTwo" };\ninline std::string dctx(int t, int k)\n{\n    switch (t) {\n'
                     '    case 0: { Sig p; std::vector<uint8_t> d(static_cast<std::size_t>(k) * 4); for (std::size_t i = 0; i < d.size(); i++) d[i] = static_cast<uint8_t>(0xa0 + i + static_cast<std::size_t>(k)); p.payload(d); return str(p.data()); }\n'
                     '    case 1: { CtxOne p; p.bandwidth(1e6 + k); if (k & 1) p.gain(vrtgen::packing::Gain{}); return str(p.data()); }\n'
                     '    default: { CtxTwo p; p.sample_rate(1e6 + k); if (k & 1) p.gain(vrtgen::packing::Gain{}); return str(p.data()); }\n    }\n}')
            o.append('inline void listen(Ctrl& c, int t, std::function<void(std::string)> f)\n{\n    switch (t) {')
            for i, n in enumerate(('Sig', 'CtxOne', 'CtxTwo')):
                o.append(f'    case {i}: if (f) c.register_{snake(n)}_listener([f]({n}& p) {{ f(str(p.data())); }}); else c.register_{snake(n)}_listener(std::function<void({n}&)>{{}}); break;')
            o.append('    }\n}')
            o.append('inline void transmit(Ctrl& c, int t, int k)\n{\n    switch (t) {\n'
                     '    case 0: { Sig p; std::vector<uint8_t> d(static_cast<std::size_t>(k) * 4); for (std::size_t i = 0; i < d.size(); i++) d[i] = static_cast<uint8_t>(0xa0 + i + static_cast<std::size_t>(k)); p.payload(d); c.send_sig(p); break; }\n'
                     '    case 1: { CtxOne p; p.bandwidth(1e6 + k); if (k & 1) p.gain(vrtgen::packing::Gain{}); c.send_ctx_one(p); break; }\n'
                     '    default: { CtxTwo p; p.sample_rate(1e6 + k); if (k & 1) p.gain(vrtgen::packing::Gain{}); c.send_ctx_two(p); break; }\n    }\n}')
        else:
            o.append('constexpr int NT = 0;')
        o.append('#endif')
        o.append('}  // namespace g')
        return '\n'.join(o) + '\n'


def snake(n):
    return ''.join('_' + c.lower() if c.isupper() and i else c.lower() for i, c in enumerate(n))


def header(dev, out, foreign_out, listing):
    """one file with everything generated and the glue"""
    import os
    inc = []
    for d in (out, foreign_out):
        for f in sorted(listing(d)):
            if f.endswith('.cpp') and not os.path.basename(f).startswith('main'):
                inc.append(f'#include "{f}"')
    return '\n'.join(inc) + '\n#ifdef DEV_CONTROLLEE\n#include <Controllee.hpp>\n#endif\n#ifdef DEV_CONTROLLER\n#include <Controller.hpp>\n#endif\n#include "dev.hpp"\n' + dev.glue()


CONFIGS = [
    Dev('all', 'udp', [Ctl('Alpha', 'optional', 'optional', 'optional', 'word', 'word'), Ctl('Beta', '', 'true', 'optional', 'uuid', 'word')]),
    Dev('single', 'udp', [Ctl('Gamma', 'true', '', '', '', ''), Ctl('Delta', '', '', 'optional', 'word', '', ack='Response')], class_id=True),
    Dev('parts', 'udp', [Ctl('Zeta', 'optional', '', 'true', 'word', 'uuid')], sid_parts=True, dctx=False),
    Dev('all', 'tcp', [Ctl('Alpha', 'optional', 'optional', 'optional', 'uuid', 'uuid'), Ctl('Beta', 'optional', 'optional', '', '', 'uuid')], timestamp=True),
    Dev('single', 'tcp', [Ctl('Gamma', '', 'optional', '', 'word', 'word', we=False), Ctl('Delta', '', 'true', 'true', '', '')], dctx=False),
    Dev('all', 'nats', [Ctl('Alpha', 'optional', 'optional', 'optional', 'word', 'word'), Ctl('Beta', 'true', 'true', '', 'word', '')]),
    Dev('single', 'nats', [Ctl('Gamma', '', '', 'true', '', 'uuid', mode='dry-run'), Ctl('Delta', '', '', '', 'word', 'uuid')], class_id=True, dctx=False),
]
