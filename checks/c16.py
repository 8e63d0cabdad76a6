"""C16: generated code compiles, is reproducible, and does not depend on what else is generated."""
import itertools, json, os, re, time, subprocess, sys, threading
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import spec
from vt.common import *
import vt.common as common

CAM = '  cam: !ControlAcknowledgeMode\n'


def cam(**kw):
    return CAM + ''.join(f'    {k}: {v}\n' for k, v in kw.items())


FULL = dict(action_mode='execute', req_v='optional', req_x='optional', req_s='optional')


# ---------------------------------------------------------------- generation
SERVERS, LOCK = [], threading.Lock()


def serve(c, cwd, argv, times):
    with LOCK:
        p = SERVERS.pop() if SERVERS else None
    if p is None:
        os.makedirs(c.path('templates'), exist_ok=True)
        e = dict(os.environ, PYTHONPATH=common.REPO + '/src', PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.Popen([common.GENPY, '-W', 'ignore', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness/genserver.py'), c.path('templates')], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=e, text=True)
    p.stdin.write(json.dumps({'cwd': cwd, 'argv': argv, 'times': times}) + '\n')
    p.stdin.flush()
    l = p.stdout.readline()
    if not l:
        raise Broken('the generator process ended')
    with LOCK:
        SERVERS.append(p)
    r = json.loads(l)
    return r['rc'], r['log']


def gen(c, tag, files, args=('--namespace', 't'), env=None, order=None, outdir='out', twice=False):
    """files: {name: yaml}; returns (rc, log, {relative path: text}, output directory)"""
    d = c.path('gen', tag)
    os.makedirs(d, exist_ok=True)
    for n, t in files.items():
        open(os.path.join(d, n), 'w').write(t)
    argv = ['cpp', *args, '--dir', outdir, *(order or list(files))]
    if env:
        e = dict(os.environ, PYTHONPATH=common.REPO + '/src', PYTHONDONTWRITEBYTECODE='1', **env)
        r = run([common.GENPY, '-W', 'ignore', '-m', 'vrtgen.main', *argv], cwd=d, env=e, timeout=200)
        rc, log = r.returncode, (r.stdout + r.stderr).decode(errors='replace')
    else:
        rc, log = serve(c, d, argv, 2 if twice else 1)
    got = {}
    od = os.path.join(d, outdir)
    for base, _, fs in os.walk(od):
        for f in fs:
            p = os.path.join(base, f)
            got[os.path.relpath(p, od)] = open(p, errors='replace').read()
    return rc, log, got, od


def syntax(c, tag, text, *inc):
    src = c.path(tag + '.cpp')
    open(src, 'w').write(text)
    r = run([common.CXX, '-fsyntax-only', '-std=c++20', '-w', '-I' + common.REPO + '/include', *('-I' + i for i in inc), src], timeout=800)
    return r.returncode == 0, r.stderr.decode(errors='replace')


def errors(log, n=6):
    return '\n'.join([x for x in log.splitlines() if 'error' in x][:n])[:1500]


# ---------------------------------------------------------------- A/B: every setting compiles
def settings(th):
    """(label, yaml with NAME for the packet name, has acknowledge)"""
    out = []
    names = {0: [], 1: [], 2: []}
    for cif in (0, 1, 2):
        for n, _ in sorted(spec.IF[cif].items(), key=lambda x: -x[1]):
            names[cif].append(n)
    skip = {'change_indicator', 'cif_1', 'cif_2', 'cif_3', 'cif_7', 'cif1', 'cif2', 'cif3', 'cif7', 'context_field_change', 'context_field_change_indicator', 'cif1_enable', 'cif2_enable', 'cif3_enable', 'cif7_enable'}
    forms = []
    for cif in (0, 1, 2):
        for n in names[cif]:
            if n in skip:
                continue
            if n == 'sector_step_scan':
                forms.append((cif, n, ['!SectorStepScan', '!SectorStepScan\n      subfield_cif: !SectorStepScanCIF\n        f2_stop_frequency: required']))
            elif n == 'index_list':
                forms.append((cif, n, ['!IndexList\n      entry_size: 32']))
            elif n in ('array_of_cifs', 'array_of_cifs_2', 'spatial_reference_type', 'pointing_vector_structure'):
                forms.append((cif, n, None))
            else:
                forms.append((cif, n, ['required', 'optional']))
    forms.append((0, 'reference_level', ['!DIFI1p2ReferenceLevel']))
    forms.append((1, 'buffer_size', ['!DIFI1p2BufferSize\n      mode: required', '!DIFI1p2BufferSize\n      mode: optional']))
    for cif, n, ms in forms:
        for m in ms or ['required', 'optional']:
            body = f'  cif_{cif}: !CIF{cif}\n    {n}: {m}\n'
            l = f'cif{cif}.{n}.{re.sub("[^a-zA-Z0-9]+", "-", m)}'
            loose = ms is None
            out.append((l + '.context', 'NAME: !Context\n' + body, None, loose))
            out.append((l + '.control', 'NAME: !Control\n' + cam(**FULL) + body, 'NAMEAck: !Ack\n  responds_to: NAME\n', loose))
            if th or (m == 'optional' and cif != 2):
                out.append((l + '.query', 'NAME: !Control\n' + cam(action_mode='none', req_s='required') + body, 'NAMEAck: !Ack\n  responds_to: NAME\n', loose))
            if th:
                out.append((l + '.extctx', 'NAME: !ExtensionContext\n' + body, None, loose))
                out.append((l + '.ids', 'NAME: !Control\n' + cam(**FULL) + '  controllee_id: word\n  controller_id: uuid\n' + body, 'NAMEAck: !Ack\n  responds_to: NAME\n', loose))
    for n in ('controllee_id', 'controller_id', 'controllee_uuid', 'controller_uuid'):
        for ids in ('  controllee_id: word\n', '  controller_id: word\n', '  controllee_id: uuid\n', '  controller_id: uuid\n'):
            out.append((f'cif2.{n}+{ids.strip().replace(": ", "-")}', 'NAME: !Control\n' + cam(**FULL) + ids + f'  cif_2: !CIF2\n    {n}: optional\n', 'NAMEAck: !Ack\n  responds_to: NAME\n', False))
    # prologues
    for k in ('Data', 'Context', 'ExtensionContext', 'Control', 'ExtensionControl'):
        ctl = 'ontrol' in k
        for i, (s, ci, tsi, tsf) in enumerate(itertools.product(('', '!StreamID', '!StreamID 0x1234'), ('', '!ClassID\n    oui: FF-EE-DD', '!ClassID\n    oui: FF-EE-DD\n    packet_code: 1\n    information_code: 2'),
                                                      (None, 'utc', 'gps', 'other', 'any'), (None, 'samples', 'picoseconds', 'free-running', 'any'))):
            if not th and i % 5 != 'DCECX'.find(k[0]) % 5 and not (s and ci and tsi == 'utc'):
                continue
            y = f'NAME: !{k}\n' + (f'  stream_id: {s}\n' if s else '') + (f'  class_id: {ci}\n' if ci else '')
            if tsi or tsf:
                y += '  timestamp: !Timestamp\n' + (f'    integer: {tsi}\n' if tsi else '') + (f'    fractional: {tsf}\n' if tsf else '')
            a = None
            if ctl:
                y += cam(**FULL)
                a = f'NAMEAck: !{"Extension" if k[0] == "E" else ""}Ack\n  responds_to: NAME\n'
            out.append((f'prologue.{k}.{i}', y, a, False))
    # mode words and identifiers
    req = (None, 'required', 'optional')
    for i, (v, x, s, am) in enumerate(itertools.product(req, req, req, ('execute', 'dry-run', 'none'))):
        if am == 'none' and (s != 'required' or 'required' in (v, x)):
            continue
        base = {'action_mode': am, **{n: m for n, m in (('req_v', v), ('req_x', x), ('req_s', s)) if m}}
        for j, (ce, cr) in enumerate(itertools.product((None, 'word', 'uuid'), repeat=2)):
            if not th and (i + j) % 9:
                continue
            kw = dict(base)
            k = 'ExtensionControl' if (i + j) % 4 == 3 else 'Control'
            if (i + j) % 2 and am != 'none':
                kw.update(req_w='true', req_er='true', permit_partial='true')
            y = f'NAME: !{k}\n' + cam(**kw) + (f'  controllee_id: {ce}\n' if ce else '') + (f'  controller_id: {cr}\n' if cr else '')
            y += '  cif_0: !CIF0\n    gain: optional\n    bandwidth: optional\n'
            a = f'NAMEAck: !{"Extension" if k[0] == "E" else ""}Ack\n  responds_to: NAME\n' if v or x or s else None
            out.append((f'cam.{k}.v-{v}.x-{x}.s-{s}.{am}.{ce}.{cr}', y, a, False))
    # layouts of the user's own: what both discrete I/O words, the trailer and the stream identifier declare
    lay = {'': [], 'bool': ['Pyes: bool'], 'enum': ['Pkind: !!seq [A, B, C]'], 'two': ['Pkind: !!seq [A, B, C]', 'Pon: bool', 'Puse: !!seq [D, E]'],
           'mix': ['Plevel: 13', 'Pgate: enable_indicator', 'Puse: !!seq [D, E, F, G, H]'], 'shared': ['both: !!seq [U, V]']}
    for i, (a, b) in enumerate(itertools.product(lay, lay)):
        body = '  cif_1: !CIF1\n'
        for n, k, pre in ((32, a, 'n_'), (64, b, 'w_')):
            if k:
                body += f'    discrete_io_{n}: !DiscreteIO{n}\n      mode: {"required" if i % 2 else "optional"}\n' + ''.join('      ' + (x.replace('P', pre, 1) if x[0] == 'P' else x) + '\n' for x in lay[k])
        if a or b:
            out.append((f'layout.{a}.{b}.context', 'NAME: !Context\n' + body, None, False))
            if th or i % 2:
                out.append((f'layout.{a}.{b}.control', 'NAME: !Control\n' + cam(**FULL) + body, 'NAMEAck: !Ack\n  responds_to: NAME\n', False))
            if th:
                out.append((f'layout.{a}.{b}.extctx', 'NAME: !ExtensionContext\n' + body, None, False))
    tr = {'': '', 'enum': '    user_defined_a: !!seq [A, B, C]\n', 'two': '    user_defined_a: !!seq [A, B]\n    user_defined_b: !!seq [C, D, E]\n', 'mix': '    user_defined_b: enable_indicator\n    user_defined_a: !!seq [A, B]\n'}
    for t, s, f in itertools.product(tr, ('', 'a: !IntegerType\n      bits: 9\n    b: !IntegerType\n      bits: 23\n'), ('', '    sample_frame: required\n')):
        if (t or s) and not (t == 'two' and f):
            out.append((f'layout.{t}.{bool(s)}.{bool(f)}.data', 'NAME: !Data\n' + (f'  stream_id: !StreamID\n    {s}' if s else '') + ('  trailer: !Trailer\n' + f + tr[t] if t or f else ''), None, False))
    return out


def part_settings(c):
    items = []
    for i, (l, y, a, loose) in enumerate(settings(c.thorough)):
        n = f'Set{i}'
        y = y.replace('NAME', n) + (a or '').replace('NAME', n)
        uses = [n] if a is None else [n]
        acks = []
        if a:
            if 'req_v' in y or 'req_x' in y:
                acks.append(n + 'AckVX')
            if 'req_s' in y:
                acks.append(n + 'AckS')
        items.append((l, n, y, uses + acks, [f'set{i}'] + ([f'set{i}_ack'] if a else []), loose))
    ng = 16 if not c.thorough else 64
    # a packet whose code does not compile hides the others of its file: those recorded as such go alone
    single = [it for it in items if 'sector_step_scan' in it[0] or it[0].startswith('cif2.') and '+' in it[0]]
    items = [it for it in items if it not in single]
    groups = [items[i::ng] for i in range(ng)] + [[it] for it in single]

    def tu(its, out):
        s = ''.join(f'#include "{out}/{f}.cpp"\n' for it in its for f in it[4])
        s += 'int main() {\n' + ''.join(f'  {{ t::packets::{u} x; (void)x.data(); }}\n' for it in its for u in it[3]) + '}\n'
        return s

    def one(ig):
        i, its = ig
        rc, log, got, out = gen(c, f'set-{i}', {'d.yaml': ''.join(it[2] for it in its)})
        if rc or any(f + '.cpp' not in got for it in its for f in it[4]):
            keep = []
            for it in its:
                rc, log, got, _ = gen(c, f'set1-{it[1]}', {'d.yaml': it[2]})
                if rc == 0 and all(f + '.cpp' in got for f in it[4]):
                    keep.append(it)
                elif rc == 0:
                    c.violation('missing:' + it[0], 'generation succeeds but a packet has no code:\n' + it[2] + log[-300:], it[2])
                elif not it[5]:
                    c.violation('reject:' + it[0], 'a legal description is rejected:\n' + it[2] + log[-500:], it[2])
            its = keep
            rc, log, got, out = gen(c, f'set2-{i}', {'d.yaml': ''.join(it[2] for it in its)})
            if rc:
                c.violation(f'reject:group{i}', 'descriptions accepted one by one are rejected together:\n' + log[-500:])
                return
        ok, log = syntax(c, f'set-{i}', tu(its, out), out)
        if not ok:
            left = []
            for it in its:
                ok, log = syntax(c, f'set-{it[1]}', tu([it], out), out)
                if not ok:
                    c.violation('compile:' + it[0], 'the generated code does not compile:\n' + it[2] + errors(log), it[2])
                else:
                    left.append(it)
            ok, log = syntax(c, f'set-{i}', tu(left, out), out)
            if not ok:
                c.violation(f'compile:group{i}', 'packets that compile alone do not compile together:\n' + errors(log))
        c.add('settings', len(its), len(its), len(its))
    pmap(one, list(enumerate(groups)))


# ---------------------------------------------------------------- C/D: controllers and options
DATA = 'Sig: !Data\n  stream_id: !StreamID\n'
CTX = 'Ctx: !Context\n  stream_id: !StreamID\n  cif_0: !CIF0\n    bandwidth: optional\n'


def ctrl(n='Ctrl', ids=(None, None), reqs=FULL, extra='', kind='Control', body='  cif_0: !CIF0\n    bandwidth: optional\n'):
    return f'{n}: !{kind}\n' + extra + cam(**reqs) + (f'  controllee_id: {ids[0]}\n' if ids[0] else '') + (f'  controller_id: {ids[1]}\n' if ids[1] else '') + body


def ack(n='CtrlAck', to='Ctrl', kind='Ack'):
    return f'{n}: !{kind}\n  responds_to: {to}\n'


def infos(th):
    """(label, [yaml of packets], classes, loose: may be refused)"""
    out = []
    fmts = (None, 'word', 'uuid')
    for ids in itertools.product(fmts, fmts):
        out.append((f'ids-{ids[0]}-{ids[1]}', [ctrl(ids=ids), ack()], False))
    for v, x, s in itertools.product((None, 'optional', 'required'), repeat=3):
        r = {'action_mode': 'execute', **{n: m for n, m in (('req_v', v), ('req_x', x), ('req_s', s)) if m}}
        if th or 'required' not in (v, x, s) or v == x == s:
            out.append((f'req-{v}-{x}-{s}', [ctrl(reqs=r)] + ([ack()] if v or x or s else []), False))
    out.append(('query', [ctrl(reqs=dict(action_mode='none', req_s='required')), ack()], False))
    out.append(('stream', [ctrl(extra='  stream_id: !StreamID\n'), ack()], False))
    out.append(('stream-parts', [ctrl(extra='  stream_id: !StreamID\n    one: !IntegerType\n      bits: 5\n    two: !IntegerType\n      bits: 7\n'), ack()], False))
    out.append(('class', [ctrl(extra='  class_id: !ClassID\n    oui: FF-EE-DD\n  timestamp: !Timestamp\n    integer: utc\n'), ack()], False))
    out.append(('data', [DATA], False))
    out.append(('context', [CTX], False))
    out.append(('data-context', [DATA, CTX], False))
    out.append(('all', [DATA, CTX, ctrl(ids=('word', 'word')), ack()], False))
    out.append(('ack-first', [ack(), ctrl()], False))
    out.append(('ack-named', [ctrl(), ack('Reply')], False))
    out.append(('ack-named-first', [ack('Reply'), ctrl()], False))
    out.append(('no-ack', [ctrl()], True))
    out.append(('no-ack-no-request', [ctrl(reqs=dict(action_mode='execute'))], False))
    out.append(('two-controls', [ctrl('CtrlA', ('word', 'word')), ack('CtrlAAck', 'CtrlA'), ctrl('CtrlB', ('word', 'word')), ack('CtrlBAck', 'CtrlB')], False))
    out.append(('two-mixed', [ctrl('CtrlA'), ack('CtrlAAck', 'CtrlA'), ctrl('CtrlB', (None, 'word')), ack('CtrlBAck', 'CtrlB')], False))
    out.append(('two-formats', [ctrl('CtrlA', (None, 'uuid')), ack('CtrlAAck', 'CtrlA'), ctrl('CtrlB', (None, 'word')), ack('CtrlBAck', 'CtrlB')], True))
    out.append(('crossed-acks', [ctrl('CtrlA'), ack('First', 'CtrlB'), ctrl('CtrlB', reqs=dict(action_mode='execute', req_v='optional')), ack('Second', 'CtrlA')], False))
    out.append(('extension', [ctrl('Ext', kind='ExtensionControl'), ack('ExtAck', 'Ext', 'ExtensionAck')], False))
    out.append(('ext-context', [CTX.replace('!Context', '!ExtensionContext')], False))
    out.append(('names', [DATA.replace('Sig', 'sig_nal'), CTX.replace('Ctx', 'HTTPContext'), ctrl('my_Ctrl2'), ack('my_Ctrl2_Ack', 'my_Ctrl2')], False))
    if th:
        base = [DATA, CTX, ctrl(ids=('word', 'uuid')), ack()]
        for r in range(1, 5):
            for p in itertools.permutations(base, r):
                if ack() in p and p[:1] != () and not any(x.startswith('Ctrl:') for x in p):
                    continue
                out.append(('perm-' + '-'.join(x.split(':')[0] for x in p), list(p), any(x.startswith('Ctrl:') for x in p) and ack() not in p))
    return out


def klass(pk):
    return 'Info: !InformationClass\n  packet_classes: [' + ', '.join(p.split(':')[0] for p in pk) + ']\n'


def controllers_tu(ns, hext='hpp', extra=''):
    q = ns + '::' if ns else ''
    e = q + 'controllee::' if ns else ''
    return extra + f'#include "Controller.{hext}"\n#include "Controllee.{hext}"\nstruct Mine : {e}Controllee {{ using {e}Controllee::Controllee; }};\nvoid use(Mine& m, {q}Controller& y) {{ (void)m; (void)y; }}\n'


def part_controllers(c):
    jobs = [(i, s) for i in infos(c.thorough) for s in ('tcp', 'udp', 'nats')]

    def one(j):
        (label, pk, loose), s = j
        tag = f'info-{label}-{s}'
        y = ''.join(pk) + klass(pk)
        rc, log, got, out = gen(c, tag, {'d.yaml': y}, ('--namespace', 't', '--cmd-socket', s))
        c.add('controllers', 1, 1, 1)
        if rc:
            if not loose:
                c.violation(f'reject:{label}', f'a legal information class is rejected ({s}):\n{y}{log[-500:]}', y)
            return
        ok, log = syntax(c, tag, controllers_tu('t'), out)
        if not ok:
            c.violation(f'compile-controllers:{label}:{s}', f'the generated controller or controllee does not compile:\n{y}{errors(log)}', y)
    pmap(one, jobs)


def part_classes(c):
    """two information classes: every pair of packet sets, their codes, in one file and in two"""
    cid = '  class_id: !ClassID\n    oui: 01-02-03\n    packet_code: 5\n'
    P = {'Sig': DATA + cid, 'Ctx': CTX.replace('!Context\n', '!Context\n' + cid), 'Ctrl': ctrl(extra=cid, ids=('word', None)) + ack() + cid}
    lists = {k: ['Ctrl', 'CtrlAck'] if k == 'Ctrl' else [k] for k in P}
    sets = [s for r in range(1, 4) for s in itertools.combinations(P, r)]
    incs = {'Sig': 'sig', 'Ctx': 'ctx', 'Ctrl': 'ctrl', 'CtrlAck': 'ctrl_ack'}
    body = ''.join(P.values())

    def cls(n, s, code):
        return f'{n}: !InformationClass\n' + (f'  code: {code}\n' if code is not None else '') + '  packet_classes:\n' + ''.join(f'    - {x}\n' for k in s for x in lists[k])
    jobs = []
    for a, b in itertools.product(sets, sets):
        for codes in ((1, 2), ('0x10', 3)) if c.thorough or a == b else ((1, 2),):
            for where in ('together', 'files') if c.thorough or len(a) + len(b) > 3 else ('together',):
                jobs.append((a, b, codes, where))
    alone = {}

    def one(j):
        a, b, codes, where = j
        tag = 'cls-' + '+'.join(a) + '-' + '+'.join(b) + f'-{codes[0]}-{where}'
        A, B = cls('First', a, codes[0]), cls('Second', b, codes[1])
        if where == 'together':
            files = {'d.yaml': body + A + B}
        else:
            files = {'a.yaml': body + A, 'b.yaml': body + B}
        rc, log, got, out = gen(c, tag, files, twice=(a == b))
        c.add('information classes', 1, 1, 1)
        if rc:
            c.violation('reject:classes:' + '+'.join(a) + ':' + '+'.join(b), f'two information classes, codes {codes}, packets {a} and {b} ({where}) are rejected:\n{log[-500:]}', str(files))
            return
        want = [incs[n] for s in sorted(set(a) | set(b)) for n in lists[s]]
        srcs = sorted(os.path.basename(f)[:-4] for f in got if f.endswith('.cpp'))
        if srcs != sorted(want):
            c.violation('classes-files:' + '+'.join(a) + ':' + '+'.join(b), f'two information classes with packets {a} and {b} ({where}): sources {srcs}, expected {sorted(want)}', str(files))
            return
        # a packet's code depends on the classes that list it, on nothing else
        for s in set(a) | set(b):
            for n in lists[s]:
                k = (n, str(codes[0]) if s in a else '', str(codes[1]) if s in b else '')
                g = tuple(got[incs[n] + e] for e in ('.cpp', '.hpp'))
                with LOCK:
                    first = alone.setdefault(k, (g, tag))
                if first[0] != g:
                    c.violation(f'classes-differ:{n}', f'the code of {n} differs between {first[1]} and {tag}, where the same classes list it', str(files))
        q = ''.join(f'#include "{incs[n]}.hpp"\n' for s in sorted(set(a) | set(b)) for n in lists[s])
        use = [n for s in sorted(set(a) | set(b)) for n in lists[s]]
        # where the classes together have a control there are its two ends
        tu = controllers_tu('t') + ''.join(f'#include "{out}/{f}"\n' for f in sorted(got) if f.endswith('.cpp')) if 'Ctrl' in a + b else q + ''.join(f'#include "{out}/{f}"\n' for f in sorted(got) if f.endswith('.cpp'))
        for n in use:
            shared = all(any(n in lists[s] for s in x) for x in (a, b))
            for n2 in ([n + 'VX', n + 'S'] if n == 'CtrlAck' else [n]):
                tu += f'void use{n2}() {{ t::packets::{n2} p; ' + ('p.information_code(uint16_t{2}); ' if shared else '') + '}\n'
        ok, log = syntax(c, tag, tu, out)
        if not ok:
            c.violation('compile-classes:' + '+'.join(a) + ':' + '+'.join(b), f'the code of two information classes (codes {codes}) with packets {a} and {b} ({where}) does not compile:\n{errors(log)}', str(files))
    pmap(one, jobs)


def part_options(c):
    pk = [DATA, CTX, ctrl(ids=('word', 'word')), ack()]
    y = ''.join(pk) + klass(pk)
    combos = list(itertools.product(('t', '', 'a::b'), ('cpp', 'cc'), ('hpp', 'h', 'hxx') if c.thorough else ('hpp', 'h'), ('tcp', 'udp', 'nats'), (False, True)))
    if not c.thorough:
        # every pair of option values
        keep, seen = [], set()
        for k in combos:
            prs = {(a, k[a], b, k[b]) for a in range(5) for b in range(a)}
            if prs - seen:
                seen |= prs
                keep.append(k)
        combos = keep
    plain = {}

    def one(k):
        ns, se, he, sock, proj = k
        tag = 'opt-' + '-'.join(str(x).replace(':', '_') for x in k)
        args = [*(('--namespace', ns) if ns else ()), '--source-ext', se, '--header-ext', he, '--cmd-socket', sock, *(('--project',) if proj else ())]
        rc, log, got, out = gen(c, tag, {'d.yaml': y}, args)
        c.add('options', 1, 1, 1)
        key = f'{ns or "none"}.{se}.{he}.{sock}.{"project" if proj else "plain"}'
        if rc:
            c.violation(f'options-reject:{key}', f'generation fails with options {args}:\n{log[-600:]}', y)
            return
        srcs = sorted(f for f in got if f.endswith('.' + se))
        want = {'sig', 'ctx', 'ctrl', 'ctrl_ack'}
        if not want <= {os.path.basename(f)[:-len(se) - 1] for f in srcs}:
            c.violation(f'options-missing:{key}', f'sources with extension {se} missing: got {sorted(got)}', y)
            return
        inc = [out] + ([out + '/include', out + '/include/packets'] if proj else [])
        s = ''.join(f'#include "{out}/{f}"\n' for f in srcs if not f.endswith('main.' + se))
        q = (ns + '::' if ns else '') + 'packets::' if ns else ''
        s = controllers_tu(ns, he) + s
        s += f'int use() {{ {q}Sig a; {q}Ctx b; {q}Ctrl d; {q}CtrlAckVX e; {q}CtrlAckS f; return 0; }}\n'
        ok, log = syntax(c, tag, s, *inc)
        if not ok:
            c.violation(f'options-compile:{key}', f'the code generated with {args} does not compile:\n{errors(log)}', y)
        if proj:
            mains = [f for f in got if os.path.basename(f).startswith('main.')]
            if not mains:
                c.violation(f'project-main:{key}', f'a project without main program: {sorted(got)}', y)
            for f in mains:
                ok, log = syntax(c, tag + '-main', f'#include "{out}/{f}"\n', *inc)
                if not ok:
                    c.violation(f'project-compile:{key}', f'the main program of the generated project does not compile:\n{errors(log)}', y)
            for f in got:
                if f.endswith('packets/CMakeLists.txt'):
                    for w in want:
                        if f'{w}.{se}' not in got[f]:
                            c.violation(f'project-build:{key}', f'the build file of the generated project does not name {w}.{se}:\n{got[f][:600]}', y)
            if sock != 'nats' and (c.thorough or sock == 'udp'):
                bd = out + '-build'
                r = run(['cmake', '-S', out, '-B', bd, '-G', 'Ninja', '-DFETCHCONTENT_SOURCE_DIR_VRTGEN=' + common.REPO, '-DFETCHCONTENT_FULLY_DISCONNECTED=ON'])
                if r.returncode == 0:
                    r = run(['cmake', '--build', bd, '-j4'])
                c.add('projects', 1, 1, 1)
                if r.returncode:
                    c.violation(f'project-build:{key}', f'the generated project does not build:\n{(r.stdout + r.stderr).decode(errors="replace")[-1200:]}', y)
            if not any(f.endswith('packets/CMakeLists.txt') for f in got):
                c.violation(f'project-build:{key}', 'no build file for the packets of the generated project', y)
    pmap(one, combos)


# ---------------------------------------------------------------- E: reproducible and isolated
def pool():
    P = {
        'data': DATA,
        'datax': 'Sigx: !Data\n  stream_id: !StreamID 0x77\n  class_id: !ClassID\n    oui: 01-02-03\n    packet_code: 5\n  trailer: !Trailer\n    sample_frame: required\n  spectrum_or_time: spectrum\n',
        'trailer': 'Trl: !Data\n  trailer: !Trailer\n    user_defined_a: enable_indicator\n    user_defined_b: !!seq [x, y, z]\n',
        'context': CTX,
        'ctxall': 'Wide: !Context\n  timestamp: !Timestamp\n    integer: utc\n    fractional: samples\n  cif_0: !CIF0\n    bandwidth: required\n    gain: optional\n    reference_level: !DIFI1p2ReferenceLevel\n  cif_1: !CIF1\n    index_list: !IndexList\n      entry_size: 16\n    buffer_size: !DIFI1p2BufferSize\n      mode: required\n    polarization: optional\n  cif_2: !CIF2\n    controllee_uuid: required\n    mode_id: optional\n',
        'dio': 'Dio: !Context\n  cif_1: !CIF1\n    discrete_io_32: !DiscreteIO32\n      q: bool\n      e: !!seq [a, b, c]\n    discrete_io_64: !DiscreteIO64\n      mode: required\n      w: 40\n',
        'diox': 'Diox: !ExtensionContext\n  cif_1: !CIF1\n    discrete_io_32: optional\n    discrete_io_64: required\n',
        'ctrl': ctrl() + ack(),
        'ctrlack': ack('OtherAck', 'Other') + ctrl('Other', ('word', 'uuid'), dict(action_mode='dry-run', req_v='required', req_w='true', req_er='true', permit_partial='true')),
        'query': ctrl('Query', reqs=dict(action_mode='none', req_s='required')) + ack('QueryAck', 'Query'),
        'stream': 'Parts: !Data\n  stream_id: !StreamID\n    one: !IntegerType\n      bits: 9\n    two: !IntegerType\n      bits: 23\n      value: 12345\n',
        'ext': ctrl('Ext', kind='ExtensionControl', ids=('uuid', None)) + ack('ExtAck', 'Ext', 'ExtensionAck'),
        'tsm': 'Tsm: !Context\n  timestamp: !Timestamp\n    integer: gps\n    fractional: picoseconds\n  tsm: coarse\n  cif_0: !CIF0\n    index: 1\n'.replace('  cif_0: !CIF0\n    index: 1\n', ''),
        'hidden': '.defaults: &d\n  stream_id: !StreamID 9\nAnch: !Data\n  <<: *d\n',
    }
    return P


def part_isolation(c):
    P = pool()
    names = list(P)
    alone = {}

    def base(n):
        rc, log, got, _ = gen(c, 'alone-' + n, {n + '.yaml': P[n]})
        if rc or not got:
            c.violation('reject:pool-' + n, f'a legal description is rejected:\n{P[n]}{log[-600:]}', P[n])
            return n, None
        return n, got
    for n, g in pmap(base, names):
        if g is not None:
            alone[n] = g
    names = [n for n in names if n in alone]

    def compare(key, want, got, what, replay):
        c.add('isolation', 1, 1, 1)
        for f in sorted(want):
            if f not in got:
                c.violation(f'{key}:missing', f'{f} is not generated {what}', replay)
                return
            if got[f] != want[f]:
                a, b = want[f].splitlines(), got[f].splitlines()
                k = next((i for i, (x, y) in enumerate(itertools.zip_longest(a, b)) if x != y), 0)
                c.violation(f'{key}:differs', f'{f} differs {what}: line {k + 1}: {(a + [""])[min(k, len(a))]!r} became {(b + [""])[min(k, len(b))]!r}', replay)
                return
        extra = sorted(set(got) - set(want))
        if extra:
            c.violation(f'{key}:extra', f'unexpected files {extra} {what}', replay)

    jobs = []
    # the same description again: hash order, repeated into the same directory, other file/directory names, other working directory
    for n in names:
        for seed in ('0', '1', '2', '12345') if c.thorough else ('0', '7'):
            jobs.append(('hash', (n,), dict(files={n + '.yaml': P[n]}, env={'PYTHONHASHSEED': seed}), f'seed{seed}'))
        jobs.append(('again', (n,), dict(files={n + '.yaml': P[n]}, twice=True), 'again'))
        jobs.append(('renamed', (n,), dict(files={'another-name.yml': P[n]}, outdir='deep/er/dir'), 'renamed'))
        jobs.append(('after-hidden', (n,), dict(files={'d.yaml': '.hidden: &h {a: 1}\n' + P[n]}), 'hid'))
    sets = list(itertools.permutations(names, 2))
    if c.thorough:
        sets += [p for i, p in enumerate(itertools.permutations(names, 3)) if i % 3 == 0]
    for s in sets:
        t = '_'.join(s)
        jobs.append(('together', s, dict(files={'d.yaml': ''.join(P[n] for n in s)}), t))
        jobs.append(('files', s, dict(files={n + '.yaml': P[n] for n in s}), t))
    for i in range(len(names)):
        s = names[i:] + names[:i]
        jobs.append(('together', tuple(s), dict(files={'d.yaml': ''.join(P[n] for n in s)}), f'rot{i}'))
        jobs.append(('files', tuple(s), dict(files={n + '.yaml': P[n] for n in s}), f'rot{i}'))
        r = list(reversed(s))
        jobs.append(('together', tuple(r), dict(files={'d.yaml': ''.join(P[n] for n in r)}), f'ror{i}'))
    for a, b in zip(names, names[1:] + names[:1]):
        jobs.append(('include', (a, b), dict(files={'m.yaml': f"include: ['inc.yaml']\n" + P[b], 'inc.yaml': P[a]}, order=['m.yaml']), a + b))
        jobs.append(('include-last', (a, b), dict(files={'m.yaml': P[b] + "include: ['inc.yaml']\n", 'inc.yaml': P[a]}, order=['m.yaml']), a + b))

    def one(j):
        kind, s, kw, t = j
        want = {}
        for n in s:
            want.update(alone[n])
        rc, log, got, _ = gen(c, f'iso-{kind}-{"_".join(s)}-{t}'[:150], **kw)
        key = f'{kind}:' + ('+'.join(s) if len(s) < 4 else t)
        if rc:
            c.violation(key + ':reject', f'descriptions that are accepted alone are rejected ({kind}):\n{log[-600:]}', str(kw))
            return
        compare(key, want, got, f'when generated as "{kind}" with {"+".join(s)}', str(kw)[:4000])
    pmap(one, jobs)

    # names that share an output file or are declared twice: refused, or both there
    for label, files, classes in (
            ('snake', {'d.yaml': DATA.replace('Sig', 'FooBar') + CTX.replace('Ctx', 'Foo_Bar')}, ('FooBar', 'Foo_Bar')),
            ('case', {'d.yaml': DATA.replace('Sig', 'Foo') + CTX.replace('Ctx', 'foo')}, ('Foo', 'foo')),
            ('dash', {'d.yaml': DATA.replace('Sig', 'Foo-a') + CTX.replace('Ctx', 'Foo_a')}, None),
            ('twofiles', {'a.yaml': DATA, 'b.yaml': CTX.replace('Ctx', 'Sig')}, None),
            ('twofiles-code', {'a.yaml': DATA + '  class_id: !ClassID\n    oui: 1\n    information_code: 1\n'.replace('oui: 1', 'oui: 00-00-01'), 'b.yaml': CTX.replace('Ctx', 'Sig') + '  class_id: !ClassID\n    oui: 00-00-01\n    information_code: 2\n'}, None),
            ('twofiles-snake', {'a.yaml': DATA.replace('Sig', 'FooBar'), 'b.yaml': CTX.replace('Ctx', 'Foo_Bar')}, ('FooBar', 'Foo_Bar')),
            ('controller', {'d.yaml': DATA.replace('Sig', 'Controller') + CTX + klass(['Controller', 'Ctx'])}, None),
            ('ack-clash', {'d.yaml': ctrl() + ack() + DATA.replace('Sig', 'ctrl_ack')}, None)):
        rc, log, got, out = gen(c, 'clash-' + label, files)
        c.add('name clashes', 1, 1, 1)
        if rc:
            continue
        n = sum(len(re.findall(r'^\S.*: !(?:Data|Context|Control|Ack)', t, re.M)) for t in files.values())
        cpps = [f for f in got if f.endswith('.cpp')]
        bad = len(cpps) < n
        if not bad:
            s = ''.join(f'#include "{out}/{f}"\n' for f in sorted(cpps)) + ''.join(f't::packets::{k} o{k};\n' for k in classes or ())
            ok, clog = syntax(c, 'clash-' + label, s, out)
            bad = not ok
        if bad:
            c.violation('clash:' + label, f'two packets share their name or output file; the run reports success but their code is not all there: {sorted(got)}\n{log[-300:]}', str(files))
    # packets referring to each other across the definition order, and errors that must not pass silently
    for label, y, loose in (('unknown-control', ack(), True), ('unknown-class-member', 'Info: !InformationClass\n  packet_classes: [Nope]\n', True)):
        rc, log, got, out = gen(c, 'bad-' + label, {'d.yaml': y})
        c.add('name clashes', 1, 1, 1)
        if rc == 0:
            c.violation('accept:' + label, 'a reference to an undefined packet is accepted: ' + y, y)


def check(c):
    t0 = time.time()
    part_settings(c)
    print('settings', round(time.time() - t0, 1))
    part_controllers(c)
    print('controllers', round(time.time() - t0, 1))
    part_classes(c)
    print('classes', round(time.time() - t0, 1))
    part_options(c)
    print('options', round(time.time() - t0, 1))
    part_isolation(c)
    print('isolation', round(time.time() - t0, 1))
    c.assumptions += ['compilation is checked with g++ -std=c++20 -fsyntax-only against /repo/include and the installed cnats headers',
                      'isolation: every ordered pair of 14 descriptions in one file, in two files, and every rotation of all of them']


if __name__ == '__main__':
    main('C16', check)
