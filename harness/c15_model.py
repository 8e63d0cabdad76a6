"""Runs inside the generator's Python: parses descriptions with the real parser and compares the
resulting packet models with vt.yamlspec.  stdin: JSON list of [key, name-or-null list doc]; stdout: JSON results."""
import io, json, os, sys, logging, contextlib, traceback, multiprocessing
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import yamlspec as ys
from vrtgen import parser
from vrtgen.parser.loader import get_loader
from vrtgen.parser.model.base import Packet
logging.disable(logging.CRITICAL)
LOADER = get_loader()


def parse(text):
    with contextlib.redirect_stdout(io.StringIO()):
        return [(n, p) for n, p in parser.parse_stream(io.StringIO(text), LOADER) if n != 'files']


def name_of(v):
    n = getattr(v, 'name', None)
    return n if isinstance(n, str) else v


def mode(f):
    return ('required' if f.required else 'optional') if f.enabled else None


def cifv(c, i):
    fs = c.attributes if i == 7 else c
    return {n: mode(getattr(fs, n)) for n in ys.CIF[i] if getattr(fs, n).enabled}


def view(p):
    h = p.header
    k = type(p).__name__
    v = {'kind': k, 'type': name_of(h.packet_type.value)}
    s = p.stream_id
    v['stream'] = (bool(s.enabled), getattr(s, 'value', None))
    c = p.class_id
    v['class'] = {n: getattr(c, n).value for n in ('oui', 'information_code', 'packet_code')} if c.enabled else None
    if bool(h.class_id_enable.value) != bool(c.enabled):
        v['class'] = 'header flag disagrees'
    t = p.timestamp
    v['ts'] = (name_of(h.tsi.value), name_of(h.tsf.value))
    if (bool(t.integer.enabled), bool(t.fractional.enabled)) != tuple(x != 'NONE' for x in v['ts']):
        v['ts'] = f'header {v["ts"]} but integer part {bool(t.integer.enabled)}, fractional part {bool(t.fractional.enabled)}'
    if k == 'DataPacket':
        r = p.trailer
        v['trailer'] = {'sample_frame': mode(r.sample_frame)} if r.enabled else None
        if bool(h.trailer_included.value) != bool(r.enabled) or (r.enabled and r.subfields):
            v['trailer'] = 'inconsistent'
        v['sot'] = name_of(h.spectrum_or_time.value) if h.spectrum_or_time.enabled else None
        v['nd0'] = bool(h.not_v49d0.enabled and h.not_v49d0.value)
        return v
    v['cif'] = {i: cifv(getattr(p, f'cif_{i}'), i) for i in (0, 1, 2, 7) if getattr(p, f'cif_{i}').enabled}
    if 'Context' in k:
        v['tsm'] = name_of(h.tsm.value) if h.tsm.enabled else None
        v['nd0'] = bool(h.not_v49d0.enabled and h.not_v49d0.value)
        return v
    v['ack'] = bool(h.acknowledge_packet.value)
    m = p.cam
    names = ys.PERMIT + (ys.REQ if not v['ack'] else []) + ['action_mode']
    v['cam'] = {n: (mode(getattr(m, n)), name_of(getattr(m, n).value)) for n in names if getattr(m, n).enabled}
    for w in ('controllee', 'controller'):
        i = getattr(p, w + '_id')
        v[w] = name_of(i.format) if i.enabled else None
        en, fm = getattr(m, w + '_enable'), getattr(m, w + '_format')
        if bool(en.enabled and en.value) != bool(i.enabled) or (i.enabled and name_of(fm.value) != v[w]):
            v[w] = 'mode word disagrees'
    if v['ack']:
        v['acks'] = {'req_v': bool(m.ack_v.enabled), 'req_x': bool(m.ack_x.enabled), 'req_s': bool(m.ack_s.enabled)}
        v['warnings'], v['errors'] = bool(m.ack_w.value), bool(m.ack_er.value)
        v['weif'] = {}
        for i in (0, 1, 2):
            w, e = getattr(p, f'wif_{i}'), getattr(p, f'eif_{i}')
            ws, es = ([n for n in ys.CIF[i] if hasattr(x, n) and getattr(x, n).enabled] for x in (w, e))
            if w.enabled or e.enabled:
                v['weif'][i] = sorted(ws) if ws == es and w.enabled and e.enabled else f'warnings {ws} errors {es}'
    return v


def norm(x):
    return json.loads(json.dumps(x, sort_keys=True))


def detuple(t):
    """JSON lost the tuples: ['#', tag, body] stands for a tagged node"""
    if isinstance(t, list):
        if t and t[0] == '#':
            return (t[1], detuple(t[2]))
        if t and isinstance(t[0], list):
            return [(k, detuple(v)) for k, v in t]
    return t


def diff(want, got):
    return '; '.join(f'{k}: expected {want.get(k)}, got {got.get(k)}' for k in sorted(set(want) | set(got)) if want.get(k) != got.get(k))


def generate(models):
    """rendering is part of accepting: a description the generator refuses is rejected as well"""
    import tempfile, shutil
    from vrtgen.backend.cpp.generator import CppGenerator
    d = tempfile.mkdtemp(prefix='c15-')
    try:
        g = CppGenerator()
        for attr, o in g.get_options():
            setattr(g, attr, o.default)
        g.output_dir = d
        g.start_file('x.yaml')
        with contextlib.redirect_stdout(io.StringIO()):
            for n, p in models:
                g.generate(n, p)
            g.end_file()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def one(job):
    key, doc = job
    doc = [(n, detuple(t)) for n, t in doc]
    text = ys.emit(doc)
    try:
        want = ys.document(doc)
    except ys.Reject as e:
        want = None
        why = str(e)
    except ys.Unspecified:
        return key, 'skip', '', text
    try:
        got = parse(text)
    except (Exception, SystemExit) as e:
        if want is None:
            return key, 'rejected', '', text
        return key, 'viol', f'rejects a legal description ({type(e).__name__}: {e})', text
    if want is None:
        try:
            generate(got)
        except (Exception, SystemExit):
            return key, 'rejected', '', text
        return key, 'viol', f'accepts an illegal description ({why})', text
    got = {n: p for n, p in got if isinstance(p, Packet)}
    if set(got) != set(want):
        return key, 'viol', f'packets {sorted(got)} instead of {sorted(want)}', text
    for n in want:
        w, g = norm(want[n]), norm(view(got[n]))
        if w != g:
            return key, 'viol', f'packet {n}: ' + diff(w, g), text
    return key, 'ok', '', text


if __name__ == '__main__':
    jobs = json.load(sys.stdin)
    with multiprocessing.Pool(int(sys.argv[1])) as pool:
        n = {}
        for key, st, msg, text in pool.imap(one, jobs, chunksize=64):
            n[st] = n.get(st, 0) + 1
            if st == 'viol':
                print('V ' + json.dumps([key, msg, text]))
        print('N ' + json.dumps(n))
