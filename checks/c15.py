"""C15: every packet description is rejected or means exactly what it says (bounded enumeration of descriptions)."""
import itertools, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt.common import *
from vt import yamlspec as ys

SID = [None, '', '0x12345678', '305419896', '0', '0xffffffff']
CID = [None, [('oui', 'FF-EE-DD')], [('oui', '00-12-a3'), ('packet_code', '0x1234'), ('information_code', '7')], [('packet_code', '65535')]]
TS = [None] + list(ys.TSI)
TF = [None] + list(ys.TSF)


def prologue(sid, cid, tsi, tsf):
    out = []
    if sid is not None:
        out.append(('stream_id', ('!StreamID', sid)))
    if cid is not None:
        out.append(('class_id', ('!ClassID', cid)))
    if tsi is not None or tsf is not None:
        out.append(('timestamp', ('!Timestamp', [(k, v) for k, v in (('integer', tsi), ('fractional', tsf)) if v is not None])))
    return out


EX = ('cam', ('!ControlAcknowledgeMode', [('req_s', 'true'), ('action_mode', 'execute')]))
BASE = {'!Data': [], '!Context': [], '!ExtensionContext': [], '!Control': [EX], '!ExtensionControl': [EX]}


def families(deep):
    """yields (family, packet tree or document)"""
    # prologues of every kind of packet
    for kind in BASE:
        for sid, cid, a, b in itertools.product(SID, CID, TS, TF):
            yield 'prologue', (kind, prologue(sid, cid, a, b) + BASE[kind])
    # data: trailer and spectrum/time; context: timestamp mode
    for sid, cid, tr, so in itertools.product(SID[:3], CID[:2], [None, [], [('sample_frame', 'required')], [('sample_frame', 'optional')]], [None, 'spectrum', 'time', 'Spectrum']):
        yield 'data', ('!Data', prologue(sid, cid, None, None) + ([('trailer', ('!Trailer', tr))] if tr is not None else []) + ([('spectrum_or_time', so)] if so else []))
    for kind in ('!Context', '!ExtensionContext'):
        for sid, t, words in itertools.product(SID[:3], [None, 'fine', 'coarse', 'any', 'FINE'], itertools.product((0, 1), repeat=4)):
            yield 'context', (kind, prologue(sid, None, None, None) + ([('tsm', t)] if t else []) + [(f'cif_{i}', (f'!CIF{i}', [])) for i, w in zip((0, 1, 2, 7), words) if w])
    # fields: every field, mode and indicator word; every pair of fields; everything but one
    special = {'sector_step_scan': [('!SectorStepScan', []), ('!SectorStepScan', [('subfield_cif', ('!SectorStepScanCIF', [('f2_stop_frequency', 'required')]))])],
               'index_list': [('!IndexList', []), ('!IndexList', [('entry_size', '16')])],
               'reference_level': ['required', 'optional', 'Required', ('!DIFI1p2ReferenceLevel', [('mode', 'optional')]), ('!DIFI1p2ReferenceLevel', [('mode', 'required')])],
               'buffer_size': ['required', 'optional', ('!DIFI1p2BufferSize', [('mode', 'optional')]), ('!DIFI1p2BufferSize', [('mode', 'required')])],
               'discrete_io_32': ['required', 'optional', ('!DiscreteIO32', []), ('!DiscreteIO32', [('mode', 'required')]), ('!DiscreteIO32', [('mode', 'optional')])],
               'discrete_io_64': ['required', 'optional', ('!DiscreteIO64', []), ('!DiscreteIO64', [('mode', 'required')]), ('!DiscreteIO64', [('mode', 'optional')])]}
    legal = lambda i, f: special.get(f) or (['required'] if i == 7 else ['required', 'optional', 'REQUIRED', 'Optional'])
    for kind in ('!Context', '!ExtensionContext', '!Control', '!ExtensionControl'):
        for i in ys.CIF:
            for f in ys.CIF[i]:
                for m in legal(i, f):
                    yield f'field{i}', (kind, BASE[kind] + [(f'cif_{i}', (f'!CIF{i}', [(f, m)]))])
            yield f'field{i}', (kind, BASE[kind] + [(f'cif_{i}', (f'!CIF{i}', [(f, legal(i, f)[k % len(legal(i, f))]) for k, f in enumerate(ys.CIF[i])]))])
    for i in ys.CIF:
        for a, b in itertools.permutations(ys.CIF[i], 2):
            for ma, mb in itertools.product(legal(i, a)[:2], legal(i, b)[:2]):
                yield f'pair{i}', ('!Context', [(f'cif_{i}', (f'!CIF{i}', [(a, ma), (b, mb)]))])
        for k in range(len(ys.CIF[i])):
            fs = ys.CIF[i][k:] + ys.CIF[i][:k]
            yield f'all{i}', ('!Control', [(f'cif_{i}', (f'!CIF{i}', [(f, legal(i, f)[-1]) for f in fs[1:]])), EX])
    for i, j in itertools.permutations((0, 1, 2), 2):
        for a, b in itertools.product(ys.CIF[i][::1 if deep else 3], ys.CIF[j][::1 if deep else 2]):
            yield f'words{i}{j}', ('!Context', [(f'cif_{i}', (f'!CIF{i}', [(a, legal(i, a)[0])])), (f'cif_{j}', (f'!CIF{j}', [(b, legal(j, b)[-1])]))])
    # mode word: every combination of request bits and action mode, all permission bits, all identifier formats
    V = [None, 'true', 'false', 'required', 'optional']
    for act in (None, 'none', 'dry-run', 'execute', 'Execute'):
        for vals in itertools.product(V if deep else [None, 'true', 'false', 'optional'], repeat=5):
            yield 'requests', ('!Control', [('cam', ('!ControlAcknowledgeMode', [(k, v) for k, v in zip(ys.REQ, vals) if v] + ([('action_mode', act)] if act else [])))])
    for vals in itertools.product(V, repeat=3):
        for le, lr in itertools.product((None, 'word', 'uuid', 'UUID'), repeat=2):
            for ext in ('!Control', '!ExtensionControl'):
                yield 'permissions', (ext, [('cam', ('!ControlAcknowledgeMode', [(k, v) for k, v in zip(ys.PERMIT, vals) if v] + [('req_s', 'true'), ('action_mode', 'execute')]))]
                                      + ([('controllee_id', le)] if le else []) + ([('controller_id', lr)] if lr else []))
    # key order: every permutation of mode word keys (up to five of them), of packet keys and of class id / timestamp keys
    for act in ('none', 'execute'):
        for on in itertools.product((0, 1), repeat=6):
            keys = [(k, 'true') for k, o in zip(ys.REQ + ['permit_errors'], on) if o] + [('action_mode', act)]
            if len(keys) > (6 if deep else 5):
                continue
            for p in itertools.permutations(keys):
                yield 'order-cam', ('!Control', [('cam', ('!ControlAcknowledgeMode', list(p)))])
    rich = [('!Context', prologue('0x1', [('oui', 'FF-EE-DD'), ('packet_code', '3')], 'utc', 'samples') + [('tsm', 'fine'), ('cif_0', ('!CIF0', [('gain', 'required')])), ('cif_2', ('!CIF2', [('bind', 'optional')]))]),
            ('!Data', prologue('0x1', [('packet_code', '3'), ('oui', 'FF-EE-DD')], 'gps', 'picoseconds') + [('trailer', ('!Trailer', [('sample_frame', 'optional')])), ('spectrum_or_time', 'spectrum')]),
            ('!Control', prologue('0x1', None, 'utc', None) + [('cam', ('!ControlAcknowledgeMode', [('req_v', 'true'), ('action_mode', 'dry-run')])), ('controllee_id', 'uuid'), ('controller_id', 'word'), ('cif_1', ('!CIF1', [('range', 'required')]))])]
    for t in rich:
        for p in itertools.permutations(t[1]):
            yield 'order-packet', (t[0], list(p))
    for cid in itertools.permutations([('oui', 'AA-BB-CC'), ('packet_code', '1'), ('information_code', '2')]):
        for ts in itertools.permutations([('integer', 'utc'), ('fractional', 'any')]):
            yield 'order-ids', ('!Data', [('class_id', ('!ClassID', list(cid))), ('timestamp', ('!Timestamp', list(ts)))])
    # several packets in one document
    fam = [r for r in rich] + [('!Data', []), ('!Context', []), ('!Control', [EX]), ('!ExtensionControl', [EX]), ('!ExtensionContext', [('cif_1', ('!CIF1', [('beam_width', 'optional')]))]),
           ('!Context', [('cif_0', ('!CIF0', [('gain', 'optional'), ('bandwidth', 'required')])), ('cif_1', ('!CIF1', [('index_list', ('!IndexList', [('entry_size', '32')]))]))]),
           ('!Context', [('cif_1', ('!CIF1', [('discrete_io_32', ('!DiscreteIO32', [('mode', 'required')])), ('index_list', ('!IndexList', []))]))]),
           ('!Context', [('cif_0', ('!CIF0', [('reference_level', ('!DIFI1p2ReferenceLevel', [('mode', 'required')]))])), ('cif_7', ('!CIF7', [('belief', 'required')]))]),
           ('!Context', [('cif_2', ('!CIF2', [('controllee_uuid', 'required'), ('controllee_id', 'optional')]))]),
           ('!Data', prologue('', [('oui', '11-22-33')], 'any', 'any') + [('trailer', ('!Trailer', []))]),
           ('!Control', prologue(None, [('oui', '11-22-33')], None, 'samples') + [EX, ('controllee_id', 'word'), ('cif_2', ('!CIF2', [('controllee_uuid', 'optional')]))])]
    for a, b in itertools.product(fam, repeat=2):
        yield 'two', [('First', a), ('Second', b)]
        yield 'hidden', [('.hidden', a), ('Second', b)]
    for a, b, c in itertools.product(fam if deep else fam[::3], repeat=3):
        yield 'three', [('First', a), ('Second', b), ('Third', c)]
    # commands and their acknowledges, in every definition order
    ctls = []
    for rv, rx, rs, rw, re_ in itertools.product((None, 'true', 'optional'), (None, 'true'), (None, 'true'), (None, 'true'), (None, 'true', 'optional')):
        for fields in ([], [('cif_0', ('!CIF0', [('gain', 'required'), ('bandwidth', 'optional')])), ('cif_1', ('!CIF1', [('range', 'optional')])), ('cif_2', ('!CIF2', [('bind', 'optional'), ('track_id', 'required')]))]):
            req = [(k, v) for k, v in zip(ys.REQ, (rv, rx, rs, rw, re_)) if v]
            ctls.append(('!Control', prologue('0x77', [('oui', 'FF-EE-DD'), ('packet_code', '9')], 'utc', None) + [('cam', ('!ControlAcknowledgeMode', req + [('permit_errors', 'true'), ('action_mode', 'execute')])), ('controller_id', 'uuid')] + fields))
    ack = lambda n, k='!Ack': (k, [('responds_to', n)])
    for k, ctl in enumerate(ctls):
        ext = ('!ExtensionControl', ctl[1])
        for c, a in ((ctl, '!Ack'), (ext, '!ExtensionAck')):
            docs = [('Ctl', c), ('Ack', ack('Ctl', a))]
            orders = list(itertools.permutations(docs)) if k % 7 == 0 or deep else [docs]
            for o in orders:
                yield 'ack', list(o)
        if k % 5 == 0 or deep:
            docs = [('Ctl', ctl), ('Other', ctls[(k * 7 + 3) % len(ctls)]), ('Ack', ack('Ctl')), ('OtherAck', ack('Other'))]
            for o in itertools.permutations(docs):
                yield 'acks', list(o)
    # information classes: which packets they select, under which code, wherever they are in the document
    group = [('Con', rich[0]), ('Dat', rich[1]), ('Ctl', ctls[40]), ('Ack', ack('Ctl'))]
    for n in range(1, 5):
        for names in itertools.permutations('Con Dat Ctl Ack'.split(), n):
            info = ('Info', ('!InformationClass', [('code', '0x51'), ('packet_classes', list(names))]))
            for pos in range(5):
                yield 'info', group[:pos] + [info] + group[pos:]
    for o in itertools.permutations(group + [('Info', ('!InformationClass', [('code', '3'), ('packet_classes', ['Ack', 'Ctl', 'Dat'])]))]):
        yield 'info', list(o)
    for names in (['Nobody'], ['Con', 'Nobody'], ['Info'], ['con']):
        yield 'illegal-info', group + [('Info', ('!InformationClass', [('code', '3'), ('packet_classes', names)]))]
    # unknown keys: at every level, names of internal things and of other elements included
    bad = ['bogus', 'Bandwidth', '"bandwidth "', 'packed_0', 'header', 'name', 'bits', 'type_', 'enabled', 'required', 'packet_type', 'packet_size', 'packet_count', 'class_id_enable', 'tsi', 'tsf', 'not_v49d0',
           'trailer_included', 'message_id', 'wif_0', 'eif_1', 'cif_3', 'cif_1_enable', 'cif1_enable', 'cif_7', 'cif_0', 'trailer', 'tsm', 'cam', 'spectrum_or_time', 'responds_to', 'controllee_id', 'controller_id',
           'controllee_enable', 'controller_enable', 'acknowledge_packet', 'cancellation_packet', 'ack_v', 'nack_only', 'attributes', 'integer', 'oui', 'pad_bits', 'mode', 'stream_id', 'timestamp']
    legal_value = {'cif_0': ('!CIF0', []), 'cif_7': ('!CIF7', []), 'trailer': ('!Trailer', []), 'cam': EX[1], 'tsm': 'fine', 'spectrum_or_time': 'time', 'responds_to': 'P', 'controllee_id': 'word', 'controller_id': 'word',
                   'stream_id': ('!StreamID', ''), 'timestamp': ('!Timestamp', []), 'cif_3': ('!CIF2', []), 'wif_0': ('!CIF0', []), 'eif_1': ('!CIF1', [])}
    for kind in ys.KINDS:
        for k in bad:
            if k in ys.ALLOWED[kind]:
                continue
            for v in {str(x): x for x in ('required', legal_value.get(k, '5'))}.values():
                t = (kind, BASE.get(kind, []) + [(k, v)])
                if 'Ack' in kind:
                    yield 'unknown', [('P', ('!Control', [EX])), ('Q', (kind, [('responds_to', 'P'), (k, v)]))]
                else:
                    yield 'unknown', t
    for i in ys.CIF:
        for k in bad + [f for j in ys.CIF for f in ys.CIF[j] if j != i]:
            if k not in ys.CIF[i]:
                yield f'unknown{i}', ('!Context', [(f'cif_{i}', (f'!CIF{i}', [(k, 'required')]))])
    for tag, key, extra in (('!ControlAcknowledgeMode', 'cam', [('req_s', 'true'), ('action_mode', 'execute')]), ('!ClassID', 'class_id', [('oui', 'FF-EE-DD')]), ('!Timestamp', 'timestamp', [('integer', 'utc')]), ('!Trailer', 'trailer', [])):
        for k in bad + ['sample_frame_enable', 'state_event_indicators', 'integer_timestamp']:
            if k in ('integer', 'oui') and key in ('timestamp', 'class_id'):
                continue
            for v in ('required', 'true', '5'):
                kind = '!Data' if key in ('trailer', 'class_id') else '!Control'
                yield 'unknown-' + key, (kind, [e for e in BASE[kind] if e[0] != key] + [(key, (tag, extra + [(k, v)]))])
    for k in bad + ['total_size', 'num_entries', 'entries', 'array_size', 'header_size', 'records', 'num_records', 'subfield_cif', 'entry_size', 'sector_number', 'f1_start_frequency', 'f2_stop_frequency', 'reserved']:
        for v in ('required', '5', '8'):
            for f, tag in (('sector_step_scan', '!SectorStepScan'), ('index_list', '!IndexList'), ('buffer_size', '!DIFI1p2BufferSize')):
                yield 'unknown-nested', ('!Context', [('cif_1', ('!CIF1', [(f, (tag, [(k, v)]))]))])
            yield 'unknown-nested', ('!Context', [('cif_0', ('!CIF0', [('reference_level', ('!DIFI1p2ReferenceLevel', [(k, v)]))]))])
            yield 'unknown-nested', ('!Context', [('cif_1', ('!CIF1', [('sector_step_scan', ('!SectorStepScan', [('subfield_cif', ('!SectorStepScanCIF', [(k, v)]))]))]))])
    # illegal modes and values
    illegal = ['disabled', 'none', 'yes', 'true', 'false', '1', '0', '~', '', 'require', 'optionall', '"required "', 'mandatory', ['required'], [('mode', 'required')], ('!Trailer', []), ('!CIF0', []), ('!DiscreteIO32', []), ('!DiscreteIO64', []), ('!DIFI1p2ReferenceLevel', [('mode', 'required')]), ('!DIFI1p2BufferSize', [('mode', 'required')]), ('!IndexList', []), ('!SectorStepScan', [])]
    for i in ys.CIF:
        for f in ys.CIF[i]:
            for v in illegal + (['required', 'optional'] if f in ('sector_step_scan', 'index_list') else []):
                if f in special and isinstance(v, tuple) and v in special[f]:
                    continue
                yield f'illegal{i}', ('!Context', [(f'cif_{i}', (f'!CIF{i}', [(f, v)]))])
    for k in ys.PERMIT + ys.REQ + ['action_mode', 'controllee_format', 'controller_format']:
        for v in ['disabled', 'none' if k != 'action_mode' else 'bogus', '1', '0', '~', '', 'word' if 'format' not in k else 'int', 'dryrun', 'reserved', ['true'], ('!CIF0', [])]:
            yield 'illegal-cam', ('!Control', [('cam', ('!ControlAcknowledgeMode', [('req_s', 'true'), ('action_mode', 'execute')][: 1 if k == 'action_mode' else 2][1 if k == 'req_s' else 0:] + [(k, v)]))])
    for v in ['GG-EE-DD', 'FF-EE', 'FF-EE-DD-CC', 'FFEEDD', 'FF:EE:DD', 'F-EE-DD', 'FFF-EE-DD', '00-12-A2', '00-12-a2', '5', '~', '', ['FF-EE-DD'], 'FF-EE-D', ' -EE-DD', 'zz-00-00', '"FF-EE-DD\\n"', '12-34-5G']:
        yield 'illegal-oui', ('!Data', [('class_id', ('!ClassID', [('oui', v)]))])
    for k in ('packet_code', 'information_code'):
        for v in ['0x10000', '65536', '-1', 'abc', '~', '', '1.5', 'true', ['1'], '0xfffffffff']:
            yield 'illegal-code', ('!Data', [('class_id', ('!ClassID', [('oui', 'FF-EE-DD'), (k, v)]))])
    for v in ['0x100000000', '4294967296', '-1', 'abc', '1.5', '0x', '0xGG', 'true', '"1 2"', '99999999999999999999']:
        for kind in BASE:
            yield 'illegal-sid', (kind, [('stream_id', ('!StreamID', v))] + BASE[kind])
    for k, good in (('integer', 'fractional'), ('fractional', 'integer')):
        for v in ['bogus', 'samples' if k == 'integer' else 'utc', '1', '~', '', 'true', 'real-time', 'UTCX', 'free running', ['utc']]:
            yield 'illegal-ts', ('!Data', [('timestamp', ('!Timestamp', [(k, v)]))])
    for v in ['bogus', '1', '~', '', 'true', 'required', ['time']]:
        yield 'illegal-sot', ('!Data', [('spectrum_or_time', v)])
        yield 'illegal-tsm', ('!Context', [('tsm', v)])
        yield 'illegal-id', ('!Control', [EX, ('controllee_id', v)])
        yield 'illegal-id', ('!Control', [EX, ('controller_id', v)])
        yield 'illegal-trailer', ('!Data', [('trailer', ('!Trailer', [('sample_frame', 'disabled' if v == 'required' else v)]))])
    for n in ('Nobody', 'Ack', 'Dat'):
        yield 'illegal-ack', [('Ctl', ('!Control', [EX])), ('Dat', ('!Data', [])), ('Ack', ack(n))]
    yield 'illegal-ack', [('Ctl', ('!Control', [EX])), ('Ack', ('!Ack', []))]
    # elements of the wrong kind
    tags = {'stream_id': ('!StreamID', ''), 'class_id': ('!ClassID', [('oui', 'FF-EE-DD')]), 'timestamp': ('!Timestamp', [('integer', 'utc')]), 'trailer': ('!Trailer', []), 'cam': EX[1],
            'cif_0': ('!CIF0', [('gain', 'required')]), 'cif_1': ('!CIF1', [('range', 'required')]), 'cif_2': ('!CIF2', [('bind', 'required')]), 'cif_7': ('!CIF7', [('belief', 'required')]), 'x': 'required', 'y': '5', 'z': '~', 'd': ('!Data', []), 'dio': ('!DiscreteIO32', [])}
    for kind in BASE:
        for k in ys.ALLOWED[kind]:
            if k not in tags:
                continue
            for n, v in tags.items():
                if n != k:
                    yield 'wrong-kind', (kind, [e for e in BASE[kind] if e[0] != k] + [(k, v)])


def untuple(t):
    if isinstance(t, tuple):
        return ['#', t[0], untuple(t[1])]
    if isinstance(t, list) and t and isinstance(t[0], tuple):
        return [[k, untuple(v)] for k, v in t]
    return t


def signature(fam, doc):
    """stable identification of a failing description"""
    def short(t):
        if isinstance(t, tuple):
            return t[0] + ('' if isinstance(t[1], str) and not t[1] else short(t[1]))
        if isinstance(t, list) and t and isinstance(t[0], tuple):
            return '{' + ','.join(f'{k}:{short(v)}' for k, v in t) + '}'
        return str(t)
    return fam + ':' + short(doc).replace(' ', '_')


def cli(c):
    """the verdict must also be the exit status of the command"""
    jobs = []
    picked = {}
    for fam, d in families(False):
        doc = d if isinstance(d, list) else [('Pkt', d)]
        try:
            ys.document(doc)
            want = True
        except ys.Reject:
            want = False
        except ys.Unspecified:
            continue
        if any(f in str(doc) for f in ('pointing_vector_structure', 'spatial_reference_type', 'array_of_cifs')):
            continue                         # fields the C++ backend has no type for: refused there
        k = (fam, want)
        picked[k] = picked.get(k, 0) + 1
        if picked[k] in ((2, 37) if not c.thorough else (2, 11, 37, 101, 303)):
            jobs.append((fam, doc, want))

    def one(j):
        n, (fam, doc, want) = j
        d = c.path('cli', str(n), '')
        open(os.path.join(d, 'x.yaml'), 'w').write(ys.emit(doc))
        rc, log = vrtgen(d, ['cpp', '--dir', os.path.join(d, 'out'), '--namespace', 't', 'x.yaml'])
        return (fam, doc, want, rc, log)
    for fam, doc, want, rc, log in pmap(one, list(enumerate(jobs))):
        c.add('command line', states=1, transitions=1, traces=1)
        if (rc == 0) != want:
            c.violation('cli:' + signature(fam, doc), f'the command {"fails" if want else "succeeds"} (exit status {rc}) on a{" legal" if want else "n illegal"} description\n' + log[-800:], ys.emit(doc))


def check(c):
    jobs, seen = [], {}
    for fam, d in families(c.thorough):
        doc = d if isinstance(d, list) else [('Pkt', d)]
        s = signature(fam, doc)
        if s not in seen:
            seen[s] = 1
            jobs.append([s, [[n, untuple(t)] for n, t in doc]])
    env = dict(os.environ, PYTHONPATH=REPO + '/src', PYTHONDONTWRITEBYTECODE='1')
    r = run([GENPY, '-W', 'ignore', ROOT + '/harness/c15_model.py', str(NPROC)], 850, input=json.dumps(jobs).encode(), env=env)
    out = r.stdout.decode(errors='replace')
    n = None
    fams = {}
    for line in out.splitlines():
        if line.startswith('V '):
            key, msg, text = json.loads(line[2:])
            c.violation(key, msg, text)
        elif line.startswith('N '):
            n = json.loads(line[2:])
    if n is None:
        raise Broken('model runner failed: ' + r.stderr.decode(errors='replace')[-2000:])
    done = sum(n.values()) - n.get('skip', 0)
    c.add('descriptions', states=done, transitions=done, traces=done, accepted=n.get('ok', 0), rejected=n.get('rejected', 0), unspecified=n.get('skip', 0))
    cli(c)
    c.assumptions += ['user-defined stream identifier, trailer and discrete I/O layouts are decided under C19',
                      'descriptions the parser leaves open (optional requests with action mode none, non-required CIF7 attributes, "action_mode: optional") are not judged']

if __name__ == '__main__':
    main('C15', check)
