"""C03: context packets, exhaustive edit histories against a reference encoder."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import spec
from vt.spec import field, FIELDS, DIFI_REFLEVEL, DIFI_BUFSIZE
from vt.pktgen import Pkt, program, describe
from vt.common import *


def opt(*n): return [(field(x), 'optional') for x in n]
def req(*n): return [(field(x), 'required') for x in n]


def packets(thorough):
    """(packet, quick depth, thorough depth)"""
    out = []
    out.append((Pkt('AllOpt', fields=[(f, 'optional') for f in FIELDS], stream=''), 2, 3))
    out.append((Pkt('AllReq', fields=[(f, 'required') for f in FIELDS], stream=0x1020304), 2, 2))
    alt = [(f, 'required' if i % 2 else 'optional') for i, f in enumerate(FIELDS)]
    out.append((Pkt('MixOdd', fields=alt, tsi='utc', tsf='picoseconds', class_id=(0xFFEEDD, 0x1234, 0x5678)), 2, 2))
    alt = [(f, 'optional' if i % 2 else 'required') for i, f in enumerate(FIELDS)]
    out.append((Pkt('MixEven', kind='ext_context', fields=alt, tsm='coarse', tsi='gps'), 2, 2))
    # small packets, deep histories
    out.append((Pkt('SmallA', fields=opt('bandwidth', 'gain', 'phase_offset', 'bind'), stream=''), 4, 5))
    out.append((Pkt('SmallB', fields=req('reference_level') + opt('device_id', 'beam_width', 'health_status', 'controllee_uuid'), class_id=(0xABCDEF, None, 7)), 3, 4))
    out.append((Pkt('SmallC', fields=opt('polarization', 'spectrum') + req('cited_sid') + opt('track_id', 'controller_uuid'), tsi='other', tsf='samples'), 3, 4))
    out.append((Pkt('SmallD', fields=[(DIFI_REFLEVEL, 'optional'), (DIFI_BUFSIZE, 'optional')] + opt('signal_data_format', 'discrete_io_64'), tsm='any'), 3, 4))
    out.append((Pkt('SmallE', fields=[(DIFI_REFLEVEL, 'required'), (DIFI_BUFSIZE, 'required')] + opt('formatted_gps', 'v49_spec_compliance', 'mode_id'), tsf='free-running'), 3, 4))
    out.append((Pkt('SmallF', fields=opt('state_event_indicators', 'over_range_count', 'timestamp_adjustment') , stream='', tsi='any', tsf='any'), 3, 4))
    out.append((Pkt('SmallG', fields=req('version_information', 'controllee_uuid') + opt('temperature', 'range'), kind='ext_context'), 3, 4))
    out.append((Pkt('SmallH', fields=opt('phase_offset', 'snr_noise_figure', 'function_id')), 4, 5))
    out.append((Pkt('Bare', stream=''), 4, 5))
    out.append((Pkt('BareTs', tsi='gps', tsf='picoseconds', class_id=(1, 2, 3)), 3, 4))
    # a type that several information classes share has an information code of its own choice
    out.append((Pkt('SharedCtx', fields=opt('bandwidth') + req('gain'), class_id=(0xFFEEDD, None, 0x77), codes=(1, 0x2000), stream=''), 3, 4))
    # fields whose size depends on their value, between fixed ones
    V = spec.GPS_ASCII, spec.CAL
    out.append((Pkt('VarOpt', fields=[(V[0], 'optional'), (V[1], 'optional'), (spec.index_list(16), 'required')] + opt('bandwidth', 'ephemeris_ref_id', 'health_status'), stream=''), 3, 4))
    out.append((Pkt('VarReq', fields=[(V[0], 'required'), (V[1], 'required'), (spec.index_list(32), 'required')] + opt('gain', 'buffer_size') + req('phase_offset'), class_id=(1, 2, 3)), 3, 4))
    out.append((Pkt('VarMix', fields=[(V[0], 'required'), (V[1], 'optional'), (spec.index_list(8), 'required')] + opt('bind'), tsi='utc'), 3, 4))
    # layouts of the user's own
    parts = (('upper', 12, 0), ('fixed', 9, 0x155), ('lower', 10, 0))
    out.append((Pkt('UserLay', fields=[(spec.DIO32, 'optional'), (spec.DIO64, 'required')] + opt('bandwidth', 'health_status'), stream=parts), 3, 4))
    out.append((Pkt('UserOpt', kind='ext_context', fields=[(spec.DIO32, 'required'), (spec.DIO64, 'optional')] + opt('gain'), stream=(('all', 32, 0),), tsi='utc', class_id=(1, 2, 3)), 3, 4))
    if thorough:
        # every field alone between an optional neighbour before and after it
        fs = FIELDS
        for i, f in enumerate(fs):
            nm = 'Tri' + ''.join(w.capitalize() for w in f.name.split('_') if w.isalpha()) + 'ABCDEFGH'[f.cif]
            nm = re.sub(r'\d', 'x', nm)
            nb = [fs[i - 1], f, fs[(i + 1) % len(fs)]]
            out.append((Pkt(nm + 'y', fields=[(x, 'optional') for x in nb]), 2, 3))
    return out


def large():
    """packets of every magnitude (kept from the checks that cut packets everywhere)"""
    return [(Pkt('LargeOpt', fields=[(spec.TEXT, 'optional')] + opt('bandwidth', 'health_status'), stream=''), 2, 3),
            (Pkt('LargeReq', fields=[(spec.TEXT, 'required'), (spec.index_list(8), 'required')] + opt('bandwidth'), class_id=(1, 2, 3), tsi='utc'), 2, 3)]


def explore(c, pk, groups=8, tag='p'):
    rc, log, out = describe(c, [p for p, _, _ in pk])
    if rc:
        return
    pk = [x for x in pk if x[1] > 0]
    # big packets get a program of their own, small ones share
    big = [x for x in pk if len(x[0].ops) > 100]
    small = [x for x in pk if len(x[0].ops) <= 100]
    units = [[x] for x in big] + [u for u in (small[i::6] for i in range(6)) if u]
    def build(u):
        nm = tag + '-' + u[0][0].file
        src = c.path(nm + '.cpp')
        open(src, 'w').write(program([p for p, _, _ in u], out))
        objs = []
        ok, log = c.cxx([src] + sorted({f'{out}/{p.file}.cpp' for p, _, _ in u}), c.path(nm), '-I' + out, opt='-O1')
        if not ok:
            c.violation('compile:' + nm, 'the generated code does not compile or lacks the documented interface:\n' + log[:2500])
            return None
        return c.path(nm)
    bins = pmap(build, units)
    jobs = []
    for u, b in zip(units, bins):
        if b is None:
            continue
        for k, (p, dq, dt) in enumerate(u):
            d = dt if c.thorough else dq
            n = 8
            for sh in range(n):
                jobs.append((p, b, d, sh, n, k))
    def go(j):
        p, b, d, sh, n, k = j
        return run([b, str(d), str(sh), str(n), str(k)], timeout=3000)
    for j, r in zip(jobs, pmap(go, jobs)):
        c.collect(r, j[0].name + f' depth {j[2]}')
    return out


def check(c):
    explore(c, packets(c.thorough) + large())
    c.assumptions += ['values: two samples per field with every byte distinct (value coverage is C01/C02)',
                      'histories start from the fresh packet and from the fully populated one (both orders)']

if __name__ == '__main__':
    main('C03', check)
