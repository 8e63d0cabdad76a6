"""Packet types shared by the checks of decoding (C07), recognition (C08) and malformed input (C09)."""
import importlib
import os
from .pktgen import Pkt, program, describe
from .common import pmap, run


def packets(thorough, near=False):
    """(packet, ...) groups; every type of the encoding checks plus neighbours that differ in one setting"""
    out = []
    c03, c04, c05, c06 = (importlib.import_module(m) for m in ('c03', 'c04', 'c05', 'c06'))
    ctx = [p for p, _, _ in c03.packets(False)]
    data = [p for p, _, _ in c04.packets(False)]
    ctl = []
    for c, _, _ in c05.controls():
        ctl.append(c)
        ctl += c.acks()
    for p, d, _ in c06.packets(False):
        ctl.append(p)
    attr = []
    if not near:    # what a matcher makes of attribute indicator words is left open
        attr = [p for p, _, _ in importlib.import_module('c18').packets(False) if p.name in ('AttrEvery', 'AttrD', 'AttrVarOpt', 'AttrVarReq', 'AttrCtl')]
        attr = [p for p in attr if not p.is_ack]
    seen, uniq = set(), []
    for p in ctx + attr + data + ctl + (neighbours() if near else []):
        if p.name not in seen:
            seen.add(p.name)
            uniq.append(p)
    return uniq


def neighbours():
    """types that differ from each other in exactly one setting"""
    from . import spec
    g = [(spec.field('gain'), 'required'), (spec.field('bandwidth'), 'optional')]
    out, n = [], [0]

    def add(kind, **kw):
        n[0] += 1
        out.append(Pkt('Nb' + kind.title().replace('_', '') + chr(65 + n[0] // 26) + chr(97 + n[0] % 26), kind, **kw))
    base = dict(class_id=(0x123456, 0x1000, 0x0001), tsi='utc', tsf='picoseconds', stream='')
    alts = [{}, {'class_id': None}, {'class_id': (0x123457, 0x1000, 1)}, {'class_id': (0x123456, 0x1001, 1)}, {'class_id': (0x123456, 0x1000, 3)},
            {'class_id': (0x000000, 0x0000, 0)}, {'tsi': 'gps'}, {'tsi': 'other'}, {'tsi': None}, {'tsi': 'any'}, {'tsf': 'samples'}, {'tsf': 'free-running'}, {'tsf': None}, {'tsf': 'any'}]
    for a in alts:
        add('context', **{**base, **a}, fields=g)
    for a in ({'tsm': 'coarse'}, {'tsm': 'any'}, {'tsm': 'fine'}):
        add('context', **{**base, **a}, fields=g)
    add('ext_context', **base, fields=g)
    for a in alts + [{'stream': None}, {'trailer': {}}, {'sot': 'spectrum'}, {'sot': 'time'}]:
        add('data', **{**base, **a}, payloads=(4, 8))
    cam = {'req_v': 'optional', 'req_x': 'optional', 'req_s': 'optional', 'action_mode': 'execute'}
    i = 0
    for a in (alts[:3] + alts[6:9] + [{'controllee': 'word'}, {'controllee': 'uuid'}, {'controller': 'word'}, {'controller': 'uuid'}, {'controllee': 'word', 'controller': 'word'},
              {'controllee': 'uuid', 'controller': 'word'}, {'controllee': 'word', 'controller': 'uuid'},
              {'cam': {'req_v': True, 'req_x': 'optional', 'req_s': 'optional', 'action_mode': 'execute'}},
              {'cam': {'req_x': True, 'req_v': 'optional', 'req_s': 'optional', 'action_mode': 'execute'}},
              {'cam': {'req_s': True, 'req_x': 'optional', 'req_v': 'optional', 'action_mode': 'execute'}},
              {'cam': {**cam, 'action_mode': 'dry-run'}}, {'cam': {**cam, 'permit_partial': True}}, {'cam': {**cam, 'permit_warnings': True}}, {'cam': {**cam, 'permit_errors': True}},
              {'cam': {**cam, 'req_w': True}}, {'cam': {**cam, 'req_er': True}}, {'cam': {'req_s': True, 'action_mode': 'none'}}]):
        for kind in ('command', 'ext_command') if i % 4 == 0 else ('command',):
            add(kind, **{'cam': cam, **base, **a}, fields=g, ack='Ack' + chr(65 + i // 26) + chr(97 + i % 26) + ('Ext' if kind != 'command' else ''))
            out += out[-1].acks()
        i += 1
    return out


def build(c, pk, entry, tag, flags=(), rules=False, opt='-O1', per=6):
    """generate everything, compile programs; returns [(packet, binary, index)]"""
    rc, log, out = describe(c, pk)
    if rc:
        return [], out
    big = sorted(pk, key=lambda p: -len(p.ops))
    units = [[p] for p in big if len(p.ops) > 90]
    small = [p for p in big if len(p.ops) <= 90]
    n = max(1, -(-len(small) // per))
    units += [u for u in (small[i::n] for i in range(n)) if u]

    def one(iu):
        i, u = iu
        nm = f'{tag}{i}-{u[0].file}'
        src = c.path(nm + '.cpp')
        open(src, 'w').write(program(u, out, entry, rules))
        ok, log = c.cxx([src] + sorted({f'{out}/{p.file}.cpp' for p in u}), c.path(nm), '-I' + out, *flags, opt=opt)
        if not ok:
            c.violation('compile:' + nm, 'the generated code does not compile or lacks the documented interface:\n' + log[:2500])
            return None
        return c.path(nm)
    return [(p, b, k) for u, b in zip(units, pmap(one, list(enumerate(units)))) if b for k, p in enumerate(u)], out
