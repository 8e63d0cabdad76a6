"""C13: generated controllees against every bounded sequence of messages, failures and schedules."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt.common import *
from vt import devgen
from c10 import sched_build


def listing(d):
    return [os.path.join(p, f) for p, _, fs in os.walk(d) for f in fs]


def build(c, dev, src, define):
    """the harness for one description; None if it cannot be built (reported)"""
    tag = f'{dev.name}_{dev.transport}'
    rc, log, out = c.generate(dev.yaml(), tag, args=['--cmd-socket', dev.transport])
    rc2, log2, fout = c.generate(dev.foreign(), tag + '_f', ns='f')
    if rc or rc2:
        return None
    d = c.path(tag, 'h', '')
    allh = os.path.join(d, 'all_dev.hpp')
    with open(allh, 'w') as f:
        f.write(devgen.header(dev, out, fout, listing))
    inc = sorted({os.path.dirname(f) for o in (out, fout) for f in listing(o) if f.endswith('.hpp')})
    flags = ['-O0', '-I' + d, *['-I' + i for i in inc], f'-DDEV_{dev.transport.upper()}=1']
    if dev.dctx:
        flags.append('-DDEV_HAS_DCTX=1')
    if dev.timestamp:
        flags.append('-DDEV_TIMESTAMP')
    try:
        return sched_build(c, tag + '_exe', os.path.join(ROOT, 'harness', src), ['net_fake.cpp', 'nats_fake.cpp'], flags)
    except Broken as e:
        c.violation(f'compile:{tag}', f'the generated {define} cannot be used as documented: ' + str(e), dev.yaml())
        return None


def run_all(c, src, define, configs, limit=800):
    def one(dev):
        return dev, build(c, dev, src, define)
    jobs = []
    for dev, exe in pmap(one, configs):
        if exe:
            tag = f'{dev.name}_{dev.transport}'
            jobs += [(tag, exe, n) for n in run([exe, c.tier, 'list']).stdout.decode().split()]

    def go(j):
        return j, run([j[1], c.tier, j[2]], timeout=limit)
    for (tag, exe, n), r in pmap(go, jobs):
        c.collect(r, tag, f'description {tag}, scenario {n}: the harness {os.path.basename(exe)} with arguments "{c.tier} {n}" (VT_KEEP=1 keeps it)')


def check(c):
    run_all(c, 'c13.cpp', 'controllee', devgen.CONFIGS)
    c.assumptions += [
        'sockets and the NATS library are stand-ins with their documented behaviour; time is virtual',
        'a message that matches several control types of one class is outside the property',
        'handlers do not throw',
    ]


if __name__ == '__main__':
    main('C13', check)
