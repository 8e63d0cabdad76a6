"""C08: which packets a packet type's matcher accepts."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vt.common import *
from vt import wire


def check(c):
    pk = wire.packets(c.thorough, True)
    progs, _ = wire.build(c, pk, 'wire::matching', 'm', rules=True)
    env = dict(os.environ, **({'VT_THOROUGH': '1'} if c.thorough else {}))
    jobs = []
    for p, b, k in progs:
        n = 4 if p.name.startswith('Nb') else 8
        for s in range(n):
            jobs.append((p, [b, 'run', str(s), str(n), str(k), c.path('dump-' + p.name)]))
    def go(j):
        return run(j[1], timeout=3000, env=env)
    for j, r in zip(jobs, pmap(go, jobs)):
        c.collect(r, j[0].name)
    dumps = sorted(c.path('dump-' + p.name) for p, _, _ in progs)
    dumps = [d for d in dumps if os.path.exists(d)]
    jobs = [(p, [b, 'cross', '0', '1', str(k), *dumps]) for p, b, k in progs]
    for j, r in zip(jobs, pmap(go, jobs)):
        c.collect(r, j[0].name + ' against packets of all types')
    c.assumptions += ['bits the property leaves unspecified (reserved bits, the V49.0 flag, request or permission bits the configuration does not mention) are not judged']

if __name__ == '__main__':
    main('C08', check)
