"""C07: decoding every enumerated content of every packet type, then editing what was decoded."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vt.common import *
from vt import wire


def check(c):
    pk = wire.packets(c.thorough)
    progs, _ = wire.build(c, pk, 'wire::decoding', 'd')
    jobs = []
    env = dict(os.environ, **({'VT_THOROUGH': '1'} if c.thorough else {}))
    for p, b, k in progs:
        n = 16 if len(p.ops) > 90 else 4
        # depth of edits after decoding: bases, then contents one step away from a base
        big = len(p.ops) > 90
        deep, wide = ((1, 1) if big else (2, 1)) if not c.thorough else ((2, 1) if big else (3, 2))
        if p.name.startswith('Huge'):
            deep, wide, n = 1, 0, 1
        for s in range(n):
            jobs.append((p, b, k, deep * 10 + wide, s, n))
    def go(j):
        p, b, k, d, s, n = j
        return run([b, str(d), str(s), str(n), str(k)], timeout=3000, env=env)
    for j, r in zip(jobs, pmap(go, jobs)):
        c.collect(r, j[0].name)
    c.assumptions += ['inputs: every content one value away from the empty and the full packet, every pair of presence changes, six ways of presenting the bytes',
                      'the bytes come from the reference encoder, not from the code under test']

if __name__ == '__main__':
    main('C07', check)
