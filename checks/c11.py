"""C11: the real socket classes in every reachable state, with every system call failing."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt.common import *
from c10 import sched_build


def check(c):
    src = os.path.join(ROOT, 'harness/c11.cpp')

    def build(v):
        name, flags = v
        try:
            return name, sched_build(c, 'c11_' + name, src, ['net_fake.cpp'], flags, tsan=False)
        except Broken as e:
            c.violation(f'compile:{name}', f'{name} sockets and endpoints cannot be used: {e}')
            return name, None
    exes = pmap(build, [('ipv4', []), ('ipv6', ['-DHAS_V6'])])
    jobs = [(n, x, w) for n, x in exes if x for w in ('tcp2', 'udp2', 'tcp1', 'udp1', 'endpoints', 'tcp10', 'udp10') + (('tcp20', 'udp20') if c.thorough else ())]

    def one(j):
        n, x, w = j
        return n, w, run([x, c.tier, w], timeout=850)
    for n, w, r in pmap(one, jobs):
        c.collect(r, n, f'harness c11_{n}, arguments "{c.tier} {w}" (VT_KEEP=1 keeps it)')
    c.assumptions += [
        'the operating system is a stand-in behind the socket system calls: lowest free descriptor, close frees the descriptor whatever it returns',
        'a single object is explored to closure (all reachable states); two objects and a foreign descriptor up to the depth in the evidence',
    ]


if __name__ == '__main__':
    main('C11', check)
