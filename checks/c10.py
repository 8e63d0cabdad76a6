"""C10: the real NATS client under every schedule of receivers, deliveries and shutdown."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt.common import *


def sched_build(c, name, src, extra=(), flags=(), tsan=True):
    """harness under the controlled scheduler: the code under test with access instrumentation, the runtime without"""
    def one(a):
        s, o, fl = a
        r = run([CXX, '-O1', *FLAGS, *fl, '-c', '-o', o, s], timeout=800)
        if r.returncode:
            raise Broken(f'{s} does not compile:\n' + r.stderr.decode(errors='replace')[-3000:])
        return o
    srcs = src if isinstance(src, list) else [src]
    jobs = [(s, c.path(f'{name}_{i}.o'), ['-fsanitize=thread', *flags] if tsan else list(flags)) for i, s in enumerate(srcs)]
    jobs += [(os.path.join(ROOT, 'harness', f), c.path(f'{name}_{f}.o'), []) for f in ('sched.cpp', *extra)]
    objs = pmap(one, jobs)
    exe = c.path(name)
    r = run([CXX, '-rdynamic', '-o', exe, *objs, '-ldl', '-lpthread'])
    if r.returncode:
        raise Broken(f'{name} does not link:\n' + r.stderr.decode(errors='replace')[-3000:])
    return exe


def sched_run(c, exe, part, keep=None, limit=800):
    names = run([exe, c.tier, 'list']).stdout.decode().split()
    if keep:
        names = [n for n in names if keep(n)]

    def one(n):
        return n, run([exe, c.tier, n], timeout=limit)
    for n, r in pmap(one, names):
        c.collect(r, part, f'scenario {n}: the harness {os.path.basename(exe)} with arguments "{c.tier} {n}" (VT_KEEP=1 keeps it)')
    c.parts[part]['scenarios'] = len(names)


def check(c):
    try:
        exe = sched_build(c, 'c10', os.path.join(ROOT, 'harness/c10.cpp'), ['nats_fake.cpp'])
    except Broken as e:
        c.violation('compile', 'the client cannot be used as documented: ' + str(e))
        return
    sched_run(c, exe, 'client')
    c.assumptions += [
        'the NATS library is a stand-in with its documented behaviour: one delivery thread per asynchronous subscription, whose callback may still run while and after the subscription is destroyed',
        'all schedules of synchronization operations up to the preemption bound listed per scenario; data accesses between them are checked for races instead of interleaved; sequentially consistent memory',
        'timeouts that fire while threads could run, and spurious wakeups, at most one each per execution',
        'messages without data are outside the property',
    ]


if __name__ == '__main__':
    main('C10', check)
