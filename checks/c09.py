"""C09: malformed and truncated packets, under AddressSanitizer and UndefinedBehaviorSanitizer."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vt.common import *
from vt import wire

SAN = ['-fsanitize=address,bounds,shift,signed-integer-overflow,bool,enum,float-cast-overflow,integer-divide-by-zero,unreachable,return,builtin,alignment', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_SANITIZE_VECTOR=1', '-fno-omit-frame-pointer']


def check(c):
    pk = [p for p in wire.packets(c.thorough) if c.thorough or p.name not in ('AttrEvery', 'AttrVarOpt', 'AttrCtl')]
    progs, _ = wire.build(c, pk, 'wire::malformed', 'x', flags=SAN)
    env = dict(os.environ, ASAN_OPTIONS='abort_on_error=1:handle_segv=0:handle_abort=0:detect_leaks=0:max_allocation_size_mb=512:symbolize=0',
               UBSAN_OPTIONS='abort_on_error=1:symbolize=0', **({'VT_THOROUGH': '1'} if c.thorough else {}))
    print('built', round(time.time() - c.t0), 's')
    jobs = []
    for p, b, k in progs:
        n = 24 if len(p.ops) > 90 else 4
        for s in range(n):
            jobs.append((p, [b, '1', str(s), str(n), str(k)]))
    def go(j):
        return run(j[1], timeout=3000, env=env)
    for j, r in zip(jobs, pmap(go, jobs)):
        c.collect(r, j[0].name)
    c.assumptions += ['memory errors are those AddressSanitizer (with container annotations and library assertions) and UndefinedBehaviorSanitizer notice on exact-size heap buffers']

if __name__ == '__main__':
    main('C09', check)
