"""C12: the real send_packet functions against every bounded behaviour of the network."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt.common import *
from c10 import sched_build, sched_run

YAML = '''Cmd: !Control
  cam: !ControlAcknowledgeMode
    action_mode: execute
    req_v: optional
    req_x: optional
    req_s: optional
    req_w: true
    req_er: true
  controllee_id: word
  controller_id: word
  cif_0: !CIF0
    bandwidth: optional
    gain: optional
    gps_ascii: optional
CmdAck: !Ack
  responds_to: Cmd
Ctx: !Context
  cif_0: !CIF0
    bandwidth: required
'''


def check(c):
    rc, log, out = c.generate(YAML, 'gen')
    if rc:
        return
    inc = []
    files = []
    for d, _, fs in os.walk(out):
        for f in fs:
            if f.endswith('.cpp') and not f.lower().startswith('control'):
                files.append(os.path.join(d, f))
            if f.endswith('.hpp') and d not in inc:
                inc.append(d)
    allh = c.path('all_c12.hpp')
    with open(allh, 'w') as f:
        for p in sorted(files):
            f.write(f'#include "{p}"\n')
    try:
        exe = sched_build(c, 'c12', os.path.join(ROOT, 'harness/c12.cpp'), ['net_fake.cpp', 'nats_fake.cpp'],
                          ['-O0', '-I' + os.path.dirname(allh), *['-I' + d for d in inc]])
    except Broken as e:
        c.violation('compile', 'commands cannot be sent as documented: ' + str(e))
        return
    sched_run(c, exe, 'send_packet')
    c.assumptions += [
        'sockets and the NATS library are stand-ins with their documented behaviour; time is virtual',
        'a late acknowledge of an earlier command is told apart by its message identifier; commands sharing one are outside the property',
    ]


if __name__ == '__main__':
    main('C12', check)
