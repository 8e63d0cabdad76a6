"""C06: validation/execution acknowledges, exhaustive histories of warning and error edits."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vt.spec import FIELDS
from vt.pktgen import Pkt
from vt.common import *
from c03 import explore, opt, req

VX = {'req_v': 'optional', 'req_x': 'optional', 'req_s': 'optional'}
WE = {'req_w': True, 'req_er': True}
EX = {'action_mode': 'execute'}


def packets(thorough):
    L = [
        (Pkt('CtlW', 'command', cam={'req_v': 'optional', 'req_w': True, **EX}, fields=opt('bandwidth', 'gain'), ack='AckW'), (4, 5)),
        (Pkt('CtlE', 'command', controllee='word', cam={'req_x': True, 'req_er': True, **EX}, fields=opt('bandwidth') + req('polarization'), ack='AckE'), (3, 4)),
        (Pkt('CtlWe', 'command', controllee='uuid', controller='uuid', stream=0x11223344, cam={**VX, **WE, **EX}, fields=opt('reference_level', 'phase_offset', 'bind'), ack='AckWe'), (3, 4)),
        (Pkt('CtlTwo', 'command', cam={**VX, **WE, **EX}, fields=opt('bind', 'rf_footprint_range'), tsi='any', tsf='any', ack='AckTwo'), (3, 4)),
        (Pkt('CtlTwoW', 'command', cam={'req_v': True, 'req_w': True, **EX}, fields=opt('gain', 'track_id'), class_id=(0xFFEEDD, 0x12, 0x3456), ack='AckTwoW'), (3, 4)),
        (Pkt('CtlTwoE', 'command', cam={'req_v': True, 'req_er': True, 'action_mode': 'dry-run'}, fields=opt('phase_offset', 'operator_id'), tsi='utc', tsf='picoseconds', ack='AckTwoE'), (3, 4)),
        (Pkt('CtlMid', 'command', cam={'req_v': True, 'req_x': True, **WE, **EX}, fields=opt('phase_offset', 'beam_width'), controller='word', ack='AckMid'), (3, 4)),
        (Pkt('CtlNoWe', 'command', cam={**VX, 'permit_partial': True, **EX}, fields=req('bandwidth'), controllee='word', ack='AckNoWe'), (3, 4)),
        (Pkt('CtlExtWe', 'ext_command', cam={**VX, **WE, **EX}, fields=opt('gain') + req('spectrum'), ack='AckExtWe'), (3, 4)),
        (Pkt('CtlIdsWe', 'command', controllee='uuid', controller='uuid', cam={**VX, **WE, **EX}, tsi='gps', ack='AckIdsWe'), (3, 4)),
        (Pkt('CtlIdsVx', 'command', controllee='uuid', controller='word', stream='', cam={**VX, **EX}, ack='AckIdsVx'), (3, 4)),
        (Pkt('CtlAllWe', 'command', controllee='word', controller='uuid', cam={**VX, **WE, **EX},
             fields=[(f, 'required' if i % 2 else 'optional') for i, f in enumerate(FIELDS) if f.name not in ('controllee_id', 'controller_id')], ack='AckAllWe'), (1, 2)),
    ]
    out = []
    for ctl, d in L:
        for a in ctl.acks():
            if a.kind.endswith('ack_vx'):
                out.append((ctl, 0, 0))
                out.append((a, *d))
    return out


def check(c):
    explore(c, packets(c.thorough), tag='a')
    c.assumptions += ['three sample responses per warning and error, one of them all-zero',
                      'a validation/execution acknowledge with neither flag set is not required to be recognised by its matcher']

if __name__ == '__main__':
    main('C06', check)
