"""C05: control and state-acknowledge packets, exhaustive edit histories against a reference encoder."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vt.spec import FIELDS, DIO32, DIO64
from vt.pktgen import Pkt
from vt.common import *
from c03 import explore, opt, req


def controls():
    """(control, (quick, thorough) depth of it, depths of its state acknowledge)"""
    return [
        (Pkt('CtlMin', 'command', cam={'req_s': 'optional', 'action_mode': 'execute'}, ack='AckMin'), (3, 4), (3, 4)),
        (Pkt('CtlWord', 'command', stream=0x1020304, controllee='word', controller='word', cam={'req_v': 'optional', 'req_x': 'optional', 'req_s': 'optional', 'action_mode': 'execute'},
             fields=opt('bandwidth', 'gain'), ack='AckWord'), (3, 4), (3, 4)),
        (Pkt('CtlUuid', 'command', controllee='uuid', controller='uuid', cam={'permit_partial': True, 'permit_warnings': True, 'permit_errors': True, 'req_v': True, 'req_s': True, 'action_mode': 'dry-run'},
             fields=opt('phase_offset', 'device_id') + req('bind'), tsi='utc', tsf='picoseconds', ack='AckUuid'), (3, 4), (3, 4)),
        (Pkt('CtlMix', 'command', controllee='uuid', controller='word', class_id=(0xFFEEDD, 0x12, 0x3456), cam={'req_x': True, 'req_w': True, 'req_er': True, 'req_s': 'optional', 'action_mode': 'execute'},
             fields=req('reference_level', 'sample_rate') + opt('controllee_uuid'), tsi='any', tsf='any', ack='AckMix'), (2, 3), (2, 3)),
        (Pkt('CtlRev', 'command', controllee='word', controller='uuid', cam={'req_s': True, 'req_v': 'optional', 'permit_errors': True, 'action_mode': 'execute'},
             fields=req('beam_width') + opt('version_information', 'track_id'), tsf='samples', ack='AckRev'), (3, 4), (3, 4)),
        (Pkt('CtlQuery', 'command', controller='uuid', cam={'req_s': True, 'action_mode': 'none'}, fields=req('bandwidth') + opt('gain', 'phase_offset', 'polarization', 'bind'), ack='AckQuery'), (3, 4), (3, 4)),
        (Pkt('CtlQueryReq', 'command', controllee='uuid', cam={'req_s': True, 'action_mode': 'none'}, fields=opt('device_id') + req('phase_offset', 'track_id') + opt('mode_id'), tsi='gps', ack='AckQueryReq'), (3, 4), (3, 4)),
        (Pkt('CtlIds', 'command', controllee='uuid', controller='uuid', cam={'req_v': True, 'req_s': 'optional', 'action_mode': 'execute'}, ack='AckIds'), (3, 4), (3, 4)),
        (Pkt('CtlIdsW', 'command', controllee='word', controller='uuid', tsf='samples', cam={'req_s': True, 'action_mode': 'dry-run'}, ack='AckIdsW'), (3, 4), (3, 4)),
        (Pkt('CtlExt', 'ext_command', controllee='word', cam={'req_s': True, 'req_x': True, 'action_mode': 'execute'}, ack='AckExt'), (3, 4), (3, 4)),
        (Pkt('CtlExtF', 'ext_command', controllee='word', cam={'req_s': True, 'action_mode': 'execute'}, fields=opt('gain') + req('bandwidth'), ack='AckExtF'), (3, 4), (3, 4)),
        (Pkt('CtlShared', 'command', class_id=(0xFFEEDD, None, 0x79), codes=(1, 0x2000), controllee='word', cam={'req_v': 'optional', 'req_s': True, 'action_mode': 'execute'},
             fields=opt('gain', 'bandwidth'), ack='AckShared'), (3, 4), (3, 4)),
        (Pkt('CtlLay', 'command', stream=(('upper', 12, 0), ('fixed', 9, 0x155), ('lower', 10, 0)), controllee='uuid', cam={'req_v': 'optional', 'req_s': True, 'action_mode': 'execute'},
             fields=[(DIO32, 'optional'), (DIO64, 'required')] + opt('bandwidth'), ack='AckLay'), (3, 4), (3, 4)),
        (Pkt('CtlAll', 'command', controllee='word', controller='uuid', cam={'req_s': 'optional', 'req_x': 'optional', 'action_mode': 'execute'},
             fields=[(f, 'required' if i % 3 == 0 else 'optional') for i, f in enumerate(FIELDS) if f.name not in ('controllee_id', 'controller_id')], ack='AckAll'), (2, 2), (2, 2)),
        (Pkt('CtlAllQ', 'command', cam={'req_s': True, 'action_mode': 'none'},
             fields=[(f, 'required' if i % 3 == 1 else 'optional') for i, f in enumerate(FIELDS)], ack='AckAllQ'), (2, 2), (2, 2)),
    ]


def check(c):
    pk = []
    for ctl, d, da in controls():
        pk.append((ctl, *d))
        for a in ctl.acks():
            if a.kind.endswith('ack_s'):
                pk.append((a, *da))
    explore(c, pk, tag='c')
    c.assumptions += ['identifier, message-identifier and field values: two samples each besides the default, every byte distinct']

if __name__ == '__main__':
    main('C05', check)
