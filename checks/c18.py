"""C18: attributes of information fields (CIF7), exhaustive edit histories against a reference encoder."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import spec
from vt.spec import FIELDS, DIFI_REFLEVEL, DIFI_BUFSIZE, IF
from vt.pktgen import Pkt
from vt.common import *
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from c03 import explore, opt, req

ALL = tuple(IF[7])
CUR = 'current_value'


def packets(thorough):
    """(packet, quick depth, thorough depth)"""
    out = []
    fs = FIELDS
    # every field, with an attribute of its own type and the two of fixed types
    out.append((Pkt('AttrAllOpt', fields=[(f, 'optional') for f in fs], attrs=(CUR, 'mean_value', 'belief')), 1, 2))
    out.append((Pkt('AttrAllReq', fields=[(f, 'required') for f in fs], stream=0x1020304, attrs=(CUR, 'max_value', 'probability')), 1, 2))
    alt = [(f, 'required' if i % 2 else 'optional') for i, f in enumerate(fs)]
    out.append((Pkt('AttrMix', kind='ext_context', fields=alt, tsi='utc', tsf='picoseconds', class_id=(0xFFEEDD, 0x1234, 0x5678), attrs=(CUR, 'median_value', 'min_value')), 1, 2))
    # every attribute
    out.append((Pkt('AttrEvery', fields=opt('bandwidth', 'gain') + req('phase_offset'), attrs=ALL), 2, 3))
    out.append((Pkt('AttrEveryReq', fields=req('reference_level', 'bind') + opt('polarization'), attrs=ALL), 2, 3))
    # few, deep
    out.append((Pkt('AttrNone', fields=opt('bandwidth', 'gain', 'bind') + req('phase_offset'), attrs=(CUR,)), 3, 4))
    out.append((Pkt('AttrA', fields=opt('bandwidth', 'gain'), stream='', attrs=(CUR, 'mean_value')), 3, 4))
    out.append((Pkt('AttrB', fields=opt('phase_offset', 'beam_width'), tsi='gps', attrs=(CUR, 'belief')), 3, 4))
    out.append((Pkt('AttrC', fields=opt('cited_sid', 'controllee_uuid'), attrs=(CUR, 'precision')), 3, 4))
    out.append((Pkt('AttrD', fields=opt('health_status') + req('reference_level', 'device_id'), attrs=(CUR, 'standard_deviation', 'probability')), 3, 4))
    out.append((Pkt('AttrE', fields=opt('v49_spec_compliance', 'discrete_io_64', 'discrete_io_32'), attrs=(CUR, 'first_derivative')), 3, 4))
    out.append((Pkt('AttrF', fields=[(DIFI_REFLEVEL, 'optional'), (DIFI_BUFSIZE, 'required')] + opt('temperature'), attrs=(CUR, 'accuracy')), 3, 4))
    out.append((Pkt('AttrG', fields=req('state_event_indicators', 'spatial_scan_type') + opt('range'), attrs=(CUR, 'third_derivative')), 3, 4))
    # values whose size varies
    out.append((Pkt('AttrVarOpt', fields=[(spec.GPS_ASCII, 'optional')] + opt('bandwidth', 'bind'), attrs=(CUR, 'mean_value')), 2, 3))
    out.append((Pkt('AttrVarReq', fields=[(spec.CAL, 'required')] + opt('gain', 'health_status'), attrs=(CUR, 'min_value', 'belief')), 2, 3))
    out.append((Pkt('AttrVarIdx', fields=[(spec.index_list(16), 'required')] + opt('phase_offset', 'buffer_size'), attrs=(CUR, 'second_derivative')), 2, 3))
    # a control packet's values carry attributes too, its acknowledges do not
    cam = dict(action_mode='execute', req_v='required', req_s='required', req_w='required', req_er='required')
    ctl = Pkt('AttrCtl', kind='command', fields=opt('bandwidth', 'beam_width') + req('gain'), cam=cam, ack='AttrAck', attrs=(CUR, 'mean_value'))
    out.append((ctl, 2, 3))
    out += [(a, 2, 3) for a in ctl.acks()]
    # the value itself is one of the attributes to choose from
    out.append((Pkt('AttrNoCur', fields=opt('bandwidth'), attrs=('mean_value',)), 2, 2))
    if thorough:
        for i, f in enumerate(fs):
            nm = re.sub(r'\d', 'x', 'AttrOne' + ''.join(w.capitalize() for w in f.name.split('_')) + 'ABCDEFGH'[f.cif])
            out.append((Pkt(nm + 'y', fields=[(fs[i - 1], 'optional'), (f, 'required' if i % 2 else 'optional'), (fs[(i + 1) % len(fs)], 'optional')],
                            attrs=(CUR, ALL[1 + i % 10], 'probability')), 2, 2))
    return out


def check(c):
    explore(c, packets(c.thorough))
    c.assumptions += ['attribute values: one or two samples per attribute and field',
                      'attributes of a field that is absent are left open, as is decoding a packet whose attribute indicator word differs from the description']

if __name__ == '__main__':
    main('C18', check)
