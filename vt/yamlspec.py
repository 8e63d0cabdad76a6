"""Independent reading of packet descriptions: what each one means, or that it must be rejected.

A description is a tree: 'text' (plain scalar), ('!Tag', 'text'), ('!Tag', [(key, tree), ...]),
[(key, tree), ...] (untagged mapping) or ['a', 'b'] (list of scalars).  A document is [(name, tree), ...]."""
import re

KINDS = {'!Data': 'DataPacket', '!Context': 'ContextPacket', '!ExtensionContext': 'ExtensionContextPacket',
         '!Control': 'ControlPacket', '!Ack': 'AcknowledgePacket',
         '!ExtensionControl': 'ExtensionControlPacket', '!ExtensionAck': 'ExtensionAcknowledgePacket'}
CIF = {
 0: 'reference_point_id bandwidth if_ref_frequency rf_ref_frequency rf_ref_frequency_offset if_band_offset reference_level gain over_range_count sample_rate timestamp_adjustment timestamp_calibration_time temperature device_id state_event_indicators signal_data_format formatted_gps formatted_ins ecef_ephemeris relative_ephemeris ephemeris_ref_id gps_ascii context_association_lists'.split(),
 1: 'phase_offset polarization pointing_vector pointing_vector_structure spatial_scan_type spatial_reference_type beam_width range ebno_ber threshold compression_point intercept_points snr_noise_figure aux_frequency aux_gain aux_bandwidth array_of_cifs spectrum sector_step_scan index_list discrete_io_32 discrete_io_64 health_status v49_spec_compliance version_information buffer_size'.split(),
 2: 'bind cited_sid sibling_sid parent_sid child_sid cited_message_id controllee_id controllee_uuid controller_id controller_uuid information_source track_id country_code operator_id platform_class platform_instance platform_display ems_device_class ems_device_type ems_device_instance modulation_class modulation_type function_id mode_id event_id function_priority_id communication_priority_id rf_footprint rf_footprint_range'.split(),
 7: 'current_value mean_value median_value standard_deviation max_value min_value precision accuracy first_derivative second_derivative third_derivative probability belief'.split(),
}
STEP = 'f2_stop_frequency resolution_bandwidth tune_step_size number_points default_gain threshold dwell_time start_time time_3 time_4'.split()
PERMIT = ['permit_partial', 'permit_warnings', 'permit_errors']
REQ = ['req_v', 'req_x', 'req_s', 'req_w', 'req_er']
TSI = {'none': 'NONE', 'utc': 'UTC', 'gps': 'GPS', 'other': 'OTHER', 'any': 'ANY'}
TSF = {'none': 'NONE', 'samples': 'SAMPLE_COUNT', 'picoseconds': 'REAL_TIME', 'free-running': 'FREE_RUNNING', 'any': 'ANY'}


class Reject(Exception):
    """the description must be rejected"""


class Unspecified(Exception):
    """the property says nothing about this description"""


# ------------------------------------------------------------------ text
def emit(doc, ind=0):
    out = []
    for k, v in doc:
        p = '  ' * ind + f'{k}:'
        tag, body = v if isinstance(v, tuple) else ('', v)
        if tag:
            p += ' ' + tag
        if isinstance(body, str):
            out.append(p + (' ' + body if body else ''))
        elif body and isinstance(body[0], str):
            out.append(p + ' [' + ', '.join(body) + ']')
        elif not body:
            out.append(p)
        else:
            out.append(p)
            out.append(emit(body, ind + 1).rstrip('\n'))
    return '\n'.join(out) + '\n'


# ------------------------------------------------------------------ meaning
def mapping(tree, tag):
    if not isinstance(tree, tuple) or tree[0] != tag:
        raise Reject(f'not a {tag}')
    body = tree[1]
    if body == '' or body == []:
        return {}
    if isinstance(body, str):
        raise Reject('scalar')
    d = {}
    for k, v in body:
        if k in d:
            raise Unspecified
        d[k] = v
    return d


def mode(v):
    if not isinstance(v, str):
        raise Reject('mode')
    if re.fullmatch(r'required|optional', v, re.I):
        return v.lower()
    raise Reject('mode ' + v)


def choice(v, table):
    if isinstance(v, str) and v.lower() in table:
        return table[v.lower()]
    raise Reject(f'{v} not one of {list(table)}')


def integer(v, hi):
    if not isinstance(v, str) or not re.fullmatch(r'0x[0-9a-fA-F]+|[1-9][0-9]*|0', v):
        raise Reject(f'not a number: {v}')
    n = int(v, 0)
    if n > hi:
        raise Reject('out of range')
    return n


def cif(i, tree):
    out = {}
    for k, v in mapping(tree, f'!CIF{i}').items():
        if k == 'change_indicator' and i == 0:
            if mode(v) != 'required':
                raise Unspecified
            continue
        if k not in CIF[i]:
            raise Reject('unknown ' + k)
        if k == 'sector_step_scan':
            m = mapping(v, '!SectorStepScan')
            if any(x != 'subfield_cif' for x in m):
                raise Reject('unknown key')
            for x, y in mapping(m['subfield_cif'], '!SectorStepScanCIF').items() if m else ():
                if x not in STEP:
                    raise Reject('unknown ' + x)
                mode(y)
            out[k] = 'required'
        elif k == 'index_list':
            m = mapping(v, '!IndexList')
            if any(x != 'entry_size' for x in m):
                raise Reject('unknown key')
            if 'entry_size' in m and m['entry_size'] not in ('8', '16', '32'):
                raise Reject('entry size')
            out[k] = 'required'
        elif k in ('reference_level', 'buffer_size') and isinstance(v, tuple):
            m = mapping(v, '!DIFI1p2ReferenceLevel' if k == 'reference_level' else '!DIFI1p2BufferSize')
            if any(x != 'mode' for x in m):
                raise Reject('unknown key')
            if 'mode' not in m:
                raise Unspecified
            out[k] = mode(m['mode'])
        elif k.startswith('discrete_io') and isinstance(v, tuple):
            m = mapping(v, '!DiscreteIO32' if k == 'discrete_io_32' else '!DiscreteIO64')
            if any(x != 'mode' for x in m):
                raise Unspecified            # layouts: C19
            out[k] = mode(m['mode']) if 'mode' in m else 'optional'
        elif i == 7:
            if mode(v) != 'required':
                raise Unspecified
            out[k] = 'required'
        else:
            out[k] = mode(v)
    return out


def cam(tree):
    out = {}
    m = mapping(tree, '!ControlAcknowledgeMode')
    for k, v in m.items():
        if k in PERMIT + REQ:
            if v in ('true', 'false'):
                out[k] = ('required', True) if v == 'true' else None
            else:
                md = mode(v)
                out[k] = (md, md == 'required')
        elif k == 'action_mode':
            if v in ('required', 'optional'):
                raise Unspecified
            out[k] = ('required', choice(v, {'none': 'NO_ACTION', 'dry-run': 'DRY_RUN', 'execute': 'EXECUTE'}))
        elif k in ('controllee_format', 'controller_format'):
            out[k] = ('required', choice(v, {'word': 'WORD', 'uuid': 'UUID'}))
        elif k == 'timing_control':
            raise Unspecified
        else:
            raise Reject('unknown ' + k)
    if out.get('action_mode', ('', ''))[1] == 'NO_ACTION':
        on = lambda k: bool(out.get(k) and out[k][1])
        if any(on(k) for k in ('req_v', 'req_x', 'req_w', 'req_er')) or not on('req_s'):
            raise Reject('action mode none')
        if any(out.get(k) for k in ('req_v', 'req_x', 'req_w', 'req_er')):
            raise Unspecified                # optional requests with action mode none
    return {k: v for k, v in out.items() if v}


def stream(tree):
    if isinstance(tree, tuple) and tree[0] == '!StreamID':
        if isinstance(tree[1], str):
            return integer(tree[1], 0xffffffff) if tree[1] else None
        raise Unspecified                    # layouts: C19
    raise Reject('stream id')


def class_id(tree):
    if isinstance(tree, tuple) and tree[0] == '!ClassID' and tree[1] in ('', []):
        raise Reject('class id must be a mapping')
    out = {'oui': None, 'information_code': None, 'packet_code': None}
    for k, v in mapping(tree, '!ClassID').items():
        if k == 'oui':
            if not isinstance(v, str) or not re.fullmatch(r'[0-9a-fA-F]{2}(-[0-9a-fA-F]{2}){2}', v) or v.upper() == '00-12-A2':
                raise Reject('oui')
            out[k] = int(v.replace('-', ''), 16)
        elif k in out:
            if v in ('', '~'):
                raise Unspecified            # nothing given
            out[k] = integer(v, 0xffff)
        else:
            raise Reject('unknown ' + k)
    return out


def timestamp(tree):
    out = ['NONE', 'NONE']
    for k, v in mapping(tree, '!Timestamp').items():
        if k == 'integer':
            out[0] = choice(v, TSI)
        elif k == 'fractional':
            out[1] = choice(v, TSF)
        else:
            raise Reject('unknown ' + k)
    return tuple(out)


def trailer(tree):
    out = {'sample_frame': None}
    for k, v in mapping(tree, '!Trailer').items():
        if 'user_defined' in k:
            raise Unspecified                # layouts: C19
        if k != 'sample_frame':
            raise Reject('unknown ' + k)
        out[k] = mode(v)
    return out


PROLOGUE = ['stream_id', 'class_id', 'timestamp']
ALLOWED = {'!Data': PROLOGUE + ['trailer', 'spectrum_or_time'],
           '!Context': PROLOGUE + ['tsm', 'cif_0', 'cif_1', 'cif_2', 'cif_7'],
           '!Control': PROLOGUE + ['cam', 'controllee_id', 'controller_id', 'cif_0', 'cif_1', 'cif_2', 'cif_7'],
           '!Ack': ['responds_to']}
ALLOWED['!ExtensionContext'] = ALLOWED['!Context']
ALLOWED['!ExtensionControl'] = ALLOWED['!Control']
ALLOWED['!ExtensionAck'] = ALLOWED['!Ack']
CODE = {'!Data': 'SIGNAL_DATA', '!Context': 'CONTEXT', '!ExtensionContext': 'EXTENSION_CONTEXT', '!Control': 'COMMAND',
        '!ExtensionControl': 'EXTENSION_COMMAND', '!Ack': 'COMMAND', '!ExtensionAck': 'EXTENSION_COMMAND'}


def packet(tree, doc=None):
    """expected view of one packet"""
    kind = tree[0]
    if isinstance(tree[1], str) and tree[1]:
        raise Unspecified
    m = mapping(tree, kind)
    base = kind.replace('Extension', '')
    for k in m:
        if k not in ALLOWED[kind]:
            if base == '!Ack' and k in ALLOWED['!Control'] and (isinstance(m[k], tuple) or k.startswith('control')):
                raise Unspecified            # an acknowledge repeating what its control says
            raise Reject('unknown ' + k)
    if base == '!Ack':
        if 'responds_to' not in m:
            raise Reject('no control')
        ctl = dict(doc or []).get(m['responds_to'])
        if not isinstance(ctl, tuple) or ctl[0] not in ('!Control', '!ExtensionControl'):
            raise Reject('unknown control')
        c = packet(ctl, doc)
        v = dict(c, kind=KINDS[kind], type=CODE[kind], ack=True)
        r = c['cam']
        v['cam'] = {k: x for k, x in r.items() if k not in REQ}
        flag = {k: r[k] for k in REQ if k in r}
        v['acks'] = {k: k in flag for k in ('req_v', 'req_x', 'req_s')}
        v['warnings'], v['errors'] = (bool(flag.get(k, (0, 0))[1]) for k in ('req_w', 'req_er'))
        vx = v['acks']['req_v'] or v['acks']['req_x']
        v['weif'] = {i: sorted(c['cif'][i]) for i in (0, 1, 2) if i in c['cif']} if vx else {}
        if not v['acks']['req_s']:
            v['cif'] = {}
        return v
    v = {'kind': KINDS[kind], 'type': CODE[kind]}
    v['stream'] = (base != '!Data', None)
    if 'stream_id' in m:
        v['stream'] = (True, stream(m['stream_id']))
        if base == '!Data':
            v['type'] = 'SIGNAL_DATA_STREAM_ID'
    v['class'] = class_id(m['class_id']) if 'class_id' in m else None
    v['ts'] = timestamp(m['timestamp']) if 'timestamp' in m else ('NONE', 'NONE')
    if base == '!Data':
        v['trailer'] = trailer(m['trailer']) if 'trailer' in m else None
        v['sot'] = choice(m['spectrum_or_time'], {'spectrum': 'SPECTRUM', 'time': 'TIME'}) if 'spectrum_or_time' in m else None
        v['nd0'] = v['sot'] == 'SPECTRUM' or bool(v['trailer'] and v['trailer']['sample_frame'])
        return v
    v['cif'] = {i: cif(i, m[f'cif_{i}']) for i in (0, 1, 2, 7) if f'cif_{i}' in m}
    if kind in ('!Context', '!ExtensionContext', '!Control'):
        v['cif'].setdefault(0, {})
    if base == '!Context':
        v['tsm'] = choice(m['tsm'], {'fine': 'FINE', 'coarse': 'COARSE', 'any': 'ANY'}) if 'tsm' in m else None
        v['nd0'] = any(i in v['cif'] for i in (1, 2, 7))
        return v
    v['ack'] = False
    v['cam'] = cam(m['cam']) if 'cam' in m else {}
    for who in ('controllee', 'controller'):
        v[who] = choice(m[who + '_id'], {'word': 'WORD', 'uuid': 'UUID'}) if who + '_id' in m else None
        f = v['cam'].pop(who + '_format', None)
        if f and f[1] != v[who]:
            raise Unspecified
    return v


def document(doc):
    """expected views by name; Reject when any of them must be rejected"""
    out, unspecified, info = {}, False, None
    for name, tree in doc:
        if isinstance(tree, tuple) and tree[0] == '!InformationClass':
            if info is not None:
                raise Unspecified
            info = mapping(tree, '!InformationClass')
            continue
        if name.startswith('.') or not isinstance(tree, tuple) or tree[0] not in KINDS:
            continue
        try:
            out[name] = packet(tree, doc)
        except Unspecified:
            unspecified = True
    if unspecified:
        raise Unspecified
    if info is not None:
        # only the packets of the class are generated, under its code
        if any(n not in out for n in info['packet_classes']):
            raise Reject('unknown packet class')
        out = {n: out[n] for n in info['packet_classes']}
        for v in out.values():
            if v['class'] is not None:
                v['class']['information_code'] = int(info['code'], 0)
    return out
