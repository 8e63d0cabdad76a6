"""Independent statement of the VITA 49.2 layouts vrtgen implements.

Nothing here is read from /repo: the tables were written from the standard
(figure numbers in the comments of /repo's headers give the same references),
and they are the oracle every packet- and structure-level check compares with.
"""
from dataclasses import dataclass, field
from typing import List, Optional, Tuple

NS = 'vrtgen::packing::'


@dataclass
class Sub:
    """One subfield of a structure. `word`/`msb` are 32-bit-word index and msb
    position inside that word; `bits` may run over into following words."""
    name: str
    word: int
    msb: int
    bits: int
    kind: str = 'uint'          # uint, bool, enum, fx, ufx, m1
    ctype: str = 'uint32_t'     # C++ type handed to the setter
    radix: int = 0
    enable: Optional[Tuple[int, int]] = None   # (msb, bits) of enable bits (same word)
    reset: bool = False
    enum: Optional[List[int]] = None           # legal raw values (None: all)
    default: int = 0                           # default raw value

    @property
    def off(self):              # bit offset from the start, most significant first
        return self.word * 32 + (31 - self.msb)

    @property
    def en_off(self):
        return self.word * 32 + (31 - self.enable[0]) if self.enable else -1


@dataclass
class Struct:
    cpp: str                    # C++ type
    size: int                   # bytes
    subs: List[Sub]
    include: str = ''

    def sub(self, name):
        return next(s for s in self.subs if s.name == name)

    def encode(self, **raw):
        """bytes of a default-constructed structure with the given raw codes"""
        v = 0
        nb = self.size * 8
        def put(off, bits, x):
            nonlocal v
            m = (1 << bits) - 1
            sh = nb - off - bits
            v = (v & ~(m << sh)) | ((x & m) << sh)
        for s in self.subs:
            put(s.off, s.bits, s.default)
        for k, x in raw.items():
            s = self.sub(k)
            put(s.off, s.bits, x)
            if s.enable:
                put(s.en_off, s.enable[1], (1 << s.enable[1]) - 1)
        return v.to_bytes(self.size, 'big')

    def setter_code(self, var, **raw):
        out = []
        for k, x in raw.items():
            s = self.sub(k)
            out.append(f'{var}.{k}({s.cpp_value(x)});')
        return ' '.join(out)


def _cpp_value(self, raw):
    """C++ expression which the setter turns into raw code `raw`"""
    if self.kind == 'bool':
        return 'true' if raw else 'false'
    if self.kind == 'enum':
        return f'static_cast<{self.ctype}>({raw})'
    if self.kind == 'fx':
        if raw >= 1 << (self.bits - 1):
            raw -= 1 << self.bits
        return f'static_cast<double>({raw}LL) / {1 << self.radix}.0'
    if self.kind == 'ufx':
        return f'static_cast<double>({raw}ULL) / {1 << self.radix}.0'
    if self.kind == 'm1':
        return f'static_cast<{self.ctype}>({raw}u + 1u)'
    return f'static_cast<{self.ctype}>({raw}ull)'
Sub.cpp_value = _cpp_value


def U(name, word, msb, bits, ctype, **k): return Sub(name, word, msb, bits, 'uint', ctype, **k)
def B(name, word, msb, **k): return Sub(name, word, msb, 1, 'bool', 'bool', **k)
def E(name, word, msb, bits, ctype, **k): return Sub(name, word, msb, bits, 'enum', NS + ctype, **k)
def F(name, word, msb, bits, radix, **k): return Sub(name, word, msb, bits, 'fx', 'double', radix=radix, **k)

INC = lambda f: f'#include <vrtgen/packing/{f}.hpp>'

# ---------------------------------------------------------------- headers etc.
_hdr = [E('packet_type', 0, 31, 4, 'PacketType', enum=list(range(8))),
        B('class_id_enable', 0, 27), E('tsi', 0, 23, 2, 'TSI'), E('tsf', 0, 21, 2, 'TSF'),
        U('packet_count', 0, 19, 4, 'uint8_t'), U('packet_size', 0, 15, 16, 'uint16_t')]
STRUCTS = {}
def S(name, size, subs, inc, cpp=None):
    STRUCTS[name] = Struct(cpp or NS + name, size, subs, INC(inc))
    return STRUCTS[name]

S('Header', 4, list(_hdr), 'header')
S('DataHeader', 4, _hdr + [B('trailer_included', 0, 26), B('not_v49d0', 0, 25), E('spectrum_or_time', 0, 24, 1, 'SPECTRUM_OR_TIME')], 'header')
S('ContextHeader', 4, _hdr + [B('not_v49d0', 0, 25), E('tsm', 0, 24, 1, 'TSM')], 'header')
S('CommandHeader', 4, _hdr + [B('acknowledge_packet', 0, 26), B('cancellation_packet', 0, 24)], 'header')
S('ClassIdentifier', 8, [U('pad_bits', 0, 31, 5, 'uint8_t'), U('oui', 0, 23, 24, 'uint32_t'),
                         U('information_code', 1, 31, 16, 'uint16_t'), U('packet_code', 1, 15, 16, 'uint16_t')], 'prologue')
_cam = [B('controllee_enable', 0, 31), E('controllee_format', 0, 30, 1, 'IdentifierFormat'),
        B('controller_enable', 0, 29), E('controller_format', 0, 28, 1, 'IdentifierFormat'),
        B('permit_partial', 0, 27), B('permit_warnings', 0, 26), B('permit_errors', 0, 25),
        E('action_mode', 0, 24, 2, 'ActionMode', enum=[0, 1, 2]), B('nack_only', 0, 22),
        E('timing_control', 0, 14, 3, 'TimestampControlMode', enum=[0, 1, 2, 3, 4, 7])]
S('ControlCAM', 4, _cam + [B('req_v', 0, 20), B('req_x', 0, 19), B('req_s', 0, 18), B('req_w', 0, 17), B('req_er', 0, 16)], 'command')
S('AcknowledgeCAM', 4, _cam + [B('ack_v', 0, 20), B('ack_x', 0, 19), B('ack_s', 0, 18), B('ack_w', 0, 17), B('ack_er', 0, 16),
                               B('partial_action', 0, 11), B('scheduled_or_executed', 0, 10)], 'command')
_IF0 = dict(change_indicator=31, reference_point_id=30, bandwidth=29, if_ref_frequency=28, rf_ref_frequency=27,
            rf_ref_frequency_offset=26, if_band_offset=25, reference_level=24, gain=23, over_range_count=22,
            sample_rate=21, timestamp_adjustment=20, timestamp_calibration_time=19, temperature=18, device_id=17,
            state_event_indicators=16, signal_data_format=15, formatted_gps=14, formatted_ins=13, ecef_ephemeris=12,
            relative_ephemeris=11, ephemeris_ref_id=10, gps_ascii=9, context_association_lists=8)
_IF1 = dict(phase_offset=31, polarization=30, pointing_vector=29, pointing_vector_structure=28, spatial_scan_type=27,
            spatial_reference_type=26, beam_width=25, range=24, ebno_ber=20, threshold=19, compression_point=18,
            intercept_points=17, snr_noise_figure=16, aux_frequency=15, aux_gain=14, aux_bandwidth=13,
            array_of_cifs=11, spectrum=10, sector_step_scan=9, index_list=7, discrete_io_32=6, discrete_io_64=5,
            health_status=4, v49_spec_compliance=3, version_information=2, buffer_size=1)
_IF2 = dict(bind=31, cited_sid=30, sibling_sid=29, parent_sid=28, child_sid=27, cited_message_id=26, controllee_id=25,
            controllee_uuid=24, controller_id=23, controller_uuid=22, information_source=21, track_id=20,
            country_code=19, operator_id=18, platform_class=17, platform_instance=16, platform_display=15,
            ems_device_class=14, ems_device_type=13, ems_device_instance=12, modulation_class=11, modulation_type=10,
            function_id=9, mode_id=8, event_id=7, function_priority_id=6, communication_priority_id=5,
            rf_footprint=4, rf_footprint_range=3)
_IF3 = dict(timestamp_details=31, timestamp_skew=30, rise_time=27, fall_time=26, offset_time=25, pulse_width=24,
            period=23, duration=22, dwell=21, jitter=20, age=17, shelf_life=16, air_temperature=7,
            sea_ground_temperature=6, humidity=5, barometric_pressure=4, sea_swell_state=3, tropospheric_state=2,
            network_id=1)
_IF7 = dict(current_value=31, mean_value=30, median_value=29, standard_deviation=28, max_value=27, min_value=26,
            precision=25, accuracy=24, first_derivative=23, second_derivative=22, third_derivative=21,
            probability=20, belief=19)
IF = {0: _IF0, 1: _IF1, 2: _IF2, 3: _IF3, 7: _IF7}
bits = lambda d: [B(n, 0, b) for n, b in d.items()]
en = lambda p: [B(f'{p}{n}_enable', 0, n) for n in (7, 3, 2, 1)]
S('CIF0', 4, bits(_IF0) + en('cif'), 'cif0')
S('CIF1', 4, bits(_IF1), 'cif1')
S('CIF2', 4, bits(_IF2), 'cif2')
S('CIF7', 4, bits(_IF7), 'cif7')
S('IndicatorField3', 4, bits(_IF3), 'indicator_fields')
S('WIF0', 4, bits(_IF0) + en('wif'), 'command')
S('EIF0', 4, bits(_IF0) + en('eif'), 'command')
S('WEIF1', 4, bits(_IF1), 'command')
S('WEIF2', 4, bits(_IF2), 'command')
S('WEIF3', 4, bits(_IF3), 'command')
S('WEIF7', 4, bits(_IF7), 'command')
_weif = ['field_not_executed', 'device_failure', 'erroneous_field', 'parameter_out_of_range',
         'parameter_unsupported_precision', 'field_value_invalid', 'timestamp_problem', 'hazardous_power_levels',
         'distortion', 'in_band_power_compliance', 'out_of_band_power_compliance', 'cosite_interference',
         'regional_interference']
S('WarningErrorFields', 4, [B(n, 0, 31 - i) for i, n in enumerate(_weif)], 'command')
_sei = [B(n, 0, 19 - i, enable=(31 - i, 1), reset=True) for i, n in enumerate(
    ['calibrated_time', 'valid_data', 'reference_lock', 'agc_mgc', 'detected_signal', 'spectral_inversion',
     'over_range', 'sample_loss'])]
S('StateEventIndicators', 4, _sei, 'state_event_indicators')
S('Trailer', 4, _sei + [E('sample_frame', 0, 11, 2, 'SSI', enable=(23, 2)),
                        U('associated_context_packets_count', 0, 6, 7, 'uint8_t', enable=(7, 1))], 'trailer')

# ---------------------------------------------------------------- CIF0 fields
S('Gain', 4, [F('stage_2', 0, 31, 16, 7), F('stage_1', 0, 15, 16, 7)], 'cif0')
S('DifiReferenceLevel', 4, [F('scaling_level', 0, 31, 16, 7), F('reference_level', 0, 15, 16, 7)], 'cif0', NS + 'difi::ReferenceLevel')
S('DeviceIdentifier', 8, [U('manufacturer_oui', 0, 23, 24, 'uint32_t'), U('device_code', 1, 15, 16, 'uint16_t')], 'cif0')
_unk = dict(default=0x7FFFFFFF)
_ts = [E('tsi', 0, 27, 2, 'TSI'), E('tsf', 0, 25, 2, 'TSF'), U('manufacturer_oui', 0, 23, 24, 'uint32_t'),
       U('integer_timestamp', 1, 31, 32, 'uint32_t', default=0xFFFFFFFF),
       U('fractional_timestamp', 2, 31, 64, 'uint64_t', default=0xFFFFFFFFFFFFFFFF)]
S('Geolocation', 44, _ts + [F('latitude', 4, 31, 32, 22, **_unk), F('longitude', 5, 31, 32, 22, **_unk),
    F('altitude', 6, 31, 32, 5, **_unk), F('speed_over_ground', 7, 31, 32, 16, **_unk),
    F('heading_angle', 8, 31, 32, 22, **_unk), F('track_angle', 9, 31, 32, 22, **_unk),
    F('magnetic_variation', 10, 31, 32, 22, **_unk)], 'cif0')
S('Ephemeris', 52, _ts + [F(f'position_{c}', 4 + i, 31, 32, 5, **_unk) for i, c in enumerate('xyz')]
  + [F(f'attitude_{c}', 7 + i, 31, 32, 22, **_unk) for i, c in enumerate(['alpha', 'beta', 'phi'])]
  + [F(f'velocity_d{c}', 10 + i, 31, 32, 16, **_unk) for i, c in enumerate('xyz')], 'cif0')
M1 = lambda n, w, m, b, c: Sub(n, w, m, b, 'm1', c)
S('PayloadFormat', 8, [E('packing_method', 0, 31, 1, 'PackingMethod'), E('real_complex_type', 0, 30, 2, 'DataSampleType'),
    E('data_item_format', 0, 28, 5, 'DataItemFormat'), B('repeat_indicator', 0, 23), U('event_tag_size', 0, 22, 3, 'uint8_t'),
    U('channel_tag_size', 0, 19, 4, 'uint8_t'), U('data_item_fraction_size', 0, 15, 4, 'uint8_t'),
    M1('item_packing_field_size', 0, 11, 6, 'uint8_t'), M1('data_item_size', 0, 5, 6, 'uint8_t'),
    M1('repeat_count', 1, 31, 16, 'uint16_t'), M1('vector_size', 1, 15, 16, 'uint16_t')], 'cif0')
# ---------------------------------------------------------------- CIF1 fields
S('Polarization', 4, [F('tilt_angle', 0, 31, 16, 13), F('ellipticity_angle', 0, 15, 16, 13)], 'cif1')
S('PointingVector', 4, [F('elevation_angle', 0, 31, 16, 7), Sub('azimuthal_angle', 0, 15, 16, 'ufx', 'double', radix=7)], 'cif1')
S('BeamWidth', 4, [F('horizontal', 0, 31, 16, 7), F('vertical', 0, 15, 16, 7)], 'cif1')
S('EbNoBER', 4, [F('ebno', 0, 31, 16, 7, default=0x7FFF), F('ber', 0, 15, 16, 7, default=0x7FFF)], 'cif1')
S('Threshold', 4, [F('stage_2', 0, 31, 16, 7), F('stage_1', 0, 15, 16, 7)], 'cif1')
S('InterceptPoints', 4, [F('second_order', 0, 31, 16, 7), F('third_order', 0, 15, 16, 7)], 'cif1')
S('SNRNoise', 4, [F('snr', 0, 31, 16, 7, default=0x7FFF), F('noise', 0, 15, 16, 7)], 'cif1')
S('Spectrum', 52, [E('window_time', 0, 19, 4, 'WindowTimeDelta', enum=[0, 1, 2, 3]),
    E('averaging_type', 0, 15, 8, 'AveragingType', enum=[0, 1, 2, 4, 8, 16, 32]),
    E('spectrum_type', 0, 7, 8, 'SpectrumType', enum=[0, 1, 2, 3, 4]), E('window_type', 1, 7, 8, 'WindowType', enum=list(range(44))),
    U('num_transform_points', 2, 31, 32, 'uint32_t'), U('num_window_points', 3, 31, 32, 'uint32_t'),
    Sub('resolution', 4, 31, 64, 'fx', 'double', radix=20), Sub('span', 6, 31, 64, 'fx', 'double', radix=20),
    U('num_averages', 8, 31, 32, 'uint32_t'), U('weighting_factor', 9, 31, 32, 'uint32_t'),
    U('f1_index', 10, 31, 32, 'int32_t'), U('f2_index', 11, 31, 32, 'int32_t'),
    U('window_time_delta', 12, 31, 32, 'uint32_t')], 'cif1')
S('SectorStepScanCIF', 4, [B(n, 0, 31 - i) for i, n in enumerate(
    ['sector_number', 'f1_start_frequency', 'f2_stop_frequency', 'resolution_bandwidth', 'tune_step_size',
     'number_points', 'default_gain', 'threshold', 'dwell_time', 'start_time', 'time_3', 'time_4'])], 'cif1')
S('VersionInformation', 4, [U('year', 0, 31, 7, 'uint8_t'), U('day', 0, 24, 9, 'uint16_t'),
    U('revision', 0, 15, 6, 'uint8_t'), U('user_defined', 0, 9, 10, 'uint16_t')], 'cif1')
S('DifiBufferSize', 12, [U('buffer_size', 0, 31, 64, 'uint64_t'), U('level', 2, 15, 12, 'uint16_t'),
    B('overflow', 2, 3), B('nearly_full', 2, 2), B('nearly_empty', 2, 1), B('underflow', 2, 0)], 'cif1', NS + 'difi::BufferSize')
# ---------------------------------------------------------------- CIF7
S('Belief', 4, [U('belief_percent', 0, 7, 8, 'uint8_t')], 'cif7')
S('Probability', 4, [U('probability_function', 0, 15, 8, 'uint8_t'), U('probability_percent', 0, 7, 8, 'uint8_t')], 'cif7')


# ---------------------------------------------------------------- indicator-word fields
@dataclass
class CField:
    """A field announced by an indicator word."""
    name: str
    cif: int
    bit: int
    kind: str            # 'int', 'fx', 'struct', 'uuid'
    size: int            # encoded bytes
    ctype: str           # C++ type of setter argument (scalars) or structure name
    vbits: int = 0       # value bits (right-aligned in `size` bytes)
    radix: int = 0
    v: tuple = ()        # two (or more) sample raw codes / dicts
    yaml: Optional[str] = None     # YAML text of the enabling value with {mode}; None: plain mode

    def enc(self, i):
        x = self.v[i]
        if self.kind == 'struct':
            return STRUCTS[self.ctype].encode(**x)
        if self.kind == 'uuid':
            return bytes.fromhex(x.replace('-', ''))
        return (x & ((1 << self.vbits) - 1)).to_bytes(self.size, 'big')

    def cpp(self, i):
        """C++ expression of sample value i"""
        x = self.v[i]
        if self.kind == 'struct':
            st = STRUCTS[self.ctype]
            return '[]{ ' + f'{st.cpp} s{{}}; {st.setter_code("s", **x)} return s; }}()'
        if self.kind == 'uuid':
            return f'vrtgen::UUID{{"{x}"}}'
        if self.kind == 'fx':
            # exactly representable in long double
            return f'(static_cast<{self.ctype}>({x}LL) / static_cast<{self.ctype}>({1 << self.radix}LL))'
        return f'static_cast<{self.ctype}>({x}ull)' if x >= 0 else f'static_cast<{self.ctype}>({x}ll)'

    def type(self):
        return STRUCTS[self.ctype].cpp if self.kind == 'struct' else ('vrtgen::UUID' if self.kind == 'uuid' else self.ctype)

FIELDS = []
def _f(*a, **k): FIELDS.append(CField(*a, **k))
def u32(n, c, v): _f(n, c, IF[c][n], 'int', 4, 'uint32_t', 32, v=v)
def u16(n, c, v): _f(n, c, IF[c][n], 'int', 4, 'uint16_t', 16, v=v)
def fx64(n, c, v): _f(n, c, IF[c][n], 'fx', 8, 'long double', 64, 20, v)
def fx16(n, c, r, v): _f(n, c, IF[c][n], 'fx', 4, 'double', 16, r, v)
def st(n, c, s, v1, v2, **k): _f(n, c, IF[c][n], 'struct', STRUCTS[s].size, s, v=(v1, v2), **k)

u32('reference_point_id', 0, (0x11223344, 0xA0B0C0D0))
fx64('bandwidth', 0, (1234567890123, 0x0001020304050607))
fx64('if_ref_frequency', 0, (-3, 0x1111111122222222))
fx64('rf_ref_frequency', 0, (987654321 << 20, -(1 << 40)))
fx64('rf_ref_frequency_offset', 0, (-12345678, 77 << 19))
fx64('if_band_offset', 0, (1 << 62, -1))
fx16('reference_level', 0, 7, (-4096, 0x1234))
st('gain', 0, 'Gain', dict(stage_2=0x8001, stage_1=0x0102), dict(stage_2=0x7ffe, stage_1=0xff80))
u32('over_range_count', 0, (7, 0xFFFFFFFE))
fx64('sample_rate', 0, (48000 << 20, 44100 << 20))
_f('timestamp_adjustment', 0, 20, 'int', 8, 'uint64_t', 64, v=(0x0102030405060708, 0xFFFFFFFFFFFFFFF0))
u32('timestamp_calibration_time', 0, (1, 0x80000000))
fx16('temperature', 0, 6, (-1600, 0x0ABC))
st('device_id', 0, 'DeviceIdentifier', dict(manufacturer_oui=0xFFEEDD, device_code=0x1234), dict(manufacturer_oui=0x010203, device_code=0xFEDC))
st('state_event_indicators', 0, 'StateEventIndicators', dict(calibrated_time=1, over_range=0), dict(valid_data=1, sample_loss=1))
st('signal_data_format', 0, 'PayloadFormat', dict(packing_method=1, data_item_size=15, vector_size=0x1234), dict(real_complex_type=1, data_item_format=0x0e, item_packing_field_size=31, repeat_count=7))
st('formatted_gps', 0, 'Geolocation', dict(tsi=1, tsf=2, manufacturer_oui=0xABCDEF, integer_timestamp=5, latitude=0x01020304), dict(fractional_timestamp=9, longitude=0xFFFFFFF0, magnetic_variation=0x11))
st('formatted_ins', 0, 'Geolocation', dict(tsi=3, altitude=0x55555555, track_angle=0x22), dict(tsf=1, speed_over_ground=0x12345678, heading_angle=0x7))
st('ecef_ephemeris', 0, 'Ephemeris', dict(tsi=2, position_x=1, velocity_dz=0x0A0B0C0D), dict(integer_timestamp=1, attitude_beta=0x00FF00FF, velocity_dx=3))
st('relative_ephemeris', 0, 'Ephemeris', dict(tsf=3, position_z=0x7fff0000, attitude_alpha=2), dict(fractional_timestamp=4, position_y=6, velocity_dy=8))
u32('ephemeris_ref_id', 0, (0xCAFEBABE, 2))
fx16('phase_offset', 1, 7, (402, -402))
st('polarization', 1, 'Polarization', dict(tilt_angle=0x2000, ellipticity_angle=0xE000), dict(tilt_angle=0x8000, ellipticity_angle=1))
st('pointing_vector', 1, 'PointingVector', dict(elevation_angle=0xD300, azimuthal_angle=0x5A00), dict(elevation_angle=0x2D00, azimuthal_angle=0x0080))
u16('spatial_scan_type', 1, (0x0102, 0xFFFF))
st('beam_width', 1, 'BeamWidth', dict(horizontal=0x0100, vertical=0x0200), dict(horizontal=0x7F00, vertical=0x0001))
_f('range', 1, 24, 'fx', 4, 'long double', 32, 6, (1 << 20, 0x7FFFFFFF))
st('ebno_ber', 1, 'EbNoBER', dict(ebno=0x0123, ber=0x4567), dict(ebno=0x8000, ber=0x7FFE))
st('threshold', 1, 'Threshold', dict(stage_2=1, stage_1=2), dict(stage_2=0xFF00, stage_1=0x00FF))
fx16('compression_point', 1, 7, (1, -32768))
st('intercept_points', 1, 'InterceptPoints', dict(second_order=3, third_order=4), dict(second_order=0x8080, third_order=0x7070))
st('snr_noise_figure', 1, 'SNRNoise', dict(snr=5, noise=6), dict(snr=0xFFFF, noise=0x8001))
fx64('aux_frequency', 1, (7 << 33, -9))
st('aux_gain', 1, 'Gain', dict(stage_2=0x0a0b, stage_1=0x0c0d), dict(stage_2=0xFFFF, stage_1=0))
fx64('aux_bandwidth', 1, (5, 6 << 44))
st('spectrum', 1, 'Spectrum', dict(spectrum_type=2, averaging_type=4, window_time=3, window_type=6, num_transform_points=1024, num_window_points=512, resolution=1 << 20, span=3 << 20, num_averages=2, weighting_factor=9, f1_index=1, f2_index=2, window_time_delta=77),
   dict(spectrum_type=1, averaging_type=1, window_time=1, window_type=43, num_transform_points=1, num_window_points=2, resolution=3, span=4, num_averages=5, weighting_factor=6, f1_index=0xFFFFFFFF, f2_index=0x80000000, window_time_delta=0x01020304))
_f('discrete_io_32', 1, 6, 'int', 4, 'uint32_t', 32, v=(0xDEADBEEF, 1))
_f('discrete_io_64', 1, 5, 'int', 8, 'uint64_t', 64, v=(0xDEADBEEF01020304, 3))
u16('health_status', 1, (0xABCD, 1))
_f('v49_spec_compliance', 1, 3, 'int', 4, NS + 'V49StandardCompliance', 32, v=(4, 2))
st('version_information', 1, 'VersionInformation', dict(year=23, day=300, revision=5, user_defined=17), dict(year=127, day=1, revision=63, user_defined=1023))
fx64('buffer_size', 1, (0x0807060504030201, 3 << 20))
for _i, (_n, _b) in enumerate(_IF2.items()):
    if _n.endswith('_uuid'):
        _f(_n, 2, _b, 'uuid', 16, 'UUID', v=(f'00112233-4455-6677-8899-aabbccddee{_b:02x}', f'f0e1d2c3-b4a5-9687-7869-5a4b3c2d1e{_b:02x}'))
    else:
        u32(_n, 2, (0x02000000 + _b * 0x010101, 0xF0000001 + _b * 0x100))
BYNAME = {(f.cif, f.name): f for f in FIELDS}
def field(name, cif=None):
    return next(f for f in FIELDS if f.name == name and (cif is None or f.cif == cif))
# DIFI variants (selected with a tag instead of a mode)
DIFI_REFLEVEL = CField('reference_level', 0, 24, 'struct', 4, 'DifiReferenceLevel', v=(dict(scaling_level=0x0203, reference_level=0x0405), dict(scaling_level=0xFFFE, reference_level=0x8000)), yaml='!DIFI1p2ReferenceLevel\n      mode: {mode}')
DIFI_BUFSIZE = CField('buffer_size', 1, 1, 'struct', 12, 'DifiBufferSize', v=(dict(buffer_size=0x0102030405060708, level=0xABC, overflow=1), dict(buffer_size=3, underflow=1, nearly_full=1)), yaml='!DIFI1p2BufferSize\n      mode: {mode}')


class VarField:
    """A field whose encoded size depends on its value: samples are (C++ statements on s, bytes)."""
    kind, size, vbits, radix = 'struct', 8, 0, 0

    def __init__(self, name, cif, ctype, default, samples, yaml=None, values=None):
        self.name, self.cif, self.bit, self.ctype, self.yaml = name, cif, IF[cif][name], ctype, yaml
        self.default, self.v = default, samples

    def enc(self, i): return self.v[i][1]
    def cpp(self, i): return '[]{ ' + f'{self.ctype} s{{}}; {self.v[i][0]} return s; }}()'
    def type(self): return self.ctype


class UserField:
    """A discrete I/O field with a layout of its own: parts are (name, YAML, bits), the first one lowest; samples give the parts' values."""
    kind, vbits, radix, ctype = 'struct', 0, 0, ''

    def __init__(self, bits, parts, samples):
        self.name, self.cif, self.size = f'discrete_io_{bits}', 1, bits // 8
        self.bit, self.parts, self.v, self.default = IF[1][self.name], parts, samples, bytes(self.size)
        self.yaml = f'!DiscreteIO{bits}\n      mode: {{mode}}' + ''.join(f'\n      {n}: {y}' for n, y, b in parts)

    def enc(self, i):
        at = v = 0
        for (n, y, b), x in zip(self.parts, self.v[i]):
            v |= x << at
            at += b
        return v.to_bytes(self.size, 'big')

    def cpp(self, i):
        t = ''
        for (n, y, b), x in zip(self.parts, self.v[i]):
            if y == 'enable_indicator':
                t += f's.{n}({x & 1}); s.{n}_enable({x >> 1}); '
            else:
                t += f's.{n}(static_cast<decltype(s.{n}())>({x}ull)); '
        return '[]{ ' + self.type() + ' s{}; ' + t + 'return s; }()'

    def type(self): return f'std::remove_cvref_t<decltype(pkt::bare(std::declval<P&>().{self.name}()))>'


DIO32 = UserField(32, [('flag', 'bool', 1), ('mode_of_use', '!!seq [IDLE, RUN, STOP]', 2), ('gate', 'enable_indicator', 2), ('level', '13', 13)], ((1, 2, 3, 0x1555), (0, 1, 2, 1), (1, 0, 1, 0)))
DIO64 = UserField(64, [('wide', '40', 40), ('flag', 'bool', 1), ('pick', '!!seq [A, B, C, D, E]', 3), ('gate', 'enable_indicator', 2)], ((0xFEDCBA9876, 1, 4, 3), (1, 0, 3, 1)))


def _w(*a): return b''.join(x.to_bytes(4, 'big') for x in a)
def _gps(oui, t): return (f's.manufacturer_oui({oui:#x}); s.ascii_sentences({{{",".join(map(str, t))}}});', _w(oui, (len(t) + 3) // 4) + t + bytes(-len(t) % 4))
def _cal(a, b, c, d, e):
    L = lambda x: '{' + ','.join(f'{i:#x}u' for i in x) + '}'
    t = f's.source_list({L(a)}); s.system_list({L(b)}); s.vector_component_list({L(c)}); s.async_channel_list({L(d)});'
    if e is not None:
        t += f' s.async_channel_tag_list_enable(true); s.async_channel_tag_list({L(e)});'
    h = len(a) << 48 | len(b) << 32 | len(c) << 16 | (0x8000 if e is not None else 0) | len(d)
    return (t, h.to_bytes(8, 'big') + _w(*a, *b, *c, *d, *(e or ())))
def _idx(bits, tot, v):
    n = bits // 8
    return (f's.entry_size(static_cast<vrtgen::packing::EntrySize>({n})); s.total_size({tot}); s.num_entries({len(v)}); s.entries({{{",".join(map(str, v))}}});',
            _w(tot, n << 28 | len(v)) + b''.join(x.to_bytes(n, 'big') for x in v))

GPS_ASCII = VarField('gps_ascii', 0, 'vrtgen::packing::GPS_ASCII', _w(0, 0), (_gps(0x123456, b'$GPGGA,17'), _gps(0xABCDEF, b'$G'), _gps(0, b'')))
def _text(oui, n):
    d = bytes((i * 7 + i // 256) % 256 for i in range(n))
    return (f's.manufacturer_oui({oui:#x}); std::vector<uint8_t> d({n}); for (std::size_t i = 0; i < d.size(); i++) d[i] = static_cast<uint8_t>(i * 7 + i / 256); s.ascii_sentences(d);', _gps(oui, d)[1])
# packets of more than 2^16 bytes, up to the largest
TEXT = VarField('gps_ascii', 0, 'vrtgen::packing::GPS_ASCII', _w(0, 0), (_text(0x123456, 65600), _text(0xABCDEF, 261900), _text(0x55AA, 32752)))
CAL = VarField('context_association_lists', 0, 'vrtgen::packing::ContextAssociationLists', _w(0, 0),
               (_cal((0x01020304,), (5, 6), (), (0xFFFFFFFF, 7), (8, 9)), _cal((), (), (0x11223344,), (), None), _cal((1, 2, 3), (), (4,), (5,), None)))
def index_list(bits):
    return VarField('index_list', 1, f'vrtgen::packing::IndexList<uint{bits}_t>', _w(0, 0),
                    (_idx(bits, 5, tuple(0x0102030405 % (1 << bits) + i for i in range(4))), _idx(bits, 2, ()), _idx(bits, 6, tuple(range(8)))),
                    yaml=f'!IndexList\n      entry_size: {bits}')
