"""C04: data packets, exhaustive edit histories against a reference encoder."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vt.pktgen import Pkt
from vt.common import *
from c03 import explore

SZ = (1, 2, 3, 4, 5, 7, 8, 12, 17)
ALL = tuple(range(1, 41))


def packets(thorough):
    """(packet, quick depth, thorough depth)"""
    out = [
        (Pkt('Plain', 'data', payloads=SZ), 4, 5),
        (Pkt('Stream', 'data', payloads=SZ, stream=0x11223344), 3, 4),
        (Pkt('WithClass', 'data', payloads=(1, 4, 6, 11), class_id=(0xFFEEDD, 2, 0x1234), stream=''), 4, 5),
        (Pkt('Times', 'data', payloads=(3, 4, 8), tsi='utc', tsf='picoseconds'), 3, 4),
        (Pkt('AnyTimes', 'data', payloads=(2, 4), tsi='any', tsf='any', sot='spectrum'), 3, 4),
        (Pkt('Trail', 'data', payloads=(1, 4, 5, 8), trailer={}), 3, 4),
        (Pkt('TrailAll', 'data', payloads=(1, 2, 3, 4, 9), trailer={'sample_frame': True, 'user': [('user_defined_a', 'flag'), ('user_defined_b', 'flag')]},
             stream=5, class_id=(1, 2, 3), tsi='gps', tsf='samples', sot='time'), 2, 3),
        (Pkt('TrailUser', 'data', payloads=(4, 6), trailer={'user': [('user_defined_e', 16)]}), 2, 3),
        (Pkt('TrailMix', 'data', payloads=(4, 6), trailer={'sample_frame': True, 'user': [('user_defined_e', 3)]}, tsf='free-running'), 2, 3),
        (Pkt('SizesPlain', 'data', payloads=ALL), 2, 3),
        (Pkt('SharedData', 'data', payloads=(1, 4, 6), class_id=(0xFFEEDD, None, 0x78), codes=(1, 0x2000), stream='', trailer={}), 3, 4),
        (Pkt('StreamLay', 'data', payloads=(1, 4, 6), stream=(('upper', 12, 0), ('fixed', 9, 0x155), ('lower', 10, 0)), trailer={}), 3, 4),
        (Pkt('SizesTrail', 'data', payloads=ALL, trailer={}, class_id=(1, 1, 1)), 2, 3),
        (Pkt('Huge', 'data', payloads=(262128, 262125, 65536, 5), tsf='samples'), 2, 3),
        (Pkt('HugeTrail', 'data', payloads=(262128, 131072, 262125), trailer={}, stream=''), 2, 2),
    ]
    # the huge ones: the largest payload the 16-bit size field can describe
    return out


def check(c):
    explore(c, packets(c.thorough), tag='d')
    c.assumptions += ['payload byte patterns are fixed per size and never zero, so stale or missing padding shows',
                      'payload sizes: 0..40 exhaustively, plus the largest a packet can carry']

if __name__ == '__main__':
    main('C04', check)
