#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the claimed checks."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {  # id: (technique, level_note)
 'C01': ('exhaustive bounded exploration of set/reset/unpack histories on the real structures',
         'Every structure of the library; every value of subfields up to 16 bits, boundary families for wider ones; histories of length 2 (quick) / 3 (thorough) from 5-6 backgrounds including reserved bits. Oracle: bit positions transcribed from the standard. Trusts the compiler.'),
 'C02': ('exhaustive enumeration of fixed-point codes and rounding boundaries on the real conversions',
         'All codes of 8/16/32-bit formats; 64-bit formats at one/two-bit and bit-run codes. Oracle: exact integer arithmetic. Conversion functions, every structure subfield and every generated scalar field.'),
}
try:
    from manifest_notes import T as T2
    T.update(T2)
except ImportError:
    pass
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(f'{R}/checks/{i.lower()}.py') and i in T:
        checks.append({'property': i, 'quick_cmd': f'python3 checks/{i.lower()}.py quick', 'thorough_cmd': f'python3 checks/{i.lower()}.py thorough',
                       'technique': T[i][0], 'level': 'model_checking', 'level_note': T[i][1]})
    else:
        na.append({'property': i, 'reason': 'no check built yet'})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'Every check rebuilds the code under test (library headers, generator, generated packets) from /repo on each run; nothing is cached between runs.'}
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
open(R + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'claimed', len(na), 'not')
