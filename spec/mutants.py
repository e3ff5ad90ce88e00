#!/usr/bin/env python3
"""Shows that the properties of the design models are not vacuous: every named mistake (constant Bug) breaks one of them.

Not a registered check; run by hand after changing Glompo.tla or ChunkQueue.tla. Exit 1 if a mistake goes unnoticed.
"""
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vlib  # noqa

CASES = {'GlompoHunt': ['countkilled', 'dup', 'ties', 'huntself', 'killended', 'nosend', 'lostq'],
         'GlompoSlots': ['onesig'], 'GlompoCk': ['ckfull', 'ckdrop', 'cknodead', 'ckcut', 'ckdie'],
         'GlompoLive': ['ckhang', 'endtwice'], 'GlompoFault': ['norelease'],
         'GlompoStop': ['spawnstop', 'nostop', 'nodrain', 'nopause'],
         'ChunkQueue': ['nobound', 'drop', 'nolock', 'keep', 'lockheld', 'lifo'],
         'LogFile': ['off1', 'keepchunk', 'noflush', 'noclose', 'nocheck', 'samesum', 'norows', 'nogroups', 'noends']}
bad = 0
with vlib.Scratch() as d:
    for cfg, bugs in CASES.items():
        if sys.argv[1:] and cfg not in sys.argv[1:]:
            continue
        with open(f'{vlib.HERE}/spec/{cfg}.cfg') as fh:
            text = fh.read()
        for b in bugs:
            with open(f'{d}/x.cfg', 'w') as fh:
                fh.write(re.sub(r'Bug *= *"none"', f'Bug = "{b}"', text))
            rc, out = vlib.tlc((cfg if cfg in ('ChunkQueue', 'LogFile') else 'Glompo') + '.tla', f'{d}/x.cfg', d, workers=vlib.NCPU,
                               args=('-deadlock',), timeout=300, heap='8g')
            m = re.search(r'(Invariant \w+|Temporal propert[^\n]*|Action property \w+)[^\n]*violated', out)
            print(cfg, b, m.group(0) if m else 'NOT NOTICED', flush=True)
            bad += m is None
sys.exit(1 if bad else 0)
