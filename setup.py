#!/usr/bin/env python3
"""Builds every check binary from /repo's current tree (objects are cached under build/)."""
import sys
import vbuild
from targets import TARGETS

done = set()
for pid, t in sorted(TARGETS.items()):
    if t['bin'] in done:
        continue
    done.add(t['bin'])
    print(t['bin'], vbuild.locked_build(t['bin'], t['harness'], t['sets'], t.get('variant', 'asan'),
                                        t.get('libs', ()), defs=t.get('defs', ())))
    sys.stdout.flush()
    if 'main_bin' in t:
        print(vbuild.locked_build(*t['main_bin'][0], **t['main_bin'][1]))
