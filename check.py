#!/usr/bin/env python3
"""check.py <property> [--replay FILE]   run the check of one property.

Environment: VERIF_SEED (every random choice follows from it), VERIF_TIER
(quick | thorough).  Exit 0: held on everything explored.  Exit 1 with
"VIOLATION property=<id> replay=<path>": broken.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

import vbuild
from targets import LEVEL, stages

VERIF = vbuild.VERIF


def known_findings(pid):
    """the 'finding:' lines of known_findings.txt: property, key of the demonstration, text"""
    out = []
    for line in open(os.path.join(VERIF, 'known_findings.txt')):
        w = line.split(None, 3)
        if len(w) == 4 and w[0] == 'finding:' and w[1] == 'property=' + pid and w[2].startswith('key='):
            out.append((w[2][4:], w[3].strip()))
    return out


class Broken(Exception):
    pass


def stage(pid, sid, t, args, seed, tier, t0):
    """Runs one stage (id as the engine knows it, target): exit code and what it covered."""
    exe = vbuild.locked_build(t['bin'], t['harness'], t['sets'], t.get('variant', 'asan'), t.get('libs', ()),
                              defs=t.get('defs', ()))
    env = dict(os.environ)
    for k, v in t.get('env', {}).items():
        env[k] = v
    scratch = tempfile.mkdtemp(prefix='vf-%s-' % sid)
    build_s = time.time() - t0
    try:
        if 'main_bin' in t:
            env['VF_MAIN_BIN'] = vbuild.locked_build(*t['main_bin'][0], **t['main_bin'][1])
            build_s = time.time() - t0
        out = os.path.join(scratch, 'out.json')
        cmd = [exe, '--prop', sid, '--tier', tier, '--seed', str(seed), '--scratch', scratch, '--out', out,
               '--replays', os.path.join(VERIF, 'replays')]
        for k, v in args.items():
            cmd += [k, v]
        env['VF_SCRATCH'] = scratch
        if '--replay' not in args and sid == pid:
            for key, text in known_findings(pid):
                k = subprocess.run([exe, '--prop', pid, '--known', key, '--scratch', scratch], env=env, cwd=scratch)
                if k.returncode == 1:
                    print('KNOWN-FINDING: property=%s %s' % (pid, text), flush=True)
        rc = subprocess.run(cmd, env=env, cwd=scratch).returncode
        if '--replay' in args:
            return rc, None
        data = json.load(open(out))
        # A failure that could not be repeated: search on from other seeds. Three of
        # them which are not hangs are no accident of the machine.
        failures, runs = [], 0
        while rc == 3:
            if data['unconfirmed']:
                failures.append(data['unconfirmed'])
            if len(failures) == 3 or time.time() - t0 > 400:
                break
            runs += 1
            more = list(cmd)
            more[more.index('--seed') + 1] = str(seed + 1000003 * runs)
            rc = subprocess.run(more, env=env, cwd=scratch).returncode
            data = json.load(open(out))
        if rc == 3:
            rc = 0
            if len(failures) == 3:
                rc = 1
                data['violation'] = 'three failures that depend on the schedule of real threads'
                print('VIOLATION property=%s replay=%s' % (pid, failures[-1]), flush=True)
        if rc not in (0, 1):
            raise Broken('engine ended with %s' % rc)
        data['build_s'] = round(build_s, 1)
        return rc, data
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay_stage(path):
    w = open(path).readline().split()
    return w[1] if len(w) == 2 and w[0] == 'property' else ''


def coverage(data):
    cov = {k: v for k, v in data.items() if k not in ('assumptions', 'violation', 'unconfirmed', 'wall_s')}
    cov['samples'] = cov.get('samples') or ['(none kept)']
    return cov


def main():
    pid = sys.argv[1]
    args = dict(zip(sys.argv[2::2], sys.argv[3::2]))
    todo = stages(pid)
    if '--replay' in args:
        args['--replay'] = os.path.abspath(args['--replay'])
        todo = [s for s in todo if s[0] == replay_stage(args['--replay'])] or todo[:1]
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    ev = None
    try:
        for sid, t in todo:
            rc, data = stage(pid, sid, t, args, seed, tier, t0)
            if data is None:
                return rc
            if ev is None:
                ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': LEVEL, 'coverage': coverage(data),
                      'assumptions': data['assumptions']}
            else:
                ev['coverage'][sid.split('+')[1]] = coverage(data)
                ev['assumptions'] = ev['assumptions'] + ['second stage: ' + a for a in data['assumptions']]
            if rc:
                break
    except Broken as e:
        print(e)
        return 2
    ev['wall_s'] = round(time.time() - t0, 2)
    ev['violations'] = 1 if rc == 1 else 0
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', pid + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)
    return rc


if __name__ == '__main__':
    sys.exit(main())
