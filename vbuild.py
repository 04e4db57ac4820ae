#!/usr/bin/env python3
"""Builds the check binaries from /repo's current working tree.

Objects live in /verif/build (git-ignored) under a name that is a hash of
everything that went into them, so a changed tree can never reuse stale ones.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
H = os.path.join(VERIF, 'harness')

DEFS = ['-DSPDLOG_COMPILED_LIB', '-DSPDLOG_FMT_EXTERNAL', '-DSPDLOG_SHARED_LIB']
BASE = ['-std=c++17', '-fno-omit-frame-pointer', '-w', '-pthread']
VARIANTS = {
    # name: (compiler, flags for /repo's sources, flags for the harness, link flags)
    'asan': ('clang++',
             ['-O0', '-gline-tables-only', '-fsanitize=address',
              '-fsanitize-coverage=inline-8bit-counters,trace-cmp'],
             ['-O0', '-gline-tables-only', '-fsanitize=address'],
             ['-fsanitize=address']),
    'ubsan': ('clang++',
              ['-O0', '-gline-tables-only',
               '-fsanitize=address,bounds,null,alignment,shift,return,unreachable,'
               'integer-divide-by-zero,pointer-overflow,vla-bound,object-size,bool,enum',
               '-fno-sanitize-recover=all',
               '-fsanitize-coverage=inline-8bit-counters,trace-cmp'],
              ['-O0', '-gline-tables-only', '-fsanitize=address'],
              ['-fsanitize=address,undefined']),
    # memory accesses and atomics of /repo's code call the hooks in
    # harness/schedrun.cc, which own the thread schedule
    'sched': ('clang++',
              ['-O0', '-gline-tables-only', '-fsanitize=thread', '-mllvm', '-tsan-instrument-func-entry-exit=0'],
              ['-O1', '-gline-tables-only'],
              []),
}
LIBS = ('-labsl_synchronization '
        '-labsl_time -labsl_strings -labsl_base -labsl_raw_logging_internal -labsl_hash -labsl_city -labsl_throw_delegate -labsl_int128 -labsl_strings_internal '
        '-lspdlog -lfmt -lcurl -lssl -lcrypto -lz -lxxhash -lpthread').split()
POCO = ['-lPocoNet', '-lPocoJSON', '-lPocoFoundation']

SETS = {
    'light': ['spectator/common_refs.cc', 'spectator/counter.cc', 'spectator/dist_summary.cc',
              'spectator/gauge.cc', 'spectator/max_gauge.cc', 'spectator/monotonic_counter.cc',
              'spectator/monotonic_counter_uint.cc', 'spectator/monotonic_sampled.cc',
              'spectator/percentile_buckets.cc', 'spectator/string_pool.cc', 'spectator/strings.cc',
              'spectator/timer.cc', 'spectator/smile.cc', 'spectator/gzip.cc',
              'spectator/compressed_buffer.cc'],
}
HEAVY_EXCLUDE = ('_test.cc', '/netflix_config.cc', '/http_server.cc', '/test_utils.cc', '/metatron_netflix.cc')


def repo_sources(what):
    """what: list of set names; 'reg' adds registry+http, 'server' server/*, 'admin' admin/*"""
    out = []

    def add(pattern, skip=()):
        for f in sorted(glob.glob(os.path.join(REPO, pattern))):
            if f.endswith(HEAVY_EXCLUDE) or any(f.endswith(s) for s in skip):
                continue
            if f not in out:
                out.append(f)
    for w in what:
        if w == 'light':
            add('spectator/*.cc', skip=('/registry.cc', '/http_client.cc', '/sample_config.cc'))
        elif w == 'http':
            add('spectator/http_client.cc')
            add('util/*.cc')
            add('metatron/metatron_sample.cc')
        elif w == 'reg':
            add('spectator/registry.cc')
            add('spectator/http_client.cc')
            add('spectator/sample_config.cc')
            add('util/*.cc')
            add('metatron/metatron_sample.cc')
        elif w == 'server':
            add('server/*.cc')
        elif w == 'proc':
            add('server/proc_utils.cc')
            add('util/*.cc')
        elif w == 'admin':
            add('admin/*.cc')
        elif w == 'main':
            add('bin/spectatord_main.cc')
        else:
            add(w)
    return out


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(hashlib.sha256(p).digest())
    return h.hexdigest()[:32]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def headers_hash(dirs):
    fs = []
    for d in dirs:
        for root, dn, files in os.walk(d):
            dn[:] = [x for x in dn if not x.startswith('.') and x not in ('_build', 'build')]
            for f in files:
                if f.endswith(('.h', '.hpp', '.inc')):
                    fs.append(os.path.join(root, f))
    fs.sort()
    return sha(*[x for f in fs for x in (f, read(f))])


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        raise RuntimeError('command failed: %s\n%s' % (' '.join(cmd), r.stdout.decode(errors='replace')[-4000:]))
    return r.stdout


def atomic(path, fn):
    tmp = '%s.%d.tmp' % (path, os.getpid())
    fn(tmp)
    os.replace(tmp, path)


def generated():
    """the .inc files that the project's own tools print"""
    tools = ['gen_perc_bucket_tags:percentile_bucket_tags', 'gen_perc_bucket_values:percentile_bucket_values',
             'gen_valid_chars:valid_chars']
    srcs = [os.path.join(REPO, 'tools', t.split(':')[0] + '.cc') for t in tools]
    key = sha(*[read(s) for s in srcs], 'v1')
    d = os.path.join(BUILD, 'gen-' + key)
    if os.path.exists(os.path.join(d, 'ok')):
        return d
    os.makedirs(d, exist_ok=True)

    def one(t):
        tool, inc = t.split(':')
        exe = os.path.join(d, '%s.%d' % (tool, os.getpid()))
        run(['clang++', '-std=c++17', '-O0', '-w', os.path.join(REPO, 'tools', tool + '.cc'), '-o', exe, '-lfmt'])
        out_path = exe + '.out'
        r = subprocess.run([exe, out_path], stdout=subprocess.PIPE, check=True)
        out = r.stdout
        if os.path.exists(out_path):
            out = read(out_path)
            os.remove(out_path)
        atomic(os.path.join(d, inc + '.inc'), lambda p: open(p, 'wb').write(out))
        os.remove(exe)
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, tools))
    open(os.path.join(d, 'ok'), 'w').close()
    return d


def build(name, harness, sets, variant='asan', libs=(), extra_objs=None, defs=()):
    """returns the path of an up to date binary"""
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)
    cxx, rflags, hflags, lflags = VARIANTS[variant]
    gen = generated()
    inc = ['-I' + gen, '-I' + os.path.join(VERIF, 'shim', 'inc'), '-I' + REPO, '-I' + H]
    rh = headers_hash([os.path.join(REPO, d) for d in sorted(os.listdir(REPO))
                       if os.path.isdir(os.path.join(REPO, d)) and not d.startswith(('.', '_'))] +
                      [gen, os.path.join(VERIF, 'shim')])
    hh = headers_hash([H])
    jobs = []

    def plan(src, flags, hdr):
        cmd = [cxx] + BASE + DEFS + list(defs) + flags + inc
        key = sha(' '.join(cmd), src, read(src), hdr)
        jobs.append((os.path.join(BUILD, 'obj', key + '.o'), cmd, src))
    for s in repo_sources(sets):
        plan(s, rflags, rh)
    for s in harness:
        fl = hflags
        if s.startswith('!'):      # harness file compiled like /repo's code
            s, fl = s[1:], rflags
        s = os.path.join(H, s)
        plan(s, fl + (['-O1'] if s.endswith('engine.cc') else ['-fno-threadsafe-statics'] if s.endswith('schedrun.cc') else []), rh + hh)

    def compile_one(j):
        obj, cmd, src = j
        if os.path.exists(obj):
            os.utime(obj)
            return
        atomic(obj, lambda p: run(cmd + ['-c', src, '-o', p]))
    # slowest first
    order = sorted(jobs, key=lambda j: -(os.path.getsize(j[2]) + 100000 * any(
        j[2].endswith(x) for x in ('registry.cc', 'spectatord.cc', 'admin_server.cc', 'main.cc')) +
        (50000 if H in j[2] else 0)))
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(compile_one, order))
    link = [cxx] + lflags + ['-pthread', '-rdynamic']
    objs = [j[0] for j in jobs]
    key = sha(name, ' '.join(link), ' '.join(objs), ' '.join(libs))
    exe = os.path.join(BUILD, 'bin', name + '-' + key[:16])
    if not os.path.exists(exe):
        atomic(exe, lambda p: run(link + ['-o', p] + objs + list(libs) + LIBS))
    return exe


def prune(max_bytes=3 << 30):
    """keep the object cache bounded: drop the least recently used"""
    fs = []
    for d in ('obj', 'bin'):
        for f in glob.glob(os.path.join(BUILD, d, '*')):
            try:
                st = os.stat(f)
                fs.append((st.st_mtime, st.st_size, f))
            except OSError:
                pass
    fs.sort(reverse=True)
    tot = 0
    for m, s, f in fs:
        tot += s
        if tot > max_bytes:
            try:
                os.remove(f)
            except OSError:
                pass


def locked_build(*a, **kw):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = build(*a, **kw)
        prune()
        return exe
