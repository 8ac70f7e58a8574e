"""Builds one check executable from /repo's current working tree and /verif/harness.

The library sources are compiled as a few unity batches (with a fall back to one unit per file when a batch
does not compile), with AddressSanitizer and UndefinedBehaviorSanitizer. Objects are kept in build/ (ignored by
git) under a hash of everything they depend on.
"""
import glob
import hashlib
import os
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
JOBS = os.cpu_count() or 8

SAN = ['-fsanitize=address,undefined', '-fno-sanitize=vptr,alignment,object-size,pointer-overflow,function',
       '-fno-sanitize-recover=undefined']
# tier/flavour -> flags
FLAVOURS = {
    'quick': ['-O0', '-g1'] + SAN,
    'thorough': ['-O1', '-g1'] + SAN,
    'plain': ['-O1', '-g1'],
    'fuzz': ['-O1', '-g1', '-fsanitize=fuzzer-no-link'] + SAN,
    'tsan': ['-O1', '-g1', '-fsanitize=thread'],
}
INC = ['-I' + REPO + '/include', '-I' + REPO + '/src', '-I/usr/include/libxml2'] + \
      ['-I%s/extensions/%s/include' % (REPO, e) for e in ('iidm', 'sld', 'entsoe')]
COMMON = ['-w', '-include', VERIF + '/harness/engine/assertions.hpp', '-fno-omit-frame-pointer']
LIBS = ['-lxml2', '-lboost_date_time', '-lboost_filesystem', '-lboost_system', '-lboost_atomic', '-ldl', '-lpthread']


def read(path):
    with open(path, 'rb') as f:
        return f.read()


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def find(pattern):
    return sorted(f for f in glob.glob(pattern, recursive=True) if os.path.isfile(f))


def headers(roots):
    fs = []
    for r in roots:
        for e in ('hpp', 'hxx', 'h', 'ipp'):
            fs += find(r + '/**/*.' + e)
    return sorted(f for f in fs if '/_build/' not in f)


def library_sources():
    src = [f for f in find(REPO + '/src/**/*.cpp') if '/src/test/' not in f]
    ext, plug = [], []
    for f in find(REPO + '/extensions/*/src/**/*.cpp'):
        (plug if b'BOOST_DLL_ALIAS' in read(f) else ext).append(f)
    return src, ext, plug


def split(files, n):
    files = sorted(files, key=lambda f: (-os.path.getsize(f), f))
    out = [[] for _ in range(n)]
    for i, f in enumerate(files):
        out[i % n].append(f)
    # explicit specialisations must come before their first use
    return [sorted(b, key=lambda f: ('/src/xml/' not in f, f)) for b in out if b]


def cc(args):
    return subprocess.run(['clang++'] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)


def compile_one(src, obj, std, flags, extra=()):
    if os.path.exists(obj):
        return None
    tmp = obj + '.%d.tmp' % os.getpid()
    r = cc(['-std=' + std] + COMMON + list(flags) + INC + list(extra) + ['-c', src, '-o', tmp])
    if r.returncode:
        return r.stdout
    os.replace(tmp, obj)
    return None


class BuildError(Exception):
    pass


def build(prop_source, flavour='quick', libfuzzer=False, exe_name=None):
    """Returns the path of the executable for harness/props/<prop_source>."""
    os.makedirs(BUILD, exist_ok=True)
    flags = FLAVOURS[flavour]
    lib_headers = headers([REPO + '/include', REPO + '/src'] + find_dirs())
    lib_hash = digest(read(VERIF + "/harness/engine/assertions.hpp"), *[x for h in lib_headers for x in (h, read(h))], *flags)
    src, ext, plug = library_sources()
    jobs = []  # (sources, object key, std, extra)
    for b in split(src, 8):
        jobs.append(('lib', b, 'c++11', []))
    # (the header guards of the two phase angle clock extensions clash)
    for k in range(4):
        jobs.append(('ext', [f for i, f in enumerate(ext) if (3 if 'ThreeWindings' in f or 'TwoWindingsTransformerPhaseAngleClockAdder.cpp' in f else i % 3) == k], 'c++11', []))
    for p in plug:
        jobs.append(('plug', [p], 'c++11', ['-DcreateSerializers=createSerializers_' + os.path.basename(p)[:-4]]))
    har_headers = headers([VERIF + '/harness'])
    har_hash = digest(lib_hash, *[x for h in har_headers for x in (h, read(h))])
    prop = os.path.join(VERIF, 'harness/props', prop_source)
    for f in find(VERIF + '/harness/engine/*.cpp') + find(VERIF + '/harness/model/*.cpp') + [prop]:
        jobs.append(('har', [f], 'c++14', []))

    def one(job):
        kind, files, std, extra = job
        base = har_hash if kind == 'har' else lib_hash
        key = digest(base, std, kind, *extra, *[x for f in files for x in (f, read(f))])
        name = os.path.basename(files[0])[:-4]
        obj = os.path.join(BUILD, '%s-%s-%s.o' % (flavour, name, key))
        if os.path.exists(obj):
            return [obj], None
        if len(files) == 1:
            err = compile_one(files[0], obj, std, flags, extra)
            return [obj], err
        unit = obj[:-2] + '.%d.cpp' % os.getpid()
        with open(unit, 'w') as u:
            u.write(''.join('#include "%s"\n' % f for f in files))
        err = compile_one(unit, obj, std, flags, extra)
        os.unlink(unit)
        if err is None:
            return [obj], None
        # the files cannot share one translation unit
        objs = []
        for half in (files[:len(files) // 2], files[len(files) // 2:]):
            o, err = one((kind, half, std, extra))
            if err:
                return objs, err
            objs += o
        return objs, None

    start = time.time()
    objs = []
    order = {'lib': 0, 'ext': 1, 'har': 2, 'plug': 3}
    with ThreadPoolExecutor(JOBS) as pool:
        for job, (o, err) in zip(jobs_sorted(jobs, order), pool.map(one, jobs_sorted(jobs, order))):
            if err:
                raise BuildError('cannot compile %s\n%s' % (job[1][0], err[-6000:]))
            objs += o
    exe = os.path.join(BUILD, '%s-%s-%s' % (flavour, exe_name or prop_source[:-4], digest(*sorted(objs), libfuzzer)))
    if not os.path.exists(exe):
        san = [f for f in flags if f.startswith('-fsanitize') or f.startswith('-fno-sanitize')]
        if libfuzzer:
            san = ['-fsanitize=fuzzer,address,undefined']
        tmp = exe + '.%d.tmp' % os.getpid()
        r = cc(san + objs + LIBS + ['-o', tmp])
        if r.returncode:
            raise BuildError('cannot link\n' + r.stdout[-6000:])
        os.replace(tmp, exe)
    print('built %s in %.1f s' % (os.path.basename(exe), time.time() - start), flush=True)
    return exe


def jobs_sorted(jobs, order):
    return sorted(jobs, key=lambda j: (order[j[0]], j[1]))


def find_dirs():
    return [REPO + '/extensions/%s/%s' % (e, d) for e in ('iidm', 'sld', 'entsoe') for d in ('include', 'src')]


if __name__ == '__main__':
    try:
        print(build(sys.argv[1], *(sys.argv[2:3])))
    except BuildError as e:
        print(e)
        sys.exit(2)
