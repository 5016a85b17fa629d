"""Content-addressed builds of the library under test and the harness.

Objects are keyed by the hash of everything that goes into them (source text,
all headers that could be included, compiler flags), so a check always judges
the current content of /repo's working tree whatever the file timestamps say.
"""
import concurrent.futures as cf
import glob
import hashlib
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
JOBS = max(2, os.cpu_count() or 2)

TDEFS = ['-DTORSION_HAVE_CONFIG', '-DTORSION_HAVE_CLOCK_GETTIME',
         '-DTORSION_HAVE_FORK', '-DTORSION_HAVE_GETTIMEOFDAY',
         '-DTORSION_HAVE_MPI', '-DTORSION_HAVE_PTHREAD', '-DTORSION_HAVE_RNG',
         '-DTORSION_HAVE_TIME', '-DTORSION_TLS=__thread']
NOFORT = ['-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0']
UB = ('-fsanitize=address,undefined', '-fno-sanitize=alignment,nonnull-attribute,pointer-overflow,shift-base',
      '-fno-sanitize-recover=undefined')

CONFIGS = {
    'native': dict(cc='gcc', cflags=['-O2', '-g1'] + NOFORT,
                   defs=['-DTORSION_HAVE_ASM', '-DTORSION_HAVE_INT128'],
                   link=['g++'], ldflags=[]),
    'portable': dict(cc='gcc', cflags=['-O2', '-g1'] + NOFORT, defs=[],
                     link=['g++'], ldflags=[]),
    'asan': dict(cc='clang', cflags=['-O1', '-g1', '-fno-omit-frame-pointer'] + list(UB) + NOFORT,
                 defs=['-DTORSION_HAVE_INT128', '-DTORSION_DEBUG', '-DTORSION_VERIFY'],
                 link=['clang++'], ldflags=list(UB)),
    'tsan': dict(cc='clang', cflags=['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=thread'] + NOFORT,
                 defs=['-DTORSION_HAVE_INT128'],
                 link=['clang++'], ldflags=['-fsanitize=thread']),
    # Without thread-local storage the generator of rand.c is global and locked.
    'tsanlock': dict(cc='clang', cflags=['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=thread'] + NOFORT,
                     defs=['-UTORSION_TLS'],
                     link=['clang++'], ldflags=['-fsanitize=thread']),
    'fuzz': dict(cc='clang', cflags=['-O1', '-g1', '-fno-omit-frame-pointer',
                                     '-fsanitize=fuzzer-no-link'] + list(UB) + NOFORT,
                 defs=['-DTORSION_HAVE_INT128', '-DTORSION_DEBUG', '-DTORSION_VERIFY'],
                 link=['clang++'], ldflags=['-fsanitize=fuzzer'] + list(UB)),
}
STANDINS = ['syscall', 'open', 'open64', 'read', 'close', 'poll', 'fstat', 'fstat64', 'getpid',
         'getrandom', 'getentropy', 'stat', 'select', 'fopen']
LIBS = ['-lcrypto', '-lgmp', '-lpthread', '-ldl']


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


def _h(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(str(len(p)).encode() + b':')
        h.update(p)
    return h.hexdigest()[:24]


def _tree_hash(paths):
    return _h(*[x for p in sorted(paths) for x in (p, _read(p))])


class BuildError(Exception):
    pass


def _run(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError('%s failed: %s\n%s' % (what, ' '.join(cmd), r.stdout.decode(errors='replace')[-4000:]))


def _compile(args):
    cmd, obj = args
    tmp = '%s.%d.tmp' % (obj, os.getpid())
    _run(cmd + ['-o', tmp], 'compile')
    if cmd[-1].endswith('.c'):
        # The library's system calls go through vf_* stand-ins (props/sysfault.cpp)
        # which pass through unless a fault script is active.
        _run(['objcopy'] + [a for w in STANDINS for a in ('--redefine-sym', '%s=vf_%s' % (w, w))] + [tmp], 'objcopy')
    os.replace(tmp, obj)
    return obj


def lib_sources():
    """The .c files the project compiles, and those that are only included by others."""
    allc = sorted(glob.glob(REPO + '/src/**/*.c', recursive=True))
    included = set()
    for f in allc + glob.glob(REPO + '/src/**/*.h', recursive=True):
        for m in re.findall(rb'^[ \t]*#[ \t]*include[ \t]*"([^"]+\.c)"', _read(f), re.M):
            for base in (os.path.dirname(f), REPO + '/src', REPO):
                included.add(os.path.realpath(os.path.join(base, m.decode(errors='replace'))))
    srcs = [f for f in allc if os.path.realpath(f) not in included]
    try:
        lists = b''.join(_read(f) for f in [REPO + '/CMakeLists.txt'] + glob.glob(REPO + '/src/**/CMakeLists.txt', recursive=True))
    except OSError:
        lists = b''
    named = [f for f in srcs if os.path.basename(f).encode() in lists]
    if b'GLOB' not in lists and len(named) >= 10:
        srcs = named
    return srcs, [f for f in allc if f not in srcs]


def plan_lib(cfg):
    c = CONFIGS[cfg]
    srcs, parts = lib_sources()
    hdrs = [f for pat in ('/src/**/*.h', '/include/**/*.h') for f in glob.glob(REPO + pat, recursive=True)]
    thdrs = glob.glob(REPO + '/test/*.h')
    # Non-.c/.h files that sources could include (tables etc.).
    other = [f for f in glob.glob(REPO + '/src/**/*', recursive=True)
             if os.path.isfile(f) and not f.endswith(('.c', '.h'))]
    hh = _tree_hash(hdrs + other + parts)
    th = _tree_hash(thdrs)
    flags = c['cflags'] + TDEFS + c['defs'] + ['-fPIC', '-w', '-I', REPO + '/include']
    jobs, objs = [], []
    for s in srcs:
        debug = '-DTORSION_DEBUG' in c['defs']
        key = _h('lib', cfg, ','.join(STANDINS), c['cc'], ' '.join(flags), os.path.relpath(s, REPO), _read(s), hh, th if debug else '')
        obj = os.path.join(BUILD, 'obj', key + '.o')
        objs.append(obj)
        if not os.path.exists(obj):
            jobs.append(([c['cc']] + flags + ['-c', s], obj, os.path.getsize(s)))
    return jobs, objs


def plan_harness(cfg):
    fuzz = cfg == 'fuzz'
    phdrs = glob.glob(REPO + '/include/**/*.h', recursive=True)
    vhdrs = [f for d in ('engine', 'ref', 'props') for f in glob.glob(VERIF + '/' + d + '/*.h')]
    ph, vh = _tree_hash(phdrs), _tree_hash(vhdrs)
    jobs, objs = [], []
    for d in ('engine', 'ref', 'props'):
        for s in sorted(glob.glob(VERIF + '/' + d + '/*.cpp')):
            b = os.path.basename(s)
            if d == 'engine' and b == ('main.cpp' if fuzz else 'fuzz.cpp'):
                continue
            cc = 'clang++' if fuzz else 'g++'
            flags = ['-std=c++17', '-O1', '-g1', '-Wall', '-Wno-unused-function', '-Wno-deprecated-declarations', '-I', VERIF + '/engine', '-I', VERIF + '/ref'] + NOFORT
            if fuzz:
                flags += ['-w']
            if fuzz and d == 'props':
                flags += ['-fsanitize=fuzzer-no-link']
            if d == 'props':
                flags += ['-DTORSION_HAVE_RNG', '-DTORSION_HAVE_MPI', '-I', REPO + '/include']
            if d == 'ref':
                flags += ['-O2']
            key = _h('har', cc, ' '.join(flags), b, _read(s), vh, ph if d == 'props' else '')
            obj = os.path.join(BUILD, 'obj', key + '.o')
            objs.append(obj)
            if not os.path.exists(obj):
                jobs.append(([cc] + flags + ['-c', s], obj, os.path.getsize(s)))
    return jobs, objs


def build(configs, quiet=True):
    """Returns {config: path of harness binary}."""
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)
    all_jobs, objs = {}, {}
    for cfg in configs:
        j1, o1 = plan_lib(cfg)
        j2, o2 = plan_harness(cfg)
        objs[cfg] = o2 + o1
        for cmd, obj, size in j1 + j2:
            # instrumented compiles are slowest: start them first
            all_jobs[obj] = (size * (3 if cfg in ('asan', 'tsan', 'tsanlock', 'fuzz') else 1), cmd, obj)
    todo = sorted(all_jobs.values(), key=lambda x: -x[0])
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(_compile, [(c, o) for _, c, o in todo]))
    bins = {}

    def link(cfg):
        c = CONFIGS[cfg]
        key = _h('bin', cfg, ' '.join(objs[cfg]), ' '.join(c['ldflags']))
        out = os.path.join(BUILD, 'bin', 'harness-%s-%s' % (cfg, key))
        if not os.path.exists(out):
            tmp = '%s.%d.tmp' % (out, os.getpid())
            _run(c['link'] + c['ldflags'] + objs[cfg] + LIBS + ['-o', tmp], 'link')
            os.replace(tmp, out)
        return cfg, out
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for cfg, out in ex.map(link, configs):
            bins[cfg] = out
    return bins


if __name__ == '__main__':
    import time
    t0 = time.time()
    print(build(sys.argv[1:] or ['native', 'portable', 'asan']))
    print('%.1f s' % (time.time() - t0))
