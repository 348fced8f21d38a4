#!/usr/bin/env python3
"""run.py PROPERTY quick|thorough [--only N]

Builds the harness of one property with the sources of /repo's working tree
and explores its space.  Nothing is written outside /verif."""
import concurrent.futures as cf, glob, hashlib, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
PG = {'P16', 'P24', 'P29'}
ASAN = {'P16', 'P17', 'P18', 'P19', 'P24', 'P26', 'P28', 'P29'}
THREADS = {'P30'}


def sh(cmd):
    return subprocess.run(cmd, capture_output=True, text=True)


def die(msg):
    print('ERROR:', msg)
    sys.exit(2)


def pkg(*a):
    r = sh(['pkg-config', *a])
    return r.stdout.split() if r.returncode == 0 else []


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    rest = sys.argv[3:]
    # quick P17 is too slow under ASan; the perturbed heap shows most of what it would
    asan = prop in ASAN and not (prop in ('P17', 'P26') and tier == 'quick')
    src = os.path.join(REPO, 'src')
    flags = ['-std=c++11', '-O1', '-g0', '-w', '-ftrivial-auto-var-init=pattern', '-I', src, '-I', HERE, '-D_GLIBCXX_ASSERTIONS', '-DREPO="%s"' % REPO]
    cflags = ['-O1', '-g0', '-w', '-ftrivial-auto-var-init=pattern', '-I', src, '-I', HERE]
    if asan:
        san = ['-fsanitize=address', '-fno-omit-frame-pointer']
        flags += san
        cflags += san
    if prop in THREADS:
        # the race detector, and a hook at the start and end of each function
        # of the library
        flags += ['-fsanitize=thread']
        libflags = ['-finstrument-functions', '-finstrument-functions-exclude-file-list=/usr/']
    else:
        libflags = []
    if prop in PG:
        inc = sh(['pg_config', '--includedir-server']).stdout.strip()
        ver = sh(['pg_config', '--version']).stdout.split()
        ver = ''.join(c for c in ver[1] if c.isdigit()) if len(ver) > 1 else '1615'
        pgf = ['-DPGSQL_VERSION=%s' % ver, '-I', inc]
    libs = (pkg('--libs', 'icu-uc', 'icu-io', 'icu-i18n') or ['-licuuc', '-licuio', '-licui18n', '-licudata']) + ['-lboost_regex', '-lboost_serialization', '-lpthread']
    incs = pkg('--cflags', 'icu-uc', 'icu-io')

    # one object directory per content of the sources, so that an unchanged
    # tree is not compiled again while working on the harnesses
    h = hashlib.sha256(repr((flags, libflags, cflags, libs, REPO)).encode())
    for f in sorted(glob.glob(src + '/*.cpp') + glob.glob(src + '/*.h') + glob.glob(src + '/*.c')):
        h.update(f.encode())
        h.update(open(f, 'rb').read())
    odir = os.path.join(BUILD, 'obj-' + ('asan-' if asan else '') + h.hexdigest()[:16])
    os.makedirs(odir, exist_ok=True)
    jobs = []
    objs = []
    # the two tries define the same helper names, so the harness of the tries
    # includes one of them itself
    for f in sorted(glob.glob(src + '/*.cpp')):
        o = os.path.join(odir, os.path.basename(f)[:-4] + '.o')
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((os.path.getsize(f), ['g++', *flags, *libflags, *incs, '-c', f, '-o', o + '.tmp%d' % os.getpid()], o))
    work = os.path.join(BUILD, 'run-%s-%s' % (prop, tier))
    os.environ.get('VERIF_KEEP') or shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work, exist_ok=True)
    hs = sorted(glob.glob(os.path.join(HERE, 'c_%s*.cpp' % prop)))
    for f in hs:
        o = os.path.join(work, os.path.basename(f)[:-4] + '.o')
        objs.append(o)
        extra = pgf if prop in PG else []
        jobs.append((10**6, ['g++', *flags, *incs, *extra, '-c', f, '-o', o + '.tmp%d' % os.getpid()], o))
    if prop in PG:
        for f in sorted(glob.glob(src + '/*.c')) + [os.path.join(HERE, 'pgmock.c')]:
            o = os.path.join(work, os.path.basename(f)[:-2] + '_c.o')
            objs.append(o)
            jobs.append((10**5, ['gcc', *cflags, *pgf, '-c', f, '-o', o + '.tmp%d' % os.getpid()], o))
    if prop in THREADS:
        f = os.path.join(HERE, 'places.c')
        o = os.path.join(work, 'places_c.o')
        objs.append(o)
        jobs.append((1, ['gcc', '-O1', '-w', '-c', f, '-o', o + '.tmp%d' % os.getpid()], o))
    if not hs:
        die('no harness for ' + prop)
    jobs.sort(key=lambda j: -j[0])

    def build(j):
        r = sh(j[1])
        if r.returncode:
            return ' '.join(j[1]) + '\n' + r.stderr[-3000:]
        os.replace(j[1][-1], j[2])
        return ''

    t = time.time()
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        for e in ex.map(build, jobs):
            if e:
                die('compile failed\n' + e)
    exe = os.path.join(work, 'check')
    names = ('getLexiconPtr', 'freeLexiconPtr', 'getGrammarPtr', 'freeGrammarPtr') + (('calloc', 'strdup') if prop == 'P29' else ()) if prop in PG else \
        ('malloc', 'calloc', 'realloc', 'strdup', 'strndup', 'free') if prop == 'P17' else \
        ('pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_once', '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort') if prop in THREADS else ()
    wrap = ['-Wl,' + ','.join('--wrap=' + f for f in names)] if names else []
    r = sh(['g++', *(['-fsanitize=address'] if asan else ['-fsanitize=thread'] if prop in THREADS else []), *wrap, '-o', exe, *objs, *libs])
    if r.returncode:
        die('link failed\n' + r.stderr[-3000:])
    print('built in %.1f s' % (time.time() - t), flush=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_odr_violation=0:quarantine_size_mb=16:malloc_context_size=8'
    env['LC_ALL'] = 'C.UTF-8'
    env['TSAN_OPTIONS'] = 'halt_on_error=0:exitcode=0:report_thread_leaks=0:atexit_sleep_ms=0:suppress_equal_stacks=0:suppress_equal_addresses=0'
    if not asan:
        env['MALLOC_PERTURB_'] = '165'
    cmd = [exe, '--tier', tier, '--dir', work, '--evidence', os.path.join(VERIF, 'evidence', prop + '.json'),
           '--replays', os.path.join(BUILD, 'replays'), '--known', os.path.join(VERIF, 'known-findings.txt'), *rest]
    rc = subprocess.run(cmd, env=env).returncode
    if rc not in (0, 1):
        rc = 2
    os.environ.get('VERIF_KEEP') or shutil.rmtree(work, ignore_errors=True)
    # keep only the newest object directories
    ds = sorted(glob.glob(os.path.join(BUILD, 'obj-*')), key=os.path.getmtime)
    for d in ds[:-6]:
        shutil.rmtree(d, ignore_errors=True)
    sys.exit(rc)


main()
