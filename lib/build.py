"""Build the server under test from /repo's current working tree into /verif/.build/<variant>.
The tree is never written to.  Variants: std, persist, asan, cluster."""
import os, re, subprocess, sys, shutil, hashlib, json, fcntl, threading
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ARCUS_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')

_tlock = threading.Lock()

class BuildError(Exception):
    pass

DEF_MC = 'daemon.c hash.c memcached.c stats_prefix.c thread.c mc_util.c topkeys.c cmdlog.c lqdetect.c cache.c sasl_defs.c'.split()
DEF_UTIL = 'config_parser.c engine_loader.c extension_loggers.c genhash.c mock_server.c util.c'.split()

def _makefile_sources(name):
    """source list of a variable of Makefile.am (all assignments outside disabled conditionals)"""
    out = []
    try:
        txt = open(os.path.join(REPO, 'Makefile.am')).read().replace('\\\n', ' ')
    except OSError:
        return out
    for m in re.finditer(r'^%s\s*\+?=\s*(.*)$' % re.escape(name), txt, re.M):
        for w in m.group(1).split():
            if w.endswith('.c') and w not in out:
                out.append(w)
    return out

def sources(what):
    if what == 'memcached':
        s = _makefile_sources('memcached_SOURCES') or list(DEF_MC)
        s = [x for x in s if x not in ('solaris_priv.c', 'isasl.c')]
        for x in ('cache.c', 'sasl_defs.c'):
            if x not in s: s.append(x)
        return s
    if what == 'util':
        return _makefile_sources('libmcd_util_la_SOURCES') or list(DEF_UTIL)
    if what == 'default_engine':
        s = _makefile_sources('default_engine_la_SOURCES')
        if not s:
            d = os.path.join(REPO, 'engines/default')
            s = ['engines/default/' + f for f in sorted(os.listdir(d)) if f.endswith('.c') and f != 'mem_pool.c']
        return s
    if what == 'ascii_scrub':
        return _makefile_sources('ascii_scrub_la_SOURCES') or ['ascii_scrub.c']
    if what == 'cmdlog_ext':
        return []
    raise KeyError(what)

BASE = '-std=gnu11 -w -pthread -fvisibility=hidden -g -DHAVE_CONFIG_H -fPIC -D_GNU_SOURCE'.split()
VARIANTS = {
    'std': (['-O1'], []),
    'persist': (['-O1', '-DENABLE_PERSISTENCE=1'], []),
    'conc': (['-O1', '-finstrument-functions'], []),
    'asan': (['-O1', '-DVALGRIND', '-fsanitize=address', '-fno-omit-frame-pointer', '-shared-libasan'], ['-fsanitize=address']),
    'sasl': (['-O1', '-DASCII_SASL', '-DENABLE_SASL_PWDB=1'], []),
    'tsan': (['-O1', '-fsanitize=thread'], ['-fsanitize=thread']),
}

def _sync_src():
    """private copy of the C sources and headers, with our own config.h"""
    src = os.path.join(BUILD, 'src')
    os.makedirs(src, exist_ok=True)
    want = {}
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        top = rel.split(os.sep)[0]
        if top in ('.git', 'deps', 'docs', 'doc', 't', 'win32', '.libs', '.deps', 'autom4te.cache', '_test_out'):
            dirs[:] = []
            continue
        for f in files:
            if f.endswith(('.c', '.h')) and not (rel == '.' and f == 'config.h'):
                want[os.path.normpath(os.path.join(rel, f))] = os.path.join(root, f)
    want['config.h'] = os.path.join(VERIF, 'build', 'config.h')
    for rel, p in want.items():
        d = os.path.join(src, rel)
        data = open(p, 'rb').read()
        # recent glibc's dlfcn.h pulls in the whole stddef.h; the persistence sources refuse that
        data = data.replace(b'#error "offsetof is already defined"', b'#undef offsetof')
        if os.path.exists(d) and open(d, 'rb').read() == data:
            continue
        os.makedirs(os.path.dirname(d), exist_ok=True)
        with open(d, 'wb') as fp: fp.write(data)
    for root, dirs, files in os.walk(src):
        for f in files:
            rel = os.path.normpath(os.path.join(os.path.relpath(root, src), f))
            if rel not in want: os.unlink(os.path.join(root, f))
    return src

def _digest(src, extra):
    h = hashlib.sha256(extra.encode())
    for root, dirs, files in sorted(os.walk(src)):
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(os.path.relpath(p, src).encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()

def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError('command failed: %s\n%s' % (' '.join(cmd), p.stdout.decode('latin1')[-4000:]))

_done = {}
def build(variant='std'):
    """one builder at a time, and once per process and variant"""
    if variant not in _done:
        os.makedirs(BUILD, exist_ok=True)
        with _tlock, open(os.path.join(BUILD, 'lock'), 'w') as f:
            fcntl.flock(f, fcntl.LOCK_EX)
            if variant not in _done: _done[variant] = _build(variant)
    return _done[variant]

def _build(variant):
    """returns the directory holding memcached, default_engine.so, shim.so"""
    cflags, ldflags = VARIANTS[variant]
    cc = 'gcc'
    src = _sync_src()
    out = os.path.join(BUILD, variant)
    os.makedirs(out, exist_ok=True)
    stamp = os.path.join(out, 'stamp')
    dig = _digest(src, repr((variant, VARIANTS[variant], BASE)) + open(os.path.join(VERIF, 'lib', 'shim.c')).read() + open(os.path.join(VERIF, 'lib', 'saslplug.c')).read())
    if os.path.exists(stamp) and open(stamp).read() == dig:
        return out
    cflags = [c for c in cflags if c != '-shared-libasan']
    jobs = {}
    for t in ('memcached', 'util', 'default_engine', 'ascii_scrub'):
        for s in sources(t):
            if not os.path.exists(os.path.join(src, s)):
                raise BuildError('missing source ' + s)
            jobs[s] = os.path.join(out, s.replace('/', '_')[:-2] + '.o')
    inc = ['-I' + src, '-I' + os.path.join(src, 'include')]
    def one(item):
        s, o = item
        ed = ['-I' + os.path.join(src, os.path.dirname(s))] if '/' in s else []
        run([cc] + BASE + cflags + inc + ed + ['-c', os.path.join(src, s), '-o', o])
    items = sorted(jobs.items(), key=lambda kv: -os.path.getsize(os.path.join(src, kv[0])))
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        futs = [ex.submit(one, it) for it in items]
        futs.append(ex.submit(run, [cc, '-O2', '-w', '-fPIC', '-shared', '-D_GNU_SOURCE', os.path.join(VERIF, 'lib', 'shim.c'),
             '-o', os.path.join(out, 'shim.so'), '-ldl', '-lpthread']))
        os.makedirs(os.path.join(out, 'sasl2'), exist_ok=True)
        futs.append(ex.submit(run, [cc, '-O2', '-w', '-fPIC', '-shared', '-D_GNU_SOURCE', os.path.join(VERIF, 'lib', 'saslplug.c'),
             '-o', os.path.join(out, 'sasl2', 'libvp.so')]))
        for f in futs: f.result()
    ar = os.path.join(out, 'libutil.a')
    if os.path.exists(ar): os.unlink(ar)
    run(['ar', 'rc', ar] + [jobs[s] for s in sources('util')])
    util = [ar]
    run([cc, '-pthread', '-g'] + ldflags + [jobs[s] for s in sources('memcached')] + util +
        ['-rdynamic', '-o', os.path.join(out, 'memcached'), '-levent', '-lsasl2', '-ldl', '-lm'])
    run([cc, '-pthread', '-g', '-shared'] + ldflags + [jobs[s] for s in sources('default_engine')] + util +
        ['-o', os.path.join(out, 'default_engine.so'), '-ldl', '-lm'])
    run([cc, '-pthread', '-g', '-shared'] + ldflags + [jobs[s] for s in sources('ascii_scrub')] +
        ['-o', os.path.join(out, 'ascii_scrub.so')])
    with open(stamp, 'w') as fp: fp.write(dig)
    return out

def ring():
    """the program that drives cluster_config.c alone (lib/ringdrv.c)"""
    os.makedirs(BUILD, exist_ok=True)
    with _tlock, open(os.path.join(BUILD, 'lock'), 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        src = _sync_src(); out = os.path.join(BUILD, 'ringdrv')
        run(['gcc'] + BASE + ['-O1', '-fsanitize=address', '-fno-omit-frame-pointer', '-I' + src, '-I' + os.path.join(src, 'include'),
             os.path.join(VERIF, 'lib', 'ringdrv.c'), os.path.join(src, 'cluster_config.c'), '-o', out] +
            ['-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc'])
    return out

if __name__ == '__main__':
    import time
    t = time.time()
    for v in (sys.argv[1:] or ['std']):
        print(build(v), round(time.time() - t, 1))
