"""Running TLC."""
import json, os, re, subprocess, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar'
def classpath():
    d = '/opt/veriftools/tla'
    return ':'.join([os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.jar')])

class TlcError(Exception): pass

def run(module, cfg=None, env=None, workers=1, timeout=600, heap='3g', args=(), keep=None):
    """run TLC on spec/<module>.tla; returns its output"""
    meta = tempfile.mkdtemp(prefix='tlc-')
    e = dict(os.environ); e.update(env or {})
    cmd = ['java', '-Xss64m', '-Xmx' + heap, '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-XX:TieredStopAtLevel=4',
           '-cp', classpath(), 'tlc2.TLC', '-nowarning', '-noGenerateSpecTE', '-workers', str(workers), '-metadir', meta,
           '-config', cfg or module + '.cfg'] + list(args) + [module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out = p.stdout.decode('utf-8', 'replace')
        return p.returncode, out
    except subprocess.TimeoutExpired as x:
        raise TlcError('TLC timed out: %s %s' % (module, (x.stdout or b'')[-500:]))
    finally:
        shutil.rmtree(meta, ignore_errors=True)

def printed(out, tag):
    """the JSON values printed with PrintT(tag \\o ToJson(x))"""
    res = []
    for line in out.split('\n'):
        line = line.strip()
        if line.startswith('"' + tag + ' '):
            try: s = json.loads(line)           # TLC prints strings with \" and \\ escapes
            except ValueError: s = line[1:-1].replace('\\"', '"').replace('\\\\', '\\')
            res.append(json.loads(s[len(tag) + 1:]))
    return res

def stats(out):
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)

def check_trace(path, module='Trace', timeout=600):
    """(True, (states generated, distinct states)) when the recorded run is a behaviour of the specification, else (False, mismatch)"""
    rc, out = run(module, env={'TRACE': path}, timeout=timeout)
    mm = printed(out, 'MISMATCH')
    m = re.search(r'"PROGRESS (\d+) OF (\d+)"', out)
    if m is None or rc not in (0,):
        raise TlcError('TLC failed on %s (exit %d)\n%s' % (path, rc, out[-3000:]))
    # (a branch may be refused when another one explains the whole trace)
    if m.group(1) != m.group(2):
        if mm: return False, max(mm, key=lambda x: x['l'])
        raise TlcError('trace %s stopped at %s of %s without a mismatch\n%s' % (path, m.group(1), m.group(2), out[-2000:]))
    return True, stats(out)
