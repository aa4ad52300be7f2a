"""What the checks share: violations, contexts, parallel recording and checking of traces."""
import json, os, random, shutil, sys, time, traceback, socket, threading
from concurrent.futures import ThreadPoolExecutor, as_completed
import server as S, trace, tlc, proto, gen

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(VERIF, '.work')

class Violation(Exception):
    """the property does not hold: detail is what goes into the replay file"""
    def __init__(self, msg, detail):
        Exception.__init__(self, msg); self.detail = detail

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop; self.tier = tier; self.seed = seed; self.quick = tier == 'quick'
        self.cov = {}                   # coverage, summed over the parts
        self.dir = os.path.join(WORK, prop + '-' + tier)
        shutil.rmtree(self.dir, ignore_errors=True); os.makedirs(self.dir)
        self.t0 = time.time()
        self.samples = []; self.lock = threading.Lock()
    def rng(self, *what):
        return random.Random('%d/%s/%s' % (self.seed, self.prop, '/'.join(map(str, what))))
    def add(self, **kw):
        with self.lock:
            for k, v in kw.items(): self.cov[k] = self.cov.get(k, 0) + v
    def known(self, name, what):
        """a finding that known_findings.txt lists is shown; one it does not list is a violation"""
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            if l.startswith('known: property=%s %s:' % (self.prop, name)):
                print('KNOWN-FINDING: ' + l[7:].strip(), flush=True)
                return
        raise Violation(what, dict(finding=name))
    def left(self, total): return total - (time.time() - self.t0)
    def path(self, name): return os.path.join(self.dir, name)
    def note(self, s): print('[%s %5.1fs] %s' % (self.prop, time.time() - self.t0, s), flush=True)

def died(srv):
    """the server is gone: exit status and the end of its stderr"""
    try: srv.proc.wait(2)
    except Exception: pass
    rc = srv.proc.poll()
    return None if rc is None else {'exit': rc, 'stderr': srv.stderr()[-1500:]}

def guarded(srv, f, what):
    """run f(); a server that dies or stops answering is a violation, anything else is passed on"""
    try:
        return f()
    except (S.ServerDied, OSError) as x:
        d = died(srv)
        if d is not None:
            raise Violation('the server stopped (exit %s) during %s' % (d['exit'], what), dict(d, what=what))
        if isinstance(x, socket.timeout):
            raise Violation('the server stopped answering during ' + what, dict(what=what, error=repr(x)))
        raise

def one_trace(ctx, cls, i, nops, spec='Trace', timeout=600):
    g = getattr(gen, cls)(ctx.rng(cls, i)) if isinstance(cls, str) else cls(ctx.rng(cls.__name__, i))
    name = cls if isinstance(cls, str) else cls.__name__
    path = ctx.path('%s-%d.ndjson' % (name, i))
    with S.Server(**getattr(g, 'server', {})) as srv:
        try:
            guarded(srv, lambda: trace.record(g, srv, path, nops), 'trace %s %d' % (name, i))
        except Violation as v:
            v.detail.update(trace=path, last=g.last, generator=name, index=i); raise
    ok, r = tlc.check_trace(path, module=spec, timeout=timeout)
    if not ok:
        # keep the run up to and including the refused step
        lines = open(path).read().split('\n')
        cut = path.replace('.ndjson', '-refused.ndjson')
        with open(cut, 'w') as f: f.write('\n'.join(lines[:r['l']]) + '\n')
        raise Violation('the specification refuses step %d of %s-%d: %s expected %s got %r' %
                        (r['l'], name, i, json.dumps(r['o'])[:300], json.dumps(r['want'])[:300], r['got'][:300]),
                        dict(kind='trace', trace=cut, mismatch=r, generator=name, index=i, spec=spec))
    ctx.add(transitions=r[0] - 1, states=r[1], traces_validated_against_impl=1)
    if len(ctx.samples) < 3:
        with open(path) as f: ctx.samples.append(dict(trace='%s-%d' % (name, i), steps=[json.loads(l) for l in f.read().split('\n')[20:26] if l and len(l) < 2000]))
    if not os.environ.get('KEEP_TRACES'): os.unlink(path)
    return r[0] - 1, g

def pmap(ctx, f, items, workers=8):
    """f over items in parallel; the first violation wins; infrastructure trouble is retried once"""
    out = []
    def call(x):
        try: return f(x)
        except Violation: raise
        except Exception:
            ctx.note('retrying after: ' + traceback.format_exc().strip().split('\n')[-1][:300])
            return f(x)
    with ThreadPoolExecutor(workers) as ex:
        futs = [ex.submit(call, x) for x in items]
        try:
            for fu in as_completed(futs): out.append(fu.result())
        except BaseException:
            for fu in futs: fu.cancel()
            raise
    return out

def traces(plan, spec='Trace'):
    """a part: plan maps (generator, quick runs, quick ops, thorough runs, thorough ops)"""
    def part(ctx):
        jobs = []
        for cls, qr, qn, tr, tn in plan:
            for i in range(qr if ctx.quick else tr): jobs.append((cls, i, qn if ctx.quick else tn))
        def job(j):
            n, g = one_trace(ctx, *j, spec=spec)
            return n
        ns = pmap(ctx, job, jobs)
        ctx.note('%d traces, %d commands accepted' % (len(ns), sum(ns)))
    return part
