"""C26: cluster_config.c alone, driven by lib/ringdrv.c; its answers are checked against spec/Ring.tla."""
import hashlib, json, os, re, subprocess, threading
import build, tlc
from run import Violation, pmap

HERE = os.path.dirname(os.path.abspath(__file__))
HALF = 1 << 31

def points(name):
    """the 160 points of a node"""
    out = []
    for i in range(40):
        d = hashlib.md5(('%s-%d' % (name, i)).encode()).digest()
        out += [int.from_bytes(d[4 * k:4 * k + 4], 'little') - HALF for k in range(4)]
    return sorted(out)

def place(key): return int.from_bytes(hashlib.md5(key.encode()).digest()[:4], 'little') - HALF

class Driver:
    def __init__(self, exe):
        self.log = []
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                  env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0'))
    def __call__(self, *words):
        line = ' '.join(map(str, words))
        self.log.append(line)
        t = threading.Timer(60, self.p.kill); t.start()
        try:
            try:
                self.p.stdin.write(line + '\n'); self.p.stdin.flush()
                r = self.p.stdout.readline()
            except BrokenPipeError: r = ''
        finally: t.cancel()
        if not r.endswith('\n'):
            self.p.kill(); err = self.p.communicate()[1]
            raise Violation('cluster_config.c stopped at: ' + line[:300], dict(kind='ring', commands=self.log[-40:], stderr=err[-3000:]))
        return r.split()
    def close(self):
        self.p.stdin.close(); rc = self.p.wait(30)
        if rc: raise Violation('cluster_config.c ended with %s' % rc, dict(kind='ring', commands=self.log[-40:], stderr=self.p.stderr.read()[-3000:]))
        self.p.stdout.close(); self.p.stderr.close()

class Session:
    """several members with different histories of the same cluster"""
    def __init__(self, rng, exe):
        self.r = rng
        d = json.load(open(os.path.join(HERE, 'ringkeys.json')))
        self.all = sorted(d['names'], key=lambda n: n.encode())
        small = rng.random() < .4
        self.pool = rng.sample(range(len(self.all)), rng.randint(2, 6) if small else rng.randint(7, len(self.all)))
        self.keys = d['keys']
        self.d = Driver(exe); self.out = [dict(points=[points(n) for n in self.all])]
        self.sets = {}
        for w in range(rng.randint(2, 4)): self.up(w)
    def put(self, /, **kw): self.out.append(kw)
    def up(self, w):
        r = self.r
        if w in self.sets: self.d('e', w)
        me = r.choice(self.pool) if r.random() < .8 else None
        if self.d('i', w, 'elsewhere:1' if me is None else self.all[me]) != ['1']: raise Violation('a member does not come up', dict(kind='ring', commands=self.d.log[-5:]))
        self.sets[w] = set(); self.put(c='up', who=w, self=0 if me is None else me + 1)
    def spell(self, l):
        """the list as it may be written: what follows a dash does not count"""
        style = self.r.random()
        return [self.all[n] + ('' if style < .3 else '-' + self.r.choice(['host', 'a.b.c', '1', 'x-y', '-', '']) if style < .6 or self.r.random() < .5 else '') for n in l]
    def order(self, s):
        l = sorted(s); c = self.r.random()
        if c < .15: l.reverse()
        elif c < .85: self.r.shuffle(l)
        return l
    def change(self, s):
        r = self.r; rest = [n for n in self.pool if n not in s]; c = r.random()
        if c < .3 and rest: return s | {r.choice(rest)}
        if c < .55 and len(s) > 1: return s - {r.choice(sorted(s))}
        if c < .65 and rest: return set(r.sample(rest, r.randint(1, len(rest))))
        if c < .72: return set(s)
        if c < .76: return set()
        if c < .85 and rest and s: return (s - {r.choice(sorted(s))}) | {r.choice(rest)}
        if c < .9: return set(self.pool)
        return set(r.sample(self.pool, r.randint(1, len(self.pool))))
    def tell(self, w, s):
        n = 0
        if self.r.random() < .12: n = self.r.choice([1, 1, 2, 3, 5, 9, 14]); self.d('f', n)
        l = self.order(s)
        ret, add, rem, me, left = map(int, self.d('r', w, *self.spell(l)))
        self.put(c='tell', who=w, list=[x + 1 for x in l], starved=n > 0 and left == 0, got=[ret, add, rem, me])
        if ret == 0: self.sets[w] = set(s)
    def some(self, n):
        r = self.r; ks = r.sample(self.keys, min(n, len(self.keys))) + self.keys[-4:]     # (those at points that two nodes share)
        for _ in range(n): ks.append(''.join(r.choice('abcdefghij:_0123456789') for _ in range(r.choice([1, 3, 8, 20, 54, 55, 56, 57, 63, 64, 65, 119, 120, 128, 250, 4000]))))
        return ks
    def look(self, w, ks):
        got = [[] if x == '-' else list(map(int, x.split(':'))) for x in self.d('l', w, *ks)]
        self.put(c='look', who=w, hs=[place(k) for k in ks], got=got)
    def storm(self, w, ms):
        a = set(self.r.sample(self.pool, self.r.randint(1, len(self.pool)))); b = set()
        while not b: b = self.change(a)
        ks = self.some(8)[:14]; la, lb = self.order(a), self.order(b)
        got = self.d('x', w, 100000, ms, *ks, '/', *self.spell(la), '/', *self.spell(lb))
        none, seen = [], []
        for g in got:
            f = g.split(','); none.append(int(f[0])); seen.append([list(map(int, x.split(':'))) for x in f[1:]])
        self.sets[w] = a
        self.put(c='storm', who=w, a=[x + 1 for x in la], b=[x + 1 for x in lb], hs=[place(k) for k in ks], none=none, got=seen)
    def run(self, n):
        r = self.r
        for _ in range(n):
            w = r.choice(sorted(self.sets)); c = r.random()
            if c < .03: self.up(w)
            elif c < .09: self.storm(w, 250)
            elif c < .2:        # all are told the same, each in its own order
                s = self.change(self.sets[w]) or {self.pool[0]}; ks = self.some(10)
                for v in self.sets: self.tell(v, s); self.look(v, ks)
            else:
                self.tell(w, self.change(self.sets[w])); self.look(w, self.some(8))
        for w in list(self.sets): self.d('e', w)
        self.d.close()

def laws(ctx):
    """the laws of the ring for every placement of points on a small circle (spec/RingMC.tla)"""
    cfg = ctx.path('RingMC.cfg')
    base = open(os.path.join(tlc.SPEC, 'RingMC.cfg')).read()
    if ctx.quick: base = base.replace('Places = 6', 'Places = 5').replace('Moves = 3', 'Moves = 2')
    with open(cfg, 'w') as f: f.write(base)
    rc, out = tlc.run('RingMC', cfg=cfg, workers=8, timeout=1500, heap='4g', args=['-fp', '7'])
    if rc: raise tlc.TlcError('RingMC: ' + out[-2000:])
    n = tlc.stats(out); ctx.add(transitions=n[0], states=n[1]); ctx.note('ring laws: %d states' % n[1])

def ring(qn, qops, tn, tops):
    def part(ctx):
        exe = build.ring()
        def one(i):
            s = Session(ctx.rng('ring', i), exe)
            s.run(qops if ctx.quick else tops)
            path = ctx.path('ring-%d.ndjson' % i)
            with open(path, 'w') as f: f.write(''.join(json.dumps(x) + '\n' for x in s.out))
            ok, r = tlc.check_trace(path, module='Ring')
            if not ok:
                raise Violation('the specification refuses step %d of ring-%d: %s expected %s got %r' % (r['l'], i, json.dumps(r['o'])[:300], json.dumps(r['want'])[:300], str(r['got'])[:300]),
                                dict(kind='ring', trace=path, mismatch=r, index=i, commands=s.d.log[-60:]))
            ctx.add(transitions=r[0] - 1, states=r[1], traces_validated_against_impl=1, lookups=sum(len(o['hs']) for o in s.out if 'hs' in o),
                    lists_told=sum(o.get('c') == 'tell' for o in s.out), starved=sum(bool(o.get('starved')) for o in s.out), storms=sum(o.get('c') == 'storm' for o in s.out))
            if len(ctx.samples) < 3: ctx.samples.append(dict(session=i, commands=s.d.log[:6]))
            os.unlink(path)
            return r[0]
        ns = pmap(ctx, one, range(qn if ctx.quick else tn))
        ctx.note('%d sessions, %d steps accepted' % (len(ns), sum(ns)))
    return part
