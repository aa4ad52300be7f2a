"""Concurrent clients: rounds of overlapping command queues, accepted by spec/Lin.tla when some order explains the replies."""
import json, os, re, time
import server as S, proto, tlc, gen
from run import Violation, guarded, pmap

class Prob(gen.Mixed):
    """commands of one theme on few keys, each touching one key only (joint rounds: smget and flushes as well)"""
    THEMES = {'counter': [gen.Arith], 'cas': [gen.Cas], 'kv': [gen.Kv], 'list': [gen.List], 'set': [gen.Set], 'map': [gen.Map],
              'btree': [gen.Btree], 'trim': [gen.BtreeTrim], 'pos': [gen.BtreePos], 'attr': [gen.List, gen.Map, gen.BtreeTrim],
              'mix': [gen.Cas, gen.List, gen.Set, gen.Map, gen.BtreeTrim], 'smget': [gen.BtreeMulti], 'flush': [gen.Kv, gen.Set]}
    weights = dict(inner=90, delete=3, touch=1)
    def __init__(self, rng, theme, fat=False):
        self.theme = theme; self.parts = self.THEMES[theme]
        self.joint = theme in ('smget', 'flush')
        self.fat = fat                          # long values, read slowly while others write
        n = rng.choice([2, 3]) if self.joint else rng.choice([1, 1, 2])
        self.keys = ['c%d' % i for i in range(n)]
        if theme == 'flush': self.keys[-1] = 'p:c'
        gen.Mixed.__init__(self, rng)
    def setup(self):
        gen.Mixed.setup(self)
        for g in self.subs:
            if isinstance(g, gen.BtreeTrim): g.hexlen = 2; g.mrs = ['1', '2', '3', '5', '0']
            if isinstance(g, gen.BtreeMulti): g.one = 'u'
            if isinstance(g, gen.CollBase): g.vals = ['', 'a', 'b', 'c', '1', '12'] if not self.fat else [x * 150 for x in 'abcde']; g.uni = ['a', 'b', 'c', 'd'] if not isinstance(g, gen.Map) else ['f1', 'f2', 'f3']
            g.num = lambda: str(self.r.choice([1, 1, 2, 10, gen.BIG64]))
            if isinstance(g, gen.Kv): g.val = self.kval
            if self.fat and isinstance(g, gen.Btree):
                # elements changed in place
                num = self.chance(.4)
                g.val = lambda g=g, num=num: str(self.r.randrange(1000, 9000)) if num else self.r.choice(g.vals)
                g.EF = ['0x01', '0x02', '0xF0']; g.U = 4; g.mcs = [0, 4]
                g.weights = dict(g.weights, upd=25, ups=12, arith=25 if num else 2, rem=2, take=1, ins=25)
            if self.fat and isinstance(g, gen.Map): g.weights = dict(g.weights, upd=30)
        self.weights = dict(self.weights)
        self.kinds = ''.join({gen.Kv: 'g', gen.Cas: 'g', gen.Arith: 'g', gen.List: 'l', gen.Set: 's', gen.Map: 'm'}.get(c, 'b') for c in self.parts)
        if self.theme == 'attr': self.weights['setattr'] = 40
        if self.theme == 'flush': self.weights['flush'] = 12
        if self.chance(.3): self.weights['delete'] = 20         # items that come and go
    def kval(self):
        x = self.r.random()
        if self.fat and x < .6: return self.r.choice('ABCD') * 600
        if x < .6: return str(self.r.choice([0, 1, 9, 99, gen.BIG64, 10000]))
        return self.r.choice(['a', 'bb', 'abc' * 20, 'Z' * 500, ''])
    def delete(self): return dict(c='delete', k=self.key())
    def touch(self): return dict(c='touch', k=self.key(), exp=0)
    def flush(self): return self.pick(dict(c='flush_all', d=0), dict(c='flush_prefix', p=self.pick('p', '<null>'), d=0))
    def setattr(self):
        s = [self.pick(['maxcount', self.pick('1', '2', '3', '10', '50001')], ['overflowaction', self.r.choice(gen.OVFL['list'] + gen.OVFL['b+tree'])], ['readable', 'on'],
                       ['maxbkeyrange', self.pick('1', '3', '0')], ['expiretime', self.pick('0', '100', '-1')]) for _ in range(self.pick(1, 2, 3))]
        return dict(c='setattr', k=self.key(), sets=s)
    def op(self):
        while True:
            o = gen.Mixed.op(self)
            if o['c'] in ('get', 'gets', 'mget', 'mgets'): o['c'] = 'gets' if 's' in o['c'] else 'get'; o['ks'] = o['ks'][:1]
            if o['c'] in ('big', 'clock', 'bop mget') or (o['c'] == 'bop smget' and not self.joint): continue
            if len(o.get('v', '')) > 2000: continue
            return o

    def look(self):
        """a read with a long reply"""
        k = self.key()
        o = self.pick(*[o for o in probes([k]) if o['c'][0] in self.kinds])
        if o['c'] == 'getattr': o = dict(c='get', ks=[k])
        if o['c'][0] == 'b' and self.chance(.3): o.update(f='1', t='3')
        return o

def keyof(o): return o['k'] if 'k' in o else o['ks'][0]

def probes(keys):
    """everything that can be read, by one client"""
    for k in keys:
        yield dict(c='getattr', k=k, names=[])
        yield dict(c='gets', ks=[k])
        yield dict(c='lop get', k=k, f=0, t=-1, **{'del': ''})
        yield dict(c='sop get', k=k, n=0, **{'del': ''})
        yield dict(c='mop get', k=k, fs=[], **{'del': ''})
        yield dict(c='bop get', k=k, f='0', t=str(gen.BIG64), off=0, n=0, **{'del': ''})

def record(g, srv, path, rounds, nconn, qlen, joint, readings=()):
    conns = [srv.conn() for _ in range(nconn)]
    ops = 0
    with open(path, 'w') as f:
        f.write(json.dumps({'now': srv.now()}) + '\n')
        def out(q):
            q = [x for x in q if x]
            if q: f.write(json.dumps({'q': q}) + '\n')
        def alone(os):
            seq = []
            for o in os:
                raw = conns[0].exchange(proto.encode(o)).decode('latin1')
                if o['c'] in proto.READINGS: o['got'] = proto.READINGS[o['c']](raw); raw = ''
                proto.hints(o, raw); seq.append(dict(o=o, r=raw))
            out([seq])
            return len(seq)
        # a flush and the forgetting of the prefix's details are two steps, and so are a command and its detail
        if 'stats' in readings: alone([dict(c='stats reset')] + ([dict(c='detail on')] if g.theme != 'flush' else []))
        for n in range(rounds):
            qs = [[g.op() for _ in range(g.r.randint(1, qlen))] for _ in conns]
            slow = g.fat and g.chance(.5)
            trickle = g.pick(30, 30, 120)
            if slow: qs[0] = [g.look()]
            for o in [o for q in qs for o in q if g.fat and 'cr' in o]: o['cr']['rd'] = True
            srv.gate(True)
            if slow: srv.trickle(trickle)
            for c, q in zip(conns, qs): c.send(b''.join(proto.encode(o) + S.SENT for o in q))
            end = time.time() + .02
            while srv.waiting() < min(srv.threads, nconn) and time.time() < end: time.sleep(.0002)
            srv.gate(False)
            if slow:
                # the others go ahead while the first waits for its reply
                end = time.time() + .1
                for c, q in list(zip(conns, qs))[1:]:
                    c.s.settimeout(.02)
                    try:
                        while c.buf.count(srv.sentinel) < len(q) and time.time() < end: c.recv_some()
                    except S.socket.timeout: pass
                    c.s.settimeout(20)
                srv.trickle(0)
            done = []
            for c, q in zip(conns, qs):
                d = []
                for o in q:
                    raw = c.read_to_sentinel().decode('latin1')
                    proto.hints(o, raw); d.append(dict(o=o, r=raw)); g.feedback(o, raw); ops += 1
                done.append(d)
            if joint: out(done)
            else:
                for k in g.keys: out([[x for x in d if keyof(x['o']) == k] for d in done])
            if n % 3 == 2 or n == rounds - 1:
                ops += alone(probes(g.keys))
                if 'stats' in readings: alone([dict(c='stats'), dict(c='detail dump', ps=[])])
                if 'acct' in readings: alone([dict(c='acct', ks=g.keys)])
                if 'acct' in readings and g.chance(.2): alone([dict(c='delete', k=k) for k in g.keys] + [dict(c='acct', ks=g.keys)])
    for c in conns: c.close()
    return ops

PACE = [('conc', dict(VT_FNJIT='30')), ('conc', dict(VT_FNJIT='150')), ('conc', dict(VT_FNJIT='600')), ('conc', dict(VT_PERTURB='4')), ('std', {})]

def one(ctx, theme, i, rounds, readings):
    r = ctx.rng('conc', theme, i)
    g = Prob(r, theme, i % 2 == 0)
    variant, env = PACE[i % len(PACE)]
    nconn = 3 if g.joint else r.choice([2, 3, 4, 5]); qlen = r.choice([2, 3]) if g.joint else r.choice([2, 3, 4])
    path = ctx.path('conc-%s-%d.ndjson' % (theme, i))
    with S.Server(variant=variant, threads=4, env=env) as srv:
        try: n = guarded(srv, lambda: record(g, srv, path, rounds, nconn, qlen, g.joint, readings), 'concurrent %s %d' % (theme, i))
        except Violation as v: v.detail.update(trace=path, theme=theme, index=i); raise
    rc, out = tlc.run('Lin', env={'TRACE': path}, timeout=500)
    m = re.search(r'"PROGRESS (\d+) OF (\d+)"', out)
    if m is None or rc != 0: raise tlc.TlcError('TLC failed on %s (exit %d)\n%s' % (path, rc, out[-3000:]))
    if m.group(1) != m.group(2):
        # the round in which no order is left
        left = int(m.group(1)); bad = None
        for l in open(path).read().split('\n')[1:]:
            if not l: continue
            bad = json.loads(l); left -= sum(len(x) for x in bad['q'])
            if left < 0: break
        raise Violation('no order of the commands explains the replies of %s-%d after %s of %s: %s' % (theme, i, m.group(1), m.group(2), json.dumps(bad)[:1500]),
                        dict(kind='concurrent', trace=path, round=bad, theme=theme, index=i))
    st = tlc.stats(out)
    ctx.add(transitions=st[0], states=st[1], traces_validated_against_impl=1, commands=n)
    if len(ctx.samples) < 3:
        ctx.samples.append(dict(trace='%s-%d' % (theme, i), round=json.loads(open(path).read().split('\n')[3])))
    os.unlink(path)
    return n

def conc(runs, rounds, truns, trounds, readings=()):
    def part(ctx):
        R, N = (runs, rounds) if ctx.quick else (truns, trounds)
        jobs = [(t, i) for i in range(R) for t in Prob.THEMES]
        ns = pmap(ctx, lambda j: one(ctx, j[0], j[1], N, readings), jobs)
        ctx.note('%d concurrent runs, %d commands accepted' % (len(ns), sum(ns)))
    return part
