"""Every transition of the bounded model (spec/MC.tla), replayed on the real server."""
import json, os, re, select, time
import server as S, proto, tlc
from run import Violation, guarded, pmap

CFG = '''CONSTANTS Model = "%s"
 Depth = %d
SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
INVARIANT Laws
INVARIANT Seen
CHECK_DEADLOCK FALSE
'''
HOLE = '@@@@'

def explore(ctx, model, depth, workers, timeout, heap):
    cfg = ctx.path('MC-%s.cfg' % model)
    with open(cfg, 'w') as f: f.write(CFG % (model, depth))
    rc, out = tlc.run('MC', cfg=cfg, workers=workers, timeout=timeout, heap=heap, args=['-fp', '7'])
    if rc != 0:
        raise tlc.TlcError('TLC rejects the model %s itself (exit %d): %s' % (model, rc, '\n'.join(l for l in out.split('\n') if not re.match(r'^"[ES] |^"OPS |^"PROBES ', l))[-3000:]))
    return tlc.printed(out, 'OPS')[0], tlc.printed(out, 'PROBES')[0], tlc.printed(out, 'E'), tlc.printed(out, 'S'), tlc.stats(out)

def unordered(o): return o['c'] == 'sop get' or (o['c'] == 'mop get' and not o['fs'])

def ident(n):
    d = '0123456789abcdefghijklmnopqrstuvwxyz'; s = ''
    for _ in range(4): s = d[n % 36] + s; n //= 36
    return s

def text(r): return ''.join(l + '\r\n' for l in r)

def same(o, want, got):
    if want == got: return True
    return unordered(o) and len(want) == len(got) and sorted(want.split('\r\n')) == sorted(got.split('\r\n'))

class Instance:
    """one path of the model: a list of (operation, request bytes, expected reply)"""
    __slots__ = ('id', 'phases', 'got')
    def __init__(self, n, steps, enc):
        self.id = ident(n); b = self.id.encode()
        self.phases = [[]]; self.got = None
        for key, o, want in steps:
            if o['c'] == 'tick': self.phases.append([])
            else: self.phases[-1].append((o, enc(key, o), want))
    def request(self, k):
        return b''.join(s[1] for s in self.phases[k]).replace(b'@@@@', self.id.encode()) + S.SENT
    def check(self, k, raw):
        """None, or the first step whose reply is not the expected one"""
        pos = 0
        steps = self.phases[k]
        wants = [text(s[2]).replace(HOLE, self.id) for s in steps]
        for n, (s, w) in enumerate(zip(steps, wants)):
            g = raw[pos:pos + len(w)]
            if not same(s[0], w, g):
                return dict(step=n, phase=k, op=json.loads(json.dumps(s[0]).replace(HOLE, self.id)), want=w, got=raw[pos:pos + len(w) + 200])
            pos += len(w)
        if pos != len(raw): return dict(step=len(steps), phase=k, op='end of the path', want='', got=raw[pos:pos + 300])
        return None

def pump(conn, reqs, timeout=60):
    """send all requests (each ends in the sentinel command), return the list of what was answered to each"""
    out = []; s = conn.s; s.setblocking(False)
    data = b''.join(reqs); pos = 0; buf = b''; sent = conn.srv.sentinel; end = time.time() + timeout
    mv = memoryview(data)
    try:
        while len(out) < len(reqs):
            r, w, _ = select.select([s], [s] if pos < len(data) else [], [], 5)
            if not r and not w and time.time() > end: raise S.socket.timeout('no answer')
            if r:
                d = s.recv(1 << 20)
                if not d: raise S.ServerDied('connection closed by the server')
                end = time.time() + timeout
                buf += d
                parts = buf.split(sent)
                out += [p.decode('latin1') for p in parts[:-1]]; buf = parts[-1]
            if w:
                try: pos += s.send(mv[pos:pos + (1 << 18)])
                except BlockingIOError: pass
    finally:
        s.setblocking(True)
        s.settimeout(20)
    return out

def describe(inst, stop):
    hist = []
    for k, ph in enumerate(inst.phases):
        if k: hist.append('clock + 1')
        for n, (o, b, w) in enumerate(ph):
            if len(b) > 2000: b = b[:200] + b'...'
            hist.append(dict(send=b.decode('latin1').replace(HOLE, inst.id), expect=text(w).replace(HOLE, inst.id)))
            if (k, n) == stop: return hist
    return hist

def replay(ctx, model, insts):
    with S.Server(mem=2048) as srv:
        conns = [srv.conn(60) for _ in range(4)]
        def run():
            for k in range(max(len(i.phases) for i in insts)):
                if k: srv.advance(1)
                todo = [i for i in insts if k < len(i.phases)]
                chunks = [todo[j:j + 200] for j in range(0, len(todo), 200)]
                for n, ch in enumerate(chunks):
                    for i, raw in zip(ch, pump(conns[n % 4], [i.request(k) for i in ch])):
                        bad = i.check(k, raw)
                        if bad:
                            raise Violation('model %s: the server answers %r, the specification %r to %s' % (model, bad['got'][:200], bad['want'][:200], json.dumps(bad['op'])[:300]),
                                            dict(bad, kind='model path', model=model, history=describe(i, (bad['phase'], bad['step']))))
        guarded(srv, run, 'replay of model ' + model)

def replay_cas(ctx, insts):
    """symbolic cas ids: #n is bound to the number the server shows"""
    def one(srv, conn, steps, n):
        idt = ident(n); bind = {}; hist = []
        for _, o, want in steps:
            o = json.loads(json.dumps(o).replace(HOLE, idt))
            if 'id' in o and o['id'].startswith('#'): o['id'] = bind.get(o['id'], '9999999999%s' % o['id'][1:])
            raw = conn.exchange(proto.encode(o)).decode('latin1')
            hist.append(dict(op=o, got=raw))
            w = text(want).replace(HOLE, idt)
            m = re.search(r'#\d+', w)
            if m:
                g = re.search(r'^VALUE \S+ \d+ \d+ (\d+)\r\n', raw)
                if g:
                    if m.group(0) not in bind:
                        if g.group(1) in bind.values():
                            raise Violation('gets shows a cas id again that belonged to another value', dict(kind='cas path', history=hist))
                        bind[m.group(0)] = g.group(1)
                    w = w.replace(m.group(0), bind[m.group(0)])
            if w != raw:
                raise Violation('model cas: the server answers %r, the specification %r to %s' % (raw[:200], w[:200], json.dumps(o)),
                                dict(kind='cas path', history=hist, want=w, got=raw))
    with S.Server() as srv:
        conn = srv.conn()
        guarded(srv, lambda: [one(srv, conn, st, n) for n, st in enumerate(insts)], 'replay of model cas')

def mc(model, qdepth, tdepth, tworkers=6):
    def part(ctx):
        depth = qdepth if ctx.quick else tdepth
        ops, probes, edges, states, st = explore(ctx, model, depth, 2 if ctx.quick else tworkers, 300 if ctx.quick else 780, '4g' if ctx.quick else '12g')
        seen = {}; clash = set()
        for s in states:
            if s['t'] in seen and seen[s['t']] != s['r']: clash.add(s['t'])
            seen[s['t']] = s['r']
        for t in clash: del seen[t]
        by = {(tuple(e['p']), e['i']): e['r'] for e in edges}
        def steps(p, i):
            out = []
            for n, j in enumerate(p + [i]):
                rs = by[(tuple((p + [i])[:n]), j)]
                out += [(('o', j, m), o, r) for m, (o, r) in enumerate(zip(ops[j - 1], rs))]
            return out
        cache = {}
        def enc(key, o):
            if key not in cache: cache[key] = proto.encode(o)
            return cache[key]
        # an answer followed by everything that can be read; a path whose steps are all part of a longer one is still replayed: its probes differ
        jobs = []
        for n, e in enumerate(edges):
            pr = seen.get(e['t'])
            jobs.append(steps(e['p'], e['i']) + ([(('p', 0, m), o, r) for m, (o, r) in enumerate(zip(probes, pr))] if pr else []))
        ctx.add(states=st[1], transitions=len(edges), model_states=st[1], edges_replayed=len(edges))
        if model == 'cas':
            parts = [jobs[k::4] for k in range(4)]
            pmap(ctx, lambda js: replay_cas(ctx, js), parts)
        else:
            size = 20000
            batches = [jobs[k:k + size] for k in range(0, len(jobs), size)]
            for b in batches: replay(ctx, model, [Instance(n, j, enc) for n, j in enumerate(b)])
        if len(ctx.samples) < 4 and edges:
            e = edges[len(edges) // 2]
            ctx.samples.append(dict(model=model, path=[ops[j - 1] for j in e['p']] + [ops[e['i'] - 1]], replies=e['r']))
        ctx.note('model %s to depth %d: %d states, %d transitions replayed' % (model, depth, st[1], len(edges)))
    return part
