"""Recording runs of the server and having TLC check them against the specification."""
import json, os, random, re, sys, time
import server as S, proto, binproto, tlc

TEND = ('horde', 'hordeflush', 'scrub', 'scrub start', 'scrub end', 'scrub_count', 'dump start', 'dump stop', 'dump end')

class Recorder:
    def __init__(self, srv, path, cfg=None):
        self.srv = srv; self.cs = [srv.conn() for _ in range(5)]; self.c = self.cs[0]; self.bs = [None, None]; self.path = path
        self.r = random.Random(os.path.basename(path)); self.walks = {}; self.many = {'bg': 0, 'bp': 0}; self.top = 1; self.there = set(); self.size = 1; self.probe = bool(cfg and cfg.get('evict') is not None)
        self.f = open(path, 'w'); self.n = 0; self.dumping = None; self.dumps = 0; self.hn = {}
        self.f.write(json.dumps(dict({'now': srv.now()}, **({'cfg': cfg} if cfg else {}))) + '\n')
    def do(self, o):
        """execute one operation and log it; returns the raw reply"""
        if o['c'] == 'cut':
            self.srv.cut(o['mode'], o['seed']); return ''
        if o['c'] == 'recycle':
            # connections come and go: the next one may find what an earlier one left in the server's memory
            for b in self.bs + self.cs[3:]:
                if b: b.close()
            self.bs = [None, None]
            cs = [self.srv.conn() for _ in range(4)]
            for c, l in zip(cs, o['lines']): c.exchange(l.encode())
            # (some go in the middle of what they were saying)
            said = [l.encode('latin1') for l in o.get('left', [])]
            for p, part in o.get('leftb', []):
                b = binproto.one(p, 7); said.append(b[:min(len(b) - 1, int(len(b) * part))])
            left = [self.srv.conn() for _ in said]
            for c, l in zip(left, said): c.send(l)
            if left: time.sleep(.03)
            for c in cs + left: c.close()
            time.sleep(.02)
            self.cs[3:] = [self.srv.conn() for _ in range(2)]
            if left:
                new = [self.srv.conn() for _ in range(3)]
                for c in self.cs[:3]: c.close()
                self.cs[:3] = new
            self.c = self.cs[0]
            return ''
        if o['c'] in ('scan', 'crowd', 'load', 'use', 'look', 'unload'):
            getattr(self, o['c'])(o)
            self.f.write(json.dumps({'o': o, 'r': ''}) + '\n'); self.n += 1
            return ''
        if o['c'] in TEND:
            raw = getattr(self, o['c'].replace(' ', '_'))(o) or ''
            self.f.write(json.dumps({'o': o, 'r': raw}) + '\n'); self.n += 1
            return raw
        if o['c'] == 'clock':
            self.srv.advance(o['adv'], self.c)
            o = {'c': 'clock', 'now': self.srv.now()}
            raw = ''
        elif o['c'] in proto.READINGS:
            raw = self.c.exchange(proto.encode(o)).decode('latin1')
            o['got'] = proto.READINGS[o['c']](raw); raw = ''
        elif o['c'] == 'bin':
            # packets go over connections of their own
            i = self.r.randrange(2)
            if self.bs[i] is None: self.bs[i] = self.srv.conn()
            b = self.bs[i]
            pkts, closed = binproto.exchange(b, o)
            if closed: b.close(); self.bs[i] = None
            raw = binproto.decode(o, pkts, closed)
        else:
            if self.probe: o['sb'] = int(self.srv.stats(conn=self.c)['sticky_bytes'])
            # several connections take turns, each waiting for the other
            if not (self.dumping and self.r.random() < .8): self.c = self.r.choice(self.cs)
            raw = self.c.exchange(proto.encode(o)).decode('latin1')
            if o['c'] == 'fill': raw = proto.filled(o, raw)
            proto.hints(o, raw)
        self.f.write(json.dumps({'o': o, 'r': raw}) + '\n'); self.n += 1
        return raw
    # numbered items (Evict.tla)
    def load(self, o):
        self.size = o['size']; o['k'] = 0
        while o['k'] < o['n']:
            m = min(o['n'] - o['k'], max(1, 400000 // o['size']))
            raw = self.c.exchange(b''.join(b'set n:%d 0 %d %d\r\n%s\r\n' % (i, o['exp'], o['size'], self.body(i)) for i in range(self.top, self.top + m)))
            rs = raw.decode('latin1').split('\r\n')[:-1]
            ok = 0
            while ok < len(rs) and rs[ok] == 'STORED': ok += 1
            self.there.update(range(self.top, self.top + ok))
            o['k'] += ok; self.top += ok
            if ok < m:
                # none of those after a refused one is to stay
                if any(r not in ('STORED', 'SERVER_ERROR out of memory storing object') for r in rs): o['k'] = -1; return
                late = range(self.top, self.top + m - ok)
                self.c.exchange(b''.join(b'delete n:%d\r\n' % i for i in late))
                return
    def body(self, i): return (b'%07d' % i * (self.size // 7 + 1))[:self.size]
    def asked(self, ids):
        have = []
        m = max(1, 1000000 // self.size)
        for a in range(0, len(ids), m):
            raw = self.c.exchange(b'get ' + b' '.join(b'n:%d' % i for i in ids[a:a + m]) + b'\r\n')
            p = 0
            while raw.startswith(b'VALUE n:', p):
                e = raw.index(b'\r\n', p); k, f, z = raw[p + 6:e].split(b' ')
                i = int(k[2:])
                if raw[e + 2:e + 2 + int(z)] != self.body(i): have.append(-i)     # (no number: refused)
                else: have.append(i)
                p = e + 4 + int(z)
        return have
    def use(self, o):
        ids = sorted(self.there); self.r.shuffle(ids)
        o['asked'] = ids[:o['n']]
        if o.pop('old', False): o['asked'] = sorted(self.there)[:o['n']]
        o['have'] = self.asked(o['asked']); self.there -= set(o['asked']) - set(o['have'])
    def unload(self, o):
        ids = sorted(self.there); self.r.shuffle(ids)
        o['asked'] = ids[:o['n']]
        raw = self.c.exchange(b''.join(b'delete n:%d\r\n' % i for i in o['asked'])).decode().split('\r\n')
        o['had'] = [i for i, r in zip(o['asked'], raw) if r == 'DELETED']
        self.there -= set(o['asked'])
    def look(self, o):
        ev = None
        for _ in range(200):            # until the background eviction is at rest
            s = self.srv.stats(conn=self.c)
            if (s['evictions'], s['curr_items']) == ev: break
            ev = (s['evictions'], s['curr_items']); time.sleep(.05)
        raw = self.c.exchange(b''.join(b'getattr %s type\r\n' % k.encode() for k in o['ks'])).decode()
        rs = re.findall(r'(ATTR type=[^\r]*\r\nEND|NOT_FOUND)\r\n', raw)
        o['named'] = [k for k, r in zip(o['ks'], rs) if r.startswith('ATTR ')]
        have = self.asked(sorted(self.there)); self.there = set(have); o['has'] = [0] * (self.top - 1)
        for i in have: o['has'][abs(i) - 1] = 1 if i > 0 else 2
        s = self.srv.stats(conn=self.c); m = self.srv.stats('slabs', conn=self.c)
        o['got'] = dict(bytes=int(s['bytes']), limit=int(s['limit_maxbytes']), slimit=int(s['sticky_limit']), evictions=int(s['evictions']),
                        items=int(s['curr_items']), stuck=int(s['sticky_items']), malloced=int(m['total_malloced']))
    # scrubbing and dumping (Tend.tla)
    def horde(self, o):
        self.hn[o['g']] = o['n']
        for a in range(0, o['n'], 4000):
            b = min(o['n'], a + 4000)
            raw = self.c.exchange(b''.join(b'set %s:%06d 0 %d 1\r\nx\r\n' % (o['g'].encode(), i, o['exp']) for i in range(a, b)))
            if raw != b'STORED\r\n' * (b - a): raise RuntimeError('the horde was not stored: %r' % raw[:200])
    def hordeflush(self, o): o['got'] = self.c.line('flush_prefix ' + o['g']).strip()
    def status(self, what):
        return {k.split(':')[1]: v for k, v in self.srv.stats(what, conn=self.c).items()}
    def rest(self, what):
        """its last status, when it has stopped"""
        for _ in range(3000):
            s = self.status(what)
            if s['status'] != 'running': return s
            time.sleep(.01)
        return dict(s, status='endless')
    def items(self): return int(self.srv.stats(conn=self.c)['curr_items'])
    def scrub(self, o):
        b = self.items()
        g = o['got'] = dict(reply=self.c.line('scrub').strip(), before=b)
        s = self.rest('scrub')
        g.update(visited=int(s.get('visited', -1)), cleaned=int(s.get('cleaned', -1)), mode=s.get('run_mode', '') if s['status'] == 'stopped' else s['status'], after=self.items())
        g['acct'] = [proto.contents(self.c.exchange(proto.encode(dict(c='acct', ks=[]))).decode('latin1'))] if not self.hn else []
    def scrub_start(self, o):
        raw = self.c.line('stats scrub\r\nscrub\r\nstats scrub')
        m = re.search(r'\r?\n?(OK|BUSY|[A-Z_]+)\r\n(?=STAT)', raw)
        v = re.findall(r'scrubber:visited (\d+)', raw)
        # (in a run that began anew fewer have been visited than before)
        o['got'] = dict(was=re.search(r'scrubber:status (\w+)', raw).group(1), reply=m.group(1) if m else raw[:100], on=len(v) == 2 and int(v[1]) >= int(v[0]) > 0)
    def scrub_end(self, o):
        s = self.rest('scrub')
        o['got'] = dict(items=self.items() if s['status'] == 'stopped' else -1, visited=int(s.get('visited', -1)), cleaned=int(s.get('cleaned', -1)))
    def scrub_count(self, o):
        return self.c.line('config scrub_count' + (' %d' % o['n'] if o['n'] else ''))
    def dump_start(self, o):
        if not self.dumping: self.c = self.r.choice(self.cs)
        o['was'] = self.status('dump')['status']
        f = 'dump%d' % self.dumps if not o['bad'] else 'nowhere/dump'
        self.dumps += 1
        raw = self.c.line('dump start key %s%s' % ('' if o['p'] == '<all>' else o['p'] + ' ', f))
        o['busy'] = o['was'] == 'running' and raw.startswith('SERVER_ERROR')
        if raw == 'OK\r\n': self.dumping = f
        return raw
    def dump_stop(self, o): return self.c.line('dump stop')
    def dump_end(self, o):
        if not self.dumping: o['got'] = {}; return
        s = self.rest('dump')
        g = o['got'] = dict(list=[], hs={}, more=0, odd=[], sum=[], stats=[s.get('success', s['status']), s.get('prefix', '')])
        path = os.path.join(self.srv.dir, self.dumping); self.dumping = None
        seen = {}
        for l in open(path, 'rb').read().decode('latin1').split('\n'):
            if g['sum']:
                if l: g['odd'].append(l)
                continue
            m = re.fullmatch(r'DUMP SUMMARY: \{ prefix=(\S+), count=(\d+), elapsed=\d+ \}', l)
            if m: g['sum'] = [m.group(1), m.group(2)]; continue
            if not l: continue
            m = re.fullmatch(r'([LSMBK]) (\S+) (-?\d+)', l)
            if not m: g['odd'].append('line ' + l[:100]); continue
            g['more'] += 1
            t, k, e = m.groups()
            h = re.fullmatch(r'(h\d+):(\d{6})', k)
            if not h: g['list'].append(dict(k=k, t=t, e=e)); continue
            if t != 'K' or h.group(1) not in self.hn or int(h.group(2)) >= self.hn[h.group(1)]: g['odd'].append('line ' + l); continue
            x = seen.setdefault(h.group(1), (set(), set())); x[0].add(h.group(2)); x[1].add(e)
        for h, x in seen.items(): g['hs'][h] = dict(n=len(x[0]), es=sorted(x[1]))
        if len(g['odd']) > 20: del g['odd'][20:]
        os.unlink(path)
    def crowd(self, o):
        """many keys at once, in the crowd that scans walk over"""
        for t, form in (('bg', 'bg%06d'), ('bp', 'bp%06d:k')):
            ks = [form % (self.many[t] + i) for i in range(o[t])]
            for i in range(0, len(ks), 4000):
                part = ks[i:i + 4000]
                raw = self.c.exchange(b''.join(b'set %s 0 0 1\r\nx\r\n' % k.encode() for k in part))
                if raw != b'STORED\r\n' * len(part): raise RuntimeError('the crowd was not stored: %r' % raw[:200])
            self.many[t] += o[t]
    def scan(self, o):
        """some steps of a walk over the keys or the prefixes"""
        if o['start']: self.walks[o['id']] = dict(cur='0', base=dict(self.many), seen={'bg': set(), 'bp': set()})
        w = self.walks[o['id']]
        o.setdefault('cur', w['cur'])
        self.c = self.r.choice(self.cs)
        if o['ks']: self.c.exchange(b'get ' + ' '.join(o['ks']).encode('latin1') + b'\r\n')
        g = o['got'] = dict(n=0, list=[], bg=0, bp=0, more=0, odd=[], cur=o['cur'])
        hops = 0
        while hops < o['hops']:
            line = 'scan %s %s' % (o['kind'], g['cur'])
            if o['n'] != 20 or self.r.random() < .5: line += ' count %d' % o['n']
            if o['pat']: line += ' match ' + o['pat']
            if o['kind'] == 'key' and (o['ty'] != 'A' or self.r.random() < .5): line += ' type ' + o['ty']
            raw = self.c.exchange(line.encode('latin1') + b'\r\n').decode('latin1')
            hops += 1
            if not proto.scanned(o, raw, w, self.many): break
            if g['cur'] == '0': break
        o['hops'] = hops; w['cur'] = g.get('cur', '0')
    def close(self):
        self.f.close()
        for c in self.cs + [b for b in self.bs if b]: c.close()

class AuthRecorder:
    """several connections to a server that asks for authentication (Auth.tla)"""
    def __init__(self, srv, path, cfg):
        self.srv = srv; self.cs = {}; self.pr = {}; self.f = open(path, 'w'); self.n = 0
        self.f.write(json.dumps(dict(now=srv.now(), cfg=cfg)) + '\n')
    def do(self, o):
        c = o['c']; i = o.get('cn')
        if c == 'open':
            if i in self.cs: self.cs[i].close(); time.sleep(.002)
            self.cs[i] = self.srv.conn(); self.pr[i] = o['pr']; raw = ''
        else:
            f = getattr(self, c, None) if c in ('clock', 'auth', 'mechs', 'badauth', 'authstats', 'admin', 'raw', 'bin') else self.text
            raw = f(o)
        o.pop('guess', None)
        self.f.write(json.dumps({'o': o, 'r': raw}) + '\n'); self.n += 1
        return raw
    def clock(self, o):
        self.srv.advance(o.pop('adv')); o['now'] = self.srv.now(); return ''
    def again(self, i):
        self.cs[i].close(); self.cs[i] = self.srv.conn()
    def text(self, o):
        raw = self.cs[o['cn']].exchange(proto.encode(o)).decode('latin1')
        o['lines'] = raw.split('\r\n')[:-1] if raw.startswith('CLIENT_ERROR unauthorized') or raw.startswith('ERROR') or not raw else [raw]
        proto.hints(o, raw)
        return raw
    def bin(self, o):
        i = o['cn']
        pkts, closed = binproto.exchange(self.cs[i], o, not o['guess'], 'version')
        if closed: self.again(i)
        return binproto.decode(o, pkts, closed)
    def raw(self, o):
        i = o['cn']
        pkts, closed = binproto.talk(self.cs[i], binproto.packet(o['op'], 1, o['key'].encode(), b'\0' * o['ext'], b'x' * o['len']), True, 'version')
        if closed: self.again(i)
        return ''.join('#%d %s\r\n' % (h[7], binproto.STATUS.get(h[5], h[5])) if h else 'BROKEN\r\n' for h, b in pkts) + ('CLOSED\r\n' if closed else '')
    def asked(self, i, op, key, val):
        """one packet of the kind that anyone may send"""
        pkts, closed = binproto.talk(self.cs[i], binproto.packet(op, 1, key, b'', val), False, 'version')
        if closed: self.again(i)
        out = []
        for h, b in pkts:
            if h is None: out.append('BROKEN'); continue
            s = binproto.STATUS.get(h[5], str(h[5]))
            out += [s, b.decode('latin1')] if h[5] == 0 or s == 'AUTH_CONTINUE' else [s]
        return ''.join(x + '\r\n' for x in out + (['CLOSED'] if closed else []))
    def auth(self, o):
        i = o['cn']; v = (o['user'] + ('\0' + o['pass'] if o['split'] else '')).encode()
        if self.pr[i] == 'b': return self.asked(i, 0x21 if o['m'] else 0x22, (o['m'] or 'VPTWO').encode(), v)
        raw = self.cs[i].exchange(b'sasl auth %s%d\r\n%s\r\n' % (o['m'].encode() + b' ' if o['m'] else b'', len(v), v)).decode('latin1')
        return 'AUTH_ERROR\r\n' if re.fullmatch(r'AUTH_ERROR [^\r]*\r\n', raw) else raw
    def mechs(self, o):
        i = o['cn']
        raw = self.asked(i, 0x20, b'', b'') if self.pr[i] == 'b' else self.cs[i].exchange(b'sasl mech\r\n').decode('latin1')
        m = re.fullmatch(r'(?:OK\r\n|SASL_MECH )([A-Z ]*)\r\n', raw)
        return ' '.join(sorted(m.group(1).split())) + '\r\n' if m else raw
    def badauth(self, o):
        i = o['cn']
        if self.pr[i] == 'b': return self.asked(i, self.pick(o, 0x21, 0x22), b'M' * o['n'], b'x' * 5)
        return self.cs[i].exchange(b'sasl auth %s\r\n' % self.pick(o, b'M' * o['n'] + b' 5', b'VPONE 4294967295', b'VPTWO 4294967294', b'2147483647', b'VPONE -1', b'VPONE x')).decode('latin1')
    def pick(self, o, *xs): return xs[o['n'] % len(xs)]
    def authstats(self, o):
        s = self.srv.stats(conn=self.cs[o['cn']]); o['got'] = [s.get('cmd_auth'), s.get('auth_errors')]; return ''
    def admin(self, o): return self.cs[o['cn']].line(o['line'])
    def close(self):
        self.f.close()
        for c in self.cs.values(): c.close()

def record(gen, srv, path, nops):
    rec = getattr(gen, 'recorder', Recorder)(srv, path, getattr(gen, 'cfg', None))
    try:
        for o in gen.prefix_ops():
            raw = rec.do(o); gen.feedback(o, raw)
        for _ in range(nops):
            o = gen.op()
            gen.last = o
            raw = rec.do(o)
            gen.feedback(o, raw)
    finally:
        rec.close()
    return rec.n
