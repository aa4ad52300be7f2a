"""Runs of a persistent server with crashes, checkpoints and restarts, checked against spec/Persist.tla."""
import json, os, random, re, shutil, signal, socket, struct, tempfile, threading, time
import server as S, proto, tlc, gen
from run import Violation, WORK, pmap

OKS = ('STORED', 'CREATED', 'DELETED', 'REPLACED', 'UPDATED', 'OK')
def succeeded(o, raw):
    """the reply promises an update that was made (so the server has waited for its log)"""
    if 'nr' in o: return False
    c = o['c']
    l = raw.split('\r\n')
    if c in ('incr', 'decr', 'bop incr', 'bop decr'): return l[0][:1].isdigit()
    if c in ('lop get', 'sop get', 'mop get', 'bop get'): return l[-2].startswith('DELETED') if len(l) > 1 else False
    if c in ('setattr', 'flush_all', 'flush_prefix', 'touch'): return l[0] in ('OK', 'TOUCHED')
    return l[0].startswith(OKS)

class PGen(gen.Mixed):
    """updates of every kind on a few keys, plus a crowd of others for the checkpoint to walk over"""
    keys = ['x1', 'x2', 'p:x3', 'p:x4', 'y5', 'q:y6']
    parts = [gen.Kv, gen.List, gen.Set, gen.Map, gen.BtreeTrim]
    weights = dict(inner=100, delete=5, create=8, setattr=12, crowd=8, flush=.7, flushp=1.5, tick=1.5, take=4, pipe=2, wide=6, fat=2)
    ncrowd = 120
    def setup(self):
        gen.Mixed.setup(self)
        self.share = [8, 5, 4, 5, 7]
        self.mcs = [0, 0, 4, 6, 30]
        for g in self.subs[1:]: g.mcs = self.mcs; g.exp = self.exp
        g = self.subs[-1]; g.hexlen = 2; g.fam = {k: self.pick('u', 'x') for k in self.keys}; g.mrs = ['3', '5', '20', '0']; g.U = 9
        self.sub = gen.Pipe(self.r); self.sub.keys = self.keys
        for g in self.sub.subs: g.keys = self.keys; g.exp = self.exp
        for g in self.sub.subs: g.fam = self.subs[-1].fam
    def exp(self): return self.pick(0, 0, 0, 0, 3, 10, 1000, -1)
    def delete(self): return dict(c='delete', k=self.key())
    def create(self): return self.r.choice(self.subs[1:]).create()
    def inner(self):
        while True:
            o = gen.Mixed.inner(self)
            if o['c'] not in ('gets', 'mgets', 'cas', 'big') and not o.get('getrim'): return o
    def setattr(self):
        k = self.key()
        n = self.pick('expiretime', 'maxcount', 'overflowaction', 'readable', 'maxbkeyrange')
        v = {'expiretime': str(self.pick(0, 5, 100, -1)), 'maxcount': str(self.pick(0, 3, 10, 5000)), 'readable': 'on',
             'overflowaction': self.pick('error', 'head_trim', 'tail_trim', 'smallest_trim', 'largest_trim', 'smallest_silent_trim'), 'maxbkeyrange': self.subs[-1].mr(k)}[n]
        s = [[n, v]]
        if self.chance(.2): s.append(['expiretime', str(self.pick(0, 50))])
        return self.nr(dict(c='setattr', k=k, sets=s))
    def nr(self, o):
        return o
    def crowdkey(self): return 'z%03d' % self.r.randrange(self.ncrowd)
    def crowd(self):
        x = self.r.random(); k = self.crowdkey()
        if x < .6: return dict(c='set', k=k, fl='3', exp=0, v='w%d' % self.n)
        if x < .8: return dict(c='delete', k=k)
        return dict(c='lop insert', k='l' + k, i=-1, v='e%d' % self.n, cr=dict(fl='1', exp=0, mc=0, ov='', rd=True))
    def flush(self): return dict(c='flush_all', d=0)
    def flushp(self): return dict(c='flush_prefix', p=self.pick('p', 'q', '<null>'), d=0)
    def tick(self): return dict(c='clock', adv=self.pick(1, 1, 2))
    def take(self):
        o = self.r.choice(self.subs[1:4]).take()
        return o
    def wide(self):
        """deletions of several elements, with and without dropping the emptied collection"""
        k = self.key(); d = self.chance(.5); x = self.r.randrange(4); w = self.pick('delete', 'drop')
        bt = self.subs[-1]
        if x == 0: return self.pick(dict(c='lop delete', k=k, f=self.pick(0, 1, -2), t=self.pick(-1, 2), drop=d, two=1), dict(c='lop get', k=k, f=0, t=self.pick(-1, 1), two=1, **{'del': w}))
        if x == 1: return dict(c='sop get', k=k, n=self.pick(0, 2, 3), **{'del': w})
        if x == 2: return self.pick(dict(c='mop delete', k=k, fs=[], drop=d), dict(c='mop get', k=k, fs=[], **{'del': w}), dict(c='mop delete', k=k, fs=['f0', 'f1', 'f2'], drop=d))
        lo, hi = ('0', '99') if bt.fam[k] == 'u' else ('0x0000', '0xFFFF')
        if self.chance(.5): lo, hi = hi, lo
        if self.chance(.5): return dict(c='bop delete', k=k, f=lo, t=hi, n=self.pick(0, 2, 3), drop=d)
        return dict(c='bop get', k=k, f=lo, t=hi, off=0, n=self.pick(0, 2), **{'del': w})
    def fat(self):
        """values that look like the insides of a log"""
        k = self.key(); n = self.r.randrange(5, 60)
        v = self.pick('\0' * 8, '\1\0\0\0\x08\0\0\0', '\0\0\0\0\0\0\0\x10', '\x1e\0\0\0\0\0\0\0', '%c\0\0\0%c\0\0\0' % (self.r.randrange(32), self.r.randrange(40))) * n
        if self.chance(.5): return dict(c='set', k=k, fl='0', exp=0, v='zzzzzzzz' + v)       # (the number parser stops at a NUL)
        return dict(c='lop insert', k=k, i=-1, v=v[:4000], cr=dict(fl='0', exp=0, mc=0, ov='', rd=True))
    def full(self):
        """a collection of several elements, and then a command that takes many of them at once"""
        k = self.key(); cr = dict(fl='0', exp=0, mc=0, ov='error', rd=True); d = self.chance(.6); w = self.pick('delete', 'drop'); n = self.r.randrange(3, 9)
        x = self.r.randrange(4); two = self.chance(.5)
        ops = [dict(c='delete', k=k)]
        bt = self.subs[-1]
        if x == 0:
            ops += [dict(c='lop insert', k=k, i=-1, v='e%d' % i, cr=cr) for i in range(n)]
            last = self.pick(dict(c='lop delete', k=k, f=0, t=-1, drop=d, two=1), dict(c='lop delete', k=k, f=1, t=-1, drop=d, two=1), dict(c='lop get', k=k, f=0, t=-1, two=1, **{'del': w}))
        elif x == 1:
            ops += [dict(c='sop insert', k=k, v='e%d' % i, cr=cr) for i in range(n)]
            last = dict(c='sop get', k=k, n=self.pick(0, 2), **{'del': w})
        elif x == 2:
            ops += [dict(c='mop insert', k=k, f='f%d' % i, v='e%d' % i, cr=cr) for i in range(n)]
            last = self.pick(dict(c='mop delete', k=k, fs=[], drop=d), dict(c='mop get', k=k, fs=[], **{'del': w}), dict(c='mop delete', k=k, fs=['f0', 'f1', 'f2'], drop=d))
        else:
            u = bt.fam[k] == 'u'
            ops += [dict(c='bop insert', k=k, b=str(i) if u else '0x%04X' % i, ef='', v='e%d' % i, getrim=False, cr=cr) for i in range(n)]
            lo, hi = ('0', '99') if u else ('0x0000', '0xFFFF')
            last = self.pick(dict(c='bop delete', k=k, f=lo, t=hi, n=self.pick(0, 2), drop=d), dict(c='bop get', k=k, f=lo, t=hi, off=0, n=self.pick(0, 2), **{'del': w}))
        return ops, last
    def pipe(self):
        ops = [self.sub.piped() for _ in range(self.r.choice([2, 3, 5]))]
        return dict(c='pipe', ops=ops)
    def noreply(self, o):
        """the same command without a reply, where there is such a form"""
        if o['c'] in ('set', 'add', 'replace', 'append', 'prepend', 'incr', 'decr', 'delete', 'lop insert', 'sop insert', 'mop insert', 'bop insert', 'bop upsert',
                      'lop delete', 'sop delete', 'bop delete', 'mop delete', 'mop update', 'bop update', 'setattr') and 'sets' not in o: o['nr'] = 1
        return o
    def filler(self):
        ops = [dict(c='set', k='z%03d' % i, fl='0', exp=0, v='v%d' % i) for i in range(self.ncrowd)]
        return dict(c='stream', ops=ops)
    def bulk(self):
        """much to log, and nothing left of it"""
        ops = []
        for i in range(3): ops += [dict(c='set', k='bulk', fl='0', exp=0, v='b' * 4000), dict(c='delete', k='bulk')]
        return dict(c='stream', ops=ops)
    def dump(self):
        """reads that show the whole state"""
        bt = self.subs[-1]
        yield dict(c='get', ks=self.keys + ['z%03d' % i for i in range(self.ncrowd)])
        for k in self.keys:
            yield dict(c='getattr', k=k, names=[])
            yield dict(c='lop get', k=k, f=0, t=-1, two=1, **{'del': ''})
            yield dict(c='sop get', k=k, n=0, **{'del': ''})
            yield dict(c='mop get', k=k, fs=[], **{'del': ''})
            for lo, hi in (('0', '18446744073709551615'), ('0x00', '0x' + 'FF' * 31)):
                yield dict(c='bop get', k=k, f=lo, t=hi, off=0, n=0, **{'del': ''})
        for i in range(self.ncrowd):
            yield dict(c='lop get', k='lz%03d' % i, f=0, t=-1, two=1, **{'del': ''})

class Run:
    """one run: a server directory, a log of operations, and the restarts in between"""
    def __init__(self, path, rng, sync=True, quick=True, ncrowd=120, G=PGen):
        self.r = rng; self.path = path; self.sync = sync
        self.g = G(rng); self.g.ncrowd = ncrowd
        self.dir = tempfile.mkdtemp(prefix='arcus-ps-')
        for d in ('data', 'logs', 'fs'): os.makedirs(os.path.join(self.dir, d))
        self.clog = os.path.join(self.dir, 'calls')
        self.f = open(path, 'w'); self.srv = None; self.conn = None
        self.open = []                  # commands nobody has been promised the effect of
        self.synced = {}                # file name -> bytes known to be on disk
        self.crashes = 0; self.ckpts = 0; self.n = 0; self.torn = 0
    def log(self, o, raw='', promised=False):
        e = {'o': o, 'r': raw}
        if promised: e['p'] = 1
        self.f.write(json.dumps(e) + '\n')
    # ---------------------------------------------------------------- server
    def start(self, crash_at=0, mode=0, only=None, perturb=0):
        conf = 'use_persistence=true;data_path=%s/data;logs_path=%s/logs;async_logging=%s;chkpt_interval_pct_snapshot=0;chkpt_interval_min_logsize=0' % \
               (self.dir, self.dir, 'false' if self.sync else 'true')
        env = dict(CRASH_DIR=self.dir, CRASH_LOG=self.clog, VT_STRICT='1', SHIM_BT='1')
        if crash_at: env.update(CRASH_AT=str(crash_at), CRASH_MODE=str(mode))
        if only: env['CRASH_ONLY'] = only
        open(self.clog, 'w').close()
        self.mode = mode; self.crash_at = crash_at
        if self.srv: self.srv.vt[40:64] = struct.pack('qqq', 0, 0, 0)
        self.base()
        if self.srv is None:
            self.srv = S.Server('persist', workdir=self.dir, mem=200, threads=2, engine_conf=conf, wait=False, env=env, scale=25)
            first = True
        else:
            self.srv.env0 = env; self.srv.start(wait=False); first = False
        try:
            self.srv.wait_ready()
        except S.ServerDied:
            if crash_at: return False
            raise Violation('the server does not start from the files it left: ' + self.srv.stderr()[-800:], dict(dir=self.keepdir()))
        self.conn = self.srv.conn()
        if first and self.n == 0: self.f.write(json.dumps({'now': self.srv.now(), 'async': not self.sync}) + '\n')
        return True
    def arm(self, n, mode, part=0):
        """make the n-th call on a file from now on the last one"""
        self.mode = mode; self.crash_at = -1
        self.srv.vt[40:64] = struct.pack('qqq', n, mode, part)
    def keepdir(self):
        d = self.path.replace('.ndjson', '-files'); shutil.rmtree(d, ignore_errors=True)
        try: shutil.copytree(self.dir, d, ignore=shutil.ignore_patterns('vt'))
        except Exception: pass
        return d
    def files(self):
        for d in ('data', 'logs'):
            for n in os.listdir(os.path.join(self.dir, d)): yield n, os.path.join(self.dir, d, n)
    def base(self):
        for n, p in self.files(): self.synced[n] = os.path.getsize(p)
    def power(self):
        """what a power failure leaves: of each file what was synced, and any part of the rest"""
        syn = dict(self.synced)
        lines = [l.split() for l in open(self.clog)]
        if lines and self.died and self.mode != 2: lines.pop()      # (the call it stopped before)
        for w in lines:
            if len(w) == 5 and w[1] == 'fsync': syn[w[2]] = int(w[3])
        for n, p in self.files():
            have = os.path.getsize(p); keep = min(syn.get(n, 0), have)
            if have > keep:
                keep += self.r.choice([0, 0, self.r.randrange(have - keep + 1)])
                if keep < have:
                    self.torn += 1
                    with open(p, 'r+b') as f: f.truncate(keep)
    # ---------------------------------------------------------------- commands
    def do(self, o):
        """execute and log; False when the server has stopped meanwhile"""
        self.n += 1
        if o['c'] == 'clock':
            try: self.srv.advance(o['adv'], self.conn)
            except (S.ServerDied, OSError): return self.dead(None)
            self.log({'c': 'clock', 'now': self.srv.now()}); return True
        try: raw = self.conn.exchange(proto.encode(o)).decode('latin1')
        except (S.ServerDied, OSError):
            self.open.append(o); return self.dead(o)
        proto.hints(o, raw)
        self.log(o, raw, self.promised(o, raw))
        return True
    def promised(self, o, raw):
        """the reply says that an update has been made (and so is on disk, and all before it)"""
        if not self.sync: return False
        if o['c'] == 'pipe':
            l = raw.split('\r\n')
            return len(l) > 3 and l[-2] == 'END' and l[-3].startswith(OKS)
        if o['c'] == 'stream': return True
        return succeeded(o, raw)
    def dead(self, o):
        try: self.srv.proc.wait(5)
        except Exception: pass
        rc = self.srv.proc.poll()
        if rc is None or rc not in (137, -9):
            raise Violation('the server stopped answering (exit %s) at %s: %s' % (rc, json.dumps(o)[:200], self.srv.stderr()[-2500:]), dict(last=o, dir=self.keepdir()))
        return False
    def fl(self):
        out = []
        for o in self.open: out += o['ops'] if o['c'] in ('pipe', 'stream') else [o]
        return [{k: v for k, v in o.items()} for o in out if self.unread(o)]
    def unread(self, o): return o['c'] not in ('get', 'mget', 'getattr')
    def crash(self):
        self.crashes += 1
        self.died = self.srv.proc.poll() == 137
        self.srv.kill()
        if os.environ.get('KEEPCALLS'): shutil.copy(self.clog, self.clog + '.%d' % self.n)
        if self.conn: self.conn.close()
        # (with asynchronous logging nothing orders the files of a checkpoint on the disk)
        if self.r.random() < .5 and (self.sync or not self.ckpts): self.power()
    def stop(self):
        """orderly shutdown: everything is kept, whatever the mode"""
        self.conn.close()
        rc = self.srv.stop()
        if rc == 137: self.crashes += 1; return False
        if rc not in (0, -15): raise Violation('orderly shutdown ended with %s: %s' % (rc, self.srv.stderr()[-600:]), dict(dir=self.keepdir()))
        self.open = []
        return True
    def restarted(self, orderly=False, adv=0):
        if adv: self.srv._settime(self.srv.now() + adv)
        o = {'c': 'restart', 'now': self.srv.now(), 'fl': self.fl()}
        if orderly: o['all'] = True
        self.log(o)
        self.open = []
    def checkpoint(self, slow=0, work=0):
        """let virtual seconds pass until a checkpoint has been made, with commands running meanwhile"""
        before = self.ckstat()
        if before is None: return False
        # (one is due when the command log has grown as large as the last snapshot)
        while before[2] <= before[3]:
            if not self.do(self.g.bulk()): return False
            x = self.ckstat()
            if x is None: return False
            if x[2] == before[2]: break
            before = x
        self.srv.vt[32:40] = struct.pack('q', slow)
        done = 0
        for i in range(14):
            if not self.do({'c': 'clock', 'adv': 1}): return False
            time.sleep(.012)
            st = self.ckstat()
            if st is None: return False
            if st[0] != before[0]: break
        else: return True                # nothing to do
        self.ckpts += 1
        end = time.time() + 60
        while time.time() < end:
            if done < work:
                done += 1
                o = dict(c='stream', ops=[self.g.crowd() for _ in range(15)]) if self.r.random() < self.pstream else self.op()
                if not self.do(o): return False
            st = self.ckstat()
            if st is None: return False
            if not st[1]: break
            if done >= work: self.srv.vt[32:40] = struct.pack('q', 0); time.sleep(.005)
        self.srv.vt[32:40] = struct.pack('q', 0)
        return True
    def ckstat(self):
        try: s = self.srv.stats('persistence', self.conn)
        except (S.ServerDied, OSError): self.dead(None); return None
        return s['last_chkpt_start_time'], s['last_chkpt_in_progress'] == 'true', int(s['current_command_log_filesize_bytes']), int(s['last_chkpt_snapshot_filesize_bytes'])
    def op(self):
        g = self.g
        o = g.op()
        if o['c'] not in ('clock', 'pipe', 'stream') and self.r.random() < self.pnr: o = g.noreply(o)
        return o
    pnr = .12; pstream = .2
    def dump(self):
        for o in self.g.dump():
            if not self.do(o): return False
        return True
    def close(self):
        self.f.close()
        if self.conn: self.conn.close()
        if self.srv: self.srv.kill()
    def remove(self): shutil.rmtree(self.dir, ignore_errors=True)

def check(ctx, path, kind, i, timeout=600):
    rc, out = tlc.run('Persist', env={'TRACE': path}, timeout=timeout)
    m = re.search(r'"PROGRESS (\d+) OF (\d+)"', out)
    if m is None or rc != 0: raise tlc.TlcError('TLC failed on %s (exit %d)\n%s' % (path, rc, out[out.find("Error:"):][:900]))
    if m.group(1) != m.group(2):
        mm = tlc.printed(out, 'MISMATCH')
        mm = [x for x in mm if x['l'] == max(y['l'] for y in mm)] if mm else [{}]
        x = mm[0]
        raise Violation('no prefix of the commands explains step %s of %s-%d: %s expected %s got %r (%d ways)' %
                        (m.group(1), kind, i, json.dumps(x.get('o'))[:300], json.dumps(x.get('want'))[:300], str(x.get('got'))[:300], len(mm)),
                        dict(kind='trace', spec='Persist', trace=path, mismatch=mm[:4]))
    return tlc.stats(out)

def session(ctx, kind, i, cycles, sync=True):
    """kind 'log': crashes while commands run; 'ckpt': checkpoints, failures of files, shutdowns"""
    rng = ctx.rng(kind, i)
    path = ctx.path('%s-%d.ndjson' % (kind, i))
    r = Run(path, rng, sync=sync, ncrowd=rng.choice([20, 60] if kind == 'log' else [60, 120, 250]))
    try:
        r.start()
        r.do(r.g.filler())
        for cyc in range(cycles):
            # ------------------------------------------------ commands up to the crash
            alive = True
            if kind == 'log':
                n = rng.choice([0, 2, 5, 20, 50])
                for _ in range(n):
                    if not r.do(r.op()): alive = False; break
                if alive and rng.random() < .6:
                    # stop in the middle of what one command writes
                    ops, last = r.g.full() if rng.random() < .6 else ([], r.g.fat())
                    for o in ops:
                        if not r.do(o): alive = False; break
                    if alive:
                        r.arm(rng.choice([1, 1, 1, 2, 3]), rng.choice([0, 1, 1, 1, 2]), rng.randrange(1, 1000))
                        alive = r.do(last)
                        while alive and r.srv.vt[40]: alive = r.do(r.op())
            else:
                for _ in range(rng.choice([1, 2, 3])):
                    for _ in range(rng.choice([0, 5, 25])):
                        if not r.do(r.op()): alive = False; break
                    if not alive: break
                    if not r.checkpoint(slow=rng.choice([0, 1500, 4000, 10000]), work=rng.choice([0, 10, 40, 80])): alive = False; break
                if alive and rng.random() < .6:
                    for _ in range(rng.choice([3, 15])):
                        if not r.do(r.op()): alive = False; break
            # ------------------------------------------------ the end of this server
            orderly = alive and rng.random() < .25
            if orderly: orderly = r.stop()
            else: r.crash()
            # ------------------------------------------------ the next one, which may be made to stop as well
            while True:
                r.restarted(orderly, adv=rng.choice([0, 1, 1, 2]) if kind == 'log' else rng.choice([1, 2]))
                mode = rng.choice([0, 1, 2]) if kind == 'log' else rng.choice([0, 1, 2, 2, 3, 3])
                only = None
                if mode == 3: only = rng.choice(['write snapshot_', 'open snapshot_', 'open cmdlog_', 'unlink', 'unlink snapshot_', 'unlink cmdlog_'])
                late = kind == 'ckpt' and rng.random() < .25      # stop when the snapshot is complete, and the log of what ran meanwhile may not be
                at = rng.choice([0, rng.randrange(1, 6), rng.randrange(1, 60), rng.randrange(1, 120)]) if mode != 3 else rng.choice([1, 1, 2])
                if late: mode = rng.choice([0, 2, 2, 2]); only = 'fsync snapshot_'; at = 1
                if cyc == cycles - 1: at = 0
                if mode == 3 and only == 'open cmdlog_' and at == 1: at = 2     # (opening the current log at the start is no checkpoint)
                if r.start(at, mode, only):
                    if r.dump(): break
                # it stopped while starting or while being read
                orderly = False
                r.crash()
        r.close()
        try: st = check(ctx, path, kind, i)
        except Violation: r.keepdir(); raise
    finally:
        r.close(); r.remove()
    ctx.add(transitions=st[0], states=st[1], traces_validated_against_impl=1, crashes=r.crashes, checkpoints=r.ckpts, torn_files=r.torn, commands=r.n)
    os.unlink(path)
    return r.crashes, r.ckpts, r.n

def sessions(plan):
    """a part: plan maps (kind, sync, cycles, quick runs, thorough runs)"""
    def part(ctx):
        jobs = []
        for kind, sync, cycles, q, t in plan:
            base = 0 if sync else 100000
            for i in range(q if ctx.quick else t): jobs.append((kind, base + i, cycles, sync))
        # (the long ones first)
        n = pmap(ctx, lambda j: session(ctx, *j), sorted(jobs, key=lambda j: (j[0] != 'ckpt', j[3])))
        ctx.note('%d runs with %d crashes and %d checkpoints, %d commands accepted' % tuple([len(n)] + [sum(x[k] for x in n) for k in range(3)]))
    return part

# ---------------------------------------------------------------- known findings, shown with a short history each
def history(ctx, name, ops, look):
    """run the commands, kill the server, start it again and ask"""
    r = Run(ctx.path('known-%s.ndjson' % name), ctx.rng(name))
    try:
        r.start()
        for o in ops: r.do(o)
        r.crashes += 1; r.srv.kill(); r.conn.close()
        r.start()
        return r.conn.exchange(look).decode('latin1')
    finally: r.close(); r.remove()

def known(ctx):
    kv = lambda k: dict(c='set', k=k, fl='0', exp=0, v='v')
    got = history(ctx, 'delayed', [kv('x1'), dict(c='flush_all', d=1), dict(c='clock', adv=1), dict(c='clock', adv=1), dict(c='clock', adv=1)], b'get x1\r\n')
    if got != 'END\r\n': ctx.known('delayed-flush', 'after "set x1", "flush_all 1", three seconds and a crash, get x1 answers %r' % got)
    ins = lambda b, cr={}: dict(c='bop insert', k='x1', b=b, ef='', v='v', getrim=False, **cr)
    got = history(ctx, 'trimmed', [ins('5', dict(cr=dict(fl='0', exp=0, mc=1, ov='smallest_trim', rd=True))), ins('3')], b'getattr x1 trimmed\r\n')
    if 'trimmed=1' not in got: ctx.known('trimmed-mark', 'after an insertion refused with OUT_OF_RANGE and a crash, getattr trimmed answers %r' % got)
