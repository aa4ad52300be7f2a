"""Recording runs with command logging and the detection of long queries (Record.tla)."""
import json, os, random, re, socket, threading, time
import server as S, proto

class SrcConn(S.Conn):
    """a connection that comes from an address of its own"""
    def __init__(self, srv, ip, timeout=30.0):
        self.srv = srv; self.buf = b''
        self.s = socket.create_connection(('127.0.0.1', srv.port), timeout=timeout, source_address=(ip, 0))
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)

def storm_line(i, seed):
    """the line a client sends as its i-th"""
    n = (330, 60, 365, 366, 364, 250, 367, 368, 500)[(i * 7 + seed) % 9]
    body = 'get %010d' % i
    while len(body) < n: body += ' ' + 'k' * min(200, max(1, n - len(body) - 1))
    return body

class Recorder:
    def __init__(self, srv, path, cfg=None):
        self.srv = srv; self.path = path; self.n = 0; self.r = random.Random(os.path.basename(path))
        self.ips = ['127.0.0.1', '127.0.0.2', '127.10.20.30', '127.110.220.130']
        self.cs = [SrcConn(srv, ip) for ip in self.ips]
        self.dir = 'vplog'; self.logdir = os.path.join(srv.dir, self.dir)
        os.mkdir(self.logdir); os.mkdir(os.path.join(srv.dir, 'command_log'))
        self.f = open(path, 'w'); self.f.write(json.dumps(dict(now=srv.now())) + '\n')
        self.dirs = [self.logdir, os.path.join(srv.dir, 'command_log')]
        t = time.localtime(srv.now())
        self.stamp = time.strftime('%H:%M:%S.000000 ', t)
        self.name = 'command_%d_%d_%d_' % (srv.port, int(time.strftime('%Y%m%d', t)), int(time.strftime('%H%M%S', t))) + '%d.log'
    def ask(self, i, line): return self.cs[i].line(line)
    def do(self, o):
        i = self.r.randrange(len(self.cs)); c = o['c']; raw = ''
        o['ip'] = self.ips[i]
        if c == 'logstorm': self.storm(o)
        elif c == 'cmdlog start':
            where = {'good': o.get('dir'), 'bad': ' nowhere', 'long': ' ' + 'd' * o.get('len', 0)}[o['w']]
            o['sent'] = ['cmdlog start' + where, 'version']; raw = self.ask(i, o['sent'][0])
        elif c == 'cmdlog stop':
            o['sent'] = [c, 'version']; raw = self.ask(i, c)
            o['file'], o['odd'] = [], []
            if 'already' not in raw:
                self.rest(i); o['file'], o['odd'], _ = self.read()
        elif c == 'cmdlog stats':
            o['sent'] = [c, 'version']; o['got'] = self.state(self.ask(i, c))
        elif c == 'lqdetect start':
            o['sent'] = [c + (' %d' % o['n'] if o['n'] or o['zero'] else ''), 'version']; raw = self.ask(i, o['sent'][0])
        elif c == 'lqdetect stop':
            o['sent'] = [c, 'version']; raw = self.ask(i, c)
        elif c == 'lqdetect stats':
            o['sent'] = [c, 'version']; t = self.ask(i, c)
            m = re.fullmatch(r'\tLong query detection stats : (.*)\n\tThe last running time : (\d+)_(\d+) ~ (\d+_\d+)\n\tThe number of total long query commands : (-?\d+)\n\tThe detection threshold : (\d+)\n', t)
            o['got'] = [m.group(1), m.group(5), m.group(6), m.group(4)] if m else [t, '', '', '']
        elif c == 'lqdetect show':
            o['sent'] = [c, 'version']; o['got'] = self.shown(self.ask(i, c))
        else:
            raw = self.cs[i].exchange(proto.encode(o)).decode('latin1')
            o['sent'] = [proto.encode(x).decode('latin1').split('\r\n')[0] for x in (proto.fill_ops(o) if c == 'fill' else [o])] + ['version']
            if c == 'fill': raw = proto.filled(o, raw)
            proto.hints(o, raw)
        self.f.write(json.dumps({'o': o, 'r': raw}) + '\n'); self.n += 1
        return raw
    def state(self, t):
        m = re.fullmatch(r'\tCommand logging state : (.*)\n\tThe last running time : \d+_\d+ ~ \d+_\d+\n\tThe number of entered commands : (\d+)\n\tThe number of skipped commands : (\d+)\n\tThe number of log files : (-?\d+)\n\tThe log file name: .*\n', t)
        return list(m.groups()) if m else [t, '', '', '']
    def rest(self, i):
        for _ in range(4000):
            g = self.state(self.ask(i, 'cmdlog stats'))
            if g[0] != 'running': return g
            time.sleep(.005)
        return ['endless', '-1', '-1', '-1']
    def read(self, also=(), cut=False):
        """the lines of the log without their time, and whatever else is there"""
        out, odd = [], []; n = 0; texts = list(also); first = 1 if also else 0
        for d in self.dirs:
            for f in sorted(os.listdir(d), key=lambda f: (len(f), f)):
                p = os.path.join(d, f)
                if f != self.name % n: odd.append('file ' + f)
                n += 1
                if not also or n > 1: texts.append(open(p, 'rb').read())
                os.unlink(p)
        # (a line may begin in one file and end in the next)
        t = b''.join(texts).decode('latin1')
        if cut: t = t[:t.rfind('\n') + 1]         # (with the files full the last line may have no end)
        if t and not t.endswith('\n'): odd.append('an end that is none: ' + t[-50:])
        for l in t.split('\n')[:-1]:
            if not l.startswith(self.stamp): odd.append(l[:100])
            out.append(l[len(self.stamp):])
        return out, odd[:10], n
    def shown(self, t):
        out = []
        for l in t.split('\n'):
            m = re.fullmatch(r'([a-z]+ [a-z]+) : (\d+)', l)
            if m: out.append(dict(c=m.group(1), n=m.group(2), l=[]))
            elif l:
                if not out or not l.startswith(self.stamp): return ['odd ' + l[:200]]
                out[-1]['l'].append(l[len(self.stamp):])
        return out
    # -- many clients at once
    def storm(self, o):
        n = o['n']; mode = o['mode']; seed = o.pop('seed')
        ips = ['127.1.%d.%d' % (10 + k, 20 + k) for k in range(n)]; sent = [0] * n; answered = [0] * n
        halt = threading.Event(); trouble = []
        cs = [SrcConn(self.srv, ip) for ip in ips]
        quota = o['lines']; target = [0] * n
        def client(k):
            r = random.Random(seed * 31 + k); c = cs[k]
            try:
                while not halt.is_set() or sent[k] < target[k]:
                    if sent[k] >= quota * 3 and halt.is_set(): break
                    m = r.choice((1, 2, 20, 100))
                    chunk = ''.join(storm_line(sent[k] + j, seed) + '\r\n' for j in range(1, m + 1))
                    sent[k] += m                # before it is on its way
                    c.s.sendall(chunk.encode())
                    got = 0
                    while got < m * 5:
                        d = c.s.recv(1 << 16)
                        if not d: raise S.ServerDied('connection closed by the server')
                        got += len(d)
                    answered[k] += m
            except Exception as x: trouble.append(x); halt.set()
        fd = None; also = []; drained = []
        path = os.path.join(self.logdir, self.name % 0)
        if mode == 'fifo':
            os.mkfifo(path); fd = os.open(path, os.O_RDONLY | os.O_NONBLOCK)
        if mode == 'full': os.symlink('/dev/full', path)
        ts = [threading.Thread(target=client, args=(k,)) for k in range(n)]
        for t in ts: t.start()
        time.sleep(.01)
        started = self.ask(0, 'cmdlog start ' + self.dir)
        base = list(sent)
        end = time.time() + 120
        while sum(answered) - sum(base) < quota * n and time.time() < end and not trouble:
            if mode in ('full', 'over') and self.state(self.ask(0, 'cmdlog stats'))[0] != 'running': break
            time.sleep(.002)
        sure = list(answered)
        stopped = self.ask(0, 'cmdlog stop')
        again = self.ask(0, 'cmdlog start ' + self.dir) if mode == 'fifo' else 'none'
        time.sleep(.005); halt.set()
        if fd is not None:
            os.set_blocking(fd, True); buf = []
            def drain():
                while True:
                    d = os.read(fd, 1 << 16)
                    if not d: break
                    buf.append(d)
            dt = threading.Thread(target=drain); dt.start()
        for t in ts: t.join()
        for c in cs: c.close()
        if trouble: raise trouble[0]
        g = self.rest(0)
        if fd is not None:
            dt.join(20); os.close(fd); also = [b''.join(buf)]
        if mode == 'full': os.unlink(path); o['has'] = 1; lines, odd = [], []
        else: lines, odd, o['has'] = self.read(also, mode == 'over')
        if started != '\tcommand logging started.\n\r\n': odd.append(started)
        if stopped != '\tcommand logging %sstopped.\n\r\n' % ('already ' if mode in ('full', 'over') else ''): odd.append(stopped)
        if mode == 'fifo' and again != '\tcommand logging failed to start.\n\r\n': odd.append(again)
        by = [dict(ordered=True, first=0, last=0, count=0, sure1=base[k] + 1, sureN=sure[k] if sure[k] > base[k] and mode not in ('full', 'over') else 0) for k in range(n)]
        which = {ip: k for k, ip in enumerate(ips)}; size = 0
        for l in lines:
            size += len(l) + 17
            ip, _, rest = l.partition(' ')
            if ip in which and rest.startswith('get '):
                b = by[which[ip]]; i = int(rest[4:14]) if rest[4:14].isdigit() else 0
                t = ip + ' ' + storm_line(i, seed)
                if l != (t if len(t) + 17 <= 399 else t[:380] + '..'): odd.append(l[:100])
                if i <= b['last']: b['ordered'] = False
                if not b['count']: b['first'] = i
                b['last'] = i; b['count'] += 1
            elif ip != '127.0.0.1' or rest not in ('version', 'cmdlog stop', 'cmdlog stats', 'cmdlog start ' + self.dir): odd.append(l[:100])
        for b in by:
            if not b['count']: b['first'] = 1 << 30 if b['sureN'] else 0; b['last'] = b['first'] - 1
        o.update(entered=int(g[1]), skipped=int(g[2]), lines=len(lines), what=g[0], files=int(g[3]), by=by if mode != 'full' else [], odd=odd[:10],
                 room=size + 500 * int(g[2]) > 9 << 20, must={'full': 'stopped by disk flush error', 'over': 'stopped by command log overflow'}.get(mode, 'Not started'))
    def close(self):
        self.f.close()
        for c in self.cs: c.close()
