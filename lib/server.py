"""Starting, stopping and talking to the server under test."""
import os, socket, struct, subprocess, sys, tempfile, time, mmap, shutil, signal, random
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B

SENT = b'version\r\n'
SENT_PREFIX = b'VERSION '
BASE_TIME = 1700000000

class ServerDied(Exception):
    pass

def _asan():
    return subprocess.run(['gcc', '-print-file-name=libasan.so'], stdout=subprocess.PIPE, text=True).stdout.strip()

class Conn:
    """one client connection; exchange() returns the exact bytes the server wrote for a request"""
    def __init__(self, srv, timeout=20.0):
        self.srv = srv
        self.s = socket.create_connection(('127.0.0.1', srv.port), timeout=timeout)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.buf = b''
    def close(self):
        try: self.s.close()
        except OSError: pass
    def send(self, data):
        self.s.sendall(data)
    def recv_some(self):
        d = self.s.recv(1 << 18)
        if not d: raise ServerDied('connection closed by the server')
        self.buf += d
    def read_to_sentinel(self):
        start = 0
        while True:
            i = self.buf.find(self.srv.sentinel, start)
            if i >= 0:
                r = self.buf[:i]
                self.buf = self.buf[i + len(self.srv.sentinel):]
                return r
            start = max(0, len(self.buf) - len(self.srv.sentinel))
            self.recv_some()
    def exchange(self, data):
        """send one request followed by a sentinel command; return everything answered before the sentinel"""
        self.s.sendall(data + SENT)
        return self.read_to_sentinel()
    def line(self, cmd):
        """for simple one-line-reply administrative commands"""
        return self.exchange(cmd.encode('latin1') + b'\r\n').decode('latin1')

class Server:
    def __init__(self, variant='std', mem=256, threads=4, args=(), engine_conf='', env=None, vt=True, scale=25.0,
                 workdir=None, wait=True, sticky=20, wrapper=(), users=None):
        self.dir = workdir or tempfile.mkdtemp(prefix='arcus-vt-')
        self.owndir = workdir is None
        self.variant = variant
        self.bdir = B.build(variant)
        self.vt = None
        self.conf = engine_conf
        self.args = list(args); self.mem = mem; self.threads = threads; self.sticky = sticky
        self.env0 = dict(env or {}); self.use_vt = vt; self.scale = scale
        self.wrapper = list(wrapper)
        self.proc = None; self.binary = False
        os.chmod(self.dir, 0o777)
        if users:
            # authentication is asked for; only one build speaks the text protocol then
            self.binary = variant == 'std'; self.args.append('-S'); pw = os.path.join(self.dir, 'pwdb')
            with open(pw, 'w') as f: f.write(''.join('%s:%s%s' % (u, p, ('\n', '\r\n', ':more\n')[i % 3]) for i, (u, p) in enumerate(users)))
            self.env0.update(SASL_PATH=os.path.join(self.bdir, 'sasl2'), SASL_CONF_PATH=os.path.join(self.dir, 'nosaslconf'), MEMCACHED_SASL_PWDB=pw, VP_USERS=','.join(':'.join(x) for x in users))
            if not self.binary: self.env0['VP_CHECKPASS'] = '1'
        if vt:
            self.vtpath = os.path.join(self.dir, 'vt')
            if not os.path.exists(self.vtpath):
                with open(self.vtpath, 'wb') as f: f.write(b'\0' * 4096)
            f = open(self.vtpath, 'r+b')
            self.vt = mmap.mmap(f.fileno(), 4096); f.close()
            if self.now() == 0: self._settime(BASE_TIME)
        self.start(wait)
    def _settime(self, sec, usec=0):
        self.vt[0:16] = struct.pack('qq', sec, usec)
    def cut(self, mode, seed=1):
        """how the shim cuts the byte streams from now on"""
        self.vt[16:32] = struct.pack('qq', mode, seed)
    def gate(self, on):
        """hold the server's reads from sockets back until all of them can go at once"""
        self.vt[72:80] = struct.pack('q', 1 if on else 0)
    def trickle(self, n):
        """replies longer than n bytes are sent ever so slowly until n is 0"""
        self.vt[88:96] = struct.pack('q', n)
    def waiting(self):
        return struct.unpack('q', self.vt[80:88])[0]
    def now(self):
        return struct.unpack('q', self.vt[0:8])[0]
    def start(self, wait=True, extra_env=None):
        self.port = _free_port()
        if self.use_vt: self.vt[64:72] = self.vt[0:8]
        env = dict(os.environ); env.update(self.env0); env.update(extra_env or {})
        env['LD_PRELOAD'] = os.path.join(self.bdir, 'shim.so')
        if self.variant == 'asan':
            env['LD_PRELOAD'] = _asan() + ' ' + env['LD_PRELOAD']
            env['ASAN_OPTIONS'] = os.environ.get('VPASAN', 'detect_leaks=0:abort_on_error=1:handle_segv=0')
        if self.use_vt: env['VT_FILE'] = self.vtpath
        if self.scale and self.scale > 1: env['VT_SCALE'] = str(self.scale)
        cmd = self.wrapper + [os.path.join(self.bdir, 'memcached'), '-E', os.path.join(self.bdir, 'default_engine.so'),
               '-X', os.path.join(self.bdir, 'ascii_scrub.so'),
               '-p', str(self.port), '-U', '0', '-l', '127.0.0.1', '-m', str(self.mem), '-t', str(self.threads), '-c', '512']
        if os.getuid() == 0: cmd += ['-u', 'root']
        if self.sticky: cmd += ['-g', str(self.sticky)]
        if self.conf: cmd += ['-e', self.conf]
        cmd += self.args
        self.errpath = os.path.join(self.dir, 'stderr')
        err = open(self.errpath, 'ab')
        self.proc = subprocess.Popen(cmd, cwd=self.dir, env=env, stdin=subprocess.DEVNULL, stdout=err, stderr=err,
                                     start_new_session=True)
        err.close()
        if wait: self.wait_ready()
    def wait_ready(self, timeout=60):
        end = time.time() + timeout
        while True:
            if self.proc.poll() is not None:
                raise ServerDied('server exited with %s: %s' % (self.proc.returncode, self.stderr()[-600:]))
            try:
                s = socket.create_connection(('127.0.0.1', self.port), timeout=10)
                if self.binary:
                    s.sendall(b'\x80\x0b' + b'\0' * 22); b = s.recv(4096); s.close()
                    if not b: raise OSError('closed')
                    return
                s.sendall(SENT); b = b''
                while not b.endswith(b'\r\n'):
                    d = s.recv(4096)
                    if not d: raise OSError('closed')
                    b += d
                s.close()
                # "ERROR" replies would make a poor sentinel
                self.sentinel = b
                return
            except OSError:
                if time.time() > end: raise ServerDied('server did not become ready')
                time.sleep(0.02)
    def stderr(self):
        try: return open(self.errpath, 'rb').read().decode('latin1')
        except OSError: return ''
    def conn(self, timeout=20.0):
        return Conn(self, timeout)
    def alive(self):
        return self.proc.poll() is None
    def advance(self, secs, conn=None):
        self.set_time(self.now() + secs, conn)
    def set_time(self, t, conn=None):
        """set the virtual clock and wait until the server's clock handler has picked it up"""
        self._settime(t)
        c = conn or self.conn()
        end = time.time() + 30
        while True:
            r = c.exchange(b'stats\r\n')
            i = r.find(b'STAT time ')
            if i >= 0 and int(r[i + 10:r.index(b'\r', i)]) >= t: break
            if time.time() > end: raise ServerDied('clock did not advance: ' + r[:200].decode('latin1'))
            time.sleep(0.004)
        self.vt[64:72] = struct.pack('q', t)
        if conn is None: c.close()
    def stats(self, arg='', conn=None):
        c = conn or self.conn()
        r = c.exchange(('stats %s\r\n' % arg if arg else 'stats\r\n').encode()).decode('latin1')
        if conn is None: c.close()
        out = {}
        for l in r.split('\r\n'):
            p = l.split(' ', 2)
            if len(p) == 3 and p[0] == 'STAT': out[p[1]] = p[2]
        return out
    def kill(self):
        if self.proc and self.proc.poll() is None:
            try: os.killpg(self.proc.pid, signal.SIGKILL)
            except OSError: self.proc.kill()
            self.proc.wait()
    def stop(self, timeout=30):
        """orderly shutdown"""
        if self.proc.poll() is None:
            self.proc.send_signal(signal.SIGTERM)
            try: self.proc.wait(timeout)
            except subprocess.TimeoutExpired: self.kill()
        return self.proc.returncode
    def close(self):
        self.kill()
        if self.owndir: shutil.rmtree(self.dir, ignore_errors=True)
    def __enter__(self): return self
    def __exit__(self, *a): self.close()

_rng = random.Random(os.getpid() * 7919 + int(time.time() * 1000))
def _free_port():
    for _ in range(200):
        p = _rng.randrange(20000, 32000)
        with socket.socket() as s:
            try:
                s.bind(('127.0.0.1', p)); return p
            except OSError: continue
    raise RuntimeError('no free port')
