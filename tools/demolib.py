"""Starts the server built in the current directory (or argv) for a demonstration and talks to it."""
import os, socket, subprocess, sys, tempfile, time, shutil, signal, random
class Srv:
    def __init__(self, args=(), conf='', mem=128, threads=4, env=None, dir=None):
        self.dir = dir or tempfile.mkdtemp(prefix='demo-'); self.own = dir is None
        self.repo = os.getcwd()
        self.args = list(args); self.conf = conf; self.mem = mem; self.threads = threads; self.env = env or {}
        os.chmod(self.dir, 0o777)
        self.start()
    def start(self):
        for _ in range(100):
            self.port = random.randrange(20000, 32000)
            with socket.socket() as s:
                try: s.bind(('127.0.0.1', self.port)); break
                except OSError: pass
        e = dict(os.environ); e.update(self.env)
        cmd = [self.repo + '/memcached', '-E', self.repo + '/.libs/default_engine.so', '-X', self.repo + '/.libs/ascii_scrub.so', '-p', str(self.port), '-U', '0', '-l', '127.0.0.1',
               '-m', str(self.mem), '-t', str(self.threads), '-u', 'root'] + self.args
        if self.conf: cmd += ['-e', self.conf]
        self.p = subprocess.Popen(cmd, cwd=self.dir, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
        end = time.time() + 30
        while True:
            try: socket.create_connection(('127.0.0.1', self.port), 5).close(); break
            except OSError:
                if time.time() > end or self.p.poll() is not None: raise SystemExit('server did not start')
                time.sleep(0.05)
    def conn(self): return Conn(self.port)
    def kill(self):
        if self.p.poll() is None:
            os.killpg(self.p.pid, signal.SIGKILL); self.p.wait()
    def term(self):
        if self.p.poll() is None:
            self.p.send_signal(signal.SIGTERM); self.p.wait(30)
    def close(self):
        self.kill()
        if self.own: shutil.rmtree(self.dir, ignore_errors=True)
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
class Conn:
    def __init__(self, port):
        self.s = socket.create_connection(('127.0.0.1', port), 20); self.b = b''
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    def x(self, req):
        """send a request, return all that is answered to it"""
        if isinstance(req, str): req = req.encode('latin1')
        self.s.sendall(req + b'version\r\n')
        while True:
            i = self.b.find(b'VERSION ')
            if i >= 0:
                j = self.b.find(b'\r\n', i)
                if j >= 0:
                    r = self.b[:i]; self.b = self.b[j + 2:]
                    return r.decode('latin1')
            d = self.s.recv(65536)
            if not d: raise SystemExit('connection closed')
            self.b += d
def check(what, got, want):
    if got != want:
        print('FAIL %s: got %r, want %r' % (what, got, want)); sys.exit(1)
