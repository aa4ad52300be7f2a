"""What is known to be open to clients that did not authenticate (C25)."""
import server as S, gen

def known(ctx):
    with S.Server(**gen.Login.server) as s:
        a = s.conn(); c = s.conn()
        if a.exchange(b'sasl auth VPONE 12\r\nalice\0wonder\r\n') != b'SASL_OK\r\n': raise RuntimeError('no login')
        a.exchange(b'set secret:key 0 0 1\r\nx\r\n')
        raw = b''.join(c.exchange(b'stats cachedump %d 10\r\n' % i) for i in range(0, 10))
        if b'secret:key' in raw: ctx.known('cachedump', '"stats cachedump" tells the names of keys to a client that has not authenticated (text protocol)')
