"""Packets of the binary protocol <-> the operations of spec/Bin.tla."""
import socket, struct

OP = {'get': 0, 'set': 1, 'add': 2, 'replace': 3, 'delete': 4, 'incr': 5, 'decr': 6, 'quit': 7, 'flush_all': 8, 'noop': 0xa, 'version': 0xb, 'getk': 0xc,
      'append': 0xe, 'prepend': 0xf, 'getattr': 0x4e, 'setattr': 0x4f,
      'lop create': 0x50, 'lop insert': 0x51, 'lop delete': 0x52, 'lop get': 0x53,
      'sop create': 0x60, 'sop insert': 0x61, 'sop delete': 0x62, 'sop exist': 0x63, 'sop get': 0x64,
      'bop create': 0x70, 'bop insert': 0x71, 'bop upsert': 0x72, 'bop update': 0x73, 'flush_prefix': 0x90}
QUIET = {'get': 9, 'getk': 0xd, 'set': 0x11, 'add': 0x12, 'replace': 0x13, 'delete': 0x14, 'incr': 0x15, 'decr': 0x16, 'quit': 0x17, 'flush_all': 0x18, 'append': 0x19, 'prepend': 0x1a,
         'lop insert': 0x54, 'lop delete': 0x55, 'sop insert': 0x65, 'sop delete': 0x66, 'bop insert': 0x7c, 'bop upsert': 0x7d, 'bop update': 0x7e}
STATUS = {0: 'OK', 1: 'KEY_ENOENT', 2: 'KEY_EEXISTS', 3: 'E2BIG', 4: 'EINVAL', 5: 'NOT_STORED', 6: 'DELTA_BADVAL', 0x20: 'AUTH_ERROR', 0x21: 'AUTH_CONTINUE', 0x32: 'EBADTYPE', 0x33: 'EOVERFLOW',
          0x34: 'EBADVALUE', 0x35: 'EINDEXOOR', 0x36: 'EBKEYOOR', 0x37: 'ELEM_ENOENT', 0x38: 'ELEM_EEXISTS', 0x39: 'EBADATTR', 0x3a: 'EBADBKEY', 0x3b: 'EBADEFLAG', 0x3c: 'UNREADABLE',
          0x51: 'PREFIX_ENAME', 0x52: 'PREFIX_ENOENT', 0x81: 'UNKNOWN_COMMAND', 0x82: 'ENOMEM', 0x83: 'NOT_SUPPORTED', 0x84: 'EINTERNAL'}
TYPES = ['kv', 'list', 'set', 'map', 'b+tree']
OVFL = ['', 'error', 'head_trim', 'tail_trim', 'smallest_trim', 'largest_trim', 'smallest_silent_trim', 'largest_silent_trim']
END = 0xfeedf00d                # opaque of the noop that ends a group
L = lambda s: s.encode('latin1')

def packet(op, opaque, key=b'', ext=b'', val=b'', cas=0, keylen=None, bodylen=None):
    return struct.pack('>BBHBBHIIQ', 0x80, op, len(key) if keylen is None else keylen, len(ext) & 255, 0, 0,
                       len(key) + len(ext) + len(val) if bodylen is None else bodylen, opaque, cas) + ext + key + val

def _fl(s): return struct.pack('>I', int(s))
def _bk(s, n=31):
    """field and length byte of a bkey or flag"""
    if s == '': return b'\0' * n, 0
    if s.startswith('0x') or s.startswith('0X'):
        b = bytes.fromhex(s[2:]); return b.ljust(n, b'\0'), len(b)
    return struct.pack('>Q', int(s)).ljust(n, b'\0'), 0
def _bkf(s): b, n = _bk(s); return b + bytes([n])
def _create(c): return _fl(c['fl']) + struct.pack('>ii', c['exp'], c['mc'])

def one(p, i):
    o = p['o']; c = o['c']; v = L(o.get('v', '')); k = L(o['k']) if 'k' in o else b''
    if c in ('unknown', 'malformed'):
        return packet(o['op'], i, L(o.get('key', '')), b'\0' * o.get('ext', 0), b'x' * o.get('len', 0), 0, o.get('keylen'), o.get('bodylen'))
    if c == 'badlength':
        if o['op'] == 'setattr': ext = struct.pack('>ii', 0, 0) + b'\1' * 31 + bytes([o['n']]) + b'\0' * 4
        else:
            ext = b'\1' * 31 + bytes([o['n'] if o['what'] == 'bkey' else 1]) + b'\1' * 31 + bytes([o['n'] if o['what'] == 'eflag' else 1])
            ext += bytes([40 if o['what'] == 'offset' else 0, 0, 0]) + b'\0' * 5 if o['op'] == 'bop update' else struct.pack('>IiiI', 0, 0, 0, 0)
        return packet(OP[o['op']], i, k, ext, b'' if o['op'] == 'setattr' else b'v')
    if c == 'toolarge':
        ext = {'lop insert': b'\0' * 20, 'sop insert': b'\0' * 16, 'sop delete': b'\0' * 4, 'sop exist': b''}.get(o['op'])
        if ext is None:
            ext = _bkf('1') + _bkf('') + b'\0' * (8 if o['op'] == 'bop update' else 16)
        return packet(OP[o['op']], i, k, ext, b'x' * o['len'])
    op = (QUIET if p['q'] else OP)[o['sc'] if c == 'big' else c]
    cas = int(p['id'] or 0)
    if c == 'big':
        return packet(op, i, k, b'' if o['sc'] in ('append', 'prepend') else b'\0' * 8, b'x' * o['len'], cas)
    ext = b''
    if c in ('set', 'add', 'replace'): ext = _fl(o['fl']) + struct.pack('>I', o['exp'])
    elif c in ('incr', 'decr'):
        ext = struct.pack('>QQI', int(o['d']), int(o.get('init', '0')), o['exp'] if 'init' in o else 0xffffffff)
    elif c in ('get', 'getk'): k = L(o['ks'][0])
    elif c == 'flush_all': ext = struct.pack('>i', o['d']) if o['d'] or o.get('dd') else b''
    elif c == 'flush_prefix': k = L(o['p']); ext = struct.pack('>i', o['d']) if o['d'] or o.get('dd') else b''
    elif c in ('lop create', 'sop create', 'bop create'):
        ext = _create(o['cr']) + bytes([OVFL.index(o['cr']['ov']), 1 if o['cr']['rd'] else 0, 0, 0])
    elif c == 'lop insert': ext = struct.pack('>i', o['i']) + (_create(o['cr']) + b'\1\0\0\0' if 'cr' in o else b'\0' * 16)
    elif c == 'lop delete': ext = struct.pack('>iiBxxx', o['f'], o['t'], o['drop'])
    elif c == 'lop get': ext = struct.pack('>iiBBxx', o['f'], o['t'], o['del'] != '', o['del'] == 'drop')
    elif c == 'sop insert': ext = _create(o['cr']) + b'\1\0\0\0' if 'cr' in o else b'\0' * 16
    elif c == 'sop delete': ext = struct.pack('>Bxxx', o['drop'])
    elif c == 'sop get': ext = struct.pack('>IBBxx', o['n'], o['del'] != '', o['del'] == 'drop')
    elif c in ('bop insert', 'bop upsert'):
        ext = _bkf(o['b']) + _bkf(o['ef']) + (_create(o['cr']) + b'\1\0\0\0' if 'cr' in o else b'\0' * 16)
    elif c == 'bop update':
        u = o.get('up')
        if u is None: e = b'\0' * 31 + b'\xff\0\0'
        else: e = _bkf('' if u['val'] == '0' else u['val']) + bytes([u['off'], '&|^'.index(u['op']) if u['op'] else 3])
        ext = _bkf(o['b']) + e + bytes([0 if 'v' in o else 1]) + b'\0' * 5
    elif c == 'setattr':
        d = dict(o['sets'])
        m = d.get('maxbkeyrange')
        ext = struct.pack('>ii', int(d.get('expiretime', 0)), int(d.get('maxcount', 0))) + (b'\0' * 31 + b'\xff' if m is None else _bkf(m)) + \
            bytes([OVFL.index(d.get('overflowaction', '')), 'readable' in d, 'expiretime' in d, 'maxcount' in d])
    return packet(op, i, k, ext, v, cas)

CLOSING = {'malformed', 'quit'}
def exchange(conn, o, closing=False, last='noop'):
    """send the packets, and a noop to end them unless the server is to close the connection (which leaves nothing unread)"""
    return talk(conn, b''.join(one(p, i + 1) for i, p in enumerate(o['ps'])), closing or o['ps'][-1]['o']['c'] in CLOSING, last)
def talk(conn, data, closing, last='noop'):
    end = packet(OP[last], END)
    if not closing:
        _send(conn, data + end)
        return read(conn, None, OP[last])
    _send(conn, data); t = conn.s.gettimeout(); conn.s.settimeout(3)
    got = []
    try:
        try: return read(conn, got, OP[last])
        except socket.timeout:
            conn.s.settimeout(t); _send(conn, end)
            return read(conn, got, OP[last])
    finally: conn.s.settimeout(t)

def _send(conn, data):
    try: conn.send(data)
    except (BrokenPipeError, ConnectionResetError): pass        # closed meanwhile: what was answered tells

class Cut(Exception): pass

def read(conn, got=None, last=OP['noop']):
    """packets up to the noop; (header fields, body) and whether the server closed the connection"""
    out = [] if got is None else got
    buf = conn.buf
    def need(n):
        nonlocal buf
        while len(buf) < n:
            d = conn.s.recv(1 << 18)
            if not d: raise Cut()
            buf += d; conn.buf = buf
    try:
        while True:
            need(24)
            h = struct.unpack('>BBHBBHIIQ', buf[:24])
            if h[0] != 0x81: return out + [(h, buf)], True
            need(24 + h[6])
            body = buf[24:24 + h[6]]; buf = conn.buf = buf[24 + h[6]:]
            if h[7] == END and h[1] == last:
                conn.buf = buf
                return out + ([] if h[5] == 0 and (h[6] == 0 or last != OP['noop']) and h[8] == 0 else [(h, body)]), False
            out.append((h, body))
    except (Cut, ConnectionResetError):
        return out + ([(None, buf)] if buf else []), True

def _u32(b, i): return struct.unpack('>I', b[i:i + 4])[0]
def _lines(o, p, h, body):
    """the body in the terms of the ASCII reply"""
    magic, op, kl, el, dt, status, bl, opaque, cas = h
    c = o['c']; t = lambda b: b.decode('latin1')
    ext, key, val = body[:el], body[el:el + kl], body[el + kl:]
    if status != 0:
        if c == 'getk' and status == 1:
            return [t(key)] if el == 0 and val == b'' else ['BROKEN miss ' + repr(body[:60])]
        # (errors come with a text for the reader)
        return [] if el == 0 and kl == 0 else ['BROKEN error ' + repr(body[:60])]
    if c in ('get', 'getk'):
        if el != 4 or (kl != 0) != (c == 'getk'): return ['BROKEN get']
        k = t(key) if c == 'getk' else o['ks'][0]
        return ['VALUE %s %d %d %d' % (k, struct.unpack('>I', ext)[0], len(val), cas), t(val)]
    if c == 'version':
        return ['VERSION'] if el == 0 and kl == 0 and val else ['BROKEN version']
    if c in ('incr', 'decr'):
        return [str(struct.unpack('>Q', val)[0])] if el == 0 and kl == 0 and len(val) == 8 else ['BROKEN arithmetic']
    if c in ('lop get', 'sop get'):
        if el != 8 or kl != 0: return ['BROKEN elements']
        n = _u32(body, 4); i = 8 + 4 * n
        out = ['VALUE %d %d' % (struct.unpack('>I', body[:4])[0], n)]
        if i > len(body): return ['BROKEN count']
        for j in range(n):
            m = _u32(body, 8 + 4 * j); out.append('%d %s' % (m, t(body[i:i + m]))); i += m
        return out if i == len(body) else ['BROKEN lengths'] + out
    if c == 'sop exist':
        return [['NOT_EXIST', 'EXIST'][_u32(body, 0)]] if len(body) == 4 and _u32(body, 0) < 2 else ['BROKEN exist']
    if c == 'getattr':
        if len(body) != 56: return ['BROKEN attributes']
        fl, = struct.unpack('>I', body[:4]); exp, n, mc = struct.unpack('>iii', body[4:16]); mr = body[16:47]; ml = body[47]; ty, ov, rd = body[48:51]
        if ty >= 5: return ['BROKEN type']
        out = ['type=' + TYPES[ty], 'flags=%d' % fl, 'expiretime=%d' % exp]
        if ty in (1, 2, 4): out += ['count=%d' % n, 'maxcount=%d' % mc, 'overflowaction=' + (OVFL[ov] if ov < 8 else str(ov)), 'readable=' + ('on' if rd else 'off')]
        if ty == 4: out.append('maxbkeyrange=' + ('0' if ml == 255 else str(struct.unpack('>Q', mr[:8])[0]) if ml == 0 else '0x' + mr[:ml].hex().upper()))
        return out
    return [] if body == b'' else ['BROKEN body ' + repr(body[:60])]

def decode(o, pkts, closed):
    """the lines, with what only the server decides filled into o"""
    out = []
    for p in o['ps']: p['seen'] = '0'
    for h, body in pkts:
        if h is None or h[0] != 0x81: out.append('BROKEN bytes ' + repr(body[:80])); break
        i = h[7]
        if not 1 <= i <= len(o['ps']): out.append('BROKEN opaque %d' % i); continue
        p = o['ps'][i - 1]; q = p['o']; c = q['c']
        op = struct.unpack('B', one(p, i)[1:2])[0]
        if h[1] != op or h[4] != 0: out.append('BROKEN header %r of packet %d' % (h, i)); continue
        if c == 'sop get' and h[5] == 0: q['pick'] = [x.split(' ', 1)[1] for x in _lines(q, p, h, body)[1:] if ' ' in x and not x.startswith('BROKEN')]
        shows = c in ('get', 'getk', 'set', 'add', 'replace', 'append', 'prepend', 'incr', 'decr') and h[5] == 0
        if shows: p['seen'] = str(h[8])
        ls = _lines(q, p, h, body)
        s = STATUS.get(h[5], 'STATUS%x' % h[5])
        if c in ('get', 'getk'): out.append('#%d %s' % (i, s) + ('' if shows or h[8] == 0 else ' %d' % h[8]))
        else: out.append('#%d %s' % (i, s) + (' %d' % h[8] if shows or h[8] != 0 else ''))
        out += ls
    for i, p in enumerate(o['ps']):
        c = p['o']['c']
        if c == 'sop get': p['o'].setdefault('pick', [])
        if c == 'flush_prefix': p['o']['gone'] = any(x == '#%d PREFIX_ENOENT' % (i + 1) for x in out)
    if closed: out.append('CLOSED')
    return ''.join(x + '\r\n' for x in out)
