"""C17: the b+tree commands of the binary protocol that no packet can give."""
import struct
import server as S, binproto as P

# bkey range: two bkeys of 31 bytes with a length each; element flag filter: offsets, lengths, operators, 100 values; then offset and count ...
COMMANDS = {'bop delete': (0x74, 8), 'bop get': (0x75, 12), 'bop count': (0x76, 0), 'bop mget': (0x7a, 12), 'bop smget': (0x7b, 12)}
RANGE, FILTER = 64, 3137

def known(ctx):
    refused = []
    with S.Server() as srv:
        c = srv.conn()
        c.exchange(b'bop insert t 1 1 create 0 0 0\r\nx\r\n')
        for name, (op, more) in sorted(COMMANDS.items()):
            b = srv.conn()
            val = b't' if name in ('bop mget', 'bop smget') else b''
            ext = P._bkf('0') + P._bkf('9') + b'\0' * (FILTER + more)
            b.send(P.packet(op, 1, b't', ext, val)); b.s.settimeout(5)
            try: got, closed = P.read(b)
            except OSError: got = []; closed = False
            if not got or got[0][0] is None or got[0][0][5] == 4: refused.append(name)
            b.s.close()
        ctx.note('refused whatever the packet: ' + ', '.join(refused))
    if refused: ctx.known('bop-extras', 'no packet can give ' + ', '.join(refused) + ': the extras they require are longer than the length field allows')
    ctx.add(evaluations=len(COMMANDS))
