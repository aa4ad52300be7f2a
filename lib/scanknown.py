"""C22: prefix scans with more prefixes in one hash chain than a reply has room for (the table of the prefixes never grows)."""
import server as S, run

N = 230000

def known(ctx):
    with S.Server(mem=600) as srv:
        c = srv.conn()
        try:
            for i in range(0, N, 5000):
                c.exchange(b''.join(b'set c%06d:k 0 0 1 noreply\r\nx\r\n' % j for j in range(i, i + 5000)))
            there = int(srv.stats()['curr_prefixes'])
            for n, complete in ((2000, True), (20, False)):
                cur = '0'; seen = set()
                for _ in range(N):
                    ls = c.exchange(b'scan prefix %s count %d\r\n' % (cur.encode(), n)).decode().split('\r\n')
                    h = ls[0].split(' '); cur = h[2]
                    seen.update(l.split(' ')[0] for l in ls[1:-2])
                    if len(ls) != int(h[1]) + 3: raise run.Violation('a prefix scan listed %d prefixes and announced %s' % (len(ls) - 3, h[1]), {'head': ls[0]})
                    if cur == '0': break
                odd = [p for p in seen if not (len(p) == 7 and p[0] == 'c' and p[1:].isdigit() and int(p[1:]) < N)]
                if odd or cur != '0': raise run.Violation('a prefix scan lists prefixes that do not exist, or does not end', {'odd': odd[:20], 'cursor': cur})
                if len(seen) < there:
                    if complete: raise run.Violation('a prefix scan with count %d lists %d of %d prefixes' % (n, len(seen), there), {'count': n})
                    ctx.known('long-chain', 'with %d prefixes, a scan with count %d lists only %d of them' % (there, n, len(seen)))
        except (S.ServerDied, OSError) as e:
            raise run.Violation('the server stopped answering during a prefix scan over %d prefixes: %s' % (N, e), {'stderr': srv.stderr()[-2000:]})
    ctx.add(evaluations=2)
