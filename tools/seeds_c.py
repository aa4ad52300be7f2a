make('scan-chain-rest', 'C27', 'many items, so that the collector fills its array in the middle of a hash chain',
 'when the array of a scan is full the rest of the hash chain is passed over: a key dump misses live keys and a scrub leaves dead items',
 [('engines/default/assoc.c', 'if (next->h_next != NULL) {', 'if (next->h_next != NULL && item_count < array_size) {')],
 '''
N = 180000
with Srv(mem=512) as s:
    c = s.conn()
    for b in range(0, N, 1000): c.x(''.join('set k:%d 0 0 1 noreply\\r\\nx\\r\\n' % i for i in range(b, b + 1000)))
    check('items', ' %d\\r\\n' % N in c.x('stats\\r\\n').split('curr_items')[1][:12], True)
    r = c.x('dump start key %s/d\\r\\n' % s.dir); check('dump', r.startswith('OK'), True)
    end = time.time() + 60
    while 'stopped' not in c.x('stats dump\\r\\n') and time.time() < end: time.sleep(0.2)
    keys = set(l.split()[1] for l in open(s.dir + '/d') if l.split()[1:2] and l.split()[1].startswith('k:'))
    check('keys in the dump', len(keys), N)
''')
make('md5-pad', 'C26', 'a key of 56 bytes (or 120, or 184), for which the padding of MD5 takes a block of its own',
 'the MD5 of a text of 56 bytes modulo 64 is wrong, so that such a key is given to another server than every client gives it to',
 [('rfc1321/md5c.c', '(index < 56)', '(index <= 56)')],
 '''
import hashlib
d = tempfile.mkdtemp(prefix='demo-')
try:
    open(d + '/m.c', 'w').write(r"""
#include <stdio.h>
#include <string.h>
#include "global.h"
#include "md5.h"
int main(void) { char t[300]; for (int n = 0; n < 260; n++) { MD5_CTX c; unsigned char o[16]; memset(t, 'a', n);
 MD5Init(&c); MD5Update(&c, (unsigned char *)t, n); MD5Final(o, &c); for (int i = 0; i < 16; i++) printf("%02x", o[i]); printf("\\n"); } return 0; }
""")
    subprocess.run(['gcc', '-w', '-o', d + '/m', d + '/m.c', 'rfc1321/md5c.c', '-Irfc1321', '-I.'], check=True)
    out = subprocess.run([d + '/m'], capture_output=True, text=True).stdout.split()
    for n in range(260): check('md5 of %d bytes' % n, out[n], hashlib.md5(b'a' * n).hexdigest())
finally: shutil.rmtree(d)
''')
make('pipe-leftover', 'C15', 'a client that goes away in the middle of a pipeline, and a later connection that is served from the same record',
 'a connection that reuses the record of one closed in the middle of a pipeline starts with the replies of that pipeline counted',
 [('memcached.c', """    c->pipe_state = PIPE_STATE_OFF;
    c->pipe_count = 0;
    c->noreply = false;

    event_set""", """    c->noreply = false;

    event_set""")],
 '''
with Srv(threads=1) as s:
    for round in range(8):
        cs = [s.conn() for _ in range(20)]
        for c in cs: c.x('lop create l 0 0 1000\\r\\n')
        for c in cs: c.s.sendall(b'lop insert l 0 1 pipe\\r\\na\\r\\nlop insert l 0 1 pipe\\r\\nb\\r\\n')
        time.sleep(0.2)
        for c in cs: c.s.close()
        time.sleep(0.2)
        for _ in range(20):
            c = s.conn(); c.s.sendall(b'set v 0 0 1\\r\\nx\\r\\n'); check('set', c.s.recv(1000), b'STORED\\r\\n')
            c.s.sendall(b'lop insert l 0 1 pipe\\r\\na\\r\\nlop insert l 0 1\\r\\nb\\r\\n')
            time.sleep(0.01); r = c.s.recv(1000); check('pipe', r, b'RESPONSE 2\\r\\nSTORED\\r\\nSTORED\\r\\nEND\\r\\n'); c.s.close()
''')
make('bkeyrange-borrow', 'C10', 'byte-array bkeys whose difference borrows through a byte the two have in common, and a maxbkeyrange near that difference',
 'the width of a range of byte-array bkeys is computed wrong: elements within maxbkeyrange are refused or trimmed, others kept',
 [('engines/default/coll_btree.c', """            if (v1[i] > v2[i]) {
                result[i] = v1[i] - v2[i] - 1;""", """            if (v1[i] >= v2[i]) {
                result[i] = v1[i] - v2[i] - 1;""")],
 '''
with Srv() as s:
    c = s.conn()
    for n, (lo, hi) in enumerate([(0x010280, 0x030210), (0x0004ff, 0x010400), (0x112233, 0x122232), (0x00ffff, 0x01ff00), (0x05aa01, 0x06aa00)]):
        for d, want in ((0, 'STORED\\r\\n'), (-1, 'OUT_OF_RANGE\\r\\n')):
            k = 'k%d%d' % (n, d)
            c.x('bop create %s 0 0 100 error\\r\\n' % k)
            check('insert', c.x('bop insert %s 0x%06x 1\\r\\nx\\r\\n' % (k, lo)), 'STORED\\r\\n')
            check('setattr', c.x('setattr %s maxbkeyrange=0x%06x\\r\\n' % (k, hi - lo + d)), 'OK\\r\\n')
            check('width %06x..%06x %d' % (lo, hi, d), c.x('bop insert %s 0x%06x 1\\r\\nx\\r\\n' % (k, hi)), want)
''')
make('ecnt-split-prev', 'C11', 'a b+tree of three levels whose leaf passes elements to a leaf under another parent on its left',
 'the element counts of the upper nodes are not carried over when elements move to a left neighbour under another parent: positions shift',
 [('engines/default/coll_btree.c', """        posi.node->ecnt[posi.indx] += elem_count;
        if (saved_node == posi.node) break;
        depth += 1;""", """        posi.node->ecnt[posi.indx] += elem_count;
        if (saved_node == posi.node || direction == BTREE_DIRECTION_PREV) break;
        depth += 1;""", 1)],
 '''
R = random.Random(7)
with Srv() as s:
    c = s.conn()
    for t in range(12):
        k = 't%d' % t; have = set()
        c.x('bop create %s 0 0 20000\\r\\n' % k)
        def ins(i):
            if i not in have: have.add(i); c.s.sendall(b'bop insert %s %d 1 noreply\\r\\nx\\r\\n' % (k.encode(), i))
        def rem(a, b):
            c.s.sendall(b'bop delete %s %d..%d noreply\\r\\n' % (k.encode(), a, b)); have.difference_update(range(a, b + 1))
        for i in range(0, 60000, 20): ins(i)
        for _ in range(60):
            a = R.randrange(60000); rem(a, a + R.choice((300, 600, 2000)))
            b = a + R.choice((0, 300, 900, 2500)); b0 = min(b, 59000)
            for i in R.sample(range(b0, b0 + 400), 90): ins(i)
        o = sorted(have)
        check('count', c.x('bop count %s 0..100000\\r\\n' % k), 'COUNT=%d\\r\\n' % len(o))
        for j in range(0, len(o), 7): check('position of %d' % o[j], c.x('bop position %s %d asc\\r\\n' % (k, o[j])), 'POSITION=%d\\r\\n' % j)
''')
make('sticky-replace-bytes', 'C20', 'a sticky item overwritten by a shorter one',
 'the memory of sticky items is not corrected when a replacement has another size, so that the sticky limit refuses or admits too much',
 [('engines/default/item_base.c', """    if (IS_STICKY_EXPTIME(new_it->exptime)) {
        statsp->sticky_bytes += new_stotal;""", """    if (IS_STICKY_EXPTIME(new_it->exptime)) {
        statsp->sticky_bytes += IS_STICKY_EXPTIME(old_it->exptime) && old_stotal > new_stotal ? old_stotal : new_stotal;""")],
 '''
def bytes_of(c): return int(c.x('stats\\r\\n').split('sticky_bytes ')[1].split()[0])
with Srv(args=['-g', '50']) as s:
    c = s.conn()
    z = bytes_of(c)
    for n in range(50):
        check('set', c.x('set k%d 0 -1 %d\\r\\n%s\\r\\n' % (n, 100 + n, 'a' * (100 + n))), 'STORED\\r\\n'); check('set', c.x('set k%d 0 -1 10\\r\\n%s\\r\\n' % (n, 'a' * 10)), 'STORED\\r\\n')
    for n in range(50): c.x('delete k%d\\r\\n' % n)
    check('sticky bytes', bytes_of(c), z)
''')
