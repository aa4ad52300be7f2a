"""Random command generators.  Each takes a random.Random and yields operations of spec/Arcus.tla; ops see the previous
replies through feedback()."""
import random, re, trace, record

BIG64 = 18446744073709551615

class Gen:
    """base: weights maps a method name (op_<name>) to its weight"""
    weights = {}
    keys = ['k1', 'k2', 'k3']
    def __init__(self, rng):
        self.r = rng; self.now = None; self.last = {}; self.n = 0
        self.setup()
    def setup(self): pass
    def prefix_ops(self): return []
    def op(self):
        self.n += 1
        names = list(self.weights); ws = [self.weights[n] for n in names]
        return getattr(self, self.r.choices(names, ws)[0])()
    def feedback(self, o, raw): pass
    def key(self): return self.r.choice(self.keys)
    def chance(self, p): return self.r.random() < p
    def pick(self, *xs): return self.r.choice(xs)

class Kv(Gen):
    weights = dict(store=30, cas=12, get=20, gets=14, delete=6, arith=10, attach=10, big=1, touch=1)
    keys = ['k1', 'k2', 'k3', 'p:k4', 'k' * 60]
    FL = ['0', '1', '7', '4294967295', '305419896']
    def setup(self): self.ids = {}
    def val(self):
        x = self.r.random()
        if x < 0.12: return ''
        if x < 0.35: return str(self.r.choice([0, 1, 5, 9, 10, 99, 100, 12345, BIG64, BIG64 - 1, 1 << 63, 4294967296, self.r.randrange(1 << 64)]))
        if x < 0.45: return self.r.choice(['abc', ' 12', '12 ', '-1', '+5', '1x', '0x10', '007', '99999999999999999999', '1\r\n2', '\r\n', 'END\r\n'])
        if x < 0.9: return ''.join(chr(self.r.randrange(32, 127)) for _ in range(self.r.choice([1, 2, 3, 7, 8, 9, 30])))
        v = ''.join(chr(self.r.choice([0, 1, 10, 13, 32, 48, 128, 200, 255])) for _ in range(self.r.randrange(1, 40)))
        return 'z' + v if '\0' in v else v     # (the number parser stops at a NUL)
    def exp(self): return 0
    def store(self):
        return self.nr(dict(c=self.r.choice(['set', 'set', 'add', 'replace']), k=self.key(), fl=self.r.choice(self.FL), exp=self.exp(), v=self.val()))
    def attach(self):
        return self.nr(dict(c=self.pick('append', 'prepend'), k=self.key(), fl=self.r.choice(self.FL), exp=0, v=self.val()))
    def cas(self):
        k = self.key(); seen = self.ids.get(k, [])
        # an id shown for this key (the latest, or an older one), for another key, or one no version can have
        other = [i for x in self.keys if x != k for i in self.ids.get(x, [])[-1:] if i not in seen]
        idv = self.r.choice(seen[-2:]) if seen and self.chance(.85) else self.r.choice(other) if other and self.chance(.5) else self.pick('0', '18446744073709551615')
        return self.nr(dict(c='cas', k=k, fl=self.r.choice(self.FL), exp=self.exp(), v=self.val(), id=idv))
    def some(self, *ns):
        n = self.r.choice(ns) if self.chance(.98) else self.pick(13, 27, 28, 29, 60)       # (the tokenizer works in batches)
        return [self.key() for _ in range(n)]
    def get(self): return dict(c=self.pick('get', 'get', 'mget'), ks=self.some(1, 1, 2, 4))
    def gets(self): return dict(c=self.pick('gets', 'gets', 'mgets'), ks=self.some(1, 1, 2))
    def delete(self): return self.nr(dict(c='delete', k=self.key()))
    def num(self): return str(self.r.choice([0, 1, 2, 9, 10, 255, 65536, 4294967295, 4294967296, 1 << 63, BIG64, BIG64 - 1, self.r.randrange(1 << 64), self.r.randrange(1000)]))
    def arith(self):
        o = dict(c=self.pick('incr', 'decr'), k=self.key(), d=self.num() if self.chance(.93) else self.pick('abc', '-1', '99999999999999999999', '1a'))
        if self.chance(.3): o.update(init=self.num(), fl=self.r.choice(self.FL), exp=self.exp())
        return self.nr(o)
    def big(self): return dict(c='big', sc=self.pick('set', 'add', 'replace', 'append', 'prepend'), k=self.key(), len=self.pick(1100000, 2000000))
    def touch(self): return dict(c='touch', k=self.key(), exp=0)
    def nr(self, o):
        if self.chance(.06): o['nr'] = 1
        return o
    def feedback(self, o, raw):
        if o['c'] in ('gets', 'mgets'):
            for m in re.finditer(r'VALUE (\S+) \d+ \d+ (\d+)\r\n', raw):
                self.ids.setdefault(m.group(1), []).append(m.group(2))

# ------------------------------------------------------------------------------------------------ collections
OVFL = {'list': ['error', 'head_trim', 'tail_trim'], 'set': ['error'], 'map': ['error'],
        'b+tree': ['error', 'smallest_trim', 'largest_trim', 'smallest_silent_trim', 'largest_silent_trim']}
SHORT = {'list': 'lop', 'set': 'sop', 'map': 'mop', 'b+tree': 'bop'}

class CollBase(Gen):
    ty = 'list'
    keys = ['c1', 'c2', 'p:c3']
    FL = ['0', '5', '4294967295']
    def setup(self):
        self.small = self.chance(.5)
        self.mcs = [1, 2, 3, 4, 5, 0] if self.small else [0, 40, 100, 300, 1000]
        self.hold = {}                  # key -> {type: rough knowledge}; only steers the choices
        self.vals = ['', 'a', 'b', 'c', '\r\n', 'END', 'x' * 30] if self.small else None
    def val(self):
        if self.vals and self.chance(.9): return self.r.choice(self.vals)
        n = self.r.choice([0, 1, 2, 3, 5, 8, 20, 60]) if self.chance(.97) else self.r.choice([1000, 4000, 16000])
        return ''.join(chr(self.r.choice([0, 9, 10, 13, 32, 48, 65, 97, 98, 99, 128, 255])) for _ in range(n)) if self.chance(.4) \
            else ''.join(chr(self.r.randrange(97, 123)) for _ in range(n))
    def exp(self): return 0
    def attrs(self, ty=None):
        ty = ty or self.ty
        ov = self.r.choice(OVFL[ty] + [''])
        return dict(fl=self.r.choice(self.FL), exp=self.exp(), mc=self.r.choice(self.mcs) if self.chance(.95) else self.pick(-1, 60000, 9999999), ov=ov, rd=self.chance(.96))
    def nr(self, o, p=.04):
        if self.chance(p): o['nr'] = 1
        return o
    def mk(self, o, p=.5):
        if self.chance(p): o['cr'] = self.attrs()
        return o
    def create(self):
        o = dict(c=SHORT[self.ty] + ' create', k=self.key(), cr=self.attrs())
        if self.chance(.05): o['cr']['ov'] = self.r.choice(['head_trim', 'smallest_trim', 'largest_silent_trim'])
        return self.nr(o)
    def delete(self): return self.nr(dict(c='delete', k=self.key()))
    def readable(self): return dict(c='setattr', k=self.key(), sets=[['readable', 'on']])
    def getattr(self): return dict(c='getattr', k=self.key(), names=[])
    def setmax(self): return dict(c='setattr', k=self.key(), sets=[['maxcount', str(self.r.choice(self.mcs))]])
    def setovfl(self): return dict(c='setattr', k=self.key(), sets=[['overflowaction', self.r.choice(OVFL[self.ty])]])
    def drop(self): return self.chance(.3)
    def delw(self): return self.r.choice(['', '', '', 'delete', 'drop'])

class List(CollBase):
    ty = 'list'
    def setup(self):
        CollBase.setup(self)
        self.weights = dict(create=2, ins=50, rem=12, get=25, take=5, delete=1, readable=2, getattr=4, setmax=2, setovfl=2) if self.small else \
            dict(create=1, ins=70, rem=4, get=20, take=2, delete=.3, readable=2, getattr=1, setmax=.5, setovfl=1)
    def idx(self):
        if self.chance(.35): return self.pick(0, -1)
        if self.chance(.9): return self.r.randrange(-6, 7) if self.small else self.r.randrange(-300, 300)
        return self.pick(100000, -100000, 2147483647, -2147483647, 49999, -50000)
    def ins(self): return self.nr(self.mk(dict(c='lop insert', k=self.key(), i=self.idx(), v=self.val())))
    def rng(self):
        o = {}
        if not self.small and self.chance(.8):
            a = self.r.randrange(-300, 300); o.update(f=a, t=a + self.r.randrange(-12, 12))
        else: o.update(f=self.idx(), t=self.idx())
        if self.chance(.3): o['t'] = o['f']
        if o['t'] == o['f'] and self.chance(.5): o['two'] = 1
        return o
    def rem(self): return self.nr(dict(c='lop delete', k=self.key(), drop=self.drop(), **self.rng()))
    def get(self): return dict(c='lop get', k=self.key(), **{'del': ''}, **(self.rng() if self.chance(.8) else dict(f=0, t=-1)))
    def take(self): return dict(c='lop get', k=self.key(), **{'del': self.pick('delete', 'drop')}, **self.rng())

class Set(CollBase):
    ty = 'set'
    def setup(self):
        CollBase.setup(self)
        self.uni = self.vals if self.small else None
        if not self.small:
            self.uni = ['m%d' % i for i in range(self.r.choice([60, 300, 900]))] + ['', '\r\n', '\0\1', 'A' * 300]
        self.weights = dict(create=2, ins=45, rem=15, exist=15, get=15, take=6, delete=1, readable=2, getattr=4, setmax=2)
    def member(self): return self.r.choice(self.uni)
    def ins(self): return self.nr(self.mk(dict(c='sop insert', k=self.key(), v=self.member())))
    def rem(self): return self.nr(dict(c='sop delete', k=self.key(), v=self.member(), drop=self.drop()))
    def exist(self): return dict(c='sop exist', k=self.key(), v=self.member())
    def cnt(self): return self.r.choice([0, 1, 1, 2, 3, 5, 10, 1000, 1001]) if self.chance(.8) else self.r.randrange(0, len(self.uni) + 2)
    def get(self): return dict(c='sop get', k=self.key(), n=self.cnt(), **{'del': ''})
    def take(self): return dict(c='sop get', k=self.key(), n=self.r.choice([1, 1, 2, 3, 20]) if self.chance(.9) else self.cnt(), **{'del': self.pick('delete', 'drop')})

class Map(CollBase):
    ty = 'map'
    def setup(self):
        CollBase.setup(self)
        self.uni = ['f%d' % i for i in range(6 if self.small else self.r.choice([60, 300, 900]))] + ['F' * 250]
        self.weights = dict(create=2, ins=25, ups=20, upd=10, rem=12, get=22, take=5, delete=1, readable=2, getattr=4, setmax=2)
    def field(self): return self.r.choice(self.uni)
    def ins(self): return self.nr(self.mk(dict(c='mop insert', k=self.key(), f=self.field(), v=self.val())))
    def ups(self): return self.nr(self.mk(dict(c='mop upsert', k=self.key(), f=self.field(), v=self.val())))
    def upd(self): return self.nr(dict(c='mop update', k=self.key(), f=self.field(), v=self.val()))
    def fields(self):
        if self.chance(.12): return []
        return [self.field() for _ in range(self.r.choice([1, 1, 2, 3, 5]))]
    def rem(self): return self.nr(dict(c='mop delete', k=self.key(), fs=self.fields(), drop=self.drop()))
    def get(self): return dict(c='mop get', k=self.key(), fs=self.fields(), **{'del': ''})
    def take(self): return dict(c='mop get', k=self.key(), fs=self.fields(), **{'del': self.pick('delete', 'drop')})

class Btree(CollBase):
    """one bkey family per key, so that mismatches stay rare"""
    ty = 'b+tree'
    keys = ['b1', 'b2', 'b3']
    profile = None
    def setup(self):
        CollBase.setup(self)
        self.fam = {k: self.pick('u', 'u', 'x') for k in self.keys}
        big = self.r.choice([60, 300, 1500])
        self.U = 8 if self.small else big
        self.spread = self.pick(1, 1, 1000, BIG64 // (self.U + 1))
        self.hexlen = self.pick(1, 2, 4, 8, 31) if self.U <= 255 else self.pick(2, 4, 8, 31)
        self.setweights()
    def setweights(self):
        self.weights = dict(create=2, ins=50, ups=8, upd=8, rem=8, get=22, cnt=7, take=3, arith=5, delete=.6, readable=1, getattr=2,
                            setmax=1, setovfl=1)
        if not self.small: self.weights.update(delete=.1, rem=4, take=1, setmax=.2, create=.5, ins=90)
    def bk(self, k=None, fam=None):
        fam = fam or self.fam.get(k, 'u')
        if self.chance(.03): fam = self.pick('u', 'x')
        n = self.r.randrange(self.U)
        if fam == 'u':
            if self.chance(.02): return self.pick('0', str(BIG64))
            return str(n * self.spread)
        b = n.to_bytes(2, 'big')
        if self.hexlen == 1: b = b[1:]
        elif self.hexlen > 2: b = b[:2] + bytes((n * 7 + i) & 255 for i in range(self.hexlen - 2)) if self.chance(.9) else b
        h = b.hex()
        return '0x' + (h if self.chance(.5) else h.upper())
    EF = ['', '', '0x00', '0x01', '0x0F', '0xff', '0x0102', '0x01FF', '0xffff', '0x00000001', '0x' + 'AB' * 31]
    def ef(self): return self.r.choice(self.EF)
    def val(self):
        if self.chance(.25): return str(self.r.choice([0, 1, 7, 99, BIG64, BIG64 - 3, self.r.randrange(1000)]))
        if self.chance(.2): return self.r.choice(['', 'abc', ' 5', '\r\n'])
        return 'v%d' % self.n if self.chance(.9) else CollBase.val(self).replace('\0', 'z')
    def ins(self):
        k = self.key()
        o = self.mk(dict(c='bop insert', k=k, b=self.bk(k), ef=self.ef(), v=self.val(), getrim=self.chance(.15)))
        return o if o['getrim'] else self.nr(o)
    def ups(self):
        k = self.key()
        o = self.mk(dict(c='bop upsert', k=k, b=self.bk(k), ef=self.ef(), v=self.val(), getrim=self.chance(.15)))
        return o if o['getrim'] else self.nr(o)
    def upd(self):
        k = self.key(); o = dict(c='bop update', k=k, b=self.bk(k))
        x = self.r.random()
        if x < .75: o['v'] = self.val()
        if x > .4:
            if self.chance(.5): o['up'] = dict(op=self.pick('&', '|', '^'), off=self.pick(0, 0, 1, 2, 30), val=self.pick('0x01', '0xF0', '0x55AA'))
            else: o['up'] = dict(op='', off=0, val=self.pick('0', '0x11', '0x2233'))
        if self.chance(.02): o.pop('up', None); o.pop('v', None)
        return self.nr(o)
    def flt(self, o, p=.35):
        if self.chance(p):
            n = self.pick(1, 1, 2)
            bop = self.pick('', '', '&', '|', '^')
            cmp_ = self.pick('EQ', 'NE', 'LT', 'LE', 'GT', 'GE')
            v = lambda: '0x' + ''.join(self.pick('00', '01', '0F', 'FF', '02') for _ in range(n))
            vs = [v()]
            if cmp_ in ('EQ', 'NE') and self.chance(.4): vs = [v() for _ in range(self.r.choice([2, 3, 10]))]
            o['flt'] = dict(o=self.pick(0, 0, 0, 1, 3, 30), bop=bop, bv=v() if bop else '', cmp=cmp_, vs=vs)
        return o
    def rng(self, o, k, wide=.3):
        fam = self.fam.get(k, 'u')
        if self.chance(.03): fam = self.pick('u', 'x')
        def ends():
            if fam == 'u': return '0', str(BIG64)
            return '0x00', '0x' + 'FF' * 31
        lo, hi = ends()
        x = self.r.random()
        if x < .15: o.update(f=self.bk(k, fam), t='')
        elif x < .15 + wide: o.update(f=lo, t=hi) if self.chance(.5) else o.update(f=hi, t=lo)
        elif x < .6: o.update(f=self.bk(k, fam), t=self.pick(lo, hi))
        else: o.update(f=self.bk(k, fam), t=self.bk(k, fam))
        if o['t'] != '' and o['f'].startswith('0x') != o['t'].startswith('0x'): o['t'] = ''
        return o
    def cnt_(self): return self.r.choice([0, 0, 0, 1, 2, 3, 10, 50])
    def rem(self):
        k = self.key(); o = self.rng(dict(c='bop delete', k=k, n=self.cnt_(), drop=self.drop()), k, .02 if not self.small else .15)
        if not self.small and o['n'] == 0 and self.chance(.9): o['n'] = self.pick(1, 2, 5)
        return self.nr(self.flt(o))
    def get(self):
        k = self.key(); o = self.rng(dict(c='bop get', k=k, off=self.r.choice([0, 0, 0, 1, 2, 5, 40]), n=self.cnt_(), **{'del': ''}), k)
        return self.flt(o)
    def take(self):
        k = self.key(); o = self.rng(dict(c='bop get', k=k, off=self.r.choice([0, 0, 0, 1, 3]), n=self.pick(1, 2, 3, 0) if self.small else self.pick(1, 2, 7, 40), **{'del': self.pick('delete', 'drop')}), k)
        return self.flt(o)
    def cnt(self):
        k = self.key(); return self.flt(self.rng(dict(c='bop count', k=k), k))
    def arith(self):
        k = self.key(); o = dict(c=self.pick('bop incr', 'bop decr'), k=k, b=self.bk(k), d=str(self.pick(1, 5, 1000, BIG64)), ef='')
        if self.chance(.05): o['d'] = self.pick('0', 'x', '-1')
        if self.chance(.3): o['init'] = str(self.pick(0, 7, BIG64)); o['ef'] = self.ef()
        return self.nr(o)
    def getattr(self): return dict(c='getattr', k=self.key(), names=[] if self.chance(.5) else ['count', 'minbkey', 'maxbkey', 'trimmed'])

class BtreeTrim(Btree):
    keys = ['t1', 't2']
    def setup(self):
        Btree.setup(self)
        self.hexlen = self.pick(1, 2, 2, 4) if self.U <= 255 else 2
        # (bkeys of many bytes, the difference of two borrowing through others)
        self.bytes_ = self.pick(0, 3, 4, 5, 12, 31) if self.small else 0
        self.some = [bytes(self.r.choice((0, 0, 1, 2, 0x7f, 0x80, 0xfe, 0xff, 0xff)) for _ in range(self.bytes_)) for _ in range(12)]
        self.mcs = [1, 2, 3, 5] if self.small else [30, 70, 200, 400]
        self.mrs = [str(self.spread * x) for x in (1, 3, max(4, self.U // 3), self.U - 1)] + ['0']
    def setweights(self):
        self.weights = dict(create=2, ins=60, ups=8, rem=4, get=20, cnt=3, take=2, arith=2, delete=.8, readable=.6, getattr=6, setmax=1, setovfl=1.5, setmr=2.5, pos=4, gbp=3)
        if not self.small: self.weights.update(delete=.15, rem=2, take=.5, setmax=.2, create=.5, ins=90, setmr=.6, setovfl=.6)
    def bk(self, k=None, fam=None):       # binary bkeys all of one length, so that their distance is well defined
        fam = fam or self.fam.get(k, 'u')
        if fam == 'u': return Btree.bk(self, k, 'u')
        if self.bytes_: return '0x' + self.r.choice(self.some).hex()
        n = self.r.randrange(self.U)
        L = self.hexlen
        m = n % 256 if L == 1 else n * (1 if L <= 2 else 65537 >> (8 if L == 3 else 0))
        return '0x' + (m % (1 << (8 * L))).to_bytes(L, 'big').hex()
    def ends(self): return 0
    def mr(self, k):
        if self.fam.get(k) == 'x':
            if self.chance(.15): return '0'
            if self.bytes_:
                a, b = [int.from_bytes(x, 'big') for x in self.r.sample(self.some, 2)]
                return '0x' + max(1, abs(a - b) + self.pick(-1, 0, 0, 1)).to_bytes(self.bytes_, 'big').hex()
            L = self.hexlen
            n = self.r.choice([1, 3, max(4, self.U // 3), self.U - 1]) * (1 if L <= 2 else 65537)
            return '0x' + min(n, (1 << (8 * L)) - 1).to_bytes(L, 'big').hex()
        return self.r.choice(self.mrs)
    def setmr(self):
        k = self.key(); return dict(c='setattr', k=k, sets=[['maxbkeyrange', self.mr(k)]])
    def attrs(self, ty=None):
        a = Btree.attrs(self, ty); a['mc'] = self.r.choice(self.mcs); return a
    def pos(self):
        k = self.key(); return dict(c='bop position', k=k, b=self.bk(k), ord=self.pick('asc', 'desc'))
    def gbp(self): return dict(c='bop gbp', k=self.key(), ord=self.pick('asc', 'desc'), pf=0, pt=self.pick(0, 3, 1000))

class BtreePos(Btree):
    keys = ['q1', 'q2', 'q3']
    def setup(self):
        Btree.setup(self)
        self.mcs = [3, 5, 0] if self.small else [0, 1000, 4000]
    def setweights(self):
        self.weights = dict(create=1, ins=55, rem=6, take=2, pos=25, gbp=20, pwg=20, readable=1, delete=.5)
        if not self.small: self.weights.update(ins=100, rem=5, take=1.5, delete=.05, create=.3)
    def position(self):
        hi = self.U + 2
        x = self.r.random()
        if x < .75: return self.r.randrange(hi)
        return self.r.choice([0, 1, hi, hi * 2, 1000000])
    def pos(self):
        k = self.key(); return dict(c='bop position', k=k, b=self.bk(k), ord=self.pick('asc', 'desc'))
    def pwg(self):
        k = self.key(); return dict(c='bop pwg', k=k, b=self.bk(k), ord=self.pick('asc', 'desc'), n=self.r.choice([0, 0, 1, 2, 5, 31, 33, 100, 101]))
    def gbp(self):
        a = self.position(); b = a if self.chance(.3) else (a + self.r.randrange(-40, 40) if self.chance(.7) else self.position())
        return dict(c='bop gbp', k=self.key(), ord=self.pick('asc', 'desc'), pf=a, pt=max(0, b))

class BtreeMulti(Btree):
    def setup(self):
        self.keys = ['m%d' % i for i in range(self.pick(3, 6, 12))] + ['mm' * 30]
        Btree.setup(self)
        one = self.pick('u', 'x')
        self.fam = {k: one if self.chance(.95) else self.pick('u', 'x') for k in self.keys}
        self.one = one
        self.mcs = [2, 4, 0] if self.small else [20, 100, 0]
    def setweights(self):
        self.weights = dict(create=2, ins=60, rem=5, take=1, mget=16, smget=30, readable=.8, delete=1.5, kv=.7, setovfl=1)
    def kv(self): return dict(c='set', k=self.key(), fl='3', exp=0, v='kv')
    def flt(self, o, p=.35):
        Btree.flt(self, o, p)
        if 'flt' in o and o['flt']['o'] > 29 and 'get' in o['c']: o['flt']['o'] = 4     # (a refused line does not swallow its key line)
        return o
    def klist(self):
        ks = list(self.keys) + ['absent1', 'absent2']
        self.r.shuffle(ks)
        return ks[:self.r.choice([1, 2, 3, len(ks), len(ks)])]
    def mget(self):
        ks = self.klist()
        if self.chance(.2): ks.append(ks[0])
        return self.flt(self.rng(dict(c='bop mget', ks=ks, off=self.r.choice([0, 0, 1, 3]), n=self.r.choice([1, 2, 5, 50])), None_key(self)))
    def smget(self):
        o = dict(c='bop smget', ks=self.klist(), off=self.r.choice([0, 0, 1, 3, 20]), n=self.r.choice([1, 2, 5, 20, 100]),
                 mode=self.pick('old', 'duplicate', 'unique', 'duplicate', 'unique'))
        if self.chance(.02):
            if self.chance(.5): o['offs'] = self.pick('4294967295', '4294967294', '2147483648'); o['n'] = self.pick(2, 5)
            else: o.update(off=self.pick(1999, 1998, 2000, 5000), n=self.pick(1, 2, 3, 2000, 2001))
        return self.flt(self.rng(o, None_key(self)))

def None_key(g):
    """a key of the prevailing bkey family, for ranges of multi-key reads"""
    c = [k for k in g.keys if g.fam.get(k) == g.one]
    return c[0] if c else g.keys[0]

class Mixed(Gen):
    """draws from sub-generators over shared keys"""
    parts = [Kv, List, Set, Map, Btree]
    def setup(self):
        self.subs = []
        for cl in self.parts:
            g = cl(self.r); g.keys = self.keys; self.subs.append(g)
            if isinstance(g, CollBase):
                g.small = True; g.mcs = [1, 2, 3, 5, 0]; g.exp = self.exp
            else: g.exp = self.exp
            if isinstance(g, Btree): g.fam = {k: 'u' for k in self.keys}; g.U = 6; g.spread = 1
        self.share = [1] * len(self.subs)
    def exp(self): return 0
    def inner(self):
        g = self.r.choices(self.subs, self.share)[0]
        self.cur = g; g.n += 1
        names = list(g.weights); ws = [g.weights[n] for n in names]
        o = getattr(g, self.r.choices(names, ws)[0])()
        return o
    def feedback(self, o, raw):
        for g in self.subs: g.feedback(o, raw)

class Mix(Mixed):
    """many types on few keys (C14)"""
    keys = ['x1', 'x2', 'p:x3']
    weights = dict(inner=80, delete=10, getattr=6, setattr=3, big=.5, flush=.5, tick=2)
    def delete(self): return dict(c='delete', k=self.key())
    def getattr(self): return dict(c='getattr', k=self.key(), names=[])
    def setattr(self): return dict(c='setattr', k=self.key(), sets=[['readable', 'on']])
    def big(self): return dict(c='big', sc=self.pick('set', 'add', 'replace', 'append'), k=self.key(), len=1100000)
    def flush(self): return dict(c='flush_all', d=0)
    def tick(self): return dict(c='clock', adv=1)

class Attr(Mixed):
    keys = ['a1', 'a2', 'a3', 'a4', 'p:a5']
    parts = [Kv, List, Set, Map, BtreeTrim]
    weights = dict(inner=55, getattr=30, setattr=35, delete=2.5, tick=3, create=6, config=.5)
    NAMES = ['type', 'flags', 'expiretime', 'count', 'maxcount', 'overflowaction', 'readable', 'maxbkeyrange', 'minbkey', 'maxbkey', 'trimmed']
    def setup(self):
        Mixed.setup(self)
        g = self.subs[-1]; g.hexlen = 2; g.fam = {k: self.pick('u', 'x') for k in self.keys}; g.mrs = ['1', '2', '3', '5', '0']
    def exp(self): return self.r.choice([0, 0, 0, 0, 3, 10, -1])
    def delete(self): return dict(c='delete', k=self.key())
    def tick(self): return dict(c='clock', adv=self.pick(1, 1, 2))
    def create(self):
        g = self.r.choice(self.subs[1:]); return g.create()
    def getattr(self):
        x = self.r.random()
        if x < .4: ns = []
        elif x < .5: ns = list(self.NAMES)
        elif x < .53: ns = [self.r.choice(self.NAMES) for _ in range(11)]
        else: ns = [self.r.choice(self.NAMES) for _ in range(self.r.choice([1, 1, 2, 3]))]
        if self.chance(.02): ns[-1:] = ['bogus']
        return dict(c='getattr', k=self.key(), names=ns)
    def setval(self, k):
        n = self.r.choice(['expiretime', 'maxcount', 'overflowaction', 'readable', 'maxbkeyrange'])
        if n == 'expiretime': v = str(self.pick(0, 1, 5, 100, -1, -2, 2592000, 2592001, 1700000100))
        elif n == 'maxcount': v = str(self.pick(0, 1, 2, 3, 5, 10, 100, -1, 49999, 50000, 50001, 1000000, 2000000))
        elif n == 'overflowaction': v = self.r.choice(OVFL['list'] + OVFL['b+tree'])
        elif n == 'readable': v = 'on' if self.chance(.85) else 'off'
        else: v = self.subs[-1].mr(k) if self.chance(.9) else self.pick('0x', '0xZZ', 'abc', '0x0', '-1')
        if self.chance(.03): v = self.pick('x', 'abc', '1x')
        return [n, v]
    def setattr(self):
        k = self.key(); s = [self.setval(k) for _ in range(self.r.choice([1, 1, 1, 2, 3]))]
        if self.chance(.02): s.append([self.pick('type', 'count', 'trimmed', 'bogus'), '1'])
        return dict(c='setattr', k=k, sets=s)
    def config(self): return dict(c='config', t=self.pick('list', 'set', 'map', 'btree'), n=self.pick(10000, 50000, 50100, 60000, 100000, 1000000))

class Exp(Mixed):
    keys = ['e1', 'e2', 'e3', 'e4', 'p:e5', 'p:e6']
    weights = dict(inner=60, tick=16, touch=12, setexp=6, getexp=10, delete=1, look=8)
    def exp(self):
        x = self.r.random()
        if x < .2: return 0
        if x < .65: return self.r.choice([1, 2, 3, 4, 5, 7, 10])
        if x < .72: return -1
        if x < .77: return self.pick(-2, -100)
        if x < .92: return self.vnow() + self.r.choice([-3, -1, 0, 1, 2, 3, 5, 9])
        return self.pick(2592000, 2592001, 2591999, 2000000000)
    def vnow(self): return self.clk
    def setup(self):
        import server
        self.clk = server.BASE_TIME
        Mixed.setup(self)
        for g in self.subs: g.exp = self.exp
        self.share = [4, 1, 1, 1, 1]
    def tick(self):
        a = self.r.choice([1, 1, 1, 1, 2, 3, 5] + ([100, 2591990] if self.chance(.04) else []))
        self.clk += a
        return dict(c='clock', adv=a)
    def touch(self): return self.nr(dict(c='touch', k=self.key(), exp=self.exp()))
    def nr(self, o):
        if self.chance(.05): o['nr'] = 1
        return o
    def setexp(self): return dict(c='setattr', k=self.key(), sets=[['expiretime', str(self.exp())]])
    def getexp(self): return dict(c='getattr', k=self.key(), names=['expiretime'])
    def delete(self): return dict(c='delete', k=self.key())
    def look(self): return dict(c='get', ks=self.keys[:])

class Flush(Mixed):
    """clean runs look at every key after each tick and flush, so that no dead item is left behind: a flush still pending
    for a prefix goes when the server removes the prefix's last, dead, item, at a time of its choosing"""
    keys = ['u1', 'u2', 'p:a', 'p:b', 'p:q:c', 'q:d', 'q:e', 'pp:g', ':n', 'P:a']
    weights = dict(inner=60, tick=14, flush=5, flushp=9, look=14, delete=1.5, coll=6)
    PFX = ['p', 'p', 'q', 'q', 'pp', 'P', '<null>', '<null>', 'p:q', 'nope', 'r']
    def setup(self):
        Mixed.setup(self)
        self.share = [5, 1, 1, 1, 1]
        self.clean = self.chance(.6)
        self.expire = self.chance(.4); self.sticky = self.chance(.3)
        self.queue = []
    def exp(self):
        if getattr(self, 'expire', False) and self.chance(.2): return self.r.choice([2, 4, 8])
        if getattr(self, 'sticky', False) and self.chance(.1): return -1
        return 0
    def op(self):
        if self.queue: return self.queue.pop(0)
        o = Mixed.op(self)
        if self.clean and o['c'] in ('clock', 'flush_all', 'flush_prefix'): self.queue.append(self.look())
        return o
    def delay(self): return self.r.choice([0, 0, 0, 1, 2, 3, 5])
    def tick(self): return dict(c='clock', adv=self.r.choice([1, 1, 1, 2, 4]))
    def flush(self):
        o = dict(c='flush_all', d=self.delay())
        if self.chance(.1): o['nr'] = 1
        if self.chance(.1): o['dd'] = 1
        return o
    def flushp(self): return dict(c='flush_prefix', p=self.r.choice(self.PFX), d=self.delay() if self.clean else 0)
    def look(self): return dict(c='get', ks=self.keys[:])
    def coll(self): return dict(c='getattr', k=self.key(), names=['type'])
    def delete(self): return dict(c='delete', k=self.key())

class Cas(Kv):
    keys = ['k1', 'k2', 'p:k3']
    weights = dict(store=12, cas=30, get=6, gets=30, delete=5, arith=7, attach=7, coll=2, touch=3, attr=2)
    def coll(self):
        return self.pick(dict(c='lop create', k=self.key(), cr=dict(fl='0', exp=0, mc=0, ov='', rd=True)), dict(c='delete', k=self.key()))
    def touch(self): return dict(c='touch', k=self.key(), exp=self.pick(0, 1000000))
    def attr(self): return dict(c='setattr', k=self.key(), sets=[['expiretime', self.pick('0', '1000000')]])

class Arith(Kv):
    keys = ['n1', 'n2', 'n3', 'p:n4']
    weights = dict(store=14, get=14, gets=4, delete=4, arith=60, attach=3, coll=1, cas=3)
    def coll(self): return dict(c='lop create', k=self.key(), cr=dict(fl='0', exp=0, mc=0, ov='', rd=True))

# ------------------------------------------------------------------------------------------------ large collections
class BigColl:
    """mixin: a few collections with thousands of elements, so that their inner structure has several levels"""
    sizes = [700, 1500, 3000]
    steps = (1, 2, 3)
    def start(self):
        self.small = False; self.queue = []; self.n0 = {}
        self.vals = None
        self.room = 20000
    def fillop(self, k):
        n = self.r.choice(self.sizes); n += self.r.randrange(-50, 50)
        o = dict(c='fill', ty=self.ty, k=k, cr=dict(fl='0', exp=0, mc=self.room, ov='', rd=True), n=n, s=self.pick(0, 1, 1000), d=self.pick(*self.steps),
                 fam=getattr(self, 'fam', {}).get(k, 'u'), fl=self.pick(0, 3, 7), ord=self.pick(0, -1, self.r.randrange(1, 1 << 30)))
        self.n0[k] = o
        return o
    def prefix_ops(self):
        return [self.fillop(k) for k in self.keys]
    def refill(self):
        k = self.key(); self.queue.append(self.fillop(k)); return dict(c='delete', k=k)
    def num(self, k):
        o = self.n0[k]; i = self.r.randrange(-3, o['n'] + 3)
        return max(0, o['s'] + i * o['d'] + (self.r.randrange(o['d']) if self.chance(.3) else 0))
    def op(self):
        if self.queue: return self.queue.pop(0)
        return Gen.op(self)

class BigSet(BigColl, Set):
    keys = ['S1', 'S2']
    def setup(self):
        Set.setup(self); self.start()
        self.weights = dict(ins=30, rem=30, exist=15, getc=14, takec=8, all=.6, refill=.4, burst=1.5, getattr=2)
    def mem(self, k): return 'm%d' % self.num(k)
    def ins(self): k = self.key(); return dict(c='sop insert', k=k, v=self.mem(k))
    def rem(self): k = self.key(); return dict(c='sop delete', k=k, v=self.mem(k), drop=False)
    def exist(self): k = self.key(); return dict(c='sop exist', k=k, v=self.mem(k))
    def cnt(self): return self.r.choice([1, 2, 7, 50, 200, 500, 999, 1000])
    def getc(self): return dict(c='sop get', k=self.key(), n=self.cnt(), **{'del': ''})
    def takec(self): return dict(c='sop get', k=self.key(), n=self.r.choice([1, 1, 1, 2, 5, 30, 150]), **{'del': 'delete'})
    def all(self): return dict(c='sop get', k=self.key(), n=0, **{'del': ''})
    def burst(self):
        """delete a whole stretch, so that nodes merge"""
        k = self.key(); a = self.num(k)
        self.queue += [dict(c='sop delete', k=k, v='m%d' % (a + i), drop=False) for i in range(self.r.choice([40, 150]))]
        return dict(c='sop exist', k=k, v='m%d' % a)

class BigMap(BigColl, Map):
    keys = ['M1', 'M2']
    def setup(self):
        Map.setup(self); self.start()
        self.weights = dict(ins=20, ups=15, upd=10, rem=25, get=25, takef=8, all=.5, refill=.4, burst=1.5, getattr=2)
    def field(self): return 'f%d' % self.num(self.cur)
    def ins(self): self.cur = k = self.key(); return dict(c='mop insert', k=k, f=self.field(), v='w')
    def ups(self): self.cur = k = self.key(); return dict(c='mop upsert', k=k, f=self.field(), v='x%d' % self.n)
    def upd(self): self.cur = k = self.key(); return dict(c='mop update', k=k, f=self.field(), v='u%d' % self.n)
    def fields(self, n=None): return [self.field() for _ in range(n or self.r.choice([1, 1, 2, 5, 20]))]
    def rem(self): self.cur = k = self.key(); return dict(c='mop delete', k=k, fs=self.fields(), drop=False)
    def get(self): self.cur = k = self.key(); return dict(c='mop get', k=k, fs=self.fields(), **{'del': ''})
    def takef(self): self.cur = k = self.key(); return dict(c='mop get', k=k, fs=self.fields(), **{'del': 'delete'})
    def all(self): return dict(c='mop get', k=self.key(), fs=[], **{'del': ''})
    def burst(self):
        self.cur = k = self.key(); a = self.num(k)
        self.queue += [dict(c='mop delete', k=k, fs=['f%d' % (a + i)], drop=False) for i in range(self.r.choice([40, 150]))]
        return dict(c='mop get', k=k, fs=['f%d' % a], **{'del': ''})

class BigList(BigColl, List):
    keys = ['L1', 'L2']
    sizes = [300, 700, 1200]
    def setup(self):
        List.setup(self); self.start()
        self.weights = dict(ins=40, rem=10, get=30, take=6, refill=.5, getattr=1)
    def idx(self): return self.r.randrange(-2000, 2000) if self.chance(.9) else self.pick(0, -1)
    def rng(self):
        a = self.idx(); return dict(f=a, t=a + self.r.randrange(-60, 60), two=1)
    def ins(self): return dict(c='lop insert', k=self.key(), i=self.idx(), v='i%d' % self.n)

class BigTree(BigColl, Btree):
    keys = ['T1', 'T2']
    sizes = [600, 1200, 2500, 4500]
    steps = (1, 3, 20, 40)
    def setup(self):
        Btree.setup(self); self.start()
        self.fam = {k: self.pick('u', 'x') for k in self.keys}
        self.weights = dict(ins=24, ups=6, upd=6, rem1=20, remr=5, get=14, cnt=6, take=4, pos=9, gbp=7, pwg=5, refill=.4, burst=1, dense=3, getattr=1, mget=1.5, smget=2)
    def bk(self, k=None, fam=None):
        x = self.num(k)
        return str(x) if self.fam[k] == 'u' else '0x%08X' % x
    def rng(self, o, k, wide=.3):
        o['f'] = self.bk(k); x = self.r.random()
        if x < .1: o['t'] = ''
        elif x < .8:
            n0 = self.n0[k]; span = n0['d'] * self.r.choice([5, 20, 40, 100, 400])
            a = int(o['f'], 0); b = max(0, a + self.r.choice([-1, 1]) * self.r.randrange(1, span))
            o['t'] = str(b) if self.fam[k] == 'u' else '0x%08X' % b
        else: o['t'] = self.bk(k)
        return o
    def flt(self, o, p=.35):
        if self.chance(p):
            o['flt'] = dict(o=0, bop=self.pick('', '&'), bv='0x03', cmp=self.pick('EQ', 'NE', 'LT', 'GE'), vs=['0x0%d' % self.r.randrange(4)])
            if o['flt']['bop'] == '': o['flt']['bv'] = ''
        return o
    def ins(self): k = self.key(); return dict(c='bop insert', k=k, b=self.bk(k), ef='0x02', v='n%d' % self.n, getrim=False)
    def ups(self): k = self.key(); return dict(c='bop upsert', k=k, b=self.bk(k), ef='', v='n%d' % self.n, getrim=False)
    def rem1(self): k = self.key(); return dict(c='bop delete', k=k, f=self.bk(k), t='', n=0, drop=False)
    def remr(self):
        k = self.key(); return self.flt(self.rng(dict(c='bop delete', k=k, n=self.r.choice([0, 1, 10, 40, 100, 300]), drop=False), k))
    def get(self):
        k = self.key(); return self.flt(self.rng(dict(c='bop get', k=k, off=self.r.choice([0, 0, 1, 33, 100, 400]), n=self.r.choice([0, 1, 10, 40, 100]), **{'del': ''}), k))
    def take(self):
        k = self.key(); return self.flt(self.rng(dict(c='bop get', k=k, off=self.r.choice([0, 0, 1, 33, 100]), n=self.r.choice([1, 10, 40, 100]), **{'del': 'delete'}), k))
    def pos(self): k = self.key(); return dict(c='bop position', k=k, b=self.bk(k), ord=self.pick('asc', 'desc'))
    def pwg(self): k = self.key(); return dict(c='bop pwg', k=k, b=self.bk(k), ord=self.pick('asc', 'desc'), n=self.r.choice([0, 1, 5, 40, 100]))
    def gbp(self):
        k = self.key(); a = self.r.randrange(self.n0[k]['n']); return dict(c='bop gbp', k=k, ord=self.pick('asc', 'desc'), pf=a, pt=max(0, a + self.r.randrange(-90, 90)))
    def burst(self):
        k = self.key(); a = self.num(k); d = self.n0[k]['d']
        for i in range(self.r.choice([40, 120])):
            x = a + i * d
            self.queue.append(dict(c='bop delete', k=k, f=str(x) if self.fam[k] == 'u' else '0x%08X' % x, t='', n=0, drop=False))
        return dict(c='bop position', k=k, b=self.bk(k), ord='asc')
    def dense(self):
        """a hole, and many new elements close together beside or in it: leaves pass elements to their neighbours"""
        k = self.key(); o = self.n0[k]; d = o['d']; n = self.r.choice([8, 15, 30, 100]); a = self.num(k)
        hex_ = lambda x: str(x) if self.fam[k] == 'u' else '0x%08X' % x
        at = max(0, a + d * self.r.choice([-20, 0, 0, n // 2, n, n])); m = self.r.choice([15, 25, 40]); w = max(2 * m, 10 * d)
        if self.chance(.6):      # a crowd in a single leaf right after or before the hole
            at = max(0, a + d * self.r.choice([n, n, n, n + 3, -2, -4])); m = self.r.choice([20, 34]); w = max(m, 2 * d)
        xs = self.r.sample(range(at, at + w), m)
        if self.chance(.3): xs.sort(reverse=self.chance(.5))
        self.queue += [dict(c='bop insert', k=k, b=hex_(x), ef='', v='d', getrim=False) for x in xs]
        for _ in range(3): self.queue.append(dict(c='bop position', k=k, b=self.bk(k), ord='asc'))
        self.queue.append(self.gbp())
        return dict(c='bop delete', k=k, f=hex_(a), t=hex_(a + n * d), n=0, drop=False)
    def mget(self): k = self.key(); return self.rng(dict(c='bop mget', ks=self.ks(k), off=0, n=self.pick(1, 20, 50)), k)
    def smget(self):
        k = self.key(); return self.flt(self.rng(dict(c='bop smget', ks=self.ks(k), off=self.pick(0, 3, 50), n=self.pick(1, 50, 200), mode=self.pick('duplicate', 'unique')), k), .2)
    def ks(self, k): return [x for x in self.r.sample(self.keys, len(self.keys)) if self.fam[x] == self.fam[k]]

class DenseTree(BigTree):
    """three levels of nodes, with holes and crowds in them: elements move between leaves below different parents"""
    sizes = [2500, 4500]
    steps = (40, 60)
    def setup(self):
        BigTree.setup(self)
        self.weights = dict(ins=2, rem1=2, remr=.3, get=.5, cnt=.5, take=.3, pos=5, gbp=3, pwg=.5, dense=3, seam=12, getattr=.2)
    def fillop(self, k):
        o = BigTree.fillop(self, k)
        if self.chance(.8): o['ord'] = self.pick(0, -1)
        return o
    def seam(self):
        """a hole on one side and a crowd on the other side of a place where, in a tree filled in order (29 of 32 entries in a node), two leaves have different parents"""
        k = self.key(); o = self.n0[k]; d = o['d']; n = self.r.randrange(14, 24); gap = self.r.randrange(0, 14); m = self.r.choice([5, 10, 14])
        hex_ = lambda x: str(x) if self.fam[k] == 'u' else '0x%08X' % max(0, x)
        j = self.r.randrange(1, max(2, o['n'] // 841 + 1)) * 841; j = o['n'] - j if o['ord'] == -1 else j
        if self.chance(.35): j = self.r.randrange(o['n'])
        j = max(0, j + self.r.randrange(-12, 12)); hole, at = (j - n, j + gap) if self.chance(.5) else (j, j - gap - 2)
        hole = max(0, o['s'] + hole * d); at = max(0, o['s'] + at * d)
        xs = self.r.sample(range(at, at + 2 * d), m)
        self.queue += [dict(c='bop insert', k=k, b=hex_(x), ef='', v='d', getrim=False) for x in xs]
        for q in (-60, -300, 60, 300, 800): self.queue.append(dict(c='bop position', k=k, b=hex_(o['s'] + max(0, j + q) * d), ord='asc'))
        p = max(0, j + self.r.randrange(-900, 900)); self.queue.append(dict(c='bop gbp', k=k, ord='asc', pf=p, pt=p))
        return dict(c='bop delete', k=k, f=hex_(hole), t=hex_(hole + n * d), n=0, drop=False)

# ------------------------------------------------------------------------------------------------ pipelines and streams
# lines no command answers to, by the reply they get; none of them is followed by data
BAD = {
 'nomatch': ['foo', '', 'get', 'gets', 'set w1 0 0', 'set w1', 'SET w1 0 0 1', 'lop get w1', 'touch w1', 'incr w1', 'incr w1 5 1 2', 'delete', 'flush_all 1 2 3', 'flush_prefix',
   'setattr w1', 'config', 'cas w1 0 0 1', 'scan', 'scan key', 'dump', 'version 1', 'ready 1', 'quit 1', 'lop', 'bop get', 'getattr', 'get  ', '\t', 'k' * 300, 'get\tw1'],
 'format': ['lop foo w1 1', 'lop get w1 x', 'lop get w1 1..x', 'lop get w1 1..2..3', 'lop delete w1 x', 'lop get w1 99999999999', 'sop get w1 x', 'sop get w1 -1', 'sop exist w1 x', 'mop get w1 x 1', 'mop get w1 1 x',
   'mop get w1 0 1', 'mop get w1 1 0', 'bop get w1 zz', 'bop get w1 0x0', 'bop get w1 1..0x01', 'bop get w1 1 2 3 4', 'bop delete w1 1..', 'bop count w1 x', 'bop incr w1 1 0', 'bop incr w1 1 -1', 'bop incr w1 1..2 1',
   'bop position w1 1 up', 'bop gbp w1 asc x', 'bop gbp w1 up 1', 'flush_all x', 'setattr w1 maxcount', 'config foo', 'config memlimit x', 'mget 0 0', 'mget x 1', 'cas w1 0 0 x 1', 'scan foo 0',
   'scan prefix 0 type K', 'scan key 0 match', 'bop smget 3 2 0..5', 'bop mget 3 2 0..5', 'set w1 4294967296 0 1', 'set w1 -1 0 1', 'set w1 0 x 1', 'set w1 0 0 -1', 'set w1 0 0 x', 'set w1 0 0 2147483646',
   'set w1 0 0 2147483647', 'set w1 0 0 4294967296', 'lop insert w1 x 1', 'lop insert w1 0 -1', 'lop insert w1 0 x', 'lop insert w1 0 2147483646', 'lop insert w1 0 1 foo', 'lop insert w1 0 1 create', 'bop insert w1 -1 1', 'bop insert w1 18446744073709551616 1',
   'bop insert w1 0xabc 1', 'bop insert w1 1 0xZZ 1', 'bop insert w1 1 0x' + '00' * 32 + ' 1', 'bop insert w1 0x' + '00' * 32 + ' 1', 'lop create w1 0 0', 'lop create w1 0 0 x', 'lop create w1 0 0 1 foo',
   'lop create w1 x 0 1', 'bop create w1 0 0 1 head_trim', 'get ' + 'k' * 16001, 'set ' + 'k' * 16001 + ' 0 0 1', 'lop get ' + 'k' * 16001 + ' 0', 'bop get w1 0..1 0 FOO 0x01', 'bop get w1 0..1 0 EQ', 'bop get w1 0..1 0 & 0x01', 'dump start'],
 'delta': ['incr w1 x', 'decr w1 -1', 'incr w1 99999999999999999999', 'incr w1 1x'],
 'count': ['bop pwg w1 1 asc 101'],
 'usage': ['delete w1 5', 'delete w1 noreply2', 'delete w1 0 0'],
 'field': ['mop insert w1 ' + 'f' * 251 + ' 1', 'mop update w1 ' + 'f' * 300 + ' 1'],
 'cursor': ['scan key x', 'scan prefix -'],
 'scancount': ['scan key 0 count 0', 'scan key 0 count 2001'],
 'scantype': ['scan key 0 type Z'],
 'stat': ['stats foo'],
 'noargs': [' ', '   '],
}
# the same, as parts of a pipeline: the keyword goes at the end of the line
PIPEBAD = ['lop delete w1 x', 'lop delete w1 1..x', 'lop delete w1 0 foo', 'bop delete w1 zz', 'bop delete w1 1..0x01', 'bop delete w1 1 2 3', 'bop incr w1 1 0', 'bop decr w1 zz 1', 'bop update w1 zz -1', 'mop delete w1 0 1', 'mop delete w1 x 1']
def left(g):
    """what a client has said when it goes away: nothing of it has an effect"""
    m = g.pick(1, 2, 5, 30)
    return g.pick('lop delete nok 0 pipe\r\n' * m, 'sop exist nok 1 pipe\r\nx\r\n' * m, 'bop delete nok 1 pipe\r\n' * m + 'lop delete nok', 'sop exist nok 1 pipe\r\nx\r\n' * 520,
                  'lop delete nok 0 pipe\r\nlop insert nok 0 5 pipe\r\nab', 'lop delete nok x pipe\r\n' + 'lop delete nok 0 pipe\r\n' * m,
                  'set nok 0 0 10\r\nabc', 'set nok 0 0 10 noreply\r\nabc', 'set nok 0 0 3 noreply\r\n', 'lop insert nok 0 4 noreply\r\nab', 'sop insert nok 5 create 9 100 10 unreadable\r\nab', 'set nok 0 0 2000000\r\nabc',
                  'mget 11 2\r\nnok', 'bop mget 11 2 0..1 5\r\nnok', 'bop smget 11 2 0..1 5 duplicate\r\nnok', 'mop get nok 5 2\r\nf', 'get nok', 'get ' + 'k' * 3000, 'append nok 0 0 10 noreply\r\n',
                  '\x80\x00\x00\x03' + '\0' * 12, '\x80\x01\0\3\x08\0\0\0\0\0\0\x20' + '\0' * 14)
PIPEABLE = {'lop insert', 'lop delete', 'sop insert', 'sop delete', 'sop exist', 'mop insert', 'mop upsert', 'mop update', 'mop delete', 'bop insert', 'bop upsert', 'bop update', 'bop delete', 'bop incr', 'bop decr'}

class Pipe(Mixed):
    """pipelines of every length, with and without commands that stop them (C15)"""
    keys = ['w1', 'w2', 'p:w3']
    parts = [Kv, List, Set, Map, Btree]
    weights = dict(inner=25, pipe=60, long=1.2, delete=4, create=6, recycle=2.5)
    def setup(self):
        Mixed.setup(self); self.share = [1, 5, 5, 5, 8]
        for g in self.subs[1:]: g.mcs = [1, 2, 4, 30, 1000]
    def delete(self): return dict(c='delete', k=self.key())
    def create(self): return self.r.choice(self.subs[1:]).create()
    def recycle(self): return dict(c='recycle', lines=[], left=[left(self) for _ in range(self.pick(3, 6, 10))])
    def large(self):
        k = self.key(); n = self.pick(16384 - 2 + 1, 20000, 100000)
        return dict(c='bad', w='large', pad=n, line=self.pick('lop insert %s 0 %d' % (k, n), 'sop insert %s %d' % (k, n), 'sop exist %s %d' % (k, n), 'sop delete %s %d' % (k, n),
                    'mop insert %s f %d' % (k, n), 'mop update %s f %d' % (k, n), 'bop insert %s 1 %d' % (k, n), 'bop upsert %s 1 0x01 %d' % (k, n), 'bop update %s 1 %d' % (k, n)))
    def chunk(self, kv=False):
        k = self.key(); ls = ['lop insert %s 0 3' % k, 'sop insert %s 3' % k, 'sop exist %s 3' % k, 'sop delete %s 3' % k, 'mop insert %s f 3' % k, 'mop update %s f 3' % k,
                              'bop insert %s 1 3' % k, 'bop upsert %s 1 0x01 3' % k, 'bop update %s 1 3' % k]
        if kv: ls += ['set %s 0 0 3' % k, 'add %s 0 0 3' % k, 'replace %s 0 0 3' % k, 'append %s 0 0 3' % k, 'cas %s 0 0 3 1' % k] * 2
        return dict(c='bad', w='chunk', data=self.pick('abcXY', 'abc\r ', 'abc \n', 'a\r\nbc'), line=self.r.choice(ls))
    def piped(self):
        while True:
            o = self.inner()
            if o['c'] in PIPEABLE and not o.get('getrim'):
                o.pop('nr', None)
                return o
    def member(self, calm):
        if not calm:
            if self.chance(.5): return dict(c='bad', w='format', line=self.r.choice(PIPEBAD))
            if self.chance(.5): return self.large()
            return self.chunk()
        return self.piped()
    def pipe(self):
        n = self.r.choice([1, 2, 2, 3, 4, 5, 8, 12, 30]); p = self.r.choice([0, 0, .05, .3])
        ops = [self.member(not self.chance(p)) for _ in range(n)]
        return dict(c='pipe', ops=ops)
    def long(self):
        ops = [self.piped() for _ in range(self.r.choice([1, 2, 7]))]
        for o in ops:
            if 'v' in o and len(o['v']) > 100: o['v'] = 'v'
        n = self.r.choice([499, 500, 501, 502, 600, self.r.randrange(300, 1200)])
        return dict(c='pipe', ops=ops, rep=n)

class Stream(Pipe):
    """commands, pipelines, noreply commands and bad lines back to back, the stream cut anywhere (C16)"""
    weights = dict(stream=90, cut=4, inner=6, recycle=2.5)
    def setup(self):
        Pipe.setup(self); self.share = [8, 3, 3, 3, 4]
    def bad(self):
        w = self.r.choice(['nomatch'] * 3 + ['format'] * 6 + [x for x in BAD if x not in ('nomatch', 'format')])
        return dict(c='bad', w=w, line=self.r.choice(BAD[w]))
    def swallowed(self):
        k = self.key()
        # refused, and the block that was announced is swallowed
        n = self.r.choice([1, 2, 20, 3000])
        line = self.pick('mget %d 1000000' % n, 'mgets %d 1000000' % n, 'mget 0000%d 10001' % n, 'bop mget %d 1000000 0..5 5' % n, 'mop delete %s %d 1000000' % (k, n), 'mop get %s %d 1000000' % (k, n))
        return dict(c='bad', w='value', line=line, pad=n)
    def unit(self):
        x = self.r.random()
        if x < .12: return self.bad()
        if x < .15: return self.chunk(True)
        if x < .17: return self.large()
        if x < .19: return self.swallowed()
        if x < .26: return self.pipe()
        if x < .28: return self.big()
        while True:
            o = self.inner()
            c = o['c']
            if c in ('gets', 'mgets', 'sop get', 'bop smget', 'flush_prefix') or (c == 'mop get' and not o['fs']): continue
            if c in ('get', 'mget', 'lop get', 'mop get', 'bop get') or c in PIPEABLE or self.chance(.5): return o
    def big(self):
        o = dict(c='big', sc=self.pick('set', 'add', 'replace', 'append'), k=self.key(), len=1100000)
        if self.chance(.3): o['nr'] = 1
        return o
    def stream(self): return dict(c='stream', ops=[self.unit() for _ in range(self.r.choice([1, 2, 3, 5, 8, 15, 40]))])
    def cut(self): return dict(c='cut', mode=self.r.choice([0, 1, 2, 2, 3, 3]), seed=self.r.randrange(1 << 30))

# ------------------------------------------------------------------------------------------------ statistics
class Count(Pipe):
    """all commands with all outcomes, and the statistics read now and then (C21)"""
    keys = ['w1', 'p:w2', 'p:w3', 'q:w4', 'w5']
    weights = dict(inner=70, multi=6, attr=5, pipe=4, bad=3, big=.3, flush=.6, fpre=1.5, delete=2, create=3, touch=2, stats=2, dump=2.5, onoff=.5, reset=.4, tick=1, missing=6)
    def setup(self):
        Pipe.setup(self)
        self.share = [8, 5, 5, 5, 12]
        # a key of each type, and every key of any
        for g, k in zip(self.subs, self.keys): g.keys = [k, k, k, k, k] + self.keys
        self.multi_ = BtreeMulti(self.r); self.multi_.keys = self.keys; self.multi_.one = 'u'; self.multi_.fam = {k: 'u' for k in self.keys}; self.multi_.U = 6; self.multi_.spread = 1
        self.pos_ = BtreePos(self.r); self.pos_.keys = self.subs[-1].keys; self.pos_.fam = self.multi_.fam; self.pos_.U = 6; self.pos_.spread = 1
        self.attr_ = Attr(self.r); self.attr_.keys = self.keys
    def prefix_ops(self): return [dict(c='stats reset'), dict(c='stats'), dict(c='detail dump', ps=[]), dict(c='detail on')]
    def exp(self): return self.r.choice([0] * 9 + [2])
    def missing(self):
        o = self.inner()
        if 'k' in o: o['k'] = self.pick('no1', 'n:no2')
        return o
    def multi(self):
        if self.chance(.4): return self.pick(self.multi_.mget, self.multi_.smget)()
        return self.pick(self.pos_.pos, self.pos_.pwg, self.pos_.gbp)()
    def attr(self): return self.pick(self.attr_.getattr, self.attr_.setattr)()
    def flush(self): return dict(c='flush_all', d=0)
    def fpre(self): return dict(c='flush_prefix', p=self.pick('p', 'q', 'n', '<null>', 'nope'), d=0)
    def touch(self):
        o = dict(c='touch', k=self.key(), exp=self.pick(0, 5, 0, -1))
        if self.chance(.2): o['nr'] = 1
        return o
    def big(self): return dict(c='big', sc=self.pick('set', 'add', 'replace', 'append'), k=self.key(), len=1100000)
    def tick(self): return dict(c='clock', adv=1)
    def stats(self): return dict(c='stats')
    def dump(self): return dict(c='detail dump', ps=[] if self.chance(.7) else self.r.sample(['p', 'q', 'n', '<null>', 'nope'], self.pick(1, 2, 4)), alt=self.chance(.5))
    def onoff(self): return dict(c=self.pick('detail on', 'detail on', 'detail off'))
    def reset(self): return dict(c='stats reset')
    def bad(self):
        if self.chance(.7): return self.known_(self.pick(self.large, lambda: self.chunk(True))())
        w = self.r.choice(['format', 'nomatch', 'delta', 'count', 'usage'])
        return dict(c='bad', w=w, line=self.r.choice(BAD[w]))
    def known_(self, o):
        """say which command the refused data block belonged to"""
        p = o['line'].split(' ')
        two = p[0] in ('lop', 'sop', 'mop', 'bop')
        o['of'] = ' '.join(p[:2]) if two else p[0]; o['k'] = p[2] if two else p[1]
        return o
    def member(self, calm):
        o = Pipe.member(self, calm)
        return self.known_(o) if o['c'] == 'bad' and o['w'] in ('large', 'chunk') else o

class Account(Mixed):
    """items of all types come, grow, shrink, expire, are flushed and go; the accounts are read all the time (C20)"""
    keys = ['a1', 'a2', 'p:a3', 'p:a4', 'p:a5', 'q:a6', 'q:r:a7', 'q:r:s:a8']
    weights = dict(inner=70, acct=10, delete=5, create=4, touch=2, setexp=2, flush=.5, fpre=1.5, tick=3, sweep=.7, fill=.3, big=.3, look=3)
    def setup(self):
        Mixed.setup(self); self.queue = []; self.share = [6, 4, 4, 4, 6]
        for g in self.subs[1:]: g.mcs = [2, 5, 50, 0]
        self.fat = self.chance(.4)
        for g in self.subs:
            if self.fat and not isinstance(g, (Kv, Set)): g.val = lambda: 'y' * self.r.choice([0, 3, 50, 400, 3000, 9000])
    def exp(self): return self.r.choice([0] * 8 + [2, 5, -1])
    def delete(self): return dict(c='delete', k=self.key())
    def create(self): return self.r.choice(self.subs[1:]).create()
    def touch(self): return dict(c='touch', k=self.key(), exp=self.pick(0, 2, 5, -1))
    def setexp(self): return dict(c='setattr', k=self.key(), sets=[['expiretime', str(self.pick(0, 2, 5, -1))]])
    def look(self): return dict(c='getattr', k=self.key(), names=[])
    def big(self): return dict(c='big', sc=self.pick('set', 'add', 'replace', 'append'), k=self.key(), len=1100000)
    def flush(self): return dict(c='flush_all', d=self.pick(0, 0, 2))
    def fpre(self): return dict(c='flush_prefix', p=self.pick('p', 'q', '<null>'), d=0)
    def tick(self): return dict(c='clock', adv=self.pick(1, 1, 2, 7))
    def acct(self): return dict(c='acct', ks=self.keys)
    def fill(self):
        k = self.key(); n = self.pick(30, 200, 800)
        self.queue.append(dict(c='fill', ty=self.pick('list', 'set', 'map', 'b+tree'), k=k, cr=dict(fl='0', exp=0, mc=4000, ov='', rd=True), n=n, s=0, d=1, fam='u', fl=3, ord=self.r.randrange(1, 1 << 30)))
        return dict(c='delete', k=k)
    def sweep(self):
        """everything goes, one way or the other; then the accounts must be empty"""
        ks = list(self.keys); self.r.shuffle(ks)
        if self.chance(.5): self.queue += [dict(c='delete', k=k) for k in ks]
        else: self.queue += [dict(c='flush_all', d=0), dict(c='get', ks=ks)]
        self.queue.append(self.acct())
        return self.acct()
    def op(self):
        if self.queue: return self.queue.pop(0)
        return Gen.op(self)

class Scan(Mixed):
    """walks over keys and prefixes while keys of all types come and go, and a crowd makes the table grow (C22)"""
    keys = ['s1', 's2', 'st*r', 'que?y', 'b\\slash', '\\', 'aab', 'aabab', 'p:s3', 'p:aab', 'q:s4', 'q:*', 'arcus:x', 'x' * 40, 'r:1', 's:1', 't:1', 'bg:z', 'arcusx:1']
    weights = dict(inner=34, delete=10, create=5, setexp=2, tick=2, fpre=.8, scan=34, begin=14, crowd=.5, odd=1.5)
    sizes = [(0, 0), (3000, 300), (60000, 3000), (98000, 0), (110000, 5000), (190000, 2000)]
    def setup(self):
        Mixed.setup(self); self.open = {}; self.next = 0; self.share = [10, 4, 4, 4, 4]
        self.size = self.pick(*self.sizes)
    def prefix_ops(self): return [dict(c='crowd', bg=self.size[0], bp=self.size[1])]
    def crowd(self):
        # enough, now and then, to make the table grow with walks underway
        return dict(c='crowd', bg=self.pick(10, 500, 1500, 8000, 20000), bp=self.pick(0, 5, 200))
    def exp(self): return self.r.choice([0] * 8 + [3, 30, -1])
    def delete(self): return dict(c='delete', k=self.key())
    def create(self): return self.r.choice(self.subs[1:]).create()
    def setexp(self): return dict(c='touch', k=self.key(), exp=self.pick(0, 2, 5, -1))
    def tick(self): return dict(c='clock', adv=self.pick(1, 1, 2, 7))
    def fpre(self): return dict(c='flush_prefix', p=self.pick('p', 'q', 'r', 's'), d=0)
    def pattern(self):
        if self.chance(.35): return ''
        if self.chance(.45): return self.pick('*', 's*', '*s*', 's?', 'p:*', '?', '??', '*b', 'a*b', 'a*a*b*', '*a*b', '\\*', '\\\\*', '*\\**', '*\\?*', 'st\\*r', 'st*r', 'bg*', '*bp*', 'bg??????', 'bg?????', 'b\\\\slash', '\\\\', '*:k', '**', '*?', '?*?*?')
        k = self.key(); out = ''; stars = 0
        for ch in k:
            x = self.r.random()
            if ch.isdigit() and re.search(r'[*?]', out): ch = '?'      # (the crowd: all or none of it)
            if x < .08 and stars < 4: out += '*'; stars += 1
            elif x < .16: out += '?'
            elif x < .19: pass
            elif x < .22 and stars < 4: out += '*' + ch; stars += 1
            else: out += '\\' + ch if ch in '*?\\' and not (ch == '?' and k.isalnum()) and self.chance(.9) and ch != '*' or ch == '*' and stars >= 4 or ch == '\\' or (ch == '*' and self.chance(.7)) else ch
            stars = len(re.findall(r'\*', re.sub(r'\\.', '', out)))
        return out[:64]
    def begin(self):
        if len(self.open) > 3: return self.scan()
        self.next += 1
        kind = self.pick('key', 'key', 'prefix')
        n = self.pick(2000, 2000, 1500, 700, 500, 201, 250, 200, 100) if self.size[0] or kind == 'key' else self.pick(1, 5, 20, 100, 300, 2000)
        w = dict(c='scan', id='w%d' % self.next, kind=kind, pat=self.pattern(), ty=self.pick('A', 'A', 'A', 'K', 'L', 'S', 'M', 'B'), n=n, ks=self.keys if kind == 'prefix' else [])
        self.open[w['id']] = w
        return dict(w, start=True, hops=self.hops(w))
    def hops(self, w):
        if self.chance(.05) or len(self.open) > 3: return 100000     # to the end
        if self.chance(.3): return self.pick(2, 5, 20)
        return 1
    def scan(self):
        if not self.open: return self.begin()
        w = self.open[self.r.choice(sorted(self.open))]
        return dict(w, start=False, hops=self.hops(w), n=self.pick(20, 37, 999, w['n'], w['n'], w['n'], w['n']))
    def odd(self):
        if self.chance(.5):
            w = self.pick('cursor', 'scancount', 'scantype', 'format')
            line = {'cursor': ['scan key a', 'scan key -1', 'scan prefix x', 'scan key 99999999999', 'scan key 4000000000', 'scan prefix 1x'],
                    'scancount': ['scan key 0 count 0', 'scan key 0 count 2001', 'scan prefix 0 count x', 'scan prefix 0 count -1'],
                    'scantype': ['scan key 0 type X', 'scan key 0 type k', 'scan key 0 type KV'],
                    'format': ['scan key 0 type', 'scan key 0 foo 1', 'scan item 0', 'scan key 0 count 5 match', 'scan prefix 0 type K', 'scan key 0 match s* x']}[w]
            return dict(c='bad', w=w, line=self.pick(*line))
        self.next += 1
        o = dict(c='scan', id='o%d' % self.next, kind=self.pick('key', 'prefix'), pat='', ty='A', n=20, ks=[], start=True, hops=1, cur='0')
        x = self.r.random()
        if x < .2: o['cur'] = self.pick('0' * 32, '1' * 40)
        elif x < .4: o['n'] = self.pick(0, 2001, 4294967295)
        elif x < .5 and o['kind'] == 'key': o['ty'] = self.pick('X', 'k', 'AA')
        else: o['pat'] = self.pick('*****', '**a**b*', 'a\\', '\\a', '\\\\\\', 'y' * 65, '\\*\\*\\*\\*\\*\\', 'a\\bc')
        return o
    def feedback(self, o, raw):
        if o['c'] == 'scan' and o['id'] in self.open and ('err' in o['got'] or o['got']['cur'] == '0'): del self.open[o['id']]
        else: Mixed.feedback(self, o, raw)
    server = dict(mem=600)

# ------------------------------------------------------------------------------------------------ the binary protocol
QUIETABLE = {'set', 'add', 'replace', 'append', 'prepend', 'delete', 'incr', 'decr', 'get', 'getk', 'flush_all', 'lop insert', 'lop delete', 'sop insert', 'sop delete', 'bop insert', 'bop upsert', 'bop update'}
BINARY = QUIETABLE | {'cas', 'flush_prefix', 'lop create', 'sop create', 'bop create', 'lop get', 'sop exist', 'sop get', 'getattr', 'setattr', 'big', 'gets', 'mget', 'mgets'}

class Bin(Mixed):
    """the same data through both protocols (C17)"""
    keys = ['w1', 'w2', 'p:w3', 'q:w4']
    weights = dict(ascii=30, packets=70, stats=0, tick=1, recycle=2)
    group = [1, 1, 1, 2, 3, 6, 15, 40]
    odd = .012                  # share of packets that no command answers to
    def setup(self):
        Mixed.setup(self)
        self.share = [10, 5, 5, 1, 7]
        self.kv = self.subs[0]; self.tree = self.subs[-1]; self.tree.hexlen = self.pick(1, 2, 8, 31); self.tree.fam = {k: self.pick('u', 'u', 'x') for k in self.keys}
        for g, k in zip(self.subs, self.keys[:3] + ['w2', 'q:w4']): g.keys = [k] * 5 + self.keys
        self.attr_ = Attr(self.r); self.attr_.keys = self.keys; self.attr_.subs[-1].keys = self.keys; self.attr_.subs[-1].fam = self.tree.fam
    def exp(self): return self.r.choice([0] * 9 + [2, 3])
    def tick(self): return dict(c='clock', adv=1)
    def other(self):
        k = self.key()
        return self.pick(lambda: dict(c='delete', k=k), lambda: dict(c='getattr', k=k, names=[]), lambda: self.attr_.setattr(), lambda: self.r.choice([self.subs[1], self.subs[2], self.tree]).create(),
                         lambda: self.r.choices([dict(c='flush_all', d=0), dict(c='flush_prefix', p=self.pick('p', 'q', '<null>', 'nope'), d=0)], [1, 2])[0] if self.chance(.2) else dict(c='getattr', k=k, names=[]),
                         lambda: dict(c='big', sc=self.pick('set', 'add', 'replace', 'append', 'prepend'), k=k, len=1100000) if self.chance(.05) else self.attr_.setattr())()
    def recycle(self):
        # (refused for its data block, and nothing else happens)
        leftb = []
        while self.chance(.6) and len(leftb) < 8:
            q = self.packet()
            if q['o']['c'] in BINARY and q['o']['c'] not in ('delete', 'incr', 'decr', 'getattr'): leftb.append((q, self.r.choice([.3, .5, .7, .9, 1])))
        return dict(c='recycle', leftb=leftb, lines=['%s 1 create 9 100 %d %s unreadable\r\nxx\r\n' % (x, self.pick(1, 7), ov) for x, ov in
                                        [('lop insert nok 0', self.pick('head_trim', 'error')), ('bop insert nok 1', self.pick('largest_trim', 'error', 'smallest_silent_trim')), ('sop insert nok', 'error'), ('lop insert nok 0', 'error')]])
    def any(self): return self.other() if self.chance(.12) else self.inner()
    def ascii(self): return self.any()
    def oddity(self):
        x = self.r.random(); k = self.key()
        if x < .25: return dict(c=self.pick('noop', 'version'))
        if x < .45: return dict(c='unknown', op=self.pick(0x30, 0x31, 0x40, 0x77, 0x78, 0x79, 0xff, 0x1b), key=self.pick('', k), ext=self.pick(0, 4), len=self.pick(0, 3, 300))
        if x < .65: return dict(c='toolarge', op=self.pick('lop insert', 'sop insert', 'sop exist', 'sop delete', 'bop insert', 'bop upsert', 'bop update'), k=k, len=self.pick(16383, 20000, 100000))
        if x < .8:
            op = self.pick('bop insert', 'bop upsert', 'bop update', 'setattr')
            what = self.pick('bkey', 'eflag') if op != 'bop update' else self.pick('bkey', 'eflag', 'offset')
            return dict(c='badlength', op=op, what=what, k=k, n=self.pick(32, 33, 100, 254) if what != 'offset' else 1)
        if x < .85: return dict(c='quit')
        op, key, ext, n = self.r.choice([(0, '', 0, 0), (0, k, 4, 0), (0, k, 0, 3), (1, '', 8, 3), (1, k, 4, 3), (1, k, 0, 3), (4, k, 4, 0), (5, k, 16, 0), (5, k, 20, 1), (8, k, 0, 0), (8, '', 3, 0), (0xa, k, 0, 0),
                                        (0xb, '', 0, 1), (0x50, k, 12, 0), (0x51, k, 20, 0), (0x51, k, 16, 3), (0x53, k, 8, 0), (0x61, k, 16, 0), (0x62, k, 4, 0), (0x63, k, 0, 0), (0x64, k, 12, 0), (0x71, k, 80, 0), (0x71, k, 64, 3),
                                        (0x73, k, 71, 0), (0x4e, k, 4, 0), (0x4f, k, 40, 0), (0x4f, '', 44, 0), (0x90, '', 0, 0), (0x90, k, 3, 0), (9, '', 0, 0), (0x11, k, 4, 3), (7, k, 0, 0), (0x54, k, 20, 0)])
        return dict(c='malformed', op=op, key=key, ext=ext, len=n)
    def fits(self, o):
        """can the packet say it?"""
        c = o['c']
        if c not in BINARY or 'nr' in o: return False
        if c in ('set', 'add', 'replace', 'cas', 'incr', 'decr') and not 0 <= o.get('exp', 0) < 1 << 31: return False
        if c in ('incr', 'decr') and ('init' in o and (o['fl'] != '0' or not o['init'].isdigit() or int(o['init']) > BIG64) or not o['d'].isdigit() or int(o['d']) > BIG64): return False
        if c in ('lop insert', 'sop insert', 'bop insert', 'bop upsert') and 'cr' in o and (o['cr']['ov'] != '' or not o['cr']['rd']): return False
        if c in ('lop insert', 'sop insert', 'sop exist', 'sop delete', 'bop insert', 'bop upsert') and o['v'] == '': return False
        if c in ('bop insert', 'bop upsert') and o['getrim']: return False
        if c == 'getattr' and o['names']: return False
        if c == 'setattr':
            ns = [x[0] for x in o['sets']]
            if len(set(ns)) < len(ns): return False
            for n, v in o['sets']:
                if n not in ('expiretime', 'maxcount', 'overflowaction', 'readable', 'maxbkeyrange'): return False
                if n in ('expiretime', 'maxcount') and not re.fullmatch(r'-?\d+', v): return False
                if n == 'readable' and v != 'on' or n == 'overflowaction' and v not in OVFL['list'] + OVFL['b+tree']: return False
                if n == 'maxbkeyrange' and not (v.isdigit() or re.fullmatch(r'0x([0-9A-Fa-f]{2}){1,31}', v)): return False
        if c == 'sop get' and o['n'] > 1000: return False
        if c in ('get', 'gets', 'mget', 'mgets') and len(o['ks']) > 1: return False
        return True
    def packet(self):
        if self.chance(self.odd): return dict(o=self.oddity(), q=False, id='', seen='0')
        while True:
            o = dict(self.any()); o.pop('nr', None); o.pop('two', None)
            if not self.fits(o): continue
            c = o['c']; i = ''
            if c == 'cas': i = o.pop('id'); o['c'] = c = self.pick('set', 'set', 'add', 'replace')
            if i == '0': i = ''
            if c in ('gets', 'mget', 'mgets'): o['c'] = c = self.pick('get', 'getk')
            if c in ('delete', 'append', 'prepend') and self.chance(.35):
                s = self.kv.ids.get(o['k'], [])
                i = self.r.choice(s[-2:]) if s else '18446744073709551615'
            if c == 'sop get': o.pop('pick', None)
            return dict(o=o, q=c in QUIETABLE and self.chance(.3), id=i, seen='0')
    def packets(self):
        ps = []
        for _ in range(self.r.choice(self.group)):
            ps.append(self.packet())
            if ps[-1]['o']['c'] in ('malformed', 'quit'): break
        return dict(c='bin', ps=ps)
    def feedback(self, o, raw):
        if o['c'] == 'bin':
            for p in o['ps']:
                if p['seen'] != '0':
                    k = p['o']['k'] if 'k' in p['o'] else p['o']['ks'][0]
                    self.kv.ids.setdefault(k, []).append(p['seen'])
        else: Mixed.feedback(self, o, raw)

class BinAsan(Bin):
    """the same with every memory access checked"""
    server = dict(variant='asan')

class PipeAsan(Pipe):
    server = dict(variant='asan')
class StreamAsan(Stream):
    server = dict(Stream.server, variant='asan') if hasattr(Stream, 'server') else dict(variant='asan')

class CountBin(Bin):
    """both protocols, and the statistics read now and then (C21)"""
    weights = dict(ascii=30, packets=70, stats=6, dump=5, onoff=.5, reset=.4, tick=1)
    prefix_ops = Count.prefix_ops; stats = Count.stats; dump = Count.dump; onoff = Count.onoff; reset = Count.reset

class ScanAsan(Scan):
    sizes = [(0, 0), (60000, 3000), (110000, 2000)]
    server = dict(variant='asan', mem=600)

# ------------------------------------------------------------------------------------------------ short of memory
class Full(Mixed):
    """items of all types while numbered items fill the memory (C19)"""
    keys = ['v1', 'v2', 'v3', 'p:v4', 'p:v5', 'v6', 'v7', 'q:v8']
    weights = dict(inner=60, delete=4, create=5, setexp=2, tick=2, look=2, load=6, use=3, unload=1.5, getattr=4, long=.6, flush=.3, fpre=1, fill=1.2)
    MB = 32
    def setup(self):
        Mixed.setup(self); self.share = [8, 4, 4, 4, 4]; self.todo = []
        self.evict = self.chance(.6); self.size = self.pick(900, 3000, 9000, 20000, 60000, 200000)
        self.slimit = self.pick(0, 1, 1, 8)
        self.stuck = self.slimit == 1 and self.chance(.7)
        if self.stuck:
            # sticky collections, and two items that take almost all the room there is for sticky ones
            for g, ks in zip(self.subs, (['v1', 'v2', 'v3'], ['v3', 'v3', 'v2'], ['p:v4'] * 5 + ['v2'], ['p:v5'] * 5 + ['v2'], ['v6'] * 5 + ['v7'])): g.keys = ks
            self.share = [2, 4, 4, 4, 6]; self.stage = 0; self.sb = 0
        self.fat = self.chance(.7) and not self.stuck; self.fits = self.MB * 1000000 // self.size
        for g in self.subs[1:]: g.mcs = [2, 5, 50, 0]
        if self.fat:
            for g in self.subs:
                if not isinstance(g, Set): g.val = lambda: 'y' * self.r.choice([0, 3, 50, 400, 3000, 9000, 15000])
            self.subs[0].val = lambda: 'z' * self.r.choice([0, 3, 400, 3000, 9000, 30000])
        self.cfg = dict(evict=self.evict, large=self.size > 40000, limit=self.MB << 20, slimit=self.slimit << 20, size=self.size)
        self.server = dict(mem=self.MB, args=([] if self.evict else ['-M']), sticky=self.slimit or None)
    def prefix_ops(self):
        if self.stuck:
            self.todo = [dict(c='%s create' % n, k=k, cr=dict(fl='0', exp=-1, mc=50, ov='', rd=True)) for n, k in (('lop', 'v3'), ('sop', 'p:v4'), ('mop', 'p:v5'), ('bop', 'v6'))]
            for n, g in zip(('lop', 'sop', 'mop', 'bop'), self.subs[1:]):
                for _ in range(9):
                    o = g.op()
                    if 'insert' in o['c'] and not o.get('nr'): o.pop('cr', None); self.todo.append(o)
            self.todo += [dict(c='set', k='s1', fl='0', exp=-1, v='s' * 500000), dict(c='getattr', k='s1', names=[])]
        return [dict(c='load', n=int(self.fits * self.pick(0, .5, .9, 1.3)) + 1, size=self.size, exp=self.pick(0, 0, 0, 9))]
    def op(self):
        if self.todo: self.at = self.todo.pop(0); return self.at
        if self.stuck and self.at['c'] == 'getattr' and self.at['k'] == 's1' and 'sb' in self.at:
            # the room left is to be this small
            self.at = dict(c='set', k='s2', fl='0', exp=-1, v='s' * min(900000, max(0, (1 << 20) - self.at['sb'] - self.pick(60, 90, 100, 110, 130, 200, 400, 1500)))); return self.at
        if self.stuck and self.chance(.03): self.todo = [dict(c='delete', k='s2'), dict(c='getattr', k='s1', names=[])]
        o = self.at = Mixed.op(self)
        if o['c'] != 'delete': o.pop('nr', None)      # what became of it must show
        return o
    def fill(self):
        """a collection large enough to be taken away in several steps"""
        k = self.key()
        if not self.evict: return dict(c='getattr', k=k, names=[])
        self.todo = [dict(c='fill', ty=self.pick('list', 'set', 'map', 'b+tree'), k=k, cr=dict(fl='0', exp=0, mc=4000, ov='', rd=True), n=self.pick(90, 600, 1500), s=0, d=1, fam='u', fl=3, ord=self.r.randrange(1, 1 << 30)),
                     self.load(), self.load(), dict(c='getattr', k=k, names=[])]
        return dict(c='delete', k=k)
    def exp(self): return self.r.choice([-1, -1, 0] if self.stuck else [0] * 8 + [3, -1, -1])
    def delete(self): return dict(c='delete', k=self.key())
    def create(self): return self.r.choice(self.subs[1:]).create()
    def setexp(self): return dict(c='touch', k=self.key(), exp=self.pick(0, 2, 5, -1))
    def getattr(self): return dict(c='getattr', k=self.key(), names=[])
    def tick(self): return dict(c='clock', adv=self.pick(1, 2, 7))
    def long(self): return dict(c='clock', adv=self.pick(59, 61, 100))
    def load(self): return dict(c='load', n=max(1, int(self.fits * self.pick(.001, .01, .03, .1, .3))), size=self.size, exp=self.pick(0, 0, 0, 2, 9, 70))
    def flush(self): return dict(c='flush_all', d=0)
    def fpre(self): return dict(c='flush_prefix', p=self.pick('p', 'q', '<null>'), d=0)
    def use(self): return dict(c='use', n=self.pick(1, 5, 40, 200), old=self.chance(.5))
    def unload(self): return dict(c='unload', n=self.pick(1, 3, 20, 100))
    def look(self): return dict(c='look', ks=self.keys + (['s1', 's2'] if self.stuck else []))

# ------------------------------------------------------------------------------------------ scrubbing and dumping
class Tend(Mixed):
    """items of all types and hordes of small ones live and die, are scrubbed away and dumped (C27)"""
    keys = ['d1', 'd2', 'd3', 'p:d4', 'p:d5', 'q:d6', 'q:r:d7', 'pp:d8', 'arcus:d9', 'arcusx:d0', 'h:1', 'a-key-with-a-longer-name-' + 'x' * 60]
    weights = dict(inner=50, delete=5, create=5, setexp=3, tick=4, flush=.7, fpre=1.5, fill=.6, horde=2, hflush=.8, scrub=4, scrubs=2, dump=5, count=1, stop=.5)
    def setup(self):
        Mixed.setup(self); self.share = [10, 4, 4, 4, 4]; self.todo = []; self.hs = []; self.next = 0; self.scrubbing = self.dumping = False
        self.plain = self.chance(.35)           # (no hordes: the accounts are read after each scrub)
        for g in self.subs[1:]: g.mcs = [2, 5, 50, 0]
    def op(self):
        if self.todo: return self.todo.pop(0)
        # soon done with what is underway
        if self.scrubbing and self.chance(.12): self.scrubbing = False; return dict(c='scrub end')
        if self.dumping and self.chance(.12): self.dumping = False; return dict(c='dump end')
        if self.scrubbing and self.chance(.1): return dict(c='scrub start')
        o = Mixed.op(self)
        if self.scrubbing and o['c'] in ('scrub', 'flush_all', 'flush_prefix', 'hordeflush'): return self.op()
        if o['c'] == 'scrub start': self.scrubbing = True
        if o['c'] == 'dump start': self.dumping = True
        if o['c'] == 'scrub end': self.scrubbing = False
        if o['c'] == 'dump end': self.dumping = False
        return o
    def exp(self): return self.r.choice([0] * 6 + [1, 2, 5, 9, -1])
    def delete(self): return dict(c='delete', k=self.key())
    def create(self): return self.r.choice(self.subs[1:]).create()
    def setexp(self): return dict(c='touch', k=self.key(), exp=self.pick(0, 1, 2, 5, -1))
    def tick(self): return dict(c='clock', adv=self.pick(1, 1, 2, 7))
    def flush(self): return dict(c='flush_all', d=0)
    def fpre(self): return dict(c='flush_prefix', p=self.pick('p', 'q', 'pp', '<null>'), d=0)
    def fill(self):
        k = self.key()
        self.todo = [dict(c='fill', ty=self.pick('list', 'set', 'map', 'b+tree'), k=k, cr=dict(fl='0', exp=self.exp(), mc=4000, ov='', rd=True), n=self.pick(30, 600, 1500), s=0, d=1, fam='u', fl=3, ord=self.r.randrange(1, 1 << 30))]
        return dict(c='delete', k=k)
    def horde(self):
        if self.plain or len(self.hs) > 5 and self.chance(.7): return self.scrub()
        self.next += 1; g = 'h%d' % self.next; self.hs.append(g)
        return dict(c='horde', g=g, n=self.pick(1, 15, 16, 17, 63, 64, 65, 500, 5000, 30000, 60000), exp=self.pick(0, 0, 0, 1, 2, 3, 9))
    def hflush(self):
        if not self.hs or self.scrubbing: return self.tick()
        g = self.r.choice(self.hs); self.hs.remove(g)
        return dict(c='hordeflush', g=g)
    def count(self): return dict(c='scrub_count', n=self.pick(0, 0, 15, 16, 16, 17, 96, 319, 320, 320, 321, 100000))
    def scrub(self): return dict(c='scrub')
    def scrubs(self): return dict(c='scrub start')
    def where(self):
        return self.pick('<all>', '<all>', 'p', 'q', 'pp', '<null>', 'h', 'nope', 'q:r', *(self.hs + self.hs)[:6])
    def dump(self):
        if self.chance(.06): return dict(c='dump start', p='w' * self.pick(250, 251, 300), bad=False)
        o = dict(c='dump start', p=self.where(), bad=self.chance(.04))
        if self.chance(.4): self.todo = [dict(c='dump end')]
        elif self.chance(.1): self.todo = [dict(c='dump stop')]
        return o
    def stop(self): return dict(c='dump stop')

class TendAsan(Tend):
    server = dict(variant='asan', mem=600)

# ---------------------------------------------------------------------------------------------- authentication
class Login(Gen):
    """logins and attempts at them on several connections, and commands of all kinds before, between and after (C25)"""
    users = [['alice', 'wonder'], ['bob', 'builder'], ['al', 'x'], ['carol', 'p w d']]
    admin = ['flush_all', 'flush_prefix p', 'flush_prefix nope 3', 'config verbosity 0', 'config memlimit', 'config maxconns', 'config sticky_limit', 'config max_list_size', 'config hbtime', 'config chkpt_interval', 'dump start key all vpdump',
             'dump stop', 'cmdlog start vplog', 'cmdlog stop', 'cmdlog stats', 'lqdetect start 100', 'lqdetect stop', 'lqdetect stats', 'lqdetect show', 'scan key 0', 'scan key 0 count 5 match *', 'scan prefix 0', 'scrub', 'scrub stale']
    harmless = ['config verbosity', 'config memlimit', 'config maxconns', 'cmdlog stats', 'lqdetect stats', 'dump stop', 'scan key 0', 'scan prefix 0', 'scrub stale']
    weights = dict(login=14, work=60, reopen=4, mechs=3, bad=2, adm=6, raw=4, tells=2)
    protos = ['a', 'a', 'b', 'b', 'a', 'b']
    cfg = dict(users=users); recorder = trace.AuthRecorder
    server = dict(variant='sasl', users=users)
    def setup(self):
        self.inner = Bin(self.r); self.inner.keys = ks = ['w1', 'w2', 'p:w3', 'arcus:w4', 'arcus:w5', 'arcusx:w6']
        for g, k in zip(self.inner.subs, ['w1', 'w2', 'arcus:w4', 'p:w3', 'arcus:w5']): g.keys = [k] * 5 + ks
        self.inner.attr_.keys = ks; self.inner.attr_.subs[-1].keys = ks
        self.inner.group = [1, 1, 2, 5]
        self.ok = {}; self.busy = {}; self.pr = dict(enumerate(self.protos, 1))
    def prefix_ops(self): return [self.open(i) for i in self.pr]
    def open(self, i):
        self.ok[i] = False; self.busy[i] = None
        return dict(c='open', cn=i, pr=self.pr[i])
    def cn(self, pr=None, ok=None):
        l = [i for i in self.pr if (pr is None or self.pr[i] == pr) and (ok is None or self.ok[i] == ok)]
        return self.r.choice(l) if l else None
    def op(self):
        while True:
            o = Gen.op(self)
            if o is not None: return o
    def reopen(self): return self.open(self.cn())
    def mechs(self): return dict(c='mechs', cn=self.cn())
    def bad(self): return dict(c='badauth', cn=self.cn(), n=self.pick(33, 34, 35, 36, 37, 38, 60, 250))
    def tells(self):
        i = self.cn('a'); return i and dict(c='authstats', cn=i)
    def adm(self):
        i = self.cn('a'); return i and dict(c='admin', cn=i, line=self.r.choice(self.harmless if self.ok[i] else self.admin))
    def raw(self):
        i = self.cn('b', False)
        op = self.r.randrange(256)
        return i and op not in (0x20, 0x21, 0x22, 0x0b) and dict(c='raw', cn=i, op=op, key=self.pick('', 'w1', 'arcus:w4', 'VPONE'), ext=self.pick(0, 0, 4, 8, 20, 255), len=self.pick(0, 0, 1, 10)) or None
    def secret(self):
        u, p = self.r.choice(self.users)
        x = self.r.random()
        if x < .5: return u, p
        return self.pick((u, p[:-1]), (u, p + 'x'), (u, ''), (u, p.upper()), ('nobody', p), (u[:-1], p), (u + 'x', p), ('', p), ('', ''), (u, self.r.choice(self.users)[1]), (u, p * 30), (p, u))
    def login(self):
        i = self.cn(ok=False) if self.chance(.6) else None
        i = i or self.cn(); o = dict(c='auth', cn=i, m='', user='', split=False, **{'pass': ''})
        if self.busy[i] and self.chance(.75):
            # go on with it
            u, p = self.secret()
            if self.busy[i] == 'VPONE': o.update(split=self.chance(.9), user=u, **{'pass': p})
            elif self.busy[i] == 'VPTWO': o.update(user=u)
            else: o.update(user=dict(self.users).get(self.busy[i][1], 'x') if self.chance(.7) else p)
            if not o['split']: o['pass'] = ''
            return o
        if self.chance(.1): o.update(user=self.secret()[1]); return o
        o['m'] = self.pick('VPONE', 'VPONE', 'VPTWO', 'VPTWO', 'VPTWO', 'NOPE' if self.chance(.5) else 'PLAIN')
        if self.chance(.15): return o
        u, p = self.secret(); o['user'] = u
        if o['m'] == 'VPONE' and self.chance(.95): o.update(split=True, **{'pass': p})
        return o
    def work(self):
        i = self.cn(ok=True) if self.chance(.7) else None
        i = i or self.cn()
        ok = self.ok[i]
        if self.pr[i] == 'b':
            for _ in range(50):
                o = self.inner.packets()
                if ok: break
                if len(o['ps']) == 1: break
            else: return None
            o['ps'] = o['ps'] if ok else o['ps'][:1]
            free = o['ps'][0]['o']['c'] == 'version' and len(o['ps']) == 1
            o['guess'] = ok or free
        else:
            while True:
                o = dict(self.inner.any())
                if o['c'] not in ('clock', 'recycle') and (ok or o['c'] not in ('big', 'fill')): break
        o['cn'] = i
        return o
    def feedback(self, o, raw):
        c = o['c']; i = o.get('cn')
        if c == 'auth':
            self.ok[i] = raw in ('SASL_OK\r\n', 'OK\r\nAuthenticated\r\n') or self.ok[i] and self.pr[i] == 'a'
            more = 'CONTINUE' in raw
            if more: self.busy[i] = ['VPTWO', raw.split('prove ')[1].strip()] if 'prove' in raw else (o['m'] or self.busy[i])
            else: self.busy[i] = None
        elif c == 'mechs' and self.pr[i] == 'b': self.ok[i] = False
        elif raw.endswith('CLOSED\r\n'): self.ok[i] = False; self.busy[i] = None
        if c not in ('open', 'auth', 'mechs', 'badauth', 'admin', 'raw', 'authstats'): self.inner.feedback(o, raw)

class LoginBin(Login):
    """a server of the usual build, which speaks only the binary protocol then"""
    protos = ['b'] * 5
    server = dict(variant='std', users=Login.users)

class Watched(Mixed):
    """commands of all kinds while the command log and the detection of long queries come and go (C28)"""
    keys = ['w1', 'w2', 'p:w3', 'p:w4', 'a' * 130 + 'X' + 'b' * 130, 'a' * 130 + 'Y' + 'b' * 130, 'c' * 250, 'd' * 251]
    weights = dict(inner=100, delete=4, create=4, look=2, fill=.8, log=7, lq=7, parade=.12, lines=2)
    stormy = .6
    def start(self):
        # (the longest that is kept whole has 250 bytes)
        self.keys = self.keys[:6] + ['c' * self.pick(191, 192, 193, 249, 250), self.pick('d' * 251, 'd' * 250, 'd' * 192)]
    recorder = record.Recorder
    parts = [Kv, List, Set, Map, Btree, BtreePos]
    storms = ['plain', 'plain', 'plain', 'full', 'fifo', 'big']
    def setup(self):
        self.start(); Mixed.setup(self); self.queue = []; self.share = [3, 5, 5, 5, 6, 2]; self.on = False; self.at = self.r.randrange(20, 300) if self.chance(self.stormy) else -1
        self.subs[5].fam = self.subs[4].fam = {k: 'ux'[i % 2] for i, k in enumerate(self.keys)}
        for g in self.subs[1:]: g.mcs = [5, 50, 0]
    def delete(self): return dict(c='delete', k=self.key())
    def create(self): return self.r.choice(self.subs[1:]).create()
    def look(self): return dict(c='getattr', k=self.key(), names=[])
    def fill(self, ty=None, n=None):
        k = self.key(); n = n or self.pick(30, 60, 200)
        self.queue.append(dict(c='fill', ty=ty or self.pick('list', 'set', 'map', 'b+tree'), k=k, cr=dict(fl='0', exp=0, mc=4000, ov='', rd=True), n=n, s=0, d=1, fam='u', fl=3, ord=self.r.randrange(1, 1 << 30)))
        return dict(c='delete', k=k)
    def lines(self):
        """lines of about the length at which the log cuts them"""
        n = self.r.randrange(355, 385) if self.chance(.8) else self.pick(400, 415, 800)
        ks = ['w1']
        while n - len('get ' + ' '.join(ks)) > 1: ks.append('k' * min(200, n - len('get ' + ' '.join(ks)) - 1))
        return dict(c='get', ks=ks)
    def log(self):
        x = self.r.random()
        if x < .3: return dict(c='cmdlog stats')
        if x < .38: return dict(c='cmdlog start', w='bad')
        if x < .44: return dict(c='cmdlog start', w='long', len=self.pick(128, 129, 200))
        if x < .75 if not self.on else x < .5: return dict(c='cmdlog start', w='good', dir=self.pick('', ' vplog'))
        return dict(c='cmdlog stop')
    def lq(self):
        x = self.r.random()
        if x < .3: return dict(c='lqdetect show')
        if x < .55: return dict(c='lqdetect stats')
        if x < .85: return dict(c='lqdetect start', n=self.pick(0, 1, 1, 1, 2, 2, 3, 4, 6, 20, 100), zero=self.chance(.5))
        return dict(c='lqdetect stop')
    def storm(self):
        m = self.pick(*self.storms)
        n = self.pick(2, 4, 8)
        if m == 'big': s = dict(n=8, lines=6000)
        elif m == 'fifo': s = dict(n=8, lines=4500)
        elif m == 'over': s = dict(n=8, lines=45000)
        else: s = dict(n=n, lines=self.pick(30, 300, 2000))
        self.queue = [dict(c='logstorm', mode=m, seed=self.r.randrange(1 << 30), **s)] + ([dict(c='cmdlog stats')] if self.chance(.7) else []) + self.queue
        return dict(c='cmdlog stop')
    def parade(self):
        """more of every kind than the samples hold"""
        lk, sk, mk, bk = ks = self.r.sample(self.keys, 4); q = []
        for k, ty in zip(ks, ('list', 'set', 'map', 'b+tree')):
            q += [dict(c='delete', k=k), dict(c='fill', ty=ty, k=k, cr=dict(fl='0', exp=0, mc=4000, ov='', rd=True), n=600, s=0, d=1, fam='u', fl=3, ord=self.r.randrange(1, 1 << 30))]
        m = self.pick(19, 20, 22); body = []
        for _ in range(2): body += [dict(c='sop get', k=sk, n=0, **{'del': ''}), dict(c='mop get', k=mk, fs=[], **{'del': ''})]
        for i in range(m):
            f = ['f%d' % self.r.randrange(600) for _ in range(i + 1)]; f = list(dict.fromkeys(f + ['f%d' % (600 - j) for j in range(1, 30)]))[:i + 1]
            a = self.r.randrange(300)
            body += [dict(c='lop insert', k=lk, i=i, v='z'), dict(c='lop delete', k=lk, f=i, t=i + 1, drop=False), dict(c='lop get', k=lk, f=i, t=i + self.r.randrange(9), **{'del': ''}),
                     dict(c='sop get', k=sk, n=i + 1, **{'del': ''}), dict(c='mop get', k=mk, fs=f, **{'del': ''}), dict(c='mop delete', k=mk, fs=f, drop=False),
                     dict(c='bop get', k=bk, f=str(a), t=str(a + 9), off=0, n=i + 1, **{'del': ''}), dict(c='bop count', k=bk, f='0', t=str(i + 50)),
                     dict(c='bop delete', k=bk, f=str(2 * i), t=str(2 * i + 1), n=1, drop=False), dict(c='bop gbp', k=bk, ord=self.pick('asc', 'desc'), pf=i, pt=i + 3)]
        self.r.shuffle(body)
        for _ in range(6): body.insert(self.r.randrange(len(body)), dict(c=self.pick('lqdetect show', 'lqdetect stats')))
        self.queue = q + [dict(c='lqdetect stop'), dict(c='lqdetect start', n=1, zero=False)] + body + [dict(c='lqdetect stats'), dict(c='lqdetect show')] + self.queue
        return dict(c='lqdetect show')
    def op(self):
        while True:
            self.at -= 1
            o = self.storm() if self.at == 0 else self.queue.pop(0) if self.queue else Gen.op(self)
            if o['c'] in ('lop get', 'lop delete', 'lop insert'):
                for x in ('f', 't', 'i'):
                    if x in o: o[x] = max(-100000, min(100000, o[x]))
            if o['c'] in ('bop mget', 'bop smget', 'big', 'clock'): continue
            return o
    def feedback(self, o, raw):
        if o['c'] == 'cmdlog start' and 'logging started' in raw: self.on = True
        if o['c'] == 'cmdlog stop': self.on = False
        Mixed.feedback(self, o, raw)
class WatchedOver(Watched):
    """... until the files of the log are all full"""
    storms = ['over', 'over', 'big', 'fifo']; stormy = 1
