"""Commands as JSON objects <-> the ASCII protocol.  The objects are the operations of spec/Arcus.tla."""
import random, re, time

def L(s): return s.encode('latin1')

def _create(o):
    """create attributes: cr = [fl, exp, mc, ov, rd]"""
    c = o['cr']
    t = '%s %d %d' % (c['fl'], c['exp'], c['mc'])
    if c['ov'] != '': t += ' ' + c['ov']
    if not c['rd']: t += ' unreadable'
    return t

def _end(o):
    if 'nr' in o: return ' noreply\r\n'
    if 'pipe' in o: return ' pipe\r\n'
    return '\r\n'

def _flt(o):
    if 'flt' not in o: return ''
    f = o['flt']
    s = ' %d' % f['o']
    if f['bop']: s += ' %s %s' % (f['bop'], f['bv'])
    return s + ' %s %s' % (f['cmp'], ','.join(f['vs']))

def _rng(o): return o['f'] if o['t'] == '' else o['f'] + '..' + o['t']

def _lrng(o): return str(o['f']) if o['f'] == o['t'] and not o.get('two') else '%d..%d' % (o['f'], o['t'])

def _keys(ks): return ' '.join(ks)

def fill_ops(o):
    """the commands behind a fill: create, then the insertions (lists in order, others shuffled as o['ord'] says)"""
    ty = o['ty']; short = {'list': 'lop', 'set': 'sop', 'map': 'mop', 'b+tree': 'bop'}[ty]
    out = [dict(c=short + ' create', k=o['k'], cr=o['cr'])]
    xs = [o['s'] + i * o['d'] for i in range(o['n'])]
    if ty != 'list':
        if o['ord'] == -1: xs.reverse()
        elif o['ord'] > 0: random.Random(o['ord']).shuffle(xs)
    for x in xs:
        if ty == 'list': out.append(dict(c='lop insert', k=o['k'], i=-1, v='v%d' % x))
        elif ty == 'set': out.append(dict(c='sop insert', k=o['k'], v='m%d' % x))
        elif ty == 'map': out.append(dict(c='mop insert', k=o['k'], f='f%d' % x, v='v%d' % x))
        else: out.append(dict(c='bop insert', k=o['k'], b=str(x) if o['fam'] == 'u' else '0x%08X' % x, ef='' if o['fl'] == 0 else '0x%02X' % (x % o['fl']), v='v%d' % x))
    return out
def filled(o, raw):
    return 'FILLED\r\n' if raw == 'CREATED\r\n' + 'STORED\r\n' * o['n'] else raw

def encode(o):
    c = o['c']; e = _end(o)
    v = o.get('v'); n = len(v) if v is not None else 0
    if c in ('set', 'add', 'replace', 'append', 'prepend'):
        return L('%s %s %s %d %d%s%s\r\n' % (c, o['k'], o['fl'], o['exp'], n, e, v))
    if c == 'cas':
        return L('cas %s %s %d %d %s%s%s\r\n' % (o['k'], o['fl'], o['exp'], n, o['id'], e, v))
    if c == 'big':
        return L('%s %s 0 0 %d%s%s\r\n' % (o['sc'], o['k'], o['len'], e, 'x' * o['len']))
    if c in ('get', 'gets'):
        return L('%s %s\r\n' % (c, _keys(o['ks'])))
    if c in ('mget', 'mgets'):
        t = _keys(o['ks'])
        return L('%s %d %d\r\n%s\r\n' % (c, len(t), len(o['ks']), t))
    if c in ('incr', 'decr'):
        t = '%s %s %s' % (c, o['k'], o['d'])
        if 'init' in o: t += ' %s %d %s' % (o['fl'], o['exp'], o['init'])
        return L(t + e)
    if c == 'delete': return L('delete %s%s' % (o['k'], e))
    if c == 'touch': return L('touch %s %d%s' % (o['k'], o['exp'], e))
    if c == 'flush_all': return L('flush_all%s%s' % (' %d' % o['d'] if o['d'] or o.get('dd') else '', e))
    if c == 'flush_prefix': return L('flush_prefix %s%s%s' % (o['p'], ' %d' % o['d'] if o['d'] else '', e))
    if c in ('lop create', 'sop create', 'mop create', 'bop create'):
        return L('%s %s %s%s' % (c, o['k'], _create(o), e))
    cr = ' create ' + _create(o) if 'cr' in o else ''
    if c == 'lop insert': return L('lop insert %s %d %d%s%s%s\r\n' % (o['k'], o['i'], n, cr, e, v))
    if c == 'lop delete': return L('lop delete %s %s%s%s' % (o['k'], _lrng(o), ' drop' if o['drop'] else '', e))
    if c == 'lop get': return L('lop get %s %s%s\r\n' % (o['k'], _lrng(o), ' ' + o['del'] if o['del'] else ''))
    if c == 'sop insert': return L('sop insert %s %d%s%s%s\r\n' % (o['k'], n, cr, e, v))
    if c == 'sop delete': return L('sop delete %s %d%s%s%s\r\n' % (o['k'], n, ' drop' if o['drop'] else '', e, v))
    if c == 'sop exist': return L('sop exist %s %d%s%s\r\n' % (o['k'], n, e, v))
    if c == 'sop get': return L('sop get %s %d%s\r\n' % (o['k'], o['n'], ' ' + o['del'] if o['del'] else ''))
    if c in ('mop insert', 'mop upsert'): return L('%s %s %s %d%s%s%s\r\n' % (c, o['k'], o['f'], n, cr, e, v))
    if c == 'mop update': return L('mop update %s %s %d%s%s\r\n' % (o['k'], o['f'], n, e, v))
    if c == 'mop delete':
        if not o['fs']: return L('mop delete %s 0 0%s%s' % (o['k'], ' drop' if o['drop'] else '', e))
        t = ' '.join(o['fs'])
        return L('mop delete %s %d %d%s%s%s\r\n' % (o['k'], len(t), len(o['fs']), ' drop' if o['drop'] else '', e, t))
    if c == 'mop get':
        d = ' ' + o['del'] if o['del'] else ''
        if not o['fs']: return L('mop get %s 0 0%s\r\n' % (o['k'], d))
        t = ' '.join(o['fs'])
        return L('mop get %s %d %d%s\r\n%s\r\n' % (o['k'], len(t), len(o['fs']), d, t))
    if c in ('bop insert', 'bop upsert'):
        ef = ' ' + o['ef'] if o['ef'] else ''
        tail = ' getrim\r\n' if o.get('getrim') else e
        return L('%s %s %s%s %d%s%s%s\r\n' % (c, o['k'], o['b'], ef, n, cr, tail, v))
    if c == 'bop update':
        t = 'bop update %s %s' % (o['k'], o['b'])
        if 'up' in o:
            u = o['up']
            if u['op']: t += ' %d %s' % (u['off'], u['op'])
            t += ' ' + u['val']
        if v is None: return L('%s -1%s' % (t, e))
        return L('%s %d%s%s\r\n' % (t, n, e, v))
    if c == 'bop delete':
        return L('bop delete %s %s%s%s%s%s' % (o['k'], _rng(o), _flt(o), ' %d' % o['n'] if o['n'] else '', ' drop' if o['drop'] else '', e))
    if c == 'bop get':
        t = 'bop get %s %s%s' % (o['k'], _rng(o), _flt(o))
        if o['off']: t += ' %d' % o['off']
        if o['off'] or o['n']: t += ' %d' % o['n']
        if o['del']: t += ' ' + o['del']
        return L(t + '\r\n')
    if c == 'bop count': return L('bop count %s %s%s\r\n' % (o['k'], _rng(o), _flt(o)))
    if c in ('bop incr', 'bop decr'):
        t = '%s %s %s %s' % (c, o['k'], o['b'], o['d'])
        if 'init' in o:
            t += ' ' + o['init']
            if o['ef']: t += ' ' + o['ef']
        return L(t + e)
    if c == 'bop position': return L('bop position %s %s %s\r\n' % (o['k'], o['b'], o['ord']))
    if c == 'bop pwg': return L('bop pwg %s %s %s%s\r\n' % (o['k'], o['b'], o['ord'], ' %d' % o['n'] if o['n'] else ''))
    if c == 'bop gbp': return L('bop gbp %s %s %s\r\n' % (o['k'], o['ord'], str(o['pf']) if o['pf'] == o['pt'] else '%d..%d' % (o['pf'], o['pt'])))
    if c in ('bop mget', 'bop smget'):
        t = ' '.join(o['ks'])
        s = '%s %d %d %s%s' % (c, len(t), len(o['ks']), _rng(o), _flt(o))
        if 'offs' in o: s += ' ' + o['offs']            # an offset beyond 31 bits, always too large
        elif o['off']: s += ' %d' % o['off']
        s += ' %d' % o['n']
        if c == 'bop smget' and o['mode'] != 'old': s += ' ' + o['mode']
        return L('%s\r\n%s\r\n' % (s, t))
    if c == 'getattr': return L('getattr %s%s\r\n' % (o['k'], ''.join(' ' + x for x in o['names'])))
    if c == 'setattr': return L('setattr %s%s\r\n' % (o['k'], ''.join(' %s=%s' % tuple(x) for x in o['sets'])))
    if c == 'fill': return b''.join(encode(x) for x in fill_ops(o))
    if c == 'config': return L('config max_%s_size %d\r\n' % (o['t'], o['n']))
    if c == 'bad':
        t = o['line'] + e
        if 'data' in o: t += o['data']
        if 'pad' in o: t += 'x' * o['pad'] + '\r\n'
        return L(t)
    if c == 'pipe':
        ops = o['ops']
        if 'rep' in o: ops = [ops[i % len(ops)] for i in range(o['rep'])]
        return b''.join(encode(dict(x, pipe=1)) for x in ops[:-1]) + encode(ops[-1])
    if c == 'stream': return b''.join(encode(x) for x in o['ops'])
    if c in ('stats', 'stats reset'): return L(c + '\r\n')
    if c == 'acct': return L('get %s\r\n' % ' '.join(o['ks'])) + b'stats\r\nstats prefixes\r\nstats prefixlist item\r\n'
    if c == 'detail dump' and o['ps']: return L('stats prefixlist operation %s\r\n' % ' '.join(o['ps']))
    if c == 'detail dump' and o.get('alt'): return L('stats prefixlist operation\r\n')
    if c.startswith('detail '): return L('stats ' + c + '\r\n')
    raise ValueError('cannot encode ' + repr(o))

# ---------------------------------------------------------------- hints taken from the reply
def _elems(raw, skip_field):
    """values (or map fields) of a VALUE reply, in order"""
    i = raw.find('\r\n') + 2
    head = raw[:i - 2].split(' ')
    if not head or head[0] != 'VALUE' or len(head) != 3: return []
    out = []
    for _ in range(int(head[2])):
        f = ''
        if skip_field:
            j = raw.find(' ', i); f = raw[i:j]; i = j + 1
        j = raw.find(' ', i)
        if j < 0: return out
        try: n = int(raw[i:j])
        except ValueError: return out
        v = raw[j + 1:j + 1 + n]
        i = j + 1 + n + 2
        out.append(f if skip_field else v)
    return out

def counters(raw):
    """the command counters of a "stats" reply"""
    out = {}
    for l in raw.split('\r\n'):
        m = re.match(r'STAT (cmd_\w+|\w+_(?:hits|misses|oks|badval)) (\d+)$', l)
        if m and m.group(1) != 'cmd_auth': out[m.group(1)] = int(m.group(2))
    return out

def details(raw):
    """prefix -> field -> number, from "stats detail dump" """
    out = {}
    for l in raw.split('\r\n'):
        p = l.split(' ')
        if p[0] == 'PREFIX': out[p[1]] = {p[i]: int(p[i + 1]) for i in range(2, len(p) - 1, 2)}
    return out

def contents(raw):
    """what "stats", "stats prefixes" and "stats prefixlist item" say about the contents"""
    st = dict(re.findall(r'STAT (\w+) (\S+)\r\n', raw))
    parts = raw[raw.rindex('STAT pid '):].split('END\r\n')
    def table(t):
        p = {}
        for l in t.split('\r\n'):
            w = l.split(' ')
            if w[0] == 'PREFIX': p[w[1]] = {w[i]: int(w[i + 1]) for i in range(2, len(w) - 1, 2) if w[i] != 'time'}
        return p
    p = table(parts[1])
    return dict(items=int(st['curr_items']), bytes=int(st['bytes']), sticky=int(st['sticky_items']), stickybytes=int(st['sticky_bytes']),
                prefixes=int(st['curr_prefixes']), p=p, agree=p == table(parts[2]))

CROWD = {'key': re.compile(r'(?:(bg)(\d{6})|(bp)(\d{6}):k)$'), 'prefix': re.compile(r'(bp)(\d{6})$')}
def scanned(o, raw, w, many):
    """add what one scan reply lists to o.got; False when it was refused"""
    g = o['got']; ls = raw.split('\r\n')
    head = re.match(r'(KEYS|PREFIXES) (\d+) (\d+)$', ls[0])
    if not head:
        o['got'] = dict(err='\n'.join(ls[:-1])); return False
    if head.group(1) != ('KEYS' if o['kind'] == 'key' else 'PREFIXES'): g['odd'].append('head ' + ls[0])
    if ls[-2:] != ['END', '']: g['odd'].append('no END')
    g['n'] += int(head.group(2)); g['cur'] = head.group(3)
    once = set()
    for l in ls[1:-2]:
        f = l.split(' ')
        if len(f) != (3 if o['kind'] == 'key' else 4): g['odd'].append('line ' + l); continue
        m = CROWD[o['kind']].match(f[0])
        if not m:
            if o['kind'] == 'key': g['list'].append(dict(k=f[0], t=f[1], e=f[2]))
            else:
                try: at = int(time.mktime(time.strptime(f[3], '%Y%m%d%H%M%S')))
                except (ValueError, OverflowError): at = 0; g['odd'].append('time ' + l)
                g['list'].append(dict(k=f[0], n=int(f[1]), b=int(f[2]), at=at))
            continue
        t, i = [x for x in m.groups() if x]; i = int(i)
        g['more'] += 1
        if f[0] in once: g['odd'].append('twice in one reply: ' + l)
        once.add(f[0])
        if i >= many[t]: g['odd'].append('never was: ' + l)
        if f[1:] != ['K', '0'] if o['kind'] == 'key' else f[1] != '1' or not 10 <= int(f[2]) <= 200: g['odd'].append('crowd: ' + l)
        if i < w['base'][t] and i not in w['seen'][t]:
            w['seen'][t].add(i); g[t] += 1
    return True

def hints(o, raw):
    """fill in what only the server decides"""
    c = o['c']
    if c == 'sop get': o['pick'] = _elems(raw, False)
    elif c == 'mop get' and not o['fs']: o['pick'] = _elems(raw, True)
    elif c in ('gets', 'mgets'):
        ids = []; i = 0
        while raw.startswith('VALUE ', i):
            j = raw.find('\r\n', i); p = raw[i:j].split(' ')
            if len(p) != 5: break
            ids.append(p[4]); i = j + 2 + int(p[3]) + 2
        o['cas'] = ids
    elif c == 'flush_prefix': o['gone'] = raw.startswith('NOT_FOUND')
    elif c == 'bop smget':
        o['ptrim'] = []
        m = re.search(r'(?:^|\r\n)TRIMMED_KEYS (\d+)\r\n', raw)
        if m:
            o['ptrim'] = [x.split(' ')[0] for x in raw[m.end():].split('\r\n')[:int(m.group(1))]]
    return o

READINGS = {'stats': counters, 'detail dump': details, 'acct': contents}
