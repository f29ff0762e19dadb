"""C05-C09: Receiver.tla, Syntax.tla"""
import base64, hashlib, itertools
from vlib import *


def models(c):
    if c.prop in ('C05', 'C06'):
        c.model('MCSyntax.tla', c.pick('MCSyntax_quick.cfg', 'MCSyntax.cfg'))
    c.model('MCReceiver.tla', *c.pick(['MCReceiver_quick.cfg', 'MCReceiver_live.cfg'], ['MCReceiver.cfg', 'MCReceiver3.cfg', 'MCReceiver_live2.cfg']))


MODES = ['nul', 'lf', 'rfc']
READERR = ['op', 'plain', 'timeout', 'temp', 'closed', 'uneof']


def b64(b): return base64.b64encode(b).decode()
def o(op, **k): return dict(Op=op, **k)
def accept(c, **k): return o('accept', C=c, **k)
def feed(c, n=-1, **k): return o('feed', C=c, N=n, **k)
def eof(c, how='eof', n=0, **k): return o('eof', C=c, How=how, N=n, **k)
QUIET, REND = o('quiet'), o('rend')


def frame(mode, m):
    return m + b'\0' if mode == 'nul' else m + b'\n' if mode == 'lf' else b'%d ' % len(m) + m


def sentinel_msg(k): return b'<13>1 - s s s %d -' % (k + 1)


# messages of all shapes; %d is replaced by a number that makes them different
GOOD = [
    b'<13>1 - h a p %d -',
    b'<13>1 - h a p %d - text',
    b'<13>1 2024-02-29T13:14:15.123456Z host app pid %d - text with spaces ] and [ "',
    b'<0>1 x h a p %d [id]',
    b'<191>1 x h a p %d [id] text',
    b'<13>1 - h a p %d [id@1 a="v"]',
    b'<13>1 - h a p %d [id@1 a="v \\" \\\\ \\] [x y"][b][c x="" y=" "]',
    b'<13>1 - h a p %d [id@1 a="v"] tail ]"',
    b'<13>1 - h a p %d - ',
    b'<13>1 - h a p %d [id] ',
    b'<13>1 - h a p %d - \xff\xfe\x01 b',
    b'<13>1 - h a p %d - - -',
    b'<13>1 - h a p %d - [x] [y]',
    b'<13>1 - h a p %d [x] - [y]',
    b'<13>1 - h a p %d [x a="]"]'.replace(b'"]"', b'"\\]"'),
    b'<13>1 - h a p %d - text\r',
    b'<13>1 - h a p %d - \xef\xbb\xbftext\xef\xbb\xbf',
    b'<13>1 - h a p %d - a\r\nb\r\n',
    b'<13>1 - h a p %d -  \t text \t ',
    b'<13>1 - h a p %d - \0text\0',
    b'<13>1 - h a p %d [x a="\n\0\r"] \n\n',
]
# sequences of bytes that something may want to cut or to skip
EDGES = [b'\xef\xbb\xbf', b'\xff\xfe', b'\xfe\xff', b'\r\n', b'\n\r', b'\n\n', b'\0\0', b'\\n', b'\\0', b'#012', b'#000', b'\xc2\x85', b'\xc2\xa0', b'\xe2\x80\xa8', b'\xe3\x80\x80', b'\xe2\x80\x8b',
         b'  ', b' \t', b'\x1b[0m', b'%s', b'%00', b'""', b'\\"', b'[x]', b'- ', b' -', b'--', b'<13>1 ', b'12 ', b'@cee:', b'\x04', b'\x1a']
# what may be taken for something else
WORDS = [b'0', b'nil', b'null', b'<nil>', b'none', b'localhost', b'127.0.0.1', b'::1', b'a.b.', b'.', b'/', b'a/', b'/a', b'%41', b'%%', b'@', b'[', b'x@32473', b'"a"', b'=', b'\\', b'A', b'Host.EXAMPLE', b'-1', b'--a', b'a-',
         b'\xef\xbb\xbfa', b'a ', b' a', b'a\0', b'\xc2\xa0a', b'root', b'kernel:', b'a[12]', b'a,b', b"'a'"]
BAD = [
    b'', b' ', b'x', b'-', b'[', b'<13>1', b'<13>1 - h a p %d', b'<13>1 - h a p %d ', b'<13>1  h a p %d -',
    b' <13>1 - h a p %d -', b'<13>1 - h a p %d x', b'<13>1 - h a p %d -x', b'<13>1 - h a p %d [id', b'<13>1 - h a p %d []',
    b'<13>1 - h a p %d [id a="b]', b'<13>1 - h a p %d [id a=b]', b'<13>1 - h a p %d [id a="b"]x', b'<13>1 - h a p %d [id]- x',
    b'<13>1 - h a p %d [id a="]"]', b'<13>1 - h a p %d [id ]', b'<13>1 - h a p %d ]', b'<13>1 - h a p %d [[', b'\xff' * 9,
    b'<13>1 - h a p %d [a][', b'<13>1 - h a p %d [a="\\', b'      ', b'<13>1 - h a p %d [a]x',
]
# RFC 5425 headers after which nothing can be delimited
LOST = [b'x ', b'-5 ', b'1x ', b' 5', b'99999999999999999999 a', b'18446744073709551621 <1', b'9223372036854775808 a', b'1.0 a',
        b'123456789012345678901234', b'<13>1 - h a p m - ', b'\n12 a', b'0x1f ', b'4294967296x ', b'-9223372036854775808 ', b'\x00 ',
        b'\r\n12 a', b'\t5 abcde', b'\x0012 a', b'\xef\xbb\xbf5 abcde', b'1_0 abcdefghij', b'1e1 abcdefghij', b'1,0 a', b'5\tabcde ', b'5\nabcde ', b'\xd9\xa1 a', b'5: abcde', b'[5] abcde', b'#5 abcde', b'  5 abcde',
        b'-1 ', b'-', b'12345x', b'99999999999999999999999999999999999']


def num(m, k): return m.replace(b'%d', b'%d' % k)


def clean(m, mode):
    """the terminator can't be part of a message"""
    return m.replace(b'\0', b'~') if mode == 'nul' else m.replace(b'\n', b'~') if mode == 'lf' else m


_n = [0]


def uniq():
    _n[0] += 1
    return _n[0] % 1000


def good(rnd, mode, simple=False):
    return clean(num(rnd.choice(GOOD[:5] if simple else GOOD), uniq()), mode)


def bad(rnd, mode): return clean(num(rnd.choice(BAD), uniq()), mode)


def mk(sid, mode, conns, ops, queue=0, receivers=1, slow=0, late=False, reader='drain', h=False, items=None):
    """connection 1 is the one of the sentinels"""
    s = {'ID': sid, 'Mode': mode, 'Conns': [''] + [b64(c) for c in conns], 'Ops': [accept(1)] + ops, 'Queue': queue,
         'Receivers': receivers, 'Slow': slow, 'Late': late, 'ErrReader': reader, 'Hash': h}
    if items is not None:
        s['items'] = items
    return s


def prep(r, scn):
    r['net'] = scn.get('Net', '')
    if r['net']:
        if r.get('unavailable'):
            return dict(r, t='nul', r=1, large=False, items=[], streams=[], net='unixgram')
        end = next((i for i, e in enumerate(r['ev']) if e['e'] in ('recvend', 'quiet')), None)
        if end is not None:
            conns = [e['c'] for e in r['ev'][:end] if e['e'] == 'accept']
            if r['net'] == 'unixgram':
                conns = conns[:-1]
            r['ev'][end:end] = [{'e': 'close', 'c': k} for k in conns]
        end = next((i for i, e in enumerate(r['ev']) if e['e'] == 'rendcall'), None)
        if end is not None:
            r['ev'].insert(end + 1, {'e': 'lclose'})
    ev = r['ev']
    read = {e['k'] for e in ev if e['e'] == 'rerr'}
    fails = []
    for i, e in enumerate(ev):
        if e['e'] == 'afail':
            j = next((j for j in range(i + 1, len(ev)) if ev[j]['e'] == 'acall'), len(ev))
            fails.append((i, j, e))
            e['sure'] = not any(x['e'] == 'rendcall' for x in ev[:j])
        elif e['e'] == 'rfail':
            j = next((j for j in range(i + 1, len(ev)) if ev[j]['e'] == 'close' and ev[j]['c'] == e['c']), len(ev))
            fails.append((i, j, e))
    for i, j, e in fails:
        e['p'] = e['k'] in read
        e['w'] = sum(1 for a, b, x in fails if x is not e and a < j and i < b)
    if r['large']:
        items = [[dict(x) for x in l] for l in scn['items']]
        end, first = 0, []
        for k in range(r['sentinels']):
            m = sentinel_msg(k)
            end += len(frame(scn['Mode'], m))
            first.append({'end': end, 'may': end, 'kind': 'msg', 'tail': False, 'd': hashlib.sha1(m).hexdigest()})
        r['items'] = items if r['net'] else [first] + items
        r['streams'] = []
    else:
        r['items'] = []
    return r


def hello(k): return b'<13>1 - s s h c%d -' % k


def until(c, msg, mode): return o('until', C=c, N=len(frame(mode, msg)), Text=b64(msg))


def sep(mode, sizes):
    """the messages of a large stream"""
    return [fill(mode, 1 + i, n) for i, n in enumerate(sizes)]


def real(sid, net, mode, conns, par, after=(), items=None, **kw):
    """real connections: conns are what is sent after a first message, par the operations of each, at the same time"""
    d = mk(sid, mode, [], [], **kw)
    d['Conns'] = [b64(frame(mode, hello(k + 1)) + x) for k, x in enumerate(conns)]
    d['Net'] = net
    d['Ops'] = [o('par', Par=[[accept(k + 1), until(k + 1, hello(k + 1), mode)] + ops for k, ops in enumerate(par)])] + list(after)
    if items is not None:
        d['items'], d['Hash'] = [], True
        for k, l in enumerate(items):
            m = hello(k + 1)
            n = len(frame(mode, m))
            d['items'].append([{'end': n, 'may': n, 'kind': 'msg', 'tail': False, 'd': hashlib.sha1(m).hexdigest()}] + [dict(x, end=x['end'] + n, may=x['may'] + n) for x in l])
    return d


REALNETS = ['unix', 'tcp', 'tcp4', 'tcp6']


def real_streams(c, tag, n, what, most=6):
    """clients of real listeners; what() gives a stream, the length of its parts and its end"""
    r = c.rnd
    s = []
    for net in REALNETS:
        for mode in MODES:
            for j in range(n):
                conns, par, k = [], [], 0
                for k in range(1, r.randint(1, most) + 1):
                    st, parts, end = what(mode)
                    conns.append(st)
                    par.append([x for f in feeds(k, parts) for x in ([f, o('sleep', N=r.choice([1, 50, 300]))] if r.random() < .3 else [f])] + end(k))
                s.append(real('%s-real-%s-%s-%d' % (tag, net, mode, j), net, mode, conns, par, queue=r.choice([0, 1, 20]), receivers=r.choice([1, 1, 2, 4]), slow=r.choice([0, 0, 30])))
    return s


def real_grams(c, tag, n, what):
    """datagrams of real sockets; what() gives datagrams and tells if the framing is lost by the last"""
    r = c.rnd
    s = []
    for mode in MODES:
        for j in range(n):
            conns, ops = [], []
            for k in range(1, r.randint(1, 3) + 1):
                grams, lost = what(mode)
                conns.append(frame(mode, hello(k)) + b''.join(grams))
                ops += [accept(k), until(k, hello(k), mode)] + [feed(k, len(g)) for g in grams]
                if not lost:
                    break
            if lost:
                k += 1
                conns.append(frame(mode, hello(k)))
                ops += [accept(k), until(k, hello(k), mode)]
            last = b'<13>1 - s s h last -'
            conns[-1] += frame(mode, last)
            ops.append(until(k, last, mode))
            d = mk('%s-real-unixgram-%s-%d' % (tag, mode, j), mode, [], [], queue=r.choice([0, 1, 20]), slow=r.choice([0, 0, 30]))
            d.update(Conns=[b64(x) for x in conns], Ops=ops, Net='unixgram')
            s.append(d)
    return s


def size(t): return sum(len(s) for s in t['streams']) * 3 + len(t['ev']) * 20


def run(c, scns):
    c.run_traces('receiver', 'TraceReceiver.tla', scns, prep=prep, key=size)


def split(rnd, n, k):
    """k reads out of n bytes"""
    cuts = sorted(rnd.randrange(0, n + 1) for _ in range(k - 1))
    return [b - a for a, b in zip([0] + cuts, cuts + [n]) if b > a]


def feeds(c, parts): return [feed(c, p) for p in parts]


def ends(rnd, c):
    return rnd.choice([[], [eof(c)], [eof(c, rnd.choice(READERR))]])


def large_stream(mode, msgs):
    """stream and items, for what is too large to be parsed by TLC"""
    b, items = [], []
    end = 0
    for m in msgs:
        f = frame(mode, m)
        b.append(f)
        end += len(f)
        items.append({'end': end, 'may': end, 'kind': 'msg', 'tail': False, 'd': hashlib.sha1(m).hexdigest()})
    return b''.join(b), items


def fill(mode, k, n):
    """a message of n bytes"""
    m = b'<13>1 - h a p %d - ' % k
    if n < len(m):
        return m
    return m + bytes(97 + (i * 7 + k) % 26 for i in range(n - len(m)))


def fill_sd(mode, k, n):
    m = b'<13>1 - h a p %d [x y="' % k
    return m + bytes(97 + (i * 3 + k) % 26 for i in range(max(0, n - len(m) - 2))) + b'"]'


# ------------------------------------------------------------------ C05

def c05(c):
    models(c)
    r = c.rnd
    s = []
    for mode in MODES:
        # every way to cut a stream of two messages in two, and byte by byte
        for gi, g in enumerate(GOOD):
            m1, m2 = clean(num(g, 1), mode), clean(num(GOOD[(gi * 7 + 3) % len(GOOD)], 2), mode)
            st = frame(mode, m1) + frame(mode, m2)
            step = 1 if gi in (1, 3, 5) or not c.quick else 4
            ops, conns = [], []
            cuts = list(range(gi % step, len(st), step))
            for part in [cuts[i:i + 14] for i in range(0, len(cuts), 14)]:
                conns, ops = [], []
                for k, cut in enumerate(part):
                    conns.append(st)
                    ops += [accept(k + 2), feed(k + 2, cut), QUIET, feed(k + 2), QUIET] + ([eof(k + 2)] if k % 2 else [])
                s.append(mk('cut-%s-%d-%d' % (mode, gi, part[0]), mode, conns, ops, queue=gi % 3))
            s.append(mk('byte-%s-%d' % (mode, gi), mode, [st], [accept(2)] + feeds(2, [1] * len(st)) + [QUIET]))
            s.append(mk('one-%s-%d' % (mode, gi), mode, [st * 3], [accept(2), feed(2), QUIET]))
        # any byte, at the edges of texts
        ed = [bytes([i]) for i in range(256)] + EDGES
        for j in range(0, len(ed), 48):
            st = b''
            for x in ed[j:j + 48]:
                x = clean(x, mode)
                st += b''.join(frame(mode, num(b'<13>1 - h a p %d ', uniq()) + m) for m in (b'- ' + x + b'text', b'- text' + x, b'- ' + x, b'[a] ' + x + b'text' + x))
            s.append(mk('edge-%s-%d' % (mode, j), mode, [st], [accept(2)] + feeds(2, split(r, len(st), r.randint(1, 5))) + [QUIET] + ends(r, 2), queue=r.choice([0, 1])))
        # random lists and chunkings
        for j in range(c.pick(60, 900)):
            msgs = [good(r, mode) for _ in range(r.randint(1, 12))]
            st = b''.join(frame(mode, m) for m in msgs)
            parts = split(r, len(st), r.randint(1, 12))
            ops = [accept(2)]
            for p in parts:
                ops.append(feed(2, p))
                if r.random() < 0.4:
                    ops.append(QUIET)
            s.append(mk('rnd-%s-%d' % (mode, j), mode, [st], ops + ends(r, 2), queue=r.choice([0, 1, 8]), receivers=r.choice([1, 1, 1, 3]),
                        slow=r.choice([0, 0, 50])))
        # sizes around those of the buffers
        big = [1, 480, 499, 500, 501, 512, 1023, 4096, 32768, 65000, 65035, 65036, 65037, 65534, 65535, 65536, 65537, 66000, 66036, 100000, 131072, 200000]
        if not c.quick:
            big += list(range(64900, 65600, 25)) + [262144, 1 << 20, 3 << 20]
        for n in big:
            for how in ('whole', 'parts', 'first'):
                msgs = [fill(mode, 1, 40), fill(mode, 2, n), fill_sd(mode, 3, n), fill(mode, 4, 40)]
                if how == 'first':
                    msgs = msgs[1:2] + msgs[3:]
                st, items = large_stream(mode, msgs)
                ops = [accept(2)]
                if how == 'parts':
                    for p in split(r, len(st), 6):
                        ops += [feed(2, p)] + ([QUIET] if r.random() < 0.3 else [])
                else:
                    ops += [feed(2)]
                s.append(mk('size-%s-%s-%d' % (mode, how, n), mode, [st], ops + [QUIET], h=True, items=[items]))
        # many messages: the buffer is used up at every possible position
        for j in range(c.pick(6, 60)):
            n = r.choice([30, 77, 101, 333, 997, 5000])
            msgs = [fill(mode, k, r.randint(20, n)) for k in range(min(150000 // n, 600))]
            st, items = large_stream(mode, msgs)
            parts = split(r, len(st), r.choice([1, 3, 30, 200]))
            ops = [accept(2)]
            for p in parts:
                ops += [feed(2, p)] + ([QUIET] if r.random() < 0.05 else [])
            s.append(mk('many-%s-%d' % (mode, j), mode, [st], ops + [QUIET], h=True, items=[items], queue=r.choice([0, 100])))
        # a frame that ends within a few bytes of the end of the free part of the buffer
        for d in range(-3, 4) if c.quick else range(-20, 21):
            for first in (65536, 65036):
                a = fill(mode, 1, first + d - 1 - (5 if mode == 'rfc' else 0))
                msgs = [a, fill(mode, 2, 60), fill(mode, 3, 700), fill(mode, 4, 30)]
                st, items = large_stream(mode, msgs)
                s.append(mk('edge-%s-%d-%d' % (mode, first, d), mode, [st], [accept(2), feed(2), QUIET], h=True, items=[items]))
        # reads that return nothing
        for j in range(c.pick(10, 100)):
            msgs = [good(r, mode) for _ in range(r.randint(1, 5))]
            st = b''.join(frame(mode, m) for m in msgs)
            ops = [accept(2)] + [o('none', C=2)] * r.choice([0, 1, 1, 2])
            for p in split(r, len(st), r.randint(1, 6)):
                ops += [feed(2, p)] + [o('none', C=2)] * r.choice([0, 0, 1, 1, 3, 120]) + ([QUIET] if r.random() < 0.2 else [])
            s.append(mk('none-%s-%d' % (mode, j), mode, [st], ops + ends(r, 2), receivers=r.choice([1, 3])))
    s += from_spec(c, c.pick(120, 1500), 'c05', plain=True)

    # real connections
    def what(mode):
        st = b''.join(frame(mode, good(r, mode)) for _ in range(r.randint(1, 9)))
        return st, split(r, len(st), r.randint(1, 9)), lambda k: r.choice([[], [eof(k)]])
    s += real_streams(c, 'c05', c.pick(3, 40), what, most=3)

    def grams(mode):
        st = [frame(mode, good(r, mode)) for _ in range(r.randint(1, 9))]
        x = r.random()
        if x < .3:   # several frames in a datagram
            st = [b''.join(st[i:i + 3]) for i in range(0, len(st), 3)]
        elif x < .6: # frames cut by datagrams
            b = b''.join(st)
            st, i = [], 0
            for n in split(r, len(b), r.randint(1, 9)):
                st.append(b[i:i + n])
                i += n
        if r.random() < .4:
            st.insert(r.randrange(len(st) + 1), b'')
        return st, False
    s += real_grams(c, 'c05', c.pick(6, 80), grams)
    for mode in MODES:
        for net in REALNETS + ['unixgram']:
            for j in range(c.pick(1, 6)):
                sizes = [r.choice([40, 500, 4096, 32768, 65000, 65036, 65500, 65535, 65536, 65537, 66000, 100000, 131060, 131072, 131073, 140000, 200000]) for _ in range(r.randint(2, 6))] + [50]
                msgs = sep(mode, sizes)
                st, items = large_stream(mode, msgs)
                par = [feed(1, len(frame(mode, m))) for m in msgs[:-1]] + [until(1, msgs[-1], mode)]
                if net != 'unixgram' and j % 2 == 0:
                    par = feeds(1, split(r, len(st), r.randint(1, 5)))
                s.append(real('c05-real-size-%s-%s-%d' % (net, mode, j), net, mode, [st], [par], items=[items], queue=r.choice([0, 10]), slow=r.choice([0, 300])))
        # far more than the buffers of both sides: one stream network of each kind has it
        for net in r.sample(REALNETS, c.pick(1, len(REALNETS))):
            for n in (1 << 20, 1300000) + ((9000000,) if mode == 'rfc' else ()) + c.pick((), (1 << 23, 1 << 24)):
                msgs = sep(mode, [50, n + r.randint(0, 3), 50])
                st, items = large_stream(mode, msgs)
                s.append(real('c05-real-huge-%s-%s-%d' % (net, mode, n), net, mode, [st], [feeds(1, [len(st)])], items=[items], queue=r.choice([0, 10])))
    run(c, s)


def from_spec(c, num_, tag, plain=False):
    """behaviours of the specification: the abstract items become frames, the abstract bytes pieces of them"""
    r = c.rnd
    hs = generate('GenReceiver.tla', 'GenReceiver.cfg', num_ * 2, 45, r.randrange(1 << 30))
    r.shuffle(hs)
    out = []
    for j, h in enumerate(hs[:num_]):
        mode = r.choice(MODES)
        conns, cutpos = [], []
        for kinds in h['kinds']:
            st, cuts = b'', []
            for k in kinds:
                if k == 'lost' and mode != 'rfc':
                    k = 'msg'
                if k == 'msg':
                    f = frame(mode, good(r, mode))
                elif k == 'err':
                    f = frame(mode, bad(r, mode))
                elif k == 'lost':
                    f = r.choice(LOST[:-3])
                    if b' ' not in f[:20] and len(f) < 20:
                        f += b' '
                elif k == 'incmsg':
                    m = good(r, mode)
                    f = m if mode != 'rfc' else b'%d ' % (len(m) + 3) + m
                else:
                    f = b'<13>1 - h' if mode != 'rfc' else b'50 <13>1 - h'
                x = r.randrange(1, len(f)) if len(f) > 1 else 0
                cuts += [len(st) + x, len(st) + len(f)]
                st += f
            conns.append(st)
            cutpos.append([0] + cuts)
        pos = [0] * len(conns)
        ops = []
        for e in h['hist']:
            i = e['c'] - 1
            if e['e'] == 'accept':
                ops.append(accept(e['c'] + 1))
            elif e['e'] == 'feed':
                n = cutpos[i][pos[i] + e['n']] - cutpos[i][pos[i]]
                pos[i] += e['n']
                if n:
                    ops.append(feed(e['c'] + 1, n))
            elif e['e'] == 'eof':
                ops.append(eof(e['c'] + 1))
            elif e['e'] == 'rfail':
                ops.append(eof(e['c'] + 1, r.choice(READERR)))
            elif e['e'] == 'afail':
                ops.append(o('afail'))
            elif e['e'] == 'rend':
                ops.append(REND)
            if r.random() < 0.15:
                ops.append(QUIET)
        out.append(mk('%s-gen%d' % (tag, j), mode, conns, ops, queue=r.choice([0, 1, 5]), receivers=r.choice([1, 1, 3]), reader=r.choice(['drain', 'none'])))
    c.count('spec_generated_scenarios', len(out))
    return out


# ------------------------------------------------------------------ C06

def c06(c):
    models(c)
    r = c.rnd
    s = []
    for mode in MODES:
        for bi, b in enumerate(BAD):
            m = clean(num(b, 7), mode)
            g1, g2 = clean(num(GOOD[bi % len(GOOD)], 1), mode), clean(num(GOOD[(bi + 5) % len(GOOD)], 2), mode)
            for k, st in enumerate([frame(mode, m) + frame(mode, g1), frame(mode, g1) + frame(mode, m) + frame(mode, g2),
                                    frame(mode, m) * 3 + frame(mode, g1)]):
                for how in range(3):
                    parts = [len(st)] if how == 0 else [1] * len(st) if how == 1 else split(r, len(st), 3)
                    fs = feeds(2, parts)
                    if how == 2:
                        fs = [x for f in fs for x in (f, QUIET)]
                    s.append(mk('bad-%s-%d-%d-%d' % (mode, bi, k, how), mode, [st, frame(mode, g2)],
                                [accept(2)] + fs + [accept(3), feed(3), QUIET] + ends(r, 2), queue=how))
        # frames that are cut or mutated messages
        for j in range(c.pick(150, 3000)):
            st = b''
            for _ in range(r.randint(1, 6)):
                m = good(r, mode) if r.random() < 0.5 else mutate(r, good(r, mode), mode)
                st += frame(mode, m)
            parts = split(r, len(st), r.randint(1, 5)) if r.random() < 0.8 else [1] * len(st)
            ops = [accept(2)]
            for p in parts:
                ops += [feed(2, p)] + ([QUIET] if r.random() < 0.3 else [])
            s.append(mk('mut-%s-%d' % (mode, j), mode, [st], ops + [QUIET] + ends(r, 2), queue=r.choice([0, 2])))
        # anything at all
        for j in range(c.pick(60, 1500)):
            st = junk(r, mode)
            s.append(mk('junk-%s-%d' % (mode, j), mode, [st, frame(mode, b'<1>1 - h a p m -')],
                        [accept(2)] + feeds(2, split(r, len(st), r.randint(1, 4))) + [accept(3), feed(3), QUIET] + ends(r, 2)))
    # the framing is lost, other connections go on
    for li, (l, whole) in enumerate(itertools.product(LOST, (True, False))):
        for how in range(4):
            mode = 'rfc'
            g = frame(mode, num(GOOD[li % len(GOOD)], 1))
            b = frame(mode, num(BAD[li % len(BAD)], 1))
            st = [l, g + l, g + b + l + g, g + l + g][how]
            parts = [len(st)] if whole else [1] * len(st)
            s.append(mk('lost-%d-%d' % (li, how), mode, [st, g + g],
                        [accept(2), accept(3), feed(3, len(g) + 4)] + feeds(2, parts) + [QUIET, feed(3), QUIET, eof(2), QUIET, eof(3)]))
    # lengths
    for v in ('0', '1', '5', '17', '999999', '999999999', '2147483648', '4294967297', '9223372036854775807'):
        st = v.encode() + b' <13>1 - h a p m -'
        for e in ([], [eof(2)], [eof(2, 'op')]):
            s.append(mk('len-%s-%d' % (v, len(s)), 'rfc', [st], [accept(2), feed(2), QUIET] + e))
    s += from_spec(c, c.pick(120, 1500), 'c06')

    # real connections
    def what(mode):
        x = r.random()
        if x < .4:
            st = junk(r, mode)
        else:
            st = b''.join(frame(mode, bad(r, mode) if r.random() < .6 else good(r, mode)) for _ in range(r.randint(1, 6)))
            if mode == 'rfc' and x < .7:
                st += r.choice(LOST) + frame(mode, GOOD[0])
            if not rfc_safe(st):
                st = frame(mode, num(BAD[7], 1))
        return st, split(r, len(st), r.randint(1, 6)), lambda k: r.choice([[], [eof(k)]])
    s += real_streams(c, 'c06', c.pick(4, 60), what, most=5)

    def grams(mode):
        st = [frame(mode, bad(r, mode) if r.random() < .6 else good(r, mode)) for _ in range(r.randint(1, 6))]
        if not rfc_safe(b''.join(st)):
            st = st[:0]
        if r.random() < .3:
            st.insert(r.randrange(len(st) + 1), b'')
        lost = mode == 'rfc' and r.random() < .7
        if lost:
            st.append(r.choice([x for x in LOST if b' ' in x or len(x) > 20]) + r.choice([b'', frame(mode, GOOD[0])]))
        return st, lost
    s += real_grams(c, 'c06', c.pick(8, 100), grams)
    run(c, s)


def mutate(r, m, mode):
    m = bytearray(m)
    for _ in range(r.randint(1, 3)):
        x = r.random()
        if not m:
            break
        i = r.randrange(len(m))
        if x < 0.3:
            del m[i]
        elif x < 0.5:
            m.insert(i, r.choice(b' []"\\=-<>1a'))
        elif x < 0.7:
            m[i] = r.choice(b' []"\\=-<>1a\xff\x01')
        elif x < 0.85:
            m = m[:i]
        else:
            m = m[i:]
    return clean(bytes(m), mode)


def rfc_safe(st):
    """no sign and no leading zero where a header could be read"""
    return b'+' not in st and b'-0' not in st and not re.search(rb'(^|[^1-9])0\d', st)


def junk(r, mode):
    while True:
        n = r.randint(1, 60)
        if r.random() < 0.5:
            st = bytes(r.randrange(256) for _ in range(n))
        else:
            st = bytes(r.choice(b'123 <>1 - h a p [x="\\] \0\n') for _ in range(n))
        if mode != 'rfc' or rfc_safe(st):
            return st


# ------------------------------------------------------------------ C07

def c07(c):
    models(c)
    r = c.rnd
    s = []
    for mode in MODES:
        # every point at which the peer can go away, with the data in the same read or before
        for gi in range(0, len(GOOD), c.pick(3, 1)):
            st = frame(mode, clean(num(GOOD[gi], 1), mode)) + frame(mode, clean(num(GOOD[(gi + 4) % len(GOOD)], 2), mode))
            for how in ['eof'] + READERR[:c.pick(2, 6)]:
                pts = list(range((gi + len(how)) % 2, len(st) + 1, c.pick(2, 1)))
                for part in [pts[i:i + 12] for i in range(0, len(pts), 12)]:
                    ops = []
                    for k, cut in enumerate(part):
                        x = k + 2
                        ops += [accept(x)]
                        if k % 3 == 0:
                            ops += [feed(x, cut), QUIET, eof(x, how), QUIET]
                        elif k % 3 == 1:
                            ops += [eof(x, how, cut), QUIET]
                        else:
                            ops += [feed(x, cut // 2), eof(x, how, cut - cut // 2)]
                    s.append(mk('end-%s-%d-%s-%d' % (mode, gi, how, part[0]), mode, [st] * len(part), ops, queue=gi % 2, reader=r.choice(['drain', 'none']) if len(part) < 9 or how == 'eof' else 'drain'))
        # cut frames that aren't messages either
        for bi, b in enumerate(BAD):
            m = clean(num(b, 3), mode)
            ops, conns = [], []
            for k, st in enumerate([m, frame(mode, m)[:-1], frame(mode, num(GOOD[1], 1)) + m, b'30 ' + m if mode == 'rfc' else m + b' ']):
                if mode == 'rfc' and not rfc_safe(st):
                    continue
                x = len(conns) + 2
                conns.append(st)
                ops += [accept(x), feed(x), QUIET, eof(x, r.choice(['eof', 'op'])), QUIET]
            s.append(mk('badend-%s-%d' % (mode, bi), mode, conns, ops))
        # large messages that are cut
        for n in (600, 65000, 65536, 100000):
            for cut in (1, 10, n - 30):
                m = fill(mode, 2, n)
                st, items = large_stream(mode, [fill(mode, 1, 50), m])
                a = items[0]['end']
                st = st[:-cut]
                d = m[:len(st) - a - (len(str(n)) + 1 if mode == 'rfc' else 0)]
                if mode != 'rfc':
                    d = m[:len(st) - a]
                it = items[:1] + [{'end': len(st) + 1, 'may': len(st) + 1, 'kind': 'msg' if mode == 'nul' else 'incmsg', 'tail': True,
                                   'd': hashlib.sha1(d).hexdigest()}]
                for how in ('eof', 'op'):
                    s.append(mk('bigend-%s-%d-%d-%s' % (mode, n, cut, how), mode, [st], [accept(2), feed(2), QUIET, eof(2, how), QUIET], h=True, items=[it]))
        # the last read fills the buffer, and more
        for total in (65535, 65536, 65537, 131072, 8192, 4096):
            over = len(frame(mode, fill(mode, 2, 60000))) - 60000
            for first in (100, 30000):
                msgs = [fill(mode, 1, first)]
                left = total - len(frame(mode, msgs[0]))
                if left < 200:
                    continue
                x = left - 2
                while len(frame(mode, fill(mode, 2, x))) > left:
                    x -= 1
                st, items = large_stream(mode, msgs + [fill(mode, 2, x)])
                for how in ['eof'] + READERR[:2]:
                    for parts in ([total], [total // 2, total - total // 2], [500, total - 500], [total - 1, 1]):
                        s.append(mk('full-%s-%d-%d-%s-%d-%d' % (mode, total, first, how, len(parts), parts[0]), mode, [st],
                                    [accept(2)] + [feed(2, p) for p in parts[:-1]] + [eof(2, how, parts[-1]), QUIET], h=True, items=[items]))
        for j in range(c.pick(80, 1500)):
            conns, ops = [], []
            for k in range(r.randint(1, 4)):
                st = b''.join(frame(mode, good(r, mode) if r.random() < 0.8 else bad(r, mode)) for _ in range(r.randint(1, 4)))
                if r.random() < 0.7:
                    st = st[:r.randint(0, len(st))]
                conns.append(st)
                x = k + 2
                y = [accept(x)] + feeds(x, split(r, len(st), r.randint(1, 3)))
                z = r.choice([[eof(x)], [eof(x, r.choice(READERR))], [eof(x, r.choice(['eof'] + READERR), -1)]])
                if z[0]['N'] and y[1:]:
                    y.pop()
                ops += y + z + ([QUIET] if r.random() < 0.5 else [])
            s.append(mk('rnd-%s-%d' % (mode, j), mode, conns, ops, queue=r.choice([0, 3]), reader=r.choice(['drain', 'none'])))
    # errors of many connections
    for nf in (1, 5, 9, 10, 11, 15):
        for reader in ('none', 'drain'):
            ops = []
            for k in range(nf):
                ops += [accept(k + 2), feed(k + 2), eof(k + 2, READERR[k % len(READERR)])]
            s.append(mk('errs-%d-%s' % (nf, reader), 'lf', [b'<1>1 - h a p m -\n'] * nf, ops + [QUIET], reader=reader))
    ops = []
    for k in range(14):
        ops += [accept(k + 2), feed(k + 2), eof(k + 2, READERR[k % len(READERR)]), o('readerr'), o('noerr')]
    s.append(mk('errs-each', 'nul', [b'<1>1 - h a p m -\0'] * 14, ops, reader='none'))
    s += from_spec(c, c.pick(120, 1500), 'c07')

    # real connections
    def what(mode):
        st = b''.join(frame(mode, good(r, mode) if r.random() < .8 else bad(r, mode)) for _ in range(r.randint(1, 5)))
        if r.random() < .7:
            st = st[:r.randint(0, len(st))]
        if mode == 'rfc' and not rfc_safe(st):
            st = frame(mode, GOOD[1])
        return st, split(r, len(st), r.randint(1, 4)), lambda k: [eof(k)]
    s += real_streams(c, 'c07', c.pick(5, 60), what, most=6)
    run(c, s)


# ------------------------------------------------------------------ C08

def c08(c):
    models(c)
    r = c.rnd
    s = []
    for mode in MODES:
        for j in range(c.pick(70, 1200)):
            # connections in parallel
            nc = r.randint(2, 6)
            conns, par = [], []
            for k in range(nc):
                msgs = [good(r, mode) if r.random() < 0.9 else bad(r, mode) for _ in range(r.randint(1, 8))]
                st = b''.join(frame(mode, m) for m in msgs)
                conns.append(st)
                x = k + 2
                par.append([accept(x)] + feeds(x, split(r, len(st), r.randint(1, 8))) + ends(r, x))
            if r.random() < 0.4:
                par.append([o('afail')] * r.randint(1, 5))
            rec = r.choice([1, 1, 2, 4])
            s.append(mk('par-%s-%d' % (mode, j), mode, conns, [o('par', Par=par)], queue=r.choice([0, 1, 10]), receivers=rec, slow=r.choice([0, 0, 30]),
                        reader=r.choice(['none', 'drain'])))
        # messages are kept while the buffer goes on: many connections, many reads
        for j in range(c.pick(4, 40)):
            conns, items, par = [], [], []
            for k in range(r.randint(1, 3)):
                n = r.choice([100, 900, 4000, 20000])
                msgs = [fill(mode, 10 * i + k, r.randint(30, n)) for i in range(min(200, 400000 // n))]
                st, it = large_stream(mode, msgs)
                conns.append(st)
                items.append(it)
                par.append([accept(k + 2)] + feeds(k + 2, split(r, len(st), r.choice([1, 10, 100]))))
            s.append(mk('keep-%s-%d' % (mode, j), mode, conns, [o('par', Par=par)], queue=r.choice([0, 50]), h=True, items=items, receivers=r.choice([1, 2])))
        # a large message, then reads that could overwrite it
        for n in (400, 60000, 65536, 70000):
            msgs = [fill(mode, 1, n), fill(mode, 2, n), fill(mode, 3, 100), fill(mode, 4, 70000), fill(mode, 5, 100)]
            st, it = large_stream(mode, msgs)
            s.append(mk('over-%s-%d' % (mode, n), mode, [st], [accept(2)] + feeds(2, split(r, len(st), 20)) + [QUIET], h=True, items=[it]))
    # failed Accept
    for nf in (1, 2, 9, 10, 11, 30) + c.pick((130, 1100), (130, 1100, 4500)):
        for reader in ('none', 'drain'):
            g = b'<1>1 - h a p m -\n'
            ops = [o('afail')] * nf + [accept(2), feed(2), QUIET] + [o('afail')] + [accept(3), feed(3), feed(2), QUIET]
            s.append(mk('afail-%d-%s' % (nf, reader), 'lf', [g, g], ops, reader=reader))
    s.append(mk('afail-each', 'lf', [b'<1>1 - h a p m -\n'], [o('afail'), o('readerr'), o('noerr')] * 14 + [accept(2), feed(2), QUIET], reader='none'))
    # many connections, all of them open
    for n in (70, 140, 300, 1100) + c.pick((), (2300,)):
        for mode in MODES if n < 1000 else [r.choice(MODES)]:
            if n > 1000:
                g = [frame(mode, num(GOOD[1], k)) for k in range(n)]
                s.append(mk('open-%s-%d' % (mode, n), mode, g, [accept(k + 2) for k in range(n)] + [feed(k + 2) for k in reversed(range(n))] + [QUIET], queue=r.choice([0, 5])))
                continue
            g = [frame(mode, num(GOOD[1], k)) + frame(mode, num(GOOD[3], k + 1)) for k in range(n)]
            cut = [len(frame(mode, num(GOOD[1], k))) + 5 for k in range(n)]
            ops = [accept(k + 2) for k in range(n)] + [feed(k + 2, cut[k]) for k in range(n)] + [QUIET] + [feed(k + 2) for k in reversed(range(n))] + [QUIET]
            ops += [x for k in range(0, n, 3) for x in ([eof(k + 2)])] + [QUIET]
            s.append(mk('open-%s-%d' % (mode, n), mode, g, ops, queue=r.choice([0, 5])))
    s += from_spec(c, c.pick(150, 2000), 'c08')

    # real connections: all of them are open at the same time
    def what(mode):
        st = b''.join(frame(mode, good(r, mode) if r.random() < .9 else bad(r, mode)) for _ in range(r.randint(1, 12)))
        if mode == 'rfc' and not rfc_safe(st):
            st = frame(mode, GOOD[1])
        return st, split(r, len(st), r.randint(1, 9)), lambda k: r.choice([[], [], [eof(k)]])
    s += real_streams(c, 'c08', c.pick(4, 50), what, most=12)
    for net in REALNETS:
        for mode in MODES:
            # the first connection goes on after the others
            n = r.randint(2, 6)
            st = [b''.join(frame(mode, num(GOOD[1], 10 * k + i)) for i in range(5)) for k in range(n)]
            m = num(GOOD[1], 999)
            st[0] += frame(mode, m)
            d = real('c08-real-first-%s-%s' % (net, mode), net, mode, st, [[]] + [[feed(k + 1)] for k in range(1, n)], [feed(1, len(st[0]) - len(frame(mode, m))), until(1, m, mode)])
            d['Ops'] = [x for p in d['Ops'][0]['Par'] for x in p] + d['Ops'][1:]
            s.append(d)
    run(c, s)


# ------------------------------------------------------------------ C09

def c09(c):
    models(c)
    r = c.rnd
    s = []
    for mode in MODES:
        g = frame(mode, clean(num(GOOD[6], 1), mode))
        h = frame(mode, num(GOOD[0], 2))
        # End at every point of a history
        hist = [accept(2), feed(2, 5), feed(2), accept(3), feed(3, len(h)), feed(3), eof(2), eof(3, 'op')]
        for i in range(len(hist) + 1):
            for q in (0, 2):
                for extra in ([], [accept(4), feed(4)], [o('afail')]):
                    s.append(mk('at-%s-%d-%d-%d' % (mode, i, q, len(s)), mode, [g + h, h + g, g], hist[:i] + [REND] + hist[i:] + extra, queue=q,
                                receivers=r.choice([1, 1, 2])))
        # End, and what was received before is only asked for later
        for q in (0, 1, 3, 100):
            for k in (1, 2, 5):
                s.append(mk('late-%s-%d-%d' % (mode, q, k), mode, [g * k, h * k], [accept(2), feed(2, async_(True), Async=True), accept(3), feed(3, -1, Async=True),
                         eof(2, Async=True), REND, eof(3, 'op', Async=True), o('go')], queue=q, late=True, receivers=r.choice([1, 1, 3])))
        # nothing ever happened
        s.append(mk('idle-%s' % mode, mode, [], [REND]))
        s.append({'ID': 'none-%s' % mode, 'Mode': mode, 'Conns': [], 'Ops': [REND], 'Queue': 0, 'Receivers': 2, 'ErrReader': 'none'})
        s.append({'ID': 'nonelate-%s' % mode, 'Mode': mode, 'Conns': [], 'Ops': [REND], 'Queue': 0, 'Receivers': 1, 'Late': True, 'ErrReader': 'none'})
        s.append({'ID': 'nonefail-%s' % mode, 'Mode': mode, 'Conns': [], 'Ops': [o('afail'), REND], 'Queue': 0, 'Receivers': 1, 'ErrReader': 'none'})
        # races
        for j in range(c.pick(80, 1500)):
            conns, par = [], []
            for k in range(r.randint(1, 4)):
                st = b''.join(frame(mode, good(r, mode)) for _ in range(r.randint(1, 4)))
                conns.append(st)
                x = k + 2
                par.append([o('sleep', N=r.choice([0, 0, 5, 30])), accept(x, Async=True)] + feeds(x, split(r, len(st), r.randint(1, 4))) + ends(r, x))
            par.append([o('sleep', N=r.choice([0, 5, 20, 60, 200])), REND])
            if r.random() < 0.3:
                par.append([o('afail')] * r.randint(1, 3))
            s.append(mk('race-%s-%d' % (mode, j), mode, conns, [o('par', Par=par)], queue=r.choice([0, 1, 10]), receivers=r.choice([1, 1, 3]),
                        slow=r.choice([0, 0, 30]), reader=r.choice(['none', 'drain'])))
    s += from_spec(c, c.pick(150, 2000), 'c09')
    run(c, s)
    real_ends(c)


def real_ends(c):
    """RealEnd.tla: the end of receivers with real listeners"""
    r = c.rnd
    s = []

    def e(name, cl=0, k=0, us=0): return {'O': name, 'C': cl, 'K': k, 'Us': us}

    def add(i, net, tr, ops, **kw): s.append(dict({'ID': 'real-' + i, 'Net': net, 'Tr': tr, 'Queue': r.choice([0, 1, 20]), 'Ops': ops}, **kw))
    for net in ('unix', 'tcp', 'tcp4', 'tcp6'):
        for tr in ('nul', 'lf', 'rfc'):
            b = net + '-' + tr
            add(b + '-idle', net, tr, [e('listen'), e('end'), e('quit'), e('connect', 1)])
            add(b + '-served', net, tr, [e('listen'), e('connect', 1), e('say', 1, 2), e('sync'), e('end'), e('say', 1, 3), e('connect', 2), e('sleep', us=2000), e('over'), e('say', 1, 1), e('quit')], WaitMs=300)
            add(b + '-gone', net, tr, [e('listen'), e('connect', 1), e('say', 1, 2), e('leave', 1), e('sync'), e('sleep', us=1000), e('end'), e('over'), e('connect', 2)])
            add(b + '-many', net, tr, [e('listen')] + [x for k in range(1, 6) for x in (e('connect', k), e('say', k, k))] + [e('sync'), e('end')] + [x for k in range(1, 6) for x in (e('say', k, 2), e('leave', k))] + [e('connect', 6), e('over')])
            add(b + '-unread', net, tr, [e('listen'), e('connect', 1), e('say', 1, 40), e('connect', 2), e('say', 2, 1), e('sleep', us=r.choice([0, 3000])), e('end'), e('say', 2, 3), e('quit')], Late=True)
            add(b + '-pending', net, tr, [e('listen'), e('connect', 1), e('end'), e('say', 1, 2), e('quit')])
    for tr in ('nul', 'lf', 'rfc'):
        add('unixgram-' + tr, 'unixgram', tr, [e('listen'), e('connect', 1), e('say', 1, 5), e('connect', 2), e('say', 2, 3), e('sync'), e('say', 1, 2), e('sync'), e('end')])
    # the user closes the listener, once or more, before End or after
    for net in ('unix', 'tcp', 'tcp4', 'tcp6', 'unixgram'):
        for tr in ('nul', 'lf', 'rfc'):
            b = net + '-' + tr
            talk = [e('listen'), e('connect', 1), e('say', 1, 3), e('sync')]
            add(b + '-close-end', net, tr, talk + [e('close'), e('connect', 2), e('end'), e('quit')])
            add(b + '-end-close', net, tr, talk + [e('end'), e('close'), e('quit')])
            add(b + '-close2-end', net, tr, talk + [e('close'), e('close'), e('sleep', us=3000), e('end'), e('close'), e('quit'), e('close')])
            add(b + '-unused-close', net, tr, [e('listen'), e('close'), e('end'), e('quit')])
            add(b + '-unused-end', net, tr, [e('listen'), e('end'), e('close'), e('close'), e('quit')])
    # the known finding
    s.append({'ID': 'real-unixgram-end', 'Known': 'real-unixgram-end', 'Net': 'unixgram', 'Tr': 'nul', 'Queue': 10, 'WaitMs': 500,
              'Ops': [e('listen'), e('connect', 1), e('say', 1, 2), e('sync'), e('end'), e('quit')]})
    for j, h in enumerate(generate('GenRealEnd.tla', 'GenRealEnd.cfg', c.pick(300, 3000), 14, c.seed)):
        add('gen%d' % j, r.choice(['unix', 'tcp', 'tcp4', 'tcp6']), r.choice(['nul', 'lf', 'rfc']), [e(a['O'], a['C'], a['K']) for a in h] + [e('quit')], Late=r.random() < .2)

    def prep(res, scn):
        c.count('real_' + scn['Net'])
        for x in res['ev']:
            c.count('real_' + x['e'])
        return {'id': res['id'], 'net': scn['Net'], 'ev': res['ev']}
    c.run_traces('realend', 'TraceRealEnd.tla', s, prep=prep, timing=('sync', 'notover'))


def async_(x): return -1


PROPS = {'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08, 'C09': c09}
