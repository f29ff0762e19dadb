"""C14, C15: Channels.tla"""
import itertools
from vlib import *
from p_receiver import b64
from p_message import anyfield, anytext, anysd, ints, WS
import p_sdata as sd


class Ops:
    def __init__(self, r): self.r, self.n = r, 0

    def op(self, o, frm=0, go=None, ev=None, make=True):
        to = 0
        if make:
            self.n += 1
            to = self.n
        return dict({'O': o, 'From': frm, 'To': to, 'Ev': ev or {}}, **(go or {}))

    def new(self, p, app): return self.op('new', 0, {'P': p, 'App': b64(app)}, {'p': p, 'app': ints(app)})
    def chan(self, s, p): return self.op('chan', s, {'P': p}, {'p': p})
    def name(self, o, frm, s): return self.op(o, frm, {'S': b64(s)}, {'s': ints(s)})

    def log(self, o, frm, text, els=()):
        return self.op(o, frm, {'Text': b64(text), 'Els': [a for a, _ in els]}, {'text': ints(text), 'els': [b for _, b in els]}, make=False)


def name(r):
    x = r.random()
    if x < 0.6:
        return r.choice([b'app', b'a', b'sub', b'x-y', b'-', b'daemon', b'a/b', b'/', b'w' * 20, b'z' * 47])
    while True:
        f = anyfield(r, 'app')
        if f:
            return f


def c14(c):
    c.model('MCChannels.tla', c.pick('MCChannels_quick.cfg', 'MCChannels.cfg'), 'MCChannels_once.cfg')
    r = c.rnd
    s = []
    for p in range(192):
        o = Ops(r)
        ops = [o.new(p, b'app')]
        top = o.n
        ops.append(o.name('sub', top, b's'))
        sub = o.n
        ops.append(o.name('sub', sub, b't'))
        for sy in (top, sub, o.n):
            for v in r.sample(range(8), 8):
                ops.append(o.chan(sy, v if r.random() < 0.5 else 8 * r.randint(0, 23) + v))
                ch = o.n
                t = b'%d %d' % (sy, v)
                ops.append(o.log(r.choice(['log', 'write']), ch, t))
                if sy != top and r.random() < 0.5:
                    continue
                k = r.choice(['app', 'mid', 'both', 'deep'])
                if k in ('app', 'both', 'deep'):
                    ops.append(o.name('app', o.n, b'd'))
                if k in ('mid', 'both'):
                    ops.append(o.name('mid', o.n, b'm'))
                if k == 'deep':
                    ops.append(o.name('app', o.n, b'e'))
                    ops.append(o.name('mid', o.n, b'f'))
                    ops.append(o.name('app', o.n, b'g'))
                last = o.n
                ops.append(o.log('log', last, t + b' derived'))
                if r.random() < 0.4:
                    ops.append(o.name('logger', last, b'p: '))
                    ops.append(o.log('print', o.n, t + b' printed'))
        s.append({'ID': 'p%d' % p, 'Before': ops})
    # the first use of the channels, by many goroutines at the same time
    for j in range(c.pick(60, 400)):
        o = Ops(r)
        before, par = [], []
        m = r.choice([7, 7, 6, 4, 3])
        sys = []
        for k in range(30):
            before.append(o.new(8 * r.randint(0, 23) + m, b'app%d' % k))
            sys.append(o.n)
            if r.random() < 0.2:
                before.append(o.name('sub', o.n, b's'))
                sys.append(o.n)
        for w in range(r.choice([2, 4, 8, 8])):
            ops = []
            for k in sys:
                v = r.choice([m, m, m, 0, 7, r.randint(0, 7)])
                ops.append(o.chan(k, v))
                ch = o.n
                if r.random() < 0.2:
                    ops.append(o.name(r.choice(['app', 'mid']), ch, b'x'))
                ops.append(o.log('log', o.n, b'w%d %d' % (w, o.n)))
            par.append(ops)
        s.append({'ID': 'first%d' % j, 'Before': before, 'Par': par})
    c.run_traces('channel', 'TraceChannels.tla', s, key=lambda t: len(json.dumps(t)))


def tree(c, r, sid, par=False):
    o = Ops(r)
    before = []
    sysl, chans, loggers = [], [], []

    def step(ops, own, w):
        ss, cc, ll = own
        x = r.random()
        if not ss:
            ops.append(o.new(r.choice([7, 13, 191, r.randint(0, 191), 8 * r.randint(0, 23) + 6]), name(r)))
            ss.append(o.n)
        elif x < 0.12:
            ops.append(o.name('sub', r.choice(ss), name(r)))
            ss.append(o.n)
        elif x < 0.3 or not cc:
            ops.append(o.chan(r.choice(ss), r.randint(0, 7)))
            cc.append(o.n)
        elif x < 0.42:
            ops.append(o.name('app', r.choice(cc), name(r)))
            cc.append(o.n)
        elif x < 0.56:
            ops.append(o.name('mid', r.choice(cc), anyfield(r, 'mid')))
            cc.append(o.n)
        elif x < 0.64:
            ops.append(o.name('logger', r.choice(cc), r.choice([b'', b'prefix: ', b'[p] ', b'x', b'- '])))
            ll.append(o.n)
        elif x < 0.76 and ll:
            ops.append(o.log('print', r.choice(ll), b'w%d-%d ' % (w, len(ops)) + r.choice([b'text', b'\n', b'two\nlines', b'end  \n'])))
        elif x < 0.88:
            ops.append(o.log('write', r.choice(cc), (b'w%d-%d ' % (w, len(ops)) if par else b'') + anytext(r)))
        else:
            ops.append(o.log('log', r.choice(cc), (b'w%d-%d ' % (w, len(ops)) if par else b'') + anytext(r), [anysd(r) for _ in range(r.choice([0, 1, 1, 2, 4]))]))
    for _ in range(r.randint(4, 40) if not par else r.randint(1, 12)):
        step(before, (sysl, chans, loggers), 1)
    res = {'ID': sid, 'Before': before}
    if par:
        res['Par'] = []
        for w in range(r.randint(2, 6)):
            own = (list(sysl), list(chans), list(loggers))
            ops = []
            for _ in range(r.randint(3, 15)):
                step(ops, own, w + 2)
            res['Par'].append(ops)
    after = []
    al = list(chans)
    r.shuffle(al)
    for i in al[:8]:
        after.append(o.log(r.choice(['log', 'write']), i, b'again %d' % i))
    res['After'] = after
    return res


def c15(c):
    c.model('MCChannels.tla', c.pick('MCChannels_quick.cfg', 'MCChannels.cfg'), 'MCChannels_once.cfg')
    r = c.rnd
    s = [tree(c, r, 'tree%d' % j) for j in range(c.pick(900, 8000))]
    s += [tree(c, r, 'par%d' % j, par=True) for j in range(c.pick(300, 4000))]
    # an empty name
    o = Ops(r)
    s.append({'ID': 'noname', 'Before': [o.new(7, b'')]})
    # lengths of names around the limit
    for a in (1, 2, 40, 45, 46, 47, 48, 49, 60):
        for b in (1, 2, 3, 46, 47, 48, 60):
            o = Ops(r)
            ops = [o.new(15, b'a' * a), o.name('sub', 1, b'b' * b), o.name('sub', 2, b'c' * 3)]
            for sy in (1, 2, 3):
                ops.append(o.chan(sy, 6))
                ops.append(o.log('log', o.n, b'm'))
                ops.append(o.name('app', o.n, b'd' * b))
                ops.append(o.name('mid', o.n, b'i' * r.choice([1, 31, 32, 33])))
                ops.append(o.name('app', o.n, b'e'))
                ops.append(o.log('log', o.n, b'm'))
            s.append({'ID': 'len%d-%d' % (a, b), 'Before': ops})
    # long texts, from every way to give one to a channel
    for n in c.pick((1023, 1024, 1025, 2048, 4096, 8192, 16384, 65536), (1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 100001)):
        o = Ops(r)
        ops = [o.new(15, b'app'), o.chan(1, 6), o.name('app', 2, b'x'), o.name('mid', 3, b'm')]
        for k, how in enumerate(('log', 'write')):
            for d in (0, 1):
                t = bytes(97 + (i * 7 + i // 26 + k) % 26 for i in range(n - d))
                ops.append(o.log(how, r.choice((2, 3, 4)), r.choice((t, t[:-1] + 'é'.encode(), t + b' \n'))))
        ops.append(o.name('logger', 4, b'p: '))
        ops.append(o.log('print', o.n, bytes(97 + i % 26 for i in range(n))))
        s.append({'ID': 'long%d' % n, 'Before': ops})
    # far longer ones: each Q of these stands for many
    for n in (40000, 131072, (1 << 20) + 1) + c.pick((), (1 << 22,)):
        o = Ops(r)
        ops = [o.new(15, b'app'), o.chan(1, 6), o.name('app', 2, b'x'), o.name('mid', 3, b'm')]
        for how in ('log', 'write'):
            for t in (b'Q', b'aQ \n', b'a\nQ'):
                ops.append(o.log(how, r.choice((2, 3, 4)), t))
        ops.append(o.name('logger', 4, b'p: '))
        ops.append(o.log('print', o.n, b'Q'))
        s.append({'ID': 'vast%d' % n, 'Before': ops, 'Pump': n})
    # the same derivations, in every order, from every channel
    for p in itertools.product(['app', 'mid', 'logger'], repeat=c.pick(4, 5)):
        o = Ops(r)
        ops = [o.new(r.choice([7, 6]), r.choice([b'app', b'-'])), o.chan(1, r.choice([7, 6, 0]))]
        ch = [2]
        for k, x in enumerate(p):
            if x == 'logger':
                ops.append(o.name('logger', ch[-1], b'P'))
                ops.append(o.log('print', o.n, b'printed %d' % k))
            else:
                ops.append(o.name(x, r.choice(ch), b'%s%d' % (x.encode(), k)))
                ch.append(o.n)
                ops.append(o.log('log', o.n, b'text %d' % k, [anysd(r)]))
        for i in ch:
            ops.append(o.log('write', i, b'again'))
        s.append({'ID': 'ord' + '-'.join(p), 'Before': ops})
    c.run_traces('channel', 'TraceChannels.tla', s, key=lambda t: len(json.dumps(t)))


PROPS = {'C14': c14, 'C15': c15}
