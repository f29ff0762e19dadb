"""C11, C12, C13, C23: Message.tla"""
import itertools
from vlib import *
from p_receiver import b64, EDGES, WORDS
import p_sdata as sd

LIM = {'host': 255, 'app': 48, 'pid': 128, 'mid': 32}


def ints(b): return list(b)


def anyfield(r, k):
    lim = LIM[k]
    x = r.random()
    if x < 0.1:
        return b''
    if x < 0.3:
        n = r.choice([1, lim - 1, lim, lim + 1, lim + 2, 2 * lim, 300, 1000])
        return bytes(r.randint(0, 255) for _ in range(n))
    if x < 0.5:
        n = r.choice([1, lim - 1, lim, lim + 1, lim + 7])
        return bytes(r.randint(33, 126) for _ in range(n))
    if x < 0.7:
        return bytes(r.choice([0, 9, 10, 13, 31, 32, 33, 37, 45, 60, 62, 91, 93, 126, 127, 128, 195, 255]) for _ in range(r.randint(1, 8)))
    return r.choice([b'-', b'a', b'host.example', b'app/sub', b'1234', b'ID47', 'h\u00f4te'.encode(), b'a b', b'%', b'--', b' ', b'\t', b'a\nb'] + WORDS)


WS = [b' ', b'\t', b'\n', b'\r', b'\v', b'\f', b'\xc2\x85', b'\xc2\xa0', '\u1680'.encode(), '\u2000'.encode(), '\u200a'.encode(), '\u2028'.encode(), '\u2029'.encode(), '\u202f'.encode(), '\u205f'.encode(), '\u3000'.encode()]
NOTWS = ['\u200b'.encode(), '\ufeff'.encode(), b'\0', b'\x85', b'\xa0', b'\x80', b'\xe2\x80', b'\x1f', b'\x1c', b'-', '\u180e'.encode(), '\u2060'.encode(), b'\xc2', b'\xff', '\u00e9'.encode()]


def anytext(r):
    x = r.random()
    if x < 0.12:
        return b''
    if x < 0.2:
        return b''.join(r.choice(WS) for _ in range(r.randint(1, 4)))
    t = b''.join(r.choice([b'word', b'[x]', b'"', b' ', b'-', b'- -', b'<13>1', b'\n', b'\0', r.choice(NOTWS), r.choice(WS), bytes([r.randint(0, 255)])]) for _ in range(r.randint(1, 8)))
    if r.random() < 0.4:
        t += b''.join(r.choice(WS + NOTWS) for _ in range(r.randint(1, 4)))
    if r.random() < 0.03:
        t = t * 200
    return t


def ok_text(t):
    """white space is UTF-8: an isolated end of a rune isn't followed by a blank one"""
    return t


DIM = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def anytime(r, ms=False):
    y = r.choice([0, 1, 999, 1969, 1970, 1999, 2000, 2024, 2026, 2100, 9999, r.randint(0, 9999)])
    mo = r.randint(1, 12)
    d = r.randint(1, DIM[mo - 1])
    if mo == 2 and r.random() < 0.3 and (y % 4 == 0 and (y % 100 or y % 400 == 0)):
        d = 29
    ns = r.choice([0, 0, 1, 999, 1000, 999999999, 999999000, 100000000, 120000000, 10000, r.randint(0, 999999999)])
    if ms:
        ns -= ns % 1000
    off = r.choice([0, 0, 60, -60, 330, -210, 14 * 60, -12 * 60, 23 * 60 + 59, -(23 * 60 + 59), 1, -1, r.randint(-1439, 1439)])
    t = {'Y': y, 'Mo': mo, 'D': d, 'H': r.choice([0, 12, 23, r.randint(0, 23)]), 'Mi': r.choice([0, 59, r.randint(0, 59)]), 'S': r.choice([0, 59, r.randint(0, 59)]), 'Ns': ns, 'Off': off}
    return sub_minute(r, t) if r.random() < 0.07 else t


def sub_minute(r, t):
    """a zone of the past, whose offset isn't a number of minutes"""
    return dict(t, Y=min(9998, max(1, t['Y'])), OffS=r.choice([1, 21, 30, 59, r.randint(1, 59)]))


def ev_time(t): return {'y': t['Y'], 'mo': t['Mo'], 'd': t['D'], 'h': t['H'], 'mi': t['Mi'], 's': t['S'], 'us': t['Ns'] // 1000, 'off': t['Off']}


RAW = [b'[a]', b'[a b="c"]', b'[x@32473 iut="3" eventSource="App" eventID="1011"]', b'[e a="\\]" b="\\"" c="\\\\"]', b'[e a="x=[y z"]', b'[e n=""]', b'[e v="\xc3\xa9"]', b'[e a="1" a="2"]', b'[e v="- [x"]', b'[e v="a\nb"]',
       b'[meta sequenceId="29"]', b'[e q="\\x"]']


def anysd(r, bad=0.0):
    x = r.random()
    if x < bad:
        return r.choice([({'K': 'bad'}, {'k': 'bad'}), ({'K': 'tq', 'Tz': False, 'Sync': True, 'Acc': None}, {'k': 'tq', 'q': {'tz': False, 'sync': True, 'has': False, 'acc': []}})])
    if x < 0.5:
        b = r.choice(RAW)
        return {'K': 'raw', 'B': b64(b)}, {'k': 'raw', 'b': ints(b)}
    if x < 0.7:
        tz = r.random() < 0.8
        sy = tz and r.random() < 0.7
        acc = r.choice(sd.ACCS) if sy and r.random() < 0.7 else None
        return {'K': 'tq', 'Tz': tz, 'Sync': sy, 'Acc': acc}, {'k': 'tq', 'q': {'tz': tz, 'sync': sy, 'has': acc is not None, 'acc': ints(str(acc).encode()) if acc is not None else []}}
    names = r.sample(sd.NAMES, r.randint(0, 4))
    if r.random() < 0.5:
        c = sd.case('SS', r.choice('ABCD'), [sd.entry(m, sd.sstr(sd.text(r))) for m in names], r)
    else:
        c = sd.case('SI', r.choice('ABCD'), [sd.entry(m, sd.value(r, bad=0)) for m in names], r)
    return {'K': 'el', 'E': c['E']}, {'k': 'el', 'el': c['El']}


class Ops:
    def __init__(self, r, bad=0.0):
        self.r, self.n, self.bad = r, 0, bad

    def op(self, o, frm=0, go=None, ev=None, to=None):
        if to is None:
            self.n += 1
            to = self.n
        return dict({'O': o, 'From': frm, 'To': to, 'Ev': ev or {}}, **(go or {}))

    def set(self, o, frm, s):
        return self.op(o, frm, {'S': b64(s)}, {'s': ints(s)})

    def create(self, app, prio, text):
        return self.op('create', 0, {'App': b64(app), 'P': prio, 'X': b64(text)}, {'app': ints(app), 'prio': prio, 'text': ints(text)})

    def whole(self, prio, t, host, app, pid, mid, text):
        return self.op('whole', 0, {'P': prio, 'T': t, 'Host': b64(host), 'App': b64(app), 'Pid': b64(pid), 'Mid': b64(mid), 'X': b64(text)},
                       {'prio': prio, 't': ev_time(t), 'os': t.get('OffS', 0), 'host': ints(host), 'app': ints(app), 'pid': ints(pid), 'mid': ints(mid), 'text': ints(text)})

    def base(self):
        r = self.r
        x = r.random()
        f = lambda k: anyfield(r, k)
        if x < 0.2:
            return self.create(f('app'), self.prio(), anytext(r))
        if x < 0.8:
            return self.whole(self.prio(), anytime(r), f('host'), f('app'), f('pid'), f('mid'), anytext(r))
        return self.op('empty')

    def prio(self):
        return self.r.choice([0, 7, 8, 13, 100, 191, self.r.randint(0, 191)])

    def sds(self, frm, n):
        l = [anysd(self.r, self.bad) for _ in range(n)]
        return self.op('sd', frm, {'Els': [a for a, _ in l]}, {'els': [b for _, b in l]})

    def epoch(self, frm, sec, nsec):
        return self.op('epoch', frm, {'Sec': str(sec), 'Nsec': str(nsec)}, shift(sec, nsec))

    def delta(self, frm, t, sec, nsec):
        return self.op('delta', frm, {'T': t, 'Sec': str(sec), 'Nsec': str(nsec)}, dict(shift(sec, nsec), t=ev_time(t), os=t.get('OffS', 0)))

    def stamp(self, frm, t, leap=False):
        if (t['Mo'], t['D']) == (2, 29) and not leap:
            t = dict(t, D=28)    # not a day of every year
        s = b'%s %2d %02d:%02d:%02d' % (MONTHS[t['Mo'] - 1], t['D'], t['H'], t['Mi'], t['S'])
        return self.op('stamp', frm, {'S': b64(s)}, {'t': ev_time(dict(t, Y=0, Ns=0, Off=0))})

    def derive(self, frm):
        r = self.r
        k = r.choice(['host', 'app', 'pid', 'mid', 'msg', 'msg', 'prio', 'time', 'local', 'now', 'sd', 'sd', 'sd', 'sd', 'epoch', 'delta', 'stamp', 'copy', 'reparse'])
        if k in LIM:
            return self.set(k, frm, anyfield(r, k))
        if k == 'msg':
            return self.set(k, frm, anytext(r))
        if k == 'prio':
            p = self.prio()
            return self.op(k, frm, {'P': p}, {'p': p})
        if k == 'time':
            t = anytime(r)
            return self.op(k, frm, {'T': t}, {'t': ev_time(t), 'os': t.get('OffS', 0)})
        if k == 'sd':
            return self.sds(frm, r.choice([0, 1, 1, 1, 2, 3]))
        if k == 'epoch':
            return self.epoch(frm, r.randint(-10 ** 9, 4 * 10 ** 9), r.randint(0, 10 ** 9))
        if k == 'delta':
            t = anytime(r, True)
            t['Y'] = r.randint(1970, 2100)
            return self.delta(frm, t, r.randint(0, 10 ** 8), r.randint(0, 10 ** 9))
        if k == 'stamp':
            return self.stamp(frm, anytime(r))
        return self.op(k, frm)


MONTHS = [b'Jan', b'Feb', b'Mar', b'Apr', b'May', b'Jun', b'Jul', b'Aug', b'Sep', b'Oct', b'Nov', b'Dec']


def shift(sec, nsec):
    d, s = divmod(sec, 86400)
    q, n = divmod(nsec, 10 ** 9)
    return {'sd1': d, 'ss': s, 'nq': q, 'nr': n}


def go(c, s, mode='message'):
    c.run_traces(mode, 'TraceMessage.tla', s, key=lambda t: len(json.dumps(t)))


def c11(c):
    c.model('MCMessage.tla', c.pick('MCMessage_quick.cfg', 'MCMessage.cfg'))
    r = c.rnd
    s = []

    def add(ops, name='h', pump=0): s.append({'ID': '%s%d' % (name, len(s)), 'Before': ops, 'Pump': pump})
    T0 = {'Y': 2024, 'Mo': 2, 'D': 29, 'H': 1, 'Mi': 2, 'S': 3, 'Ns': 0, 'Off': 0}
    # every byte, in every field, by every way to set it
    fields = ['host', 'app', 'pid', 'mid']
    for b in range(256):
        o = Ops(r)
        x = [bytes([b]), b'a' + bytes([b]), bytes([b]) + b'a', bytes([b]) * 3]
        ops = [o.whole(13, T0, x[0], x[1], x[2], x[3], b''), o.whole(13, T0, x[3], x[2], x[1], x[0], bytes([b]) + b'.'), o.create(x[0], 13, b'x' + bytes([b]))]
        for f in fields:
            ops += [o.set(f, 1, v) for v in (x if not c.quick else [r.choice(x)])]
        ops.append(o.set('msg', 1, b'x' + bytes([b]) * 2))
        add(ops, 'byte')
    for w in WORDS + EDGES:
        o = Ops(r)
        ops = [o.whole(13, T0, w, w, w, w, w), o.create(w, 13, w), o.op('empty')] + [o.set(f, 3, w) for f in fields] + [o.set('msg', 3, w), o.set('msg', 1, b'x' + w), o.set('msg', 1, w + b'x')]
        add(ops, 'word')
    # lengths
    for f in fields:
        for n in sorted({0, 1, 2, 31, 32, 33, 47, 48, 49, 127, 128, 129, 254, 255, 256, 300, 5000}):
            o = Ops(r)
            v = bytes(r.choice(b'abcdefghij') for _ in range(n))
            # the limit isn't one of characters
            u = ('\u00e9' * n).encode()
            kw = {k: b'k' for k in fields}
            kw[f] = v
            ops = [o.op('empty'), o.set(f, 1, v), o.set(f, 1, u), o.whole(0, T0, kw['host'], kw['app'], kw['pid'], kw['mid'], b't')]
            if f == 'app':
                ops.append(o.create(v, 0, b''))
            add(ops, 'len')
    # ends of texts
    for a in WS + NOTWS:
        o = Ops(r)
        ops = [o.op('empty')]
        for b in WS + NOTWS + [b'']:
            ops.append(o.set('msg', 1, b'x' + a + b))
            if r.random() < 0.3:
                ops.append(o.set('msg', 1, a + b))
        add(ops, 'ws')
        add([o.create(b'a', 3, b'x' + a), o.create(b'a', 3, a), o.whole(1, T0, b'h', b'a', b'p', b'm', b'x ' + a)], 'ws')
    # every priority
    for p in range(0, 192, 8):
        o = Ops(r)
        ops = [o.op('empty')]
        for q in range(p, p + 8):
            ops.append(o.op('prio', 1, {'P': q}, {'p': q}))
            ops.append(o.create(b'a', q, b''))
        add(ops, 'prio')
    # times
    for _ in range(c.pick(60, 600)):
        o = Ops(r)
        ops = [o.op('empty')]
        for _ in range(8):
            t = anytime(r)
            ops.append(o.op('time', 1, {'T': t}, {'t': ev_time(t), 'os': t.get('OffS', 0)}))
        add(ops, 'time')
    for ops, pump in longs(c, r):
        add(ops, 'long', pump)
    for _ in range(c.pick(1200, 12000)):
        o = Ops(r, 0.05)
        ops = [o.base()]
        for _ in range(r.randint(1, 6)):
            ops.append(o.derive(r.randint(1, o.n)))
        add(ops, 'rnd')
    go(c, s)


def derivations(r, sid, par=False, bad=0.0):
    o = Ops(r, bad)
    before = [o.base()]
    for _ in range(r.randint(0, 3)):
        before.append(o.derive(r.randint(1, o.n)) if r.random() < 0.9 else o.base())
    s = {'ID': sid, 'Before': before}
    known = list(range(1, o.n + 1))
    if par:
        s['Par'] = []
        for _ in range(r.randint(2, 5)):
            mine = list(known)
            ops = []
            for _ in range(r.randint(2, 8)):
                f = r.choice(mine)
                if r.random() < 0.25:
                    ops.append(o.op('again', f, to=0))
                    continue
                # mostly structured data, added to the same message
                ops.append(o.sds(f, r.choice([1, 1, 2])) if r.random() < 0.6 else o.derive(f))
                mine.append(o.n)
            s['Par'].append(ops)
    else:
        for _ in range(r.randint(3, 14)):
            # siblings: from the same message again and again
            f = r.choice(known[-4:] + [known[-1]] + known[:1])
            if r.random() < 0.15:
                before.append(o.op('again', r.choice(known), to=0))
            before.append(o.sds(f, r.choice([1, 1, 1, 2, 3])) if r.random() < 0.55 else o.derive(f))
            known.append(o.n)
    al = list(range(1, o.n + 1))
    r.shuffle(al)
    s['After'] = [o.op('again', i, to=0) for i in al]
    return s


LONG = (1023, 1024, 1025, 2048, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 65537, 80000)


def longs(c, r):
    """long texts and long elements"""
    for n in LONG + c.pick((), (100000, 131072, 200000)):
        o = Ops(r)
        t = bytes(97 + (i * 7 + i // 26) % 26 for i in range(n))
        e = r.choice((t[:-2] + 'é'.encode(), t[:-3] + ' \n\t'.encode(), b' ' * (n - 1) + b'x', ('é' * (n // 2)).encode(), b'\n' + t[1:]))
        el = b'[x@1 a="' + t[:n - 10] + b'"]'
        yield [o.create(b'app', 13, t), o.op('empty'), o.set('msg', 2, e), o.op('sd', 3, {'Els': [{'K': 'raw', 'B': b64(el)}]}, {'els': [{'k': 'raw', 'b': ints(el)}]}),
               o.set('msg', 4, b'short'), o.set('host', 4, b'h')], 0
    # far longer ones: each Q of these stands for many
    for n in (65536, 200000, 1 << 20, (1 << 20) + 1) + c.pick((), (300000, 1 << 22, 10000000)):
        for t, el in ((b'Q', b'[x@1 a="Q"]'), (b'aQ\t', b'[x@1 a="b" c="Q\\]Q"]'), (b'- Q [Q]', b'[x@1 a="Qd"]')):
            o = Ops(r)
            yield [o.create(b'app', 13, t), o.op('empty'), o.set('msg', 2, t + b'x'), o.op('sd', 3, {'Els': [{'K': 'raw', 'B': b64(el)}]}, {'els': [{'k': 'raw', 'b': ints(el)}]}),
                   o.set('msg', 4, b'short'), o.set('host', 4, b'h')], n


def c12(c):
    c.model('MCMessage.tla', 'MCMessage_quick.cfg')
    r = c.rnd
    s = []
    for j in range(c.pick(700, 6000)):
        s.append(derivations(r, 'seq%d' % j, bad=r.choice([0, 0, 0.05])))
    for j in range(c.pick(500, 5000)):
        s.append(derivations(r, 'par%d' % j, par=True))
    # n elements, then two different ones added to the same message, for every n
    for n in range(0, c.pick(20, 40)):
        for how in ('one', 'all'):
            o = Ops(r)
            ops = [o.op('empty')]
            if how == 'one':
                for _ in range(n):
                    ops.append(o.sds(o.n, 1))
            else:
                ops.append(o.sds(1, n))
            b = o.n
            for k in (1, 2, 3):
                ops += [o.sds(b, k), o.sds(b, 1)]
                ops.append(o.sds(o.n, 1))
            ops += [o.op('copy', b)]
            ops += [o.sds(o.n, 2)]
            ops += [o.op('again', i, to=0) for i in range(1, o.n + 1)]
            s.append({'ID': 'grow%d%s' % (n, how), 'Before': ops})
    go(c, s)


def c13(c):
    c.model('MCMessage.tla', c.pick('MCMessage_quick.cfg', 'MCMessage.cfg'))
    r = c.rnd
    s = []

    def add(ops, name='p', pump=0):
        n = max(o['To'] for o in ops)
        x = []
        for o in ops:
            x.append(o)
            x.append({'O': 'parse', 'From': o['To'], 'To': 0, 'Ev': {}})
        s.append({'ID': '%s%d' % (name, len(s)), 'Before': x, 'Pump': pump})
    for j in range(c.pick(1500, 15000)):
        o = Ops(r)
        ops = [o.base()]
        for _ in range(r.randint(0, 5)):
            ops.append(o.derive(r.randint(1, o.n)))
        add(ops, 'rnd')
    # elements and texts that look like each other
    for x in RAW:
        for y in RAW:
            o = Ops(r)
            el = lambda *b: o.op('sd', 1, {'Els': [{'K': 'raw', 'B': b64(i)} for i in b]}, {'els': [{'k': 'raw', 'b': ints(i)} for i in b]})
            ops = [o.op('empty'), el(x, y)]
            ops.append(o.set('msg', 2, r.choice([x, b' ' + y, b'-', b'- x', b'', b' ', b']', b'"', b'  ' + x])))
            add(ops, 'el')
    # short texts
    for n in range(0, c.pick(3, 4)):
        for p in itertools.product([b' ', b'-', b'[', b']', b'"', b'x', b'\n'], repeat=n):
            o = Ops(r)
            t = b''.join(p)
            add([o.create(b'a', 13, t), o.sds(1, 1), o.sds(2, 2)], 'txt')
    for ops, pump in longs(c, r):
        add(ops, 'long', pump)
    # times
    for _ in range(c.pick(150, 2000)):
        o = Ops(r)
        ops = [o.op('empty')]
        for _ in range(6):
            t = anytime(r)
            ops.append(o.op('time', 1, {'T': t}, {'t': ev_time(t), 'os': t.get('OffS', 0)}))
        add(ops, 'time')
    go(c, s)


def c23(c):
    c.model('MCMessage.tla', c.pick('MCMessage_quick.cfg', 'MCMessage.cfg'))
    r = c.rnd
    s = []
    LO, HI = -62167219200, 253402300799      # years 0 to 9999
    for j in range(c.pick(700, 6000)):
        o = Ops(r)
        ops = [o.base()]
        for _ in range(6):
            f = r.randint(1, o.n)
            x = r.random()
            if x < 0.4:
                sec = r.choice([0, 1, -1, 86399, 86400, -86400, -86401, 951782400, 951868799, 1709164800, 2 ** 31 - 1, 2 ** 31, -2 ** 31, 4102444800, r.randint(0, 2 * 10 ** 9), r.randint(LO, HI - 10 ** 6)])
                ns = r.choice([0, 0, 1, 999, 1000, 999999, 10 ** 6, 999999999, 10 ** 9, 1500000000, -1, -1000, -10 ** 9, -1500000000, r.randint(0, 10 ** 9), r.randint(-10 ** 14, 10 ** 14) if sec > 0 else 5])
                if not LO <= sec + ns // 10 ** 9 <= HI:
                    ns = 0
                ops.append(o.epoch(f, sec, ns))
            elif x < 0.75:
                t = anytime(r, True)
                t['Y'] = r.randint(1900, 2200)
                ops.append(o.delta(f, t, r.choice([0, 1, 59, 60, 3600, 86399, 86400, 10 ** 9, -1, -86401, r.randint(0, 10 ** 9), r.randint(-10 ** 9, 10 ** 9)]),
                                   r.choice([0, 1, 999, 1000, 999999999, 10 ** 9, 1500000000, -1, -1001, r.randint(0, 10 ** 9), r.randint(-10 ** 15, 10 ** 15)])))
            elif x < 0.9:
                t = anytime(r)
                if (t['Mo'], t['D']) != (2, 29):
                    ops.append(o.stamp(f, t))
            else:
                ops.append(o.op('now', f))
        s.append({'ID': 't%d' % j, 'Before': ops})
    # every day of a year, as a stamp
    for mo in range(1, 13):
        o = Ops(r)
        ops = [o.op('empty')]
        for d in range(1, DIM[mo - 1] + 1):
            ops.append(o.stamp(1, {'Y': 0, 'Mo': mo, 'D': d, 'H': r.randint(0, 23), 'Mi': r.randint(0, 59), 'S': r.randint(0, 59), 'Ns': 0, 'Off': 0}))
        s.append({'ID': 'stamp%d' % mo, 'Before': ops})
    # days of years, as epochs
    for y in range(c.pick(60, 400)):
        o = Ops(r)
        ops = [o.op('empty')]
        for _ in range(12):
            d = r.randint(-719528, 2932896)
            ops.append(o.epoch(1, d * 86400 + r.choice([0, 86399, 43200]), r.choice([0, 1000, 999999999])))
        s.append({'ID': 'day%d' % y, 'Before': ops})
    # other local zones, of which some have seconds in their offset
    for j in range(c.pick(200, 2000)):
        o = Ops(r)
        ops = [o.base()]
        for _ in range(6):
            f = r.randint(1, o.n)
            x = r.random()
            if x < 0.5:
                ops.append(o.epoch(f, r.choice([-5 * 10 ** 9, -2 * 10 ** 9, -10 ** 8, 0, 10 ** 8, r.randint(-6 * 10 ** 10, 10 ** 11)]), r.randint(0, 10 ** 9)))
            elif x < 0.6:
                ops.append(o.create(b'a', 13, b't'))
            else:
                ops.append(o.op('now', f) if x < 0.7 else o.stamp(f, anytime(r)))
        s.append({'ID': 'zone%d' % j, 'Before': ops, 'Zone': r.choice(ZONES)})
    go(c, s)
    # other dates: every month of a year, the first and last days above all
    s = []
    for j in range(c.pick(150, 1500)):
        o = Ops(r)
        ops = [o.op('empty')]
        for _ in range(5):
            ops.append(o.stamp(1, dict(anytime(r), **r.choice([{}, {'Mo': 12, 'D': r.choice([1, 15, 31])}, {'Mo': 1, 'D': r.choice([1, 31])}, {'Mo': 11, 'D': 30}]))))
        day = r.choice([0, 0, 15, 30, 31, 59, 334, 364, 365, 366, 400, 730, 731, r.randint(0, 366), r.randint(0, 70000)])
        if 2 < day < 360:
            # a leap year
            ops.append(o.stamp(1, dict(anytime(r), Mo=2, D=29), True))
        ops += [o.op('now', 1), o.create(b'a', 13, b't'), o.delta(1, dict(anytime(r, True), Y=1999), r.randint(0, 10 ** 9), 5)]
        s.append({'ID': 'at%d' % j, 'Before': ops, 'At': day * 86400 + r.choice([0, 1, 43200, 86399]), 'Zone': r.choice(['', '', r.choice(ZONES)])})
    go(c, s, 'clock')


ZONES = ['Europe/Paris', 'Africa/Monrovia', 'Asia/Kolkata', 'America/St_Johns', 'Australia/Lord_Howe', 'Pacific/Kiritimati', 'America/New_York', 'Europe/Amsterdam']
PROPS = {'C11': c11, 'C12': c12, 'C13': c13, 'C23': c23}
