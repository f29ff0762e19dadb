"""C10, C19: Syntax.tla, Priority.tla"""
import itertools
from vlib import *
from p_receiver import GOOD, BAD, LOST, EDGES, WORDS, MODES, b64, clean, frame, good, bad, mutate, num, rfc_safe, junk


def pc(t, b, eof): return {'T': t, 'B': b64(b), 'EOF': eof}


def c10(c):
    c.model('MCSyntax.tla', c.pick('MCSyntax_quick.cfg', 'MCSyntax.cfg'))
    r = c.rnd
    cs = []

    def add(t, b):
        if t == 'rfc' and not rfc_safe(b):
            return
        for eof in (False, True):
            if t == 'none' and eof:
                continue
            cs.append(pc(t, b, eof))
    head = b'<13>1 - h a p m '
    # every short string of the bytes that matter, as structured data and text
    toks = [b' ', b'x', b'-', b'[', b']', b'"', b'\\', b'=']
    for n in range(0, c.pick(5, 6)):
        for p in itertools.product(toks, repeat=n):
            s = b''.join(p)
            if n == 4 and c.quick and r.random() < 0.3:
                continue
            cs.append(pc('none', head + s, False))
    # within an element, and after one
    for n in range(0, c.pick(4, 5)):
        for p in itertools.product(toks, repeat=n):
            s = b''.join(p)
            cs.append(pc('none', head + b'[id a="' + s + b'"] t', False))
            if n < 4:
                cs.append(pc('none', head + b'[id' + s + b'] t', False))
                cs.append(pc('none', head + b'[id]' + s, False))
    # every short string as a header
    for n in range(0, c.pick(6, 8)):
        for p in itertools.product([b' ', b'x'] if n > 2 else [b' ', b'x', b'-', b'<', b'1'], repeat=n):
            cs.append(pc('none', b''.join(p), False))
            cs.append(pc('none', b''.join(p) + b' a b c -', False))
            cs.append(pc('none', b'<1>1 - ' + b''.join(p) + b' a b -', False))
    # frames
    fr = [b'', b' ', b'\0', b'\n', b'0', b'1', b'2', b'12', b'x', b'-', b'- ', b'3 ', b'18 ', b'17 ', head, head + b'-', head + b'- t', b'<1>1 - h a p m [a]']
    for n in range(0, c.pick(3, 4)):
        for p in itertools.product(fr, repeat=n):
            for t in MODES:
                add(t, b''.join(p))
    for t in MODES + ['none']:
        for g in GOOD + BAD:
            m = clean(num(g, 5), t) if t != 'none' else num(g, 5)
            f = frame(t, m) if t != 'none' else m
            # every prefix of two frames
            st = f + f
            for cut in range(0, len(st) + 1, c.pick(3, 1)):
                add(t, st[:cut])
            add(t, st + b'more')
        for l in LOST:
            add(t, l)
            add(t, frame(t, num(GOOD[0], 1)) + l if t != 'none' else l)
        for _ in range(c.pick(500, 12000)):
            m = good(r, t)
            for _ in range(r.randint(0, 3)):
                m = mutate(r, m, t)
            x = m if t == 'none' else (frame(t, m) + r.choice([b'', b'x', b'\0', b'\n', b'1 ', frame(t, good(r, t))]))
            if r.random() < 0.3:
                x = x[:r.randint(0, len(x))]
            add(t, x)
        for _ in range(c.pick(100, 4000)):
            add(t, junk(r, t))
    # fields: lengths around the limits, any byte
    for k, lim in ((2, 255), (3, 48), (4, 128), (5, 32)):
        for n in (1, 2, lim - 1, lim, lim + 1, lim + 50):
            f = [b'<13>1', b'-', b'h', b'a', b'p', b'm']
            f[k] = bytes(33 + (i * 11 + n) % 94 for i in range(n))
            cs.append(pc('none', b' '.join(f) + b' - text', False))
        for w in WORDS:
            f = [b'<13>1', b'-', b'h', b'a', b'p', b'm']
            f[k] = w
            cs.append(pc('none', b' '.join(f) + b' - text', False))
        for x in range(256):
            f = [b'<13>1', b'-', b'h', b'a', b'p', b'm']
            f[k] = b'a' + bytes([x]) + b'b'
            if x != 32:
                cs.append(pc('none', b' '.join(f) + b' [x y="z"] text', False))
    # texts: any byte and what may be taken for something else, at the begin, at the end, alone
    for x in [bytes([i]) for i in range(256)] + EDGES:
        for t in MODES + ['none']:
            for m in (b'- ' + x + b'text', b'- text' + x, b'- ' + x, b'[a b="c"] ' + x + x, b'[a b="' + (x if x not in (b'"', b'\\', b']') else b'') + b'"] text' + x + b'.' + x):
                m = head + (m if t == 'none' else clean(m, t))
                cs.append(pc(t, frame(t, m) + r.choice([b'', b'x', frame(t, m)]) if t != 'none' else m, False))
    # long ones: texts, elements, many elements
    for n in (1023, 1024, 4096, 8191, 16384, 65535, 65536) + c.pick((), (32768, 65537, 70000, 131072, 200000)):
        x = bytes(97 + (i * 7 + i // 26) % 26 for i in range(n))
        for t in MODES + ['none']:
            e = x
            for m in (b'- ' + x, b'[a b="' + e + b'"]', b'[a b="' + e[:n // 2] + b'"][c d="' + e[n // 2:] + b'"] ' + x, b'[a b="1"]' * (min(n, 2000) // 9) + b' t', b'[a' + b' b="1"' * (min(n, 2000) // 6) + b'] t'):
                m = head + m
                cs.append(pc(t, frame(t, m) + r.choice([b'', b'x', frame(t, head + b'- t')]) if t != 'none' else m, False))
    # what is far longer: the plain byte Q stands for X of them, before the real parser; MCPump shows that it does not matter to the specification
    def pump(x, t, m, eof=False, tail=b''):
        d = dict(pc(t, (frame(t, m) if t != 'none' else m) + tail, eof), X=x)
        cs.append(d)
    c.model('MCPump.tla', c.pick('MCPump_quick.cfg', 'MCPump.cfg'))
    for x in (65530, 131072, 1 << 20, (1 << 22) + 3) + c.pick((), (70000, 99999, 262144, 300001, 999950, 10000000, (1 << 24) + 1, 33000000)):
        for t in MODES + ['none']:
            for b in [b'- Q', b'- aQb', b'[a b="Q"]', b'[a b="Q"][c d="Q"] t', b'[a b="QQ\\]"]', b'[a b="\\"Q"] Qx', b'[a b="Q] t', b'[a b="c"]Q', b'[a b="c" Q="d"]', b'[Q]', b'Q', b'[aQ', b'- ' + b'Q ' * 3, b'[a b="Q"] '] if x <= 1 << 20 else [b'- aQb', b'[a b="Q"] t']:
                pump(x, t, head + b, tail=r.choice([b'', frame(t, head + b'- t') if t != 'none' else b'']))
                if t != 'none' and x <= 1 << 20:
                    for eof in (False, True):
                        f = frame(t, head + b)
                        cs.append(dict(pc(t, f[:len(f) - r.randint(1, 2)], eof), X=x))
    # priorities and times
    for p in ['<0>1', '<9>1', '<13>1', '<191>1', '<192>1', '<999>1', '<007>1', '<>1', '<1>', '<1>2', '1>1', '<1', '<a>1', '<1000>1', '<-1>1', '<1>1x']:
        cs.append(pc('none', p.encode() + b' - h a p m - t', False))
    for ts in ['2024-02-29T13:14:15Z', '2024-02-29T13:14:15.1Z', '2024-02-29T13:14:15.123456+01:00', '1969-12-31T23:59:59.999999-23:59', '0000-01-01T00:00:00Z',
               '9999-12-31T23:59:59.000001+14:00', '2023-02-29T00:00:00Z', '2024-13-01T00:00:00Z', '-', 'x', '2024-02-29t13:14:15z', '2024-02-29T24:00:00Z', '2024-02-29T13:14:15.1234567Z',
               '2024-02-29T13:14:15+00:30', '2024-02-29T13:14:15-00:01', '2024-02-29T13:14:15.100000Z']:
        cs.append(pc('none', b'<1>1 ' + ts.encode() + b' h a p m - t', False))
    for _ in range(c.pick(100, 3000)):
        y, mo, d = r.randint(0, 9999), r.randint(1, 12), r.randint(1, 28)
        ts = '%04d-%02d-%02dT%02d:%02d:%02d' % (y, mo, d, r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))
        us = r.choice([0, r.randint(0, 999999), r.randint(0, 99) * 10000])
        ts += ('.%06d' % us).rstrip('0') if us else ''
        ts += r.choice(['Z', '%s%02d:%02d' % (r.choice('+-'), r.randint(0, 23), r.randint(1, 59))])
        cs.append(pc('none', b'<1>1 ' + ts.encode() + b' h a p m - t', False))
    c.run_cases('parse', 'CaseParse.tla', cs)


def c19(c):
    r = c.rnd
    cs = [{'Op': 'marshal', 'P': p} for p in range(192)] + [{'Op': 'both', 'P': p, 'Before': r.randint(0, 191)} for p in range(192)]
    cs += [{'Op': 'string', 'P': p} for p in range(0, c.pick(1200, 20000))]

    def un(b): cs.append({'Op': 'unmarshal', 'B': b64(b), 'Before': r.choice([0, 77, 191])})
    for n in range(0, c.pick(6, 7)):
        for p in itertools.product(b'<>10' if n > 4 else b'<>109x ', repeat=n):
            un(bytes(p))
    for n in range(0, 1000):
        un(b'<%d>1' % n)
        un(b'<%03d>1' % n)
    for n in range(0, 100):
        un(b'<%02d>1' % n)
        un(b'<%d>1' % (n * 101 + 1000))
    for x in range(256):
        for s in (b'<1>1', b'<12>1', b'<123>1'):
            for i in range(len(s)):
                un(s[:i] + bytes([x]) + s[i + 1:])
            un(s + bytes([x]))
    fac = ['kern', 'user', 'mail', 'daemon', 'auth', 'syslog', 'lpr', 'news', 'uucp', 'cron', 'authpriv', 'ftp'] + ['local%d' % i for i in range(10)]
    sev = ['emerg', 'alert', 'crit', 'err', 'warning', 'notice', 'info', 'debug']
    more = ['', '-', 'Kern', 'KERN', 'kern ', ' kern', 'local', 'local8', 'local10', 'security', 'error', 'warn', 'panic', 'none', '*', '0', '1', 'ntp', 'unknown', 'audit', 'emergency', 'critical', 'D', 'aut']

    def se(s): cs.append({'Op': 'set', 'S': s, 'Before': r.choice([0, 13, 191])})
    for f in fac + more:
        for s in sev + more:
            se(f + '.' + s)
    for f in fac:
        se(f)
        se(f + '..err')
        se(f + '.err.')
        se(f + '.err.err')
        se('.' + f + '.err')
        se('err.' + f)
        se(f + ',err')
        se(f + '.err\x00')
        se(f + '\u3002err')
    for _ in range(c.pick(1000, 20000)):
        s = list(r.choice(fac) + '.' + r.choice(sev))
        for _ in range(r.randint(1, 2)):
            i = r.randrange(len(s)) if s else 0
            x = r.random()
            if x < 0.4 and s:
                del s[i]
            elif x < 0.7:
                s.insert(i, r.choice('abcdelorwm.0129 -é'))
            elif s:
                s[i] = s[i].upper() if r.random() < 0.3 else r.choice('abcdelorwm.0129')
        se(''.join(s))
    c.run_cases('priority', 'CasePriority.tla', cs, batch=400)


PROPS = {'C10': c10, 'C19': c19}
