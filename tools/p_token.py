"""C24: Tokens.tla"""
import itertools
from vlib import *
from p_receiver import b64, EDGES, WORDS
from p_sdata import NAMES

OPS = ['header', 'space', 'name', 'value']


def value(r, n=None):
    n = r.randint(0, 12) if n is None else n
    b = b''.join(r.choice([b'a', b' ', b'=', b'\\"', b'\\\\', b'\\]', b'[', b'\xc3\xa9', b'\t', b'\\n', bytes([r.randrange(256)])]) for _ in range(n))
    return b


def c24(c):
    c.model('MCTokens.tla', c.pick('MCTokens_quick.cfg', 'MCTokens.cfg'))
    r = c.rnd
    cs = []

    def add(b, ops=OPS + ['walk']):
        for op in ops:
            cs.append({'Op': op, 'B': b64(b)})
    # all short strings
    toks = [b' ', b'"', b'=', b'\\', b']', b'a', b'\x7f', b'\xc3']
    for n in range(0, c.pick(5, 6)):
        for p in itertools.product(toks[:8 if n < 4 else 6], repeat=n):
            add(b''.join(p), OPS + ['walk'] if n < 4 or not c.quick else [r.choice(OPS)])
    # within an element
    for n in range(0, c.pick(4, 5)):
        for p in itertools.product(toks[:7], repeat=n):
            s = b''.join(p)
            for b in (b'id' + s, b'id a' + s, b'id a="' + s, b'id a="' + s + b'"', b'id a=""' + s, b'id ' + s + b'="v"', s + b' a="v"'):
                cs.append({'Op': 'walk', 'B': b64(b)})
    # every byte, everywhere
    for x in range(256):
        for b in (b'name a="b"', b'a="b" c="d"', b'"val" x', b'   x', b'name'):
            for i in range(len(b) + 1):
                s = b[:i] + bytes([x])
                add(s + b[i:], OPS + ['walk'] if r.random() < .2 or not c.quick else [r.choice(OPS)])
                if r.random() < .3:
                    add(s + b[i + 1:], [r.choice(OPS), 'walk'])
    for w in WORDS + EDGES:
        add(w)
        add(b'"' + w + b'"')
        add(b'id a="' + w + b'"', ['walk'])
        add(w + b'="v" b="c"', ['name'])
        add(w + b' a="v"', ['header', 'walk'])
    # elements
    for _ in range(c.pick(3000, 40000)):
        ps = [(r.choice(NAMES).encode(), value(r)) for _ in range(r.choice([0, 1, 1, 2, 3, 8]))]
        b = r.choice(NAMES).encode() + b''.join(b' ' * r.choice([1, 1, 1, 2, 5]) + n + b'="' + v + b'"' for n, v in ps)
        add(b, ['walk'])
        if r.random() < .5:
            i = r.randrange(len(b) + 1)
            j = min(len(b), i + r.choice([0, 1, 1, 2]))
            b = b[:i] + r.choice([b'', bytes([r.randrange(256)]), r.choice(toks)]) + b[j:]
            add(b, ['walk', r.choice(OPS)])
            add(b[r.randrange(len(b) + 1):], [r.choice(OPS)])
        if r.random() < .1:
            add(b[:r.randrange(len(b) + 1)], ['walk', r.choice(OPS)])
    # long ones
    for n in (255, 256, 1023, 1024, 4096) + c.pick((), (20000, 65536)):
        for v in (b'v' * n, value(r, n // 2), b'\\"' * (n // 2), b' ' * n):
            add(b'"' + v + b'" more', ['value'])
            add(b'id a="' + v.replace(b']', b'.') + b'" b="c"', ['walk'])
        add(b'n' * n + b'="v"', ['name', 'header'])
        add(b'n' * n + b' a="v"', ['header', 'walk', 'name'])
        add(b' ' * n + b'x', ['space'])
        add(b' ' * n, ['space'])
        add(b'id' + b' ' * n + b'a="b"', ['walk'])
    add(b'id' + b''.join(b' k%d="%d"' % (k, k) for k in range(c.pick(100, 300))), ['walk'])
    # far longer ones: each Q of these stands for many
    for n in (65537, 1 << 20) + c.pick((), (131072, (1 << 24) + 1)):
        for op, b in (('value', b'"Q" more'), ('value', b'"aQ\\"Q"'), ('value', b'"Q'), ('value', b'Q'), ('value', b'"a]Q"'), ('value', b'""Q'), ('name', b'nQ="v"'), ('name', b'abc="Q"'), ('name', b'nameQ'), ('name', b'na Q="v"'),
                      ('header', b'Q a="v"'), ('header', b'id aQ="Q"'), ('header', b'Q'), ('header', b'iQ"d'), ('space', b' Q'), ('space', b'Q '), ('space', b'  aQ'), ('walk', b'id a="Q" b="cQ"'),
                      ('walk', b'idQ aQ="v"'), ('walk', b'id a="Q\\]" b="Q'), ('walk', b'id name="Q"x')):
            cs.append({'Op': op, 'B': b64(b), 'Pump': n})
    c.run_cases('token', 'CaseTok.tla', cs, batch=400)


PROPS = {'C24': c24}
