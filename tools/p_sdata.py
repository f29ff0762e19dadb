"""C16, C17, C18: SData.tla, Registry.tla"""
import itertools
from vlib import *
from p_receiver import b64, EDGES, WORDS

IDS = {'A': b'x@32473', 'B': b'origin', 'C': b'a', 'D': b"exampleSDID-_.!#$%&'()*+,/:;<>?@[1"}
I64 = 2 ** 63


def ints(b): return list(b)


def S(b, st=False): return {'k': 's', 'b': ints(b), 'str': st}


NIL, BAD = {'k': 'nil'}, {'k': 'bad'}
FLOATS = {0: '0', 1.5: '1.5', -2.25: '-2.25', 1e20: '1e+20', 1e21: '1e+21', 100000: '100000', 0.1: '0.1', 1e-7: '1e-07'}
SPECIAL = [b'"', b'\\', b']', b'[', b' ', b'=', b'a', b'\n', b'\0', b'\xff', '\u00e9'.encode(), b'\\"', b'"]', b'\\]', b'] -', b'" b="', b'%', b'\\\\', b'\r', b'\x7f', b"'"]


def text(r):
    x = r.random()
    if x < 0.1:
        return b''
    if x < 0.6:
        return b''.join(r.choice(SPECIAL) for _ in range(r.randint(1, 6)))
    if x < 0.7:
        return bytes(r.randint(0, 255) for _ in range(r.randint(1, 30)))
    return bytes(r.choice(b'abcdefgh 019-_') for _ in range(r.randint(1, 12)))


def value(r, depth=2, bad=0.03):
    """a value for an interface{}: for Go, for the specification (as an interface holds it)"""
    g, s = value0(r, depth, bad)
    return g, (s if s['k'] == 'nil' and g['K'] == 'nil' else {'k': 'iface', 'v': s})


def value0(r, depth, bad):
    x = r.random()
    if x < bad:
        if r.random() < 0.3:
            return {'K': 'badraw'}, BAD
        return {'K': 'bad', 'N': r.choice([0, 1, 2, 3, 4, 5, 6])}, BAD
    k = r.choice(['str', 'str', 'str', 'named', 'int', 'uint', 'bool', 'float', 'nil', 'list', 'strs', 'array', 'ptr', 'nilptr', 'nillist', 'raw', 'ptrraw', 'nilraw', 'bytes', 'pp', 'f32', 'u64'])
    if depth == 0 and k in ('list', 'array'):
        k = 'str'
    if k == 'str':
        t = text(r)
        return {'K': k, 'B': b64(t)}, S(t, True)
    if k == 'named':
        t = text(r)
        return {'K': k, 'B': b64(t)}, S(t, True)
    if k == 'int':
        n = r.choice([0, -1, 7, I64 - 1, -I64, r.randint(-10 ** 6, 10 ** 6)])
        return {'K': k, 'N': n}, S(str(n).encode())
    if k == 'uint':
        n = r.choice([0, 65535, 12])
        return {'K': k, 'N': n}, S(str(n).encode())
    if k == 'bool':
        n = r.randint(0, 1)
        return {'K': k, 'N': n}, S([b'false', b'true'][n])
    if k == 'float':
        n = r.choice(list(FLOATS))
        return {'K': k, 'X': n}, S(FLOATS[n].encode())
    if k in ('nil',):
        return {'K': 'nil'}, NIL
    if k == 'ptrraw':
        t = text(r)
        return {'K': k, 'B': b64(t)}, S(t)
    if k == 'bytes':
        t = bytes(r.choice([0, 9, 10, 99, 100, 255]) for _ in range(r.randint(0, 3)))
        return {'K': k, 'B': b64(t)}, {'k': 'list', 'l': [S(str(x).encode()) for x in t]}
    if k == 'pp':
        g, s = ptr(r)
        return {'K': k, 'V': g if g['K'] == 'ptr' else {'K': 'nilptr'}}, {'k': 'ptr', 'v': s}
    if k == 'f32':
        n = r.choice([x for x in FLOATS if x not in (0.1, 1e-7)])
        return {'K': k, 'X': n}, S(FLOATS[n].encode())
    if k == 'u64':
        n = r.choice([0, I64 - 1, 10])
        return {'K': k, 'N': n}, S(str(n).encode())
    if k in ('nilptr', 'nillist', 'nilraw'):
        return {'K': k}, NIL
    if k == 'list':
        l = [value(r, depth - 1, bad) for _ in range(r.randint(0, 4))]
        return {'K': k, 'L': [a for a, _ in l]}, {'k': 'list', 'l': [b for _, b in l]}
    if k == 'array':
        l = [value(r, depth - 1, bad) for _ in range(2)]
        return {'K': k, 'L': [a for a, _ in l]}, {'k': 'list', 'l': [b for _, b in l]}
    if k == 'strs':
        return strs(r, r.randint(0, 4))
    if k == 'ptr':
        t = text(r)
        return {'K': k, 'V': {'K': 'str', 'B': b64(t)}}, {'k': 'ptr', 'v': S(t, True)}
    t = text(r)
    return {'K': 'raw', 'B': b64(t)}, S(t)


def strs(r, n):
    l = [text(r) for _ in range(n)]
    return {'K': 'strs', 'L': [{'K': 'str', 'B': b64(t)} for t in l]}, {'k': 'list', 'l': [S(t, True) for t in l]}


def own(r):
    """a value with its own encoding, or none"""
    t = text(r)
    return r.choice([({'K': 'nil'}, NIL), ({'K': 'nilraw'}, NIL), ({'K': 'ptrraw', 'B': b64(t)}, S(t)), ({'K': 'ptrraw', 'B': b64(t)}, S(t)),
                     ({'K': 'raw', 'B': b64(t)}, S(t)), ({'K': 'raw', 'B': b64(t)}, S(t)), ({'K': 'badraw'}, BAD)])


def ptr(r):
    if r.random() < 0.4:
        return {'K': 'nilptr'}, NIL
    t = text(r)
    return {'K': 'ptr', 'V': {'K': 'str', 'B': b64(t)}}, {'k': 'ptr', 'v': S(t, True)}


NAMES = ['a', 'b', 'c', 'A', 'Z', 'aa', 'ab', 'a-b', 'x_y', '1', '10', '9', 'name', 'id', 'n.m', '~', '!', '[x', "a'b", 'long' * 8]


def entry(name, gv, mand=False, skip=False):
    g, v = gv
    return dict(g, Name=name), {'name': ints(name.encode()), 'v': v, 'mand': mand, 'skip': skip}


def case(typ, id, ents, r, kind='map', Id=None, nil=False):
    w = bytes(r.choice(b'abc []"=\\-') for _ in range(r.randint(0, 6))).rstrip()
    return {'E': {'Type': typ, 'ID': id, 'Nil': nil, 'Entries': [g for g, _ in ents]},
            'El': {'kind': kind, 'id': ints(Id or IDS[id]), 'entries': [s for _, s in ents]}, 'W': w.decode()}


def sstr(t): return {'K': 'str', 'B': b64(t)}, S(t, True)


def sint(n): return {'K': 'int', 'N': n}, S(str(n).encode())


def sbool(n): return {'K': 'bool', 'N': n}, S([b'false', b'true'][n])


def c16(c):
    c.model('MCSData.tla', c.pick('MCSData_quick.cfg', 'MCSData.cfg'))
    r = c.rnd
    cs = []
    # every short value of the bytes that matter, alone and next to others
    al = [b'a', b'"', b'\\', b']', b' ', b'[', b'=']
    for n in range(0, c.pick(4, 5)):
        for p in itertools.product(al, repeat=n):
            v = b''.join(p)
            cs.append(case('SS', 'C', [entry('a', sstr(v))], r))
            if n < 4:
                w = r.choice([b'\\', b'"', b']', v])
                cs.append(case(r.choice(['SS', 'KS']), r.choice('ABCD'), [entry('b', sstr(v)), entry('a', sstr(w))], r))
    # every byte
    for x in range(256):
        for s in (bytes([x]), b'a' + bytes([x]), bytes([x]) + b'"', b'\\' + bytes([x]), bytes([x, x])):
            cs.append(case('SS', 'B', [entry('k', sstr(s))], r))
    for x in EDGES + WORDS:
        for s in (x, b'a' + x, x + b'a', x + x, b'"' + x, x + b'\\'):
            cs.append(case(r.choice(['SS', 'SI', 'KS']), r.choice('ABCD'), [entry('k', sstr(s))], r))
    # numbers of entries
    for id in 'ABCD':
        for t in ('SS', 'SI', 'KS', 'SL', 'SP', 'SN'):
            cs.append(case(t, id, [], r))
        cs.append(case('SS', id, [], r, nil=True))
        cs.append(case('SI', id, [], r, nil=True))
        cs.append(case('default', id, [], r))
        cs.append(case('SF', id, [entry('f', ({'K': 'bad'}, BAD))], r))
        cs.append(case('IS', id, [entry('f', ({'K': 'bad'}, BAD))], r))
        cs.append(case('SS', id, [entry('k%d' % i, sstr(text(r))) for i in range(60)], r))
    # the order of the names
    for a, b in itertools.permutations(NAMES, 2):
        cs.append(case('SS', 'A', [entry(a, sstr(b'1')), entry(b, sstr(b'2'))], r))
    n = c.pick(1200, 15000)
    for _ in range(n):
        names = r.sample(NAMES, r.randint(1, 5))
        cs.append(case(r.choice(['SS', 'KS']), r.choice('ABCD'), [entry(m, sstr(text(r))) for m in names], r))
        cs.append(case('SI', r.choice('ABCD'), [entry(m, value(r, bad=r.choice([0, 0, 0.1]))) for m in names], r))
        cs.append(case('SL', r.choice('ABCD'), [entry(m, strs(r, r.randint(0, 3))) for m in names], r))
        cs.append(case('SP', r.choice('ABCD'), [entry(m, ptr(r)) for m in names], r))
        cs.append(case('SN', r.choice('ABCD'), [entry(m, sint(r.randint(-1000, 1000))) for m in names], r))
        cs.append(case('A', '', [entry('First', sstr(text(r))), entry('second', sstr(text(r))), entry('List', r.choice([lambda: strs(r, r.randint(0, 3)), lambda: ({'K': 'strs', 'L': []}, {'k': 'list', 'l': []})])()),
                                 entry('ptr', ptr(r)), entry('Any', value(r, bad=0)), entry('Num', sint(r.choice([0, 1, -5]))), entry('Flag', sbool(r.randint(0, 1)))],
                       r, 'struct', b'structA@1'))
        must = text(r) if r.random() < 0.85 else b''
        anys = [value(r, 1, 0) for _ in range(r.randint(0, 3))]
        pp = ptr(r)
        f = r.choice(list(FLOATS))
        cs.append(case('B', '', [entry('must', sstr(must), mand=True), entry('other', sstr(text(r))), entry('Named', ({'K': 'named', 'B': b64(must)}, S(must, True))),
                                 entry('Anys', ({'K': 'list', 'L': [a for a, _ in anys]}, {'k': 'list', 'l': [b for _, b in anys]})),
                                 entry('arr', strs(r, 2)), entry('PP', ({'K': 'ptr', 'V': pp[0]}, {'k': 'ptr', 'v': pp[1]}) if pp[0]['K'] == 'ptr' else ({'K': 'nil'}, NIL)),
                                 entry('U', sint(r.choice([0, 2 ** 40]))), entry('I8', sint(r.choice([0, -128, 127]))), entry('F', ({'K': 'float', 'X': f}, S(FLOATS[f].encode())))],
                       r, 'struct', b'structB@1'))
        t = text(r)
        nested = own(r)
        cs.append(case('SR', r.choice('ABCD'), [entry(m, own(r)) for m in names], r))
        pl = [ptr(r) for _ in range(r.randint(0, 3))]
        ll = [strs(r, r.randint(0, 3)) for _ in range(r.randint(0, 2))]
        it = [sint(r.randint(-9, 99)) for _ in range(r.choice([0, 1, 1, 2, 3, 3, 3]))]
        lst = lambda l: ({'K': 'list', 'L': [a for a, _ in l]}, {'k': 'list', 'l': [b for _, b in l]})
        cs.append(case('C', '', [entry('Nested', nested), entry('Bad', value(r, 1, r.choice([0, 0.3]))), entry('pl', lst(pl)), entry('LL', lst(ll)), entry('ints', lst(it), mand=True),
                                 entry('M', r.choice([({'K': 'nil'}, NIL), ({'K': 'nil'}, NIL), ({'K': 'nil'}, NIL), ({'K': 'bad', 'N': 3}, BAD)])),
                                 entry('RL', lst([own(r) for _ in range(r.choice([0, 0, 1, 2, 4]))]))], r, 'struct', b'structC@1'))
    # many: values of a list, elements of a slice, pairs of a map, bytes of a value
    def several(n): return {'K': 'strs', 'L': [{'K': 'str', 'B': b64(t)} for t in n]}, {'k': 'list', 'l': [S(t, True) for t in n]}
    for n in (5, 16, 17, 31, 33, 63, 64, 65, 100, 128, 129, 255, 256, 257, 300) + c.pick((), (511, 513, 1000, 1025)):
        ts = [b'%d' % i + r.choice([b'', b'"', b'\\']) for i in range(n)]
        cs.append(case('SL', 'A', [entry('l', several(ts)), entry('k', several(ts[:2]))], r))
        l = [value(r, 0, 0) for _ in range(n)]
        li = {'K': 'list', 'L': [a for a, _ in l]}, {'k': 'iface', 'v': {'k': 'list', 'l': [b for _, b in l]}}
        cs.append(case('SI', 'B', [entry('l', li), entry('z', value(r))], r))
        cs.append(case('SS', 'D', [entry('k%d' % i, sstr(t)) for i, t in enumerate(ts)], r))
        cs.append(case('SI', 'D', [entry('k%d' % i, value(r, 1, 0)) for i in range(n)], r))
        for ch in (b'a', b'"', b'\\', b']'):
            cs.append(case(r.choice(['SS', 'KS']), 'C', [entry('v', sstr(ch * n)), entry('w', sstr(b'x' * n + ch))], r))
        k = 'n' * n
        cs.append(case('SS', 'C', [entry(k, sstr(b'1')), entry(k + 'm', sstr(b'2')), entry(k[:-1], sstr(b'3'))], r))
    for t in (b'', b'x'):
        cs.append(case('D', '', [entry('Name', sstr(t), mand=True), entry('Fn', ({'K': 'bad'}, BAD))], r, 'struct', b'structD@1'))
    cs.append(case('E', '', [], r, 'struct', b'structE@1'))
    for n in (1030,) + c.pick((), (1500,)):
        cs.append(case('SL', 'A', [entry('l', several([b''] * n))], r))
    # far longer values: each Q of these stands for many
    for n in (3000, 40000, 65537, 1 << 20) + c.pick((), (5000, 8192, 16384, 131072, 1 << 22)):
        for t, v in (('SS', sstr(b'Q')), ('SS', sstr(b'"Q]\\')), ('SI', sstr(b'aQ"Qb')), ('SL', several([b'Q', b'', b'x"', b'Q"'])), ('SP', ({'K': 'ptr', 'V': {'K': 'str', 'B': b64(b'Q]')}}, {'k': 'ptr', 'v': S(b'Q]', True)})),
                     ('SI', ({'K': 'raw', 'B': b64(b'Q]')}, {'k': 'iface', 'v': S(b'Q]')}))):
            cs.append(dict(case(t, 'A', [entry('l', v), entry('m', sstr(b'1') if t in ('SS', 'SI') else v)], r), Pump=n))
    c.run_cases('sd', 'CaseSD.tla', cs, batch=100)


ACCS = [0, 1, -1, 9, 10, 99, 100, 999, 12345, 10 ** 9, 2 ** 31 - 1, 2 ** 31, -2 ** 31, 2 ** 32, 10 ** 18, 10 ** 19 - 10 ** 18, I64 - 1, -I64, -I64 + 1, -10, -99]


def c17(c):
    c.model('MCSData.tla', 'MCSData_quick.cfg')
    r = c.rnd
    cs = []
    accs = [None] + ACCS + [r.choice([1, -1]) * r.randrange(2 ** r.randint(1, 63)) for _ in range(c.pick(300, 5000))]
    for a in accs:
        for tz in (False, True):
            for sy in (False, True):
                cs.append({'Op': 'enc', 'Tz': tz, 'Sync': sy, 'Acc': a})

    def dec(b): cs.append({'Op': 'dec', 'B': b64(b)})
    P = [b' tzKnown="%s"', b' isSynced="%s"', b' syncAccuracy="%s"']
    V = [[b'0', b'1'], [b'0', b'1'], [b'0', b'-1', b'77']]
    odd = [b'', b'2', b'01', b'00', b'10', b'true', b'-1', b'+1', b' 1', b'1 ', b'a', b'0x1', b'1_0', b'\\"', b'\\1', b'9223372036854775807', b'9223372036854775808', b'-9223372036854775808',
           b'-9223372036854775809', b'99999999999999999999999', b'1e3', b'1.0', b'-', b'+', b'--1', b'-0', b'0000', b'1\0', b'\xd9\xa1']
    # every combination and order of parameters
    for n in range(0, 4):
        for names in itertools.permutations(range(3), n):
            for vals in itertools.product(*[V[i] for i in names]):
                dec(b'[timeQuality' + b''.join(P[i] % v for i, v in zip(names, vals)) + b']')
            # one odd value
            for k in range(n):
                for o in odd:
                    vals = [b'1'] * n
                    vals[k] = o
                    dec(b'[timeQuality' + b''.join(P[i] % v for i, v in zip(names, vals)) + b']')
    full = b'[timeQuality tzKnown="1" isSynced="1" syncAccuracy="42"]'
    # ids, names
    for i in [b'timeQualit', b'timeQualityx', b'TimeQuality', b'timequality', b'timeQuality@1', b'timeQuality1', b'', b' timeQuality', b'x', b'timeQualitytimeQuality']:
        dec(b'[' + i + full[12:])
        dec(b'[' + i + b']')
        dec(b'[' + i + b' tzKnown="1"]')
    for i in [b'tzknown', b'tzKnow', b'tzKnownx', b'TzKnown', b'IsSynced', b'SyncAccuracy', b'x', b'']:
        for v in (b'0', b'1', b'5'):
            dec(b'[timeQuality %s="%s"]' % (i, v))
            dec(full[:-1] + b' %s="%s"]' % (i, v))
            dec(b'[timeQuality %s="%s"' % (i, v) + full[12:])
    for a in itertools.product(range(3), repeat=2):
        for v in itertools.product([b'0', b'1'], repeat=2):
            dec(b'[timeQuality' + b''.join(P[i] % x for i, x in zip(a, v)) + b']')
    # every cut, every byte changed, removed, added
    for b in (full, b'[timeQuality tzKnown="0"]', b'[timeQuality]', b'[timeQuality syncAccuracy="-5" tzKnown="1" isSynced="1"]'):
        for i in range(len(b) + 1):
            dec(b[:i])
            dec(b[i:])
            for x in b'"\\] [=10a\0':
                dec(b[:i] + bytes([x]) + b[i:])
                if i < len(b):
                    dec(b[:i] + bytes([x]) + b[i + 1:])
            if i < len(b):
                dec(b[:i] + b[i + 1:])
    for _ in range(c.pick(3000, 40000)):
        b = bytearray(r.choice([full, b'[timeQuality' + b''.join(r.choice(P) % r.choice([b'1', b'1', b'0', str(r.choice(ACCS)).encode(), r.choice(odd)]) for _ in range(r.randint(0, 4))) + b']']))
        for _ in range(r.randint(0, 2)):
            i = r.randrange(len(b) + 1)
            x = r.random()
            if x < 0.3 and b:
                del b[min(i, len(b) - 1)]
            elif x < 0.6:
                b.insert(i, r.choice(b'"\\] [=10atzK'))
            elif b:
                b[min(i, len(b) - 1)] = r.choice(b'"\\] [=10atzK')
        dec(bytes(b))
    c.run_cases('tq', 'CaseTQ.tla', cs, batch=400)


TQS = [b'[timeQuality tzKnown="1" isSynced="1" syncAccuracy="60000"]', b'[timeQuality tzKnown="0"]', b'[timeQuality]', b'[timeQuality isSynced="1"]', b'[timeQuality tzKnown="1" x="y"]',
       b'[timeQuality@1 tzKnown="1"]', b'[timeQuality tzKnown="1" tzKnown="0"]', b'[timeQuality tzKnown="01"]']
OTHERS = [b'[a]', b'[a b="c"]', b'[origin ip="1.2.3.4" ip="5.6.7.8"]', b'[x@32473 a="\\\\" b="\\"" c="\\]"]', b'[y a=""]', b'[z a=" ]\\]"]'.replace(b' ]', b' '), b'[i v="\xc3\xa9\n"]', b'[e n="a=b [c"]']
ODDS = [b'[a "x"]', b'[a  b="c"]', b'[a b="c" d]'.replace(b' d]', b'"d"]'), b'[a=b="c"]', b'[a ="b"]', b'[a b=""c=""]']


def reg_scenario(r, sid, conc, ndec, nid):
    tag = sid.replace('_', '-')
    ids = ['%s-%d@1' % (tag, i) for i in range(nid)]
    decs = []
    bare = set()
    for k in range(ndec):
        kind = r.choice(['exact', 'exact', 'exact', 'picky', 'prefix', 'bare'])
        i = r.choice(ids)
        if kind == 'bare' and i in bare:
            kind = 'exact'
        if kind == 'bare':
            bare.add(i)
        # names: often the same as another one
        name = i if kind == 'bare' else r.choice([i, 'n-' + tag, '%s-%d' % (tag, k), '%s-%d' % (tag, k), 'TimeQuality' if r.random() < 0.2 else i])
        decs.append({'Name': name, 'Kind': kind, 'Id': i})
        if kind != 'bare' and name in ids:
            bare.add(name)
    # a name used by a generic decoder identifies it
    els = []
    for i in ids:
        i = i.encode()
        els += [b'[' + i + b']', b'[' + i + b' a="b"]', b'[' + i + b' a="!"]', b'[' + i + b'x c="d"]', b'[' + i + b'  a="b"]']
    msgs = []
    for k in range(r.randint(1, 4)):
        n = r.choice([0, 1, 2, 3, 4, 6, 12])
        sd = b''.join(r.choice(els) if r.random() < 0.6 else r.choice(TQS) if r.random() < 0.4 else r.choice(OTHERS) if r.random() < 0.8 else r.choice(ODDS) for _ in range(n)) or b'-'
        msgs.append(b64(b'<13>1 - h a p m ' + sd + r.choice([b'', b' ', b' text', b' [x]'])))
    nw = r.randint(2, 4) if conc else 1
    W = []
    regs = list(range(1, ndec + 1))
    for w in range(nw):
        ops = []
        for _ in range(r.randint(3, 9 if conc else 20)):
            x = r.random()
            if x < 0.35 and ndec:
                ops.append({'O': 'reg', 'Ds': [r.choice(regs)]})
            elif x < 0.42 and ndec:
                ops.append({'O': 'group', 'Ds': r.sample(regs, r.randint(0, min(3, ndec)))})
            else:
                ops.append({'O': r.choice(['parse', 'fresh']), 'M': r.randint(1, len(msgs))})
        W.append(ops)
    return {'ID': sid, 'Msgs': msgs, 'Decs': decs, 'W': W, 'Serial': not conc}


def group_ok(s):
    """a group with two decoders of one name: their order matters, the specification registers them in any order"""
    for ops in s['W']:
        for o in ops:
            if o['O'] == 'group':
                names = [s['Decs'][k - 1]['Name'] for k in o['Ds']]
                if len(set(names)) != len(names):
                    o['Ds'] = o['Ds'][:1]
    return s


def c18(c):
    c.model('MCRegistry.tla', c.pick('MCRegistry_quick.cfg', 'MCRegistry.cfg'))
    r = c.rnd
    s = []
    for j in range(c.pick(500, 4000)):
        s.append(group_ok(reg_scenario(r, 's%d' % j, False, r.randint(0, 5), r.randint(1, 3))))
    for j in range(c.pick(500, 4000)):
        s.append(group_ok(reg_scenario(r, 'c%d' % j, True, r.randint(1, 5), r.randint(1, 3))))
    # every element, alone, then with its decoder
    for j, el in enumerate(TQS + OTHERS + ODDS + [b'[%s]' % (b'i' * n) for n in (1, 2, 32, 33, 200)]):
        i = 'one%d' % j
        m = b64(b'<13>1 - h a p m ' + el)
        m3 = b64(b'<13>1 - h a p m [k]' + el + el + b'[l m="n"] t')
        s.append({'ID': i, 'Msgs': [m, m3], 'Decs': [{'Name': i, 'Kind': 'exact', 'Id': i}], 'Serial': True,
                  'W': [[{'O': 'parse', 'M': 1}, {'O': 'fresh', 'M': 2}, {'O': 'reg', 'Ds': [1]}, {'O': 'fresh', 'M': 1}, {'O': 'parse', 'M': 2}]]})
    # long elements
    for j, n in enumerate((100, 255, 256, 500, 1023, 1024, 1025, 2000, 4100) + c.pick((), (20000,))):
        i = 'longel%d' % j
        els = b'[%s k="%s"]' % (i.encode(), b'v' * n) + b'[%s' % i.encode() + b''.join(b' k%d="v"' % k for k in range(n // 10)) + b'][other k="%s"][%s]' % (b'w' * n, i.encode())
        m = b64(b'<13>1 - h a p m ' + els + b' t')
        s.append({'ID': i, 'Msgs': [m], 'Decs': [{'Name': 'n' + i, 'Kind': ['exact', 'prefix', 'picky'][j % 3], 'Id': i}], 'Serial': True,
                  'W': [[{'O': 'parse', 'M': 1}, {'O': 'reg', 'Ds': [1]}, {'O': 'fresh', 'M': 1}]]})
    # far longer ones: each Q of these stands for many
    for j, n in enumerate((40000, 65537, 1 << 20) + c.pick((), (20000, 131072, 1 << 22))):
        i = 'vast%d' % j
        els = b'[%s k="Q"]' % i.encode() + b'[other k="Qx" l="Q\\"Q"][%s][z y=""]' % i.encode()
        s.append({'ID': i, 'Msgs': [b64(b'<13>1 - h a p m ' + els + b' t')], 'Decs': [{'Name': 'n' + i, 'Kind': ['exact', 'prefix', 'picky'][j % 3], 'Id': i}], 'Serial': True, 'Pump': n,
                  'W': [[{'O': 'parse', 'M': 1}, {'O': 'reg', 'Ds': [1]}, {'O': 'fresh', 'M': 1}]]})
    # every byte of an element's name, its length
    ok = [x for x in range(33, 127) if x not in b'"=]']
    for j, i in enumerate([bytes([x]) for x in ok] + [b'a%cb' % x for x in ok] + [b'x@%s' % (b'1' * n) for n in (1, 5, 10)] + [b'i' * n for n in (31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 300)]):
        if j < len(ok):
            i2 = i
        else:
            i2 = b'name%d' % j + i
        m = b64(b'<13>1 - h a p m [%s][%s k="v"] t' % (i2, i2))
        s.append({'ID': 'byte%d' % j, 'Msgs': [m], 'Decs': [{'Name': i2.decode(), 'Kind': 'exact', 'Id': i2.decode()}], 'Serial': True,
                  'W': [[{'O': 'parse', 'M': 1}, {'O': 'reg', 'Ds': [1]}, {'O': 'fresh', 'M': 1}]]})
    # many elements
    for n in (50, 300):
        i = 'many%d' % n
        m = b64(b'<13>1 - h a p m ' + b''.join(b'[e%d a="%d"]' % (k, k) for k in range(n)))
        s.append({'ID': i, 'Msgs': [m], 'Decs': [], 'Serial': True, 'W': [[{'O': 'parse', 'M': 1}]]})
    # registrations while others parse, all the time
    for j in range(c.pick(8, 24)):
        i = 'hammer%d' % j
        nd = 150
        decs = [{'Name': '%s-%d' % (i, k % 100), 'Kind': 'exact', 'Id': '%s-%d' % (i, k)} for k in range(nd)]
        m = b64(b'<13>1 - h a p m [%s-7 a="b"][timeQuality]' % i.encode())
        W = []
        for w in range(8):
            if w % 2:
                W.append([{'O': 'spin', 'M': 1, 'N': 3000}, {'O': 'parse', 'M': 1}])
            else:
                ops = []
                for k in range(w * 18, w * 18 + 30):
                    ops += [{'O': 'reg', 'Ds': [k % nd + 1]}, {'O': 'spin', 'M': 1, 'N': 5}]
                W.append(ops)
        s.append({'ID': i, 'Msgs': [m], 'Decs': decs, 'W': W, 'Serial': False})
    c.run_traces('registry', 'TraceRegistry.tla', s)


PROPS = {'C18': c18, 'C16': c16, 'C17': c17}
