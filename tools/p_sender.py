"""C01-C04: Sender.tla"""
import itertools
from vlib import *
import p_e2e, p_dial


def models(c):
    c.model('MCSender.tla', *c.pick(['MCSender_quick.cfg', 'MCSender_live.cfg'], ['MCSender.cfg', 'MCSender_bad.cfg', 'MCSender_live2.cfg']))


# EAGAIN ... : what a failing system call may say
ERRNOS = ['EAGAIN', 'EMSGSIZE', 'ECONNREFUSED', 'ECONNRESET', 'EINTR', 'ENOMEM', 'ENOSPC', 'ENOTCONN', 'ETIMEDOUT', 'EDESTADDRREQ',
          'EPIPE', 'EIO', 'EHOSTUNREACH', 'ENETUNREACH', 'EBADF', 'EINVAL']
KINDS = ['op', 'plain', 'opbare', 'timeout', 'eof', 'short'] + ERRNOS


def send(m): return {'Op': 'send', 'M': m}
def spawn(ms, us=0): return {'Op': 'spawn', 'Ms': ms, 'Us': us}
def tick(): return {'Op': 'tick'}
def settle(): return {'Op': 'settle'}
def o(name, **k): return dict(Op=name, **k)


def from_hist(h, sid, rnd, badmsg=4, flen=3, nmsg=5, mode='unit'):
    """turn a behaviour of GenSender into a scenario"""
    ops, con, wr, pend, wacc = [], [], [], [], 0
    reads = any(e['e'] == 'read' for e in h)
    for e in h:
        k = e['e']
        if not e['act'] and k in ('call', 'tick', 'end') and ops and ops[-1]['Op'] == 'tick':
            ops.append(settle())
        if k == 'call':
            (pend if e['act'] else ops).append(send(e['m']) if not e['act'] else spawn([e['m']]))
        elif k == 'tick':
            ops.append(tick())
        elif k == 'end':
            if e['act']:
                pend.append(o('endbg'))
            else:
                ops.append(o('endbg'))
        elif k in ('conn', 'cfail'):
            r = 'ok' if k == 'conn' else rnd.choice(['fail', 'failconn'])
            con.append({'R': r, 'During': pend})
            pend = []
        elif k == 'w':
            if pend:
                wr.append({'R': 'ok', 'Budget': wacc, 'During': pend})
                wacc, pend = 0, []
            wacc += e['n']
        elif k in ('wfail', 'nobuf'):
            wr.append({'R': 'nobuf' if k == 'nobuf' else rnd.choice(KINDS), 'Budget': wacc, 'During': pend})
            wacc, pend = 0, []
    ops += pend
    msgs = [{'Len': flen, 'Bad': m == badmsg} for m in range(1, nmsg + 1)]
    return {'ID': sid, 'Mode': mode, 'Msgs': msgs, 'Ops': ops, 'Connect': con, 'Write': wr,
            'Reader': rnd.choice(['drain', 'drain', 'none']) if reads else 'none', 'CloseErr': rnd.random() < 0.3, 'SlowClose': rnd.choice([0, 0, 2000])}


def spec_scenarios(c, num, tag):
    hs = generate('GenSender.tla', 'GenSender.cfg', num, 60, c.rnd.randrange(1 << 30))
    hs = [h for h in hs if len(h) > 5]
    c.rnd.shuffle(hs)
    hs = hs[:num]
    c.count('spec_generated_scenarios', len(hs))
    return [from_hist(h, '%s-gen%d' % (tag, i), c.rnd) for i, h in enumerate(hs)]


def mk(sid, msgs, ops, con=(), wr=(), mode='unit', reader='drain', closeerr=False):
    return {'ID': sid, 'Mode': mode, 'Msgs': msgs, 'Ops': ops, 'Connect': list(con), 'Write': list(wr),
            'Reader': reader, 'CloseErr': closeerr, 'SlowClose': len(sid) % 3 * 1500}


def unit(n, l=3): return [{'Len': l} for _ in range(n)]


# ------------------------------------------------------------------ C01

def rand_plain(c, sid):
    """no failure: random producers, ticks, flush interleavings, transports and sizes"""
    r = c.rnd
    mode = r.choice(['unit', 'nul', 'lf', 'rfc'])
    n = r.randint(1, 12)
    if mode == 'unit':
        msgs = [{'Len': r.randint(1, 8), 'Bad': r.random() < 0.1} for _ in range(n)]
    else:
        msgs = [{'Len': r.choice([0, 1, 2, 9, 10, 60, 99, 100, 300, 1000]), 'Bad': r.random() < 0.1,
                 'SD': r.choice(['', '', 'v', 'v v', 'x=y'])} for _ in range(n)]
    ids = list(range(1, n + 1))
    ops, con, wr = [], [], []
    while ids:
        k = r.randint(1, 3)
        part, ids = ids[:k], ids[k:]
        x = r.random()
        if x < 0.35:
            ops += [send(m) for m in part]
        elif x < 0.65:
            ops += [spawn([m]) for m in part]
            if r.random() < 0.5:
                ops.append(o('join'))
        elif x < 0.8:
            con.append({'R': 'ok', 'During': [spawn([m]) for m in part]})
        else:
            wr.append({'R': 'ok', 'Budget': r.randint(0, 8), 'During': [spawn([m]) for m in part]})
        if r.random() < 0.5:
            ops.append(tick())
            if r.random() < 0.7:
                ops.append(settle())
    # the sends that were attached to connections may never be started: harmless
    if r.random() < 0.5:
        ops.append(o('join'))
    ops.append(o(r.choice(['end', 'endbg'])))
    return mk(sid, msgs, ops, con[:1], wr, mode, r.choice(['drain', 'none']))


def stress(c, sid, producers, each, mode, faults=0, us=0, nticks=60, l=None):
    r = c.rnd
    n = producers * each
    msgs = [{'Len': l if l is not None else r.choice([0, 1, 5, 30, 80])} for _ in range(n)]
    ops = [spawn(list(range(p * each + 1, (p + 1) * each + 1)), us) for p in range(producers)]
    ops.append(o('ticks', N=nticks, Us=r.choice([0, 20, 100])))
    if r.random() < 0.5:
        ops.append(o('join'))
    ops.append(o('endbg'))
    con, wr = [], []
    for _ in range(faults):
        wr.append({'R': r.choice(KINDS + ['nobuf'] * 3), 'Budget': r.randint(0, 60 * n // max(1, faults))})
        con.append({'R': r.choice(['ok', 'ok', 'fail', 'failconn'])})
    return mk(sid, msgs, ops, con, wr, mode, r.choice(['drain', 'none']))


def c01(c):
    models(c)
    s = []
    # every position of a Send within a flush, every small number of messages
    for n in range(1, 4):
        for d in range(0, 3 * n + 1):
            for where in ('write', 'connect', 'end'):
                ops = [send(m) for m in range(1, n + 1)] + [tick(), settle()]
                con, wr = [], []
                during = [spawn([n + 1]), spawn([n + 2])]
                if where == 'connect':
                    if d:
                        continue
                    con = [{'R': 'ok', 'During': during}]
                else:
                    wr = [{'R': 'ok', 'Budget': d, 'During': during}]
                if where == 'end':
                    ops = [send(m) for m in range(1, n + 1)] + [o('end')]
                else:
                    ops += [o('join'), tick(), settle(), o('end')]
                s.append(mk('pos-%d-%d-%s' % (n, d, where), unit(n + 2), ops, con, wr))
    # transports x sizes, several flushes
    sizes = [0, 1, 2, 3, 8, 50, 100, 480, 1000, 4000, 20000, 70000]
    for mode in ('nul', 'lf', 'rfc'):
        for k in (1, 3, 6, len(sizes)):
            ops = []
            for i in range(len(sizes)):
                ops.append(send(i + 1))
                if (i + 1) % k == 0:
                    ops += [tick(), settle()]
            s.append(mk('size-%s-%d' % (mode, k), [{'Len': z, 'SD': 'v' * (z % 7)} for z in sizes], ops + [o('end')], mode=mode))
    # batches larger than the initial queue, then reuse
    for n, mode in ((120, 'lf'), (1100, 'rfc'), (2300, 'nul')) if c.quick else ((120, 'lf'), (1100, 'rfc'), (2300, 'nul'), (5000, 'lf')):
        ops = [send(m) for m in range(1, n - 9)] + [tick(), settle()]
        for m in range(n - 9, n + 1):
            ops += [send(m), tick(), settle()]
        s.append(mk('batch-%d' % n, [{'Len': 3}] * n, ops + [o('end')], mode=mode))
    for i in range(c.pick(600, 6000)):
        s.append(rand_plain(c, 'rnd-%d' % i))
    # messages of one content, sent one after the other
    for i in range(c.pick(120, 1200)):
        s.append(same(c, 'same-%d' % i, False))
    # a queue of hundreds of thousands
    for n, mode in c.pick(((140000, 'rfc'), (270000, 'nul')), ((140000, 'rfc'), (270000, 'nul'), (1100000, 'lf'))):
        msgs = [{'Len': 3}, {'Len': 1, 'N': n}, {'Len': 5}]
        s.append(mk('huge-%d' % n, msgs, [send(1), send(2), send(3), tick(), settle(), o('end')], mode=mode))
        s.append(mk('hugeend-%d' % n, msgs, [send(1), tick(), settle(), send(2), send(3), o('end')], mode=mode))
    for i in range(c.pick(10, 60)):
        s.append(stress(c, 'stress-%d' % i, c.rnd.choice([2, 4, 8]), c.rnd.choice([20, 60, 120]), c.rnd.choice(['nul', 'lf', 'rfc']),
                        us=c.rnd.choice([0, 0, 30])))
    s += [x for x in spec_scenarios(c, c.pick(150, 1500), 'c01') if not x['Write'] or all(w['R'] == 'ok' for w in x['Write'])]
    for x in s:
        x['Connect'] = [k for k in x['Connect'] if k['R'] == 'ok']
    c.run_traces('sender', 'TraceSender.tla', s)
    p_e2e.part(c, ['burst', 'sizes', 'edge', 'many', 'pauses'], c.pick(60, 400))


def same(c, sid, faulty):
    """several messages of the same content, from one goroutine"""
    r = c.rnd
    n = r.randint(2, 10)
    msgs = []
    for m in range(1, n + 1):
        reps = [k + 1 for k, x in enumerate(msgs) if 'As' not in x]
        if reps and r.random() < 0.6:
            msgs.append({'As': r.choice(reps[-2:])})
        else:
            msgs.append({'Len': r.choice([0, 1, 3, 30])})
    ops = []
    if r.random() < 0.3:
        ops.append(spawn(list(range(1, n + 1)), r.choice([0, 10])))
    else:
        for m in range(1, n + 1):
            ops.append(send(m))
            if r.random() < 0.3:
                ops += [tick(), settle()]
    ops += r.choice([[], [tick()], [tick(), settle()]])
    con, wr = [], []
    for _ in range(r.randint(1, 4) if faulty else 0):
        wr.append({'R': r.choice(KINDS + ['nobuf'] * 5), 'Budget': r.choice([0, 1, r.randint(0, 60), r.randint(40, 300)])})
        con.append({'R': r.choice(['ok', 'fail'])})
    ops.append(o(r.choice(['end', 'endbg'])))
    if ops[0]['Op'] == 'spawn':
        ops.insert(len(ops) - 1, o('join'))
    return mk(sid, msgs, ops, con, wr, r.choice(['nul', 'lf', 'rfc']), r.choice(['drain', 'none']))


# ------------------------------------------------------------------ C02

def fault_grid(c, full):
    """one fault at every byte of the stream, then a second one at every byte after it"""
    s = []
    n, l = 3, 2
    total = n * l
    for kind in ['op', 'plain', 'nobuf']:
        for a in range(total + 1):
            for reader in ('drain', 'none'):
                ops = [send(1), send(2), tick(), settle(), send(3), tick(), settle(), tick(), settle(), o('end')]
                s.append(mk('one-%s-%d-%s' % (kind, a, reader), unit(n, l), ops, [], [{'R': kind, 'Budget': a}], reader=reader))
                # all at End
                s.append(mk('onend-%s-%d-%s' % (kind, a, reader), unit(n, l), [send(1), send(2), send(3), o('end')], [],
                            [{'R': kind, 'Budget': a}], reader=reader))
    kinds2 = [('op', 'op'), ('op', 'nobuf'), ('nobuf', 'op'), ('nobuf', 'nobuf')]
    for k1, k2 in kinds2:
        for a in range(total + 1):
            for b in range(0, total + 1):
                if not full and (a + b) % 2 and k1 != k2:
                    continue
                ops = [send(1), send(2), tick(), settle(), send(3), tick(), settle(), tick(), settle(), o('end')]
                s.append(mk('two-%s-%d-%s-%d' % (k1, a, k2, b), unit(n, l), ops, [],
                            [{'R': k1, 'Budget': a}, {'R': k2, 'Budget': b}], reader=c.rnd.choice(['drain', 'none'])))
    if full:
        for k1, k2, k3 in itertools.product(['op', 'nobuf'], repeat=3):
            for a, b, d in itertools.product(range(total + 1), repeat=3):
                ops = [send(1), send(2), tick(), settle(), send(3), tick(), settle(), tick(), settle(), tick(), settle(), o('end')]
                s.append(mk('three-%s-%d-%s-%d-%s-%d' % (k1, a, k2, b, k3, d), unit(n, l), ops, [],
                            [{'R': k1, 'Budget': a}, {'R': k2, 'Budget': b}, {'R': k3, 'Budget': d}], reader='none'))
    # connect failures between write failures
    for nf in range(0, 4):
        for a in range(0, 5):
            for bad in ('fail', 'failconn'):
                ops = [send(1), send(2)] + [tick(), settle()] * 3 + [send(3)] + [tick(), settle()] * 3 + [o('end')]
                s.append(mk('conn-%d-%d-%s' % (nf, a, bad), unit(3, 2), ops, [{'R': 'ok'}] + [{'R': bad}] * nf,
                            [{'R': 'op', 'Budget': a}], closeerr=nf % 2 == 1))
                s.append(mk('conn0-%d-%d-%s' % (nf, a, bad), unit(3, 2), ops, [{'R': bad}] * nf, [{'R': 'op', 'Budget': a}]))
    return s


def rand_faults(c, sid):
    r = c.rnd
    mode = r.choice(['unit', 'unit', 'nul', 'lf', 'rfc'])
    n = r.randint(1, 12)
    if mode == 'unit':
        msgs = [{'Len': r.randint(1, 8), 'Bad': r.random() < 0.05} for _ in range(n)]
    else:
        msgs = [{'Len': r.choice([0, 1, 5, 20, 100, 700]), 'SD': r.choice(['', 'v'])} for _ in range(n)]
    avg = 4 if mode == 'unit' else 150
    ids = list(range(1, n + 1))
    ops, con, wr = [], [], []
    while ids:
        k = r.randint(1, 4)
        part, ids = ids[:k], ids[k:]
        if r.random() < 0.2:
            ops += [spawn([m]) for m in part]
        else:
            ops += [send(m) for m in part]
        for _ in range(r.randint(0, 3)):
            ops.append(tick())
            if r.random() < 0.8:
                ops.append(settle())
    nf = r.randint(1, 6)
    for _ in range(nf):
        wr.append({'R': r.choice(KINDS + ['nobuf'] * 3), 'Budget': r.choice([0, 0, 1, r.randint(0, avg), r.randint(0, avg * 3)])})
    for _ in range(r.randint(0, 5)):
        con.append({'R': r.choice(['ok', 'fail', 'failconn'])})
    ops.append(o('endbg'))
    return mk(sid, msgs, ops, con, wr, mode, r.choice(['drain', 'none']), r.random() < 0.3)


def c02(c):
    models(c)
    s = fault_grid(c, not c.quick)
    # every kind of failure, at the begin, in the middle and at the end of a message
    for kind in KINDS:
        for a in range(0, 5):
            s.append(mk('kind-%s-%d' % (kind, a), unit(3, 2), [send(1), send(2), tick(), settle(), send(3), tick(), settle(), o('end')], [],
                        [{'R': kind, 'Budget': a}], reader='drain'))
    for i in range(c.pick(600, 6000)):
        s.append(rand_faults(c, 'rnd-%d' % i))
    for i in range(c.pick(200, 2000)):
        s.append(same(c, 'same-%d' % i, True))
    # a failure in the middle of long queues
    for i in range(c.pick(6, 40)):
        s.append(stress(c, 'stress-%d' % i, c.rnd.choice([1, 3]), c.rnd.choice([20, 60]), c.rnd.choice(['nul', 'lf', 'rfc']),
                        faults=c.rnd.randint(1, 8), us=30))
    for mode in ('nul', 'rfc'):
        n = 1100
        s.append(mk('long-%s' % mode, [{'Len': 3}] * n, [send(m) for m in range(1, n + 1)] + [tick(), settle()] * 3 + [o('end')], [],
                    [{'R': 'op', 'Budget': 30011}, {'R': 'nobuf', 'Budget': 20003}], mode))
    s += spec_scenarios(c, c.pick(300, 3000), 'c02')
    c.run_traces('sender', 'TraceSender.tla', s)
    p_e2e.part(c, ['restart', 'late'], c.pick(40, 300))


# ------------------------------------------------------------------ C03

def c03(c):
    models(c)
    s = []
    i = 0
    for reader in ('drain', 'none'):
        for nconn in range(0, 4):
            for wr in ([], [{'R': 'op', 'Budget': 0}], [{'R': 'plain', 'Budget': 1}], [{'R': 'op', 'Budget': 4}, {'R': 'op', 'Budget': 1}],
                       [{'R': 'nobuf', 'Budget': 1}, {'R': 'nobuf', 'Budget': 0}, {'R': 'op', 'Budget': 1}]):
                for pre in ([], [tick()], [tick(), settle(), tick(), settle()], [send(1)], [send(1), tick(), settle()],
                            [send(1), send(2), tick(), settle(), send(3)], [tick(), send(1), settle()]):
                    for end in ('end', 'endbg'):
                        i += 1
                        if c.quick and i % 2:
                            continue
                        s.append(mk('state-%d' % i, unit(3), pre + [o(end)], [{'R': 'fail'}] * nconn, wr, reader=reader,
                                    closeerr=i % 3 == 0))
    # End during a connect, during a write at every byte, with senders running
    for d in range(0, 7):
        for extra in ([], [spawn([3])], [spawn([3]), spawn([4])]):
            for after in ([], [{'R': 'op', 'Budget': 1}], [{'R': 'nobuf', 'Budget': 1}, {'R': 'op', 'Budget': 0}]):
                for order in (0, 1):
                    dur = extra + [o('endbg')] if order else [o('endbg')] + extra
                    s.append(mk('endw-%d-%d-%d-%d' % (d, len(extra), len(after), order), unit(4),
                                [send(1), send(2), tick(), o('join')], [], [{'R': 'ok', 'Budget': d, 'During': dur}] + after, reader='none'))
                    if d < 3:
                        con = [{'R': 'fail'}] * d + [{'R': 'fail' if order else 'ok', 'During': dur}]
                        s.append(mk('endc-%d-%d-%d-%d' % (d, len(extra), len(after), order), unit(4),
                                    [send(1), send(2)] + [tick(), settle()] * (d + 1) + [o('join')], con, after, reader='drain'))
    # the destination stays out of order for long
    for n in c.pick((150, 4000), (150, 4000, 40000)):
        for reader in ('none', 'drain'):
            s.append(mk('long-%d-%s' % (n, reader), unit(2), [send(1), send(2), o('end')], [{'R': 'fail'}] * n, [], reader=reader))
            s.append(mk('longw-%d-%s' % (n, reader), unit(2), [send(1), send(2), o('end')], [], [{'R': 'EPIPE', 'Budget': 0}] * n,
                        reader=reader))
    # or takes seconds to connect to, or to write to
    for secs in c.pick((6.5,), (6.5, 11)):
        nap = [o('sleep', Us=int(secs * 1e6))]
        for reader in ('none', 'drain'):
            for k in (0, 1):
                fin = [o('end' if k else 'endbg')]
                s.insert(0, mk('slowc-%s-%d-%d' % (secs, k, len(reader)), unit(2), [send(1), send(2)] + fin, [{'R': 'fail'}] * k + [{'R': 'ok', 'During': nap}], [], reader=reader))
                s.insert(0, mk('slowf-%s-%d-%d' % (secs, k, len(reader)), unit(2), [send(1), send(2)] + fin, [{'R': 'ok'}] * k + [{'R': 'fail', 'During': nap}], [{'R': 'EPIPE', 'Budget': 0}] * k, reader=reader))
                s.insert(0, mk('sloww-%s-%d-%d' % (secs, k, len(reader)), unit(2), [send(1), send(2)] + fin, [], [{'R': ['ok', 'EPIPE'][k], 'Budget': 1, 'During': nap}], reader=reader))
    for j in range(c.pick(200, 2500)):
        x = rand_faults(c, 'rnd-%d' % j)
        x['Ops'] = [k for k in x['Ops'] if k['Op'] != 'settle' or c.rnd.random() < 0.4]
        if c.rnd.random() < 0.5 and len(x['Ops']) > 2:
            # End before the last operations
            p = c.rnd.randrange(len(x['Ops']))
            x['Ops'] = [k for k in x['Ops'][:p]] + [o('endbg')] + [k for k in x['Ops'][p:] if k['Op'] in ('send', 'spawn')]
            x['Ops'] = [spawn([k['M']]) if k['Op'] == 'send' and q > p else k for q, k in enumerate(x['Ops'])]
        s.append(x)
    for j in range(c.pick(40, 400)):
        # End while producers run
        prod = c.rnd.choice([1, 2, 4])
        each = c.rnd.choice([1, 5, 30])
        ops = [spawn(list(range(p * each + 1, (p + 1) * each + 1)), c.rnd.choice([0, 10])) for p in range(prod)]
        ops += [tick()] * c.rnd.randint(0, 2) + [o('sleep', Us=c.rnd.choice([0, 20, 100])), o('endbg')]
        s.append(mk('race-%d' % j, [{'Len': 2}] * (prod * each), ops, [{'R': c.rnd.choice(['ok', 'fail'])}],
                    [{'R': c.rnd.choice(['op', 'nobuf']), 'Budget': c.rnd.randint(0, 300)}], 'lf', c.rnd.choice(['none', 'drain'])))
    s += spec_scenarios(c, c.pick(200, 2000), 'c03')
    c.run_traces('sender', 'TraceSender.tla', s)
    p_e2e.part(c, ['endlate', 'clog', 'slow', 'burst', 'sizes'], c.pick(70, 400))


# ------------------------------------------------------------------ C04

def c04(c):
    models(c)
    s = []
    i = 0
    pats = list(itertools.product('cwo', repeat=4)) if not c.quick else list(itertools.product('cwo', repeat=3))
    for pat in pats:
        # at each tick: a failed connect, a failed write, or a success
        for reader in ('none', 'drain', 'manual'):
            con, wr, ops, m = [], [], [], 0
            have = False   # a connection is open
            unread = 0
            for x in pat:
                m += 1
                ops.append(send(m))
                if x == 'c':
                    if have:
                        # the open connection has to fail first
                        wr.append({'R': 'plain', 'Budget': 0})
                        ops += [tick(), settle()]
                        unread += 1
                        have = False
                    con.append({'R': 'fail'})
                    unread += 1
                elif x == 'w':
                    if not have:
                        con.append({'R': 'ok'})
                    wr.append({'R': KINDS[m % len(KINDS)], 'Budget': 0})
                    unread += 1
                    have = False
                else:
                    if not have:
                        con.append({'R': 'ok'})
                    have = True
                    wr.append({'R': 'ok', 'Budget': 0, 'During': []})
                    # the messages kept until now go out, then the budget starts again
                    wr.pop()
                ops += [tick(), settle()]
                if reader == 'manual' and unread and m % 2 == 0:
                    ops.append(o('readerr'))
                    unread = 0
            i += 1
            # budgets of 0 after successes would fail earlier bytes: use failures relative to what was kept
            s.append(mk('pat-%s-%s' % (''.join(pat), reader), unit(m, 2), ops + [o('end')], con, wr, reader=reader))
    # many failures, nobody reads
    for nf in (1, 2, 3, 10, 40, 3000):
        for kind in ('c', 'w', 'b'):
            con = [{'R': 'fail'}] * nf if kind == 'c' else [{'R': 'ok'}, {'R': 'fail'}] * nf if kind == 'b' else []
            wr = [{'R': 'op', 'Budget': 0}] * nf if kind != 'c' else []
            if nf > 40:
                s.append(mk('manyend-%d-%s' % (nf, kind), unit(2), [send(1), send(2), o('end')], con, wr, reader='none'))
                continue
            for reader in ('none', 'drain'):
                ops = [send(1)] + [tick(), settle()] * nf + [send(2), tick(), settle(), o('end')]
                s.append(mk('many-%d-%s-%s' % (nf, kind, reader), unit(2), ops, con, wr, reader=reader))
                s.append(mk('manyend-%d-%s-%s' % (nf, kind, reader), unit(2), [send(1), send(2), o('end')], con, wr, reader=reader))
    # read one error after each failure: every failure is then published
    for nf in (1, 2, 5, 12):
        for bad in ('fail', 'failconn'):
            ops = [send(1)]
            for _ in range(nf):
                ops += [tick(), settle(), o('readerr')]
            s.append(mk('each-%d-%s' % (nf, bad), unit(1), ops + [tick(), settle(), o('end')], [{'R': bad}] * nf, [], reader='manual'))
        for kind in KINDS:
            ops = [send(1)]
            for _ in range(nf):
                ops += [tick(), settle(), o('readerr')]
            s.append(mk('eachw-%d-%s' % (nf, kind), unit(1), ops + [tick(), settle(), o('end')], [],
                        [{'R': kind, 'Budget': 1}] * nf, reader='manual'))
    # no buffer space isn't an error
    s.append(mk('nobuf', unit(2), [send(1), tick(), settle(), o('readerr'), tick(), settle(), o('end')], [],
                [{'R': 'nobuf', 'Budget': 1}], reader='manual'))
    for j in range(c.pick(300, 4000)):
        x = rand_faults(c, 'rnd-%d' % j)
        x['Reader'] = c.rnd.choice(['none', 'none', 'drain'])
        s.append(x)
    s += spec_scenarios(c, c.pick(200, 2000), 'c04')
    c.run_traces('sender', 'TraceSender.tla', s)
    p_dial.part(c, ['bad', 'badauto', 'late', 'endlate'], c.pick(120, 1000))


PROPS = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04}
