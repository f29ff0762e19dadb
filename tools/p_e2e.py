"""C22: EndToEnd.tla"""
import itertools
from vlib import *

NETS = {  # network of the senders -> listeners, addresses
    'unix': [('unix', 'path')], 'unixgram': [('unixgram', 'path')], 'local': [('unix', 'path'), ('unixgram', 'path')],
    'tcp': [('tcp', 'ip'), ('tcp4', 'localhost'), ('tcp6', 'ip6'), ('tcp', 'ip6'), ('tcp', 'many'), ('tcp6', 'both')], 'tcp4': [('tcp4', 'ip'), ('tcp', 'localhost'), ('tcp4', 'many')], 'tcp6': [('tcp6', 'ip6'), ('tcp', 'ip6'), ('tcp6', 'both')]}
TRS = ['', 'nul', 'lf', 'rfc']
SMALL = [0, 1, 5, 20, 60, 100, 300]
MIX = [0, 10, 100, 1000, 4000, 9000, 20000]
# around the buffers of the receiver (65536, and 500 of room) and of datagrams
EDGE = [64900, 65000, 65036, 65200, 65400, 65450, 65470, 65480, 65490, 65500, 65530, 65536, 65600, 66000, 131000, 131072, 200000]


def o(name, s=0, n=0, us=0): return {'O': name, 'S': s, 'N': n, 'Us': us}


def common(net, tr): return tr or ('nul' if net in ('unix', 'unixgram', 'local') else 'lf')


def c22(c):
    c.model('MCEndToEnd.tla', *c.pick(['MCEndToEnd_quick.cfg'], ['MCEndToEnd_quick.cfg', 'MCEndToEnd.cfg']))
    run(c, scenarios(c))


def part(c, tags, n):
    """for the properties of Sender: n of the scenarios with these tags"""
    c.model('MCEndToEnd.tla', 'MCEndToEnd_quick.cfg')
    s = [x for x in scenarios(c, False) if any('-' + t in x['ID'] for t in tags)]
    for x in s:
        x['ID'] = 'real-' + x['ID']
    c.rnd.shuffle(s)
    run(c, s[:n])


def scenarios(c, gen=True):
    r = c.rnd
    s = []

    def add(i, net, lis, addr, tr, auto, lanes, ops, **kw):
        tr = tr or common(net, tr)
        d = {'ID': i, 'Net': net, 'Listen': lis, 'Addr': addr, 'Tr': tr, 'Auto': auto, 'Lanes': lanes, 'Ops': ops, 'Queue': r.choice([0, 1, 10, 100]),
             'Slow': 0, 'Sizes': SMALL, 'Alphabet': r.choice(['ascii', 'utf8'] + ['bytes'] * (2 if tr == 'rfc' else 0)), 'Seed': r.randrange(10**6),
             'DelayUs': r.choice([1001, 2000, 5000]), 'Via': r.choice(['send', 'mixed', 'mixed', 'chan', 'logger']), 'Relay': False}
        d.update(kw)
        s.append(d)

    def dials(n): return [o('dial', i + 1) for i in range(n)]
    every = [(net, lis, addr, tr) for net in NETS for (lis, addr) in NETS[net] for tr in TRS[1:]]
    # nothing to send for seconds; a receiver that stands still for seconds
    pick = r.sample(every, len(every))
    for n in c.pick(('unix', 'unixgram', 'tcp'), list(NETS)):
        for secs in c.pick((6.5,), (6.5, 8, 35)):
            for what in ('idle', 'stall'):
                net, lis, addr, tr = [e for e in pick if e[0] == n][0]
                pick.append(pick.pop(0))
                us = int((secs if what == 'idle' else min(secs, 9)) * 1e6)
                add('%s-%s-%s-%s-%s%d' % (net, lis, addr, tr, what, us), net, lis, addr, tr, [True, False], [1, 2], [o('up')] + dials(2) + [o('sendall', n=3), o('sync'),
                    o('sleep' if what == 'idle' else 'stall', us=us), o('sendall', n=20), o('sync'), o('sendall', n=3), o('endall')],
                    Queue=0, Sizes=MIX if what == 'idle' or lis == 'unixgram' else [200000, 400000])
    for net, lis, addr, tr in every:
        b = '%s-%s-%s-%s' % (net, lis, addr, tr)
        n = r.choice([1, 2, 3, 5])
        auto = [r.random() < .6 for _ in range(n)]
        lanes = [r.choice([1, 1, 2, 4]) for _ in range(n)]
        # bursts
        add(b + '-burst', net, lis, addr, tr, auto, lanes, [o('up')] + dials(n) + [o('sendall', n=c.pick(25, 120)), o('sync'), o('sendall', n=5, us=300), o('endall')])
        # many kinds of sizes
        add(b + '-sizes', net, lis, addr, tr, [True, False], [1, 2], [o('up')] + dials(2) + [o('sendall', n=c.pick(6, 25)), o('sync'), o('sendall', n=3), o('endall')], Sizes=MIX)
        for x in range(c.pick(1, 6)):
            add('%s-edge%d' % (b, x), net, lis, addr, tr, [True, False], [1, 1], [o('up')] + dials(2) + [o('sendall', n=3), o('sync'), o('sendall', n=2), o('endall')], Sizes=r.sample(EDGE, 4) + [r.randint(64000, 67000), 3],
                Slow=r.choice([0, 0, 1000]))
        # what is larger than any buffer
        if lis != 'unixgram' and net not in ('unixgram', 'stdio') and (not c.quick or r.random() < .4):
            add(b + '-huge', net, lis, addr, tr, [True, False], [1, 1], [o('up')] + dials(2) + [o('sendall', n=2), o('sync'), o('sendall', n=1), o('endall')], Sizes=[3, 1 << 20, r.choice([1300000, 2500000])])
        # a slow receiver
        add(b + '-slow', net, lis, addr, tr, [True, True], [2, 1], [o('up')] + dials(2) + [o('sendall', n=c.pick(15, 60)), o('endall')], Slow=r.choice([100, 1000]), Queue=r.choice([0, 2]))
        # what is written, and not read yet when End returns
        if net[:3] == 'tcp' or net == 'unix':
            add(b + '-clog', net, lis, addr, tr, [False, True], [1, 1], [o('up')] + dials(2) + [o('sendall', n=c.pick(12, 30)), o('endall')], Slow=3000, Queue=0, Sizes=[60000, 100000])
        # senders that start before the receiver
        add(b + '-late', net, lis, addr, tr, auto, lanes, dials(n) + [o('sendall', n=4), o('sleep', us=r.choice([0, 3000, 9000])), o('up'), o('sync'), o('sendall', n=3), o('sync'), o('endall')])
        add(b + '-endlate', net, lis, addr, tr, [r.random() < .5], [2], dials(1) + [o('send', 1, 6), o('endup', 1)])
        # pauses between bursts
        add(b + '-pauses', net, lis, addr, tr, [True], [3], [o('up')] + dials(1) + [o('send', 1, r.randint(1, 6)), o('sleep', us=r.randint(0, 9000))] * 4 + [o('end', 1)])
        if lis in ('unix', 'unixgram'):
            for x in range(c.pick(1, 4)):
                ops = [o('up')] + dials(n)
                for _ in range(c.pick(2, 3)):
                    ops += [o('sendall', n=r.choice([0, 1, 5])), o('down'), o('sendall', n=r.choice([0, 1, 4])), o('sleep', us=r.choice([0, 0, 4000])), o('up')]
                    if r.random() < .5:
                        ops += [o('sync')]
                add('%s-restart%d' % (b, x), net, lis, addr, tr, auto, lanes, ops + [o('sendall', n=2), o('endall')], Sizes=r.choice([SMALL, SMALL, MIX, [3, 70000]]))
        # through a relay
        if addr != 'localhost':
            add(b + '-relay', net, lis, addr, tr, [True, False], [2, 1], [o('up')] + dials(2) + [o('sendall', n=8), o('sync'), o('sendall', n=2), o('endall')], Relay=True, Sizes=r.choice([SMALL, MIX]))
    # many senders
    for x, (net, lis, addr, tr) in enumerate(r.sample(every, c.pick(6, 20))):
        n = c.pick(20, 40)
        add('x-many%d' % x, net, lis, addr, tr, [r.random() < .5 for _ in range(n)], [r.choice([1, 2]) for _ in range(n)], [o('up')] + dials(n) + [o('sendall', n=3), o('endall')])
    if not gen:
        return s
    # random behaviours of the specification
    for cfg, nets in (('GenEndToEnd.cfg', [e for e in every if e[1] in ('unix', 'unixgram')]), ('GenEndToEnd_tcp.cfg', [e for e in every if e[0][:3] == 'tcp'])):
        for x, h in enumerate(generate('GenEndToEnd.tla', cfg, c.pick(60, 600), 20, c.seed)):
            net, lis, addr, tr = r.choice(nets)
            ops = h['ops']
            # at the end everything is there
            if sum(a['O'] in ('up', 'endup') for a in ops) == sum(a['O'] == 'down' for a in ops):
                ops = ops + [o('up')]
            add('gen-%s-%d' % (cfg[11:-4], x), net, lis, addr, tr, h['auto'], h['lanes'], [dict(o(a['O'], a['S'], a['N'])) for a in ops] + [o('endall')],
                Sizes=r.choice([SMALL, SMALL, MIX]))

    return s


def run(c, s):
    def prep(res, scn):
        c.count('network_' + scn['Net'])
        c.count('transport_' + scn['Tr'])
        if res.get('unavailable'):
            c.count('address_unavailable')
            return {'id': res['id'], 'auto': [True], 'lanes': [1], 'ev': []}
        for e in res['ev']:
            c.count(e['e'])
        return {'id': res['id'], 'auto': res['auto'], 'lanes': res['lanes'], 'ev': res['ev']}
    c.run_traces('e2e', 'TraceEndToEnd.tla', s, prep=prep, timing=('sync', 'late', 'noerr'))


PROPS = {'C22': c22}
