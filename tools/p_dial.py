"""C21: Dial.tla"""
import itertools, re
from vlib import *

NETS = ['stdio', 'local', 'unix', 'unixgram', 'tcp', 'tcp4', 'tcp6']
UNKNOWN = ['udp', '', 'TCP', 'unixpacket', 'Unix', 'stdio:', 'tcp5', 'udp4', 'ip', 'unixgram ', 'file']
TRS = ['', 'nul', 'lf', 'rfc']


def o(name, n=1, us=0, t=''): return {'O': name, 'N': n, 'Us': us, 'T': t}


def peers(net):
    """(peer, address) that can be reached"""
    if net == 'stdio':
        return [('stdio', '=stdout:'), ('stdio', '=stderr:')]
    if net == 'local':
        return [('unix', 'path'), ('unixgram', 'path')]
    if net in ('unix', 'unixgram'):
        return [(net, 'path')]
    four = [('tcp4', a) for a in ('ip', 'localhost', 'mapped', 'both', 'many')]
    six = [('tcp6', a) for a in ('ip', 'both', 'six')]
    return four if net == 'tcp4' else six if net == 'tcp6' else four + six


def bad(net):
    """(peer, address) that can't"""
    if net == 'stdio':
        return [('stdio', a) for a in ('=', '=stdout', '=stderr', '=stdin:', '=/tmp/x', '=STDOUT:', '=stdout::')]
    if net in ('local', 'unix', 'unixgram'):
        r = [(p, 'path') for p in ('none', 'stale', 'staledgram', 'file', 'dir')] + [('tcp4', 'ip'), ('none', 'long')]
        return r + ([] if net == 'local' else [('unix' if net == 'unixgram' else 'unixgram', 'path')])
    r = [('none', 'ip'), ('none', 'localhost'), ('none', 'both'), ('none', 'many'), ('none', 'path'), ('none', '='), ('none', '=127.0.0.1'), ('none', '=127.0.0.1:x'),
         ('none', '=127.0.0.1:99999'), ('none', '=127.0.0.1:-1'), ('none', '=[::1'), ('none', '=:'), ('unix', 'path'), ('none', '=127.0.0.1:1:2')]
    if net != 'tcp':
        r += [('tcp6', 'ip'), ('tcp6', 'six'), ('tcp6', 'both')] if net == 'tcp4' else [('tcp4', a) for a in ('ip', 'localhost', 'many', 'both')]
        r += [('tcp4', 'other'), ('tcp6', 'other')]
    if net == 'tcp6':
        r += [('tcp4', 'mapped')]
    return r


def c21(c):
    c.model('MCDial.tla', 'MCDial.cfg')
    run(c, scenarios(c))


def part(c, tags, n):
    """n of the scenarios with these tags"""
    s = [x for x in scenarios(c) if re.sub('[0-9]*$', '', x['ID'].split('-')[-1]) in tags]
    for x in s:
        x['ID'] = 'real-' + x['ID']
    c.rnd.shuffle(s)
    run(c, s[:n])


def scenarios(c):
    r = c.rnd
    s = []

    def add(i, net, tr, delay, peer, addr, ops, **kw):
        if addr == 'long':
            addr = '=/tmp/' + 'n' * 150
        s.append(dict({'ID': i, 'Net': net, 'Tr': tr, 'Delay': delay, 'Peer': peer, 'Addr': addr, 'Ops': ops}, **kw))

    def up(peer): return [] if peer in ('stdio', 'none', 'stale', 'staledgram', 'file', 'dir') else [o('up')]
    texts = ['m', '', 'long ' * 40, 'big' * 300, 'é\n\x01', 'a b']

    for net in NETS:
        for (peer, addr), tr in itertools.product(peers(net), TRS):
            b = '%s-%s-%s-%s' % (net, tr or 'nil', peer, addr.strip('='))
            t = r.choice(texts)
            # only at End: without a delay, below or at the boundary
            for j, d in enumerate([0, -5, 999, 1000]) if addr in ('path', 'ip', '=stdout:') and tr in ('', 'rfc') else [(4, r.choice([0, 1, -1000000, 500, 1000]))]:
                add('%s-end%d' % (b, j), net, tr, d, peer, addr, up(peer) + [o('dial'), o('send', r.choice([1, 2, 5]), t=t), o('idle', us=r.choice([5000, 30000])), o('send', 1, t=t), o('noerr'), o('end')])
            # with a delay
            for j, d in enumerate([1001, 2000, 20000, 100000]) if addr in ('path', 'ip', '=stdout:') and tr in ('', 'lf') else [(4, r.choice([1001, 3000, 10000]))]:
                add('%s-auto%d' % (b, j), net, tr, d, peer, addr, up(peer) + [o('dial'), o('send', r.choice([1, 3]), t=t), o('sync'), o('idle', us=5000), o('send', 3, t=r.choice(texts)), o('sync')] +
                    ([o('late', 3)] if d <= 20000 else []) + [o('send', 2, t='end'), o('noerr'), o('end')])
            # nothing sent
            add(b + '-empty', net, tr, r.choice([0, 5000]), peer, addr, up(peer) + [o('dial'), o('idle', us=8000), o('noerr'), o('end')])
            if peer != 'stdio':
                # the peer comes later
                for j, d in enumerate([2000, 0]):
                    add('%s-late%d' % (b, j), net, tr, d, peer, addr, [o('dial'), o('send', 2, t=t)] + ([o('err'), o('err'), o('up'), o('sync'), o('send', 2, t='more'), o('sync'), o('end')] if d else
                        [o('idle', us=5000), o('noerr'), o('up'), o('idle', us=20000), o('send', 1, t='more'), o('end')]))
                add(b + '-endlate', net, tr, r.choice([0, 2000]), peer, addr, [o('dial'), o('send', 2, t=t), o('endlate')])
                add(b + '-none', net, tr, 0, peer, addr, [o('dial'), o('idle', us=3000), o('noerr'), o('end')])
        # the function Dial: 500 ms
        for peer, addr in peers(net)[:2]:
            add('%s-plain-%s-%s' % (net, peer, addr), net, '', 500000, peer, addr, up(peer) + [o('dial'), o('late', 1), o('send', 2, t='q'), o('end')], Plain=True)
        # destinations that can't be reached
        for peer, addr in bad(net):
            for tr in ['', r.choice(TRS[1:])]:
                b = '%s-%s-%s-%s' % (net, tr or 'nil', peer, addr[:30])
                add(b + '-bad', net, tr, r.choice([2000, 1001, 5000]), peer, addr, up(peer) + [o('dial'), o('send', 2, t='x'), o('err'), o('send', 2, t='x'), o('err'), o('idle', us=3000)])
                add(b + '-badend', net, tr, 0, peer, addr, up(peer) + [o('dial'), o('idle', us=2000), o('noerr'), o('end')])
                if r.random() < 0.5 or not c.quick:
                    add(b + '-badauto', net, tr, 2000, peer, addr, up(peer) + [o('dial'), o('err'), o('err'), o('end')])
    # one nanosecond above one millisecond
    for net in ('unix', 'unixgram', 'tcp4'):
        peer, addr = peers(net)[0]
        add(net + '-nano', net, '', 1000, peer, addr, up(peer) + [o('dial'), o('send', 2, t='n'), o('sync'), o('end')], Nano=1)
        add(net + '-nano0', net, '', 999, peer, addr, up(peer) + [o('dial'), o('send', 2, t='n'), o('idle', us=20000), o('end')], Nano=999)
    # unknown networks
    for net, tr, d in itertools.product(UNKNOWN, ['', 'rfc'], [0, 2000]):
        add('unknown-%s-%s-%d' % (net, tr, d), net, tr, d, 'none', r.choice(['path', 'ip', '=stdout:', '=']), [o('dial')])
    # random: bursts, idle times, sizes
    for j in range(c.pick(60, 600)):
        net = r.choice(NETS)
        peer, addr = r.choice(peers(net))
        d = r.choice([0, 1000, 1001, 2000, 7000])
        ops = up(peer) + [o('dial')]
        for _ in range(r.randint(1, 6)):
            x = r.random()
            ops.append(o('send', r.randint(1, 12), t=r.choice(texts) * r.choice([1, 1, 2])) if x < .6 else o('idle', us=r.randint(0, 9000)) if x < .8 else o('sync') if d > 1000 else o('noerr'))
        add('rnd%d' % j, net, r.choice(TRS), d, peer, addr, ops + [o('end')])

    return s


def run(c, s):
    def prep(res, scn):
        c.count('peer_' + scn['Peer'])
        if res.get('unavailable'):
            c.count('address_unavailable')
            return {'id': res['id'], 'net': '', 'tr': 'nil', 'auto': False, 'peer': 'none', 'addr': '', 'fams': [], 'late': False, 'ev': []}
        seq = [x['O'] for x in scn['Ops']]
        for e in res['ev']:
            c.count(e['e'])
        return {'id': res['id'], 'net': res['net'], 'tr': res['tr'] or 'nil', 'auto': res['auto'], 'peer': res['peer'], 'addr': res['addr'], 'fams': res['fams'],
                'late': 'endlate' in seq or ('up' in seq and seq.index('up') > seq.index('dial')),
                'ev': res['ev']}
    c.run_traces('dial', 'TraceDial.tla', s, prep=prep, timing=('sync', 'late', 'noerr'))


PROPS = {'C21': c21}
