"""C20: Path.tla"""
import itertools
from vlib import *

STALE = ['stale', 'staledgram', 'stalepacket']
FOREIGN = ['file', 'empty', 'dir', 'dirfull', 'fifo', 'linknone', 'linkfile', 'linkdir', 'linkdirfull', 'linkfifo', 'linkstale',
           'linkstaledgram', 'linkchain', 'linkchainstale', 'linkloop']


def op(o, k='', t='', via='direct'): return {'O': o, 'K': k, 'T': t, 'Via': via}


def c20(c):
    c.model('MCPath.tla', 'MCPath.cfg')
    r = c.rnd
    s = []
    types = ['unix', 'unixgram']
    vias = ['direct', 'guess']

    def vary(): return r.choice(vias)

    # every kind of object, every way to create
    for k, t, v in itertools.product(['none'] + STALE + FOREIGN, types, vias):
        for how in ('listen', 'dead', 'nobody'):
            if v == 'guess' and how != 'listen' and c.quick:
                continue
            ops = [op('perm', 'open')] if how == 'nobody' else []
            if k != 'none':
                ops.append(op('place', k))
            ops.append(op(how, t=t, via=v))
            if k not in FOREIGN:
                if how == 'listen':
                    ops += [op('use'), op('use'), op('close')]
                for t2 in types:
                    ops += [op('listen', t=t2, via=vary()), op('use'), op('close')]
            else:
                # again, and after it was removed
                ops += [op(how, t=r.choice(types), via=v), op('clear'), op('listen', t=t, via=v), op('use'), op('close')]
            s.append({'ID': '%s-%s-%s-%s' % (how, k, t, v), 'Ops': ops})
            if how == 'listen':
                s.append({'ID': 'linked-%s-%s-%s' % (k, t, v), 'Ops': ops, 'Pre': 'link'})
                s.append({'ID': 'rel-%s-%s-%s' % (k, t, v), 'Ops': ops, 'Pre': 'rel', '_alone': True})
    # permissions
    for perm, k, t in itertools.product(['closed', 'sticky', 'open'], ['none', 'stale', 'staledgram', 'file', 'linkstale', 'dir'], types):
        ops = [op('perm', perm)] + ([op('place', k)] if k != 'none' else [])
        ops += [op('nobody', t=t, via=vary()), op('nobody', t=r.choice(types)), op('perm', 'open'), op('nobody', t=t)]
        s.append({'ID': 'perm-%s-%s-%s' % (perm, k, t), 'Ops': ops})
    # directories that aren't there, names that are too long
    for t, v in itertools.product(types, vias):
        ops = [op('listen', t=t, via=v), op('listen', t=t, via=v)]
        s.append({'ID': 'missing-%s-%s' % (t, v), 'Ops': ops, 'Pre': 'missing'})
        s.append({'ID': 'notdir-%s-%s' % (t, v), 'Ops': ops, 'Pre': 'file'})
        s.append({'ID': 'long-%s-%s' % (t, v), 'Ops': ops, 'Name': 'n' * 120})
    # sequences of ends of processes, and of restarts
    for j, seq in enumerate(itertools.product(['dead-unix', 'dead-unixgram', 'listen-unix', 'listen-unixgram'], repeat=c.pick(3, 4))):
        ops = []
        for x in seq:
            how, t = x.split('-')
            ops.append(op(how, t=t, via=vary()))
            if how == 'listen':
                ops += [op('use')] * r.choice([0, 1, 2]) + [op('close')]
        s.append({'ID': 'seq%d' % j, 'Ops': ops})
    # random behaviours of the specification
    for j, h in enumerate(generate('GenPath.tla', 'GenPath.cfg', c.pick(150, 1500), 16, c.seed)):
        s.append({'ID': 'gen%d' % j, 'Ops': h})

    def prep(res, scn):
        ev = []
        for e in res['ev']:
            if e.get('res') == 'unavailable':
                c.count('other_user_unavailable')
                return {'id': res['id'], 'where': 'ok', 'ev': []}
            ev.append(e)
        never = scn.get('Pre') in ('missing', 'file') or scn.get('Name')
        for e in ev:
            c.count(e['e'] + ('_' + e['res'] if 'res' in e else ''))
        return {'id': res['id'], 'where': 'never' if never else 'ok', 'ev': ev}
    c.run_traces('path', 'TracePath.tla', s, prep=prep)


PROPS = {'C20': c20}
