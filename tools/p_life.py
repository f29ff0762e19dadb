"""C26: Life.tla"""
from vlib import *

NETS = ['tcp', 'tcp4', 'tcp6', 'unix', 'unixgram']


def c26(c):
    c.model('MCLife.tla', *c.pick(['MCLife_quick.cfg', 'MCLife_live.cfg'], ['MCLife.cfg', 'MCLife_live.cfg']))
    r = c.rnd
    s = []

    def e(name, i=0, r=0, n=0, size=0): return {'O': name, 'I': i, 'R': r, 'N': n, 'Size': size}
    H = e('held')

    def add(i, net, tr, ops, **kw):
        s.append(dict({'ID': '%s-%s-%s' % (i, net, tr), 'Net': net, 'Tr': tr, 'Ops': [e('memory'), H] + ops + [H, e('memory')]}, **kw))
    big = c.pick(12000, 60000)
    for net in NETS:
        for tr in ('nul', 'lf', 'rfc'):
            g = r.random() < .5
            # a sender: connected, reconnected, failing, ended; again and again
            life = [e('dial', 1), e('send', 1, n=3), H, e('end', 1)]
            add('sender', net, tr, [e('peer'), H] + life + [H] + life + [H] + life * 6 + [H, e('nopeer')], Guess=g)
            add('drops', net, tr, [e('peer'), e('dial', 1), e('send', 1, n=2), H] + [e('drop'), e('again', 1), H] + [e('drop'), e('again', 1)] * 8 + [H, e('end', 1), H, e('nopeer')], Guess=g)
            add('fails', net, tr, [e('dial', 1), e('fail', 1), H, e('fail', 1), e('fail', 1), H] + [e('fail', 1)] * 10 +
                [H, e('peer'), e('again', 1), H, e('nopeer'), e('fail', 1), H, e('peer'), e('again', 1), H, e('end', 1), H, e('nopeer')], Guess=g)
            add('senders', net, tr, [e('peer'), H] + [e('dial', k) for k in range(1, 5)] + [e('send', k, n=k) for k in range(1, 5)] + [H] +
                [x for k in range(1, 5) for x in (e('end', k), H)] + [e('nopeer')], Guess=g)
            # never connected
            add('idle', net, tr, [e('dial', 1), e('end', 1), H] + [e('dial', 1), e('end', 1)] * 20 + [H])
            add('idlepeer', net, tr, [e('peer'), H, e('dial', 1), e('end', 1), H] + [e('dial', 1), e('end', 1)] * 20 + [H, e('nopeer')])
            add('users', net, tr, [e('peer'), H, e('connect', n=2), H, e('connect', n=40), H, e('nopeer')])
            add('memory', net, tr, [e('peer'), e('dial', 1)] + [e('send', 1, n=big // 40, size=1000)] * 40 + [H, e('memory'), e('end', 1), H, e('nopeer')])
            add('refused', net, tr, [x for k in range(9) for x in (e('refused', k, n=30), H)])
            if net == 'unixgram':
                continue
            # a receiver: its clients come, say something or nothing of value, and leave
            come = [e('client', 1, 1), e('say', 1, n=3), H, e('leave', 1)]
            rude = [e('client', 1, 1), e('noise', 1, n=r.randrange(7)), e(r.choice(['leave', 'reset']), 1)]
            add('receiver', net, tr, [e('listen', 1), H] + come + [H] + come * 10 + [H, e('stop', 1), e('over', 1), H])
            add('rude', net, tr, [e('listen', 1), H] + [x for k in range(7) for x in (e('client', 1, 1), e('noise', 1, n=k), e(['leave', 'reset'][k % 2], 1), H)] +
                [x for k in range(7) for x in (e('client', 1, 1), e('noise', 1, n=k), e(['reset', 'leave'][k % 2], 1), H)] + come + rude * 10 + [H] + come + [e('stop', 1), e('over', 1), H])
            add('many', net, tr, [e('listen', 1), H] + [e('client', k, 1) for k in range(1, 7)] + [H] + [x for k in range(1, 7) for x in (e('leave', k), H)] +
                [x for k in range(1, 7) for x in (e('client', k, 1), H)] + [e('stop', 1)] + [x for k in range(1, 7) for x in (H, e('leave', k))] + [e('over', 1), H])
            # ended and made again, at the same place
            one = [e('listen', 1), e('client', 1, 1), H, e('stop', 1), e('leave', 1), e('over', 1), H]
            add('listens', net, tr, one * 6)
            add('unused', net, tr, [e('listen', 1), e('stop', 1), e('over', 1), H] * 6)
            add('rmemory', net, tr, [e('listen', 1), e('client', 1, 1), H] + [e('say', 1, n=big // 40, size=1000)] * 40 + [H, e('memory'), e('leave', 1), H, e('stop', 1), e('over', 1)])
    # histories
    for k in range(c.pick(150, 2500)):
        net, tr = r.choice(NETS), r.choice(['nul', 'lf', 'rfc'])
        ops, peer, snd, rcv, cl, noisy, unsure = [], False, {}, {}, {}, set(), set()
        for _ in range(r.randint(10, 60)):
            x = r.random()
            i = r.randint(1, 4)
            if x < .1:
                if peer and not any(v != 'down' for v in snd.values()):
                    ops.append(e('nopeer')); peer = False
                elif peer:
                    ops.append(e('nopeer')); peer = False
                    for a in snd:
                        ops.append(e('fail', a)); snd[a] = 'down'
                else:
                    ops.append(e('peer')); peer = True
            elif x < .25 and i not in snd:
                ops.append(e('dial', i)); snd[i] = 'fresh'
            elif x < .4 and i in snd:
                if peer:
                    ops.append(e('again', i)); snd[i] = 'up'
                else:
                    ops.append(e('fail', i)); snd[i] = 'down'
            elif x < .45 and peer and snd:
                ops.append(e('drop'))
                for a in snd:
                    ops.append(e('again', a)); snd[a] = 'up'
            elif x < .55 and i in snd and (peer or snd[i] == 'fresh'):
                ops.append(e('end', i)); del snd[i]
            elif x < .7 and net != 'unixgram':
                q = r.randint(1, 2)
                if q not in rcv:
                    ops.append(e('listen', q)); rcv[q] = 1
                elif r.random() < .2:
                    ops.append(e('stop', q))
                    for a in [a for a in cl if cl[a] == q]:
                        ops.append(e('leave', a)); del cl[a]; noisy.discard(a)
                    ops.append(e('over', q)); del rcv[q]
                elif i not in cl:
                    ops.append(e('client', i, q)); cl[i] = q
            elif x < .8 and i in cl:
                if i not in noisy and r.random() < .5:
                    ops.append(e('say', i, n=r.randint(1, 5)))
                else:
                    ops.append(e('noise', i, n=r.randrange(7))); noisy.add(i)
            elif x < .9 and i in cl:
                ops.append(e(r.choice(['leave', 'reset']), i)); del cl[i]; noisy.discard(i)
            # a sender that is down may be reconnecting, when there is a peer again
            elif not noisy and not (peer and 'down' in snd.values()):
                ops.append(H)
        if snd and not peer:
            ops.append(e('peer'))
            peer = True
        ops += [y for a in snd for y in (e('again', a), e('end', a))] + [e('leave', a) for a in cl]
        ops += [y for q in rcv for y in (e('stop', q), e('over', q))] + ([e('nopeer')] if peer else [])
        add('random%d' % k, net, tr, ops, Guess=r.random() < .3)

    def prep(res, scn):
        c.count('life_' + scn['Net'])
        for x in res['ev']:
            c.count('life_' + x['e'])
        return {'id': res['id'], 'ev': res['ev']}
    c.run_traces('life', 'TraceLife.tla', s, prep=prep, timing=('held',))


PROPS = {'C26': c26}
