"""C25: Make.tla"""
from vlib import *

TCPA = ['ip4', 'ip6', 'all', 'local', 'used', 'foreign', 'noport', 'badport', 'bigport', 'negport', 'junk', 'brackets', 'path', 'empty']
PATHS = ['free', 'file', 'infile', 'dir', 'nodir', 'longpath', 'empty', 'staleunix', 'stalegram']
ODD = ['', 'udp', 'udp4', 'ip', 'unixpacket', 'TCP', 'tcp5', 'tcp ', 'Unix', 'unixgram ', 'syslog', 'tls', 'pipe', 'fd', 'tcp4,tcp6', 'unixgrams']


def c25(c):
    c.model('MCMake.tla', 'MCMake.cfg')
    cs = []

    def add(op, by, net, a): cs.append({'Op': op, 'By': by, 'Net': net, 'A': a})
    for rep in range(c.pick(1, 8)):
        for net in ['tcp', 'tcp4', 'tcp6']:
            for a in TCPA:
                add('listen', 'tcp', net, a)
                add('listen', 'guess', net, a)
            for a in ['peer4', 'peer6', 'refused', 'noport', 'badport', 'junk', 'brackets', 'path', 'empty']:
                add('connect', 'tcp', net, a)
        for a in PATHS:
            for by in ('unix', 'unixgram'):
                add('listen', by, '', a)
                add('listen', 'guess', by, a)
            for net in ('', 'unix', 'unixgram'):
                if a != 'empty':
                    add('connect', 'local', net, a)
        for net in ('', 'unix', 'unixgram'):
            for a in ('peerunix', 'peergram'):
                add('connect', 'local', net, a)
        for net in ODD + ['stdio', 'local']:
            for a in ('ip4', 'free', 'empty'):
                add('listen', 'guess', net, a)
            for a in ('ip4', 'free', 'empty', 'peer4'):
                if net not in ('unix', 'unixgram'):
                    add('listen', 'tcp', net, a)
                    add('connect', 'tcp', net, a)
            for a in ('free', 'peerunix', 'peergram'):
                if net:
                    add('connect', 'local', net, a)
        add('listen', 'tcp', 'unix', 'free')
        for a in ['stdout:', 'stderr:', 'empty', 'stdout', 'stderr', 'STDOUT:', 'stdin:', '-', '/dev/null', 'free', 'file', 'stdout: ', ':stdout', 'stderr:stdout:']:
            add('connect', 'stdio', '', a)
        add('connect', 'invalid', '', '')
        for net in ODD + ['stdio', 'local', 'tcp', 'tcp4', 'tcp6', 'unix', 'unixgram']:
            for a in ('ip4', 'free', 'empty'):
                add('dial', '', net, a)
        for a in ('nil', 'nul', 'lf', 'rfc'):
            for q in ('-1', '0', '5'):
                add('receiver', '', q, a)
        for a in ('', 'a', '-', ' ', 'a b', '\n', 'x' * 100):
            add('syslog', '', '', a)
    c.run_cases('make', 'CaseMake.tla', cs, batch=12)


PROPS = {'C25': c25}
