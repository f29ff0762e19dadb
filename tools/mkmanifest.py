#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
TR = 'TLA+ specification model checked with TLC, and validation by TLC of traces recorded from the real code'
CS = 'TLA+ specification evaluated by TLC against results of the real code (one behaviour per call)'
BASE = ' TLC explores the bounded instance of the specification completely; the real code is run on scenarios (exhaustive families plus seeded random ones) and every recorded behaviour must be one of the specification. Assumes the harness records events faithfully.'
NOTE = {
    'C01': (TR, 'Sender.tla: all interleavings of a bounded instance; real Senders over a scripted connector, concurrent producers, scenarios generated from the specification.'),
    'C02': (TR, 'Sender.tla with faults: exhaustive failure points of small frame lists and random fault scripts on the real Sender.'),
    'C03': (TR, 'Sender.tla: End in every state, liveness (End returns once delivery is possible) checked on the model; real End calls at every point.'),
    'C04': (TR, 'Sender.tla: error channel with every kind of reader.'),
    'C05': (TR, 'Receiver.tla over Syntax.tla: every way to cut small streams, sizes around the buffer size, all transports.'),
    'C06': (TR, 'Receiver.tla over Syntax.tla: hostile streams.'),
    'C07': (TR, 'Receiver.tla: every point at which a connection can end, for each kind of end.'),
    'C08': (TR, 'Receiver.tla: several connections and receiving goroutines, failures of Accept.'),
    'C09': (TR, 'Receiver.tla: End at every point of the life of connections. One known finding (unixgram receivers).'),
    'C10': (CS, 'Syntax.tla: all short strings over critical alphabets, mutations of valid messages, each transport.'),
    'C11': (TR, 'Message.tla: fields of all byte values and lengths around the limits.'),
    'C12': (TR, 'Message.tla: random derivation trees, every live message encoded again at the end.'),
    'C13': (TR, 'Message.tla and Syntax.tla: round trips.'),
    'C14': (TR, 'Channels.tla: all 192 minimum priorities times all severities, concurrent first uses; the sync.Once protocol is model checked.'),
    'C15': (TR, 'Channels.tla: random derivation trees, sequential and concurrent.'),
    'C16': (CS, 'SData.tla: all short values over critical bytes, random values, all shapes of Go values.'),
    'C17': (CS, 'SData.tla: all combinations of parameters, all small element texts, mutations.'),
    'C18': (TR, 'Registry.tla: model checked interleavings; real registries with all small sets of decoders, concurrent use.'),
    'C19': (CS, 'Priority.tla: exhaustive over priorities, over all names and all short wire forms.'),
    'C20': (TR, 'Path.tla: every kind of object at the path times every constructor, sequences of uses, on a real file system.'),
    'C21': (TR, 'Dial.tla: every network, transport and kind of peer over real sockets.'),
    'C22': (TR, 'EndToEnd.tla: real senders and receivers over real sockets.'),
    'C23': (TR, 'Message.tla: calendar arithmetic of the specification against the real timestamps.'),
    'C24': (CS, 'Tokens.tla: all short strings over the significant bytes, every byte at every place, random and mutated elements; the walk over an element is model checked against the grammar of SData.tla.'),
    'C26': (TR, 'Life.tla: model checked that what is held at rest is a function of what users see; goroutines, descriptors and memory of the harness process measured through histories of real senders and receivers.'),
    'C25': (CS, 'Make.tla: every constructor and connector with every network name and class of address, on real sockets and files.'),
}
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import importlib
have = set()
for f in os.listdir(os.path.dirname(os.path.abspath(__file__))):
    if f.startswith('p_') and f.endswith('.py'):
        have |= set(importlib.import_module(f[:-3]).PROPS)
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'tools/setup.sh', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in have:
        t, n = NOTE[i]
        m['checks'].append({'property': i, 'quick_cmd': './check %s' % i, 'thorough_cmd': './check %s --tier thorough' % i,
                            'technique': t, 'level': 'model_checking', 'level_note': n + BASE})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'the check is not built yet'})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks')
