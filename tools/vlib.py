"""Common machinery of the checks: build the harness, run scenarios on the real code, let TLC check
specifications and validate traces, report."""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, '.build')
HARNESS = os.path.join(BUILD, 'harness')
GOROOT = '/opt/veriftools/go1.27.3/bin'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = min(8, os.cpu_count() or 4)


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def goenv():
    env = dict(os.environ)
    env.setdefault('HOME', '/root')
    env.update(GO111MODULE='on', GOTOOLCHAIN='local', GOWORK='off', GOPROXY='off', GOFLAGS='-mod=mod',
               PATH=GOROOT + ':' + env.get('PATH', '/usr/bin:/bin'), CGO_ENABLED='0')
    return env


# names with several addresses, in the resolver of the harness (harness/hosts.go)
HOSTS = '''127.0.0.1 localhost
127.0.0.1 both.verif.test
::1 both.verif.test
127.0.0.77 many.verif.test
127.0.0.78 many.verif.test
127.0.0.1 many.verif.test
127.0.0.79 many.verif.test
::1 six.verif.test
'''


def build_harness():
    os.makedirs(BUILD, exist_ok=True)
    t = time.time()
    with open(os.path.join(BUILD, 'hosts'), 'w') as f:
        f.write(HOSTS)
    p = subprocess.run(['go', 'build', '-buildvcs=false', '-ldflags=-checklinkname=0', '-o', HARNESS, '.'], cwd=os.path.join(VERIF, 'harness'), env=goenv(),
                       capture_output=True, text=True)
    if p.returncode != 0:
        raise ToolError('the harness does not build against /repo:\n' + p.stderr[-4000:])
    log('harness built in %.1fs' % (time.time() - t))


def scratch():
    os.makedirs(BUILD, exist_ok=True)
    return tempfile.mkdtemp(prefix='run-', dir=BUILD)


# ---------------------------------------------------------------- real runs

def _run_shard(mode, scns, env, limit, shared=None):
    """run scenarios one after another; a crash or a hang is attributed to the scenario in progress"""
    res = {}
    todo = list(scns)
    shared = shared if shared is not None else []
    while todo:
        if len(shared) >= 4:
            # enough went wrong
            for s in todo:
                res[s['ID']] = {'id': s['ID'], 'skipped': True}
            break
        batch = todo[:60]
        inp = '\n'.join(json.dumps(s) for s in batch) + '\n'
        try:
            p = subprocess.run([HARNESS, mode], input=inp.encode(), capture_output=True, env=env, timeout=limit)
            rc, out, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as e:
            rc, out, err = -99, e.stdout or b'', e.stderr or b''
        current = None
        for line in out.split(b'\n'):
            if not line.strip():
                continue
            try:
                o = json.loads(line)
            except ValueError:
                continue
            if 'begin' in o:
                current = o['begin']
            else:
                res[o['id']] = o
                current = None
        if rc == 0:
            if len([s for s in batch if s['ID'] not in res]):
                raise ToolError('harness ended without running everything')
            shared += [1 for s in batch if res[s['ID']].get('skipped')]
            todo = todo[len(batch):]
            continue
        if rc == 4:
            raise ToolError('harness error: ' + err.decode(errors='replace')[-2000:])
        stuck = [i for i in res if res[i].get('stuck') and not res[i].get('seen')]
        if current is None and not stuck:
            raise ToolError('harness exit %s outside a scenario: %s' % (rc, err.decode(errors='replace')[-2000:]))
        for i in stuck:
            res[i]['seen'] = True
        if current is not None:
            txt = err.decode(errors='replace')
            what = 'hang' if rc == -99 else 'crash'
            if what == 'crash' and 'panic' not in txt and 'fatal error' not in txt and 'signal' not in txt and 'syslog5424' not in txt:
                raise ToolError('harness died (%s): %s' % (rc, txt[-2000:]))
            txt = txt or 'no output'
            res[current] = {'id': current, what: txt[:3000] + ('\n...\n' + txt[-1500:] if len(txt) > 3000 else txt[3000:])}
        shared.append(1)
        todo = [s for s in todo if s['ID'] not in res]
    return res


def run_harness(mode, scns, shards=NCPU, env=None, limit=200, patience=None):
    e = dict(os.environ)
    e.update(env or {})
    if patience:
        e['HARNESS_PATIENCE'] = patience
    e['GOTRACEBACK'] = 'single'
    shards = max(1, min(shards, len(scns)))
    res = {}
    shared = []
    with cf.ThreadPoolExecutor(shards) as ex:
        futs = [ex.submit(_run_shard, mode, scns[i::shards], e, limit, shared) for i in range(shards)]
        for f in futs:
            res.update(f.result())
    return res


# ---------------------------------------------------------------- TLC

def tlc(module, cfg, env=None, workers=1, extra=(), timeout=850, heap='2g', fast=True):
    wd = scratch()
    cmd = ['java', '-Xmx' + heap, '-Xss256m']
    if fast:
        cmd += ['-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1']
    else:
        cmd += ['-XX:+UseParallelGC']
    cmd += ['-cp', JARS, 'tlc2.TLC', '-workers', str(workers), '-noGenerateSpecTE', '-metadir', os.path.join(wd, 'md'),
            '-config', os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module)]
    e = dict(os.environ)
    e.update(env or {})
    e.setdefault('PROGRESS', '0')
    e.pop('JAVA_TOOL_OPTIONS', None)
    try:
        p = subprocess.run(cmd, cwd=wd, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC timeout on ' + module)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    out = p.stdout
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    stats = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
    return p.returncode, out + p.stderr, stats


def model_check(module, cfg, workers=NCPU, extra=(), timeout=850, heap='6g'):
    """the design: a failure here is an error of the specification, never a verdict on the code"""
    t = time.time()
    rc, out, st = tlc(module, cfg, workers=workers, extra=extra, timeout=timeout, heap=heap, fast=False)
    if rc != 0 or 'No error has been found' not in out:
        raise ToolError('TLC on %s (%s): rc=%s\n%s' % (module, cfg, rc, out[-3000:]))
    log('%s %s: %d states (%d generated) in %.1fs' % (module, cfg, st[1], st[0], time.time() - t))
    return {'module': module, 'cfg': cfg, 'generated': st[0], 'distinct': st[1]}


def _validate(module, cfg, traces, consts, timeout, positions=False):
    wd = scratch()
    try:
        f = os.path.join(wd, 't.ndjson')
        with open(f, 'w') as h:
            for t in traces:
                h.write(json.dumps(t) + '\n')
        env = {'TRACES': f}
        env.update(consts or {})
        rc, out, st = tlc(module, cfg, env=env, timeout=timeout)
        if rc != 0 or 'No error has been found' not in out:
            raise ToolError('TLC on traces (%s): rc=%s\n%s' % (module, rc, out[-3000:]))
        acc = set(int(x) for x in re.findall(r'<<"ACC", (\d+)>>', out))
        bad = [i for i in range(1, len(traces) + 1) if i not in acc]
        pos = {}
        if positions:
            for a, b in re.findall(r'<<"POS", (\d+), (\d+)>>', out):
                pos.setdefault(int(a), set()).add(int(b))
            return [(traces[i - 1]['id'], pos.get(i, set())) for i in bad], st
        if bad:
            with open(f, 'w') as h:
                for i in bad[:20]:
                    h.write(json.dumps(traces[i - 1]) + '\n')
            env['PROGRESS'] = '1'
            rc, out, _ = tlc(module, cfg, env=env, timeout=timeout)
            for a, b in re.findall(r'<<"POS", (\d+), (\d+)>>', out):
                k = bad[int(a) - 1]
                pos[k] = max(pos.get(k, 0), int(b))
        return [(traces[i - 1]['id'], pos.get(i, 0)) for i in bad], st
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def validate(module, cfg, traces, shards=NCPU, consts=None, timeout=800, key=None, positions=False):
    """returns ([(id, position of the first event that is not explained)], states)"""
    if not traces:
        return [], 0
    t0 = time.time()
    shards = max(1, min(shards, (len(traces) + 4) // 5))
    # balance by size
    key = key or (lambda t: len(t.get('ev', ())))
    order = sorted(traces, key=key, reverse=True)
    parts = [order[i::shards] for i in range(shards)]
    bad, states = [], 0
    with cf.ThreadPoolExecutor(shards) as ex:
        for r, st in ex.map(lambda p: _validate(module, cfg, p, consts, timeout, positions), parts):
            bad += r
            states += st[0]
    log('%s: %d traces, %d states, %d rejected in %.1fs' % (module, len(traces), states, len(bad), time.time() - t0))
    return bad, states


# ---------------------------------------------------------------- a check

class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rnd = random.Random('%s-%d' % (prop, seed))
        self.t0 = time.time()
        self.mc = []
        self.trace_states = 0
        self.traces = 0
        self.samples = []
        self.pool = cf.ThreadPoolExecutor(1)
        self.pending = []    # model checking in progress
        self.replayed = set()
        self.only = None     # the scenario to run again
        self.failures = []   # (scenario id, what, details)
        self.detail = {}
        self.notes = []
        self.level = 'model_checking'

    @property
    def quick(self):
        return self.tier == 'quick'

    def pick(self, q, t):
        return q if self.quick else t

    def model(self, module, *cfgs, **kw):
        """check the specification itself, while the real code runs"""
        if self.only:
            return
        kw.setdefault('workers', 2 if self.quick else NCPU)
        for cfg in cfgs:
            self.pending.append(self.pool.submit(model_check, module, cfg, **kw))

    def fail(self, scn, what, details):
        self.failures.append((scn, what, details))

    def count(self, k, n=1):
        self.detail[k] = self.detail.get(k, 0) + n

    def broken(self, mode, r, scn):
        if r.get('crash'):
            self.fail(dict(scn, _mode=mode), 'the program crashed', {'stderr': r['crash']})
        elif r.get('hang') or r.get('stuck'):
            self.fail(dict(scn, _mode=mode), 'stuck: %s' % (r.get('stuck') or 'no end'), {'trace': {k: v for k, v in r.items() if k != 'seen'}})
        else:
            return False
        return True

    def not_run(self, mode, res, ids, env, limit):
        """the scenarios that were given up because of one that turned out to be right"""
        left = [ids[i] for i in res if res[i].get('skipped')]
        return run_harness(mode, left, shards=2, env=env, limit=limit) if left else {}

    def run_traces(self, mode, module, scns, cfg=None, consts=None, prep=None, env=None, limit=200, key=None, shards=NCPU, timing=()):
        """run the scenarios on the real code, validate what was observed"""
        t0 = time.time()
        if self.only:
            scns = [s for s in [self.only] if s.get('_mode') in (None, mode)]
            if not scns or mode in self.replayed:
                return []
            self.replayed.add(mode)
        ids = {s['ID']: s for s in scns}
        if len(ids) != len(scns):
            raise ToolError('duplicate scenario ids')
        res = run_harness(mode, scns, env=env, limit=limit, shards=shards)
        log('%s: %d scenarios run in %.1fs' % (mode, len(scns), time.time() - t0))
        suspects = [i for i in res if res[i].get('stuck') or res[i].get('hang')]
        if len(suspects) == 1:
            # a hang must not be an effect of the load: run it again, alone
            again = run_harness(mode, [ids[i] for i in suspects], shards=1, env=env, limit=limit, patience='20s')
            confirmed = any(r.get('stuck') or r.get('hang') or r.get('crash') for r in again.values())
            if not confirmed:
                self.notes.append('a hang that did not happen again: ' + suspects[0])
                for i in suspects:
                    res[i] = again[i]
                res.update(self.not_run(mode, res, ids, env, limit))
        traces = []
        for i, r in res.items():
            if r.get('skipped'):
                self.count('skipped')
            elif not self.broken(mode, r, ids[i]):
                traces.append(prep(r, ids[i]) if prep else r)
        bad, states = validate(module, cfg or module.replace('.tla', '.cfg'), traces, consts=consts, key=key)
        self.traces += len(traces)
        self.trace_states += states
        byid = {t['id']: t for t in traces}

        def event(i, pos): return (byid[i].get('ev', []) + [{}])[pos - 1] if pos > 0 else {}
        if len(bad) == 1 and event(*bad[0]).get('e') in timing:
            # what came too late must not be an effect of the load: run it again, alone
            i = bad[0][0]
            r = run_harness(mode, [ids[i]], shards=1, env=env, limit=limit, patience='20s')[i]
            if not (r.get('stuck') or r.get('hang') or r.get('crash')):
                t = prep(r, ids[i]) if prep else r
                again, _ = validate(module, cfg or module.replace('.tla', '.cfg'), [t], consts=consts, key=key)
                if not again:
                    self.notes.append('something was late, and not when it was run again: ' + i)
                    bad = []
                    more = self.not_run(mode, res, ids, env, limit)
                    if more:
                        # what was given up because of it
                        more = [prep(r, ids[i]) if prep else r for i, r in more.items() if not r.get('skipped') and not self.broken(mode, r, ids[i])]
                        self.detail['skipped'] -= len(more)
                        bad, states = validate(module, cfg or module.replace('.tla', '.cfg'), more, consts=consts, key=key)
                        self.traces += len(more)
                        self.trace_states += states
                        byid.update({t['id']: t for t in more})
                        traces += more
        for i, pos in bad:
            ev = byid[i].get('ev', [])
            nxt = ev[pos - 1] if 0 < pos <= len(ev) else 'the end of the trace'
            self.fail(dict(ids[i], _mode=mode), 'the specification %s does not allow event %d: %s' % (module, pos, json.dumps(nxt)[:400]),
                      {'trace': byid[i], 'position': pos})
        if traces and len(self.samples) < 3:
            t = min(traces, key=lambda t: abs(len(json.dumps(t)) - 900))
            self.samples.append({'scenario': ids[t['id']], 'trace': t})
        return traces

    def run_cases(self, mode, module, cases, batch=60, shards=NCPU):
        """results of functions of the real code, compared by TLC with the specification"""
        t0 = time.time()
        if self.only:
            if self.only.get('_mode') != mode or mode in self.replayed:
                return
            self.replayed.add(mode)
            cases = [self.only['case']]
        batch = max(1, min(batch, len(cases) // (shards * 4) + 1))
        groups, first = [], []
        for pump in sorted({x.get('Pump', 0) for x in cases}):
            # how many bytes stand for one: the same for all of a group
            of = [x for x in cases if x.get('Pump', 0) == pump]
            size = batch if pump == 0 else 8
            for i in range(0, len(of), size):
                first.append(sum(len(g) for g in groups))
                groups.append(of[i:i + size])
        scns = [{'ID': '%s-%d' % (mode, i), 'Mode': mode, 'Cases': g, 'Pump': g[0].get('Pump', 0)} for i, g in enumerate(groups)]
        res = run_harness('cases', scns, shards=shards)
        traces = []

        def scn(g, k):
            return {'ID': '%s-%d' % (mode, first[g] + k), '_mode': mode, 'case': groups[g][k]}
        for i, g in enumerate(groups):
            r = res['%s-%d' % (mode, i)]
            if r.get('skipped'):
                self.count('skipped')
                continue
            if 'cases' not in r:
                self.fail({'ID': r['id'], '_mode': mode, 'case': g[0]}, 'the program crashed or hangs', {'result': str(r)[:4000]})
                continue
            for x in r['crashes']:
                self.fail(scn(i, x['k']), 'panic: ' + x['what'].split('\n')[0], {'stack': x['what'][:4000]})
            crashed = {x['k'] for x in r['crashes']}
            keep = [k for k in range(len(g)) if k not in crashed]
            more = [m for m in r['more'] if m['k'] not in crashed]
            self.count('concurrent_cases', 4 * len(keep))
            traces.append({'id': i, 'keep': keep + [m['k'] for m in more], 'cases': [r['cases'][k] for k in keep] + [m['r'] for m in more]})
        byid = {t['id']: t for t in traces}
        wd = [{'id': t['id'], 'cases': t['cases']} for t in traces]
        bad, states = validate(module, module.replace('.tla', '.cfg'), wd, shards=shards, key=lambda t: len(json.dumps(t['cases'])), positions=True)
        n = sum(len(t['cases']) for t in traces)
        self.traces += n
        self.count(mode + '_cases', n)
        self.trace_states += n
        for i, ks in bad:
            for k in sorted(ks) or [1]:
                c = byid[i]['cases'][k - 1]
                self.fail(scn(i, byid[i]['keep'][k - 1]), 'not the result of the specification %s: %s' % (module, show(c)[:500]), {'result': c})
        if traces and len(self.samples) < 4:
            t = traces[len(traces) // 2]
            k = len(t['keep']) // 2
            self.samples.append({'case': groups[t['id']][t['keep'][k]], 'result': t['cases'][k]})
        log('%s: %d cases in %.1fs' % (mode, n, time.time() - t0))

    def finish(self):
        for f in self.pending:
            self.mc.append(f.result())
        if self.detail.get('skipped') and not self.failures:
            raise ToolError('scenarios were skipped, without a violation')
        known = json.load(open(os.path.join(VERIF, 'known-findings.json')))
        viol, seen = [], {}
        for scn, what, details in self.failures:
            k = scn.get('Known') if isinstance(scn, dict) else None
            hit = [f for f in known['findings'] if f['property'] == self.prop and k == f['scenario'] and f['signature'] in what]
            if hit:
                seen[hit[0]['id']] = hit[0]
            else:
                viol.append((scn, what, details))
        for f in seen.values():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, f['what']))
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
            'coverage': {
                'states': sum(m['distinct'] for m in self.mc) + self.trace_states,
                'transitions': sum(m['generated'] for m in self.mc) + self.trace_states,
                'traces_validated_against_impl': self.traces,
                'models': self.mc,
                'details': self.detail,
                'samples': trim(self.samples),
            },
            'assumptions': self.notes,
            'wall_s': round(time.time() - self.t0, 1),
            'violations': len(viol),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as h:
            json.dump(ev, h, indent=1)
        if self.detail.get('skipped') and not viol:
            raise ToolError('scenarios skipped without a violation')
        if viol:
            rd = os.path.join(BUILD, 'replay')
            os.makedirs(rd, exist_ok=True)
            shown = 0
            for scn, what, details in viol:
                name = '%s-%s.json' % (self.prop, re.sub(r'[^A-Za-z0-9_.-]', '_', str(scn.get('ID', 'x') if isinstance(scn, dict) else 'x')))
                path = os.path.join(rd, name)
                with open(path, 'w') as h:
                    json.dump({'property': self.prop, 'seed': self.seed, 'what': what, 'scenario': scn, 'details': details}, h, indent=1)
                if shown < 10:
                    print('VIOLATION property=%s replay=%s' % (self.prop, path))
                    print('  ' + what[:600])
                shown += 1
            log('%d failures' % len(viol))
            return 1
        log('%s held: %d real traces, %.1fs' % (self.prop, self.traces, time.time() - self.t0))
        return 0


def show(c):
    """bytes as text"""
    if isinstance(c, dict):
        return '{' + ', '.join('%s: %s' % (k, show(v)) for k, v in sorted(c.items())) + '}'
    if isinstance(c, list) and c and all(isinstance(x, int) and 0 <= x < 256 for x in c):
        return repr(bytes(c))[1:]
    if isinstance(c, list):
        return '[' + ', '.join(show(x) for x in c) + ']'
    return json.dumps(c)


def trim(x, n=6000):
    """samples stay readable"""
    s = json.dumps(x)
    if len(s) <= n * 4:
        return x
    return [json.dumps(e)[:n] for e in x]


def generate(module, cfg, num, depth, seed, timeout=300):
    """random behaviours of a specification, printed as JSON by its invariant Out"""
    rc, out, st = tlc(module, cfg, workers=1, extra=['-seed', str(seed), '-simulate', 'num=%d' % num, '-depth', str(depth)],
                      timeout=timeout)
    res, seen = [], set()
    for m in re.finditer(r'^"SCN (.*)"$', out, re.M):
        s = m.group(1).replace('\\"', '"').replace('\\\\', '\\')
        if s not in seen:
            seen.add(s)
            res.append(json.loads(s))
    if not res:
        raise ToolError('no behaviour generated by %s: rc=%s\n%s' % (module, rc, out[-2000:]))
    return res
