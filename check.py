#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE]

Decides property ID for the tree in /repo: model-checks the specification, replays the behaviours of the model and
seeded random histories into the real library, and validates the recorded traces against the specification.
Exit 0: held; exit 1 with a VIOLATION line: did not."""
import argparse, concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, 'spec')
PY = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = 8

sys.path.insert(0, os.path.join(HERE, 'harness'))
import plan


def tlc(module, cfg, scratch, env, heap='2g', timeout=None, args=(), workers=1):
    """Runs TLC; returns its output"""
    meta = tempfile.mkdtemp(dir=scratch)
    cmd = ['java', '-Djava.io.tmpdir=' + meta, '-Dfile.encoding=UTF-8', '-Dstdout.encoding=UTF-8', '-Xss64m', '-Xmx' + heap, '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4',
           '-cp', JAR, 'tlc2.TLC', '-workers', str(workers), '-noGenerateSpecTE', '-metadir', meta, '-config', cfg] + list(args) + [module]
    e = dict(os.environ, **env)
    e['LC_ALL'] = 'C.UTF-8'
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out = p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b'').decode('utf8', 'replace') + '\nError: timeout'
    shutil.rmtree(meta, ignore_errors=True)
    return out


def counts(out):
    m = re.findall(r'^(\d+) states generated, (\d+) distinct states found', out, re.M)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def printed(out, word):
    """The strings printed by the model that start with the word"""
    res = []
    for line in out.splitlines():
        if line.startswith('"' + word + ' '):
            try:
                res.append(json.loads(line)[len(word) + 1:])
            except ValueError:
                res.append(line[len(word) + 2:-1].replace('\\"', '"').replace('\\\\', '\\'))
    return res


class Check(object):

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.scratch = tempfile.mkdtemp(prefix='verif-')
        self.states = self.transitions = self.traces = self.events = 0
        self.mc = []
        self.bad = []                   # (trace, event, clauses)
        self.samples = []
        self.pyenv = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONIOENCODING='utf8', LC_ALL='C.UTF-8')

    # -- the model

    def model(self, job):
        """Model-checks one bounded model; returns the histories it printed"""
        base = os.path.join(self.scratch, job['name'])
        with open(base + '.cfg', 'w') as f:
            f.write('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' + ''.join('INVARIANT %s\n' % i for i in job['invariants'])
                    + ''.join('PROPERTY %s\n' % i for i in job.get('properties', [])) + ('VIEW %s\n' % job['view'] if 'view' in job else ''))
        with open(base + '.json', 'w') as f:
            json.dump(job['menu'], f)
        t = time.time()
        out = tlc(job['module'] + '.tla', base + '.cfg', self.scratch, dict(VMENU=base + '.json', VLEN=str(job['len'])), heap='6g', workers=3)
        gen, dist = counts(out)
        if 'Model checking completed. No error has been found.' not in out:
            sys.stderr.write(out[-6000:])
            sys.stderr.write('model checking of the specification failed: %s (the specification, not the code, is at fault)\n' % job['name'])
            os._exit(2)
        hs = job['wrap']([json.loads(s) for s in sorted(printed(out, 'HIST'))])
        hs = [dict(h, id='%s-%s' % (job['name'], k)) for k, h in enumerate(hs)]
        self.mc.append(dict(model=job['name'], module=job['module'], bounds=job['bounds'], invariants=job['invariants'], action_properties=job.get('properties', []),
                            states=dist, transitions=gen, histories=len(hs), wall_s=round(time.time() - t, 1)))
        self.states += dist
        self.transitions += gen
        return hs

    # -- traces from the real code

    def record(self, shard, nshards, n, extra, tag):
        out = os.path.join(self.scratch, 'tr-%s-%d.ndjson' % (tag, shard))
        cache = os.path.join(self.scratch, 'cache-%s-%d' % (tag, shard))       # no two processes share a cache
        os.makedirs(cache, exist_ok=True)
        env = dict(self.pyenv, METAPACK_CACHE=cache, METATAB_CACHE=cache, HOME=cache, XDG_CACHE_HOME=cache)
        p = subprocess.run([PY, '-W', 'ignore', os.path.join(HERE, 'harness', 'worker.py'), self.prop, str(self.seed), str(shard), str(nshards), str(n),
                            out, os.path.join(self.scratch, 'w-%s-%d' % (tag, shard))] + ([extra] if extra else []),
                           env=env, cwd=self.scratch, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        shutil.rmtree(cache, ignore_errors=True)
        err = p.stderr.decode('utf8', 'replace')[-3000:]
        if p.returncode:                # the library cannot even be imported, or took the process down
            sys.stderr.write(err)
            with open(out, 'a') as f:
                f.write(json.dumps(dict(id='crash-%s-%d' % (tag, shard), files={}, ps=[], dcs=[], ev=[], tags=[],
                                        crash='process ended with %d: %s' % (p.returncode, err[-300:]))) + '\n')
        elif err:
            sys.stderr.write(err)
        return out

    def validate(self, path, again=False):
        """Validates a file of traces; returns [(trace id, event, clauses)]"""
        with open(path, encoding='utf8') as f:
            lines = f.readlines()
        if not lines:
            return []
        out = tlc('Trace.tla', 'Trace.cfg', self.scratch, dict(VPROP=self.prop, VTRACE=path), heap='3g')
        gen, dist = counts(out)
        if 'Model checking completed. No error has been found.' in out:
            self.states += dist
            self.transitions += gen
            bad = []
            for s in printed(out, 'BAD'):
                tid, ev, cl = s.split(' ', 2)
                bad.append((tid, int(ev), cl))
            return bad
        if len(lines) == 1 and not again:
            return self.validate(path, True)
        if len(lines) == 1:
            t = json.loads(lines[0])
            msg = [x for x in out.splitlines() if x.startswith('Error')][:3]
            sys.stderr.write(out[-3000:])
            return [(str(t['id']), len(t['ev']), 'outside-spec ' + ' '.join(msg))]
        mid = len(lines) // 2
        res = []
        for k, part in enumerate((lines[:mid], lines[mid:])):
            p = '%s.%d' % (path, k)
            with open(p, 'w', encoding='utf8') as f:
                f.writelines(part)
            res += self.validate(p)
            os.remove(p)
            if res:
                break
        return res

    def crashes(self, path):
        """Histories that could not be carried on: the library left a state that has no projection"""
        bad = []
        with open(path, 'rb+') as f:
            lines = f.read().splitlines()
            keep = []
            for s in lines:
                try:
                    t = json.loads(s.decode('utf8'))
                except ValueError:
                    continue
                keep.append(s)
                if t.get('crash'):
                    bad.append((str(t['id']), len(t['ev']), 'crash ' + t['crash']))
            f.seek(0)
            f.truncate()
            f.write(b''.join(s + b'\n' for s in keep))
        return bad

    def shard(self, args):
        path = self.record(*args)
        bad = self.crashes(path) + self.validate(path)
        n, ev, ops, xs, sample = 0, 0, {}, {}, None
        found = {}
        want = {b[0] for b in bad}
        with open(path, encoding='utf8') as f:
            for line in f:
                t = json.loads(line)
                n += 1
                ev += len(t['ev'])
                for e in t['ev']:
                    ops[e['op']] = ops.get(e['op'], 0) + 1
                    if e['x']:
                        xs[e['x']] = xs.get(e['x'], 0) + 1
                if sample is None and len(t['ev']) > 0 and not t['ev'][0]['x']:
                    sample = dict(id=t['id'], files=t['files'], ops=[strip(e) for e in t['ev']][:6])
                if t['id'] in want:
                    found[t['id']] = t
        os.remove(path)
        return n, ev, ops, xs, sample, [(found[b[0]],) + b for b in bad]

    def run(self):
        t0 = time.time()
        p = plan.plan(self.prop, self.tier)
        ops, xs = {}, {}

        def collect(r):
            n, ev, o, x, sample, bad = r
            self.traces += n
            self.events += ev
            for k, v in o.items():
                ops[k] = ops.get(k, 0) + v
            for k, v in x.items():
                xs[k] = xs.get(k, 0) + v
            if sample and len(self.samples) < 3:
                self.samples.append(sample)
            self.bad += bad

        with cf.ThreadPoolExecutor(CORES) as ex:
            mcs = [ex.submit(self.model, j) for j in p['models']]
            n, k = p['random'], p['shards']
            futs = [ex.submit(self.shard, (i, k, n, None, 'r')) for i in range(k)]
            extra = []
            for m in mcs:
                extra += m.result()
            extra += p['corpus']
            if extra:
                ef = os.path.join(self.scratch, 'extra.ndjson')
                with open(ef, 'w') as f:
                    for h in extra:
                        f.write(json.dumps(h) + '\n')
                k2 = max(1, min(max(8, len(extra) // 400), len(extra) // 4))
                futs += [ex.submit(self.shard, (i, k2, 0, ef, 'm')) for i in range(k2)]
            for f in futs:
                collect(f.result())
        known = self.known()
        self.evidence(p, ops, xs, time.time() - t0, len(extra))
        return self.report(known)

    def known(self):
        """Genuine defects on record: run each one's input again"""
        out = []
        for k in plan.KNOWN.get(self.prop, []):
            f = os.path.join(self.scratch, 'known.ndjson')
            with open(f, 'w') as o:
                o.write(json.dumps(dict(k['history'], id='known')) + '\n')
            path = self.record(0, 1, 0, f, 'k')
            with open(path) as fh:
                t = json.loads(fh.readline())
            if t['ev'][-1]['x'] == k['error']:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        return out

    def evidence(self, p, ops, xs, wall, nextra):
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking', wall_s=round(wall, 1), violations=len(self.bad),
                  coverage=dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces, samples=self.samples,
                                events_validated=self.events, operations=ops, errors_observed=xs, models=self.mc,
                                histories_from_model_and_corpus=nextra, random_histories=p['random'],
                                checker='TLC on spec/Trace.tla with VPROP=%s; models as listed' % self.prop),
                  assumptions=p['assumptions'])
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)

    def report(self, known):
        if not self.bad:
            print('OK property=%s traces=%d events=%d states=%d' % (self.prop, self.traces, self.events, self.states))
            return 0
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        self.bad.sort(key=lambda b: (len(json.dumps(b[0])), b[2]))
        t, tid, ev, cl = self.bad[0]
        path = os.path.join(d, '%s-%s.json' % (self.prop, self.seed))
        h = dict(id=t['id'], files=t['files'], ops=[strip(e) for e in t['ev'][:ev]], watch=self.prop == 'C20', twice=self.prop == 'C19')
        with open(path, 'w') as f:
            json.dump(dict(property=self.prop, clauses=cl, event=ev, history=h, got={k: t['ev'][ev - 1].get(k) for k in ('x', 'xm', 'r')} if ev else {}), f, indent=1)
        for b in self.bad[:8]:
            print('  trace %s event %d (%s): %s' % (b[1], b[2], opname(b), b[3]))
        print('VIOLATION property=%s replay=%s' % (self.prop, path))
        return 1

    def replay(self, path):
        with open(path) as f:
            h = json.load(f)['history']
        ef = os.path.join(self.scratch, 'extra.ndjson')
        with open(ef, 'w') as f:
            f.write(json.dumps(h) + '\n')
        r = self.shard((0, 1, 0, ef, 'm'))
        self.bad = r[5]
        for b in self.bad:
            print('  event %d (%s): %s' % (b[2], opname(b), b[3]))
        if self.bad:
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        return 1 if self.bad else 0


def opname(b):
    return b[0]['ev'][b[2] - 1]['op'] if b[2] else 'start'


def strip(e):
    return {k: v for k, v in e.items() if k not in ('r', 'x', 'xm', 'xt', 'p', 'reg', 'same', 'seen')}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    a = ap.parse_args()
    c = Check(a.prop, a.tier, int(os.environ.get('VERIF_SEED', '1')))
    try:
        return c.replay(a.replay) if a.replay else c.run()
    finally:
        shutil.rmtree(c.scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
