"""show.py REPLAY: the history of a replay file, and where the observed documents differ from the expected ones"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check


def diff(a, b, path=''):
    if type(a) != type(b):
        return [(path, a, b)]
    if isinstance(a, dict):
        return [x for k in sorted(set(a) | set(b)) for x in diff(a.get(k), b.get(k), path + '/' + k)]
    if isinstance(a, list):
        if len(a) != len(b):
            return [(path + '#', a, b)]
        return [x for i, (p, q) in enumerate(zip(a, b), 1) for x in diff(p, q, path + '/%d' % i)]
    return [] if a == b else [(path, a, b)]


def brief(x):
    if isinstance(x, list) and x and isinstance(x[0], dict):
        return [(t.get('r', t.get('n')), t.get('v')) for t in x]
    return str(x)[:400]


d = json.load(open(sys.argv[1]))
h = d['history']
print(d['property'], d['clauses'], 'event', d['event'])
for k, v in h['files'].items():
    print(k)
    for r in v if isinstance(v, list) else [v]:
        print('   ', r)
for o in h['ops']:
    print('-', {k: v for k, v in o.items() if k != 'rows'})
    for r in o.get('rows', []):
        print('   ', r)
print(json.dumps(d['got'])[:1500])
c = check.Check(d['property'], 'quick', 1)
ef = os.path.join(c.scratch, 'e')
open(ef, 'w').write(json.dumps(h) + '\n')
path = c.record(0, 1, 0, ef, 'x')
t = json.loads(open(path).read())
out = check.tlc('Trace.tla', 'Trace.cfg', c.scratch, dict(VPROP=d['property'], VTRACE=path, VDEBUG='1'))
for s in check.printed(out, 'EXP'):
    k, js = s.split(' ', 1)
    if int(k) != d['event'] and len(sys.argv) < 3:
        continue
    e = t['ev'][int(k) - 1]
    want = json.loads(js)
    n = e['p'][e['d'] - 1]
    if not n or not want:
        continue
    for x in diff(want, t['ps'][n - 1]['secs']):
        print('event', k, x[0], '\n    expected', brief(x[1]), '\n    observed', brief(x[2]))
if 'No error' not in out:
    i = out.find('Error:')
    print(out[i:i + 1500])
