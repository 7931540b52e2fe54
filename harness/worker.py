"""Runs histories on the real library and writes their traces.

  worker.py PROP SEED SHARD NSHARDS N OUT SCRATCH [FILE-OF-HISTORIES]

runs the random histories i < N with i = SHARD mod NSHARDS, and the histories of the file (one JSON object per
line) with line number = SHARD mod NSHARDS."""
import json, os, shutil, sys, traceback


def main():
    prop, seed, shard, nshards, n, out, scratch = sys.argv[1:8]
    extra = sys.argv[8] if len(sys.argv) > 8 else None
    shard, nshards, n = int(shard), int(nshards), int(n)
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    import gen, world

    def histories():
        for i in range(shard, n, nshards):
            yield gen.history(prop, seed, i)
        if extra:
            with open(extra) as f:
                for k, line in enumerate(f):
                    if k % nshards == shard:
                        yield json.loads(line)

    with open(out, 'w') as o:
        for h in histories():
            d = os.path.join(scratch, 'h')
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            w = None
            try:
                w = world.World(h, d)
                t = w.run()
            except Exception as e:      # the state of the library left the history without a next operation
                t = w.trace if w else dict(id=h['id'], files={}, ps=[], dcs=[], ev=[], tags=[])
                t['crash'] = '%s: %s' % (type(e).__name__, str(e)[:200])
                sys.stderr.write(traceback.format_exc())
            o.write(json.dumps(t) + '\n')
    shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    main()
