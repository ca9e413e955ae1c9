#!/usr/bin/env python3
"""explore.py PROP SECONDS [N]: runs episodes without stopping; tallies violations by class."""
import sys, os, time, json, random, collections, importlib, multiprocessing as mp, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine
from core import *


def w(k, mod, base, cnt, end, q, seed):
    srv = Server(engine.builder.BIN, os.path.join(base, "w%d" % k))
    out = []
    n = 0
    runs = 0
    pr = collections.Counter()
    fi = collections.Counter()
    cpu = []
    try:
        while time.time() < end:
            with cnt.get_lock():
                i = cnt.value
                cnt.value += 1
            case = mod.gen(random.Random("%s:%s:%d" % (seed, mod.ID, i)), os.environ.get("VERIF_TIER", "quick"))
            t = time.time()
            try:
                v, ctx = engine.run_case(mod, case, srv)
            except Exception as e:
                import traceback
                out.append((i, "EXC", traceback.format_exc()[-800:], case)); srv.stop(); continue
            cpu.append((time.time() - t, i))
            n += 1
            runs += ctx.runs
            pr.update(ctx.probes)
            fi.update(ctx.fired)
            if not v and os.environ.get("KEEPOK"):
                out.append((i, "OK", "", case))
            if v:
                out.append((i, v.klass, v.detail, case))
    finally:
        srv.stop()
    q.put((n, runs, out, pr, fi, sorted(cpu)[-3:]))


def main():
    mod = importlib.import_module("props." + sys.argv[1].lower())
    secs = float(sys.argv[2])
    seed = sys.argv[3] if len(sys.argv) > 3 else "1"
    show = int(sys.argv[4]) if len(sys.argv) > 4 else 3
    engine.builder.build()
    base = scratch_base()
    try:
        if hasattr(mod, "prepare"):
            mod.prepare(base)
        cnt = mp.Value("l", 0)
        q = mp.Queue()
        ps = [mp.Process(target=w, args=(k, mod, base, cnt, time.time() + secs, q, seed)) for k in range(8)]
        [p.start() for p in ps]
        outs = [q.get() for _ in ps]
        [p.join() for p in ps]
    finally:
        shutil.rmtree(base, ignore_errors=True)
    n = sum(o[0] for o in outs)
    pr = collections.Counter(); fi = collections.Counter()
    for o in outs:
        pr.update(o[3]); fi.update(o[4])
    print("episodes", n, "runs", sum(o[1] for o in outs), "slowest", sorted(sum([o[5] for o in outs], []))[-4:])
    print("probes", dict(sorted(pr.items())))
    print("fired", dict(fi))
    by = collections.defaultdict(list)
    for o in outs:
        for v in o[2]:
            by[v[1]].append(v)
    json.dump([list(v) for o in outs for v in o[2]], open("/tmp/viol.json", "w"))
    for k, vs in sorted(by.items(), key=lambda x: -len(x[1])):
        print("== %s: %d" % (k, len(vs)))
        for v in sorted(vs, key=lambda v: len(json.dumps(v[3])))[:show]:
            print("  ep%d %s\n     %s" % (v[0], v[2][:500], json.dumps(v[3])[:900]))


main()
