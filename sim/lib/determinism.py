#!/usr/bin/env python3
"""determinism.py PROP SECONDS [SEED]: runs every episode twice, in different orders, by different
workers in different directories, at different times, and compares the complete histories."""
import sys, os, time, random, importlib, multiprocessing as mp, shutil, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine
from core import *


def work(k, mod, base, ids, q, seed, tag):
    srv = Server(engine.builder.BIN, os.path.join(base, "%s%d" % (tag, k)))
    out = {}
    orig = engine.Ctx.run
    hist = []

    def run(self, *a, **kw):
        rs = orig(self, *a, **kw)
        hist.append([(r.log, r.exit, r.sig, hashlib.sha1((r.out + "\0" + r.err).encode("utf8", "replace")).hexdigest()) for r in rs])
        return rs
    engine.Ctx.run = run
    try:
        for i in ids:
            hist.clear()
            case = mod.gen(random.Random("%s:%s:%d" % (seed, mod.ID, i)), "quick")
            v, ctx = engine.run_case(mod, case, srv)
            out[i] = (v.klass if v else None, hashlib.sha1(repr(hist).encode("utf8", "replace")).hexdigest(), sorted(d.hex() for d in ctx.digests), repr(hist) if os.environ.get("KEEPLOG") else "")
    finally:
        srv.stop()
    q.put((tag, out))


def main():
    prop, n = sys.argv[1], int(sys.argv[2])
    seed = sys.argv[3] if len(sys.argv) > 3 else "1"
    mod = importlib.import_module("props." + prop.lower())
    engine.builder.build()
    base = scratch_base()
    try:
        if hasattr(mod, "prepare"):
            mod.prepare(base)
        q = mp.Queue()
        res = {"a": {}, "b": {}}
        for tag in "ab":
            ids = list(range(n))
            random.Random(tag).shuffle(ids)
            J = 8 if tag == "a" else 5
            ps = [mp.Process(target=work, args=(k, mod, base, ids[k::J], q, seed, tag)) for k in range(J)]
            [p.start() for p in ps]
            for _ in ps:
                t, o = q.get()
                res[t].update(o)
            [p.join() for p in ps]
    finally:
        shutil.rmtree(base, ignore_errors=True)
    bad = [i for i in range(n) if res["a"][i][:3] != res["b"][i][:3]]
    print("%s: %d episodes twice, %d differ: %s" % (prop, n, len(bad), bad[:10]))
    for i in bad[:2]:
        if res["a"][i][3]:
            a, b = [res[t][i][3].replace("\\n", "\n").split("\n") for t in "ab"]
            import difflib
            for l in list(difflib.unified_diff(a, b, lineterm="", n=1))[:14]:
                print("   ", l[:200])


if __name__ == "__main__":
    main()
