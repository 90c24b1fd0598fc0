"""Answers requests of the GrPPH checks: one JSON object per line in, one per line out."""
import importlib.util
import json
import sys

path = sys.argv[1]
spec = importlib.util.spec_from_file_location("phlite_grpph", path)
lib = importlib.util.module_from_spec(spec)
spec.loader.exec_module(lib)

r = lambda xs: [repr(float(x)) for x in xs]


def encode(res):
    ess, pairs = res[0], res[1]
    reps = res[2] if len(res) > 2 else []
    return {
        "ess": [r(d) for d in ess],
        "pairs": [[r(p) for p in d] for d in pairs],
        "reps": [[[int(a), int(b)] for a, b in rep] for rep in reps],
    }


def fail(e):
    # a panic of the library is a BaseException
    if isinstance(e, (KeyboardInterrupt, SystemExit)):
        raise e
    return {"err": type(e).__name__ + ": " + str(e)}


def answer(q):
    edges = [(i, j, float(w)) for i, j, w in q["edges"]]
    if "limit" in q:
        # a call that goes wrong is not to take all memory of the machine
        import resource

        resource.setrlimit(resource.RLIMIT_AS, (q["limit"], resource.getrlimit(resource.RLIMIT_AS)[1]))
    try:
        return encode((lib.grpph_with_involution if q["reps"] else lib.grpph)(q["n"], edges))
    except BaseException as e:
        return fail(e)


def scribble(x):
    """Spoil a returned structure; it belongs to the caller."""
    for y in x:
        if isinstance(y, (list, tuple)):
            scribble(y)
    if isinstance(x, list):
        x.append(None)
        x.reverse()


BAD = [
    lambda n, es: (n, es + [(n, n + 1, 1.0)]),  # no such vertices
    lambda n, es: (n, es + [(0, -1, 1.0)]),
    lambda n, es: (n, es + [(0, 2**40, 1.0)]),
    lambda n, es: (n, es + [(0, 1, "far")]),
    lambda n, es: (n, es + [(0, 1)]),
    lambda n, es: (n, None),
    lambda n, es: (-1, es),
    lambda n, es: (max(n - 1, 0), es),
    # negative, but without a negative cycle
    lambda n, es: (n, [e for e in es if e[1] != 0] + [(0, 1, -1.0)]),
    lambda n, es: (n, es + [(0, 1, float("nan"))]),
    lambda n, es: (n, es + [(0, 1, -float("inf"))][: 1 if all(e[1] != 0 for e in es) else 0]),
]


def history(q):
    """Calls one after another, or by several threads; the answers in the order of the calls."""
    import threading

    graphs = []
    for g in q["graphs"]:
        es = [(i, j, float(w)) for i, j, w in g["edges"]]
        graphs.append((g["n"], es, list(es)))
    calls = q["calls"]
    out = [None] * len(calls)

    def one(k):
        c = calls[k]
        n, es, _ = graphs[c["g"]]
        fn = lib.grpph_with_involution if c["reps"] else lib.grpph
        try:
            if c["bad"] is not None:
                n, es = BAD[c["bad"] % len(BAD)](n, es)
                fn(n, es)
                out[k] = {"bad": "accepted"}
                return
            res = fn(n, es)
            out[k] = encode(res)
            if c["spoil"]:
                scribble(res)
        except BaseException as e:
            out[k] = {"bad": "refused"} if c["bad"] is not None else fail(e)

    t = q["threads"]
    if t <= 1:
        for k in range(len(calls)):
            one(k)
    else:
        sys.setswitchinterval(1e-5)
        gate = threading.Barrier(t)

        def work(w):
            gate.wait()
            for k in range(w, len(calls), t):
                one(k)

        ts = [threading.Thread(target=work, args=(w,)) for w in range(t)]
        for x in ts:
            x.start()
        for x in ts:
            x.join()
    kept = [g[1] == g[2] for g in graphs]
    return {"answers": out, "kept": kept}


for line in sys.stdin:
    q = json.loads(line)
    out = history(q) if "calls" in q else answer(q)
    sys.stdout.write(json.dumps(out) + "\n")
    sys.stdout.flush()
