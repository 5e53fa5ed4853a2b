"""The sparse count matrix against the map it stands for."""
import framework, vk
from framework import Kind

META = {"level": "model_checking", "assumptions": [
    "one stepping at a time, and no keys added while stepping (the matrix has a single cursor)",
    "sorted stepping follows the bytes of the keys"]}
TYPES = {"ii": 4, "si": 2, "sl": 2, "if": 4, "sf": 2, "id": 4, "cc": 1}


def observe(ctx, inp):
    lines = ["new %s %d %d %d" % (inp["type"], inp["dims"], inp["hash"], inp["def"])]
    for o in inp["ops"]:
        k = " ".join(map(str, o[1])) if o[1] is not None else ""
        v = str(o[2]) if o[2] is not None else ""
        lines.append("%s %s %s" % (o[0], k, v))
    rc, out, err = vk.run([ctx.bin("mtx")], stdin=("\n".join(lines) + "\n").encode(), timeout=60)
    ans = out.decode().splitlines()
    if rc != 0 or len(ans) != len(lines):
        i = min(len(ans), len(lines)) - 1
        raise vk.Obs("stopped with rc=%s after %s" % (rc, lines[i]))
    ops, ids = [], {}

    def num(k):
        return ids.setdefault(tuple(k), len(ids) + 1)
    for o, a in zip(inp["ops"], ans[1:]):
        t = {"op": o[0], "k": num(o[1]) if o[1] is not None else 0, "v": o[2] if o[2] is not None else 0, "out": 0, "list": []}
        if a.startswith("["):
            for e in a[1:-1].split(";"):
                if e:
                    f = e.split()
                    if len(f) != inp["dims"] + 1 or f[-1] == "?":
                        raise vk.Obs("stepping returned %s" % e)
                    t["list"].append([num(map(int, f[:-1])), int(f[-1])])
        elif a not in ("ok", "?"):
            t["out"] = int(a)
        elif a == "?":
            raise vk.Obs("value is no multiple of the unit after %s" % o)
        ops.append(t)
    return {"def": inp["def"], "keys": [list(k) for k in ids] or [[0]], "width": TYPES[inp["type"]], "ops": ops}


OPS = Kind("ops", "Trace_SparseMap", observe)


def kinds(ctx):
    ctx.kind(OPS)


READS = [["n", None, None], ["step", None, None], ["ostep", None, None]]


def replay(hist, more, rng):
    """A behaviour of the implementation model as operations of the code."""
    ops = []
    for op, k, v in hist + [more]:
        if op in ("set", "inc", "incwo"):
            o = op if op == "incwo" or rng.random() < 0.5 else op + "p"
            ops.append([o, [k], v])
        elif op == "get":
            ops.append([op, [k], None])
        elif op == "delstep":
            ops.append([op, None, v])
        else:
            ops.append([op, None, None])
    return {"type": rng.choice(["ii", "si", "if", "sl"]), "dims": 1, "hash": rng.choice([0, 1, 5]),
            "def": 0, "ops": ops + [["has", [k], None] for k in range(3)] + [["get", [k], None] for k in range(3)] + READS}


def rand(rng, size):
    t = rng.choice(list(TYPES))
    dims = rng.randint(1, 5)
    top = rng.choice([2, 3, 10, 200, 255] + ([70000, 16777300] if TYPES[t] == 4 else [60000] if TYPES[t] == 2 else []))
    neg = t != "cc"
    d = rng.choice([0, 0, 0, 1, 7] + ([-1] if neg else []))
    pool = []
    for _ in range(rng.choice([2, 5, 20, 150, 600])):
        k = [rng.randint(0, top) for _ in range(dims)]
        if pool and rng.random() < 0.4:
            k = list(rng.choice(pool))
            k[rng.randrange(dims)] = rng.randint(0, top)
        pool.append(k)
    ops = []
    mix = rng.choice(["any", "grow", "shrink"])
    n = rng.choice(size)
    for i in range(n):
        k = rng.choice(pool)
        r = rng.random()
        phase = mix if mix != "shrink" else ("grow" if i < n // 2 else "shrink")
        v = rng.randint(-3, 3) if neg else rng.randint(0, 3)
        if phase == "grow":
            if r < 0.6:
                ops.append([rng.choice(["set", "inc", "incwo", "setp", "incp"]), k, rng.randint(1, 5)])
                continue
        if phase == "shrink" and r < 0.5:
            ops.append(rng.choice([["set", k, d], ["del", k, None]]))
            continue
        r = rng.random()
        if r < 0.25:
            ops.append([rng.choice(["set", "setp"]), k, rng.choice([v, v, d, v * 100 if t != "cc" else v])])
        elif r < 0.5:
            ops.append([rng.choice(["inc", "inc", "incp", "incwo"]), k, v])
        elif r < 0.75:
            ops.append([rng.choice(["get", "getp", "has"]), k, None])
        elif r < 0.8:
            ops.append(["del", k, None])
        elif r < 0.85:
            ops.append(["n", None, None])
        elif r < 0.86 and rng.random() < 0.3:
            ops.append(["clear", None, None])
        elif r < 0.88:
            ops.append(["rmdef", None, None])
        elif r < 0.91 and len(pool) <= 150:
            ops.append([rng.choice(["step", "stept", "ostep", "ostept"]), None, None])
        elif r < 0.92 and len(pool) <= 150:
            ops.append(["delstep", None, rng.choice([0, 1, 2, 3])])
        elif r < 0.93 and neg and len(pool) <= 150:
            ops.append(["setstep", None, rng.choice([-1, 1, 2])])
        elif r < 0.94:
            ops.append(["part", None, rng.randint(0, 4)])
    if t == "cc":    # stay within a byte
        tot, keep = {}, []
        for o in ops:
            if o[0] in ("inc", "incp", "incwo"):
                x = tuple(o[1])
                tot[x] = tot.get(x, 0) + o[2]
                if tot[x] > 200:
                    continue
            keep.append(o)
        ops = keep
    ops += READS + [["get", k, None] for k in pool[:50]] + [["rmdef", None, None]] + READS
    return {"type": t, "dims": dims, "hash": rng.choice([0, 0, 1, 2, 5, 6, 50, 1009, 1010]), "def": d, "ops": ops}


def run(ctx):
    ctx.model("MC_SparseMatrix", "MC_SparseMatrix")
    if not ctx.quick:
        ctx.model("MC_SparseMatrix", "MC_SparseMatrix_deep", timeout=3000)
    hists = ctx.generate("MC_SparseMatrix", "Gen_SparseMatrix")
    nexts = [["set", k, v] for k in range(3) for v in (-1, 0, 1)] + [["inc", k, v] for k in range(3) for v in (-1, 1)] + \
        [["incwo", k, v] for k in range(3) for v in (-1, 0, 1)] + [["rmdef", 0, 0], ["clear", 0, 0]] + \
        [["delstep", 0, v] for v in (-1, 0, 1)]
    every = [replay(h, x, ctx.rng) for h in hists for x in nexts]
    ctx.validate(OPS, ctx.rng.sample(every, min(len(every), ctx.n(2500, 100000))), "every step from every small matrix")
    ctx.validate(OPS, [rand(ctx.rng, [10, 50, 200, 800]) for _ in range(ctx.n(250, 2500))], "random operations")
    if not ctx.quick:
        ctx.validate(OPS, [rand(ctx.rng, [3000, 8000]) for _ in range(100)], "long runs of random operations")
