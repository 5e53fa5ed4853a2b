"""Tentative changes of the count store: undone or kept, as promised."""
import framework, vk
from framework import Kind

META = {"level": "model_checking", "assumptions": [
    "direct updates between a reset and its undo change entries that were there at the reset and stay",
    "at most one order beyond those that exist is created between a reset and its undo"]}
NZ = {"i1": 1, "s1": 1, "l1": 1, "i3": 3, "s3": 3, "l3": 3}
CTX = {"bo", "setb", "cbo", "den", "cden", "nz", "cnz", "getb", "getden"}
GRAM = {"cnt", "setc", "ccnt", "getc"}


def observe(ctx, inp):
    nz = NZ[inp["type"]]
    lines = ["new " + inp["type"], "alloc %d" % inp["alloc"]]
    for o in inp["ops"]:
        op, k, v = o
        if op in GRAM:
            f = [op, len(k)] + k + ([v] if v is not None else [])
        elif op in CTX:
            f = [op, len(k) + 1] + k + (v if isinstance(v, list) else [v] if v is not None else [])
        else:
            f = [op] + ([v] if v is not None else [])
        lines.append(" ".join(map(str, f)))
    rc, out, err = vk.run([ctx.bin("moc")], stdin=("\n".join(lines) + "\n").encode(), timeout=60)
    ans = out.decode().splitlines()
    if rc != 0 or len(ans) != len(lines):
        raise vk.Obs("stopped with rc=%s after %s" % (rc, lines[min(len(ans), len(lines)) - 1]))
    gid, cid, ops = {}, {}, []

    def g(k):
        return gid.setdefault(tuple(k), len(gid) + 1)

    def c(k):
        return cid.setdefault(tuple(k), len(cid) + 1) if len(k) else 0
    for (op, k, v), a in zip(inp["ops"], ans[2:]):
        t = {"op": op, "k": 0, "v": 0, "b": [], "pos": 0, "out": 0, "list": []}
        if op in GRAM:
            t["k"] = g(k)
        elif op in CTX:
            t["k"] = c(k)
        elif op == "clearnz":
            t["k"] = v
        if op in ("nz", "cnz"):
            t["pos"], t["v"] = v
        elif isinstance(v, list):
            t["b"] = v
        elif v is not None:
            t["v"] = v
        if a in ("size", "endless", "?"):
            raise vk.Obs("%s after %s" % (a, [op, k, v]))
        if op == "getb":
            t["b"] = [int(x) for x in a.split()]
        elif a.startswith("["):
            for e in filter(None, a[1:-1].split(";")):
                if op == "backoffs":
                    x, y = e.split("|")
                    t["list"].append([c([int(z) for z in x.split()]), [int(z) for z in y.split()]])
                elif op == "next":
                    t["list"].append([g([int(z) for z in e.split()]), 0])
                else:
                    f = [int(z) for z in e.split()]
                    t["list"].append([g(f[:-1]), f[-1]])
        elif a != "ok":
            t["out"] = int(a)
        ops.append(t)
    return {"width": nz + 2, "top": inp["alloc"], "ops": ops,
            "gorder": [len(k) for k in gid] or [1], "corder": [len(k) + 1 for k in cid] or [2]}


OPS = Kind("counts", "Trace_MultiCounts", observe)


def kinds(ctx):
    ctx.kind(OPS)


READS = [["counts", None, None], ["backoffs", None, None], ["getb", [], None], ["next", None, None]]


def replay(hist, rng):
    t = rng.choice(list(NZ))
    n = NZ[t]
    lead, place = rng.choice([[], [7], [7, 3]]), rng.randrange(n + 2)
    ops = []
    for op, k, v in hist:
        if op in GRAM:
            ops.append([op, lead + [k], v])
        elif op in CTX:
            key = lead + [k] if k else []
            if place == 0 and rng.random() < 0.5:
                ops.append([{"bo": "den", "cbo": "cden"}[op], key, v])
            elif 0 < place <= n and rng.random() < 0.5:
                ops.append([{"bo": "nz", "cbo": "cnz"}[op], key, [place - 1, v]])
            else:
                ops.append([op, key, [v if i == place else 0 for i in range(n + 2)]])
        else:
            ops.append([op, None, None])
        if rng.random() < 0.3:
            ops += READS[:2]
    return {"type": t, "alloc": 4, "ops": ops + READS}


def rand(rng, size):
    t = rng.choice(list(NZ))
    n, alloc = NZ[t], rng.randint(1, 5)
    nw = rng.choice([1, 2, 3, 8])
    base, cur = [{}, {}, [0] * (n + 2)], [{}, {}, [0] * (n + 2)]     # counts, back-offs, of the empty context
    opened = False
    ops, grew = [], False
    top = lambda: alloc + (1 if opened and rng.random() < 0.15 else 0)
    word = lambda: rng.randint(0, nw)
    vec = lambda: [rng.choice([0, 0, 1, -1, 2, 5]) for _ in range(n + 2)]
    add = lambda a, b: [x + y for x, y in zip(a, b)]

    def put(l, key, v, keep):
        if not key:
            l[2] = add(l[2], v)
            return
        x = add(l[1].get(key, [0] * (n + 2)), v)
        if any(x) or keep:
            l[1][key] = x
        else:
            l[1].pop(key, None)
    for _ in range(rng.choice(size)):
        r = rng.random()
        if r < 0.08:
            ops.append(["reset", None, None])
            base = [dict(cur[0]), dict(cur[1]), list(cur[2])]
            opened = True
        elif r < 0.16 and opened:
            ops.append(["undo", None, None])
            cur = [dict(base[0]), dict(base[1]), list(base[2])]
            opened = False
        elif r < 0.3:
            ops.append(rng.choice(READS))
        elif r < 0.36:
            ops.append(rng.choice([["getc", [word() for _ in range(rng.randint(1, alloc))], None],
                                   ["getb", [word() for _ in range(rng.randint(0, alloc - 1))], None],
                                   ["getden", [word() for _ in range(rng.randint(0, alloc - 1))], None]]))
        elif r < 0.65:
            k = [word() for _ in range(rng.randint(1, top()))]
            v = rng.choice([1, 1, 2, 5, -1, -2, 0])
            key = tuple(k)
            if cur[0] and rng.random() < 0.5:
                key = rng.choice(list(cur[0]))
                k = list(key)
                if rng.random() < 0.3:
                    v = -cur[0][key]
            if opened and rng.random() < 0.75:
                ops.append(["ccnt", k, v])
                cur[0][key] = cur[0].get(key, 0) + v
            elif len(k) <= alloc and (not opened or key in base[0]):
                if not opened and rng.random() < 0.2:
                    ops.append(["setc", k, v])
                    for l in (base, cur):
                        if v:
                            l[0][key] = v
                        else:
                            l[0].pop(key, None)
                else:
                    ops.append(["cnt", k, v])
                    for l in (base, cur):
                        l[0][key] = l[0].get(key, 0) + v
        elif r < 0.97:
            k = [word() for _ in range(rng.randint(0, top() - 1))]
            if cur[1] and rng.random() < 0.5:
                k = list(rng.choice(list(cur[1])))
            key, v = tuple(k), vec()
            how = rng.randrange(3)
            if how == 0:
                v = [v[0]] + [0] * (n + 1)
            elif how == 1:
                p = rng.randrange(n)
                v = [v[i] if i == 1 + p else 0 for i in range(n + 2)]
            elif key in cur[1] and rng.random() < 0.3:
                v = [-x for x in cur[1][key]]
            if opened and rng.random() < 0.75:
                put(cur, key, v, True)
                op = ["cden", "cnz", "cbo"][how]
            elif len(k) < alloc:
                if opened and key and (key not in base[1] or not any(add(base[1][key], v)) or not any(add(cur[1][key], v))):
                    continue
                for l in (base, cur):
                    put(l, key, v, False)
                op = ["den", "nz", "bo"][how]
            else:
                continue
            ops.append([op, k, v[0] if how == 0 else [p, v[1 + p]] if how == 1 else v])
        elif not opened:
            what = rng.choice(["rmdefbo", "clearnz", "clearder", "setb"])
            if what == "rmdefbo":
                for l in (base, cur):
                    l[1] = {k: v for k, v in l[1].items() if any(v)}
                ops.append([what, None, None])
            elif what == "setb":
                k, v = [word() for _ in range(rng.randint(0, alloc - 1))], vec()
                ops.append([what, k, v])
                for l in (base, cur):
                    if not k:
                        l[2] = v
                    elif any(v):
                        l[1][tuple(k)] = v
                    else:
                        l[1].pop(tuple(k), None)
            elif what == "clearnz":
                o = rng.randint(1, alloc)
                ops.append([what, None, o])
                zap = lambda v: [v[0]] + [0] * n + [v[-1]]
                for l in (base, cur):
                    if o == 1:
                        l[2] = zap(l[2])
                    else:
                        l[1] = {k: zap(v) if len(k) == o - 1 else v for k, v in l[1].items()}
            elif not any(len(k) > alloc for k in cur[0]) and alloc > 1 and not grew:
                for l in (base, cur):
                    l[0], l[1], l[2] = {k: v for k, v in l[0].items() if len(k) == alloc}, {}, [0] * (n + 2)
                ops.append(["clearder", None, None])
        if opened and not grew and ops and isinstance(ops[-1][1], list) and \
                len(ops[-1][1]) + (ops[-1][0] in CTX) > alloc and ops[-1][0] in ("ccnt", "cden", "cnz", "cbo"):
            # a new order gets its n-grams and its contexts together
            grew = True
            k = ops[-1][1]
            if ops[-1][0] == "ccnt":
                ops.append(["cden", k[:-1], 3])
                put(cur, tuple(k[:-1]), [3] + [0] * (n + 1), True)
            else:
                g = tuple(k + [word()])
                ops.append(["ccnt", list(g), 1])
                cur[0][g] = cur[0].get(g, 0) + 1
    return {"type": t, "alloc": alloc, "ops": ops + READS}


def run(ctx):
    ctx.model("MC_MultiCounts", "MC_MultiCounts" if ctx.quick else "MC_MultiCounts_deep", timeout=3000)
    ctx.refute("MC_MultiCounts", "MC_MultiCounts_loose")
    hists = ctx.generate("MC_MultiCounts", "Gen_MultiCounts")
    hists = ctx.rng.sample(hists, min(len(hists), ctx.n(3000, 40000)))
    ctx.validate(OPS, [replay(h, ctx.rng) for h in hists], "behaviours of the implementation model")
    ctx.validate(OPS, [rand(ctx.rng, [20, 60, 200, 500]) for _ in range(ctx.n(400, 5000))], "random operations")
