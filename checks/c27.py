"""Walks over the n-grams of a model."""
import framework, vk, models
from framework import Kind

META = {"level": "model_checking", "assumptions": [
    "models hold every prefix of each n-gram; operations that need a place are made only where there is one",
    "what the walk is at after it has ended is the last unigram, as the specification says"]}


def observe(ctx, inp):
    U = models.UNIT
    wt = {tuple(g): v for g, v in inp["w"]}
    text = models.arpa_text([[g, v / U] for g, v in inp["p"]], [[g, v / U] for g, v in inp["w"]])
    with vk.Scratch() as d:
        vk.put(d + "/m.arpa", text)
        cmds = ["arpa %s/m.arpa" % d]
        if inp["rep"] == "bin":
            rc, out, err = vk.run([ctx.bin("arpa2bin"), d + "/m.arpa", d + "/m.bin"])
            if rc != 0:
                raise vk.Obs("arpa2bin failed: rc=%s" % rc)
            cmds = ["bin %s/m.bin" % d]
        for op, a in inp["ops"]:
            if op in ("order", "move"):
                cmds.append("%s %d" % (op, a))
            elif op == "at":
                cmds.append("at " + " ".join(a))
            else:
                cmds.append(op)
        rc, out, err = vk.run([ctx.bin("walk")], stdin=("\n".join(cmds) + "\n").encode())
        ls = out.decode("utf-8", "replace").split("\n")[:-1]
        if rc != 0 or len(ls) != len(cmds):
            raise vk.Obs("the walk failed: rc=%s at %s" % (rc, cmds[len(ls)] if len(ls) < len(cmds) else "its end"))
    steps = []
    node = lambda f: [f[0], models.units(f[1]), models.units(f[2])]
    for (op, a), l in zip(inp["ops"], ls[1:]):
        f = l.split()
        n = int(f[1])
        path = [node(f[2 + 3 * j:5 + 3 * j]) for j in range(n)]
        last = node(f[3 + 3 * n:6 + 3 * n]) if n else []
        if any(isinstance(x, str) for p in path + ([last] if n else []) for x in p[1:]):
            return "a value on the path is none of the model's: " + l
        steps.append([[op, a], f[0] == "1", path, last])
    return {"p": [[g, v, wt.get(tuple(g), 0)] for g, v in inp["p"]], "unlisted": -99 * U,
            "sizes": [int(x) for x in ls[0].split()[2:]], "steps": steps}


WALK = Kind("walk", "Trace_Walk", observe)


def kinds(ctx):
    ctx.kind(WALK)


def rand_ops(rng, p, n, order):
    words = [g[0] for g, v in p if len(g) == 1] + ["<UNK>", "zz-unlisted"]
    ops, placed = [["reset", 0]], False
    bias = rng.choice(["any", "next", "order", "climb"])
    for _ in range(n):
        x = rng.random()
        if not placed or x < 0.08:
            if rng.random() < 0.5:
                g = list(rng.choice(p)[0])
                if rng.random() < 0.5:
                    g = g[:rng.randint(1, len(g))] + [rng.choice(words) for _ in range(rng.randint(0, 2))]
                ops.append(["at", g])
            else:
                if rng.random() < 0.3:
                    ops.append(["reset", 0])
                ops.append(["next", 0] if rng.random() < 0.6 else ["order", rng.randint(1, order)])
            placed = True
        elif bias == "next" and x < 0.9:
            ops.append(["next", 0])
        elif bias == "order" and x < 0.9:
            ops.append(["order", rng.randint(1, order)])
        elif bias == "climb" and x < 0.7:
            ops.append(rng.choice([["down", 0], ["down", 0], ["up", 0], ["move", 1], ["has", 0]]))
        else:
            ops.append(rng.choice([["next", 0], ["order", rng.randint(1, order)], ["up", 0], ["down", 0], ["has", 0],
                                   ["move", rng.choice([-3, -2, -1, 1, 1, 2, 3, 0, 100])]]))
    return ops


def full_walk(rng, p, order):
    """Everything from the start to the end."""
    if rng.random() < 0.5:
        return [["reset", 0]] + [["next", 0]] * (len(p) + 2)
    o = rng.randint(1, order)
    return [["reset", 0]] + [["order", o]] * (sum(1 for g, v in p if len(g) == o) + 1)


def rand(rng, n):
    p, w = models.rand_model(rng, start99=0.1)
    order = max(len(g) for g, v in p)
    ops = []
    for _ in range(rng.randint(1, 3)):
        ops += full_walk(rng, p, order) if rng.random() < 0.3 else rand_ops(rng, p, rng.choice(n), order)
    return {"p": p, "w": w, "rep": rng.choice(["arpa", "arpa", "bin"]), "ops": ops}


def run(ctx):
    ctx.model("MC_Walk", "MC_Walk" if ctx.quick else "MC_Walk_deep")
    ctx.model("MC_Walk", "MC_Walk_any")
    made = ctx.generate("MC_Walk", "Gen_Walk")
    trees = {}
    for c in made:
        t = tuple(sorted(tuple(g) for g in c["tree"]))
        trees.setdefault(t, []).append(c["ops"])
    items = []
    for t in sorted(trees):
        seqs = sorted(trees[t], key=str)
        ctx.rng.shuffle(seqs)
        seqs = seqs[:ctx.n(60, 10000)]
        name = lambda g: [("<UNK>", "a", "b")[x] for x in g]
        p = [[name(g), -ctx.rng.randint(1, 60) * 1024] for g in sorted(t, key=lambda g: (len(g), g))]
        ctxs = {g[:-1] for g in t}
        w = [[name(g), -ctx.rng.randint(1, 30) * 1024] for g in sorted(ctxs) if g]
        for j in range(0, len(seqs), 30):
            ops = []
            for s in seqs[j:j + 30]:
                ops += [["reset", 0]] + s
            items.append({"p": p, "w": w, "rep": ctx.rng.choice(["arpa", "bin"]), "ops": ops})
    ctx.validate(WALK, items, "every short walk over every small model")
    ctx.validate(WALK, [rand(ctx.rng, [5, 20, 60]) for _ in range(ctx.n(120, 5000))], "random walks over random models")
