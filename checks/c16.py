"""Models completed with the n-grams a prefix tree needs."""
import math
import framework, vk, models, train
from framework import Kind

META = {"level": "model_checking", "assumptions": [
    "values are compared within the four digits the program prints",
    "the listed n-grams have a probability above 1e-60, except the start mark"]}
q = models.q26


def lin(l):
    return [[g, q(float("%.7f" % v))] for g, v in l]


def run1(ctx, cmd, d):
    rc, out, err = vk.run([ctx.bin(cmd[0])] + cmd[1:], cwd=d)
    if rc != 0:
        raise vk.Obs("%s failed: rc=%s %s" % (cmd[0], rc, err[-200:].decode("utf-8", "replace")))


def observe(ctx, inp):
    with vk.Scratch() as d:
        f = lambda l: [[g, "%.7f" % v] for g, v in l]
        text = models.arpa_text(f(inp["p"]), f(inp["w"]), inp["inter"], order=inp.get("order"))
        vk.put(d + "/i.arpa", text)
        run1(ctx, ["add_zeroprob_grams"] + (["-s"] if inp["small"] else []) + ["i.arpa", "o.arpa"], d)
        a = vk.read_arpa(open(d + "/o.arpa", "rb").read())
        # every program can read it
        run1(ctx, ["arpa2bin", "o.arpa", "o.bin"], d)
        qs = ["q " + " ".join(x) for x in inp["queries"]]
        n = len(qs)
        cmds, which = [], []
        for how in ["hash i", "hash16 i", "hash o", "tree o", "bin o"]:
            k, name = how.split()
            cmds += ["%s %s/%s.%s" % (k, d, name, "bin" if k == "bin" else "arpa")] + qs
            which.append(how)
        ans = models.lmq(ctx, cmds, cwd=d)
        val = lambda s: q(float(s.split()[0]))
        queries = [[x] + [val(ans[j * (n + 1) + 1 + i]) for j in range(len(which))] for i, x in enumerate(inp["queries"])]
        v = models.lin_view(a)
        return {"from": {"p": lin(inp["p"]), "w": lin(inp["w"]), "inter": inp["inter"]},
                "to": {"p": v["p"], "w": v["w"], "inter": a.interpolated}, "queries": queries, "known": [], "rel": 4000, "abs": 64}


def observe_words(ctx, inp):
    """Readers that add words without a unigram (as mixtures of models do)."""
    with vk.Scratch() as d:
        f = lambda l: [[g, "%.7f" % v] for g, v in l]
        vk.put(d + "/i.arpa", models.arpa_text(f(inp["p"]), f(inp["w"])))
        vk.put(d + "/other.arpa", models.arpa_text([[[x], "-0.5"] for x in inp["extra"]], []))
        files = [d + "/i.arpa 1", d + "/other.arpa 0"]
        if inp["swap"]:
            files.reverse()
        qs = ["q " + " ".join(x) for x in inp["queries"]]
        ans = models.lmq(ctx, ["inter " + " ".join(files)] + qs, cwd=d)
        val = lambda s: q(float(s.split()[0]))
        from1 = {"p": lin(inp["p"]), "w": lin(inp["w"]), "inter": False}
        return {"from": from1, "to": from1, "rel": 40000, "abs": 64, "known": inp["extra"],
                "queries": [[x, val(ans[1 + i])] for i, x in enumerate(inp["queries"])]}


def observe_trained(ctx, inp):
    """Models the trainers write need nothing."""
    form = train.FORMS[inp["arpa"]]
    if inp["tool"] == "counts2kn":
        data = train.counts2kn(ctx, inp, want_counts=False, want_model=form)["model"]
    else:
        data = train.varigram(ctx, inp, model=form)["model"]
    with vk.Scratch() as d:
        vk.put(d + "/i.arpa", data)
        run1(ctx, ["add_zeroprob_grams", "i.arpa", "o.arpa"], d)
        i, o = vk.read_arpa(data), vk.read_arpa(open(d + "/o.arpa", "rb").read())
        a, b = models.lin_view(i), models.lin_view(o)
        pi = {tuple(g) for g, _, _ in i.grams}
        for g in pi:
            if any(g[:j] not in pi for j in range(1, len(g))):
                return "no prefix of " + " ".join(g)
        return {"from": a, "to": b, "queries": [], "known": [], "rel": 4000, "abs": 64}


COMPLETE = Kind("complete", "Trace_Complete", observe)
WORDS = Kind("words", "Trace_Complete", observe_words)
TRAINED = Kind("trained", "Trace_Complete", observe_trained)


def kinds(ctx):
    for k in (COMPLETE, WORDS, TRAINED):
        ctx.kind(k)


def queries(rng, p, words, n=25):
    qs = []
    for _ in range(n):
        if p and rng.random() < 0.7:
            g = list(rng.choice(p)[0])
            if rng.random() < 0.4:
                g = g[:rng.randint(1, len(g))]
            if rng.random() < 0.4:
                g[rng.randrange(len(g))] = rng.choice(words)
            if rng.random() < 0.4:
                g = [rng.choice(words)] + g
        else:
            g = [rng.choice(words) for _ in range(rng.randint(1, 4))]
        qs.append(g)
    return qs


def rand(rng):
    words = rng.sample(models.NAMES, rng.choice([1, 2, 4, 8])) + (["<UNK>"] if rng.random() < 0.6 else [])
    words += ["<s>", "</s>"] if rng.random() < 0.4 else []
    inter = rng.random() < 0.25
    order = rng.choice([1, 2, 3, 3, 4, 5])
    grams = {(x,) for x in words if rng.random() < 0.9}
    for _ in range(rng.choice([1, 3, 10, 40])):
        g = tuple(rng.choice(words) for _ in range(rng.randint(1, order)))
        grams.add(g)
        if rng.random() < 0.5 and len(g) > 1:
            grams.add(g[:-1])
    if not any(len(g) == 1 for g in grams):
        grams.add((words[0],))
    grams = sorted(grams)
    rng.shuffle(grams)
    grams.sort(key=len)
    top = max(len(g) for g in grams)
    p, w = [], []
    for g in grams:
        v = -rng.randint(1 if len(g) > 1 else 5000, 30000) / 1e4
        if rng.random() < 0.05:
            v = -rng.randint(100000, 590000) / 1e4
        if inter:
            v = min(v - 1, -0.5)
        p.append([list(g), v])
        if len(g) < top and rng.random() < 0.5:
            w.append([list(g), -rng.randint(1, 20000) / 1e4 if inter or rng.random() < 0.9 else rng.randint(1, 3000) / 1e4])
    for x in p:
        if x[0] == ["<s>"] and rng.random() < 0.7:
            x[1] = -99.0
    return {"p": p, "w": w, "inter": inter, "small": rng.random() < 0.5, "queries": queries(rng, p, words),
            "order": top + (1 if rng.random() < 0.05 else 0)}


def small(c):
    lg = lambda l: [[g, math.log10(v / models.ONE)] for g, v in l]
    ws = ["a", "b"]
    p = sorted(lg(c["p"]), key=lambda x: len(x[0]))
    if c["inter"]:
        p = [[g, v - 1] for g, v in p]
    w = [x for x in lg(c["w"]) if len(x[0]) < len(p[-1][0])]
    qs = [[x, y, z] for x in ws for y in ws for z in ws] + [[x, y] for x in ws for y in ws] + [["b", "a", "a", "b"]]
    return {"p": p, "w": w, "inter": c["inter"], "small": len(p) % 2 == 0, "queries": qs}


def rand_words(rng):
    while True:
        p, w = models.rand_model(rng, positive=False, start99=0.1)
        p, w = [[g, v / models.UNIT] for g, v in p], [[g, v / models.UNIT] for g, v in w]
        words = [g[0] for g, _ in p if len(g) == 1]
        if words:
            break
    extra = [x for x in rng.sample(models.NAMES + ["zz", "yy"], rng.randint(1, 5))]
    return {"p": p, "w": w, "extra": extra, "swap": rng.random() < 0.5,
            "queries": queries(rng, p, words) + queries(rng, [], words + extra, 10)}


def rand_trained(rng):
    if rng.random() < 0.5:
        inp = train.rand_prune(rng) if rng.random() < 0.7 else train.rand_train(rng)
        inp["tool"] = "counts2kn"
    else:
        inp = train.rand_varigram(rng)
        inp["tool"] = "varigram"
    inp["arpa"] = rng.choice(["arpa", "arpa", "narpa"])
    return inp


def run(ctx):
    ctx.model("MC_Complete", "MC_Complete" if ctx.quick else "MC_Complete_deep", timeout=3000)
    cases = ctx.generate("MC_Complete", "Gen_Complete")
    if len(cases) > ctx.n(600, 6000):
        cases = ctx.rng.sample(cases, ctx.n(600, 6000))
    ctx.validate(COMPLETE, [small(c) for c in cases if any(len(g) == 1 for g, _ in c["p"])], "small models of the specification")
    ctx.validate(COMPLETE, [rand(ctx.rng) for _ in range(ctx.n(500, 6000))], "random models with missing n-grams")
    ctx.validate(WORDS, [rand_words(ctx.rng) for _ in range(ctx.n(200, 3000))], "readers that add missing words")
    ctx.validate(TRAINED, [rand_trained(ctx.rng) for _ in range(ctx.n(150, 2000))], "trained models")
