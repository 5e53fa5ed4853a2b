"""Interpolation of models into one ARPA file."""
import framework, vk, models
from framework import Kind

META = {"level": "model_checking", "assumptions": [
    "values are compared within the four digits the program prints; sums only where the inputs are normalized"]}


def text(p, w):
    f = lambda l: [[g, "%.7f" % v] for g, v in l]
    return models.arpa_text(f(p), f(w))


def lin(l):
    return [[g, models.q26(float("%.7f" % v))] for g, v in l]


def observe(ctx, inp):
    with vk.Scratch() as d:
        arg = []
        tot = sum(m["weight"] for m in inp["ms"])
        for i, m in enumerate(inp["ms"]):
            vk.put(d + "/m%d.arpa" % i, text(m["p"], m["w"]))
            arg.append("m%d.arpa,%.6f" % (i, m["weight"] / (tot if inp["unit"] else 1)))
        rc, out, err = vk.run([ctx.bin("simpleinterpolate2arpa"), ";".join(arg), "out.arpa"], cwd=d)
        if rc != 0:
            raise vk.Obs("simpleinterpolate2arpa failed: rc=%s %s" % (rc, err[-200:].decode("utf-8", "replace")))
        data = open(d + "/out.arpa", "rb").read()
        a = vk.read_arpa(data)
        if a.interpolated:
            return "the result is not a back-off model"
        # the file is one the programs can read
        rc, out, err = vk.run([ctx.bin("arpa2bin"), "out.arpa", "out.bin"], cwd=d)
        if rc != 0:
            raise vk.Obs("the result cannot be read: rc=%s %s" % (rc, err[-200:].decode("utf-8", "replace")))
        v = models.lin_view(a)
        return {"ms": [{"p": lin(m["p"]), "w": lin(m["w"]), "weight": m["weight"]} for m in inp["ms"]],
                "p": v["p"], "w": v["w"], "normal": inp["normal"] and not any(m["weight"] == 0 for m in inp["ms"]),
                "zero": any(m["weight"] == 0 for m in inp["ms"])}


INTERP = Kind("interp", "Trace_Interp", observe)


def kinds(ctx):
    ctx.kind(INTERP)


def rand_case(rng):
    n = rng.choice([1, 2, 2, 2, 2, 3, 4])
    pool = rng.sample([x for x in models.NAMES if x[0] != "-"], rng.choice([2, 4, 7]))
    ms = []
    scale = 1.0 if rng.random() < 0.8 else rng.choice([0.5, 0.9])
    for i in range(n):
        p, w = models.norm_model(rng, pool if rng.random() < 0.5 else rng.sample(pool, rng.randint(1, len(pool))), scale)
        ms.append({"p": p, "w": w, "weight": rng.choice([1, 1, 1, 2, 3, 7, 19])})
    if rng.random() < 0.3 and n == 2:
        ms[rng.randrange(n)]["weight"] = 0
    return {"ms": ms, "normal": scale == 1.0, "unit": rng.random() < 0.7}


def small(c, i):
    import math
    lg = lambda l: [[g, math.log10(v / models.ONE) if v else -99] for g, v in l]
    ws = [(0, 4), (1, 3), (2, 2), (4, 0)][c["c"] if c["c"] < 3 else 3]
    return {"ms": [{"p": lg(c["a"]["p"]), "w": lg(c["a"]["w"]), "weight": ws[0]},
                   {"p": lg(c["b"]["p"]), "w": lg(c["b"]["w"]), "weight": ws[1]}], "normal": True, "unit": i % 2 == 0}


def run(ctx):
    deep = "" if ctx.quick else "_deep"
    for part in ("same", "other", "more"):
        ctx.model("MC_Mixture", "MC_Mixture_%s%s" % (part, deep), timeout=3000)
    cases = ctx.generate("MC_Mixture", "Gen_Mixture")
    if ctx.quick and len(cases) > 600:
        cases = ctx.rng.sample(cases, 600)
    ctx.validate(INTERP, [small(c, i) for i, c in enumerate(cases)], "small models of the specification")
    ctx.validate(INTERP, [rand_case(ctx.rng) for _ in range(ctx.n(600, 6000))], "random normalized models")
