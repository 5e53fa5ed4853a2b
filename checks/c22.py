"""What arpasize and check_model tell of a model."""
import math, os, re
import framework, vk, models
from framework import Kind
from models import UNIT, q26

META = {"level": "model_checking", "assumptions": [
    "arpasize's border between book-keeping and content (half a per cent of the logarithm) is not probed to the last per cent",
    "sums within 0.005 % of check_model's borders may be reported or not"]}


def rows(x):
    return [[list(g), v] for g, v in x]


def model_file(inp, d, form):
    """Writes the model; returns the name and the options to read it with."""
    vk.put(os.path.join(d, "m.arpa"), models.arpa_text(
        [[g, v / UNIT] for g, v in inp["p"]], [[g, v / UNIT] for g, v in inp["w"]], inp["inter"]))
    if form == "bin":
        rc, out, err = vk.run([ctx_bin("arpa2bin"), "m.arpa", "m.bin"], cwd=d)
        if rc != 0:
            raise vk.Obs("arpa2bin: rc=%s %s" % (rc, err[-200:]))
        return "m.bin", []
    return "m.arpa", {"arpa": ["-a"], "hash": ["-f", "-a"]}[form]


ctx_bin = None


def view(inp):
    return {"inter": inp["inter"], "order": max(len(g) for g, _ in inp["p"]),
            "plog": inp["p"], "wlog": inp["w"],
            "plin": [[g, q26(v / UNIT)] for g, v in inp["p"]],
            "wlin": [[g, q26(v / UNIT)] for g, v in inp["w"]],
            "added": inp.get("added", False), "job": inp["job"]}


def sizes(data, by):
    ls = data.decode().splitlines()
    o = []
    for l in ls:
        m = re.fullmatch(r"(\d+)-grams: (\d+)", l)
        if m:
            if int(m.group(1)) != len(o) + 1:
                raise vk.Obs("arpasize: orders out of order")
            o.append(int(m.group(2)))
    m = re.fullmatch(r"Total grams: (\d+)", ls[-1] if ls else "")
    if not m or len(o) + 1 != len(ls):
        raise vk.Obs("arpasize printed %r" % data[:300])
    return {"by": by, "orders": o, "total": int(m.group(1))}


def observe(ctx, inp):
    global ctx_bin
    ctx_bin = ctx.bin
    case = view(inp)
    with vk.Scratch() as d:
        if inp["job"] == "size":
            model_file(inp, d, "arpa")
            src = "m.arpa"
            if inp.get("added"):
                rc, out, err = vk.run([ctx.bin("add_zeroprob_grams"), "m.arpa", "z.arpa"], cwd=d)
                if rc != 0:
                    raise vk.Obs("add_zeroprob_grams: rc=%s" % rc)
                src = "z.arpa"
            rc, out, err = vk.run([ctx.bin("arpa2bin"), src, "m.bin"], cwd=d)
            if rc != 0:
                raise vk.Obs("arpa2bin: rc=%s %s" % (rc, err[-200:]))
            case["reports"] = []
            for by, args in (("text", ["-a", src]), ("binary", ["m.bin"])):
                rc, out, err = vk.run([ctx.bin("arpasize")] + args + ["-"], cwd=d)
                if rc != 0:
                    raise vk.Obs("arpasize %s: rc=%s" % (args, rc))
                case["reports"].append(sizes(out, by))
            rc, out, err = vk.run([ctx.bin("arpasize"), "-S", "-a", src, "-"], cwd=d)
            with open(os.path.join(d, src)) as f:
                head = [int(l.split("=")[1]) for l in f if l.startswith("ngram ")]
            want = "".join("%d-grams: %d\n" % (i + 1, x) for i, x in enumerate(head)) + "--\ntotal %d n-grams\n" % sum(head)
            if rc != 0 or out.decode() != want:
                raise vk.Obs("arpasize -S: rc=%s, %r instead of %r" % (rc, out, want))
            return case
        name, opts = model_file(inp, d, inp["form"])
        vk.put(os.path.join(d, "t"), inp["sep"].join(inp["text"]) + "\n" if inp["text"] else "")
        case["text"] = inp["text"]
        if inp["job"] == "sums":
            rc, out, err = vk.run([ctx.bin("check_model")] + opts + ["-d", name, "t"], cwd=d)
            if rc != 0:
                raise vk.Obs("check_model: rc=%s" % rc)
            case["reports"] = []
            end = None
            for l in err.decode().splitlines():
                if l.startswith("Sum failed for "):
                    h, x = l[15:].rsplit("= ", 1)
                    case["reports"].append({"context": h.split(), "sum": fixed(x)})
                m = re.fullmatch(r"Done, (\d+)/(\d+) errors found\.", l)
                if m:
                    end = m
            if not end:
                raise vk.Obs("check_model did not finish: %s" % err[-200:])
            case["errors"], case["words"] = int(end.group(1)), int(end.group(2))
            return case
        rc, out, err = vk.run([ctx.bin("check_model")] + opts + [name, "t"], cwd=d)
        if rc != 0:
            raise vk.Obs("check_model: rc=%s" % rc)
        case["lines"] = []
        for l in err.decode().splitlines():
            m = re.fullmatch(r"(\S+): (\d+) -> (\S+) \(order (\d+)\) ", l)
            if m:
                case["lines"].append([m.group(1), int(m.group(2)), fixed(m.group(3)), int(m.group(4))])
            for key, pre in (("best", "Most probable "), ("second", "Second most probable ")):
                m = re.fullmatch(pre + r"(\S+), (\S+)", l)
                if m:
                    case[key] = [m.group(1), fixed(m.group(2))]
            if l.startswith("Sum "):
                case["sum"] = fixed(l[4:])
        for key in ("best", "second", "sum"):
            if key not in case:
                raise vk.Obs("check_model printed no %s: %s" % (key, err[-300:]))
        return case


def fixed(x):
    v = float(x)
    if not v >= 0:
        raise vk.Obs("check_model printed " + x)
    return int(min(round(v * (1 << 26)), (1 << 31) - 1))


TOLD = Kind("told", "Trace_Statistics", observe)


def kinds(ctx):
    ctx.kind(TOLD)


def to_units(p, w):
    return [[g, round(v * UNIT)] for g, v in p], [[g, round(v * UNIT)] for g, v in w]


def sane(p):
    """No n-gram of higher order ends in an impossible word."""
    ends = {g[-1] for g, _ in p if len(g) > 1}
    return [[g, -3 * UNIT if len(g) == 1 and g[0] in ends and v < -10 * UNIT else v] for g, v in p]


def norm_inter(rng, words):
    """An interpolated model whose contexts all sum to one."""
    n = len(words)
    k = [0.02 + rng.random() ** 3 for _ in words]
    p = [[[x], math.log10(v / sum(k))] for x, v in zip(words, k)]
    w = []
    heads = [[x] for x in words]
    for o in range(2, rng.choice([2, 3, 4]) + 1):
        nxt = []
        for h in heads:
            if rng.random() < 0.4:
                continue
            some = rng.sample(words, rng.randint(1, n))
            mass = rng.choice([0.1, 0.3, 0.5, 0.8])
            k = [0.02 + rng.random() ** 2 for _ in some]
            for x, v in zip(some, k):
                p.append([h + [x], math.log10(mass * v / sum(k))])
                nxt.append(h + [x])
            w.append([h, math.log10(1 - mass)])
        if not nxt:
            break
        heads = nxt
    return p, w


def bookkeeping(rng, p, w, inter):
    """Some n-grams added, or made over, that only repeat what backing off says."""
    P, W = {tuple(g): v for g, v in p}, {tuple(g): v for g, v in w}
    words = [g[0] for g, _ in p if len(g) == 1]

    def look(g):
        if g in P:
            return P[g]
        return look(g[1:]) + W.get(g[:-1], 0)
    for g in sorted(P):
        for x in words:
            n = g + (x,)
            if n in P or rng.random() < 0.7 or P[g] < -20 * UNIT or P[(x,)] < -20 * UNIT or len(n) > 4:
                continue
            if inter:
                P[n] = -70 * UNIT
            else:
                # exactly, nearly, or rather what backing off gives
                q = look(n)
                P[n] = min(0, q + round(q * rng.choice([0, 0, 0, 0.003, -0.003, 0.008, -0.008, 0.03])))
            if rng.random() < 0.2:
                W[n] = rng.choice([0, 0, -1, 1, -3 * UNIT // 8])
    # a weight belongs to a listed n-gram below the highest order
    top = max(len(g) for g in P)
    return ([[list(g), v] for g, v in sorted(P.items(), key=lambda x: len(x[0]))],
            [[list(g), v] for g, v in W.items() if len(g) < top])


def run(ctx):
    rng = ctx.rng
    ctx.model("MC_Statistics", None if ctx.quick else "MC_Statistics_deep", timeout=1500)
    gen = ctx.generate("MC_Statistics", "Gen_Statistics" if ctx.quick else "Gen_Statistics_deep")
    forms = ["bin", "arpa", "hash"]

    def given(c, job):
        p, w = [[[g, round(math.log10(v / (1 << 26)) * UNIT)] for g, v in c[x]] for x in ("p", "w")]
        return dict(p=p, w=w, inter=False, job=job)
    gen = [c for c in gen if {tuple(g) for g, _ in c["w"]} <= {tuple(g) for g, _ in c["p"]}]
    some = rng.sample(gen, min(len(gen), ctx.n(500, 6000)))
    items = []
    walk = "a a a b b a b b b a b OOV a b a a OOV OOV b a".split()
    for c in some:
        g = given(c, "size")
        listed = {tuple(x) for x, _ in g["p"]}
        closed = all(tuple(x[:-1]) in listed or len(x) == 1 for x, _ in g["p"]) and all(tuple(x) in listed for x, _ in g["w"])
        if closed:
            items.append(g)
            items.append(dict(g, job="sums", form=rng.choice(forms), text=walk, sep=" "))
        elif all(tuple(x) in listed for x, _ in g["w"]):
            items.append(dict(g, added=True))
            items.append(dict(g, job="sums", form="hash", text=walk, sep=" "))
    ctx.validate(TOLD, items, "generated models")

    def text(words, n):
        return [rng.choice(words + ["oov"]) if rng.random() < 0.9 else "x%d" % rng.randint(0, 9) for _ in range(n)]

    def disturb(p, w, inter):
        if rng.random() < 0.35:
            return p, w
        p, w = [list(x) for x in p], [list(x) for x in w]
        for _ in range(rng.choice([1, 1, 1, 2])):
            t = rng.choice([p, p, w or p])
            x = rng.choice(t)
            if x[1] > -20 * UNIT:
                x[1] += rng.choice([1, -1]) * rng.choice([3, 60, 200, 500, 2000, 8000])
                if t is p or inter:
                    x[1] = min(x[1], 0)
        return p, w
    items = []
    for _ in range(ctx.n(700, 7000)):
        words = rng.sample(models.NAMES, rng.choice([1, 2, 3, 5, 9]))
        inter = rng.random() < 0.35
        if inter:
            p, w = to_units(*norm_inter(rng, words + (["<UNK>"] if rng.random() < 0.6 else [])))
        else:
            p, w = to_units(*models.norm_model(rng, words, rng.choice([1, 1, 1, 1, 0.97])))
        # (the binary form holds no probabilities above one)
        was, (p, w) = p, disturb(p, w, inter)
        tree = ["arpa"] if inter and was is not p else forms[:2]
        heads = {tuple(g) for g, _ in p}
        w = [x for x in w if tuple(x[0]) in heads]
        vocab = [g[0] for g, _ in p if len(g) == 1]
        m = dict(p=p, w=w, inter=inter)
        k = rng.random()
        if k < 0.55:
            items.append(dict(m, job="sums", form=rng.choice(tree if inter else forms), sep=rng.choice([" ", "\n", " \n "]), text=text(vocab, rng.randint(0, 25))))
        elif k < 0.75:
            items.append(dict(m, job="words", form=rng.choice(tree if inter else forms), sep=" ", text=text(vocab, rng.randint(0, 5))))
        else:
            p, w = bookkeeping(rng, sane(p), w, inter)
            items.append(dict(p=p, w=w, inter=inter, job="size"))
    for _ in range(ctx.n(200, 2000)):
        inter = rng.random() < 0.3
        p, w = models.rand_model(rng, inter=inter, nwords=rng.choice([2, 3, 5]), step=UNIT // 16)
        p = sane(p)
        if rng.random() < 0.5:
            p, w = bookkeeping(rng, p, w, inter)
        items.append(dict(p=p, w=w, inter=inter, job="size"))
    ctx.validate(TOLD, items, "random models")
