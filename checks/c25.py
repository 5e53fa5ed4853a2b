"""-o: the discounts that a held-out text likes best."""
import json, math, os, random, re
import framework, train, vk
from framework import Kind

META = {"level": "model_checking", "assumptions": [
    "the measure is recomputed at a sample of the points the search tries (all of them are checked to lie within the limits)",
    "probabilities below 3e-5 are beyond the fixed point: points that need one are not recomputed",
    "searches of varigram_kn and counts2kn themselves are followed through what they report (one discount per order)"]}

ONE = 1 << 26
MOST = 600


def q(x):
    if x != x or abs(x) > 15:
        raise vk.Obs("a discount of %r" % x)
    return int(round(x * ONE))


def u5(x):
    if x != x or abs(x) > 1e3:
        raise vk.Obs("a measure of %r" % x)
    return int(round(x * 1e5))


def thin(rng, evals, keep):
    """Sample the evaluations; the others only count, and only their extremes stay."""
    out, pick = [], set(rng.sample(range(len(evals)), min(keep, len(evals))))
    pick |= {0, len(evals) - 1} if evals else set()
    seen, n = set(), 0
    for j, (d, v) in enumerate(evals):
        n += 1
        bad = any(x < 0 or x > 1 for x in d)
        if j in pick:
            out.append(["eval", [q(x) for x in d], u5(v), True, n])
            n = 0
        elif bad and tuple(d) not in seen and len(seen) < 40:
            seen.add(tuple(d))
            out.append(["eval", [q(x) for x in d], u5(v), False, n])
            n = 0
    if n and out:
        out[-1][4] += n
    return out


def scored(inp, words):
    w = set(words) - ({"<s>"} if "-C" in inp["opts"] else set())
    return any(t in w for t in train.flat(inp["dev"]))


def base(inp, words, tables, events, final, arpa, first, err):
    o = inp["opts"]
    return {"kind": "train", "three": "-3" in o, "clear": "-C" in o, "n": inp.get("n") or 0 if first else 0,
            "words": words, "dev": train.flat(inp["dev"]), "tables": tables, "events": events,
            "final": final, "arpa": arpa, "full": "-Z" not in o, "first": first, "most": MOST, "err": err}


def tab(path, words, three):
    c, b = vk.read_counts(path, words, three)
    return {"counts": c, "bos": b}


def watch(ctx, inp):
    """The searches of a training run, from inside (harness/held)."""
    o = inp["opts"]
    three = "-3" in o
    with vk.Scratch() as d:
        rng = random.Random(inp.get("layout", 0))
        vk.put(d + "/t.txt", vk.text_bytes(rng, inp["text"]))
        vk.put(d + "/dev.txt", vk.text_bytes(rng, inp["dev"]))
        if inp.get("vocab") is not None:
            vk.put(d + "/voc", "".join(w + "\n" for w in inp["vocab"]))
        rc, out, err = vk.run([ctx.bin("held"), "train", "01"[three], "01"["-A" in o], str(inp["n"]),
                               "<s>" if "-C" in o else "-", d + "/t.txt", d + "/dev.txt",
                               d + "/voc" if inp.get("vocab") is not None else "-",
                               str(inp.get("prune", 0)), d + "/m", d], cwd=d)
        if rc != 0:
            raise vk.Obs("training failed: rc=%s %s" % (rc, err[-300:].decode("utf-8", "replace")))
        words = vk.read_vocab(d + "/u")
        if not scored(inp, words):
            return None
        events, tables, evals, runs = [], [], [], 0
        for l in open(d + "/log"):
            f = l.split()
            if f[0] == "eval":
                j = f.index(":")
                evals.append(([float(x) for x in f[1:j]], float(f[j + 1])))
                continue
            v = [q(float(x)) for x in f[1:]]
            if f[0] == "start":
                tables.append(tab("%s/c%d" % (d, runs), words, three))
                runs += 1
                events += [["tables", runs], ["start", v]]
                evals = []
            else:
                events += thin(rng, evals, inp.get("sample", 6))
                events.append(["end", v])
        events.append(["file"])
        with open(d + "/m", "rb") as f:
            arpa = train.arpa_view(f.read(), {"arpa": "arpa"})
        if isinstance(arpa, str):
            return arpa
        if runs != 2:
            return "%d searches" % runs
        return base(inp, words, tables, events, tab(d + "/cend", words, three), arpa, True, 60)


NUM = r"-?[\d.]+(?:e[-+]?\d+)?|-?nan|-?inf"


def told(ctx, inp):
    """The last search of a program, from what it reports."""
    prog = train.varigram if inp["prog"] == "varigram_kn" else train.counts2kn
    kw = {"model": "-a"} if inp["prog"] == "varigram_kn" else {"want_model": "-a"}
    r = prog(ctx, inp, **kw)
    if not scored(inp, r["words"]):
        return None
    last = r["err"].rfind("Gots opti size")
    if last < 0:
        return "no search"
    text = r["err"][last:]
    evals = [([float(x) for x in a.split()], float(b) * math.log10(2.0))
             for a, b in re.findall(r"\[((?: (?:%s))+)\]: (%s)\n" % (NUM, NUM), text)]
    m = re.search(r"Optimal discounts: \[((?: (?:%s))+)\]\n" % NUM, text)
    if not evals or not m:
        return "nothing is reported"
    arpa = train.arpa_view(r["model"], {"arpa": "arpa"})
    if isinstance(arpa, str):
        return arpa
    rng = random.Random(inp.get("layout", 0))
    t = {"counts": r["counts"], "bos": r["bos"]}
    events = [["tables", 1]] + thin(rng, evals, inp.get("sample", 6)) + \
             [["end", [q(float(x)) for x in m.group(1).split()]], ["file"]]
    return base(inp, r["words"], [t], events, t, arpa, False, 400)


def valley(ctx, inp):
    n = len(inp["dims"])
    text = "%d 0.05 0.1 %d\n" % (n, 1000 * n) + "".join("%r %r %r %r %r %r\n" % tuple(x) for x in inp["dims"])
    rc, out, err = vk.run([ctx.bin("held"), "valley"], stdin=text.encode())
    if rc != 0:
        raise vk.Obs("the search failed: rc=%s" % rc)
    ls = out.decode().split("\n")
    u = lambda l: [int(round(max(-1e4, min(1e4, float(x))) * 1e4)) for x in l.split()[1:]]
    pts = [u(l) for l in ls if l.startswith("eval")]
    end = [u(l) for l in ls if l.startswith("end")]
    if len(end) != 1:
        return "no result"
    # all points matter for the limits: keep the extremes of each coordinate
    keep = {}
    for j in range(n):
        keep[min(pts, key=lambda p: p[j])[j], j] = min(pts, key=lambda p: p[j])
        keep[max(pts, key=lambda p: p[j])[j], j] = max(pts, key=lambda p: p[j])
    return {"kind": "valley", "dims": [[int(round(y * 1e4)) for y in x[:4]] for x in inp["dims"]],
            "points": list(keep.values()), "evals": len(pts), "found": end[0], "most": MOST, "within": 520}


def skip(f):
    def g(ctx, inp):
        t = f(ctx, inp)
        return {"kind": "valley", "dims": [], "points": [], "evals": 0, "found": [], "most": 1, "within": 1} if t is None else t
    return g


WATCH = Kind("watch", "Trace_HeldOut", skip(watch))
TOLD = Kind("told", "Trace_HeldOut", skip(told))
VALLEY = Kind("valley", "Trace_HeldOut", valley)


def kinds(ctx):
    for k in (WATCH, TOLD, VALLEY):
        ctx.kind(k)


def dev_of(rng, inp):
    """Held-out text: sentences of the training text, changed here and there."""
    t = inp["text"]
    allw = [w for w in train.flat(t) if w != "<s>"] or ["<s>"]
    out = []
    for _ in range(rng.randint(1, 4)):
        s = list(rng.choice(t))
        for j in range(len(s)):
            if s[j] != "<s>" and rng.random() < 0.35:
                s[j] = rng.choice(allw + ["unseen"])
        a = rng.randrange(len(s)) if rng.random() < 0.2 and s else 0
        out.append(s[a:a + rng.choice([3, 6, 12])])
    if rng.random() < 0.2:
        out.append(["<s>", "<s>", rng.choice(allw)])
    return [s for s in out if s] or [[rng.choice(allw)]]


def rand_watch(rng):
    while True:
        inp = train.rand_train(rng)
        inp["opts"] = [f for f in inp["opts"] if f in ("-A", "-C", "-3")]
        inp["n"] = rng.choice([1, 2, 2, 3, 3, 4])
        inp["messy"] = False
        if "-C" in inp["opts"] and ("<s>" not in train.flat(inp["text"]) or
                                    ("vocab" in inp and "<s>" not in inp["vocab"])):
            continue
        inp["dev"] = dev_of(rng, inp)
        if rng.random() < 0.5:
            inp["prune"] = rng.choice([0.001, 0.01, 0.02, 0.05, 0.2])
        return inp


def rand_told(rng):
    while True:
        if rng.random() < 0.6:
            inp = train.rand_varigram(rng)
            inp["prog"] = "varigram_kn"
            inp.pop("prune", None)
        else:
            inp = train.rand_prune(rng) if rng.random() < 0.5 else train.rand_train(rng)
            inp["prog"] = "counts2kn"
        o = inp["opts"] = [x for x in inp["opts"] if x != "-3"]
        t = train.flat(inp["text"])
        if "-C" in o and ("<s>" not in t or ("vocab" in inp and "<s>" not in inp["vocab"])):
            continue
        inp["dev"] = dev_of(rng, inp)
        return inp


def rand_valley(rng):
    dims = []
    for _ in range(rng.choice([1, 1, 2, 3, 4, 6, 9])):
        hi = rng.choice([1, 1, 2, 3])
        f = lambda x: round(x, 4)
        dims.append([0.0, float(hi), f(rng.choice([0, hi, rng.random() * hi, rng.random() * hi])),
                     f(rng.choice([0, hi, rng.random() * hi, rng.uniform(-.5, hi + .5)])),
                     f(10 ** rng.uniform(-1, 1)), f(10 ** rng.uniform(-1, 1))])
    return {"dims": dims}


def run(ctx):
    ctx.model("MC_HeldOut", "MC_HeldOut")
    ctx.refute("MC_HeldOut", "MC_HeldOut_loose")
    if not ctx.quick:
        ctx.model("MC_HeldOut", "MC_HeldOut_deep", timeout=1200)
    ctx.validate(VALLEY, [rand_valley(ctx.rng) for _ in range(ctx.n(800, 30000))], "the search alone")
    ctx.validate(WATCH, [rand_watch(ctx.rng) for _ in range(ctx.n(120, 3000))], "searches from inside")
    ctx.validate(TOLD, [rand_told(ctx.rng) for _ in range(ctx.n(120, 3000))], "searches of the programs")
