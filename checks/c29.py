"""Nothing changes with size: words, n-grams, counts, orders and texts by the ten thousand."""
import math, os, random, re
import framework, vk, models
import c10
from framework import Kind

META = {"level": "model_checking", "assumptions": [
    "of long tables a sample of entries is compared, with the number of all entries and the totals",
    "the values of the large models are multiples of 1/8, so that sums are exact"]}
U = 8                              # logarithms in eighths


def units(s):
    v = float(s) * U
    if v != v or abs(v) > 2e9:
        return "not a number: " + s
    return int(v) if v == int(v) else s


def limbs(n):
    out = []
    while n:
        out.append(n % 10000)
        n //= 10000
    return out


# -- texts ----------------------------------------------------------------------
def rand_shape(rng, n, rounds, comb=False):
    sd = []
    for _ in range(1000):
        s = rng.randrange(1, min(n, 30000))
        if math.gcd(s, n) == 1 and s not in sd:
            sd.append(s)
        if len(sd) == rounds:
            break
    return {"n": n, "comb": comb, "st": [rng.randrange(n) for _ in sd], "sd": sd, "inv": [pow(s, -1, n) for s in sd]}


def token(t, p):
    if t["comb"]:
        if p % 2:
            return t["n"]
        p //= 2
    r = p // t["n"]
    return (t["st"][r] + t["sd"][r] * (p % t["n"])) % t["n"]


def length_of(t):
    return t["n"] * len(t["st"]) * (2 if t["comb"] else 1)


def layout(rng, toks):
    """One word after the other, on one line or several."""
    k = rng.choice([1, 2, 7, 100, 10 ** 9])
    out = []
    for i in range(0, len(toks), k):
        out.append(" ".join(toks[i:i + k]))
    return "\n".join(out) + rng.choice(["", "\n", "\n\n"])


def load_counts(path, names, three, want, hwant):
    """Numbers of entries, and of the entries wanted their values."""
    sizes, ctxs, cnt, aft, mode, o = {}, {}, {}, {}, None, 0
    idx = {w: i for i, w in enumerate(names)}
    W = {" ".join(str(idx[w]) for w in g): g for g in want}
    H = {" ".join(str(idx[w]) for w in h): h for h in hwant}
    row = re.compile(r"\[((?: \d+)*) \] (\d+(?: \d+)*)$")
    with open(path) as f:
        next(f)
        for l in f:
            l = l.rstrip("\n")
            if not l:
                continue
            if l[0] == "\\":
                m = re.match(r"\\(\d+)-gram (counts|backoffs)$", l)
                if not m:
                    raise vk.Obs("count file line not understood: %r" % l)
                mode, o = m.group(2), int(m.group(1))
                continue
            m = row.match(l)
            if not m:
                raise vk.Obs("count file line not understood: %r" % l)
            g = m.group(1)[1:]
            if mode == "counts":
                if m.group(2) == "0":
                    continue
                sizes[o] = sizes.get(o, 0) + 1
                if g in W:
                    if g in cnt:
                        raise vk.Obs("n-gram [%s] twice in the count file" % g)
                    cnt[g] = int(m.group(2))
            else:
                v = [int(x) for x in m.group(2).split(" ")]
                if v[-2] == 0:
                    continue
                ctxs[o] = ctxs.get(o, 0) + 1
                if g in H:
                    if g in aft:
                        raise vk.Obs("context [%s] twice in the count file" % g)
                    aft[g] = v
    return sizes, ctxs, {tuple(g): cnt.get(x, 0) for x, g in W.items()}, {tuple(h): aft.get(x) for x, h in H.items()}


def view(v, three):
    """[den, classes] from a line of the file; nothing was pruned."""
    if v is None:
        return [0, 0, 0, 0]
    if v[-1] != 0:
        raise vk.Obs("a context with pruned counts, though nothing was pruned: %s" % v)
    return [v[3]] + v[:3] if three else [v[1], v[0], 0, 0]


def train(ctx, d, o, source, extra, want, hwant, names, three):
    cmd = [ctx.bin("counts2kn")] + o + extra + ["-a", "-W", d + "/c", "-U", d + "/u", source, d + "/m"]
    rc, out, err = vk.run(cmd, cwd=d, timeout=240)
    if rc != 0:
        raise vk.Obs("training failed: rc=%s %s" % (rc, err[-300:].decode("utf-8", "replace")))


def observe_text(ctx, inp):
    t, n, o = inp["t"], inp["n"], inp["opts"]
    three = "-3" in o
    rng = random.Random(inp["seed"])
    length, words = length_of(t), t["n"] + t["comb"]
    name = lambda i: inp["pre"] + str(i)
    toks = [token(t, p) for p in range(length)]
    want, hwant = set(), set()
    for _ in range(120):
        k = rng.randint(1, n)
        p = rng.choice([rng.randrange(length), length - rng.randint(1, n + 1), t["n"] * rng.randint(1, len(t["st"])) - rng.randint(0, n)])
        p = max(0, min(p, length - 1))
        g = toks[p:p + k]
        r = rng.random()
        if r < 0.2:
            g[rng.randrange(len(g))] = rng.randrange(words)
        elif r < 0.3 and t["n"] > 65536:
            j = rng.randrange(len(g))
            g[j] = (g[j] + 65536) % 131072 if (g[j] + 65536) % 131072 < t["n"] else g[j] % 65536
        want.add(tuple(g))
        if len(g) < n:
            hwant.add(tuple(g))
    want |= {(x,) for x in (0, 1, 65535, 65536, 65534, 32768, 32767, words - 1) if x < words}
    if t["comb"] and n > 1:
        hwant.add((t["n"],))
    if t["n"] > 65536 and n > 1:
        hwant |= {(x,) for x in range(65530, 65545)} | {(x,) for x in range(0, 12)}
    want, hwant = ({g for g in S if all(x < words for x in g)} for S in (want, hwant))
    N = lambda S: [[name(x) for x in g] for g in S]
    with vk.Scratch() as d:
        vk.put(d + "/t", layout(rng, [name(x) for x in toks]))
        train(ctx, d, o, d + "/t", ["-n", str(n)], N(want), N(hwant), None, three)
        if inp["again"]:
            os.rename(d + "/c", d + "/c0")
            os.rename(d + "/u", d + "/u0")
            train(ctx, d, [x for x in o], d + "/c0", ["-c", "-B", d + "/u0"], None, None, None, three)
        names = ["<UNK>"] + vk.read_vocab(d + "/u")
        if sorted(names[1:]) != sorted(name(x) for x in range(words)):
            raise vk.Obs("%d words in the vocabulary of a text of %d" % (len(names) - 1, words))
        sizes, ctxs, cnt, aft = load_counts(d + "/c", names, three, N(want), N(hwant | {()}))
    back = lambda g: [int(w[len(inp["pre"]):]) for w in g]
    return {"kind": "text", "t": t, "n": n, "three": three, "absolute": "-A" in o,
            "sizes": [sizes.get(i, 0) for i in range(1, n + 1)], "contexts": [ctxs.get(i, 0) for i in range(1, n + 1)],
            "counts": sorted([back(g), c] for g, c in cnt.items()),
            "after": sorted([back(h), view(v, three)] for h, v in aft.items() if h),
            "nothing": view(aft[()], three)}


TEXT = Kind("text", "Trace_Scale", observe_text)


def rand_text(rng, size, n):
    o = (["-3"] if rng.random() < 0.5 else []) + (["-A"] if rng.random() < 0.4 else []) + (["-L"] if rng.random() < 0.3 else [])
    if size < 65000 and rng.random() < 0.5:
        o.append("-s")
    return {"t": rand_shape(rng, size, rng.randint(1, 4) if size < 40000 else rng.randint(1, 3), rng.random() < 0.4), "n": n, "opts": o, "seed": rng.randrange(10 ** 9), "again": rng.random() < 0.5,
            "pre": rng.choice(["w", "", "-", "\xe4\xf6", "a" * 40])}


# -- counts ------------------------------------------------------------------------
def observe_number(ctx, inp):
    words, n, o = inp["words"], inp["n"], inp["opts"]
    three = "-3" in o
    with vk.Scratch() as d:
        vk.put(d + "/v", "".join("w%d\n" % i for i in range(1, words)))
        vk.put(d + "/h", "".join(" ".join(map(str, g)) + " %d\n" % c for g, c in inp["table"]))
        def go(source, extra):
            rc, out, err = vk.run([ctx.bin("counts2kn")] + o + extra + ["-a", "-B", d + "/v", "-W", d + "/c", "-U", d + "/u", source, d + "/m"], cwd=d, timeout=60)
            if rc != 0:
                raise vk.Obs("training failed: rc=%s %s" % (rc, err[-300:].decode("utf-8", "replace")))
        go(d + "/h", ["-Z", "-n", str(n)])
        if inp["again"]:
            os.rename(d + "/c", d + "/c0")
            go(d + "/c0", ["-c"])
        names = ["w%d" % i if i else "<UNK>" for i in range(words)]
        cnt, bos = vk.read_counts(d + "/c", names[1:], three)
    idx = {w: i for i, w in enumerate(names)}
    def tot(v):
        v = view(v, three)
        return [limbs(v[0])] + v[1:]
    return {"kind": "number", "n": n, "three": three, "absolute": "-A" in o, "given": [[g, limbs(c)] for g, c in inp["table"]],
            "counts": [[[idx[w] for w in g], limbs(c)] for g, c in cnt if c],
            "after": [[[idx[w] for w in h], tot(v)] for h, v in bos if v[-2]]}


NUMBER = Kind("number", "Trace_Scale", observe_number)


def rand_number(rng):
    words, n = rng.randint(2, 5), rng.randint(2, 3)
    top = [2 ** 15, 2 ** 16, 2 ** 24, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 32 - 1, 2 ** 33, 2 ** 40, 2 ** 53, 2 ** 53 + 1, 10 ** 10, 10 ** 15, 10 ** 18]
    tab = {}
    for _ in range(rng.randint(1, 10)):
        g = tuple(rng.randrange(words) for _ in range(n))
        r = rng.random()
        tab[g] = (1 + rng.randrange(4) if r < 0.4 else max(1, rng.choice(top) + rng.randint(-3, 3)) if r < 0.9 else rng.randrange(1, 10 ** 17))
    while sum(tab.values()) >= 2 ** 62:
        tab[max(tab, key=tab.get)] = 7
    o = ["-L"] + [x for x in ("-3", "-A", "-s") if rng.random() < 0.4]
    if max(tab.values()) < 2 ** 31 and sum(tab.values()) < 2 ** 31 and rng.random() < 0.5:
        o.remove("-L")
    return {"words": words, "n": n, "table": [[list(g), c] for g, c in tab.items()], "opts": o, "again": rng.random() < 0.5}


# -- models ---------------------------------------------------------------------------
def mix(g, k):
    for w in g:
        k = (k * 31 + (w % 9973) * 7 + w // 257) % 8191
    return k


def leads(m, x):
    return x == m["hub"] or x % m["skip"]


def weight(m, h):
    return -(mix(h, m["b"]) % 11) if len(h) < m["order"] and leads(m, h[-1]) and mix(h, m["b"]) % 5 else 0


def word(m, x):
    return "<UNK>" if x == 0 else m["pre"] + str(x)


def arpa(m, rng, path):
    """The model written out; the n-grams of an order in any order."""
    lv = [[(x,) for x in range(m["n"])]]
    for o in range(2, m["order"] + 1):
        lv.append([g + (y,) for g in lv[-1] if leads(m, g[-1])
                   for y in (range(m["n"]) if g[-1] == m["hub"] else [(g[-1] + m["s"]) % m["n"]])])
    with open(path, "w") as f:
        f.write("\\data\\\n" + "".join("ngram %d=%d\n" % (i + 1, len(l)) for i, l in enumerate(lv)))
        for i, l in enumerate(lv):
            f.write("\n\\%d-grams:\n" % (i + 1))
            if m["shuffle"]:
                rng.shuffle(l)
            for g in l:
                w = weight(m, g)
                f.write("%s\t%s%s\n" % (models.num(-(1 + mix(g, m["a"]) % 37) / U), " ".join(word(m, x) for x in g),
                                        "" if w == 0 else "\t" + models.num(w / U)))
        f.write("\n\\end\\\n")
    return [len(l) for l in lv]


def take(ctx, d, m, rng):
    """The model in the file and form asked for: the file, the loading command."""
    sizes = arpa(m, rng, d + "/m0")
    src, form = d + "/m0", "arpa"
    for i, c in enumerate(m["way"]):
        dst = d + "/m%d" % (i + 1)
        prog = {"bin": "arpa2bin", "text": "bin2arpa", "int": "arpa2arpa"}[c]
        rc, out, err = vk.run([ctx.bin(prog), src, dst], cwd=d, timeout=120)
        if rc != 0:
            raise vk.Obs("%s failed: rc=%s %s" % (prog, rc, err[-200:].decode("utf-8", "replace")))
        os.remove(src)
        src = dst
    return src, sizes


def spec(m):
    return {k: m[k] for k in ("n", "s", "skip", "hub", "order", "a", "b")}


def observe_model(ctx, inp):
    m = inp["m"]
    rng = random.Random(inp["seed"])
    with vk.Scratch() as d:
        src, sizes = take(ctx, d, m, rng)
        if inp["out"]:
            # written by the reader that answers, and read again
            cmds = ["%s %s" % (inp["rep"], src), "%s %s" % (inp["out"], d + "/o"), "%s %s" % ("bin" if inp["out"] == "writebin" else "tree", d + "/o")]
        else:
            cmds = ["%s %s" % (inp["rep"], src)]
        k = len(cmds)
        qs = []
        for _ in range(300):
            n = rng.randint(1, m["order"] + 1)
            g = [rng.choice([rng.randrange(m["n"]), m["n"] - 1 - rng.randrange(min(m["n"], 50)), rng.randrange(min(m["n"], 50))])]
            while len(g) < n:
                g.append(m["hub"] if m["hub"] >= 0 and rng.random() < 0.3 else rng.randrange(m["n"]) if g[-1] == m["hub"] else (g[-1] + m["s"]) % m["n"])
            if rng.random() < 0.4:
                j = rng.randrange(n)
                g[j] = rng.choice([rng.randrange(m["n"]), (g[j] + 65536) % m["n"], (g[j] - 65536) % m["n"], (g[j] + 1) % m["n"]])
            qs.append(g)
        ls = models.lmq(ctx, cmds + ["q " + " ".join(word(m, x) for x in g) for g in qs], cwd=d, timeout=240)
        if ls[k - 1] != "loaded %d %d %d" % (m["order"], 0, m["n"]):
            raise vk.Obs("the model read: %s (order, type, words)" % ls[k - 1])
    out = []
    for g, l in zip(qs, ls[k:]):
        a, b = l.split()
        v = units(a)
        if isinstance(v, str):
            raise vk.Obs("answer %s to %s is no sum of the model's values" % (a, g))
        out.append([g, v, int(b)])
    return {"kind": "model", "m": spec(m), "queries": out}


MODEL = Kind("model", "Trace_Scale", observe_model)


def reach(n, s, skip, order):
    """The longest chain there is, up to the order."""
    best = 1
    for x in range(min(n, 5000)):
        k = 1
        while k < order and x % skip:
            x, k = (x + s) % n, k + 1
        best = max(best, k)
    return best


def rand_big_model(rng, n, order):
    while True:
        s = rng.randrange(1, min(n, 30000))
        if math.gcd(s, n) == 1:
            break
    way = rng.choice([[], [], ["bin"], ["bin", "text"], ["int"], ["bin", "text", "bin"]])
    skip = rng.randint(2, 6) if n > 2000 else rng.choice([2, 5, 30, 40])
    hub = -1
    if order in (2, 3) and rng.random() < 0.6:
        hub = rng.choice([rng.randrange(1, n), n - 1])
    return {"n": n, "s": s, "skip": skip, "hub": hub, "order": order if hub >= 0 else reach(n, s, skip, order), "a": rng.randrange(8191), "b": rng.randrange(8191),
            "shuffle": rng.random() < 0.5, "way": way, "pre": rng.choice(["w", "", "-", "\xe4\xf6", "a" * 40])}


def rand_ask(rng, n, order):
    m = rand_big_model(rng, n, order)
    rep = "bin" if m["way"][-1:] == ["bin"] else rng.choice(["tree", "hash"] + (["hash16"] if n < 65000 else []))
    if m["way"][-1:] == ["int"]:
        m["way"] = m["way"][:-1]
    return {"m": m, "rep": rep, "seed": rng.randrange(10 ** 9), "out": rng.choice(["", "", "write"] + (["writebin"] if rep in ("tree", "bin") else []))}


# -- scoring -----------------------------------------------------------------------------
def observe_stream(ctx, inp):
    m, t = inp["m"], inp["t"]
    rng = random.Random(inp["seed"])
    length = length_of(t)
    toks = [word(m, 1 + token(t, p)) for p in range(length)]
    with vk.Scratch() as d:
        src, _ = take(ctx, d, m, rng)
        vk.put(d + "/t", layout(rng, toks))
        cmd = [ctx.bin("perplexity")] + {"tree": ["-a"], "hash": ["-f", "-a"], "hash16": ["-f", "-s", "-a"], "bin": ["-A"]}[inp["rep"]]
        rc, out, err = vk.run(cmd + [src, "-S", d + "/s", d + "/t", d + "/r"], cwd=d, timeout=240)
        if rc != 0:
            raise vk.Obs("perplexity failed: rc=%s %s" % (rc, err[-200:].decode("utf-8", "replace")))
        s = []
        with open(d + "/s") as f:
            for l in f:
                x = re.match(r"^(\S+) (\S+), order (\d+) \(cfw_lp (\S+)\)$", l.rstrip("\n"))
                if x:
                    s.append(x.groups())
                elif l.strip():
                    raise vk.Obs("stream line not understood: %r" % l)
        rep = c10.read_report(open(d + "/r", "rb").read(), "each", True, [], units=units, hits=False)
    back = {w: i for i, w in ((i, word(m, i)) for i in range(m["n"]))}
    ps = sorted(set([p for p in range(min(30, length))] + [p for p in range(max(0, length - 30), length)]
                    + [p for b in (32768, 65536, t["n"], 2 * t["n"]) for p in range(b - 8, b + 8) if 0 <= p < length]
                    + [rng.randrange(length) for _ in range(500)]))
    sample = []
    for p in ps:
        if p >= len(s):
            raise vk.Obs("only %d words in the stream of %d" % (len(s), length))
        w, pr, o, lp = s[p]
        v = units(lp)
        if isinstance(v, str):
            raise vk.Obs("word log-probability %s is no sum of the model's values" % lp)
        if w not in back:
            raise vk.Obs("the word %r in the stream is none of the text" % w)
        sample.append([p, back[w], int(o), v])
    return {"kind": "stream", "m": spec(m), "t": t, "tokens": sample, "lines": len(s), "words": rep["words"], "unks": rep["unks"], "logprob": rep["logprob"]}


STREAM = Kind("stream", "Trace_Scale", observe_stream)


def rand_stream(rng, n, order):
    m = rand_big_model(rng, n, order)
    if m["way"][-1:] == ["int"]:
        m["way"] = m["way"][:-1]
    comb = rng.random() < 0.4
    t = rand_shape(rng, n - 2 if comb else n - 1, rng.randint(1, 3) if n < 40000 else 1, comb)
    if comb and m["hub"] >= 0:
        m["hub"] = n - 1
    if not comb and m["s"] < t["n"] and math.gcd(m["s"], t["n"]) == 1:
        t["sd"] = [m["s"]] + [x for x in t["sd"] if x != m["s"]][:len(t["sd"]) - 1]
        t["st"] = t["st"][:len(t["sd"])]
        t["inv"] = [pow(x, -1, t["n"]) for x in t["sd"]]
    return {"m": m, "t": t, "seed": rng.randrange(10 ** 9),
            "rep": "bin" if m["way"][-1:] == ["bin"] else rng.choice(["tree", "hash"] + (["hash16"] if n < 65000 else []))}


BIG = [65537, 65543, 65600, 66003, 70001]
MID = [40009, 64007, 64999, 32771, 10007]
FEW = [2, 3, 5, 11, 23]


def kinds(ctx):
    for k in (TEXT, NUMBER, MODEL, STREAM):
        ctx.kind(k)


def run(ctx):
    rng = ctx.rng
    ctx.model("MC_Scale", ctx.n("MC_Scale", "MC_Scale_deep"), heap="8g", timeout=3000)
    few = lambda: rng.choice(FEW)
    texts = ([rand_text(rng, rng.choice(BIG), rng.choice([1, 2, 2, 3])) for _ in range(ctx.n(3, 30))]
             + [rand_text(rng, rng.choice(MID), rng.randint(1, 4)) for _ in range(ctx.n(3, 30))]
             + [rand_text(rng, few(), rng.randint(5, 45)) for _ in range(ctx.n(8, 60))])
    ctx.validate(TEXT, texts, what="the counts of long texts, and of long n-grams")
    ctx.validate(NUMBER, [rand_number(rng) for _ in range(ctx.n(60, 1500))], what="large counts")
    asks = ([rand_ask(rng, rng.choice(BIG), rng.choice([1, 2, 3, 4])) for _ in range(ctx.n(6, 60))]
            + [rand_ask(rng, rng.choice(MID), rng.randint(1, 5)) for _ in range(ctx.n(4, 40))]
            + [rand_ask(rng, rng.choice([11, 97, 1009]), rng.randint(6, 40)) for _ in range(ctx.n(8, 60))])
    ctx.validate(MODEL, asks, what="what large models answer")
    ctx.validate(STREAM, [rand_stream(rng, rng.choice(BIG + MID), rng.randint(1, 4)) for _ in range(ctx.n(3, 24))]
                 + [rand_stream(rng, rng.choice([12, 98, 1010]), rng.randint(6, 30)) for _ in range(ctx.n(3, 24))], what="long texts scored")
    return "vocabularies around 2^16 and above, texts of up to 280000 words, counts up to 2^62, n-grams of up to 45 words"
