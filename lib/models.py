"""Model files: writing, reading and handing them to the specification."""
import math, os, random, struct
import vk

ONE = 1 << 26


def q26(lp):
    """10^lp in the fixed point of FixLog (capped at 15.99)."""
    if lp < -12:
        return 0
    if lp > 1.2:
        return 16 * ONE - 1
    return int(min(round(10.0 ** lp * ONE), 16 * ONE - 1))


def lin_view(a):
    """An Arpa as the linear model of NgramModel."""
    return {"p": [[g, q26(lp)] for g, lp, bo in a.grams],
            "w": [[g, q26(bo)] for g, lp, bo in a.grams if bo is not None],
            "inter": a.interpolated}


UNIT = 32768          # logarithms are integers in units of 2^-15
FLOOR = -60


class Model:
    """words: vocabulary in file order; p: {gram: number}; w: {gram: number}"""

    def __init__(self, p, w, inter=False):
        self.p = {tuple(g): v for g, v in p}
        self.w = {tuple(g): v for g, v in w}
        self.inter = inter

    def grams(self, o):
        return [g for g in self.p if len(g) == o]

    @property
    def order(self):
        return max(len(g) for g in self.p)


def num(x):
    """A dyadic number written out in full."""
    s = "%.15f" % x
    s = s.rstrip("0")
    return s + "0" if s.endswith(".") else s


def arpa_text(p, w, inter=False, order=None, sep=" ", header=None, lastweights=False):
    """p, w: lists of [gram, value] in file order (sorted by length here)."""
    wm = {tuple(g): v for g, v in w}
    n = order or max(len(g) for g, _ in p)
    out = []
    if inter:
        out.append("\\interpolated\n")
    out.append("\\data\\\n")
    for o in range(1, n + 1):
        out.append("ngram %d=%d\n" % (o, sum(1 for g, _ in p if len(g) == o)))
    for o in range(1, n + 1):
        out.append("\n\\%d-grams:\n" % o)
        for g, v in p:
            if len(g) != o:
                continue
            b = wm.get(tuple(g))
            out.append("%s%s%s%s\n" % (v if isinstance(v, str) else num(v), sep, " ".join(g),
                                       "" if b is None else sep + (b if isinstance(b, str) else num(b))))
    out.append("\n\\end\\\n")
    return "".join(out)


def lmq(ctx, cmds, cwd=None, timeout=60):
    """Run the query harness; one answer line per command."""
    rc, out, err = vk.run([ctx.bin("lmq")], cwd=cwd, stdin=("\n".join(cmds) + "\n").encode("utf-8"), timeout=timeout)
    ls = out.decode("utf-8", "replace").split("\n")
    if ls and ls[-1] == "":
        ls.pop()
    if rc != 0 or len(ls) != len(cmds):
        raise vk.Obs("lmq failed: rc=%s after %d of %d commands (next: %s) %s" % (
            rc, len(ls), len(cmds), cmds[len(ls)] if len(ls) < len(cmds) else "-", err[-300:].decode("utf-8", "replace")))
    return ls


def units(s):
    """A printed number as an integer number of units, or the printed number
    itself when it is none."""
    v = float(s) * UNIT
    if v != v or abs(v) > 2e9:
        return "not a number: " + s
    return int(v) if v == int(v) else s


NAMES = ["a", "b", "c", "d", "e", "</s>x", "<s>-", "f", "g", "h", "ab", "ba", "A", "B", "1", "10", "-", "--x", "#x", "it's", "x,y",
         "foo:bar", "<x>", "&", "%d", "a=b", "*", "+1", "0", "\xe4\xe4", "word_"]


def rand_structure(rng, nwords, order, density, closed=True, unk=True, marks=True):
    names = rng.sample(NAMES, min(nwords, len(NAMES)))
    if marks:
        names = ["<s>", "</s>"][:rng.randint(0, 2)] + names
    if unk:
        names.insert(rng.randint(0, len(names)), "<UNK>")
    rng.shuffle(names)
    levels = [[(w,) for w in names]]
    for o in range(2, order + 1):
        nxt = set()
        for h in levels[-1]:
            if rng.random() < density:
                k = rng.choice([1, 1, 2, 3, len(names)])
                for w in rng.sample(names, min(k, len(names))):
                    nxt.add(h + (w,))
        nxt = sorted(nxt)
        rng.shuffle(nxt)
        if len(nxt) > 120:
            nxt = nxt[:120]
        if not nxt:
            break
        levels.append(nxt)
    return levels


def rand_model(rng, inter=False, nwords=None, order=None, positive=True, start99=0.15, unk=None, step=None, allw=0.1):
    """Prefix-closed, in units; interpolated: shares."""
    U = UNIT
    nwords = nwords or rng.choice([1, 2, 3, 5, 9, 14])
    order = order or rng.choice([1, 2, 2, 3, 3, 4, 5])
    levels = rand_structure(rng, nwords, order, rng.choice([0.3, 0.7, 1.0]),
                            unk=rng.random() < 0.8 if unk is None else unk)
    allg = [g for l in levels for g in l]
    ctxs = {g[:-1] for g in allg if len(g) > 1}
    step = step or U // 8
    p, w = [], []
    for g in allg:
        if inter:
            v = -rng.randint(0 if len(g) > 1 else 4, 24) * step // 4 if rng.random() < 0.9 else -rng.randint(8, 60) * step
        else:
            v = -rng.randint(0, 100) * step if rng.random() < 0.9 else -rng.randint(100, 400) * step
        if g == ("<s>",) and rng.random() < start99:
            v = -99 * U
        p.append([list(g), v])
        if (g in ctxs and rng.random() < 0.9) or (len(g) < len(levels) and rng.random() < allw):
            b = -rng.randint(0, 40) * step
            if positive and rng.random() < 0.1:
                b = rng.randint(1, 6) * step
            if inter:
                b = -rng.randint(0, 40) * step // 8
            w.append([list(g), b])
    return p, w


NOW = 2000000000


def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


def dec(f, scale=10000):
    """A float that holds a decimal with four digits, as an integer."""
    i = int(round(f * scale))
    if f32(i / scale) != f32(f):
        raise vk.Obs("value %.9g is none of the four-digit values of the model" % f)
    return i


def read_bin(data):
    """The binary format: header lines, then nodes of 4 x 4 bytes."""
    pos = [0]

    def line():
        e = data.index(b"\n", pos[0])
        s = data[pos[0]:e].decode("utf-8", "replace")
        pos[0] = e + 1
        return s
    try:
        if line() != "cis-binlm2":
            raise vk.Obs("binary model: wrong first line")
        typ = line()
        if typ not in ("backoff", "interpolated"):
            raise vk.Obs("binary model: type " + typ)
        nw = int(line())
        vocab = [line() for _ in range(nw)]
        order, nn = map(int, line().split())
        counts = [int(line()) for _ in range(order)]
    except ValueError:
        raise vk.Obs("binary model: header not understood")
    raw = data[pos[0]:]
    if len(raw) != nn * 16:
        raise vk.Obs("binary model: %d bytes of nodes, %d announced" % (len(raw), nn * 16))
    nodes = list(struct.iter_unpack("<iffi", raw))
    rows = []

    def kids(i):
        if i + 1 >= len(nodes):
            return range(0)
        a, b = nodes[i][3], nodes[i + 1][3]
        if a < 0 or b < 0:
            return range(0)
        if b > len(nodes) or a > b:
            raise vk.Obs("binary model: broken child range")
        return range(a, b)

    def walk(i, g):
        w, lp, bo, _ = nodes[i]
        if not 0 <= w < nw:
            raise vk.Obs("binary model: word %d" % w)
        g = g + [vocab[w]]
        rows.append((g, lp, bo))
        if len(g) > order:
            raise vk.Obs("binary model: n-gram above the order")
        for j in kids(i):
            walk(j, g)
    for i in range(counts[0] if counts else 0):
        walk(i, [])
    rows.sort(key=lambda r: len(r[0]))
    return {"inter": typ == "interpolated", "vocab": vocab, "counts": counts, "rows": rows}


def content(path, binary, sep=None):
    """A file as ModelFile sees it, values in units of 1e-4."""
    name = path
    if path.endswith(".gz"):
        rc, data, _ = vk.run(["gzip", "-dc", path])
    elif path.endswith(".bz2"):
        rc, data, _ = vk.run(["bzip2", "-dc", path])
    else:
        with open(path, "rb") as f:
            data = f.read()
    if binary:
        b = read_bin(data)
        return {"inter": b["inter"], "vocab": b["vocab"], "header": b["counts"],
                "rows": [[g, dec(lp), dec(bo)] for g, lp, bo in b["rows"]]}, data
    if sep == "\t":
        # words are separated by spaces, fields by tabs
        t = []
        for l in data.decode("utf-8", "replace").split("\n"):
            f = l.split("\t")
            if len(f) > 1 and (len(f) > 3 or " " in f[0] or (len(f) == 3 and " " in f[2])):
                raise vk.Obs("fields are not separated by tabs: %r" % l)
            if len(f) == 1 and " " in l and not l.startswith("ngram"):
                raise vk.Obs("fields are not separated by tabs: %r" % l)
            t.append(" ".join(f))
        a = vk.read_arpa("\n".join(t).encode())
    else:
        a = vk.read_arpa(data)
    return {"inter": a.interpolated, "vocab": [g[0] for g, _, _ in a.grams if len(g) == 1], "header": a.header,
            "rows": [[g, dec(lp), NOW if bo is None else dec(bo)] for g, lp, bo in a.grams]}, data


def norm_model(rng, words, scale=1.0, order=None, dyadic=None):
    """A back-off model whose contexts all sum to one (its unigrams to
    scale), as lists of [gram, log10 value]."""
    order = order or rng.choice([1, 2, 2, 3, 4])
    dyadic = rng.random() < 0.3 if dyadic is None else dyadic
    words = list(words)
    marks = rng.random() < 0.5
    special = [("<s>", "</s>")[i] for i in range(2)] if marks else []
    uni = words + (["<UNK>"] if rng.random() < 0.7 else []) + (["</s>"] if marks else [])
    rng.shuffle(uni)

    def dist(n, total):
        if dyadic:
            k = [1] * n
            for _ in range(max(n, 16) - n):
                k[rng.randrange(n)] += 1
            return [x * total / sum(k) for x in k]
        k = [0.02 + rng.random() ** 3 for _ in range(n)]
        return [x * total / sum(k) for x in k]
    p = {(w,): x for w, x in zip(uni, dist(len(uni), scale))}
    w = {}

    def look(g):
        if g in p:
            return p[g]
        if len(g) == 1:
            return 0.0
        return look(g[1:]) * w.get(g[:-1], 1.0)
    heads = [(x,) for x in uni + (["<s>"] if marks else [])]
    for o in range(2, order + 1):
        nxt = []
        for h in heads:
            if rng.random() < 0.4:
                continue
            full = rng.random() < 0.1
            some = uni if full else rng.sample(uni, rng.randint(1, len(uni)))
            some = [x for x in some if look(h[1:] + (x,)) > 0]
            if not some:
                continue
            same = rng.random() < 0.05
            mass = 1.0 if len(some) == len(uni) else rng.choice([0.25, 0.5, 0.75, 0.875])
            for x, v in zip(some, dist(len(some), mass)):
                p[h + (x,)] = look(h[1:] + (x,)) if same else v
                nxt.append(h + (x,))
            left = 1.0 - sum(p[h + (x,)] for x in some)
            low = 1.0 - sum(look(h[1:] + (x,)) for x in some)
            if len(some) < len(uni) and low > 1e-9 and left > 1e-9:
                w[h] = left / low
                if w[h] > 10:
                    # stay within the range of the fixed point
                    for x in some:
                        nxt.remove(h + (x,))
                        del p[h + (x,)]
                    del w[h]
        heads = nxt
        if not heads:
            break
    l10 = math.log10
    pl = [[list(g), l10(v)] for g, v in p.items()]
    if marks:
        pl.insert(rng.randint(0, len(uni)), [["<s>"], -99.0])
    pl.sort(key=lambda x: len(x[0]))
    return pl, [[list(h), l10(v)] for h, v in w.items()]
