"""Broken model files are refused, whole ones are read."""
import os, random, re, struct
import framework, vk, models, train
from framework import Kind

META = {"level": "model_checking", "assumptions": [
    "refused: the program ends with an error (an uncaught exception counts), not by a crash, a hang or more than 4 GB of memory",
    "numbers in unusual notation, blanks around keywords, NUL bytes and text after the end may be taken or refused"]}
# reader -> (kind, command); M the model, O an output, T a text, G a good model
TEXT = {
    "arpa2arpa": ("tree", "arpa2arpa M O"),
    "arpa2bin": ("tree", "arpa2bin M O"),
    "arpasize": ("tree", "arpasize -a M O"),
    "arpasize-S": ("head", "arpasize -S -a M O"),
    "perplexity": ("tree", "perplexity -a M T O"),
    "perplexity-i": ("mix", "perplexity -a G -i M -I 0.5 T O"),
    "perplexity-i2": ("mix", "perplexity -a M -i G -I 0.5 T O"),
    "perplexity-f": ("hash", "perplexity -f -a M T O"),
    "perplexity-fi": ("hash", "perplexity -f -a G -i M -I 0.5 T O"),
    "check_model": ("tree", "check_model -a M T"),
    "check_model-f": ("hash", "check_model -f -a M T"),
    "add_zeroprob_grams": ("hash", "add_zeroprob_grams M O"),
    "add_zeroprob_grams-s": ("hash", "add_zeroprob_grams -s M O"),
    "simpleinterpolate2arpa": ("join", "simpleinterpolate2arpa M,0.5;G,0.5 O"),
    "simpleinterpolate2arpa-2": ("join", "simpleinterpolate2arpa G,0.5;M,0.5 O"),
}
BIN = {
    "bin2arpa": ("bin", "bin2arpa M O"),
    "perplexity-A": ("bin", "perplexity -A M T O"),
    "arpasize": ("bin", "arpasize M O"),
    "check_model": ("bin", "check_model M T"),
}
GOOD = "\\data\\\nngram 1=2\nngram 2=1\n\n\\1-grams:\n-0.5 a -0.25\n-0.75 b\n\n\\2-grams:\n-0.5 a b\n\n\\end\\\n"


def millionths(x):
    v = float(x) * 1e6
    return round(v) if abs(v) < 2 ** 40 else 2 ** 40


def read_out(path):
    """The n-grams arpa2arpa has written, in millionths."""
    out = []
    order = 0
    with open(path, "rb") as f:
        for l in f.read().split(b"\n"):
            if l.startswith(b"\\") and l.endswith(b"-grams:"):
                order = int(l[1:-7])
            elif order and l and not l.startswith(b"\\end"):
                x = l.replace(b"\t", b" ").split(b" ")
                out.append({"w": [list(w) for w in x[1:order + 1]], "p": millionths(x[0]),
                            "b": [millionths(x[order + 1])] if len(x) > order + 1 else []})
    return out


def outcome(ctx, table, name, data):
    kind, cmd = table[name]
    with vk.Scratch() as d:
        for n, x in (("M", data), ("T", b"a b a x\n"), ("G", GOOD.encode())):
            vk.put(os.path.join(d, n), x)
        f = cmd.split()
        rc, out, err = vk.run(["/bin/sh", "-c", 'ulimit -v 4000000; ulimit -c 0; exec "$0" "$@"', ctx.bin(f[0])] + f[1:], cwd=d, timeout=30)
        if rc in ("timeout", -11, -7, -8, -4, -9):
            raise vk.Obs("%s ended in %s" % (name, rc))
        if b"bad_alloc" in err and not re.search(rb"[0-9]{7}", data):
            raise vk.Obs("%s used up its memory" % name)
        r = {"reader": name, "kind": kind, "what": "ok" if rc == 0 else "refused", "content": False, "grams": [], "counts": []}
        if rc == 0 and name == "arpasize-S":
            ls = [l.split() for l in open(d + "/O").read().split("\n")]
            r["counts"] = [int(l[1]) for l in ls if len(l) == 2 and l[0].endswith("-grams:")]
        if rc == 0 and name == "arpa2arpa":
            r["content"] = True
            try:
                r["grams"] = [g for g in read_out(d + "/O") if abs(g["p"]) < 2 ** 31 and all(abs(b) < 2 ** 31 for b in g["b"])]
            except ValueError:
                r["content"] = False
        return r


def observe_replay(ctx, inp):
    """inp: text, readers, v: kind -> verdict; free outcomes count as they should"""
    res = {}
    for name in inp["readers"]:
        r = outcome(ctx, BIN if inp["bin"] else TEXT, name, bytes(inp["text"]))
        v = inp["v"][r["kind"]]
        res[name] = v if v == "free" else {"ok": "accept", "refused": "refuse"}[r["what"]]
        if v == "accept" and r["kind"] == "head" and r["counts"] != inp["counts"]:
            res[name] = "other counts: %s" % r["counts"]
        if v == "accept" and r["content"] and inp["grams"]:
            g = {tuple(map(tuple, x["w"])): x for x in r["grams"]}
            want = {tuple(map(tuple, x["w"])): x for x in inp["grams"]}
            if set(g) - {(tuple(b"<UNK>"),)} != set(want) - {(tuple(b"<UNK>"),)} or any(
                    abs(g[w]["p"] - x["p"]) > 2 + abs(x["p"]) // 100000 or g[w]["b"] and abs(g[w]["b"][0] - x["b"]) > 2 + abs(x["b"]) // 100000
                    for w, x in want.items()):
                res[name] = "other n-grams: %s" % g
    return res


REPLAY = Kind("replay", None, observe_replay)


def observe_file(ctx, inp):
    table = BIN if inp["bin"] else TEXT
    return {"bin": inp["bin"], "text": inp["text"], "outs": [outcome(ctx, table, n, bytes(inp["text"])) for n in inp["readers"]]}


FILE = Kind("file", "Trace_ModelText", observe_file)


# -- larger files, damaged at random ------------------------------------------
def damage(rng, t):
    """One piece of damage to the bytes t."""
    ls = t.split(b"\n")
    r = rng.randrange(12)
    i = rng.randrange(len(t)) if t else 0
    j = rng.randrange(len(ls))
    full = [n for n in range(len(ls)) if ls[n].strip()]
    j = rng.choice(full) if full else 0
    if r == 0:
        return t[:i]
    if r == 1:
        return t[:i] + t[i + rng.choice([1, 1, 2, 5, 20]):]
    if r == 2:
        return t[:i] + bytes([rng.choice([rng.randrange(256), rng.choice(b" \t\n\\-.=0123456789aeginx")])]) + t[i + 1:]
    if r == 3:
        return t[:i] + bytes(rng.choice(b" \t\n\\-.=0123456789aeginx") for _ in range(rng.choice([1, 1, 3]))) + t[i:]
    if r == 4:
        del ls[j]
    elif r == 5:
        ls.insert(rng.randrange(len(ls)), ls[j])
    elif r == 6 and full:
        k = rng.choice(full)
        ls[j], ls[k] = ls[k], ls[j]
    elif r in (7, 8):
        f = ls[j].split(b" ")
        k = rng.randrange(len(f))
        x = rng.choice([b"", b"x", b"-", b"1e", b"--1", b"0.5.1", b"-1e5x", b"1,5", b"\\end\\", b"9" * 30, b"nan", b"-inf", b"0x1p-1", b"+1", b".5"])
        if r == 7:
            f[k] = x
        elif rng.random() < 0.5:
            del f[k]
        else:
            f.insert(k, x)
        ls[j] = b" ".join(f)
    elif r == 9:
        c = [n for n in range(len(ls)) if ls[n].startswith(b"ngram ")]
        if c:
            n = rng.choice(c)
            ls[n] = ls[n].split(b"=")[0] + b"=" + rng.choice([b"0", b"1", b"2", b"7", b"-1", b"100", b"99999", b"4294967297", b"", b"x", b"3x", b"1 2"])
    elif r == 10:
        # a whole section elsewhere, or not at all
        s = [n for n in range(len(ls)) if ls[n].endswith(b"-grams:")] + [n for n in range(len(ls)) if ls[n] == b"\\end\\"]
        if len(s) > 1:
            k = rng.randrange(len(s) - 1)
            cut = ls[s[k]:s[k + 1]]
            del ls[s[k]:s[k + 1]]
            if rng.random() < 0.6:
                at = rng.choice(s[:k + 1])
                ls[at:at] = cut
    else:
        ls[j] = rng.choice([b"\\2grams:", b"\\2-grams", b"\\-grams:", b"\\", b"\\3-grams:", b"\\1-grams:", b"\\data\\", b"x" * 5000, b"ngram 1=1"])
    return b"\n".join(ls)


def damage_bin(rng, t, ctx):
    r = rng.randrange(6)
    i = rng.randrange(len(t))
    if r == 0:
        return t[:i]
    if r == 1:
        i = rng.randrange(min(len(t), 80))
        return t[:i] + bytes([rng.choice(b" \n-0123456789axb")]) + t[i + rng.randrange(2):]
    if r == 2:
        return t[:i] + bytes([rng.randrange(256)]) + t[i + 1:]
    if r == 3:
        # a word or a child of some node
        n = rng.randrange(max(1, len(t) // 16)) or 1
        at = len(t) - 16 * n + rng.choice([0, 12])
        if at < 0:
            return t[:i]
        return t[:at] + struct.pack("<i", rng.choice([-2, -1, 0, 1, 2, 5, 9, len(t) // 16, 10 ** 6, 2 ** 31 - 1, -2 ** 31])) + t[at + 4:]
    if r == 4:
        return t[:i] + t[i + rng.choice([1, 4, 16, 17]):]
    ls = t.split(b"\n")
    j = rng.randrange(min(len(ls), 12))
    ls[j] = rng.choice([b"0", b"1", b"2", b"3", b"-1", b"99999", b"x", b"2 2", b"3 9", b"", b"backoff", b"2 x"])
    return b"\n".join(ls)


WORDS = ["a", "b", "cc", "<s>", "</s>", "é", "-1", "\\w", "d=e", "1-grams:"]


def rand_file(rng):
    n = rng.randint(1, 4)
    words = rng.sample(WORDS, rng.randint(1, 6))
    listed = [[(w,) for w in words]]
    for o in range(2, n + 1):
        c = [g + (w,) for g in listed[-1] for w in words]
        rng.shuffle(c)
        c = c[:rng.randint(1, 5)]
        listed.append(c)
    if rng.random() < 0.5:
        listed[0].append(("<UNK>",))
    sep = rng.choice([" ", " ", "\t", "  "])
    out = []
    if rng.random() < 0.2:
        out.append("some words\n")
    if rng.random() < 0.2:
        out.append(rng.choice(["\\interpolated\n", "iARPA\n"]))
    out.append("\\data\\\n" + "".join("ngram %d=%d\n" % (o + 1, len(l)) for o, l in enumerate(listed)))
    number = lambda: rng.choice(["%.3f", "%.6f", "%g", "%.1f"]) % -(rng.randrange(1, 40) / 8.0)
    for o, l in enumerate(listed):
        out.append("\n\\%d-grams:\n" % (o + 1))
        for g in l:
            out.append(number() + sep + " ".join(g) + (sep + rng.choice(["0", "-0.5", "0.125", "-1e-2", "-0.3"]) if o + 1 < n and rng.random() < 0.6 else "") + "\n")
    out.append("\n\\end\\\n" + rng.choice(["", "", "", "\n", "trailing\n"]))
    return "".join(out).encode()


def pick(rng, table, n):
    names = sorted(table)
    return rng.sample(names, min(n, len(names)))


def make_bin(ctx, text):
    with vk.Scratch() as d:
        vk.put(d + "/m", text)
        rc, out, err = vk.run([ctx.bin("arpa2bin"), "m", "b"], cwd=d)
        return open(d + "/b", "rb").read() if rc == 0 else None


def kinds(ctx):
    ctx.kind(REPLAY)
    ctx.kind(FILE)


def run(ctx):
    ctx.model("MC_ModelText", ctx.n("MC_ModelText", "MC_ModelText_deep"), heap="8g")
    ctx.model("MC_ModelBin")
    for module, table, b in (("MC_ModelText", TEXT, False), ("MC_ModelBin", BIN, True)):
        cases = ctx.generate(module, ctx.n("Gen_", "Gen_") + module[3:] + ("" if ctx.quick or b else "_deep"), heap="8g")
        cases.sort(key=lambda c: (c["base"], c["edit"]))
        items, whole = [], []
        for c in cases:
            full = c["edit"][0] not in ("delete", "insert", "replace")
            for rs in ([sorted(table)] if full or not ctx.quick else [pick(ctx.rng, table, 3)]):
                items.append(({"bin": b, "text": c["text"], "readers": rs, "v": c["v"], "counts": c["counts"], "grams": c["grams"]},
                              {n: c["v"][table[n][0]] for n in rs}))
        if ctx.quick and len(items) > 2000:
            keep = [i for i in items if len(i[0]["readers"]) > 4]
            rest = [i for i in items if len(i[0]["readers"]) <= 4]
            items = keep + ctx.rng.sample(rest, min(len(rest), max(0, 2000 - len(keep))))
        ctx.expect(REPLAY, items, what="%s files with one edit" % ("binary" if b else "text"))
    rng = ctx.rng
    files = []
    for i in range(ctx.n(500, 6000)):
        t = rand_file(rng)
        for _ in range(rng.choice([0, 1, 1, 1, 1, 2, 3])):
            t = damage(rng, t)
        files.append({"bin": False, "text": list(t), "readers": pick(rng, TEXT, ctx.n(5, 15))})
    ctx.validate(FILE, files, what="text files with random damage")
    files = []
    while len(files) < ctx.n(250, 3000):
        t = make_bin(ctx, rand_file(rng))
        if t is None:
            continue
        for _ in range(rng.choice([0, 1, 1, 1, 1, 2])):
            t = damage_bin(rng, t, ctx) or t
        files.append({"bin": True, "text": list(t), "readers": sorted(BIN)})
    ctx.validate(FILE, files, what="binary files with random damage")
    return "one edit of small files, random damage of larger ones, %d readers" % (len(TEXT) + len(BIN))
