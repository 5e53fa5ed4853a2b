"""The vocabulary: words and numbers, and the word lists it reads and writes."""
import framework, vk
from framework import Kind

META = {"level": "model_checking", "assumptions": [
    "an opening bracket that ends a line of a word list may stay",
    "words and lines hold no NUL bytes"]}


def observe(ctx, inp):
    ops = []
    with vk.Scratch() as d:
        lines, nf = [], 0
        for op, w, n in inp["ops"]:
            if op in ("read", "fread"):
                nf += 1
                vk.put("%s/f%d" % (d, nf), bytes(w))
                lines.append("%s %s" % (op, ("%s/f%d" % (d, nf)).encode().hex()))
            elif op == "nofile":
                lines.append("read %s" % (d + "/missing").encode().hex())
            elif op in ("word", "oov", "beyond"):
                lines.append("%s %d" % ("word" if op == "beyond" else op, n))
            elif op in ("add", "index", "setoov"):
                lines.append("%s %s" % (op, bytes(w).hex() or "-"))
            else:
                lines.append(op)
        rc, out, err = vk.run([ctx.bin("voc")], stdin=("\n".join(lines) + "\n").encode(), timeout=60)
        ans = out.decode().split("\n")[:-1]
    beyond = inp["ops"][-1][0] == "beyond"
    if beyond:
        if rc == 0:
            ans[-1] = "0"
        elif rc == 1 and len(ans) == len(lines) - 1:
            ans.append("1")
            rc = 0
    if rc != 0 or len(ans) != len(lines):
        raise vk.Obs("stopped with rc=%s after %s" % (rc, inp["ops"][min(len(ans), len(lines) - 1)][0]))
    unhex = lambda s: [] if s == "-" else list(bytes.fromhex(s))
    for (op, w, n), a in zip(inp["ops"], ans):
        t = {"op": op, "w": w or [], "n": n or 0, "out": 0, "ws": []}
        if op in ("add", "index", "num", "oov", "beyond"):
            t["out"] = int(a)
        elif op in ("word", "write"):
            t["ws"] = [unhex(a)]
        elif op == "list":
            t["ws"] = [unhex(x) for x in a.split()]
        elif op in ("read", "nofile"):
            t["out"] = 1 if a == "ok" else 0
        elif op == "fread":
            t["out"] = 1
        ops.append(t)
    return {"ops": ops}


OPS = Kind("ops", "Trace_Vocabulary", observe)


def kinds(ctx):
    ctx.kind(OPS)


def op(name, w=None, n=None):
    return [name, w, n]


def replay(h, rng):
    ops = [op("new")]
    seen = [[97], [60, 85, 78, 75, 62]]
    for o, w in h:
        ops.append(op(rng.choice(["read", "fread"]) if o == "read" else o, w))
        if o in ("add", "setoov"):
            seen.append(w)
    ops += [op("num"), op("list")] + [op("index", w) for w in seen] + [op("write")]
    return ops


def rand_word(rng, wide):
    n = rng.choice([0, 1, 1, 2, 3, 5, 40])
    if wide:
        return [rng.choice([x for x in range(1, 256)]) for _ in range(n)]
    return [rng.choice([97, 98, 95, 40, 32, 9]) for _ in range(n)]


def rand_file(rng, words):
    f = []
    for _ in range(rng.choice([0, 1, 3, 10, 40])):
        r = rng.random()
        w = rng.choice(words) if rng.random() < 0.8 else rand_word(rng, rng.random() < 0.3)
        if r < 0.3:
            w = rng.choice([[32], [9], [32, 32], [9, 32], [13]]) + w
        if r > 0.2 and r < 0.5:
            w = w + rng.choice([[32], [9], [13], [32, 120, 32, 121], [40, 50, 41], [32, 40, 49, 41], [40], [32, 120]])
        if r > 0.95:
            w = rng.choice([[], [95], [95, 95], [95, 95, 95], [35], [35, 97], [32], [40], [40, 32, 97]])
        f += w + [10]
    if f and rng.random() < 0.3:
        f.pop()
    return f


def rand(rng):
    ops, n = [op("new")], rng.choice([5, 20, 60])
    wide = rng.random() < 0.3
    words = [rand_word(rng, wide) for _ in range(rng.choice([2, 5, 15]))]
    size, copied, empty = 1, False, False
    for _ in range(n):
        r = rng.random()
        w = rng.choice(words)
        if r < 0.35:
            ops.append(op("add", w))
            empty = False
        elif r < 0.5:
            ops.append(op("index", w))
        elif r < 0.6:
            ops.append(op(rng.choice(["read", "read", "fread"]), rand_file(rng, words)))
        elif r < 0.65:
            ops.append(op("list"))
        elif r < 0.7:
            ops.append(op("num"))
        elif r < 0.75:
            ops.append(op("write"))
        elif r < 0.78 and not empty:
            ops.append(op("setoov", rng.choice(words + [[60, 85, 78, 75, 62]] * 3)))
        elif r < 0.8:
            ops.append(op("clear"))
            ops.append(op("add", w))
        elif r < 0.83 and not copied:
            ops.append(op("copy"))
            copied = True
        elif r < 0.88 and copied:
            ops.append(op("list"))
            ops.append(op("back"))
            ops.append(op("list"))
            copied = False
        elif r < 0.9:
            ops.append(op("oov", None, rng.choice([0, 0, 1, 5])))
        elif r < 0.91:
            ops.append(op("nofile"))
    ops += [op("num"), op("list")] + [op("index", w) for w in words] + [op("word", None, 0), op("write")]
    if rng.random() < 0.2:
        ops.append(op("beyond", None, rng.choice([1000, 100000])))
    return {"ops": ops}


def run(ctx):
    ctx.model("MC_Vocabulary", "MC_Vocabulary")
    if not ctx.quick:
        ctx.model("MC_Vocabulary", "MC_Vocabulary_deep", timeout=1200)
    hists = [x["h"] for x in ctx.generate("MC_Vocabulary", "Gen_Vocabulary")]
    ctx.rng.shuffle(hists)
    single = [h for h in hists if len(h) < 2]
    double = [h for h in hists if len(h) == 2][:ctx.n(6000, 60000)]
    runs, cur = [], []
    for h in single + double:
        cur += replay(h, ctx.rng)
        if len(cur) > 250:
            runs.append({"ops": cur})
            cur = []
    runs.append({"ops": cur})
    ctx.validate(OPS, runs, "every short history of the specification")
    ctx.validate(OPS, [rand(ctx.rng) for _ in range(ctx.n(400, 6000))], "random operations and word lists")
