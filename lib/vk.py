"""Running varikn's programs and reading their files."""
import os, random, re, shutil, subprocess, tempfile

import tlc

TIMEOUT = 60


class Obs(Exception):
    """The program's behaviour could not even be read as an observation."""


def run(cmd, cwd=None, stdin=None, timeout=TIMEOUT, env=None):
    """rc (negative: signal; 'timeout'), stdout, stderr"""
    e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LANG": "C.UTF-8", "HOME": "/nonexistent"}
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, cwd=cwd, input=stdin if stdin is not None else b"",
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        return "timeout", b"", b""
    return p.returncode, p.stdout, p.stderr


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="run.", dir=tlc.work_root())
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def put(path, text):
    with open(path, "wb") as f:
        f.write(text if isinstance(text, bytes) else text.encode("utf-8"))
    return path


def lines(path):
    with open(path, "rb") as f:
        return f.read().decode("utf-8", "replace").split("\n")


def read_vocab(path):
    """The vocabulary as written by -U: word i+1 on line i."""
    out = lines(path)
    if out and out[-1] == "":
        out.pop()
    return out


def read_counts(path, words, three):
    """A count file written by -W, with indices turned back to words."""
    names = ["<UNK>"] + list(words)

    def w(i):
        i = int(i)
        if i < 0 or i >= len(names):
            raise Obs("count file names word index %d of %d" % (i, len(names)))
        return names[i]
    counts, bos = [], []
    seen, seenb = set(), set()
    mode = None
    ls = lines(path)
    if not ls or not ls[0].startswith("\\vocabsize"):
        raise Obs("count file has no header")
    for l in ls[1:]:
        if not l.strip():
            continue
        m = re.match(r"^\\(\d+)-gram (counts|backoffs)$", l)
        if m:
            mode = (m.group(2), int(m.group(1)))
            continue
        m = re.match(r"^\[((?: -?\d+)*) \] (.*)$", l)
        if not m or not mode:
            raise Obs("count file line not understood: %r" % l)
        g = [w(x) for x in m.group(1).split()]
        v = [int(x) for x in m.group(2).split()]
        if mode[0] == "counts":
            if len(g) != mode[1] or len(v) != 1:
                raise Obs("count file line not understood: %r" % l)
            if tuple(g) in seen:
                raise Obs("n-gram %r twice in the count file" % g)
            seen.add(tuple(g))
            counts.append([g, v[0]])
        else:
            if len(g) != mode[1] - 1 or len(v) != (5 if three else 3):
                raise Obs("count file line not understood: %r" % l)
            if tuple(g) in seenb:
                raise Obs("context %r twice in the count file" % g)
            seenb.add(tuple(g))
            bos.append([g, v])
    return counts, bos


class Arpa:
    """An ARPA file: header counts, and (gram, logprob, backoff or None)."""

    def __init__(self):
        self.interpolated = False
        self.header = []
        self.grams = []
        self.ended = False


def read_arpa(data, sep=None):
    a = Arpa()
    text = data.decode("utf-8", "replace")
    order = 0
    started = False
    for l in text.split("\n"):
        if l == "" or l.isspace():
            continue
        if not started:
            if l.startswith("\\interpolated"):
                a.interpolated = True
                continue
            if l.startswith("\\data\\"):
                started = True
                continue
            raise Obs("ARPA: unexpected line %r" % l)
        if a.ended:
            raise Obs("ARPA: text after the end mark: %r" % l)
        m = re.match(r"^ngram (\d+)=\s*(\d+)$", l)
        if m and order == 0:
            if int(m.group(1)) != len(a.header) + 1:
                raise Obs("ARPA: header out of order")
            a.header.append(int(m.group(2)))
            continue
        m = re.match(r"^\\(\d+)-grams:$", l)
        if m:
            order = int(m.group(1))
            continue
        if l.startswith("\\end\\"):
            a.ended = True
            continue
        f = l.split(" ") if sep is None else l.split(sep)
        if order == 0 or len(f) not in (order + 1, order + 2):
            raise Obs("ARPA: line not understood: %r" % l)
        try:
            lp = float(f[0])
            bo = float(f[order + 1]) if len(f) == order + 2 else None
        except ValueError:
            raise Obs("ARPA: line not understood: %r" % l)
        if lp != lp or lp in (float("inf"), float("-inf")) or (bo is not None and bo != bo):
            raise Obs("ARPA: not a finite number: %r" % l)
        a.grams.append((f[1:order + 1], lp, bo))
    if not a.ended:
        raise Obs("ARPA: no end mark")
    return a


# ---------------------------------------------------------------- inputs

def rand_text(rng, ntok, nwords, sents=True, marks=True, unk=0.0, zipf=1.0, names=None):
    """A random text: list of lines (lists of words)."""
    names = names or ["w%d" % i for i in range(nwords)]
    nwords = len(names)
    wts = [1.0 / (i + 1) ** zipf for i in range(nwords)]
    out, cur = [], []
    n = 0
    phrase = [rng.choices(names, wts)[0] for _ in range(rng.randint(2, 5))]
    while n < ntok:
        L = rng.randint(1, 9)
        s = []
        while len(s) < L:
            if rng.random() < 0.3:
                s += phrase
            else:
                s.append(rng.choices(names, wts)[0])
        if unk and rng.random() < unk:
            s[rng.randrange(len(s))] = "<UNK>"
        if marks:
            s = ["<s>"] + s + ["</s>"]
        out.append(s)
        n += len(s)
    return out


def text_bytes(rng, sents, messy=False):
    b = []
    for s in sents:
        sep = " "
        if messy and rng.random() < 0.3:
            sep = rng.choice(["  ", "\t", " \t ", "\n", "\r\n"])
        b.append(sep.join(s))
        b.append("\n" if not messy else rng.choice(["\n", "\n\n", " \n", "\t\n ", " "]))
    t = "".join(b)
    if messy and rng.random() < 0.5:
        t = t.rstrip()
    return t
