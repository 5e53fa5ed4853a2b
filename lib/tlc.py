"""Running TLC and reading back what it says."""
import json, os, re, shutil, subprocess, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    """TLC itself failed (not a verdict about the code)."""


class Result:
    def __init__(self):
        self.ok = False
        self.states = 0
        self.distinct = 0
        self.violated = []      # names of violated invariants/properties
        self.text = ""
        self.prints = []        # values printed by PrintT
        self.wall = 0.0
        self.evalerror = False


def work_root():
    d = os.path.join(VERIF, ".work")
    os.makedirs(d, exist_ok=True)
    return d


def run(module, cfg=None, env=None, workers=4, heap="3g", timeout=600, extra=(),
        cont=False, simulate=None):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg (default: same name)."""
    cfg = cfg or module
    meta = tempfile.mkdtemp(prefix="tlc.", dir=work_root())
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m",
           "-Djava.io.tmpdir=" + meta,
           "-cp", JARS, "tlc2.TLC", "-metadir", meta, "-workers", str(workers),
           "-config", os.path.join(SPEC, cfg + ".cfg"), "-noGenerateSpecTE"]
    if cont:
        cmd.append("-continue")
    if simulate:
        cmd += ["-simulate", simulate]
    cmd += list(extra)
    cmd.append(os.path.join(SPEC, module + ".tla"))
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=e, cwd=SPEC, timeout=timeout)
        out = p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as ex:
        raise TlcError("TLC timed out after %ds on %s/%s" % (timeout, module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = Result()
    r.wall = time.time() - t0
    r.text = out
    m = None
    for m in re.finditer(r"(\d+) states generated.*?(\d+) distinct states found", out):
        pass
    if m:
        r.states, r.distinct = int(m.group(1)), int(m.group(2))
    else:
        m = None
        for m in re.finditer(r"(\d+) states checked", out):
            pass
        if m:
            r.states = r.distinct = int(m.group(1))
    r.violated = re.findall(r"Error: Invariant (\S+) is violated", out)
    r.violated += re.findall(r"Error: Action property (\S+)", out)
    if re.search(r"Temporal propert(y \S+ was|ies were) violated", out):
        r.violated.append("temporal")
    if re.search(r"Error: Deadlock reached", out):
        r.violated.append("Deadlock")
    if re.search(r"Postcondition", out) and "violated" in out:
        r.violated.append("Postcondition")
    r.prints = [l for l in out.splitlines() if l.startswith("<<") or l.startswith('"')]
    finished = "Model checking completed. No error has been found" in out or \
        "Finished in" in out or "The number of states generated" in out or \
        (simulate and "Error:" not in out)
    if p.returncode == 0 and finished and not r.violated:
        r.ok = True
        return r
    if r.violated:
        return r
    if "Parsing or semantic analysis failed" in out:
        raise TlcError("TLC cannot parse %s:\n%s" % (module, out[-3000:]))
    if "Error: " in out and ("java.lang.OutOfMemoryError" not in out):
        r.evalerror = True
        return r
    raise TlcError("TLC failed (rc=%s) on %s/%s:\n%s" % (p.returncode, module, cfg, out[-3000:]))


VERD = re.compile(r'^"VERDICT\|(\d+)\|(.*)"$')


def check_cases(module, cases, cfg=None, shards=8, workers=1, timeout=800, heap="3g",
                env=None):
    """Trace validation: every case must be accepted by trace spec `module`.

    The trace spec reads the JSON array named by $CASES, runs one behaviour per
    case and prints VERDICT|index|text when a behaviour ends; text "ok"
    is acceptance.  Returns (verdicts, states, distinct)."""
    if not cases:
        return [], 0, 0
    from concurrent.futures import ThreadPoolExecutor
    shards = max(1, min(shards, len(cases)))
    groups = [list(range(i, len(cases), shards)) for i in range(shards)]
    verdicts = [None] * len(cases)
    tot = [0, 0]
    d = tempfile.mkdtemp(prefix="cases.", dir=work_root())

    def one(gi, idxs):
        f = os.path.join(d, "c%s.json" % gi)
        with open(f, "w") as fh:
            json.dump([cases[i] for i in idxs], fh)
        e = dict(env or {})
        e["CASES"] = f
        r = run(module, cfg, env=e, workers=workers, timeout=timeout, heap=heap)
        for line in r.text.splitlines():
            m = VERD.match(line.strip())
            if m:
                k = int(m.group(1)) - 1
                if 0 <= k < len(idxs):
                    verdicts[idxs[k]] = m.group(2)
        return r

    def solve(gi, idxs):
        r = one(gi, idxs)
        tot[0] += r.states
        tot[1] += r.distinct
        missing = [i for i in idxs if verdicts[i] is None]
        if not missing:
            return
        # An evaluation error stops TLC: find the cases it belongs to.
        if len(idxs) == 1:
            t = r.text
            k = t.find("Error:")
            verdicts[idxs[0]] = ("outside the specification's domain: " +
                                 " ".join(t[k:k + 600].split()))
            return
        half = max(1, len(missing) // 2)
        solve("%sa" % gi, missing[:half])
        if missing[half:]:
            solve("%sb" % gi, missing[half:])

    try:
        with ThreadPoolExecutor(max_workers=shards) as ex:
            list(ex.map(lambda a: solve(*a), list(enumerate(groups))))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return verdicts, tot[0], tot[1]
