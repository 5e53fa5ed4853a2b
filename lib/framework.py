"""What every check shares: the run context, verdicts, evidence, replay."""
import json, os, random, sys, time, traceback, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build as buildmod
import tlc
import vk


class SpecFailure(Exception):
    """The specification itself fails its own properties."""


class Kind:
    """One way of observing the code: inputs -> observation -> trace spec."""

    def __init__(self, name, module, observe, cfg=None, workers=1, heap="3g"):
        self.name, self.module, self.observe = name, module, observe
        self.cfg, self.workers, self.heap = cfg, workers, heap


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.rng = random.Random("%s/%s" % (prop, seed))
        self.t0 = time.time()
        self.violations = []
        self.known = []
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.notes = []
        self.models = []
        self.kinds = {}
        self._bins = None

    # ------------------------------------------------------------ building
    @property
    def bins(self):
        if self._bins is None:
            self._bins = buildmod.build()
        return self._bins

    def bin(self, name):
        p = os.path.join(self.bins, name)
        if not os.path.exists(p):
            log = os.path.join(self.bins, "build.log")
            raise buildmod.BuildError("no %s: %s" % (name, open(log).read()[-4000:] if os.path.exists(log) else ""))
        return p

    def elapsed(self):
        return time.time() - self.t0

    def log(self, *a):
        print("[%6.1fs]" % self.elapsed(), *a, flush=True)

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    # ------------------------------------------------------- the spec alone
    def model(self, module, cfg=None, workers=8, timeout=800, heap="6g", simulate=None,
              env=None, extra=()):
        """Check the specification's own properties.  A failure here is a
        fault of the specification, never a verdict about the code."""
        r = tlc.run(module, cfg, workers=workers, timeout=timeout, heap=heap,
                    simulate=simulate, env=env, extra=extra)
        if not r.ok:
            raise SpecFailure("%s/%s: %s\n%s" % (module, cfg, r.violated, r.text[-3000:]))
        self.states += r.distinct
        self.transitions += r.states
        self.models.append({"module": module, "cfg": cfg or module, "distinct": r.distinct,
                            "generated": r.states, "wall_s": round(r.wall, 1)})
        self.log("model %s/%s: %d distinct states, ok" % (module, cfg or module, r.distinct))
        return r

    def refute(self, module, cfg, **kw):
        """A model that lacks a needed restriction must fail: the properties
        checked are not vacuous and the restriction is not idle."""
        r = tlc.run(module, cfg, **kw)
        if r.ok or not r.violated:
            raise SpecFailure("%s/%s was expected to fail" % (module, cfg))
        self.models.append({"module": module, "cfg": cfg, "refuted": True, "wall_s": round(r.wall, 1)})
        self.log("model %s/%s: fails, as it must" % (module, cfg))

    def generate(self, module, cfg, env=None, timeout=600, simulate=None, heap="4g", workers=8, extra=()):
        """Behaviours of the specification, as printed by its Emit."""
        r = tlc.run(module, cfg, workers=workers, timeout=timeout, heap=heap, simulate=simulate,
                    env=env, extra=extra)
        if not r.ok and not simulate:
            raise SpecFailure("%s/%s: %s\n%s" % (module, cfg, r.violated, r.text[-3000:]))
        out, seen = [], set()
        for l in r.text.splitlines():
            if l.startswith('"CASE|'):
                if l in seen:
                    continue
                seen.add(l)
                body = json.loads(l)[5:]
                out.append(json.loads(body))
        if not out:
            raise SpecFailure("%s/%s produced no behaviours\n%s" % (module, cfg, r.text[-2000:]))
        self.states += r.distinct
        self.transitions += r.states
        self.models.append({"module": module, "cfg": cfg, "distinct": r.distinct,
                            "generated": r.states, "behaviours": len(out)})
        self.log("generated %d behaviours from %s/%s" % (len(out), module, cfg))
        return out

    # ------------------------------------------------- observing the code
    def pmap(self, f, xs, threads=8):
        with ThreadPoolExecutor(max_workers=threads) as ex:
            return list(ex.map(f, xs))

    def kind(self, k):
        self.kinds[k.name] = k
        return k

    def _observe(self, k, inp):
        """-> (trace or None, text of an immediate rejection)"""
        try:
            t = k.observe(self, inp)
        except vk.Obs as e:
            return None, str(e)
        if isinstance(t, str):
            return None, t
        return t, ""

    def judge(self, k, inputs, shards=8):
        """Observe every input, validate against the trace spec; returns
        [(input, verdict)] with verdict 'ok' or a reason."""
        obs = self.pmap(lambda i: self._observe(k, i), inputs)
        idx = [i for i, (t, e) in enumerate(obs) if t is not None]
        verd = [e or "?" for (t, e) in obs]
        if idx and k.module:
            v, st, di = tlc.check_cases(k.module, [obs[i][0] for i in idx], k.cfg,
                                        shards=shards, workers=k.workers, heap=k.heap)
            self.states += di
            self.transitions += st
            for i, x in zip(idx, v):
                verd[i] = x
        elif idx:
            for i in idx:
                verd[i] = "ok"
        return list(zip(inputs, verd))

    def validate(self, k, inputs, what=None, shards=8):
        """Trace validation of many runs; a rejection counts once it repeats."""
        self.kind(k)
        if not inputs:
            return
        res = self.judge(k, inputs, shards)
        self.traces += len(res)
        bad = [(i, v) for i, v in res if v != "ok"]
        self.log("%s: %d runs validated, %d rejected" % (what or k.name, len(res), len(bad)))
        if inputs and len(self.samples) < 6:
            s = json.dumps({"kind": k.name, "input": inputs[0]})
            self.samples.append(s if len(s) < 700 else s[:700] + "...")
        if bad:
            again = self.judge(k, [i for i, _ in bad[:6]])
            for (i, v), (_, v2) in zip(bad, again):
                if v2 != "ok":
                    self.violate(k.name, i, v2)
                else:
                    self.log("a rejection did not repeat, not reported:", v)

    def expect(self, k, items, what=None):
        """Replay of behaviours generated from the specification: items are
        (input, expected) and k.observe must return exactly expected."""
        self.kind(k)
        obs = self.pmap(lambda it: self._observe(k, it[0]), items)
        self.traces += len(items)

        def differs(it, o):
            t, e = o
            if t is None:
                return e
            return None if t == it[1] else "expected %s, observed %s" % (
                json.dumps(it[1])[:600], json.dumps(t)[:600])
        bad = [(it, o) for it, o in zip(items, obs) if differs(it, o)]
        self.log("%s: %d behaviours replayed, %d differ" % (what or k.name, len(items), len(bad)))
        if items and len(self.samples) < 6:
            s = json.dumps({"kind": k.name, "input": items[0][0], "expected": items[0][1]})
            self.samples.append(s if len(s) < 700 else s[:700] + "...")
        for it, _ in bad[:6]:
            d = differs(it, self._observe(k, it[0]))
            if d:
                self.violate(k.name, {"__in": it[0], "__expected": it[1]}, d)

    # ------------------------------------------------------------ verdicts
    def violate(self, kind, inp, text):
        self.violations.append((kind, inp, text))

    def finding_known(self, kind, inp, text):
        for f in load_findings():
            if f.get("property") == self.prop and f.get("status") == "known" and \
                    f.get("kind") == kind and f.get("input") == inp:
                return f
        return None


def load_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def known_probes(ctx, k):
    """Run the listed findings of this property and kind: the code still
    shows them (KNOWN-FINDING), or no longer does."""
    ctx.kind(k)
    fs = [f for f in load_findings() if f.get("property") == ctx.prop and
          f.get("status") == "known" and f.get("kind") == k.name]
    for f in fs:
        (_, v), = ctx.judge(k, [f["input"]])
        ctx.traces += 1
        if v != "ok":
            ctx.known.append(f["what"])
            print("KNOWN-FINDING: property=%s %s" % (ctx.prop, f["what"]), flush=True)


def finish(ctx, meta):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    new = []
    for kind, inp, text in ctx.violations:
        if not ctx.finding_known(kind, inp, text):
            new.append((kind, inp, text))
    ev = {
        "property": ctx.prop, "tier": "thorough" if not ctx.quick else "quick",
        "seed": ctx.seed, "level": meta["level"],
        "wall_s": round(ctx.elapsed(), 2),
        "violations": len(new),
        "coverage": {
            "states": ctx.states, "transitions": ctx.transitions,
            "traces_validated_against_impl": ctx.traces,
            "samples": ctx.samples or ["none"],
            "models": ctx.models,
        },
        "assumptions": meta.get("assumptions", []) + ctx.notes,
    }
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    rc = 0
    if new:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        for kind, inp, text in new[:4]:
            h = hashlib.sha256(json.dumps([kind, inp], sort_keys=True).encode()).hexdigest()[:12]
            p = os.path.join(d, "%s-%s.json" % (ctx.prop, h))
            with open(p, "w") as f:
                json.dump({"property": ctx.prop, "kind": kind, "input": inp, "text": text}, f, indent=1)
            print("rejected [%s]: %s" % (kind, text[:900]))
            print("VIOLATION property=%s replay=%s" % (ctx.prop, p), flush=True)
        rc = 1
    ctx.log("states=%d transitions=%d traces=%d violations=%d" %
            (ctx.states, ctx.transitions, ctx.traces, len(new)))
    return rc
