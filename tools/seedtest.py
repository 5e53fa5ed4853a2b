"""seedtest.py [--no-check] [--tests-only] ID...   Confirms planted bugs in a
scratch copy of /repo (/tmp/seedwt) and shows which checks notice them.

seedtest.py --new ID: the working changes of /tmp/seedwt/repo become
seeded/ID/patch.diff."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwt"
R = W + "/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def setup():
    if not os.path.exists(R):
        os.makedirs(W, exist_ok=True)
        sh("git clone -q /repo " + R)
        shutil.copytree("/opt/vp", W + "/vp")
        sh("sed -i 's#/repo#%s#g; s#/opt/vp#%s/vp#g' %s/vp/*.sh %s/vp/*.py" % (R, W, W, W))
    h = sh("git -C /repo rev-parse HEAD").stdout.strip()
    sh("git -C %s fetch -q && git -C %s checkout -q -f %s" % (R, R, h))


def tests():
    r = sh("bash %s/vp/test.sh %s/o.json" % (W, W), timeout=600)
    o = json.load(open(W + "/o.json"))
    return len(o["passed"]) == 3 and not o["failed"], r.stdout


def main():
    args = sys.argv[1:]
    setup()
    if args[0] == "--list":
        return
    nocheck = "--no-check" in args
    extra = [a[8:] for a in args if a.startswith("--check=")]
    ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))
    for i in ids:
        d = V + "/seeded/" + i
        meta = json.load(open(d + "/meta.json"))
        sh("git -C %s checkout -q -f ." % R)
        demo = W + "/demo." + i
        shutil.rmtree(demo, ignore_errors=True)
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        msg = []
        if "--skip-clean" not in args:
            ok, _ = tests()
            r0 = subprocess.run(["bash", demo + "/demo.sh"], cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            msg.append("clean:%s/%s" % ("ok" if ok else "TESTS-FAIL", r0.returncode))
            if r0.returncode:
                print(r0.stdout[-1500:])
        a = sh("git -C %s apply %s/patch.diff" % (R, d))
        if a.returncode:
            print(i, "PATCH DOES NOT APPLY", a.stdout)
            continue
        ok, t = tests()
        if not ok:
            print(t[-1500:])
        r1 = subprocess.run(["bash", demo + "/demo.sh"], cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        msg.append("patched:%s/%s" % ("ok" if ok else "TESTS-FAIL", r1.returncode))
        if not nocheck:
            for p in [meta["property"]] + extra:
                e = dict(os.environ, VARIKN_REPO=R)
                c = subprocess.run([sys.executable, V + "/check.py", p], cwd=V, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                msg.append("%s:rc=%d" % (p, c.returncode))
                if c.returncode == 1:
                    print("\n".join(l[:300] for l in c.stdout.splitlines() if l.startswith("rejected"))[:900])
                elif c.returncode == 2:
                    print(c.stdout[-1500:])
        sh("git -C %s checkout -q -f ." % R)
        print(i, *msg, flush=True)


main()
