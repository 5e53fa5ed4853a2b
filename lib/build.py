"""Build the tools and the library from /repo's current working tree, plus the
harness programs in /verif/harness, into /verif/.build/<hash> (git-ignored)."""
import glob, hashlib, os, shutil, subprocess, sys, sysconfig, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VARIKN_REPO", "/repo")
CXXFLAGS = "-O1 -g0 -DNDEBUG -std=gnu++11 -fPIC -w"
CFLAGS = "-O1 -g0 -DNDEBUG -fPIC -w"


class BuildError(Exception):
    pass


def _files():
    out = []
    for d in ("src", "app"):
        for ext in ("*.c", "*.cc", "*.hh", "*.h"):
            out += glob.glob(os.path.join(REPO, d, ext))
    out += glob.glob(os.path.join(VERIF, "harness", "*.cc"))
    out += glob.glob(os.path.join(VERIF, "harness", "*.hh"))
    out.append(os.path.abspath(__file__))
    return sorted(f for f in out if os.path.isfile(f))


def tree_hash(extra=""):
    h = hashlib.sha256(extra.encode())
    for f in _files():
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def build(san=False):
    """Returns the directory with the binaries (built if needed)."""
    cxx, c = CXXFLAGS, CFLAGS
    ld = ""
    if san:
        s = " -fsanitize=address -fno-omit-frame-pointer"
        cxx += s
        c += s
        ld = s
    key = tree_hash(cxx + ld)
    root = os.path.join(VERIF, ".build")
    os.makedirs(root, exist_ok=True)
    out = os.path.join(root, key)
    with open(os.path.join(root, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, "OK")):
            return out
        # keep the cache small: drop all but the three newest builds
        olds = sorted((d for d in glob.glob(os.path.join(root, "*"))
                       if os.path.isdir(d) and d != out),
                      key=os.path.getmtime)
        for d in olds[:-3]:
            shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        n = ["rule cxx", " command = g++ %s -I%s/src -MMD -MF $out.d -c $in -o $out" % (cxx, REPO),
             "rule cc", " command = gcc %s -I%s/src -c $in -o $out" % (c, REPO),
             "rule ar", " command = rm -f $out && ar rcs $out $in",
             "rule link", " command = g++ %s $in -o $out" % ld]
        objs = []
        for f in sorted(glob.glob(REPO + "/src/[!.]*.c")):
            o = "obj/%s.o" % os.path.basename(f)
            n.append("build %s: cc %s" % (o, f))
            objs.append(o)
        for f in sorted(glob.glob(REPO + "/src/[!.]*.cc")):
            o = "obj/%s.o" % os.path.basename(f)
            n.append("build %s: cxx %s" % (o, f))
            objs.append(o)
        n.append("build libvarikn.a: ar " + " ".join(objs))
        for f in sorted(glob.glob(REPO + "/app/*.cc")) + sorted(glob.glob(VERIF + "/harness/*.cc")):
            b = os.path.basename(f)[:-3]
            n.append("build obj/app_%s.o: cxx %s" % (b, f))
            n.append("build %s: link obj/app_%s.o libvarikn.a" % (b, b))
        with open(os.path.join(out, "build.ninja"), "w") as fh:
            fh.write("\n".join(n) + "\n")
        r = subprocess.run(["ninja", "-C", out, "-k", "0"], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        # a harness that no longer compiles spoils only the checks that use it
        lost = [f for f in glob.glob(REPO + "/app/*.cc")
                if not os.path.exists(os.path.join(out, os.path.basename(f)[:-3]))]
        if r.returncode != 0:
            with open(os.path.join(out, "build.log"), "w") as fh:
                fh.write(r.stdout)
            if lost:
                raise BuildError(r.stdout[-6000:])
        shutil.rmtree(os.path.join(out, "obj"), ignore_errors=True)
        open(os.path.join(out, "OK"), "w").close()
    return out



def build_python():
    """The Python module, made from the interface file with SWIG."""
    out = build()
    key = hashlib.sha256()
    for f in ("python-wrapper/VariKN.i", "python-wrapper/varikn/__init__.py"):
        with open(os.path.join(REPO, f), "rb") as fh:
            key.update(fh.read())
    d = os.path.join(out, "py." + key.hexdigest()[:12])
    with open(os.path.join(VERIF, ".build", "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(d + "/OK"):
            return d
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + "/varikn")
        shutil.copy(REPO + "/python-wrapper/varikn/__init__.py", d + "/varikn")
        r = subprocess.run(
            "swig -c++ -python -DPYTHON3 -interface _varikn -I%(r)s/src -outdir %(d)s/varikn -o %(d)s/wrap.cxx %(r)s/python-wrapper/VariKN.i && "
            "g++ %(f)s -O0 -I%(r)s/src -I%(i)s -shared %(d)s/wrap.cxx %(o)s/libvarikn.a -o %(d)s/varikn/_varikn.so"
            % {"r": REPO, "d": d, "o": out, "f": CXXFLAGS, "i": sysconfig.get_paths()["include"]},
            shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError("no Python module: " + r.stdout[-4000:])
        os.remove(d + "/wrap.cxx")
        open(d + "/OK", "w").close()
    return d


if __name__ == "__main__":
    print(build("san" in sys.argv))
