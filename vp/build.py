"""Builds instrumented variants of Nujel from /repo's current working tree.

A variant lives in /verif/.build/<variant>-<content hash>/ (git-ignored) and is a
scratch copy of the sources: /repo itself is never written to.
"""
import fcntl, hashlib, os, shutil, subprocess, sys

REPO = os.environ.get("VP_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, ".build")
SRC = ["lib", "bin", "stdlib", "binlib", "stdlib_modules", "bootstrap", "third-party", "mk",
       "tools", "GNUmakefile", "Makefile"]
WARN = 'WARNINGS=-Wall -Wno-missing-braces'

# ASan binaries need a big stack (deep C recursion is legitimate); the alignment and
# function-type groups are excluded: the image reader is built on unaligned loads and
# the VM's native call table relies on K&R style function pointers by design.
VARIANTS = {
    "plain": {},
    "asan": {"OPTIMIZATION": "-O1 -fsanitize=address -fno-omit-frame-pointer -DNUJEL_VERIFY_GC"},
    "gc": {"CFLAGS": "-g -D_GNU_SOURCE -DNUJEL_VERIFY_GC"},
}


class BuildError(Exception):
    pass


def _files():
    out = []
    for s in SRC:
        p = os.path.join(REPO, s)
        if os.path.isfile(p):
            out.append(s)
        for d, dn, fn in os.walk(p):
            dn.sort()
            for f in sorted(fn):
                if f.endswith((".o", ".d", ".wo", ".obj")) or f == "assets":
                    continue
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    return out


def tree_hash():
    h = hashlib.sha256()
    for f in _files():
        h.update(f.encode() + b"\0")
        with open(os.path.join(REPO, f), "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    with open(os.path.abspath(__file__), "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()[:16]


def build(variant="plain"):
    """Return the path of a future-nujel binary of that variant."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock-" + variant), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        key = tree_hash()
        dst = os.path.join(BUILD, "%s-%s" % (variant, key))
        exe = os.path.join(dst, "future-nujel")
        if os.path.exists(os.path.join(dst, "ok")):
            return exe
        # keep at most a few old builds around
        old = sorted((e for e in os.listdir(BUILD) if e.startswith(variant + "-")),
                     key=lambda e: os.path.getmtime(os.path.join(BUILD, e)))
        for e in old[:-2]:
            shutil.rmtree(os.path.join(BUILD, e), ignore_errors=True)
        shutil.rmtree(dst, ignore_errors=True)
        for f in _files():
            t = os.path.join(dst, f)
            os.makedirs(os.path.dirname(t), exist_ok=True)
            shutil.copyfile(os.path.join(REPO, f), t)
            shutil.copymode(os.path.join(REPO, f), t)
        opts = [WARN] + ["%s=%s" % kv for kv in VARIANTS[variant].items()]
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:halt_on_error=0", LC_ALL="C.UTF-8", HOME=dst)
        if variant == "asan":
            # The first stage only compiles the standard library: build it plain, so a
            # memory error in it is reported by the checks and not by the build.
            r = _make(dst, [WARN, "nujel", "tmp/image.c"], env)
            if r.returncode == 0:
                # keep time stamps ahead, so that the second stage is not rebuilt
                keep = os.path.join(dst, "tmp", "image.c")
                objs = [["-c", os.path.relpath(os.path.join(d, f), dst)] for top in ("lib", "bin")
                        for d, _, fs in sorted(os.walk(os.path.join(dst, top)))
                        for f in sorted(fs) if f.endswith(".c")]
                r = _asan(dst, objs, keep, VARIANTS[variant]["OPTIMIZATION"].split(), env)
        else:
            r = _make(dst, opts + ["nujel", "future-nujel"], env)
        if r.returncode != 0 or not os.path.exists(exe):
            sys.stderr.write((r.stdout or "")[-4000:])
            raise BuildError("building the %s variant failed" % variant)
        open(os.path.join(dst, "ok"), "w").close()
        return exe


def _make(dst, opts, env):
    return subprocess.run(["make", "-j8", "--eval=.DELETE_ON_ERROR:", "CC=gcc"] + opts, cwd=dst, env=env,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)


def _asan(dst, objs, image, flags, env):
    procs, outs = [], []
    for i, o in enumerate(objs + [["-c", image]]):
        out = os.path.join(dst, "asan-%d.o" % i)
        outs.append(out)
        procs.append(subprocess.Popen(["gcc", "-std=c99", "-g", "-D_GNU_SOURCE", "-w"] + flags + o + ["-o", out],
                                      cwd=dst, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    for p in procs:
        p.communicate()
    r = subprocess.run(["gcc"] + flags + outs + ["-lm", "-lrt", "-o", "future-nujel"], cwd=dst, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r


def preload(name):
    """Return the path of the shared object built from vp/<name>.c."""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(ROOT, "vp", name + ".c")
    with open(os.path.join(BUILD, "lock-" + name), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        with open(src, "rb") as fh:
            so = os.path.join(BUILD, "%s-%s.so" % (name, hashlib.sha256(fh.read()).hexdigest()[:16]))
        if not os.path.exists(so):
            r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-fno-builtin", src, "-o", so + ".new"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                sys.stderr.write(r.stdout)
                raise BuildError("building %s failed" % src)
            os.rename(so + ".new", so)
        return so


if __name__ == "__main__":
    for v in sys.argv[1:] or list(VARIANTS):
        print(build(v))
