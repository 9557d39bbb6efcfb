"""Choice-sequence generators, batched execution, shrinking, replay and evidence."""
import concurrent.futures as cf
import hashlib, json, os, random, shutil, signal, subprocess, sys, tempfile, time

from . import build
from .values import decode, DecodeError

ROOT = build.ROOT
PRELUDE = os.path.join(ROOT, "vp", "prelude.nuj")


class StopGen(Exception):
    pass


class Choices:
    """A recorded sequence of bounded integers: everything generated derives from it, so
    that shrinking the sequence shrinks every kind of case."""

    def __init__(self, rng=None, prefix=None, limit=20000):
        self.rng, self.prefix, self.limit = rng, prefix, limit
        self.seq = []

    def draw(self, n):
        """An integer in 0..n."""
        if len(self.seq) >= self.limit:
            raise StopGen()
        i = len(self.seq)
        if self.prefix is not None:
            v = self.prefix[i] if i < len(self.prefix) else 0
            v = min(v, n)
        else:
            v = self.rng.randint(0, n)
        self.seq.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.draw(hi - lo)

    def bool(self, num=1, den=2):
        return self.draw(den - 1) >= den - num

    def pick(self, seq):
        return seq[self.draw(len(seq) - 1)]

    def weighted(self, pairs):
        """pairs: (weight, value); earlier values are the simpler ones."""
        total = sum(w for w, _ in pairs)
        r = self.draw(total - 1)
        for w, v in pairs:
            if r < w:
                return v
            r -= w

    def list(self, f, lo, hi):
        n = self.int(lo, hi)
        return [f() for _ in range(n)]

    def shuffle(self, xs):
        xs = list(xs)
        for i in range(len(xs) - 1, 0, -1):
            j = i - self.draw(i)
            xs[i], xs[j] = xs[j], xs[i]
        return xs


class Outcome:
    __slots__ = ("kind", "value", "raw", "detail", "text", "err", "fs", "talks", "hosts")

    def __init__(self, kind, value=None, raw="", detail="", text=b""):
        self.kind, self.value, self.raw, self.detail, self.text = kind, value, raw, detail, text

    def __repr__(self):
        if self.kind in ("ok", "exc"):
            return "%s %.600r" % (self.kind, self.value)
        return "%s %.1500s" % (self.kind, self.detail)

    def exc_type(self):
        """Name of the exception's type (a keyword), or None."""
        if self.kind != "exc":
            return None
        v = self.value
        if isinstance(v, list) and v:
            v = v[0]
        return bytes(v).decode("latin1") if isinstance(v, bytes) else repr(v)


def _limits(mem_mb, variant, stack_mb=512, extra=()):
    pre = ["prlimit", "--core=0", "--stack=%d" % (stack_mb << 20)]
    pre += list(extra) if extra else ["--fsize=%d" % (256 << 20)]
    if variant != "asan":
        pre.append("--as=%d" % (mem_mb << 20))
    return pre


ASAN = ("detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
        "max_allocation_size_mb=2048:detect_stack_use_after_return=0:hard_rss_limit_mb=6000")


def spawn(exe, script, args=(), env=None, cwd=None, timeout=60, stdin=b"", variant="plain", mem_mb=4000, stack_mb=512,
          limits=(), pre=None, idle=None):
    """Run one interpreter; returns (returncode or 'timeout', stdout, stderr).

    idle: how long it may go without writing anything."""
    e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C.UTF-8", "HOME": cwd or "/nonexistent",
         "ASAN_OPTIONS": ASAN, "MALLOC_PERTURB_": "165"}     # fresh and freed memory is not zero by chance
    e.update(env or {})
    cmd = _limits(mem_mb, variant, stack_mb, limits) + [exe] + ([script] if script else []) + list(args)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, start_new_session=True, preexec_fn=pre)
    end, seen = time.time() + timeout, -1
    while True:
        left = end - time.time()
        try:
            out, err = p.communicate(stdin, timeout=max(0, min(left, idle or left)))
            return p.returncode, out, err
        except subprocess.TimeoutExpired as ex:
            n = len(ex.output or b"")
            if idle and n > seen and time.time() < end:
                seen = n
                continue
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return "timeout", out, err


class Sandbox:
    """A scratch directory removed afterwards."""
    def __enter__(self):
        base = os.path.join(ROOT, ".build", "tmp")
        os.makedirs(base, exist_ok=True)
        self.path = tempfile.mkdtemp(prefix="run-", dir=base)
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def _parse(out):
    """Yield marker lines: (kind, index, payload), plus the text printed by each case."""
    got, text, cur, pos = {}, {}, None, 0
    while True:
        i = out.find(b"\n\x02", pos)
        if i < 0:
            if cur is not None:
                text[cur] = text.get(cur, b"") + out[pos:]
            break
        if cur is not None:
            text[cur] = text.get(cur, b"") + out[pos:i]
        j = out.find(b"\x03\n", i)
        if j < 0:
            break
        line = out[i + 2:j].decode("latin1")
        kind, idx, payload = line[0], int(line[1:17], 16), line[18:]
        got.setdefault(idx, {})[kind] = payload
        cur = idx if kind == "S" else None
        pos = j + 2
    return got, text


def run_texts(texts, variant="plain", env=None, per_case=5.0, base=20.0, setup="", stdin=b"", mem_mb=4000, gc=None, stack_mb=512):
    """Evaluate each text (str, latin-1) in a fresh environment, several per process.

    gc: per text, the GC schedules (hook variants only) while compiling and running it.

    A process that dies or hangs is charged to the case that was running; the
    remaining ones are run in a new process."""
    exe = build.build(variant)
    with open(PRELUDE) as fh:
        prelude = fh.read()
    res = [None] * len(texts)
    todo = list(range(len(texts)))
    deaths = 0
    while todo:
        if deaths >= 12:
            # enough has been seen: do not spend the time budget on more of it
            for i in todo:
                res[i] = Outcome("skipped")
            break
        with Sandbox() as d:
            blob, offs = b"", []
            for i in todo:
                b = texts[i].encode("latin1")
                offs.append((i, len(blob), len(blob) + len(b)))
                blob += b
            with open(os.path.join(d, "cases.bin"), "wb") as fh:
                fh.write(blob)
            with open(os.path.join(d, "main.nuj"), "w", encoding="latin1") as fh:
                fh.write(prelude)
                fh.write(setup)
                fh.write('\n(def vp/src (slurp "cases.bin"))\n(def vp/todo \'(%s))\n' % " ".join(
                    "(%d %d %d%s)" % (o + (" %d %d" % gc[o[0]] if gc else "",)) for o in offs))
                fh.write("(while vp/todo (def vp/c0 (car vp/todo)) (set! vp/todo (cdr vp/todo))"
                         " (vp/run (car vp/c0) (:cut vp/src (cadr vp/c0) (caddr vp/c0)) (cadddr vp/c0) (car (cddddr vp/c0))))\n(exit 0)\n")
            rc, out, err = spawn(exe, "./main.nuj", env=env, cwd=d, timeout=base + per_case * min(len(todo), 12), idle=base + 2 * per_case,
                                 variant=variant, stdin=stdin, mem_mb=mem_mb, stack_mb=stack_mb)
        got, text = _parse(out)
        nxt = None
        for n, i in enumerate(todo):
            g = got.get(i, {})
            if "R" in g or "X" in g:
                k = "R" if "R" in g else "X"
                try:
                    res[i] = Outcome("ok" if k == "R" else "exc", decode(g[k]), g[k], text=text.get(i, b""))
                except (DecodeError, IndexError, ValueError) as ex:
                    res[i] = Outcome("garbled", detail="%s: %.300s" % (ex, g[k]))
            elif "Y" in g:
                res[i] = Outcome("garbled", detail="result cannot be serialised: %.500s" % g["Y"])
            elif "S" in g:
                detail = "rc=%s\n%s" % (rc, err.decode("latin1", "replace")[:3000])
                kind = "timeout" if rc == "timeout" else "exit" if rc in (0, 123) else "crash"
                res[i] = Outcome(kind, value=rc, detail=detail, text=text.get(i, b""))
                nxt = todo[n + 1:]
                break
            else:
                # never started
                if n == 0:
                    res[i] = Outcome("nostart", value=rc, detail="rc=%s\n%s\n%s" % (
                        rc, err.decode("latin1", "replace")[:3000], out.decode("latin1", "replace")[-800:]))
                    nxt = todo[1:]
                else:
                    # the previous case finished but took the process down afterwards
                    p = todo[n - 1]
                    res[p] = Outcome("crash", value=rc, detail="died after the case: rc=%s\n%s" % (
                        rc, err.decode("latin1", "replace")[:3000]))
                    nxt = todo[n:]
                break
        if nxt is None:
            if rc != 0:
                p = todo[-1]
                if res[p].kind in ("ok", "exc"):
                    res[p] = Outcome("crash", value=rc, detail="died after the case: rc=%s\n%s" % (
                        rc, err.decode("latin1", "replace")[:3000]))
            nxt = []
        if nxt:
            deaths += 6 if rc == "timeout" else 1
        todo = nxt
    return res


def snapshot(top):
    """Relative path -> content, or None for a directory."""
    got = {}
    top = os.fsencode(top)
    for base, dirs, files in os.walk(top):
        for n in dirs:
            got[os.path.relpath(os.path.join(base, n), top)] = None
        for n in files:
            p = os.path.join(base, n)
            if os.path.isfile(p) and os.stat(p).st_size < 1 << 26:
                with open(p, "rb") as fh:
                    got[os.path.relpath(p, top)] = fh.read()
    return got


def run_alone(text, variant="plain", setup="", files=None, timeout=60, stdin=b"", limits=(), pre=None, mem_mb=4000, make=None):
    """Evaluate one text in a process and scratch directory of its own.

    files: what the directory holds beforehand (path -> bytes, or None for a directory); make: called with the directory to add to it.
    The outcome also has what was written to stdout and stderr, and what the directory held afterwards."""
    exe = build.build(variant)
    with open(PRELUDE) as fh:
        prelude = fh.read()
    with Sandbox() as d:
        w = os.path.join(d, "w")
        os.mkdir(w)
        for n, b in (files or {}).items():
            p = os.path.join(os.fsencode(w), n)
            if b is None:
                os.mkdir(p)
            else:
                with open(p, "wb") as fh:
                    fh.write(b)
        if make:
            make(os.fsencode(w))
        with open(os.path.join(d, "cases.bin"), "wb") as fh:
            fh.write(text.encode("latin1"))
        with open(os.path.join(d, "main.nuj"), "w", encoding="latin1") as fh:
            fh.write(prelude)
            fh.write(setup)
            fh.write('\n(def vp/src (slurp "cases.bin")) (cd "w")\n(vp/run 0 vp/src #nil #nil) (exit 0)\n')
        rc, out, err = spawn(exe, "./main.nuj", cwd=d, timeout=timeout, variant=variant, stdin=stdin, mem_mb=mem_mb,
                             limits=limits, pre=pre)
        fs = snapshot(w)
    got, text = _parse(out)
    g = got.get(0, {})
    detail = "rc=%s\n%s" % (rc, err.decode("latin1", "replace")[:3000])
    if rc != 0:
        o = Outcome("timeout" if rc == "timeout" else "exit" if rc == 123 else "crash" if "S" in g else "nostart", value=rc, detail=detail)
    elif "R" in g or "X" in g:
        k = "R" if "R" in g else "X"
        try:
            o = Outcome("ok" if k == "R" else "exc", decode(g[k]), g[k])
        except (DecodeError, IndexError, ValueError) as ex:
            o = Outcome("garbled", detail="%s: %.300s" % (ex, g[k]))
    else:
        o = Outcome("garbled", detail="no result: %s\n%.500r" % (detail, out[-500:]))
    o.text, o.err, o.fs = text.get(0, b""), err, fs
    return o


class Prop:
    """One checkable property. Subclasses define gen/texts/judge (or override execute)."""
    id = None
    variant = "plain"
    env = {}
    setup = ""
    batch = 100
    per_case = 5.0
    mem_mb = 4000
    stack_mb = 512
    rule = ""
    technique = ""
    assumptions = ()
    quick_cases = 2000
    thorough_factor = 400

    def gen(self, c):
        """Return a case: a dict with at least 'text' (or 'texts')."""
        raise NotImplementedError

    def texts(self, case):
        return case["texts"] if "texts" in case else [case["text"]]

    def judge(self, case, outs):
        """None if the property held, otherwise a description of the violation."""
        raise NotImplementedError

    def nontrivial(self, case, outs):
        return True

    def tags(self, case, outs):
        return case.get("tags", ())

    def key(self, case):
        return "\0".join(self.texts(case))

    def variants(self):
        return [self.variant]

    def execute(self, cases):
        """Return, per case, the list of outcomes of its texts."""
        flat, spans = [], []
        for c in cases:
            t = self.texts(c)
            spans.append((len(flat), len(flat) + len(t)))
            flat += t
        outs = run_texts(flat, self.variant, self.env, self.per_case, setup=self.setup, mem_mb=self.mem_mb, stack_mb=self.stack_mb)
        return [outs[a:b] for a, b in spans]

    def show(self, case):
        return "\n".join(self.texts(case))

    def known(self, case, outs, msg):
        """Identifier of the listed known finding this failure is, or None."""
        return None


BAD = ("crash", "timeout", "garbled", "nostart", "exit")


def health(outs):
    """A generic violation: the interpreter must not die, hang or produce garbage."""
    for o in outs:
        if o.kind in BAD:
            return "interpreter %s: %s" % (o.kind, o.detail)
    return None


def generate(prop, seed):
    for attempt in range(50):
        c = Choices(random.Random("%s/%s/%d" % (prop.id, seed, attempt)))
        try:
            case = prop.gen(c)
        except StopGen:
            continue
        if case is not None:
            return c.seq, case
    return None, None


def _chunk(args):
    """Worker: generate, run and judge a range of case seeds."""
    modname, idx, seed, start, count = args
    prop = load(modname)[idx]
    t0 = time.time()
    seqs, cases = [], []
    for n in range(start, start + count):
        s, case = generate(prop, "%s/%d" % (seed, n))
        if case is not None:
            seqs.append(s)
            cases.append(case)
    outs = prop.execute(cases)
    fails, keys, tags, samples, known, texts = [], [], {}, [], [], 0
    for s, case, o in zip(seqs, cases, outs):
        if any(x.kind == "skipped" for x in o):
            continue
        texts += len(o)
        msg = prop.judge(case, o)
        if msg:
            k = prop.known(case, o, msg)
            if k:
                known.append(k)
            else:
                fails.append((s, msg))
        if prop.nontrivial(case, o):
            keys.append(hashlib.md5(prop.key(case).encode("latin1", "replace")).hexdigest()[:12])
            if len(samples) < 2:
                samples.append(prop.show(case)[:600])
        for t in prop.tags(case, o):
            tags[t] = tags.get(t, 0) + 1
        for x in o:
            t = "outcome:" + x.kind
            tags[t] = tags.get(t, 0) + 1
    return {"n": len(cases), "texts": texts, "fails": fails, "keys": keys, "tags": tags,
            "samples": samples, "known": known, "wall": time.time() - t0}


_cache = {}


def load(modname):
    if modname not in _cache:
        import importlib
        _cache[modname] = importlib.import_module(modname).PROPS
    return _cache[modname]


def check_one(prop, seq):
    """Re-run one choice sequence; returns (message, case, actual seq)."""
    c = Choices(prefix=list(seq))
    try:
        case = prop.gen(c)
    except StopGen:
        return None, None, None
    if case is None:
        return None, None, None
    outs = prop.execute([case])[0]
    msg = prop.judge(case, outs)
    if msg and prop.known(case, outs, msg):
        msg = None
    return msg, case, c.seq


def shrink(prop, seq, budget=60.0):
    """Delete chunks, then lower values, keeping the failure."""
    end = time.time() + budget
    best = list(seq)
    cache = {}

    def fails(s):
        if time.time() > end:
            return False
        k = tuple(s)
        if k not in cache:
            try:
                msg, case, real = check_one(prop, s)
            except Exception:
                msg = None
            cache[k] = bool(msg)
        return cache[k]

    def pool_first(cands):
        """First failing candidate (evaluated in parallel, chosen in order)."""
        if not cands or time.time() > end:
            return None
        with cf.ThreadPoolExecutor(8) as ex:
            for s, ok in zip(cands, ex.map(fails, cands)):
                if ok:
                    return s
        return None

    improved = True
    while improved and time.time() < end:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < end:
            i = 0
            while i < len(best) and time.time() < end:
                cands = []
                for j in range(8):
                    a = i + j * size
                    if a < len(best):
                        cands.append(best[:a] + best[a + size:])
                s = pool_first(cands)
                if s is not None and len(s) < len(best):
                    best = s
                    improved = True
                else:
                    i += 8 * size
            size //= 2
        # lower values
        i = 0
        while i < len(best) and time.time() < end:
            cands = []
            for j in range(i, min(i + 4, len(best))):
                v = best[j]
                for w in sorted({0, v // 2, v - 1}):
                    if 0 <= w < v:
                        cands.append(best[:j] + [w] + best[j + 1:])
            s = pool_first(cands)
            if s is not None:
                best = s
                improved = True
            else:
                i += 4
        while best and best[-1] == 0:
            best.pop()
    return best


def known_findings():
    p = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(p):
        with open(p) as fh:
            for line in fh:
                line = line.strip()
                if line.startswith("known: "):
                    f = dict(x.split("=", 1) for x in line[7:].split(" ", 2)[:2])
                    out.append((f["property"], f["id"], line[7:].split(" ", 2)[2]))
    return out


EXTRA = int(os.environ.get("VERIF_EXTRA", "12"))              # a quick run is repeated with other cases this often,
EXTRA_TIME = float(os.environ.get("VERIF_EXTRA_TIME", "15"))   # or for this many seconds


def run_check(pid, modname, tier=None):
    """Entry point of a check; returns the exit code."""
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    props = [(i, p) for i, p in enumerate(load(modname)) if p.id.split(".")[0] == pid]
    try:
        for _, p in props:
            for v in p.variants():
                build.build(v)
    except build.BuildError as ex:
        print("BUILD-FAILED: %s" % ex)
        return 2
    budget = 240.0 if tier == "quick" else float(os.environ.get("VERIF_BUDGET", "600"))
    ev = {"evaluations": 0, "distinct": set(), "tags": {}, "samples": [], "sub": {}}
    violations, known_hit = [], {}
    workers = int(os.environ.get("VERIF_JOBS", "8"))
    # a few large strides: cheap, balanced across cores
    jobs = []
    for i, p in props:
        n = p.quick_cases * (1 if tier == "quick" else p.thorough_factor)
        for s in range(0, n, p.batch):
            jobs.append((modname, i, seed, s, min(p.batch, n - s)))
    # interleave sub-properties so that a time cut-off hits all of them alike
    by = {}
    for j in jobs:
        by.setdefault(j[1], []).append(j)
    order = []
    while any(by.values()):
        for k in list(by):
            if by[k]:
                order.append(by[k].pop(0))
    planned, done = len(order), 0
    if tier == "quick":
        # more of the same, for checks that are through quickly
        size = {i: p.quick_cases for i, p in props}
        order += [(m, i, sd, s + r * size[i], n) for r in range(1, EXTRA) for m, i, sd, s, n in order[:planned]]
    t1, sent = time.time(), 0
    fails = []
    failed_jobs = []
    with cf.ProcessPoolExecutor(workers) as ex:
        pending, it = set(), iter(order)
        stop = False
        while True:
            while not stop and len(pending) < workers * 2:
                j = next(it, None)
                if j is None:
                    break
                if time.time() - t0 > budget or tier == "quick" and sent >= planned and time.time() - t1 > EXTRA_TIME:
                    stop = True
                    break
                sent += 1
                f = ex.submit(_chunk, j)
                f.job = j
                pending.add(f)
            if not pending:
                break
            got, pending = cf.wait(pending, return_when=cf.FIRST_COMPLETED)
            for f in got:
                r = f.result()
                done += 1
                p = dict(props)[f.job[1]]
                ev["evaluations"] += r["n"]
                ev["distinct"].update("%s:%s" % (p.id, k) for k in r["keys"])
                sub = ev["sub"].setdefault(p.id, {"cases": 0, "programs": 0, "nontrivial": 0, "rule": p.rule})
                sub["cases"] += r["n"]
                sub["programs"] += r["texts"]
                sub["nontrivial"] += len(r["keys"])
                for t, n in r["tags"].items():
                    ev["tags"]["%s %s" % (p.id, t)] = ev["tags"].get("%s %s" % (p.id, t), 0) + n
                if sum(1 for s in ev["samples"] if s["part"] == p.id) < 4:
                    ev["samples"] += [{"part": p.id, "case": s} for s in r["samples"][:2]]
                for k in r["known"]:
                    known_hit[k] = known_hit.get(k, 0) + 1
                for s, msg in r["fails"]:
                    fails.append((f.job[1], s, msg))
                    failed_jobs.append(f.job)
            if len(fails) >= 3:
                stop = True
                for f in list(pending):
                    if f.cancel():
                        pending.discard(f)
    # confirm and shrink
    flaky = 0
    for i, s, msg in sorted(fails, key=lambda x: len(x[1]))[:6]:
        p = dict(props)[i]
        again = 0
        for _ in range(3):
            m, _, _ = check_one(p, s)
            again += bool(m)
        if again == 0 and not getattr(p, "nondeterministic", False):
            # depends on the company it ran in: replay the same batch
            flaky += 1
            continue
        small = shrink(p, s, 45.0 if tier == "quick" else 120.0)
        m, case, real = check_one(p, small)
        if not m:
            small = s
            m, case, real = check_one(p, s)
        m = m or msg
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (pid, hashlib.md5(repr((p.id, small)).encode()).hexdigest()[:10]))
        with open(path, "w") as fh:
            json.dump({"property": pid, "part": p.id, "module": modname, "choices": small, "message": m[:4000],
                       "case": p.show(case)[:20000] if case else None,
                       "how": "python3 %s %s" % (os.path.join(ROOT, "replay.py"), path)}, fh, indent=1)
        violations.append((path, p.id, m, p.show(case) if case else ""))
        break
    if flaky and not violations:
        # failures that only occur in the company of other cases: report the whole batch
        i, s, msg = fails[0]
        p = dict(props)[i]
        bad = []
        for j in dict.fromkeys(failed_jobs):
            if j[1] != i:
                continue
            r = _chunk(j)
            if r["fails"]:
                bad = [j, r["fails"][0][1]]
                break
            if time.time() - t0 > budget + 200:
                break
        if bad:
            d = os.path.join(ROOT, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-batch.json" % pid)
            with open(path, "w") as fh:
                json.dump({"property": pid, "part": p.id, "module": modname, "job": list(bad[0]),
                           "message": bad[1][:4000]}, fh, indent=1)
            violations.append((path, p.id, "only together with other cases: " + bad[1], ""))
    listed = [k for k in known_findings() if k[0] == pid]
    for prop_id, kid, desc in listed:
        print("KNOWN-FINDING: property=%s %s (%s; hit %d times in this run)" % (pid, desc, kid, known_hit.get(kid, 0)))
    for path, part, m, text in violations:
        print("part %s: %s" % (part, m[:1500]))
        if text:
            print("minimal case:\n%s" % text[:2000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev["evaluations"],
            "distinct_nontrivial": len(ev["distinct"]),
            "rule": "; ".join("%s: %s" % (p.id, p.rule) for _, p in props),
            "samples": [s["case"] for s in ev["samples"][:12]] or ["(none)"],
            "parts": ev["sub"], "histogram": dict(sorted(ev["tags"].items())),
            "batches_planned": planned, "batches_run": done, "unreproducible_failures": flaky,
            "known_findings_hit": known_hit,
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": sorted({a for _, p in props for a in p.assumptions}),
        "violations": len(violations),
    }
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as fh:
        json.dump(evidence, fh, indent=1)
    print("%s %s: %d cases, %d distinct non-trivial, %.1fs, %s" % (
        pid, tier, ev["evaluations"], len(ev["distinct"]), time.time() - t0,
        "VIOLATED" if violations else "held"))
    return 1 if violations else 0
