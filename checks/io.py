"""Files and ports against a model of the file system, each history in a scratch directory and process of its own."""
import errno, functools, os, re, signal, time
import concurrent.futures as cf

from vp import gens
from vp.core import Prop, Sandbox, health, run_alone
from vp.session import SETUP, Any, AnyOrRaise, Raises, Session, SessionProp
from vp.values import Arr, Buf, Kw, Pair, expr

PAT = """
(def vp/root "")
(defn vp/here () (:cut (cwd) (:length vp/root)))
(defn vp/pat (seed n)
      (def b (buffer/allocate n))
      (def i 0)
      (while (< i n)
             (set! b i (bit-and (+ seed (* i 7) (bit-shift-right i 8)) 255))
             (set! i (inc/int i)))
      b)
(defn vp/sum (b)
      ; position dependent checksum, for contents too long to be compared in full
      (def i 0)
      (def s 7)
      (def n (:length b))
      (while (< i n)
             (set! s (bit-and (+ (* s 31) (ref b i)) #xFFFFFFFF))
             (set! i (inc/int i)))
      s)
(defn vp/obs (b)
      (cond ((not b) b)
            ((< (:length b) 600) b)
            (#t (list :long (:length b) (vp/sum b)))))
"""


def pat(seed, n):
    return bytes((seed + i * 7 + (i >> 8)) & 255 for i in range(n))


def vsum(b):
    s = 7
    for x in b:
        s = (s * 31 + x) & 0xFFFFFFFF
    return s


def obs(b, kind=bytes):
    """What (vp/obs b) returns."""
    if b is None:
        return None
    if len(b) < 600:
        return kind(b)
    return [Kw(b"long"), len(b), vsum(b)]


def content(c, big=True):
    """(bytes, expression for it as a buffer, as a string)"""
    k = c.weighted([(5, 0), (3, 1), (2, 2)])
    if k == 0 or not big:
        b = gens.bytestr(c, 20, nul=True)
        return b, expr(Buf(b)), expr(b)
    if k == 1:
        n = c.pick([0, 1, 15, 16, 17, 100, 127, 128, 129, 500])
    else:
        n = c.pick([4094, 4095, 4096, 4097, 8191, 8192, 8193, 5000, 12288, 20000])
    seed = c.draw(255)
    e = "(vp/pat %d %d)" % (seed, n)
    return pat(seed, n), e, "(buffer->string %s)" % e


VIEWS = [("u8", 1), ("s8", 1), ("u16", 2), ("s16", 2), ("u32", 4), ("s32", 4), ("s64", 8), ("f32", 4), ("f64", 8)]


class AloneProp(SessionProp):
    """Each case in its own process."""
    batch = 16
    setup = SETUP + PAT
    timeout = 40

    def limits(self, case):
        return ()

    def pre(self, case):
        return None

    def make(self, case):
        return None

    def execute(self, cases):
        def one(c):
            return [run_alone(self.texts(c)[0], self.variant, self.setup, files=c.get("files"), stdin=c.get("stdin", b""),
                              timeout=self.timeout, limits=self.limits(c), pre=self.pre(c), make=self.make(c))]
        return [one(c) for c in cases]


class Inode:
    def __init__(self, data=b""):
        self.data = bytearray(data)
        self.ver = 0


class Dir(dict):
    pass


class Handle:
    def __init__(self, node, mode):
        self.node, self.mode, self.pos, self.eof, self.closed, self.dirty = node, mode, 0, False, False, False
        self.ver = node.ver if node else 0
        self.moved = mode != "a"


class Disk:
    def __init__(self):
        self.root = Dir()
        self.cwd = []            # names below root

    def walk(self, path):
        """(parent directory, name) or an errno; the name may not exist."""
        if path == b"":
            return errno.ENOENT
        cur, at = self.root, []
        for n in self.cwd:
            cur = cur[n]
        at = list(self.cwd)
        parts = [p for p in path.split(b"/")]
        for i, p in enumerate(parts):
            last = i == len(parts) - 1
            if p == b"..":
                assert at, path
                at.pop()
                cur = self.root
                for n in at:
                    cur = cur[n]
            elif p in (b".", b""):
                pass
            elif last:
                if len(p) > 255:
                    return errno.ENAMETOOLONG
                return cur, p
            else:
                if len(p) > 255:
                    return errno.ENAMETOOLONG
                if p not in cur:
                    return errno.ENOENT
                cur = cur[p]
                if not isinstance(cur, Dir):
                    return errno.ENOTDIR
                at.append(p)
        return cur, None

    def get(self, path):
        """Node, or an errno."""
        r = self.walk(path)
        if isinstance(r, int):
            return r
        d, n = r
        if n is None:
            return d
        return d.get(n, errno.ENOENT)

    def flat(self):
        out = {}

        def go(d, pre):
            for n, x in d.items():
                p = pre + n
                if isinstance(x, Dir):
                    out[p] = None
                    go(x, p + b"/")
                else:
                    out[p] = bytes(x.data)
        go(self.root, b"")
        return out


NAMES = [b"a", b"b.txt", b"c", b".h", b"sp ace", b"\xc3\xa9\n\x01", b"d", b"e", b"n" * 255, b"%s*$(x)`;", b"..x", b"...", b"..h."]


def path(c, disk):
    k = c.weighted([(8, 0), (4, 1), (1, 2), (1, 3), (1, 4)])
    dirs = [p for p, x in disk.flat().items() if x is None and p.count(b"/") < 3]
    here = b"/".join(disk.cwd)
    n = c.pick(NAMES)
    if k == 0:
        return n
    if k == 1 and dirs:
        d = c.pick(sorted(dirs))
        # from wherever we are
        up = b"../" * len(disk.cwd)
        return up + d + b"/" + n
    if k == 2:
        return b"./" + n
    if k == 3 and dirs and not disk.cwd:
        d = c.pick(sorted(dirs))
        return d + b"/../" * (d.count(b"/") + 1) + n if d.count(b"/") == 0 else n
    if k == 4:
        return c.pick([b"missing/x", b"", b"m" * 256, b"a/x", b"b.txt/c"])
    return n


class Files(AloneProp):
    id = "P30.files"
    quick_cases = 400
    rule = "a case counts when at least three operations changed a file or directory and two reported contents"

    def gen(self, c):
        s = Session()
        disk = Disk()
        hs = {}
        changed = seen = 0
        s.do("(set! vp/root (cwd))")
        for i in range(6):
            s.do("(def h%d #nil)" % i)

        def writer(node):
            """Whether somebody else writing to NODE would get mixed up with what a handle does: not when that one only ever appends
            and has nothing left to write."""
            return any(h.node is node and not h.closed and (h.mode == "w" or h.dirty) for h in hs.values())

        def dirty(node):
            return any(h.node is node and not h.closed and h.dirty for h in hs.values())

        def store(p, data):
            """Replace the content of the file at P; the inode, or None."""
            r = disk.walk(p)
            if isinstance(r, int) or r[1] is None or isinstance(r[0].get(r[1]), Dir):
                return None
            d, n = r
            if n not in d:
                d[n] = Inode()
            d[n].data = bytearray(data)
            d[n].ver += 1
            return d[n]

        def readable(p):
            x = disk.get(p)
            return bytes(x.data) if isinstance(x, Inode) else None

        for turn in range(c.int(3, 60)):
            op = c.weighted([(3, "spit"), (2, "mkdir")]) if turn < 5 else c.weighted([(6, "spit"), (5, "slurp"), (3, "mkdir"), (2, "rmdir"), (3, "rm"), (3, "ls"), (2, "cd"), (4, "stat"), (2, "copy"),
                             (6, "open"), (8, "write"), (8, "read"), (4, "seek"), (3, "tell"), (3, "eof"), (3, "flush"), (4, "close"), (1, "bad"),
                             (1, "nul"), (1, "popen"), (1, "recursive"), (1, "single"), (1, "load"), (1, "shared")])
            p = path(c, disk)
            e = expr(p)
            node = disk.get(p)
            if op == "spit":
                b, eb, es = content(c)
                if isinstance(node, Inode) and writer(node):
                    continue
                how = c.draw(2)
                ok = store(p, b) is not None
                src = ["(spit %s %s)" % (e, es), "(spit %s %s)" % (e, eb), "(file/write %s %s)" % (es, e)][how]
                s.step(src, ok)
                changed += ok
            elif op == "slurp":
                if isinstance(node, Inode) and dirty(node):
                    continue
                how = c.draw(3)
                d = readable(p)
                fn = ["slurp", "slurp/buffer", "file/read", "file/read/buffer"][how]
                s.step("(vp/obs (%s %s))" % (fn, e), obs(d, Buf if "buffer" in fn else bytes))
                seen += d is not None
            elif op == "mkdir":
                r = disk.walk(p)
                ok = not isinstance(r, int) and r[1] is not None and r[1] not in r[0] and len(p) < 2000
                if ok:
                    r[0][r[1]] = Dir()
                    changed += 1
                s.step("(mkdir %s)" % e, ok)
            elif op == "rmdir":
                r = disk.walk(p)
                ok = not isinstance(r, int) and r[1] is not None and isinstance(r[0].get(r[1]), Dir) and not r[0][r[1]]
                if ok and (p.endswith(b".") or self.inside(disk, r[0][r[1]])):
                    continue
                if ok:
                    del r[0][r[1]]
                    changed += 1
                s.step("(rmdir %s)" % e, ok)
            elif op == "rm":
                r = disk.walk(p)
                if not isinstance(r, int) and r[1] is not None and isinstance(r[0].get(r[1]), Inode):
                    del r[0][r[1]]
                    changed += 1
                s.step("(rm %s)" % e, p)
            elif op == "ls":
                hidden = c.bool()
                if c.bool(1, 4):
                    e, node = "", self.cur(disk)
                    if hidden:
                        e, p = '"."', b"."
                want = sorted(n for n in node if hidden or not n.startswith(b".")) if isinstance(node, Dir) else []
                rel = c.bool(1, 4) and e
                if rel:
                    want = sorted(p + b"/" + n for n in node if not n.startswith(b".")) if isinstance(node, Dir) else []
                    s.step("(directory/read-relative %s)" % e, lambda got, want=want: sorted(got or []) == want)
                else:
                    s.step("(ls %s%s)" % (e, " #t" if hidden else ""), lambda got, want=want: sorted(got or []) == want)
                seen += isinstance(node, Dir)
            elif op == "cd":
                dirs = [q for q, x in disk.flat().items() if x is None]
                up = b"../" * len(disk.cwd)
                if c.bool() or not dirs:
                    if disk.cwd:
                        disk.cwd = []
                        s.step("(cd %s)" % expr(up), True)
                    elif isinstance(node, int) or isinstance(node, Inode):
                        s.step("(cd %s)" % e, False)
                else:
                    d = c.pick(sorted(dirs))
                    s.step("(cd %s)" % expr(up + d), True)
                    disk.cwd = d.split(b"/")
                s.step("(vp/here)", b"".join(b"/" + n for n in disk.cwd))
            elif op == "stat":
                k = c.draw(3)
                if k == 0:
                    s.step("(list (file/file? %s) (file/dir? %s))" % (e, e),
                           lambda got, node=node: [bool(x) for x in got] == [isinstance(node, Inode), isinstance(node, Dir)])
                elif isinstance(node, int):
                    s.step("(let ((s (file/stat %s))) (list (ref s :error?) (ref s :error-number) (ref s :error-text) (ref s :size)))" % e,
                           [True, node, os.strerror(node).encode(), None])
                elif isinstance(node, Dir) or not dirty(node):
                    s.step("(let ((s (file/stat %s))) (list (ref s :error?) (ref s :regular-file?) (ref s :directory?) (ref s :character-device?) "
                           "(ref s :block-device?) (ref s :named-pipe?) (ref s :user-id) (ref s :group-id) %s))" % (
                               e, "#nil" if isinstance(node, Dir) else "(ref s :size)"),
                           [False, isinstance(node, Inode), isinstance(node, Dir), False, False, False, os.getuid(), os.getgid(),
                            len(node.data) if isinstance(node, Inode) else None])
                    if c.bool(1, 4):
                        now = time.time()
                        s.step("(let ((s (file/stat %s))) (list (ref s :modification-time) (ref s :access-time)))" % e,
                               lambda got, now=now: all(type(t) is int and abs(t - now) < 40000 for t in got))
                seen += not isinstance(node, int)
            elif op == "copy":
                q = path(c, disk)
                x = disk.get(q)
                d = readable(p)
                if isinstance(node, Inode) and dirty(node) or isinstance(x, Inode) and writer(x):
                    continue
                ok = d is not None and store(q, d) is not None
                s.step("(file/copy %s %s)" % (e, expr(q)), lambda got, ok=ok: bool(got) == ok)
                changed += ok
            elif op == "open":
                i = c.draw(5)
                if i in hs and not hs[i].closed:
                    continue
                mode = c.weighted([(4, "in"), (4, "replace"), (3, "append"), (1, "error"), (1, "none"), (1, "what")])
                h, want = None, None
                if mode == "in":
                    if isinstance(node, Inode):
                        if dirty(node):
                            continue
                        h = Handle(node, "r")
                    elif isinstance(node, Dir):
                        h = Handle(None, "d")
                    src = "(file/open-input* %s)" % e
                else:
                    src = "(file/open-output* %s%s)" % (e, "" if mode == "none" else " :" + mode)
                    if isinstance(node, Inode) and writer(node):
                        continue
                    if mode == "what":
                        s.step(src, Raises("type-error"))
                        continue
                    if mode in ("error", "none") and not isinstance(node, int):
                        want = False
                    elif mode == "append" and isinstance(node, Inode):
                        h = Handle(node, "a")
                    else:
                        nn = store(p, b"")
                        h = nn and Handle(nn, "a" if mode == "append" else "w")
                        changed += nn is not None
                s.do("(set! h%d #nil)" % i)
                if h is None:
                    s.step("(set! h%d %s) h%d" % (i, src, i), want)
                    hs.pop(i, None)
                else:
                    s.step("(set! h%d %s) (:type-name h%d)" % (i, src, i), Kw(b"file-handle"))
                    h.born = turn
                    hs[i] = h
            elif op == "popen":
                k = c.draw(2)
                if k == 0:
                    n = c.pick([0, 1, 4095, 4096, 4097, 8192, 8193, 12288, 30000])
                    s.step('(let ((r (popen "head -c %d /dev/zero | tr \'\\\\0\' x"))) (list (car r) (vp/obs (cdr r))))' % n,
                           [0, obs(b"x" * n)])
                elif k == 1:
                    n = c.draw(255)
                    s.step('(popen "printf \'q\\\\000r\'; exit %d")' % n, Pair([n], b"q\0r"))
                elif isinstance(node, Inode) and not dirty(node) and re.fullmatch(rb"[a-z./]+", p):
                    s.step('(let ((r (popen "cat %s"))) (list (car r) (vp/obs (cdr r))))' % p.decode(), [0, obs(bytes(node.data))])
            elif op == "recursive":
                if isinstance(node, Dir):
                    out = []

                    def go(d, pre):
                        for n, x in d.items():
                            if n.startswith(b"."):
                                continue
                            if isinstance(x, Dir):
                                go(x, pre + b"/" + n)
                            else:
                                out.append(pre + b"/" + n)
                    go(node, p)
                    s.step("(directory/read-recursive %s)" % e, lambda got, out=sorted(out): sorted(got or []) == out)
            elif op == "single":
                if isinstance(node, Inode) and writer(node):
                    continue
                v = c.pick([b"(1 2)", b"42 43", b"\"s\" x"])
                if store(p, v) is not None:
                    s.step("(spit %s %s)" % (e, expr(v)), True)
                    s.step("(file/read/single %s)" % e, {b"(1 2)": [1, 2], b"42 43": 42, b"\"s\" x": b"s"}[v])
            elif op == "load":
                if isinstance(node, Inode) and writer(node):
                    continue
                n = c.draw(99)
                v = b"(def vp/loaded (+ %d 1)) (* vp/loaded 2)" % n
                if store(p, v) is not None:
                    s.step("(spit %s %s)" % (e, expr(v)), True)
                    s.step("(list (file/eval %s) vp/loaded)" % e, [2 * n + 2, n + 1])
            elif op == "nul":
                q = p + b"\0x"
                k = c.pick(["(rm %s)", "(slurp %s)", '(spit %s "x")', "(mkdir %s)", "(rmdir %s)", "(cd %s)", "(ls %s)", "(file/stat %s)",
                            "(file/open-input* %s)", "(file/open-output* %s :append)"])
                s.step(k % expr(q), Raises("type-error"))
            elif op == "bad":
                k = c.pick(["(file/read* %s (buffer/allocate 4) 1)", "(file/write* %s \"x\")", "(file/close* %s)", "(file/seek* %s 0 0)",
                            "(file/tell* %s)", "(file/flush* %s)", "(file/eof*? %s)", "(file/error*? %s)"])
                i = c.draw(5)
                if i not in hs:
                    s.step(k % c.pick(["#nil", "1", '"a"', ":a"]), Raises("type-error"))
                elif hs[i].closed and not any(h.born > hs[i].died and not h.closed for h in hs.values()):
                    # (a handle opened later may be the same one to the C library)
                    s.step(k % ("h%d" % i), Raises("io-error"))
            else:
                i = c.draw(5)
                if i not in hs and hs:
                    i = c.pick(sorted(hs))
                if i not in hs or hs[i].closed:
                    continue
                h = hs[i]
                hn = "h%d" % i
                stale = h.mode == "r" and h.ver != h.node.ver
                if op == "write":
                    if h.mode in "rd":
                        s.step("(file/write* %s \"abc\")" % hn, Raises("io-error"))
                        h.eof = None
                        continue
                    behind = h.ver != h.node.ver
                    if behind and (h.mode != "a" or dirty(h.node)):
                        continue
                    b, eb, es = content(c)
                    k = c.draw(5)
                    wide = [t for t, w in VIEWS if len(b) % w == 0]
                    arg = es if c.bool() else "(:%s %s)" % (c.pick(wide), eb) if c.bool(1, 3) else eb
                    if k == 0:
                        size, off = c.draw(len(b)), 0
                        src = "(file/write* %s %s %d)" % (hn, arg, size)
                    elif k == 1:
                        off = c.draw(len(b))
                        size = c.draw(len(b) - off)
                        src = "(file/write* %s %s %d %d)" % (hn, arg, size, off)
                    elif k == 2 and c.bool():
                        off = c.draw(len(b))
                        size = len(b) - off + c.int(1, 3)
                        s.step("(file/write* %s %s %d %d)" % (hn, arg, size, off), Raises("type-error"))
                        continue
                    elif k == 3 and c.bool():
                        s.step("(file/write* %s %s 0 %d)" % (hn, arg, c.pick([-1, len(b) + 1])), Raises("type-error"))
                        continue
                    elif k == 4 and c.bool():
                        off = c.draw(len(b))
                        size = len(b) - off
                        src = "(file/write* %s %s #nil %d)" % (hn, arg, off)
                    else:
                        size, off = len(b), 0
                        src = "(file/write* %s %s)" % (hn, arg)
                    d = b[off:off + size]
                    if d:
                        if h.mode == "a":
                            h.pos, h.moved = len(h.node.data), True
                        if h.pos > len(h.node.data):
                            h.node.data += bytes(h.pos - len(h.node.data))
                        h.node.data[h.pos:h.pos + len(d)] = d
                        h.pos += len(d)
                        h.node.ver += 1
                        h.ver = h.node.ver
                        h.dirty = True
                        changed += 1
                    s.step("(= %s %s)" % (hn, src), True)
                    if behind or d and any(x is not h and x.node is h.node and not x.closed and x.mode == "a" for x in hs.values()):
                        s.step("(= %s (file/flush* %s))" % (hn, hn), True)
                        h.dirty = False
                elif op == "read":
                    n = c.weighted([(4, c.draw(20)), (2, c.pick([128, 500, 4095, 4096, 4097, 9000])), (1, 0)])
                    if h.mode == "d":
                        s.step("(file/read* %s (buffer/allocate 10) 5)" % hn, Raises("io-error"))
                        continue
                    if h.mode != "r":
                        s.step("(file/read* %s (buffer/allocate 10) 5)" % hn, Raises("io-error"))
                        h.eof = None
                        continue
                    if stale or h.eof is None:
                        continue
                    off = c.weighted([(3, 0), (1, c.draw(10))])
                    extra = c.draw(3)
                    if c.bool(1, 12):
                        s.step("(file/read* %s (buffer/allocate %d) %d %d)" % (hn, n + off, n + 1, off), Raises("type-error"))
                        continue
                    if c.bool(1, 12):
                        s.step('(file/read* %s "immutable string" 3)' % hn, Raises("type-error"))
                        continue
                    d = b"" if h.eof else bytes(h.node.data[h.pos:h.pos + n])
                    if not h.eof and len(d) < n:
                        h.eof = True
                    h.pos += len(d)
                    buf = b"\0" * off + d + b"\0" * (n - len(d) + extra)
                    view = c.pick([t for t, w in VIEWS if len(buf) // w * w >= n + off]) if c.bool(1, 3) else None
                    s.step("(def b (buffer/allocate %d)) (def n (file/read* %s %s %d%s)) (list n (vp/obs b))" % (
                        len(buf), hn, "(:%s b)" % view if view else "b", n, " %d" % off if off or c.bool() else ""),
                        [len(d), obs(buf, Buf)])
                    seen += 1
                elif op == "seek":
                    if h.mode == "d" or stale or h.ver != h.node.ver:
                        continue
                    w = c.draw(2)
                    base = [0, h.pos, len(h.node.data)][w]
                    if w == 1 and not h.moved:
                        continue
                    t = c.weighted([(4, c.draw(len(h.node.data) + 1)), (1, -1), (1, len(h.node.data) + c.draw(20)), (1, 0)])
                    if c.bool(1, 20):
                        s.step("(file/seek* %s 0 %d)" % (hn, c.pick([3, -1, 4294967296])), Raises("type-error"))
                        continue
                    src = "(file/seek* %s %d %d)" % (hn, t - base, w)
                    if t < 0:
                        s.step(src, Raises("io-error"))
                        h.eof = None if h.eof else h.eof
                        if h.mode != "r":
                            h.dirty = True
                    else:
                        s.step("(= %s %s)" % (hn, src), True)
                        h.pos, h.eof, h.moved = t, False, True
                elif op == "tell":
                    if h.mode != "d" and h.moved and h.ver == h.node.ver:
                        s.step("(file/tell* %s)" % hn, h.pos)
                elif op == "eof":
                    if h.eof is not None and not stale and h.mode != "d":
                        s.step("(file/eof*? %s)" % hn, h.eof)
                elif op == "flush":
                    if h.mode in "wa":
                        s.step("(= %s (file/flush* %s))" % (hn, hn), True)
                        h.dirty = False
                elif op == "close":
                    s.step("(file/close* %s)" % hn, None)
                    h.closed, h.dirty, h.died = True, False, turn
                elif op == "shared":
                    # a second name for the handle is the same handle
                    j = c.draw(5)
                    if j not in hs or hs[j].closed:
                        s.do("(set! h%d %s)" % (j, hn))
                        hs[j] = h
        return s.case(big=changed >= 3 and seen >= 2, final=disk.flat())

    def cur(self, disk):
        d = disk.root
        for n in disk.cwd:
            d = d[n]
        return d

    def inside(self, disk, d):
        x = disk.root
        for n in disk.cwd:
            x = x[n]
            if x is d:
                return True
        return False

    def judge(self, case, outs):
        m = super().judge(case, outs)
        if m:
            return m
        got, want = outs[0].fs, case["final"]
        if got != want:
            for k in sorted(set(got) | set(want)):
                if k not in got or k not in want or got[k] != want[k]:
                    return "after the history %r is %.200r, expected %.200r" % (
                        k, got.get(k, "missing") if k in got else "missing", want.get(k) if k in want else "missing")
        return None


class FilesAsan(Files):
    id = "P30.files.asan"
    variant = "asan"
    quick_cases = 60


class Input(AloneProp):
    """Mixtures of reads over several ports at once."""
    id = "P31.files"
    quick_cases = 400
    rule = "a case counts when it reads in at least two different ways and reaches the end of a source"

    def source(self, c):
        k = c.weighted([(4, 0), (3, 1), (2, 2), (1, 3)])
        if k == 0:
            b = b"".join(c.list(lambda: gens.bytestr(c, 12, nul=True) + c.pick([b"\n", b"\n", b"\r\n", b"", b"\n\n", b"\r", b"\0\n"]), 0, 12))
        elif k == 1:
            # lines around the sizes buffers have
            b = b"".join(c.list(lambda: b"x" * c.pick([0, 1, 126, 127, 128, 129, 255, 256, 257, 300]) + c.pick([b"\n", b"\r\n", b""]), 0, 8))
        elif k == 2:
            b = pat(c.draw(255), c.pick([4095, 4096, 4097, 8192, 9000, 12289]))
        else:
            b = b""
        return b.replace(b"\x02", b"-")

    def read_ops(self, c, s, port, st, positions=True):
        """One operation on PORT; st: dict with data, pos."""
        d, pos = st["data"], st["pos"]
        left = len(d) - pos
        op = c.weighted([(5, "char"), (4, "line"), (4, "block"), (3 if positions else 0, "seek"), (2 if positions else 0, "tell"), (1, "length"),
                         (1, "chars")])
        if op == "char":
            s.step("(:char-read %s)" % port, d[pos] if left else Kw(b"end-of-file"))
            st["pos"] += 1 if left else 0
        elif op == "chars":
            n = c.int(2, 40)
            s.step("(let ((l #nil)) (dotimes (i %d) (set! l (cons (:char-read %s) l))) (nreverse l))" % (n, port),
                   [d[pos + i] if i < left else Kw(b"end-of-file") for i in range(n)])
            st["pos"] += min(n, left)
        elif op == "line":
            size = c.pick([0, 1, 5, 128, 129, 300])
            e = d.find(b"\n", pos)
            line = d[pos:] if e < 0 else d[pos:e]
            none = e < 0 and not line
            src = "(def b (buffer/allocate %d)) (def n (read-line/raw %s b))" % (size, port)
            s.step("%s (list n (and n (vp/obs (:cut (buffer->string b) 0 n))))" % src, [None, None] if none else [len(line), obs(line)])
            st["pos"] = len(d) if e < 0 else e + 1
        elif op == "block":
            n = c.pick([0, 1, 2, 7, 16, 100, 4095, 4096, 5000])
            got = d[pos:pos + n]
            if n == 0:
                # nothing asked for: the end may or may not be noticed
                s.step("(:block-read %s (buffer/allocate 1) 0)" % port, (lambda got: got in (0, Kw(b"end-of-file"))) if not left else 0)
                return op
            s.step("(def b (buffer/allocate %d)) (def n (:block-read %s b %d)) (list n (vp/obs b))" % (n + c.pick([0, 0, 3]), port, n),
                   None)
            size = int(re.search(r"allocate (\d+)", s.steps[-1][0]).group(1))
            s.steps[-1] = (s.steps[-1][0], [len(got) if got else Kw(b"end-of-file"), obs(got + b"\0" * (size - len(got)), Buf)], True)
            st["pos"] += len(got)
        elif op == "seek":
            t = c.pick([0, len(d), c.draw(len(d)), pos])
            s.step("(:position! %s %d) :ok" % (port, t), Kw(b"ok"))
            st["pos"] = t
        elif op == "tell":
            s.step("(:position %s)" % port, pos)
        elif op == "length":
            s.step("(:length %s)" % port, lambda got: type(got) is int and got >= 0)
        if st["pos"] >= len(d):
            st["end"] = True
        return op

    def gen(self, c):
        s = Session()
        files, ports, used = {}, {}, set()
        for i in range(c.int(1, 3)):
            files[b"f%d" % i] = self.source(c)
        n = 0
        for i in sorted(files):
            for _ in range(c.int(1, 2)):
                s.do("(def p%d (:new InputPort (file/open-input* %s)))" % (n, expr(i)))
                ports["p%d" % n] = {"data": files[i], "pos": 0, "end": False}
                n += 1
        for _ in range(c.int(2, 50)):
            if not ports:
                break
            p = c.pick(sorted(ports))
            if c.bool(1, 30):
                s.step("(:close! %s)" % p, None)
                s.step("(:char-read %s)" % p, Raises("io-error"))
                s.step("(:block-read %s (buffer/allocate 3) 2)" % p, Raises("io-error"))
                del ports[p]
                continue
            used.add(self.read_ops(c, s, p, ports[p]))
        end = any(p["end"] for p in ports.values())
        return s.case(big=len(used & {"char", "line", "block"}) >= 2 and end, files=files)


class InputAsan(Input):
    id = "P31.files.asan"
    variant = "asan"
    quick_cases = 40


class Stdin(Input):
    id = "P31.stdin"
    quick_cases = 300

    def gen(self, c):
        s = Session()
        d = self.source(c)
        st = {"data": d, "pos": 0, "end": False}
        out, used = b"", set()
        for _ in range(c.int(2, 40)):
            if c.bool():
                used.add(self.read_ops(c, s, "stdin", st, positions=False))
                continue
            pos = st["pos"]
            e = d.find(b"\n", pos)
            line = d[pos:] if e < 0 else d[pos:e]
            k = c.draw(3)
            src = ["(read-line)", "(input)", '(readline "> ")', "(readline)"][k]
            out += b"> " if k == 2 else b""
            s.step("(vp/obs %s)" % src, None if e < 0 and not line else obs(line))
            st["pos"] = len(d) if e < 0 else e + 1
            st["end"] = st["end"] or st["pos"] >= len(d)
            used.add("line")
        return s.case(big=st["end"] and len(used) >= 2, stdin=d, out=out)

    def judge(self, case, outs):
        return super().judge(case, outs) or (None if outs[0].text == case["out"] else "printed %r, expected %r" % (outs[0].text, case["out"]))


class Output(AloneProp):
    """Mixtures of writes to several ports at once."""
    id = "P32.ports"
    quick_cases = 500
    rule = "a case counts when at least two ports were written to in at least three different ways"

    def text(self, c):
        k = c.weighted([(6, 0), (2, 1)])
        if k == 0:
            b = gens.bytestr(c, 15, nul=True)
            return b.replace(b"\x02", b"-"), None
        n = c.pick([0, 1, 15, 16, 17, 111, 112, 113, 127, 128, 129, 143, 144, 256, 1000, 4096, 5000])
        return b"y" * n, '(make-string %d)' % n

    def atom(self, c):
        """(expression, displayed, written)"""
        k = c.draw(5)
        if k == 0:
            v = gens.int64(c)
            return expr(v), b"%d" % v, b"%d" % v
        if k == 1:
            b = gens.bytestr(c, 10).replace(b"\x02", b"-")
            if re.fullmatch(rb"[A-Za-z0-9 ]*", b):
                return expr(b), b, b'"' + b + b'"'
            return expr(b), b, None
        if k == 2:
            w = gens.word(c)
            return ":" + w.decode(), b":" + w, b":" + w
        if k == 3:
            w = gens.word(c)
            if w == b"nil":
                w = b"x"
            return "'" + w.decode(), w, w
        if k == 4:
            return c.pick([("#t", b"#t", b"#t"), ("#f", b"#f", b"#f"), ("#nil", b"", b"#nil")])
        return "'(1 2 \"a b\" x)", b'(1 2 a b x)', b'(1 2 "a b" x)'

    def gen(self, c):
        s = Session()
        s.do("(def vp/n 0)")
        s.do('(defn make-string (n) (def b (buffer/allocate n)) (def i 0) (while (< i n) (set! b i #\\y) (set! i (inc/int i))) (buffer->string b))')
        ports = {"stdout": None, "stderr": None}
        text = {"stdout": bytearray(), "stderr": bytearray()}
        pos = {"stdout": 0, "stderr": 0}
        for i in range(c.int(0, 2)):
            how, old = c.pick(["replace", "error", "append"]), b""
            if how != "error" and c.bool():
                old = bytes(97 + j % 26 for j in range(c.pick([1, 5, 30, 5000])))
                s.do("(spit \"f%d\" %s)" % (i, expr(old)))
            s.do("(def f%d (:new OutputPort (file/open-output* \"f%d\" :%s)))" % (i, i, how))
            if how == "replace":
                old = b""
            text["f%d" % i], pos["f%d" % i] = bytearray(old), len(old)
        for i in range(c.int(1, 2)):
            s.do("(def s%d (:new StringOutputPort))" % i)
            text["s%d" % i], pos["s%d" % i] = bytearray(), 0
        append = {"f%d" % i for i in range(2) if any("f%d\" :append" % i in x[0] for x in s.steps)}
        kinds, touched = set(), set()

        def put(p, b):
            if not b:
                return
            if p in append:
                pos[p] = len(text[p])
            text[p][pos[p]:pos[p] + len(b)] = b
            pos[p] += len(b)
            touched.add(p)

        for _ in range(c.int(2, 50)):
            p = c.pick(sorted(text))
            op = c.weighted([(4, "char"), (4, "block"), (3, "write"), (3, "print"), (2, "display"), (2, "writev"), (2, "newline"), (2, "println"),
                             (1, "error"), (2, "pos"), (2, "back"), (1, "flush"), (3, "string"), (1, "with"), (1, "fmt"), (1, "cat"), (1, "error2")])
            kinds.add(op)
            if op == "char":
                ch = c.draw(255)
                ch = 45 if ch == 2 else ch
                s.step("(:char-write %s %d) :ok" % (p, ch), Kw(b"ok"))
                put(p, bytes([ch]))
            elif op == "block":
                b, e = self.text(c)
                how = c.draw(2)
                if how == 0 or e:
                    s.step("(:block-write %s %s) :ok" % (p, e or expr(b)), Kw(b"ok"))
                elif how == 1:
                    n = c.draw(len(b))
                    s.step("(:block-write %s %s %d) :ok" % (p, expr(b), n), Kw(b"ok"))
                    b = b[:n]
                else:
                    s.step("(:block-write %s %s) :ok" % (p, expr(Buf(b))), Kw(b"ok"))
                put(p, b)
            elif op == "write":
                bs = [self.text(c) for _ in range(c.int(1, 4))]
                s.step("(:write %s %s) :ok" % (p, " ".join(e or expr(b) for b, e in bs)), Kw(b"ok"))
                for b, e in bs:
                    put(p, b)
            elif op in ("print", "display", "writev"):
                e, d, w = self.atom(c)
                if op == "writev":
                    if w is None:
                        continue
                    d = w
                fn = {"print": "print", "display": "display", "writev": "write"}[op]
                if p == "stdout" and c.bool():
                    s.step("(%s %s) :ok" % (fn, e), Kw(b"ok"))
                else:
                    s.step("(%s %s %s) :ok" % (fn, e, p), Kw(b"ok"))
                put(p, d)
            elif op == "newline":
                s.step("(newline %s) :ok" % p, Kw(b"ok"))
                put(p, b"\r\n")
            elif op == "println":
                e, d, w = self.atom(c)
                s.step("(println %s) :ok" % e, Kw(b"ok"))
                put("stdout", d + b"\r\n")
            elif op == "error":
                e, d, w = self.atom(c)
                ln = c.bool()
                s.step("(%s %s) :ok" % ("errorln" if ln else "error", e), Kw(b"ok"))
                put("stderr", d + (b"\r\n" if ln else b""))
            elif op == "fmt":
                e, d, w = self.atom(c)
                k, ln = c.pick(["p", "e"]), c.bool()
                s.step('(def vp/v %s) (%sfmt%s "<{vp/v}>") :ok' % (e, k, "ln" if ln else ""), Kw(b"ok"))
                put("stdout" if k == "p" else "stderr", b"<" + d + b">" + (b"\r\n" if ln else b""))
            elif op == "pos":
                if p[0] == "s" and p[1:].isdigit() or p[0] == "f":
                    s.step("(:position %s)" % p, pos[p])
            elif op == "back":
                if p[0] == "s" and p[1:].isdigit() or p[0] == "f":
                    # (what is appended goes to the end nevertheless)
                    t = c.draw(len(text[p])) if p[0] == "f" else c.draw(pos[p])
                    s.step("(:position! %s %d) :ok" % (p, t), Kw(b"ok"))
                    pos[p] = t
            elif op == "flush":
                s.step("(:flush-output %s) :ok" % p, Kw(b"ok"))
                if p[0] == "f":
                    s.step("(vp/obs (slurp \"%s\"))" % p, obs(bytes(text[p])))
            elif op == "string":
                q = c.pick([x for x in text if x[1:].isdigit() and x[0] == "s"])
                s.step("(vp/obs (:return-string %s))" % q, obs(bytes(text[q][:pos[q]])))
            elif op == "with":
                e, d, w = self.atom(c)
                b, eb = self.text(c)
                s.step("(with-string-port o (display %s o) (:block-write o %s) (:char-write o 33))" % (e, eb or expr(b)), d + b + b"!")
            elif op == "cat":
                es = [self.atom(c) for _ in range(c.int(0, 5))]
                s.step("(cat %s)" % " ".join(e for e, d, w in es), b"".join(d for e, d, w in es))
            elif op == "error2":
                # what cannot be written changes nothing
                k = c.pick(["(:block-write %s #nil)", "(:block-write %s 12)", '(:block-write %s "abc" 7)'])
                s.step(k % p, Raises())
        for q in sorted(text):
            if q[0] == "s" and q[1:].isdigit():
                s.step("(vp/obs (:return-string %s))" % q, obs(bytes(text[q][:pos[q]])))
        return s.case(big=len(touched) >= 2 and len(kinds) >= 3, want={k: bytes(v) for k, v in text.items()})

    def judge(self, case, outs):
        m = super().judge(case, outs)
        if m:
            return m
        o, w = outs[0], case["want"]
        got = {"stdout": o.text, "stderr": o.err}
        got.update((k.decode(), v) for k, v in o.fs.items())
        for k in w:
            if k[0] == "f" or k.startswith("std"):
                if got.get(k) != w[k]:
                    return "%s received %.800r, expected %.800r" % (k, got.get(k), w[k])
        return None


class OutputAsan(Output):
    id = "P32.ports.asan"
    variant = "asan"
    quick_cases = 40


def _ignore_xfsz():
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)


@functools.lru_cache(None)
def able():
    """What this place allows: (largest file, changing owners, times beyond 2^32)."""
    with Sandbox() as d:
        p, size = os.path.join(d, "f"), 0
        for n in (1 << 20, 5 << 30):
            try:
                with open(p, "wb") as fh:
                    fh.truncate(n)
                    fh.seek(n - 1)
                    fh.write(b"x")
                size = n
            except OSError:
                break
        try:
            os.chown(p, 4321, 8765)
            own = os.stat(p).st_uid == 4321 and os.stat(p).st_gid == 8765
        except OSError:
            own = False
        try:
            os.utime(p, (4400000000, 4400000001))
            far = os.stat(p).st_mtime == 4400000001
        except OSError:
            far = False
        return size, own, far


def _put(w, plan):
    for n, what in plan:
        p = os.path.join(w, n)
        if what[0] == "file":
            with open(p, "wb") as fh:
                fh.truncate(what[1])
                for at, b in what[2]:
                    fh.seek(at)
                    fh.write(b)
        elif what[0] == "dir":
            os.mkdir(p)
        elif what[0] == "fifo":
            os.mkfifo(p)
        elif what[0] == "link":
            os.symlink(what[1], p)
        elif what[0] == "times":
            os.utime(p, what[1])
        elif what[0] == "owner":
            os.chown(p, *what[1])


class Sparse:
    """A file with a few bytes somewhere between zeroes."""
    def __init__(self, size, parts):
        self.size, self.parts, self.times, self.owner = size, list(parts), None, (os.getuid(), os.getgid())

    def get(self, at, n):
        n = max(0, min(n, self.size - at))
        b = bytearray(n)
        for o, d in self.parts:
            lo, hi = max(o, at), min(o + len(d), at + n)
            if lo < hi:
                b[lo - at:hi - at] = d[lo - o:hi - o]
        return bytes(b)

    def put(self, at, d):
        if d:
            self.parts.append((at, d))
            self.size = max(self.size, at + len(d))
            self.times = None


class Special(AloneProp):
    """Large files, files of other owners and times, links and pipes."""
    id = "P30.special"
    quick_cases = 300
    rule = "a case counts when it read from or wrote to a large or linked file"

    def limits(self, case):
        return ["--fsize=%d" % (1 << 40)]

    def make(self, case):
        return lambda w: _put(w, case["plan"])

    def gen(self, c):
        top, own, far = able()
        s = Session()
        plan, fs, links = [], {}, {}
        for i in range(c.int(1, 3)):
            size = min(top, c.pick([0, 10, 70000, (1 << 31) - 1, 1 << 31, (1 << 31) + 5, (1 << 32) - 1, 1 << 32, (1 << 32) + 7, 5000000000]))
            marks = [size - 9, size // 2, (1 << 31) - 4, (1 << 32) - 3, 0]
            parts = [(m, gens.bytestr(c, 9, nul=True)) for m in marks if 0 <= m <= size - 9 and c.bool(3, 4)]
            n = b"big%d" % i
            fs[n] = f = Sparse(size, parts)
            plan.append((n, ("file", size, parts)))
            if c.bool():
                t = [c.pick([0, 1, 1000000000, (1 << 31) - 1, 1 << 31, 3000000000] + ([(1 << 32) - 1, 1 << 32, 4400000001] if far else [])) for _ in range(2)]
                f.times = tuple(t)
                plan.append((n, ("times", f.times)))
            if own and c.bool():
                f.owner = (c.pick([1, 1000, 65534, 70000, (1 << 31) + 3]), c.pick([2, 1001, 65533, 70001, (1 << 31) + 9]))
                plan.append((n, ("owner", f.owner)))
        plan += [(b"d", ("dir",)), (b"d/in", ("file", 3, [(0, b"abc")])), (b"pipe", ("fifo",))]
        real = dict(fs)
        for n, t in [(b"to-file", b"big0"), (b"to-link", b"to-file"), (b"to-dir", b"d"), (b"to-pipe", b"pipe"), (b"dead", b"missing"), (b"round", b"circle"), (b"circle", b"round")]:
            plan.append((n, ("link", t)))
            links[n] = t
        here = {n for n, w in plan if b"/" not in n}
        hot = False

        def resolve(n):
            seen = 0
            while n in links and n in here:
                n, seen = links[n], seen + 1
                if seen > 4:
                    return errno.ELOOP
            return n if n in here else errno.ENOENT

        hs = {}
        for turn in range(c.int(3, 18)):
            op = c.weighted([(4, "stat"), (4, "read"), (3, "write"), (1, "ls"), (1, "rm"), (1, "small"), (1, "kind")])
            n = c.pick(sorted(here | {b"dead", b"to-file", b"nothing"}))
            e, r = expr(n), resolve(n)
            if op == "stat":
                src = "(let ((s (file/stat %s))) (list (ref s :error?) %s))"
                if isinstance(r, int):
                    s.step(src % (e, "(ref s :error-number) (ref s :size)"), [True, r, None])
                    continue
                k = "d" if r == b"d" else "p" if r == b"pipe" else "f"
                s.step(src % (e, "(ref s :regular-file?) (ref s :directory?) (ref s :named-pipe?) (ref s :character-device?) (ref s :block-device?)"),
                       [False, k == "f", k == "d", k == "p", False, False])
                if k == "f":
                    f = fs[r]
                    s.step(src % (e, "(ref s :size) (ref s :user-id) (ref s :group-id)"), [False, f.size] + list(f.owner))
                    if f.times:
                        s.step(src % (e, "(ref s :modification-time)"), [False, f.times[1]])
                        if not hasattr(f, "touched"):
                            s.step(src % (e, "(ref s :access-time)"), [False, f.times[0]])
                    hot |= f.size > 1 << 31 or n != r
            elif op == "kind":
                s.step("(list (file/file? %s) (file/dir? %s))" % (e, e),
                       lambda got, r=r: [bool(x) for x in got] == [not isinstance(r, int) and r not in (b"d", b"pipe"), r == b"d"])
            elif op in ("read", "write"):
                if r not in fs:
                    if r != b"pipe" and op == "read":
                        s.step("(vp/obs (slurp %s))" % e, None)
                    continue
                f = fs[r]
                if op == "read":
                    f.touched = True
                    s.do("(def h (file/open-input* %s))" % e)
                    pos = 0
                else:
                    how = c.pick(["append", "replace"])
                    s.do("(def h (file/open-output* %s :%s))" % (e, how))
                    if how == "replace":
                        f.size, f.parts, f.times = 0, [], None
                    pos = None if how == "append" else 0
                    at = f.size
                for _ in range(c.int(1, 4)):
                    if pos is not None and c.bool(3, 4):
                        w = c.draw(2)
                        t = c.pick([f.size, f.size - 5, f.size // 2, (1 << 31) - 3, (1 << 32) - 2, 1 << 32, 0, f.size + 3, 4999999990])
                        if op == "write":
                            t = min(t, top)
                        if t < 0 or op == "write" and w == 2:
                            continue
                        s.step("(= h (file/seek* h %d %d))" % (t - [0, pos, f.size][w], w), True)
                        pos = t
                        s.step("(file/tell* h)", pos)
                    if op == "read":
                        k = c.int(1, 12)
                        b = f.get(pos, k)
                        s.step("(def b (buffer/allocate %d)) (def n (file/read* h b %d)) (list n b)" % (k, k), [len(b), Buf(b + bytes(k - len(b)))])
                        pos += len(b)
                        if len(b) < k:
                            break
                    else:
                        d = gens.bytestr(c, 9, nul=True)
                        s.step("(= h (file/write* h %s))" % expr(d), True)
                        if pos is None:
                            f.put(f.size, d)
                        else:
                            f.put(pos, d)
                            pos += len(d)
                    hot |= f.size > 1 << 31 or n != r
                s.step("(file/close* h)", None)
            elif op == "ls":
                s.step("(ls \".\")", lambda got, w=sorted(here): sorted(got) == w)
                if b"to-dir" in here:
                    s.step("(ls \"to-dir\")", [b"in"])
            elif op == "rm":
                if n in here and (n in links or n == b"pipe" or c.bool(1, 4)) and n != b"d":
                    s.step("(rmdir %s)" % e, False)          # neither a link nor a file is a directory
                    s.step("(rm %s)" % e, n)
                    here.discard(n)
                    fs.pop(n, None)
            elif op == "small" and r in fs and fs[r].size < 100000:
                f = fs[r]
                if c.bool():
                    f.touched = True
                    s.step("(vp/obs (slurp %s))" % e, obs(f.get(0, f.size)))
                else:
                    d = gens.bytestr(c, 20)
                    s.step("(spit %s %s)" % (e, expr(d)), True)
                    f.size, f.parts, f.times = len(d), [(0, d)], None
        return s.case(big=hot, plan=plan)


class Faults(AloneProp):
    """The disk is full (files cannot grow beyond a limit), or the process may not open any more files."""
    id = "P30.faults"
    quick_cases = 250
    rule = "a case counts when at least one operation met the limit and one did not"

    def limits(self, case):
        return ["--fsize=%d" % case["fsize"], "--nofile=%d" % case["nofile"]]

    def pre(self, case):
        return _ignore_xfsz

    def gen(self, c):
        s = Session()
        limit = c.pick([0, 1, 100, 4095, 4096, 4097, 5000, 8192, 10000])
        files = {b"old%d" % i: bytes(gens.bytestr(c, 30)) for i in range(3)}
        if limit < 30:
            files = {k: v[:limit] for k, v in files.items()}
        want = dict(files)           # name -> content, or (full content,) of which a prefix must be there
        hit = miss = 0
        nofile = 40
        for turn in range(c.int(2, 14)):
            op = c.weighted([(4, "spit"), (4, "writes"), (2, "copy"), (2, "full"), (2, "leak"), (1, "exhaust"), (2, "slurp")])
            n = c.pick([b"old0", b"old1", b"new%d" % turn])
            e = expr(n)
            if op == "spit":
                b, eb, es = content(c)
                ok = len(b) <= limit
                s.step("(spit %s %s)" % (e, es), ok)
                want[n] = b if ok else (b,)
            elif op == "writes":
                mode = c.pick(["replace", "append"])
                old = want.get(n, b"") if mode == "append" else b""
                if isinstance(old, tuple):
                    continue
                parts = [content(c) for _ in range(c.int(1, 4))]
                src = "(def h (file/open-output* %s :%s)) " % (e, mode)
                for b, eb, es in parts:
                    old += b
                    src += "(file/write* h %s) " % eb
                    if c.bool(1, 4):
                        src += "(file/flush* h) "
                ok = len(old) <= limit
                s.step("(def h #nil) (try (fn (e) (when h (try (fn () #nil) (file/close* h))) (car e)) %s (file/close* h) :stored)" % src.replace("def h", "set! h"),
                       Kw(b"stored" if ok else b"io-error"))
                want[n] = old if ok else (old,)
            elif op == "copy":
                m = c.pick([b"old0", b"old1", b"old2", b"missing", b"."])
                b = want.get(m)
                if isinstance(b, tuple) or m == n:
                    continue
                ok = b is not None
                s.step("(if (file/copy %s %s) #t #f)" % (expr(m), e), ok)
                if ok:
                    want[n] = b
            elif op == "full":
                b, eb, es = content(c)
                ok = not b
                k = c.draw(2)
                if k == 0:
                    s.step('(spit "/dev/full" %s)' % es, ok)
                else:
                    s.step('(def h (file/open-output* "/dev/full" :append)) (try (fn (e) (try (fn () #nil) (file/close* h)) (car e)) (file/write* h %s) %s :stored)' % (
                        eb, "(file/flush* h) (file/close* h)" if k == 1 else "(file/close* h)"), Kw(b"stored" if ok else b"io-error"))
            elif op == "leak":
                # whatever fails must not keep files open
                k = c.pick(['(slurp ".")', '(slurp "missing")', '(spit "." "x")', '(spit "/dev/full" "x")', '(spit "old2" #nil)', '(file/copy "." "y")',
                            '(slurp "old2")', '(ls ".")', '(ls "missing")', '(file/stat "old2")', '(file/read/single "old2")',
                            '(file/close* (file/open-input* "old2"))', '(file/close* (file/open-input* "."))',
                            '(popen "true")', '(load "missing")', '(file/eval "missing")', '(socket/connect "127.0.0.1" 1)'])
                if any(x in k for x in ('popen', 'socket', 'load', '(slurp ".")', 'copy')):
                    rep = 50
                else:
                    rep = 100
                s.step("(dotimes (i %d) (try (fn () #nil) %s)) :ok" % (rep, k), Kw(b"ok"))
                if '"old2" #nil' in k:
                    want[b"old2"] = b""
                b = want.get(b"old2")
                s.step('(vp/obs (slurp "old2"))', obs(b))
            elif op == "exhaust":
                # open all there can be, then see that everything is refused without harm
                s.step("(def l #nil) (def n 0) (def h #t) (while h (set! h (file/open-input* \"old2\")) (when h (set! n (inc n)) (set! l (cons h l)))) "
                       "(def r (list (> n 20) (slurp \"old2\") (spit \"old2\" \"xx\") (ls \".\") (file/open-output* \"old2\" :replace) "
                       "(if (file/copy \"old2\" \"old1\") #t #f))) (doseq (h l) (file/close* h)) (set! l #nil) "
                       "(set! h #t) (def m 0) (while h (set! h (file/open-input* \"old2\")) (when h (set! m (inc m)) (set! l (cons h l)))) (doseq (h l) (file/close* h)) (cons (= n m) r)",
                       [True, True, None, False, None, None, False])
            elif op == "slurp":
                b = want.get(n)
                if not isinstance(b, tuple):
                    s.step("(vp/obs (slurp %s))" % e, obs(b))
        hit = sum(isinstance(v, tuple) for v in want.values())
        return s.case(big=0 < hit < len(want), files=files, want=want, fsize=limit, nofile=nofile)

    def judge(self, case, outs):
        m = super().judge(case, outs)
        if m:
            return m
        got, want = outs[0].fs, case["want"]
        for k in sorted(set(got) | set(want)):
            g, w = got.get(k), want.get(k)
            if isinstance(w, tuple):
                if g is None or len(g) > case["fsize"] or not w[0].startswith(g):
                    return "%r must hold the first bytes of what was written: %.300r, got %.300r" % (k, w[0], g)
            elif g != w:
                return "%r must be %.300r, got %.300r" % (k, w, g)
        return None


PROPS = [Files(), FilesAsan(), Faults(), Special(), Input(), InputAsan(), Stdin(), Output(), OutputAsan()]
