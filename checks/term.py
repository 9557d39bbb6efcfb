"""Terminal programs: what is drawn is what the terminal shows, keys are recognised, and the editor as a user sees it."""
import fcntl, os, pty, re, select, signal, socket, struct, subprocess, termios, threading, time
from vp import build, core, gens
from vp.core import Outcome, Sandbox
from vp.session import Raises, Session, SessionProp
from vp.values import Kw, Tree, expr
from .library import Editor

BLANK = (32, None, None)


class Screen:
    """The part of a terminal that programs may rely on."""

    def __init__(self, w, h):
        self.w, self.h = w, h
        self.x = self.y = 1
        self.cells = {}
        self.fg = self.bg = None
        self.visible, self.alternate, self.saved = True, False, (1, 1)
        self.pending = b""
        self.asked = 0

    def get(self, x, y):
        return self.cells.get((x, y), BLANK)

    def feed(self, data):
        data = self.pending + data
        self.pending = b""
        i = 0
        while i < len(data):
            b = data[i]
            if b == 0x1B:
                m = re.compile(rb"\x1b(?:\[([?0-9;]*)([@-~])|([78]))").match(data, i)
                if not m:
                    if re.compile(rb"\x1b(\[[?0-9;]*)?").match(data, i).end() == len(data):
                        self.pending = data[i:]
                        return
                    raise ValueError("unknown sequence %r" % data[i:i + 8])
                i = m.end()
                if m.group(3):
                    if m.group(3) == b"7":
                        self.saved = (self.x, self.y)
                    else:
                        self.x, self.y = self.saved
                    continue
                self.csi(m.group(1), m.group(2))
                continue
            i += 1
            if b == 13:
                self.x = 1
            elif b == 10:
                self.y = min(self.h, self.y + 1)
            elif b == 8:
                self.x = max(1, self.x - 1)
            elif b == 9:
                self.x = min(self.w, (self.x - 1) // 8 * 8 + 9)
            elif b >= 32 and b != 127:
                if self.x > self.w:
                    self.x, self.y = 1, min(self.h, self.y + 1)
                self.cells[self.x, self.y] = (b, self.fg, self.bg)
                self.x += 1

    def csi(self, args, fin):
        if args.startswith(b"?"):
            for a in args[1:].split(b";"):
                if a == b"25":
                    self.visible = fin == b"h"
                elif a == b"1049":
                    if fin == b"h":
                        self.cells = {}
                    self.alternate = fin == b"h"
                else:
                    raise ValueError("unknown mode %r" % a)
            return
        ns = [int(a or b"0") for a in args.split(b";")]
        if fin == b"H":
            self.y, self.x = (max(1, n) for n in (ns + [0])[:2])
            self.x, self.y = min(self.x, self.w), min(self.y, self.h)
        elif fin == b"m":
            for n in ns:
                if n == 0:
                    self.fg = self.bg = None
                elif 30 <= n <= 37:
                    self.fg = n - 30
                elif 40 <= n <= 47:
                    self.bg = n - 40
                elif n == 39:
                    self.fg = None
                elif n == 49:
                    self.bg = None
                else:
                    raise ValueError("unknown attribute %d" % n)
        elif fin == b"J" and ns == [2]:
            self.cells = {}
        elif fin == b"K" and ns == [2]:
            for x in range(1, self.w + 1):
                self.cells.pop((x, self.y), None)
        elif fin == b"n" and ns == [6]:
            self.asked += 1
        else:
            raise ValueError("unknown sequence %r %r" % (args, fin))


SETUP = SessionProp.setup + """
(import (TermApp) :term/TermApp)
(import (VT100) :term/VT100)
(def vp/in #nil)
(def vp/raw 0)
(def vp/flushed 0)
(def vp/written #nil)
(def vp/outs #nil)
(defclass VpIn
  (defn new (self) { :prototype* self })
  (defn raw! (self) (set! vp/raw (inc/int vp/raw)) self)
  (defn length (self) (:length vp/in))
  (defn char-read (self)
        (if vp/in
            (let ((r (car vp/in))) (set! vp/in (cdr vp/in)) r)
            :end-of-file)))
(defclass VpOut
  (defn new (self) { :prototype* self })
  (defn block-write (self s) (set! vp/written (cons s vp/written)) self)
  (defn char-write (self s) (set! vp/written (cons (from-char-code s) vp/written)) self)
  (defn flush-output (self) (set! vp/flushed (inc/int vp/flushed)) self))
(defn vp/out ()
      (def r (nreverse vp/written))
      (set! vp/written #nil)
      r)
(defn vp/reset ()
      (set! vp/in #nil)
      (set! vp/raw 0)
      (set! vp/flushed 0)
      (set! vp/written #nil)
      (set! vp/outs #nil))
(defn vp/feed (s)
      (dotimes (i (:length s)) (set! vp/in (append vp/in (list (ref s i))))))
(defn vp/drain (app)
      (def r #nil)
      (def e (:get-events app))
      (while e
        (set! r (cons e r))
        (set! e (:get-events app)))
      r)
"""


def attr(code):
    fg, bg = code >> 4, code & 15
    return (fg if fg < 8 else None, bg if bg < 8 else None)


def glyph(b):
    return 32 if b < 32 or b == 127 else b


class Drawing(SessionProp):
    id = "P43.screen"
    setup = SETUP
    quick_cases = 1200
    rule = "a case counts when the screen is shown at least twice and at least ten of its cells are not blank"

    def gen(self, c):
        s = Session()
        w, h = c.int(2, c.pick([6, 20, 40, 60])), c.int(2, c.pick([5, 12]))
        s.do("(vp/reset) (vp/feed \"\\e[%d;%dR\") (def app (:new TermApp (:new VpIn) (:new VpOut)))" % (h, w))
        s.step("(:get-size app)", Tree([(Kw(b"width"), w), (Kw(b"height"), h)]))
        s.do("(set! vp/outs (cons (vp/out) vp/outs))")
        back, cursor, shots = {}, (-1, -1), []
        flips = most = 0
        alphabet = c.pick([b"ab ", bytes(range(32, 127)), bytes(range(256)), b"x\0\t\n\x7f\x1b "])
        for _ in range(c.int(3, c.pick([10, 40, 40]))):
            k = c.weighted([(6, "char"), (6, "text"), (1, "clear"), (2, "cursor"), (4, "flip")])
            col = c.pick([0xFF, 0x34, 0, c.draw(255)])
            if k == "char":
                x, y = c.int(1, w + 1), c.int(1, h + 1)
                if c.bool(1, 12):
                    x, y = c.pick([(-1, y), (x, -1), (-w, 1), (w, 1), (1, h), (1 << 40, 1)])
                ch = c.pick(alphabet)
                s.do("(:draw-char app %d %d %d %d)" % (ch, x, y, col))
                if 0 < x < w and 0 < y < h:
                    back[x, y] = (ch, col)
            elif k == "text":
                t = bytes(c.pick(alphabet) for _ in range(c.draw(c.pick([3, w, 2 * w]))))
                x, y = c.int(1, w + 1), c.int(1, h + 1)
                tw, th = c.weighted([(3, len(t)), (1, w), (2, c.draw(w))]), c.weighted([(6, 1), (1, 0), (1, 2)])
                s.do("(:draw-text app %s %d %d %d %d %d)" % (expr(t), x, y, tw, th, col))
                if 0 < y < h and th > 0:
                    for i, ch in enumerate(t[:max(0, min(tw, w - x))]):
                        back[x + i, y] = (ch, col)
            elif k == "clear":
                s.do("(:clear-screen app)")
                back = {}
            elif k == "cursor":
                cursor = (c.int(-1, w + 1), c.int(-1, h + 1))
                s.do("(:set-cursor app %d %d)" % cursor)
            else:
                s.do("(:flip app) (set! vp/outs (cons (vp/out) vp/outs))")
                shots.append((dict(back), cursor))
        s.do("(:flip app) (set! vp/outs (cons (vp/out) vp/outs))")
        shots.append((dict(back), cursor))
        stop = c.bool(1, 4)
        if stop:
            s.do("(:stop app) (set! vp/outs (cons (vp/out) vp/outs))")

        def judge(got):
            if not isinstance(got, list) or len(got) != len(shots) + 1 + stop:
                return False
            t = Screen(w, h)
            try:
                t.feed(b"".join(got[0] or []))
                if not t.alternate or t.asked != 1:
                    raise ValueError("the start: alternate screen %r, %d questions for its size" % (t.alternate, t.asked))
                for n, (cells, cur) in enumerate(shots):
                    t.feed(b"".join(got[n + 1] or []))
                    if t.pending:
                        raise ValueError("show %d ends in the middle of a sequence" % n)
                    for y in range(1, h + 1):
                        for x in range(1, w + 1):
                            ch, col = cells.get((x, y), (0, 0))
                            sch, sfg, sbg = t.get(x, y)
                            if sch != glyph(ch) or (ch or col) and (sfg, sbg) != attr(col):
                                raise ValueError("show %d: cell %d,%d shows %r, expected %r in %r" % (n, x, y, (chr(sch), sfg, sbg), chr(glyph(ch)), attr(col)))
                    on = 0 < cur[0] < w and 0 < cur[1] < h
                    if t.visible != on or on and (t.x, t.y) != cur:
                        raise ValueError("show %d: cursor at %d,%d (visible: %r), expected %r (%r)" % (n, t.x, t.y, t.visible, cur, on))
                if stop:
                    t.feed(b"".join(got[-1] or []))
                    if t.alternate:
                        raise ValueError("still in the alternate screen after the stop")
            except ValueError as ex:
                case["why"] = str(ex)
                return False
            return True

        s.step("(nreverse vp/outs)", judge)
        s.step("(list vp/raw (> vp/flushed %d))" % len(shots), [1, True])
        cells = max(sum(1 for ch, _ in sh[0].values() if glyph(ch) != 32) for sh in shots)
        case = s.case(big=len(shots) > 1 and cells >= 10)
        return case

    def judge(self, case, outs):
        msg = SessionProp.judge(self, case, outs)
        return msg and (case.get("why", "") + "\n" + msg)


FG = {"default": None, "black": 0, "red": 1, "green": 2, "yellow": 3, "blue": 4, "pink": 5, "magenta": 5, "purple": 5, "cyan": 6, "teal": 6, "white": 7}


class Sequences(SessionProp):
    id = "P43.vt"
    setup = SETUP
    quick_cases = 1200
    rule = "a case counts when at least five cells are written in at least two places"

    def gen(self, c):
        s = Session()
        w, h = c.int(2, 40), c.int(2, 12)
        s.do("(vp/reset) (def vt (:new VT100 (:new VpOut) (:new VpIn)))")
        m = Screen(w, h)
        shots, writes = [], 0
        for _ in range(c.int(2, 20)):
            k = c.weighted([(5, "move"), (3, "char"), (5, "string"), (1, "clear"), (1, "line"), (1, "hide"), (1, "show"), (2, "code"), (2, "names"),
                            (1, "size"), (2, "flip"), (1, "start"), (1, "stop"), (1, "bad"), (1, "left")])
            if k == "move":
                m.x, m.y = c.int(1, w), c.int(1, h)
                s.do("(:move-cursor vt %d %d)" % (m.x, m.y))
            elif k == "char" or k == "string":
                room = w + 1 - m.x
                t = bytes(c.int(33, 126) for _ in range(1 if k == "char" else c.draw(max(0, room))))[:room]
                if not t:
                    continue
                m.feed(t)
                writes += len(t)
                s.do("(:put-char vt %d)" % t[0] if k == "char" else "(:put-string vt %s)" % expr(t))
            elif k == "clear":
                s.do("(:clear-screen vt)")
                m.cells = {}
            elif k == "line":
                s.do("(:clear-line vt)")
                m.csi(b"2", b"K")
            elif k in ("hide", "show"):
                s.do("(:%s-cursor vt)" % k)
                m.visible = k == "show"
            elif k == "code":
                col = c.draw(255)
                s.do("(:set-color-code vt %d)" % col)
                m.fg, m.bg = attr(col)
            elif k == "names":
                f, b = c.pick([None] + sorted(FG)), c.pick([None] + sorted(FG))
                if f == "default":
                    # also resets the background
                    b = b or "default"
                s.do("(:set-color vt %s %s)" % (":" + f if f else "#nil", ":" + b if b else "#nil"))
                if f:
                    m.fg = FG[f]
                if b:
                    m.bg = FG[b]
            elif k == "size":
                # what was put before has not been sent yet
                a, b = c.int(1, 300), c.int(1, 300)
                name, want = c.pick([("get-size", Tree([(Kw(b"width"), b), (Kw(b"height"), a)])), ("get-width", b), ("get-height", a)])
                s.step("(vp/feed \"\\e[%d;%dR\") (:%s vt)" % (a, b, name), want)
            elif k in ("flip", "start", "stop"):
                if k != "flip":
                    m.csi(b"?1049", b"h" if k == "start" else b"l")
                s.do("(:%s vt) (set! vp/outs (cons (vp/out) vp/outs))" % k)
                shots.append((dict(m.cells), m.x, m.y, m.visible, m.alternate, m.fg, m.bg))
            elif k == "bad":
                s.step(c.pick(["(:set-color vt :puce #nil)", "(:set-fg-color vt :puce)", "(:set-bg-color vt :puce)"]), Raises())
            else:
                t = bytes(c.draw(255) for _ in range(c.draw(4)))
                s.step("(set! vp/in #nil) (vp/feed %s) (list (:input-left vt) (:input-would-block? vt) (:poll-input vt) (:input-left vt))" % expr(t),
                       [len(t), not t, t[0] if t else 0, max(0, len(t) - 1)])
                s.do("(set! vp/in #nil)")
        s.do("(:flip vt) (set! vp/outs (cons (vp/out) vp/outs))")
        shots.append((dict(m.cells), m.x, m.y, m.visible, m.alternate, m.fg, m.bg))

        def judge(got):
            got = got or []
            t = Screen(w, h)
            try:
                if len(got) != len(shots):
                    raise ValueError("%d shows, expected %d" % (len(got), len(shots)))
                for n, want in enumerate(shots):
                    t.feed(b"".join(got[n] or []))
                    have = (t.cells, t.x, t.y, t.visible, t.alternate, t.fg, t.bg)
                    if t.pending or have != want:
                        raise ValueError("show %d is %r, expected %r" % (n, have, want))
            except ValueError as ex:
                case["why"] = str(ex)
                return False
            return True

        s.step("(nreverse vp/outs)", judge)
        case = s.case(big=writes >= 5 and len(shots) > 1)
        return case

    judge = Drawing.judge


def keytable():
    t = {}
    for b in range(0x20, 0x7F):
        t[bytes([b])] = ("input", b)
    t[b"\x7f"] = "backspace"
    t[b"\0"] = "C-spc"
    for b in range(1, 27):
        t[bytes([b])] = "C-" + chr(96 + b)
    t[b"\t"], t[b"\r"] = "tab", "ret"
    for b in range(28, 31):
        t[bytes([b])] = "C-" + chr(64 + b)
    t[b"\x1f"] = "C-/"
    t[b"\x1b\x1b"] = "escape"
    for b, n in zip(b"ABCDFH", ["up", "down", "right", "left", "end", "home"]):
        t[b"\x1b[" + bytes([b])] = n
    for b, n in zip(b"2356", ["insert", "delete", "page-up", "page-down"]):
        t[b"\x1b[" + bytes([b]) + b"~"] = n
    for i in range(12):
        t[b"\x1bO" + bytes([80 + i])] = "F%d" % (i + 1)
    t[b"\x1b\x7f"], t[b"\x1b\t"] = "M-backspace", "M-tab"
    for b in range(0x20, 0x7B):
        if chr(b) not in "[O":
            t[b"\x1b" + bytes([b])] = "M-" + chr(b)
    for d in range(0xA0, 0xC0):
        t[b"\xc2" + bytes([d])] = "M-" + chr(0x20 + d - 0xA0)
    for d in range(129, 187):
        t[b"\xc3" + bytes([d])] = "M-" + chr(d - 96 + 0x20)
    return t


KEYS = keytable()
KEYLIST = sorted(KEYS)
GROUPS = [[k for k in KEYLIST if f(k)] for f in (
    lambda k: len(k) == 1 and k >= b" ", lambda k: len(k) == 1 and k < b" ", lambda k: k.startswith(b"\x1b["), lambda k: k.startswith(b"\x1bO"),
    lambda k: k.startswith(b"\x1b") and len(k) == 2, lambda k: k[0] > 127)]


class Keys(SessionProp):
    id = "P43.keys"
    setup = SETUP
    quick_cases = 1500
    rule = "a case counts when at least eight keys are pressed, of at least three of the kinds of keys there are"

    def gen(self, c):
        s = Session()
        s.do("(vp/reset) (vp/feed \"\\e[25;80R\") (def app (:new TermApp (:new VpIn) (:new VpOut)))")
        kinds, keys = set(), 0
        for _ in range(c.int(1, c.pick([4, 25]))):
            if c.bool(1, 10):
                # no key at all: whatever is made of it, the ones after it are not affected
                junk = c.pick([b"\x1b[", b"\x1bO", b"\x1b", b"\xc2", b"\xc3", b"\x1b[2", b"\x1b[5", b""]) + bytes(c.draw(255) for _ in range(c.draw(4)))
                # completes what may have been started
                for b in junk + b"aaaa":
                    s.do("(set! vp/in (list %d)) (try (fn (e) #nil) (:poll-input app)) (vp/drain app)" % b)
                continue
            g = c.draw(len(GROUPS) - 1)
            kinds.add(g)
            k = c.pick(GROUPS[g])
            keys += 1
            for i, b in enumerate(k):
                s.step("(set! vp/in (list %d)) (:poll-input app)" % b, b)
                s.step("(vp/drain app)", self.events(b, KEYS[k] if i == len(k) - 1 else None))
        return s.case(big=keys >= 8 and len(kinds) >= 3)

    @staticmethod
    def events(b, key):
        raw = Tree([(Kw(b"T"), Kw(b"raw-input")), (Kw(b"code"), b)])
        want = [raw]
        if isinstance(key, tuple):
            want.append(Tree([(Kw(b"T"), Kw(b"input")), (Kw(b"code"), b), (Kw(b"char"), bytes([b]))]))
        elif key:
            want.append(Tree([(Kw(b"T"), Kw(b"key-down")), (Kw(b"key"), Kw(key.encode()))]))

        def judge(got):
            return isinstance(got, list) and len(got) == len(want) and all(any(core_same(g, x) for g in got) for x in want)
        return judge


def core_same(a, b):
    return isinstance(a, Tree) and isinstance(b, Tree) and dict(a) == dict(b)


PROPS = [Drawing(), Sequences(), Keys()]


class Pty:
    """An interpreter on a terminal of its own."""

    def __init__(self, argv, cwd, w, h, variant="plain"):
        m, s = pty.openpty()
        fcntl.ioctl(s, termios.TIOCSWINSZ, struct.pack("HHHH", h, w, 0, 0))
        env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C.UTF-8", "TERM": "vt100", "ASAN_OPTIONS": core.ASAN, "MALLOC_PERTURB_": "165"}
        self.p = subprocess.Popen(core._limits(2000, variant) + [build.build(variant)] + argv, stdin=s, stdout=s, stderr=subprocess.PIPE, cwd=cwd, env=env,
                                  start_new_session=True)
        os.close(s)
        self.fd, self.screen, self.seen, self.told = m, Screen(w, h), b"", 0

    def pump(self, wait):
        """Take what comes within WAIT seconds; false once there is nothing more to come."""
        r, _, _ = select.select([self.fd], [], [], wait)
        if not r:
            return True
        try:
            d = os.read(self.fd, 65536)
        except OSError:
            return False
        self.seen += d
        self.screen.feed(d)
        while self.told < self.screen.asked:
            self.told += 1
            os.write(self.fd, b"\x1b[%d;%dR" % (self.screen.h, self.screen.w))
        return bool(d)

    def until(self, ok, limit):
        """Whether OK() comes true in time."""
        end = time.time() + limit
        while not ok():
            left = end - time.time()
            if left < 0 or not self.pump(min(left, 0.5)):
                return ok()
        return True

    def close(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        err = self.p.stderr.read()
        self.p.stderr.close()
        self.p.wait()
        os.close(self.fd)
        return err


GUTTER = attr(0x34)


class Termed(core.Prop):
    id = "P43.editor"
    quick_cases = 60
    batch = 4
    rule = "a case counts when at least five commands other than typing are given and a file of at least two lines is edited"
    patience = 12

    def gen(self, c):
        w, h = c.int(10, 60), c.int(3, 16)
        alphabet = c.pick([b"ab ", bytes(range(32, 127)), b"x\ty "])
        line = lambda hi: bytes(c.pick(alphabet) for _ in range(c.draw(hi)))
        files = []
        for i in range(c.weighted([(1, 0), (4, 1), (1, 2)])):
            ls = [line(c.pick([8, 20, 60])) for _ in range(c.pick([1, 3, 10, 60]))]
            files.append((c.pick([b"a.txt", b"notes", b"b c"]) + b"%d" % i, b"\n".join(ls)))
        rounds, keys = [], 0
        for _ in range(c.int(1, 5)):
            ks = []
            for _ in range(c.int(1, c.pick([3, 15]))):
                k = c.weighted([(3, "text")] + [(1, n) for n in sorted(CMDS)] + [(1, "mark-all"), (1, "unbound")])
                if k == "text":
                    ks.append(("text", bytes(c.int(32, 126) for _ in range(c.int(1, c.pick([3, 30]))))))
                else:
                    keys += 1
                    ks.append((k, c.pick(CMDS[k]) if k in CMDS else b"\x18h" if k == "mark-all" else c.pick([b"\x18\x07", b"\x18q", b"\x0f", b"\x1bOP", b"\x1bq"])))
            rounds.append(ks)
        return {"size": (w, h), "files": files, "rounds": rounds, "big": keys >= 5 and any(b"\n" in f[1] for f in files)}

    def key(self, case):
        return repr((case["size"], case["files"], case["rounds"]))

    show = key

    def nontrivial(self, case, outs):
        return case["big"]

    def execute(self, cases):
        return [[self.run(c)] for c in cases]

    def run(self, case):
        w, h = case["size"]
        with Sandbox() as d:
            for n, t in case["files"]:
                with open(os.path.join(os.fsencode(d), n), "wb") as fh:
                    fh.write(t)
            t = Pty(["-m", ":app/termed"] + [n for n, _ in case["files"]], d, w, h)
            o = Outcome("ok")
            try:
                e = Editor()
                name = case["files"][-1][0] if case["files"] else b"*scratch*"
                if case["files"]:
                    e.lines = case["files"][-1][1].split(b"\n")
                clip = b""
                why = []

                def shown():
                    why[:] = [self.compare(t.screen, e, name)]
                    return not why[0]
                ok = t.until(shown, self.patience)
                for n, ks in enumerate(case["rounds"]):
                    if not ok:
                        break
                    for k, arg in ks:
                        clip = act(e, k, arg, clip, max(4, h // 3))
                    os.write(t.fd, b"".join(arg for _, arg in ks))
                    ok = t.until(shown, self.patience)
                if not ok:
                    o.detail = "round %d: %s" % (n, why[0]) if case["rounds"] and why else "start: %s" % why[0]
                else:
                    os.write(t.fd, b"\x18\x03")
                    t.until(lambda: not t.screen.alternate, self.patience)
                    try:
                        rc = t.p.wait(self.patience)
                    except subprocess.TimeoutExpired:
                        rc = "still running"
                    if rc != 0 or t.screen.alternate:
                        o.detail = "left with %r, alternate screen: %r" % (rc, t.screen.alternate)
                    for n, was in case["files"]:
                        with open(os.path.join(os.fsencode(d), n), "rb") as fh:
                            if fh.read() != was:
                                o.detail = "the file %r was changed" % n
            except ValueError as ex:
                o.detail = "%s\n%r" % (ex, t.seen[-300:])
            finally:
                err = t.close()
            if o.detail:
                o.detail += "\n%s\nstderr: %s" % (picture(t.screen), err[-1500:].decode("latin1"))
            return o

    def judge(self, case, outs):
        return outs[0].detail or None

    @staticmethod
    def compare(s, e, name):
        w, h = s.w, s.h
        row = lambda y: bytes(s.get(x, y)[0] for x in range(1, w + 1))
        first = row(1)[:6]
        try:
            top = int(first) - 1
        except ValueError:
            return "no line number at the top: %r" % first
        if not 0 <= top <= e.y <= top + h - 3:
            return "line %d is not on a screen that starts with line %d" % (e.y + 1, top + 1)
        sel = e.region() if e.mark else None
        for i in range(h - 2):
            y, n = 1 + i, top + i
            got = row(y)[:w - 1]
            if n >= len(e.lines):
                if got.strip():
                    return "row %d shows %r, there is no line %d" % (y, got, n + 1)
                continue
            text = bytes(glyph(b) for b in e.lines[n])
            want = (b" %4d " % (n + 1) + text).ljust(w - 1)[:w - 1]
            if got != want:
                return "row %d shows %r, expected %r" % (y, got, want)
            if s.get(1, y)[1:] != (GUTTER if n == e.y else (None, None)):
                return "row %d: the gutter is %r" % (y, s.get(1, y))
            for x in range(min(len(text), w - 7)):
                marked = sel is not None and sel[0] <= (n, x) < sel[1]
                if s.get(7 + x, y)[1:] != (GUTTER if marked else (None, None)):
                    return "row %d: column %d is %r, marked: %r" % (y, x, s.get(7 + x, y), marked)
        l = e.line()
        mode = (b"  L%d:%d - %d:%d - %s" % (e.y + 1, e.x, len(l), e.indent(), name)).ljust(w - 1)[:w - 1]
        if row(h - 1)[:w - 1] != mode:
            return "mode line %r, expected %r" % (row(h - 1), mode)
        cur = (7 + e.x, 1 + e.y - top)
        if (cur[0] < w) != s.visible or cur[0] < w and (s.x, s.y) != cur:
            return "cursor at %d,%d (visible: %r), expected %r" % (s.x, s.y, s.visible, cur)
        return None


CMDS = {
    "mark": [b"\0"], "start": [b"\x01", b"\x1b[H"], "left": [b"\x02", b"\x1b[D"], "end": [b"\x05", b"\x1b[F"], "right": [b"\x06", b"\x1b[C"],
    "quit": [b"\x07"], "kill": [b"\x0b"], "up": [b"\x10", b"\x1b[A"], "down": [b"\x0e", b"\x1b[B"], "yank": [b"\x19", b"\x1b[2~"], "cut": [b"\x17"],
    "copy": [b"\x1bw"], "top": [b"\x1b<"], "bottom": [b"\x1b>"], "page-up": [b"\x1b[5~"], "page-down": [b"\x1b[6~"], "backspace": [b"\x7f"],
    "delete": [b"\x1b[3~"], "return": [b"\r"],
}


def act(e, k, arg, clip, page):
    """What the command does to the text; the new clipboard."""
    if k == "text":
        e.insert(arg)
    elif k == "mark":
        e.mark = (e.x, e.y)
    elif k == "mark-all":
        e.mark = (len(e.lines[-1]), len(e.lines) - 1)
        e.x = e.y = 0
    elif k == "start":
        e.x = e.indent() if e.x > e.indent() else 0
    elif k == "end":
        e.x = len(e.line())
    elif k == "left":
        e.backward()
    elif k == "right":
        e.forward()
    elif k in ("up", "down"):
        e.vertical(-1 if k == "up" else 1)
    elif k == "quit":
        e.mark = None
    elif k == "kill":
        return e.kill()
    elif k == "yank":
        e.insert(clip)
    elif k == "cut":
        clip = e.get_region()
        e.delete_region()
    elif k == "copy":
        clip = e.get_region()
        e.mark = None
    elif k == "top":
        e.x = e.y = 0
    elif k == "bottom":
        e.y = len(e.lines) - 1
        e.x = len(e.line())
    elif k == "page-up":
        e.goto(e.y - page)
    elif k == "page-down":
        e.goto(e.y + page)
    elif k == "backspace":
        e.delete_backward()
    elif k == "delete":
        e.delete_forward()
    elif k == "return":
        e.insert(b"\n")
    return clip


def picture(s):
    return "\n".join("|%s|" % "".join(chr(s.get(x, y)[0]) for x in range(1, s.w + 1)) for y in range(1, s.h + 1))


class Hole(threading.Thread):
    """A gopher server for the selectors in PAGES."""

    def __init__(self, pages, port):
        super().__init__(daemon=True)
        self.sock = socket.socket()
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        Hole.count = (getattr(Hole, "count", 0) + 1) % 250
        self.sock.bind(("127.%d.%d.%d" % (64 + os.getpid() % 150, 1 + os.getpid() // 150 % 250, 1 + Hole.count), port))
        self.sock.listen(16)
        self.host, self.port = self.sock.getsockname()
        self.dead = socket.socket()
        self.dead.bind((self.host, 0))
        at = b"\t%s\t%d" % (self.host.encode(), self.port)
        gone = b"\t%s\t%d" % (self.host.encode(), self.dead.getsockname()[1])
        self.pages = {k: v.replace(b"\0AT", at).replace(b"\0GONE", gone) for k, v in pages.items()}

    def run(self):
        while True:
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            with c:
                c.settimeout(10)
                try:
                    d = b""
                    while not d.endswith(b"\r\n"):
                        x = c.recv(1000)
                        if not x:
                            break
                        d += x
                    c.sendall(self.pages.get(d[:-2], b""))
                except OSError:
                    pass

    def close(self):
        # a connection of our own ends the wait for the next one
        try:
            self.sock.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.sock.close()
        self.dead.close()


TYPES = {b"0": b"(TXT)", b"1": b"(DIR)", b"2": b"(NAM)", b"3": b"(ERR)", b"9": b"(BIN)", b"g": b"(GIF)", b"h": b"(HTM)", b"I": b"(IMG)", b"s": b"(WAV)", b"i": b"     ", b"7": b"(FTS)", b"z": b" (?) "}
MOVES = {
    "up": [b"\x1b[A", b"k", b"\x10"], "down": [b"\x1b[B", b"j", b"\x0e"], "follow": [b"\x1b[C", b"l"], "back": [b"\x1b[D", b"h"],
    "page-up": [b"\x1b[5~", b"K"], "page-down": [b"\x1b[6~", b"J"], "none": [b"x", b"\x1b[Z", b"\x1bj", b"\x18j", b" ", b"\r"],
}


class Browser:
    """What the gopher browser should be showing."""

    def __init__(self, w, h, pages, host, port):
        self.w, self.h, self.pages, self.host, self.port = w, h, pages, host, port
        self.room = h - 3
        self.step = max(1, self.room // 2)
        self.history = []
        self.page = self.load(b"1", b"/", False)

    def load(self, kind, sel, gone):
        data, item = ([] if gone else self.pages[sel][1]), None
        if kind == b"1" and not gone:
            item = next((i for i, e in enumerate(data) if e[0] != b"i"), None)
        return {"kind": kind, "sel": sel, "gone": gone, "data": data, "item": item, "top": 0}

    def scroll(self, d):
        p = self.page
        p["top"] = max(0, min(len(p["data"]) - self.room, p["top"] + d))

    def centre(self):
        p = self.page
        while p["top"] > p["item"]:
            p["top"] -= self.step
        while p["top"] < p["item"] - self.room:
            p["top"] += self.step
        self.scroll(0)

    def act(self, k):
        p = self.page
        if k in ("up", "down") and p["kind"] != b"1":
            k = "page-" + k
        if k in ("up", "down"):
            links = [i for i, e in enumerate(p["data"]) if e[0] != b"i"]
            if p["item"] is None:
                return
            n = links.index(p["item"]) + (-1 if k == "up" else 1)
            if n < 0:
                self.centre()
            elif n < len(links):
                p["item"] = links[n]
                self.centre()
        elif k == "follow":
            if p["item"] is not None:
                e = p["data"][p["item"]]
                self.history.append(p)
                self.page = self.load(e[0], e[2], e[3])
        elif k == "back":
            if self.history:
                self.page = self.history.pop()
        elif k == "page-up":
            self.scroll(-self.step)
        elif k == "page-down":
            self.scroll(self.step)

    def compare(self, s, dead):
        p, w = self.page, self.w
        row = lambda y: bytes(s.get(x, y)[0] for x in range(1, w + 1))
        clean = lambda t: bytes(glyph(b) for b in t)
        for i in range(self.room + 1):
            n, y = p["top"] + i, 1 + i
            want, mark = b"", None
            if n < len(p["data"]):
                e = p["data"][n]
                if p["kind"] == b"1":
                    want = b" " + TYPES[e[0]] + b" " + clean(e[1])
                    if e[0] != b"i":
                        mark = (3, 4) if n == p["item"] else (4, None)
                else:
                    want = b" " + clean(e)
            if row(y) != want[:w].ljust(w):
                return "row %d shows %r, expected %r" % (y, row(y), want[:w])
            for x in range(1, w + 1):
                if glyph(s.get(x, y)[0]) != 32 and s.get(x, y)[1:] != (mark if mark and x > 7 else (None, None)):
                    return "row %d: column %d is %r, expected %r" % (y, x, s.get(x, y), mark)
        port = dead if p["gone"] else self.port
        mode = b" gopher://%s%s%s" % (self.host.encode(), b"" if port == 70 and self.history or not self.history and self.short else b":%d" % port, p["sel"])
        if p["item"]:
            mode += b" - L%d" % p["item"]
        if row(self.h - 1) != clean(mode)[:w].ljust(w):
            return "mode line %r, expected %r" % (row(self.h - 1), mode)
        if s.get(1, self.h - 1)[1:] != (3, 4):
            return "the mode line is %r" % (s.get(1, self.h - 1),)
        if row(self.h).strip():
            return "last row shows %r" % row(self.h)
        if not s.visible:
            return "the cursor is hidden"
        return None


class Gophers(core.Prop):
    id = "P43.browser"
    quick_cases = 60
    batch = 4
    rule = "a case counts when at least two links are followed and a page is longer than the screen"
    patience = 12

    def gen(self, c):
        w, h = c.int(12, 80), c.int(5, 20)
        width = c.pick([5, w - 9, w, 2 * w])
        alphabet = c.pick([bytes(range(32, 127)), b"ab ", bytes(range(32, 127)), b"a\x1b[2J\x07\x7f "])
        text = lambda: bytes(c.pick(alphabet) for _ in range(c.draw(width)))
        pages, sels = {}, [b"/"] + [b"/" + bytes(c.pick(b"abcxyz09/._-") for _ in range(c.draw(c.pick([4, 12])))) + b"%d" % i for i in range(c.int(1, 5))]
        kinds = [b"1"] + [c.pick([b"1", b"1", b"0", b"0", b"9", b"h", b"g", b"7", b"z"]) for _ in sels[1:]]
        for sel, kind in zip(sels, kinds):
            n = c.weighted([(2, c.draw(4)), (3, c.int(1, 2 * h)), (2, c.int(1, 5 * h))])
            if kind == b"1":
                es = []
                for _ in range(n):
                    if c.bool(c.pick([0, 1]), 3):
                        es.append((b"i", text(), b"", False))
                    else:
                        t = c.draw(len(sels) - 1)
                        es.append((kinds[t], text(), sels[t], c.bool(1, 10)))
                if es and c.bool(1, 8):
                    es = [es[0]] * len(es)
                pages[sel] = (kind, es)
            else:
                pages[sel] = (kind, [text() + c.pick([b"", b"\r"]) for _ in range(max(1, n))])
        rounds, follows = [], 0
        for _ in range(c.int(1, 6)):
            ks = []
            for _ in range(c.int(1, c.pick([2, 12]))):
                k = c.weighted([(4, "follow"), (5, "down"), (3, "up"), (2, "back"), (2, "page-down"), (1, "page-up"), (1, "none")])
                follows += k == "follow"
                for _ in range(c.pick([1, 1, 1, 4]) if k in ("up", "down") else 1):
                    ks.append((k, c.pick(MOVES[k])))
            rounds.append(ks)
        big = follows > 1 and any(len(d) > h - 2 for _, d in pages.values())
        return {"size": (w, h), "pages": pages, "rounds": rounds, "port": c.pick([0, 70]) if os.getuid() == 0 else 0, "end": c.pick([b"q", b"Q", b"\x18\x03"]), "big": big}

    def key(self, case):
        return repr((case["size"], case["pages"], case["rounds"]))

    show = key

    def nontrivial(self, case, outs):
        return case["big"]

    def execute(self, cases):
        return [[self.run(c)] for c in cases]

    def run(self, case):
        w, h = case["size"]
        raw = {}
        for sel, (kind, data) in case["pages"].items():
            if kind == b"1":
                raw[sel] = b"".join(k + t + b"\t" + s + (b"\0GONE" if gone else b"\0AT") + b"\r\n" for k, t, s, gone in data) + b".\r\n"
            else:
                raw[sel] = b"\n".join(data)
        hole = Hole(raw, case["port"])
        hole.start()
        o = Outcome("ok")
        with Sandbox() as d:
            m = Browser(w, h, case["pages"], hole.host, hole.port)
            m.short = case["port"] == 70
            dead = hole.dead.getsockname()[1]
            t = Pty(["-m", ":app/gopher", "gopher://%s%s/" % (hole.host, "" if m.short else ":%d" % hole.port)], d, w, h)
            try:
                why = []

                def shown():
                    why[:] = [m.compare(t.screen, dead)]
                    return not why[0]
                ok, n = t.until(shown, self.patience), -1
                for n, ks in enumerate(case["rounds"]):
                    if not ok:
                        break
                    for k, _ in ks:
                        m.act(k)
                    os.write(t.fd, b"".join(b for _, b in ks))
                    ok = t.until(shown, self.patience)
                if not ok:
                    o.detail = "round %d: %s" % (n, why[0])
                else:
                    os.write(t.fd, case["end"])
                    t.until(lambda: not t.screen.alternate, self.patience)
                    try:
                        rc = t.p.wait(self.patience)
                    except subprocess.TimeoutExpired:
                        rc = "still running"
                    if rc != 0 or t.screen.alternate:
                        o.detail = "left with %r, alternate screen: %r" % (rc, t.screen.alternate)
            except ValueError as ex:
                o.detail = "%s\n%r" % (ex, t.seen[-300:])
            finally:
                err = t.close()
                hole.close()
            if o.detail:
                o.detail += "\n%s\nstderr: %s" % (picture(t.screen), err[-1500:].decode("latin1"))
            return o

    def judge(self, case, outs):
        return outs[0].detail or None


PROPS += [Termed(), Gophers()]
