"""Library modules: JSON, digests, random numbers, grids, the editor's buffer, highlighting."""
import hashlib, json, re, zlib
from vp import gens, lang
from vp.session import Any, Raises, Session, SessionProp
from vp.values import Arr, Buf, F, Kw, Sym, Tree, expr


def utf8(c, hi=12):
    """Valid UTF-8, with everything JSON has to escape."""
    out = []
    for _ in range(c.int(0, hi)):
        k = c.weighted([(6, 0), (3, 1), (2, 2), (1, 3), (1, 4)])
        if k == 0:
            out.append(chr(97 + c.draw(25)))
        elif k == 1:
            out.append(c.pick("\"\\/ ,:{}[]\t\n\r\b\f<>&'"))
        elif k == 2:
            out.append(chr(c.draw(31)))
        elif k == 3:
            out.append(chr(c.int(32, 127)))
        else:
            out.append(chr(c.pick([0x80, 0xE4, 0xFF, 0x7FF, 0x800, 0x20AC, 0x2028, 0xFFFD, 0x10000, 0x1F600, 0x10FFFF])))
    return "".join(out)


class NotJson(Exception):
    pass


def pairs(items):
    d = {}
    for k, v in items:
        if k in d:
            raise NotJson("key %r appears twice" % k)
        d[k] = v
    return d


class Json(SessionProp):
    id = "P33.json"
    setup = SessionProp.setup + "(import (serialize) :serialization/json)\n(def vp/json serialize)\n"
    quick_cases = 4000
    rule = "a case counts when its value nests and contains a string that needs escaping, or has at least ten parts"

    def value(self, c, depth):
        """A Nujel value and what JSON should say of it."""
        self.parts += 1
        k = c.draw(11 if depth > 0 else 6)
        if k == 0:
            return None, None
        if k == 1:
            b = c.bool()
            return b, b
        if k == 2:
            i = gens.int64(c)
            i = max(i, -2**63 + 1)
            return i, i
        if k == 3:
            f = gens.float64(c)
            return f, f
        if k in (4, 5):
            s = utf8(c, c.pick([4, 12, 40]))
            self.escapes |= any(ch in '"\\' or ord(ch) < 32 for ch in s)
            return s.encode(), s
        if k == 6:
            s = utf8(c, 8).replace("\0", "x")
            while len(s.encode()) > 93:
                s = s[:-1]
            s = s or "k"
            return (Kw if c.bool() else Sym)(s.encode()), s
        xs = []
        for _ in range(c.int(0 if k >= 9 else 1, c.pick([2, 4, 9]))):
            xs.append(self.value(c, depth - 1))
        if k in (7, 8):
            return [a for a, _ in xs], [b for _, b in xs]
        if k in (9, 10):
            return Arr(a for a, _ in xs), [b for _, b in xs]
        t, d = Tree(), {}
        for a, b in xs:
            key = utf8(c, 6).replace("\0", "y") or "q"
            t[Kw(key.encode())] = a
            d[key] = b
        return t, d

    def gen(self, c):
        s = Session()
        self.parts, self.escapes = 0, False
        v, want = self.value(c, c.pick([0, 2, 2, 3, 4]))
        self.last = (v, want)

        def holds(got, want=want):
            if not isinstance(got, bytes) or isinstance(got, (Sym, Buf)):
                return False
            try:
                back = json.loads(got.decode("utf-8", "strict"), object_pairs_hook=pairs, parse_constant=self.bad, strict=True)
            except (ValueError, NotJson, RecursionError):
                return False
            return self.eq(want, back)
        s.do("(def v %s)" % self.build(v))
        s.step("(vp/json v)", holds)
        s.step("v", v)                 # and it is still what it was
        return s.case(big=(self.escapes and self.parts > 1) or self.parts >= 10)

    def build(self, v):
        """An expression for V that shares no literal."""
        if isinstance(v, Arr):
            return "(array/new %s)" % " ".join(self.build(x) for x in v)
        if isinstance(v, Tree):
            out = "(let* (def t (tree/new))"
            for k, x in v.items():
                out += " (set! t %s %s)" % (self.build(k), self.build(x))
            return out + " t)"
        if isinstance(v, list) and v:
            return "(list %s)" % " ".join(self.build(x) for x in v)
        if isinstance(v, Sym):
            return "(%s %s)" % (":keyword" if isinstance(v, Kw) else ":symbol", expr(bytes(v)))
        return expr(v)

    @staticmethod
    def bad(x):
        raise NotJson(x)

    def eq(self, a, b):
        if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
            return a is b
        if isinstance(a, float):
            # numbers are written with six decimals
            return isinstance(b, float) and (abs(a - b) <= 5.0000001e-7 or float("%.6f" % a) == b)
        if isinstance(a, int):
            return type(b) is int and a == b
        if isinstance(a, str):
            return isinstance(b, str) and a == b
        if isinstance(a, list):
            return isinstance(b, list) and len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        return isinstance(b, dict) and a.keys() == b.keys() and all(self.eq(a[k], b[k]) for k in a)


def crc32c_table():
    t = []
    for i in range(256):
        for _ in range(8):
            i = (i >> 1) ^ (0x82F63B78 if i & 1 else 0)
        t.append(i)
    return t


CRC32C = crc32c_table()


def crc32c(b):
    x = 0xFFFFFFFF
    for ch in b:
        x = (x >> 8) ^ CRC32C[(x ^ ch) & 255]
    return x ^ 0xFFFFFFFF


class Digests(SessionProp):
    id = "P34.digests"
    setup = SessionProp.setup + "".join("(import (hash) :crypto/%s)\n(def vp/%s hash)\n" % (n, n) for n in ("md5", "crc32", "crc32c", "adler32"))
    quick_cases = 2000
    rule = "a case counts when one of its inputs is at least 56 bytes long or has a byte above 127"

    def gen(self, c):
        s = Session()
        hit = False
        for i in range(c.int(1, 3)):
            n = c.weighted([(4, lambda: c.draw(20)), (4, lambda: c.pick([55, 56, 57, 63, 64, 65, 111, 119, 120, 121, 127, 128, 129])),
                            (3, lambda: c.draw(300)), (1, lambda: c.draw(4000)), (1, lambda: 5552 + c.draw(20))])()
            how = c.draw(3)
            if how == 0:
                b = bytes([c.pick([0, 255, 97, 128])]) * n
            elif how == 1:
                unit = bytes(c.draw(255) for _ in range(c.int(1, 9)))
                b = (unit * (n // len(unit) + 1))[:n]
            else:
                import random
                b = random.Random(c.draw(1 << 30)).randbytes(n)
            hit |= n >= 56 or any(x > 127 for x in b)
            buf = c.bool()
            s.do("(def d %s)" % ("#m%s" % b.hex().upper() if buf else "(buffer->string #m%s)" % b.hex().upper()))
            s.step("(list (vp/md5 d) (vp/crc32 d) (vp/crc32c d) (vp/adler32 d))",
                   [hashlib.md5(b).hexdigest().encode(), zlib.crc32(b), crc32c(b), zlib.adler32(b)])
            if c.bool(1, 4):
                # the input is as before, and the result does not depend on what was hashed in between
                s.step("(list d (vp/md5 d) (vp/adler32 d))", [Buf(b) if buf else b, hashlib.md5(b).hexdigest().encode(), zlib.adler32(b)])
        return s.case(big=hit)


class Rng(SessionProp):
    id = "P35.random"
    setup = SessionProp.setup + "(import (rng) :random)\n"
    quick_cases = 3000
    rule = "a case counts when it draws at least four numbers, one of them with a bound"

    def gen(self, c):
        s = Session()
        gs = []
        draws = bounded = 0

        def nxt(i):
            gs[i] = gens.wrap(12345 + gens.wrap(gs[i] * 1103515245))
            return (gs[i] & 0xFFFF) << 16 | (gs[i] >> 16) & 0xFFFF
        for _ in range(c.int(1, 2)):
            v = gens.int64(c)
            s.do("(def g%d (:new rng %s))" % (len(gs), expr(v)))
            gs.append(v)
        for _ in range(c.int(2, 12)):
            i = c.draw(len(gs) - 1)
            k = c.draw(5)
            if k == 0:
                v = gens.int64(c)
                gs[i] = v
                s.step("(:seed! g%d %s) #t" % (i, expr(v)), True)
            elif k == 1:
                n = c.int(1, 6)
                s.step("(let* (def r #nil) (dotimes (i %d) (set! r (cons (:int g%d) r))) (nreverse r))" % (n, i), [nxt(i) for _ in range(n)])
                draws += n
            elif k in (2, 3):
                m = c.pick([1, 2, 3, 6, 7, 10, 100, 256, 1000, 65536, 2**31, 2**32, 2**40, c.int(1, 1 << 33)])
                n = c.int(1, 6)
                want = [nxt(i) % m for _ in range(n)]
                assert all(0 <= x < m for x in want)
                s.step("(let* (def r #nil) (dotimes (i %d) (set! r (cons (:int g%d %d) r))) (nreverse r))" % (n, i, m), want)
                draws += n
                bounded += n
            elif k == 4:
                s.step("(:rng! g%d)" % i, nxt(i))
                draws += 1
            else:
                s.step("(:int (:new rng))", lambda got: type(got) is int and 0 <= got < 2**32)
        return s.case(big=draws >= 4 and bounded > 0)


class Grid(SessionProp):
    id = "P37.grid"
    setup = SessionProp.setup + "(import (ref :as vp/gget set! :as vp/gput fill! :as vp/gfill allocate :as vp/gmake) :array/2d)\n"
    quick_cases = 3000
    rule = "a case counts when it makes at least four stores, and both dimensions of a grid are at least 2 and differ"

    def gen(self, c):
        s = Session()
        gs = []
        stores = 0
        for i in range(c.int(1, 2)):
            w, h = c.pick([0, 1, 2, 3, 4, 5, 7, 9]), c.pick([0, 1, 2, 3, 4, 6, 7, 8])
            s.do("(def m%d (vp/gmake %d %d))" % (i, w, h))
            gs.append([w, h, {(x, y): 0 for x in range(w) for y in range(h)}])

        def coord(n):
            return c.weighted([(12, lambda: c.draw(max(n - 1, 0))), (1, lambda: -1), (1, lambda: n), (1, lambda: c.pick([-10**17, 10**17, n + 1, -n]))])()

        def val():
            return c.pick([c.draw(99), None, True, False, b"s%d" % c.draw(9), Kw(b"k"), F(c.draw(9) / 2.0)])
        for _ in range(c.int(4, 24)):
            i = c.draw(len(gs) - 1)
            w, h, cells = gs[i]
            k = c.draw(9)
            if k <= 4:
                x, y, v = coord(w), coord(h), val()
                if (x, y) in cells:
                    s.step("(= m%d (vp/gput m%d %d %d %s))" % (i, i, x, y, expr(v)), Any())
                    cells[(x, y)] = v
                    stores += 1
                else:
                    s.step("(vp/gput m%d %d %d %s)" % (i, x, y, expr(v)), Raises("out-of-bounds"))
            elif k <= 7:
                x, y = coord(w), coord(h)
                d = c.pick([None, -1, b"out"])
                s.step("(vp/gget m%d %d %d %s)" % (i, x, y, expr(d)), cells.get((x, y), d))
            elif k == 8:
                v = val()
                s.step("(vp/gfill m%d %s) #t" % (i, expr(v)), True)
                for p in cells:
                    cells[p] = v
            else:
                self.all(s, i, gs[i])
        for i in range(len(gs)):
            self.all(s, i, gs[i])
        return s.case(big=stores >= 4 and any(w >= 2 and h >= 2 and w != h for w, h, _ in gs))

    def all(self, s, i, g):
        w, h, cells = g
        s.step("(let* (def r #nil) (dotimes (y %d) (dotimes (x %d) (set! r (cons (vp/gget m%d x y :out) r)))) (nreverse r))" % (h, w, i),
               [cells[(x, y)] for y in range(h) for x in range(w)])


class Editor:
    """Reference: lines of text and a cursor between two characters."""
    def __init__(self):
        self.lines, self.x, self.y, self.mark = [b""], 0, 0, None

    def line(self):
        return self.lines[self.y]

    def region(self):
        a, b = sorted([(self.y, self.x), (self.mark[1], self.mark[0])])
        return a, b

    def delete_region(self):
        if self.mark is None:
            return False
        (y1, x1), (y2, x2) = self.region()
        self.mark = None
        self.lines[y1:y2 + 1] = [self.lines[y1][:x1] + self.lines[y2][x2:]]
        self.y, self.x = y1, x1
        return True

    def get_region(self):
        if self.mark is None:
            return b""
        (y1, x1), (y2, x2) = self.region()
        t = b"\n".join(self.lines[y1:y2 + 1])
        return t[x1:len(t) - (len(self.lines[y2]) - x2)]

    def insert(self, text):
        for ch in text:
            self.delete_region()
            l = self.line()
            if ch == 10:
                self.lines[self.y:self.y + 1] = [l[:self.x], l[self.x:]]
                self.y, self.x = self.y + 1, 0
            elif ch:
                self.lines[self.y] = l[:self.x] + bytes([ch]) + l[self.x:]
                self.x += 1

    def delete_forward(self):
        if self.delete_region():
            return
        l = self.line()
        if self.x < len(l):
            self.lines[self.y] = l[:self.x] + l[self.x + 1:]
        elif self.y + 1 < len(self.lines):
            self.lines[self.y:self.y + 2] = [l + self.lines[self.y + 1]]

    def delete_backward(self):
        if self.delete_region():
            return
        if (self.x, self.y) == (0, 0):
            return
        self.backward()
        self.delete_forward()

    def kill(self):
        self.mark = None
        l = self.line()
        self.lines[self.y] = l[:self.x]
        return l[self.x:]

    def backward(self):
        if self.x > 0:
            self.x -= 1
        elif self.y > 0:
            self.y -= 1
            self.x = len(self.line())

    def forward(self):
        if self.x < len(self.line()):
            self.x += 1
        elif self.y + 1 < len(self.lines):
            self.y += 1
            self.x = 0

    def vertical(self, d):
        if 0 <= self.y + d < len(self.lines):
            self.y += d
            self.x = min(self.x, len(self.line()))

    def goto(self, n):
        self.y = max(0, min(len(self.lines) - 1, n))
        self.x = max(0, min(self.x, len(self.line()) - 1))

    def indent(self):
        l = self.line()
        return next((i for i, ch in enumerate(l) if ch > 32), len(l))


class TextBuffer(SessionProp):
    id = "P39.buffer"
    setup = SessionProp.setup + """
(import (TextBuffer) :app/termed/buffer)
(defn vp/text (b)
      (def r #nil)
      (dotimes (y (:length b.lines))
        (def l (:get-line b y))
        (def n (:line-length b y))
        (def i n)
        (while (< i (:length l))
          (when-not (zero? (ref l i)) (throw (list :text-after-its-end y i)))
          (set! i (inc/int i)))
        (set! r (cons (buffer->string (:cut l 0 n)) r)))
      (list b.pos-x b.pos-y (nreverse r)))
"""
    quick_cases = 2500
    rule = "a case counts when the text has at least three lines at some point and at least six editing commands are given"

    def gen(self, c):
        s = Session()
        s.do('(def b (:new TextBuffer "t"))')
        e = Editor()
        most = edits = 0
        s.step("(vp/text b)", [0, 0, [b""]])
        if c.bool(2, 3):
            t = b"\n".join(self.text(c, c.pick([3, 10, 40])) for _ in range(c.int(1, 6)))
            e.insert(t)
            s.step("(:insert-text b %s) (vp/text b)" % expr(t), [e.x, e.y, e.lines])
        for _ in range(c.int(3, 25)):
            k = c.draw(21)
            want = None
            if k <= 3:
                t = self.text(c, c.pick([1, 3, 20]), nl=True)
                e.insert(t)
                src = "(:insert-text b %s)" % expr(t)
            elif k == 4:
                ch = c.pick([97, 32, 10, 9, 255, 0, 40])
                if ch == 0:
                    e.delete_region()
                e.insert(bytes([ch]))
                src = "(:insert-char b %d)" % ch
            elif k == 5:
                e.insert(b"\n")
                src = "(:insert-newline b)"
            elif k in (6, 7):
                src = "(:delete-forward-char b)"
                e.delete_forward()
            elif k in (8, 9):
                src = "(:backward-delete-char b)"
                e.delete_backward()
            elif k == 10:
                src = "(:kill-line b)"
                want = e.kill()
            elif k == 11:
                e.mark = (e.x, e.y)
                src = "(:set-mark-command b)"
            elif k == 12:
                src = "(:get-region b)"
                want = e.get_region()
            elif k == 13:
                src = "(:delete-region b)"
                want = e.delete_region()
            elif k == 14:
                n = c.int(-1, len(e.lines) + 1)
                e.goto(n)
                src = "(:goto-line b %d)" % n
            else:
                name, f = c.pick([("backward-char", e.backward), ("forward-char", e.forward), ("previous-line", lambda: e.vertical(-1)),
                                  ("next-line", lambda: e.vertical(1)), ("beginning-of-line", lambda: setattr(e, "x", 0)),
                                  ("end-of-line", lambda: setattr(e, "x", len(e.line()))),
                                  ("start-of-line", lambda: setattr(e, "x", e.indent() if e.x > e.indent() else 0)),
                                  ("beginning-of-buffer", lambda: (setattr(e, "x", 0), setattr(e, "y", 0))),
                                  ("end-of-buffer", lambda: (setattr(e, "y", len(e.lines) - 1), setattr(e, "x", len(e.lines[-1])))),
                                  ("keyboard-quit", lambda: setattr(e, "mark", None)),
                                  ("scroll-up-command", lambda: e.goto(e.y + 20)), ("scroll-down-command", lambda: e.goto(e.y - 20)),
                                  ("mark-whole-buffer", None)])
                if f:
                    f()
                else:
                    e.mark = (len(e.lines[-1]), len(e.lines) - 1)
                    e.x = e.y = 0
                src = "(:%s b)" % name
            if k <= 13:
                edits += 1
            most = max(most, len(e.lines))
            state = [e.x, e.y, list(e.lines)]
            if want is None:
                s.step("%s (vp/text b)" % src, state)
            else:
                s.step("(let* (def r %s) (list r (vp/text b)))" % src, [want, state])
            if c.bool(1, 4):
                s.step("(list (:line-length b %d) (:line-indent-depth b %d) (:use-region? b))" % (e.y, e.y),
                       [len(e.line()), e.indent(), e.mark is not None])
        return s.case(big=most >= 3 and edits >= 6)

    def text(self, c, hi, nl=False):
        return bytes(c.weighted([(6, lambda: 97 + c.draw(25)), (3, lambda: 32), (1, lambda: 9), (1, lambda: c.int(128, 255)), (2 if nl else 0, lambda: 10)])()
                     for _ in range(c.int(0, hi)))


COLOURS = ["black", "dark-red", "dark-green", "brown", "dark-blue", "purple", "teal", "dark-gray", "gray", "red", "green", "yellow", "blue",
               "pink", "cyan", "white", "rainbow", "rainbow-bg"]
SGR = re.compile(rb"\x1b\[[0-9;]*m")
SPAN = re.compile(rb"<span class=\"nujel-hl-[0-9]+\">|</span>")


class Highlight(SessionProp):
    id = "P41.highlight"
    setup = SessionProp.setup + """
(import (disable! :as vp/disable! %s) :ansi)
(import (pp-nujel) :pretty/nujel)
""" % " ".join("%s :as vp/%s" % (n, n) for n in COLOURS)
    quick_cases = 3000
    rule = "a case counts when one of its texts has at least 20 bytes, with brackets and a string or a comment"

    def gen(self, c):
        s = Session()
        hit = False
        for _ in range(c.int(1, 3)):
            k = c.draw(5)
            if k == 0:
                t = gens.bytestr(c, 40, nul=True).replace(b"\x1b", b"")
            else:
                t = b"".join(c.pick([b"(", b")", b"[", b"]", b"{", b"}", b" ", b"\n", b"\r\n", b"\t", b"#|", b"|#", b"#!", b"#t", b"#f", b"#nil", b"#x1F", b"#",
                                     b";", b";; abc\n", b'"', b'"a b"', b'"\\""', b"\\", b":kw", b":", b"'", b"'(", b"12", b"1.5", b"-3", b"abc", b"def",
                                     b"#\\a", b"#\\(", b"`", b",", b"~@", b"a.b", b"\xc3\xa4", b"|", b"##(", b"#@("])
                             for _ in range(c.int(0, c.pick([4, 12, 40]))))
            hit |= len(t) >= 20 and (b"(" in t or b"[" in t) and (b'"' in t or b";" in t or b"#|" in t)
            html = c.bool(1, 3)

            def strips(got, t=t, html=html):
                return type(got) is bytes and (SPAN if html else SGR).sub(b"", got) == t
            s.step("(pp-nujel %s%s)" % (expr(t), " :html" if html else ""), strips)
        if c.bool(1, 3):
            off = c.draw(3)
            xs = [c.pick([b"a", b"xyz", b"", b"12"]) if c.bool(2, 3) else c.draw(99) for _ in range(c.int(0, 4))]
            plain = b"".join(x if isinstance(x, bytes) else b"%d" % x for x in xs)
            name = c.pick(COLOURS)

            def colour(got, plain=plain, off=off):
                if type(got) is not bytes:
                    return False
                return got == plain if off in (2, 3) else SGR.sub(b"", got) == plain and got.startswith(b"\x1b[") and got.endswith(b"m")
            s.step("(let* %s (def r (vp/%s %s)) (vp/disable! #f) r)" % (
                ["", "(vp/disable! #f)", "(vp/disable!)", "(vp/disable! #t)"][off], name, " ".join(expr(x) for x in xs)), colour)
        return s.case(big=hit)


PROPS = [Json(), Digests(), Rng(), Grid(), TextBuffer(), Highlight()]
