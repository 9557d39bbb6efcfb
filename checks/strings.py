"""String, format, path and character functions against models over byte strings."""
from vp import gens
from vp.core import Prop
from vp.session import Any, AnyOrRaise, Raises, Session, SessionProp, norm
from vp.values import Arr, Buf, F, Kw, Sym, expr, lit_str

WS = b" \t\n\v\f\r"


def sexpr(b):
    """An expression for a byte string, alternating between literal and computed forms."""
    return expr(b)


def disp(v):
    """What display prints for an atom."""
    if v is None:
        return b""
    if isinstance(v, bool):
        return b"#t" if v else b"#f"
    if isinstance(v, float):
        return show_float(v)
    if isinstance(v, int):
        return b"%d" % v
    if isinstance(v, Kw):
        return b":" + bytes(v)
    return bytes(v)


def show_float(v):
    s = ("%f" % v).rstrip("0")
    return (s + "0" if s.endswith(".") else s).encode()


def upper(b):
    return bytes(x - 32 if 97 <= x <= 122 else x for x in b)


def lower(b):
    return bytes(x + 32 if 65 <= x <= 90 else x for x in b)


def pad(how, t, w, p):
    if p:
        while len(t) < w:
            t = p + t if how == "start" else t + p if how == "end" else p + t + p
    if len(t) <= w:
        return t
    if how == "start":
        return t[len(t) - max(w, 0):] if w > 0 else b""
    if how == "end":
        return t[:max(w, 0)]
    over = len(t) - w
    start = over - over // 2
    return t[start:start + w]


class Strings(SessionProp):
    id = "P16.strings"
    quick_cases = 3000
    rule = "a case counts when one of its strings is at least 6 bytes long or contains a byte outside of printable ASCII"

    def gen(self, c):
        s = Session()
        big = [False]

        def text(hi=14):
            k = c.draw(9)
            if k == 0:
                return b""
            if k <= 4:
                # few letters, so that searches hit and overlap
                return bytes(c.pick(b"aab,. ") for _ in range(c.int(0, hi)))
            b = gens.bytestr(c, hi, nul=True)
            return b
        strs = [text() for _ in range(3)]
        if c.bool(1, 12):
            strs[0] = (strs[0] or b"xy") * c.int(1, 300)
        for i, b in enumerate(strs):
            s.do("(def s%d %s)" % (i, sexpr(b)))
        for _ in range(c.int(2, 10)):
            op = c.draw(20)
            i = c.draw(2)
            n, b = "s%d" % i, strs[i]
            j = c.draw(2)
            m, d = "s%d" % j, strs[j]
            if op == 0:
                vs = [c.pick([gens.small_int(c, 1000), gens.int64(c), F(gens.small_int(c, 400) / 8.0), Kw(gens.word(c, 1, 4)),
                              True, False, None, text(4)]) for _ in range(c.int(0, 5))]
                s.step("(cat %s %s %s)" % (n, " ".join(expr(v) for v in vs), m), b + b"".join(disp(v) for v in vs) + d)
            elif op == 1:
                s.step("(:length %s)" % n, len(b))
            elif op in (2, 3):
                st = c.pick([c.int(-3, len(b) + 3), c.int(0, len(b)), gens.int64(c)])
                en = c.pick([c.int(-3, len(b) + 3), c.int(0, len(b)), gens.int64(c)])
                off = max(0, st)
                s.step("(:cut %s %s %s)" % (n, expr(st), expr(en)), b[off:max(0, min(len(b), en))] if off <= len(b) else b"")
                s.step("(cut %s %s)" % (n, expr(st)), b[off:] if off <= len(b) else b"")
            elif op in (4, 5):
                if c.bool() and len(b):
                    a = c.draw(len(b) - 1)
                    d = b[a:a + c.int(1, 3)]
                st = c.pick([0, c.int(-2, len(b) + 2), gens.int64(c)])
                f = b.find(d, max(0, st)) if d else -1
                s.step("(:index-of %s %s %s)" % (n, sexpr(d), expr(st)),
                       (lambda got: isinstance(got, int) and got < 0) if f < 0 else f)
                f = b.find(d) if d else -1
                s.step("(:index-of %s %s)" % (n, sexpr(d)), (lambda got: isinstance(got, int) and got < 0) if f < 0 else f)
            elif op in (6, 7):
                if c.bool() and len(b):
                    a = c.draw(len(b) - 1)
                    d = b[a:a + c.int(1, 3)]
                st = c.pick([0, c.int(-2, len(b) + 2), gens.int64(c)])
                f = (b.rfind(d, 0, st + len(d)) if st >= 0 else -1) if d else -1
                s.step("(:last-index-of %s %s %s)" % (n, sexpr(d), expr(st)),
                       (lambda got: isinstance(got, int) and got < 0) if f < 0 else f)
                f = b.rfind(d) if d else -1
                s.step("(:last-index-of %s %s)" % (n, sexpr(d)), (lambda got: isinstance(got, int) and got < 0) if f < 0 else f)
            elif op == 8:
                if len(b) > 200:
                    continue
                sep = c.pick([b"a", b",", b"ab", b"aa", b" ", b"", b[:2], b[-1:]])
                want = b.split(sep) if sep else [b[k:k + 1] for k in range(len(b))]
                s.step("(split %s %s)" % (n, sexpr(sep)), want)
                s.step("(join (split %s %s) %s)" % (n, sexpr(sep), sexpr(sep)), b)
                vs = [c.pick([gens.small_int(c, 1000), Kw(gens.word(c, 1, 4)), True, False, None, F(gens.small_int(c, 400) / 8.0), text(4), text(4), text(4)])
                      for _ in range(c.int(0, 5))]
                for how in ("(list %s)", "(array/new %s)"):
                    s.step("(join %s %s)" % (how % " ".join(expr(v) for v in vs), sexpr(sep)), sep.join(disp(v) for v in vs))
            elif op == 9:
                e = b
                while e and e[0] in WS:
                    e = e[1:]
                while e and e[-1] in WS:
                    e = e[:-1]
                s.step("(trim %s)" % n, e)
                w1, w2 = bytes(c.pick(WS) for _ in range(c.draw(4))), bytes(c.pick(WS) for _ in range(c.draw(4)))
                s.step("(trim (cat %s %s %s))" % (sexpr(w1), n, sexpr(w2)), e)
            elif op in (10, 11):
                how = c.pick(["start", "end", "middle"])
                p = c.pick([b" ", b"0", b"ab", b"xyz", b""])
                w = c.int(0, 25)
                s.step("(pad-%s %s %d %s)" % (how, n, w, sexpr(p)), pad(how, b, w, p))
                s.step("(pad-%s %s %d)" % (how, n, w), pad(how, b, w, b" "))
                k = gens.small_int(c, 5000)
                s.step("(pad-%s %d %d)" % (how, k, w), pad(how, b"%d" % k, w, b" "))
            elif op == 12:
                s.step("(upper-case %s)" % n, upper(b))
                s.step("(lower-case %s)" % n, lower(b))
            elif op == 13:
                out, caps = [], True
                for x in b:
                    out.append((upper if caps else lower)(bytes([x])))
                    caps = x in WS
                s.step("(capitalize %s)" % n, b"".join(out))
            elif op == 14:
                for k, st in ((c.int(0, max(0, len(b) - 1)), "ref"), (c.pick([-1, len(b), len(b) + 1, 2**32]), "ref")):
                    s.step("(ref %s %s)" % (n, expr(k)), b[k] if 0 <= k < len(b) else Raises())
            elif op == 15:
                k = [c.draw(255) for _ in range(c.int(1, 8))]
                s.step("(from-char-code %s)" % " ".join(map(str, k)), bytes(k))
                s.step("(from-char-code 65 %s)" % c.pick(["256", "-1", "\"a\"", "1.5", "#x100000041"]), Raises())
            elif op == 16:
                w = gens.word(c, 1, 8)
                s.step("(:string :%s)" % w.decode(), w)
                s.step("(:string '%s)" % w.decode(), w)
                s.step("(:keyword %s)" % sexpr(w), Kw(w))
                s.step("(:symbol %s)" % sexpr(w), Sym(w))
                s.step("(:keyword '%s)" % w.decode(), Kw(w))
                s.step("(:symbol :%s)" % w.decode(), Sym(w))
                k = gens.int64(c)
                s.step("(:string %s)" % expr(k), b"%d" % k)
                f = gens.float64(c)
                s.step("(:string %s)" % expr(f), show_float(f))
                s.step("(:string %s)" % n, b)
            elif op == 17:
                k = gens.int64(c)
                if abs(k) < 10**17:
                    s.step("(read/int (cat \"\" %s))" % expr(k), k)
                f = F(gens.small_int(c, 100000) / 64.0)
                s.step("(read/float (:string %s))" % expr(f), f)
                u = abs(k) if k != -2**63 else 7
                s.step("(int->string/hex %s)" % expr(u), b"%x" % u)
                s.step("(int->string/HEX %s)" % expr(u), b"%X" % u)
                s.step("(int->string/octal %s)" % expr(u), b"%o" % u)
                s.step("(int->string/binary %s)" % expr(u), bin(u)[2:].encode())
                s.step("(int->string %s)" % expr(k), b"%d" % k)
            elif op == 18:
                s.step("(= %s %s)" % (n, m), b == d)
                s.step("(= %s (cat %s \"\"))" % (n, n), True)
                s.step("(buffer->string (:clone %s))" % n, b)
            elif op == 19:
                bad = c.pick(["1", ":k", "#nil", "1.5"])
                s.step("(:index-of %s %s)" % (n, bad), Raises())
                s.step("(split %s %s)" % (n, bad), Raises())
                s.step("(:cut %s \"1\" 2)" % n, Raises())
            else:
                s.step("(with-string-port p (:block-write p %s) (:char-write p 65) (:write p %s %s))" % (n, m, n), b + b"A" + d + b)
        for i, b in enumerate(strs):
            s.step("s%d" % i, b)
            big[0] = big[0] or len(b) >= 6 or any(x < 32 or x > 126 for x in b)
        return s.case(big=big[0])


class LongTexts(SessionProp):
    """The same functions over strings far longer than any literal."""
    id = "P16.long"
    quick_cases = 120
    batch = 10
    rule = "a case counts when its text has at least 250 bytes"
    SIZES = [126, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4095, 4096, 4097, 10000]

    def gen(self, c):
        n = c.pick(self.SIZES)
        k, m = c.int(1, 99), c.int(2, 9)
        t = bytes(97 + (i * k + m) % 23 for i in range(n))
        s = Session()
        s.do("(def t (let ((b (buffer/allocate %d))) (dotimes (i %d) (set! b i (+ 97 (rem (+ %d (* i %d)) 23)))) (buffer->string b)))" % (n, n, m, k))
        s.step("t", t)
        for _ in range(c.int(1, 4)):
            op = c.draw(11)
            j = c.int(0, n - 1)
            i = c.int(0, j)
            if op == 0:
                s.step("(cat t 1 t)", t + b"1" + t)
            elif op == 1:
                s.step("(:cut t %d %d)" % (i, j), t[i:j])
                s.step("(:cut t %d)" % j, t[j:])
            elif op == 2:
                s.step("(:index-of (cat (:cut t 0 %d) \"XY\" (:cut t %d)) \"XY\")" % (j, j), j)
                s.step("(:index-of (cat t \"XY\" t \"XY\") \"XY\" %d)" % (n + 1), 2 * n + 2)
            elif op == 3:
                s.step("(:last-index-of (cat (:cut t 0 %d) \"XY\" (:cut t %d)) \"XY\")" % (j, j), j)
            elif op == 4:
                w = min(c.int(2, 60), n)
                parts = [t[a:a + w] for a in range(0, n, w)]
                e = "(let ((r #nil)) (dotimes (i %d) (set! r (cons (:cut t (* i %d) (* (+ i 1) %d)) r))) (reverse r))" % (len(parts), w, w)
                s.step(e, parts)
                s.step("(join %s \", \")" % e, b", ".join(parts))
                s.step("(split (join %s \", \") \", \")" % e, parts)
            elif op == 5:
                s.step("(upper-case t)", t.upper())
                s.step("(lower-case (upper-case t))", t)
                s.step("(capitalize (cat t \" \" t))", t.capitalize() + b" " + t.capitalize())
            elif op == 6:
                w = n + c.int(1, 300)
                s.step("(pad-start t %d \"-\")" % w, b"-" * (w - n) + t)
                s.step("(pad-end t %d)" % w, t + b" " * (w - n))
                s.step("(pad-start t %d)" % j, t[n - j:])
                s.step("(pad-end t %d)" % j, t[:j])
            elif op == 7:
                a, b = c.int(0, 300), c.int(0, 300)
                s.step("(trim (cat (pad-end \"\" %d) t (pad-start \"\" %d \"\\n\")))" % (a, b), t)
            elif op == 8:
                s.step("(let ((u (cat t \"x\"))) (list (= t u) (= t (:cut u 0 %d)) (< t u) (equal? (:symbol \"a\") 'a)))" % n, [False, True, True, True])
            elif op == 9:
                s.step("(list (ref t %d) (ref t %d) (:length t))" % (j, n - 1), [t[j], t[-1], n])
                s.step("(ref t %d)" % n, Raises())
            elif op == 10:
                s.step("(:length (split t \"\"))", n)
                s.step("(apply cat (split t \"\"))", t)
            else:
                s.step("(car (read (string/write t)))", t)
                s.step("(fmt \"<{}>\" t)", b"<" + t + b">")
        s.step("t", t)
        return s.case(big=n >= 250)


class Fmt(SessionProp):
    id = "P17.fmt"
    quick_cases = 2500
    rule = "a case counts when the format string has at least 2 placeholders with options"

    def gen(self, c):
        s = Session()
        nph = 0
        for _ in range(c.int(1, 4)):
            args, names, parts, nopt = [], [], [], 0
            # literal text and placeholders
            n = c.int(0, 5)
            pieces = []
            for _ in range(n):
                pieces.append(("lit", bytes(x for x in gens.bytestr(c, 6) if x not in b"{}")))
                pieces.append(("ph",))
            pieces.append(("lit", bytes(x for x in gens.bytestr(c, 6) if x not in b"{}")))
            modes = [c.weighted([(4, "pos"), (2, "num"), (2, "name")]) for _ in range(n)]
            # numbered ones may refer to any argument, positional ones take the last ones in order
            npos = modes.count("pos")
            extra = c.int(0, 2) if "num" in modes else 0
            nargs = npos + extra
            if nargs == 0:
                modes = ["name" if m == "num" else m for m in modes]
            used = set(range(extra, nargs))
            vals, specs = [None] * nargs, [[] for _ in range(nargs)]
            ph, k = [], 0
            for m in modes:
                if m == "pos":
                    ph.append(("pos", extra + k))
                    k += 1
                elif m == "num":
                    i = c.draw(nargs - 1)
                    used.add(i)
                    ph.append(("num", i))
                else:
                    ph.append(("name", len(names)))
                    names.append(None)

            def value():
                k = c.draw(6)
                if k <= 2:
                    return abs(gens.small_int(c, 300)) if c.bool() else (abs(gens.int64(c)) & (2**63 - 1))
                if k == 3:
                    return gens.bytestr(c, 6)
                if k == 4:
                    return F(gens.small_int(c, 2000) / 16.0)
                if k == 5:
                    return -gens.small_int(c, 1000)
                return Kw(gens.word(c, 1, 4))
            vals = [value() for _ in range(nargs)]
            names = [value() for _ in names]
            nm = ["n%s" % gens.word(c, 1, 2).decode() + str(i) for i in range(len(names))]
            bad = False
            fmt, out, pi = "", b"", 0
            throws = False
            for p in pieces:
                if p[0] == "lit":
                    fmt += "".join(chr(x) for x in p[1])
                    out += p[1]
                    continue
                kind, i = ph[pi]
                pi += 1
                v = vals[i] if kind in ("pos", "num") else names[i]
                label = "" if kind == "pos" else str(i) if kind == "num" else nm[i]
                spec, t = self.spec(c, v)
                if spec:
                    nopt += 1
                    label += ":" + spec
                elif c.bool(1, 6):
                    label += ":"
                fmt += "{" + label + "}"
                if t is None:
                    throws = True
                else:
                    out += t
            nph = max(nph, nopt)
            src = lit_str(fmt.encode("latin1"))
            missing = [i for i in range(nargs) if i not in used]
            e = "(fmt %s %s)" % (src, " ".join(expr(v) for v in vals))
            if names:
                e = "(let (%s) %s)" % (" ".join("(%s %s)" % (a, expr(v)) for a, v in zip(nm, names)), e)
            if missing:
                s.step("(eval '%s)" % e, Raises("format-error"))
            else:
                s.step("(eval '%s)" % e if c.bool(1, 3) else e, Raises() if throws else out)
        if c.bool(1, 2):
            a, b = gens.word(c, 0, 3).decode(), gens.word(c, 0, 3).decode()
            badf = c.pick(["%s{%s", "%s}%s", "%s{{}}%s", "%s{5}%s", "%s{-1}%s", "%s{:q}%s", "%s{} {}%s", "%s{1.5}%s", "%s{x y}%s",
                           "%s{:5k}%s", "%s{\"a\"}%s", "%s%s"])
            s.step("(eval '(fmt %s 1))" % lit_str((badf % (a, b)).encode()), Raises())
        if c.bool(1, 3):
            # arguments are evaluated once, in order, however often they are used
            k = c.int(1, 4)
            f = " ".join("{%d}" % c.draw(k - 1) for _ in range(5)) + "".join("{%d}" % i for i in range(k))
            import re
            want = re.sub(r"\{(\d)\}", lambda m: str(int(m.group(1)) + 1), f)
            s.step("(let ((n 0)) (cons (fmt \"%s\" %s) n))" % (f, " ".join("(do (inc! n) n)" for _ in range(k))),
                   __import__("vp.values").values.Pair([want.encode()], k))
        return s.case(big=nph >= 2)

    def spec(self, c, v):
        """A specifier and the text it expands to (None: raises)."""
        if c.bool(1, 3) or isinstance(v, Sym):
            return "", disp(v)
        num = isinstance(v, int)
        base = c.pick(["", "d", "x", "X", "o", "b"]) if num else ("d" if isinstance(v, float) and c.bool() else "")
        prec = c.int(0, 5) if isinstance(v, float) and c.bool(2, 3) else None
        width = c.int(1, 24) if c.bool(2, 3) else None
        zero = width is not None and c.bool(1, 3)
        align = c.pick(["", "", "<", "^", ">"])
        debug = bool(base) and num and c.bool(1, 3) or (
            not base and (type(v) is bytes or width is None and prec is None) and c.bool(1, 3))
        if width is not None and debug and base and width < 3:
            width = 3
        f = align + ("0" if zero else "") + (str(width) if width is not None else "") + (
            ".%d" % prec if prec is not None else "") + base + ("?" if debug else "")
        if base in ("x", "X", "o", "b") and v < 0:
            return f, None
        t = disp(v)
        if base and num:
            t = {"d": "%d", "x": "%x", "X": "%X", "o": "%o", "b": None}[base]
            t = (bin(v)[2:] if t is None else t % v).encode()
        if prec is not None:
            i = t.rfind(b".")
            t = t[:i + 1 + prec]
        if width is not None:
            w = width - 2 if debug and base else width
            t = pad({"<": "end", "^": "middle", ">": "start", "": "start"}[align], t, w, b"0" if zero else b" ")
        if debug and base:
            t = {"d": b"#d", "x": b"#x", "X": b"#x", "o": b"#o", "b": b"#b"}[base] + t
        elif debug:
            if type(v) is bytes:
                t = wr_string(t)
        return f, t


ESC = {0: b"\\0", 7: b"\\a", 8: b"\\b", 9: b"\\t", 10: b"\\n", 11: b"\\v", 12: b"\\f", 13: b"\\r", 27: b"\\e", 34: b'\\"', 92: b"\\\\"}


def wr_string(b):
    return b'"' + b"".join(ESC.get(x, bytes([x])) for x in b) + b'"'


class Paths(SessionProp):
    id = "P18.paths"
    quick_cases = 1500
    rule = "a case counts when its path has a directory part and a period"

    def gen(self, c):
        s = Session()
        parts = []
        for _ in range(c.int(0, 8)):
            parts.append(c.pick([b"/", b".", b"a", b"dir", b"/", b".", gens.word(c, 1, 4), gens.bytestr(c, 3)]))
        p = b"".join(parts)
        s.do("(def p %s)" % expr(p))
        i = p.rfind(b"/")
        s.step("(path/dirname p)", p[:i] if i >= 0 else b"")
        s.step("(path/basename p)", p[i + 1:])
        j = p.rfind(b".")
        if j < i:
            j = -1         # a period in the name of a directory does not count
        s.step("(path/extension p)", p[j + 1:])
        s.step("(path/without-extension p)", p[:j] if j >= 0 else p)
        if i >= 0:
            s.step("(cat (path/dirname p) \"/\" (path/basename p))", p)
        if j >= 0:
            s.step("(cat (path/without-extension p) \".\" (path/extension p))", p)
        e = c.pick([p[j + 1:], lower(p[j + 1:]), b"nuj", b"a", b""])
        s.step("((path/ext?! %s) p)" % expr(e), lower(p[j + 1:]) == e)
        es = [c.pick([lower(p[j + 1:]), b"nuj", b"a"]) for _ in range(c.int(1, 3))]
        s.step("((path/ext?! %s) p)" % expr(es), lower(p[j + 1:]) in es)
        s.step("(:index-of (path/basename p) \"/\")", lambda got: isinstance(got, int) and got < 0)
        s.step("p", p)
        return s.case(big=i >= 0 and j >= 0)


class Chars(SessionProp):
    """Every byte value."""
    id = "P18.chars"
    quick_cases = 32
    batch = 8
    rule = "a case counts for each distinct range of byte values"

    def gen(self, c):
        s = Session()
        a = c.int(0, 31) * 8
        for x in range(a, a + 8):
            s.step("(upper-case-char %d)" % x, upper(bytes([x]))[0])
            s.step("(lower-case-char %d)" % x, lower(bytes([x]))[0])
            s.step("(whitespace? %d)" % x, x in WS)
            s.step("(from-char-code %d)" % x, bytes([x]))
            s.step("(upper-case (from-char-code %d %d))" % (x, x), upper(bytes([x, x])))
        return s.case()


PROPS = [Strings(), LongTexts(), Fmt(), Paths(), Chars()]
