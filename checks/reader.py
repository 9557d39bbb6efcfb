"""Reading and writing: round trips, malformed input, and the grammar's denotation."""
import glob, os, re

from vp import build, gens
from vp.core import Prop, health
from vp.session import norm, normdeep
from vp.values import Arr, Buf, F, Kw, Opaque, Pair, Sym, Tree, expr, same

SYMC = b"abcdefghijklmnopqrstuvwxyz" * 2 + b"ABCXYZ0123456789+-*/<>=!?_%&^$|@~,\\" + bytes([0xCE, 0xB1, 0xF0])


def symname(c, hi=9):
    """A name the reader takes as one symbol."""
    n = c.int(1, hi) if c.bool(19, 20) else c.int(10, 90)
    b = bytes(c.pick(SYMC) for _ in range(n))
    if b[:1].isdigit() or (b[:1] == b"-" and b[1:2].isdigit()) or b[0] in b"~@":
        b = b"s" + b
    return b[:90]


def decfloat(c):
    """A float that six printed decimals can represent."""
    k = c.draw(3)
    if k == 0:
        return F(gens.small_int(c, 1000) / float(c.pick([1, 2, 4, 8, 16, 32, 64])))
    if k == 1:
        v = gens.small_int(c, 10**6) * c.pick([1, 10, 100, 1000])
        return F(float("%d.%06d" % (abs(v), c.draw(999999))) * (-1 if v < 0 else 1))
    if k == 2:
        return F(c.draw(999999) / 10.0**6 if c.bool() else -(c.draw(999999) / 10.0**6))
    return F(float(c.pick([2**40, 10**15, 10**17, 123456789012345, 2**53]) * (-1 if c.bool() else 1)))


def value(c, depth=4, top=False):
    k = c.weighted([(4, 0), (2, 1), (2, 2), (4, 3), (3, 4), (3, 5), (1, 6), (1, 7)] +
                   ([(5, 8), (2, 9), (4, 10), (4, 11), (2, 12)] if depth else [(2, 6)]))
    if k == 0:
        return gens.small_int(c, 20) if c.bool() else c.draw(10**18 - 1) * (-1 if c.bool() else 1)
    if k == 1:
        return c.pick([None, True, False])
    if k == 2:
        return decfloat(c)
    if k == 3:
        if c.bool(1, 40):
            return gens.bytestr(c, 3) * c.int(1, 2500)
        return bytes(c.draw(255) for _ in range(c.int(0, 8))) if c.bool(1, 3) else gens.bytestr(c, 14, nul=True)
    if k == 4:
        return Kw(symname(c))
    if k == 5:
        return Sym(symname(c))
    if k == 6:
        return Buf(bytes(c.draw(255) for _ in range(c.int(0, 12))))
    if k == 7:
        return Sym(c.pick([b"quote", b"quasiquote", b"unquote", b"unquote-splicing", b"array/new", b"tree/new", b"ref", b"-", b"+", b"..."[:1] + b"x"]
                          if False else [b"quote", b"quasiquote", b"unquote", b"unquote-splicing", b"array/new", b"tree/new", b"ref", b"-", b"+"]))
    hi = 5 if c.bool(14, 15) else 60
    sub = lambda: value(c, depth - 1 if hi == 5 else 0)
    if k == 8:
        return [sub() for _ in range(c.int(1, hi))]
    if k == 9:
        t = sub()
        return Pair([sub() for _ in range(c.int(1, 4))], False if c.bool(1, 8) else t)
    if k == 10:
        return Arr(sub() for _ in range(c.int(0, hi)))
    if k == 11:
        return Tree((Kw(symname(c, 6)), sub()) for _ in range(c.int(0, hi)))
    q = Sym(c.pick([b"quote", b"quasiquote", b"unquote", b"unquote-splicing"]))
    return [q] + [sub() for _ in range(c.int(0, 2) if c.bool(1, 4) else 1)]


def bexpr(v):
    """Like expr, without relying on the reader for names."""
    if type(v) is Sym:
        return "(:symbol %s)" % expr(bytes(v))
    if type(v) is Kw:
        return "(:keyword %s)" % expr(bytes(v))
    if isinstance(v, Arr):
        return "(let ((a (:alloc Array %d))) %s a)" % (len(v), " ".join("(set! a %d %s)" % (i, bexpr(x)) for i, x in enumerate(v)))
    if isinstance(v, Tree):
        return "(let ((t (tree/new))) %s t)" % " ".join("(set! t (:symbol %s) %s)" % (expr(bytes(k)), bexpr(x)) for k, x in v.items())
    if isinstance(v, (Pair, list)):
        v = normdeep(v)
        if v is None:
            return "#nil"
        items, r = (v.items, bexpr(v.tail)) if isinstance(v, Pair) else (v, "#nil")
        for x in reversed(items):
            r = "(cons %s %s)" % (bexpr(x), r)
        return r
    return expr(v)


def size(v):
    if isinstance(v, Tree):
        return 1 + sum(map(size, v.values()))
    if isinstance(v, Pair):
        return 1 + sum(map(size, v.items)) + size(v.tail)
    if isinstance(v, list):
        return 1 + sum(map(size, v))
    return 1


def buffers(v):
    if isinstance(v, Tree):
        return any(map(buffers, v.values()))
    if isinstance(v, Pair):
        return any(map(buffers, v.items)) or buffers(v.tail)
    if isinstance(v, list):
        return any(map(buffers, v))
    return isinstance(v, Buf)


class RoundTrip(Prop):
    id = "P01.roundtrip"
    quick_cases = 16000
    rule = "a case counts when the value contains at least 5 nodes or 10 bytes of string"

    def gen(self, c):
        v = value(c, c.int(0, 5))
        w = c.draw(2)
        text = ("(let* (def v %s) (def s (string/write v)) (def r (read s)) (def s2 (string/write (car r))) "
                "(list v s r s2 (if (equal? v (car r)) 1 0)))" % bexpr(v))
        return {"text": text, "value": v}

    def judge(self, case, outs):
        o = outs[0]
        v = normdeep(case["value"])
        if o.kind != "ok" or not isinstance(o.value, list) or len(o.value) != 5:
            return "could not write and read back %r: %r" % (v, o)
        v0, s, r, s2, eq = o.value
        if not same(v0, v):
            return "the value was altered by writing it: %r became %r" % (v, v0)
        if not same(r, [v]):
            return "%.600r was written as %.600r, which reads as %.600r" % (v, s, r)
        if s != s2:
            return "written again, %.500r becomes %.500r" % (s, s2)
        if eq != 1 and not buffers(v):     # equal? compares buffers by identity
            return "%.500r is not equal? to what was read back" % (v,)

    def nontrivial(self, case, outs):
        return size(case["value"]) >= 5 or len(case["text"]) > 160


# ---------------------------------------------------------------- P02

def hexread(b):
    return "(buffer->string #m%s)" % b.hex().upper() if b else '""'


def sources():
    out = []
    for d in ("stdlib", "stdlib_modules", "binlib", "tools", "tests"):
        for p in sorted(glob.glob(os.path.join(build.REPO, d, "**", "*.nuj"), recursive=True)):
            with open(p, "rb") as fh:
                out.append(fh.read())
    return out


_src = []
FRAG = [b"(", b")", b"[", b"]", b"{", b"}", b"'", b"`", b"~", b"~@", b"#", b"#(", b"##(", b"#@(", b"#m", b"#x", b"#b", b"#o", b"#d", b"#t", b"#f",
        b"#nil", b"#n", b"#\\", b"#;", b"#|", b"|#", b"#!", b";", b"\n", b" ", b"\t", b'"', b"\\", b'\\"', b".", b" . ", b"..", b":", b"::", b"a:",
        b":a", b"a.b", b"-", b"-1", b"1", b"1.", b"1.5", b".5", b"1..2", b"1e5", b"999999999999999999", b"9999999999999999999", b"0.000000000000000001",
        b"a", b"foo", b"quote", b"\0", b"\xff", b"\x80", b"#m00", b"#mF", b"#xFF", b"#xFFFFFFFFFFFFFFFFF", b"#\\Tab", b"#\\a", b"_", b",", b"0",
        b"\r", b"\x0b", b"0" * 30, b"x" * 100, b"9" * 17 + b".", b"#;(", b"#;[", b"#|#|", b"\\n", b"\\x", b'"abc"', b"(a . b)"]
PTYPES = {"nil", "bool", "int", "float", "string", "symbol", "keyword", "pair", "array", "tree", "buffer"}


def plain_data(v):
    if isinstance(v, Opaque):
        return v == "too-big"
    if isinstance(v, Tree):
        return all(plain_data(x) for x in v.values())
    if isinstance(v, Pair):
        return all(plain_data(x) for x in v.items) and plain_data(v.tail)
    if isinstance(v, list):
        return all(plain_data(x) for x in v)
    return True


class Malformed(Prop):
    id = "P02.read"
    variant = "asan"
    quick_cases = 6000
    thorough_factor = 40
    batch = 150
    rule = "a case counts when the text contains at least two of the characters ( ) [ ] { } ' ` ~ # \" . : ;"

    def gen(self, c):
        k = c.draw(4)
        if k == 0:
            b = bytes(c.draw(255) for _ in range(c.int(0, 30)))
        elif k == 1:
            b = b"".join(c.pick(FRAG) for _ in range(c.int(1, 25)))
        elif k == 2:
            if not _src:
                _src.extend(sources())
            s = _src[c.draw(len(_src) - 1)]
            n = c.int(1, 300)
            a = c.draw(max(0, len(s) - n))
            b = bytearray(s[a:a + n])
            for _ in range(c.int(0, 6)):
                i = c.draw(len(b))
                m = c.draw(2)
                if m == 0:
                    b[i:i] = c.pick(FRAG)
                elif m == 1:
                    del b[i:i + c.int(1, 4)]
                elif i < len(b):
                    b[i] = c.draw(255)
            b = bytes(b)
        elif k == 3:
            b = Grammar().text(c)[0]
            for _ in range(c.int(1, 4)):
                i = c.draw(len(b))
                b = b[:i] + (c.pick(FRAG) if c.bool() else b"") + b[i + c.draw(2):]
        else:
            # long repetitions
            if c.bool(1, 25):
                unit = c.pick([b"a.", b".", b"a.b.", b"'", b"~@", b"`", b"(", b"[", b"#@(:a ", b"#;", b"#|", b"(a . ", b":a.", b"((", b"'(", b"1.", b"{:a "])
                b = unit * c.pick([20000, 100000, 200000]) + c.pick([b"", b"a", b")"])
                return {"text": "(read %s)" % hexread(b), "bytes": b}
            b = c.pick(FRAG) * c.pick([2, 10, 93, 94, 95, 127, 128, 129, 1000, 5000]) + c.pick(FRAG) * c.int(0, 3)
        return {"text": "(read %s)" % hexread(b), "bytes": b}

    def judge(self, case, outs):
        o = outs[0]
        if o.kind == "ok":
            if not isinstance(o.value, (list, Pair)):
                return "reading %r gave %r instead of a list" % (case["bytes"], o)
            if not plain_data(o.value):
                return "reading %r gave something that is no data: %r" % (case["bytes"], o)
            return None
        if o.kind == "exc" and isinstance(o.value, list) and len(o.value) >= 2 and isinstance(o.value[0], Kw) and type(o.value[1]) is bytes:
            return None
        return "reading %.300r: %r" % (case["bytes"], o)

    def nontrivial(self, case, outs):
        return sum(case["bytes"].count(x) for x in b"()[]{}'`~#\".:;") >= 2

    def show(self, case):
        return repr(case["bytes"])


# ---------------------------------------------------------------- P03

class Grammar(Prop):
    """Texts generated together with what they denote."""
    id = "P03.grammar"
    quick_cases = 14000
    rule = "a case counts when the text holds at least 4 tokens, or a nested form"

    def sep(self, c, need=True):
        """Whitespace and comments between two tokens."""
        out = [b" " if need else b""]
        for _ in range(c.weighted([(12, 0), (4, 1), (2, 2), (1, 3)])):
            k = c.draw(6)
            if k == 0:
                out.append(c.pick([b" ", b"  ", b"\n", b"\t", b"\r\n", b"\x0c", b"\x0b"]))
            elif k == 1:
                out.append(b"; " + bytes(c.pick(b"abc()[]{}\"'#;|\\: ") for _ in range(c.int(0, 10))) + b"\n")
            elif k == 2:
                out.append(b" #|" + self.block(c, 2) + b"|# ")
            elif k == 3:
                out.append(b" #;" + self.datum(c, 1)[0] + b" ")
            elif k == 4:
                out.append(b" #;" + b" #; " + self.datum(c, 0)[0] + b" " + self.datum(c, 0)[0] + b" ")
            elif k == 5:
                out.append(b"\n\n ")
            else:
                out.append(b";\n")
        return b"".join(out)

    def block(self, c, depth):
        out = b""
        for _ in range(c.int(0, 3)):
            if depth and c.bool(1, 3):
                out += b"#|" + self.block(c, depth - 1) + b"|#"
            else:
                out += bytes(c.pick(b"abc ()[]\"';:\n\\ ") for _ in range(c.int(0, 8)))
        return out

    def digits(self, c, digits, lo, hi, group):
        n = c.int(lo, hi)
        d = bytes(c.pick(digits) for _ in range(n))
        if group and n > 1 and c.bool(1, 4):
            out = b""
            for i, x in enumerate(d):
                out += bytes([x])
                if i < n and c.bool(1, 4):
                    out += c.pick([b",", b"_"])
            return d, out
        return d, d

    def datum(self, c, depth):
        k = c.weighted([(4, 0), (2, 1), (3, 2), (3, 3), (2, 4), (3, 5), (3, 6), (2, 7), (1, 8)] +
                       ([(8, 9), (2, 10), (3, 11), (2, 12), (3, 13), (2, 14), (2, 15), (1, 16)] if depth else []))
        if k == 0:
            d, t = self.digits(c, b"0123456789", 1, 18, True)
            neg = c.bool(1, 4)
            v = int(d)
            return (b"-" if neg else b"") + t, -v if neg else v
        if k == 1:
            name, base, ds, mx = c.pick([(b"x", 16, b"0123456789abcdefABCDEF", 16), (b"d", 10, b"0123456789", 18),
                                         (b"o", 8, b"01234567", 21), (b"b", 2, b"01", 64)])
            d, t = self.digits(c, ds, 1, mx, True)
            neg = c.bool(1, 6)
            v = gens.wrap(int(d, base))
            return b"#" + name + (b"-" if neg else b"") + t, gens.wrap(-v) if neg else v
        if k == 2:
            a, ta = self.digits(c, b"0123456789", 1, c.pick([1, 3, 18]), c.bool(1, 4))
            z = b"0" * c.pick([0, 0, 0, 1, 3, 10])
            b, tb = self.digits(c, b"0123456789", 1, c.pick([1, 2, 6, 18]), c.bool(1, 5))
            neg = c.bool(1, 4)
            t = (b"-" if neg else b"") + a + b"." + z + b
            return (b"-" if neg else b"") + ta + b"." + z + tb, F(float(t))
        if k == 3:
            out, v = b'"', b""
            for _ in range(c.int(0, 12) if c.bool(30, 31) else c.int(1000, 1100)):
                if c.bool(1, 4):
                    e, x = c.pick([(b"0", 0), (b"a", 7), (b"b", 8), (b"t", 9), (b"n", 10), (b"v", 11), (b"f", 12), (b"r", 13), (b"e", 27),
                                   (b'"', 34), (b"\\", 92)])
                    out += b"\\" + e
                    v += bytes([x])
                else:
                    x = c.int(1, 255) if c.bool(1, 3) else c.pick(b"abc ;#()'|{}[].:~`")
                    if x in (34, 92):
                        x = 97
                    out += bytes([x])
                    v += bytes([x])
            return out + b'"', v
        if k == 4:
            n, x = c.pick([(b"Backspace", 8), (b"Tab", 9), (b"Linefeed", 10), (b"Return", 13), (b"lf", 10), (b"cr", 13)] +
                          [(bytes([x]), x) for x in range(33, 127)])
            return b"#\\" + n, x
        if k == 5:
            n = symname(c)
            return (b":" + n if c.bool() else n + b":"), Kw(n)
        if k == 6:
            n = symname(c)
            return n, Sym(n)
        if k == 7:
            return c.pick([(b"#t", True), (b"#f", False), (b"#nil", None)])
        if k == 8:
            d = bytes(c.draw(255) for _ in range(c.int(0, 8)))
            return b"#m" + d.hex().upper().encode(), Buf(d)
        if k == 16:
            parts = [symname(c, 4) for _ in range(c.int(2, 4))]
            parts = [p.replace(b",", b"x") for p in parts]
            v = Sym(parts[0])
            for p in parts[1:]:
                v = [Sym(b"ref"), v, Kw(p)]
            return b".".join(parts), v
        if k in (14, 15):
            q, s = c.pick([(b"'", b"quote"), (b"`", b"quasiquote"), (b"~", b"unquote"), (b"~@", b"unquote-splicing")])
            t, v = self.datum(c, depth - 1)
            sp = self.sep(c, False) if c.bool(1, 6) else b""
            return q + sp + t, [Sym(s), v]
        wide = not c.bool(24, 25)
        n = c.int(30, 200) if wide else c.int(1, 5)
        items = [self.datum(c, 0 if wide else depth - 1) for _ in range(n)]
        if k == 13:
            items = [x for kv in items for x in ((lambda m: (c.pick([b":" + m, m + b":"]), Kw(m)))(symname(c, 5)), kv)]
        body = self.sep(c, False) + b"".join(t + self.sep(c, i + 1 < len(items) or t[:1] in b"#;") for i, (t, v) in enumerate(items))
        # character literals and comments may swallow what directly follows
        vals = [v for t, v in items]
        if k == 9:
            return b"(" + body + b" )", vals
        if k == 10:
            t, v = self.datum(c, depth - 1)
            return b"(" + body + b" . " + self.sep(c, False) + t + self.sep(c) + b")", Pair(vals, v)
        if k == 11:
            return b"[" + body + b" ]", [Sym(b"array/new")] + vals
        if k == 12:
            return b"##(" + body + b" )", Arr(vals)
        if c.bool():
            return b"{" + body + b" }", [Sym(b"tree/new")] + vals
        return b"#@(" + body + b" )", Tree(zip(vals[::2], vals[1::2]))

    def text(self, c):
        items = [self.datum(c, c.int(0, 4)) for _ in range(c.int(1, 4))]
        t = self.sep(c, False)
        for x, _ in items:
            t += x + self.sep(c)
        return t, [v for _, v in items]

    def gen(self, c):
        k = c.draw(30)
        if k == 0:
            # nesting
            n = c.int(1, 2000)
            o, z = c.pick([(b"(", b")"), (b"##(", b")"), (b"( ", b"\n)")])
            x, v = self.datum(c, 0)
            t = o * n + x + b" " + z * n
            vals = [v]
            return {"text": "(let* (def r (car (read %s))) (def n 0) (while (or (pair? r) (= :array (:type-name r))) "
                            "(set! r (if (pair? r) (car r) (ref r 0))) (set! n (inc/int n))) (list n r))" % hexread(t),
                    "want": [n, v], "bytes": t, "big": True}
        t, vals = self.text(c)
        return {"text": "(read %s)" % hexread(t), "want": vals, "bytes": t, "big": len(t.split()) >= 4 or any(isinstance(v, (list, Pair, Tree)) for v in vals)}

    def judge(self, case, outs):
        o = outs[0]
        if o.kind != "ok" or not same(o.value, normdeep(case["want"])):
            return "the text %.1500r\n denotes %.1000r\n but read as %r" % (case["bytes"].decode("latin1"), normdeep(case["want"]), o)

    def nontrivial(self, case, outs):
        return case["big"]

    def show(self, case):
        return case["bytes"].decode("latin1")


class Toobig(Prop):
    """Literals that do not fit must be refused, not truncated."""
    id = "P03.limits"
    quick_cases = 400
    rule = "every case: a literal with too many digits, a bad digit or a malformed form, which has to be refused"

    def gen(self, c):
        k = c.draw(5)
        if k == 0:
            t = c.pick([b"", b"-"]) + b"1" + bytes(c.pick(b"0123456789") for _ in range(c.int(18, 60)))
        elif k == 1:
            t = c.pick([b"#x" + b"F" * c.int(17, 40), b"#b1" + b"0" * c.int(64, 90), b"#o" + b"7" * c.int(22, 40)])
        elif k == 2:
            t = bytes(c.pick(b"0123456789") for _ in range(c.int(1, 5))) + c.pick([b"a", b"x1", b"kg", b"e5", b"-1", b"+"])
        elif k == 3:
            t = c.pick([b"#b102", b"#o18", b"#xG", b"#d1A", b"1.2.3", b"1..2", b"#m0", b"#mGG", b"#mff", b"#q"])
        elif k == 4:
            t = c.pick([b"(", b"[", b"{", b"##(", b"#@(", b"(1 . ", b"(1 .", b"\"abc"]) + c.pick([b"", b"1 2", b"a"])
        else:
            t = c.pick([b"(1 . )", b"( . 1)", b"(1 . 2 3)", b"(1 . 2 . 3)", b")", b"]", b"}", b"(1]", b"[1)", b"{a 1)", b"\"\\q\"", b"'", b"#;", b"(#;)", b"(')"])
        pre = c.pick([b"", b"1 ", b"(a b) "])
        return {"text": "(read %s)" % hexread(pre + t), "bytes": pre + t}

    def judge(self, case, outs):
        o = outs[0]
        if o.kind != "exc" or o.value[0] not in (Kw(b"read-error"), Kw(b"unmatched-opening-bracket")):
            return "expected a read error for %r, got %r" % (case["bytes"], o)


PROPS = [RoundTrip(), Malformed(), Grammar(), Toobig()]
