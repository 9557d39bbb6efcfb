"""Buffers and typed views against a bytearray; immutability of what is immutable."""
import struct

from vp import gens
from vp.session import Any, AnyOrRaise, Raises, Session, SessionProp
from vp.values import Buf, F, Kw, Opaque, Tree, expr

VIEWS = {"u8": "B", "s8": "b", "u16": "H", "s16": "h", "u32": "I", "s32": "i", "s64": "q", "f32": "f", "f64": "d"}
WRONG = ['"x"', "#nil", ":k", "#t", "'(1)"]


def hexlit(b):
    return "#m" + bytes(b).hex().upper()


def f32(x):
    try:
        return struct.pack("<f", x)
    except OverflowError:
        return struct.pack("<f", float("inf") if x > 0 else float("-inf"))


class B:
    def __init__(self, name, data, immutable=False):
        self.name, self.data, self.immutable = name, bytearray(data), immutable


class V:
    def __init__(self, name, buf, typ, immutable):
        self.name, self.buf, self.typ, self.immutable = name, buf, typ, immutable
        self.size = struct.calcsize(VIEWS[typ])
        self.length = len(buf.data) // self.size

    def ref(self, i):
        x = struct.unpack_from("<" + VIEWS[self.typ], self.buf.data, i * self.size)[0]
        if self.typ in ("f32", "f64"):
            return Raises() if x != x or x in (float("inf"), float("-inf")) else F(x)
        return x

    def put(self, i, x):
        if self.typ == "f32":
            b = f32(float(x))
        elif self.typ == "f64":
            b = struct.pack("<d", float(x))
        else:
            b = (x & (2**64 - 1)).to_bytes(8, "little")[:self.size]
        self.buf.data[i * self.size:(i + 1) * self.size] = b


class Buffers(SessionProp):
    id = "P14.buffers"
    quick_cases = 2400
    rule = "a case counts when it performs at least 10 operations, at least three of them stores through a view"

    def gen(self, c):
        s = Session()
        bs, vs = [], []
        stores = [0]

        def newb(src, data, immutable=False):
            n = "b%d" % len(bs)
            s.define(n, src, Buf(data))
            bs.append(B(n, data, immutable))

        def index(n):
            k = c.weighted([(9, 0), (1, 1), (1, 2), (1, 3)])
            if k == 0 and n:
                return c.int(0, n - 1)
            return [n, n + c.int(0, 20), -1 - c.draw(3), c.pick([2**31, 2**32, 2**32 + 1, 2**63 - 1, -2**63])][k]

        def dump():
            for b in bs:
                s.step(b.name, Buf(b.data))
        newb("(buffer/allocate 16)", bytes(16))
        for t in (c.pick(sorted(VIEWS)), c.pick(sorted(VIEWS))):
            v = V("v%d" % len(vs), bs[0], t, False)
            s.define(v.name, "(:%s b0)" % t, Opaque("buffer-view"))
            vs.append(v)
        nops = c.int(2, 40)
        for _ in range(nops):
            op = c.weighted([(2, 0), (6, 1), (4, 2), (4, 3), (14, 4), (8, 5), (2, 6), (3, 7), (2, 8), (3, 9), (3, 10), (2, 11), (2, 12)])
            b = c.pick(bs)
            if op == 0:
                k = c.draw(4)
                if k <= 1:
                    n = c.pick([0, 1, 2, 3, 4, 7, 8, 9, 16, 31, 64, 100])
                    newb("(buffer/allocate %d)" % n, bytes(n))
                elif k == 2:
                    d = gens.bytestr(c, 12)
                    newb("(:clone %s)" % expr(d), d)
                elif k == 3:
                    d = bytes(c.draw(255) for _ in range(c.int(1, 20)))
                    newb(hexlit(d), d, True)
                else:
                    s.step("(buffer/allocate %s)" % c.pick(["-1", "1.0", "#nil", '"3"', "%d" % 2**40, "%d" % (2**31 - 1)]), Raises())
            elif op == 1:
                i = index(len(b.data))
                if c.bool(1, 10):
                    s.step("(set! %s %s %s)" % (b.name, expr(i), c.pick(WRONG + ["1.5"])), Raises())
                else:
                    x = gens.int64(c)
                    ok = not b.immutable and 0 <= i < len(b.data)
                    if ok:
                        b.data[i] = x & 255
                    s.step("(set! %s %s %s)" % (b.name, expr(i), expr(x)), Buf(b.data) if ok else Raises())
            elif op == 2:
                i = index(len(b.data))
                s.step("(ref %s %s)" % (b.name, expr(i)), b.data[i] if 0 <= i < len(b.data) else Raises())
            elif op == 3:
                t = c.pick(sorted(VIEWS))
                f = c.weighted([(4, ""), (1, " #f"), (1, " #t")])
                n = "v%d" % len(vs)
                if f == " #f" and b.immutable:
                    s.step("(:%s %s #f)" % (t, b.name), Raises())
                    continue
                v = V(n, b, t, b.immutable or f == " #t")
                s.define(n, "(:%s %s%s)" % (t, b.name, f), Opaque("buffer-view"))
                s.step("(:length %s)" % n, v.length)
                s.step("(:immutable? %s)" % n, v.immutable)
                vs.append(v)
            elif op == 4 and vs:
                v = c.pick(vs)
                i = index(v.length)
                x = gens.float64(c) if v.typ[0] == "f" and c.bool() else gens.int64(c)
                if c.bool(1, 12):
                    w = c.pick(WRONG + ([] if v.typ[0] == "f" else ["1.5"]))
                    s.step("(set! %s %s %s)" % (v.name, expr(i), w), Raises())
                    continue
                ok = not v.immutable and 0 <= i < v.length
                if ok:
                    v.put(i, x)
                    stores[0] += 1
                s.step("(do (set! %s %s %s) #t)" % (v.name, expr(i), expr(x)), True if ok else Raises())
            elif op == 5 and vs:
                v = c.pick(vs)
                i = index(v.length)
                s.step("(ref %s %s)" % (v.name, expr(i)), v.ref(i) if 0 <= i < v.length else Raises())
            elif op == 6 and vs:
                v = c.pick(vs)
                k = c.draw(2)
                if k == 0:
                    s.step("(:buffer %s)" % v.name, Buf(v.buf.data))
                elif k == 1:
                    i, x = index(len(v.buf.data)), c.draw(255)
                    ok = not v.buf.immutable and 0 <= i < len(v.buf.data)
                    if ok:
                        v.buf.data[i] = x
                    s.step("(do (set! (:buffer %s) %s %d) #t)" % (v.name, expr(i), x), True if ok else Raises())
                else:
                    s.step("(list (:length %s) (:immutable? %s))" % (v.name, v.name), [v.length, v.immutable])
            elif op == 7:
                n = c.pick([len(b.data), len(b.data) + 1, len(b.data) + c.int(0, 60), len(b.data) - 1, -1, 0])
                ok = not b.immutable and n >= len(b.data)
                if ok:
                    b.data += bytes(n - len(b.data))
                s.step("(:length! %s %d)" % (b.name, n), Buf(b.data) if ok else Raises())
            elif op == 8:
                f, imm = c.weighted([(3, ("", False)), (1, (" #f", False)), (1, (" #t", True))])
                newb("(:clone %s%s)" % (b.name, f), b.data, imm)
            elif op == 9:
                src = c.pick(bs)
                data, name = bytes(src.data), src.name
                if c.bool(1, 3):
                    data = gens.bytestr(c, 10)
                    name = expr(data)
                off = c.int(0, len(b.data) + 2) if c.bool(9, 10) else c.pick([-1, 2**32, 2**63 - 1, -2**63])
                n = None if c.bool(1, 3) else c.int(0, len(data) + 2) if c.bool(9, 10) else c.pick([-1, 2**32, 2**63 - 1])
                ln = len(data) if n is None else n
                ok = not b.immutable and off >= 0 and 0 <= ln <= len(data) and off + ln <= len(b.data)
                if ok:
                    b.data[off:off + ln] = data[:ln]
                s.step("(buffer/copy %s %s %s%s)" % (b.name, name, expr(off), "" if n is None else " " + expr(n)),
                       Buf(b.data) if ok else Raises())
            elif op == 10:
                lo = c.int(-2, len(b.data) + 2)
                hi = None if c.bool(1, 3) else c.int(-2, len(b.data) + 3) if c.bool(9, 10) else c.pick([2**40, -2**63])
                a, z = max(0, lo), len(b.data) if hi is None else min(len(b.data), max(0, hi))
                newb("(:cut %s %d%s)" % (b.name, lo, "" if hi is None else " " + expr(hi)), b.data[a:z] if z > a else b"")
            elif op == 11:
                ln = None if c.bool(1, 3) else c.int(-1, len(b.data) + 2)
                off = None if ln is None or c.bool() else c.int(-1, len(b.data) + 2)
                n = len(b.data) if ln is None else min(ln, len(b.data))
                o = 0 if off is None else max(0, off)
                s.step("(buffer->string %s%s%s)" % (b.name, "" if ln is None else " %d" % ln, "" if off is None else " %d" % off),
                       bytes(b.data[o:n]) if o <= n else b"")
            else:
                s.step("(list (:length %s) (:immutable? %s) (buffer? %s))" % (b.name, b.name, b.name),
                       [len(b.data), b.immutable, True])
            if c.bool(1, 4):
                dump()
        dump()
        for v in vs:
            if v.length <= 40:
                for i in range(v.length):
                    s.step("(ref %s %d)" % (v.name, i), v.ref(i))
        return s.case(big=nops >= 10 and stores[0] >= 3)


class Immutable(SessionProp):
    """Everything that is immutable is compared after every attempt to change it or something made from it."""
    id = "P15.immutable"
    quick_cases = 2400
    rule = "a case counts when it makes at least 10 attempts to modify"

    def gen(self, c):
        s = Session()
        imm = []      # (name, value): must never change
        var = []      # names of values made along the way, whatever they are

        def newi(src, val):
            n = "i%d" % len(imm)
            s.define(n, src, val)
            imm.append((n, val))

        def any_data():
            return gens.bytestr(c, 12)
        for _ in range(c.int(1, 4)):
            k = c.draw(9)
            d = gens.bytestr(c, 12)
            if k == 0:
                newi(expr(d), d)
            elif k == 1:
                newi("(cat %s %s)" % (expr(d), expr(d)), d + d)
            elif k == 2:
                newi("(:clone %s #t)" % expr(d), Buf(d))
            elif k == 3:
                d = d or b"x"
                newi(hexlit(d), Buf(d))
            elif k == 4:
                n = "m%d" % len(var)
                s.define(n, "(:clone %s)" % expr(d), Buf(d))
                var.append(n)
                newi("(buffer->string %s)" % n, d)
            elif k == 5:
                n = "m%d" % len(var)
                s.define(n, "(:clone %s)" % expr(d), Buf(d))
                var.append(n)
                newi("(:clone %s #t)" % n, Buf(d))
            elif k == 6:
                w = gens.word(c)
                newi("(:string '%s)" % w.decode(), w)
            elif k == 7:
                t = Tree((Kw(gens.word(c, 1, 2)), c.pick([1, b"x", True])) for _ in range(c.int(1, 9)))
                newi("#@(%s)" % " ".join(":%s %s" % (bytes(a).decode(), expr(b)) for a, b in t.items()), t)
            elif k == 8:
                newi("(:cut %s 1)" % expr(b"x" + d), d)
            else:
                w = gens.word(c)
                newi("(:string %s)" % expr(w), w)
        nops = c.int(2, 25)
        for _ in range(nops):
            pool = [n for n, _ in imm] + var
            x = c.pick([n for n, _ in imm]) if c.bool(2, 3) else c.pick(pool)
            y = c.pick(pool)
            i = c.weighted([(4, 0), (2, 1), (1, 5), (1, -1)])
            val = c.pick(["7", "255", "-1", "1.5", '"z"', "#nil"])
            k = c.draw(19)
            key = ":" + gens.word(c, 1, 2).decode()
            t = c.pick(sorted(VIEWS))
            mut = ["(set! %s %d %s)" % (x, i, val), "(set! (:%s %s) %d %s)" % (t, x, i, val),
                   "(:length! %s %d)" % (x, c.draw(40)), "(buffer/copy %s %s %d)" % (x, y, c.draw(2)),
                   "(buffer/copy %s \"zz\" 0 1)" % x, "(set! %s %s %s)" % (x, key, val),
                   "(tree/+= %s %s 1)" % (x, key), "(set! (:left* %s) %s %s)" % (x, key, val),
                   "(set! (:right* %s) %s %s)" % (x, key, val), "(set! (:left* (:left* %s)) %s %s)" % (x, key, val),
                   "(set! (:buffer (:u8 %s #t)) %d %s)" % (x, i, val),
                   "(let ((fh (file/open-input* \"main.nuj\"))) (try (fn (e) (file/close* fh) (throw e)) (file/read* fh %s 1 0)) (file/close* fh))" % x,
                   "(set! (:%s %s #t) %d %s)" % (t, x, i, val)]
            make = ["(:clone %s)" % x, "(:u8 %s)" % x, "(:u8 %s #t)" % x, "(:cut %s 0)" % x, "(cat %s \"\")" % x, "(buffer->string %s)" % x,
                    "(:left* %s)" % x, "(tree/merge %s {})" % x, "(:string %s)" % x, "(:uppercase %s)" % x, "(trim %s)" % x,
                    "(:symbol %s)" % x, "(:keyword %s)" % x, "(tree/merge {} %s)" % x, "(:right* %s)" % x,
                    "(string/pad-start %s 3)" % x, "(tree/filter %s (fn (x) #t))" % x, "(car (split %s \"a\"))" % x,
                    "(string/replace %s \"q\" \"w\")" % x]
            if c.bool(2, 3):
                s.step("(do %s #t)" % c.pick(mut), AnyOrRaise())
            else:
                n = "m%d" % len(var)
                s.do("(def %s (try (fn (e) #nil) %s))" % (n, c.pick(make)))
                var.append(n)
            for n, v in imm:
                s.step(n, v)
        # direct attempts must be refused
        n, v = c.pick(imm)
        if not isinstance(v, Tree) and v:
            s.step("(set! %s 0 1)" % n, Raises())
            s.step("(:length! %s 50)" % n, Raises())
            s.step("(buffer/copy %s \"a\" 0)" % n, Raises())
            if isinstance(v, Buf):
                s.step("(set! (:s8 %s) 0 1)" % n, Raises())
                s.step("(:u16 %s #f)" % n, Raises())
        elif v:
            s.step("(set! %s :zz 1)" % n, Raises())
        for n, v in imm:
            s.step(n, v)
        return s.case(big=nops >= 10)


PROPS = [Buffers(), Immutable()]
