"""Bytecode (P29): assembling, running and disassembling, against a decoder and a stack machine of our own."""
from vp import lang
from vp.core import Prop, health
from vp.lang import text
from vp.session import norm, normdeep
from vp.values import Arr, Kw, Opaque, Pair, Sym, expr, same

PLAIN = {0: "nop", 1: "ret", 3: "add/int", 12: "dup", 13: "drop", 17: "car", 18: "cdr", 19: "closure/push", 20: "cons", 21: "let", 22: "closure/pop",
         23: "fn/dynamic", 24: "macro/dynamic", 27: "push/true", 28: "push/false", 29: "eval", 30: "<", 31: "<=", 32: "=", 33: ">=", 34: ">",
         35: "inc/int", 36: "push/nil", 37: "add", 38: "sub", 39: "mul", 40: "div", 41: "rem", 42: "zero?", 43: "ref", 44: "cadr", 45: "mutable-eval",
         47: "throw", 48: "apply/collection", 49: "bit-shift-left", 50: "bit-shift-right", 51: "bit-and", 52: "bit-or", 53: "bit-xor", 54: "bit-not",
         55: "set/gen", 56: "not="}
CODE = {v: k for k, v in PLAIN.items()}
LIT8 = {5: "set/val", 7: "def/val", 14: "get/val", 26: "push/val"}
LIT16 = {6: "push/val", 8: "def/val", 15: "get/val", 16: "set/val"}
JUMP = {9: "jmp", 10: "jt", 11: "jf", 25: "try"}


class Bad(Exception):
    pass


def decode_bytes(bs, lits):
    """The operations that these bytes are, as (offset, name, operand, wide)."""
    out, i = [], 0

    def lit(n):
        if n >= len(lits):
            raise Bad("literal %d of %d" % (n, len(lits)))
        return lits[n]

    def at(n):
        if n >= len(bs):
            raise Bad("the bytes end within an operation")
        return bs[n]
    while i < len(bs):
        op = bs[i]
        if op in PLAIN:
            out.append((i, PLAIN[op], None, False))
            i += 1
        elif op == 2:
            b = at(i + 1)
            out.append((i, "push/int/byte", b - 256 if b > 127 else b, False))
            i += 2
        elif op in (4, 46):
            out.append((i, "apply" if op == 4 else "list", at(i + 1), False))
            i += 2
        elif op in LIT8:
            out.append((i, LIT8[op], lit(at(i + 1)), False))
            i += 2
        elif op in LIT16:
            out.append((i, LIT16[op], lit(at(i + 1) << 8 | at(i + 2)), True))
            i += 3
        elif op in JUMP:
            o = at(i + 1) << 8 | at(i + 2)
            out.append((i, JUMP[op], o - 65536 if o > 32767 else o, False))
            i += 3
        else:
            raise Bad("byte %d at %d is no operation" % (op, i))
    return out


def listing(ops, nested):
    """What the disassembler should list for these operations."""
    out = []
    for at, name, arg, wide in ops:
        if name in ("jmp", "jt", "jf"):
            e = [Sym(b"$" + name.encode() + b"*"), arg]
        elif name in ("push/val", "def/val", "get/val", "set/val"):
            if type(arg) is Sym or (isinstance(arg, (list, Pair)) and not isinstance(arg, Arr) and not (isinstance(arg, list) and not arg)):
                arg = Pair([Sym(b"quote")], [arg]) if False else [Sym(b"quote"), arg]
            e = [Sym(b"$" + name.encode() + (b"/ext" if wide else b"")), nested(arg)]
        elif arg is None:
            e = [Sym(b"$" + name.encode())]
        else:
            e = [Sym(b"$" + name.encode()), arg]
        out.append([at] + e)
    return out


class Listing(Prop):
    """Random operations and labels: what they assemble to and how that is listed."""
    id = "P29.listing"
    quick_cases = 1500
    batch = 40
    rule = "a case counts when it has at least 8 operations, one of them a jump"

    def gen(self, c):
        n = c.weighted([(10, c.int(1, 12)), (6, c.int(5, 60)), (1, 300), (1, 700)])
        nlab = c.int(0, 5)
        labels = [":l%d" % i if c.bool() else "'lab%d" % i for i in range(nlab)]
        places = [c.draw(n) for _ in labels]
        distinct = c.bool(1, 3) or n >= 300
        ops, src, k = [], [], [0]

        def value():
            t = c.draw(8)
            k[0] += 1
            u = k[0] if distinct else c.int(0, 6)
            return [u * 1000 + 200, b"s%d" % u, Kw(b"k%d" % u), Sym(b"y%d" % u), u + 0.5, [1, u], True, Arr([u, 2]), 0.0][t]

        def sym():
            k[0] += 1
            return Sym(b"v%d" % (k[0] if distinct else c.int(0, 6)))
        for i in range(n + 1):
            for l, p in zip(labels, places):
                if p == i:
                    ops.append(("label", l))
                    src.append("(list :label %s)" % l)
            if i == n:
                break
            t = c.draw(11)
            if t <= 3:
                nm = c.pick(sorted(CODE))
                ops.append((nm, None))
                src.append("($%s)" % {"fn/dynamic": c.pick(["fn/new", "fn/dynamic"]), "macro/dynamic": c.pick(["macro/new", "macro/dynamic"])}.get(nm, nm))
            elif t == 4:
                v = c.pick([0, 1, -1, 127, -128, c.int(-128, 127)])
                ops.append(("push/int/byte", v))
                src.append("(%s %d)" % (c.pick(["$push/int", "$push/int/byte"]), v))
            elif t == 5:
                v = c.pick([128, -129, 255, 256, 1 << 40, -(1 << 40)])
                ops.append(("push/val", v))
                src.append("($push/int %d)" % v)
            elif t == 6:
                nm, v = c.pick(["apply", "list"]), c.pick([0, 1, 2, 254, 255])
                ops.append((nm, v))
                src.append("($%s %d)" % (nm, v))
            elif t == 7 or (t >= 9 and not labels):
                v = value()
                ops.append(("push/val", v))
                src.append("($push/val %s)" % expr(v))
            elif t == 8:
                nm, v = c.pick(["get/val", "set/val", "def/val"]), sym()
                ops.append((nm, v))
                src.append("($%s %s)" % (nm, expr(v)))
            else:
                nm, l = c.pick(["jmp", "jt", "jf", "try"]), c.pick(labels)
                ops.append((nm, l))
                src.append("($%s %s)" % (nm, l))
        # grouped as the compiler does it: nested lists and empty ones make no difference
        if c.bool(1, 3) and 2 < len(src) < 200:
            a = c.draw(len(src) - 1)
            b = c.int(a, len(src))
            src[a:b] = ["(list %s)" % " ".join(src[a:b])] if c.bool() else ["(list (list %s) #nil)" % " ".join(src[a:b])]
        # lists are no longer than what may be given to a function
        while len(src) > 200:
            src = ["(list %s)" % " ".join(src[i:i + 100]) for i in range(0, len(src), 100)]
        return {"text": "(let* (def bc (assemble %s)) (list (:array bc) (:literals bc) (disassemble bc) (:length bc)))" % " ".join(src), "ops": ops,
                "n": n}

    def judge(self, case, outs):
        o = outs[0]
        if o.kind != "ok":
            return "expected a listing, got %r" % o
        bs, lits, dis, length = o.value
        if length != len(bs):
            return "length %r for %d bytes" % (length, len(bs))
        try:
            got = decode_bytes(bs, lits or [])
        except Bad as e:
            return "the assembled bytes make no sense: %s: %r" % (e, bs)
        ends = [at for at, _, _, _ in got[1:]] + [len(bs)]
        pos, place, i = 0, {}, 0
        for nm, v in case["ops"]:
            if nm == "label":
                place[v] = pos
            else:
                if i >= len(got):
                    return "only %d operations assembled" % len(got)
                pos = ends[i]
                i += 1
        if i != len(got):
            return "%d operations assembled from %d" % (len(got), i)
        i = 0
        for nm, v in case["ops"]:
            if nm == "label":
                continue
            at, gnm, garg, wide = got[i]
            if gnm in JUMP.values():
                v = place[v] - at
            if gnm != nm or not (v is None and garg is None or same(v, garg)):
                return "operation %d is %s %r instead of %s %r" % (i, gnm, garg, nm, v)
            i += 1
        want = listing(got, lambda x: x)
        if not same(normdeep(want), dis):
            return "listed as\n%r\ninstead of\n%r" % (dis, want)

    def nontrivial(self, case, outs):
        return case["n"] >= 8 and any(nm in JUMP.values() for nm, _ in case["ops"])


class Compiled(Prop):
    """What the compiler makes of programs: bytes and listing agree, in every function."""
    id = "P29.compiled"
    quick_cases = 500
    batch = 20
    setup = """
(defn vp/lits (bc)
      (def lits (:literals bc))
      (def r #nil)
      (when lits
        (def i 0)
        (while (< i (:length lits))
          (def v (ref lits i))
          (set! r (cons (if (= :bytecode-array (:type-name v)) (vp/both v)
                            (if (= :tree (:type-name v)) :a-tree v)) r))
          (set! i (inc/int i))))
      (nreverse r))
(defn vp/plain (l)
      (if (pair? l) (cons (vp/plain (car l)) (vp/plain (cdr l)))
          (if (= :tree (:type-name l)) :a-tree l)))
(defn vp/both (bc) (list :code (:array bc) (vp/lits bc) (vp/plain (disassemble bc))))
"""
    rule = "a case counts when at least three functions with a jump each were listed"

    def gen(self, c):
        forms = lang.Gen(c, c.pick([0, 3]), c.pick([15, 40, 80])).program()
        return {"text": "(vp/both (compile '(do %s)))" % "\n".join(text(f) for f in forms)}

    def walk(self, v, stat):
        tag, bs, lits, dis = v
        lits = lits or []
        got = decode_bytes(bs, lits)
        starts = {at for at, _, _, _ in got}
        stat[0] += any(nm in JUMP.values() for _, nm, _, _ in got)
        for at, nm, arg, _ in got:
            if nm in JUMP.values() and at + arg not in starts:
                raise Bad("%s at %d leads into the middle of an operation" % (nm, at))
        if got[-1][1] not in ("ret", "throw", "jmp"):
            raise Bad("does not end by returning")

        def iscode(x):
            return isinstance(x, list) and not isinstance(x, Arr) and len(x) == 4 and x[0] == Kw(b"code")

        def nested(x):
            if isinstance(x, list) and not isinstance(x, Arr) and len(x) == 2 and iscode(x[1]) and x[0] == Sym(b"quote"):
                return x[1][3]
            return x
        want = listing(got, nested)
        if not same(normdeep(want), dis):
            raise Bad("listed as\n%r\ninstead of\n%r" % (dis, want))
        for l in lits:
            if iscode(l):
                self.walk(l, stat)

    def judge(self, case, outs):
        o = outs[0]
        if o.kind != "ok":
            return health(outs) or (None if o.exc_type() else "unexpected %r" % o)
        stat = [0]
        try:
            self.walk(o.value, stat)
        except Bad as e:
            return str(e)
        case["jumping"] = stat[0]

    def nontrivial(self, case, outs):
        return case.get("jumping", 0) >= 3


def wrap64(n):
    n &= (1 << 64) - 1
    return n - (1 << 64) if n >> 63 else n


class Running(Prop):
    """Assembled programs of known result: expressions, branches, loops, scopes, calls and handlers built from operations."""
    id = "P29.running"
    quick_cases = 2500
    batch = 100
    rule = "a case counts when at least 15 operations were executed, one of them a jump that was taken"

    def gen(self, c):
        ops, self.n, self.steps, self.taken = [], 0, 0, 0
        budget = [c.int(3, 60)]
        env = [{}]

        def e(s):
            ops.append(s)

        def label():
            self.n += 1
            return ":L%d" % self.n

        def find(n):
            for d in reversed(env):
                if n in d:
                    return d
        # Generates the code and its value at the same time. What is generated dead is run with `live` off.

        def lit(live):
            v = c.pick([0, 1, -1, 5, 127, -128, 128, 1000, -70000, b"str", Kw(b"key"), Sym(b"sym"), True, False, None, [1, 2], 2.5])
            if v is None:
                e("($push/nil)")
            elif v is True or v is False:
                e("($push/true)" if v else "($push/false)")
            elif isinstance(v, int):
                e("($push/int %d)" % v)
            else:
                e("($push/val %s)" % expr(v))
            return v

        def num(d, live):
            if d > 3 or budget[0] <= 0:
                v = c.int(-200, 200)
                e("($push/int %d)" % v)
                return v
            budget[0] -= 1
            k = c.draw(9)
            if k <= 3:
                a, b = num(d + 1, live), num(d + 1, live)
                nm = c.pick(["add", "sub", "mul", "add/int", "bit-and", "bit-or", "bit-xor"])
                e("($%s)" % nm)
                return wrap64({"add": a + b, "sub": a - b, "mul": a * b, "add/int": a + b, "bit-and": a & b, "bit-or": a | b, "bit-xor": a ^ b}[nm])
            if k == 4:
                a = num(d + 1, live)
                nm = c.pick(["inc/int", "bit-not"])
                e("($%s)" % nm)
                return wrap64(a + 1 if nm == "inc/int" else ~a)
            if k == 5:
                names = sorted({n for f in env for n in f if isinstance(find(n)[n], int) and not isinstance(find(n)[n], bool)})
                if names:
                    n = c.pick(names)
                    e("($get/val '%s)" % n)
                    return find(n)[n]
                e("($push/int 7)")
                return 7
            if k == 6:
                # a native function applied to values on the stack
                nm = c.pick(["max", "abs", "-", "*", "+"])
                e("($push/val %s)" % nm)
                args = [num(d + 1, live) for _ in range({"abs": 1, "max": c.int(1, 4)}.get(nm, 2))]
                e("($apply %d)" % len(args))
                return wrap64({"max": lambda *a: max(a), "abs": abs, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "+": lambda a, b: a + b}[nm](*args))
            if k == 7:
                e("($push/val max)")
                args = [num(d + 1, live) for _ in range(c.int(1, 4))]
                e("($list %d)" % len(args))
                e("($apply/collection)")
                return max(args)
            if k == 8:
                # the elements of a list
                args = [num(d + 1, live) for _ in range(c.int(2, 4))]
                e("($list %d)" % len(args))
                t = c.draw(2)
                if t == 0:
                    e("($car)")
                    return args[0]
                if t == 1:
                    e("($cadr)")
                    return args[1]
                e("($cdr)")
                e("($car)")
                return args[1]
            # a loop: counts down while adding
            n, step = c.int(0, 6), c.int(-5, 5)
            if len(env) > 3:
                e("($push/int 3)")
                return 3
            top, end = label(), label()
            e("($let)")
            e("($push/int %d) ($def/val 'i) ($drop) ($push/int 0) ($def/val 's) ($drop)" % n)
            e("(list :label %s) ($get/val 'i) ($zero?) ($jt %s)" % (top, end))
            e("($get/val 's) ($push/int %d) ($add) ($set/val 's) ($drop) ($get/val 'i) ($push/int -1) ($add) ($set/val 'i) ($drop) ($jmp %s)" % (step, top))
            e("(list :label %s) ($get/val 's) ($closure/pop)" % end)
            self.steps += 14 * n
            self.taken += 1
            return n * step

        def test(d, live):
            a, b = num(d + 1, live), num(d + 1, live)
            if c.bool(1, 4):
                b = a
                e("($drop)")
                e("($dup)")
            nm = c.pick(["<", "<=", "=", ">=", ">", "not="])
            e("($%s)" % nm)
            return {"<": a < b, "<=": a <= b, "=": a == b, ">=": a >= b, ">": a > b, "not=": a != b}[nm]

        def val(d, live):
            budget[0] -= 1
            k = c.draw(8) if budget[0] > 0 and d < 6 else c.draw(1)
            if k == 0:
                return lit(live)
            if k <= 2:
                return num(d, live)
            if k == 3:
                return test(d, live)
            if k == 4:
                # if
                els, end = label(), label()
                t = test(d, live)
                neg = c.bool()
                e("($%s %s)" % ("jt" if neg else "jf", els))
                first = t != neg
                saved = [dict(f) for f in env]
                a = val(d + 1, live and first)
                if not first:
                    env[:] = [dict(f) for f in saved]
                after = [dict(f) for f in env]
                e("($jmp %s) (list :label %s)" % (end, els))
                env[:] = [dict(f) for f in saved]
                b = val(d + 1, live and not first)
                if first:
                    env[:] = after
                e("(list :label %s)" % end)
                self.taken += 1
                return a if first else b
            if k == 5:
                # a scope with a variable of its own
                e("($let)")
                env.append({})
                n = c.pick("abc")
                v = val(d + 1, live)
                e("($def/val '%s)" % n)
                env[-1][n] = v
                e("($drop)")
                r = val(d + 1, live)
                e("($closure/pop)")
                env.pop()
                return r
            if k == 6:
                names = sorted({n for f in env for n in f})
                if not names:
                    return lit(live)
                n = c.pick(names)
                if c.bool():
                    e("($get/val '%s)" % n)
                    return find(n)[n]
                v = val(d + 1, live)
                e("($set/val '%s)" % n)
                find(n)[n] = v
                return v
            if k == 7:
                # a handler that is not needed, or needed after some values have piled up
                end = label()
                e("($push/val (fn (e) (list :caught (car e))))")
                e("($try %s)" % end)
                thrown = c.bool()
                env.append({})
                r = val(d + 1, live)
                if thrown:
                    extra = c.int(0, 3)
                    for _ in range(extra):
                        num(d + 2, live)
                    e("($push/val '(:oops \"x\")) ($throw)")
                    # nothing after it is reached
                    r = [Kw(b"caught"), Kw(b"oops")]
                    self.taken += 1
                e("($closure/pop) (list :label %s)" % end)
                env.pop()
                return r
            xs = [val(d + 1, live) for _ in range(c.int(0, 4))]
            e("($list %d)" % len(xs))
            if c.bool(1, 3):
                x = val(d + 1, live)
                e("($push/nil) ($cons) ($cons)")
                return [xs, x]
            return xs
        r = val(0, True)
        e("($ret)")
        return {"text": "(bytecode-eval* (assemble (list %s)) (environment*))" % " ".join(
            "(list %s)" % " ".join(ops[i:i + 40]) for i in range(0, len(ops), 40)), "want": r, "big": sum(o.count("($") for o in ops) + self.steps >= 15 and self.taken}

    def judge(self, case, outs):
        o = outs[0]
        if o.kind != "ok" or not same(normdeep(norm(case["want"])), o.value):
            return "expected %r, got %r" % (case["want"], o)

    def nontrivial(self, case, outs):
        return case["big"]


class Far(Prop):
    """Jumps of every distance are encoded exactly or refused."""
    id = "P29.far"
    quick_cases = 40
    batch = 4
    per_case = 60.0
    rule = "a case counts when the distance is at least 100 bytes"

    def gen(self, c):
        d = c.weighted([(2, c.int(0, 300)), (2, c.pick([124, 125, 126, 127, 128, 253, 254, 255, 256, 257])), (2, c.int(300, 9000)), (2, c.int(32750, 32790))])
        back = c.bool()
        # the distance counts from the operation itself, which has three bytes
        blk = "(def block (list))(dotimes (i %d) (set! block (cons '(0) block)))" % d
        if back:
            t = "(assemble ($jmp :in) (list :label :out) ($push/int 42) ($ret) block (list :label :in) ($jmp :out))"
            dist = -(d + 3)
        else:
            t = "(assemble ($push/int 42) ($jmp :in) block (list :label :in) ($ret))"
            dist = d + 3
        first = 3 + 3 + d if back else dist      # the other jump of the backward case
        ok = -32768 <= dist <= 32767 and first <= 32767
        return {"text": "(let* %s (def bc %s) (list (bytecode-eval* bc (environment*)) (:length bc) (map (filter (disassemble bc) (fn (e) (= (cadr e) '$jmp*))) (fn (e) (caddr e)))))" % (blk, t),
                "ok": ok, "dist": [first, dist] if back else [dist], "len": d + (9 if back else 6)}

    def judge(self, case, outs):
        o = outs[0]
        bad = health(outs)
        if bad:
            return bad
        if not case["ok"]:
            return None if o.kind == "exc" else "a jump that far cannot be encoded: %r" % o
        if o.kind != "ok" or not same([42, case["len"], case["dist"]], o.value):
            return "expected %r, got %r" % ([42, case["len"], case["dist"]], o)

    def nontrivial(self, case, outs):
        return abs(case["dist"][-1]) >= 100


PROPS = [Listing(), Compiled(), Running(), Far()]
