"""Arithmetic, comparisons and bit operations against exact reference models."""
import ctypes
import ctypes.util
import math

from vp import gens
from vp.core import Prop, health
from vp.gens import wrap
from vp.values import F, Kw, expr, lit_str, same

libm = ctypes.CDLL(ctypes.util.find_library("m") or "libm.so.6")
for _n, _k in (("pow", 2), ("fmod", 2), ("atan2", 2), ("cbrt", 1), ("sqrt", 1), ("sin", 1), ("cos", 1), ("tan", 1),
               ("round", 1), ("ceil", 1), ("floor", 1), ("fabs", 1)):
    getattr(libm, _n).restype = ctypes.c_double
    getattr(libm, _n).argtypes = [ctypes.c_double] * _k


class Exc(Exception):
    def __init__(self, kind):
        self.kind = kind


def fl(x):
    if x != x:
        raise Exc("float-nan")
    if x in (math.inf, -math.inf):
        raise Exc("float-inf")
    return F(x)


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def ipow(a, b):
    if b < 0:
        if a == 0:
            raise Exc("division-by-zero")
        return {1: 1, -1: -1 if b & 1 else 1}.get(a, 0)
    return wrap(pow(a, b, 1 << 64))


def fdiv(a, b):
    a, b = float(a), float(b)
    if b == 0.0:
        if a == 0.0:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
    try:
        return a / b
    except OverflowError:
        return math.inf


def isf(*a):
    return any(isinstance(x, float) for x in a)


def op2(op, a, b):
    """Reference semantics of one binary numeric operation on ints and floats."""
    if op in ("add/int", "sub/int", "mul/int", "div/int", "mod/int"):
        if op[0] in "dm" and op != "mul/int":
            if b == 0:
                raise Exc("division-by-zero")
            q = tdiv(a, b)
            return wrap(q) if op == "div/int" else wrap(a - q * b)
        return wrap({"add/int": a + b, "sub/int": a - b, "mul/int": a * b}[op])
    if op == "+":
        return fl(float(a) + float(b)) if isf(a, b) else wrap(a + b)
    if op == "-":
        return fl(float(a) - float(b)) if isf(a, b) else wrap(a - b)
    if op == "*":
        return fl(float(a) * float(b)) if isf(a, b) else wrap(a * b)
    if op == "/":
        return fl(fdiv(a, b))
    if op == "rem":
        if isf(a, b):
            return fl(libm.fmod(float(a), float(b)))
        if b == 0:
            raise Exc("division-by-zero")
        return wrap(a - tdiv(a, b) * b)
    if op == "pow":
        return fl(libm.pow(float(a), float(b))) if isf(a, b) else ipow(a, b)
    if op == "atan2":
        return fl(libm.atan2(float(a), float(b)))
    raise KeyError(op)


def op1(op, a):
    if op in ("inc", "inc/int"):
        return fl(1.0 + a) if isf(a) else wrap(a + 1)
    if op == "dec":
        return fl(a - 1.0) if isf(a) else wrap(a - 1)
    if op == "-":
        return F(-a) if isf(a) else wrap(-a)
    if op == "abs":
        return F(abs(a)) if isf(a) else wrap(abs(a))
    if op in ("sqrt", "cbrt"):
        return fl(getattr(libm, op)(float(a)))
    if op in ("sin", "cos", "tan", "round", "ceil", "floor"):
        return fl(getattr(libm, op)(a))
    if op == "float":
        return F(float(a))
    if op == "int":
        return int(a)
    raise KeyError(op)


def dec_literal(v):
    """A literal the reader turns into exactly this double, or None."""
    s = "%.6f" % v
    s = s.rstrip("0")
    if s.endswith("."):
        s += "0"
    if len(s) > 17 or float(s) != v or math.copysign(1, v) < 0 and v == 0:
        return None
    return s


def lit(v):
    if isinstance(v, float):
        return dec_literal(v)
    if abs(v) >= 10**17:
        return None if v < 0 else "#x%X" % v
    return str(v)


def guard(e):
    return "(try (fn (e) (cons :exception! (car e))) %s)" % e


def forms(op, args):
    """The same application as literals, through variables, as a parameterised function and by apply."""
    out = []
    ls = [lit(a) for a in args]
    if all(x is not None for x in ls):
        out.append(("literal", "(%s %s)" % (op, " ".join(ls))))
        out.append(("literal-in-function", "((fn () (%s %s)))" % (op, " ".join(ls))))
    names = ["a", "b", "c", "d", "e", "f", "g", "h"][:len(args)]
    out.append(("variables", "(let (%s) (%s %s))" % (
        " ".join("(%s %s)" % (n, expr(a)) for n, a in zip(names, args)), op, " ".join(names))))
    out.append(("parameters", "((fn (%s) (%s %s)) %s)" % (
        " ".join(names), op, " ".join(names), " ".join(expr(a) for a in args))))
    return out


def applied(op, args):
    return ("apply", "(apply %s (list %s))" % (op, " ".join(expr(a) for a in args)))


def result(f):
    try:
        return f()
    except Exc as ex:
        return ex


def agree(want, got):
    if isinstance(want, Exc):
        return isinstance(got, object) and _isexc(got, want.kind)
    return same(want, got)


def _isexc(got, kind):
    from vp.values import Pair
    return (isinstance(got, Pair) and len(got.items) == 1 and got.items[0] == Kw(b"exception!")
            and got.tail == Kw(kind.encode()))


class Numeric(Prop):
    """A case is a list of (description, expression, expected) checked in one program."""
    batch = 50
    rule = "a case counts when at least one operand needs more than 32 bits or is not a whole number, or the reference raises an exception"

    def gen(self, c):
        items = []
        big = False
        for _ in range(c.int(1, 8)):
            op, args, want = self.item(c)
            fs = forms(op, args)
            if len(args) <= 2 and self.can_apply(op, args):
                fs.append(applied(op, args))
            for f, e in fs:
                items.append(("(%s %s) as %s" % (op, " ".join(map(repr, args)), f), guard(e), want))
            big = big or isinstance(want, Exc) or any(
                isinstance(a, float) and a != int(a) or abs(a) > 2**32 for a in args)
            tag = "op:%s" % op
        text = "(list %s)" % " ".join("(list %s)" % e for _, e, _ in items)
        # the list operation takes at most 255 arguments
        return {"text": text, "items": items, "big": big, "tags": (tag,)}

    def can_apply(self, op, args):
        return True

    def judge(self, case, outs):
        o = outs[0]
        if o.kind != "ok":
            return "expected a result, got %r" % o
        if not isinstance(o.value, list) or len(o.value) != len(case["items"]):
            return "wrong shape: %r" % o
        for (d, e, want), got in zip(case["items"], o.value):
            if not isinstance(got, list) or len(got) != 1 or not agree(want, got[0]):
                return "%s: %s\n gave %r, expected %s" % (
                    d, e, got, "exception :" + want.kind if isinstance(want, Exc) else repr(want))
        return None

    def nontrivial(self, case, outs):
        return case["big"]

    def show(self, case):
        return "\n".join("%s ;; %s" % (e, d) for d, e, _ in case["items"])


class IntArith(Numeric):
    id = "P04.int"
    quick_cases = 4000

    def item(self, c):
        k = c.weighted([(6, 2), (2, 1), (2, 3)])
        if k == 1:
            op = c.pick(["inc", "dec", "-", "abs", "inc/int"])
            a = gens.int64(c)
            if op == "abs" and a == -2**63:
                a += 1
            return op, [a], result(lambda: op1(op, a))
        if k == 3:
            op = c.pick(["+", "-", "*"])
            xs = [gens.int64(c) for _ in range(c.int(3, 8))]
            r = xs[0]
            for x in xs[1:]:
                r = op2(op, r, x)
            return op, xs, r
        op = c.pick(["+", "-", "*", "rem", "pow", "add/int", "sub/int", "mul/int", "div/int", "mod/int"])
        a, b = gens.int64(c), gens.int64(c)
        if op == "pow" and c.bool(3, 4):
            b = c.int(0, 70)
        return op, [a, b], result(lambda: op2(op, a, b))

    def can_apply(self, op, args):
        return True


class IntLaws(Prop):
    """Algebraic laws over long chains: division identity and accumulation."""
    id = "P04.laws"
    batch = 50
    quick_cases = 800
    rule = "a case counts when the chain has at least 10 operations and overflows 64 bits at least once"

    def gen(self, c):
        xs = [gens.int64(c) for _ in range(c.int(2, 40))]
        ops = [c.pick(["+", "-", "*", "bit-xor"]) for _ in xs[1:]]
        r, over = xs[0], False
        for o, x in zip(ops, xs[1:]):
            e = {"+": r + x, "-": r - x, "*": r * x, "bit-xor": r ^ x}[o]
            over = over or wrap(e) != e
            r = wrap(e)
        d = gens.int64(c) or 1
        text = ("(let ((acc %s)) %s (list acc (+ (* (div/int acc %s) %s) (mod/int acc %s)) "
                "(= (rem acc %s) (mod/int acc %s))))" % (
                    expr(xs[0]), " ".join("(set! acc (%s acc %s))" % (o, expr(x)) for o, x in zip(ops, xs[1:])),
                    expr(d), expr(d), expr(d), expr(d), expr(d)))
        return {"text": text, "want": [r, r, True], "over": over and len(ops) >= 10}

    def judge(self, case, outs):
        o = outs[0]
        if o.kind != "ok" or not same(case["want"], o.value):
            return "expected %r, got %r" % (case["want"], o)

    def nontrivial(self, case, outs):
        return case["over"]


class FloatArith(Numeric):
    id = "P05.float"
    quick_cases = 4000

    def item(self, c):
        k = c.weighted([(6, 2), (3, 1), (2, 3)])
        if k == 1:
            op = c.pick(["inc", "dec", "-", "abs", "sqrt", "cbrt", "sin", "cos", "tan", "round", "ceil", "floor",
                         "float", "int"])
            a = gens.float64(c)
            if op in ("sqrt", "cbrt", "float") and c.bool(1, 3):
                a = gens.int64(c)
            if op == "int" and abs(a) >= 2.0**63:
                a = F(1.5)
            return op, [a], result(lambda: op1(op, a))
        if k == 3:
            op = c.pick(["+", "-", "*"])
            xs = [gens.number(c) for _ in range(c.int(3, 8))]
            return op, xs, result(lambda: self.fold(op, xs))
        op = c.pick(["+", "-", "*", "/", "rem", "pow", "atan2"])
        a, b = gens.number(c), gens.number(c)
        if op not in ("/", "atan2") and not isf(a, b):
            a = gens.float64(c)
        return op, [a, b], result(lambda: op2(op, a, b))

    @staticmethod
    def fold(op, xs):
        r = xs[0]
        for x in xs[1:]:
            r = op2(op, r, x)
        return r


BADOPS = ["+", "-", "*", "/", "rem", "pow", "bit-and", "bit-or", "bit-xor"]


class NonNumeric(Prop):
    """Arithmetic on something that is not a number is a catchable :type-error, in every form."""
    id = "P05.types"
    batch = 50
    quick_cases = 1200
    rule = "every case has a non-numeric operand; counted by distinct program"

    def gen(self, c):
        bad = c.pick(["\"x\"", ":kw", "'sym", "#t", "#f", "##(1 2)", "{:a 1}", "'(1 2)", "(buffer/allocate 3)", "car"])
        op = c.pick(BADOPS)
        num = expr(gens.int64(c) if op.startswith("bit") or c.bool() else gens.float64(c))
        args = [bad, num] if c.bool() else [num, bad]
        if c.bool(1, 4):
            args = [bad, bad]
        fs = ["(%s %s)" % (op, " ".join(args)), "(let ((a %s)(b %s)) (%s a b))" % (*args, op),
              "((fn (a b) (%s a b)) %s)" % (op, " ".join(args)), "(apply %s (list %s))" % (op, " ".join(args))]
        return {"text": "(list %s)" % " ".join("(try car %s)" % f for f in fs), "forms": fs}

    def judge(self, case, outs):
        o = outs[0]
        if o.kind != "ok" or o.value != [Kw(b"type-error")] * len(case["forms"]):
            return "expected :type-error for each form, got %r" % o


class Folding(Prop):
    """A program over constants gives the same result whether its leaves are literals the compiler can fold,
    variables, or the operators are called through apply."""
    id = "P06.fold"
    batch = 50
    quick_cases = 3000
    rule = "a case counts when the expression has at least 4 operators"
    BIN = ["+", "-", "*", "/", "rem", "pow", "<", "<=", "=", ">", ">=", "not=", "bit-and", "bit-or", "bit-xor",
           "bit-shift-left", "bit-shift-right", "add/int", "sub/int", "mul/int", "div/int", "mod/int", "cons"]
    MORE = ["+", "+", "-", "*", "/", "rem", "pow", "add/int", "sub/int", "mul/int", "div/int", "mod/int", "bit-and", "bit-or", "bit-xor"]
    UN = ["not", "zero?", "inc", "dec", "bit-not", "list", ":type-name", "int", "float", "abs", "popcount"]

    def gen(self, c):
        depth = c.int(1, 4)
        n = [0]

        def tree(d):
            if d == 0 or c.bool(1, 6):
                k = c.draw(9)
                if k < 5:
                    return ("lit", gens.int64(c) if c.bool(1, 3) else gens.small_int(c))
                if k < 8:
                    v = gens.float64(c)
                    return ("lit", v if dec_literal(v) else F(1.5))
                return ("lit", c.pick([True, False, b"str", Kw(b"kw")]))
            n[0] += 1
            if c.bool(1, 4):
                return ("un", c.pick(self.UN), tree(d - 1))
            if c.bool(1, 6):
                # operators with more than two operands work from the left,
                # which sums of floats show
                k = c.int(3, 5)
                if c.bool():
                    big = F(float(c.pick([2**53, 2**60, 10**16, 2**62])))
                    sub = [("lit", c.pick([big, F(-big), F(1.0), F(0.5), 1, -1, 3])) for _ in range(k)]
                else:
                    sub = [tree(d - 1) for _ in range(k)]
                return ("bin", c.pick(self.MORE)) + tuple(sub)
            return ("bin", c.pick(self.BIN), tree(d - 1), tree(d - 1))
        t = tree(depth)
        binds = []

        def show(t, mode):
            if t[0] == "lit":
                s = lit(t[1]) if isinstance(t[1], (int, float)) and not isinstance(t[1], bool) else expr(t[1])
                if s is None:
                    s = expr(t[1])
                if mode == "vars":
                    v = "v%d" % len(binds)
                    binds.append("(def %s %s)" % (v, s))
                    return v
                return s
            args = [show(x, mode) for x in t[2:]]
            if mode == "apply" and t[1][0] != ":" and t[1] not in ("<", "<=", "=", ">", ">=", "not=", "cons", "car", "cdr", "list",
                                                                   "not", "zero?", "inc", "dec"):
                r = "(apply %s (list %s))" % (t[1], " ".join(args[:2]))
                for a in args[2:]:
                    r = "(apply %s (list %s %s))" % (t[1], r, a)
                return r
            return "(%s %s)" % (t[1], " ".join(args))
        lits, app = show(t, "lit"), show(t, "apply")
        vs = show(t, "vars")
        tr = "(try (fn (e) (list :exception! (car e))) %s)"
        fs = [tr % lits, "((fn () %s))" % (tr % lits), "(do %s %s)" % (" ".join(binds), tr % vs),
              "(eval-in (environment*) (read \"%s\"))" % (tr % lits).replace("\\", "\\\\").replace('"', '\\"'), tr % app]
        # compiling each form on its own keeps one from influencing another
        fs[3] = "(car (list (eval-in (environment*) (car (read %s)))))" % lit_str((tr % lits).encode("latin1"))
        return {"texts": fs, "n": n[0]}

    def judge(self, case, outs):
        h = health(outs)
        if h:
            return h
        for o, t in zip(outs, case["texts"]):
            if o.kind != outs[0].kind or not same(o.value, outs[0].value):
                return "%s\n gave %r but\n%s\n gave %r" % (case["texts"][0], outs[0], t, o)

    def nontrivial(self, case, outs):
        return case["n"] >= 4


class Compare(Prop):
    """The comparison operators agree with the mathematical order, chained and pairwise, for numbers, strings and symbols."""
    id = "P07.compare"
    batch = 50
    quick_cases = 3000
    rule = "a case counts when two operands are within one unit of each other or share a prefix"
    OPS = ["<", "<=", "=", ">", ">=", "not="]

    def gen(self, c):
        kind = c.weighted([(6, "num"), (2, "str"), (2, "sym"), (1, "kw")])
        n = c.int(2, 5)
        if kind == "num":
            base = gens.number(c)
            vals, near = [], False
            for _ in range(n):
                k = c.draw(3)
                if k == 0:
                    vals.append(gens.number(c))
                    continue
                near = True
                if k == 1:
                    vals.append(base)
                elif isinstance(base, float):
                    vals.append(int(base) + c.int(-1, 1) if abs(base) < 2.0**62 else base)
                else:
                    vals.append(F(float(base)) if c.bool() else wrap(base + c.int(-1, 1)))
            key = lambda v: v
        else:
            near = True
            base = gens.bytestr(c, 6, nul=True) if kind == "str" else gens.word(c, 1, 6)
            mk = {"str": bytes, "sym": __import__("vp.values").values.Sym, "kw": Kw}[kind]
            vals = []
            for _ in range(n):
                k = c.draw(4)
                ext = gens.bytestr(c, 3, nul=True) if kind == "str" else gens.word(c, 1, 2)
                vals.append(mk(base if k == 0 else base + ext if k == 1 else
                               base[:c.draw(len(base))] + ext if k == 2 else ext if k == 3 or not base else base[:-1] + gens.word(c, 1, 1)))
            key = bytes
        from fractions import Fraction
        num = kind == "num"
        kk = (lambda v: Fraction(v)) if num else bytes
        ps = []
        import operator
        fn = {"<": operator.lt, "<=": operator.le, "=": operator.eq, ">": operator.gt, ">=": operator.ge, "not=": operator.ne}
        for o in self.OPS:
            for i in range(n):
                for j in range(n):
                    a, b = vals[i], vals[j]
                    ps.append(("(%s v%d v%d)" % (o, i, j), fn[o](kk(a), kk(b))))
            if all(lit(v) if num else True for v in vals[:2]):
                ls = [lit(v) if num else expr(v) for v in vals[:2]]
                ps.append(("(%s %s)" % (o, " ".join(ls)), fn[o](kk(vals[0]), kk(vals[1]))))
            ps.append(("(apply %s (list v0 v1))" % o, fn[o](kk(vals[0]), kk(vals[1]))))
        if num:
            for i, v in enumerate(vals):
                for p, want in (("zero?", v == 0), ("not-zero?", v != 0), ("neg?", v < 0), ("pos?", v >= 0), ("zero-neg?", v <= 0),
                                ("odd?", v % 2 == 1), ("even?", v % 2 == 0)):
                    if p not in ("odd?", "even?") or type(v) is int:
                        ps.append((c.pick(["(%s v%d)", "(apply %s (list v%d))", "((car (list %s)) v%d)"]) % (p, i), want))
                if lit(v):
                    ps.append(("(zero? %s)" % lit(v), v == 0))
        binds = " ".join("(def v%d %s)" % (i, expr(v)) for i, v in enumerate(vals))
        return {"text": "(do %s (list %s))" % (binds, " ".join("(list %s)" % " ".join(
            p for p, _ in ps[i:i + 100]) for i in range(0, len(ps), 100))), "ps": ps, "near": near, "vals": vals,
            "tags": ("kind:" + kind,)}

    def judge(self, case, outs):
        o = outs[0]
        if o.kind != "ok":
            return "got %r" % o
        flat = [x for l in o.value for x in l]
        for (p, want), got in zip(case["ps"], flat):
            if got is not want:
                return "%s with v = %r gave %r, expected %r" % (p, case["vals"], got, want)
        if len(flat) != len(case["ps"]):
            return "wrong shape %r" % o

    def nontrivial(self, case, outs):
        return case["near"]


class Bits(Numeric):
    id = "P08.bits"
    quick_cases = 3000

    def item(self, c):
        op = c.pick(["bit-and", "bit-or", "bit-xor", "bit-not", "bit-shift-left", "bit-shift-right", "popcount",
                     "bit-test?", "bit-set", "bit-flip", "bit-clear"])
        a = gens.int64(c)
        u = a % 2**64
        if op in ("bit-not", "popcount"):
            return op, [a], (~a if op == "bit-not" else bin(u).count("1"))
        b = gens.int64(c)
        if op in ("bit-and", "bit-or", "bit-xor"):
            return op, [a, b], {"bit-and": a & b, "bit-or": a | b, "bit-xor": a ^ b}[op]
        b = c.int(0, 63)
        if op == "bit-shift-left":
            return op, [a, b], wrap(a << b)
        if op == "bit-shift-right":
            return op, [a, b], a >> b
        m = 1 << b
        return op, [a, b], {"bit-test?": bool(u & m), "bit-set": wrap(u | m), "bit-flip": wrap(u ^ m),
                            "bit-clear": wrap(u & ~m)}[op]


PROPS = [IntArith(), IntLaws(), FloatArith(), NonNumeric(), Folding(), Compare(), Bits()]
