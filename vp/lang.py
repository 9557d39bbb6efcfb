"""A reference interpreter for a subset of the language, and a generator of programs in that subset.

Forms are Python values: S (symbol), Kw, int, bool, None, bytes and lists."""
from . import gens
from .core import StopGen
from .values import Arr, F, Kw, Opaque, expr_float, expr_int, lit_str, same


class S(str):
    __slots__ = ()

    def __repr__(self):
        return str(self)


def text(f):
    if f is None:
        return "#nil"
    if f is True:
        return "#t"
    if f is False:
        return "#f"
    if isinstance(f, S):
        return str(f)
    if isinstance(f, Kw):
        return ":" + bytes(f).decode("latin1")
    if isinstance(f, int):
        return expr_int(f)
    if isinstance(f, float):
        return expr_float(f)
    if isinstance(f, bytes):
        return lit_str(f)
    if isinstance(f, list):
        if len(f) == 2 and f[0] == "quote":
            return "'" + text(f[1])
        return "(" + " ".join(text(x) for x in f) + ")"
    raise TypeError(repr(f))


class NExc(Exception):
    """A thrown value: what (car e) is, plus the other elements when they are determined."""
    def __init__(self, items, exact=True):
        self.items, self.exact = items, exact


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Env:
    __slots__ = ("vars", "up")

    def __init__(self, up=None):
        self.vars, self.up = {}, up

    def find(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return e
            e = e.up
        return None


class Fn:
    def __init__(self, params, rest, body, env):
        self.params, self.rest, self.body, self.env = params, rest, body, env


class Native:
    def __init__(self, name, f):
        self.name, self.f = name, f


class Handler(list):
    """What a handler gets: a list whose elements beyond the thrown ones are unspecified."""


def truthy(v):
    return not (v is None or v is False)


def isint(v):
    return isinstance(v, int) and not isinstance(v, bool)


def eq(a, b):
    """= on atoms."""
    if isinstance(a, (list, Fn, Native)) or isinstance(b, (list, Fn, Native)):
        return a is b
    return same(a, b)


def equal(a, b):
    if isinstance(a, Arr) != isinstance(b, Arr):
        return False
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return eq(a, b)


def terr():
    return NExc([Kw(b"type-error")], False)


def tostr(v):
    if v is None:
        return b""
    if v is True or v is False:
        return b"#t" if v else b"#f"
    if isint(v):
        return b"%d" % v
    if isinstance(v, Kw):
        return bytes(v)
    return bytes(v)


class Interp:
    def __init__(self, fuel=30000):
        self.fuel = fuel
        self.log = []
        self.steps = 0
        self.counts = {}
        self.maxdepth = 0
        self.depth = 0
        g = self.globals = Env()
        for n in dir(self):
            if n.startswith("b_"):
                pass
        names = {"+": self.add, "-": self.sub, "*": self.mul, "<": lambda a, b: self.cmp(a, b) < 0, ">": lambda a, b: self.cmp(a, b) > 0,
                 "<=": lambda a, b: self.cmp(a, b) <= 0, ">=": lambda a, b: self.cmp(a, b) >= 0, "=": eq, "not=": lambda a, b: not eq(a, b),
                 "not": lambda v: not truthy(v), "boolean": truthy, "list": lambda *a: list(a) or None, "cons": self.cons, "car": self.car,
                 "cdr": self.cdr, "cadr": lambda v: self.car(self.cdr(v)), "caddr": lambda v: self.car(self.cdr(self.cdr(v))),
                 ":length": lambda v: len(v), "ref": self.ref, "nil?": lambda v: v is None, "zero?": lambda v: isint(v) and v == 0, "cat": lambda *a: b"".join(b":" + bytes(x) if isinstance(x, Kw) else tostr(x) for x in a),
                 "inc": lambda v: self.add(v, 1), "map": self.map, "filter": self.filter, "reduce": self.reduce, "append": lambda a, b: ((a or []) + (b or [])) or None,
                 "reverse": lambda a: (a or [])[::-1] or None, "array/new": lambda *a: Arr(a), "vp/out": self.out, "equal?": equal,
                 "throw": self.throw, ":string": tostr, "bit-and": lambda a, b: a & b, "bit-xor": lambda a, b: a ^ b, "identity": lambda a: a,
                 "exception": lambda a, b, c: self.throw([a, b, c]), "array/dup": lambda a: Arr(a), "pair?": lambda a: isinstance(a, list) and not isinstance(a, Arr),
                 "int?": isint, "string?": lambda v: type(v) is bytes, "neg?": lambda v: v < 0, "abs": lambda v: (self.num(v), gens.wrap(abs(v)))[1], ":type-name": self.tname,
                 "min": min, "max": max, "even?": lambda v: v % 2 == 0, "odd?": lambda v: v % 2 == 1, "sum": lambda a: gens.wrap(sum(a or []))}
        for n, f in names.items():
            g.vars[n] = Native(n, f)

    def tname(self, v):
        return Kw(b"nil" if v is None else b"bool" if isinstance(v, bool) else b"int" if isint(v) else b"keyword" if isinstance(v, Kw) else
                  b"string" if isinstance(v, bytes) else b"array" if isinstance(v, Arr) else b"pair" if isinstance(v, list) else b"lambda")

    def num(self, *a):
        for x in a:
            if not isint(x):
                raise terr()

    def add(self, a, b):
        self.num(a, b)
        return gens.wrap(a + b)

    def sub(self, a, b=None):
        if b is None:
            self.num(a)
            return gens.wrap(-a)
        self.num(a, b)
        return gens.wrap(a - b)

    def mul(self, a, b):
        self.num(a, b)
        return gens.wrap(a * b)

    def cmp(self, a, b):
        self.num(a, b)
        return (a > b) - (a < b)

    def cons(self, a, b):
        return [a] + (b or [])

    def car(self, v):
        return v[0] if isinstance(v, list) and not isinstance(v, Arr) and v else None

    def cdr(self, v):
        return (v[1:] or None) if isinstance(v, list) and not isinstance(v, Arr) and v else None

    def ref(self, v, i):
        if isinstance(v, Arr):
            if not 0 <= i < len(v):
                raise NExc([Kw(b"out-of-bounds" if i >= 0 else b"type-error")], False)
            return v[i]
        return v[i] if i < len(v) else None

    def map(self, l, f):
        return [self.apply(f, [x]) for x in (l or [])] or None

    def filter(self, l, f):
        return [x for x in (l or []) if truthy(self.apply(f, [x]))] or None

    def reduce(self, l, f, a):
        for x in (l or []):
            a = self.apply(f, [a, x])
        return a

    def out(self, v):
        self.log.append(Arr(v) if isinstance(v, Arr) else v)
        return v

    def throw(self, v):
        self.counts["throw"] = self.counts.get("throw", 0) + 1
        raise NExc(list(v) if isinstance(v, list) and not isinstance(v, Arr) else [v])

    def apply(self, f, args):
        self.tick()
        if isinstance(f, Native):
            return f.f(*args)
        if not isinstance(f, Fn):
            raise terr()
        e = Env(f.env)
        for i, p in enumerate(f.params):
            e.vars[p] = args[i] if i < len(args) else None
        if f.rest:
            e.vars[f.rest] = list(args[len(f.params):]) or None
        self.depth += 1
        self.maxdepth = max(self.maxdepth, self.depth)
        if self.depth > 90:
            raise StopGen()
        try:
            return self.body(f.body, e)
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1

    def tick(self):
        self.steps += 1
        if self.steps > self.fuel:
            raise StopGen()

    def body(self, forms, env):
        r = None
        for f in forms:
            r = self.eval(f, env)
        return r

    def fn(self, params, body, env):
        ps, rest = [], None
        if isinstance(params, S):
            rest = params
        else:
            ps = list(params)
            if len(ps) >= 2 and ps[-2] == ".":
                rest = ps[-1]
                ps = ps[:-2]
        return Fn(ps, rest, body, env)

    def eval(self, f, env):
        self.tick()
        if isinstance(f, S):
            e = env.find(f)
            if e is None:
                raise NExc([Kw(b"unbound-variable")], False)
            return e.vars[f]
        if not isinstance(f, list):
            return f
        op = f[0]
        if isinstance(op, S):
            m = getattr(self, "f_" + SPECIAL.get(op, ""), None)
            if m is not None:
                self.counts[str(op)] = self.counts.get(str(op), 0) + 1
                return m(f, env)
            if op in ("+", "-", "*") and len(f) > 3:
                r = self.eval(f[1], env)
                for x in f[2:]:
                    y = self.eval(x, env)
                    r = self.apply(self.globals.vars[op], [r, y])
                return r
            if op.startswith(":"):
                fun = self.globals.vars[op]
            else:
                fun = self.eval(op, env)
        else:
            fun = self.eval(op, env)
        args = [self.eval(x, env) for x in f[1:]]
        return self.apply(fun, args)

    def f_do(self, f, env):
        return self.body(f[1:], env)

    def f_def(self, f, env):
        v = self.eval(f[2], env)
        env.vars[f[1]] = v
        return v

    def f_defn(self, f, env):
        env.vars[f[1]] = v = self.fn(f[2], f[3:], env)
        return v

    def f_fn(self, f, env):
        return self.fn(f[1], f[2:], env)

    def f_set(self, f, env):
        if len(f) == 3:
            v = self.eval(f[2], env)
            e = env.find(f[1])
            if e is None:
                raise NExc([Kw(b"unbound-variable")], False)
            e.vars[f[1]] = v
            return v
        a, i, v = self.eval(f[1], env), self.eval(f[2], env), self.eval(f[3], env)
        if not 0 <= i < len(a):
            raise NExc([Kw(b"out-of-bounds" if i >= 0 else b"type-error")], False)
        a[i] = v
        return a

    def f_inc(self, f, env):
        return self.f_set([None, f[1], [S("+"), f[1], f[2] if len(f) > 2 else 1]], env)

    def f_dec(self, f, env):
        return self.f_set([None, f[1], [S("-"), f[1], f[2] if len(f) > 2 else 1]], env)

    def f_cons(self, f, env):
        return self.f_set([None, f[2], [S("cons"), f[1], f[2]]], env)

    def f_cdr(self, f, env):
        return self.f_set([None, f[1], [S("cdr"), f[1]]], env)

    def f_if(self, f, env):
        if truthy(self.eval(f[1], env)):
            return self.eval(f[2], env)
        return self.eval(f[3], env) if len(f) > 3 else None

    def f_ifnot(self, f, env):
        return self.f_if([None, f[1], f[3], f[2]], env)

    def f_when(self, f, env):
        return self.body(f[2:], env) if truthy(self.eval(f[1], env)) else None

    def f_whennot(self, f, env):
        return None if truthy(self.eval(f[1], env)) else self.body(f[2:], env)

    def f_cond(self, f, env):
        for c in f[1:]:
            if truthy(self.eval(c[0], env)):
                return self.body(c[1:], env)
        return None

    def f_case(self, f, env):
        k = self.eval(f[1], env)
        e = Env(env)
        for c in f[2:]:
            if c[0] == S("otherwise"):
                return self.body(c[1:], e)
            keys = c[0] if isinstance(c[0], list) else [c[0]]
            if any(eq(k, x) for x in keys):
                return self.body(c[1:], e)
        return None

    def f_and(self, f, env):
        r = None
        for x in f[1:]:
            r = self.eval(x, env)
            if not truthy(r):
                return r
        return r

    def f_or(self, f, env):
        for x in f[1:]:
            r = self.eval(x, env)
            if truthy(r):
                return r
        return False

    def f_while(self, f, env):
        r = None
        while truthy(self.eval(f[1], env)):
            r = self.body(f[2:], env)
        return r

    def f_dotimes(self, f, env):
        b = f[1]
        env.vars[b[0]] = 0
        while self.cmp(self.eval(b[0], env), self.eval(b[1], env)) < 0:
            self.body(f[2:], env)
            env.vars[b[0]] = self.add(env.vars[b[0]], 1)
        return self.eval(b[2], env) if len(b) > 2 else None

    def f_doseq(self, f, env):
        b = f[1]
        e = Env(env)
        l = self.eval(b[1], e)
        for x in (l or []):
            e.vars[b[0]] = x
            self.body(f[2:], e)
        return self.eval(b[2], e) if len(b) > 2 else None

    def f_let(self, f, env):
        e = Env(env)
        for b in f[1]:
            e.vars[b[0]] = self.eval(b[1], e)
        return self.body(f[2:], e)

    def f_letstar(self, f, env):
        return self.body(f[1:], Env(env))

    def f_quote(self, f, env):
        return f[1]

    def f_try(self, f, env):
        h = self.eval(f[1], env)
        depth = self.depth
        try:
            return self.body(f[2:], Env(env))
        except NExc as x:
            self.depth = depth
            self.counts["caught"] = self.counts.get("caught", 0) + 1
            ex = x
        return self.apply(h, [Handler(ex.items)])

    def f_return(self, f, env):
        raise Ret(self.eval(f[1], env))

    def f_apply(self, f, env):
        fun = self.eval(f[1], env)
        return self.apply(fun, list(self.eval(f[2], env) or []))

    def f_thread(self, f, env):
        r = f[1]
        for x in f[2:]:
            r = [x[0], r] + x[1:] if isinstance(x, list) else [x, r]
        return self.eval(r, env)


SPECIAL = {"do": "do", "def": "def", "defn": "defn", "fn": "fn", "set!": "set", "inc!": "inc", "dec!": "dec", "cons!": "cons", "cdr!": "cdr",
           "if": "if", "if-not": "ifnot", "when": "when", "when-not": "whennot", "cond": "cond", "case": "case", "and": "and", "or": "or",
           "while": "while", "dotimes": "dotimes", "doseq": "doseq", "let": "let", "let*": "letstar", "quote": "quote", "try": "try",
           "return": "return", "apply": "apply", "->": "thread"}


# ---------------------------------------------------------------- generator

PFX = {"int": "v", "bool": "b", "str": "s", "ilist": "l", "arr": "a", "key": "k", "ctr": "c", "f1": "f", "f2": "h"}
KEYS = [Kw(b"ka"), Kw(b"kb"), Kw(b"kc")]


class Gen:
    """Mostly well-typed programs. Types: int, bool, str, ilist, arr, key, ctr (closure -> int), f1/f2 (functions on ints), rec."""
    def __init__(self, c, exc=1, size=40):
        self.c, self.exc, self.budget = c, exc, size
        self.scopes = [{}]
        self.fresh = 0
        self.infn = []
        self.intry = 0
        self.rec = []
        self.effects = 0

    def name(self, prefix="g"):
        self.fresh += 1
        return S("%s%d" % (prefix, self.fresh))

    def nm(self, t):
        """A name of this type: names never change their type, whatever scope they live in."""
        return S(PFX[t] + self.c.pick(["a", "b", "c"]))

    def vars(self, t):
        out, seen = [], set()
        for s in reversed(self.scopes):
            for n, x in s.items():
                if n not in seen:
                    seen.add(n)
                    if x == t:
                        out.append(n)
        return sorted(out)

    def visible(self, n):
        for s in reversed(self.scopes):
            if n in s:
                return s[n]
        return None

    # -- expressions
    def expr(self, t, d):
        self.budget -= 1
        if self.budget <= 0:
            d = 0
        return getattr(self, "x_" + t)(d)

    def common(self, t, d):
        """Forms that work for every type; None when not chosen."""
        c = self.c
        k = c.weighted([(30, 0), (3, 1), (3, 2), (2, 3), (3, 4), (2, 5), (2, 6), (2, 7), (2, 8), (1, 9), (1 + self.exc, 10), (1, 11), (1, 12), (1, 13)])
        if k == 0 or d <= 0:
            return None
        d -= 1
        if k == 1:
            return [S("if"), self.expr("bool", d), self.expr(t, d), self.expr(t, d)]
        if k == 2:
            n = c.int(1, 3)
            binds, sc = [], {}
            self.scopes.append(sc)
            for _ in range(n):
                bt = c.pick(["int", "int", "bool", "str", "ilist", "f1", "ctr", "key", "arr"])
                e = self.expr(bt, d)
                v = self.nm(bt)
                binds.append([v, e])
                sc[v] = bt
            body = self.stmts(d, 0, 2) + [self.expr(t, d)]
            self.scopes.pop()
            return [S("let"), binds] + body
        if k == 3:
            return [S("do")] + self.stmts(d, 1, 2, defs=False) + [self.expr(t, d)]
        if k == 4:
            cl = [[self.expr("bool", d)] + self.stmts(d, 0, 1, defs=False) + [self.expr(t, d)] for _ in range(c.int(1, 3))]
            return [S("cond")] + cl + [[True, self.expr(t, d)]]
        if k == 5:
            kt = c.pick(["int", "key", "str"])
            cl = []
            for _ in range(c.int(1, 3)):
                key = [self.lit(kt) for _ in range(c.int(2, 3))] if c.bool(1, 3) else self.lit(kt)
                cl.append([key, self.expr(t, d)])
            return [S("case"), self.expr(kt, d)] + cl + [[S("otherwise"), self.expr(t, d)]]
        if k == 6:
            # immediately called function, possibly with a rest parameter
            pt = {}
            for _ in range(c.int(0, 3)):
                x = c.pick(["int", "str", "bool", "ilist"])
                pt[self.nm(x)] = x
            ps, ts = list(pt), list(pt.values())
            args = [self.expr(x, d) for x in ts]
            sc = dict(zip(ps, ts))
            params = list(ps)
            if c.bool(1, 4):
                r = S("lr")
                params = params + [S("."), r] if params else r
                args += [self.expr("int", d) for _ in range(c.int(0, 3))]
                sc[r] = "ilist"
            body = self.fnbody(sc, t, d)
            if not params:
                # no parameters at all reads as a list holding nil
                params, args = S("lr"), args
            f = [S("fn"), params] + body
            if isinstance(params, list) and "." not in params and c.bool(1, 3):
                return [S("apply"), f, [S("list")] + args]
            return [f] + args
        if k == 7:
            return [S("or"), c.pick([False, None]) if c.bool() else [S("and"), self.expr("bool", d), False], self.expr(t, d)] if t not in ("bool", "ilist") else None
        if k == 8:
            return [S("and"), c.pick([True, 1, b""]), self.expr(t, d)]
        if k == 9:
            return [S("let*"), [S("do")] + self.stmts(d, 1, 3, defs=False) + [self.expr(t, d)]] if False else [S("car"), [S("list"), self.expr(t, d), self.expr("int", d)]]
        if k == 10:
            return self.try_(t, d)
        if k == 11:
            return [S("when"), True] + self.stmts(d, 0, 1, defs=False) + [self.expr(t, d)]
        if k == 12:
            return [S("if-not"), self.expr("bool", d), self.expr(t, d), self.expr(t, d)]
        return [S("cadr"), [S("list"), self.expr("int", d), self.expr(t, d)]]

    def try_(self, t, d):
        c = self.c
        e = S("ex")
        self.scopes.append({e: "exc"})
        self.infn.append(t)
        k = c.draw(5) if t in ("int", "bool", "str") else c.draw(3)
        # functions of the runtime as handlers: the machine calls those in
        # another way than closures
        native = None
        if k == 4 and t == "int" and c.bool(1, 3):
            native = "abs"
        elif k >= 4:
            native = "list"
        if native:
            h = S(native)
        elif k == 0:
            h = [S("fn"), [e], self.expr(t, d)]
        elif k == 1:
            h = [S("fn"), [e], [S("vp/out"), [S("car"), e]], self.expr(t, d)]
        elif k == 2 and t == "int":
            h = [S("fn"), [e], [S("if"), [S("int?"), [S("car"), e]], [S("car"), e], self.expr(t, d)]]
        else:
            # handles one kind, rethrows the others
            h = [S("fn"), [e], [S("if"), [S("="), [S("car"), e], c.pick(KEYS)], self.expr(t, d), [S("throw"), [S("car"), e]]]]
        self.infn.pop()
        self.scopes.pop()
        self.scopes.append({})
        self.intry += 1
        body = self.stmts(d, 0, 3) + [self.maythrow(t, d)]
        self.intry -= 1
        self.scopes.pop()
        if native == "list":
            v = S("exv")
            return [S("let"), [[v, [S("try"), h] + body]], [S("if"), [S("pair?"), v], self.expr(t, d - 1), v]]
        return [S("try"), h] + body

    def maythrow(self, t, d):
        c = self.c
        if c.bool(1, 2):
            return self.expr(t, d)
        return [S("if"), self.expr("bool", d), self.throw(d), self.expr(t, d)]

    def throw(self, d):
        c = self.c
        k = c.draw(4)
        if k == 0:
            return [S("throw"), [S("list"), c.pick(KEYS), b"desc", self.expr("int", max(0, d - 1))]]
        if k == 1:
            return [S("throw"), c.pick(KEYS)]
        if k == 2:
            return [S("throw"), self.expr("int", max(0, d - 1))]
        if k == 3:
            return [S("exception"), c.pick(KEYS), b"what", self.expr("int", max(0, d - 1))]
        return c.pick([[S("+"), 1, b"x"], [S("ref"), [S("array/new"), 1, 2], 7], [S("unbound-thing")], [S("-"), True, 1], [[S("identity"), 5], 1], S("unbound-thing2")])

    def lit(self, t):
        c = self.c
        if t == "int":
            return gens.small_int(c, 9) if c.bool(5, 6) else gens.int64(c)
        if t == "key":
            return c.pick(KEYS)
        if t == "str":
            return gens.word(c, 0, 3)
        if t == "bool":
            return c.bool()

    def var(self, t):
        vs = self.vars(t)
        return self.c.pick(vs) if vs else None

    def x_int(self, d):
        c = self.c
        if d <= 0:
            v = self.var("int")
            return v if v is not None and c.bool(2, 3) else self.lit("int")
        r = self.common("int", d)
        if r is not None:
            return r
        e = lambda t="int": self.expr(t, d - 1)
        k = c.weighted([(3, 0), (6, 1), (6, 2), (1, 3), (2, 4), (3, 5), (2, 6), (2, 7), (3, 8), (2, 9), (3, 10), (1, 11), (2, 12), (3, 13), (1, 14), (1, 15), (1, 16)])
        if k == 0:
            return self.lit("int")
        if k == 1:
            return self.var("int") or self.lit("int")
        if k == 2:
            op = S(c.pick(["+", "-", "*"]))
            return [op] + [e() for _ in range(c.weighted([(6, 2), (2, 3), (1, 4)]))]
        if k == 3:
            return [S(c.pick(["inc", "-", "abs", "identity"])), e()]
        if k == 4:
            return [S(":length"), e(c.pick(["str", "arr"]))]
        if k == 5:
            f = self.var("f1")
            return [f, e()] if f else [S("+"), e(), 1]
        if k == 6:
            f = self.var("f2")
            return [f, e(), e()] if f else [S("-"), e(), 1]
        if k == 7:
            f = self.var("ctr")
            return [f] if f else [S("*"), e(), 2]
        if k == 8:
            return [S("reduce"), e("ilist"), S(c.pick(["+", "-", "bit-xor"])) if c.bool() else self.expr("f2", d - 1), e()]
        if k == 9:
            i = c.int(0, 2) if self.exc == 0 or c.bool(3, 4) else c.int(-1, 6)
            return [S("ref"), e("arr"), i]
        if k == 10:
            self.effects += 1
            return [S("vp/out"), e()]
        if k == 11:
            fs = [S(c.pick(["+", "-", "*"])), e()]
            return [S("->"), e()] + [[S(c.pick(["+", "-", "*"])), self.expr("int", d - 2)] for _ in range(c.int(1, 3))] + ([S("inc")] if c.bool() else [])
        if k == 12:
            return [S("apply"), S(c.pick(["+", "-", "*"])) if c.bool() else e("f2"), [S("list"), e(), e()]]
        if k == 13:
            f = self.var("rec")
            return [f, c.int(0, 7), e()] if f else [S("bit-and"), e(), e()]
        if k == 14:
            return [S("sum"), e("ilist")]
        if k == 15:
            if c.bool():
                return self.wide(e)
            return [S(":length"), e("str")]
        return [S("or"), None, e()]

    def x_bool(self, d):
        c = self.c
        if d <= 0:
            return self.var("bool") if self.vars("bool") and c.bool() else c.bool()
        r = self.common("bool", d)
        if r is not None:
            return r
        e = lambda t="int": self.expr(t, d - 1)
        k = c.weighted([(1, 0), (2, 1), (8, 2), (2, 3), (2, 4), (2, 5), (2, 6), (1, 7), (1, 8)])
        if k == 0:
            return c.bool()
        if k == 1:
            return self.var("bool") if self.vars("bool") else c.bool()
        if k == 2:
            return [S(c.pick(["<", ">", "<=", ">=", "=", "not="])), e(), e()]
        if k == 3:
            return [S("not"), e("bool")]
        if k == 4:
            return [S("and")] + [e("bool") for _ in range(c.int(1, 3))]
        if k == 5:
            return [S("or")] + [e("bool") for _ in range(c.int(1, 3))]
        if k == 6:
            return [S(c.pick(["nil?", "pair?", "boolean"])), e("ilist")]
        if k == 7:
            return [S("="), e("str"), e("str")] if c.bool() else [S("="), e("key"), e("key")]
        return [S("equal?"), e("ilist"), e("ilist")]

    def x_str(self, d):
        c = self.c
        if d <= 0:
            return self.var("str") if self.vars("str") and c.bool() else self.lit("str")
        r = self.common("str", d)
        if r is not None:
            return r
        e = lambda t="int": self.expr(t, d - 1)
        k = c.draw(3)
        if k == 0:
            return self.lit("str")
        if k == 1:
            return self.var("str") or self.lit("str")
        if k == 2:
            return [S("cat")] + [e(c.pick(["str", "int", "key"])) for _ in range(c.int(1, 3))]
        return [S(":string"), e()]

    def x_key(self, d):
        c = self.c
        if d <= 0:
            return self.var("key") if self.vars("key") and c.bool() else c.pick(KEYS)
        r = self.common("key", d)
        return r if r is not None else self.var("key") or c.pick(KEYS)

    def wide(self, e):
        """Forms with many parts: the compiled code counts them in one byte."""
        c = self.c
        n = c.pick([126, 127, 128, 129, 200, 250, 254])
        vals = [e()] + [(i * 7919 + 3) % 1000 for i in range(n - 1)]
        i = c.draw(n - 1)
        k = c.draw(4)
        if k == 0:
            return [S("sum"), [S("list")] + vals]
        if k == 1:
            return [S("ref"), [S("array/new")] + vals, i]
        if k == 2:
            return [S("ref"), [S("list")] + vals, i]
        if k == 3:
            n = min(n, 60)
            ps = [S("w%d" % j) for j in range(n)]
            return [[S("fn"), ps, ps[min(i, n - 1)]]] + vals[:n]
        return [[S("fn"), [S("wa"), S("."), S("wr")], [S("+"), S("wa"), [S("ref"), S("wr"), min(i, n - 2)]]]] + vals

    def x_ilist(self, d):
        c = self.c
        if d <= 0:
            return self.var("ilist") if self.vars("ilist") and c.bool() else [S("list"), self.lit("int")]
        r = self.common("ilist", d)
        if r is not None:
            return r
        e = lambda t="int": self.expr(t, d - 1)
        k = c.weighted([(4, 0), (3, 1), (3, 2), (3, 3), (2, 4), (2, 5), (1, 6), (2, 7), (1, 8)])
        if k == 0:
            return [S("list")] + [e() for _ in range(c.int(1, 4))]
        if k == 1:
            return self.var("ilist") or None
        if k == 2:
            return [S("cons"), e(), e("ilist")]
        if k == 3:
            return [S("map"), e("ilist"), e("f1")]
        if k == 4:
            p = self.nm("int")
            return [S("filter"), e("ilist"), [S("fn"), [p]] + self.fnbody({p: "int"}, "bool", d - 1)]
        if k == 5:
            return [S("append"), e("ilist"), e("ilist")]
        if k == 6:
            return [S("reverse"), e("ilist")]
        if k == 7:
            return [S("quote"), [self.lit("int") for _ in range(c.int(1, 4))]]
        return [S("cdr"), [S("list"), e(), e(), e()]]

    def x_arr(self, d):
        v = self.var("arr")
        if v and (d <= 0 or self.c.bool(2, 3)):
            return v
        if d > 0 and v and self.c.bool(1, 3):
            return [S("array/dup"), self.expr("arr", d - 1)]
        return [S("array/new")] + [self.expr("int", max(0, d - 1)) for _ in range(3)]

    def x_f1(self, d):
        v = self.var("f1")
        if v and (d <= 0 or self.c.bool()):
            return v
        p = self.nm("int")
        return [S("fn"), [p]] + self.fnbody({p: "int"}, "int", d - 1)

    def x_f2(self, d):
        v = self.var("f2")
        if v and (d <= 0 or self.c.bool()):
            return v
        p, q = self.nm("int"), S("vz")
        return [S("fn"), [p, q]] + self.fnbody({p: "int", q: "int"}, "int", d - 1)

    def x_ctr(self, d):
        v = self.var("ctr")
        if v and (d <= 0 or self.c.bool()):
            return v
        n = self.nm("int")
        st = self.expr("int", max(0, d - 1))
        return [S("let"), [[n, st]], [S("fn"), S("lr"), [S("set!"), n, [S(self.c.pick(["+", "-"])), n, self.c.int(1, 3)]], n]]

    def fnbody(self, sc, t, d):
        rec, self.rec = self.rec, []
        self.scopes.append(dict(sc))
        self.infn.append(t)
        b = self.stmts(d, 0, 3) + [self.expr(t, max(0, d))]
        self.infn.pop()
        self.scopes.pop()
        self.rec = rec
        return b

    # -- statements
    def stmts(self, d, lo, hi, defs=True):
        out = []
        for _ in range(self.c.int(lo, hi)):
            s = self.stmt(d, defs)
            if s is not None:
                out.append(s)
        return out

    def defname(self, t):
        """A name to define in the current scope: visible ones only with the same type."""
        return self.nm(t)

    def stmt(self, d, defs=True):
        c = self.c
        self.budget -= 1
        if self.budget <= 0:
            return None
        d = max(0, d - 1)
        k = c.weighted([(4, 0), (3, 1), (4, 2), (2, 3), (2, 4), (3, 5), (2, 6), (2, 7), (3, 8), (2, 9), (self.exc, 10), (2, 11), (2, 12), (1, 13), (1 + self.exc, 14)])
        if k == 0:
            self.effects += 1
            return [S("vp/out"), self.expr(c.pick(["int", "int", "str", "ilist", "bool", "key"]), d)]
        if k == 1:
            t = c.pick(["int", "int", "bool", "str", "ilist", "key"])
            v = self.var(t)
            return [S("set!"), v, self.expr(t, d)] if v else None
        if k == 2 and defs:
            t = c.pick(["int", "int", "str", "ilist", "arr", "bool", "ctr"])
            e = self.expr(t, d)
            n = self.defname(t)
            self.scopes[-1][n] = t
            return [S("def"), n, e]
        if k == 3 and defs:
            t = c.pick(["f1", "f2"])
            n = self.name("fn")
            ps = [S("va"), S("vz")][:1 if t == "f1" else 2]
            b = self.fnbody({p: "int" for p in ps}, "int", d)
            self.scopes[-1][n] = t
            return [S("defn"), n, list(ps)] + b
        if k == 4 and defs:
            # bounded recursion
            n = self.name("rec")
            p, a = S("rn"), S("va")
            self.scopes.append({p: "int", a: "int"})
            self.infn.append("int")
            pre = self.stmts(d, 0, 1)
            base = self.expr("int", d)
            step = self.expr("int", d)
            self.infn.pop()
            self.scopes.pop()
            call = [n, [S("-"), p, 1], step]
            shape = c.draw(2)
            r = call if shape == 0 else [S("+"), a, call] if shape == 1 else [S("-"), call, p]
            self.scopes[-1][n] = "rec"
            return [S("defn"), n, [p, a]] + pre + [[S("if"), [S("<="), p, 0], base, r]]
        if k == 5:
            a = [S("when"), S("when-not")][c.draw(1)]
            return [a, self.expr("bool", d)] + self.stmts(d, 1, 3, defs=False) + [None]
        if k == 6:
            i = self.name("i")
            self.scopes.append({i: "roint"})
            b = self.stmts(d, 1, 3, defs=False)
            self.scopes.pop()
            self.scopes[-1].setdefault(i, "roint")
            r = [S("dotimes"), [i, c.int(0, 5)]] + b
            if not b:
                return None
            if c.bool(1, 2):
                r.append([S("vp/out"), i])
            return r
        if k == 7:
            v = self.nm("int")
            l = self.expr("ilist", d)
            self.scopes.append({v: "int"})
            b = self.stmts(d, 1, 3)
            self.scopes.pop()
            return [S("doseq"), [v, l]] + (b or [[S("vp/out"), v]])
        if k == 8:
            n = self.name("w")
            self.scopes.append({n: "roint"})
            b = self.stmts(d, 1, 3, defs=False)
            self.scopes.pop()
            return [S("let"), [[n, c.int(0, 5)]], [S("while"), [S(">"), n, 0], [S("set!"), n, [S("-"), n, 1]]] + b]
        if k == 9:
            a = self.var("arr")
            if not a:
                return None
            i = c.int(0, 2) if self.exc == 0 or c.bool(3, 4) else c.int(-1, 5)
            return [S("set!"), a, i, self.expr("int", d)]
        if k == 10:
            return [S("when"), self.expr("bool", d), self.throw(d)]
        if k == 11 and self.infn:
            return [S("when"), self.expr("bool", d), [S("return"), self.expr(self.infn[-1], d)]]
        if k == 12:
            v = self.var("int")
            return c.pick([[S("inc!"), v], [S("dec!"), v, c.int(1, 3)], [S("inc!"), v, c.int(1, 3)]]) if v else None
        if k == 13:
            v = self.var("ilist")
            return ([S("cons!"), self.expr("int", d), v] if c.bool() else [S("cdr!"), v]) if v else None
        if k == 14:
            return self.try_("int", d)
        return None

    def program(self):
        c = self.c
        forms = self.stmts(4, 2, 8)
        t = c.pick(["int", "ilist", "str", "bool"])
        forms.append(self.expr(t, 4))
        return forms


PRE = "(def vp/log #nil) (defn vp/out (x) (set! vp/log (cons (if (= :array (:type-name x)) (array/dup x) x) vp/log)) x) "


def model(forms, fuel=30000):
    """(kind, value or exception items, exact?, log, interpreter)"""
    it = Interp(fuel)
    try:
        try:
            v = it.body(forms, Env(it.globals))
            return "ok", v, True, it
        except NExc as x:
            return "exc", x.items, x.exact, it
        except (RecursionError, TypeError, AttributeError, IndexError, KeyError, ValueError):
            raise StopGen()         # outside of the modelled subset
    except Ret:
        raise StopGen()


def program_text(forms):
    return PRE + "\n".join(text(f) for f in forms)
