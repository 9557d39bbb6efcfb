"""Quasiquote templates against their reference expansion; macros against expansion by hand."""
from vp import gens, lang
from vp.core import Prop, StopGen, health
from vp.lang import S, text
from vp.session import norm
from vp.values import Arr, Kw, Pair, Sym, same


class Unq:
    def __init__(self, src, val):
        self.src, self.val = src, val


class Spl(Unq):
    pass


class Quo:
    def __init__(self, x):
        self.x = x


class Lit:
    """[..] or {..}: reads as a list headed by a symbol."""
    def __init__(self, kind, items):
        self.kind, self.items = kind, items


class Dot:
    def __init__(self, items, tail):
        self.items, self.tail = items, tail


SYMS = ["a", "foo", "x-y", "+", "if", "car", "list", "vp", "unknown!", "when"]


class Templates(Prop):
    id = "P21.quasiquote"
    quick_cases = 12000
    rule = "a case counts when the template has at least two unquotes or splices and at least one nested list"

    def atom(self, c):
        k = c.draw(7)
        if k == 0:
            return gens.small_int(c, 99)
        if k == 1:
            return S(c.pick(SYMS))
        if k == 2:
            return Kw(c.pick([b"ka", b"kb"]))
        if k == 3:
            return gens.word(c, 0, 4)
        if k == 4:
            return c.bool()
        if k == 5:
            return None
        if k == 6:
            return c.pick([0.5, -1.25, 1e9])
        return S(c.pick(SYMS))

    def value(self, c, depth):
        """(source, value) of an expression placed in an unquote."""
        self.n += 1
        k = c.draw(6 if depth > 0 else 4)
        if k == 0:
            return "(+ 1 2)", 3
        if k == 1:
            v, x = self.vars[c.draw(len(self.vars) - 1)]
            return v, x
        if k == 2:
            s = c.pick(SYMS)
            return "'" + s, Sym(s.encode())
        if k == 3:
            return c.pick([("#f", False), ("#nil", None), ("#t", True), ("\"s\"", b"s"), (":kk", Kw(b"kk")), ("(car '(b . c))", Sym(b"b"))])
        if k == 4:
            return c.pick([("(cons 1 2)", Pair([1], 2)), ("'(unquote x)" if False else "'(y z)", [Sym(b"y"), Sym(b"z")])])
        t = self.template(c, depth - 1)
        return "`" + self.src(t), self.val(t)

    def seq(self, c, depth):
        """(source, list value) of an expression placed in a splice."""
        self.n += 1
        k = c.draw(4 if depth > 0 else 3)
        if k == 0:
            xs = [gens.small_int(c, 9) for _ in range(c.draw(3))]
            return ("(list %s)" % " ".join(map(str, xs)) if xs else "#nil"), xs
        if k == 1:
            return "lst", [7, Sym(b"q"), None]
        if k == 2:
            return "(cdr '(1))", []
        if k == 3:
            return "(map '(1 2 3) inc)", [2, 3, 4]
        t = self.template(c, depth - 1, "list")
        v = self.val(t)
        if v is None:
            v = []
        if not isinstance(v, list):
            raise StopGen()
        return "`" + self.src(t), v

    def template(self, c, depth, kind=None):
        k = c.weighted([(5, "atom"), (6, "list"), (5, "unq"), (1, "quo"), (1, "lit"), (2, "dot")]) if kind is None else kind
        if depth <= 0 and k not in ("atom", "unq", "list"):
            k = "atom"
        if k == "atom":
            return self.atom(c)
        if k == "unq":
            return Unq(*self.value(c, depth - 1))
        if k == "quo":
            return Quo(self.template(c, depth - 1))
        n = c.draw(4) if depth > 0 else c.draw(1)
        items = []
        for _ in range(n):
            if c.bool(1, 4):
                items.append(Spl(*self.seq(c, depth - 1)))
            else:
                items.append(self.template(c, depth - 1))
        if items and isinstance(items[0], S) and items[0] in ("unquote", "quote"):
            raise StopGen()
        if k == "lit":
            if c.bool():
                return Lit("[]", [x for x in items])
            ks = [Kw(b"ka"), Kw(b"kb"), Kw(b"kc"), Kw(b"kd")]
            return Lit("{}", [y for i, x in enumerate(items[:4]) if not isinstance(x, Spl) for y in (ks[i], x)])
        if k == "dot" and items and not isinstance(items[-1], Spl):
            t = Unq(*self.value(c, 0)) if c.bool() else self.atom(c)
            return Dot(items, t)
        return items or [1]

    def src(self, t):
        if isinstance(t, Spl):
            return "~@" + t.src
        if isinstance(t, Unq):
            return "~" + t.src
        if isinstance(t, Quo):
            return "'" + self.src(t.x)
        if isinstance(t, Lit):
            return t.kind[0] + " ".join(self.src(x) for x in t.items) + t.kind[1]
        if isinstance(t, Dot):
            return "(" + " ".join(self.src(x) for x in t.items) + " . " + self.src(t.tail) + ")"
        if isinstance(t, list):
            return "(" + " ".join(self.src(x) for x in t) + ")"
        if isinstance(t, float):
            return "%.2f" % t
        return text(t)

    def items(self, ts):
        out = []
        for x in ts:
            if isinstance(x, Spl):
                out += x.val
            else:
                out.append(self.val(x))
        return out

    def val(self, t):
        if isinstance(t, Unq):
            return t.val
        if isinstance(t, Quo):
            return [Sym(b"quote"), self.val(t.x)]
        if isinstance(t, Lit):
            return [Sym(b"array/new" if t.kind == "[]" else b"tree/new")] + self.items(t.items)
        if isinstance(t, Dot):
            v, tail = self.items(t.items), self.val(t.tail)
            if tail is None:
                return norm(v)
            if isinstance(tail, list):
                return v + tail
            if isinstance(tail, Pair):
                return Pair(v + tail.items, tail.tail)
            return Pair(v, tail) if v else tail
        if isinstance(t, list):
            return norm(self.items(t))
        if isinstance(t, S):
            return Sym(t.encode())
        return t

    def gen(self, c):
        self.n = 0
        self.vars = [("va", gens.small_int(c, 99)), ("vb", b"str"), ("vc", [1, [2, 3]]), ("vd", None), ("ve", False)]
        t = self.template(c, c.int(1, 4), "list" if c.bool(5, 6) else None)
        body = "`" + self.src(t)
        w = self.val(t)
        defs = "(def va %d) (def vb \"str\") (def vc '(1 (2 3))) (def vd #nil) (def ve #f) (def lst '(7 q #nil))" % self.vars[0][1]
        how = c.draw(3)
        if how == 0:
            src = "(do %s (list %s))" % (defs, body)
        elif how == 1:
            src = "(do %s (list ((fn (x) %s) 1)))" % (defs, body)
        elif how == 2:
            # twice: what a template builds is new each time
            src = "(do %s (defn f (x) %s) (f 1) (list (f 2)))" % (defs, body)
        else:
            # as the body of a macro that quotes its result
            src = "(let ((env (environment*))) (eval-in env '(do %s)) (eval-in env '(defmacro vp/m (x) (list 'quote %s))) (list (eval-in env '(vp/m 5))))" % (defs, body)
        return {"text": src, "want": [w], "n": self.n, "nested": "(" in body[2:]}

    def judge(self, case, outs):
        o = outs[0]
        if o.kind != "ok" or not same(o.value, case["want"]):
            return "gave %r, expected %.800r" % (o, case["want"])

    def nontrivial(self, case, outs):
        return case["n"] >= 2 and case["nested"]


class Macros(Prop):
    id = "P21.macros"
    quick_cases = 5000
    rule = "a case counts when the program uses macros at least twice and evaluates at least 40 forms"

    def gen(self, c):
        """Programs in which some subexpressions are macro calls; the model runs them expanded."""
        g = lang.Gen(c, c.pick([0, 0, 2]), c.pick([20, 40, 60]))
        macros = []
        for i in range(c.int(1, 3)):
            macros.append(self.macro(c, g, i, macros))
        g.budget = c.pick([30, 60])
        uses = [0]
        orig = g.expr

        def expr(t, d):
            if t == "int" and d > 0 and c.bool(1, 3):
                m = c.pick(macros)
                args = [orig("int", d - 1) for _ in range(len(m["params"]))]
                if m["rest"]:
                    args += [orig("int", d - 1) for _ in range(c.draw(2))]
                uses[0] += 1
                return [S(m["name"])] + args
            return orig(t, d)
        g.expr = expr
        forms = [f for f in g.program()]
        self.infn = False
        plain = [self.expand(f, {m["name"]: m for m in macros}) for f in forms]
        try:
            kind, v, exact, it = lang.model(plain, 20000)
        except RecursionError:
            raise StopGen()
        local = c.bool(1, 4)
        env = "(let ((env (environment*))) (eval-in env '(do %s))" % lang.PRE
        env += " ".join("(eval-in %s '%s)" % ("env" if local else "root-closure", m["src"]) for m in macros)
        infn = local and self.infn
        use = ["(eval-in env '(do (def vp/res (try (fn (e) (list :exc (if (pair? e) (list (car e) (cadr e) (caddr e)) (list e)))) (list :ok (let* (do %s)))))"
               " (list vp/res (reverse vp/log)))))" % "\n".join(text(f) for f in forms)]
        return {"text": env + use[0], "kind": kind, "want": v, "exact": exact, "log": it.log, "steps": it.steps, "counts": it.counts,
                "src": "\n".join([m["src"] for m in macros] + [text(f) for f in forms]), "uses": uses[0], "infn": infn, "local": local}

    def macro(self, c, g, i, before):
        n = c.int(0 if c.bool(1, 4) else 1, 3)
        ps = ["pa", "pb", "pc"][:n]
        rest = c.bool(1, 3) or n == 0
        name = "vp/mac%d" % i
        holes = []
        orig = g.expr

        def expr(t, d):
            if t == "int" and c.bool(1, 3):
                k = c.draw(5)
                if k == 0 and before and d > 0:
                    m = c.pick(before)
                    return [S(m["name"])] + [expr("int", d - 1) for _ in m["params"]]
                if k == 1 and rest:
                    return [S("+"), 1, 2, Hole("pr", True)]
                if k == 2 and rest:
                    return [S("sum"), [S("list"), 0, Hole("pr", True)]]
                if ps:
                    return Hole(c.pick(ps), False)
            return orig(t, d)
        g.expr = expr
        g.budget = 20
        body = expr("int", 3)
        if c.bool(1, 3):
            body = [S("do")] + [s for s in [g.stmt(2, defs=False)] if s is not None] + [body]
        g.expr = orig
        params = "(" + " ".join(ps + ([". pr"] if rest and ps else [])) + ")" if ps else "pr"
        src = "(defmacro %s %s `%s)" % (name, params, ttext(body))
        return {"name": name, "params": ps, "rest": rest, "body": body, "src": src}

    def expand(self, f, ms, depth=0, infn=False):
        if depth > 60:
            raise StopGen()
        if isinstance(f, list) and f:
            if isinstance(f[0], S) and f[0] in ms:
                m = ms[f[0]]
                self.infn = self.infn or infn
                args = f[1:]
                b = dict(zip(m["params"], args + [None] * len(m["params"])))
                b["pr"] = args[len(m["params"]):]
                return self.expand(subst(m["body"], b), ms, depth + 1, infn)
            if f[0] == "quote":
                return f
            infn = infn or f[0] in ("fn", "defn")
            return [self.expand(x, ms, depth, infn) for x in f]
        return f

    judge1 = None

    def judge(self, case, outs):
        from .programs import Programs
        m = Programs.judge1(self, case, outs[0])
        return m

    def nontrivial(self, case, outs):
        return case["uses"] >= 2 and case["steps"] >= 40

    def tags(self, case, outs):
        return ["uses:%d" % min(9, case["uses"]), "local" if case["local"] else "global"]

    def known(self, case, outs, msg):
        """Functions are compiled in the global scope: macros of other scopes are not expanded in their bodies."""
        return "local-macro-in-function" if case["infn"] and outs[0].kind == "ok" else None

    def show(self, case):
        return case["src"]


MACS = r"""
(eval-in root-closure '(defmacro vp/p-add (a b) `(+ ~a ~b)))
(eval-in root-closure '(defmacro vp/p-twice (a) (list 'let (list (list 'vp-t a)) '(+ vp-t vp-t))))
(eval-in root-closure '(defmacro vp/p-seven () 7))
(eval-in root-closure '(defmacro vp/p-col () 'vp-arr))
(eval-in root-closure '(defmacro vp/p-tree () 'vp-tree))
(eval-in root-closure '(defmacro vp/p-fresh l `(array/new ~@l)))
(eval-in root-closure '(defmacro vp/p-list l (cons 'list l)))
(eval-in root-closure '(defmacro vp/p-fun (a) `(fn (vp-x) (+ vp-x ~a))))
(eval-in root-closure '(defmacro vp/p-op () '+))
(eval-in root-closure '(defmacro vp/p-less (a b) `(< ~a ~b)))
(eval-in root-closure '(defmacro vp/p-not (a) `(if ~a #f #t)))
(eval-in root-closure '(defmacro vp/p-nested (a) `(vp/p-add ~a (vp/p-seven))))
(eval-in root-closure '(defmacro vp/p-do l `(do ~@l)))
(eval-in root-closure '(defmacro vp/p-def (n v) `(def ~n ~v)))
(eval-in root-closure '(defmacro vp/p-store (i v) `(set! (vp/p-col) ~i ~v)))
(eval-in root-closure '(defmacro vp/p-key () :a))
"""


class Positions(Prop):
    """A macro call in every place of every form that evaluates what stands there, against the same program with the expansions written out."""
    id = "P21.positions"
    setup = MACS
    quick_cases = 3000
    rule = "a case counts when it has at least two macro calls and evaluates without an error"

    def gen(self, c):
        self.calls, self.loops, self.budget = 0, 0, c.pick([10, 25, 50])
        # an expression is a pair of texts: with the macros, and without
        a, b = self.seq(c, c.int(1, 4), c.int(2, 5))
        pre = "(def vp-arr (array/new 4 5 6)) (def vp-tree (tree/new :a 1 :b 2)) (def vp-log #nil)"
        texts = []
        for x in (a, b):
            texts.append("(do %s (def vp-res (try (fn (e) (list :exc (if (pair? e) (car e) e))) (let* %s))) (list vp-res vp-arr vp-tree))" % (pre, x))
        return {"text": texts, "src": a, "plain": b, "calls": self.calls}

    def seq(self, c, n, d):
        xs = [self.stmt(c, d) for _ in range(n)] + [self.int(c, d)]
        return " ".join(x[0] for x in xs), " ".join(x[1] for x in xs)

    def f(self, form, *xs):
        return form % tuple(x[0] for x in xs), form % tuple(x[1] for x in xs)

    def m(self, call, plain, *xs):
        self.calls += 1
        return call % tuple(x[0] for x in xs), plain % tuple(x[1] for x in xs)

    def int(self, c, d):
        self.budget -= 1
        I, A, B, F, L, T = self.int, self.arr, self.bool, self.fun, self.lst, self.tree
        if d <= 0 or self.budget < 0:
            k = c.draw(3)
            if k == 0:
                return ("%d" % c.int(0, 9),) * 2
            return ("(ref vp-arr 0)",) * 2 if k == 1 else self.m("(vp/p-seven)", "7")
        d -= 1
        k = c.draw(23)
        if k == 0:
            return self.m("(vp/p-add %s %s)", "(+ %s %s)", I(c, d), I(c, d))
        if k == 1:
            return self.m("(vp/p-twice %s)", "(let ((vp-t %s)) (+ vp-t vp-t))", I(c, d))
        if k == 2:
            return self.m("(vp/p-nested %s)", "(+ %s 7)", I(c, d))
        if k == 3:
            return self.f("(if %s %s %s)", B(c, d), I(c, d), I(c, d))
        if k == 4:
            return self.f("(cond (%s %s) (#t %s))", B(c, d), I(c, d), I(c, d))
        if k == 5:
            return self.f("(let ((vp-a %s) (vp-b %s)) (+ vp-a vp-b %s))", I(c, d), I(c, d), I(c, d))
        if k == 6:
            return self.f("(ref %s %d)" % ("%s", c.int(0, 2)), A(c, d))
        if k == 7:
            return self.f("(:length %s)", c.pick([A, L])(c, d))
        if k == 8:
            return self.f("(%s %s)", F(c, d), I(c, d))
        if k == 9:
            return self.m("((vp/p-op) %s %s)", "(+ %s %s)", I(c, d), I(c, d))
        if k == 10:
            return self.f("(sum %s)", L(c, d))
        if k == 11:
            return self.f("(try (fn (vp-e) %s) (throw (list :x %s)))", I(c, d), I(c, d))
        if k == 12:
            return self.f("(try %s (throw %s))", F(c, d), I(c, d))
        if k == 13:
            return self.f("(ref %s :a)", T(c, d))
        if k == 14:
            return self.f("(ref (array/new %s %s) (bit-and 1 %s))", I(c, d), I(c, d), I(c, d))
        if k == 15:
            return self.f("(-> %s (+ %s))", I(c, d), I(c, d))
        if k == 16:
            return self.f("(case %s (7 %s) (8 %s) (otherwise %s))", I(c, d), I(c, d), I(c, d), I(c, d))
        if k == 17:
            s = self.stmt(c, d)
            return self.f("(do %s %s)", s, I(c, d)) if c.bool() else self.m("(vp/p-do %s %s)", "(do %s %s)", s, I(c, d))
        if k == 18:
            return self.f("(car `(~%s ~@%s))", I(c, d), L(c, d))
        if k == 19:
            return self.f("(let* (def vp-q %s) (defn vp-h (vp-z) (+ vp-z vp-q %s)) (vp-h %s))", I(c, d), I(c, d), I(c, d))
        if k == 20:
            return self.f("(ref [%s %s] 1)", I(c, d), I(c, d))
        if k == 21:
            return self.f("(ref {:a %s} :a)", I(c, d))
        if k == 22:
            return self.f("(apply %s (list %s))", F(c, d), I(c, d))
        return self.f("(or (and %s %s) %s)", B(c, d), I(c, d), I(c, d))

    def bool(self, c, d):
        self.budget -= 1
        if d <= 0 or self.budget < 0:
            return (c.pick(["#t", "#f"]),) * 2
        d -= 1
        k = c.draw(4)
        if k == 0:
            return self.m("(vp/p-less %s %s)", "(< %s %s)", self.int(c, d), self.int(c, d))
        if k == 1:
            return self.m("(vp/p-not %s)", "(if %s #f #t)", self.bool(c, d))
        if k == 2:
            return self.f("(and %s %s)", self.bool(c, d), self.bool(c, d))
        if k == 3:
            return self.f("(or %s %s)", self.bool(c, d), self.bool(c, d))
        return self.f("(= %s %s)", self.int(c, d), self.int(c, d))

    def arr(self, c, d):
        self.budget -= 1
        if d <= 0 or self.budget < 0 or c.bool():
            return self.m("(vp/p-col)", "vp-arr") if c.bool(3, 4) else ("vp-arr",) * 2
        d -= 1
        if c.bool():
            return self.m("(vp/p-fresh %s %s %s)", "(array/new %s %s %s)", self.int(c, d), self.int(c, d), self.int(c, d))
        return self.f("(if %s %s %s)", self.bool(c, d), self.arr(c, d), self.arr(c, d))

    def tree(self, c, d):
        return self.m("(vp/p-tree)", "vp-tree") if c.bool(3, 4) else ("vp-tree",) * 2

    def fun(self, c, d):
        self.budget -= 1
        if c.bool() and d > 0:
            return self.m("(vp/p-fun %s)", "(fn (vp-x) (+ vp-x %s))", self.int(c, d - 1))
        return self.f("(fn (vp-y) %s)", self.int(c, d - 1))

    def lst(self, c, d):
        self.budget -= 1
        if d <= 0 or self.budget < 0:
            return ("'(1 2)",) * 2
        d -= 1
        if c.bool():
            return self.m("(vp/p-list %s %s)", "(list %s %s)", self.int(c, d), self.int(c, d))
        return self.f("(cons %s %s)", self.int(c, d), self.lst(c, d))

    def stmt(self, c, d):
        self.budget -= 1
        I, d = self.int, d - 1
        k = c.draw(12)
        if k <= 1:
            return self.f("(set! %s %d %s)" % ("%s", c.int(0, 2), "%s"), self.arr(c, d), I(c, d))
        if k == 2:
            return self.f("(set! %s (bit-and 1 %s) %s)", self.arr(c, d), I(c, d), I(c, d))
        if k == 3:
            return self.f("(set! %s %s %s)", self.tree(c, d), self.m("(vp/p-key)", ":a") if c.bool() else (":b",) * 2, I(c, d))
        if k == 4:
            return self.f("(when %s %s)", self.bool(c, d), self.stmt(c, d)) if d > 0 else ("#nil",) * 2
        if k == 5:
            i = c.int(0, 2)
            return self.m("(vp/p-store %d %%s)" % i, "(set! vp-arr %d %%s)" % i, I(c, d))
        if k == 6:
            return self.f("(doseq (vp-i %s) (set! vp-log (cons vp-i vp-log)))", self.lst(c, d))
        if k == 7:
            self.loops += 1          # the same name again would start the outer loop anew: it has no scope of its own
            return self.f("(dotimes (vp-i" + str(self.loops) + " %s) (set! vp-log (cons %s vp-log)))", ("3",) * 2 if c.bool() else self.m("(vp/p-seven)", "7"), I(c, d))
        if k == 8:
            n = "vp-d%d" % c.draw(3)
            return self.m("(vp/p-def %s %%s)" % n, "(def %s %%s)" % n, I(c, d)) if c.bool() else self.f("(def %s %%s)" % n, I(c, d))
        if k == 9:
            return self.f("(set! vp-log (list %s vp-log))", I(c, d))
        if k == 10:
            return self.f("(let ((vp-n 0)) (while (and (< vp-n 30) (< vp-n %s)) (set! vp-n (+ vp-n 5)) (set! vp-log %s)))", I(c, 0), I(c, d))
        if k == 11:
            return self.f("(if-not %s %s %s)", self.bool(c, d), I(c, d), I(c, d))
        return I(c, d)

    def texts(self, case):
        return case["text"]

    def judge(self, case, outs):
        m = health(outs)
        if m:
            return m
        a, b = outs
        if a.kind != b.kind or a.kind not in ("ok", "exc") or not same(a.value, b.value):
            return "with macros: %.700r\nwith their expansions: %.700r" % (a, b)

    def nontrivial(self, case, outs):
        o = outs[0]
        return case["calls"] >= 2 and o.kind == "ok" and not (isinstance(o.value, list) and isinstance(o.value[0], list) and o.value[0][:1] == [Kw(b"exc")])

    def show(self, case):
        return case["src"] + "\n; against\n" + case["plain"]


class Hole:
    def __init__(self, name, splice):
        self.name, self.splice = name, splice


def ttext(f):
    if isinstance(f, Hole):
        return ("~@" if f.splice else "~") + f.name
    if isinstance(f, list):
        if len(f) == 2 and f[0] == "quote":
            return "'" + ttext(f[1])
        return "(" + " ".join(ttext(x) for x in f) + ")"
    return text(f)


def subst(f, b):
    if isinstance(f, Hole):
        return b[f.name]
    if isinstance(f, list):
        out = []
        for x in f:
            if isinstance(x, Hole) and x.splice:
                out += b[x.name]
            else:
                out.append(subst(x, b))
        return out
    return f


PROPS = [Templates(), Macros(), Positions()]
