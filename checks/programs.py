"""Random programs against a reference interpreter."""
import sys

from vp import gens, lang
from checks import api
from vp.core import Prop, StopGen, health
from vp.lang import S, text
from vp.session import norm, normdeep
from vp.values import Arr, Kw, Opaque, Pair, Sym, same

sys.setrecursionlimit(20000)


def conv(v):
    """Model value to what the encoding decodes to."""
    if isinstance(v, (lang.Fn,)):
        return Opaque("lambda")
    if isinstance(v, lang.Native):
        return Opaque("native-function")
    if isinstance(v, Arr):
        return Arr(conv(x) for x in v)
    if isinstance(v, list):
        return norm([conv(x) for x in v])
    return v


def wrapped(forms):
    """Source that returns the outcome together with the log of effects."""
    return ("(do %s (def vp/res (try (fn (e) (list :exc (if (pair? e) (list (car e) (cadr e) (caddr e)) (list e)))) (list :ok (let* (do %s)))))"
            " (list vp/res (reverse vp/log)))" % (lang.PRE, "\n".join(text(f) for f in forms)))


def expected(forms):
    kind, v, exact, it = lang.model(forms)
    return kind, v, exact, it


class Programs(Prop):
    id = "P19.programs"
    quick_cases = 8000
    exc = 0
    size = 60
    rule = "a case counts when it evaluates at least 60 forms and uses at least 4 kinds of special form"

    def program(self, c):
        g = lang.Gen(c, self.exc, c.pick([15, 40, self.size, self.size * 2]))
        return g.program()

    def gen(self, c):
        forms = self.program(c)
        kind, v, exact, it = expected(forms)
        return {"text": wrapped(forms), "kind": kind, "want": v, "exact": exact, "log": it.log, "steps": it.steps, "counts": it.counts,
                "src": "\n".join(text(f) for f in forms)}

    def judge(self, case, outs):
        for o in outs:
            m = self.judge1(case, o)
            if m:
                return m

    def judge1(self, case, o):
        if o.kind != "ok" or not isinstance(o.value, list) or not o.value or not isinstance(o.value[0], list) or len(o.value[0]) != 2:
            return "program ended with %r" % o
        (kind, v), log = o.value[0], o.value[1] if len(o.value) > 1 else None
        wlog = conv(case["log"])
        if not same(log, wlog):
            return "effects were %.800r, expected %.800r" % (log, wlog)
        if kind != Kw(case["kind"].encode()):
            return "ended with %r %.500r, expected %s %.500r" % (kind, v, case["kind"], case["want"])
        if case["kind"] == "ok":
            if not same(v, conv(case["want"])):
                return "gave %.800r, expected %.800r" % (v, conv(case["want"]))
        else:
            w = conv(case["want"])
            n = min(3, len(w)) if case["exact"] else 1
            if not same(v[:n], w[:n]):
                return "raised %.500r, expected %.500r" % (v, w)
        return None

    def nontrivial(self, case, outs):
        return case["steps"] >= 60 and len(case["counts"]) >= 4

    def tags(self, case, outs):
        return list(case["counts"])

    def show(self, case):
        return case["src"]


class Exceptions(Programs):
    id = "P20.exceptions"
    exc = 4
    rule = "a case counts when at least two exceptions were thrown or caught while it ran and it evaluates at least 40 forms"

    def nontrivial(self, case, outs):
        return case["steps"] >= 40 and case["counts"].get("throw", 0) + case["counts"].get("caught", 0) >= 2


class Calls(Prop):
    """Calling a function by name, through a variable, by apply, and with a rest list are the same thing, for every function and method of the runtime."""
    id = "P19.calls"
    setup = api.SETUP
    batch = 20
    per_case = 20.0
    quick_cases = 700
    thorough_factor = 40
    rule = "a case counts when at least a quarter of its calls returned a value"
    handlers = False
    VARIADIC = ["list", "+", "*", "cat", "array/new", "append", "max", "min", "-", "=", "<", "tree/new", "(fn l l)", "(fn (a . b) (cons b a))", "(fn (a) a)", "(fn (a b) a)"]
    # what depends on when it is called, changes the world or the interpreter, or is not a function
    NOT = {"ref", "apply", "throw", "bytecode-eval*", "mutable-eval*",  # those are instructions, never functions: used as values they throw :vm-error
           "gensym", "time", "cwd", "garbage-collection-runs", "val->id", "read-line", "garbage-collect", "meta!", "parent!", "add-method"} | api.FILES

    def gen(self, c):
        funs = [(n, s) for n in sorted(api.SIG) for s in api.SIG[n] if self.fits(n, s)]
        meths = [(":" + n, [r] + list(s)) for n in sorted(api.METHODS) for r, s in api.METHODS[n] if self.fits(n, s + [r])]
        meths += [(":" + n, [r] + s) for r, n, s in api.EXTRA_METHODS if self.fits(n, s + [r])]
        steps = []
        for _ in range(c.int(4, 12)):
            if self.handlers:
                k = c.draw(3)
                one = [f for f in funs if len(f[1]) == 1]
                f = c.pick(self.VARIADIC) if k < 2 else c.pick(one)[0]
                v = lambda: c.pick(["1", "2.5", ":k", '"s"', "'sym", "#t", "#nil", "(list 1 2)", "(array/new 1)", "(tree/new :a 1)", "'(1 . 2)", "(cons 1 2)", "abs"])
                ex = v() if c.bool(1, 3) else "(list %s)" % " ".join([c.pick([":k", v()])] + [v() for _ in range(c.int(0, 4))])
                body = ["(throw %s)", "((fn () (throw %s)))", "(map (list 1) (fn (a) (throw %s)))", "(+ 1 (throw %s))", "(let ((q 1)) (when q (throw %s)))",
                        "(try (fn (e) (throw e)) (throw %s))"][c.draw(5)] % ex
                forms = ["(vp/part (try %s %s))" % (f, body), "(vp/part (%s (try (fn (e) e) %s)))" % (f, body),
                         "(vp/part (let ((h %s)) (try h %s)))" % (f, body), "(vp/part (apply %s (list (try (fn (e) e) %s))))" % (f, body)]
            else:
                f, sig = c.pick(c.pick([funs, meths]))
                a = [c.pick(api.GOOD[k]) for k in sig]
                if a and c.bool(1, 5):
                    a[c.draw(len(a) - 1)] = c.pick(["#nil", "7", '"str"', "'(4 5)", "-1.5", ":other", "(array/new 1 2)"])
                args = " ".join(a)
                i = c.draw(len(a))
                forms = ["(%s %s)" % (f, args), "(apply %s (list %s))" % (f, args), "(let ((g %s)) (g %s))" % (f, args),
                         "((fn (h . args) (apply h args)) %s %s)" % (f, args),
                         "(apply %s (append (list %s) (list %s)))" % (f, " ".join(a[:i]), " ".join(a[i:])),
                         "(let ((g (fn () %s))) ((g) %s))" % (f, args)]
                if f[0] == ":":
                    # a method's name is not a value to call, except by apply
                    forms = [forms[n] for n in (0, 1, 3, 4)]
                elif len(a) == 1:
                    forms.append("(car (map (list %s) %s))" % (args, f))
            steps.append((f, forms))
        text = "\n".join("(vp/add '%s '(%s))" % (f, " ".join(fs)) for f, fs in steps)
        return {"text": CALLS_PRE + text + "\n(list (nreverse vp/rows) (vp/self-test)))", "steps": steps}

    def fits(self, n, s):
        return not ({n, n.lstrip(":")} & self.NOT) and n.lstrip("$") == n and not (set(s) & set("SohBE")) and not any(w in n for w in ("file", "print", "time", "date"))

    def judge(self, case, outs):
        bad = health(outs)
        if bad:
            return bad
        o = outs[0]
        if o.kind != "ok":
            return "unexpected %r" % o
        rows = o.value[0] or []
        if len(rows) != len(case["steps"]):
            return "%d rows for %d steps" % (len(rows), len(case["steps"]))
        for (f, forms), row in zip(case["steps"], rows):
            if row is None:
                continue
            for form, r in zip(forms[1:], row[1:]):
                if not same(r, row[0]):
                    return "%s -> %.400r\nbut %s -> %.400r" % (forms[0], row[0], form, r)
        return None if same(api.WANT, o.value[1]) else "afterwards the interpreter no longer works: %.800r" % (o.value[1],)

    def nontrivial(self, case, outs):
        if outs[0].kind != "ok":
            return False
        rows = [r for r in outs[0].value[0] or [] if r is not None]
        return sum(1 for r in rows if r[0][0] == Kw(b"ok")) * 4 >= len(case["steps"])

    def show(self, case):
        return "\n".join(fs[0] for f, fs in case["steps"])


CALLS_PRE = api.PRE + r"""
(def vp/rows #nil)
(defn vp/fresh ()
      (set! vp/arr (array/new 5 3 9 "s" :k))
      (set! vp/tree (tree/new :a 1 :m 2 :z "q" :length-x 4))
      (set! vp/buf2 (buffer/allocate 24))
      (set! vp/fun (fn (a b . c) "A function" (if a (list a b c) vp/arr))))
(defn vp/one (form)
      (try (fn (e) (list :exc (if (pair? e) (car e) e)))
           (vp/fresh)
           (def v (eval-in vp/env form))
           (list :ok (if (vp/small? v) v (vp/type v)))))
;; an exception's elements after those that were thrown are up to the machine
(defn vp/part (v) (if (pair? v) (if (pair? (car v)) (list (car (car v))) (list (car v))) v))
(defn vp/add (f forms)
      (def t (if (= :keyword (vp/type f)) :lambda (vp/type (eval-in vp/env f))))
      (set! vp/rows (cons (if (or (= t :lambda) (= t :native-function)) (map forms vp/one) #nil) vp/rows)))
"""


class Handlers(Calls):
    """Every function works as an exception handler: it gets what (fn (e) e) gets there."""
    id = "P20.handlers"
    handlers = True
    quick_cases = 500


PROPS = [Programs(), Exceptions(), Calls(), Handlers()]
