"""Lists, arrays, trees, sorting and structural equality against reference models."""
from vp import gens
from vp.core import Prop
from vp.session import Any, AnyOrRaise, Raises, Session, SessionProp, norm, normdeep, snap
from vp.values import Arr, Buf, F, Kw, Pair, Sym, Tree, expr, same


def atom(c):
    k = c.weighted([(6, 0), (3, 1), (2, 2), (2, 3), (1, 4), (1, 5), (1, 6)])
    if k == 0:
        return gens.small_int(c, 12)
    if k == 1:
        return Kw(gens.word(c, 1, 3))
    if k == 2:
        return gens.bytestr(c, 4, nul=True)
    if k == 3:
        return c.pick([True, False])
    if k == 4:
        return gens.int64(c)
    if k == 5:
        return F(gens.small_int(c, 9) / 4.0)
    return Sym(gens.word(c, 1, 3))


def num_eq(a, b):
    """What = says about two atoms."""
    isnum = lambda v: isinstance(v, (int, float)) and not isinstance(v, bool)
    if isnum(a) and isnum(b):
        return a == b
    return same(a, b)


PREDS = {  # on integers
    "odd?": lambda x: x % 2 == 1, "even?": lambda x: x % 2 == 0, "(fn (x) (> x 3))": lambda x: x > 3,
    "neg?": lambda x: x < 0, "(fn (x) (= x 0))": lambda x: x == 0, "(fn (x) #t)": lambda x: True,
    "(fn (x) #nil)": lambda x: False, "zero?": lambda x: x == 0}
APREDS = {  # on anything
    "int?": lambda x: isinstance(x, int) and not isinstance(x, bool), "string?": lambda x: type(x) is bytes,
    "(fn (x) x)": lambda x: x is not None and x is not False, "not": lambda x: x is None or x is False,
    "(fn (x) (= :keyword (:type-name x)))": lambda x: type(x) is Kw, "pair?": lambda x: type(x) is list and bool(x),
    "nil?": lambda x: x is None or (type(x) is list and not x)}


def truthy(x):
    return not (x is None or x is False or (type(x) is list and not x))


class Lists(SessionProp):
    """Pipelines of list functions over several lists; every list is compared again at the end."""
    id = "P09.lists"
    quick_cases = 2400
    rule = "a case counts when it has at least 8 operations and at least one list of 5 elements or more"

    def gen(self, c):
        s = Session()
        vs = []     # (name, model, kind)

        def new(src, val, kind):
            n = "l%d" % len(vs)
            s.define(n, src, val)
            vs.append((n, val, kind))

        def fresh(kind, hi=12):
            f = (lambda: gens.small_int(c, 20)) if kind == "int" else (lambda: gens.bytestr(c, 4)) if kind == "str" else (lambda: atom(c))
            n = c.int(0, hi) if c.bool(9, 10) else c.int(0, 150)
            val = [f() for _ in range(n)]
            if kind == "any" and val and c.bool(1, 3):
                val[c.draw(len(val) - 1)] = [atom(c) for _ in range(c.int(1, 4))]
            return val

        def lst(v):
            return "(list %s)" % " ".join(expr(x) for x in v) if len(v) < 200 else expr(v)
        for k in ("int", "any", "str"):
            v = fresh(k)
            new(lst(v), v, k)

        def get(kinds=("int", "any", "str")):
            return c.pick([v for v in vs if v[2] in kinds])
        nops = c.int(3, 18)
        for _ in range(nops):
            op = c.draw(33)
            n, l, k = get()
            if op == 0:
                k = c.pick(["int", "any", "str"])
                v = fresh(k)
                new(lst(v), v, k)
            elif op == 1:
                v = atom(c) if k == "any" else gens.small_int(c) if k == "int" else gens.bytestr(c, 3)
                new("(cons %s %s)" % (expr(v), n), [v] + l, k)
            elif op == 2:
                n2, l2, k2 = get((k,) if k != "any" else ("int", "any", "str"))
                new("(append %s %s)" % (n, n2), l + l2, k if k == k2 else "any")
            elif op == 3:
                new("(reverse %s)" % n, l[::-1], k)
            elif op == 4:
                new("(nreverse (append %s #nil))" % n, l[::-1], k)
            elif op in (5, 6):
                P = dict(APREDS)
                if k == "int":
                    P.update(PREDS)
                p = c.pick(sorted(P))
                f = c.pick(["filter", "list/filter", "remove"])
                new("(%s %s %s)" % (f, n, p), [x for x in l if P[p](x) == (f != "remove")], k)
            elif op == 7:
                x = c.draw(3)
                if x == 0:
                    new("(map %s (fn (x) (list x x)))" % n, [[v, v] for v in l], "any")
                elif x == 1:
                    new("(list/map %s (fn (x) (cons 1 (list x))))" % n, [[1, v] for v in l], "any")
                elif x == 2:
                    new("(let ((n 0)) (map %s (fn (x) (inc! n) (list n x))))" % n,
                        [[i + 1, v] for i, v in enumerate(l)], "any")
                else:
                    new("(map %s :type-name)" % n if False else "(map %s (fn (x) (:type-name x)))" % n,
                        [Kw(tname(v)) for v in l], "any")
            elif op == 8:
                n, l, k = get(("int",))
                f, g = c.pick([("(fn (x) (+ x 1))", lambda x: x + 1), ("(fn (x) (* x -2))", lambda x: gens.wrap(x * -2)),
                               ("inc", lambda x: x + 1), ("-", lambda x: -x), ("(fn (x) (- 7 x))", lambda x: 7 - x)])
                new("(map %s %s)" % (n, f), [gens.wrap(g(x)) for x in l], "int")
            elif op == 9:
                n, l, k = get(("int",))
                f, g = c.pick([("+", lambda a, b: a + b), ("-", lambda a, b: a - b), ("(fn (a b) (+ (* a 3) b))", lambda a, b: a * 3 + b),
                               ("bit-xor", lambda a, b: a ^ b)])
                st = gens.small_int(c)
                r = st
                for x in l:
                    r = gens.wrap(g(r, x))
                s.step("(%s %s %s %d)" % (c.pick(["reduce", "list/reduce"]) if l else "reduce", n, f, st), r)
            elif op == 10:
                s.step("(reduce %s (fn (a b) (cons b a)) #nil)" % n, l[::-1])
            elif op == 11:
                n, l, k = get(("int",))
                s.step("(sum %s)" % n, gens.wrap(sum(l)))
            elif op == 12:
                P = dict(APREDS)
                if k == "int":
                    P.update(PREDS)
                p = c.pick(sorted(x for x in P if x not in ("(fn (x) x)", "(fn (x) #nil)")))
                s.step("(every? %s %s)" % (n, p), all(P[p](x) for x in l))
            elif op == 13:
                P = dict(APREDS)
                if k == "int":
                    P.update(PREDS)
                p = c.pick(sorted(P))
                s.step("(count %s %s)" % (n, p), sum(1 for x in l if P[p](x)))
                s.step("(count %s)" % n, len(l))
            elif op == 14:
                e = c.pick(l) if l and c.bool(3, 4) else atom(c)
                if isinstance(e, (list, Pair)):
                    continue
                new("(delete %s %s)" % (n, expr(e)), [x for x in l if not num_eq(x, e)], k)
            elif op == 15:
                fl = []

                def flat(x):
                    if type(x) is list and x or isinstance(x, Arr):
                        for y in x:
                            flat(y)
                    else:
                        fl.append(norm(x))
                v = [atom(c), Arr([atom(c), [atom(c), Arr([atom(c) for _ in range(c.draw(2))])]]), l, [[[atom(c)]], l]]
                v = c.shuffle(v)[:c.int(1, 4)]
                v = [x for x in v if not (type(x) is list and not x)] or [1]
                flat(v)
                new("(flatten %s)" % expr(v), fl, "any")
            elif op == 16:
                n, l, k = get(("str",))
                glue = gens.bytestr(c, 3)
                s.step("(join %s %s)" % (n, expr(glue)), glue.join(l))
                if l:
                    s.step("(join %s)" % n, b"".join(l))
            elif op == 17:
                s.step("(let ((r #nil)) (for-each %s (fn (x) (cons! x r) 7)) r)" % n, l[::-1])
                s.step("(for-each %s (fn (x) (list x)))" % n, [l[-1]] if l else None)
            elif op == 18:
                new("(except-last-pair %s)" % n, l[:-1], k)
            elif op == 19:
                s.step("(last-pair %s)" % n, l[-1:])
            elif op in (20, 21):
                m = c.int(-2, len(l) + 3)
                if op == 20:
                    v = l[:max(m, 0)]
                    new("(list-take %s %d)" % (n, m), v + [None] * (m - len(v)), "any" if m > len(l) else k)
                else:
                    new("(list-drop %s %d)" % (n, m), l[max(m, 0):], k)
            elif op == 22:
                a, b = c.int(-2, len(l) + 2), c.int(0, len(l))
                if not l:
                    continue
                v = l[max(a, 0):b] if b > max(a, 0) else []
                v = v + [None] * max(0, b - max(a, 0) - len(v))
                new("(%s %s %d %d)" % (c.pick(["cut", "list/cut"]), n, a, b), v, "any" if None in v else k)
            elif op == 23:
                e = c.pick(l) if l and c.bool(3, 4) else atom(c)
                if type(e) is list or isinstance(e, bool) or e is None:
                    continue
                r = atom(c)

                def rep(x):
                    return [r if same(y, e) else rep(y) if type(y) is list else y for y in x]
                new("(list/replace %s %s %s)" % (n, expr(e), expr(r)), rep(l), "any")
            elif op == 24:
                i = c.int(0, len(l) + 2)
                if l:
                    s.step("(ref %s %d)" % (n, i), l[i] if i < len(l) else None)
                    s.step("(ref %s -1)" % n, Raises())
            elif op == 25:
                g = lambda x: x if type(x) is list else None
                at = lambda x, i: x[i] if x and type(x) is list and i < len(x) else None
                for f, v in (("car", at(l, 0)), ("cdr", l[1:]), ("cadr", at(l, 1)), ("cddr", l[2:]), ("caddr", at(l, 2)),
                             ("cdddr", l[3:]), ("cadddr", at(l, 3)), ("cddddr", l[4:]), ("caddddr", at(l, 4)),
                             ("cdddddr", l[5:])):
                    s.step("(%s %s)" % (f, n), v)
                if type(at(l, 0)) is list:
                    s.step("(caar %s)" % n, at(l[0], 0))
                    s.step("(cdar %s)" % n, l[0][1:])
                if type(at(l, 1)) is list:
                    s.step("(cadar (cdr %s))" % n, at(l[1], 1))
            elif op == 26:
                if l:
                    s.step("(:length %s)" % n, len(l))
                s.step("(list? %s)" % n, bool(l))
                s.step("(list? (cons 1 2))", False)
                if l:
                    s.step("(last? %s)" % n, len(l) == 1)
            elif op == 27:
                a, b = c.int(-10, 30), c.int(-10, 30)
                st = c.pick([1, 1, 2, 3, 7, -1, -2, -5])
                v = list(range(a, b, st))
                form = c.draw(2)
                if form == 0 or st != 1:
                    new("(range %d %d %d)" % (b, a, st), v, "int")
                elif form == 1:
                    new("(range %d %d)" % (b, a), v, "int")
                else:
                    new("(range %d)" % b, list(range(b)), "int")
            elif op == 28:
                if l:
                    s.step("(let ((x %s)) (cdr! x) x)" % n, l[1:])
                    s.step("(let ((x %s)) (cddr! x) x)" % n, l[2:])
                    s.step("(let ((x %s)) (cons! 5 x) x)" % n, [5] + l)
            elif op == 29:
                n, l, k = get(("int",))
                if l:
                    s.step("(apply min %s)" % n, min(l))
                    s.step("(apply max %s)" % n, max(l))
                    s.step("(apply (fn (a . b) (list a b)) %s)" % n, [l[0], norm(l[1:])])
            elif op == 30:
                s.step("(apply (fn args args) %s)" % n, l)
                s.step("(let ((r #nil)) (doseq (x %s) (cons! x r)) r)" % n, l[::-1])
                s.step("(let ((r #nil)) (doseq (x %s (list r)) (cons! x r)))" % n, [norm(l[::-1])])
            elif op == 31:
                m = c.int(0, 9)
                s.step("(let ((r #nil)) (dotimes (i %d (cons :end r)) (cons! (* i i) r)))" % m,
                       [Kw(b"end")] + [i * i for i in range(m)][::-1])
            elif op == 32:
                n, l, k = get(("int", "str"))
                new("(sort %s)" % n, sorted(l), k)
            else:
                bad = c.pick(["5", ":kw", "'sym", "1.5", "(buffer/allocate 3)"])
                s.step("(%s %s car)" % (c.pick(["filter", "map", "remove"]), bad), Raises("type-error"))
                s.step("(%s %s)" % (c.pick(["sort", "sum"]), bad), Raises("type-error"))
        for n, l, k in vs:
            s.step(n, l)
        return s.case(big=nops >= 8 and max(len(v[1]) for v in vs) >= 5)


def tname(v):
    if v is None or type(v) is list and not v:
        return b"nil"
    for t, n in ((bool, b"bool"), (int, b"int"), (float, b"float"), (Kw, b"keyword"), (Sym, b"symbol"), (Buf, b"buffer"),
                 (Arr, b"array"), (Tree, b"tree"), (bytes, b"string"), (list, b"pair"), (Pair, b"pair")):
        if isinstance(v, t):
            return n
    raise TypeError(v)


class LongLists(SessionProp):
    """Closed forms over lists far longer than any literal."""
    id = "P09.long"
    quick_cases = 24
    batch = 4
    rule = "a case counts when its list has at least 2000 elements"

    def gen(self, c):
        n = c.int(0, 8) * 500 + c.int(0, 300)
        m = c.int(2, 9)
        s = Session()
        xs = list(range(n))
        s.do("(def l (range %d))" % n)
        s.step("(reverse l)", xs[::-1])
        s.step("(filter l (fn (x) (= 0 (rem x %d))))" % m, [x for x in xs if x % m == 0])
        s.step("(map l (fn (x) (* x %d)))" % m, [x * m for x in xs])
        s.step("(sum l)", sum(xs))
        s.step("(append l (map l -))", xs + [-x for x in xs])
        k = c.int(0, n)
        s.step("(list-drop l %d)" % k, xs[k:])
        s.step("(list-take l %d)" % min(k, 2500), xs[:min(k, 2500)])
        s.step("(except-last-pair l)", xs[:-1])
        s.step("(sort (reverse (take l 0)))" if False else "(sort (reverse (list-take l %d)))" % min(n, 1200), xs[:1200])
        s.step("(count (flatten (list l l)))", 2 * n)
        s.step("(equal? l (reverse (reverse l)))", True)
        return s.case(big=n >= 2000)


class Arrays(SessionProp):
    """Histories over several, possibly aliased arrays."""
    id = "P10.arrays"
    quick_cases = 2400
    rule = "a case counts when it has at least 10 operations, with an alias, a resize and a rejected index among them"

    def gen(self, c):
        s = Session()
        arrs = []      # (name, model object)
        flags = set()

        def new(src, val):
            n = "a%d" % len(arrs)
            s.define(n, src, val)
            arrs.append((n, val))

        def ints(hi=8):
            return Arr(gens.small_int(c, 50) for _ in range(c.int(0, hi)))

        def lit(v):
            k = c.draw(2)
            if k == 0 and v:
                return "##(%s)" % " ".join(expr(x) for x in v)
            if k == 1 and v:
                return "(array/new %s)" % " ".join(expr(x) for x in v)
            return expr(v)
        v = ints()
        new(expr(v), v)
        nops = c.int(4, 30)
        for _ in range(nops):
            op = c.draw(24)
            n, a = c.pick(arrs)
            L = len(a)
            allint = all(isinstance(x, int) and not isinstance(x, bool) for x in a)
            if op == 0:
                v = ints()
                new(lit(v), v)
            elif op == 1:
                m = c.int(0, 12)
                new("(:alloc Array %d)" % m, Arr([None] * m))
            elif op == 2:
                flags.add("alias")
                new(n, a)
            elif op in (3, 4, 5):
                i = c.int(0, L - 1) if L and c.bool(3, 4) else c.pick([-1, L, L + 1, 2**31, 2**32, -2**63, 2**32 + max(L - 1, 0), 2**63 - 1])
                x = gens.small_int(c, 99) if c.bool(5, 6) else atom(c)
                if 0 <= i < L:
                    a[i] = x
                    s.step("(set! %s %s %s)" % (n, expr(i), expr(x)), a)
                else:
                    flags.add("oob")
                    s.step("(set! %s %s %s)" % (n, expr(i), expr(x)), Raises())
            elif op in (6, 7):
                i = c.int(0, L - 1) if L and c.bool(3, 4) else c.pick([-1, L, L + 1, 2**31, 2**32, -2**63, 2**32 + max(L - 1, 0), 2**63 - 1])
                ok = 0 <= i < L
                if not ok:
                    flags.add("oob")
                s.step("(ref %s %s)" % (n, expr(i)), a[i] if ok else Raises())
                s.step("(:has? %s %s)" % (n, expr(i)), ok)
            elif op == 8:
                m = c.int(0, 20)
                flags.add("resize")
                a[:] = a[:m] + [None] * (m - L)
                s.step("(:length! %s %d)" % (n, m), a)
            elif op == 9:
                x = atom(c)
                flags.add("resize")
                a.append(x)
                s.step("(array/push %s %s)" % (n, expr(x)), a)
            elif op == 10:
                i, j = c.int(-1, L), c.int(-1, L)
                if 0 <= i < L and 0 <= j < L:
                    a[i], a[j] = a[j], a[i]
                    s.step("(array/swap %s %d %d)" % (n, i, j), a)
                else:
                    s.step("(array/swap %s %d %d)" % (n, i, j), Raises())
                    if 0 <= i < L or 0 <= j < L:
                        # which of the two accesses fails first is not specified
                        s.step("%s" % n, AnyOrRaise()) if False else None
            elif op == 11:
                x = atom(c)
                a[:] = [x] * L
                s.step("(array/fill! %s %s)" % (n, expr(x)), a)
            elif op == 12:
                new("(array/dup %s)" % n, Arr(a))
            elif op == 13:
                n2, b = c.pick(arrs)
                new("(array/append %s %s)" % (n, n2), Arr(a + b))
            elif op == 14:
                i, j = c.int(-2, L + 2), c.int(-2, L + 2)
                i2, j2 = max(0, i), min(L, j)
                new("(%s %s %d %d)" % (c.pick(["cut", "array/cut"]), n, i, j), Arr(a[i2:j2] if j2 > i2 else []))
            elif op == 15:
                k = c.draw(2)
                if k == 0:
                    a[:] = [[x] for x in a]
                    s.step("(%s %s (fn args args))" % (c.pick(["map", "array/map"]), n), a)
                elif k == 1 and allint:
                    a[:] = [gens.wrap(x * 3) for x in a]
                    s.step("(map %s (fn (x) (* x 3)))" % n, a)
                else:
                    a[:] = [i + 1 for i in range(L)]
                    s.step("(let ((k 0)) (map %s (fn (x) (inc! k) k)))" % n, a)
            elif op == 16:
                P = dict(APREDS)
                if allint:
                    P.update(PREDS)
                p = c.pick(sorted(P))
                f = c.pick(["filter", "array/filter", "remove"])
                new("(%s %s %s)" % (f, n, p), Arr(x for x in a if P[p](x) == (f != "remove")))
            elif op == 17:
                s.step("(reduce %s (fn (x y) (cons y x)) #nil)" % n, list(a)[::-1])
                s.step("(count %s)" % n, L)
                s.step("(count %s int?)" % n, sum(1 for x in a if APREDS["int?"](x)))
                if allint:
                    s.step("(sum %s)" % n, gens.wrap(sum(a)))
                    s.step("(every? %s even?)" % n, all(x % 2 == 0 for x in a))
            elif op == 18:
                i = c.int(0, L)
                x = gens.small_int(c)
                if i < L and isinstance(a[i], int) and not isinstance(a[i], bool):
                    if c.bool():
                        a[i] = gens.wrap(a[i] + x)
                        s.step("(array/+= %s %d %d)" % (n, i, x), a)
                    else:
                        a[i] = gens.wrap(a[i] + 1)
                        s.step("(array/++ %s %d)" % (n, i), a)
                elif i == L:
                    s.step("(array/++ %s %d)" % (n, i), Raises())
            elif op == 19 and allint:
                a.sort()
                s.step("(%s %s)" % (c.pick(["sort", "array/sort", "array/heap-sort"]), n), a)
            elif op == 20:
                s.step("(:length %s)" % n, L)
            elif op == 21:
                n2, b = c.pick(arrs)
                s.step("(equal? %s %s)" % (n, n2), same(normdeep(a), normdeep(b)))
                s.step("(= %s %s)" % (n, n2), a is b)
            elif op == 22:
                # arrays in arrays: the inner one is shared
                n2, b = c.pick(arrs)
                if L and b is not a and not reach(b, a):
                    i = c.int(0, L - 1)
                    a[i] = b
                    s.step("(set! %s %d %s)" % (n, i, n2), a)
                    flags.add("alias")
            elif op == 23:
                bad = c.pick(["1.5", ":k", "\"1\"", "#nil", "'(1)"])
                s.step("(ref %s %s)" % (n, bad), Raises())
                s.step("(set! %s %s 1)" % (n, bad), Raises())
                s.step("(:length! %s %s)" % (n, c.pick(["-1", "\"x\"", "#nil", "(- 0 #x7FFFFFFFFFFFFFFF)"])), Raises())
            else:
                s.step("(let ((r #nil)) (dotimes (i (:length %s)) (cons! (ref %s i) r)) r)" % (n, n), list(a)[::-1])
        for n, a in arrs:
            s.step(n, a)
        return s.case(big=nops >= 10 and len(flags) == 3, tags=sorted(flags))


def reach(x, target):
    return x is target or isinstance(x, (Arr, list)) and any(reach(y, target) for y in x)


KEYPOOL = [b"a", b"b", b"key", b"x-y", b"long-key-name", b"q?", b"w!", b"*", b"+", b"k1", b"k2"]


SIZES = [126, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10000]


class LongArrays(SessionProp):
    """The same functions over arrays far longer than any literal."""
    id = "P10.long"
    quick_cases = 120
    batch = 10
    rule = "a case counts when its array has at least 250 elements"

    def gen(self, c):
        n = c.pick(SIZES)
        k, m = c.int(1, 9999), c.int(2, 9)
        xs = [(i * k + m) % 10007 for i in range(n)]
        s = Session()
        s.do("(def a (:alloc Array %d))" % n)
        s.do("(dotimes (i %d) (set! a i (rem (+ %d (* i %d)) 10007)))" % (n, m, k))
        s.step("a", Arr(xs))
        for _ in range(c.int(1, 4)):
            op = c.draw(13)
            j = c.int(0, n - 1)
            if op == 0:
                s.step("(array/append a (array/new 1 2 3))", Arr(xs + [1, 2, 3]))
                s.step("(array/append (array/new 1 2 3) a)", Arr([1, 2, 3] + xs))
            elif op == 1:
                s.step("(array/append a a)", Arr(xs + xs))
            elif op == 2:
                s.step("(filter a (fn (x) (= 0 (rem x %d))))" % m, Arr(x for x in xs if x % m == 0))
            elif op == 3:
                s.step("(map (array/dup a) (fn (x) (- x %d)))" % m, Arr(x - m for x in xs))
            elif op == 4:
                s.step("(%s (array/dup a))" % c.pick(["sort", "array/heap-sort"]), Arr(sorted(xs)))
            elif op == 5:
                i = c.int(0, j)
                s.step("(cut a %d %d)" % (i, j), Arr(xs[i:j]))
            elif op == 6:
                s.step("(list (sum a) (:length a) (count a even?))", [sum(xs), n, sum(1 for x in xs if x % 2 == 0)])
            elif op == 7:
                s.step("(let ((b (array/dup a))) (set! b %d :x) (list (equal? a b) (ref a %d) (ref b %d)))" % (j, j, j), [False, xs[j], Kw(b"x")])
                s.step("(equal? a (array/dup a))", True)
            elif op == 8:
                s.step("(:length! (array/dup a) %d)" % j, Arr(xs[:j]))
            elif op == 9:
                s.step("(:length! (array/dup a) %d)" % (n + m), Arr(xs + [None] * m))
            elif op == 10:
                s.step("(array/push (array/dup a) :end)", Arr(xs + [Kw(b"end")]))
            elif op == 11:
                i = c.int(0, n - 1)
                ys = list(xs)
                ys[i], ys[j] = ys[j], ys[i]
                s.step("(array/swap (array/dup a) %d %d)" % (i, j), Arr(ys))
            elif op == 12:
                s.step("(apply array/new (reduce a (fn (l x) (cons x l)) #nil))", Arr(xs[::-1]))
            else:
                s.step("(array/fill! (array/dup a) %d)" % m, Arr([m] * n))
        s.step("a", Arr(xs))
        return s.case(big=n >= 250)


class LongBuffers(SessionProp):
    """Copies and parts of long buffers."""
    id = "P14.long"
    quick_cases = 120
    batch = 10
    rule = "a case counts when its buffer has at least 250 bytes"

    def gen(self, c):
        n = c.pick(SIZES)
        k, m = c.int(1, 9999), c.int(2, 9)
        xs = bytes((i * k + m) % 251 for i in range(n))
        s = Session()
        s.do("(def b (buffer/allocate %d))" % n)
        s.do("(def v (:u8 b))")
        s.do("(dotimes (i %d) (set! v i (rem (+ %d (* i %d)) 251)))" % (n, m, k))
        s.step("b", Buf(xs))
        for _ in range(c.int(1, 4)):
            op = c.draw(8)
            j = c.int(0, n - 1)
            i = c.int(0, j)
            if op == 0:
                s.step("(:clone b)", Buf(xs))
                s.step("(:clone b #t)", Buf(xs))
            elif op == 1:
                s.step("(:cut b %d %d)" % (i, j), Buf(xs[i:j]))
            elif op == 2:
                s.step("(buffer->string b)", xs)
                s.step("(buffer->string b %d %d)" % (j, i), xs[i:j])
            elif op == 3:
                s.step("(:length! (:clone b) %d)" % j, Raises("out-of-bounds"))
            elif op == 4:
                s.step("(:length! (:clone b) %d)" % (n + m), Buf(xs + bytes(m)))
            elif op == 5:
                s.step("(let ((d (buffer/allocate %d))) (buffer/copy d b %d) d)" % (n + m, m), Buf(bytes(m) + xs))
            elif op == 6:
                s.step("(let ((d (buffer/allocate %d))) (buffer/copy d b %d %d) d)" % (n + m, i, j - i), Buf((bytes(i) + xs[:j - i] + bytes(n + m))[:n + m]))
            elif op == 7:
                w, name = c.pick([(2, "u16"), (4, "u32"), (2, "s16"), (4, "s32"), (8, "s64")])
                q = n // w
                if q:
                    z = c.pick([0, q - 1, c.int(0, q - 1)])
                    s.step("(list (:length (:%s b)) (ref (:%s b) %d))" % (name, name, z), [q, int.from_bytes(xs[z * w:z * w + w], "little", signed=name[0] == "s")])
            else:
                ys = bytearray(xs)
                ys[j] ^= 255
                s.step("(let ((d (:clone b))) (set! d %d %d) (list (= b d) (equal? b d) (ref b %d)))" % (j, ys[j], j), [False, False, xs[j]])
        s.step("b", Buf(xs))
        return s.case(big=n >= 250)


class Trees(SessionProp):
    """Histories over several, possibly aliased trees."""
    id = "P11.trees"
    quick_cases = 2000
    rule = "a case counts when some tree reaches at least 6 keys and one was cloned or merged"

    def gen(self, c):
        s = Session()
        ts, flags, big = [], set(), [0]

        def new(src, val):
            n = "t%d" % len(ts)
            s.define(n, src, val)
            ts.append((n, val))

        def key():
            return Kw(c.pick(KEYPOOL) if c.bool() else b"g%d" % c.draw(40))

        def ks(k):
            return (":" if c.bool(3, 4) else "'") + bytes(k).decode()

        def val():
            return gens.small_int(c, 50) if c.bool(3, 4) else atom(c)
        t0 = Tree((key(), val()) for _ in range(c.int(0, 6)))
        new(c.pick(["{%s}", "(tree/new %s)"]) % " ".join(":%s %s" % (bytes(k).decode(), expr(v)) for k, v in t0.items())
            if not any(isinstance(v, Sym) for v in t0.values()) else expr(t0), t0)
        nops = c.int(4, 40)
        for _ in range(nops):
            n, t = c.pick(ts)
            op = c.draw(23)
            if op <= 6:
                k, v = key(), val()
                t[k] = v
                s.step("(set! %s %s %s)" % (n, ks(k), expr(v)), t)
            elif op <= 8:
                k = c.pick(sorted(t)) if t and c.bool() else key()
                s.step("(ref %s %s)" % (n, ks(k)), t.get(k))
                s.step("(:has? %s %s)" % (n, ks(k)), k in t)
            elif op == 9:
                new("(:clone %s)" % n, Tree(t))
                flags.add("copy")
            elif op == 10:
                n2, u = c.pick(ts)
                k = c.draw(9)
                if k == 8:
                    new("(tree/merge %s #nil)" % n, Tree(t))
                elif k == 9:
                    new("(tree/merge #nil %s)" % n, Tree(t))
                else:
                    new("(tree/merge %s %s)" % (n, n2), Tree({**t, **u}))
                flags.add("copy")
            elif op == 11:
                new("(filter %s int?)" % n if c.bool() else "(tree/filter %s int?)" % n,
                    Tree((k, v) for k, v in t.items() if APREDS["int?"](v)))
            elif op == 12:
                s.step("(:length %s)" % n, len(t))
                want = sorted(bytes(k) for k in t)
                s.step("(:keys %s)" % n, lambda got, want=want: sorted(bytes(k) for k in got or []) == want and all(
                    type(k) is Kw for k in got or []))
                # keys and values are listed in the same order
                s.step("(let ((r #t) (vs (:values %s))) (doseq (k (:keys %s) (and r (nil? vs))) (when-not (= (ref %s k) (car vs)) (set! r #f)) (cdr! vs)))"
                       % (n, n, n), True)
            elif op == 13 and all(APREDS["int?"](v) for v in t.values()):
                s.step("(reduce %s + 0)" % n, gens.wrap(sum(t.values())))
                s.step("(sum %s)" % n, gens.wrap(sum(t.values())))
            elif op == 14:
                k = key()
                v = t.get(k)
                if v is None or APREDS["int?"](v):
                    x = gens.small_int(c)
                    f = c.pick(["+=", "-=", "++", "--"])
                    d = {"+=": x, "-=": -x, "++": 1, "--": -1}[f]
                    t[k] = gens.wrap((v or 0) + d)
                    s.step("(tree/%s %s %s%s)" % (f, n, ks(k), " %d" % x if "=" in f else ""), t)
            elif op == 15:
                kk = [key() for _ in range(c.int(0, 6))]
                vv = [val() for _ in range(c.int(0, 6))]
                z = Tree()
                for i, k in enumerate(kk):
                    z[k] = vv[i] if i < len(vv) else None
                new("(tree/zip %s %s)" % (expr(kk), expr(vv)), z)
            elif op == 16:
                new(n, t)
            elif op == 17:
                n2, u = c.pick(ts)
                s.step("(equal? %s %s)" % (n, n2), same(normdeep(t), normdeep(u)))
            elif op == 18:
                bad = c.pick(["1", "\"x\"", "#nil", "1.5", "'(a)", "##(1)"])
                s.step("(set! %s %s 1)" % (n, bad), Raises())
                s.step("(ref %s %s)" % (n, bad), Raises())
            elif op == 19:
                # a run of keys in ascending, descending or zig-zag order
                m = c.int(3, 25)
                order = list(range(m))
                how = c.draw(2)
                if how == 1:
                    order.reverse()
                elif how == 2:
                    order = c.shuffle(order)
                pre = gens.word(c, 1, 2).decode()
                for i in order:
                    t[Kw(b"%s%d" % (pre.encode(), i))] = i
                s.step("(do %s %s)" % (" ".join("(set! %s :%s%d %d)" % (n, pre, i, i) for i in order), n), t)
            elif op == 20:
                s.step("(count %s)" % n, len(t))
                s.step("(count %s int?)" % n, sum(1 for v in t.values() if APREDS["int?"](v)))
            elif op == 21:
                # the balance of the tree: its height stays logarithmic
                s.step("(do (defn height (t) (if-not t 0 (+ 1 (max (height (:left* t)) (height (:right* t)))))) (if (:key* %s) (height %s) 0))" % (n, n),
                       lambda got, m=len(t): isinstance(got, int) and 2 ** (got / 1.4405) <= (m + 2) * 1.1 + 1)
            else:
                for k in sorted(t)[:8]:
                    s.step("(ref %s :%s)" % (n, bytes(k).decode()), t[k])
            big[0] = max(big[0], len(t))
        for n, t in ts:
            s.step(n, t)
            s.step("(:length %s)" % n, len(t))
        return s.case(big=big[0] >= 6 and bool(flags), tags=("size:%d" % (big[0] // 10 * 10),))


class BigTrees(SessionProp):
    """Many computed keys in one tree, inserted in any order, against a closed form."""
    id = "P11.big"
    quick_cases = 60
    batch = 6
    rule = "a case counts when at least 100 distinct keys are inserted"

    def gen(self, c):
        n, a, b = c.int(1, 500), c.int(1, 997), c.int(0, 996)
        s = Session()
        d = Tree()
        for i in range(n):
            d[Kw(b"n%d" % ((i * a + b) % 997))] = i
        s.do("(def t (tree/new)) (dotimes (i %d) (set! t (string->keyword (cat \"n\" (rem (+ %d (* i %d)) 997))) i))" % (n, b, a)
             if False else "(def t (tree/new)) (dotimes (i %d) (set! t (:keyword (cat \"n\" (rem (+ %d (* i %d)) 997))) i))" % (n, b, a))
        s.step("t", d)
        s.step("(:length t)", len(d))
        s.step("(defn height (t) (if-not t 0 (+ 1 (max (height (:left* t)) (height (:right* t)))))) (height t)",
               lambda got, m=len(d): isinstance(got, int) and got <= 1.4405 * __import__("math").log2(m + 2) + 1)
        for _ in range(c.int(1, 5)):
            k = Kw(b"n%d" % c.draw(996))
            s.step("(ref t :%s)" % bytes(k).decode(), d.get(k))
            s.step("(:has? t :%s)" % bytes(k).decode(), k in d)
        s.step("(equal? t (:clone t))", True)
        u = Tree((k, v) for k, v in d.items() if v % 3 == 0)
        s.step("(filter t (fn (x) (= 0 (rem x 3))))", u)
        return s.case(big=len(d) >= 100)


class GrowingTrees(SessionProp):
    """Trees that grow, are copied and grow on: contents and depth."""
    id = "P11.grow"
    quick_cases = 100
    batch = 5
    rule = "a case counts when a copy of a tree of at least 30 keys grows by at least 30 further ones"

    def gen(self, c):
        s = Session()
        pre = "g%x-" % c.draw(1 << 40)
        s.do("(defn height (t) (if-not t 0 (+ 1 (max (height (:left* t)) (height (:right* t))))))")
        s.do("(defn grow (t from n step) (dotimes (i n) (set! t (:keyword (cat \"%s\" (+ from (* step i)))) (+ from (* step i)))) t)" % pre)
        s.do("(def tmp (grow (tree/new) 0 %d 1))" % c.pick([0, 0, 100, 900]))          # names that exist already
        t, hit, limit = set(), False, 900
        s.do("(def t (tree/new))")
        for _ in range(c.int(2, 24)):
            k = c.draw(7)
            copied = False
            if k == 0:
                s.do("(set! t (:clone t))")
                copied = True
            elif k == 1:
                a, n = c.draw(limit - 100), c.int(1, 60)
                s.do("(set! t (tree/merge t (grow (tree/new) %d %d 1)))" % (a, n))
                t |= set(range(a, a + n))
                copied = True
            elif k == 2:
                m = c.int(2, 5)
                s.do("(set! t (filter t (fn (x) (not= 0 (rem x %d)))))" % m)
                t = {x for x in t if x % m}
                copied = True
            else:
                n = c.int(1, 100)
                step = c.pick([1, 1, 1, 2, 7, -1])
                a = c.draw(limit)
                s.do("(grow t %d %d %d)" % (a, n, step))
                t |= {a + i * step for i in range(n)}
            before = len(t)
            if copied or c.bool():
                # and on it grows
                n = c.int(1, 100)
                a = 1000 + c.draw(limit)
                s.do("(grow t %d %d 1)" % (a, n))
                t |= set(range(a, a + n))
                hit |= copied and before >= 30 and len(t) - before >= 30
            s.step("(if (zero? (:length t)) 0 (height t))",
                   lambda got, m=len(t): isinstance(got, int) and got <= 1.4405 * __import__("math").log2(m + 2) + 1)
            s.step("(:length t)", len(t))
        s.step("t", Tree((Kw(("%s%d" % (pre, x)).encode()), x) for x in t))
        return s.case(big=hit)


class Sorting(SessionProp):
    id = "P12.sort"
    quick_cases = 2000
    batch = 40
    rule = "a case counts when the input has at least 8 elements with a duplicate and is not already sorted"

    def gen(self, c):
        s = Session()
        kind = c.weighted([(4, "int"), (2, "big"), (2, "float"), (2, "mixed"), (3, "str"), (1, "kw"), (1, "sym")])
        n = c.weighted([(5, c.int(0, 12)), (3, c.int(0, 40)), (1, c.int(0, 200))])
        f = {"int": lambda: gens.small_int(c, 15), "big": lambda: gens.int64(c), "float": lambda: gens.float64(c),
             "mixed": lambda: gens.number(c), "str": lambda: gens.bytestr(c, 3), "kw": lambda: Kw(gens.word(c, 1, 2)),
             "sym": lambda: Sym(gens.word(c, 1, 2))}[kind]
        v = [f() for _ in range(n)]
        shape = c.draw(5)
        key = bytes if kind in ("str", "kw", "sym") else (lambda x: x)
        if shape == 1:
            v.sort(key=key)
        elif shape == 2:
            v.sort(key=key, reverse=True)
        elif shape == 3 and v:
            v = [c.pick(v[:3]) for _ in v]
        elif shape == 4:
            v.sort(key=key)
            if len(v) > 1:
                i = c.draw(len(v) - 1)
                v[i], v[0] = v[0], v[i]
        v = [F(0.0) if isinstance(x, float) and x == 0 else x for x in v]

        def ok(got, arr):
            got = list(got or [])
            if len(got) != len(v):
                return False
            if any(key(a) > key(b) for a, b in zip(got, got[1:])):
                return False
            rk = lambda x: (type(x).__name__, repr(x))
            return sorted(map(rk, got)) == sorted(map(rk, v))
        s.do("(def l %s)" % expr(v))
        s.do("(def a %s)" % expr(Arr(v)))
        s.step("(sort l)", lambda got: (got is None or type(got) is list) and ok(got, False))
        s.step("(list/sort l)", lambda got: ok(got, False))
        s.step("l", v)
        s.step("(do (sort a) a)", lambda got: type(got) is Arr and ok(got, True))
        s.step("(sort (array/dup a))", lambda got: type(got) is Arr and ok(got, True))
        s.step("(array/sort %s)" % expr(Arr(v)), lambda got: type(got) is Arr and ok(got, True))
        if kind in ("int", "big", "str"):
            s.step("(list/sort l >)", sorted(v, key=key, reverse=True))
        return s.case(big=n >= 8 and len(set(map(repr, v))) < n and sorted(v, key=key) != v, tags=("kind:" + kind,))


def data(c, depth):
    k = c.weighted([(5, 0), (2, 1), (2, 2), (2, 3), (1, 4)]) if depth else 0
    if k == 0:
        return None if c.bool(1, 12) else atom(c)
    n = c.int(0, 4)
    if k == 1:
        return [data(c, depth - 1) for _ in range(max(n, 1))]
    if k == 2:
        return Arr(data(c, depth - 1) for _ in range(n))
    if k == 3:
        return Tree((Kw(gens.word(c, 1, 2)), data(c, depth - 1)) for _ in range(n))
    return Pair([data(c, depth - 1) for _ in range(max(n, 1))], atom(c))


def mutate(c, v):
    """A copy of V that differs from it in one place."""
    if isinstance(v, (list, Pair, Tree)) and c.bool(4, 5):
        if isinstance(v, Pair):
            i = c.draw(len(v.items))
            if i == len(v.items):
                return Pair(v.items, mutate(c, v.tail))
            items = list(v.items)
            items[i] = mutate(c, items[i])
            return Pair(items, v.tail)
        if isinstance(v, Tree):
            if not v:
                return Tree({Kw(b"a"): 1})
            ks = list(v)
            k = c.pick(ks)
            r = Tree(v)
            how = c.draw(3)
            if how == 0:
                r[k] = mutate(c, v[k])
            elif how == 1:
                del r[k]
            elif how == 2:
                x = r.pop(k)
                r[Kw(bytes(k) + b"z")] = x
            else:
                r[Kw(bytes(k) + b"y")] = None
            return r
        T = type(v)
        how = c.draw(4)
        r = T(v)
        if not r:
            return T([1])
        i = c.draw(len(r) - 1)
        if how <= 1:
            r[i] = mutate(c, r[i])
        elif how == 2:
            r.insert(i, None)
        elif how == 3:
            del r[i]
            if not r and T is list:
                return None
        else:
            return Arr(r) if T is list else (list(r) or None)
        return r
    if isinstance(v, bool):
        return not v
    if isinstance(v, float):
        return F(v + 1.0) if c.bool() or v != int(v) else int(v)
    if isinstance(v, int):
        return gens.wrap(v + 1) if c.bool() or abs(v) > 2**50 else F(float(v))
    if isinstance(v, Sym):
        return type(v)(bytes(v) + b"x") if c.bool() else (Sym if type(v) is Kw else Kw)(bytes(v))
    if isinstance(v, bytes):
        how = c.draw(3)
        return v + b"x" if how < 2 or not v else v + b"\0" if how == 2 else v[:-1] + bytes([(v[-1] + c.int(1, 255)) % 256])
    if v is None:
        return c.pick([False, Arr(), Tree(), b"", 0])
    return [v]


class Equality(SessionProp):
    id = "P13.equal"
    quick_cases = 2500
    rule = "a case counts when the compared values are compound and the pair differs in at most one place"

    def gen(self, c):
        s = Session()
        v = data(c, 3)
        w = mutate(c, v)
        u = data(c, 2)

        def build(x):
            """Different construction histories of the same contents."""
            k = c.draw(3)
            if isinstance(x, Tree) and x:
                ks = c.shuffle(list(x))
                if k == 0:
                    return "(let ((t (tree/new))) %s t)" % " ".join("(set! t :%s %s)" % (bytes(q).decode(), build(x[q])) for q in ks)
                if k == 1:
                    # overwrite earlier values
                    return "(let ((t (tree/new))) %s %s t)" % (
                        " ".join("(set! t :%s %d)" % (bytes(q).decode(), c.draw(5)) for q in ks),
                        " ".join("(set! t :%s %s)" % (bytes(q).decode(), build(x[q])) for q in reversed(ks)))
                if k == 2:
                    h = len(ks) // 2
                    return "(tree/merge %s %s)" % (build(Tree((q, x[q]) for q in ks[:h])), build(Tree((q, x[q]) for q in ks[h:])))
                return "(:clone %s)" % expr(x)
            if isinstance(x, Arr):
                if k == 0:
                    return "(let ((a (:alloc Array 0))) %s a)" % " ".join("(array/push a %s)" % build(y) for y in x)
                if k == 1:
                    h = len(x) // 2
                    return "(array/append %s %s)" % (expr(Arr(x[:h])), expr(Arr(x[h:])))
                if k == 2:
                    return "(array/dup %s)" % expr(x)
                return "(let ((a (:alloc Array %d))) %s (:length! a %d) a)" % (
                    len(x) + 3, " ".join("(set! a %d %s)" % (i, build(y)) for i, y in enumerate(x)), len(x))
            if type(x) is list and x:
                if k == 0:
                    return "(list %s)" % " ".join(build(y) for y in x)
                if k == 1:
                    h = len(x) // 2
                    return "(append %s %s)" % (expr(x[:h]), expr(x[h:]))
                if k == 2:
                    return "(reverse %s)" % expr(x[::-1])
                return "(map %s (fn (q) q))" % expr(x)
            if type(x) is bytes and k < 2 and len(x) > 1 and 0 not in x:
                return "(cat %s %s)" % (expr(x[:1]), expr(x[1:]))
            return expr(x)
        s.do("(def a %s)" % build(v))
        s.do("(def b %s)" % build(v))
        s.do("(def d %s)" % build(w))
        s.do("(def u %s)" % build(u))
        ne = same(normdeep(v), normdeep(w))
        nu = same(normdeep(v), normdeep(u))
        wu = same(normdeep(w), normdeep(u))
        for src, want in (("a a", True), ("a b", True), ("b a", True), ("a d", ne), ("d a", ne), ("b d", ne), ("d d", True),
                          ("a u", nu), ("u b", nu), ("d u", wu), ("(list a d) (list b d)", True),
                          ("##(a) ##(b)" if False else "(array/new a u) (array/new b u)", True),
                          ("(cons a 1) (cons d 1)", ne), ("(tree/new :k a) (tree/new :k b)", True),
                          ("(tree/new :k a) (tree/new :k d)", ne)):
            s.step("(equal? %s)" % src, want)
            s.step("(not-equal? %s)" % src, not want)
        s.step("a", v)
        s.step("d", w)
        return s.case(big=isinstance(v, (list, Pair, Tree)) and not isinstance(v, bytes))


PROPS = [Lists(), LongLists(), Arrays(), LongArrays(), LongBuffers(), Trees(), BigTrees(), GrowingTrees(), Sorting(), Equality()]
