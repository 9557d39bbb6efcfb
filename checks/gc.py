"""Garbage collection: invisible (P26) and sufficient (P27)."""
import re

from vp import gens
from vp import build
from vp.core import Prop, health, load, run_texts
from vp.values import F, Kw, same

SOURCES = [("checks.collections", "P09.lists", 2), ("checks.collections", "P10.arrays", 2), ("checks.collections", "P11.trees", 2),
           ("checks.collections", "P12.sort", 1), ("checks.collections", "P13.equal", 1), ("checks.buffers", "P14.buffers", 2),
           ("checks.buffers", "P15.immutable", 1), ("checks.strings", "P16.strings", 2), ("checks.strings", "P17.fmt", 1),
           ("checks.programs", "P19.programs", 6), ("checks.programs", "P20.exceptions", 3), ("checks.numeric", "P05.types", 1),
           ("checks.reader", "P01.roundtrip", 1)]


def source(i):
    mod, pid, _ = SOURCES[i]
    for p in load(mod):
        if p.id == pid:
            return p
    raise KeyError(pid)


class Schedules(Prop):
    """Cases of the other properties, run while collections are forced; their own oracles decide."""
    id = "P26.schedules"
    variant = "asan"
    quick_cases = 240
    batch = 10
    per_case = 20.0
    rule = "a case counts when the property it comes from counts it as non-trivial and it ran with a forced collection at least every 120 allocations"
    every = [(3, -40), (2, -15), (2, 31), (1, 120)]
    heavy = [(3, -200), (2, 120), (1, -40)]
    cheap = [(3, 1), (3, -3), (2, 2), (2, -20)]
    compiling = [(8, 0), (1, 20000), (1, -20000)]

    def gen(self, c):
        i = c.weighted([(w, i) for i, (_, _, w) in enumerate(SOURCES)])
        every = c.weighted(self.cheap if SOURCES[i][0] in ("checks.programs", "checks.reader", "checks.numeric") else
                           self.heavy if SOURCES[i][1] in ("P09.lists", "P12.sort", "P17.fmt", "P16.strings") else self.every)
        comp = c.weighted(self.compiling)
        case = source(i).gen(c)
        return case and {"src": i, "every": every, "comp": comp, "case": case}

    def texts(self, case):
        return source(case["src"]).texts(case["case"])

    def key(self, case):
        return "%d\0%d\0%d\0%s" % (case["every"], case["comp"], case["src"], "\0".join(self.texts(case)))

    def execute(self, cases):
        out = [None] * len(cases)
        groups = {}
        for n, x in enumerate(cases):
            groups.setdefault(source(x["src"]).setup, []).append(n)
        for setup, ns in groups.items():
            flat, spans, gc = [], [], []
            for n in ns:
                t = self.texts(cases[n])
                spans.append((len(flat), len(flat) + len(t)))
                flat += t
                gc += [(cases[n]["comp"], cases[n]["every"])] * len(t)
            got = run_texts(flat, self.variant, {}, self.per_case, base=60.0, setup=setup, gc=gc)
            for n, (a, b) in zip(ns, spans):
                out[n] = got[a:b]
        return out

    def judge(self, case, outs):
        m = health(outs)
        if m:
            return m
        return source(case["src"]).judge(case["case"], outs)

    def nontrivial(self, case, outs):
        return source(case["src"]).nontrivial(case["case"], outs)

    def tags(self, case, outs):
        return ["every:%d" % case["every"], "source:" + SOURCES[case["src"]][1]]

    def show(self, case):
        return "; collecting every %d allocations, every %d while compiling\n%s" % (case["every"], case["comp"], source(case["src"]).show(case["case"]))


class Fast(Schedules):
    """The same without AddressSanitizer: more cases, denser schedules, real reuse of cells."""
    id = "P26.reuse"
    variant = "gc"
    quick_cases = 1600
    batch = 20
    every = [(3, -6), (2, 3), (2, -20), (1, 1)]
    heavy = [(3, -40), (2, 20), (1, -6)]
    compiling = [(8, 0), (2, 1000), (1, -200)]


# Garbage of every kind, with contents that differ from whatever the case keeps.
CHURN = """
(def vp/full (buffer/allocate 24))
(dotimes (i 24) (set! vp/full i 255))
(defn vp/churn (n)
      (def i 0)
      (while (< i n)
             (def b (:clone vp/full))
             (def s (cat "churn-" i))
             (def l (list i s (:symbol s) (array/new s i s) (tree/new :churn i (:symbol (cat "churnk-" i)) s) (:u8 b #t) (:u32 b)))
             (def f (fn (x) (cons i x)))
             (def e (environment* (def churn s)))
             (def i (inc/int i)))
      (return :done))
(defn vp/churn-code (n)
      (vp/churn n)
      (eval (list 'fn (list (:symbol (cat "churnp-" n))) (list 'quote (list "churn" n)))))
"""


class Graph(Prop):
    """An object graph in which everything is held by exactly one reference of a drawn kind, read back after
    collections and after garbage has taken over whatever was freed."""
    id = "P26.graph"
    variant = "gc"
    setup = CHURN
    quick_cases = 300
    batch = 25
    per_case = 20.0
    rule = "a case counts when its graph has at least four kinds of reference"

    def size(self, c, weights, least):
        """How large something is: only little where collections are many."""
        m = c.weighted(weights)
        if m > self.room or abs(self.every) < 30 and m > 300 or abs(self.every) < 300 and m > 4096:
            m = least
        if m > 300:
            self.room -= m
        return m

    def node(self, c, depth, used):
        """(expression making it, function giving the expression that reads it back through X, expected value)"""
        self.n += 1
        k = self.n
        leaf = [("int", 1), ("string", 2), ("symbol", 2), ("keyword", 1), ("float", 1), ("buffer", 1), ("view", 3), ("gensym", 1), ("treekey", 3),
                ("params", 1), ("emptyfn", 1)]
        inner = [("cons", 2), ("array", 2), ("tree", 2), ("closure", 2), ("closure2", 2), ("env", 2), ("literal", 2), ("meta", 1), ("thrown", 1),
                 ("stack", 2), ("bigtree", 1), ("local", 1), ("proto", 1), ("cyclic", 1), ("rest", 1), ("set", 1), ("macro", 1), ("protected", 1),
                 ("argument", 1), ("reader", 1), ("mapped", 1), ("deepenv", 1), ("longlist", 1)]
        t = c.weighted([(w, n) for n, w in (leaf if depth <= 0 else inner)])
        used.add(t)
        if t == "int":
            return "%d" % k, (lambda x: x), k
        if t == "float":
            return "(/ %d 2)" % k, (lambda x: x), F(k / 2)
        if t == "string":
            return '(cat "keep-%d-" %d)' % (k, k), (lambda x: x), b"keep-%d-%d" % (k, k)
        if t == "symbol":
            return '(:symbol (cat "keeps-" %d))' % k, (lambda x: "(list (= %s (:symbol (cat \"keeps-\" %d))) (:string %s))" % (x, k, x)), [True, b"keeps-%d" % k]
        if t == "keyword":
            return '(:keyword (cat "keepk-" %d))' % k, (lambda x: "(list (= %s (:keyword (cat \"keepk-\" %d))) (:string %s))" % (x, k, x)), [True, b"keepk-%d" % k]
        if t == "gensym":
            return "(gensym)", (lambda x: "(list (:type-name %s) (= %s (:symbol (:string %s))))" % (x, x, x)), [Kw(b"symbol"), True]
        if t == "buffer":
            return "(set! (buffer/allocate 24) 7 %d)" % (k % 128), (lambda x: "(list (ref %s 7) (ref %s 8) (:length %s))" % (x, x, x)), [k % 128, 0, 24]
        if t == "view":
            imm = c.bool()
            return "(%s (set! (buffer/allocate 24) 7 %d) #%s)" % (c.pick([":u8", ":s8"]), k % 128, "t" if imm else "f"), \
                (lambda x: "(list (ref %s 7) (ref %s 8) (:length %s) (:length (:buffer %s)))" % (x, x, x, x)), [k % 128, 0, 24, 24]
        if t == "treekey":
            return '(tree/new (:symbol (cat "keept-" %d)) %d)' % (k, k), \
                (lambda x: '(list (ref %s (:symbol (cat "keept-" %d))) (map (:keys %s) :string) (:length %s))' % (x, k, x, x)), [k, [b"keept-%d" % k], 1]
        if t == "params":
            return '(eval (list \'fn (list (:symbol (cat "keepp-" %d))) 1))' % k, \
                (lambda x: "(map (:arguments %s) :string)" % x), [b"keepp-%d" % k]
        if t == "emptyfn":
            return "(let ((v (cat \"kv\" %d))) (fn () (set! v (cat v \"!\")) v))" % k, (lambda x: "(list (%s) (%s))" % (x, x)), [b"kv%d!" % k, b"kv%d!!" % k]
        a, pa, wa = self.node(c, depth - 1 if c.bool(3, 4) else 0, used)
        two = t in ("cons", "array", "tree", "closure2", "stack", "bigtree", "rest", "protected", "argument", "longlist")
        if two:
            b, pb, wb = self.node(c, depth - 1 if c.bool(1, 2) else 0, used)
        ch = "(vp/churn %d)" % c.pick([0, 1, 2, 5])
        if t == "cons":
            return "(cons %s %s)" % (a, b), (lambda x: "(list %s %s)" % (pa("(car %s)" % x), pb("(cdr %s)" % x))), [wa, wb]
        if t == "array":
            m = self.size(c, [(8, 5), (3, 300), (2, 4096), (3, 66000), (1, 140000)], 5)
            if m > 5:
                i = c.pick([0, 254, m - 2, c.draw(m - 2)])
                return "(let ((r (:alloc Array %d))) (set! r %d %s) (set! r %d %s) r)" % (m, i, a, i + 1, b), \
                    (lambda x: "(list %s %s (:length %s))" % (pa("(ref %s %d)" % (x, i)), pb("(ref %s %d)" % (x, i + 1)), x)), [wa, wb, m]
            i = c.int(0, 3)
            return "(let ((r (array/new 1 2 3 4 5))) (set! r %d %s) (set! r %d %s) r)" % (i, a, i + 1, b), \
                (lambda x: "(list %s %s)" % (pa("(ref %s %d)" % (x, i)), pb("(ref %s %d)" % (x, i + 1)))), [wa, wb]
        if t == "tree":
            return "(tree/new :a %s (:symbol (cat \"kx\" %d)) %s)" % (a, k, b), \
                (lambda x: "(list %s %s)" % (pa("(ref %s :a)" % x), pb('(ref %s (:symbol (cat "kx" %d)))' % (x, k)))), [wa, wb]
        if t == "bigtree":
            m = self.size(c, [(6, 40), (1, 600), (1, 3000)], 40)
            m = c.int(2, m)
            ia, ib = c.int(0, m - 1), m
            return '(let ((r (tree/new))) (dotimes (i %d) (set! r (:symbol (cat "kb" i)) i)) (set! r \'kb%d %s) (set! r (:symbol (cat "kb" %d)) %s) r)' % (m, ia, a, ib, b), \
                (lambda x: "(list %s %s (:length %s) (reduce (:values (:clone %s)) (fn (a v) (if (int? v) (inc a) a)) 0))" % (pa("(ref %s 'kb%d)" % (x, ia)), pb("(ref %s 'kb%d)" % (x, ib)), x, x)), \
                [wa, wb, m + 1, lambda g: isinstance(g, int) and g >= m - 1]
        if t == "closure":
            return "((fn (v) (fn () v)) %s)" % a, (lambda x: pa("(%s)" % x)), wa
        if t == "closure2":
            return "((fn (v) ((fn (w) (fn (q) (if q v w))) %s)) %s)" % (b, a), (lambda x: "(list %s %s)" % (pa("(%s #t)" % x), pb("(%s #f)" % x))), [wa, wb]
        if t == "env":
            return "(let ((v %s)) (environment* (def y v)))" % a, (lambda x: pa("(ref %s 'y)" % x)), wa
        if t == "deepenv":
            return "(eval-in (let ((v %s)) (environment* (def z 1))) '(let ((w v)) (fn () w)))" % a, (lambda x: pa("(%s)" % x)), wa
        if t == "literal":
            return "(eval (list 'fn '() (list 'car (list 'quote (cons %s 1)))))" % a, (lambda x: pa("(%s)" % x)), wa
        if t == "meta":
            return "(:meta! (fn () 1) :kept %s)" % a, (lambda x: pa("(:meta %s :kept)" % x)), wa
        if t == "thrown":
            return '(try (fn (e) %s (caddr e)) (throw (list :k "d" %s)))' % (ch, a), pa, wa
        if t == "protected":
            return "(cons %s (try (fn (e) %s (caddr e)) %s (throw (list :k 1 %s))))" % (a, ch, ch, b), \
                (lambda x: "(list %s %s)" % (pa("(car %s)" % x), pb("(cdr %s)" % x))), [wa, wb]
        if t == "stack":
            return "(list %s %s %s)" % (a, ch, b), (lambda x: "(list %s %s)" % (pa("(car %s)" % x), pb("(caddr %s)" % x))), [wa, wb]
        if t == "argument":
            return "((fn (p q) %s (cons p q)) %s %s)" % (ch, a, b), (lambda x: "(list %s %s)" % (pa("(car %s)" % x), pb("(cdr %s)" % x))), [wa, wb]
        if t == "rest":
            return "((fn (p . q) %s (cons p q)) %s %s)" % (ch, a, b), (lambda x: "(list %s %s)" % (pa("(car %s)" % x), pb("(cadr %s)" % x))), [wa, wb]
        if t == "local":
            return "(let ((v %s)) %s (let ((w v)) (set! v #nil) %s w))" % (a, ch, ch), pa, wa
        if t == "proto":
            return "(tree/new :prototype* (tree/new :inherited (let ((v %s)) (fn (self) v))))" % a, (lambda x: pa("(:inherited %s)" % x)), wa
        if t == "longlist":
            m = self.size(c, [(3, 3), (3, 50), (2, 300), (1, 5000), (1, 40000)], 3)
            return '(let ((r (cons %s %s))) (dotimes (i %d) (set! r (cons i r))) r)' % (a, b, m), \
                (lambda x: '(let ((r %s) (n 0)) (while (int? (and (pair? (cdr r)) (< n %d) (car r))) (set! n (+ n 1)) (set! r (cdr r))) (list n %s %s))' % (x, m, pa("(car r)"), pb("(cdr r)"))), [m, wa, wb]
        if t == "cyclic":
            return "(let ((r (array/new %s #nil))) (set! r 1 r) r)" % a, (lambda x: pa("(ref (ref (ref %s 1) 1) 0)" % x)), wa
        if t == "set":
            return "(let ((v #nil)) (def f (fn () (set! v %s) %s v)) (f))" % (a, ch), pa, wa
        if t == "macro":
            return "(let ((e (environment*))) (eval-in e (list 'defmacro 'm '() (list 'list ''quote (list 'car (list 'quote (cons %s 1)))))) e)" % a, \
                (lambda x: pa("(eval-in %s '(m))" % x)), wa
        if t == "reader":
            return "(let ((v (read \"(a%d \\\"s%d\\\" . #nil)\"))) %s (cons (car v) %s))" % (k, k, ch, a), \
                (lambda x: "(list (:string (caar %s)) (cadr (car %s)) %s)" % (x, x, pa("(cdr %s)" % x))), [b"a%d" % k, b"s%d" % k, wa]
        if t == "mapped":
            return "(car (map (list %s) (fn (v) %s v)))" % (a, ch), pa, wa
        raise KeyError(t)

    def gen(self, c):
        self.n = c.int(1, 60) * 10
        self.every = every = c.weighted([(1, 1), (2, 3), (3, -8), (3, 9), (3, -30), (2, 100), (2, 600)])
        self.room = 150000
        used = set()
        parts = [self.node(c, c.int(0, 4), used) for _ in range(c.int(1, 5))]
        churns = ["(vp/churn %d)" % c.pick([0, 1, 4, 12, 30]) for _ in parts]
        text = "(let* %s (vp/churn-code %d) (list %s))" % (
            " ".join("(def kept%d %s) %s" % (i, p[0], ch) for i, (p, ch) in enumerate(zip(parts, churns))), c.pick([10, 20, 40]),
            " ".join("(let ((x kept%d)) %s)" % (i, p[1]("x")) for i, p in enumerate(parts)))
        return {"text": text, "want": [p[2] for p in parts], "every": every, "kinds": sorted(used)}

    def key(self, case):
        return "%d\0%s" % (case["every"], case["text"])

    def execute(self, cases):
        outs = run_texts([x["text"] for x in cases], self.variant, {}, self.per_case, base=30.0, setup=self.setup,
                         gc=[(0, x["every"]) for x in cases])
        return [[o] for o in outs]

    def judge(self, case, outs):
        m = health(outs)
        if m:
            return m
        o = outs[0]
        if o.kind != "ok" or not match(o.value, case["want"]):
            return "got %r, expected %r" % (o, case["want"])

    def nontrivial(self, case, outs):
        return len(case["kinds"]) >= 4

    def tags(self, case, outs):
        return ["every:%d" % case["every"]] + ["holds:" + k for k in case["kinds"]]

    def show(self, case):
        return "; collecting every %d allocations\n%s" % (case["every"], case["text"])


def match(got, want):
    if callable(want):
        return want(got)
    if type(want) is list:
        return isinstance(got, list) and len(got) == len(want) and all(match(g, w) for g, w in zip(got, want))
    return same(got, want)


# ---------------------------------------------------------------- P27

# (name, expression making a value that holds the int i, expression taking the int out of x, weight, allocations of the scarcest heap)
KINDS = [
    ("pair", "(cons i #nil)", "(car x)", 600000),
    ("list", "(list i i i)", "(caddr x)", 300000),
    ("array", "(array/new i 2)", "(ref x 0)", 60000),
    ("bigarray", "(set! (:alloc Array 500) 499 i)", "(ref x 499)", 80000),
    ("tree", "(tree/new :a i :b 2)", "(ref x :a)", 120000),
    ("treeset", "(set! (tree/new) :b i)", "(ref x :b)", 120000),
    ("string", "(cat \"n\" i)", "(read/single (:cut x 1))", 60000),
    ("buffer", "(set! (buffer/allocate 4096) 5 (bit-and i 127))", "(ref x 5)", 150000),
    ("closure", "(let ((y i)) (fn () y))", "(x)", 200000),
    ("env", "(environment* (def y i))", "(ref x 'y)", 200000),
    ("keyword", "(:keyword (cat \"kk\" i))", "(read/single (:cut (:string x) 2))", 40000),
    ("symbol", "(:symbol (cat \"ss\" i))", "(read/single (:cut (:string x) 2))", 40000),
    ("code", "(eval (list 'fn (list 'a) (list '+ 'a i)))", "(x 0)", 20000),
    ("map", "(map (list i (inc i)) inc)", "(dec (car x))", 150000),
    ("bigstring", "(cat \"#x\" i (ref vp/pad 0))", "(read/single (:cut x 2 (:index-of x \"|\")))", 20000),
    ("exception", "(try (fn (e) e) (throw (list :k \"d\" i)))", "(caddr x)", 50000),
    ("bufferview", "(let ((b (buffer/allocate 8))) (set! (:s64 b) 0 i))", "(ref x 0)", 60000),
    ("immutable view", "(let ((b (buffer/allocate 8))) (set! (:s64 b) 0 i) (:s64 b #t))", "(ref x 0)", 60000),
    ("two views", "(let ((b (buffer/allocate 8))) (set! (:s64 b) 0 i) (list (:u8 b #t) (:f32 b) (:s64 b)))", "(ref (caddr x) 0)", 30000),
    ("immutable buffer", "(:clone (set! (buffer/allocate 4096) 5 (bit-and i 127)) #t)", "(ref x 5)", 75000),
    ("buffer cut", "(:cut (set! (buffer/allocate 600) 5 (bit-and i 127)) 0 500)", "(ref x 5)", 75000),
    ("copied tree", "(:clone (tree/new :a i :b 2 :c 3))", "(ref x :a)", 60000),
    ("bytecode", "(:bytecode-array [3 1 1] (array/new i))", "(ref (:literals x) 0)", 40000),
    ("read", "(read (cat \"(a \" i \" [b 3])\"))", "(cadr (car x))", 20000),
    ("meta", "(:meta! (fn () i) :v i)", "(:meta x :v)", 60000),
    ("native exception", "(try cdr (list i (try (fn (e) i) (add/int \"a\" i))))", "(car x)", 60000),
    ("mixed", "(list (array/new i) {:k (list i)} (cat \"s\" i) (fn () i))", "(ref (car x) 0)", 30000),
]


class Reclaim(Prop):
    id = "P27.reclaim"
    variant = "plain"
    batch = 1
    quick_cases = 216
    per_case = 60.0
    mem_mb = 400
    rule = "a case counts when it makes more than twice as many values as the heap of their kind holds while keeping only a bounded window of them"

    def gen(self, c):
        ks = [KINDS[c.draw(len(KINDS) - 1)] for _ in range(c.weighted([(3, 1), (2, 2), (1, 3)]))]
        window = c.weighted([(2, 1), (2, 16), (2, 200), (1, 1500)])
        scale = c.pick([1, 1, 2, 4])
        n = min(k[3] for k in ks) * scale // len(ks) + c.draw(99)
        if any(k[0] in ("bigarray", "bigstring") for k in ks):
            window = min(window, 200)
        infn = c.bool()
        body = []
        for j, k in enumerate(ks):
            body.append("(def x %s) (set! vp/ring%d (rem i %d) x)" % (k[1], j, window))
        loop = "(let ((i 0)) (while (< i %d) %s (set! i (inc/int i))))" % (n, " ".join(body))
        if infn:
            # one call per iteration: nothing may accumulate on the stacks
            loop = "(do (defn vp/one (i) %s) (let ((j 0)) (while (< j %d) (vp/one j) (set! j (inc/int j)))))" % (" ".join(body), n)
        chk = []
        for j, k in enumerate(ks):
            chk.append("(let ((j 0) (bad 0)) (while (< j %d) (def i (vp/expect j %d %d)) (when (>= i 0) (def x (ref vp/ring%d j)) (when-not (vp/same %s i %s) (inc! bad))) (set! j (inc/int j))) bad)"
                       % (window, n, window, j, k[2], "#t" if k[0] in ("buffer", "immutable buffer", "buffer cut") else "#f"))
        rings = " ".join("(def vp/ring%d (:alloc Array %d))" % (j, window) for j in range(len(ks)))
        text = ("(do (def vp/pad (array/new (cat \"|\" (pad-end \"\" 10000 \"pad\"))))"
                "(defn vp/expect (j n w) (def last (- n 1)) (def r (rem last w)) (def i (+ (- last r) j)) (if (> j r) (- i w) i))"
                "(defn vp/same (a b low) (= a (if low (bit-and b 127) b)))"
                "%s %s (list %s))" % (rings, loop, " ".join(chk)))
        return {"text": text, "kinds": [k[0] for k in ks], "n": n, "window": window, "want": [0] * len(ks)}

    def judge(self, case, outs):
        m = health(outs)
        if m:
            return m
        o = outs[0]
        if o.kind != "ok" or not same(o.value, case["want"]):
            return "%r making %d values in a window of %d, got %r" % (case["kinds"], case["n"], case["window"], o)

    def tags(self, case, outs):
        return ["kind:" + k for k in case["kinds"]] + ["window:%d" % case["window"]]


# Uses of what is written in C that succeed and fail, each with a result nobody keeps.
USES = [
    "(read (cat \"(a b [c \" i \"] {:k \" i \"} \\\"text\\\" :kw 1.5 #m00FF)\"))", "(read \"(a (b\")", "(read \"\\\"open\")", "(read \"\\\"a\\\\q\\\"\")", "(read \"(a \\\"some text\\\" #z)\")",
    "(read \"#m0011FZ\")", "(read \"#m0011!\")", "(read \"#m0011F!\")", "(read \"#m00113\")", "(read \"#m0011a0\")", "(read \"#m0011F 0\")", "(read \"#m0011Fg\")", "(read \"#m0011 (\")", "(read (cat \"#m\" (ref vp/hexpad 0)))",
    "(let ((x i)) (dotimes (k 12000) (set! x (list x))) (image/serialize x))", "(let ((x i)) (dotimes (k 12000) (set! x (array/new x))) (image/serialize x))", "(read \"#xQ\")", "(read \"{:a}\")", "(read \"(1 . 2 3)\")", "(read \"(a))\")", "(read \"99999999999999999999\")", "(read (cat \"\\\"\" (ref vp/pad 0) \"\\\" (\"))",
    "(read (cat \"\\\"\" (ref vp/pad 0) \"\\\"\"))", "(read (cat \"\\\"\" (ref vp/pad 0) \"\\\\xZZ\\\"\"))",
    "(string/write (list i 1.5 \"a\" [i] {:a i}))", "(cat i \"x\" 2.5 :k)", "(compile '(let ((a 1)) (+ a a a a a a a a)))", "(eval '(do (defn vp/g (x) (+ x x x)) (vp/g 4)))", "(eval '(fn (x) (fn (y) (+ x y))))",
    "(compile '(let a))", "(eval '(vp/not-there 1))", "(macroexpand '(when 1 2))", "(image/serialize (list i \"s\" [i 2] {:a \"t\"} 2.5))", "(image/deserialize (image/serialize (list i \"s\" [i 2] {:a \"t\"} (buffer/allocate 9))))",
    "(image/deserialize (image/serialize (:code (fn (a) (list a \"q\")))))", "(image/deserialize #m0011)", "(image/deserialize (:cut (image/serialize (list \"abcdefg\" [i 2 3] \"hijklmn\")) 0 30))",
    "(image/serialize (list car))", "(image/serialize stdin*)",
    "(buffer->string (buffer/allocate 40) 20)", "(buffer->string \"abc\" 9)", "(:clone (buffer/allocate 30) #t)", "(:clone \"abc\")", "(:length! (buffer/allocate 3) 300)", "(:length! (:alloc Array 3) 300)", "(:cut \"a long text\" 2 5)", "(:cut (buffer/allocate 30) 2 5)",
    "(:u16 (buffer/allocate 7))", "(set! (:s64 (buffer/allocate 8)) 3 1)", "(buffer/allocate -4)", "(buffer/copy (buffer/allocate 4) \"abcdefgh\" 0)", "(:alloc Array -1)", "(:alloc Array 40)", "(array/append [1 2] [3 4])", "(array/new i 2 3)",
    "(:bytecode-array [3 1 1] (array/new i))", "(:bytecode-array [3 1 999] (array/new i))", "(:bytecode-array [3 \"x\"] (array/new i))", "(:bytecode-array 1 2)", "(assemble* (list ($push/val i)))",
    "(list/sort (list 3 1 2 i))", "(tree/new :a i :b \"x\")", "(:clone {:a i :b 2})", "(:keys {:a i})", "(:symbol (cat \"sy\" i))", "(:keyword (cat \"kw\" i))", "(:string :abc)", "(gensym)", "(slurp \"f1\")", "(slurp \"nope\")", "(slurp \"d1\")",
    "(spit \"f3\" (cat \"text \" i))", "(spit \"d1\" \"x\")", "(spit \"nope/x\" \"x\")", "(ls \"d1\" #t)", "(ls \"nope\" #t)", "(ls \".\" #t)", "(file/stat \"f1\")", "(file/stat \"nope\")", "(cwd)", "(mkdir \"d2\")", "(rmdir \"d2\")",
    "(popen \"echo a\")", "(popen \"exit 3\")", "(popen \"./nope 2>/dev/null\")", "(do (def h (file/open-input* \"f1\")) (file/read* h (buffer/allocate 10) 10 0) (file/close* h))",
    "(do (def h (file/open-output* \"f3\" :replace)) (file/write* h \"abc\" 3 0) (file/close* h))", "(file/open-input* \"nope\")", "(file/open-output* \"d1\" :replace)", "(file/open-output* \"f1\" :error)",
    "(throw (list :a (cat \"x\" i)))", "(car i)", "(add/int \"a\" i)", "(ref [1 2] 99)", "(ref (cat \"abc\" i) 99)", "(:no-such i)", "(apply + (list i 1 2))", "(apply (fn l l) (list i 1 2))", "((fn (a) a))", "((fn (n) (if (= n 0) 0 (try (fn (e) e) (throw n)))) i)",
    "(do (defn vp/deep (n) (if (> n 0) (+ 1 (vp/deep (- n 1))) 0)) (vp/deep 200))", "(do (defn vp/deep (n) (if (> n 0) (+ 1 (vp/deep (- n 1))) (throw :x))) (vp/deep 200))",
    "(environment* (def y i) (defn z () y))", "(let ((y (cat i))) (fn () y))", "(map (list 1 2 i) (fn (x) (cat x \"!\")))", "(pfmt \"\")", "(fmt \"{i} and {i}\")", "(split \"a,b,c\" \",\")", "(join '(\"a\" \"b\") \"-\")", "(describe car)",
    "(disassemble max)", "(int->string i)", "(describe max)", "(read/single \"(1 2)\")", "(let ((p (:new StringOutputPort))) (:block-write p \"abc\") (:return-string p))", "(:meta! (fn () i) :doc \"x\")", "(fn (a) \"text\" a)",
    "(eval-in (environment* (def q 1)) '(+ q 1))", "(:parent! (fn () i) (environment*))", "(resolves? 'car)", "(time)", "(exports)",
]
STAYS = re.compile(r"file/open|deftest|defmodule|import|export|defclass|add-method|require|use|module|socket|readline|read-line|vp/env")


class Memory(Prop):
    """The number of live blocks of memory while something is done again and again, each time after a collection."""
    id = "P27.memory"
    variant = "gc"
    quick_cases = 700
    batch = 10
    per_case = 20.0
    rule = "a case counts when it does something at least 50 times between two measurements and at least one of the things it does has a result"

    @property
    def setup(self):
        return load_api().SETUP + """
(def vp/pad (array/new (pad-end "" 2000 "pad")))
(def vp/hexpad (array/new (pad-end "" 2000 "0F")))
(defn vp/collect () (verify/gc-every 1) (list 1) (verify/gc-every 0) :done)
(defn vp/measure () (vp/collect) (vp/collect) (rmdir "vp/live"))
"""

    def gen(self, c):
        steps = []
        for _ in range(c.weighted([(4, 1), (3, 3), (2, 8)])):
            if c.bool(1, 5):
                # something to read, damaged
                w = [c.pick(["(", ")", "[", "]", "{", "}", '\\"', "'", "`", "~", "~@", "@", ".", " ", ":", "#", "#m", "#x", "#b", "#o", "#d", "#\\\\", "0", "12", "3.5", "AF", "g", "-", "!", "\\\\", "\\\\n", "\\\\x",
                             "a", "abc", ";", "\\n", "#|", "|#", "#;", "#@(", "#(", "text text", "0123456789ABCDEF" * 4]) for _ in range(c.int(1, 12))]
                steps.append('(try (fn (e) #f) (read "%s"))' % "".join(w))
            elif c.bool(2, 3):
                s = c.pick(USES) if c.bool(5, 6) else c.pick([k[1] for k in KINDS])
                if c.bool(1, 3):
                    # compiled anew each time
                    steps.append("(try (fn (e) #f) (eval-in (current-closure) '%s))" % s)
                else:
                    steps.append("(try (fn (e) #f) %s)" % s)
            else:
                api = load_api()
                x = (api.PROPS[0] if c.bool() else api.PROPS[1]).gen(c)
                if x:
                    s = c.pick(x["steps"])
                    if not STAYS.search(s.replace("vp/env '", "")):
                        steps.append(s)
        n = 50 if any("12000" in s for s in steps) else c.pick([50, 50, 100, 300])
        if not steps:
            steps = ["(array/new i)"]
        text = load_api().PRE.replace("(def vp/env (current-closure))", "") + """
(def vp/pre '(do (set! vp/arr (array/new 5 3 9 "s" :k)) (set! vp/tree (tree/new :a 1 :m 2 :z "q" :length-x 4)) (set! vp/buf2 (buffer/allocate 24)) (set! vp/trace #nil)
  (set! vp/vals (:alloc Array 16)) (set! vp/port (:new StringOutputPort)) (set! vp/sp (:new StringOutputPort)) (set! vp/fun (fn (a b . c) "A function" (if a (list a b c) vp/arr)))))
(def vp/env (current-closure))
(def vp/fresh (eval-in vp/env (list 'fn 'vp/none vp/pre)))
(defn vp/body (i) %s)
(defn vp/repeat (n) (def i 0) (while (< i n) (vp/fresh) (vp/body i) (set! i (inc/int i))))
(vp/repeat 20) (vp/repeat 20) (vp/measure)
(vp/repeat %d) (vp/fresh) (vp/measure)
(vp/repeat %d) (vp/fresh) (vp/measure)
(vp/repeat %d) (vp/fresh) (vp/measure)
(def vp/got (slurp "live.log")) (rm "live.log") vp/got)""" % ("\n".join(steps), n, n, n)
        return {"text": text, "n": n, "steps": steps}

    def execute(self, cases):
        outs = run_texts([x["text"] for x in cases], self.variant, {"LD_PRELOAD": build.preload("live"), "MALLOC_PERTURB_": "0"}, self.per_case, setup=self.setup, base=60.0)
        return [[o] for o in outs]

    def judge(self, case, outs):
        m = health(outs)
        if m:
            return m
        o = outs[0]
        if o.kind == "exc":
            return None      # does not compile
        try:
            v = [int(x) for x in o.value.split()]
            if len(v) != 4:
                raise ValueError()
        except (ValueError, AttributeError):
            return "no measurements: %r" % o
        d = [b - a for a, b in zip(v, v[1:])]
        if min(d) >= case["n"] / 4:
            return "doing this %d times leaves %s more blocks of memory behind, although nothing keeps them: %r" % (case["n"], d, v)

    def nontrivial(self, case, outs):
        return outs[0].kind == "ok"

    def show(self, case):
        return "; %d times\n%s" % (case["n"], "\n".join(case["steps"]))


def load_api():
    from checks import api
    return api


PROPS = [Schedules(), Fast(), Graph(), Reclaim(), Memory()]
