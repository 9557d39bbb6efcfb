"""Size (P24): programs of every shape whose results have a closed form, at sizes around every limit of the implementation."""
from vp.core import Prop, run_texts
from vp.values import Arr, Kw, same

EDGES = [7, 8, 15, 16, 31, 32, 33, 63, 64, 100, 126, 127, 128, 129, 200, 253, 254, 255, 256, 257, 258, 259, 300, 511, 512, 513, 600, 1000, 1023, 1024,
         1025, 2000, 4095, 4096, 4097, 8000, 8191, 8192, 8193, 16383, 16384, 20000, 32766, 32767, 32768, 32769, 40000, 50000, 65534, 65535, 65536, 65537,
         80000, 100000]


def size(c, hi):
    k = c.weighted([(3, 0), (5, 1), (2, 2), (1, 3)])
    if k == 0:
        return c.int(1, min(hi, 20))
    if k == 1:
        return c.pick([e for e in EDGES if e <= hi] or [1])
    if k == 2:
        return c.int(1, hi)
    return hi


# Every family: generator (c) -> (text, expected value, whether it has to succeed)
FAMILIES = {}


def family(weight=2):
    def reg(f):
        FAMILIES[f.__name__] = (weight, f)
        return f
    return reg


def sp(xs):
    return " ".join(xs)


# ------------------------------------------------------------ calls

@family(4)
def recursion(c):
    """Non-tail recursion with several values pending in every frame."""
    pend = c.pick([1, 1, 2, 3, 5, 20])
    n = size(c, 100000 if pend == 1 else 100000 // (2 if pend < 5 else 4))
    call = "(f (- n 1))"
    for _ in range(pend):
        call = c.pick(["(+ 1 %s)", "(+ 1 %s)", "(- %s -1)", "(inc/int %s)", "(car (cons (+ %s 1) n))"]) % call
    return "(do (defn f (n) (if (<= n 0) 0 %s)) (f %d))" % (call, n), n * pend, n <= 100000


@family(3)
def recursion_scopes(c):
    """Recursion through let, try, macros of the core and other calls."""
    n = size(c, 30000)
    wrap = c.pick(["(let ((m (- n 1))) (+ 1 (f m)))", "(let* (def m (- n 1)) (+ 1 (f m)))", "(try (fn (e) (throw e)) (+ 1 (f (- n 1))))",
                   "(+ 1 (apply f (list (- n 1))))", "(+ 1 (car (map (list (- n 1)) f)))", "(+ 1 ((fn (m) (f m)) (- n 1)))",
                   "(cond ((= n -5) 7) (#t (+ 1 (f (- n 1)))))", "(or #f (+ 1 (f (- n 1))))", "(do (def r (f (- n 1))) (+ r 1))",
                   "(+ 1 (ref (array/new 0 (f (- n 1))) 1))", "(when (f (- n 1)) (set! k (+ k 1)) k)"])
    return "(do (def k 0) (defn f (n) (if (<= n 0) 0 %s)) (f %d))" % (wrap, n), n, n <= 8000


@family(2)
def mutual(c):
    n = size(c, 60000)
    k = c.int(2, 5)
    fs = sp("(defn f%d (n) (if (<= n 0) %d (+ 1 (f%d (- n 1)))))" % (i, i * 1000000, (i + 1) % k) for i in range(k))
    return "(do %s %s (f0 %d))" % (sp("(def f%d #nil)" % i for i in range(k)), fs.replace("(defn", "(defn"), n), n + (n % k) * 1000000, True


@family(3)
def throw_deep(c):
    """An exception crosses many frames and scopes, again and again; nothing may be left behind."""
    n = size(c, 20000)
    times = c.int(1, 40)
    frame = c.pick(["(+ 1 (f (- n 1)))", "(let ((m n)) (+ 1 (f (- m 1))))", "(list 1 2 (let* (def a (f (- n 1))) a) 3)"])
    return ("(do (def k 0) (defn f (n) (if (<= n 0) (throw (list :deep \"d\" 5)) %s))"
            " (dotimes (i %d) (set! k (+ k (try (fn (e) (+ 1 (caddr e))) (f %d))))) (list k (+ 1 2)))" % (frame, times, n)), [times * 6, 3], True


@family(2)
def handlers(c):
    """Nested handlers, each of which throws again."""
    n = size(c, 400)
    return "(do (defn f (n) (if (<= n 0) (throw :x) (try (fn (e) (throw :x)) (f (- n 1))))) (list (try (fn (e) :top) (f %d)) (+ 1 1)))" % n, [Kw(b"top"), 2], n <= 300


@family(2)
def handler_count(c):
    n = size(c, 1000)
    return "(do (def k 0) (defn f (n) (if (<= n 0) (throw 7) (try (fn (e) (set! k (+ k 1)) (throw 7)) (f (- n 1))))) (list (try (fn (e) k) (f %d)) k))" % n, [n, n], n <= 100


@family(2)
def loop(c):
    """Long loops that enter and leave scopes, return from inside them or throw out of them."""
    n = size(c, 60000)
    body, per = c.pick([
        ("(let ((a i)) (set! k (+ k 1)))", 1),
        ("(set! k (+ k (try (fn (e) 2) (let ((a 1)) (throw :x)))))", 2),
        ("(set! k (+ k (f i)))", 3),
        ("(set! k (+ k (g i)))", 4),
        ("(try (fn (e) (set! k (+ k 5))) (car (h i)))", 5),
        ("(doseq (x '(1 2 3)) (set! k (+ k 1)))", 3),
        ("(case i (-1 #nil) (otherwise (set! k (+ k 1))))", 1)])
    return ("(do (def k 0) (def i 0) (defn f (i) (let ((a 3)) (let* (def b a) (return b))) 99)"
            "(defn g (i) (while #t (let ((a 4)) (try (fn (e) 1) (return a)))) 9)"
            "(defn h (i) (let ((a 3)) (list 1 2 (let ((b 2)) (throw :y)))))"
            "(while (< i %d) %s (set! i (inc/int i))) k)" % (n, body)), n * per, True


@family(2)
def evals(c):
    n = size(c, 400)
    form = c.pick(["(eval-in e (list 'f (- n 1)))", "(eval-in e (list 'let (list (list 'm (- n 1))) (list 'f 'm)))", "(eval-in e (list '+ 0 (list 'f (- n 1))))"])
    return "(do (def e (current-closure)) (defn f (n) (if (<= n 0) 0 (+ 1 %s))) (f %d))" % (form, n), n, n <= 200


@family(2)
def chain(c):
    """Closures and environments that each hold the one before."""
    n = size(c, 20000)
    how = c.pick(["closure", "env", "add"])
    if how == "closure":
        return "(do (def f (fn () #nil)) (dotimes (i %d) (let ((p f)) (set! f (fn () p)))) (def k 0) (def g f) (while (set! g (g)) (inc! k)) k)" % n, n, True
    if how == "add":
        n = min(n, 12000)
        return "(do (def f (fn () 0)) (dotimes (i %d) (let ((p f)) (set! f (fn () (+ 1 (p)))))) (f))" % n, n, True
    n = min(n, 2000)
    return ("(do (def e (environment*)) (set! e :x 5) (dotimes (i %d) (set! e (eval-in e '(let* (current-closure)))))"
            " (list (ref e :x) (do (eval-in e '(set! x 6)) (ref e :x))))" % n), [5, 6], True


# ------------------------------------------------------------ width

@family(4)
def call_wide(c):
    n = size(c, 600)
    xs = sp("%d" % i for i in range(n))
    f, want = c.pick([("(fn l (list (:length l) (sum l)))", [n, n * (n - 1) // 2]),
                      ("(fn (a . l) (list a (:length l) (sum l)))", [0, n - 1, n * (n - 1) // 2]),
                      ("(fn (a b) (list a b))", [0, 1 if n > 1 else None])])
    return "(%s %s)" % (f, xs), want, n <= 255


@family(3)
def params(c):
    n = size(c, 400)
    ps = sp("p%d" % i for i in range(n))
    i, j = c.draw(n - 1), c.draw(n - 1)
    given = c.pick([n, n, n, max(0, n - 1), 0, n + 1])
    v = lambda q: q if q < given else None
    call = "(f %s)" % sp("%d" % q for q in range(given)) if c.bool() else "(apply f '(%s))" % sp("%d" % q for q in range(given))
    if given == 0 and "apply" in call:
        call = "(apply f #nil)"
    return "(do (defn f (%s) (list p%d p%d p%d)) %s)" % (ps, i, j, n - 1, call), [v(i), v(j), v(n - 1)], n <= 255 and (given <= 255)


@family(3)
def apply_wide(c):
    n = size(c, 60000)
    f, want = c.pick([("(fn l (:length l))", n), ("(fn (a . l) (+ a (:length l)))", n), ("(fn (a b c) (list a b c))", [1, 1 if n > 1 else None, 1 if n > 2 else None]),
                      ("array/new", "arr"), ("cat", "cat"), ("list", "list")])
    e = "(do (def l #nil) (dotimes (i %d) (set! l (cons 1 l))) %%s)" % n
    if want == "arr":
        return e % "(:length (apply array/new l))", n, n <= 50000
    if want == "cat":
        n = min(n, 3000)
        e = "(do (def l #nil) (dotimes (i %d) (set! l (cons 1 l))) %%s)" % n
        return e % "(:length (apply cat l))", n, True
    if want == "list":
        return e % "(:length (apply list l))", n, True
    return e % "(apply %s l)" % f, want, n <= 60000


@family(3)
def operator_wide(c):
    n = size(c, 500)
    op, val = c.pick([("+", n), ("*", 1), ("list", None), ("array/new", None), ("cat", None), ("and", 1), ("or", 1), ("do", 1), ("-", 1 - (n - 1)), ("bit-or", 1)])
    if n < 2:
        n, val = 2, {"+": 2, "*": 1, "-": 0}.get(op, val)
    xs = sp(["1"] * n)
    if op in ("list", "array/new"):
        return "(:length (%s %s))" % (op, xs), n, n <= 255
    if op == "cat":
        return "(:length (cat %s))" % xs, n, n <= 255
    return "(%s %s)" % (op, xs), val, n <= 255


@family(3)
def literal_wide(c):
    n = size(c, 4000)
    how = c.pick(["quote", "array", "tree", "imtree", "string", "buffer"])
    if how == "quote":
        return "(let ((l '(%s))) (list (:length l) (sum l) (ref l %d)))" % (sp("%d" % i for i in range(n)), n - 1), [n, n * (n - 1) // 2, n - 1], n <= 4000
    if how == "array":
        return "(let ((l [%s])) (list (:length l) (ref l %d)))" % (sp("%d" % i for i in range(n)), n - 1), [n, n - 1], n <= 255
    if how == "tree":
        return "(let ((l {%s})) (list (:length l) (ref l :k%d)))" % (sp(":k%d %d" % (i, i) for i in range(n)), n - 1), [n, n - 1], n <= 127
    if how == "imtree":
        return "(let ((l #@(%s))) (list (:length l) (ref l :k%d)))" % (sp(":k%d %d" % (i, i) for i in range(n)), n - 1), [n, n - 1], n <= 2000
    if how == "string":
        n = n * 20
        return "(let ((s \"%s\")) (list (:length s) (ref s %d)))" % ("x" * (n - 1) + "y", n - 1), [n, ord("y")], True
    n = n * 10
    return "(let ((s #m%s)) (list (:length s) (ref s %d)))" % ("01" * (n - 1) + "7F", n - 1), [n, 127], True


@family(5)
def literals(c):
    """Functions with more literals than fit a byte: every kind of reference to a literal before and after the 256th."""
    n = size(c, 500)
    pre, j = [], 0
    while j < n:
        m = min(200, n - j)
        pre.append("(list %s)" % sp('"s%d-%d"' % (j, i) for i in range(m)))
        j += m
    body, want = [], []
    q = c.int(1, 6)
    for i in range(q):
        k = c.draw(11)
        if k == 0:
            body.append("(do (def loc%d %d) loc%d)" % (i, i + 300, i)); want.append(i + 300)
        elif k == 1:
            body.append("(do (set! glob %d) (+ glob 1))" % (i + 1000)); want.append(i + 1001)
        elif k == 2:
            body.append("(do (set! loc (+ loc %d)) loc)" % (500 + i)); want.append("loc+%d" % (500 + i))
        elif k == 3:
            body.append("(try (fn (e) (car e)) (do (set! unbound-%d 1) :bad))" % i); want.append(Kw(b"unbound-variable"))
        elif k == 4:
            body.append("(try (fn (e) (car e)) unbound-%d)" % i); want.append(Kw(b"unbound-variable"))
        elif k == 5:
            body.append("((fn (x) (+ x %d)) 1)" % (700 + i)); want.append(701 + i)
        elif k == 6:
            body.append("'(q%d \"lit%d\")" % (i, i)); want.append([Kw(b"sym"), i])
        elif k == 7:
            body.append("(:length \"%s\")" % ("abcdefgh"[:i + 1])); want.append(i + 1)
        elif k == 8:
            body.append("(+ %d 0.25)" % (12345 + i)); want.append(None)
        elif k == 9:
            body.append("(try (fn (e) (list e %d)) (throw \"thrown%d\"))" % (900 + i, i)); want.append("any")
        elif k == 10:
            body.append("(do (def par-%d par) (set! par-%d (+ par %d)) par-%d)" % (i, i, 2000 + i, i)); want.append(2007 + i)
        else:
            body.append("(let ((shadow %d)) (set! shadow (+ shadow 1)) shadow)" % (3000 + i)); want.append(3001 + i)
    loc, out = 40, []
    from vp.values import F, Sym
    for i, w in enumerate(want):
        if isinstance(w, str) and w.startswith("loc+"):
            loc += int(w[4:])
            out.append(loc)
        elif isinstance(w, list):
            out.append([Sym(b"q%d" % i), b"lit%d" % i])
        elif w is None:
            out.append(F(12345 + i + 0.25))
        elif w == "any":
            out.append([[b"thrown%d" % i], 900 + i])
        else:
            out.append(w)
    text = "(do (def glob 1) (defn f (par) (def loc 40) %s (list %s)) (f 7))" % ("\n".join(pre), "\n".join(body))
    return text, out, True


@family(3)
def wide_literals(c):
    """Bytecode with up to 65535 literals: every operation that refers to one by a 16 bit index."""
    from vp.values import Arr, Sym
    n = c.pick([256, 257, 512, 1000, 1024, 2048, 2049, 4096, 4097, 8192, 16384, 20000, 32767, 32768, 32769, 40000, 65535])
    idx = lambda: min(n - 1, c.pick([n - 1, n - 2, n // 2, c.draw(n), c.draw(n), 255, 0]))
    syms, code, want, val = {}, [], [], {}
    glob = {}
    for _ in range(c.int(1, 12)):
        k = c.draw(4)
        if k == 0 or not val and k > 1:
            i = idx()
            if i in syms:
                continue
            code += [6, i >> 8, i & 255]
            syms.setdefault(i, None)
            want.append(i * 3 + 1)
        elif k == 1:                    # push a number and name it
            i, j = idx(), idx()
            if i == j or syms.get(i) or (j in syms and not syms[j]):
                continue
            syms.setdefault(i, None)
            syms[j] = "wide%d" % j
            code += [6, i >> 8, i & 255, 8, j >> 8, j & 255]
            want.append(i * 3 + 1)
            val[j] = i * 3 + 1
        elif k == 2:
            j = c.pick(sorted(val))
            code += [15, j >> 8, j & 255]
            want.append(val[j])
        else:
            j, v = c.pick(sorted(val)), c.int(-128, 127)
            code += [2, v & 255, 16, j >> 8, j & 255]
            want.append(v)
            val[j] = v
    sets = " ".join("(set! lits %d '%s)" % (j, s) for j, s in sorted(syms.items()) if s)
    text = ("(let* (def n %d) (def lits (:alloc Array n)) (dotimes (i n) (set! lits i (+ 1 (* i 3)))) %s "
            "(bytecode-eval* (:bytecode-array [%s] lits) (environment*)))" % (n, sets, " ".join(map(str, code + [46, len(want), 1]))))
    return text, want or None, True


@family(3)
def locals_(c):
    n = size(c, 900)
    i, j = c.draw(n - 1), c.draw(n - 1)
    how = c.pick(["def", "let", "letstar", "set"])
    if how == "def":
        b = "%s (list v%d v%d)" % (sp("(def v%d %d)" % (k, k) for k in range(n)), i, j)
    elif how == "let":
        b = "(let (%s) (list v%d v%d))" % (sp("(v%d %d)" % (k, k) for k in range(n)), i, j)
    elif how == "letstar":
        b = "(let* %s (list v%d v%d))" % (sp("(def v%d %d)" % (k, k) for k in range(n)), i, j)
    else:
        b = "%s %s (list v%d v%d)" % (sp("(def v%d 0)" % k for k in range(n)), sp("(set! v%d %d)" % (k, k) for k in range(n)), i, j)
    return "(do (defn f () %s) (f))" % b, [i, j], n <= 600


@family(4)
def long_jump(c):
    """Branches over bodies longer than an 8 or 16 bit offset."""
    n = c.weighted([(3, 0), (2, 1), (2, 2)])
    n = c.int(1, 60) if n == 0 else c.int(60, 3800) if n == 1 else c.int(4000, 5200)
    body = sp("(set! x (+ x %d))" % (i % 100) for i in range(n))
    tot = sum(i % 100 for i in range(n))
    form, want = c.pick([
        ("(if c (do %s x) :no)", [tot, Kw(b"no")]),
        ("(if c :no (do %s x))", [Kw(b"no"), tot]),
        ("(when c %s x)", [tot, None]),
        ("(do (def i 0) (while (< i (if c 2 1)) %s (set! i (inc/int i))) x)", [2 * tot, tot]),
        ("(cond ((= c 1) :no) (c %s x) (#t :else))", [tot, Kw(b"else")]),
        ("(and c (do %s x))", [tot, False]),
        ("(or (if c 5 #f) (do %s x))", [5, tot]),
        ("(try (fn (e) (list :caught x)) %s (if c (throw :x) x))", [[Kw(b"caught"), tot], tot]),
        ("(case c (#t %s x) (otherwise :else))", None)])
    if want is None:
        form, want = "(let ((a 1)) %s (if c x a))", [tot, 1]
    text = "(do (def x 0) (defn f (c) (set! x 0) %s) (list (f #t) (f #f)))" % (form % body)
    return text, want, n <= 3800


@family(2)
def branches(c):
    n = size(c, 500)
    how = c.pick(["cond", "case", "ifs"])
    i = c.draw(n - 1)
    if how == "cond":
        b = "(cond %s (#t :none))" % sp("((= x %d) %d)" % (k, k * 2) for k in range(n))
    elif how == "case":
        b = "(case x %s (otherwise :none))" % sp("(%d %d)" % (k, k * 2) for k in range(n))
    else:
        n = min(n, 300)
        i = min(i, n - 1)
        b = sp("(if (= x %d) %d " % (k, k * 2) for k in range(n)) + ":none" + ")" * n
    return "(do (defn f (x) %s) (list (f 0) (f %d) (f %d) (f -1)))" % (b, i, n - 1), [0, 2 * i, 2 * (n - 1), Kw(b"none")], True


# ------------------------------------------------------------ source nesting

@family(4)
def nest_source(c):
    how = c.pick(["add", "let", "fn", "if", "do", "try", "paren", "quasi", "array", "while", "call", "and", "list", "string"])
    n = size(c, {"let": 250, "fn": 250, "try": 200, "if": 400, "while": 60}.get(how, 1000))
    ok = True
    if how == "add":
        return "(+ 1 " * n + "0" + ")" * n, n, ok
    if how == "call":
        return "(do (defn f (x) (+ x 1)) %s)" % ("(f " * n + "0" + ")" * n), n, ok
    if how == "let":
        return sp("(let ((x%d %d))" % (i, i) for i in range(n)) + "(list x0 x%d x%d)" % (n // 2, n - 1) + ")" * n, [0, n // 2, n - 1], ok
    if how == "fn":
        n = min(n, 120)
        return "(" * n + "(fn () " * n + "7" + ")" * (2 * n), 7, ok
    if how == "if":
        return "(if #t " * n + "7" + " 8)" * n, 7, ok
    if how == "do":
        return "(do 1 " * n + "7" + ")" * n, 7, ok
    if how == "and":
        return "(and 1 " * n + "7" + ")" * n, 7, ok
    if how == "list":
        return "(let ((l %s) (k 0)) (while (pair? l) (set! l (car l)) (inc! k)) k)" % ("(list " * n + "7" + ")" * n), n, ok
    if how == "try":
        return "(try (fn (e) (throw (+ 1 (car e)))) " * n + "(throw 0)" + ")" * n if False else \
            "(list (try (fn (e) (car e)) %s))" % ("(try (fn (e) (throw (+ 1 (car e)))) " * n + "(throw 0)" + ")" * n), [n], n <= 200
    if how == "paren":
        return "(let ((l '%s) (k 0)) (while (pair? l) (set! l (car l)) (inc! k)) k)" % ("(" * n + "7" + ")" * n), n, ok
    if how == "quasi":
        return "(let ((l `%s) (k 0)) (while (pair? l) (set! l (car l)) (inc! k)) k)" % ("(" * n + "~(+ 3 4)" + ")" * n), n, ok
    if how == "array":
        return "(let ((l %s) (k 0)) (while (array? l) (set! l (ref l 0)) (inc! k)) k)" % ("[" * n + "7" + "]" * n), n, ok
    if how == "while":
        return "(do (def k 0) %s k)" % (sp("(let ((i%d 0)) (while (< i%d 1) (set! i%d 1)" % (i, i, i) for i in range(n)) + "(inc! k)" + "))" * n), 1, ok
    return "(:length (string/write '%s))" % ("(" * n + "7" + ")" * n), 2 * n + 1, n <= 300


@family(2)
def read_nest(c):
    n = c.pick([10, 100, 1000, 4000, 4090, 4200, 10000, 100000])
    o, cl = c.pick([("(", ")"), ("[", "]"), ("'", ""), ("`", ""), ("(quote ", ")"), ("{:a ", "}"), ("#@(:a ", ")"), ("~", "")])
    text = "(do (def s \"\") (def o \"%s\") (def c \"%s\") (def r (fn (x n) (def b (buffer/allocate (* n (:length x)))) (dotimes (i n) (dotimes (j (:length x)) (set! b (+ j (* i (:length x))) (ref x j)))) (buffer->string b)))" % (o, cl)
    text += " (def v (read (cat (r o %d) \"1\" (r c %d)))) (list (pair? v) (:type-name (car v))))" % (n, n)
    return text, "any", n <= 1000


# ------------------------------------------------------------ data

@family(4)
def nest_data(c):
    how = c.pick(["car", "cdr", "array", "tree", "mixed", "dotted"])
    n = size(c, {"array": 10000, "tree": 25000, "mixed": 10000}.get(how, 100000))
    mk, down, test = {"car": ("(list %s)", "(car %s)", "pair?"), "cdr": ("(cons 5 %s)", "(cdr %s)", "pair?"), "array": ("(array/new %s 2)", "(ref %s 0)", "array?"),
                      "tree": ("(tree/new :a %s :b 4)", "(ref %s :a)", "tree?"), "dotted": ("(cons %s 4)", "(car %s)", "pair?"),
                      "mixed": ("(list (array/new 4 %s))", "(ref (car %s) 1)", "pair?")}[how]
    junk = c.pick([0, 20000, 300000])
    extra, w = c.pick([("1", 1), ("(equal? a b)", True), ("(not (= a #nil))", True), ("(do (try (fn (e) e) (throw a)) 3)", 3)])
    two = "equal" in extra
    if two:
        n = min(n, 6000)
    t = ("(do (def a 1) (def b 1) (def k 0) (dotimes (i %d) (set! a %s) %s) (def g #nil) (dotimes (i %d) (set! g (cons i i)))"
         " (def e %s) (while (%s a) (set! a %s) (inc! k)) (list k a e))" % (n, mk % "a", "(set! b %s)" % (mk % "b") if two else "", junk, extra, test, down % "a"))
    return t, [n, 1, w], True


@family(3)
def print_nest(c):
    """Printing, copying and storing deep data."""
    how = c.pick(["list", "array", "tree"])
    n = size(c, 3000)
    mk = {"list": "(list %s)", "array": "(array/new %s)", "tree": "(tree/new :a %s)"}[how]
    op, want, ok = c.pick([
        ("(:length (string/write a))", {"list": 2 * n + 1, "array": 4 * n + 1, "tree": 7 * n + 1}[how], n <= 2000),
        ("(equal? a (image/deserialize (image/serialize a)))", True, n <= 3000),
        ("(equal? a (car (read (string/write a))))" if how == "list" else "(string? (string/write a))", True, n <= 2000)])
    return "(do (def a 1) (dotimes (i %d) (set! a %s)) %s)" % (n, mk % "a", op), want, ok


@family(3)
def long_data(c):
    n = size(c, 50000)
    L = "(def l #nil) (dotimes (i %d) (set! l (cons (rem (* i 7919) 10007) l)))" % n
    xs = [(i * 7919) % 10007 for i in range(n)][::-1]
    op, want, lim = c.pick([
        ("(sum l)", sum(xs), 50000), ("(:length (sort l))", n, 20000), ("(car (sort l))", min(xs), 20000), ("(:length (map l inc))", n, 50000),
        ("(:length (filter l (fn (x) (= (rem x 2) 0))))", sum(1 for x in xs if x % 2 == 0), 50000), ("(reduce l + 0)", sum(xs), 50000),
        ("(car (reverse l))", xs[-1], 50000), ("(:length (append l l))", 2 * n, 50000), ("(:length (apply array/new l))", n, 50000),
        ("(ref (apply array/new l) %d)" % (n - 1), xs[-1], 50000), ("(last-pair l)", [xs[-1]], 50000), ("(equal? l (append l #nil))", True, 50000),
        ("(:length (string/write l))", len(" ".join(map(str, xs))) + 2, 20000), ("(equal? l (image/deserialize (image/serialize l)))", True, 6000),
        ("(equal? l (car (read (string/write l))))", True, 20000), ("(:length (list/cut l 0 %d))" % (n // 2), n // 2, 50000)])
    return "(do %s %s)" % (L, op), want, n <= lim


@family(3)
def big_things(c):
    n = size(c, 100000)
    k = c.draw(6)
    if k == 0:
        return "(let ((a (:alloc Array %d))) (set! a %d 5) (set! a 0 (+ 1 (or (ref a 0) 0))) (list (:length a) (ref a %d)))" % (n, n - 1, n - 1), [n, 5 if n > 1 else 6], True
    if k == 1:
        n = n * 10
        return "(let ((a (buffer/allocate %d))) (set! a %d 5) (list (:length a) (ref a %d)))" % (n, n - 1, n - 1), [n, 5], True
    if k == 2:
        m = min(n, 12000)
        return ("(do (def t (tree/new)) (dotimes (i %d) (set! t (:keyword (cat \"k\" i)) i)) (def s 0) (doseq (x (:values t)) (set! s (+ s x)))"
                " (list (:length t) s (ref t :k%d)))" % (m, m - 1)), [m, m * (m - 1) // 2, m - 1], m <= 12000
    if k == 3:
        d = c.int(1, 20)
        return "(do (def s \"ab\") (dotimes (i %d) (set! s (cat s s))) (list (:length s) (ref s %d)))" % (d, 2 ** (d + 1) - 1), [2 ** (d + 1), 98], True
    if k == 4:
        return "(do (def a (:alloc Array 1)) (dotimes (i %d) (:length! a (+ 1 i)) (set! a i i)) (list (:length a) (ref a %d)))" % (min(n, 3000), min(n, 3000) - 1), [min(n, 3000), min(n, 3000) - 1], True
    if k == 5:
        m = min(n, 20000)
        return "(do (def p (:new StringOutputPort)) (dotimes (i %d) (:block-write p \"abc\")) (:length (:return-string p)))" % m, 3 * m, True
    m = min(n, 5000)
    return "(:length (join (split (pad-start \"\" %d \"a,\") \",\") \";\"))" % (2 * m), 2 * m, True


class Sizes(Prop):
    id = "P24.sizes"
    variant = "plain"
    quick_cases = 2500
    batch = 30
    per_case = 25.0
    stack_mb = 8          # the usual limit
    rule = "a case counts when its size is at least 100 or next to a power of two"

    def gen(self, c):
        name = c.weighted([(w, k) for k, (w, _) in FAMILIES.items()])
        text, want, must = FAMILIES[name][1](c)
        return {"text": text, "want": want, "must": must, "family": name}

    def execute(self, cases):
        # one process each: the case before must not have used up the heap
        return [run_texts(self.texts(x), self.variant, self.env, self.per_case, mem_mb=self.mem_mb, stack_mb=self.stack_mb) for x in cases]

    def judge(self, case, outs):
        o = outs[0]
        if o.kind == "exit" and o.value == 123 and "OOM" in o.detail or o.kind == "exc":
            if case["must"]:
                return "%s: has to succeed at this size, got %r" % (case["family"], o)
            return None
        if o.kind != "ok":
            return "%s: %r" % (case["family"], o)
        w = case["want"]
        if isinstance(w, str) and w == "any":
            return None
        if not same(o.value, w):
            return "%s: got %.400r, expected %.400r" % (case["family"], o.value, w)

    def nontrivial(self, case, outs):
        return len(case["text"]) > 100

    def tags(self, case, outs):
        return ["family:" + case["family"]] + (["limit"] if not case["must"] else [])

    def show(self, case):
        t = case["text"]
        return t if len(t) < 3000 else t[:1500] + "\n ... \n" + t[-1500:]


class SizesAsan(Sizes):
    """The same under AddressSanitizer."""
    id = "P24.sizes.asan"
    variant = "asan"
    stack_mb = 2048
    quick_cases = 400
    per_case = 100.0
    batch = 10


PROPS = [Sizes(), SizesAsan()]
