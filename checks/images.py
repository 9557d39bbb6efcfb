"""Images: serialising and loading values (P28)."""
import re

from vp import build, gens
from vp.core import PRELUDE, Outcome, Prop, Sandbox, health, load, run_texts, spawn
from vp.core import _parse as parse_markers
from vp.values import Arr, Buf, Kw, Opaque, Sym, decode, expr, lit_str, same

# Describes everything reachable from V: a list of nodes in the order they are met, with references by position.
GRAPH = r"""
(defn vp/graph (root)
      (def ids {})
      (def count 0)
      (def todo #nil)
      (def out #nil)
      (defn node (v)
            (def key (:symbol (cat (:type-name v) "-" (val->id v))))
            (when-not (:has? ids key)
              (set! ids key count)
              (set! count (inc/int count))
              (set! todo (cons v todo)))
            (list :node (ref ids key)))
      (defn enc (v)
            (def t (:type-name v))
            (cond ((= t :pair) (list :pair (enc (car v)) (enc (cdr v))))
                  ((or (= t :array) (= t :tree) (= t :buffer) (= t :buffer-view) (= t :lambda) (= t :macro) (= t :environment)) (node v))
                  ((= t :native-function) (list :native (:meta v :name)))
                  (#t (list :leaf v))))
      (defn refuses? (v i)
            (def old (ref v i))
            (try (fn () #t) (set! v i old) #f))
      (defn describe (v)
            (def t (:type-name v))
            (cond ((= t :array) (def r (list :array (:length v))) (def i 0)
                                (while (< i (:length v)) (set! r (cons (enc (ref v i)) r)) (set! i (inc/int i)))
                                r)
                  ((= t :tree)  (def ks (:keys v))
                                (def r (list :tree (and ks (refuses? v (car ks))) (:length v)))
                                (doseq (k ks r) (set! r (cons (list (:string k) (enc (ref v k))) r))))
                  ((= t :buffer) (def r (buffer/allocate (:length v)))
                                 (buffer/copy r v 0 (:length v))
                                 (list :buffer (:immutable? v) (:length v) r))
                  ((= t :buffer-view) (list :view (:immutable? v) (:length v) (and (> (:length v) 0) (list (refuses? v 0) (ref v (dec (:length v))) (ref v 0))) (enc (:buffer v))))
                  ((= t :environment) (list :environment (enc (ref v :v0)) (enc (ref v :v1))))
                  ((= t :macro) (list :macro (:length (:arguments v))))
                  (#t (list :lambda (:arguments v) (:meta v :name) (enc (v 0)) (enc (v 1))))))
      (def start (enc root))
      (while todo
             (def batch (nreverse todo))
             (set! todo #nil)
             (doseq (v batch) (set! out (cons (describe v) out))))
      (list start (nreverse out)))
(defn vp/make-fn (a b)
      (fn (which value)
          (if (= which 0) a
              (if (= which 1) b
                  (if (= which 2) (set! a value) (set! b value))))))
(defn vp/make-env (p q)
      (environment* (def v0 p) (def v1 q)))
(defn vp/make-bare-env (p q)
      (def e (vp/make-env p q))
      (:parent! e #nil)
      e)
(defn vp/freeze (buf n)
      (buffer-freeze buf n))
"""

NATIVES = ["val->id", "cwd", "nreverse", "buffer/allocate", "image/serialize"]
TYPES = [("Int", b"int"), ("String", b"string"), ("Tree", b"tree"), ("Nil", b"nil"), ("Lambda", b"lambda")]
KEYS = [b"a", b"b", b"key", b"zeta", b"k0", b"k1", b"k2", b"k3", b"k4", b"len", b"with space", b"0", b"\xc3\xa4", b"x" * 93]
VIEWS = {"u8": 1, "s8": 1, "u16": 2, "s16": 2, "u32": 4, "s32": 4, "s64": 8}


class Node:
    def __init__(self, kind):
        self.kind, self.items, self.tree, self.data, self.flag, self.extra = kind, [], {}, b"", False, None


class P:
    def __init__(self, a, b):
        self.a, self.b = a, b


class Nat(str):
    pass


class Typ(str):
    pass


def canon(root):
    """The model's counterpart of vp/graph."""
    ids, todo, out = {}, [], []

    def enc(v):
        if isinstance(v, P):
            return [Kw(b"pair"), enc(v.a), enc(v.b)]
        if isinstance(v, Node):
            if id(v) not in ids:
                ids[id(v)] = len(ids)
                todo.append(v)
            return [Kw(b"node"), ids[id(v)]]
        if isinstance(v, Nat):
            return [Kw(b"native"), v]
        return [Kw(b"leaf"), v]

    def desc(n):
        if n.kind == "array":
            return [Kw(b"array"), len(n.items)], [enc(x) for x in n.items], "rev"
        if n.kind == "tree":
            return [Kw(b"tree"), n.flag if n.tree else None, len(n.tree)], [[k, enc(n.tree[k])] for k in sorted(n.tree)], "rev"
        if n.kind == "buffer":
            return [Kw(b"buffer"), n.flag, len(n.data), Buf(n.data)], [], ""
        if n.kind == "view":
            size = VIEWS[n.extra]
            cnt = len(n.items[0].data) // size
            signed = n.extra[0] == "s"

            def at(i):
                return int.from_bytes(bytes(n.items[0].data[i * size:(i + 1) * size]), "little", signed=signed)
            ro = n.flag or n.items[0].flag
            return [Kw(b"view"), ro, cnt, [ro, at(cnt - 1), at(0)] if cnt else False, enc(n.items[0])], [], ""
        if n.kind in ("env", "bare"):
            return [Kw(b"environment"), enc(n.items[0]), enc(n.items[1])], [], ""
        return [Kw(b"lambda"), "args", "name", enc(n.items[0]), enc(n.items[1])], [], ""

    start = enc(root)
    while todo:
        batch, todo[:] = list(todo), []
        for n in batch:
            head, rest, rev = desc(n)
            out.append(rest[::-1] + head if rev else head)
    return start, out


def agrees(want, got):
    """Compare a plain expectation with a value."""
    if isinstance(want, Typ):
        return isinstance(got, Opaque) and got == "type " + want
    if isinstance(want, Nat):
        return isinstance(got, Sym) and bytes(got).decode() == want
    if isinstance(want, (list, tuple)) and not isinstance(want, Arr):
        if not want:
            return got is None or got == []
        return isinstance(got, list) and len(got) == len(want) and all(agrees(w, g) for w, g in zip(want, got))
    return same(want, got)


def graphs_agree(want, got):
    """WANT and GOT (of vp/graph) are the same graph up to the numbering of nodes."""
    if not isinstance(got, list) or len(got) != 2:
        return False
    to, fro, todo = {}, {}, []
    gnodes = got[1] or []

    def enc(w, g):
        if not isinstance(g, list) or not g or w[0] != g[0] or len(w) != len(g):
            return False
        if w[0] == Kw(b"pair"):
            return enc(w[1], g[1]) and enc(w[2], g[2])
        if w[0] == Kw(b"node"):
            i, j = w[1], g[1]
            if i in to or j in fro:
                return to.get(i) == j and fro.get(j) == i
            to[i], fro[j] = j, i
            todo.append((i, j))
            return True
        return agrees(w[1], g[1])

    def desc(w, g):
        if not isinstance(g, list):
            return False
        if any(isinstance(x, Kw) and x == Kw(b"array") for x in w[-2:-1]):
            return len(w) == len(g) and same(w[-2:], g[-2:]) and all(enc(a, b) for a, b in zip(w[:-2], g[:-2]))
        if len(w) >= 3 and w[-3] == Kw(b"tree"):
            if len(w) != len(g) or not same(w[-3:], g[-3:]):
                return False
            d = {bytes(k): x for k, x in g[:-3]}
            return len(d) == len(w) - 3 and all(k in d and enc(x, d[k]) for k, x in w[:-3])
        if not g or w[0] != g[0] or len(w) != len(g):
            return False
        k = bytes(w[0])
        if k == b"buffer":
            return same(w[1:], g[1:])
        if k == b"view":
            return agrees(w[1:4], g[1:4]) and enc(w[4], g[4])
        first = 1 if k == b"environment" else 3
        return enc(w[first], g[first]) and enc(w[first + 1], g[first + 1])

    if not enc(want[0], got[0]):
        return False
    while todo:
        i, j = todo.pop()
        if not isinstance(j, int) or not 0 <= j < len(gnodes) or not desc(want[1][i], gnodes[j]):
            return False
    return len(want[1]) == len(gnodes)


class Graphs(Prop):
    id = "P28.graphs"
    variant = "plain"
    setup = GRAPH
    quick_cases = 3000
    batch = 25
    per_case = 10.0
    rule = "a case counts when its graph has at least four objects of three kinds and one of them is reachable in two ways"

    def leaf(self, c):
        k = c.weighted([(4, "int"), (2, "string"), (1, "float"), (1, "bool"), (1, "nil"), (2, "kw"), (2, "sym"), (1, "type"), (1, "native"), (1, "nulstring")])
        if k == "int":
            return gens.int64(c)
        if k == "float":
            return gens.float64(c)
        if k == "string":
            return c.pick([b"", gens.bytestr(c, 30), b"y" * c.int(0, 300)])
        if k == "nulstring":
            return gens.bytestr(c, 6, nul=True) + b"\0" + gens.bytestr(c, 6, nul=True)
        if k == "bool":
            return c.bool()
        if k == "nil":
            return None
        if k == "kw":
            return Kw(c.pick([b"kw", gens.word(c), b"long" * 20]))
        if k == "sym":
            return Sym(c.pick([b"sym", gens.word(c), b"long" * 20]))
        if k == "type":
            return Typ(c.pick(TYPES)[1].decode())
        return Nat(c.pick(NATIVES))

    def lexpr(self, v):
        if isinstance(v, Typ):
            return [a for a, b in TYPES if b.decode() == v][0]
        if isinstance(v, Nat):
            return str(v)
        return expr(v)

    def vexpr(self, v, nodes):
        if isinstance(v, P):
            return "(cons %s %s)" % (self.vexpr(v.a, nodes), self.vexpr(v.b, nodes))
        if isinstance(v, Node):
            return "n%d" % nodes.index(v)
        return self.lexpr(v)

    def value(self, c, nodes, pairs=True):
        k = c.weighted([(3, "leaf"), (5 if nodes else 0, "node"), (2 if pairs else 0, "pair")])
        if k == "node":
            return c.pick(nodes)
        if k == "pair":
            return P(self.value(c, nodes), self.value(c, nodes, c.bool()))
        return self.leaf(c)

    def gen(self, c):
        code = c.bool(1, 4)
        nodes, lines = [], []
        for i in range(c.int(1, 3) if c.bool(1, 4) else c.int(4, c.pick([6, 10, 20]))):
            bufs = [n for n in nodes if n.kind == "buffer"]
            kind = c.weighted([(4, "array"), (4, "tree"), (2, "buffer"), (2 if bufs else 0, "view"), (2 if code else 0, "fn"), (1 if code else 0, "env"), (2, "bare"), (1, "itree")])
            n = Node(kind)
            if kind == "array":
                n.items = [None] * c.pick([0, 1, 2, 3, 5, 40])
                lines.append("(def n%d (:alloc Array %d))" % (i, len(n.items)))
            elif kind == "tree":
                lines.append("(def n%d (tree/new))" % i)
            elif kind == "itree":
                n.kind, n.flag = "tree", True
                for _ in range(c.int(0, 4)):
                    n.tree[c.pick(KEYS[:8])] = c.pick([1, b"s", True, Kw(b"v")])
                lines.append("(def n%d (car (read %s)))" % (i, lit_str(("#@(%s)" % " ".join(
                    ":%s %s" % (k.decode(), lit_str(v) if type(v) is bytes else ":v" if isinstance(v, Kw) else "#t" if v is True else v) for k, v in n.tree.items())).encode())))
            elif kind == "buffer":
                n.data = bytearray(c.list(lambda: c.pick([0, 1, 127, 128, 255]), 0, c.pick([4, 20])))
                n.flag = c.bool(1, 3)
                lines.append("(def n%d %s)" % (i, "(car (read \"#m%s\"))" % bytes(n.data).hex().upper() if n.flag else expr(Buf(n.data))))
            elif kind == "view":
                b = c.pick(bufs)
                n.items, n.extra, n.flag = [b], c.pick(sorted(VIEWS)), c.bool(1, 3)
                lines.append("(def n%d (:%s n%d%s))" % (i, n.extra, nodes.index(b), " #t" if n.flag else ""))
            else:
                n.items = [None, None]
                lines.append("(def n%d (%s #nil #nil))" % (i, {"fn": "vp/make-fn", "env": "vp/make-env", "bare": "vp/make-bare-env"}[kind]))
            nodes.append(n)

        def mutate(rounds, lines, name):
            for _ in range(rounds):
                n = c.pick(nodes)
                i = nodes.index(n)
                if n.kind == "array" and n.items:
                    j = c.draw(len(n.items) - 1)
                    v = self.value(c, nodes)
                    n.items[j] = v
                    lines.append("(set! %s%d %d %s)" % (name, i, j, self.vexpr(v, nodes)))
                elif n.kind == "tree" and not n.flag:
                    k = c.pick(KEYS) if c.bool(2, 3) else gens.word(c)
                    v = self.value(c, nodes)
                    n.tree[k] = v
                    lines.append("(set! %s%d (:symbol %s) %s)" % (name, i, lit_str(k), self.vexpr(v, nodes)))
                elif n.kind == "buffer" and not n.flag and n.data:
                    j, v = c.draw(len(n.data) - 1), c.draw(255)
                    n.data[j] = v
                    lines.append("(set! %s%d %d %d)" % (name, i, j, v))
                elif n.kind in ("env", "bare"):
                    j = c.draw(1)
                    v = self.value(c, nodes)
                    n.items[j] = v
                    lines.append("(set! %s%d :v%d %s)" % (name, i, j, self.vexpr(v, nodes)))
                elif n.kind == "fn":
                    j = c.draw(1)
                    v = self.value(c, nodes)
                    n.items[j] = v
                    lines.append("(%s%d %d %s)" % (name, i, j + 2, self.vexpr(v, nodes)))
        mutate(c.int(len(nodes), 4 * len(nodes) + 2), lines, "n")
        # an array of all nodes as root lets the copy's nodes be mutated afterwards
        every = c.bool()
        root = Node("array")
        root.items = list(nodes) if every else [self.value(c, nodes) for _ in range(c.int(1, 3))]
        want = canon(root)
        lines.append("(def root (:alloc Array %d))" % len(root.items))
        for j, v in enumerate(root.items):
            lines.append("(set! root %d %s)" % (j, self.vexpr(v, nodes)))
        lines.append("(def before (vp/graph root))")
        lines.append("(def image (image/serialize root))")
        lines.append("(def after (vp/graph root))")
        lines.append("(def copy (image/deserialize image))")
        lines.append("(def copied (vp/graph copy))")
        want2 = None
        if every:
            for i in range(len(nodes)):
                lines.append("(def m%d (ref copy %d))" % (i, i))
            sub = []
            mutate(c.int(1, 2 * len(nodes)), sub, "m")
            # references in the new values are to the copy's nodes
            lines += [s.replace("(set! n", "(set! m") for s in (rename(x, len(nodes)) for x in sub)]
            want2 = canon(root)
            lines.append("(def changed (vp/graph copy))")
        else:
            lines.append("(def changed #nil)")
        lines.append("(list before after copied changed (vp/graph root) (if (< (:length image) 60000) image (:length image)))")
        return {"text": "(do %s)" % "\n".join(lines), "want": want, "want2": want2, "kinds": sorted({n.kind for n in nodes}),
                "nodes": len(want[1]), "shared": repr(want).count("node") > len(want[1])}

    def execute(self, cases):
        first = super().execute(cases)
        second = [i for i, o in enumerate(first) if o[0].kind == "ok" and isinstance(o[0].value, list) and isinstance(o[0].value[-1], Buf)]
        outs = run_texts(["(vp/graph (image/deserialize #m%s))" % o[0].value[-1].hex().upper() for o in (first[i] for i in second)],
                         self.variant, self.env, self.per_case, setup=self.setup)
        for i, o in zip(second, outs):
            first[i] = first[i] + [o]
        return first

    def judge(self, case, outs):
        m = health(outs)
        if m:
            return m
        o = outs[0]
        if o.kind != "ok":
            return "got %r" % o
        before, after, copied, changed, orig = o.value[:5]
        for name, w, g in [("the original before", case["want"], before), ("the original after serialising", case["want"], after),
                           ("the loaded copy", case["want"], copied), ("the changed copy", case["want2"], changed),
                           ("the original after changing the copy", case["want"], orig)]:
            if w is not None and not graphs_agree(w, g):
                return "%s is %r, expected %r" % (name, g, w)
        if len(outs) > 1 and (outs[1].kind != "ok" or not graphs_agree(case["want"], outs[1].value)):
            return "loaded by another process: %r, expected %r" % (outs[1], case["want"])

    def nontrivial(self, case, outs):
        return case["nodes"] >= 5 and len(case["kinds"]) >= 3 and case["shared"]

    def tags(self, case, outs):
        return ["holds:" + k for k in case["kinds"]] + (["other-process"] if len(outs) > 1 else [])


def rename(text, n):
    return re.sub(r"(?<![\w:\"])n(\d+)(?=[ )])", r"m\1", text)


# The harness's output buffer is part of every image of a function
SMALL = "(set! vp/size 64) (set! vp/buf (buffer/allocate 64)) "


class Code(Prop):
    """Generated programs run from their image; their own oracles decide."""
    id = "P28.code"
    quick_cases = 1200
    batch = 20
    per_case = 15.0
    rule = "a case counts when the program counts as non-trivial for the property it comes from"
    sources = [("checks.programs", "P19.programs", 3), ("checks.programs", "P20.exceptions", 2)]

    def src(self, i):
        mod, pid, _ = self.sources[i]
        return next(p for p in load(mod) if p.id == pid)

    def gen(self, c):
        i = c.weighted([(w, i) for i, (_, _, w) in enumerate(self.sources)])
        case = self.src(i).gen(c)
        if case is None:
            return None
        return {"src": i, "case": case, "mode": c.weighted([(3, "fn"), (1, "twice"), (2, "other")])}

    def texts(self, case):
        return ["%s\0%s" % (case["mode"], t) for t in self.src(case["src"]).texts(case["case"])]

    def execute(self, cases):
        spans, flat = [], []
        for x in cases:
            t = self.src(x["src"]).texts(x["case"])
            spans.append((x, len(flat), len(flat) + len(t)))
            for s in t:
                f = "(fn () %s\n)" % s
                if x["mode"] == "fn":
                    flat.append(SMALL + "((image/deserialize (image/serialize %s)))" % f)
                elif x["mode"] == "twice":
                    flat.append(SMALL + "((image/deserialize (image/serialize (image/deserialize (image/serialize %s)))))" % f)
                else:
                    flat.append(SMALL + "(image/serialize %s)" % f)
        setup = self.src(0).setup
        outs = run_texts(flat, self.variant, self.env, self.per_case, setup=setup)
        again = [i for x, a, b in spans if x["mode"] == "other" for i in range(a, b) if outs[i].kind == "ok" and isinstance(outs[i].value, Buf)]
        for i, o in zip(again, run_texts(["((image/deserialize #m%s))" % outs[i].value.hex().upper() for i in again], self.variant, self.env, self.per_case, setup=setup)):
            outs[i] = o
        return [outs[a:b] for _, a, b in spans]

    def judge(self, case, outs):
        return self.src(case["src"]).judge(case["case"], outs)

    def nontrivial(self, case, outs):
        return self.src(case["src"]).nontrivial(case["case"], outs)

    def tags(self, case, outs):
        return ["mode:" + case["mode"], "source:" + self.sources[case["src"]][1]]

    def show(self, case):
        return "; run from an image (%s)\n%s" % (case["mode"], self.src(case["src"]).show(case["case"]))


class State(Prop):
    """Closures over shared, changing variables: an image holds the state of that moment, both go on independently."""
    id = "P28.state"
    quick_cases = 800
    batch = 25
    per_case = 15.0
    rule = "a case counts when the state is changed before and after the image is taken, in both copies"
    setup = """
(defn vp/counter (start)
      (def n start)
      (def log #nil)
      (array/new (fn (d) (set! n (+ n d)) n)
                 (fn (d) (set! log (cons d log)) (list n log))
                 (fn (d) (let ((k (* d n))) (set! n k) (fn () (set! n (+ n k)) n)))
                 (fn (d) (set! n d) (set! log #nil) (vp/counter-depth d))))
(defn vp/counter-depth (d) (if (> d 3) 3 d))
"""

    def gen(self, c):
        class M:
            pass
        lines, log = [], []
        copies = {"o": {"n": c.int(0, 9), "log": []}}
        lines.append("(def o (vp/counter %d))" % copies["o"]["n"])
        touched = {"o": [0, 0]}
        cnt = 0
        for _ in range(c.int(3, 25)):
            name = c.pick(sorted(copies))
            st = copies[name]
            op = c.weighted([(4, "add"), (3, "log"), (2, "scale"), (1, "reset"), (2, "copy")])
            d = c.int(-3, 9)
            if op == "copy":
                if len(copies) >= 4:
                    continue
                cnt += 1
                new = "c%d" % cnt
                copies[new] = {"n": st["n"], "log": list(st["log"])}
                touched[new] = [touched[name][0], 0]
                lines.append("(def %s (image/deserialize (image/serialize %s)))" % (new, name))
                continue
            touched[name][1 if len(copies) > 1 else 0] += 1
            if op == "add":
                st["n"] += d
                log.append(st["n"])
                lines.append("(set! out (cons ((ref %s 0) %d) out))" % (name, d))
            elif op == "log":
                st["log"] = [d] + st["log"]
                log.append([st["n"], list(st["log"])])
                lines.append("(set! out (cons ((ref %s 1) %d) out))" % (name, d))
            elif op == "scale":
                k = gens.wrap(d * st["n"])
                if abs(k) > 10**15:
                    continue
                st["n"] = k
                calls = c.int(1, 3)
                for _ in range(calls):
                    st["n"] += k
                    log.append(st["n"])
                lines.append("(let ((f ((ref %s 2) %d))) %s)" % (name, d, " ".join("(set! out (cons (f) out))" for _ in range(calls))))
            else:
                st["n"], st["log"] = d, []
                log.append(min(3, d))
                lines.append("(set! out (cons ((ref %s 3) %d) out))" % (name, d))
        if not log:
            return None
        return {"text": "(do (def out #nil)\n%s\n(nreverse out))" % "\n".join(lines), "want": log, "touched": touched, "copies": len(copies)}

    def judge(self, case, outs):
        m = health(outs)
        if m:
            return m
        if outs[0].kind != "ok" or not agrees(case["want"], outs[0].value):
            return "got %r, expected %r" % (outs[0], case["want"])

    def nontrivial(self, case, outs):
        return case["copies"] >= 2 and sum(1 for a, b in case["touched"].values() if b) >= 2 and case["touched"]["o"][0] > 0

    def tags(self, case, outs):
        return ["copies:%d" % case["copies"]]


class Sizes(Prop):
    """Values around the limits of the format: either equal after loading, or refused."""
    id = "P28.sizes"
    quick_cases = 120
    batch = 2
    per_case = 60.0
    rule = "a case counts when the value has more than 10000 parts or bytes"
    setup = """
(defn vp/outcome (v check)
      (def img (try (fn (e) (list :refused (car e))) (image/serialize v)))
      (if (= :buffer (:type-name img)) (check (image/deserialize img)) img))
"""

    def gen(self, c):
        kind = c.pick(["list", "tree", "array", "buffer", "buffers", "nested", "nestedtree", "nestedfn", "string", "closures"])
        big = lambda *xs: c.pick(xs) + c.int(-2, 2) if c.bool() else c.int(1, max(xs))
        want = True
        if kind == "list":
            n = big(20000, 65536) // (1 if c.bool(1, 4) else 4)
            v, chk = "(let ((l #nil)) (dotimes (i %d) (set! l (cons i l))) l)" % n, "(let ((ok #t) (k %d)) (while l (set! k (dec k)) (set! ok (and ok (= k (car l)))) (set! l (cdr l))) (and ok (= k 0)))" % n
        elif kind == "tree":
            n = c.pick([254, 1022, 4094, 8190, 11000]) + c.int(0, 4) if c.bool(2, 3) else c.int(1, 12000)   # there can be 16384 symbols
            v = "(let ((t {})) (dotimes (i %d) (set! t (:symbol (cat \"k\" i)) i)) t)" % n
            chk = "(let ((ok (= (:length l) %d))) (dotimes (i %d) (set! ok (and ok (= i (ref l (:symbol (cat \"k\" i))))))) ok)" % (n, n)
        elif kind == "array":
            n = big(65535, 70000, 100000)
            v, chk = "(let ((a (:alloc Array %d))) (dotimes (i %d) (set! a i i)) a)" % (n, n), "(let ((ok (= (:length l) %d))) (dotimes (i %d) (set! ok (and ok (= i (ref l i))))) ok)" % (n, n)
        elif kind == "buffer":
            n = big(65536, 1 << 20, 1 << 24)
            v = "(let ((b (buffer/allocate %d))) (dotimes (i 100) (set! b (rem (* i 7919) %d) (bit-and i 255))) (list b :end))" % (n, n)
            chk = "(let ((b (car l))) (and (= :end (cadr l)) (= (:length b) %d) (= 99 (ref b (rem (* 99 7919) %d)))))" % (n, n)
            want = None
        elif kind == "string":
            n = big(255, 256, 65535, 65536, 200000)
            v = "(let ((b (buffer/allocate %d))) (dotimes (i %d) (set! b i (+ 97 (rem i 23)))) (list (buffer->string b) (buffer->string b)))" % (n, n)
            chk = "(let ((b (cadr l)) (ok #t)) (dotimes (i %d) (set! ok (and ok (= (ref b i) (+ 97 (rem i 23)))))) (and ok (= (:length (car l)) (:length b) %d)))" % (n, n)
        elif kind == "buffers":
            m = c.int(2, 5)
            n = c.pick([(1 << 24) // m, 4000000, 1 << 20]) + c.int(-20, 20)
            v = "(let ((l #nil)) (dotimes (i %d) (set! l (cons i (cons (set! (buffer/allocate %d) %d i) l)))) l)" % (m, n, n - 1)
            chk = "(let ((ok #t) (k %d)) (while l (set! k (dec k)) (set! ok (and ok (= k (car l)) (= (:length (cadr l)) %d) (= k (ref (cadr l) %d)))) (set! l (cddr l))) (and ok (= k 0)))" % (m, n, n - 1)
            want = None
        else:
            n = big(4000, 10000, 15000)
            make = {"nested": "(cons l #nil)", "nestedtree": "(tree/new :a l)", "nestedfn": "((fn (l) (fn () l)) l)", "closures": "((fn (l) (fn () l)) l)"}[kind]
            get = {"nested": "(car l)", "nestedtree": "(ref l :a)", "nestedfn": "(l)", "closures": "(l)"}[kind]
            if kind in ("nestedfn", "closures"):
                n = n // c.pick([4, 1])
            v = "(let ((l 42)) (dotimes (i %d) (set! l %s)) l)" % (n, make)
            chk = "(do (dotimes (i %d) (set! l %s)) (= l 42))" % (n, get)
            want = None if n > 2000 else True
        return {"text": "(vp/outcome %s (fn (l) %s))" % (v, chk), "n": n, "kind": kind, "want": want}

    def judge(self, case, outs):
        m = health(outs)
        if m:
            return m
        o = outs[0]
        if o.kind == "ok" and o.value is True:
            return None
        if case["want"] is None and o.kind == "ok" and o.value == [Kw(b"refused"), Kw(b"type-error")]:
            return None
        return "%s of %d: got %r" % (case["kind"], case["n"], o)

    def nontrivial(self, case, outs):
        return case["n"] > 10000

    def tags(self, case, outs):
        return ["kind:" + case["kind"], "loaded" if outs[0].value is True else "refused"]


class Boot(Prop):
    """A function stored in an image is what the interpreter runs when started from that image."""
    id = "P28.boot"
    quick_cases = 120
    batch = 4
    per_case = 20.0
    rule = "a case counts when the program counts as non-trivial for P19 and arguments are passed"
    src = Code.src
    sources = Code.sources

    def gen(self, c):
        i = c.weighted([(w, i) for i, (_, _, w) in enumerate(self.sources)])
        case = self.src(i).gen(c)
        if case is None or len(self.src(i).texts(case)) != 1:
            return None
        args = c.list(lambda: bytes(33 + c.draw(93) for _ in range(c.int(1, 6))), 0, 5)
        return {"src": i, "case": case, "args": [a for a in args if a != b"--base-image"]}

    def texts(self, case):
        return ["%r\0%s" % (case["args"], self.src(case["src"]).texts(case["case"])[0])]

    def execute(self, cases):
        out = []
        exe = build.build(self.variant)
        with open(PRELUDE) as fh:
            prelude = fh.read()
        for x in cases:
            body = self.src(x["src"]).texts(x["case"])[0]
            with Sandbox() as d:
                with open(d + "/main.nuj", "w", encoding="latin1") as fh:
                    fh.write(prelude + self.src(x["src"]).setup + """
(defn vp/boot args
      (def kind #\\R)
      (vp/mark #\\S 1) (vp/ser args 0) (vp/flush)
      (def res (try (fn (e) (set! kind #\\X) (vp/exc e)) ((fn () %s))))
      (vp/mark kind 0) (vp/ser res 0) (vp/flush))
(file/write (image/serialize vp/boot) "booted.img")
(exit 0)
""".replace("\\\\", "\\") % body)
                rc, o, err = spawn(exe, "./main.nuj", cwd=d, timeout=60)
                if rc == 0:
                    rc, o, err = spawn(exe, None, args=["--base-image", "booted.img"] + [a.decode() for a in x["args"]], cwd=d, timeout=60)
            got, _ = parse_markers(o)
            if rc != 0 or 0 not in got or 1 not in got:
                out.append([Outcome("timeout" if rc == "timeout" else "crash", value=rc, detail="rc=%s %s %s" % (rc, o[-300:], err[-2000:].decode("latin1")))])
                continue
            k = "R" if "R" in got[0] else "X"
            out.append([Outcome("ok" if k == "R" else "exc", decode(got[0][k]), got[0][k]), Outcome("ok", decode(got[1]["S"]))])
        return out

    def judge(self, case, outs):
        m = health(outs)
        if m:
            return m
        want = case["args"]
        if [bytes(a) for a in outs[1].value[1:]] != want:
            return "was started with %r, expected %r" % (outs[1].value, want)
        return self.src(case["src"]).judge(case["case"], outs[:1])

    def nontrivial(self, case, outs):
        return bool(case["args"]) and self.src(case["src"]).nontrivial(case["case"], outs[:1])


PROPS = [Graphs(), Code(), State(), Sizes(), Boot()]
