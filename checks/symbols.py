"""Symbols (P36): a model of the name table over histories of interning, dropping, generating and collecting."""
from vp import gens
from vp.core import Prop, health
from vp.session import SETUP, Session, SessionProp
from vp.values import Kw, Sym, expr, same

CHURN = """
(defn vp/collect () (verify/gc-every 1) (list 1) (verify/gc-every 0) :done)
(defn vp/churn (tag from n)
      (def i from)
      (def end (+ from n))
      (while (< i end)
             (:symbol (cat tag i))
             (set! i (inc/int i)))
      n)
(defn vp/differ (a b) (not (= a b)))
"""

MAXNAME = 93


def name(c, pool):
    k = c.weighted([(5, 0), (4, 1), (2, 2), (2, 3), (1, 4), (1, 5)])
    if k == 0 and pool:
        return c.pick(pool)
    if k == 1:
        n = b"n%d" % c.draw(40)
    elif k == 2:
        n = gens.bytestr(c, 12)
    elif k == 3 and pool:
        # one byte away from a name in use
        b = bytearray(c.pick(pool))
        op = c.draw(3)
        if op == 0 and b:
            b[c.draw(len(b) - 1)] = c.int(1, 255)
        elif op == 1 and len(b) < MAXNAME:
            b.insert(c.draw(len(b)), c.int(1, 255))
        elif b:
            del b[-1]
        n = bytes(b)
    elif k == 4:
        n = bytes(c.int(1, 255) for _ in range(c.int(0, 5)))
    else:
        # close to the longest name there can be
        ln = c.int(MAXNAME - 5, MAXNAME)
        n = bytes([c.int(97, 99)]) * (ln - 1) + bytes([97 + c.draw(25)])
    n = n.replace(b"\0", b"")[:MAXNAME]
    pool.append(n)
    return n


class G:
    """A generated name: known only to differ from all others."""
    n = 0

    def __init__(self):
        G.n += 1


class Names(SessionProp):
    id = "P36.names"
    variant = "gc"
    setup = SETUP + CHURN
    quick_cases = 600
    batch = 20
    per_case = 20.0
    rule = "a case counts when it compares symbols made in different ways and collects at least once in between"

    def make(self, c, s, slots, pool):
        """(expression, kind, name)"""
        n = name(c, pool)
        kind = c.pick(["symbol", "keyword"])
        e = expr(n)
        how = c.draw(8)
        if how <= 2:
            x = "(:%s %s)" % (kind, e)
        elif how == 3:
            x = "(:%s (:%s %s))" % (kind, c.pick(["symbol", "keyword"]), e)
        elif how == 4:
            i = c.draw(len(n))
            x = "(:%s (cat %s %s))" % (kind, expr(n[:i]), expr(n[i:]))
        elif how == 5 and n and n.isalnum() and n[:1].isalpha() and n != b"nil" and len(n) < 90:
            x = ("'%s" if kind == "symbol" else ":%s") % n.decode("latin1")
        elif how == 6 and n and n.isalnum() and n[:1].isalpha() and n != b"nil" and len(n) < 90:
            x = "(car (read %s))" % expr((b"" if kind == "symbol" else b":") + n)
        elif how == 7:
            x = "(image/deserialize (image/serialize (:%s %s)))" % (kind, e)
        else:
            x = "(:%s (:cut %s 2 %d))" % (kind, expr(b"xy" + n + b"z"), 2 + len(n))
        return x, kind, n

    def gen(self, c):
        s = Session()
        slots, pool = {}, []
        tree, env = {}, {}
        s.do("(def vp/t (tree/new))")
        s.do("(def vp/e (environment*))")
        for i in range(8):
            s.do("(def s%d #nil)" % i)
        collected = compared = False
        for _ in range(c.int(4, 40)):
            op = c.weighted([(8, "make"), (6, "cmp"), (3, "string"), (3, "gensym"), (4, "collect"), (3, "churn"), (2, "drop"), (2, "conv"),
                             (3, "tset"), (3, "tref"), (2, "edef"), (2, "eref"), (1, "copy"), (1, "every"), (1, "order")])
            i = c.draw(7)
            if op == "make":
                x, kind, n = self.make(c, s, slots, pool)
                slots[i] = (kind, n)
                s.step("(set! s%d %s) (list (:type-name s%d) (:string s%d))" % (i, x, i, i), [Kw(kind.encode()), n])
            elif op == "gensym":
                slots[i] = ("symbol", G())
                s.step("(set! s%d (gensym%s)) (:type-name s%d)" % (i, c.pick(["", ' "pre"', ' ""']), i), Kw(b"symbol"))
            elif op == "collect":
                collected = True
                s.do("(vp/collect)")
            elif op == "churn":
                tag = c.pick([b"churn", b"n", b"x"])
                n = c.pick([1, 10, 100, 400])
                s.step("(vp/churn %s %d %d)" % (expr(tag), c.draw(50), n), n)
                if c.bool():
                    collected = True
                    s.do("(vp/collect)")
            elif op == "every":
                s.do("(verify/gc-every %d)" % c.pick([0, 3, -5, 20]))
            if op in ("cmp", "string", "drop", "conv", "tset", "tref", "edef", "eref", "copy", "order") and not slots:
                continue
            if op == "cmp":
                a, b = c.pick(sorted(slots)), c.pick(sorted(slots))
                (ka, na), (kb, nb) = slots[a], slots[b]
                s.step("(list (= s%d s%d) (= (:symbol s%d) (:symbol s%d)) (vp/differ (:string s%d) (:string s%d)))" % (a, b, a, b, a, b),
                       [ka == kb and na == nb, na == nb, na != nb])
                compared = True
            elif op == "string":
                a = c.pick(sorted(slots))
                k, n = slots[a]
                if not isinstance(n, G):
                    s.step("(:string s%d)" % a, n)
            elif op == "order":
                a, b = c.pick(sorted(slots)), c.pick(sorted(slots))
                (ka, na), (kb, nb) = slots[a], slots[b]
                if ka == kb and not isinstance(na, G) and not isinstance(nb, G):
                    s.step("(list (< s%d s%d) (> s%d s%d))" % (a, b, a, b), [na < nb, na > nb])
            elif op == "drop":
                a = c.pick(sorted(slots))
                del slots[a]
                s.do("(set! s%d #nil)" % a)
            elif op == "conv":
                a = c.pick(sorted(slots))
                k, n = slots[a]
                k2 = c.pick(["symbol", "keyword"])
                slots[i] = (k2, n)
                s.step("(set! s%d (:%s %s)) (:type-name s%d)" % (i, k2, "(:string s%d)" % a if c.bool() else "s%d" % a, i), Kw(k2.encode()))
            elif op == "copy":
                a = c.pick(sorted(slots))
                slots[i] = slots[a]
                s.do("(set! s%d s%d)" % (i, a))
            elif op == "tset":
                a = c.pick(sorted(slots))
                v = c.draw(99)
                tree[slots[a][1]] = v
                s.step("(set! vp/t s%d %d) (ref vp/t s%d)" % (a, v, a), v)
            elif op == "tref":
                a = c.pick(sorted(slots))
                s.step("(list (:has? vp/t s%d) (ref vp/t s%d) (:length vp/t))" % (a, a),
                       [slots[a][1] in tree, tree.get(slots[a][1]), len(tree)])
            elif op == "edef":
                a = c.pick(sorted(slots))
                v = c.draw(99)
                env[slots[a][1]] = v
                s.step("(set! vp/e (:symbol s%d) %d) (ref vp/e s%d)" % (a, v, a), v)
            elif op == "eref":
                a = c.pick(sorted(slots))
                n = slots[a][1]
                if n in env:
                    s.step("(list (resolves? (:symbol s%d) vp/e) (ref vp/e s%d))" % (a, a), [True, env[n]])
                elif isinstance(n, G):
                    s.step("(resolves? (:symbol s%d) vp/e)" % a, False)
        s.do("(verify/gc-every 0)")
        return s.case(big=collected and compared)


class NamesAsan(Names):
    """The same under AddressSanitizer."""
    id = "P36.names.asan"
    variant = "asan"
    quick_cases = 50
    batch = 10


class Table(Prop):
    """Histories the size of the symbol table: many names kept at once, many more made and dropped, and then every kept one looked up by name."""
    id = "P36.table"
    variant = "gc"
    setup = CHURN + """
(defn vp/keep (tag from n step)
      (def r (:alloc Array n))
      (def i 0)
      (while (< i n)
             (set! r i (:symbol (cat tag (+ from (* i step)))))
             (set! i (inc/int i)))
      r)
(defn vp/bad (r tag from n step)
      (def i 0)
      (def bad 0)
      (while (< i n)
             (def s (cat tag (+ from (* i step))))
             (when-not (= (ref r i) (:symbol s)) (set! bad (inc/int bad)))
             (when-not (= s (:string (ref r i))) (set! bad (+ bad 1000000)))
             (set! i (inc/int i)))
      bad)
(defn vp/dup (r)
      ; two slots of R that hold one symbol
      (def t (tree/new))
      (def i 0)
      (while (< i (:length r)) (set! t (ref r i) i) (set! i (inc/int i)))
      (- (:length r) (:length t)))
(defn vp/gens (n)
      (def r (:alloc Array n))
      (def i 0)
      (while (< i n) (set! r i (gensym)) (set! i (inc/int i)))
      r)
"""
    quick_cases = 48
    batch = 1
    per_case = 60.0
    rule = "a case counts when more than 20000 names are made in it, more than the table holds"

    def gen(self, c):
        live, made, parts, chk = 0, 0, [], []
        budget = 9000
        for k in range(c.int(2, 7)):
            op = c.weighted([(4, "keep"), (4, "churn"), (2, "drop"), (1, "gens"), (2, "check"), (2, "collect")])
            if op == "keep":
                n = c.pick([50, 500, 1500, 3000])
                if live + n > budget:
                    continue
                live += n
                made += n
                step = c.pick([1, 1, 2, 3, 7])
                tag = c.pick(["k", "kk-", "a-rather-long-name-for-a-symbol-", "p" * 80, "abcdefghijklmnop" * 4]) + "%d-" % (k if c.bool() else 0)
                parts.append('(def r%d (vp/keep "%s" %d %d %d))' % (k, tag, c.draw(9), n, step))
                parts[-1] = parts[-1]
                frm = int(parts[-1].split('"')[2].split()[0])
                chk.append((k, tag, frm, n, step))
            elif op == "churn":
                n = c.pick([1000, 5000, 20000])
                made += n
                parts.append('(vp/churn "%s" %d %d)' % (c.pick(["z-", "k0-", "churn"]), c.draw(5000), n))
            elif op == "drop" and chk:
                k0, tag, frm, n, step = chk.pop(c.draw(len(chk) - 1))
                live -= n
                parts.append("(set! r%d #nil)" % k0)
            elif op == "gens":
                n = c.pick([100, 1000])
                if live + n > budget:
                    continue
                live += n
                made += n
                parts.append("(def r%d (vp/gens %d)) (def vp/out (cons (vp/dup r%d) vp/out))" % (k, n, k))
            elif op == "check" and chk:
                k0, tag, frm, n, step = c.pick(chk)
                parts.append('(def vp/out (cons (vp/bad r%d "%s" %d %d %d) vp/out))' % (k0, tag, frm, n, step))
            elif op == "collect":
                parts.append("(vp/collect)")
        if made < 20000:
            parts.append('(vp/churn "fill" 0 20000)')
            made += 20000
        for k0, tag, frm, n, step in chk:
            parts.append('(def vp/out (cons (vp/bad r%d "%s" %d %d %d) vp/out))' % (k0, tag, frm, n, step))
            parts.append("(def vp/out (cons (vp/dup r%d) vp/out))" % k0)
        return {"text": "(do (def vp/out #nil) %s (list (sum vp/out) vp/out))" % "\n".join(parts), "made": made,
                "live": live}

    def judge(self, case, outs):
        m = health(outs)
        if m:
            return m
        o = outs[0]
        if o.kind != "ok" or not isinstance(o.value, list) or any(x != 0 for x in (o.value[1] or [])):
            return "every kept name must still be the symbol it was, and all differ; got counts of those that are not: %r" % o

    def tags(self, case, outs):
        return ["live:%d" % (case["live"] // 1000 * 1000)]


PROPS = [Names(), NamesAsan(), Table()]
