"""Module graphs on disk and in memory against a model of what each import makes available."""
from vp.session import Raises, Session, SessionProp
from vp.values import Kw

SETUP = r"""
(eval-in root-closure '(do (def vp/modlog #nil)
                           (defn vp/note (x) (set! vp/modlog (cons x vp/modlog)) x)))
"""


def lit(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


class Mod:
    def __init__(self, i):
        self.i = i
        self.loaded = False
        self.counter = 0
        self.deps = []


class Modules(SessionProp):
    id = "P22.modules"
    setup = SessionProp.setup + SETUP
    quick_cases = 4000
    rule = "a case counts when at least three modules are loaded, one of them needed by another one, and at least eight imports are made"

    def relpath(self, c, src, dst):
        """A path that leads from a directory to a module, spelled in one of many ways."""
        a, b = src.split("/") if src else [], dst.split("/")
        k = 0
        while k < len(a) and k < len(b) - 1 and a[k] == b[k]:
            k += 1
        parts = [".."] * (len(a) - k) + b[k:]
        noise = c.draw(5)
        if noise == 1:
            parts = ["."] + parts
        elif noise == 2:
            parts = ["zz", ".."] + parts
        elif noise == 3:
            parts = parts[:-1] + [".", parts[-1]]
        elif noise == 4 and parts[0] != "..":
            parts = ["q", "r", "..", ".."] + parts
        elif noise == 5 and len(parts) > 1:
            parts = parts[:-1] + ["", parts[-1]]
        return "/".join(parts)

    def refer(self, c, srcdir, d):
        return lit(self.relpath(c, srcdir, d.file)) if d.kind == "file" else d.name

    def gen(self, c):
        u = "%x" % c.draw(1 << 48)
        top = "case" + u
        mods = [Mod(i) for i in range(c.int(1, 5))]
        for m in mods:
            m.kind = c.weighted([(5, "file"), (2, "named"), (2, "deferred")])
            m.dir = top + c.pick(["", "/sub", "/sub/deep", "/other"])
            m.file = m.dir + "/m%d" % m.i
            m.name = ":vpm%d-%s" % (m.i, u)
            m.secret = c.int(-50, 50)
            m.form = c.draw(2)
            out = ["(vp/note %d)" % m.i]
            for d in mods[:m.i]:
                # modules that are not in a file have no place to be relative to
                if not c.bool(1, 2) or (m.kind != "file" and d.kind == "file"):
                    continue
                out.append("(import (count! :as dc%d pub :as dp%d) %s)" % (d.i, d.i, self.refer(c, m.dir, d)))
                m.deps.append(d)
            out.append("(def secret %d) (def counter 0)" % m.secret)
            out.append("(defn helper (x) (+ x secret))")
            out.append("(export pub (+ secret 0%s))" % "".join(" dp%d" % d.i for d in m.deps))
            out.append("(defn count! vp/no :export (set! counter (+ counter 1)) counter)")
            out.append("(defn peek vp/no :export (list counter secret (helper 1)))")
            out.append("(defn inner vp/no :export-as outer (list secret%s))" % "".join(" (dc%d)" % d.i for d in m.deps)
                       if c.bool() else "(export outer (fn vp/no (list secret%s)))" % "".join(" (dc%d)" % d.i for d in m.deps))
            if m.form == 1:
                out.append("(export nothing #nil)")
            if m.form == 2:
                out.append("(defn peek2 vp/no (list :two (helper 2))) (export second peek2)")
            m.body = " ".join(out)
        self.log = []
        s = Session()
        s.do("(mkdir %s) (mkdir %s) (mkdir %s) (mkdir %s)" % tuple(lit(top + x) for x in ("", "/sub", "/sub/deep", "/other")))
        s.do("(eval-in root-closure '(set! vp/modlog #nil))")
        for m in mods:
            if m.kind == "file":
                s.do("(spit %s %s)" % (lit(m.file + ".nuj"), lit(m.body)))
            elif m.kind == "deferred":
                s.do("(defmodule/defer %s %s)" % (m.name, m.body))
        for m in mods:
            if m.kind == "named":
                s.do("(defmodule %s %s)" % (m.name, m.body))
                self.load(m)
        imports = 0
        for _ in range(c.int(3, 16)):
            m = c.pick(mods)
            ref = self.refer(c, "", m)
            k = c.weighted([(3, 0), (3, 1), (2, 2), (2, 3), (2, 4), (1, 5), (1, 6), (1, 7), (1, 8), (1, 9), (1, 10)])
            if (k == 10 and m.kind == "file") or (k == 6 and m.form == 0):
                k = 0
            imports += 1
            if k != 9:
                self.load(m)
            if k == 0:
                m.counter += 1
                s.step("(import (count! pub) %s) (list (count!) pub)" % ref, [m.counter, self.pub(m)])
            elif k == 1:
                s.step("(import (peek :as p) %s) (p)" % ref, [m.counter, m.secret, m.secret + 1])
            elif k == 2:
                w = [m.secret]
                for d in m.deps:
                    d.counter += 1
                    w.append(d.counter)
                s.step("(import (outer) %s) (outer)" % ref, w)
            elif k == 3:
                bad = c.pick(["secret", "helper", "counter", "inner", "vp/none", "car", "dp0", "exports", "*module*"])
                s.step("(import (%s) %s)" % (bad, ref), Raises("import-error"))
            elif k == 4:
                what = c.pick(["secret", "(helper 1)", "counter", "(peek)", "count!", "dp0", "outer"])
                s.step("(import pub %s) (try (fn (e) (list pub (car e))) %s)" % (ref, what), [self.pub(m), Kw(b"unbound-variable")])
            elif k == 5:
                ex = ["count!", "outer", "peek", "pub"] + (["nothing"] if m.form == 1 else ["second"] if m.form == 2 else [])
                s.step("(sort (map (:keys (ref (module/load %s (current-closure)) :exports)) :string))" % ref, [x.encode() for x in sorted(ex)])
            elif k == 6 and m.form == 2:
                s.step("(import (second :as count!) %s) (count!)" % ref, [Kw(b"two"), m.secret + 2])
            elif k == 6 and m.form == 1:
                s.step("(def nothing 5) (import (nothing) %s) nothing" % ref, None)
            elif k == 7:
                m.counter += 1
                s.step("(use %s) (list (count!) pub (car (peek)))" % ref, [m.counter, self.pub(m), m.counter])
            elif k == 8:
                s.step("((fn (q) (import (pub :as z peek :as y) %s) (list z q (cadr (y)))) 9)" % ref, [self.pub(m), 9, m.secret])
            elif k == 9:
                s.step("(import pub %s)" % lit(top + "/nope/m%d" % m.i), Raises())
            elif k == 10 and m.kind != "file":
                m.counter += 1
                s.step("(require %s) (list (%s/count!) %s/pub)" % (ref, m.name[1:], m.name[1:]), [m.counter, self.pub(m)])
            if c.bool(1, 2):
                s.step("vp/modlog", list(self.log))
        s.step("vp/modlog", list(self.log))
        return s.case(big=imports >= 8 and len(self.log) >= 3 and any(m.deps for m in mods))

    def pub(self, m):
        return m.secret + sum(self.pub(d) for d in m.deps)

    def load(self, m):
        if not m.loaded:
            m.loaded = True
            self.log.insert(0, m.i)
            for d in m.deps:
                self.load(d)


PROPS = [Modules()]
