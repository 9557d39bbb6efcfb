"""The command line (P38) and the interactive prompts (P40), driven from outside as processes."""
import os, re

from vp import build, gens
from vp.core import PRELUDE, Outcome, Prop, Sandbox, _parse, decode, health, snapshot, spawn
from vp.session import normdeep
from vp.values import expr, lit_str, same


class CliProp(Prop):
    batch = 16
    timeout = 30

    def key(self, case):
        return repr((case["argv"], sorted(case["files"].items()), case.get("stdin"), case.get("env")))

    def show(self, case):
        return "argv=%r env=%r stdin=%r\n%s" % (case["argv"], case.get("env"), case.get("stdin"), "\n".join(
            "--- %r\n%s" % (k, v.decode("latin1")[-900:]) for k, v in sorted(case["files"].items())))

    def execute(self, cases):
        exe = build.build(self.variant)
        res = []
        for c in cases:
            with Sandbox() as d:
                w = os.fsencode(os.path.join(d, "w"))
                os.mkdir(w)
                for n, b in sorted(c["files"].items()):
                    os.makedirs(os.path.dirname(os.path.join(w, n)), exist_ok=True)
                    with open(os.path.join(w, n), "wb") as fh:
                        fh.write(b)
                cwd = os.path.join(w, c.get("cwd", b"")).rstrip(b"/")
                os.makedirs(cwd, exist_ok=True)
                argv = [a.replace(b"@ROOT@", w) for a in c["argv"]]
                rc, out, err = spawn(exe, None, argv, env=c.get("env"), cwd=os.fsdecode(cwd), timeout=self.timeout,
                                     stdin=c.get("stdin", b""), variant=self.variant)
                o = Outcome("timeout" if rc == "timeout" else "ok", value=rc, detail="rc=%s\n%s" % (rc, err[-2000:].decode("latin1")), text=out)
                o.err = err
                o.fs = w
                res.append([o])
        return res


class Cli(CliProp):
    id = "P38.cli"
    quick_cases = 500
    rule = "a case counts when arguments or environment variables were handed over or an exit status other than 0 was given"

    def gen(self, c):
        k = c.weighted([(6, "script"), (3, "x"), (1, "missing"), (1, "module")])
        files, env = {}, {}
        with open(PRELUDE, "rb") as fh:
            prelude = fh.read()
        if k in ("script", "missing"):
            args = c.list(lambda: gens.bytestr(c, 12), 0, 6)
            if c.bool(1, 6):
                args.append(c.pick([b"-x", b"--", b"--no-color", b"-m", b"x" * 5000, b"-", b""]))
            for i in range(c.int(0, 4)):
                n = c.pick([b"VAR%d" % i, b"a", b"with space", b"x.y", b"\xc3\xa9", b"N" * 90])
                env[n] = c.pick([gens.bytestr(c, 30), b"", b"a=b=c", b"=", b"v" * 5000])
            d = c.pick([b"", b"sub/", b"a b/c.d/", b"deep/er/"])
            name = c.pick([b"main", b"with-dash", b"x1", b"m.n"])
            files[d + name + b".nuj"] = b""
            # where we are, and how the script is called from there
            k2 = c.draw(3)
            cwd = b""
            if k2 == 0:
                ref = d + name
            elif k2 == 1:
                ref = b"./" + d + name
            elif k2 == 2:
                ref = b"@ROOT@/" + d + name
            else:
                cwd = b"other/place"
                ref = b"../../" + d + name
            ref += b".nuj" if c.bool() or b"." in name else b""
            end = c.weighted([(4, ("return", 0)), (3, ("exit", c.draw(300))), (1, ("exit", -c.draw(300))), (2, ("throw", 1)), (1, ("exit0", 0)),
                              (1, ("toplevel", c.draw(255)))])
            ret = {"return": "#nil", "exit": "(exit %d)" % end[1], "throw": c.pick(["(throw :x)", "(undefined-function 1)", "(exception :a \"b\")"]), "exit0": "(exit)",
                   "toplevel": "#nil"}[end[0]]
            code = end[1] & 255
            names = sorted(env)
            body = ("\n(vp/mark #\\R 0) (vp/ser (list (cwd)) 0) (vp/flush)\n%s"
                    "(defn main (args) :export (vp/mark #\\R 1) (vp/ser (list args %s) 0) (vp/flush) %s)\n" % (
                        "(exit %d)" % end[1] if end[0] == "toplevel" else "",
                        " ".join("(ref System/Environment (:symbol %s))" % expr(n) for n in names), ret))
            if k == "missing":
                del files[d + name + b".nuj"]
                return {"argv": [ref] + args, "files": files, "env": {os.fsdecode(n): v for n, v in env.items()}, "cwd": cwd, "k": k, "code": 1}
            files[d + name + b".nuj"] = prelude + body.encode("latin1")
            opts = c.list(lambda: c.pick([b"--no-color", b"--color", b"--something"]), 0, 2)
            return {"argv": opts + [ref] + args, "files": files, "env": {os.fsdecode(n): v for n, v in env.items()}, "cwd": cwd, "k": k, "code": code,
                    "main": [args] + [env[n] for n in names] if end[0] != "toplevel" else None}
        if k == "module":
            return {"argv": [b"-m", c.pick([b":no-such-module", b"nope"])], "files": {}, "k": k, "code": 1}
        # expressions run one after the other, in one scope
        argv, out, code, vals = [], b"", 0, {}
        colour = True
        for i in range(c.int(1, 5)):
            if c.bool(1, 4):
                colour = c.bool()
                argv.append(b"--color" if colour else b"--no-color")
            argv.append(b"-x")
            op = c.draw(5)
            if op == 5:
                argv.append(b"(do (import (red) :ansi) (print (red \"q\")))")
                out += b"\x1b[1;31mq\x1b[0m" if colour else b"q"
                continue
            if op == 0:
                b = re.sub(rb"[^ -~]", b"_", gens.bytestr(c, 10))
                argv.append(b"(print " + lit_str(b).encode("latin1") + b")")
                out += b
            elif op == 1:
                v = c.draw(999)
                vals[i] = v
                argv.append(b"(def v%d %d)" % (i, v))
            elif op == 2 and vals:
                j = c.pick(sorted(vals))
                argv.append(b"(print (+ v%d 1)) (print \";\")" % j)
                out += b"%d;" % (vals[j] + 1)
            elif op == 3:
                # reported, but the rest is still run
                argv.append(c.pick([b"(throw :a)", b"(undefined-thing)", b"(car", b")"]))
                argv += [b"-x", b"(print \"[\") (print %d) (print \"]\")" % i]
                out += b"[%d]" % i
            else:
                code = c.draw(255)
                argv.append(b"(exit %d)" % code)
                break
        return {"argv": argv, "files": {}, "k": k, "code": code, "out": out}

    def judge(self, case, outs):
        o = outs[0]
        if o.kind != "ok":
            return "%s: %s" % (o.kind, o.detail)
        if o.value != case["code"]:
            return "exit status %s, expected %s\n%s\n%.500r" % (o.value, case["code"], o.detail, o.text[-500:])
        if case["k"] == "script":
            got, text = _parse(b"\n\x02S0000000000000000 \x03\n" + o.text)
            try:
                got = {i: decode(g["R"]) for i, g in got.items() if "R" in g}
            except Exception as ex:
                return "garbled output: %s %.300r" % (ex, o.text)
            cwd = os.path.join(o.fs, case["cwd"]).rstrip(b"/")
            if not same(got.get(0), [cwd]):
                return "ran in %r, expected %r" % (got.get(0), cwd)
            if case["main"] is None:
                if 1 in got:
                    return "main was called"
            elif not same(normdeep(case["main"]), normdeep(got.get(1))):
                return "main received %.600r, expected %.600r" % (got.get(1), case["main"])
        if case["k"] == "x":
            # error reports go between
            rest = o.text
            if any(a in (b"(throw :a)", b"(undefined-thing)", b"(car", b")") for a in case["argv"]):
                pos = 0
                for piece in re.findall(rb"\[\d+\]|\x1b\[[^m]*m|[^\[\x1b]+", case["out"]):
                    j = rest.find(piece, pos)
                    if j < 0:
                        return "printed %.600r, which lacks %r" % (o.text, piece)
                    pos = j + len(piece)
            elif rest != case["out"]:
                return "printed %.600r, expected %.600r" % (o.text, case["out"])
        return None

    def nontrivial(self, case, outs):
        return bool(case["code"] or case.get("main") and len(case["main"]) + len(case["main"][0]) > 1 or len(case["argv"]) > 2)

    def tags(self, case, outs):
        return [case["k"]]


FORMS = "(def NAME INT)"


class Repl(CliProp):
    id = "P40.repl"
    quick_cases = 400
    rule = "a case counts when it has at least three inputs, one of them an error or spread over several lines"

    def gen(self, c):
        tiny = c.bool(1, 3)
        out, lines, vals, special, n = [], [], {}, 0, 0
        # the last three results, as *1 *2 *3 (None: not followed)
        hist = [b"", b"", b""]
        for _ in range(c.int(1, 15)):
            op = c.weighted([(4, "int"), (3, "def"), (3, "ref"), (2, "string"), (2, "error"), (2, "multi"), (1, "defn"), (1, "two"), (1, "read-error"),
                             (1, "block"), (1, "empty"), (1, "set"), (2, "history")])
            src, want = None, None
            if op == "int":
                a, b = c.draw(1000), c.draw(1000)
                src, want = "(+ %d %d)" % (a, b), b"%d" % (a + b)
            elif op == "def":
                a = c.draw(1000)
                v = "v%d" % c.draw(5)
                vals[v] = a
                src, want = "(def %s %d)" % (v, a), b"%d" % a
            elif op == "set" and vals:
                v = c.pick(sorted(vals))
                vals[v] += 1
                src, want = "(set! %s (+ %s 1))" % (v, v), b"%d" % vals[v]
            elif op == "ref" and vals:
                v = c.pick(sorted(vals))
                src, want = v, b"%d" % vals[v]
            elif op == "string":
                w = gens.word(c)
                src, want = '(cat "%s" \'x)' % w.decode(), w + b"x"
            elif op == "error":
                src, want = c.pick(["(throw :oops)", "(car 12 13) (undefined-function 1)", "undefined-variable", "(vec 1) (throw (list :a \"b\"))"]), "error"
                special += 1
            elif op == "multi":
                a = c.draw(100)
                parts = ["(+", "1 ; comment (", "", "(* 2", "%d" % a, "))"]
                src, want = "\n".join(parts), b"%d" % (1 + 2 * a)
                special += 1
            elif op == "defn":
                src, want = "(defn f (x)\n (* x\n x)) (f %d)" % 7, b"49"
                special += 1
            elif op == "two":
                src, want = "1 (+ 1 1) 3", b"3"
            elif op == "read-error":
                src, want = c.pick([")", '"abc', "(1 . )", "1a2z"]), "error"
                special += 1
            elif op == "block":
                a = c.draw(100)
                src, want = "[cmd]\n(def blk %d)\n(def blk2\n(+ blk 1)) ; c\nblk2\n[/cmd]" % a, b"%d" % (a + 1)
                special += 1
            elif op == "history" and not tiny:
                k = c.draw(3)
                src, want = ("*%d" % (k + 1), hist[k]) if k < 3 else ('(cat *3 "<" *2 "<" *1 ">")', hist[2] + b"<" + hist[1] + b"<" + hist[0] + b">")
            elif op == "empty":
                src, want = "", b""
            if src is None:
                continue
            if src and want != "error":
                hist = [want] + hist[:2]
            n += 1
            lines.append(src)
            out.append((src, want))
        text = "\n".join(lines)
        tail = c.weighted([(5, b"\n"), (1, b""), (1, b"\n(exit 7)\n"), (1, b"\n(+ 1\n")]) if lines else b""
        if lines and not lines[-1]:
            tail = b"\n"
        return {"argv": [b"-r"] if tiny else [b"--no-color"] if c.bool(1, 4) else [], "files": {}, "stdin": text.encode("latin1") + tail, "want": out, "code": 7 if b"exit" in tail else 0,
                "big": n >= 3 and special, "tiny": tiny, "tail": tail}

    def judge(self, case, outs):
        o = outs[0]
        if o.kind != "ok":
            return "%s: %s" % (o.kind, o.detail)
        if o.value != case["code"]:
            return "exit status %s, expected %s\n%s" % (o.value, case["code"], o.text[-800:])
        text = o.text
        # prompts for further lines
        text = text.replace(b"... ", b"")
        parts = re.split(rb"(?:^|(?<=\n)|(?<=> )|(?<=\r))> ", text)
        head, parts = parts[0], parts[1:]
        if not head.endswith(b"REPL is ready for service!\r\n"):
            return "greeted with %r" % head
        if len(parts) < len(case["want"]):
            return "%d prompts for %d inputs:\n%s" % (len(parts), len(case["want"]), text.decode("latin1"))
        for (src, want), got in zip(case["want"], parts):
            if want == "error":
                if not got.strip():
                    return "nothing was reported for %s" % src
            elif got.strip(b"\r\n") != want:
                return "%s printed %r, expected %r\n%s" % (src, got, want, text.decode("latin1"))
        if b"exit" not in case["tail"] and not text.endswith(b"Adios, cowboy...\r\n"):
            return "ended with %r" % text[-200:]
        return None

    def nontrivial(self, case, outs):
        return case["big"]


PROPS = [Cli(), Repl()]
