"""Network connections: raw handles, ports on them, and the HTTP and Gopher clients."""
import os, re, socket, threading
from vp import core, gens
from vp.session import Raises, Session, SessionProp, isexc
from vp.values import Buf, Kw, Tree, expr

WAIT = 20           # seconds a server waits for its client


class Server(threading.Thread):
    """Plays one side of a conversation, again for every connection, and records what it is sent."""

    def __init__(self, addr, script):
        super().__init__(daemon=True)
        self.script, self.talks, self.stop = script, [], False
        s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        s.bind(addr)
        self.addr = s.getsockname()
        if script is not None:
            s.listen(8)
            s.settimeout(0.2)
        self.sock, self.own, self.settled = s, None, threading.Event()

    def settle(self, patience):
        """Wait until every connection made so far is accepted, and the last one is over."""
        if self.script is None:
            return
        with socket.socket() as s:
            s.bind(("127.0.0.1", 0))
            self.own = s.getsockname()
            s.connect(self.addr)
            self.settled.wait(WAIT)
        if self.talks:
            self.last.join(patience)

    def run(self):
        while not self.stop:
            try:
                c, peer = self.sock.accept()
            except socket.timeout:
                continue
            except OSError:
                break
            talk = []
            if peer == self.own:
                c.close()
                self.settled.set()
                break
            t = threading.Thread(target=self.talk, args=(c, talk), daemon=True)
            t.start()
            self.last = t
            self.talks.append(talk)

    def talk(self, c, talk):
        try:
            c.settimeout(WAIT)
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            for op, arg in self.script:
                if op == "recv":
                    got = b""
                    while len(got) < arg:
                        d = c.recv(arg - len(got))
                        if not d:
                            break
                        got += d
                    talk.append(got)
                elif op == "until":
                    got = b""
                    while arg not in got:
                        d = c.recv(65536)
                        if not d:
                            break
                        got += d
                    talk.append(got)
                elif op == "send":
                    for piece in arg:
                        c.sendall(piece)
                elif op == "shut":
                    c.shutdown(socket.SHUT_WR)
                elif op == "eof":
                    # whatever else comes until the other side is done
                    got = b""
                    while True:
                        d = c.recv(65536)
                        if not d:
                            break
                        got += d
                    talk.append(got)
        except OSError as ex:
            talk.append("server: %s" % ex)
        finally:
            c.close()

    def close(self):
        self.stop = True
        self.sock.close()


def pieces(c, b):
    """B in the portions the server sends it in."""
    if not b:
        return []
    cuts = sorted({c.draw(len(b)) for _ in range(c.weighted([(2, 0), (2, 1), (1, 4)]))} | {0, len(b)})
    return [b[x:y] for x, y in zip(cuts, cuts[1:]) if x < y]


class NetProp(SessionProp):
    """A case's 'servers' are scripts (None: nobody listens); its text refers to them as @H0@ and @P0@, @H1@ …"""
    batch = 20
    per_case = 8.0
    port = 0

    def execute(self, cases):
        pid = os.getpid()
        servers, texts, n = [], [], 0
        try:
            for case in cases:
                mine, t = [], case["text"]
                for i, script in enumerate(case["servers"]):
                    n += 1
                    # a loopback address of its own, so that well-known ports can be used
                    host = "127.%d.%d.%d" % (64 + pid % 150, 1 + pid // 150 % 250, 1 + n)
                    s = Server((host, self.port if WELLKNOWN else 0), script)
                    mine.append(s)
                    if script is not None:
                        s.start()
                    t = t.replace("@H%d@" % i, host).replace("@P%d@" % i, str(s.addr[1]))
                servers.append(mine)
                texts.append(t)
            outs = core.run_texts(texts, self.variant, self.env, self.per_case, setup=self.setup, mem_mb=self.mem_mb)
            res = []
            for o, mine, case in zip(outs, servers, cases):
                o.talks = []
                for s in mine:
                    s.settle(3 if o.kind == "ok" else 0.1)
                    o.talks.append(s.talks[-1] if s.talks else None)
                    o.hosts = [s.addr[0] for s in mine]
                res.append([o])
            return res
        finally:
            for mine in servers:
                for s in mine:
                    s.close()

    def judge(self, case, outs):
        msg = super().judge(case, outs)
        if msg:
            return msg
        for i, want in enumerate(case["heard"]):
            got = outs[0].talks[i]
            if callable(want):
                m = want(got, outs[0].hosts[i])
                if m:
                    return "server %d: %s" % (i, m)
            elif want is not None and got != want:
                return "server %d heard %.600r, expected %.600r" % (i, got, want)
        return None


class Streams(NetProp):
    id = "P42.streams"
    quick_cases = 1600
    rule = "a case counts when a connection carries bytes both ways, with something read after something was written and the other way round"

    def gen(self, c):
        s = Session()
        conns, heard, scripts, turns = [], [], [], 0
        for i in range(c.weighted([(4, 1), (2, 2), (1, 3)])):
            script = []
            conns.append({"i": i, "script": script, "pending": b"", "done": False, "eof": False, "heard": [], "last": None, "open": True, "in": None, "turns": 0})
            s.do("(def h%d #nil)" % i)
            s.step("(set! h%d (socket/connect %s @P%d@)) (:type-name h%d)" % (i, '"@H%d@"' % i, i, i), Kw(b"file-handle"))
            s.do("(def i%d (:new InputPort h%d)) (def o%d (:new OutputPort h%d))" % (i, i, i, i))
        limit = c.pick([8, 60, 3000, 30000])

        def note(k, d):
            if k["last"] not in (None, d):
                k["turns"] += 1
            k["last"] = d

        def finish(k):
            h = "h%d" % k["i"]
            if k["pending"]:
                # a close with bytes unread would reset the connection
                n = len(k["pending"])
                s.step("(let ((b (buffer/allocate %d))) (list (file/read* %s b %d) b))" % (n, h, n), [0, Buf(b"\0" * n)] if k["eof"] else [n, Buf(k["pending"])])
            s.step("(file/close* %s)" % h, None)
            k["open"] = False

        for _ in range(c.int(2, 40)):
            k = c.pick(conns)
            h = "h%d" % k["i"]
            if not k["open"]:
                if c.bool(1, 3):
                    s.step(c.pick(["(file/read* %s (buffer/allocate 4) 1)", '(file/write* %s "x")', "(file/flush* %s)", "(file/close* %s)"]) % h, Raises())
                continue
            op = c.weighted([(4, "write"), (4, "send"), (5, "read"), (1, "char-write"), (2, "char-read"), (1, "print"), (2, "block-read"), (1, "flush"), (1, "close"), (1, "shut"), (1, "bad")])
            if op in ("write", "char-write", "print"):
                b = gens.bytestr(c, limit)
                if op == "char-write":
                    b = bytes([c.draw(255)])
                    s.do("(:char-write o%d %d)" % (k["i"], b[0]))
                elif op == "print":
                    v = gens.int64(c)
                    b = b"%d" % v
                    s.do("(print %s o%d)" % (expr(v), k["i"]))
                elif c.bool(1, 5):
                    s.do("(:write o%d %s)" % (k["i"], expr(b)))
                else:
                    pre, post = c.weighted([(3, 0), (1, c.draw(5))]), c.weighted([(3, 0), (1, c.draw(5))])
                    whole = b"p" * pre + b + b"q" * post
                    form = c.pick(["%s", "%s", "(:buffer %s)", "(:u8 %s)"])
                    if form == "%s":
                        src = expr(whole)
                    elif form == "(:u8 %s)":
                        src = "(:u8 %s)" % expr(Buf(whole))
                    else:
                        src = expr(Buf(whole))
                    args = " %d" % len(b) if post or pre or c.bool() else ""
                    args += " %d" % pre if args and (pre or c.bool()) else ""
                    s.step("(= %s (file/write* %s %s%s))" % (h, h, src, args), True)
                if not b:
                    continue
                if c.bool(1, 4):
                    s.step("(= %s (file/flush* %s))" % (h, h), True)
                note(k, "w")
                k["script"].append(("recv", len(b)))
                k["heard"].append(b)
            elif op == "send":
                if k["done"]:
                    continue
                b = gens.bytestr(c, limit) or b"."
                k["pending"] += b
                k["script"].append(("send", pieces(c, b)))
            elif op == "shut":
                if not k["done"]:
                    k["script"].append(("shut", None))
                    k["done"] = True
            elif op in ("read", "block-read"):
                have = len(k["pending"])
                if have == 0 and not k["done"]:
                    continue
                n = c.weighted([(3, c.draw(have)), (2, have), (1, 1)])
                if k["done"] and c.bool(1, 3):
                    n = have + c.int(1, 20)
                n = n if k["done"] else min(n, have)
                # the end is only noticed by asking for more than there is
                d = b"" if k["eof"] else k["pending"][:n]
                short = len(d) < n
                if op == "read":
                    off, extra = c.weighted([(3, 0), (1, c.draw(9))]), c.weighted([(3, 0), (1, c.draw(9))])
                    s.step("(let ((b (buffer/allocate %d))) (list (file/read* %s b %d %d) b))" % (off + n + extra, h, n, off),
                           [len(d), Buf(b"\0" * off + d + b"\0" * (n - len(d) + extra))])
                else:
                    if n == 0:
                        continue
                    s.step("(let ((b (buffer/allocate %d))) (list (:block-read i%d b %d) b))" % (n, k["i"], n),
                           [len(d) if d else Kw(b"end-of-file"), Buf(d + b"\0" * (n - len(d)))])
                k["pending"] = k["pending"][len(d):]
                k["eof"] |= short
                if d:
                    note(k, "r")
            elif op == "char-read":
                if not k["pending"] and not k["done"]:
                    continue
                if k["pending"] and not k["eof"]:
                    s.step("(:char-read i%d)" % k["i"], k["pending"][0])
                    k["pending"] = k["pending"][1:]
                    note(k, "r")
                else:
                    k["eof"] = True
                    s.step("(:char-read i%d)" % k["i"], Kw(b"end-of-file"))
            elif op == "flush":
                s.step("(= %s (file/flush* %s))" % (h, h), True)
            elif op == "bad":
                s.step(c.pick(["(file/read* %s (buffer/allocate 4) 5)", "(file/write* %s 5)", '(file/write* %s "abc" 4)', "(file/read* %s (buffer/allocate 4) 1 4)",
                               "(file/seek* %s 0 0)", "(file/tell* %s)"]) % h, Raises())
            else:
                finish(k)
        for k in conns:
            if k["open"]:
                finish(k)
            # nothing else may arrive
            scripts.append(k["script"] + [("eof", None)])
            heard.append(k["heard"] + [b""])
        return s.case(servers=scripts, heard=heard, big=any(k["turns"] >= 2 for k in conns), tags=["connections:%d" % len(conns)])

    def tags(self, case, outs):
        return case["tags"]


class Refused(NetProp):
    id = "P42.refused"
    quick_cases = 160
    rule = "a case counts when it has at least two attempts"

    def gen(self, c):
        s = Session()
        n = c.int(1, 6)
        for _ in range(n):
            k = c.draw(3)
            if k == 0:
                s.step('(socket/connect "@H0@" @P0@)', None)
            elif k == 1:
                s.step('(socket/connect "@H0@" %s)' % c.pick(["-1", "65536", "(+ 65536 @P0@)", '"80"', "#nil", "80.0", "(- 0 65536)"]), Raises())
            elif k == 2:
                s.step("(socket/connect %s @P0@)" % c.pick(["127", "#nil", ":localhost", "(array/new 1)"]), Raises())
            else:
                s.step('(socket/connect "%s" @P1@) (:type-name (socket/connect "@H1@" @P1@))' % c.pick(["@H0@", "127.0.0.1"]), Kw(b"file-handle"))
        return s.case(servers=[None, [("eof", None)]], heard=[None, None], big=n > 1)


def wellknown():
    """Whether a server may listen on the port HTTP uses (the client knows no other)."""
    try:
        with socket.socket() as s:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            s.bind(("127.%d.255.1" % (64 + os.getpid() % 150), 80))
        return True
    except PermissionError:
        return False


WELLKNOWN = wellknown()
TOKEN = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789!#$%&'*+-.^_`|~"


class Http(NetProp):
    id = "P42.http"
    port = 80
    setup = SessionProp.setup + "(import (get :as vp/http) :net/http)\n(import (get :as vp/get) :net)\n(import (download) :net)\n"
    quick_cases = 1200
    rule = "a case counts when the response has at least two headers and a body"

    def gen(self, c):
        s = Session()
        path = bytes(c.pick(b"abcXYZ019/?&=%+-_.~") for _ in range(c.draw(c.pick([3, 30, 2000]))))
        path = c.weighted([(6, b"/" + path), (1, b"")])
        kind = c.weighted([(8, "ok"), (1, "damaged"), (1, "scheme"), (1, "refused")])
        if not WELLKNOWN:
            kind = "scheme"
        if kind == "scheme":
            s.step('(vp/http "%s")' % c.pick(["https://@H0@/", "@H0@/", "ftp://@H0@/", "", "gopher://@H0@/", " http://@H0@/"]), lambda got: got is None or isexc(got))
            return s.case(servers=[[("eof", None)]], heard=[lambda got, host: None if got is None else "was contacted"], big=False, tags=[kind])
        if kind == "refused":
            s.step('(try (fn (e) #nil) (vp/http "http://@H0@%s"))' % path.decode(), None)
            return s.case(servers=[None], heard=[None], big=False, tags=[kind])
        headers, want = [], Tree()
        for _ in range(c.int(0, 8)):
            name = bytes(c.pick(TOKEN) for _ in range(c.int(1, c.pick([3, 12, 60]))))
            v = re.sub(rb"[\r\n]", b":", gens.bytestr(c, c.pick([6, 30, 300])))
            v = re.sub(rb"[^!-\xff]", b" ", v)
            v = v.strip()
            pad, tail = c.pick([b"", b" ", b"  ", b"\t"]), c.pick([b"", b"", b" "])
            headers.append(name + b":" + pad + v + tail)
            want[Kw(name)] = v
        code = c.weighted([(5, 200), (2, c.int(100, 599)), (1, c.pick([299, 300, 301, 404, 500]))])
        msg = c.pick([b"OK", b"Not Found", b"", b"I'm a teapot", b"a  b"])
        version = c.pick([b"HTTP/1.1", b"HTTP/1.0"])
        size = c.pick([0, 5, 200, 5000, 65536, 70000, 140000])
        body = gens.bytestr(c, min(size, 3000))
        if body and size > 3000:
            # sizes around the one of the blocks that are read
            body = (body * (size // len(body) + 1))[:size + c.int(-400, 400)]
        if c.bool(1, 3):
            body = c.pick([b"\r\n\r\n", b"X: y\r\n", b"\0", b":"]) + body
        head = b"\r\n".join([version + b" %d" % code + (b" " + msg if msg or c.bool() else b"")] + headers)
        raw = head + b"\r\n\r\n" + body
        send = pieces(c, raw)
        if kind == "damaged":
            bad = c.pick([b"", b"garbage", b"HTTP/1.1 200 OK", b"HTTP/1.1 200 OK\r\n", b"HTTP/1.1 200 OK\r\nA: b\r\n", b"\r", b"\n\n"])
            s.step('(vp/http "http://@H0@%s")' % path.decode(), None)
            send = pieces(c, bad)
        else:
            form = c.draw(3)
            if form <= 1:
                s.step('(def r (vp/http "http://@H0@%s")) (list (ref r :http-version) (ref r :status-code) (ref r :status-message) (ref r :headers) (ref r :body))' % path.decode(),
                       [version, code, msg, want, Buf(body)])
            elif form == 2:
                s.step('(vp/get "http://@H0@%s")' % path.decode(), None if code > 299 else Buf(body))
            else:
                s.step('(download "http://@H0@%s" "got.bin") (let ((r (and (file/file? "got.bin") (slurp "got.bin")))) (rm "got.bin") r)' % path.decode(),
                       (lambda got: got is None or got is False) if code > 299 else body)

        def heard(got, host):
            if not got or not isinstance(got[0], bytes):
                return "heard nothing: %r" % (got,)
            req, sep, rest = got[0].partition(b"\r\n\r\n")
            if not sep or rest:
                return "the request does not end where its header ends: %.300r" % got[0]
            lines = req.split(b"\r\n")
            if lines[0] != b"GET %s HTTP/1.1" % (path or b"/"):
                return "request line %.300r" % lines[0]
            h = {}
            for l in lines[1:]:
                m = re.fullmatch(rb"([!-9;-~]+): ?(.*)", l)
                if not m or m.group(1).lower() in h:
                    return "header line %.300r" % l
                h[m.group(1).lower()] = m.group(2)
            if h.get(b"host") != host.encode() or h.get(b"connection") != b"close":
                return "headers %r" % h
            return None
        return s.case(servers=[[("until", b"\r\n\r\n"), ("send", send)]], heard=[heard], big=len(headers) > 1 and bool(body), tags=[kind, "body:%d" % size])

    def tags(self, case, outs):
        return case["tags"]


class Gopher(NetProp):
    id = "P42.gopher"
    setup = SessionProp.setup + "(import (get :as vp/gopher) :net/gopher)\n"
    quick_cases = 1200
    rule = "a case counts when the answer is a menu with at least two entries, or a text of more than 100 bytes"

    def gen(self, c):
        s = Session()
        path = bytes(c.pick(b"abcXYZ019/?&=%+-_.~ :\t") for _ in range(c.draw(c.pick([3, 30]))))
        path = c.weighted([(6, b"/" + path), (1, b"")])
        url = '"gopher://@H0@:@P0@%s"' % path.decode("latin1")
        big = False
        if c.bool(1, 12):
            s.step("(vp/gopher %s)" % c.pick(['"http://@H0@:@P0@/"', '"@H0@:@P0@/"', '""']), None)
            return s.case(servers=[[("eof", None)]], heard=[lambda got, host: None if got is None else "was contacted"], big=False)
        if c.bool(1, 12):
            # nobody is listening there
            s.step("(vp/gopher %s%s)" % (url, c.pick(["", " :1", " :0"])), None)
            return s.case(servers=[None], heard=[None], big=False)
        if c.bool(1, 3):
            t = gens.bytestr(c, c.pick([10, 300, 3000]))
            if t and c.bool(1, 3):
                t = (t * (20000 // len(t) + 1))[:8192 * c.int(1, 2) + c.int(-2, 2)]
            s.step("(vp/gopher %s %s)" % (url, c.pick([":0", ":9", ":g", ":h", ":11"])), t)
            raw, big = t, len(t) > 100
        else:
            field = lambda hi: re.sub(rb"[\t\r\n]", b"_", gens.bytestr(c, hi))
            lines, want = [], []
            for _ in range(c.int(0, c.pick([3, 20]))):
                if c.bool(1, 8):
                    lines.append(c.pick([b"", b".", b" x\ty", b".\t"]))
                    continue
                t = bytes([c.pick(b"0123456789ghiITsPpX+:<;d")])
                fs = [field(20) for _ in range(c.weighted([(6, 4), (1, 1), (1, 2), (1, 3), (1, 5)]))]
                if len(fs) > 3:
                    fs[3] = b"%d" % c.draw(65535)
                lines.append(t + b"\t".join(fs))
                want.append((t, (fs + [b""] * 3)[:3], fs[3] if len(fs) > 3 else b"70"))
            raw = b"\r\n".join(lines) + (b"\r\n" if lines and c.bool() else b"")
            if c.bool() and raw.endswith(b"\r\n"):
                raw += b".\r\n"

            def judge(got):
                got = got or []
                if not isinstance(got, list) or len(got) != len(want):
                    return False
                for g, (t, fs, port) in zip(got, want):
                    if not isinstance(g, Tree) or g.get(Kw(b"type")) != Kw(t) or [g.get(Kw(k)) for k in (b"display", b"path", b"host")] != fs:
                        return False
                    p = g.get(Kw(b"port"))
                    if (b"%d" % p if isinstance(p, int) else p) != port:
                        return False
                return True
            s.step("(vp/gopher %s%s)" % (url, c.pick(["", " :1"])), judge)
            big = len(want) > 1
        return s.case(servers=[[("until", b"\r\n"), ("send", pieces(c, raw))]], heard=[[path + b"\r\n"]], big=big)


PROPS = [Streams(), Refused(), Http(), Gopher()]
