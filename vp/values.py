"""Python mirror of Nujel values, plus the decoder of the prelude's exact encoding."""
import struct


class Sym(bytes):
    __slots__ = ()

    def __repr__(self):
        return "Sym(%s)" % bytes.__repr__(self)

    def __eq__(self, o):
        return type(o) is type(self) and bytes.__eq__(self, o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((type(self).__name__, bytes(self)))


class Kw(Sym):
    __slots__ = ()

    def __repr__(self):
        return ":%s" % bytes(self).decode("latin1")


class Buf(bytes):
    def __repr__(self):
        return "#m" + self.hex()

    def __eq__(self, o):
        return type(o) is Buf and bytes.__eq__(self, o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(("buf", bytes(self)))


class Pair:
    """Improper list: items followed by a non-nil tail."""
    def __init__(self, items, tail):
        self.items, self.tail = list(items), tail

    def __eq__(self, o):
        return isinstance(o, Pair) and same(self.items, o.items) and same(self.tail, o.tail)

    def __repr__(self):
        return "(%s . %r)" % (" ".join(map(repr, self.items)), self.tail)


class Arr(list):
    def __repr__(self):
        return "##(%s)" % " ".join(map(repr, self))


class Tree(dict):
    def __repr__(self):
        return "{%s}" % " ".join("%r %r" % kv for kv in sorted(self.items(), key=lambda x: repr(x[0])))


class Opaque(str):
    """Values without a comparable content: functions, environments ..."""
    def __repr__(self):
        return "#<%s>" % str(self)


class F(float):
    """A float compared by its bit pattern."""
    def __repr__(self):
        return float.__repr__(self)


def fbits(x):
    return struct.pack(">d", float(x))


def same(a, b):
    """Exact equality: type-aware, bitwise for floats."""
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if a is None or b is None:
        return a is b
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(a, float) and isinstance(b, float) and fbits(a) == fbits(b)
    if isinstance(a, int) or isinstance(b, int):
        return isinstance(a, int) and isinstance(b, int) and a == b
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Tree):
        return a.keys() == b.keys() and all(same(v, b[k]) for k, v in a.items())
    if isinstance(a, Pair):
        return same(a.items, b.items) and same(a.tail, b.tail)
    return a == b


class DecodeError(Exception):
    pass


OPAQUE = {"V": "buffer-view", "L": "lambda", "M": "macro", "N": "native-function", "E": "environment",
          "B": "bytecode-array", "F": "file-handle", "?": "unknown", "!": "too-big"}


def decode(s):
    v, i = _dec(s, 0)
    if i != len(s):
        raise DecodeError("trailing data in %r" % s[:200])
    return v


def _hex(s, i):
    j = s.index(";", i)
    return bytes.fromhex(s[i:j]), j + 1


def _dec(s, i):
    t = s[i]
    i += 1
    if t == "n":
        return None, i
    if t in "tf":
        return t == "t", i
    if t == "i":
        return struct.unpack(">q", bytes.fromhex(s[i:i + 16]))[0], i + 16
    if t == "d":
        return F(struct.unpack(">d", bytes.fromhex(s[i:i + 16]))[0]), i + 16
    if t in "sykb":
        b, i = _hex(s, i)
        return {"s": bytes, "y": Sym, "k": Kw, "b": Buf}[t](b), i
    if t == "(":
        items = []
        while s[i] not in ").":
            v, i = _dec(s, i)
            items.append(v)
        if s[i] == ".":
            tail, i = _dec(s, i + 1)
            if s[i] != ")":
                raise DecodeError("bad tail")
            return Pair(items, tail), i + 1
        return items, i + 1
    if t == "[":
        items = Arr()
        while s[i] != "]":
            v, i = _dec(s, i)
            items.append(v)
        return items, i + 1
    if t == "{":
        d = Tree()
        while s[i] != "}":
            k, i = _dec(s, i)
            v, i = _dec(s, i)
            if k in d:
                raise DecodeError("duplicate key %r" % k)
            d[k] = v
        return d, i + 1
    if t == "T":
        v, i = _dec(s, i)
        return Opaque("type " + bytes(v).decode("latin1")), i
    if t in OPAQUE:
        return Opaque(OPAQUE[t]), i
    raise DecodeError("bad tag %r" % t)


# ---------------------------------------------------------------- to source text

ESC = {7: "\\a", 8: "\\b", 9: "\\t", 10: "\\n", 11: "\\v", 12: "\\f", 13: "\\r", 27: "\\e", 34: '\\"', 92: "\\\\"}


def lit_str(b):
    """A string literal; only meant for bytes the reader takes verbatim (no NUL)."""
    return '"' + "".join(ESC.get(c) or chr(c) for c in b) + '"'


def expr(v):
    """Source text of an expression that builds V (latin-1 text, one char per byte)."""
    if v is None:
        return "#nil"
    if v is True:
        return "#t"
    if v is False:
        return "#f"
    if isinstance(v, float):
        return expr_float(v)
    if isinstance(v, int):
        return expr_int(v)
    if isinstance(v, Kw):
        return ":" + bytes(v).decode("latin1")
    if isinstance(v, Sym):
        return "'" + bytes(v).decode("latin1")
    if isinstance(v, Buf):
        # a literal would be shared and immutable
        if len(v) > 200:
            return "(:clone #m%s)" % bytes(v).hex().upper()
        return "(let ((b (buffer/allocate %d))) %s b)" % (
            len(v), " ".join("(set! b %d %d)" % x for x in enumerate(v)))
    if isinstance(v, bytes):
        if 0 in v:
            return "(buffer->string %s)" % expr(Buf(v))
        return lit_str(v)
    if isinstance(v, Arr):
        return "(let ((a (:alloc Array %d))) %s a)" % (
            len(v), " ".join("(set! a %d %s)" % (i, expr(x)) for i, x in enumerate(v)))
    if isinstance(v, Tree):
        return "(let ((t (tree/new))) %s t)" % " ".join(
            "(set! t :%s %s)" % (bytes(k).decode("latin1"), expr(x)) for k, x in v.items())
    if isinstance(v, Pair):
        r = expr(v.tail)
        for x in reversed(v.items):
            r = "(cons %s %s)" % (expr(x), r)
        return r
    if isinstance(v, list):
        r = "#nil"
        for x in reversed(v):
            r = "(cons %s %s)" % (expr(x), r)
        return r
    raise TypeError(repr(v))


def expr_int(v):
    if abs(v) >= 10**17:
        return "#x%016X" % (v & (2**64 - 1))
    return str(v)


def expr_float(v):
    """Exact, whatever the reader does with decimals: from the bit pattern."""
    if v == int(v) and abs(v) < 2**53 and fbits(v)[0] < 128:
        return "%d.0" % int(v)
    return "(let ((b (buffer/allocate 8))) (set! (:s64 b) 0 %s) (ref (:f64 b) 0))" % expr_int(
        struct.unpack(">q", fbits(v))[0])
