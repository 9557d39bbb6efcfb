"""Shared generators."""
import struct
from .values import F

I64 = 1 << 64
INT_INTERESTING = [0, 1, -1, 2, -2, 3, 7, 8, 10, -10, 15, 16, 31, 32, 63, 64, 65, 100, 127, 128, -128, -129, 255, 256, 257,
                   32767, 32768, -32768, -32769, 65535, 65536, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32 - 1, 2**32,
                   2**52, 2**53 - 1, 2**53, 2**53 + 1, -2**53 - 1, 10**17, 10**18, 2**62, -2**62, 2**62 + 1,
                   2**63 - 1, 2**63 - 2, -2**63, -2**63 + 1]


def wrap(x):
    x &= I64 - 1
    return x - I64 if x >= I64 // 2 else x


def int64(c):
    k = c.weighted([(4, 0), (3, 1), (2, 2), (2, 3)])
    if k == 0:
        return c.draw(20) * (-1 if c.bool() else 1)
    if k == 1:
        return c.pick(INT_INTERESTING)
    if k == 2:
        bits = c.int(1, 63)
        v = c.draw((1 << bits) - 1)
        return -v if c.bool() else v
    return wrap(c.pick(INT_INTERESTING) + c.int(0, 6) - 3)


def small_int(c, n=30):
    v = c.draw(n)
    return -v if c.bool(1, 4) else v


FLOAT_INTERESTING = [0.0, 1.0, -1.0, 0.5, -0.5, 0.1, 1.5, 2.0, -2.0, 3.0, 10.0, 1e15, 2.0**52, 2.0**53, -2.0**53,
                     2.0**62, 2.0**63, -2.0**63, 2.0**64, 1e300, -1e300, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308,
                     1e-300, -0.0, 4.6, 0.3, 1 / 3.0, 3.141592653589793]


def float64(c):
    k = c.weighted([(3, 0), (3, 1), (2, 2), (2, 3), (1, 4)])
    if k == 0:
        return F(small_int(c, 100))
    if k == 1:
        return F(c.pick(FLOAT_INTERESTING))
    if k == 2:
        return F(small_int(c, 100000) / float(c.pick([2, 4, 8, 10, 100, 1000, 1024, 3, 7])))
    if k == 3:
        return F(float(int64(c)))
    while True:
        bits = c.draw(2**64 - 1)
        v = struct.unpack(">d", struct.pack(">Q", bits))[0]
        if v == v and v not in (float("inf"), float("-inf")):
            return F(v)
        return F(1.0)


def number(c):
    return int64(c) if c.bool() else float64(c)


def bytestr(c, hi=12, nul=False):
    """A byte string, biased to ASCII."""
    n = c.int(0, hi)
    out = []
    for _ in range(n):
        k = c.weighted([(6, 0), (2, 1), (1, 2), (1, 3)])
        if k == 0:
            out.append(97 + c.draw(25))
        elif k == 1:
            out.append(c.pick(b" ,.-_/0123456789ABZ:;#'\"()\\\t\n\r"))
        elif k == 2:
            out.append(c.int(128, 255))
        else:
            out.append(0 if nul and c.bool() else c.int(1, 127))
    return bytes(out)


def word(c, lo=1, hi=8):
    return bytes(97 + c.draw(25) for _ in range(c.int(lo, hi)))
