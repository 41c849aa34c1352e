"""Reference model of bit strings: a width and a value 0 <= value < 2**width."""


class V(object):
    __slots__ = ('w', 'v')

    def __init__(self, w, v):
        self.w = w
        self.v = v & (1 << w) - 1

    def key(self):
        return self.w, self.v


def signed(w, v):
    """Two's complement value (0 for widths below 2, which have no sign bit to speak of)."""
    if w < 2:
        return 0
    return v - (1 << w) if v >> (w - 1) else v


def default_width(i):
    return 64 if i >= 1 << 32 else 32


def of_int(i):
    return V(default_width(i), i)


def of_str(s):
    return V(len(s), int(s, 2) if s else 0)


def bits_lsb(w, v):
    return [v >> i & 1 for i in range(w)]


def from_lsb(bits):
    v = 0
    for i, b in enumerate(bits):
        v |= b << i
    return V(len(bits), v)


def binary(w, v):
    return ''.join('1' if v >> i & 1 else '0' for i in range(w - 1, -1, -1))


def arith(op, a, n):
    """a op n with n an integer; the width stays that of a."""
    if op == '+':
        x = a.v + n
    elif op == '-':
        x = a.v - n
    elif op == '*':
        x = a.v * n
    elif op == '//':
        x = a.v // n
    elif op == '<<':
        x = a.v << n
    elif op == '>>':
        x = a.v >> n
    elif op == '&':
        x = a.v & n
    elif op == '|':
        x = a.v | n
    elif op == '^':
        x = a.v ^ n
    else:
        raise AssertionError(op)
    return V(a.w, x)


def binop(op, a, b):
    """a op b for two bit strings."""
    if op == '%':
        return V(a.w + b.w, a.v << b.w | b.v)
    r = arith(op, a, b.v)
    if op in '|^':
        return V(max(a.w, b.w), {'|': a.v | b.v, '^': a.v ^ b.v}[op])
    return r
