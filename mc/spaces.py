"""Enumerated spaces of encodings and values shared by the properties."""
from .ref import isa

HW16 = [h for h in range(0x10000) if not isa.is32(h)]
H1_32 = list(range(0xe800, 0x10000))


def _low12():
    s = {0, 0xfff, 0xd04, 0xb04, 0xf08, 0x0f0, 0xf00, 0x00f}
    for i in range(12):
        s.add(1 << i)
        s.add(0xfff ^ 1 << i)
        for j in range(i):
            s.add(1 << i | 1 << j)
    for n in range(16):
        s |= {0xf40 | n, 0xf50 | n, 0xf60 | n, 0xf80 | n, 0xd00 | n, 0xb00 | n, 0xe00 | n, n << 8 | n, n << 8 | 0x80,
              0x080 | n, 0x0c0 | n}
    for n in range(24):
        s |= {0x800 | n, n, 0x400 | n}
    return sorted(s)


LOW12 = _low12()
# second halfwords that tell every pair of supported patterns apart
H2_SET = sorted({n << 12 | l for n in range(16) for l in LOW12})


def h1_interesting():
    """First halfwords that begin some supported 32-bit encoding other than bl (measured on the model)."""
    out = []
    for h1 in H1_32:
        for h2 in H2_SET:
            if isa.decode32(h1, h2).mn not in (None, 'bl'):
                out.append(h1)
                break
    return out


def edge_values(rich=True):
    """32-bit words around every boundary the operations have."""
    s = {0, 1, 2, 3, 0xffffffff, 0xfffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0x55555555, 0xaaaaaaaa,
         0x12345678, 0xfedcba98, 0x00ff00ff, 0xff00ff00, 0x0000ffff, 0xffff0000, 0x80808080, 0x7f7f7f7f,
         0x01020304, 0xcafebabe}
    if rich:
        for k in range(32):
            s |= {1 << k, (1 << k) - 1, (1 << k) + 1, 0xffffffff ^ 1 << k, (-(1 << k)) & 0xffffffff}
    return sorted(s)


EDGE = edge_values()
# and every run of ones, alone and inverted
WIDE_EDGE = sorted(set(EDGE) | {((1 << n) - 1) << k & 0xffffffff ^ inv for n in range(1, 32) for k in range(33 - n)
                                for inv in (0, 0xffffffff)})
EDGE_SMALL = sorted({0, 1, 2, 0xffffffff, 0xfffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0x7ffffffe, 0x55555555,
                     0xaaaaaaaa, 0x12345678, 0xfedcba98, 0x0000ffff, 0xffff0000, 0x00008000, 0x0000ff80, 0x00800000,
                     0x1f, 0x20, 0x21, 0xff, 0x100})


def chunks(seq, n):
    """n contiguous pieces of seq (fewer when it is short)."""
    seq = list(seq)
    n = max(1, min(n, len(seq)))
    k, m = divmod(len(seq), n)
    out = []
    i = 0
    for j in range(n):
        e = i + k + (1 if j < m else 0)
        out.append(seq[i:e])
        i = e
    return out


def rotate_chunks(seq, n):
    """n interleaved pieces of seq, for even load."""
    seq = list(seq)
    return [c for c in (seq[i::n] for i in range(n)) if c]
