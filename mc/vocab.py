"""A small vocabulary of encodings: for every distinct decoding rule of the
model a few members, plus undefined, unpredictable and truncated inputs."""
from .ref import isa
from . import spaces
from .family import family_h1


def rule(ref):
    """Encodings with the same rule differ only in operands."""
    if ref.st in (isa.UNDEF, isa.UNPRED, isa.RES):
        return (ref.st, ref.size)
    shape = tuple(o[0] if o[0] not in ('m',) else ('m',) + tuple(x[0] for x in o[1]) for o in ref.ops)
    return (ref.mn, ref.size, ref.k, shape, ref.st)


_cache = {}


def vocabulary(per=2):
    """[(h1, h2 or None, ref)], at most `per` members for every rule, low and high operands."""
    if per in _cache:
        return _cache[per]
    groups = {}
    for h in spaces.HW16:
        ref = isa.decode16(h)
        groups.setdefault(rule(ref), []).append((h, None))
    low = [0x0102, 0x0a0b, 0x0d04, 0x0b04, 0x0f08, 0x0f45, 0x0f5f, 0x0f63, 0x0081, 0x0382, 0x0192, 0x01a3, 0x0c9c, 0x0800,
           0x0811, 0x0013, 0x0114, 0x0321, 0x05ff, 0x0000, 0x0fff, 0x0f12, 0x0f31, 0x0030, 0x0203, 0x0301, 0x0500]
    fams = {x.fam for x in (isa.decode16(h) for h in spaces.HW16) if x.fam} | {'loadstore'}
    h1s = family_h1(fams) + [0xf000, 0xf123, 0xf7ff, 0xec00, 0xff00, 0xea10, 0xf3af]
    for h1 in h1s:
        for n in range(16):
            for l in low:
                h2 = n << 12 | l
                ref = isa.decode32(h1, h2)
                groups.setdefault(rule(ref), []).append((h1, h2))
    out = []
    for key in sorted(groups, key=repr):
        g = groups[key]
        n = per if key[0] not in (isa.UNDEF, isa.UNPRED, isa.RES) else per + 2
        idx = sorted({len(g) * (2 * i + 1) // (2 * n) for i in range(n)})
        for i in idx:
            h1, h2 = g[i]
            out.append((h1, h2, isa.decode(h1, h2 or 0)))
    _cache[per] = out
    return out
