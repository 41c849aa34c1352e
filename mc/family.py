"""Exploration of one family of instructions: every encoding of it on a few
machine states, and its operations on dense grids of operand values."""
from . import spaces
from .machine import Checker, enc, impl
from .ref import isa

M32 = 0xffffffff
FLAGS = [f << 28 for f in range(16)]


def family_h1(fams):
    """First halfwords that begin some 32-bit encoding of the families."""
    out = []
    for h1 in spaces.H1_32:
        for h2 in spaces.H2_SET:
            f = isa.decode32(h1, h2)
            if f.fam in fams and f.mn != 'bl':
                out.append(h1)
                break
    return out


def words16(fams):
    return [h for h in spaces.HW16 if isa.decode16(h).fam in fams]


def pattern_bytes(n, salt=0):
    """n bytes in which neighbouring bytes, halfwords and words all differ, signs mixed."""
    return bytearray(((i * 37 + (i >> 8) * 101 + salt * 59 + ((i >> 3) & 1) * 128) & 0xff) for i in range(n))


def make_states(mem, pcs=(0x100, 0x20000002), kinds=('spread', 'high', 'alt')):
    """Machine states with all registers distinct, both stacks, all flag patterns spread over them."""
    out = []
    for j, kind in enumerate(kinds):
        for p, pc in enumerate(pcs):
            s = isa.State(mem)
            for i in range(13):
                if kind == 'spread':
                    v = 0x01020305 * (i + 1) + i * i
                elif kind == 'high':
                    v = 0xffffff80 - i * 0x01111117
                elif kind == 'alt':
                    v = (0x80000000 >> i) | (i << 8) | (i + 3)
                else:
                    v = [0, 1, M32, 0x80000000, 0x7fffffff, 0x20, 0x1f, 0x80, 0x8000, 0x10000, 0xff, 0xfffffffe, 2][i]
                s.r[i] = v & M32
            s.r[14] = (0x08000321 + j * 0x10101) & M32
            s.r[15] = pc
            s.msp, s.psp = 0x20000040 + 16 * j, 0x20000080 + 16 * j
            s.control = (j + p) & 1 and 2
            s.r[13] = s.psp if s.control & 2 else s.msp
            s.xpsr = 0x01000000 | FLAGS[(5 * j + 7 * p + 3) & 15] | (0x0f0000 * (p & 1)) | 0x13 * (j & 1)
            s.primask, s.basepri, s.faultmask = j & 1, 0x40 + j, p & 1
            # every second kind unprivileged or in a handler, where only the special registers differ
            s.handler = bool(j & 1 and not s.control)
            s.control |= j & 1 and s.control >> 1
            out.append(s)
    return out


def encodings_shards(fams, n=48):
    out = [('e16', c) for c in spaces.rotate_chunks(words16(fams), 8)]
    h1s = family_h1(fams)
    out += [('e32', c) for c in spaces.rotate_chunks(h1s, n)]
    return out


def run_encodings(rec, ck, fams, shard, states, pc_mod2=lambda ref: False, fix=None, keep=None):
    """Every encoding of the families in the shard on every state."""
    kind, hs = shard
    n = 0
    for h1 in hs:
        rec.tick()
        for h2 in (range(0x10000) if kind == 'e32' else (None,)):
            ref = isa.decode32(h1, h2) if kind == 'e32' else isa.decode16(h1)
            if ref.fam not in fams or ref.k is None or ref.mn == 'bl':
                continue
            if keep is not None and not keep(ref, h1, h2):
                continue
            if ref.st is not isa.OK:
                rec.outcome('not executed: ' + ref.st)
                continue
            ins, ref = ck.decode(h1, h2)
            if ins is None:
                if len(rec.violations) >= rec.MAX_VIOLATIONS:
                    return
                continue
            n += 1
            if not n & 0xff:
                rec.tick()
            m2 = pc_mod2(ref)
            for s in states:
                if fix is not None:
                    s = fix(ref, s)
                    if s is None:
                        continue
                ck.run(h1, h2, ins, ref, s, m2)
                rec.traces += 1
            rec.outcome(ref.mn)
    rec.states_n(n * len(states))
    rec.count('encodings', n)
    return n
