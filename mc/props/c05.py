"""Addition, subtraction and comparison: result and NZCV for every operand."""
from .. import core, spaces
from ..family import FLAGS, encodings_shards, make_states, run_encodings
from ..machine import Checker
from ..ref import isa

ID = 'C05'
FAM = ('addsub',)
BOUNDS = {
    'quick': 'all add/adc/sub/sbc/rsb/cmp/cmn encodings (16-bit and 32-bit, all registers and immediates) on 12 machine '
             'states; 15 register forms on the grid of ~170 x ~170 boundary words x 16 NZCV and all 16-bit immediate forms on '
             'boundary words x all immediates x carry in; all 4096 modified immediates of the 32-bit forms on operands at '
             'which the result wraps or changes sign; every stack pointer offset likewise, on both stacks',
    'thorough': 'as quick with 32 machine states, and the register forms on the grid of ~1000 x ~1000 words (with every run of ones) x 4 NZCV',
}
ASSUMPTIONS = ['encodings that are architecturally unpredictable are decoded but their effect is not compared',
               'add with PC as a source operand is listed as a known finding and compared against both readings']

MEM = [(0x20000000, bytearray(32))]
# (encoding, destination, first operand, second operand): register forms with the operands in r1, r2, r9, r10, sp
GRID = [0x1888, 0x1a88, 0x414a | 0, 0x418a | 0, 0x4151, 0x4191, 0x4251, 0x428a, 0x42ca, 0x4291, 0x42d1,
        0x44d1, 0x45d1, 0x4549, 0x4491, 0x1849, 0x1a49, 0x446a, 0x4495, 0x44ea]
PCS = (0x100, 0x20000002)


def grid_words():
    return sorted(set(GRID))


def imm_words():
    out = []
    for imm in range(256):
        out += [0x2900 | imm, 0x3100 | imm, 0x3900 | imm]
    for imm in range(8):
        out += [0x1c0a | imm << 6, 0x1e0a | imm << 6, 0x1c09 | imm << 6]
    return out


def shards(tier):
    out = encodings_shards(FAM, 32)
    out += [('grid', (h, c)) for h in grid_words() for c in range(8)]
    out += [('imm', c) for c in spaces.rotate_chunks(imm_words(), 8)]
    out += [('wide', c) for c in spaces.rotate_chunks(range(4096), 16)] + [('sp', c) for c in spaces.rotate_chunks(range(512), 8)]
    return [x + (tier,) for x in out]


def regs_of(ref):
    """(first operand register, second operand register or None)."""
    if ref.k == 'rsb':
        return ref.p[1], None
    src = ref.p[2]
    return ref.p[1], src[1] if src[0] == 'r' else None


def run_shard(shard, rec):
    kind, what, tier = shard
    ck = Checker(rec, ID, MEM, core.load_findings(ID))
    if kind in ('e16', 'e32'):
        states = make_states(ck.m.mem, PCS, ('spread', 'high', 'alt', 'edge'))
        states += make_states(ck.m.mem, (0xfffffffc, 0x7ffffffe), ('high', 'edge'))
        if tier == 'thorough':
            states += make_states(ck.m.mem, (0, 0x7ffffffc, 0xfffffffe, 0x20000ffe, 0x80000000), ('spread', 'alt', 'high', 'edge'))
        run_encodings(rec, ck, FAM, (kind, what), states)
        return
    if kind == 'grid':
        h, half = what
        ins, ref = ck.decode(h)
        if ins is None:
            return
        n, m = regs_of(ref)
        s = make_states(ck.m.mem, (0x100,), ('spread',))[0]
        fl = FLAGS if tier != 'thorough' else [0x40000000, 0xb0000000, 0x90000000, 0x60000000]
        edge = spaces.WIDE_EDGE if tier == 'thorough' else spaces.EDGE
        base = s.xpsr & 0x0fffffff
        for a in edge[half::8]:
            rec.tick()
            for b in (edge if m is not None and m != n else [a]):
                s.set(n, a)
                if m is not None:
                    s.set(m, b)
                for f in fl:
                    s.xpsr = base | f
                    ck.run(h, None, ins, ref, s)
                    rec.traces += 1
        rec.states_n(rec.transitions)
        rec.outcome(ref.mn)
        rec.sample(isa.text(ref, 0x100, h) + ' on the grid')
        return
    if kind == 'wide':
        # 32-bit immediate forms: every modified immediate against operands that make the result wrap
        s = make_states(ck.m.mem, (0x100,), ('spread',))[0]
        base = s.xpsr & 0x0fffffff
        for i in what:
            rec.tick()
            for h1, h2, n in ((0xf1c1, 0x200, 1), (0xf1d9, 0x900, 9), (0xf1b2, 0xf00, 2), (0xf11a, 0xf00, 10)):
                h1, h2 = h1 | (i >> 11) << 10, h2 | (i >> 8 & 7) << 12 | i & 0xff
                ins, ref = ck.decode(h1, h2)
                if ins is None:
                    continue
                src = ref.p[2]
                v = src if ref.k == 'rsb' else src[1]
                for a in {x & 0xffffffff for y in (0, v, -v, 0x80000000 + v, 0x80000000 - v, 0x80000000) for x in (y - 1, y, y + 1)}:
                    s.r[n] = a
                    for f in (0x40000000, 0xb0000000):
                        s.xpsr = base | f
                        ck.run(h1, h2, ins, ref, s)
                        rec.traces += 1
                rec.outcome(ref.mn)
        rec.states_n(rec.transitions)
        return
    if kind == 'sp':
        # the stack pointer with an offset: every offset, wrapping and changing sign, on both stacks
        for i in what:
            rec.tick()
            for h in ((0xb000 | i,) if i < 256 else (0xa800 | i & 255, 0xab00 | i & 255)):
                ins, ref = ck.decode(h)
                if ins is None:
                    continue
                off = 4 * (i & 127) if i < 256 else 4 * (i & 255)
                for stack in (0, 1):
                    s = make_states(ck.m.mem, (0x100,), ('spread',))[0]
                    s.control = 2 * stack
                    for b in (0, 0x80000000, 0x20000000):
                        for a in {x & 0xfffffffc for y in (b, b + off, b - off) for x in (y - 4, y, y + 4)}:
                            s.set(13, a)
                            for f in (0x40000000, 0xb0000000):
                                s.xpsr = 0x01000000 | f
                                ck.run(h, None, ins, ref, s)
                                rec.traces += 1
                rec.outcome(ref.mn)
        rec.states_n(rec.transitions)
        return
    for h in what:
        rec.tick()
        ins, ref = ck.decode(h)
        if ins is None:
            continue
        n, m = regs_of(ref)
        s = make_states(ck.m.mem, (0x100,), ('spread',))[0]
        for a in spaces.EDGE:
            s.r[n] = a
            for f in (0x40000000, 0xb0000000):
                s.xpsr = 0x01000000 | f
                ck.run(h, None, ins, ref, s)
                rec.traces += 1
        rec.outcome(ref.mn)
    rec.states_n(rec.transitions)
