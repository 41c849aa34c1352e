"""Single loads and stores: address, size, extension, value, and loads into the PC."""
from .. import core, spaces
from ..family import encodings_shards, family_h1, make_states, pattern_bytes, run_encodings
from ..machine import Checker
from ..ref import isa

ID = 'C10'
FAM = ('loadstore',)
BOUNDS = {
    'quick': 'all 16-bit and register-offset ldr/str encodings of every size and sign (all register combinations and '
             'shifts) and literal load encodings on 6 machine states; literal loads with Rt=r1,r9,pc and every 8/12-bit offset in both '
             'directions x 4 PC alignments; data: all 65536 halfwords and all boundary words through every access '
             'kind; addresses: every alignment, both ends of 3 memory regions, unmapped addresses and wrap-around of '
             'base+offset',
    'thorough': 'as quick with 24 machine states and 5 words of every halfword as data',
}
ASSUMPTIONS = ['encodings that are architecturally unpredictable are decoded but their effect is not compared',
               'accesses that run past the end of a region read 0 / are lost for the bytes outside']
R20 = (0x20000000, pattern_bytes(0x480, 1))
SUMS = [(0x40000000, pattern_bytes(0x80, 2)), (0x60000000, pattern_bytes(0xc0, 3)), (0xa0000000, pattern_bytes(0x180, 4))]
CODE = (0x10000, pattern_bytes(0x2400, 5))


def fresh_states(mem, n):
    """Every register is a usable base and, added to any other and shifted, a usable address."""
    out = []
    for j in range(n):
        s = make_states(mem, (0x11000 + 2 * j,), ('spread',))[0]
        for i in range(13):
            s.r[i] = 0x20000000 + ((i * (5, 7, 3)[j % 3] + j) & 0x3f)
        s.r[14] = 0x20000031 + j
        s.control = j & 1 and 2
        s.msp, s.psp = 0x20000000 + 8 * (j & 3), 0x20000010 + 8 * (j & 3)
        s.r[13] = s.psp if s.control else s.msp
        out.append(s)
    return out


def shards(tier):
    out = [(k, c) for k, c in encodings_shards(FAM, 48)]
    out += [('lit16', t) for t in range(0, 8, 2)]
    lits = [0xf85f, 0xf8df, 0xf83f, 0xf8bf, 0xf81f, 0xf89f, 0xf93f, 0xf9bf, 0xf91f, 0xf99f]
    out += [('lit32', h) for h in lits]
    out += [('data', k) for k in range(8)]
    out += [('edge', k) for k in range(8)]
    return [x + (tier,) for x in out]


def words_of(k):
    """16-bit and 32-bit forms of access kind k (str strh strb ldrsb ldr ldrh ldrb ldrsh) with Rt=r1, Rn=r2, Rm=r3."""
    out = [(0x5000 | k << 9 | 3 << 6 | 2 << 3 | 1, None)]
    h1 = {0: 0xf842, 1: 0xf822, 2: 0xf802, 3: 0xf912, 4: 0xf852, 5: 0xf832, 6: 0xf812, 7: 0xf932}[k]
    for sh in range(4):
        out.append((h1, 0x1003 | sh << 4))
    imm = {0: 0x6000, 1: 0x8000, 2: 0x7000, 4: 0x6800, 5: 0x8800, 6: 0x7800}
    if k in imm:
        for i in (0, 1, 31):
            out.append((imm[k] | i << 6 | 2 << 3 | 1, None))
    return out


def run_shard(shard, rec):
    kind, what, tier = shard
    if kind in ('e16', 'e32'):
        ck = Checker(rec, ID, [R20] + SUMS + [(0x10fc0, pattern_bytes(0x480, 6))])
        run_encodings(rec, ck, FAM, (kind, what), fresh_states(ck.m.mem, 24 if tier == 'thorough' else 6))
    elif kind in ('lit16', 'lit32'):
        ck = Checker(rec, ID, [CODE])
        s = make_states(ck.m.mem, (0x11000,), ('high',))[0]
        if kind == 'lit16':
            words = [(0x4800 | t << 8 | i, None) for t in (what, what + 1) for i in range(256)]
        else:
            words = [(what, t << 12 | i) for t in (1, 9, 15) for i in range(4096)]
        for n, (h1, h2) in enumerate(words):
            if not n & 63:
                rec.tick()
            ref = isa.decode(h1, h2 or 0)
            if ref.st is not isa.OK:
                continue
            ins, ref = ck.decode(h1, h2)
            if ins is None:
                continue
            for pc in (0x11000, 0x11002, 0x11004, 0x11006):
                s.r[15] = pc
                ck.run(h1, h2, ins, ref, s)
            rec.outcome(ref.mn + (' to pc' if ref.p[0] == 15 else ' literal'))
    elif kind == 'data':
        ck = Checker(rec, ID, [(0x20000000, pattern_bytes(16))])
        m = ck.m
        s = make_states(m.mem, (0x100,), ('spread',))[0]
        vals = sorted(set(spaces.EDGE) | {v << 16 | 0x5aa5 for v in range(0, 0x10000, 16)} | set(range(0x10000)))
        if tier == 'thorough':
            vals = sorted(set(vals) | {v << s | x for v in range(0x10000) for s, x in ((16, 0x8fed), (16, 0x7f80), (8, 0x80000000 | 0x7f), (0, 0xffff0000))})
        for h1, h2 in words_of(what)[:2]:
            ins, ref = ck.decode(h1, h2)
            if ins is None:
                continue
            s.r[2], s.r[3] = 0x20000000, 4
            for n, v in enumerate(vals):
                if not n & 63:
                    rec.tick()
                if ref.k == 'st':
                    s.r[1] = v
                else:
                    m.regions = [(0x20000000, bytes(bytearray(4) + bytearray((v >> 8 * i & 255) for i in range(4)) +
                                                   b'\xa5\x5a\x99\x66\x11\x22\x33\x44'))]
                    m.reset_memory()
                ck.run(h1, h2, ins, ref, s)
            rec.outcome(ref.mn + ' data')
            rec.sample(isa.text(ref, 0, h1, h2) + ' with all halfwords as data')
    else:
        regs = [(0, pattern_bytes(24, 1)), (0x20000000, pattern_bytes(23, 2)), (0xffffffe8, pattern_bytes(24, 3))]
        ck = Checker(rec, ID, regs)
        s = make_states(ck.m.mem, (0x100,), ('high',))[0]
        addrs = [a for start, d in regs for a in range(start - 6, start + len(d) + 6)]
        for h1, h2 in words_of(what):
            ins, ref = ck.decode(h1, h2)
            if ins is None:
                continue
            rec.tick()
            off = ref.p[2]
            for a in addrs:
                for base in ([None] if off[0] == 'i' else [0, 1, 3, 0x20000000, 0x7fffffff, 0x80000000, 0xfffffffe,
                                                           0xffffffff, 0x12345678]):
                    if base is None:
                        s.r[2] = a - off[1] & 0xffffffff
                    else:
                        s.r[3] = base
                        s.r[2] = a - (base << off[2]) & 0xffffffff
                    ck.run(h1, h2, ins, ref, s)
            rec.outcome(ref.mn + ' addresses')
    rec.traces = rec.transitions
    if kind not in ('e16', 'e32'):
        rec.states_n(rec.transitions)
