"""Extension, byte reversal and address generation."""
from .. import core, spaces
from ..family import encodings_shards, make_states, run_encodings
from ..machine import Checker
from ..ref import isa

ID = 'C08'
FAM = ('extadr',)
BOUNDS = {
    'quick': 'all sxt/uxt/rev/adr encodings (16-bit and 32-bit) on 8 machine states; the extensions and reversals on '
             'all 65536 low halfwords x 6 upper halfwords, all 65536 upper halfwords x 1 lower, with all 4 rotations, '
             'and all boundary words; adr with all 256 / 4096 offsets x ~64 PC values of every alignment and around '
             'the ends of the address space',
    'thorough': 'as quick with 40 upper halfwords and 1100 PC values',
}
ASSUMPTIONS = ['encodings that are architecturally unpredictable are decoded but their effect is not compared']
MEM = [(0x20000000, bytearray(32))]
UNARY = [0xb211, 0xb251, 0xb291, 0xb2d1, 0xba11, 0xba51, 0xbad1] + \
    [(h1, 0xf182 | rot << 4) for h1 in (0xfa0f, 0xfa1f, 0xfa4f, 0xfa5f) for rot in range(4)] + \
    [(0xfa92, 0xf182), (0xfa92, 0xf192), (0xfa92, 0xf1b2)]
PCS = [0, 2, 4, 6, 0x100, 0x102, 0xffe, 0x1000, 0x7ffffffc, 0x7ffffffe, 0x80000000, 0x80000002, 0xfffff000, 0xfffffff8,
       0xfffffffa, 0xfffffffc]


def shards(tier):
    out = encodings_shards(FAM, 24)
    out += [('unary', (h, c)) for h in UNARY for c in range(2)]
    out += [('adr16', c) for c in spaces.rotate_chunks(range(256), 2)]
    out += [('adr32', c) for c in spaces.rotate_chunks(range(4096), 8)]
    return [x + (tier,) for x in out]


def run_shard(shard, rec):
    kind, what, tier = shard
    ck = Checker(rec, ID, MEM)
    if kind in ('e16', 'e32'):
        run_encodings(rec, ck, FAM, (kind, what), make_states(ck.m.mem, kinds=('spread', 'high', 'alt', 'edge')))
        return
    s = make_states(ck.m.mem, (0x100,), ('spread',))[0]
    if kind == 'unary':
        h, half = what
        h1, h2 = h if isinstance(h, tuple) else (h, None)
        ins, ref = ck.decode(h1, h2)
        if ins is None:
            return
        m = ref.p[1]
        uppers = (0, 0xffff, 0x8000, 0x7fff, 0x1234, 0x0001)
        if tier == 'thorough':
            uppers = sorted(set(uppers) | {1 << i for i in range(16)} | {0xffff ^ 1 << i for i in range(16)} | {0xa5c3, 0x3c5a, 0x80, 0x7f})
        for u in uppers:
            for v in range(half, 0x10000, 2):
                if not v & 0x1fe:
                    rec.tick()
                s.r[m] = u << 16 | v
                ck.run(h1, h2, ins, ref, s)
        for v in range(half, 0x10000, 2):
            if not v & 0x1fe:
                rec.tick()
            s.r[m] = v << 16 | 0x8fed
            ck.run(h1, h2, ins, ref, s)
        for v in spaces.EDGE:
            s.r[m] = v
            ck.run(h1, h2, ins, ref, s)
        rec.outcome(ref.mn)
        rec.sample(isa.text(ref, 0, h1, h2) + ' on all halfwords')
    else:
        pcs = sorted(set(PCS) | {b + 2 * i & 0xfffffffe for b in (0, 0x1000, 0x80000000, 0xffffffe0)
                                 for i in range(14)})
        if tier == 'thorough':
            pcs = sorted(set(pcs) | {x & 0xfffffffe for x in spaces.WIDE_EDGE} | {x + 2 & 0xfffffffc | 2 for x in spaces.EDGE})
        for i in what:
            rec.tick()
            words = [(0xa100 | i, None)] if kind == 'adr16' else \
                [(h | (i >> 11) << 10, (i >> 8 & 7) << 12 | 0x100 | i & 255) for h in (0xf20f, 0xf2af)]
            for h1, h2 in words:
                ins, ref = ck.decode(h1, h2)
                if ins is None:
                    continue
                for pc in pcs:
                    s.r[15] = pc
                    ck.run(h1, h2, ins, ref, s)
        rec.outcome(kind)
    rec.traces = rec.transitions
    rec.states_n(rec.transitions)
