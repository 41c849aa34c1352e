"""Branches: conditions, targets, links."""
from .. import core, spaces
from ..family import FLAGS, encodings_shards, make_states, run_encodings
from ..machine import Checker
from ..ref import isa

ID = 'C09'
FAM = ('branch',)
BOUNDS = {
    'quick': 'all 14 conditions x all 256 offsets x all 16 NZCV x 6 PC values (around both ends of the address space); b '
             'with all 2048 offsets x 8 PC values x 4 NZCV; bl: all combinations of S, J1, J2 with 45 x 49 offset '
             'fields x 6 PC values, and all 2^24 encodings at 1 PC value; bx/blx: every register x ~340 '
             'targets of both bit 0 values x 2 PC values',
    'thorough': 'as quick with all 2^24 bl encodings at 9 PC values',
}
ASSUMPTIONS = ['bx/blx with the PC as the register is unpredictable or unusable and not compared']
MEM = [(0x20000000, bytearray(32))]
PCS = [0, 0x100, 0x102, 0x7ffffffe, 0xfffffffc, 0xfffffffe]


def bits(n):
    s = {0, (1 << n) - 1, 0x155 & (1 << n) - 1, 0x2aa & (1 << n) - 1}
    for i in range(n):
        s |= {1 << i, ((1 << n) - 1) ^ 1 << i, (1 << i) - 1}
    return sorted(s)


def shards(tier):
    out = [('cond', c) for c in range(14)]
    out += [('b', c) for c in spaces.rotate_chunks(range(2048), 4)]
    out += [('bl', (s, j)) for s in (0, 1) for j in range(4)]
    out += [('blall', (s, j, hi)) for s in (0, 1) for j in range(4) for hi in range(0, 1024, 64)]
    out += [('reg', m) for m in range(15)]
    return [x + (tier,) for x in out]


def run_shard(shard, rec):
    kind, what, tier = shard
    ck = Checker(rec, ID, MEM)
    s = make_states(ck.m.mem, (0x100,), ('spread',))[0]

    def go(h1, h2, pcs, flags):
        ins, ref = ck.decode(h1, h2)
        if ins is None:
            return None
        for pc in pcs:
            s.r[15] = pc
            for f in flags:
                s.xpsr = 0x01000000 | f
                ck.run(h1, h2, ins, ref, s)
        return ref

    if kind == 'cond':
        for i in range(256):
            rec.tick()
            ref = go(0xd000 | what << 8 | i, None, PCS, FLAGS)
        rec.outcome('b%s' % isa.CC[what])
        rec.sample('b%s, all offsets and flags' % isa.CC[what])
    elif kind == 'b':
        for i in what:
            rec.tick()
            go(0xe000 | i, None, PCS + [0x7fe, 0x800], (0, 0x40000000, 0xb0000000, 0xf0000000))
        rec.outcome('b')
    elif kind == 'bl':
        st, j = what
        base = 0xd000 | (j >> 1) << 13 | (j & 1) << 11
        for i10 in bits(10):
            rec.tick()
            for i11 in bits(11):
                go(0xf000 | st << 10 | i10, base | i11, PCS, (0x50000000,))
        for i10 in range(1024):
            go(0xf000 | st << 10 | i10, base | 0x2a5, (0x1000,), (0,))
        for i11 in range(2048):
            go(0xf000 | st << 10 | 0x15a, base | i11, (0x1000,), (0,))
        rec.outcome('bl')
    elif kind == 'blall':
        st, j, hi = what
        base = 0xd000 | (j >> 1) << 13 | (j & 1) << 11
        for i10 in range(hi, hi + 64):
            rec.tick()
            for i11 in range(2048):
                go(0xf000 | st << 10 | i10, base | i11, (0x8000,) + (tuple(PCS) + (0x80000002, 0x01000000) if tier == 'thorough' else ()), (0,))
        rec.outcome('bl')
    else:
        for h in (0x4700 | what << 3, 0x4780 | what << 3):
            rec.tick()
            ins, ref = ck.decode(h)
            if ins is None:
                continue
            for pc in (0x100, 0xfffffffe):
                for v in spaces.EDGE:
                    for b in (0, 1):
                        s.r[15] = pc
                        s.set(what, v & ~1 | b)
                        ck.run(h, None, ins, ref, s)
            rec.outcome(ref.mn)
    rec.traces = rec.transitions
    rec.states_n(rec.transitions)
