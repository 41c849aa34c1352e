"""Logical, test, move and multiply instructions."""
from .. import core, spaces
from ..family import FLAGS, encodings_shards, make_states, run_encodings
from ..machine import Checker
from ..ref import isa

ID = 'C07'
FAM = ('logic',)
BOUNDS = {
    'quick': 'all and/eor/orr/bic/tst/mvn/mov/mul encodings (16-bit and 32-bit: all registers, immediates and shifts) '
             'on 8 machine states; register forms on the grid of ~170 x ~170 boundary words x 16 NZCV; '
             'mov.w/movs.w: all 4096 modified immediates x 16 NZCV; mvn(s).w/tst.w: all 4 x 32 shifts x ~170 words x 4 '
             'NZCV; mov to and from every register x ~170 words',
    'thorough': 'as quick with 24 machine states for every encoding and the grid of ~1000 x ~1000 words (every run of ones) x 4 NZCV',
}
ASSUMPTIONS = ['encodings that are architecturally unpredictable are decoded but their effect is not compared',
               'mov from PC is listed as a known finding and compared against both readings']
MEM = [(0x20000000, bytearray(32))]
GRID = [0x4011, 0x4051, 0x4311, 0x4391, 0x4351, 0x4211, 0x43d1, 0x0011,
        (0xfb02, 0xf109), (0xfb01, 0xf102), (0xfb0a, 0xfc0b)]


def operands(ref):
    k, p = ref.k, ref.p
    if k == 'logic':
        return p[2], p[3]
    if k == 'tst':
        return p[0], p[1]
    if k == 'mul':
        return p[1], p[2]
    if k == 'mvn':
        return p[1], p[1]
    return p[1][1], p[1][1]


def shards(tier):
    out = encodings_shards(FAM, 40)
    out += [('grid', (h, c)) for h in GRID for c in range(8)]
    out += [('modimm', c) for c in spaces.rotate_chunks(range(4096), 4)]
    out += [('shifted', (op, t)) for op in ('mvn', 'mvns', 'tst') for t in range(4)]
    out += [('move', c) for c in spaces.rotate_chunks(range(256), 8)]
    return [x + (tier,) for x in out]


def split(h):
    return h if isinstance(h, tuple) else (h, None)


def run_shard(shard, rec):
    kind, what, tier = shard
    ck = Checker(rec, ID, MEM, core.load_findings(ID))
    if kind in ('e16', 'e32'):
        kinds = ('spread', 'high', 'alt', 'edge')
        states = make_states(ck.m.mem, kinds=kinds)
        if tier == 'thorough':
            states += make_states(ck.m.mem, (0, 0x7ffffffe, 0xfffffffc, 0x20000ffe), kinds)
        run_encodings(rec, ck, FAM, (kind, what), states)
        return
    s = make_states(ck.m.mem, (0x100,), ('spread',))[0]
    if kind == 'grid':
        h1, h2 = split(what[0])
        ins, ref = ck.decode(h1, h2)
        if ins is None:
            return
        n, m = operands(ref)
        edge = spaces.WIDE_EDGE if tier == 'thorough' else spaces.EDGE
        for a in edge[what[1]::8]:
            rec.tick()
            for b in (edge if m != n else [a]):
                s.r[n] = a
                s.r[m] = b
                for f in (FLAGS if tier != 'thorough' else (0x70000000, 0x90000000, 0x20000000, 0xd0000000)):
                    s.xpsr = 0x01000000 | f
                    ck.run(h1, h2, ins, ref, s)
        rec.outcome('%s grid' % ref.mn)
        rec.sample(isa.text(ref, 0, h1, h2) + ' on the grid')
    elif kind == 'modimm':
        for i in what:
            rec.tick()
            for st in (0, 1):
                h1 = 0xf04f | (i >> 11) << 10 | st << 4
                h2 = (i >> 8 & 7) << 12 | 0x300 | i & 0xff
                ins, ref = ck.decode(h1, h2)
                if ins is None:
                    continue
                for f in FLAGS:
                    s.xpsr = 0x01000000 | f
                    ck.run(h1, h2, ins, ref, s)
        rec.outcome('modified immediates')
    elif kind == 'shifted':
        op, t = what
        for n5 in range(32):
            rec.tick()
            h2 = (n5 >> 2) << 12 | (n5 & 3) << 6 | t << 4 | 2
            if op == 'tst':
                h1, h2 = 0xea11, h2 | 0xf00
            else:
                h1, h2 = 0xea6f | (op == 'mvns') << 4, h2 | 0x900
            ins, ref = ck.decode(h1, h2)
            if ins is None:
                continue
            for a in spaces.EDGE:
                s.r[2] = a
                for b in ((M for M in (0xffffffff, 0x80000001, 0x7ffffffe)) if op == 'tst' else (0,)):
                    s.r[1] = b
                    for f in (0, 0x20000000, 0xd0000000, 0xf0000000):
                        s.xpsr = 0x01000000 | f
                        ck.run(h1, h2, ins, ref, s)
            rec.outcome('%s %s' % (op, isa.imm_shift(t, n5)[0]))
    else:
        for x in what:
            rec.tick()
            h = 0x4600 | x
            ins, ref = ck.decode(h)
            if ins is None:
                continue
            m = ref.p[1][1]
            for a in spaces.EDGE:
                s2 = s.copy()
                if m == 15:
                    s2.r[15] = a & ~1
                else:
                    s2.set(m, a)
                ck.run(h, None, ins, ref, s2)
            rec.outcome('mov register')
    rec.traces = rec.transitions
    rec.states_n(rec.transitions)
