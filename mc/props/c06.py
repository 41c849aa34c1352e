"""Shift instructions: result, N, Z and carry out for every amount."""
from .. import core, spaces
from ..family import FLAGS, encodings_shards, make_states, run_encodings
from ..machine import Checker
from ..ref import isa

ID = 'C06'
FAM = ('shift',)
BOUNDS = {
    'quick': 'all lsls/lsrs/asrs/rors encodings on 8 machine states; register amounts: all 256 values of the low byte '
             '(with 3 patterns in the ignored upper bytes) x ~170 boundary words x 16 NZCV patterns; immediate amounts: '
             'all 0..32 x ~170 boundary words x 16 NZCV patterns; the same register for value and amount',
    'thorough': 'as quick with ~1000 words (every run of ones) and 7 patterns in the upper bytes of the amount',
}
ASSUMPTIONS = []
MEM = [(0x20000000, bytearray(32))]
REGFORMS = [0x4091, 0x40d1, 0x4111, 0x41d1]      # op r1, r2


def shards(tier):
    out = [(k, c, tier) for k, c in encodings_shards(FAM) if k == 'e16']
    out += [('reg', (h, lo), tier) for h in REGFORMS for lo in range(0, 256, 16)]
    out += [('same', h, tier) for h in (0x4089, 0x40c9, 0x4109, 0x41c9)]
    out += [('imm', (t, lo), tier) for t in range(3) for lo in (0, 8, 16, 24)]
    return out


def run_shard(shard, rec):
    kind, what, tier = shard
    ck = Checker(rec, ID, MEM)
    if kind == 'e16':
        run_encodings(rec, ck, FAM, (kind, what), make_states(ck.m.mem, kinds=('spread', 'high', 'alt', 'edge')))
        return
    fl = FLAGS
    edge = spaces.WIDE_EDGE if tier == 'thorough' else spaces.EDGE
    uppers = (0, 0x100, 0xffffff00) + ((0x80000000, 0x8000, 0x10000, 0x12345600) if tier == 'thorough' else ())
    s = make_states(ck.m.mem, (0x100,), ('spread',))[0]
    if kind == 'reg':
        h, lo = what
        ins, ref = ck.decode(h)
        if ins is None:
            return
        for amount in range(lo, lo + 16):
            rec.tick()
            for hi in uppers:
                s.r[2] = hi | amount
                for a in edge:
                    s.r[1] = a
                    for f in fl:
                        s.xpsr = 0x01000000 | f
                        ck.run(h, None, ins, ref, s)
        rec.outcome('%s by register' % ref.mn)
        rec.sample('%s with r2 = %d..%d' % (isa.text(ref, 0, h), lo, lo + 15))
    elif kind == 'same':
        ins, ref = ck.decode(what)
        if ins is None:
            return
        for a in sorted(set(range(512)) | {x & 0xffffff00 | b for x in edge for b in (0, 1, 31, 32, 33, 64, 255)}):
            rec.tick()
            s.r[1] = a
            for f in fl:
                s.xpsr = 0x01000000 | f
                ck.run(what, None, ins, ref, s)
        rec.outcome('%s by itself' % ref.mn)
    else:
        t, lo = what
        for imm5 in range(lo, lo + 8):
            h = t << 11 | imm5 << 6 | 2 << 3 | 1
            if isa.decode16(h).fam != 'shift':
                continue
            rec.tick()
            ins, ref = ck.decode(h)
            if ins is None:
                continue
            for a in edge:
                s.r[2] = a
                for f in fl:
                    s.xpsr = 0x01000000 | f
                    ck.run(h, None, ins, ref, s)
            rec.outcome('%s by immediate' % ref.mn)
    rec.traces = rec.transitions
    rec.states_n(rec.transitions)
