"""push, pop, ldm and stm for every register list."""
from .. import core, spaces
from ..family import encodings_shards, family_h1, make_states, pattern_bytes, run_encodings
from ..machine import Checker
from ..ref import isa

ID = 'C11'
FAM = ('multiple',)
BOUNDS = {
    'quick': 'every 16-bit push/pop/ldm/stm and every push.w/pop.w list, each on 4 machine states (both stacks); '
             'every ldm.w/stm.w encoding (2^20) on 2 machine states; bases at the ends of memory regions and of the '
             'address space',
    'thorough': 'as quick on 12 machine states',
}
ASSUMPTIONS = ['bases are word aligned',
               'the word stored for the base register by a write-back stm in which it is not the lowest is unknown',
               'pop/ldm into the PC: bit 0 of the new PC is not compared (stable tests pin it as loaded)',
               'encodings that are architecturally unpredictable are decoded but their effect is not compared']
REGION = (0x20000000, pattern_bytes(0xc0, 7))


def mod2(ref):
    return ref.k in ('pop', 'ldm')


def states(mem, tier='quick'):
    out = make_states(mem, (0x100, 0x20000002), ('spread', 'high'))
    if tier == 'thorough':
        out += make_states(mem, (0, 0xfffffffc), ('spread', 'high', 'alt', 'edge'))
    for j, s in enumerate(out):
        s.msp, s.psp = 0x20000040 + 4 * (j & 3), 0x20000048 + 4 * (j & 3)
        s.r[13] = s.psp if s.control & 2 else s.msp
    return out


def at_base(addr):
    def fix(ref, s):
        if ref.k in ('ldm', 'stm'):
            s = s.copy()
            s.set(ref.p[0], addr)
        return s
    return fix


def wide(ref):
    return ref.mn in ('ldm.w', 'stm.w')


def shards(tier):
    out = [(k, c) for k, c in encodings_shards(FAM, 64)]
    out += [('edge', k) for k in range(6)]
    return [x + (tier,) for x in out]


def run_shard(shard, rec):
    kind, what, tier = shard
    if kind in ('e16', 'e32'):
        ck = Checker(rec, ID, [REGION])
        sts = states(ck.m.mem, tier)
        run_encodings(rec, ck, FAM, (kind, what), sts, mod2, at_base(0x20000040), lambda ref, h1, h2: not wide(ref))
        if kind == 'e32':
            run_encodings(rec, ck, FAM, (kind, what), sts if tier == 'thorough' else [sts[0], sts[3]], mod2,
                          at_base(0x20000048), lambda ref, h1, h2: wide(ref))
        return
    regs = [(0, pattern_bytes(0x48, 1)), (0x20000000, pattern_bytes(0x46, 2)), (0xffffffb0, pattern_bytes(0x50, 3))]
    ck = Checker(rec, ID, regs)
    words = {
        0: [(0xb500 | l, None) for l in (1, 0x80, 0x55, 0xff, 0)] + [(0xb407, None)],
        1: [(0xbd00 | l, None) for l in (1, 0x80, 0x55, 0xff, 0)] + [(0xbc07, None)],
        2: [(0xe92d, l) for l in (0x5fff, 0x4001, 0x1ff0, 0x0003)] + [(0xf84d, 0x9d04), (0xf84d, 0xed04)],
        3: [(0xe8bd, l) for l in (0x9fff, 0x8001, 0x1ff0, 0x4003)] + [(0xf85d, 0x9b04), (0xf85d, 0xfb04)],
        4: [(0xc300 | l, None) for l in (1, 8, 0x18, 0xff, 0x0c, 0xf8)] + [(0xe883, 0x5ff7), (0xe8a3, 0x4006)],
        5: [(0xcb00 | l, None) for l in (1, 8, 0x18, 0xff, 0x0c, 0xf7)] + [(0xe893, 0x9ff7), (0xe8b3, 0x8006)],
    }[what]
    for h1, h2 in words:
        ins, ref = ck.decode(h1, h2)
        if ins is None:
            continue
        rec.tick()
        for start, d in regs:
            for a in list(range(start - 72, start + len(d) + 72, 4)):
                for s in states(ck.m.mem)[:2]:
                    a &= 0xfffffffc
                    s.set_sp(a)
                    s.r[3] = a
                    ck.run(h1, h2, ins, ref, s, mod2(ref))
        rec.outcome(ref.mn + ' at region ends')
        rec.sample(isa.text(ref, 0, h1, h2) + ' around the ends of 3 regions')
    rec.traces = rec.transitions
    rec.states_n(rec.transitions)
