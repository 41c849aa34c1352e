"""cps, mrs, msr, hints and barriers under every privilege, mode and special register state."""
import itertools
from .. import core, spaces
from ..family import FLAGS, encodings_shards, make_states, run_encodings
from ..machine import Checker
from ..ref import isa

ID = 'C12'
FAM = ('system',)
BOUNDS = {
    'quick': 'all cps/mrs/msr/hint/barrier encodings on 64 machine states: every combination of mode, CONTROL, PRIMASK, '
             'FAULTMASK with BASEPRI and xPSR patterns; every msr special register x ~170 words x 20 states; every mrs '
             'special register x ~170 xPSR words x both privileges; BASEPRI_MAX x all 256 x 256 priorities; all 512 '
             'exception numbers; and all sequences of up to 5 of 12 system instructions from 6 start states',
    'thorough': 'as quick with sequences of up to 6, and ~1000 words in every msr and mrs',
}
ASSUMPTIONS = ['no DSP and no FP extension (the model reports neither)',
               'msr with the g mask bit is unpredictable without the DSP extension and not compared',
               'in Handler mode the CONTROL.SPSEL bit is 0, as on hardware']
MEM = [(0x20000000, bytearray(16))]
SYSM = sorted(isa.SYSREG)


def sys_states(mem):
    out = []
    base = make_states(mem, (0x100,), ('high',))[0]
    n = 0
    for handler, control, pm, fm in itertools.product((False, True), (0, 1, 2, 3), (0, 1), (0, 1)):
        if handler and control & 2:
            continue
        for bp in (0, 0x20 + n):
            s = base.copy()
            n += 1
            s.handler, s.control, s.primask, s.faultmask, s.basepri = handler, control, pm, fm, bp
            s.msp, s.psp = 0x20001000 + 4 * n, 0x20002000 + 8 * n
            s.r[13] = s.psp if control & 2 else s.msp
            s.xpsr = (FLAGS[(n * 5) & 15] | 0x08000000 * (n >> 2 & 1) | 0x01000000 | (n * 0x3100 & 0x0600fc00) |
                      (n * 0x50000 & 0xf0000) | (n * 37 & 0x1ff))
            out.append(s)
    return out


SEQ = [(0xb672, None), (0xb662, None), (0xb671, None), (0xf381, 0x8814), (0xf382, 0x8814), (0xf383, 0x8808),
       (0xf384, 0x8809), (0xf380, 0x8811), (0xf3ef, 0x8510), (0xf385, 0x8812), (0xf3ef, 0x8608), (0xb082, None)]


def shards(tier):
    out = encodings_shards(FAM, 16)
    out += [('msr', s) for s in SYSM] + [('mrs', s) for s in SYSM]
    out += [('max', c) for c in range(8)] + [('ipsr', None)]
    out += [('seq', (i, j)) for i in range(len(SEQ)) for j in range(6)]
    return [x + (tier,) for x in out]


def run_shard(shard, rec):
    kind, what, tier = shard
    ck = Checker(rec, ID, MEM)
    sts = sys_states(ck.m.mem)
    edge = spaces.WIDE_EDGE if tier == 'thorough' else spaces.EDGE
    if kind in ('e16', 'e32'):
        run_encodings(rec, ck, FAM, (kind, what), sts)
        return
    if kind == 'msr':
        h1, h2 = 0xf387, 0x8800 | what
        ins, ref = ck.decode(h1, h2)
        if ins is None:
            return
        for s in [x for i, x in enumerate(sts) if i % 4 in (0, 3)]:
            rec.tick()
            for v in edge:
                s.r[7] = v
                ck.run(h1, h2, ins, ref, s)
        rec.outcome('msr ' + isa.SYSREG[what])
    elif kind == 'mrs':
        h1, h2 = 0xf3ef, 0x8700 | what
        ins, ref = ck.decode(h1, h2)
        if ins is None:
            return
        for s in [x for i, x in enumerate(sts) if i % 8 in (0, 5)]:
            rec.tick()
            for v in edge:
                s.xpsr = v
                s.msp, s.psp = v & ~3, (v ^ 0xffffffff) & ~3
                s.r[13] = s.psp if s.control & 2 else s.msp
                ck.run(h1, h2, ins, ref, s)
            for v in range(256):
                s.basepri = v
                ck.run(h1, h2, ins, ref, s)
        rec.outcome('mrs ' + isa.SYSREG[what])
    elif kind == 'max':
        h1, h2 = 0xf387, 0x8812
        ins, ref = ck.decode(h1, h2)
        if ins is None:
            return
        s = sts[0]
        for old in range(what, 256, 8):
            rec.tick()
            for new in range(256):
                s.basepri = old
                for up in (0x700, 0xffffff00) if new & 1 else (0, 0x100) if new & 2 else (0, 0x80000000):
                    s.r[7] = new | up
                    ck.run(h1, h2, ins, ref, s)
        rec.outcome('msr BASEPRI_MAX pairs')
    elif kind == 'ipsr':
        for sysm in (1, 3, 5, 7):
            h1, h2 = 0xf3ef, 0x8700 | sysm
            ins, ref = ck.decode(h1, h2)
            if ins is None:
                continue
            s = sts[0]
            for n in range(512):
                rec.tick()
                for f in (0x01000000, 0xfffffe00):
                    s.xpsr = f | n
                    ck.run(h1, h2, ins, ref, s)
            # and the model's own view of it
            for n in range(512):
                ck.m.dele.write_register(16, 0xff00fe00 | n)
                if int(ck.m.cpu.ipsr) != n:
                    rec.violate('exception number %d in xPSR: ipsr is %d' % (n, int(ck.m.cpu.ipsr)), {'ipsr': n})
        rec.outcome('exception numbers')
    else:
        first, start = what
        words = SEQ
        dec = [ck.decode(*w) for w in words]
        if any(i is None for i, _ in dec):
            return
        depth = 6 if tier == 'thorough' else 5
        s0 = sts[(0, 9, 17, 25, 34, 40)[start]]
        s0.r[1], s0.r[2], s0.r[3], s0.r[4] = 1, 2, 0x20000f03, 0x20000e01
        s0.r[0], s0.r[5] = 0x180, 0x40
        stack = [((first,), s0)]
        while stack:
            path, s = stack.pop()
            rec.tick()
            # state -> one step, compared; then all extensions
            i = path[-1]
            ins, ref = dec[i]
            h1, h2 = words[i]
            if not ck.run(h1, h2, ins, ref, s):
                continue
            t = s.copy()
            isa.execute(ref, t)
            t.r[15] = 0x100
            rec.state(hash((t.regs(), t.handler)) & 0x7fffffffffffffff)
            if len(path) < depth:
                for j in range(len(words)):
                    stack.append((path + (j,), t))
        rec.outcome('sequences')
        rec.traces = rec.transitions
        rec.sample('sequences from %s' % isa.text(dec[first][1], 0, *words[first]))
        return
    rec.traces = rec.transitions
    rec.states_n(rec.transitions)
