"""What a processor says about itself - in an IT block, DSP extension, FP extension - decides what instructions do."""
import itertools
from .. import spaces
from ..family import FLAGS, make_states
from ..machine import Checker, enc
from ..ref import isa
from .c12 import sys_states

ID = 'C30'
BOUNDS = {
    'quick': 'all 8 combinations of the three capabilities: every executable 16-bit encoding, all mrs and msr encodings '
             '(with every mask), and the 32-bit data processing encodings over 700 second halfwords; 16-bit encodings on '
             '8 machine states, flag setting ones on 16 NZCV, mrs and msr on 48 system states; all sequences of up to 5 '
             'of 9 instructions, and all of 3 with a change of capability between any two of them',
    'thorough': 'as quick with 20 machine states, sequences of up to 6, and 3600 second halfwords',
}
ASSUMPTIONS = ['mnemonics do not change in an IT block', 'a register form of movs is unpredictable in an IT block']
MEM = [(0x20000000, bytearray((i * 7 + 3) & 0xff for i in range(512)))]
SEQ = [(0x1888, None), (0x0848, None), (0x2000, None), (0x2800, None), (0xf381, 0x8c00), (0xf3ef, 0x8500),
       (0xf384, 0x8814), (0xf3ef, 0x8614), (0x4148, None)]


def shards(tier):
    out = []
    for caps in range(8):
        out += [('e16', c, caps) for c in spaces.rotate_chunks(
            [h for h in spaces.HW16 if isa.decode16(h).fam not in (None, 'mem', 'memmul', 'event')], 4)]
        out += [('sys', c, caps) for c in spaces.rotate_chunks(range(16), 2)]
        out += [('dp', c, caps) for c in spaces.rotate_chunks(dp_h1(), 2)]
    for caps in range(8):
        out += [('seq', (i, j), caps) for i in range(len(SEQ)) for j in (0, 3)]
    out += [('change', (i, j), None) for i in range(len(SEQ)) for j in range(8)]
    return [x + (tier,) for x in out]


def dp_h1():
    out = []
    for h1 in spaces.H1_32:
        if any(isa.decode32(h1, h2).k in ('add', 'rsb', 'logic', 'shift', 'mov', 'mvn', 'tst', 'mul') for h2 in spaces.H2_SET):
            out.append(h1)
    return out


def configure(ck, caps):
    """A processor with the capabilities, on the same machine."""
    class Cpu(ck.m.im.CpuModel):
        in_it_block = bool(caps & isa.IN_IT)
        has_dsp_ext = bool(caps & isa.DSP)
        has_fp_ext = bool(caps & isa.FP)
    ck.m.cpu = Cpu()
    ck.m.cpu.delegate = ck.m.dele
    ck.caps = caps


def skip(ref, h1, caps):
    return caps & isa.IN_IT and (h1 < 0x40 or ref.k == 'b' and ref.p[1] < 14 or ref.k == 'cps')


def run_shard(shard, rec):
    kind, what, caps, tier = shard
    ck = Checker(rec, ID, MEM)
    if caps is not None:
        configure(ck, caps)
    T = tier == 'thorough'
    if kind == 'e16':
        sts = make_states(ck.m.mem, (0x100, 0x20000002), ('spread', 'high', 'alt', 'edge'))
        if T:
            sts += make_states(ck.m.mem, (0, 0x7ffffffe, 0xfffffffc), ('spread', 'high', 'alt', 'edge'))
        for h in what:
            rec.tick()
            ref = isa.decode16(h)
            if ref.k is None or skip(ref, h, caps) or isa.reads_pc(ref):
                continue
            ins, ref = ck.decode(h)
            if ins is None:
                continue
            for s in sts:
                ck.run(h, None, ins, ref, s)
            if h % 5 == 0 or ref.k not in ('ld', 'st', 'push', 'pop', 'ldm', 'stm', 'ldrlit', 'nop', 'bx'):
                s = sts[0].copy()
                low = s.xpsr & 0x0fffffff
                for f in FLAGS[h & 3::4]:
                    s.xpsr = f | low
                    ck.run(h, None, ins, ref, s)
            rec.outcome('%s with %d' % (ref.mn, caps & 1))
    elif kind == 'sys':
        sts = sys_states(ck.m.mem)
        for i, s in enumerate(sts):
            s.control |= 4 * (i >> 1 & 1)
            s.xpsr ^= (i * 0x50000 + 0xa0000) & 0xf0000
            for j in range(13):
                s.r[j] = (0x89ab4567 * (j * 2 + i * 3 + 1) ^ (j << 16 | i << 18 | (i + j & 7) | (i * j & 15) << 28)) & 0xffffffff
        for n in what:
            rec.tick()
            for h1, h2 in ([(0xf3ef, 0x8000 | n << 8 | y) for y in range(256)] +
                           [(0xf380 | n, 0x8000 | k << 10 | y) for k in range(4) for y in range(256)]):
                ins, ref = ck.decode(h1, h2)
                if ins is None:
                    continue
                for s in sts:
                    ck.run(h1, h2, ins, ref, s)
                rec.outcome('%s with %d' % (isa.text(ref, 0, h1, h2).split()[2], caps))
    elif kind == 'dp':
        sts = make_states(ck.m.mem, (0x100, 0x20000002), ('spread', 'high', 'alt', 'edge'))
        h2s = spaces.H2_SET[::1 if T else 5]
        for h1 in what:
            rec.tick()
            for h2 in h2s:
                ref = isa.decode32(h1, h2)
                if ref.k not in ('add', 'rsb', 'logic', 'shift', 'mov', 'mvn', 'tst', 'mul') or isa.reads_pc(ref):
                    continue
                ins, ref = ck.decode(h1, h2)
                if ins is None:
                    continue
                for s in sts:
                    ck.run(h1, h2, ins, ref, s)
                rec.outcome('%s with %d' % (ref.mn, caps & 1))
    else:
        first, start = what
        base = make_states(ck.m.mem, (0x100,), ('spread', 'high', 'alt', 'edge'))
        if kind == 'seq':
            cpus = [(caps, ck.m.cpu)]
            s0 = base[start].copy()
            depth = 6 if T else 5
        else:
            cpus = []
            for c in (start, start ^ 1, start ^ 7):
                configure(ck, c)
                cpus.append((c, ck.m.cpu))
            s0 = base[1].copy()
            depth = 3
        for i in range(8):
            s0.r[i] = (0x40030000 * (i + 1) + 0xb00c0000 * (i & 1) + i * 5 + 1) & 0xffffffff
        dec = []
        for w in SEQ:
            ck.caps = isa.DSP
            dec.append(ck.decode(*w))
            if dec[-1][0] is None:
                return
        stack = [((first,), s0, cpus[0])]
        while stack:
            path, s, (c, cpu) = stack.pop()
            rec.tick()
            ins, ref = dec[path[-1]]
            ck.caps, ck.m.cpu = c, cpu
            if not c & isa.DSP and ref.st is isa.MAY:
                # outside the specification; but the same object is used again on other processors
                ck.m.load(s)
                try:
                    ins.execute(cpu)
                except Exception:
                    pass
                ck.m.reset_memory()
                if len(path) < depth:
                    for j in range(len(SEQ)):
                        for other in cpus:
                            stack.append((path + (j,), s, other))
                continue
            if not ck.run(SEQ[path[-1]][0], SEQ[path[-1]][1], ins, ref, s):
                continue
            t = s.copy()
            isa.execute(ref, t, False, c)
            t.r[15] = 0x100
            rec.state(hash((t.regs(), c)) & 0x7fffffffffffffff)
            if len(path) < depth:
                for j in range(len(SEQ)):
                    for other in cpus:
                        stack.append((path + (j,), t, other))
        rec.outcome('sequences')
        rec.traces = rec.transitions
        return
    rec.traces = rec.transitions
    rec.states_n(rec.transitions)
    rec.sample('%s with capabilities %d' % (kind, caps))
