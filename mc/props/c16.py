"""Whole programs: fetch, decode and execute from memory, checked after every step."""
import itertools
from .. import core, spaces
from ..family import pattern_bytes
from ..machine import Machine, describe, diff_regs, enc, impl, word_bytes
from ..ref import isa

ID = 'C16'
BOUNDS = {
    'quick': 'all programs of 4 instructions over 26 instructions (arithmetic, loops, calls, stack, loads and stores '
             'into data and into the program itself, stack switching, privilege drop), run up to 10 steps from 3 start '
             'states without ever reloading the processor, and all programs of 3 from 3 start states for 14 steps; '
             'full state compared after every step; straight-line lists through CpuModel.execute: all of 3, decoded at ascending, descending '
             'and equal addresses; all programs of 3 given to CpuModel.execute as a generator that fetches at the PC, for 12 '
             'steps, and generators that raise after 0..3 instructions',
    'thorough': 'as quick with all programs of 4 run for 20 steps and all of 5 over 16 instructions from 2 start states',
}
ASSUMPTIONS = ['a program stops at the first undefined, unpredictable or event instruction or outside its memory',
               'bit 0 of a PC loaded by pop/ldm is not compared']
CODE, DATA = 0x100, 0x20000000
ALPHABET = [
    (0x1c40, None),     # adds r0, r0, #1
    (0x3901, None),     # subs r1, #1
    (0x1a40, None),     # subs r0, r0, r1
    (0x4140, None),     # adcs r0, r0
    (0xd1fd, None),     # bne .-2
    (0xd200, None),     # bcs .+4
    (0xe000, None),     # b .+4
    (0xb503, None),     # push {r0,r1,lr}
    (0xbd03, None),     # pop {r0,r1,pc}
    (0xb401, None),     # push {r0}
    (0xbc02, None),     # pop {r1}
    (0xf7ff, 0xfffd),   # bl .-2
    (0x4770, None),     # bx lr
    (0x47a0, None),     # blx r4
    (0x6010, None),     # str r0, [r2]
    (0x6853, None),     # ldr r3, [r2, #4]
    (0x8028, None),     # strh r0, [r5]  (the program)
    (0x4801, None),     # ldr r0, [pc, #4]
    (0xc203, None),     # stm r2!, {r0,r1}
    (0xca18, None),     # ldm r2!, {r3,r4}
    (0x4088, None),     # lsls r0, r1
    (0xfb00, 0xf001),   # mul r0, r0, r1
    (0xf386, 0x8814),   # msr control, r6
    (0xf386, 0x8808),   # msr msp, r6
    (0xb672, None),     # cpsid i
    (0xf3ef, 0x8114),   # mrs r1, control
]
SHORT = [0, 1, 3, 4, 6, 7, 8, 11, 12, 14, 16, 17, 18, 20, 22, 25]


def start(mem, k):
    s = isa.State(mem)
    s.r[:13] = [(3, 0x80000000, 0xfffffffe)[k], 2, DATA + 16, 7, CODE + 2, CODE + 4, (2, 3, 0x20000031)[k],
                9, 10, 11, 12, 13, 14]
    s.r[14] = CODE + 5
    s.r[15] = CODE
    s.msp, s.psp = DATA + 0x40, DATA + 0x60
    s.control = (0, 2, 0)[k]
    s.r[13] = s.psp if s.control & 2 else s.msp
    s.xpsr = 0x01000000 | (0, 0x20000000, 0xd0000000)[k]
    return s


def shards(tier):
    a = range(len(ALPHABET))
    out = [('prog', (i, j), 4, 20 if tier == 'thorough' else 10, (0, 1, 2), None) for i in a for j in a]
    out += [('prog', (i,), 3, 14, (0, 1, 2), None) for i in a]
    if tier == 'thorough':
        out += [('prog', (i, j), 5, 12, (0, 2), SHORT) for i in SHORT for j in SHORT]
    out += [('list', (i,), 3, 0, (0, 1), None) for i in a]
    out += [('lazy', (i,), 3, 12, (0,), None) for i in a]
    return out


class Outcome(Exception):
    pass


def run_shard(shard, rec):
    kind, prefix, depth, steps, starts, alphabet = shard
    im = impl()
    alpha = alphabet or range(len(ALPHABET))
    data = bytes(pattern_bytes(0x80, 5))
    if kind == 'lazy':
        return run_lazy(rec, im, prefix, depth, steps, alpha, data)
    if kind == 'list':
        return run_lists(rec, im, prefix, depth, starts, alpha, data)
    cache = {}
    m = None
    for rest in itertools.product(alpha, repeat=depth - len(prefix)):
        prog = prefix + rest
        rec.tick()
        code = b''.join(bytes(word_bytes(*ALPHABET[i])) for i in prog)
        code += b'\x05\x01\x00\x20' * 2           # a literal: 0x20000105
        code = (code + b'\x00\xde' * 20)[:40]      # then udf
        if m is None:
            m = Machine([(CODE, code), (DATA, data)])
            dele, cpu = m.dele, m.cpu
        for k in starts:
            # implementation: one processor for the whole shard; only registers and memory are set through it
            m.regions[0] = (CODE, code)
            m.reset_memory()
            ms = start(m.mem, k)
            m.load(ms)
            path = []
            end = 'steps'
            for n in range(steps):
                pc = ms.r[15]
                if pc & 1:
                    pc &= ~1
                    ms.r[15] = pc
                    dele.write_register(15, pc)
                h1 = m.mem.read(pc, 2)
                h2 = m.mem.read(pc + 2, 2)
                region, _ = m.mem.find(pc)
                if region is None:
                    end = 'left memory'
                    break
                raw = dele.read_memory_block(pc, 4)
                bad = None
                if len(raw) < 4:
                    end = 'left memory'
                    break
                if not isa.is32(h1):
                    h2 = None
                key = (h1, h2)
                ref = cache.get(key)
                if ref is None:
                    ref = cache[key] = isa.decode(h1, h2 or 0)
                if ref.st is not isa.OK or ref.k is None or isa.reads_pc(ref) or \
                        isa.unknown_store(ref) is not None:
                    end = 'stopped at ' + (ref.mn or ref.st)
                    break
                if ref.k in ('ldm', 'stm') and ms.r[ref.p[0]] & 3:
                    end = 'unaligned base'
                    break
                path.append(key)
                isa.execute(ref, ms)
                rec.transitions += 1
                try:
                    ins = im.decode(raw, pc)
                    if ins.mnemonic != ref.mn:
                        bad = ['decodes as ' + ins.mnemonic]
                    ins.execute(cpu)
                except Exception as e:
                    bad = ['raises %s: %s' % (type(e).__name__, e)]
                if bad is None:
                    got, want = m.regs(), ms.regs()
                    if ref.k in ('pop', 'ldm') and got[:15] == want[:15] and got[16:] == want[16:] and \
                            got[15] | 1 == want[15] | 1:
                        ms.r[15] = got[15]
                        want = got
                    if got != want:
                        bad = diff_regs(got, want)
                    elif not m.memory_equal():
                        bad = ['memory differs']
                if bad:
                    rec.violate('program %s, start state %d, after executing %s: %s' % (
                        [enc(*ALPHABET[i]) for i in prog], k, [enc(*x) for x in path], '; '.join(bad)),
                        {'kind': 'program', 'program': [enc(*ALPHABET[i]) for i in prog], 'start': k,
                         'path': [enc(*x) for x in path], 'difference': bad})
                    if len(rec.violations) >= rec.MAX_VIOLATIONS:
                        return
                    m = Machine([(CODE, code), (DATA, data)])
                    dele, cpu = m.dele, m.cpu
                    break
            rec.traces += 1
            if len(path) > 3:
                rec.state(hash((ms.regs(), bytes(m.mem.regions[0][1]), bytes(m.mem.regions[1][1]))) >> 1)
            rec.outcome(end)
    rec.sample('programs beginning %s' % [enc(*ALPHABET[i]) for i in prefix])


def run_lists(rec, im, prefix, depth, starts, alpha, data):
    """CpuModel.execute on every straight-line list, as a list and as a generator."""
    code = bytes(bytearray(40))
    m = Machine([(CODE, code), (DATA, data)])
    for rest in itertools.product(alpha, repeat=depth - len(prefix)):
        prog = [ALPHABET[i] for i in prefix + rest]
        rec.tick()
        for k, order in itertools.product(starts, (1, -1, 0)):
            # The list decides the order of execution, whatever addresses the instructions were decoded at.
            m.reset_memory()
            ms = start(m.mem, k)
            m.load(ms)
            bad = None
            mod2 = False
            for h1, h2 in prog:
                ref = isa.decode(h1, h2 or 0)
                if isa.unknown_store(ref) is not None:
                    continue
                isa.execute(ref, ms)
                mod2 = mod2 or ref.k in ('pop', 'ldm')
            insns = [im.decode(word_bytes(*w), CODE + 4 * n * order) for n, w in enumerate(prog)
                     if isa.unknown_store(isa.decode(w[0], w[1] or 0)) is None]
            try:
                m.cpu.execute(insns if k == 0 else iter(insns))
            except Exception as e:
                bad = ['raises %s: %s' % (type(e).__name__, e)]
            rec.transitions += len(prog)
            rec.traces += 1
            if bad is None:
                got, want = list(m.regs()), list(ms.regs())
                if mod2:
                    got[15] |= 1
                    want[15] |= 1
                if got != want:
                    bad = diff_regs(got, want)
                elif not m.memory_equal():
                    bad = ['memory differs']
            if bad:
                rec.violate('CpuModel.execute of %s, start state %d, addresses %s: %s' % (
                    [enc(*w) for w in prog], k, [i.address for i in insns], '; '.join(bad)),
                            {'kind': 'list', 'program': [enc(*w) for w in prog], 'start': k,
                             'addresses': [i.address for i in insns]})
                if len(rec.violations) >= rec.MAX_VIOLATIONS:
                    return
            rec.outcome('list')
            rec.states_n(1)


class Stop(Exception):
    pass


def run_lazy(rec, im, prefix, depth, steps, alpha, data):
    """CpuModel.execute takes instructions one at a time: a generator sees the machine as the last one left it."""
    code0 = bytes(bytearray(40))
    from cmdis.disasm import Disassembler
    dis = Disassembler()
    m = Machine([(CODE, code0), (DATA, data)])
    for rest in itertools.product(alpha, repeat=depth - len(prefix)):
        prog = prefix + rest
        rec.tick()
        code = b''.join(bytes(word_bytes(*ALPHABET[i])) for i in prog)
        code = (code + b'\x05\x01\x00\x20' * 2 + b'\x00\xde' * 20)[:40]
        m.regions[0] = (CODE, code)
        m.reset_memory()
        ms = start(m.mem, 0)
        m.load(ms)
        # the model's run: which instructions, and the state before each
        path, states, mod2 = [], [], False
        for n in range(steps):
            pc = ms.r[15]
            region, _ = m.mem.find(pc)
            if pc & 1 or region is None or m.mem.find(pc + 3)[0] is not region:
                break
            h1, h2 = m.mem.read(pc, 2), m.mem.read(pc + 2, 2)
            h2 = h2 if isa.is32(h1) else None
            ref = isa.decode(h1, h2 or 0)
            if ref.st is not isa.OK or ref.k is None or isa.reads_pc(ref) or isa.unknown_store(ref) is not None \
                    or ref.k in ('ldm', 'stm') and ms.r[ref.p[0]] & 3:
                break
            path.append((h1, h2))
            isa.execute(ref, ms)
            if ref.k in ('pop', 'ldm') and ms.r[15] & 1:
                # whether bit 0 is kept is unspecified: stop here
                mod2 = True
                break
        seen = []
        # either way of decoding; the disassembler has seen all earlier programs at the same addresses

        def fetch(stop):
            while len(seen) < len(path):
                pc = m.cpu.pc.unsigned & ~1
                raw = m.cpu.read_memory_block(pc, 4)
                seen.append(bytes(raw or b'')[:2])
                if not raw:
                    return
                yield next(dis.disasm(bytearray(raw), pc)) if stop else im.decode(raw, pc)
            if stop:
                raise Stop()

        for stop in (False, True):
            bad = None
            if stop:
                m.reset_memory()
                m.load(start(m.mem, 0))
                # the model's memory was reset too
                ms = start(m.mem, 0)
                for w in path:
                    isa.execute(isa.decode(w[0], w[1] or 0), ms)
                del seen[:]
            raised = False
            try:
                m.cpu.execute(fetch(stop))
            except Stop:
                raised = True
            except Exception as e:
                bad = ['raises %s: %s' % (type(e).__name__, e)]
            rec.transitions += len(path)
            rec.traces += 1
            if bad is None and raised != stop:
                bad = ['the exception of the generator %s' % ('is lost' if stop else 'appears from nowhere')]
            if bad is None and seen != [bytes(word_bytes(w[0])) for w in path]:
                bad = ['the instructions fetched were %s' % [s.hex() for s in seen]]
            if bad is None:
                got, want = list(m.regs()), list(ms.regs())
                if mod2:
                    got[15] |= 1
                    want[15] |= 1
                if got != want:
                    bad = diff_regs(got, want)
                elif not m.memory_equal():
                    bad = ['memory differs']
            if bad:
                rec.violate('CpuModel.execute of a generator fetching program %s%s, path %s: %s' % (
                    [enc(*ALPHABET[i]) for i in prog], ' that raises at the end' if stop else '', [enc(*w) for w in path],
                    '; '.join(bad)),
                    {'kind': 'lazy', 'program': [enc(*ALPHABET[i]) for i in prog], 'path': [enc(*w) for w in path]})
                if len(rec.violations) >= rec.MAX_VIOLATIONS:
                    return
        rec.outcome('fetched while executing')
        rec.states_n(1)
