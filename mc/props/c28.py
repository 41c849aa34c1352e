"""Stepping, disassembling, resetting and running the interactive simulator."""
import builtins
import io
import itertools
import os
import sys
import tempfile
from .. import core, spaces
from ..family import family_h1, pattern_bytes
from ..machine import Machine, diff_regs, enc, impl, word_bytes
from ..ref import isa
from ..vocab import vocabulary
from .c16 import ALPHABET, CODE, DATA, start

ID = 'C28'
NEEDS_BUILD = True
BOUNDS = {
    'quick': 'step: every 16-bit encoding and every supported 32-bit first halfword with 60 second halfwords from one '
             'state, every cut-off position at the end of memory, every program of 3 of 26 instructions stepped 6 times; disasm: every start '
             'address and length over a 24 byte program, centered or not, with every PC; 42 lengths up to 128 KiB from 6 starts of 36 KiB programs; three loops stepped 3000 times; reset and start-up: every '
             'combination of 17 stack pointer and 14 entry vectors, 13 sizes of binary; every session of 4 of 13 input lines, and 13 rotations of a cycle of commands as lines and sessions of up to 48',
    'thorough': 'as quick with 400 second halfwords, sessions of 5 lines, programs of 4 instructions, loops of 12000 steps',
}
ASSUMPTIONS = ['an odd PC runs the instruction below it; whether it stays odd is unspecified',
               'the effect of events and of architecturally unpredictable instructions is unspecified',
               'instructions with the PC as plain operand are not stepped (known finding of C05 and C07)']
ALLFAM = {'addsub', 'shift', 'logic', 'extadr', 'loadstore', 'multiple', 'system', 'event'}


def shards(tier):
    T = tier == 'thorough'
    out = [('step16', c) for c in spaces.rotate_chunks(range(0x10000), 16)]
    out += [('step32', c, 13 if T else 91) for c in spaces.rotate_chunks(family_h1(ALLFAM) + list(range(0xf000, 0xf800, 37)), 24)]
    out += [('cut',)]
    out += [('prog', (i,), 4 if T else 3) for i in range(len(ALPHABET))]
    out += [('disasm', k) for k in range(8)]
    out += [('listing', k) for k in range(4)] + [('loop', k, 12000 if T else 3000) for k in range(3)]
    out += [('reset', sp) for sp in range(len(SPS))] + [('binary',)]
    out += [('session', (i,), 5 if T else 4) for i in range(len(LINES))]
    out += [('session', i, 0) for i in range(len(LONG))]
    return out


SPS = [0, 4, 0x100, 0x10000, 0x10004, 0x1fff8000, 0x1fff8004, 0x1fff8001, 0x20000000, 0x20008000, 0x20008004, 0x20010000, 0x20000003, 0x10002, 0x20018004, 0x20040000, 0x20080004]
PCS = [0, 1, 8, 9, 0xffff, 0xfffe, 0x10000, 0x10001, 0x1fff8001, 0x20007fff, 0x20008001, 0x1fff7fff, 0xffffffff, 0x201]
BINARY = bytes(bytearray([0, 0x80, 0, 0x20, 9, 0, 0, 0])) + b'\x05\x20\x40\x1c\x01\x90\xfd\xe7'
# shows what case and blanks do to the expression
EXPR = '$cpu.r[0].unsigned + len("A  B".strip("a b")) - 4'
LINES = ['', 'step', 's', 'wreg r0 9', 'r0', 'ww sp 7', 'reset', 'bogus', '  ', EXPR, 'exit', KeyboardInterrupt, 'step; r0']
LONG = ['s', 'wreg r0 9', ' step ', 'r0', 'ww sp 7', 's', '', 'bogus', 'r0', 'reset', 's', 'step', EXPR]


def run_shard(shard, rec):
    from .. import console as C
    m = C.load(rec)
    kind = shard[0]

    def fail(msg, **case):
        rec.violate(msg, dict(case, kind='console'))
        if len(rec.violations) >= rec.MAX_VIOLATIONS:
            raise core.StopShard()

    class Box(object):
        """console on a Machine"""

        def __init__(self, regions):
            self.sim = C.Sim(m, [])
            self.machine = Machine(regions)
            self.sim.cpu = self.sim.tool.cpu = self.machine.cpu

        def do(self, line, what):
            rec.transitions += 1
            try:
                return self.sim.do(line)
            except Exception as e:
                fail('%s: raised %r' % (what, e), what=what)
                return []

    def step_expect(ref, pc, h1, h2):
        """(words printed, executed?)"""
        if ref.st in (isa.UNDEF, isa.RES):
            return [['Undefined', 'instruction']], False
        if ref.st is isa.UNPRED:
            return [['Unpredictable', 'instruction']], False
        return [['%#010x:' % pc] + isa.text(ref, pc, h1, h2).split()], True

    def check_step(box, ms, h1, h2, what, cut=False):
        """step the console and the model ms, compare"""
        pc = ms.r[15] & ~1
        odd = ms.r[15] & 1
        ref = isa.decode(h1, h2 or 0)
        if not isa.is32(h1):
            h2 = None
        got = box.do('step', what)
        mach = box.machine
        if ref.st is isa.MAY:
            return None
        want, ex = step_expect(ref, pc, h1, h2)
        if ref.st is isa.RES and got == [['Unpredictable', 'instruction']]:
            want = got
        if got != want:
            fail('%s: step of %s prints %r, should print %r' % (what, enc(h1, h2), got, want), word=enc(h1, h2))
        rec.outcome(ref.mn or ref.st)
        if ex:
            if ref.k is None or isa.reads_pc(ref) or isa.unknown_store(ref) is not None:
                return None
            if ref.k in ('ldm', 'stm') and ms.r[ref.p[0]] & 3:
                return None
            ms.r[15] = pc
            isa.execute(ref, ms)
        g, w = mach.regs(), ms.regs()
        if ex and ref.k in ('pop', 'ldm') and g[:15] == w[:15] and g[16:] == w[16:] and g[15] | 1 == w[15] | 1:
            ms.r[15] = g[15]
            w = g
        if odd or not ex:
            # whether an odd PC stays odd is unspecified
            if ex:
                ms.r[15] = g[15] if g[15] | 1 == w[15] | 1 else w[15]
            g = g[:15] + (g[15] | 1,) + g[16:]
            w = w[:15] + (w[15] | 1,) + w[16:]
        if g != w:
            fail('%s: after step of %s %s' % (what, enc(h1, h2), '; '.join(diff_regs(g, w))), word=enc(h1, h2))
            return None
        if not mach.memory_equal():
            fail('%s: after step of %s memory differs' % (what, enc(h1, h2)), word=enc(h1, h2))
            return None
        return ex

    data = bytes(pattern_bytes(0x80, 5))
    if kind in ('step16', 'step32'):
        box = Box([(CODE, bytes(64)), (DATA, data)])
        if kind == 'step16':
            words = [(h, 0xbf00) for h in shard[1] if not isa.is32(h)]
        else:
            h2s = spaces.H2_SET[::shard[2]]
            words = [(h, x) for h in shard[1] for x in h2s]
        for n, (h1, h2) in enumerate(words):
            rec.tick()
            thumb = n & 1
            code = bytes(word_bytes(h1, h2)) + bytes(pattern_bytes(60, 9))
            box.machine.regions[0] = (CODE, code)
            box.machine.reset_memory()
            ms = start(box.machine.mem, n % 3)
            ms.r[2] = ms.r[3] = DATA + 0x20
            ms.r[15] = CODE | thumb
            box.machine.load(ms)
            check_step(box, ms, h1, h2, 'from %#x' % ms.r[15])
            rec.states_n(1)
    elif kind == 'cut':
        for size in (1, 2, 3, 4, 5, 6, 8):
            code = (b'\x40\x1c' + bytes(word_bytes(0xfb00, 0xf001)) + b'\x00\xbf')[:size]
            for pc in range(CODE - 4, CODE + size + 4):
                rec.tick()
                box = Box([(CODE, code), (DATA, data)])
                ms = start(box.machine.mem, 0)
                ms.r[15] = pc
                box.machine.load(ms)
                at = pc & ~1
                avail = code[at - CODE:] if CODE <= at < CODE + size else None
                what = 'step at %#x with %d bytes of program' % (pc, size)
                if avail is not None and len(avail) >= 2:
                    h1 = avail[0] | avail[1] << 8
                    if not isa.is32(h1) or len(avail) >= 4:
                        h2 = avail[2] | avail[3] << 8 if isa.is32(h1) else 0
                        check_step(box, ms, h1, h2, what)
                        rec.states_n(1)
                        continue
                    ok = lambda got: got and got[0][0] in ('No', 'Undefined')
                elif avail is not None:
                    ok = lambda got: got and got[0][0] in ('No', 'Undefined')
                else:
                    ok = C.is_error
                got = box.do('s', what)
                if not ok(got) or any(l[0] == 'Unexpected' for l in got):
                    fail('%s prints %r' % (what, got), pc=pc)
                g, w = box.machine.regs(), ms.regs()
                if g[:15] != w[:15] or g[16:] != w[16:] or g[15] | 1 != w[15] | 1 or not box.machine.memory_equal():
                    fail('%s changes %s' % (what, diff_regs(g, w)), pc=pc)
                rec.states_n(1)
        rec.outcome('cut off')
    elif kind == 'prog':
        _, prefix, depth = shard
        box = Box([(CODE, bytes(40)), (DATA, data)])
        for rest in itertools.product(range(len(ALPHABET)), repeat=depth - 1):
            rec.tick()
            prog = prefix + rest
            code = b''.join(bytes(word_bytes(*ALPHABET[i])) for i in prog)
            code = (code + b'\x00\xbf\x05\x01\x00\x20' + b'\x00\xde' * 20)[:40]
            box.machine.regions[0] = (CODE, code)
            box.machine.reset_memory()
            ms = start(box.machine.mem, 0)
            box.machine.load(ms)
            what = 'program %s' % [enc(*ALPHABET[i]) for i in prog]
            for n in range(6):
                pc = ms.r[15] & ~1
                region, _ = ms.mem.find(pc)
                if region is None or ms.mem.find(pc + 3)[0] is not region:
                    break
                h1, h2 = ms.mem.read(pc, 2), ms.mem.read(pc + 2, 2)
                if n == 2:
                    # looking does not change anything
                    got = box.do('d', what)
                    marks = [l[0] for l in got if l[0].endswith('*')]
                    if isa.decode(h1, h2).st is isa.OK and marks != ['%#010x:*' % pc]:
                        fail('%s: disasm at the PC %#x prints %r' % (what, pc, got), what=what)
                if not check_step(box, ms, h1, h2, what):
                    break
            rec.states_n(1)
            rec.traces += 1
    elif kind == 'disasm':
        programs = [
            [(0x1c40, None), (0xfb00, 0xf001), (0xd1fd, None), (0x4801, None), (0xf000, 0xf800), (0xbf00, None), (0x4770, None), (0x6010, None), (0xb503, None)],
            [(0x1c40, None), (0x3901, None), (0xde00, None), (0xb600, None), (0x1c40, None), (0xf3ef, 0x8114), (0x4140, None), (0x4140, None), (0x4140, None),
             (0x4140, None), (0x4140, None)],
            [(0xffff, 0xffff), (0x1c40, None), (0xf3ef, 0x8114), (0xe000, None), (0xf000, 0xd000), (0xfb00, 0xf001), (0x4770, None)],
        ]
        for pi, prog in enumerate(programs):
            code = b''.join(bytes(word_bytes(*w)) for w in prog)[:24]
            base = (CODE, 0x20000000, 0)[pi]
            box = Box([(base, code)])
            ms = isa.State(box.machine.mem)
            box.machine.load(ms)
            for a in range(base - 3, base + 28):
                if (a - base) % 8 != shard[1] or a < 0:
                    continue
                for ln in [None] + list(range(0, 28)):
                    for center in ('', '-c ', '--center '):
                        for pc in (base, base + 3, a):
                            rec.tick()
                            ms.r[15] = pc & 0xffffffff
                            box.machine.load(ms)
                            for line in ['%s %s%#x%s' % (('d', 'disasm')[pc & 1], center, a, '' if ln is None else ' %d' % ln)] + \
                                    (['d'] if ln is None and pc == a and not center else []):
                                got = box.do(line, line)
                                n = 6 if ln is None else ln
                                s = a - n // 2 if center else a
                                s &= ~1
                                block = ms.mem.find(s)
                                if block[0] is None:
                                    if not C.is_error(got):
                                        fail('%s (memory starts at %#x): prints %r' % (line, base, got), line=line)
                                    continue
                                raw = code[s - base:s - base + n]
                                want, msg, off = [], None, 0
                                while len(raw) - off >= 2:
                                    h1 = raw[off] | raw[off + 1] << 8
                                    if isa.is32(h1) and len(raw) - off < 4:
                                        break
                                    h2 = raw[off + 2] | raw[off + 3] << 8 if isa.is32(h1) else None
                                    ref = isa.decode(h1, h2 or 0)
                                    if ref.st is not isa.OK:
                                        if len(raw) - off < 4:
                                            break
                                        msg = ['Unpredictable' if ref.st is isa.UNPRED else 'Undefined', 'instruction']
                                        break
                                    at = s + off
                                    want.append(['%#010x:%s' % (at, '*' if at == pc & ~1 else '')] +
                                                isa.text(ref, at, h1, h2).split())
                                    off += ref.size
                                lines = [l for l in got if l[-1] != 'instruction' and l[0] != 'pc']
                                msgs = [l for l in got if l[-1] == 'instruction']
                                if lines != want or msgs != ([msg] if msg else []):
                                    fail('%s with PC %#x prints %r, should list %r then %r' % (line, pc, got, want, msg), line=line)
                                if box.machine.regs() != ms.regs() or not box.machine.memory_equal():
                                    fail('%s changes the machine' % line, line=line)
                                    box.machine.load(ms)
                            rec.states_n(1)
        rec.outcome('disasm')
    elif kind == 'listing':
        # long listings of a program with a member of every rule, without and with an end in the middle
        code = b''
        ends = {}
        voc = [w for w in vocabulary(2) if not (w[1] is None and isa.is32(w[0]))]
        while len(code) < 0x9000:
            for h1, h2, ref in voc:
                if ref.st is isa.OK:
                    code += bytes(word_bytes(h1, h2))
        base = (CODE, 0x20000000)[shard[1] & 1]
        if shard[1] >= 2:
            code = code[:0x2400] + b'\x00\xde\x00\xbf' + code[0x2404:]
        box = Box([(base, code)])
        ms = isa.State(box.machine.mem)
        for off in (0, 2, 6, 0x100, 0x1ffe, 0x3000):
            for n in (64, 100, 255, 256, 257, 1000, 1023, 1024, 1500, 2048, 4000, 4095, 4096, 4097, 4100, 5000, 8192, 0x4000, 0x8002, 0x9000, 0x20000):
                for pc in (base + off + n - 2 & ~1, base):
                    rec.tick()
                    ms.r[15] = pc
                    box.machine.load(ms)
                    line = 'disasm %#x %d' % (base + off, n)
                    got = box.do(line, line)
                    raw = code[off:off + n]
                    want, msg, o = [], [], 0
                    while len(raw) - o >= 2:
                        h1 = raw[o] | raw[o + 1] << 8
                        if isa.is32(h1) and len(raw) - o < 4:
                            break
                        h2 = raw[o + 2] | raw[o + 3] << 8 if isa.is32(h1) else None
                        ref = isa.decode(h1, h2 or 0)
                        if ref.st is not isa.OK:
                            if len(raw) - o >= 4 and ref.st in (isa.UNDEF, isa.UNPRED, isa.RES):
                                msg = [['Unpredictable' if ref.st is isa.UNPRED else 'Undefined', 'instruction']]
                            break
                        at = base + off + o
                        want.append(['%#010x:%s' % (at, '*' if at == pc else '')] + isa.text(ref, at, h1, h2).split())
                        o += ref.size
                    end = ref
                    lines = [l for l in got if l[-1] != 'instruction']
                    if end.st is isa.MAY or end.st is isa.RES:
                        lines, msgs = lines[:len(want)], msg
                    else:
                        msgs = [l for l in got if l[-1] == 'instruction']
                    if lines != want or msgs != msg:
                        k = next((i for i, (x, y) in enumerate(zip(lines, want)) if x != y), min(len(lines), len(want)))
                        fail('%s with PC %#x: %d lines, should be %d then %r; line %d is %r, should be %r' % (
                            line, pc, len(lines), len(want), msg, k, lines[k:k + 1], want[k:k + 1]), line=line)
                    if box.machine.regs() != ms.regs() or not box.machine.memory_equal():
                        fail('%s changes the machine' % line, line=line)
                        box.machine.reset_memory()
                    rec.states_n(1)
        rec.outcome('listing')
    elif kind == 'loop':
        # one loop stepped until anything that builds up shows
        body = [[(0x1c40, None), (0x4041, None), (0x6011, None), (0x6813, None), (0xe7fa, None)],
                [(0xb403, None), (0xbc18, None), (0x3001, None), (0xfb01, 0xf103), (0x4288, None), (0xd1f8, None), (0xe7f7, None)],
                [(0xf000, 0xf801), (0xe7fc, None), (0x3001, None), (0x4770, None)]][shard[1]]
        code = b''.join(bytes(word_bytes(*w)) for w in body)
        code += b'\x00\xde' * ((40 - len(code)) // 2)
        box = Box([(CODE, code), (DATA, data)])
        ms = start(box.machine.mem, 0)
        ms.r[2] = DATA + 0x20
        ms.r[15] = CODE
        box.machine.load(ms)
        for n in range(shard[2]):
            rec.tick()
            pc = ms.r[15] & ~1
            h1, h2 = ms.mem.read(pc, 2), ms.mem.read(pc + 2, 2)
            if h1 is None or h2 is None or not check_step(box, ms, h1, h2, 'step %d of a loop' % n):
                fail('loop %d ends after %d steps' % (shard[1], n), what='loop')
                break
            rec.states_n(1)
        rec.outcome('loop')
    else:
        import cmdis.model

        def session(binary, lines, argv=()):
            """run the program on a binary file with these input lines"""
            rec.transitions += 1
            path = os.path.join(rec.stage.dir, 'bin-%d' % os.getpid())
            if binary is not None:
                with open(path, 'wb') as f:
                    f.write(binary)
            it = iter(lines)
            prompts = []

            def fake_input(prompt=''):
                prompts.append(prompt)
                try:
                    l = next(it)
                except StopIteration:
                    raise EOFError()
                if l is KeyboardInterrupt:
                    raise KeyboardInterrupt()
                return l
            saved = sys.stdout, sys.stderr, sys.argv, builtins.input
            out = io.StringIO()
            sys.stdout, sys.stderr = out, io.StringIO()
            sys.argv = ['cmdis'] + list(argv) + ([path] if binary is not None else [])
            builtins.input = fake_input
            tool = m.SimTool()
            rc = None
            try:
                try:
                    rc = tool.run()
                except SystemExit as e:
                    rc = 'exit %r' % e.code
            finally:
                sys.stdout, sys.stderr, sys.argv, builtins.input = saved
            return tool, rc, [l.split() for l in out.getvalue().split('\n') if l.strip()], len(prompts)

        def reset_model(regs, binary):
            """registers after reset, and the size of RAM"""
            v = binary + bytes(8)
            sp, pc = int.from_bytes(v[:4], 'little'), int.from_bytes(v[4:8], 'little')
            flash = max(0x10000, len(binary))
            ram = max(sp - 0x1fff8000, 0x10000) if sp else 0x10000

            def mapped(a):
                return 0 <= a < flash or 0x1fff8000 <= a < 0x1fff8000 + ram
            if mapped(pc):
                regs.write('pc', pc & ~1)
            if mapped(sp - 4):
                regs.write('sp', sp)
            return flash, ram

        def check(tool, regs, what):
            rd = tool.cpu.delegate.read_register
            bad = ['%s is %#x, should be %#x' % (n, rd(C.INDEX[n]), regs.r[n]) for n in C.ALL if rd(C.INDEX[n]) != regs.r[n]]
            if bad:
                fail('%s: %s' % (what, '; '.join(bad)), what=what)

        if kind == 'reset':
            sp = SPS[shard[1]]
            for pc in PCS:
                rec.tick()
                binary = sp.to_bytes(4, 'little') + pc.to_bytes(4, 'little') + BINARY[8:]
                what = 'binary with stack pointer %#x, entry %#x' % (sp, pc)
                tool, rc, out, n = session(binary, [])
                regs = C.Model()
                flash, ram = reset_model(regs, binary)
                check(tool, regs, what)
                if rc != 0 or n != 1:
                    fail('%s: returned %r after %d prompts' % (what, rc, n), what=what)
                # memory: all of both regions present, program at 0
                cpu = tool.cpu
                for a, ln, want in ((0, len(binary), binary), (len(binary), 8, bytes(8)), (flash - 1, 4, b'\0'), (flash, 4, None),
                                    (0x1fff8000, 4, bytes(4)), (0x1fff8000 + ram - 1, 2, b'\0'), (0x1fff8000 + ram, 1, None), (0x1fff7fff, 1, None)):
                    got = cpu.read_memory_block(a, ln)
                    if got != want:
                        fail('%s: memory at %#x reads %r, should read %r' % (what, a, got, want), what=what)
                # reset again from a changed state: unmapped vectors leave the register alone
                for lines in (['wreg pc 0x40', 'wreg sp 0x80', 'wreg r0 3', 'reset'], ['wreg control 2', 'reset', 'reset'],
                              ['wreg pc %d' % pc, 'reset'], ['wreg pc %d' % (pc & ~1), 'wreg sp %d' % sp, 'reset', 'reset'],
                              ['ww 0 0x1fff9000 0x301', 'reset'], ['wreg pc 0x40;wreg sp 0x80;ww 0 0 0x77777777;reset -h']):
                    tool, rc, out, n = session(binary, lines)
                    regs = C.Model()
                    reset_model(regs, binary)
                    cur = bytearray(binary[:8])
                    for l in '; '.join(lines).split(';'):
                        w = l.split()
                        if w[0] == 'wreg':
                            regs.write(w[1], int(w[2], 0))
                        elif w[0] == 'ww':
                            cur = bytearray(int(w[2], 0).to_bytes(4, 'little') + int(w[3], 0).to_bytes(4, 'little'))
                        else:
                            # the regions were made at start-up
                            s2, p2 = int.from_bytes(cur[:4], 'little'), int.from_bytes(cur[4:], 'little')
                            inside = lambda a: 0 <= a < flash or 0x1fff8000 <= a < 0x1fff8000 + ram
                            if inside(p2):
                                regs.write('pc', p2 & ~1)
                            if inside(s2 - 4):
                                regs.write('sp', s2)
                    check(tool, regs, what + ' then ' + '; '.join(lines))
                    if out[-1] and out[-1][:2] == ['SP', '='] and out[-1][2] != '0x' + bytes(cur[3::-1]).hex():
                        fail('%s then %s: prints %r' % (what, lines, out[-1]), what=what)
                rec.states_n(5)
            rec.outcome('reset')
        elif kind == 'binary':
            for size in (0, 1, 3, 4, 5, 7, 8, 9, 0xfffe, 0xffff, 0x10000, 0x10001, 0x12345):
                rec.tick()
                binary = (bytes([0, 0x90, 0xff, 0x1f, 9, 0, 0, 0]) + bytes(i * 7 & 255 for i in range(size)))[:size]
                tool, rc, out, n = session(binary, [])
                regs = C.Model()
                flash, ram = reset_model(regs, binary)
                what = 'binary of %d bytes' % size
                check(tool, regs, what)
                got = tool.cpu.read_memory_block(0, 0x20000)
                if got != binary + bytes(flash - len(binary)):
                    fail('%s: memory from 0 is %d bytes and differs' % (what, len(got or '')), what=what)
                rec.states_n(1)
            tool, rc, out, n = session(None, ['r0', 'exit'])
            regs = C.Model()
            check(tool, regs, 'no binary')
            if rc != 0 or n != 2:
                fail('no binary: returned %r after %d prompts' % (rc, n), what='exit')
            for argv in (['-d', 'debug'], ['--debug', 'error']):
                tool, rc, out, n = session(BINARY, ['quit', 'r0'], argv)
                if rc != 0 or n != 1:
                    fail('%r: returned %r after %d prompts' % (argv, rc, n), what='quit')
            for argv in (['--version'], ['-d', 'bogus'], ['--bogus']):
                tool, rc, out, n = session(BINARY, [], argv)
                if n or rc != ('exit 0' if argv == ['--version'] else 'exit 2'):
                    fail('%r: returned %r after %d prompts' % (argv, rc, n), what='arguments')
            rec.states_n(6)
            rec.outcome('start-up')
        else:
            _, prefix, depth = shard
            if depth:
                sessions = (list(prefix) + list(rest) for rest in itertools.product(
                    range(len(LINES)), repeat=depth - len(prefix)))
                sessions = ([LINES[i] for i in x] for x in sessions)
            else:
                # long lines and long sessions
                cyc = [LONG[(prefix + k) % len(LONG)] for k in range(48)]
                sessions = [[';'.join(cyc[:n])] for n in range(2, 49)] + [[';'.join(cyc[:n]), '', 'r0'] for n in (9, 17)]
                sessions += [cyc[:n] for n in range(5, 49)] + [cyc[:n] + [''] * 3 for n in (7, 33)]
            for lines in sessions:
                rec.tick()
                what = 'session %r' % (lines,)
                tool, rc, out, n = session(BINARY, lines)
                # model: the program is  movs r0,#5; adds r0,r0,#1; str r0,[sp,#4]; b .-2 (back to the store)
                regs, mem = C.Model(), {}
                reset_model(regs, BINARY)
                shown = [['CPU', 'model', 'reset.'], ['PC', '=', '0x00000009'], ['SP', '=', '0x20008000']]
                banner = list(shown)
                last = None
                used = 0
                for l in lines:
                    used += 1
                    if l is KeyboardInterrupt:
                        continue
                    l = l.strip()
                    if not l:
                        l = last
                        if not l:
                            continue
                    last = l
                    if l == 'exit':
                        break
                    for c in l.split(';'):
                        c = c.strip()
                        if c in ('s', 'step'):
                            pc = regs.r['pc']
                            text = {8: '2005 movs r0, #5', 10: '1c40 adds r0, r0, #1', 12: '9001 str r0, [sp, #4]', 14: 'e7fd b .-2 ; 0xc'}[pc]
                            shown.append(['%#010x:' % pc] + text.split())
                            if pc == 8:
                                regs.write('r0', 5)
                                regs.write('xpsr', regs.r['xpsr'] & ~0xc0000000)
                            elif pc == 10:
                                r = (regs.r['r0'] + 1) & 0xffffffff
                                regs.write('r0', r)
                                regs.write('xpsr', regs.r['xpsr'] & 0x0fffffff)
                            elif pc == 12:
                                mem[regs.r['sp'] + 4] = regs.r['r0']
                            regs.write('pc', pc + 2 if pc < 14 else 12)
                        elif c == 'wreg r0 9':
                            regs.write('r0', 9)
                        elif c == 'r0':
                            shown.append(['r0', '=', '0x%08x' % regs.r['r0'], '(%d)' % regs.r['r0']])
                        elif c == 'ww sp 7':
                            shown.append(['sp', '=', '0x%08x' % regs.r['sp']])
                            mem[regs.r['sp']] = 7
                        elif c == 'reset':
                            reset_model(regs, BINARY)
                            shown += banner
                        elif c == 'bogus':
                            shown.append(['Error:', 'unrecognized', 'command', "'bogus'"])
                        elif c.startswith('$'):
                            shown.append(['0x%08x' % regs.r['r0'], '(%d)' % regs.r['r0']])
                else:
                    used += 1
                if out != shown:
                    fail('%s: prints %r, should print %r' % (what, out, shown), lines=repr(lines))
                if rc != 0 or n != used:
                    fail('%s: returned %r after %d prompts, should be 0 after %d' % (what, rc, n, used), lines=repr(lines))
                check(tool, regs, what)
                for a in (0x20008000, 0x20008004):
                    got = tool.cpu.read32(a).unsigned
                    if got != (mem.get(a, 0) if a < 0x20008000 else 0):
                        fail('%s: memory at %#x reads %#x' % (what, a, got), lines=repr(lines))
                rec.states_n(1)
                rec.traces += 1
            rec.outcome('sessions')
    rec.sample('%r' % (shard[:2] if kind not in ('step16', 'step32') else (kind, shard[1][:2]),))
