"""The console's register and memory commands."""
import itertools
from .. import core, spaces

ID = 'C27'
NEEDS_BUILD = True
BOUNDS = {
    'quick': 'every history of 2 of 119 commands and every history of 3 of 70 and of 4 of 20 commands (register and memory reads and '
             'writes in every width, alias, number base and address form, dereferences, errors), and every single command for '
             'every register; dereferences at every offset around the ends of a region, writes of up to 300 values and reads of '
             'up to 128 KiB; 34 numbers in every base with underscores, padding and signs in every place a number can stand; after each command the output, all registers and all memory are compared',
    'thorough': 'as quick with histories of 3 of all 119, and of 5 of the stack pointer commands',
}
ASSUMPTIONS = ['a failed command prints a line starting with "Error:" and changes nothing; what else it prints is unspecified',
               'reads of 16 and 32-bit elements ask for whole elements inside one region']
REGIONS = [(0x1000, 64), (0x20000000, 32)]
SETUP = ['wreg r1 0x1010', 'wreg r2 0x20000008', 'ww 0x1008 0x1000 0x20000004 0xdeadbeef 0x11223344', 'ww r2 0x1014 7 8']
LEAN = [
    'wreg r0 5', 'wreg r0 0xffffffff', 'wreg r1 r2', 'wreg r1 [r1]', 'wreg r2 [r1,4]', 'wreg r3 [0x1008]', 'wreg sp 0x20000013',
    'wreg psp 0x20000010', 'wreg control 2', 'wreg control 0', 'wreg msp sp', 'wreg r2 [r2,-4]',
    'ww r1 r0', 'ww [r1] 1', 'ww [r1,-8] 0x12345678', 'wh r1 0x1ffff -1', 'wb 0x1010 1 2 3 4', 'wb 0x1017 0xaa', 'w r2 [r2]',
    'ww 0x20000018 1 2 3', 'wh 0x103e 0xabcd', 'ww sp sp psp msp', 'wb 0x3000 1', 'write32 0x1010 r0 r1',
    'rw r1', 'rw r1 16', 'rh r2 8', 'r 0x1010 20', 'rb [r1] 3', 'rw [r1,4] 8', 'r32 sp', 'read16 r1', 'r 0x103e 2',
    'rw 0x3000', 'reg', 'sp', 'reg psp', 'wreg r1 [0x999]', 'r', 'ww 5',
]
MORE = [
    'WREG R0 0b101', 'wreg r0 0o17', 'wreg r0 1_000', 'wreg r0 0xdead_beef', 'wreg r0 -1', 'wreg r0 -0x80000000', 'wreg R15 0x1001',
    'wreg lr 0x1_0000_0001', 'wreg xpsr 0xf1000000', 'wreg primask 3', 'wreg basepri 0x1ff', 'wreg faultmask 2',
    'wreg s0 0x3f800000', 'wreg fpscr 9', 'wreg r13 0x20', 'wreg r12 [r1,0x4]', 'wreg r12 [r1,-0x8]', 'wreg r12 [R1,0b100]',
    'wreg r0', 'wreg', 'wreg foo 1', 'wreg r0 bar', 'wreg r0 0x', 'wreg r0 [r9]', 'wreg r0 [r1,zz]', 'wreg r0 1 2',
    'write 0x1000 1', 'write8 0x1000 0x100', 'write16 0x1000 0x10000 2', 'w16 0x1002 3', 'w32 0x1004 0xffffffffff', 'WW 0x1000 1',
    'wb r1 r1 r2', 'wh [r2] [r2]', 'ww 0x1000', 'wb', 'wh foo 1', 'wb 0x1000 1 foo', 'ww 0xfff 1', 'ww 0x103c 1 2',
    'wb 0x1ffffff 1 2', 'wh r1 1 2 3 4 5 6 7 8 9', 'ww 0x1000 [0x3000]', 'wb 0x1000 1 [0x3000]',
    'read 0x1000', 'read8 0x1000 1', 'rb 0x1000 17', 'r 0x1000 64', 'r 0x1000 32', 'r 0x1000 0', 'read 0x1001 15', 'r16 0x1000 16', 'read16 0x1000 18',
    'rh 0x1001 4', 'read32 0x1000 64', 'RW 0x1000 20', 'rw 0x1002', 'rw 0x1000 r5', 'rw r2 [0x1040]', 'r 0x1000 [0x1008]',
    'r 0xfff', 'r 0x1040', 'rh 0x2000', 'rb -1', 'rw 4096', 'r 0b1000000000000 4', 'r foo', 'rw [r1', 'rw [foo]', 'r 0x1000 x',
    'reg r0', 'REG R1', 'reg foo', 'reg s31', 'wreg r3 [-8,0x1010]', 'rw [-0x1000,0x2008] 8', 'wreg r3 [-0x1008]', 'r14', 'R15', 'pc', 'xpsr', 'CONTROL', 's31', 'bogus', 'regs', '?foo',
]
STACK = ['wreg control 2', 'wreg control 0', 'wreg control 3', 'wreg sp 0x20000010', 'wreg psp 0x20000010', 'wreg msp 0x20000010',
         'wreg SP 0x1014', 'wreg r13 0', 'wreg msp sp', 'wreg psp msp', 'r13', 'ww sp 7']
MULTI = ['wreg r0 5; r0', 'r0;;r1 ; ', ' ; ', 'bogus; wreg r0 7; r0', 'ww 0x1000 r1;wreg r1 [0x1000];rw 0x1000', 'wreg r0 x; wreg r3 1',
         'wreg r4 2;wreg r4 3;r4;wreg r4 4']


BULK = [(0x1000, 0x3000), (0x20000000, 32)]


BIG = [(0x1000, 0x20000)]


def spellings(v):
    """The ways to write a number: every base, both cases, padded, with underscores between digits."""
    sign, a = ('-' if v < 0 else ''), abs(v)
    out = []
    for pre, f in (('', 'd'), ('0x', 'x'), ('0x', 'X'), ('0X', 'x'), ('0b', 'b'), ('0B', 'b'), ('0o', 'o'), ('0O', 'o')):
        digits = format(a, f)
        forms = [digits]
        if pre:
            forms += ['00' + digits, '000_' + digits]
        for k in (1, 2, 3, 4):
            if len(digits) > k:
                forms.append(digits[:-k] + '_' + digits[-k:])
                forms.append('_'.join(digits[i:i + k] for i in range(0, len(digits), k)))
        out += [sign + pre + x for x in forms]
        if not sign:
            out += ['+' + pre + digits]
    return sorted(set(out))


VALUES = [0, 1, 2, 7, 8, 9, 10, 15, 16, 99, 100, 255, 256, 1000, 4095, 0x1000, 0x1010, 0x1234, 65535, 65536, 0xabcdef, 0x20000000,
          0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0x100000000, 0x123456789, -1, -8, -10, -0x1000, -0x7fffffff, -0x80000000]


def spaces_cmds():
    from .. import console as C
    return sorted(C.READ) + sorted(C.WRITE)


def shards(tier):
    every = LEAN + MORE + MULTI
    out = [('h', c, every, 2) for c in spaces.rotate_chunks(every, 24)]
    sub = every if tier == 'thorough' else (LEAN + MORE[::3])[:70]
    out += [('h', c, sub, 3) for c in spaces.rotate_chunks(sub, 60)]
    out += [('h', [c], LEAN[::2], 4) for c in LEAN[::2]]
    out += [('h', [c], STACK, 5 if tier == 'thorough' else 4) for c in STACK]
    out += [('regs',), ('values',), ('deref', 0), ('deref', 1)] + [('bulk', c) for c in sorted(spaces_cmds())]
    out += [('big',)] + [('numbers', c) for c in spaces.rotate_chunks(VALUES, 6)]
    return out


def run_shard(shard, rec):
    from .. import console as C
    m = C.load(rec)
    regions = BULK if shard[0] == 'bulk' else BIG if shard[0] == 'big' else REGIONS
    sim = C.Sim(m, regions)
    state = {}

    def fail(msg, **case):
        rec.violate(msg, dict(case, kind='console'))
        if len(rec.violations) >= rec.MAX_VIOLATIONS:
            raise core.StopShard()

    def fresh():
        sim.fresh()
        state['r'], state['m'] = C.Model(), C.Mem(regions)
        for l in SETUP:
            sim.do(l)
            C.command(l, state['r'], state['m'])

    def step(line, history):
        rec.transitions += 1
        try:
            got = sim.do(line)
        except BaseException as e:
            if isinstance(e, core.Hang):
                raise
            fail('%s: raised %r' % ('; '.join(history), e), commands=history)
            return
        want = []
        for part in line.split(';'):
            if not part.strip():
                continue
            if part.split()[0].lower() == 'reg' and len(part.split()) == 1:
                words = [x for l in got for x in l]
                if sorted(zip(words[::2], words[1::2])) != C.dump_words(state['r']):
                    fail('%s: prints %r' % ('; '.join(history), got), commands=history)
                want = got
                continue
            w = C.command(part, state['r'], state['m'])
            if w is C.ERR:
                want = C.ERR
            elif want is not C.ERR:
                want = want + w
        if want is C.ERR:
            if not C.is_error(got):
                fail('%s: prints %r, should report an error' % ('; '.join(history), got), commands=history)
            rec.outcome('error')
        elif got != want:
            fail('%s: prints %r, should print %r' % ('; '.join(history), got, want), commands=history)
        else:
            rec.outcome(line.split()[0].lower() if line.split() else 'nothing')
        diff = sim.differences(state['r'], state['m'])
        if diff:
            fail('after %s: %s' % ('; '.join(history), '; '.join(diff)), commands=history)

    if shard[0] == 'h':
        _, firsts, alphabet, depth = shard
        for first in firsts:
            for rest in itertools.product(alphabet, repeat=depth - 1):
                rec.tick()
                fresh()
                seq = (first,) + rest
                n = len(rec.violations)
                for i, line in enumerate(seq):
                    step(line, seq[:i + 1])
                    if len(rec.violations) > n:
                        break
                rec.states_n(1)
                rec.traces += 1
    elif shard[0] == 'regs':
        for n in sorted(C.NAMES):
            for spell in (n, n.upper(), n.title()):
                for v in ('0', '1', '3', '0xff', '0x12345678', '4294967295', '-2', '0x100000003'):
                    rec.tick()
                    fresh()
                    for line in ('wreg %s %s' % (spell, v), spell, 'reg ' + spell, 'wreg r7 ' + spell, 'reg',
                                 'ww 0x1000 ' + spell, 'rw 0x1000', 'rw [0x1000]' if v == '0' else 'r7'):
                        step(line, ['wreg %s %s' % (spell, v), line])
                    rec.states_n(1)
                    rec.traces += 1
    elif shard[0] == 'deref':
        # every base form, every offset to both ends of the region and beyond, below zero too
        fresh()
        step('wb 0x1000 ' + ' '.join(str(i * 7 + 1 & 255) for i in range(64)), ['fill'])
        for base in (('r1', '0x1010', '0b1000000010000'), ('0x1000', 'sp', '4096'))[shard[1]]:
            for off in list(range(-24, 70)) + [-0x1010, -0x1011, -0x2000, -0x2010, -0x2020, -0x2024, 0x1ffff000, 0x1fffeff8]:
                for line in ('wreg r5 [%s,%d]' % (base, off), 'rb [%s,%s0x%x]' % (base, '-' * (off < 0), abs(off)),
                             'wb 0x103f [%s,%d]' % (base, off)):
                    rec.tick()
                    step(line, [line])
                    rec.states_n(1)
                    rec.traces += 1
    elif shard[0] == 'numbers':
        # every spelling of a number, everywhere a number can stand
        fresh()
        step('ww 0x1000 ' + ' '.join(str(i * 0x01030507 + 1 & 0xffffffff) for i in range(16)), ['fill'])
        for v in shard[1]:
            for t in spellings(v):
                for line in ('wreg r5 ' + t, 'wreg r5 [%s]' % t, 'wreg r5 [r1,%s]' % t, 'wreg r5 [%s,4]' % t, 'wreg r5 [%s,0x1_0]' % t,
                             'rb ' + t, 'r32 %s 8' % t, 'rb 0x1000 ' + t if v != 0x7fffffff else 'r5', 'wb 0x1004 ' + t,
                             'wh 0x1008 1 %s 2' % t, 'write32 0x100c ' + t, 'wb %s 5' % t):
                    rec.tick()
                    step(line, [line])
                    rec.states_n(1)
                    rec.traces += 1
    elif shard[0] == 'big':
        fresh()
        for a in range(0x1000, 0x21000, 0x1000):
            step('ww %#x ' % a + ' '.join(str(i * 0x01030507 + a & 0xffffffff) for i in range(0x400)), ['fill'])
        for cmd in sorted(C.READ):
            for a in (0x1000, 0x1008):
                for n in (0x8000, 0xfffc, 0x10000, 0x10004, 0x1fff8, 0x20000, 0x20004, 0x30000, 0x100008, 0x1000008):
                    rec.tick()
                    line = '%s %#x %#x' % (cmd, a, n)
                    step(line, [line])
                    rec.states_n(1)
                    rec.traces += 1
    elif shard[0] == 'bulk':
        # long commands: many values, many bytes
        fresh()
        cmd = shard[1]
        counts = (1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300)
        if cmd in C.WRITE:
            for k, n in enumerate(counts):
                for a in (0x1000, 0x1003 + k):
                    line = '%s %#x %s' % (cmd, a, ' '.join(('%d', '%#x', '-%d')[(i + k) % 3] % (i * 0x01030507 + k & 0xffffffff) for i in range(n)))
                    rec.tick()
                    step(line, [line])
                    rec.states_n(1)
        else:
            step('ww 0x1000 ' + ' '.join(str(i * 0x01030507 & 0xffffffff) for i in range(0xc00)), ['fill'])
            for n in counts + (512, 1000, 1024, 1028, 2048, 4096, 4100, 5000, 0x2ffc):
                for a in (0x1000, 0x1004, 0x1001):
                    n = n // C.READ[cmd] * C.READ[cmd]
                    if a + n > 0x4000:
                        continue
                    line = '%s %#x %d' % (cmd, a, n)
                    rec.tick()
                    step(line, [line])
                    rec.states_n(1)
        rec.traces = rec.transitions
    else:
        # every width and alias at every address around a region, every length
        for cmd in sorted(C.READ):
            n = C.READ[cmd]
            for a in list(range(0xffc, 0x1044)):
                for ln in (None, n, 2 * n, 16, 16 + n, 32):
                    if a + (ln or n) > 0x1040 and a < 0x1040 and n > 1:
                        continue
                    rec.tick()
                    if not state or not rec.states:
                        fresh()
                        step('wb 0x1000 ' + ' '.join(str(i * 7 & 255) for i in range(64)), ['fill'])
                        rec.state(1)
                    line = '%s %#x%s' % (cmd, a, '' if ln is None else ' %d' % ln)
                    step(line, [line])
        for cmd in sorted(C.WRITE):
            n = C.WRITE[cmd]
            for a in list(range(0xffe, 0x1008)) + list(range(0x1038, 0x1042)):
                for data in ('0', '0x1ff', '0xa1b2c3d4 0x1122', '-1 -2 3', '1 2 3 4 5 6 7 8 9', 'r1 r2', '[r1] [r1,4]'):
                    rec.tick()
                    fresh()
                    line = '%s %#x %s' % (cmd, a, data)
                    step(line, [line])
                    rec.states_n(1)
                    rec.traces += 1
    rec.sample('%s' % (shard[1][:1] if shard[0] == 'h' else shard[:2],))
