"""The register file: names, aliases, banked stack pointers, flags, widths."""
import contextlib
import io
import itertools
from .. import core, spaces

ID = 'C22'
BOUNDS = {
    'quick': 'every register under every name, index and accessor with 16 values in 3 representations; every ordered '
             'pair of register writes, and of ways of writing a register (integer, bitstring, the machine itself) on one processor; every history of 6 writes over SP, MSP, PSP, CONTROL, LR, PC and xPSR (14 kinds '
             'of write); every history of 4 flag updates from 64 xPSR contents; every sequence of 3 mode changes with every CONTROL; every sequence of 4 machines out of 4 behind one model; all register names compared after each step',
    'thorough': 'as quick with histories of 7 writes and of 6 flag updates',
}
ASSUMPTIONS = ['the mode of the processor is set by the user of the model, not by register writes',
               'what unknown register names do is unspecified']

M32 = 0xffffffff
CORE = ['r%d' % i for i in range(13)] + ['sp', 'lr', 'pc']
SPECIAL = ['xpsr', 'msp', 'psp', 'control', 'faultmask', 'basepri', 'primask', 'fpscr']
FLOAT = ['s%d' % i for i in range(32)]
ALIAS = {'r13': 'sp', 'r14': 'lr', 'r15': 'pc'}
ALL = CORE + SPECIAL + FLOAT
INDEX = dict([(n, i) for i, n in enumerate(CORE)] +
             [('xpsr', 16), ('msp', 17), ('psp', 18), ('control', -4), ('faultmask', -3), ('basepri', -2), ('primask', -1),
              ('fpscr', 33)] + [('s%d' % i, 0x40 + i) for i in range(32)])
PROPS_RW = ['pc', 'lr', 'sp', 'msp', 'psp', 'xpsr']
VALUES = [0, 1, 2, 3, 0x80, 0xff, 0x100, 0xfffe, 0x1ffe, 0x20001237, 0x7fffffff, 0x80000000, 0xfffffffd, M32, 1 << 32 | 5,
          -1, -2, -0x80000000, 0x123456789]


class Model(object):
    def __init__(self):
        self.r = {n: 0 for n in ALL}
        self.r['xpsr'] = 0x01000000

    def write(self, n, v):
        r = self.r
        v &= M32
        n = ALIAS.get(n, n)
        if n in ('sp', 'msp', 'psp'):
            v &= ~3
        elif n in ('faultmask', 'primask'):
            v &= 1
        elif n == 'basepri':
            v &= 0xff
        if n == 'sp':
            r['psp' if r['control'] & 2 else 'msp'] = v
        else:
            r[n] = v
        r['sp'] = r['psp' if r['control'] & 2 else 'msp']


def writers(cpu, bitstring, n):
    """every way of writing register n: (description, function of a value)"""
    out = [('write_register(%r)' % n, lambda v: cpu.write_register(n, v)),
           ('write_register(%r)' % n.upper(), lambda v: cpu.write_register(n.upper(), v)),
           ('write_register(%d)' % INDEX[n], lambda v: cpu.write_register(INDEX[n], v))]
    for a, t in ALIAS.items():
        if t == n:
            out.append(('write_register(%r)' % a, lambda v, a=a: cpu.write_register(a, v)))
            out.append(('write_register(%r)' % a.title(), lambda v, a=a: cpu.write_register(a.title(), v)))
    if n in CORE:
        i = CORE.index(n)

        def setr(v):
            cpu.r[i] = v
        out.append(('r[%d]' % i, setr))
    if n in FLOAT:
        j = FLOAT.index(n)

        def sets(v):
            cpu.s[j] = v
        out.append(('s[%d]' % j, sets))
    if n in PROPS_RW:
        out.append(('.' + n, lambda v: setattr(cpu, n, v)))
    return out


def readers(cpu, n):
    out = [('read_register(%r)' % n, lambda: cpu.read_register(n)),
           ('read_register(%r)' % n.upper(), lambda: cpu.read_register(n.upper())),
           ('read_register(%d)' % INDEX[n], lambda: cpu.read_register(INDEX[n]))]
    for a, t in ALIAS.items():
        if t == n:
            out.append(('read_register(%r)' % a, lambda a=a: cpu.read_register(a)))
    if n in CORE:
        i = CORE.index(n)
        out.append(('r[%d]' % i, lambda: cpu.r[i]))
    if n in FLOAT:
        j = FLOAT.index(n)
        out.append(('s[%d]' % j, lambda: cpu.s[j]))
    if n in PROPS_RW + ['control']:
        out.append(('.' + n, lambda: getattr(cpu, n)))
    return out


HIST_OPS = [('sp', 0x20001000, 0), ('sp', 0x20002006, 1), ('msp', 0x20003003, 0), ('msp', 0x20001000, 1), ('psp', 0x20004001, 0), ('psp', 0xfffffffe, 1),
            ('control', 0, 0), ('control', 1, 1), ('control', 2, 0), ('control', 7, 1), ('lr', 0x11, 0), ('pc', 0x2003, 1),
            ('xpsr', 0x81000003, 0), ('sp', 0x20001000, 3)]


GROUPS = [('sp', 'msp', 'psp', 'control'), ('pc', 'lr'), ('xpsr', 'r7'), ('r0', 'r12'), ('faultmask', 'primask', 'basepri'), ('fpscr', 's0', 's31')]


def shards(tier):
    depth, fdepth = (7, 6) if tier == 'thorough' else (6, 4)
    out = [('single', [n]) for n in ALL]
    out += [('pairs', c) for c in spaces.rotate_chunks(ALL, 16)]
    out += [('history', p, depth) for p in itertools.product(range(len(HIST_OPS)), repeat=2)]
    out += [('flags', x, fdepth) for x in range(16)]
    out += [('accessors', g) for g in GROUPS]
    out += [('misc',)]
    return out


def run_shard(shard, rec):
    from cmdis.model import CpuModel, CpuMode
    from cmdis.mock_cpu import MockCpuModelDelegate
    from cmdis.bitstring import bitstring, bit0, bit1
    kind = shard[0]

    def fail(msg, **case):
        rec.violate(msg, dict(case, kind='registers'))
        if len(rec.violations) >= rec.MAX_VIOLATIONS:
            raise core.StopShard()

    def machine():
        cpu = CpuModel()
        cpu.delegate = MockCpuModelDelegate()
        return cpu

    def one(got, what, n, want):
        if type(got) is not bitstring or got.width != 32 or got.unsigned != want:
            fail('after %s: %s reads %r, should read %#010x' % (what, n, got, want), ops=what)

    def compare(cpu, m, what):
        rec.transitions += 1
        for n in ALL:
            one(cpu.read_register(n), what, n, m.r[n])
        x = m.r['xpsr']
        a = cpu.apsr
        got = (a.n, a.z, a.c, a.v)
        if [g.width for g in got] != [1] * 4 or tuple(g.unsigned for g in got) != (x >> 31 & 1, x >> 30 & 1, x >> 29 & 1,
                                                                                    x >> 28 & 1):
            fail('after %s: flags read %r with xpsr %#x' % (what, got, x), ops=what)
        i = cpu.ipsr
        if i.width != 9 or i.unsigned != x & 511:
            fail('after %s: ipsr reads %r with xpsr %#x' % (what, i, x), ops=what)
        if cpu.is_privileged is not (m.r['control'] & 1 == 0):
            fail('after %s: is_privileged is %r with control %#x' % (what, cpu.is_privileged, m.r['control']), ops=what)
        one(cpu.pc_for_instr, what, 'pc_for_instr', m.r['pc'] + 4 & M32)

    def compare_all_paths(cpu, m, what):
        compare(cpu, m, what)
        for n in ALL:
            for p, f in readers(cpu, n):
                got = f()
                one(got, what, p, m.r[n])
                # what is read is a copy
                got ^= 0xffffffff
                got %= 1
                one(f(), what + ' and changing the value read', p, m.r[n])

    if kind == 'single':
        n = shard[1][0]
        for v in VALUES:
            cpu0 = machine()
            for k in range(len(writers(cpu0, bitstring, n))):
                for form in ('int', 'bits', 'wide'):
                    rec.tick()
                    if form != 'int' and v < 0:
                        continue
                    cpu, m = machine(), Model()
                    for i, o in enumerate(ALL):
                        cpu.write_register(o, 0x11110010 * (i % 13 + 1))
                        m.write(o, 0x11110010 * (i % 13 + 1))
                    for psp in (0, 2):
                        cpu.write_register('control', psp)
                        m.write('control', psp)
                        p, f = writers(cpu, bitstring, n)[k]
                        val = v if form == 'int' else bitstring(v, 32) if form == 'bits' else bitstring(v, 40)
                        what = '%s = %r with control %d' % (p, val, psp)
                        try:
                            f(val)
                        except Exception as e:
                            fail('%s raised %r' % (what, e), ops=what)
                            continue
                        m.write(n, v)
                        if form != 'int':
                            if val.unsigned != v & (1 << val.width) - 1:
                                fail('%s changed the value written to %r' % (what, val), ops=what)
                            val += 1
                        (compare_all_paths if v in (0, 1, M32, 0x20001237) else compare)(cpu, m, what)
                    rec.states_n(2)
        rec.outcome('register ' + n.rstrip('0123456789'))
    elif kind == 'pairs':
        for n1 in shard[1]:
            for n2 in ALL:
                rec.tick()
                for v1, v2 in ((0xdeadbeef, 0x12345678), (M32, 0), (2, 0xffffffff)):
                    cpu, m = machine(), Model()
                    cpu.write_register(n1, v1)
                    cpu.write_register(n2, v2)
                    m.write(n1, v1)
                    m.write(n2, v2)
                    compare(cpu, m, '%s = %#x; %s = %#x' % (n1, v1, n2, v2))
                    rec.states_n(1)
        rec.outcome('pairs')
    elif kind == 'history':
        _, prefix, depth = shard
        for rest in itertools.product(range(len(HIST_OPS)), repeat=depth - 2):
            rec.tick()
            cpu, m = machine(), Model()
            seq = prefix + rest
            for i in seq:
                n, v, path = HIST_OPS[i]
                if path == 0:
                    cpu.write_register(n, v)
                elif path == 1 and n in PROPS_RW:
                    setattr(cpu, n, bitstring(v, 32))
                elif path == 3:
                    # sp = sp + 12, as instructions do it
                    v = m.r['sp'] + 12
                    cpu.r[13] = cpu.r[13] + 12
                else:
                    cpu.write_register(INDEX[n], v)
                m.write(n, v)
                for q in ('sp', 'msp', 'psp', 'control', 'lr', 'pc', 'xpsr'):
                    got = cpu.read_register(q)
                    if got.unsigned != m.r[q]:
                        what = '; '.join('%s = %#x' % HIST_OPS[j][:2] for j in seq)
                        fail('in %s: after %s = %#x, %s reads %r, should read %#010x' % (what, n, v, q, got, m.r[q]),
                             ops=what)
            rec.transitions += depth
            if rest[-1] == 0:
                compare_all_paths(cpu, m, '; '.join('%s = %#x' % HIST_OPS[j][:2] for j in seq))
            rec.states_n(1)
        rec.outcome('histories')
    elif kind == 'accessors':
        # every ordered pair of ways of writing, integers and bitstrings, the machine's own included, on one processor
        def ways(cpu):
            out = [(n, p, f, form) for n in shard[1] for p, f in writers(cpu, bitstring, n) for form in ('int', 'bits')]
            for n in shard[1]:
                def direct(v, n=n):
                    cpu.delegate.write_register(INDEX[n], v)
                out.append((n, 'delegate.write_register(%d)' % INDEX[n], direct, 'int'))
            if 'xpsr' in shard[1]:
                for f in 'nzcv':
                    out.append((f, 'apsr.' + f, lambda v, f=f: setattr(cpu.apsr, f, v & 1), 'int'))
                    out.append((f, 'apsr.' + f, lambda v, f=f: setattr(cpu.apsr, f, v[0]), 'bits'))
            return out
        pos = {'n': 31, 'z': 30, 'c': 29, 'v': 28}
        total = len(ways(machine()))
        for first in range(total):
            rec.tick()
            cpu, m = machine(), Model()
            every = ways(cpu)
            done = []
            for second in range(total):
                for k, v in ((first, 0x81002007 + 4 * second), (second, 0x51001000 - 8 * second - 3)):
                    n, p, f, form = every[k]
                    f(bitstring(v, 32) if form == 'bits' else v)
                    if n in pos:
                        m.write('xpsr', m.r['xpsr'] & ~(1 << pos[n]) | (v & 1) << pos[n])
                    else:
                        m.write(n, v)
                    done = done[-3:] + ['%s = %s %#x' % (p, form, v)]
                    what = '...; ' + '; '.join(done)
                    for q in shard[1]:
                        for r, g in readers(cpu, q):
                            one(g(), what, r, m.r[q])
                    compare(cpu, m, what)
                rec.states_n(1)
        rec.outcome('accessors')
    elif kind == 'flags':
        _, hi, depth = shard
        ops = [(f, v) for f in 'nzcv' for v in (0, 1)]
        forms = [lambda v: v, lambda v: bit1 if v else bit0, lambda v: bool(v)]
        bitpos = {'n': 31, 'z': 30, 'c': 29, 'v': 28}
        for low in (0x01000000, 0x0fffffff, 0x0f0f0f0f, 0):
            for seq in itertools.product(ops, repeat=depth):
                rec.tick()
                for form in range(3):
                    cpu, m = machine(), Model()
                    x = hi << 28 | low
                    cpu.xpsr = x
                    for f, v in seq:
                        setattr(cpu.apsr, f, forms[form](v))
                        x = x & ~(1 << bitpos[f]) | v << bitpos[f]
                    m.write('xpsr', x)
                    compare(cpu, m, 'xpsr = %#x; %s' % (hi << 28 | low, '; '.join('apsr.%s = %d' % s for s in seq)))
                    if (bit0.unsigned, bit1.unsigned) != (0, 1):
                        fail('bit constants changed by %r' % (seq,), ops=repr(seq))
                    rec.states_n(1)
        rec.outcome('flags')
    else:
        cpu, m = machine(), Model()
        compare_all_paths(cpu, m, 'construction')
        for k in list(range(-70, 0)) + list(range(16, 120)):
            for acc in ('r', 's'):
                if acc == 's' and 0 <= k < 32:
                    continue
                for op in ('read', 'write'):
                    try:
                        if op == 'read':
                            getattr(cpu, acc)[k]
                        else:
                            getattr(cpu, acc)[k] = 5
                        fail('%s of %s[%d] did not raise KeyError' % (op, acc, k), ops='range')
                    except KeyError:
                        pass
                    rec.transitions += 1
        compare(cpu, m, 'out of range accesses')
        for mode in (CpuMode.Thread, CpuMode.Handler):
            for c in range(8):
                cpu = machine()
                cpu.mode = mode
                cpu.write_register('control', c)
                if cpu.mode is not mode or cpu.is_privileged is not (mode is CpuMode.Handler or not c & 1):
                    fail('privilege with %s and control %d is %r' % (mode, c, cpu.is_privileged), ops='mode')
                rec.states_n(1)
        # the mode is no register: changing it changes none
        for modes in itertools.product((CpuMode.Thread, CpuMode.Handler), repeat=3):
            for c in range(8):
                cpu, m = machine(), Model()
                for i, n in enumerate(ALL):
                    for o in (cpu.write_register, m.write):
                        o(n, 0xf1f1f10c + 0x101010 * i)
                for o in (cpu.write_register, m.write):
                    o('control', c)
                for mode in modes:
                    cpu.mode = mode
                    for n in ALL:
                        one(cpu.read_register(n), 'mode = %s with control %d' % (mode, c), n, m.r[n])
                    if cpu.mode is not mode or cpu.is_privileged is not (mode is CpuMode.Handler or not c & 1):
                        fail('privilege with %s and control %d is %r' % (mode, c, cpu.is_privileged), ops='mode')
                rec.states_n(1)
        # two machines do not share anything
        a, b = machine(), machine()
        for i, n in enumerate(ALL):
            a.write_register(n, 0x01010100 + 4 * i)
            m.write(n, 0x01010100 + 4 * i)
        compare_all_paths(a, m, 'writing every register')
        compare_all_paths(b, Model(), 'writing every register of another machine')
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            a.dump()
        flat = out.getvalue().replace(' ', '').replace('\n', '')
        for i, n in enumerate(CORE):
            if '%s=%08x' % (n, m.r[n]) not in flat:
                fail('dump() shows %r without %s=%08x' % (out.getvalue(), n, m.r[n]), ops='dump')
        rep = repr(a)
        if ('pc=%x xpsr=%x' % (m.r['pc'], m.r['xpsr'])) not in rep or \
                'rN=[%s]' % ' '.join('%x' % m.r[n] for n in CORE[:15]) not in rep:
            fail('repr of the machine is %r' % rep, ops='repr')
        # no machine behind the model: nothing to read, nowhere to write
        e = CpuModel()
        e.write_register('r0', 5)
        if e.read_register('r0') is not None or e.delegate is not None:
            fail('a model without a machine reads r0 as %r' % e.read_register('r0'), ops='no delegate')
        e.delegate = machine().delegate
        compare(e, Model(), 'attaching a machine')
        delegates(rec, one, fail, CpuModel, MockCpuModelDelegate)
        rec.outcome('misc')
    rec.traces = rec.transitions
    rec.sample('%r' % (shard[:2],))


def delegates(rec, one, fail, CpuModel, Mock):
    """Every sequence of up to 4 machines (two usual ones, one with a length of zero, none) behind one model."""
    class Empty(Mock):
        def __len__(self):
            return 0

    for seq in itertools.product(range(4), repeat=4):
        rec.tick()
        each = [Mock(), Mock(), Empty(), None]
        held = [None if d is None else Model() for d in each]
        for d in each[:3]:
            d.add_memory(0x100, 8)
        words = [0] * 3
        cpu = CpuModel()
        for n, k in enumerate(seq):
            cpu.delegate = each[k]
            what = 'machines %r, now %d' % (seq, n)
            rec.transitions += 1
            if cpu.delegate is not each[k]:
                fail('after %s: the machine is %r, should be %r' % (what, cpu.delegate, each[k]), ops=what)
            cpu.r[3] = 0x1000 + n
            cpu.sp = 0x20000000 + 16 * n
            cpu.xpsr = 0x1000000 | n
            if k < 3:
                cpu.apsr.c = n & 1
            cpu.write32(0x104, n + 1)
            cpu.write_memory_block(0x100, bytes((n, 7)))
            if k < 3:
                m = held[k]
                m.write('r3', 0x1000 + n)
                m.write('sp', 0x20000000 + 16 * n)
                m.write('xpsr', 0x1000000 | n | (n & 1) << 29)
                words[k] = n + 1
                for r in ('r3', 'sp', 'msp', 'xpsr', 'r4', 'lr'):
                    one(cpu.read_register(r), what, r, m.r[r])
                got = (cpu.read32(0x104).unsigned, cpu.read16(0x100).unsigned, cpu.read_memory_block(0x102, 3))
                if got != (n + 1, n | 0x700, bytearray((0, 0, n + 1))):
                    fail('after %s: memory reads %r' % (what, got), ops=what)
            elif cpu.read_register('r3') is not None or cpu.read_memory_block(0x100, 2) is not None:
                fail('after %s: a model without a machine reads %r' % (what, cpu.read_register('r3')), ops=what)
        for k in range(3):
            for r in ('r3', 'sp', 'msp', 'psp', 'xpsr'):
                if each[k].read_register(INDEX[r]) != held[k].r[r]:
                    fail('after machines %r: %s of machine %d is %r, should be %#x' % (seq, r, k, each[k].read_register(INDEX[r]), held[k].r[r]), ops=str(seq))
            if each[k].read_memory(0x104) != words[k]:
                fail('after machines %r: memory of machine %d reads %r, should read %#x' % (seq, k, each[k].read_memory(0x104), words[k]), ops=str(seq))
        rec.states_n(1)
