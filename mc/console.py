"""The interactive simulator (as built by setup.py) next to a model of its commands."""
import builtins
import contextlib
import io
import sys

from .props.c22 import ALIAS, ALL, INDEX, Model
from .props.c23 import Mem

M32 = 0xffffffff
ERR = object()
NAMES = set(ALL) | set(ALIAS)


def load(rec):
    lib = rec.stage.built()
    if sys.path[0] != lib:
        sys.path.insert(0, lib)
    import logging
    logging.disable(logging.CRITICAL)
    import cmdis.__main__ as m
    assert m.__file__.startswith(lib), m.__file__
    return m


class Sim(object):
    """A console on a processor with the given regions."""

    def __init__(self, m, regions):
        import cmdis.model
        import cmdis.mock_cpu
        self.m = m
        self.tool = m.SimTool()
        argv, sys.argv = sys.argv, ['cmdis']
        try:
            self.args = self.tool.get_args()
        except AttributeError:
            self.args = None
        finally:
            sys.argv = argv
        self.regions = regions
        self.fresh()

    def fresh(self):
        import cmdis.model
        import cmdis.mock_cpu
        # As run() does it, but with the memory of this exploration.
        tool = self.tool = self.m.SimTool()
        try:
            tool.args = self.args
            tool.binary_data = b''
            tool.create_sim()
            cpu = tool.cpu
        except AttributeError:
            cpu = cmdis.model.CpuModel()
        cpu.delegate = cmdis.mock_cpu.MockCpuModelDelegate()
        for s, n in self.regions:
            cpu.delegate.add_memory(s, n)
        self.cpu = self.tool.cpu = cpu
        self.console = self.m.SimConsole(self.tool)

    def do(self, line):
        """lines printed, split into words"""
        out, err = io.StringIO(), io.StringIO()
        so, se = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = out, err
        try:
            self.console.process_command_line(line)
        finally:
            sys.stdout, sys.stderr = so, se
        return [l.split() for l in out.getvalue().split('\n') if l.strip()]

    def differences(self, regs, mem):
        out = []
        rd = self.cpu.delegate.read_register
        for n in ALL:
            g = rd(INDEX[n])
            if g != regs.r[n]:
                out.append('%s is %#x, should be %#x' % (n, g, regs.r[n]))
        for s, d in mem.regions:
            g = self.cpu.delegate.read_memory_block(s, len(d))
            if g != d:
                for i, (x, y) in enumerate(zip(g or [], d)):
                    if x != y:
                        out.append('byte at %#x is %#x, should be %#x' % (s + i, x, y))
                        break
                else:
                    out.append('region at %#x is %r' % (s, g))
        return out


def is_error(lines):
    return any(l[0] == 'Error:' or l[:2] == ['Unexpected', 'exception:'] for l in lines)


def parse_int(s):
    """integer literal as the console documents them: decimal, 0x, 0b, 0o, sign"""
    try:
        return int(s, 0)
    except ValueError:
        return ERR


def convert(arg, regs, mem, echo):
    arg = arg.lower().replace('_', '')
    deref = arg.startswith('[')
    off = 0
    if deref:
        body = arg[1:-1].split(',')
        arg = body[0]
        if len(body) > 1:
            off = parse_int(body[1])
            if off is ERR:
                return ERR
    if arg in NAMES:
        v = regs.r[ALIAS.get(arg, arg)]
        echo.append([arg, '=', '0x%08x' % v])
    else:
        v = parse_int(arg)
        if v is ERR:
            return ERR
    if deref:
        b = mem.block(v + off, 4)
        if b is None or len(b) < 4:
            return ERR
        v = int.from_bytes(b, 'little')
        echo.append(['[%s,%d]' % (arg, off), '=', '0x%08x' % v])
    return v


READ = {'read8': 1, 'read': 1, 'r': 1, 'rb': 1, 'read16': 2, 'r16': 2, 'rh': 2, 'read32': 4, 'r32': 4, 'rw': 4}
WRITE = {'write8': 1, 'write': 1, 'w': 1, 'wb': 1, 'write16': 2, 'w16': 2, 'wh': 2, 'write32': 4, 'w32': 4, 'ww': 4}


def dump(addr, data, size):
    out = []
    per = 16 // size
    vals = ['%0*x' % (2 * size, int.from_bytes(data[i:i + size], 'little')) for i in range(0, len(data), size)]
    for i in range(0, len(vals), per):
        out.append(['%08x:' % (addr + i * size)] + vals[i:i + per])
    return out


def command(line, regs, mem):
    """Apply one data or register command to the model: expected lines, or ERR."""
    w = line.split()
    cmd, args = w[0].lower(), w[1:]
    out = []
    if cmd == 'reg' and args:
        cmd = args[0].lower()
        if cmd not in NAMES:
            return ERR
    if cmd in NAMES:
        v = regs.r[ALIAS.get(cmd, cmd)]
        return [[cmd, '=', '0x%08x' % v, '(%d)' % v]]
    if cmd == 'wreg':
        if len(args) < 2 or args[0].lower() not in NAMES:
            return ERR
        v = convert(args[1], regs, mem, out)
        if v is ERR:
            return ERR
        regs.write(args[0].lower(), v)
        return out
    if cmd in READ:
        n = READ[cmd]
        if not args:
            return ERR
        a = convert(args[0], regs, mem, out)
        ln = n if len(args) < 2 or a is ERR else convert(args[1], regs, mem, out)
        if a is ERR or ln is ERR:
            return ERR
        data = mem.block(a, ln)
        if data is None:
            return ERR
        return out + dump(a, data, n)
    if cmd in WRITE:
        n = WRITE[cmd]
        if len(args) < 2:
            return ERR
        a = convert(args[0], regs, mem, out)
        if a is ERR:
            return ERR
        data = b''
        for x in args[1:]:
            v = convert(x, regs, mem, out)
            if v is ERR:
                return ERR
            data += (v & (1 << 8 * n) - 1).to_bytes(n, 'little')
        mem.write(a, data)
        return out
    return ERR


DUMP_ROWS = [['r0', 'r6', 'r12', 'xpsr'], ['r1', 'r7', 'sp', 'control'], ['r2', 'r8', 'lr', 'primask'],
             ['r3', 'r9', 'pc', 'faultmask'], ['r4', 'r10', 'msp', 'basepri'], ['r5', 'r11', 'psp']]


def dump_words(regs):
    return sorted((n + ':', '%#010x' % regs.r[n]) for row in DUMP_ROWS for n in row)
