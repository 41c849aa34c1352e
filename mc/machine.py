"""Driving the implementation next to the reference model.

Only the documented surface is used: decoder.decode, Formatter.format,
Instruction.execute/mnemonic/size/address/bytes, CpuModel and the delegate
methods of MockCpuModelDelegate.
"""
import os
import sys

from .ref import isa

M32 = 0xffffffff
IDX = list(range(16)) + [16, 17, 18, -4, -3, -2, -1]
IDX_NAMES = isa.REG + ['xpsr', 'msp', 'psp', 'control', 'faultmask', 'basepri', 'primask']


class Impl(object):
    """Lazily imported view of the staged cmdis."""

    def __init__(self):
        import cmdis.disasm as disasm
        import cmdis.decoder as decoder
        import cmdis.formatter as formatter
        import cmdis.model as model
        import cmdis.mock_cpu as mock_cpu
        from cmdis.bitstring import bitstring
        stage = sys.path[0]
        assert os.path.abspath(disasm.__file__).startswith(os.path.abspath(stage)), disasm.__file__
        self.disasm = disasm
        self.decode = disasm.decoder.decode
        self.Disassembler = disasm.Disassembler
        self.Undefined = decoder.UndefinedInstructionError
        self.Unpredictable = decoder.UnpredictableError
        self.Formatter = formatter.Formatter
        self.CpuModel = model.CpuModel
        self.CpuMode = model.CpuMode
        self.Mock = mock_cpu.MockCpuModelDelegate
        self.bitstring = bitstring


_impl = None


def impl():
    global _impl
    if _impl is None:
        _impl = Impl()
    return _impl


def word_bytes(h1, h2=None):
    if h2 is None:
        return bytearray((h1 & 255, h1 >> 8))
    return bytearray((h1 & 255, h1 >> 8, h2 & 255, h2 >> 8))


def enc(h1, h2=None):
    return '%04x' % h1 if h2 is None else '%04x %04x' % (h1, h2)


class Machine(object):
    """One CpuModel with a mock delegate and some memory."""

    def __init__(self, regions):
        im = impl()
        self.im = im
        self.regions = [(s, bytes(d)) for s, d in regions]
        self.cpu = im.CpuModel()
        self.dele = im.Mock()
        self.cpu.delegate = self.dele
        for start, data in self.regions:
            self.dele.add_memory(start, len(data))
            self.dele.write_memory_block(start, bytearray(data))
        self.mem = isa.Memory(self.regions)

    def reset_memory(self):
        for i, (start, data) in enumerate(self.regions):
            self.dele.write_memory_block(start, bytearray(data))
            self.mem.regions[i][1][:] = data

    def load(self, s):
        w = self.dele.write_register
        w(-4, s.control)
        w(17, s.msp)
        w(18, s.psp)
        R = s.r
        for i in range(13):
            w(i, R[i])
        w(14, R[14])
        w(15, R[15])
        w(16, s.xpsr)
        w(-3, s.faultmask)
        w(-2, s.basepri)
        w(-1, s.primask)
        self.cpu.mode = self.im.CpuMode.Handler if s.handler else self.im.CpuMode.Thread

    def regs(self):
        rd = self.dele.read_register
        return tuple([rd(i) for i in IDX])

    def memory_equal(self):
        for start, data in self.mem.regions:
            if self.dele.read_memory_block(start, len(data)) != data:
                return False
        return True


def diff_regs(got, want):
    out = []
    for name, g, w in zip(IDX_NAMES, got, want):
        if g != w:
            if isinstance(g, int) and isinstance(w, int):
                out.append('%s is %#x, should be %#x' % (name, g, w))
            else:
                out.append('%s is %r, should be %r' % (name, g, w))
    return out


def describe(s):
    return {n: '%#x' % v for n, v in zip(IDX_NAMES, s.regs()) if v} if s is not None else None


class Checker(object):
    """Executes one decoded instruction on one state and compares everything."""

    def __init__(self, rec, prop, regions, known=None):
        self.m = Machine(regions)
        self.rec = rec
        self.prop = prop
        self.known = known or {}
        self.dirty = False
        self.caps = 0

    def decode(self, h1, h2=None):
        """(implementation's instruction, reference instruction) or (None, ref) when not executable."""
        ref = isa.decode(h1, h2 or 0)
        if (ref.st is not isa.OK and not (self.caps & isa.DSP and ref.st is isa.MAY and ref.k == 'msr')) or ref.k is None:
            return None, ref
        try:
            ins = self.m.im.decode(word_bytes(h1, h2))
        except Exception as e:
            self.rec.violate('%s %s does not decode: %r' % (enc(h1, h2), ref.mn, e), {'word': enc(h1, h2)})
            return None, ref
        return ins, ref

    def run(self, h1, h2, ins, ref, s, pc_mod2=False):
        """Execute on State s (whose mem must be self.m.mem). True when equal to the model."""
        m = self.m
        m.load(s)
        rec = self.rec
        rec.transitions += 1
        want = s.copy()
        isa.execute(ref, want, False, self.caps)
        try:
            ins.execute(m.cpu)
        except Exception as e:
            if ref.k in ('st', 'push', 'stm'):
                m.reset_memory()
            return self.fail(h1, h2, ref, s, ['raises %s: %s' % (type(e).__name__, e)])
        got = m.regs()
        w = want.regs()
        bad = None
        if got != w:
            if pc_mod2 and got[:15] == w[:15] and got[16:] == w[16:] and isinstance(got[15], int) \
                    and got[15] | 1 == w[15] | 1:
                pass
            else:
                bad = diff_regs(got, w)
                if isa.reads_pc(ref):
                    key = 'pc-operand %s' % enc(h1, h2)
                    if key in self.known:
                        alt = s.copy()
                        isa.execute(ref, alt, True, self.caps)
                        if got == alt.regs():
                            rec.finding(key, bad[0])
                            rec.count('known finding: PC operand without the +4')
                            bad = None
        k = ref.k
        if k == 'st' or k == 'push' or k == 'stm':
            unk = isa.unknown_store(ref)
            if unk is not None:
                addr = s.r[ref.p[0]] + 4 * unk & M32
                m.mem.write(addr, m.dele.read_memory(addr, 32), 4)
            if not m.memory_equal():
                bad = (bad or []) + ['memory differs: %s' % self.memory_diff()]
            m.reset_memory()
        elif not m.memory_equal():
            bad = (bad or []) + ['memory was changed: %s' % self.memory_diff()]
            m.reset_memory()
        if bad:
            return self.fail(h1, h2, ref, s, bad)
        return True

    def memory_diff(self):
        for start, data in self.m.mem.regions:
            got = self.m.dele.read_memory_block(start, len(data))
            if got is None or len(got) != len(data):
                return 'region at %#x is now %r bytes' % (start, got if got is None else len(got))
            for i, (g, w) in enumerate(zip(got, data)):
                if g != w:
                    return 'byte at %#x is %#x, should be %#x' % (start + i, g, w)
        return 'none'

    def fail(self, h1, h2, ref, s, bad):
        line = isa.text(ref, s.r[15], h1, h2)
        self.rec.violate('%s: executing "%s" on %s: %s' % (self.prop, line, describe(s), '; '.join(bad)),
                         {'kind': 'execute', 'h1': h1, 'h2': h2, 'state': list(s.regs()), 'handler': s.handler,
                          'regions': [[a, len(d)] for a, d in self.m.regions], 'difference': bad})
        if len(self.rec.violations) >= self.rec.MAX_VIOLATIONS:
            from .core import StopShard
            raise StopShard()
        return False
