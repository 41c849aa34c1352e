"""An instruction touches only what it names: the traffic seen by the delegate."""
from .. import core, spaces
from ..family import FLAGS, family_h1, make_states, pattern_bytes
from ..machine import IDX, IDX_NAMES, describe, enc, impl, word_bytes
from ..ref import isa
from .c04 import ALLFAM

ID = 'C13'
BOUNDS = {
    'quick': 'all executable 16-bit encodings on 6 machine states, all 65536 second halfwords for every first halfword that '
             'begins a supported 32-bit encoding other than bl on 2 machine states and a 3000-element set of them on 4, run on a delegate that records every call: every memory access '
             '(address, size, value), every register written, the type and range of every value, and the complete '
             'final state',
    'thorough': 'as quick with every encoding on 6 machine states, and bl with 1000 second halfwords for every first halfword',
}
ASSUMPTIONS = ['the order of the accesses of one multiple transfer is not compared',
               'encodings that are architecturally unpredictable are not executed',
               'the known finding about PC as a source operand is compared against its listed reading']
REGION = (0x20000000, bytes(pattern_bytes(0x500, 9)))


def make_delegate(im):
    from cmdis.model import CpuModelDelegate

    class Recording(CpuModelDelegate):
        def __init__(self):
            super(Recording, self).__init__()
            self.s = None
            self.log = None

        def start(self, s):
            self.s = s
            self.regs = dict(zip(IDX, s.regs()))
            self.written = set()
            self.reads = []
            self.writes = []
            self.bad = []

        def plain(self, what, v, bits):
            if type(v) is not int:
                self.bad.append('%s is %r, not a plain integer' % (what, v))
            elif not 0 <= v < 1 << bits:
                self.bad.append('%s is %#x, outside %d bits' % (what, v, bits))

        def read_register(self, reg):
            if type(reg) is not int or reg not in self.regs:
                self.bad.append('register number %r is read' % (reg,))
            return self.regs[reg]

        def write_register(self, reg, value):
            if type(reg) is not int or reg not in self.regs:
                self.bad.append('register number %r is written' % (reg,))
            self.plain('value written to %s' % (reg,), value, 32)
            self.written.add(reg)
            if reg in (13, 17, 18):
                value &= ~3
            R = self.regs
            R[reg] = value
            psp = R[-4] & 2
            if reg == 13:
                R[18 if psp else 17] = value
            elif reg == -4 or reg in (17, 18):
                R[13] = R[18 if psp else 17]

        def read_memory(self, addr, size=32):
            self.plain('address read', addr, 32)
            self.reads.append((addr, size))
            return self.s.mem.read(addr, size // 8)

        def write_memory(self, addr, value, size=32):
            self.plain('address written', addr, 32)
            if size not in (8, 16, 32):
                self.bad.append('access size is %r' % (size,))
            else:
                self.plain('value stored', value, size)
            self.writes.append((addr, size, value))

    return Recording()


class LoggedMemory(object):
    """Model memory that logs the model's accesses; reads come from the region, writes go nowhere."""

    def __init__(self, mem):
        self.mem = mem
        self.reads = []
        self.writes = []

    def read(self, addr, size):
        self.reads.append((addr, size * 8))
        return self.mem.read(addr, size)

    def write(self, addr, value, size):
        self.writes.append((addr, size * 8, value & (1 << 8 * size) - 1))


MSR_DEST = {8: {17, 13}, 9: {18, 13}, 16: {-1}, 17: {-2}, 18: {-2}, 19: {-3}, 20: {-4}}


def destinations(ref):
    k, p = ref.k, ref.p
    out = {15}
    if k == 'add':
        if p[0] is not None:
            out.add(p[0])
        if p[5]:
            out.add(16)
    elif k == 'rsb' or k == 'mul':
        out.add(p[0])
        if p[3]:
            out.add(16)
    elif k == 'logic':
        out |= {p[1], 16}
    elif k == 'shift':
        out |= {p[0], 16}
    elif k == 'mov':
        out.add(p[0])
        if p[2]:
            out.add(16)
    elif k == 'mvn':
        out.add(p[0])
        if p[4]:
            out.add(16)
    elif k == 'tst':
        out.add(16)
    elif k in ('ext', 'rev', 'rev16', 'revsh', 'adr', 'mrs', 'ld', 'ldrlit'):
        out.add(p[0])
    elif k in ('b', 'bx'):
        if p[-1]:
            out.add(14)
    elif k == 'push':
        out.add(13)
    elif k == 'pop':
        out |= {13} | {i for i in range(16) if p[0] >> i & 1}
    elif k == 'ldm':
        out |= {i for i in range(16) if p[1] >> i & 1}
        if p[2]:
            out.add(p[0])
    elif k == 'stm':
        if p[2]:
            out.add(p[0])
    elif k == 'cps':
        out |= {-1, -3}
    elif k == 'msr':
        out |= {16} if p[1] < 8 else MSR_DEST[p[1]]
    return out


def states(mem, n):
    out = make_states(mem, (0x20000100, 0x20000202), ('spread', 'high'))
    for j, s in enumerate(out):
        s.msp, s.psp = 0x20000200 + 4 * j, 0x20000300 + 8 * j
        s.r[13] = s.psp if s.control & 2 else s.msp
        if j & 1 == 0:
            # usable addresses in every register
            for i in range(13):
                s.r[i] = 0x20000040 + 4 * (i * 5 + j)
            s.r[14] = 0x20000090
    u = out[0].copy()
    u.control = 1
    u.r[13] = u.msp
    h = out[2].copy()
    h.handler, h.control = True, 1
    h.r[13] = h.msp
    return [out[0], out[1], u, h, out[2], out[3]][:n]


def shards(tier):
    out = [('16', c) for c in spaces.rotate_chunks(spaces.HW16, 16)]
    out += [('32', c) for c in spaces.rotate_chunks(family_h1(ALLFAM) + list(range(0xf000, 0xf800, 37)), 64)]
    out += [('full', c) for c in spaces.rotate_chunks(family_h1(ALLFAM), 128)]
    if tier == 'thorough':
        out += [('bl', c) for c in spaces.rotate_chunks(range(0xf000, 0xf800), 32)]
    return [x + (tier,) for x in out]


def run_shard(shard, rec):
    kind, hs, tier = shard
    im = impl()
    mem = isa.Memory([REGION])
    n = {'16': 6, '32': 4, 'full': 6 if tier == 'thorough' else 2, 'bl': 2}[kind]
    sts = states(mem, n)
    dele = make_delegate(im)
    cpu = im.CpuModel()
    cpu.delegate = dele
    h2s = {'16': (None,), '32': spaces.H2_SET, 'full': range(0x10000),
           'bl': [b | d for b in (0xd000, 0xd800, 0xf000, 0xf800) for d in range(0, 2048, 8)]}[kind]
    cnt = 0
    for h1 in hs:
        rec.tick()
        for h2 in h2s:
            ref = isa.decode(h1, h2 or 0)
            if ref.st is not isa.OK or ref.k is None:
                continue
            cnt += 1
            if not cnt & 63:
                rec.tick()
            try:
                ins = im.decode(word_bytes(h1, h2))
            except Exception as e:
                rec.violate('%s does not decode: %r' % (enc(h1, h2), e), {'word': enc(h1, h2)})
                return
            allowed = destinations(ref)
            for s in sts:
                lm = LoggedMemory(mem)
                want = s.copy(lm)
                isa.execute(ref, want)
                dele.start(s)
                cpu.mode = im.CpuMode.Handler if s.handler else im.CpuMode.Thread
                rec.transitions += 1
                try:
                    ins.execute(cpu)
                except Exception as e:
                    bad = ['raises %s: %s' % (type(e).__name__, e)]
                else:
                    bad = judge(dele, ref, want, lm, allowed, s)
                if bad:
                    rec.violate('executing "%s" on %s: %s' % (isa.text(ref, s.r[15], h1, h2), describe(s),
                                                             '; '.join(bad)),
                                {'kind': 'footprint', 'h1': h1, 'h2': h2, 'state': list(s.regs()),
                                 'handler': s.handler, 'difference': bad})
                    if len(rec.violations) >= rec.MAX_VIOLATIONS:
                        return
            rec.outcome(ref.mn)
    rec.states_n(cnt * len(sts))
    rec.count('encodings', cnt)
    rec.traces = rec.transitions
    rec.sample('%s..., %d encodings' % (enc(hs[0]), cnt))


def judge(dele, ref, want, lm, allowed, s):
    bad = list(dele.bad)
    extra = dele.written - allowed
    if extra:
        bad.append('writes %s' % ', '.join(IDX_NAMES[IDX.index(x)] if x in IDX else repr(x)
                                           for x in sorted(extra, key=repr)))
    if sorted(dele.reads) != sorted(lm.reads):
        bad.append('reads memory %s, should read %s' % (access(dele.reads), access(lm.reads)))
    got_w, want_w = sorted(dele.writes), sorted(lm.writes)
    if got_w != want_w:
        unk = isa.unknown_store(ref)
        if unk is None or [x[:2] for x in got_w] != [x[:2] for x in want_w] or \
                any(g != w for i, (g, w) in enumerate(zip(got_w, want_w)) if i != unk):
            bad.append('writes memory %s, should write %s' % (access(dele.writes), access(lm.writes)))
    regs = want.regs()
    got = tuple(dele.regs[i] for i in IDX)
    if got != regs:
        if ref.k in ('pop', 'ldm') and got[15] | 1 == regs[15] | 1:
            got = got[:15] + (regs[15],) + got[16:]
        elif isa.reads_pc(ref):
            alt = s.copy(LoggedMemory(s.mem))
            isa.execute(ref, alt, pc_reads_plain=True)
            regs = alt.regs()
        if got != regs:
            bad += ['%s is %#x, should be %#x' % (nm, g, w) for nm, g, w in zip(IDX_NAMES, got, regs) if g != w]
    return bad


def access(log):
    return '[' + ', '.join('%#x/%d%s' % (x[0], x[1], '=%#x' % x[2] if len(x) > 2 else '') for x in log) + ']'
