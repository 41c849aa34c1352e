"""A decoded instruction can be executed and formatted any number of times, in any order, on any processor."""
import itertools
from .. import core, spaces
from ..family import make_states, pattern_bytes
from ..machine import Checker, Machine, diff_regs, enc, impl, word_bytes
from ..ref import isa
from ..vocab import vocabulary

ID = 'C14'
BOUNDS = {
    'quick': 'for 2 members of every decoding rule: all sequences of 4 operations out of {execute on processor A, on B, '
             'on A in a different state, format, format at another address, decode the same word again and use it}; '
             'for all ordered pairs of 1 member of every rule: all 16 sequences of 4 uses of the two instructions; one object of every rule, of loads near the PC, conditions and special registers used in a state, in one that differs from it in one register, flag, mode or mask or in memory (about 110 such changes of 3 states), and back; one object of every shifted operand form in every ordered pair of 12 states; one object of '
             'every rule executed 600 times, in one state and then another, and alternating between 6 machine states',
    'thorough': 'sequences of 5 operations on 3 members of every rule, all pairs of one-field changes on one object',
}
ASSUMPTIONS = ['words accepted although architecturally unpredictable are left out']
REGION = (0x20000000, pattern_bytes(0x100, 3))


def state(mem, kind):
    s = make_states(mem, ((0x20000002, 0x20000010, 0x20000004)[kind],), (('spread', 'high', 'alt')[kind],))[0]
    for i in range(13):
        if kind == 1:
            s.r[i] = 0x20000040 + 4 * i
    s.control = 2 if kind == 1 else 0
    s.msp, s.psp = 0x20000050 + 4 * kind, 0x20000070
    s.r[13] = s.psp if s.control & 2 else s.msp
    s.xpsr = (0x61000000, 0x91000000, 0xa1000000)[kind]
    s.r[2], s.r[3], s.r[4] = (3, 0x20000020, 0x20000024) if kind == 0 else (0x20000060, 0x41, 5) if kind == 1 else \
        (0xffffff21, 0x20000030, 0x80000000)
    return s


def shards(tier):
    n = len(vocabulary(3 if tier == 'thorough' else 2))
    out = [('one', c) for c in spaces.rotate_chunks(range(n), 64)]
    out += [('two', c) for c in spaces.rotate_chunks(range(len(vocabulary(1))), 32)]
    out += [('hot', c) for c in spaces.rotate_chunks(range(len(vocabulary(1))), 32)]
    out += [('axes', c) for c in spaces.rotate_chunks(range(len(axis_words(tier))), 32)]
    out += [('shift', c) for c in spaces.rotate_chunks(range(len(shifted())), 32)]
    return [x + (tier,) for x in out]


FAR = (0x20000000, 0x20010000, 0x24000000)
LITERALS = (0xf81f, 0xf83f, 0xf85f, 0xf89f, 0xf8bf, 0xf8df, 0xf91f, 0xf93f, 0xf99f, 0xf9bf, 0xe95f, 0xe9df)


def axis_words(tier):
    """Members of every rule, loads near the PC, every special register and all conditions."""
    out = [(h1, h2) for h1, h2, ref in vocabulary(4 if tier == 'thorough' else 2)]
    out += [(0x4801, None), (0x4b03, None), (0xa002, None)]
    out += [(h1, 0x1304 if h1 >> 8 == 0xe9 else h2) for h1 in LITERALS for h2 in (0x1004, 0x300a)]
    out += [(0xd004 | c << 8, None) for c in range(14)]
    for n in (0, 1, 2, 3, 5, 6, 7, 8, 9, 16, 17, 18, 19, 20):
        out += [(0xf3ef, 0x8100 | n), (0xf381, 0x8800 | n)]
    out += [(h, None) for h in range(0xb660, 0xb680)]
    words = []
    for h1, h2 in sorted(set(out), key=repr):
        ref = isa.decode(h1, h2 or 0)
        if ref.st is isa.OK and ref.k is not None and not isa.reads_pc(ref):
            words.append((h1, h2, ref))
    return words


def axis_states(mem):
    """[(base state, [(what, state that differs from it in one place)])]"""
    out = []
    for kind in range(3):
        s = make_states(mem, (0x20000020,), (('spread', 'high', 'alt')[kind],))[0]
        if kind:
            for i in range(13):
                s.r[i] = 0x20000010 + 4 * (i ^ kind)
        s.msp, s.psp, s.control, s.xpsr = 0x20000050, 0x20000070, 0, 0x01000000 | (0, 0x90000000, 0x60000000)[kind]
        s.r[13] = s.msp
        axes = []

        def axis(what, **kw):
            t = s.copy()
            for k, v in kw.items():
                setattr(t, k, v)
            t.r[13] = t.psp if t.control & 2 else t.msp
            axes.append((what, t))

        def reg(n, v):
            t = s.copy()
            t.r[n] = v & 0xffffffff
            axes.append(('r%d' % n, t))
        for i in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14):
            for v in (s.r[i] + 4, s.r[i] ^ 0x80000000, s.r[i] + 0x10000, s.r[i] ^ 1, s.r[i] ^ 0x100, 0):
                reg(i, v)
        for v in (0x20000022, 0x20000024, 0x20010020, 0x24000020, 0x20000060):
            reg(15, v)
        for bit in (0x80000000, 0x40000000, 0x20000000, 0x10000000, 0x08000000, 0x00010000, 3):
            axis('xpsr', xpsr=s.xpsr ^ bit)
        axis('msp', msp=0x20000060)
        axis('msp', msp=0x20010050)
        axis('psp', psp=0x20000080)
        for c in (1, 2, 3):
            axis('control', control=c)
        axis('mode', handler=True)
        axis('primask', primask=1 - s.primask)
        axis('faultmask', faultmask=1 - s.faultmask)
        axis('basepri', basepri=0x80)
        out.append((s, axes))
    return out


def shifted():
    """Data processing and shift encodings with every kind of shift, by amounts 0, 1, 31 and 32 places."""
    out = []
    for h1 in list(range(0xea00, 0xec00, 16)) + list(range(0xfa00, 0xfa80, 16)):
        for h1 in (h1 | 1, h1 | 15):
            for h2 in (0x0002, 0x0042, 0x70c2, 0x0012, 0x70d2, 0x0022, 0x70e2, 0x0032, 0x0072, 0x70f2, 0xf002):
                for rd in (0x400, 0xf00):
                    ref = isa.decode32(h1, h2 | rd)
                    if ref.st is isa.OK and ref.k is not None and not isa.reads_pc(ref):
                        out.append((h1, h2 | rd, ref))
    return out


def shift_state(mem, k):
    s = state(mem, 0)
    s.r[1], s.r[2] = [(0xffffffff, 1), (0x80000001, 0x80000001), (0, 0xfffffffe), (0x7fffffff, 0x80000000), (0x12345678, 0x55555555),
                      (0, 0)][k >> 1]
    s.xpsr = 0x01000000 | (k & 1) << 29 | (k * 5 & 15) << 28 & 0xd0000000
    return s




class Bench(object):
    def __init__(self, rec):
        self.rec = rec
        self.im = impl()
        self.cks = [Checker(rec, ID, [REGION], PCFIND), Checker(rec, ID, [REGION], PCFIND)]
        self.fmts = [self.im.Formatter(None), self.im.Formatter(self.cks[0].m.cpu)]
        self.states = {(p, k): state(self.cks[p].m.mem, k) for p in (0, 1) for k in (0, 1, 2)}

    def execute(self, w, ins, p, k):
        h1, h2, ref = w
        if ref.st is not isa.OK or ref.k is None:
            return True
        return self.cks[p].run(h1, h2, ins, ref, self.states[p, k], ref.k in ('pop', 'ldm'))

    def format(self, w, ins, addr, set_addr):
        h1, h2, ref = w
        if set_addr:
            ins.address = addr
        want = isa.text(ref, addr, h1, h2)
        for f in self.fmts:
            t = f.format(ins)
            if t != want:
                break
        self.rec.transitions += 1
        if t != want or ins.mnemonic != ref.mn or ins.size != ref.size or bytes(ins.bytes) != bytes(word_bytes(h1, h2)):
            return 'formats as %r (%s, %d bytes), should be %r' % (t, ins.mnemonic, ins.size, want)
        return None


def _pcfind():
    out = {}
    for h in spaces.HW16:
        i = isa.decode16(h)
        if i.st is isa.OK and isa.reads_pc(i):
            out['pc-operand %04x' % h] = True
    return out


PCFIND = _pcfind()
OPS = ['execute on A', 'execute on B', 'execute on A, other state', 'format', 'format at another address', 'decode again']


def run_shard(shard, rec):
    kind, idx, tier = shard
    b = Bench(rec)
    im = b.im

    def step(w, slot, op, path):
        ins, addr = slot
        if op < 3:
            ok = b.execute(w, ins, (0, 1, 0)[op], (0, 1, 2)[op])
            if not ok:
                rec.violations[-1]['message'] += '\n  after: ' + ', '.join(OPS[o] for o in path)
            return ok
        if op == 5:
            # a second object for the same word, used between two uses of the first one
            other = im.decode(word_bytes(*w[:2]), 0x3000)
            ok = b.execute(w, other, 1, 2)
            p = b.format(w, other, 0x3000, False)
        else:
            if op == 4:
                slot[1] = addr = 0x1002 if addr == 0x8000 else 0x8000
            ok = True
            p = b.format(w, ins, addr, op == 4)
        if p:
            rec.violate('%s %s: %s after: %s' % (enc(*w[:2]), w[2].mn, p, ', '.join(OPS[o] for o in path)),
                        {'kind': 'reuse', 'h1': w[0], 'h2': w[1], 'path': [OPS[o] for o in path]})
            return False
        return ok

    if kind == 'one':
        voc = vocabulary(3 if tier == 'thorough' else 2)
        depth = 5 if tier == 'thorough' else 4
        for i in idx:
            w = voc[i]
            if w[2].st is not isa.OK:
                continue
            rec.tick()
            for path in itertools.product(range(6), repeat=depth):
                slot = [im.decode(word_bytes(*w[:2]), 0x8000), 0x8000]
                for n, op in enumerate(path):
                    if not step(w, slot, op, path[:n + 1]):
                        return
                rec.traces += 1
                rec.tick()
            rec.states_n(6 ** depth)
            rec.outcome(w[2].mn)
            rec.sample('all %d-operation histories of %s' % (depth, isa.text(w[2], 0, *w[:2])))
    elif kind == 'axes':
        words = axis_words(tier)
        contents = [[(a, pattern_bytes(0x100, n + 5 * k)) for n, a in enumerate(FAR)] for k in (0, 1)]
        ck = Checker(rec, ID, contents[0])
        plan = axis_states(ck.m.mem)

        def memory(k):
            # an instruction that loads sees other data at the same address
            ck.m.regions = contents[k]
            ck.m.reset_memory()
        for i in idx:
            h1, h2, ref = words[i]
            pc2 = ref.k in ('pop', 'ldm')

            def use(ins, t, what):
                rec.tick()
                if ck.run(h1, h2, ins, ref, t, pc2):
                    return True
                rec.violations[-1]['message'] += '\n  on one object, after: ' + what
                return False
            for base, axes in plan:
                for n, (what, t) in enumerate(axes):
                    ins = im.decode(word_bytes(h1, h2), 0x8000)
                    then = axes[n + 1:] if tier == 'thorough' else axes[n + 1:n + 2]
                    if not (use(ins, base, 'nothing') and use(ins, t, 'a state with another ' + what)
                            and use(ins, base, 'a state with another ' + what)):
                        return
                    for what2, t2 in then:
                        if not (use(ins, t2, 'states with another ' + what) and use(ins, t, 'states with another ' + what2)):
                            return
                    rec.traces += 1
                    rec.states_n(3 + 2 * len(then))
                ins = im.decode(word_bytes(h1, h2), 0x8000)
                ok = True
                for k in (0, 1, 0):
                    memory(k)
                    ok = ok and use(ins, base, 'the memory held other bytes')
                memory(0)
                if not ok:
                    return
                rec.states_n(3)
        rec.outcome('one field changed')
    elif kind == 'shift':
        words = shifted()
        ck = b.cks[0]
        states = [shift_state(ck.m.mem, k) for k in range(12)]
        for i in idx:
            h1, h2, ref = words[i]
            rec.tick()
            text = isa.text(ref, 0x8000, h1, h2)
            ins = im.decode(word_bytes(h1, h2), 0x8000)
            for j in range(12):
                for k in range(12):
                    # every state straight after every other, on one object
                    for s in (states[j], states[k]):
                        if not ck.run(h1, h2, ins, ref, s, False):
                            rec.violations[-1]['message'] += '\n  on one object used in states %d and %d before' % (j, k)
                            return
            got = b.fmts[0].format(ins)
            rec.transitions += 1
            if got != text:
                rec.violate('%s %s formats as %r after use, should be %r' % (enc(h1, h2), ref.mn, got, text),
                            {'kind': 'reuse', 'h1': h1, 'h2': h2})
                return
            rec.states_n(144)
            rec.traces += 1
        rec.outcome('shifted operands')
    elif kind == 'hot':
        # an object used so often that anything learned about it shows
        voc = vocabulary(1)
        n = 2400 if tier == 'thorough' else 600
        for i in idx:
            w = voc[i]
            if w[2].st is not isa.OK:
                continue
            for plan in ('steady', 'mixed', 'two by two'):
                ins = im.decode(word_bytes(*w[:2]), 0x8000)
                for t in range(n):
                    if plan == 'steady':
                        p, k = (0, 0) if t < n // 2 else (t & 1, t % 3)
                    elif plan == 'mixed':
                        p, k = t & 1, t % 3
                    else:
                        p, k = t >> 1 & 1, (t >> 4) % 3
                    if not t & 31:
                        rec.tick()
                        bad = b.format(w, ins, 0x8000 + (t & 64), True)
                        if bad:
                            rec.violate('%s %s: %s at use %d' % (enc(*w[:2]), w[2].mn, bad, t),
                                        {'kind': 'hot', 'h1': w[0], 'h2': w[1], 'use': t, 'plan': plan})
                            return
                    if not b.execute(w, ins, p, k):
                        rec.violations[-1]['message'] += '\n  at use %d of one object (%s)' % (t, plan)
                        return
                rec.traces += 1
                rec.states_n(n)
    else:
        voc = [w for w in vocabulary(1) if w[2].st is isa.OK]
        for i in idx:
            if i >= len(voc):
                continue
            for j in range(len(voc)):
                rec.tick()
                ws = (voc[i], voc[j])
                slots = [[im.decode(word_bytes(*w[:2]), 0x8000), 0x8000] for w in ws]
                for path in itertools.product((0, 1), repeat=4):
                    for n, which in enumerate(path):
                        w, slot = ws[which], slots[which]
                        if not (b.execute(w, slot[0], which, n % 3)):
                            return
                        p = b.format(w, slot[0], 0x8000, False)
                        if p:
                            rec.violate('%s %s: %s after uses of %s' % (enc(*w[:2]), w[2].mn, p, [
                                enc(*x[:2]) for x in ws]), {'kind': 'reuse', 'words': [enc(*x[:2]) for x in ws]})
                            return
                    rec.traces += 1
                rec.states_n(16)
    rec.count('operations', rec.transitions)
    rec.findings.clear()
