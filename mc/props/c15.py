"""Processors, disassemblers and threads do not disturb each other."""
import itertools
import sys
import threading

from .. import core, spaces
from ..family import make_states, pattern_bytes
from ..machine import Machine, diff_regs, enc, impl, word_bytes
from ..ref import isa
from ..vocab import rule, vocabulary

ID = 'C15'
BOUNDS = {
    'quick': 'two processors: all 20 interleavings of 3+3 instructions for all ordered pairs of 24 instruction '
             'sequences; all histories of 3 of 15 operations (mode, control, registers, flags, memory, a new processor, instructions) on two processors; two disassembly streams: all 252 interleavings of 5+5 items for all pairs of 12 buffers; '
             'threads: a task (decode, format, execute) for each of ~40 words, one per kind of effect and size, preempted '
             'once at every executed line of cmdis by each of 5 others (one of them the same word), and a member of every '
             'decoding rule preempted at every line by another member of the rule, and one of every rule by another thread using the same decoded instruction; and, for 4 pairs, all schedules of two real threads with two preemptions at every 16th line',
    'thorough': 'as quick with histories of 4 operations, preempted by each of those words, and two preemptions at every 5th line for 8 pairs',
}
ASSUMPTIONS = ['preemption happens between source lines of cmdis, as the tracing hook of the interpreter sees them']
REGION = (0x20000000, pattern_bytes(0x100, 3))


def state(mem, kind):
    s = make_states(mem, (0x20000002,), (('spread', 'high')[kind],))[0]
    for i in (3, 5, 7):
        s.r[i] = 0x20000020 + 4 * i + 8 * kind
    s.r[2] = 5 + kind
    s.control = 2 * kind
    s.msp, s.psp = 0x20000050 + 4 * kind, 0x20000070
    s.r[13] = s.psp if kind else s.msp
    s.xpsr = (0x61000000, 0x91000000)[kind]
    return s


def ok_words(per):
    seen, out = set(), []
    for w in vocabulary(per):
        ref = w[2]
        if ref.st is isa.OK and ref.k is not None and not isa.reads_pc(ref):
            out.append(w)
    return out


def thread_words():
    ws = ok_words(1)
    seen, out = set(), []
    for w in ws:
        key = (w[2].k, w[2].size)
        if key not in seen:
            seen.add(key)
            out.append(w)
    return out


def twins():
    """For every decoding rule two members with different operands."""
    groups = {}
    for w in ok_words(3):
        groups.setdefault(rule(w[2]), []).append(w)
    return [(g[0], g[-1]) for _, g in sorted(groups.items(), key=lambda x: repr(x[0])) if len(g) > 1]


def every_kind():
    """One word per decoding rule."""
    seen = {}
    for w in ok_words(1):
        seen.setdefault(rule(w[2]), w)
    return [w for _, w in sorted(seen.items(), key=lambda x: repr(x[0]))]


def sequences():
    ws = ok_words(1)
    return [tuple(ws[(i * 7 + j * 13) % len(ws)] for j in range(3)) for i in range(24)]


OBJECT_OPS = ['thread', 'handler', 'control=1', 'control=2', 's5', 's31', 'r7', 'sp', 'flags', 'xpsr', 'memory', 'primask', 'new', 'cps',
              'list']


class Pair(object):
    """Two processors driven through their public interface, and what each of them should hold."""

    def __init__(self, im):
        from cmdis.model import CpuMode
        from .c22 import Model
        self.im, self.mode, self.Model = im, CpuMode, Model
        self.cps = im.decode(bytes.fromhex('73b6'), 0)            # cpsid if
        self.mov = im.decode(bytes.fromhex('2925'), 0)            # movs r5, #41
        self.reset()

    def reset(self):
        self.cpus = [self.fresh(), self.fresh()]
        self.want = [self.model(), self.model()]

    def fresh(self):
        cpu = self.im.CpuModel()
        cpu.delegate = self.im.Mock()
        cpu.delegate.add_memory(0x100, 16)
        return cpu

    def model(self):
        m = self.Model()
        m.mode, m.mem = self.mode.Thread, bytearray(16)
        return m

    def do(self, p, op, n):
        cpu, m = self.cpus[p], self.want[p]
        v = 0x1010 * (n + 1) + 0x100000 * (p + 1)
        if op in ('thread', 'handler'):
            m.mode = cpu.mode = self.mode.Thread if op == 'thread' else self.mode.Handler
        elif op.startswith('control='):
            m.write('control', int(op[8:]))
            cpu.write_register('control', int(op[8:]))
        elif op in ('s5', 's31'):
            m.write(op, v)
            cpu.s[int(op[1:])] = v
        elif op == 'r7':
            m.write('r7', v)
            cpu.r[7] = v
        elif op == 'sp':
            m.write('sp', v)
            cpu.sp = v
        elif op == 'flags':
            m.write('xpsr', m.r['xpsr'] & 0x0fffffff | 0xa0000000)
            cpu.apsr.n, cpu.apsr.z, cpu.apsr.c, cpu.apsr.v = 1, 0, 1, 0
        elif op == 'xpsr':
            m.write('xpsr', 0x51000000 | v)
            cpu.xpsr = 0x51000000 | v
        elif op == 'memory':
            m.mem[4 + n] = v >> 4 & 255
            cpu.write8(0x104 + n, v >> 4 & 255)
        elif op == 'primask':
            m.write('primask', 1)
            cpu.write_register('primask', 1)
        elif op == 'new':
            self.cpus[p], self.want[p] = self.fresh(), self.model()
        elif op == 'cps':
            if m.mode is self.mode.Handler or not m.r['control'] & 1:
                m.write('primask', 1)
                m.write('faultmask', 1)
            m.write('pc', m.r['pc'] + 2)
            self.cps.execute(cpu)
        else:
            m.write('r5', 41)
            m.write('xpsr', m.r['xpsr'] & 0x3fffffff)
            m.write('pc', m.r['pc'] + 2)
            cpu.execute([self.mov])

    def problem(self):
        for p in (0, 1):
            cpu, m = self.cpus[p], self.want[p]
            for n, v in m.r.items():
                got = cpu.read_register(n)
                if got.unsigned != v:
                    return 'processor %d: %s is %r, should be %#x' % (p, n, got, v)
            x = m.r['xpsr']
            got = [cpu.apsr.n.unsigned, cpu.apsr.z.unsigned, cpu.apsr.c.unsigned, cpu.apsr.v.unsigned, cpu.s[5].unsigned,
                   cpu.s[31].unsigned, cpu.r[7].unsigned, cpu.sp.unsigned, cpu.mode, cpu.is_privileged,
                   bytes(cpu.read_memory_block(0x100, 16))]
            want = [x >> 31, x >> 30 & 1, x >> 29 & 1, x >> 28 & 1, m.r['s5'], m.r['s31'], m.r['r7'], m.r['sp'], m.mode,
                    m.mode is self.mode.Handler or not m.r['control'] & 1, bytes(m.mem)]
            if got != want:
                return 'processor %d: flags, s5, s31, r7, sp, mode, privilege, memory are %r, should be %r' % (p, got, want)
        return None


BUFS = [bytes.fromhex(x) for x in (
    '00bf05200121022303240525', '00f001f800bf00f002f805200121', '4ff0050105204ff00602012141f20103', '10b510bd00bf70477047',
    '01200220032004200520', 'fee7fed100bf05200121', '2de9f04fbde8f08f05200121022200bf', '01bf00bf00bf', '0520012101bf00bf',
    '60b605200121', '05200121022260b600bf', 'effe0580effe068000bf0520')]


def shards(tier):
    out = [('cpus', i) for i in range(24)]
    out += [('streams', i) for i in range(len(BUFS))]
    n = len(thread_words())
    out += [('objects', i) for i in range(len(OBJECT_OPS) * 2)]
    out += [('preempt', i) for i in range(n)]
    out += [('twins', i) for i in range(len(twins()))]
    out += [('shared', c) for c in spaces.rotate_chunks(list(range(len(every_kind()))), 16)]
    out = [('two', (i, c)) for i in range(8 if tier == 'thorough' else 4) for c in range(8)] + out
    return [x + (tier,) for x in out]


def expect(w, s, addr):
    ref = w[2]
    t = s.copy(isa.Memory([(a, bytes(d)) for a, d in s.mem.regions]))
    isa.execute(ref, t)
    return isa.text(ref, addr, w[0], w[1]), t


class Task(object):
    """Decode, format and execute one word on a processor of its own."""

    def __init__(self, w, kind, at=None):
        self.shared = None                  # a decoded instruction to use instead of decoding one
        self.w = w
        self.m = Machine([REGION])
        self.s = state(self.m.mem, kind)
        self.addr = (0x8000, 0x20000102)[kind] if at is None else at
        self.want = expect(w, self.s, self.addr)
        self.fmt = self.m.im.Formatter(self.m.cpu)
        self.data = word_bytes(w[0], w[1])

    def prepare(self):
        self.m.reset_memory()
        self.m.load(self.s)
        self.text = None
        self.error = None

    def run(self):
        try:
            i = self.shared or self.m.im.decode(self.data, self.addr)
            self.text = self.fmt.format(i)
            i.execute(self.m.cpu)
        except Exception as e:
            self.error = '%s: %s' % (type(e).__name__, e)

    def problem(self):
        if self.error:
            return 'raises ' + self.error
        text, t = self.want
        if self.text != text:
            return 'formats as %r, should be %r' % (self.text, text)
        got, want = self.m.regs(), t.regs()
        if got != want and not (self.w[2].k in ('pop', 'ldm') and got[:15] == want[:15] and got[16:] == want[16:] and
                                got[15] | 1 == want[15] | 1):
            return '; '.join(diff_regs(got, want))
        unk = isa.unknown_store(self.w[2])
        if unk is None:
            for start, data in t.mem.regions:
                if self.m.dele.read_memory_block(start, len(data)) != data:
                    return 'memory differs'
        return None


def report(rec, what, tasks):
    for t in tasks:
        p = t.problem()
        if p:
            rec.violate('%s: "%s" %s' % (what, t.want[0], p),
                        {'kind': 'isolation', 'what': what, 'words': [enc(x.w[0], x.w[1]) for x in tasks]})
            if len(rec.violations) >= rec.MAX_VIOLATIONS:
                raise core.StopShard()


class LineCounter(object):
    """Trace function calling `at` when the n-th line of cmdis is reached."""

    def __init__(self, root, n, at):
        self.root = root
        self.left = n
        self.at = at
        self.lines = 0

    def __call__(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.root):
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == 'line':
            self.lines += 1
            if self.lines == self.left:
                sys.settrace(None)
                self.at()
                sys.settrace(self)
        return self.line


class Scheduler(object):
    """Runs two tasks in real threads; only one runs at a time and control
    moves only at the chosen lines."""

    def __init__(self, root, switch):
        self.root = root
        self.switch = switch                # (task, line) -> hand over
        self.turn = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.count = [0, 0]

    def trace(self, me):
        def line(frame, event, arg):
            if event == 'line':
                self.count[me] += 1
                if (me, self.count[me]) in self.switch and not self.done[1 - me]:
                    self.turn[1 - me].release()
                    self.turn[me].acquire()
            return line

        def call(frame, event, arg):
            return line if frame.f_code.co_filename.startswith(self.root) else None
        return call

    def run(self, tasks):
        def body(me):
            self.turn[me].acquire()
            sys.settrace(self.trace(me))
            try:
                tasks[me].run()
            finally:
                sys.settrace(None)
                self.done[me] = True
                self.turn[1 - me].release()
        ts = [threading.Thread(target=body, args=(i,)) for i in (0, 1)]
        for t in ts:
            t.start()
        self.turn[0].release()
        for t in ts:
            t.join()


def run_shard(shard, rec):
    kind, arg, tier = shard
    im = impl()
    root = sys.path[0]
    if kind == 'cpus':
        seqs = sequences()
        ms = [Machine([REGION]), Machine([REGION])]
        for j in range(len(seqs)):
            pair = (seqs[arg], seqs[j])
            # model: each processor alone
            wants = []
            start = [state(ms[p].mem, p) for p in (0, 1)]
            for p in (0, 1):
                t = start[p].copy(isa.Memory([REGION]))
                for w in pair[p]:
                    t.r[15] = 0x20000010
                    isa.execute(w[2], t)
                wants.append(t)
            if any(isa.unknown_store(w[2]) is not None for s in pair for w in s):
                continue
            for order in itertools.combinations(range(6), 3):
                rec.tick()
                for p in (0, 1):
                    ms[p].reset_memory()
                    ms[p].load(start[p])
                pos = [0, 0]
                try:
                    for n in range(6):
                        p = 0 if n in order else 1
                        w = pair[p][pos[p]]
                        pos[p] += 1
                        ms[p].dele.write_register(15, 0x20000010)
                        im.decode(word_bytes(w[0], w[1])).execute(ms[p].cpu)
                        rec.transitions += 1
                    bad = None
                except Exception as e:
                    bad = 'raises %s: %s' % (type(e).__name__, e)
                for p in (0, 1):
                    if bad is None and (ms[p].regs()[:15], ms[p].regs()[16:]) != (wants[p].regs()[:15],
                                                                                  wants[p].regs()[16:]):
                        bad = 'processor %d: ' % p + '; '.join(diff_regs(ms[p].regs(), wants[p].regs()))
                    if bad is None and ms[p].dele.read_memory_block(*[REGION[0], len(REGION[1])]) != \
                            wants[p].mem.regions[0][1]:
                        bad = 'memory of processor %d differs' % p
                rec.traces += 1
                if bad:
                    rec.violate('two processors, %r then order %r: %s' % (
                        [[enc(*w[:2]) for w in s] for s in pair], order, bad),
                        {'kind': 'cpus', 'programs': [[enc(*w[:2]) for w in s] for s in pair], 'order': list(order)})
                    if len(rec.violations) >= rec.MAX_VIOLATIONS:
                        return
                rec.states_n(1)
        rec.outcome('two processors')
        rec.sample('two processors running %r' % [enc(*w[:2]) for w in seqs[arg]])
    elif kind == 'objects':
        pair = Pair(im)
        first = (arg % 2, OBJECT_OPS[arg // 2])
        steps = [(p, op) for p in (0, 1) for op in OBJECT_OPS]
        for rest in itertools.product(steps, repeat=3 if tier == 'thorough' else 2):
            rec.tick()
            pair.reset()
            seq = (first,) + rest
            for n, (p, op) in enumerate(seq):
                try:
                    pair.do(p, op, n)
                    bad = pair.problem()
                except Exception as e:
                    bad = 'raises %s: %s' % (type(e).__name__, e)
                rec.transitions += 1
                if bad:
                    rec.violate('two processors, after %s: %s' % (', '.join('%s on %d' % x[::-1] for x in seq[:n + 1]), bad),
                                {'kind': 'objects', 'steps': [list(x) for x in seq[:n + 1]]})
                    if len(rec.violations) >= rec.MAX_VIOLATIONS:
                        return
                    break
            rec.traces += 1
            rec.states_n(1)
        rec.outcome('two processors by hand')
    elif kind == 'streams':
        def items(buf, addr):
            out = []
            try:
                for i in im.Disassembler().disasm(buf, addr):
                    out.append((i.address, bytes(i.bytes), i.mnemonic))
            except (im.Undefined, im.Unpredictable) as e:
                out.append(type(e).__name__)
            return out[:5]
        from .c03 import model

        def model_items(buf, addr):
            out, end = model(buf, addr)
            return (out + {'end': [], 'undefined': ['UndefinedInstructionError'],
                           'unpredictable': ['UnpredictableError']}[end])[:5]
        shared = im.Disassembler()
        fmts = [im.Formatter(None), im.Formatter(None)]
        for j in range(len(BUFS)):
            bufs = (BUFS[arg], BUFS[j])
            want = [model_items(bufs[p], 0x1000 * (p + 1)) for p in (0, 1)]
            for order in itertools.combinations(range(10), 5):
                rec.tick()
                for same in (False, True):
                    gens = [(shared if same else im.Disassembler()).disasm(bufs[p], 0x1000 * (p + 1)) for p in (0, 1)]
                    got = [[], []]
                    objs = [[], []]
                    for n in range(10):
                        p = 0 if n in order else 1
                        try:
                            i = next(gens[p])
                            got[p].append((i.address, bytes(i.bytes), i.mnemonic))
                            objs[p].append((i, fmts[p].format(i)))
                        except StopIteration:
                            pass
                        except Exception as e:
                            got[p].append(type(e).__name__)
                        rec.transitions += 1
                    rec.traces += 1
                    if got != want or any(f.format(i) != t for f, o in zip(fmts, objs) for i, t in o):
                        rec.violate('two streams over %s and %s in order %r give %r, should be %r' % (
                            bufs[0].hex(), bufs[1].hex(), order, got, want),
                            {'kind': 'streams', 'data': [x.hex() for x in bufs], 'order': list(order)})
                        if len(rec.violations) >= rec.MAX_VIOLATIONS:
                            return
                rec.states_n(1)
        rec.outcome('two streams')
    elif kind == 'shared':
        words = every_kind()
        for k in arg:
            # one decoded instruction, formatted and executed by both
            a, b = Task(words[k], 0, 0x8000), Task(words[k], 1, 0x8000)
            n = 0
            while True:
                n += 1
                a.prepare()
                b.prepare()
                a.shared = b.shared = im.decode(a.data, 0x8000)
                tr = LineCounter(root, n, b.run)
                sys.settrace(tr)
                try:
                    a.run()
                finally:
                    sys.settrace(None)
                if tr.lines < n:
                    break
                rec.transitions += 1
                rec.tick()
                report(rec, 'sharing the decoded instruction, preempted at line %d of the first task' % n, (a, b))
            rec.states_n(n - 1)
            rec.traces += n - 1
            rec.outcome('shared %s' % a.w[2].k)
    elif kind in ('preempt', 'twins'):
        if kind == 'twins':
            pair = twins()[arg]
            a, others = Task(pair[0], 0), pair[1:]
        else:
            ws = thread_words()
            a = Task(ws[arg], 0)
            others = ws if tier == 'thorough' else [ws[arg]] + [ws[x] for x in (2, 11, 20, 33) if x != arg]
        for w in others:
            rec.tick()
            b = Task(w, 1)
            n = 0
            while True:
                n += 1
                a.prepare()
                b.prepare()
                tr = LineCounter(root, n, b.run)
                sys.settrace(tr)
                try:
                    a.run()
                finally:
                    sys.settrace(None)
                if tr.lines < n:
                    break
                rec.transitions += 1
                rec.tick()
                report(rec, 'preempted at line %d of the first task by "%s"' % (n, b.want[0]), (a, b))
            rec.states_n(n - 1)
            rec.traces += n - 1
            rec.outcome('%s/%s' % (a.w[2].k, b.w[2].k))
            if n < 20:
                rec.violate('only %d preemption points seen in "%s"' % (n, a.want[0]), {})
        rec.sample('"%s" preempted at every line by %d others' % (a.want[0], len(others)))
    else:
        ws = thread_words()
        step = 5 if tier == 'thorough' else 16
        which, part = arg
        tasks = (Task(ws[which * 3 % len(ws)], 0), Task(ws[(which * 5 + 1) % len(ws)], 1))
        # number of lines of each task alone
        counts = []
        for t in tasks:
            t.prepare()
            tr = LineCounter(root, -1, None)
            sys.settrace(tr)
            t.run()
            sys.settrace(None)
            counts.append(tr.lines)
        for n1 in range(1 + part * step, counts[0], step * 8):
            for n2 in range(1, counts[1], step):
                rec.tick()
                for t in tasks:
                    t.prepare()
                sch = Scheduler(root, {(0, n1), (1, n2)})
                sch.run(tasks)
                rec.transitions += 1
                rec.traces += 1
                rec.states_n(1)
                report(rec, 'two threads, handing over at line %d and back at line %d' % (n1, n2), tasks)
        rec.outcome('two preemptions')
        rec.sample('threads "%s" and "%s"' % (tasks[0].want[0], tasks[1].want[0]))
