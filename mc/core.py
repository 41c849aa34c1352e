"""Exploration framework: staging of the tree under test, sharded exhaustive
exploration over a pool of forked workers, violation artefacts and evidence.

Nothing in here knows about any property.  A property module (mc/props/cNN.py)
provides

    ID, BOUNDS (text), ASSUMPTIONS (list of text)
    shards(tier)            -> list of picklable shard descriptors
    run_shard(shard, rec)   -> explores the shard completely, reporting to rec

Every shard is explored to its end on every run: there is no sampling and no
time cap.  A shard that stops making progress is reported as a hang.
"""
import array
import hashlib
import json
import mmap
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv-pypy/bin/python'
NPROC = int(os.environ.get('VERIF_JOBS', '0')) or os.cpu_count() or 4
HANG_S = 150

VERSION_PY = "__version__ = version = '0.1'\n__version_tuple__ = version_tuple = (0, 1)\n"


class Hang(BaseException):
    """No progress for HANG_S seconds."""


# ----------------------------------------------------------------- staging

class Stage(object):
    """Scratch copy of the tree under test, made from /repo's working tree."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='cmdis-mc-')
        self.src = os.path.join(self.dir, 'src')
        self.digest = hashlib.sha256()
        top = os.path.join(REPO, 'cmdis')
        for base, dirs, names in os.walk(top):
            dirs[:] = sorted(d for d in dirs if d != '__pycache__')
            rel = os.path.relpath(base, REPO)
            os.makedirs(os.path.join(self.src, rel), exist_ok=True)
            for name in sorted(names):
                path = os.path.join(base, name)
                if not os.path.isfile(path) or name == '_version.py' or name.endswith(('.pyc', '.so')):
                    continue
                shutil.copy(path, os.path.join(self.src, rel, name))
                with open(path, 'rb') as f:
                    self.digest.update(os.path.join(rel, name).encode() + b'\0' + f.read() + b'\0')
        with open(os.path.join(self.src, 'cmdis', '_version.py'), 'w') as f:
            f.write(VERSION_PY)
        self._built = None

    def activate(self):
        sys.path.insert(0, self.src)

    def built(self):
        """Run the project's own setup.py build (2to3 included) on a copy."""
        if self._built is None:
            tree = os.path.join(self.dir, 'tree')
            out = os.path.join(self.dir, 'build')
            os.makedirs(tree)
            for name in ('setup.py', 'README.md', 'LICENSE', 'tox.ini', 'setup.cfg', 'pyproject.toml', 'MANIFEST.in'):
                path = os.path.join(REPO, name)
                if os.path.isfile(path):
                    shutil.copy(path, tree)
            shutil.copytree(os.path.join(self.src, 'cmdis'), os.path.join(tree, 'cmdis'))
            env = dict(os.environ, SETUPTOOLS_SCM_PRETEND_VERSION='0.1', PYTHONDONTWRITEBYTECODE='1',
                       HOME=self.dir)
            p = subprocess.run([PY, '-W', 'ignore', 'setup.py', '-q', 'build', '-b', out], cwd=tree, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
            lib = os.path.join(out, 'lib')
            if p.returncode or not os.path.isdir(lib):
                raise RuntimeError('setup.py build failed:\n' + p.stdout.decode(errors='replace'))
            self._built = lib
        return self._built

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# ---------------------------------------------------------------- recorder

class Recorder(object):
    MAX_VIOLATIONS = 5

    def __init__(self, shard_index=0, stage=None):
        self.shard_index = shard_index
        self.stage = stage
        self.states = set()
        self.disjoint_states = 0
        self.transitions = 0
        self.traces = 0
        self.counts = {}
        self.outcomes = {}
        self.samples = []
        self.violations = []
        self.findings = {}
        self._ticks = 0

    # -- coverage
    def state(self, h):
        self.states.add(h)

    def states_n(self, n):
        """n states that no other shard visits (disjoint by construction)."""
        self.disjoint_states += n

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def outcome(self, name, n=1):
        self.outcomes[name] = self.outcomes.get(name, 0) + n

    def sample(self, s, limit=2):
        if len(self.samples) < limit:
            self.samples.append(s)

    def tick(self):
        self._ticks += 1
        if not self._ticks & 0x3f:
            signal.alarm(HANG_S)

    # -- verdicts
    def violate(self, message, case):
        """Report one failing case.  Returns True when the shard should stop."""
        if len(self.violations) < self.MAX_VIOLATIONS:
            self.violations.append({'message': message, 'case': case, 'shard': self.shard_index})
        return len(self.violations) >= self.MAX_VIOLATIONS

    def finding(self, key, message):
        """A failing case already listed in known_findings.json."""
        self.findings.setdefault(key, message)

    def pack(self):
        a = array.array('q', self.states)
        return {'states': a.tobytes(), 'disjoint': self.disjoint_states, 'transitions': self.transitions, 'traces': self.traces,
                'counts': self.counts, 'outcomes': self.outcomes, 'samples': self.samples,
                'violations': self.violations, 'findings': self.findings}


class StopShard(Exception):
    pass


def _run_one(mod, index, shard, stage):
    rec = Recorder(index, stage)

    def on_alarm(sig, frame):
        raise Hang()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(HANG_S)
    try:
        mod.run_shard(shard, rec)
    except StopShard:
        pass
    except Hang:
        rec.violate('no progress for %d s while exploring shard %r\n%s' % (HANG_S, shard, traceback.format_exc()),
                    {'shard': shard})
    except Exception:
        rec.violate('exploration of shard %r failed:\n%s' % (shard, traceback.format_exc()), {'shard': shard})
    finally:
        signal.alarm(0)
    return rec.pack()


def _isolated(mod, index, shard, stage):
    """As _run_one, in a process of its own: what the shard does to the modules it uses stays there."""
    if hasattr(mod, 'prepare'):
        mod.prepare(shard)          # warms up what all children share
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as f:
                f.write(pickle.dumps(_run_one(mod, index, shard, stage), protocol=4))
            os._exit(0)
        except BaseException:
            traceback.print_exc()
        os._exit(3)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        blob = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(blob)


def _worker(mod, items, rfd, wfd, stage, failed):
    """Take shard indices off the job pipe until it is empty, send back one result each.

    After a violation in any shard the remaining ones are not begun.
    """
    out = os.fdopen(wfd, 'wb')
    while not failed[0]:
        b = os.read(rfd, 4)
        if len(b) < 4:
            break
        index = int.from_bytes(b, 'little')
        res = (_isolated if getattr(mod, 'ISOLATE', False) else _run_one)(mod, index, items[index], stage)
        if res['violations']:
            failed[0] = 1
        blob = pickle.dumps((index, res), protocol=4)
        out.write(len(blob).to_bytes(8, 'little') + blob)
        out.flush()
    out.close()
    os._exit(0)


def explore(mod, tier, stage, nproc=NPROC):
    """Explore every shard of mod; returns the merged result."""
    items = list(mod.shards(tier))
    jr, jw = os.pipe()
    workers = []
    failed = mmap.mmap(-1, 1)
    nproc = max(1, min(nproc, len(items)))
    for _ in range(nproc):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(jw)
            os.close(r)
            for _, fd in workers:
                os.close(fd)
            try:
                _worker(mod, items, jr, w, stage, failed)
            except BaseException:
                traceback.print_exc()
            os._exit(3)
        os.close(w)
        workers.append((pid, r))
    os.close(jr)

    import threading
    def feed():
        try:
            for i in range(len(items)):
                os.write(jw, i.to_bytes(4, 'little'))
        except OSError:
            pass
        os.close(jw)
    t = threading.Thread(target=feed, daemon=True)
    t.start()

    results = {}
    lock = threading.Lock()

    def collect(fd):
        f = os.fdopen(fd, 'rb')
        while True:
            head = f.read(8)
            if len(head) < 8:
                break
            blob = f.read(int.from_bytes(head, 'little'))
            index, res = pickle.loads(blob)
            with lock:
                results[index] = res
        f.close()
    ts = [threading.Thread(target=collect, args=(fd,)) for _, fd in workers]
    for x in ts:
        x.start()
    for x in ts:
        x.join()
    for pid, _ in workers:
        os.waitpid(pid, 0)
    # shards whose worker died; shards not begun after a violation do not count
    lost = [] if failed[0] else [i for i in range(len(items)) if i not in results]

    merged = {'disjoint': 0, 'states': set(), 'transitions': 0, 'traces': 0, 'counts': {}, 'outcomes': {},
              'samples': [], 'violations': [], 'findings': {}, 'shards': len(items), 'lost': lost}
    for i in sorted(results):
        res = results[i]
        a = array.array('q')
        a.frombytes(res['states'])
        merged['states'].update(a)
        merged['disjoint'] += res['disjoint']
        merged['transitions'] += res['transitions']
        merged['traces'] += res['traces']
        for k in ('counts', 'outcomes'):
            for n, v in res[k].items():
                merged[k][n] = merged[k].get(n, 0) + v
        merged['samples'] += res['samples']
        merged['violations'] += res['violations']
        for k, v in res['findings'].items():
            merged['findings'].setdefault(k, v)
    return merged


# --------------------------------------------------------------- top level

def load_findings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    with open(path) as f:
        data = json.load(f)
    return {x['key']: x for x in data['findings'] if x['property'] == prop}


def write_replay(prop, violation, tier='quick'):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    body = json.dumps({'property': prop, 'message': violation['message'], 'case': violation['case'],
                       'tier': tier, 'shard_index': violation.get('shard', -1)},
                      indent=1, sort_keys=True, default=repr)
    path = os.path.join(d, '%s-%s.json' % (prop, hashlib.sha1(body.encode()).hexdigest()[:10]))
    with open(path, 'w') as f:
        f.write(body + '\n')
    return path


def pick_samples(samples, n=6):
    if len(samples) <= n:
        return samples
    step = len(samples) / float(n)
    return [samples[int(i * step)] for i in range(n)]


def main(mod, tier, seed):
    t0 = time.time()
    stage = Stage()
    try:
        stage.activate()
        if getattr(mod, 'NEEDS_BUILD', False):
            try:
                stage.built()
            except Exception as e:
                v = {'message': str(e), 'case': {'build': True}}
                print(v['message'])
                print('VIOLATION property=%s replay=%s' % (mod.ID, write_replay(mod.ID, v, tier)))
                return 1
        res = explore(mod, tier, stage)
        digest = stage.digest.hexdigest()
    finally:
        stage.close()

    if res['lost']:
        res['violations'].append({'message': 'worker process died exploring shards %r' % res['lost'],
                                  'case': {'lost': res['lost']}, 'shard': -1})

    known = load_findings(mod.ID)
    for key in sorted(res['findings']):
        if key not in known:
            res['violations'].append({'message': res['findings'][key], 'case': {'finding_key': key}, 'shard': -1})
    rc = 0
    if res['violations']:
        rc = 1
        for v in res['violations'][:10]:
            print(v['message'])
        print('%d violation(s) recorded' % len(res['violations']))
        path = write_replay(mod.ID, res['violations'][0], tier)
    for key in sorted(res['findings']):
        if key in known:
            print('KNOWN-FINDING: property=%s %s' % (mod.ID, known[key]['what']))

    wall = time.time() - t0
    coverage = {
        'states': len(res['states']) + res['disjoint'],
        'transitions': res['transitions'],
        'traces_validated_against_impl': res['traces'],
        'exhaustive': not res['violations'],
        'bounds': mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
        'shards': res['shards'],
        'breakdown': dict(sorted(res['counts'].items())),
        'distinct_outcomes': len(res['outcomes']),
        'outcomes': dict(sorted(res['outcomes'].items(), key=lambda kv: (-kv[1], kv[0]))[:60]),
        'samples': pick_samples(res['samples']),
        'tree_sha256': digest,
        'known_findings_seen': sorted(res['findings']),
    }
    ev = {'property': mod.ID, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': coverage,
          'assumptions': list(mod.ASSUMPTIONS), 'wall_s': round(wall, 2), 'violations': len(res['violations'])}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', mod.ID + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
        f.write('\n')
    print('%s %s: states=%d transitions=%d traces=%d outcomes=%d shards=%d wall=%.1fs violations=%d' % (
        mod.ID, tier, coverage['states'], coverage['transitions'], coverage['traces_validated_against_impl'],
        coverage['distinct_outcomes'], res['shards'], wall, len(res['violations'])))
    if rc:
        print('VIOLATION property=%s replay=%s' % (mod.ID, path))
    return rc
