"""mutate.py list|tests|checks: systematic single-token and single-statement mutants of cmdis.

  list             number of mutants per file
  tests OUT.json [FILE]  runs the project's tests on every mutant, writes the survivors
  checks OUT.json RES.jsonl [FILE] runs the property checks on every survivor until one reports a violation
Works in scratch copies under /tmp/mut only.
"""
import io
import json
import multiprocessing
import os
import re
import shutil
import subprocess
import sys
import tokenize

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv-pypy/bin/python'
FILES = ['bitstring', 'decoder', 'disasm', 'formatter', 'helpers', 'instructions', 'mock_cpu', 'model', 'registers',
         'utilities', '__main__']
CHECKS = {
    'bitstring': ['C18', 'C20', 'C17', 'C19', 'C34'],
    'decoder': ['C25', 'C24', 'C03', 'C02', 'C14', 'C33', 'C32', 'C34'],
    'disasm': ['C03', 'C28'],
    'formatter': ['C31', 'C14', 'C04', 'C28', 'C34'],
    'helpers': ['C21'],
    'instructions': ['C09', 'C11', 'C12', 'C02', 'C06', 'C07', 'C13', 'C10', 'C05', 'C08', 'C04', 'C30'],
    'mock_cpu': ['C23', 'C22', 'C13'],
    'model': ['C22', 'C23', 'C12', 'C09', 'C33', 'C34', 'C30', 'C35', 'C16'],
    'registers': ['C22', 'C27', 'C29'],
    'utilities': ['C26', 'C25'],
    '__main__': ['C27', 'C28', 'C33', 'C29'],
}
SWAP = {'+': ['-'], '-': ['+'], '*': ['+'], '//': ['*'], '<<': ['>>'], '>>': ['<<'], '&': ['|'], '|': ['&'], '^': ['&'],
        '==': ['!='], '!=': ['=='], '<': ['<=', '>'], '<=': ['<'], '>': ['>=', '<'], '>=': ['>'], '+=': ['-='], '-=': ['+='],
        '|=': ['&='], '&=': ['|='], '<<=': ['>>='], '>>=': ['<<='], '%=': ['='],
        'and': ['or'], 'or': ['and'], 'not': [''], 'True': ['False'], 'False': ['True'], 'continue': ['break', 'pass'],
        'break': ['continue'], 'is': ['=='], '~': [''], 'in': ['not in']}


def mutants(name, src):
    """[(line, description, new source)]"""
    lines = src.split('\n')
    out = []

    def put(row, a, b, new, what):
        l = lines[row - 1]
        out.append((row, what, '\n'.join(lines[:row - 1] + [l[:a] + new + l[b:]] + lines[row:])))
    prev = None
    depth = 0
    starts = {}
    for t in tokenize.generate_tokens(io.StringIO(src).readline):
        row, col = t.start
        s = t.string
        if t.type in (tokenize.NL, tokenize.COMMENT, tokenize.INDENT, tokenize.DEDENT, tokenize.NEWLINE):
            if t.type == tokenize.NEWLINE:
                prev = None
            continue
        if s in SWAP and t.type in (tokenize.OP, tokenize.NAME):
            if s == 'in' and lines[row - 1].lstrip().startswith('for ') or s == 'in' and ' for ' in lines[row - 1]:
                pass
            elif s == 'is' or s == 'not' and prev == 'is':
                pass
            elif s == '*' and (prev in ('(', ',') or lines[row - 1][col:col + 2] == '**'):
                pass
            elif s == '-' and prev in ('(', ',', '=', 'return', None):
                pass
            else:
                for new in SWAP[s]:
                    put(row, col, t.end[1], new, '%s -> %s' % (s, new or '(nothing)'))
        elif t.type == tokenize.NUMBER and s[0] in '0123456789':
            try:
                v = int(s, 0)
            except ValueError:
                prev = s
                continue
            put(row, col, t.end[1], str(v + 1), '%s -> %d' % (s, v + 1))
            if v:
                put(row, col, t.end[1], str(v - 1), '%s -> %d' % (s, v - 1))
        prev = s
    for n, l in enumerate(lines):
        st = l.strip()
        ind = l[:len(l) - len(l.lstrip())]
        if not ind or not st or st.startswith(('#', '@', '"', "'")):
            continue
        m = re.match(r'(el)?if (.*):$', st)
        if m:
            out.append((n + 1, 'condition negated', '\n'.join(lines[:n] + ['%s%sif not (%s):' % (ind, m.group(1) or '', m.group(2))] + lines[n + 1:])))
        if re.match(r'(def|class|if|elif|else|for|while|import|from|try|except|finally|return|raise|pass|break|continue|yield|print)\b', st):
            if st.startswith(('raise', 'return', 'yield')) and st.count('(') == st.count(')') and not st.endswith('\\'):
                out.append((n + 1, 'deleted: ' + st, '\n'.join(lines[:n] + [ind + 'pass'] + lines[n + 1:])))
            continue
        if st.count('(') != st.count(')') or st.count('[') != st.count(']') or st.count('{') != st.count('}') or st.endswith(('\\', ',')):
            continue
        if n and lines[n - 1].rstrip().endswith((',', '\\', '(')):
            continue
        out.append((n + 1, 'deleted: ' + st, '\n'.join(lines[:n] + [ind + 'pass'] + lines[n + 1:])))
    return out


def all_mutants():
    out = []
    for f in FILES:
        src = open('/repo/cmdis/%s.py' % f).read()
        for k, (row, what, new) in enumerate(mutants(f, src)):
            out.append((f, k, row, what))
    return out


_cache = {}


def text_of(f, k):
    if f not in _cache:
        _cache[f] = mutants(f, open('/repo/cmdis/%s.py' % f).read())
    return _cache[f][k][2]


def tree():
    d = '/tmp/mut/w%d' % os.getpid()
    if not os.path.exists(d):
        os.makedirs('/tmp/mut', exist_ok=True)
        subprocess.check_call(['cp', '-a', '/repo', d])
    return d


def one_test(m):
    f, k, row, what = m
    d = tree()
    p = '%s/cmdis/%s.py' % (d, f)
    open(p, 'w').write(text_of(f, k))
    try:
        if f == '__main__':
            shutil.copy(p, d + '/m2.py')
            c = subprocess.run([PY, '-W', 'ignore', '-c', 'import sys; from lib2to3.main import main; sys.exit(main("lib2to3.fixes"))',
                                '-w', '-n', 'm2.py'], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            c = subprocess.run([PY, '-c', 'compile(open("m2.py").read(), "m2", "exec")'], cwd=d, stdout=subprocess.DEVNULL,
                               stderr=subprocess.DEVNULL)
            return m, c.returncode == 0
        try:
            r = subprocess.run([PY, '-W', 'ignore', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider'], cwd=d,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
            return m, r.returncode == 0
        except subprocess.TimeoutExpired:
            return m, False
    finally:
        shutil.copy('/repo/cmdis/%s.py' % f, p)


def main():
    if sys.argv[1] == 'list':
        ms = all_mutants()
        for f in FILES:
            print(f, sum(m[0] == f for m in ms))
    elif sys.argv[1] == 'tests':
        ms = [m for m in all_mutants() if not sys.argv[3:] or m[0] in sys.argv[3:]]
        alive = []
        with multiprocessing.Pool(7) as pool:
            for n, (m, ok) in enumerate(pool.imap_unordered(one_test, ms)):
                if ok:
                    alive.append(m)
                if n % 100 == 0:
                    print(n, len(alive), flush=True)
                    json.dump(sorted(alive), open(sys.argv[2], 'w'))
        json.dump(sorted(alive), open(sys.argv[2], 'w'))
    else:
        alive = [tuple(m) for m in json.load(open(sys.argv[2]))]
        done, near = set(), []
        if os.path.exists(sys.argv[3]):
            done = {tuple(json.loads(l)['m']) for l in open(sys.argv[3])}
        d = tree()
        for m in alive:
            f, k, row, what = m
            if m in done or sys.argv[4:] and f not in sys.argv[4:]:
                continue
            p = '%s/cmdis/%s.py' % (d, f)
            open(p, 'w').write(text_of(f, k))
            by = None
            # the check that caught the nearest line comes first
            order = sorted(CHECKS[f], key=lambda c: min([abs(row - x) for g, x, b in near if (g, b) == (f, c)] or [10 ** 6]))
            for c in order:
                r = subprocess.run(['./check', c, 'quick'], cwd=TOP, env=dict(os.environ, VERIF_REPO=d),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
                if r.returncode:
                    by = c
                    near.append((f, row, c))
                    break
            shutil.copy('/repo/cmdis/%s.py' % f, p)
            line = open(p).read().split('\n')[row - 1].strip()
            with open(sys.argv[3], 'a') as o:
                o.write(json.dumps({'m': m, 'by': by, 'line': line}) + '\n')
            print(by or 'SURVIVES', f, row, what, '|', line, flush=True)


main()
