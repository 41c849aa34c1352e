"""mkseed.py DEFS.py [ID...]: turns planted bug definitions into /verif/seeded/<id>/.

DEFS.py defines SEEDS: a list of dicts id, prop, edits [(file, old, new[, count])] or new files {path: text},
demo (python text), needs, breaks, console (bool).  A seed is written only when it applies, changes original
lines only, passes the whole test suite, and its demo passes without and fails with it.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv-pypy/bin/python'
WT = '/tmp/seedwt'
BASE = '907ee6d'

PRELUDE = '''import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
'''

SH = '''#!/bin/bash
# Exit 0: the property holds in the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
exec /opt/venv-pypy/bin/python -W ignore "$here/demo.py"
'''

CONSOLE = '''"""Converts a copy of the package to Python 3 in a scratch folder and runs the console on it."""
import os, shutil, subprocess, sys, tempfile


def run(lines, binary=None, args=()):
    """Returns (exit status, output) of a console session."""
    d = tempfile.mkdtemp()
    try:
        shutil.copytree('cmdis', os.path.join(d, 'cmdis'), ignore=shutil.ignore_patterns('__pycache__', '*.pyc'))
        if not os.path.exists(os.path.join(d, 'cmdis', '_version.py')):
            with open(os.path.join(d, 'cmdis', '_version.py'), 'w') as f:
                f.write("__version__ = version = '0.1'\\n")
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', HOME=d)
        subprocess.run([sys.executable, '-W', 'ignore', '-c',
                        'import sys; from lib2to3.main import main; sys.exit(main("lib2to3.fixes"))',
                        '-w', '-n', 'cmdis'], cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        cmd = [sys.executable, '-W', 'ignore', '-m', 'cmdis'] + list(args)
        if binary is not None:
            with open(os.path.join(d, 'bin'), 'wb') as f:
                f.write(binary)
            cmd.append('bin')
        p = subprocess.run(cmd, cwd=d, env=env, input=('\\n'.join(lines) + '\\n').encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=120)
        return p.returncode, p.stdout.decode(errors='replace').replace('>>> ', '')
    finally:
        shutil.rmtree(d, ignore_errors=True)
'''


def sh(cmd, cwd, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                       universal_newlines=True)
    return p.returncode, p.stdout


def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    only = sys.argv[2:]
    ok = []
    for s in seeds:
        if only and s['id'] not in only:
            continue
        if os.path.exists(WT):
            shutil.rmtree(WT)
        subprocess.check_call(['cp', '-a', '/repo', WT])
        for e in s.get('edits', ()):
            f, old, new = e[:3]
            p = os.path.join(WT, 'cmdis', f)
            t = open(p).read()
            n = e[3] if len(e) > 3 else 1
            if t.count(old) != n:
                print(s['id'], 'EDIT MATCHES', t.count(old), repr(old[:60]))
                break
            open(p, 'w').write(t.replace(old, new))
        else:
            for f, t in s.get('files', {}).items():
                p = os.path.join(WT, 'cmdis', f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, 'w').write(t)
            sh(['git', 'add', '-A', '-N', 'cmdis'], WT)
            diff = sh(['git', 'diff', '--', 'cmdis'], WT)[1]
            # removed lines must be original ones
            bad = None
            removed = 0
            for f in {e[0] for e in s.get('edits', ())}:
                blame = sh(['git', 'blame', '-s', 'HEAD', '--', 'cmdis/' + f], WT)[1].split('\n')
                fd = sh(['git', 'diff', '-U0', '--', 'cmdis/' + f], WT)[1]
                import re
                for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', fd, re.M):
                    a, c = int(m.group(1)), int(m.group(2) if m.group(2) is not None else 1)
                    for n in range(a, a + c):
                        removed += 1
                        if not blame[n - 1].startswith('^'):
                            bad = blame[n - 1]
            if bad or not removed:
                print(s['id'], 'NOT ORIGINAL', bad, removed)
                if not s.get('force'):
                    continue
            rc, out = sh([PY, '-W', 'ignore', '-m', 'pytest', '-q', '-x', '--tb=short', '-p', 'no:cacheprovider'], WT)
            if rc:
                print(s['id'], 'TESTS FAIL', out[-600:])
                continue
            d = os.path.join('/tmp/seedout', s['id'])
            if os.path.exists(d):
                shutil.rmtree(d)
            os.makedirs(d)
            open(d + '/patch.diff', 'w').write(diff)
            open(d + '/demo.sh', 'w').write(SH)
            os.chmod(d + '/demo.sh', 0o755)
            open(d + '/demo.py', 'w').write(PRELUDE + s['demo'].lstrip('\n'))
            if s.get('console'):
                open(d + '/console.py', 'w').write(CONSOLE)
            json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                      open(d + '/meta.json', 'w'), indent=1)
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
            c, o1 = sh(['bash', d + '/demo.sh'], '/repo', env)
            b, o2 = sh(['bash', d + '/demo.sh'], WT, env)
            if c or not b:
                print(s['id'], 'DEMO clean=%d patched=%d\n%s\n%s' % (c, b, o1[-800:], o2[-800:]))
                continue
            dest = os.path.join(TOP, 'seeded', s['id'])
            if os.path.exists(dest):
                shutil.rmtree(dest)
            shutil.copytree(d, dest)
            env['VERIF_REPO'] = WT
            rc, out = sh(['./check', s['prop'], 'quick'], TOP, env)
            print(s['id'], 'CAUGHT' if rc == 1 and 'VIOLATION property=' + s['prop'] in out else 'MISSED rc=%d' % rc,
                  '| ' + o2.strip().split('\n')[-1][:80], '|', out.split('\n')[0][:130], flush=True)
            ok.append(s['id'])
    shutil.rmtree(WT, ignore_errors=True)
    print(len(ok), 'written')


main()
