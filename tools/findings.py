"""Regenerates known_findings.json: the listed words and the repaired defects."""
import json
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc.ref import isa
from mc import spaces

findings = []
for h in spaces.HW16:
    i = isa.decode16(h)
    if i.st is isa.OK and isa.reads_pc(i):
        prop = 'C05' if i.k == 'add' else 'C07'
        findings.append({
            'property': prop, 'key': 'pc-operand %04x' % h,
            'what': 'encoding %04x "%s": the PC operand reads as the address of the instruction, not that plus 4 '
                    '(pinned by the stable test test_add_reg_t2_pc; the source says "TODO handle PC + 4")'
                    % (h, isa.text(i, 0, h)[13:].split(' ; ')[0].strip())})

FIXED = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'fixed.json')))
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], stdout=subprocess.PIPE,
                     universal_newlines=True).stdout.splitlines()
fixed = []
for line in log:
    h, subject = line.split(' ', 1)
    if subject.startswith('fix: '):
        props = FIXED[subject[5:]]
        for p in props.split():
            fixed.append('fixed: property=%s %s %s' % (p, h, subject[5:]))
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
with open(path, 'w') as f:
    json.dump({'findings': findings, 'fixed': fixed}, f, indent=1)
    f.write('\n')
print(len(findings), len(fixed))
