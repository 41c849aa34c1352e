"""Writes DESIGN.md: the prose is here, bounds and assumptions come from the property modules, the table of planted
bugs from seeded/ and tools/seed_notes.json, the defects from known_findings.json."""
import ast
import json
import os
import re
import sys

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = open(os.path.join(TOP, 'tools', 'design_head.md')).read()
TAIL = open(os.path.join(TOP, 'tools', 'design_tail.md')).read()
HOW = json.load(open(os.path.join(TOP, 'tools', 'design_how.json')))


def constants(path):
    """BOUNDS and ASSUMPTIONS of a property module without importing it"""
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', '') in ('BOUNDS', 'ASSUMPTIONS'):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                out[node.targets[0].id] = eval(compile(ast.Expression(node.value), path, 'eval'), {})
    return out


def main():
    props = [json.loads(l) for l in open(os.path.join(TOP, 'properties.jsonl'))]
    man = {c['property']: c for c in json.load(open(os.path.join(TOP, 'MANIFEST.json')))['checks']}
    times = json.load(open(os.path.join(TOP, 'tools', 'timings.json')))
    s = HEAD
    s += '\n## 3. Per property\n\n'
    for p in props:
        c = constants(os.path.join(TOP, 'mc', 'props', p['id'].lower() + '.py'))
        t = times.get(p['id'], {})
        s += '### %s %s\n\n' % (p['id'], p['title'])
        s += '*Technique.* %s.\n\n' % man[p['id']]['technique'].capitalize().rstrip('.')
        s += HOW[p['id']] + '\n\n'
        s += '*Bounds, quick*%s: %s.\n\n' % (' (%s)' % t['quick'] if 'quick' in t else '', c['BOUNDS']['quick'])
        s += '*Bounds, thorough*%s: %s.\n\n' % (' (%s)' % t['thorough'] if 'thorough' in t else '', c['BOUNDS']['thorough'])
        if c['ASSUMPTIONS']:
            s += '*Assumptions.* %s.\n\n' % '; '.join(c['ASSUMPTIONS'])
        s += '*Why tests cannot.* %s\n\n' % p['why_tests_cant']
    kf = json.load(open(os.path.join(TOP, 'known_findings.json')))
    s += '## 4. Defects found in flit/cmdis\n\n'
    s += 'Repaired, each in one `fix:` commit in /repo (%d lines in known_findings.json, a commit that repairs two ' \
         'properties has two):\n\n' % len(kf['fixed'])
    for x in kf['fixed']:
        s += '- %s\n' % x
    s += '\nRecorded, not repaired (%d entries in known_findings.json, see section 5): %s.\n' % (
        len(kf['findings']), 'the PC as a plain source operand of the 16-bit add and mov (C05, C07)')
    s += TAIL
    notes = json.load(open(os.path.join(TOP, 'tools', 'seed_notes.json')))
    s += '\n## 7. Planted bugs\n\n| id | property | needs | breaks | caught by |\n|---|---|---|---|---|\n'
    for d in sorted(os.listdir(os.path.join(TOP, 'seeded'))):
        m = json.load(open(os.path.join(TOP, 'seeded', d, 'meta.json')))
        s += '| %s | %s | %s | %s | %s |\n' % (d, m['property'], m['needs'], m['what_it_breaks'],
                                           notes.get(d, m['property'] + ' quick'))
    open(os.path.join(TOP, 'DESIGN.md'), 'w').write(re.sub(r'\n{3,}', '\n\n', s))


main()
