#!/opt/venv/bin/python
"""writes DESIGN.md: tools/design_head.md + one section per property (texts of
the properties, rules and bounds of the checks, notes below) + the table of
planted bugs (seeded/*/meta.json, which checks caught them: tools/caught.json)
+ tools/design_tail.md"""
import ast
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def consts(pid):
    t = ast.parse(open('%s/mc/props/%s.py' % (ROOT, pid.lower())).read())
    res = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                res[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return res


def notes():
    res, k = {}, None
    for line in open(ROOT + '/tools/design_notes.md'):
        if line.startswith('# C'):
            k = line[2:].strip()
            res[k] = []
        elif k:
            res[k].append(line.rstrip())
    return {k: '\n'.join(v).strip() for k, v in res.items()}


def main():
    out = [open(ROOT + '/tools/design_head.md').read().rstrip(), '']
    nt = notes()
    out += ['## The properties and how each is decided', '']
    for line in open(ROOT + '/properties.jsonl'):
        p = json.loads(line)
        c = consts(p['id'])
        out += ['### %s %s' % (p['id'], p['title']), '',
                '*Enumerated (%s).* %s.' % (c['LEVEL'], c['RULE']), '',
                '*Bounds.* ' + '; '.join('%s: %s' % kv for kv in
                                         c['BOUNDS'].items()) + '.', '',
                '*Assumptions.* ' + '; '.join(c['ASSUMPTIONS']) + '.', '',
                nt.get(p['id'], ''), '']
    out += [open(ROOT + '/tools/design_tail.md').read().rstrip(), '']
    out += ['## Planted bugs (seeded/) and what catches them', '',
            'Each applies to the repaired tree, passes the stable tests and '
            'fails its demonstration. "after" says the check missed it at '
            'first and what was added then.', '',
            '| bug | property | needs | caught by |', '|---|---|---|---|']
    caught = json.load(open(ROOT + '/tools/caught.json'))
    for d in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
        m = json.load(open(d))
        k = os.path.basename(os.path.dirname(d))
        out.append('| %s | %s | %s | %s |' % (
            k, m['property'], m['needs'],
            caught.get(k, '%s at once' % m['property'])))
    open(ROOT + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')


if __name__ == '__main__':
    main()
