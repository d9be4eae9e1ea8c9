#!/usr/bin/env python3
"""Writes DESIGN.md: the text below, the registry, each check's own statement
of what it enumerates, and the catch table (tools/caught.json)."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, 'tools'), '/repo']
sys.dont_write_bytecode = True
import registry  # noqa: E402

HEAD = open(os.path.join(HERE, 'tools', 'design_head.md')).read()
TAIL = open(os.path.join(HERE, 'tools', 'design_tail.md')).read()
COST = json.load(open(os.path.join(HERE, 'tools', 'cost.json')))


def section(p):
    m = importlib.import_module('mc.checks.' + p['id'].lower())
    out = ['### {} — {}'.format(p['id'], p['title']), '',
           p['statement'], '',
           '- *Explored and oracle.* ' + m.RULE,
           '- *Assumed / not decided.* ' + '; '.join(
               getattr(m, 'ASSUMPTIONS', [])
               or ['only what mc/ref states']) + '.',
           '- *Deciding method.* ' + registry.TECH.get(
               p['id'], registry.TECH['default']) + '.',
           '- *Beyond the tests.* ' + p['why_tests_cant']]
    c = COST.get(p['id'])
    if c:
        out.append('- *Cost (8 cores).* ' + c)
    return '\n'.join(out) + '\n'


def seeds():
    d = os.path.join(HERE, 'seeded')
    caught = json.load(open(os.path.join(HERE, 'tools', 'caught.json')))
    rows = ['| planted change | what it needs | caught by |',
            '|---|---|---|']
    for s in sorted(os.listdir(d)):
        meta = json.load(open(os.path.join(d, s, 'meta.json')))
        rows.append('| {} | {} | {} |'.format(
            s, meta['needs'].replace('|', '/'), caught.get(s, '?')))
    return '\n'.join(rows) + '\n'


with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
    f.write(HEAD)
    for prop in registry.PROPS:
        f.write('\n' + section(prop))
    f.write('\n' + TAIL.replace('@SEEDS@', seeds()))
