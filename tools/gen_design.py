"""Fill DESIGN.md from DESIGN.in.md, properties, harnesses and evidence."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def properties():
    out = []
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(line)
        m = importlib.import_module('props.' + p['id'].lower())
        doc = ' '.join((m.__doc__ or '').split())
        out.append('### %s %s' % (p['id'], p['title']))
        out.append('')
        out.append('* harness: ' + doc)
        out.append('* anchored in: ' + ', '.join(p['anchors']['files']))
        out.append('* bounds: ' + ' '.join(m.BOUNDS.split()))
        if m.ASSUMPTIONS:
            out.append('* assumed: ' + '; '.join(
                ' '.join(a.split()) for a in m.ASSUMPTIONS))
        ev = os.path.join(HERE, 'evidence', p['id'] + '.json')
        if os.path.exists(ev):
            e = json.load(open(ev))
            c = e['coverage']
            if e['tier'] == 'quick':
                out.append('* last quick run: %d configurations, %d paths, '
                           '%d obligations, %d queries, %.0f s' % (
                               c['configurations'], c['paths'],
                               c['obligations'], c['solver_queries'],
                               e['wall_s']))
        out.append('* beyond tests: ' + p['why_tests_cant'])
        out.append('')
    return '\n'.join(out)


def seeds():
    out = ['| change | property | needs | breaks |', '|---|---|---|---|']
    for f in sorted(glob.glob(os.path.join(HERE, 'seeded/*/meta.json'))):
        d = json.load(open(f))
        out.append('| %s | %s | %s | %s |' % (
            f.split('/')[-2], d['property'], d['needs'],
            d['what_it_breaks']))
    return '\n'.join(out)


s = open(os.path.join(HERE, 'tools', 'DESIGN.in.md')).read()
s = s.replace('@PROPERTIES@', properties()).replace('@SEEDS@', seeds())
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(s)
