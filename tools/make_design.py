"""Writes DESIGN.md from tools/design.md: tables of sub-checks, repairs and planted bugs."""
import importlib
import json
import os
import pathlib
import re
import subprocess
import sys

HERE = pathlib.Path(__file__).resolve().parent
ROOT = HERE.parent
sys.path.insert(0, str(ROOT))
sys.dont_write_bytecode = True
from harness import env

env.install(env.build('opt'))
MANIFEST = {c['property']: c for c in json.load(open(ROOT / 'MANIFEST.json'))['checks']}
IDS = [json.loads(x)['id'] for x in open(ROOT / 'properties.jsonl')]


def table():
    out = []
    for i in IDS:
        m = importlib.import_module('checks.' + i.lower())
        gen = '; '.join('**%s** (%d): %s' % (s.name, s.quick, s.rule.replace('|', '/')) for s in m.SUBS)
        t = MANIFEST[i]['technique']
        t = t.split(' against ', 1)[1] if ' against ' in t else t.split(') ', 1)[-1]
        out.append('| %s | %s | %s |' % (i, gen, t))
    return '\n'.join(out)


def fixes():
    out = []
    for e in json.load(open(ROOT / 'known-findings.json'))['findings']:
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', e['text'])
        out.append('| %s | %s | %s |' % m.groups() if m else '| %s | known | %s |' % (e['property'], e['text']))
    return '| property | commit | what failed |\n|---|---|---|\n' + '\n'.join(sorted(out))


def seeded():
    status = json.load(open(HERE / 'seeded.json'))
    out = []
    for p in sorted((ROOT / 'seeded').iterdir()):
        d = json.load(open(p / 'meta.json'))
        out.append('| %s | %s | %s | %s | %s |' % (d['property'], p.name, d['needs'], d['what_it_breaks'], status.get(p.name, '?')))
    return '| property | bug | needs | breaks | check |\n|---|---|---|---|---|\n' + '\n'.join(out)


s = (HERE / 'design.md').read_text()
s = s.replace('@@TABLE@@', table()).replace('@@FIXES@@', fixes()).replace('@@SEEDED@@', seeded())
(ROOT / 'DESIGN.md').write_text(s)
