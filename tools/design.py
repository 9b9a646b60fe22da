"""Writes DESIGN.md from DESIGN.in.md, the properties, bugs and findings."""
import glob
import importlib
import json
import os
import re
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
root = os.path.dirname(here)
import oracles  # pylint: disable=g-import-not-at-top
import props_data as d  # pylint: disable=g-import-not-at-top


def fill(t):
  return re.sub(r'\s+', ' ', t).strip()


def rule(pid):
  src = open(os.path.join(root, 'props', pid.lower() + '.py')).read()
  m = re.search(r'^RULE = \((.*?)\)\n(?=[A-Z])', src, re.S | re.M)
  return fill(eval('(' + m.group(1) + ')'))  # a string literal


props, nas = [], []
for p in d.PROPS:
  if p.get('na'):
    nas.append(f"* **{p['id']} {p['title']}.** {p['na']}")
  else:
    src = open(os.path.join(root, 'props', p['id'].lower() + '.py')).read()
    quick = re.search(r'^QUICK = (\d+)', src, re.M).group(1)
    cost = oracles.COST.get(p['id'])
    props.append(
        f"### {p['id']} {p['title']}\n\n{rule(p['id'])}\n\n"
        f"*Decided by* {p['check']['technique']}. {fill(oracles.O[p['id']])}\n\n"
        f"*Cost* {quick} seeds in the quick tier"
        + (f', about {cost} s' if cost else '') + '.\n')
fixes = []
for f in json.load(open(os.path.join(root, 'known_findings.json')))['fixed']:
  m = re.match(r'fixed: property=(\S+) (\S+) (.*)', f)
  fixes.append(f'| {m.group(1)} | {m.group(2)} | {m.group(3)} |')
caught = json.load(open(os.path.join(here, 'caught.json')))
bugs = []
for f in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
  m = json.load(open(f))
  n = os.path.basename(os.path.dirname(f))
  bugs.append(f"| {n} | {caught.get(n, 'not run yet')} | "
              f"{fill(m['what_it_breaks'])} |")
t = open(os.path.join(here, 'DESIGN.in.md')).read()
t = t.replace('PROPERTY_TABLE', '\n'.join(props))
t = t.replace('NOT_APPLICABLE', '\n'.join(nas) or 'None so far.')
t = t.replace('FIXES', '| property | commit | what failed |\n|---|---|---|\n'
              + '\n'.join(fixes))
t = t.replace('BUGS', '| bug | caught by | what it breaks |\n|---|---|---|\n'
              + '\n'.join(bugs))
with open(os.path.join(root, 'DESIGN.md'), 'w') as f:
  f.write(t)
