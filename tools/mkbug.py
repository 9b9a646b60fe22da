"""mkbug.py ID: (re)creates seeded/ID from tools/bugs/ID.py and confirms it.

A bug file sets PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)] and DEMO.
With --verify-only it only checks. A scratch copy of /repo is used.
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, env=None, timeout=600):
  return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout)


def main(bug, tests=True):
  g = {}
  exec(open(os.path.join(V, 'tools', 'bugs', bug + '.py')).read(), g)
  d = os.path.join(V, 'seeded', bug)
  shutil.rmtree(d, ignore_errors=True)
  os.makedirs(d)
  work = tempfile.mkdtemp(prefix='bug-')
  repo = os.path.join(work, 'repo')
  sh(f'cp -a /repo {repo} && git -C {repo} checkout -q -- .', '/')
  shutil.copytree(os.path.join(V, 'stubs'), os.path.join(d, 'stubs'), ignore=shutil.ignore_patterns('__pycache__'))
  for lib in sorted(os.listdir(os.path.join(V, 'tools', 'demo'))):
    if lib == 'demo_lib.py' or lib[:-3] in g['DEMO'] or (lib == 'demo_train.py' and 'demo_inter' in g['DEMO']):
      shutil.copy(os.path.join(V, 'tools', 'demo', lib), d)
  open(os.path.join(d, 'demo.py'), 'w').write(g['DEMO'].lstrip('\n'))
  open(os.path.join(d, 'demo.sh'), 'w').write(
      '#!/bin/bash\nexec timeout 200 /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
  os.chmod(os.path.join(d, 'demo.sh'), 0o755)
  json.dump({'property': g['PROPERTY'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']},
            open(os.path.join(d, 'meta.json'), 'w'), indent=1)
  clean = sh(f'bash {d}/demo.sh', repo)
  for f, old, new in g['EDITS']:
    p = os.path.join(repo, f)
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, 'w').write(s.replace(old, new))
  diff = sh('git diff', repo).stdout
  open(os.path.join(d, 'patch.diff'), 'w').write(diff)
  bad = sh(f'bash {d}/demo.sh', repo)
  print(bug, 'clean rc', clean.returncode, clean.stdout.strip()[-200:], '| patched rc', bad.returncode, bad.stdout.strip()[-300:])
  if clean.returncode: print(clean.stderr[-1500:])
  if 'BROKEN' not in bad.stdout: print('PATCHED STDERR', bad.stderr[-1500:])
  ok = clean.returncode == 0 and bad.returncode != 0
  if tests and ok:
    sh(f'cp -r /opt/vp/plugins {work}/plugins; sed -i "s#/repo#{repo}#" {work}/plugins/*.py; '
       f'sed "s#/opt/vp/plugins#{work}/plugins#; s#/repo#{repo}#" /opt/vp/env.sh > {work}/env.sh; '
       f'sed "s#cd /repo#cd {repo}#; s#/opt/vp/env.sh#{work}/env.sh#" /opt/vp/test.sh > {work}/test.sh', work)
    b = sh(f'. {work}/env.sh; cd {repo}; /opt/venv/bin/python {work}/plugins/build_check.py', repo)
    print('  build rc', b.returncode)
    ok = ok and b.returncode == 0
    t = sh(f'bash {work}/test.sh {work}/o.json', repo)
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    try:
      passed = set(json.load(open(f'{work}/o.json'))['passed'])
      miss = base - passed
      print('  stable tests missing:', len(miss), sorted(miss)[:3])
      ok = ok and not miss
    except Exception as e:
      print('  tests failed to run', e, t.stdout[-500:], t.stderr[-500:]); ok = False
  shutil.rmtree(work, ignore_errors=True)
  shutil.rmtree(os.path.join(d, '__pycache__'), ignore_errors=True)
  print('  ', 'GOOD' if ok else 'NOT GOOD')
  return ok


if __name__ == '__main__':
  for b in sys.argv[1:]:
    if not b.startswith('-'): main(b, '--no-tests' not in sys.argv)
