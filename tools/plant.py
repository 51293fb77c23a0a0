"""plant.py: (re)creates the planted bugs of /verif/seeded from tools/bugs/*.py and confirms each of them.
A file of tools/bugs: a module with PROPERTY, FILE, EDITS [(old, new)], NEEDS, BREAKS and DEMO (a program)."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
ROOT = '/verif'
ENV = dict(os.environ, TZ='UTC', PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent', HOME='/root')
STABLE = None
DEMO_SH = '''#!/bin/bash
export HOME=/root LANG=C.UTF-8 TZ=UTC PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent PYTHONPATH="$PWD"
exec /opt/venv-pypy/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=kw.get('env', ENV), text=True)

def one(path):
    name = os.path.basename(path)[:-3]
    spec = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    scratch = tempfile.mkdtemp(prefix='plant-')
    copy = os.path.join(scratch, 'repo')
    try:
        shutil.copytree('/repo', copy, symlinks=True)
        sh('git checkout -q -- . && git clean -fdq', copy)
        for edit in m.EDITS:
            f, old, new = edit if len(edit) == 3 else (m.FILE,) + tuple(edit)
            p = os.path.join(copy, f)
            s = open(p).read()
            if s.count(old) != 1:
                return name, 'edit matches %d times: %r' % (s.count(old), old[:60])
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', copy).stdout
        # at least one changed line of the original repository
        out = os.path.join(ROOT, 'seeded', name)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        open(os.path.join(out, 'demo.sh'), 'w').write(DEMO_SH)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        open(os.path.join(out, 'demo.py'), 'w').write(m.DEMO.lstrip('\n'))
        json.dump({'property': m.PROPERTY, 'needs': m.NEEDS, 'what_it_breaks': m.BREAKS},
            open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        clean = sh('bash %s/demo.sh' % out, '/repo')
        bad = sh('bash %s/demo.sh' % out, copy)
        env = dict(ENV, PYTHONHASHSEED='0')
        tests = sh('/opt/venv-pypy/bin/python -m pytest tests -q -p no:cacheprovider -W ignore -x --deselect none -o addopts= '
            '-o junit_family=xunit2 --junitxml=%s/j.xml --continue-on-collection-errors --maxfail=1000' % scratch, copy, env=env)
        import xml.etree.ElementTree as ET
        failed = set()
        for t in ET.parse(scratch + '/j.xml').getroot().iter('testcase'):
            if any(c.tag in ('failure', 'error') for c in t):
                failed.add('%s::%s' % (t.get('classname'), t.get('name')))
        broken = [f for f in failed if any(f.split('::')[0].split('.')[-1] in s and s.endswith(f.split('::')[1]) for s in STABLE)]
        problems = []
        if clean.returncode != 0:
            problems.append('demo fails on the clean tree: ' + clean.stdout[-300:])
        if bad.returncode == 0:
            problems.append('demo passes on the patched tree')
        if broken:
            problems.append('stable tests fail: %s' % broken[:4])
        return name, '; '.join(problems) or 'ok'
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == '__main__':
    b = json.load(open('/opt/vp/BASELINE.json'))
    STABLE = b.get('stable') or b.get('passed') or b
    STABLE = list(STABLE)
    names = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(ROOT + '/tools/bugs') if f.endswith('.py'))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        for name, r in ex.map(one, ['%s/tools/bugs/%s.py' % (ROOT, n) for n in names]):
            print(name, r, flush=True)
