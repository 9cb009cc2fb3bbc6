"""Make and confirm planted bugs. usage: plant.py DEFS.py [id ...]

DEFS defines BUGS = {id: dict(property=, edits=[(file, old, new), ...], demo='python source', needs=, breaks=)}.
Each is applied to a scratch copy of /repo, where the existing tests, the demonstration and the checks are run.
"""
import concurrent.futures as cf
import importlib.util
import json
import os
import pathlib
import shutil
import subprocess
import sys

ROOT = pathlib.Path(__file__).resolve().parents[1]
REPO = pathlib.Path('/repo')
PY = '/opt/venv/bin/python'
ENV = {**os.environ, 'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MPLBACKEND': 'Agg',
       'PYTHONHASHSEED': '0'}
BASE = 'cc5abea'
HEADER = 'import os, sys\nsys.path.insert(0, os.getcwd())\n'


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env={**ENV, **kw.pop('env', {})}, **kw)


def stable():
    out = []
    for x in json.loads(pathlib.Path('/opt/vp/BASELINE.json').read_text())['stable']:
        mod, test = x.split('::', 1)
        out.append((mod, test))
    return set(out)


def tests(copy):
    """Names of the stable tests which fail"""
    xml = copy / 'out.xml'
    sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=800', '--disable-warnings', '-n', '3',
        '--continue-on-collection-errors', '--ignore=tests/models/test_thevenin.py', '-o', 'junit_family=xunit2', f'--junitxml={xml}',
        'tests'], copy)
    import xml.etree.ElementTree as et
    good = set()
    for tc in et.parse(xml).iter('testcase'):
        if not any(c.tag in ('failure', 'error', 'skipped') for c in tc):
            good.add((tc.get('classname'), tc.get('name')))
    return sorted(f'{a}::{b}' for a, b in stable() - good)


def one(bid, bug, light=False):
    copy = pathlib.Path(f'/tmp/pl_{bid}')
    dest = pathlib.Path(f'/tmp/plants/{bid}')
    dest.mkdir(parents=True, exist_ok=True)
    shutil.rmtree(copy, ignore_errors=True)
    shutil.copytree(REPO, copy, symlinks=True)
    res = {'id': bid, 'property': bug['property']}
    try:
        base_ok = False
        for file, old, new in bug['edits']:
            p = copy / file
            raw = p.read_bytes().decode()
            crlf = '\r\n' in raw
            text = raw.replace('\r\n', '\n')
            if text.count(old) != 1:
                return {**res, 'error': f'{file}: {text.count(old)} occurrences of {old!r}'}
            text = text.replace(old, new)
            p.write_bytes((text.replace('\n', '\r\n') if crlf else text).encode())
            base = sh(['git', 'show', f'{BASE}:{file}'], REPO).stdout.replace('\r\n', '\n').split('\n')
        diff = subprocess.run(['git', 'diff'], cwd=copy, capture_output=True).stdout
        (dest / 'patch.diff').write_bytes(diff)
        cur = None
        foreign = []
        for line in diff.decode().replace('\r', '').split('\n'):
            if line.startswith('--- a/'):
                base = sh(['git', 'show', f'{BASE}:{line[6:]}'], REPO).stdout.replace('\r\n', '\n').split('\n')
            elif line.startswith('-') and not line.startswith('---'):
                if line[1:] in base:
                    base_ok = True
                else:
                    foreign.append(line[1:])
        if not base_ok or foreign:
            res['warning'] = f'lines which are not original: {foreign}'
        (dest / 'demo.py').write_text(HEADER + bug['demo'].lstrip('\n'))
        (dest / 'demo.sh').write_text('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\n'
                                      'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        (dest / 'meta.json').write_text(json.dumps({'property': bug['property'], 'needs': bug['needs'],
                                                    'what_it_breaks': bug['breaks']}, indent=1) + '\n')
        if bug['demo']:
            a = sh(['bash', str(dest / 'demo.sh')], REPO)
            b = sh(['bash', str(dest / 'demo.sh')], copy)
            if a.returncode != 0 or b.returncode == 0:
                return {**res, 'error': f'demo: {a.returncode} unchanged, {b.returncode} changed\n{a.stderr[-1500:]}'}
            res['demo'] = (b.stderr.strip().split('\n') or [''])[-1][:150]
        c = sh(['./check.sh', bug['property']], ROOT, env={'MOIRAE_REPO': str(copy), 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
        res['caught'] = c.returncode == 1 and f'VIOLATION property={bug["property"]}' in c.stdout
        res['out'] = (c.stdout.strip().split('\n') or [''])[0][:300] if res['caught'] else c.stdout[-300:] + c.stderr[-300:]
        if not light:
            res['failing tests'] = tests(copy)
            if not res['failing tests'] and 'warning' not in res:
                final = ROOT / 'seeded' / bid
                final.mkdir(parents=True, exist_ok=True)
                for f in ('patch.diff', 'demo.py', 'demo.sh', 'meta.json'):
                    shutil.copy(dest / f, final / f)
                os.chmod(final / 'demo.sh', 0o755)
                res['kept'] = True
        return res
    finally:
        shutil.rmtree(copy, ignore_errors=True)


def main():
    spec = importlib.util.spec_from_file_location('defs', sys.argv[1])
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    light = '--light' in sys.argv
    ids = [x for x in sys.argv[2:] if not x.startswith('--')] or list(mod.BUGS)
    with cf.ThreadPoolExecutor(2) as pool:
        for r in pool.map(lambda i: one(i, mod.BUGS[i], light), ids):
            print(json.dumps(r), flush=True)


if __name__ == '__main__':
    main()
