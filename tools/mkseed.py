#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from tools/seeds.py, after confirming each planted bug.

    tools/mkseed.py [ID ...]          build and confirm (all new ones by default)
    tools/mkseed.py --checks [ID ...] run the check of the property against them
"""

import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent
REPO = Path('/repo')
BASE = 'aca4e03'
sys.path.insert(0, str(HERE / 'tools'))


def run(*cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def clean():
    assert not run('git', '-C', str(REPO), 'status', '--porcelain').stdout, '/repo is not clean'


def original_lines(patch):
    """Each removed line must be one of the original repository."""
    bad = []
    path = line = None
    removed = 0
    for text in patch.splitlines():
        if text.startswith('--- a/'):
            path = text[6:]
        elif text.startswith('@@'):
            line = int(re.match(r'@@ -(\d+)', text)[1])
        elif path is None or text.startswith('+'):
            continue
        elif text.startswith('-'):
            removed += 1
            out = run('git', '-C', str(REPO), 'blame', '-s', '-L', f'{line},{line}', '--', path).stdout
            if not out.startswith('^'):
                bad.append((path, line, text))
            line += 1
        elif text.startswith(' '):
            line += 1
    return removed, bad


def demo(folder):
    """From another place, as in the end."""
    with tempfile.TemporaryDirectory() as d:
        for f in folder.iterdir():
            if f.suffix not in ('.diff', '.patch') and f.name != 'meta.json':
                shutil.copy(f, d)
        return run('bash', f'{d}/demo.sh', cwd=REPO, timeout=300)


def tests_pass():
    if run('bash', '/opt/vp/build.sh').returncode:
        return 'does not build'
    out = tempfile.mktemp(suffix='.json')
    run('bash', '/opt/vp/test.sh', out)
    results = json.load(open(out))
    os.unlink(out)
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    passed = set(results.get('passed', results if isinstance(results, list) else []))
    failed = [t for t in stable if t not in passed]
    return f'fails {failed[:4]}' if failed else None


def make(spec):
    clean()
    folder = HERE / 'seeded' / spec['id']
    shutil.rmtree(folder, ignore_errors=True)
    folder.mkdir(parents=True)
    try:
        for file, old, new in spec['edits']:
            p = REPO / file
            text = p.read_text()
            if text.count(old) != 1:
                return f'{text.count(old)} matches of {old!r} in {file}'
            p.write_text(text.replace(old, new))
        patch = run('git', '-C', str(REPO), 'diff').stdout
        (folder / 'patch.diff').write_text(patch)
        (folder / 'demo.py').write_text(spec['demo'].lstrip())
        (folder / 'demo.sh').write_text(
            '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
            'exec python3 "$(dirname "$0")/demo.py"\n')
        (folder / 'meta.json').write_text(json.dumps({
            'property': spec['property'], 'needs': spec['needs'],
            'what_it_breaks': spec['breaks']}, indent=1) + '\n')
        why = tests_pass()
        if why:
            return why
        res = demo(folder)
        if res.returncode == 0:
            return 'demo passes with the patch'
        spec['shown'] = (res.stdout + res.stderr).strip().splitlines()[-1:]
    finally:
        run('git', '-C', str(REPO), 'checkout', '--', '.')
    res = demo(folder)
    if res.returncode:
        return 'demo fails without the patch: ' + res.stderr[-400:]
    removed, bad = original_lines(patch)
    if bad or not removed:
        return f'not lines of the original repository: {bad}'
    return None


def check(spec, tier='quick'):
    clean()
    folder = HERE / 'seeded' / spec['id']
    assert not run('git', '-C', str(REPO), 'apply', str(folder / 'patch.diff')).returncode
    try:
        res = run('./check', spec['property'], cwd=HERE)
    finally:
        run('git', '-C', str(REPO), 'checkout', '--', '.')
    lines = res.stdout.splitlines()
    caught = res.returncode == 1 and any(
        l.startswith(f"VIOLATION property={spec['property']}") for l in lines)
    return caught, (lines or [''])[-1]


def main():
    from seeds import SEEDS

    args = sys.argv[1:]
    checks = '--checks' in args
    ids = [a for a in args if not a.startswith('--')]
    for spec in SEEDS:
        if ids and spec['id'] not in ids:
            continue
        folder = HERE / 'seeded' / spec['id']
        if checks:
            if folder.exists():
                print(spec['id'], *check(spec), flush=True)
            continue
        if not ids and (folder / 'meta.json').exists():
            continue
        why = make(spec)
        if why:
            shutil.rmtree(folder, ignore_errors=True)
        print(spec['id'], 'DROPPED: ' + why if why else f"ok {spec.get('shown')}", flush=True)


if __name__ == '__main__':
    main()
