#!/usr/bin/env python3
"""Development tool for planted bugs (never used by the checks).

seedtool.py add FILE.py...   each FILE.py defines SEEDS = [dict(id, prop, edits=[(path, old, new)], demo, needs, breaks)]
seedtool.py check ID...      runs the property's check against planted bugs, in a private mount namespace
seedtool.py try PATCH PROP   the same for a patch file
"""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# exit 0 when the behaviour is right, 1 when it is broken; run from the repository root
D=$(cd "$(dirname "$0")" && pwd)
export LC_ALL=C.UTF-8 PYTHONHASHSEED=0 JYTHONPATH="$PWD:/opt/jylib"
exec timeout 200 jython -B "$D/demo.py"
'''


def ns(tree, cmd, timeout=1500, cwd='/repo'):
    """Run cmd with `tree` in the place of /repo; evidence and replays go elsewhere."""
    tmp = tempfile.mkdtemp(prefix='seedns-')
    try:
        for d in ('evidence', 'replays'):
            os.makedirs(os.path.join(tmp, d)); os.makedirs(os.path.join(V, d), exist_ok=True)
        script = ('mount --bind %s /repo && mount --bind %s/evidence %s/evidence && mount --bind %s/replays %s/replays && cd %s && %s'
                  % (tree, tmp, V, tmp, V, cwd, cmd))
        p = subprocess.run(['unshare', '-Urm', 'bash', '-c', script], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def copy_repo():
    d = tempfile.mkdtemp(prefix='seedtree-')
    subprocess.check_call(['cp', '-a', '/repo/.', d])
    return d


def tests(tree):
    out = tempfile.mktemp(suffix='.json')
    rc, text = ns(tree, 'bash /opt/vp/test.sh %s' % out)
    base = json.load(open('/opt/vp/BASELINE.json'))
    names = base.get('stable') or base.get('passing') or base.get('tests') or base
    got = json.load(open(out)); os.unlink(out)
    return got, text.strip().splitlines()[-1]


def run_check(tree, prop):
    rc, text = ns(tree, 'python3 harness/check.py %s' % prop, cwd=V)
    line = [l for l in text.splitlines() if l.startswith('VIOLATION property=%s' % prop)]
    return ('CAUGHT' if rc == 1 and line else 'quiet' if rc == 0 else 'RC%d' % rc), text


def mine_lines(tree, files):
    """(file, line text) changed that later commits than the original added."""
    bad = []
    base = '4d16785'
    for f in files:
        orig = subprocess.run(['git', '-C', '/repo', 'show', '%s:%s' % (base, f)], stdout=subprocess.PIPE).stdout.decode().splitlines()
        orig = set(orig)
        diff = subprocess.run(['git', '-C', tree, 'diff', '-U0', '--', f], stdout=subprocess.PIPE).stdout.decode().splitlines()
        rem = [l[1:] for l in diff if l.startswith('-') and not l.startswith('---')]
        bad += [(f, l) for l in rem if l.strip() and l not in orig]
        if not rem:
            bad.append((f, 'pure addition'))
    return bad


def add(s, check=True):
    t = copy_repo()
    try:
        log = [s['id']]
        for path, old, new in s['edits']:
            p = os.path.join(t, path)
            src = open(p, encoding='utf-8').read()
            if src.count(old) != 1:
                return '%s: edit matches %d times: %r' % (s['id'], src.count(old), old[:60])
            open(p, 'w', encoding='utf-8').write(src.replace(old, new))
        files = sorted(set(e[0] for e in s['edits']))
        bad = mine_lines(t, files)
        if bad:
            log.append('NOT-ORIGINAL %r' % bad[:3])
        d = os.path.join(V, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, 'patch.diff'), 'wb') as fh:
            fh.write(subprocess.run(['git', '-C', t, 'diff'], stdout=subprocess.PIPE).stdout)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.py'), 'w').write('# -*- coding: utf-8 -*-\n' + s['demo'].lstrip('\n'))
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        keep = True
        rc0 = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if rc0.returncode != 0:
            log.append('DEMO FAILS UNPATCHED: ' + rc0.stdout.decode()[-600:]); keep = False
        rc1, out = ns(t, 'bash %s/demo.sh' % d)
        if rc1 == 0:
            log.append('DEMO PASSES PATCHED'); keep = False
        got, last = tests(t)
        if '0 failed' not in last and ', 0 fail' not in last:
            log.append('TESTS ' + last); keep = keep and ' 0 failed' in last
        if not keep:
            shutil.rmtree(d)
            return ' | '.join(log + ['DROPPED'])
        if check:
            r, text = run_check(t, s['prop'])
            log.append(r)
            if r.startswith('RC'):
                log.append(text[-500:])
        return ' | '.join(log)
    finally:
        shutil.rmtree(t, ignore_errors=True)


def check_id(i, prop=None, patch=None):
    t = copy_repo()
    try:
        patch = patch or os.path.join(V, 'seeded', i, 'patch.diff')
        prop = prop or json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))['property']
        p = subprocess.run(['git', '-C', t, 'apply', patch], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            return '%s %s PATCH DOES NOT APPLY' % (i, prop)
        r, text = run_check(t, prop)
        if os.environ.get('SHOW'):
            r += '\n' + text[-3000:]
        return '%s %s %s' % (i, prop, r)
    finally:
        shutil.rmtree(t, ignore_errors=True)


if __name__ == '__main__':
    how = sys.argv[1]
    jobs = int(os.environ.get('J', '3'))
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        if how == 'add':
            seeds = []
            for f in sys.argv[2:]:
                g = {}
                exec(open(f).read(), g)
                seeds += g['SEEDS']
            for r in ex.map(add, seeds):
                print(r, flush=True)
        elif how == 'check':
            ids = sys.argv[2:] or sorted(os.listdir(os.path.join(V, 'seeded')))
            for r in ex.map(check_id, ids):
                print(r, flush=True)
        else:
            print(check_id('x', sys.argv[3], sys.argv[2]))
