"""Planted bugs: specifications in tools/plants/*.py; builds seeded/<id>/ after confirming each one in a scratch copy.

  plant.py build [ID...]    patch, demo and meta.json, if it applies to the original code, passes the tests and its demo tells it
  plant.py catch [ID...]    runs the check of its property (or those of --checks C01,C02) against each, and writes catches.json
"""
import concurrent.futures
import glob
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEEDED = os.path.join(VERIF, 'seeded')
PY = '/opt/venv/bin/python'

PRELUDE = open(os.path.join(HERE, 'plants', 'prelude.txt')).read()
DEMO_SH = '''#!/bin/bash
# run with cwd at the root of the repository
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR=/opt/mplconfig
exec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def load():
    specs = {}
    for f in sorted(glob.glob(os.path.join(HERE, 'plants', '*.py'))):
        sp = importlib.util.spec_from_file_location('p_' + os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        for b in m.BUGS:
            assert b['id'] not in specs, b['id']
            specs[b['id']] = b
    return specs


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, errors='replace', **kw)


def copy():
    d = tempfile.mkdtemp(prefix='plant_', dir='/tmp')
    sh(['cp', '-a', '/repo', d + '/repo'])
    return d, d + '/repo'


def edit(repo, b):
    for path, old, new in b['edits']:
        f = os.path.join(repo, 'src/sloth', path)
        s = open(f, newline='', errors='surrogateescape').read()
        # as in the listing: no blank lines, any line endings, trailing blanks, and possibly half the indentation
        for k in (1, 2):
            wide = [re.sub(r'^ +', lambda m: m.group(0)*k, l) for l in old.strip('\n').split('\n')]
            pat = r'[ \t]*(?:\r?\n[ \t]*)*\r?\n'.join(re.escape(l) for l in wide)
            if wide[0].startswith(' '):
                pat = r'(?<![^\n])' + pat
            hits = list(re.finditer(pat, s))
            if hits:
                new = '\n'.join(re.sub(r'^ +', lambda m: m.group(0)*k, l) for l in new.strip('\n').split('\n'))
                break
        n = b.get('nth')
        assert hits and (len(hits) == 1 or n is not None), '%s: %d hits of %r' % (b['id'], len(hits), old)
        h = hits[n or 0]
        nl = '\r\n' if '\r\n' in s else '\n'
        s = s[:h.start()] + new.strip('\n').replace('\n', nl) + s[h.end():]
        open(f, 'w', newline='', errors='surrogateescape').write(s)
        compile(s, path, 'exec')


def tests(repo):
    """The stable tests in a copy."""
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    files = sorted({t.split('::')[0].replace('.', '/') + '.py' for t in stable})
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', MPLCONFIGDIR='/opt/mplconfig')
    r = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', *files], cwd=repo, env=env)
    return r.returncode == 0 and re.search(r'%d passed' % len(stable), r.stdout), r.stdout[-600:]


def demo(folder, repo):
    d = tempfile.mkdtemp(prefix='demo_', dir='/tmp')
    for f in os.listdir(folder):
        if not f.endswith(('.diff', '.json')):
            shutil.copy(os.path.join(folder, f), d)
    try:
        r = sh(['bash', d + '/demo.sh'], cwd=repo, timeout=280)
    finally:
        shutil.rmtree(d)
    return r.returncode, (r.stdout + r.stderr)[-900:]


def build(b):
    d, repo = copy()
    folder = os.path.join(d, 'seed')
    try:
        os.mkdir(folder)
        edit(repo, b)
        diff = sh(['git', 'diff'], cwd=repo).stdout
        raw = subprocess.run(['git', 'diff'], cwd=repo, capture_output=True).stdout
        if not diff:
            return b['id'], 'no change'
        # only original lines
        base = subprocess.run(['git', 'rev-list', '--max-parents=0', 'HEAD'], cwd='/repo', capture_output=True, text=True).stdout.strip()
        mine, n = [], 0
        for path in sorted({e[0] for e in b['edits']}):
            bl = sh(['git', 'blame', '-s', '--root', '-l', 'src/sloth/' + path], cwd='/repo').stdout.split('\n')
            h = sh(['git', 'diff', '-U0', 'src/sloth/' + path], cwd=repo).stdout
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', h, re.M):
                a, k = int(m.group(1)), int(m.group(2) or 1)
                for i in range(a, a + k):
                    n += 1
                    if not bl[i - 1].lstrip('^').startswith(base[:30]):
                        mine.append(bl[i - 1])
        if mine or not n:
            return b['id'], 'changes lines of mine: %s' % mine if mine else 'no original line changed'
        open(folder + '/patch.diff', 'wb').write(raw)
        open(folder + '/demo.sh', 'w').write(DEMO_SH)
        open(folder + '/demo.py', 'w').write(PRELUDE + b['demo'].strip('\n') + '\n')
        shutil.copy(os.path.join(VERIF, 'harness', 'assimulo_stub.py'), folder)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(folder + '/meta.json', 'w'), indent=1)
        ok, out = tests(repo)
        if not ok:
            return b['id'], 'tests fail: ' + out
        rc, out = demo(folder, '/repo')
        if rc != 0:
            return b['id'], 'demo fails on the unchanged tree: ' + out
        rc, out = demo(folder, repo)
        if rc == 0:
            return b['id'], 'demo passes with the patch: ' + out
        if sh(['git', '-C', '/repo', 'apply', '--check', folder + '/patch.diff']).returncode:
            return b['id'], 'does not apply'
        dst = os.path.join(SEEDED, b['id'])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(folder, dst)
        return b['id'], 'ok: ' + out.strip().split('\n')[-1][:150]
    except Exception as e:
        return b['id'], 'ERROR %s' % e
    finally:
        shutil.rmtree(d)


def catch(id, checks, seed='1'):
    meta = json.load(open(os.path.join(SEEDED, id, 'meta.json')))
    d, repo = copy()
    res = {}
    try:
        assert sh(['git', 'apply', os.path.join(SEEDED, id, 'patch.diff')], cwd=repo).returncode == 0
        for c in checks or [meta['property']]:
            env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED=seed, VERIF_EVIDENCE=d + '/evidence', VERIF_REPLAYS=d + '/replays')
            r = sh([VERIF + '/bin/check', c, '--quick'], env=env, timeout=900)
            l = [x for x in r.stdout.split('\n') if x.startswith('VIOLATION')]
            msg = r.stdout.strip().split('\n')
            msg = msg[msg.index(l[0]) + 1].strip() if l else ''
            res[c] = {'rc': r.returncode, 'caught': r.returncode == 1 and bool(l), 'message': msg[:160]}
            if r.returncode not in (0, 1):
                res[c]['message'] = (r.stdout + r.stderr)[-300:]
    finally:
        shutil.rmtree(d)
    return id, res


def main():
    cmd, ids = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith('--')]
    opts = dict(a[2:].split('=') for a in sys.argv[2:] if a.startswith('--'))
    if cmd == 'build':
        specs = load()
        todo = [specs[i] for i in ids] if ids else [b for i, b in specs.items() if not os.path.isdir(os.path.join(SEEDED, i))]
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for i, r in ex.map(build, todo):
                print('%-28s %s' % (i, r), flush=True)
    else:
        ids = ids or sorted(os.listdir(SEEDED))
        checks = opts['checks'].split(',') if opts.get('checks') else None
        path = os.path.join(HERE, 'plants', 'catches.json')
        with concurrent.futures.ThreadPoolExecutor(int(opts.get('jobs', 2))) as ex:
            for i, r in ex.map(lambda i: catch(i, checks, opts.get('seed', '1')), ids):
                for c, x in r.items():
                    print('%-28s %s %s %s' % (i, c, 'caught' if x['caught'] else 'MISSED rc=%s' % x['rc'], x['message']), flush=True)
                if not checks:
                    known = json.load(open(path)) if os.path.exists(path) else {}
                    for c, x in r.items():
                        known[i] = {'check': c, 'caught': x['caught'], 'message': x['message'].replace('/tmp/', '')}
                    json.dump(dict(sorted(known.items())), open(path, 'w'), indent=1)


if __name__ == '__main__':
    main()
