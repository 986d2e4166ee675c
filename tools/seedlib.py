#!/usr/bin/env python3
"""Builds and verifies /verif/seeded from the specifications in tools/seeds*.py.

usage: seedlib.py build [ID...]     write patch.diff, demo.sh, demo_test.go, meta.json
       seedlib.py confirm [ID...]   in a scratch copy: applies, builds, stable tests pass,
                                    demo passes without and fails with the patch
       seedlib.py check [ID...]     run the property's quick check on a patched scratch copy
"""
import glob, importlib.util, json, os, re, shutil, subprocess, sys, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), 'seeded')
REPO = '/repo'
ORIG = '5505cff'
SCR = '/tmp/seedscr'

def load():
    seeds = {}
    for f in sorted(glob.glob(os.path.join(HERE, 'seeds*.py'))):
        spec = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        for s in m.SEEDS:
            assert s['id'] not in seeds, s['id']
            seeds[s['id']] = s
    return seeds

PKGS = {'json': 'encoding/json', 'bytes': 'bytes', 'strings': 'strings', 'context': 'context', 'errors': 'errors',
        'fmt': 'fmt', 'sort': 'sort', 'io': 'io', 'time': 'time', 'reflect': 'reflect'}
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken. Run with the working directory in the repository.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
printf '{"Replace": {"%s/zz_demo_test.go": "%s/demo_test.go"}}' "$PWD" "$here" > "$work/overlay.json"
export GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local
go test -vet=off -count=1 -timeout 120s -overlay "$work/overlay.json" -run '^TestSeededDemo$' .
'''
RACE_SH = DEMO_SH.replace('go test ', 'CGO_ENABLED=1 go test -race ')
LICENSE = ''

def demo_src(s):
    body = s['demo'] + s.get('decls', '')
    imps = [p for k, p in PKGS.items() if re.search(r'(?<![\w.])%s\.[A-Z]' % k, body)]
    out = 'package lpg_test\n\nimport (\n'
    for p in sorted(imps): out += '\t"%s"\n' % p
    out += '\t"testing"\n\n\t"github.com/cloudprivacylabs/lpg/v2"\n)\n\n'
    out += s.get('decls', '') + '\nfunc TestSeededDemo(t *testing.T) {\n' + s['demo'] + '\n}\n'
    return subprocess.run(['gofmt'], input=out, text=True, capture_output=True, check=True).stdout

def copy(name):
    d = os.path.join(SCR, name)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(SCR, exist_ok=True)
    subprocess.run(['cp', '-a', REPO, d], check=True)
    subprocess.run(['git', '-C', d, 'checkout', '-q', '--', '.'], check=True)
    return d

def build(s):
    d = copy('b-' + s['id'])
    try:
        for e in s['edits']:
            f, old, new = e[:3]; nth = e[3] if len(e) > 3 else 0
            p = os.path.join(d, f); t = open(p).read()
            c = t.count(old)
            if nth == 0:
                assert c == 1, (s['id'], f, c, old)
                t = t.replace(old, new)
            else:
                assert c >= nth, (s['id'], f, c)
                i = -1
                for _ in range(nth): i = t.index(old, i + 1)
                t = t[:i] + new + t[i + len(old):]
            open(p, 'w').write(t)
        fm = subprocess.run(['gofmt', '-l'] + [os.path.join(d, e[0]) for e in s['edits']], capture_output=True, text=True)
        if fm.stdout or fm.stderr: 
            subprocess.run(['gofmt', '-w'] + [os.path.join(d, e[0]) for e in s['edits']], check=True)
        diff = subprocess.run(['git', '-C', d, 'diff'], capture_output=True, text=True).stdout
        # must change original lines
        origl = 0
        for f in {e[0] for e in s['edits']}:
            bl = subprocess.run(['git', '-C', d, 'blame', '-s', 'HEAD', '--', f], capture_output=True, text=True).stdout.split('\n')
            cur = 0
            u0 = subprocess.run(['git', '-C', d, 'diff', '-U0', '--', f], capture_output=True, text=True).stdout
            fixes = set(subprocess.run(['git','-C',d,'rev-list','--abbrev-commit','--abbrev=7',ORIG+'..HEAD'],capture_output=True,text=True).stdout.split())
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', u0, re.M):
                a = int(m[1]); n = int(m[2] or 1)
                for ln in range(a, a + n):
                    if bl[ln-1].lstrip('^')[:7] not in fixes: origl += 1
        if origl == 0:
            # a pure insertion: also touch the original line before (or after) it
            for f in sorted({e[0] for e in s['edits']}):
                bl = subprocess.run(['git', '-C', d, 'blame', '-s', 'HEAD', '--', f], capture_output=True, text=True).stdout.split('\n')
                u0 = subprocess.run(['git', '-C', d, 'diff', '-U0', '--', f], capture_output=True, text=True).stdout
                L = open(os.path.join(d, f)).read().split('\n')
                for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? ', u0, re.M):
                    a, n, b, k = int(m[1]), int(m[2] or 1), int(m[3]), int(m[4] or 1)
                    if n: a -= 1
                    cand = [(x, y) for i in range(12) for x, y in ((a - i, b - 1 - i), (a + n + 1 + i, b + k + i)) if 0 < x <= len(bl) - 1
                            and bl[x-1].lstrip('^')[:7] not in fixes and L[y-1].strip() and L[y-1].strip()[-1] in '})' and '//' not in L[y-1] and '`' not in L[y-1] and not L[y-1].startswith('import')]
                    if cand:
                        L[cand[0][1]-1] += ';'
                        open(os.path.join(d, f), 'w').write('\n'.join(L)); origl = 1
                        diff = subprocess.run(['git', '-C', d, 'diff'], capture_output=True, text=True).stdout
                        break
                if origl: break
        if origl == 0: print('!! %s: changes no original line' % s['id'])
        o = os.path.join(OUT, s['id']); os.makedirs(o, exist_ok=True)
        open(o + '/patch.diff', 'w').write(diff)
        open(o + '/demo_test.go', 'w').write(demo_src(s))
        open(o + '/demo.sh', 'w').write(RACE_SH if s.get('race') else DEMO_SH); os.chmod(o + '/demo.sh', 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(o + '/meta.json', 'w'), indent=1)
    finally:
        shutil.rmtree(d, ignore_errors=True)

BASE = [t for t in json.load(open('/opt/vp/BASELINE.json')).get('passing', [])] if os.path.exists('/opt/vp/BASELINE.json') else []
def run(cmd, cwd, env=None, timeout=1000):
    e = dict(os.environ); e.update(GOFLAGS='-mod=readonly', GOPROXY='off', GOTOOLCHAIN='local')
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr

def confirm(s):
    d = copy('c-' + s['id']); o = os.path.join(OUT, s['id'])
    x = os.path.join(SCR, 'd-' + s['id']); shutil.rmtree(x, ignore_errors=True); os.makedirs(x)
    for f in os.listdir(o):
        if not f.endswith('.diff') and f != 'meta.json': shutil.copy(os.path.join(o, f), x)
    try:
        rc, out = run(['bash', x + '/demo.sh'], d)
        if rc: return 'FAIL demo on clean tree\n' + out[-1500:]
        rc, out = run(['git', 'apply', o + '/patch.diff'], d)
        if rc: return 'FAIL apply\n' + out
        rc, out = run(['go', 'build', './...'], d)
        if rc: return 'FAIL build\n' + out
        rc, out = run(['go', 'vet', '.'], d)
        if rc: return 'FAIL vet\n' + out
        for _ in range(2):
            rc, out = run(['go', 'test', '-count=1', './...'], d)
            if rc: return 'FAIL tests\n' + out[-1500:]
        bad = 0
        for _ in range(3):
            rc, out = run(['bash', x + '/demo.sh'], d)
            if not rc: return 'FAIL demo passes with patch'
        if 'FAIL' not in out: return 'FAIL demo strange\n' + out
        return 'ok   ' + next((l.strip() for l in out.split('\n') if 'demo_test.go' in l or 'panic' in l or 'timed' in l), '')
    finally:
        shutil.rmtree(d, ignore_errors=True); shutil.rmtree(x, ignore_errors=True)

def check(s, props=None, tier='quick'):
    """builds the checker against the patched copy and runs it"""
    d = copy('k-' + s['id']); o = os.path.join(OUT, s['id'])
    v = os.path.join(SCR, 'v-' + s['id']); shutil.rmtree(v, ignore_errors=True)
    subprocess.run(['cp', '-a', os.path.dirname(HERE), v], check=True)
    try:
        subprocess.run(['git', '-C', d, 'apply', o + '/patch.diff'], check=True)
        gm = v + '/mc/go.mod'; t = open(gm).read(); assert '/repo' in t
        open(gm, 'w').write(t.replace('/repo', d))
        res = []
        for p in props or [s['prop']]:
            rc, out = run(['bash', v + '/run.sh', p] + ([tier] if tier != 'quick' else []), v, {'LPG_REPO': d, 'VERIF_TIER': tier, 'VERIF_SEED': '1'})
            vl = [l for l in out.split('\n') if l.startswith('VIOLATION')]
            res.append('%s rc=%d %s' % (p, rc, 'CAUGHT' if rc == 1 and vl else 'MISSED ' + out[-300:] if rc == 0 else 'BROKEN ' + out[-600:]))
        return ' | '.join(res)
    finally:
        shutil.rmtree(d, ignore_errors=True); shutil.rmtree(v, ignore_errors=True)

if __name__ == '__main__':
    seeds = load(); mode = sys.argv[1]; ids = sys.argv[2:] or list(seeds)
    ids = [i for a in ids for i in seeds if i == a or i.startswith(a)]
    if mode == 'build':
        for i in ids: build(seeds[i])
    elif mode == 'confirm':
        with cf.ThreadPoolExecutor(4) as ex:
            for i, r in zip(ids, ex.map(lambda i: confirm(seeds[i]), ids)): print('%-34s %s' % (i, r), flush=True)
    elif mode == 'check':
        for i in ids: print('%-34s %s' % (i, check(seeds[i])), flush=True)
