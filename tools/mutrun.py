#!/usr/bin/env python3
"""Mutation survey of the checks (development aid, not run by any check).

usage: mutrun.py tests MUTANTS.jsonl OUT.jsonl           keep what compiles and passes the stable tests
       mutrun.py checks SURVIVORS.jsonl OUT.jsonl [PROPS] which property's quick check notices each
Everything happens in /tmp/mut, with go build overlays; /repo is not touched.
"""
import concurrent.futures as cf, json, os, queue, subprocess, sys, threading, time
REPO, SCR, MC = '/repo', os.environ.get('SCR', '/tmp/mut'), os.environ.get('MC', '/verif/mc')
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=readonly', GOWORK='off')
BASE = json.load(open(os.environ.get('OV', '/tmp/w/ov/overlay.json')))['Replace']
STABLE = json.load(open('/opt/vp/BASELINE.json'))
ORDER = {
 'pattern.go': 'C12 C09 C10 C11 C07', 'planprocessors.go': 'C12 C10 C09 C11 C07', 'vpathitr.go': 'C10 C13 C12',
 'graph.go': 'C01 C04 C05 C03 C02 C08 C06 C19', 'json.go': 'C16 C17 C18 C07', 'path.go': 'C14 C13 C10 C15', 'properties.go': 'C22 C04 C16 C05 C08',
 'edgemap.go': 'C02 C03 C06 C01', 'maps.go': 'C03 C24 C06', 'alg.go': 'C19 C20 C21 C13', 'itr.go': 'C06 C03 C02', 'list.go': 'C01 C06 C24 C02', 'indexes.go': 'C04 C05 C06',
 'dotrenderer.go': 'C25 C18', 'stringset.go': 'C23 C08 C07', 'node.go': 'C02 C01 C08', 'hashindex.go': 'C04 C05 C06', 'clone.go': 'C19 C08', 'btreeindex.go': 'C04 C05 C06',
 'cursor.go': 'C15', 'sets.go': 'C24 C13 C06', 'edge.go': 'C08 C01', 'stringtable.go': ''}
ALL = ['C%02d' % i for i in range(1, 40)]
slots = queue.Queue()
for i in range(int(os.environ.get('SLOTS', '8'))): slots.put(i)

def prep(m, base):
    k = slots.get()
    d = os.path.join(SCR, 's%d' % k); os.makedirs(d, exist_ok=True)
    src = open(m['file'], 'rb').read()
    p = os.path.join(d, 'mut.go')
    open(p, 'wb').write(src[:m['from']] + m['text'].encode() + src[m['to']:])
    ov = os.path.join(d, 'ov.json')
    json.dump({'Replace': dict(base, **{m['file']: p})}, open(ov, 'w'))
    return k, d, ov

def tests(m):
    k, d, ov = prep(m, {})
    try:
        b = os.path.join(d, 'lpg.test')
        r = subprocess.run(['go', 'test', '-vet=off', '-c', '-overlay', ov, '-o', b, '.'], cwd=REPO, env=ENV, capture_output=True, text=True)
        if r.returncode: return 'nocompile'
        try:
            r = subprocess.run(['bash', '-c', 'ulimit -v 8000000; exec ' + b + ' -test.timeout 20s -test.count=1'], cwd=REPO, env=ENV, capture_output=True, text=True, timeout=40)
        except subprocess.TimeoutExpired: return 'killed'
        return 'killed' if r.returncode else 'survived'
    finally: slots.put(k)

def checks(m, only=None):
    k, d, ov = prep(m, BASE)
    try:
        b = os.path.join(d, 'mc')
        r = subprocess.run(['go', 'build', '-tags', 'verifmaps', '-overlay', ov, '-o', b, '.'], cwd=MC, env=ENV, capture_output=True, text=True)
        if r.returncode: return 'nobuild ' + r.stderr[-300:]
        first = ORDER.get(os.path.basename(m['file']), '').split()
        os.makedirs(d + '/v/evidence', exist_ok=True)
        for p in only or (first if os.environ.get('FIRST') else first + [x for x in HAVE if x not in first]):
            t = time.time()
            r = subprocess.run([b, '-prop', p, '-verif', d + '/v', '-scratch', d, '-workers', os.environ.get('WORKERS', '1'), '-limit', os.environ.get('LIMIT', '900')], env=ENV, capture_output=True, text=True)
            if r.returncode == 1:
                return p
            if r.returncode != 0:
                return 'broken %s %s' % (p, r.stdout[-300:] + r.stderr[-300:])
        return 'MISSED'
    finally: slots.put(k)

if __name__ == '__main__':
    cmd, src, out = sys.argv[1:4]
    HAVE = subprocess.run(['bash', '-c', "grep -o 'ID: *\"C[0-9]*\"' /verif/mc/*.go | grep -o 'C[0-9][0-9]' | sort -u"], capture_output=True, text=True).stdout.split()
    only = sys.argv[4:] or None
    done = set()
    if os.path.exists(out): done = {json.loads(l)['id'] for l in open(out)}
    ms = [json.loads(l) for l in open(src)]
    ms = [m for m in ms if m['id'] not in done and (cmd == 'tests' or m.get('result') in ('survived', 'MISSED'))]
    lock = threading.Lock(); o = open(out, 'a'); n = 0
    def one(m):
        global n
        r = tests(m) if cmd == 'tests' else checks(m, only)
        with lock:
            n += 1
            o.write(json.dumps(dict(m, result=r)) + '\n'); o.flush()
            if n % 100 == 0: print(n, len(ms), flush=True)
    with cf.ThreadPoolExecutor(int(os.environ.get('SLOTS', '8'))) as ex: list(ex.map(one, ms))
