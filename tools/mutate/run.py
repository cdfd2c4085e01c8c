#!/usr/bin/env python3
"""run.py OUT COUNT SEED [FILE-REGEX [KIND-REGEX]]: mutation testing of the checks (an experiment, not a check).

Random single-change mutants of /repo that compile and pass the stable tests are run, in
copies mounted over /repo in private mount namespaces, against the checks of the area."""
import json, os, random, re, shutil, subprocess, sys, threading, queue
out, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
rx = re.compile(sys.argv[4] if len(sys.argv) > 4 else '.')
wx = re.compile(sys.argv[5] if len(sys.argv) > 5 else '.') # what kind of change
SECS = os.environ.get('SECS', '12')
JOBS = int(os.environ.get('JOBS', '4'))
MUT = '/tmp/mutate'
ROOT = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', '..'))
lst = []
for l in subprocess.check_output([MUT, '-repo', '/repo', '-list'], text=True).split('\n'):
    p = l.split('\t')
    if len(p) == 4 and p[0].isdigit() and rx.search(p[1]) and wx.search(p[3]):
        lst.append((int(p[0]), p[1], int(p[2]), p[3]))
skip = ('words.go', 'builder/outline_builder.go')
lst = [m for m in lst if m[1] not in skip]
random.Random(seed).shuffle(lst)
lst = lst[:count]
def area(f):
    if 'rerules' in f or 'circular' in f or 'pool' in f: return 'C16 C18 C19 C17 C15'
    if 'cache' in f: return 'C20 C19 C15'
    if f.startswith('mask'): return 'C21 C07 C03 C12'
    if f in ('parse.go', 'internal/parsing_buffer.go'): return 'C03 C07 C08 C09 C10 C11 C14 C01 C02 C05 C04'
    if f == 'font.go': return 'C07 C08 C09 C10 C11 C20 C16 C06'
    if f == 'date.go': return 'C07 C13'
    if f.startswith('builder'): return 'C07 C08 C09 C10 C11 C14 C13 C12 C06'
    return 'C07 C08 C09 C10 C11 C14 C16 C03 C13'
base = json.load(open('/opt/vp/BASELINE.json'))
q = queue.Queue()
for m in lst: q.put(m)
lock = threading.Lock()
f = open(out, 'a')
def stable(repo):
    p = subprocess.run(['go', 'test', '-json', './...'], cwd=repo, capture_output=True, text=True, timeout=120)
    bad = set()
    for l in p.stdout.split('\n'):
        try: d = json.loads(l)
        except Exception: continue
        if d.get('Action') == 'fail' and d.get('Test'): bad.add(d['Test'].split('/')[0])
        if d.get('Action') == 'build-fail': return 'build'
    return 'fails ' + ','.join(bad) if bad - {'TestTesterSet'} else ''
def worker(k):
    w = '/tmp/mw%d' % k
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.check_call(['cp', '-a', '/repo', w + '/repo'])
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        subprocess.check_call(['git', '-C', w + '/repo', 'checkout', '-q', '--', '.'])
        subprocess.check_call([MUT, '-repo', w + '/repo', '-apply', str(m[0])])
        res = ''
        try:
            if subprocess.run(['go', 'build', './...'], cwd=w + '/repo', capture_output=True).returncode != 0: res = 'nobuild'
            else:
                t = stable(w + '/repo')
                if t: res = 'tests ' + t
        except subprocess.TimeoutExpired: res = 'tests timeout'
        if not res:
            script = 'mount --bind %s/repo /repo; %s/build.sh %s/sc || { echo RES nobuild2; exit; }; export GGSIM_SCRATCH=%s/sc; for p in %s; do timeout 200 %s/sc/ggsim check -first -procs 2 -secs %s -prop $p -sites %s/sc/sites.json -evidence %s/ev.json -replays %s > %s/log 2>&1; rc=$?; [ $rc = 0 ] || { echo RES killed $p rc=$rc $(grep -a -m1 -o "violation in run.*" %s/log | cut -c1-100); exit; }; done; echo RES SURVIVED' % (w, ROOT, w, w, area(m[1]), w, SECS, w, w, w, w, w)
            p = subprocess.run(['unshare', '-m', 'bash', '-c', script], capture_output=True, text=True)
            r = [l for l in p.stdout.split('\n') if l.startswith('RES')]
            res = r[0][4:] if r else 'error ' + p.stderr[-200:]
        with lock:
            f.write('%s\t%s:%d\t%s\t%s\n' % (m[0], m[1], m[2], m[3], res)); f.flush()
    shutil.rmtree(w, ignore_errors=True)
ts = [threading.Thread(target=worker, args=(k,)) for k in range(JOBS)]
for t in ts: t.start()
for t in ts: t.join()
