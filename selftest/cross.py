#!/usr/bin/env python3
"""Applies the behaviour-keeping edits of all properties in batches and runs every check on each batch:
a check that raises an alarm is suspected of judging how code is written. usage: cross.py [workers]"""
import sys, os, glob, subprocess, tempfile, shutil, importlib.util, concurrent.futures as cf
here = os.path.dirname(os.path.abspath(__file__))
binp = os.environ.get('VC', os.path.join(os.path.dirname(here), 'bin', 'verifcheck'))
edits = []
for f in sorted(glob.glob(os.path.join(here, 'edits_*.py'))):
    spec = importlib.util.spec_from_file_location('m', f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    edits += [e for e in m.EDITS if e[1] == 'quiet']
seen = set(); uniq = []
for e in edits:
    k = repr(e[3])
    if k in seen: continue
    seen.add(k); uniq.append(e)
if len(sys.argv) > 2: uniq = [e for e in uniq if e[2] in sys.argv[2:]]
env = dict(os.environ, CGO_ENABLED='0', GOTOOLCHAIN='local', VERIF_TIER='quick', VERIF_SEED='1')
def build(d):
    return subprocess.run(['go', 'build', './...'], cwd=d, capture_output=True, env=env).returncode == 0
def apply(d, subs):
    old = {}
    for f, o, n in subs:
        p = os.path.join(d, 'scouterx', f)
        s = open(p).read() if os.path.exists(p) else ''
        old.setdefault(p, s)
        if o is None: s += n
        elif s.count(o) < 1: break
        else: s = s.replace(o, n, 1)
        open(p, 'w').write(s)
    else:
        if build(d): return True
    for p, s in old.items(): open(p, 'w').write(s)
    return False
def batch(todo):
    d = tempfile.mkdtemp(prefix='cross')
    shutil.copy(os.path.dirname(here)+'/known_findings.txt', d)
    shutil.copytree('/repo', d + '/r', ignore=shutil.ignore_patterns('.git'))
    used, rest = [], []
    for e in todo:
        (used if len(used) < 10 and apply(d + '/r', e[3]) else rest).append(e)
        if len(used) >= 10: rest += todo[todo.index(e)+1:]; break
    return d, used, rest
def run(job):
    d, used = job
    try:
        r = subprocess.run(['bash', '-c', 'ulimit -v 16000000; exec %s -prop all -repo %s/r -verif %s' % (binp, d, d)], capture_output=True, text=True, env=env)
        return used, r.stdout + r.stderr
    finally: shutil.rmtree(d)
todo = uniq; fails = 0
with cf.ThreadPoolExecutor(int(sys.argv[1]) if len(sys.argv) > 1 else 3) as ex:
    futs = []
    while todo:
        d, used, rest = batch(todo)
        if not used:
            print('cannot apply', [e[2] for e in todo]); shutil.rmtree(d); break
        todo = rest
        futs.append(ex.submit(run, (d, used)))
    print(len(uniq), 'edits in', len(futs), 'batches', flush=True)
    for f in cf.as_completed(futs):
        used, out = f.result()
        ls = out.split('\n')
        print('BATCH', ','.join(e[0]+':'+e[2] for e in used))
        prop = ''
        for i, l in enumerate(ls):
            if l.startswith('VIOLATION'): prop = l.split()[1]
            elif prop and ('] ' in l): print('   ', prop, l.strip()[:260]); fails += 1; prop = ''
            elif 'UNDECIDED' in l or 'panic' in l[:20] or 'cannot' in l[:30]: print('   ', l[:260])
        sys.stdout.flush()
print(fails, 'alarms')
