#!/usr/bin/env python3
"""Runs every check on copies of the repository rewritten by mechanical refactorings (checker/cmd/refac): none may raise an alarm.
usage: refac.py [-o REGEXP] [transformation...]; env VC=checker REFAC=rewriter PROPS=all W=workers"""
import sys, os, subprocess, tempfile, shutil, re, concurrent.futures as cf
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
VC = os.environ.get('VC', root + '/bin/verifcheck'); REFAC = os.environ.get('REFAC', '/tmp/refac')
ALL = 'negate cond-var ret-var range-index switch-if if-switch else-rest early-return body-closure args incr for-break and-split or-split swap-cmp not-cmp impl alias var-decl new-fields defer-closure type-switch-if ifinit helper-stmts rename'.split()
args = sys.argv[1:]; only = ''
if args[:1] == ['-o']: only = args[1]; args = args[2:]
env = dict(os.environ, CGO_ENABLED='0', GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', VERIF_TIER='quick', VERIF_SEED='1')
def job(t):
    d = tempfile.mkdtemp(prefix='refac')
    try:
        shutil.copy(root + '/known_findings.txt', d)
        shutil.copytree('/repo', d + '/r', ignore=shutil.ignore_patterns('.git'))
        r = subprocess.run([REFAC, '-repo', d + '/r', '-t', t, '-only', only], capture_output=True, text=True, env=env)
        head = (r.stdout + r.stderr).strip()[-300:]
        b = subprocess.run(['go', 'build', './...'], cwd=d + '/r', capture_output=True, text=True, env=env)
        if b.returncode: return t, head + '\nDOES NOT BUILD\n' + b.stderr[:1500]
        out = ''
        for P in os.environ.get('PROPS', 'all').split(','):
            r = subprocess.run(['bash', '-c', 'ulimit -v 16000000; exec timeout 1500 %s -prop %s -repo %s/r -verif %s' % (VC, P, d, d)], capture_output=True, text=True, env=env)
            out += r.stdout + r.stderr
        if os.environ.get('KEEP'): shutil.copytree(d + '/r', os.environ['KEEP'], dirs_exist_ok=True)
        L = []; cur = None
        for l in out.splitlines():
            m = re.match(r'property (C\d+): .*, (\d+) violations', l)
            if m: cur = m.group(1)
            if m and m.group(2) != '0': L.append(l)
            elif not m and l.startswith('  ') and not l.startswith('      ') or 'panic' in l or 'KNOWN' not in l and not l.startswith(('VIOL', ' ', 'property')): L.append('   ' + l.strip()[:260])
        return t, head + '\n' + '\n'.join(L)
    finally: shutil.rmtree(d)
with cf.ThreadPoolExecutor(int(os.environ.get('W', '2'))) as ex:
    for f in cf.as_completed([ex.submit(job, t) for t in (args or ALL)]):
        t, o = f.result(); print('#### ' + t + ' ' + o, flush=True)
