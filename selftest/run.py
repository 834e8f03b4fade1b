#!/usr/bin/env python3
"""Self-test of the checker: applies small edits to scratch copies of /repo and runs one check on each.
usage: run.py [PROP ...]     (all when none given)
Edits live in edits_*.py as EDITS = [(prop, 'catch'|'quiet', name, [(file, old, new), ...])]."""
import sys, os, glob, subprocess, tempfile, shutil, importlib.util, concurrent.futures as cf
here = os.path.dirname(os.path.abspath(__file__))
binp = os.environ.get('VC', os.path.join(os.path.dirname(here), 'bin', 'verifcheck'))
edits = []
for f in sorted(glob.glob(os.path.join(here, 'edits_*.py'))):
    spec = importlib.util.spec_from_file_location('m', f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    edits += m.EDITS
sel = set(sys.argv[1:])
if sel: edits = [e for e in edits if e[0] in sel or e[2] in sel]
def one(e):
    prop, expect, name, subs = e
    d = tempfile.mkdtemp(prefix='selftest')
    try:
        shutil.copy(os.path.dirname(here)+'/known_findings.txt', d) if os.path.exists(os.path.dirname(here)+'/known_findings.txt') else None; shutil.copytree('/repo', d + '/r', ignore=shutil.ignore_patterns('.git'))
        for f, old, new in subs:
            p = os.path.join(d, 'r', 'scouterx', f)
            s = open(p).read() if os.path.exists(p) else ''
            if old is None: s = s + new
            else:
                if s.count(old) < 1: return (e, 'BADEDIT', f'{f}: {old!r} not found')
                s = s.replace(old, new, 1)
            open(p, 'w').write(s)
        env = dict(os.environ, VERIF_TIER='quick', VERIF_SEED='1', CGO_ENABLED='0')
        outs = []
        res = 'quiet'
        for pr in prop.split(','):
            r = subprocess.run(['timeout', '300', binp, '-prop', pr, '-repo', d + '/r', '-verif', d], capture_output=True, text=True, env=env)
            outs.append(r.stdout + r.stderr)
            if r.returncode == 1 and 'VIOLATION property=' in r.stdout: res = 'catch'
            elif r.returncode != 0: res = 'ERROR'
        if 'does not type-check' in outs[0]: res = 'NOCOMPILE'
        return (e, res, '\n'.join(outs))
    finally:
        shutil.rmtree(d)
bad = 0
with cf.ThreadPoolExecutor(4) as ex:
    for e, res, out in ex.map(one, edits):
        ok = res == e[1]
        if not ok: bad += 1
        print(('ok   ' if ok else 'FAIL ') + f'{e[0]} {e[1]:6} got {res:9} {e[2]}')
        if not ok or '-v' in os.environ.get('SELFTEST', ''): print('      ' + out.replace('\n', '\n      ')[:2500])
print(f'{len(edits)} edits, {bad} unexpected')
sys.exit(1 if bad else 0)
