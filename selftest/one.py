#!/usr/bin/env python3
"""usage: one.py PROPS name... : applies the named edits one at a time and runs the given checks (comma separated, or all) on each."""
import sys, os, glob, subprocess, tempfile, shutil, importlib.util
here = os.path.dirname(os.path.abspath(__file__))
binp = os.environ.get('VC', os.path.join(os.path.dirname(here), 'bin', 'verifcheck'))
E = []
for f in sorted(glob.glob(os.path.join(here, 'edits_*.py'))):
    spec = importlib.util.spec_from_file_location('m', f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    E += m.EDITS
env = dict(os.environ, CGO_ENABLED='0', GOTOOLCHAIN='local', VERIF_TIER='quick', VERIF_SEED='1')
for name in sys.argv[2:]:
    for e in E:
        if name not in (e[2], e[0] + ':' + e[2]): continue
        d = tempfile.mkdtemp(prefix='one')
        shutil.copy(os.path.dirname(here) + '/known_findings.txt', d)
        shutil.copytree('/repo', d + '/r', ignore=shutil.ignore_patterns('.git'))
        for f, o, n in e[3]:
            p = os.path.join(d, 'r/scouterx', f); s = open(p).read() if os.path.exists(p) else ''
            assert o is None or o in s, f
            open(p, 'w').write(s + n if o is None else s.replace(o, n, 1))
        for P in sys.argv[1].split(','):
            r = subprocess.run(['bash', '-c', 'ulimit -v 16000000; exec %s -prop %s -repo %s/r -verif %s' % (binp, P, d, d)], capture_output=True, text=True, env=env)
            out = [l[:260] for l in (r.stdout + r.stderr).splitlines() if 'obligations' not in l or r.returncode]
            print(e[0], e[2], P, 'exit', r.returncode); print('\n'.join('    ' + l for l in out[:int(os.environ.get('N', '8'))]) if r.returncode else '')
        shutil.rmtree(d)
