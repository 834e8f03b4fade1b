#!/usr/bin/env python3
"""Builds seeded/<id>/ from tools/seeds_*.py and verifies each in a scratch copy of /repo.
usage: mkseed.py [ID ...]"""
import json, os, sys, glob, subprocess, tempfile, shutil, importlib.util, concurrent.futures as cf
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
seeds = []
for f in sorted(glob.glob(os.path.join(here, 'seeds_*.py'))):
    spec = importlib.util.spec_from_file_location('m', f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    seeds += m.SEEDS
sel = set(sys.argv[1:])
if sel: seeds = [s for s in seeds if s['id'] in sel or s['prop'] in sel]
DEMO = '''#!/bin/bash
# runs demo_test.go inside package PKG of the repository in the current directory, through an overlay
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'find "$T" -delete' EXIT
cp "$R/go.mod" "$T/demo.mod"; cp "$R/go.sum" "$T/demo.sum"
printf '{"Replace": {"%s/PKG/zz_verif_demo_test.go": "%s/demo_test.go"EXTRA}}' "$R" "$D" > "$T/overlay.json"
export GOTOOLCHAIN=local GOPROXY=off CGO_ENABLED=0 GOFLAGS="-mod=mod -modfile=$T/demo.mod"
export SCOUTER_AGENT_HOME="$T/home" DEMO_DIR="$T"
mkdir -p "$T/home"
timeout 200 go test -vet=off -count=1 -overlay "$T/overlay.json" -run '^TestVerifDemo' "./PKG"
'''
stable = [x.replace('github.com/scouter-contrib/scouter-agent-golang/', '') for x in json.load(open('/opt/vp/BASELINE.json'))['stable']]
def run(cmd, cwd, env=None, t=300):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, errors='replace', timeout=t)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
def one(s):
    d = os.path.join(root, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='seed.')
    r = os.path.join(tmp, 'r')
    log = []
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
        demo = DEMO.replace('PKG', s['pkg'])
        extra = ''
        stub = os.path.join(d, 'stub_test.go')
        # an existing test file of the package is replaced by an empty one so that only the demonstration is compiled
        for i, name in enumerate(sorted(x for x in os.listdir(os.path.join(r, s['pkg'])) if x.endswith('_test.go'))):
            extra += f', "%s/{s["pkg"]}/{name}": ""'
        n = extra.count('%s')
        demo = demo.replace('EXTRA', extra).replace('"$R" "$D"', '"$R" "$D"' + ' "$R"' * n)
        open(os.path.join(d, 'demo.sh'), 'w').write(demo); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo_test.go'), 'w').write(s['test'])
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        rc, out = run(['bash', os.path.join(d, 'demo.sh')], r)
        if rc: return s, f'DEMO FAILS ON CLEAN TREE\n{out[-2500:]}'
        for f, old, new in s['edits']:
            p = os.path.join(r, 'scouterx', f); t = open(p).read()
            if t.count(old) < 1: return s, f'BADEDIT {f}: {old!r}'
            open(p, 'w').write(t.replace(old, new, 1))
        diff = subprocess.run(['git', 'diff'], cwd=r, capture_output=True, text=True).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', CGO_ENABLED='0')
        shutil.copy(r + '/go.mod', tmp + '/t.mod'); shutil.copy(r + '/go.sum', tmp + '/t.sum')
        subprocess.run(['go', 'mod', 'edit', '-require=github.com/stretchr/testify@v1.5.1', tmp + '/t.mod'], cwd='/', env=dict(env, GOFLAGS=''), check=True)
        env['GOFLAGS'] = f'-mod=mod -modfile={tmp}/t.mod'
        rc, out = run(['go', 'build', './...'], r, env)
        if rc: return s, 'DOES NOT BUILD\n' + out
        rc, out = run(['bash', os.path.join(d, 'demo.sh')], r)
        if rc == 0: return s, 'DEMO PASSES WITH THE PATCH\n' + out[-500:]
        why = out[-300:]
        bypkg = {}
        for x in stable: bypkg.setdefault(os.path.dirname(x), []).append(os.path.basename(x))
        for pkg, ts in bypkg.items():
            for attempt in range(2):
                rc, out = run(['go', 'test', '-vet=off', '-count=1', '-timeout', '100s', '-run', '^(' + '|'.join(ts) + ')$', './' + pkg], r, env)
                if rc == 0: break
            if rc: return s, f'STABLE TESTS FAIL in {pkg}\n{out[-1500:]}'
        shutil.copy(root + '/known_findings.txt', tmp)
        rc, out = run([root + '/bin/verifcheck', '-prop', s['prop'], '-repo', r, '-verif', tmp], root, dict(os.environ))
        v = 'CAUGHT' if rc == 1 and 'VIOLATION property=' in out else 'MISSED'
        first = [l for l in out.splitlines() if l.startswith('  ')][:1]
        return s, f'ok {v} {first}' + ('' if '-v' not in os.environ.get('SEED', '') else why)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
bad = 0
with cf.ThreadPoolExecutor(4) as ex:
    for s, res in ex.map(one, seeds):
        if not res.startswith('ok CAUGHT'): bad += 1
        print(s['prop'], s['id'], res, flush=True)
sys.exit(1 if bad else 0)
