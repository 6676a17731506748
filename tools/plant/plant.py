#!/usr/bin/env python3
"""plant.py ID...: makes /verif/seeded/ID from tools/plant/ID.py and confirms it in a scratch copy of /repo.

ID.py defines PROP, EDITS [(file, old, new)], PKG, TEST (Go source of an
in-package test named TestDemo), NEEDS, BREAKS."""
import json, os, re, shutil, subprocess, sys, tempfile
SEED = '/verif/seeded'
DEMO = '''#!/bin/bash
# Runs demo_test.go inside ./%s (through an overlay: nothing is written there).
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh
cd "$repo" || exit 2
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$repo/%s/zz_demo_test.go" "$here/demo_test.go" >"$t/overlay.json"
go test -overlay "$t/overlay.json" -vet=off -count=1 -timeout 200s -run '^TestDemo$' ./%s
'''
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def main(ids):
    bad = []
    for i in ids:
        ns = {}
        exec(open(f'/verif/tools/plant/{i}.py').read(), ns)
        w = f'/tmp/plant.{i}'
        shutil.rmtree(w, ignore_errors=True)
        subprocess.run(['cp', '-a', '/repo', w], check=True)
        sh('git checkout -q -- .', w)
        base = subprocess.run(['git', 'rev-list', '--max-parents=0', 'HEAD'], cwd=w, stdout=subprocess.PIPE, text=True).stdout.strip()
        d = f'{SEED}/{i}'
        os.makedirs(d, exist_ok=True)
        ok = True
        def fail(m):
            nonlocal ok
            ok = False
            print(f'{i}: {m}')
        for f, old, new in ns['EDITS']:
            p = f'{w}/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                fail(f'{f}: {s.count(old)} matches of {old[:60]!r}')
                break
            open(p, 'w').write(s.replace(old, new))
        if not ok:
            bad.append(i); continue
        sh('gofmt -l .', w)
        diff = subprocess.run(['git', 'diff'], cwd=w, stdout=subprocess.PIPE, text=True).stdout
        open(f'{d}/patch.diff', 'w').write(diff)
        open(f'{d}/demo.sh', 'w').write(DEMO % (ns['PKG'], ns['PKG'], ns['PKG']))
        os.chmod(f'{d}/demo.sh', 0o755)
        open(f'{d}/demo_test.go', 'w').write(ns['TEST'].lstrip())
        json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(f'{d}/meta.json', 'w'), indent=1)
        # every removed line is one of the original repository's
        cur, n = None, 0
        for l in diff.split('\n'):
            if l.startswith('--- a/'):
                cur = l[6:]
                orig = subprocess.run(['git', 'show', f'{base}:{cur}'], cwd=w, stdout=subprocess.PIPE, text=True).stdout.split('\n')
            elif l.startswith('-') and not l.startswith('---'):
                if l[1:] in orig: n += bool(l[1:].strip())
                else: print(f'{i}: note: removes a line of ours: {l}')
        if n == 0: print(f'{i}: WARNING: no original line changed')
        env = dict(os.environ)
        env_sh = open('/opt/vp/env.sh').read().replace('cd /repo || exit 1', f'cd {w}')
        r = sh(f"bash -c '{env_sh}\ngo build ./... && go vet ./adapter/nothing >/dev/null 2>&1; true'", w)
        r = subprocess.run(['bash', '-c', env_sh + '\ngo build ./...'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: fail('build: ' + r.stdout[-800:])
        m = 'github.com/ibm-cloud-security/app-identity-and-access-adapter'
        r = subprocess.run(['bash', '-c', env_sh + f'''
pkgs=$(go list -e ./... | grep -vxE "{m}/adapter|{m}/tests/integration/(jwt|oidc)")
go test -json -vet=off -count=1 -timeout 10m $pkgs > {w}.json
python3 /opt/vp/results.py {w}.out gojson:{w}.json'''], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open(w + '.out'))
        want = b.get('passed') or b.get('stable') or b.get('tests')
        got = set(o['passed'])
        miss = [x for x in want if x not in got]
        if miss: fail(f'tests broken: {miss[:5]}')
        os.remove(w + '.json'); os.remove(w + '.out')
        # demo runs against both trees from a foreign folder
        t = tempfile.mkdtemp(prefix='plantdemo')
        for f in os.listdir(d):
            if not f.endswith('.diff') and f != 'meta.json':
                shutil.copy(f'{d}/{f}', t)
        sh('sed -i s,/opt/vp/env.sh,%s/env.sh, demo.sh' % t, t)
        open(f'{t}/env.sh', 'w').write(open('/opt/vp/env.sh').read().replace('cd /repo || exit 1', 'true'))
        for name, tree, bad_rc in (('patched', w, False), ('clean', '/repo', True)):
            rcs = []
            for _ in range(3):
                r = sh(f'bash {t}/demo.sh', tree)
                rcs.append(r.returncode)
            if name == 'clean' and any(rcs): fail(f'demo on clean tree: {rcs} {r.stdout[-1500:]}')
            if name == 'patched' and not all(rcs): fail(f'demo on patched tree: {rcs} {r.stdout[-1500:]}')
            if name == 'patched' and ok: print(f'{i}: patched demo says: ' + (re.search(r'demo_test.go:\d+: (.*)', r.stdout) or re.search('(.*)', r.stdout[-200:])).group(1)[:150])
        shutil.rmtree(t)
        print(f'{i}: ' + ('confirmed' if ok else 'NOT CONFIRMED'))
        if not ok: bad.append(i)
        if '-k' not in sys.argv: shutil.rmtree(w, ignore_errors=True)
    print('not confirmed:', bad)
main([a for a in sys.argv[1:] if not a.startswith('-')])
