#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/seeds/*.py and confirms each seed in a scratch copy.
usage: mkseed.py [id ...]   (default: every seed that has no folder yet)
A seed file defines SEEDS = [dict(id, prop, edits=[(file, old, new)], demo=go test body, imports=[...], needs, breaks)]."""
import json, os, shutil, subprocess, sys, tempfile, glob, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', GOSUMDB='off', GODEBUG='randautoseed=0')
STABLE = 'address b32 bip32 bitset256 constants key keyaddr ndauerr signature/... words'.split()

DEMO = '''#!/bin/bash
# Runs demo_test.go against a copy of the repository's packages. The decimal
# library the arithmetic packages need is not available offline; decimal.go.txt
# stands in for it.
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$tmp"' EXIT
cp -a pkg go.mod go.sum "$tmp"/ || exit 3
[ -d cmd/keyaddr ] && mkdir -p "$tmp/cmd" && cp -a cmd/keyaddr "$tmp/cmd/"
mkdir -p "$tmp/zzdemo" "$tmp/zzdecimal"
cp "$here/demo_test.go.txt" "$tmp/zzdemo/demo_test.go" || exit 3
cp "$here/decimal.go.txt" "$tmp/zzdecimal/decimal.go" || exit 3
printf 'module github.com/ericlagergren/decimal\\n\\ngo 1.23\\n' > "$tmp/zzdecimal/go.mod"
cd "$tmp" || exit 3
go mod edit -require github.com/ericlagergren/decimal@v0.0.0 -replace github.com/ericlagergren/decimal=./zzdecimal || exit 3
timeout 250 go test -vet=off -count=1 ./zzdemo
'''

def load():
    seeds = {}
    for f in sorted(glob.glob(V + '/tools/seeds/*.py')):
        for s in runpy.run_path(f)['SEEDS']:
            assert s['id'] not in seeds, s['id']
            seeds[s['id']] = s
    return seeds

def run(cmd, cwd, env=ENV):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def stable(cwd):
    r = run(['go', 'test', '-vet=off', '-count=1', '-json'] + ['./pkg/' + p for p in STABLE], cwd)
    res = {}
    for l in r.stdout.splitlines():
        try: d = json.loads(l)
        except ValueError: continue
        if d.get('Action') in ('pass', 'fail') and d.get('Test'):
            res[d['Package'] + ' ' + d['Test']] = d['Action']
    return {k for k, v in res.items() if v == 'pass'}, r.stdout

def main():
    seeds = load()
    ids = sys.argv[1:] or [i for i in seeds if not os.path.exists(f'{V}/seeded/{i}/patch.diff')]
    work = tempfile.mkdtemp(prefix='seedwork.', dir='/tmp')
    repo = work + '/repo'
    try:
        subprocess.check_call(['cp', '-a', '/repo', repo])
        base, _ = stable(repo)
        bad = []
        for i in ids:
            s = seeds[i]
            d = f'{V}/seeded/{i}'
            subprocess.check_call(['git', 'checkout', '-q', '--', '.'], cwd=repo)
            os.makedirs(d, exist_ok=True)
            open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
            imps = ''.join(f'\t"{x}"\n' for x in ['testing'] + s.get('imports', []))
            open(d + '/demo_test.go.txt', 'w').write('package zzdemo\n\nimport (\n' + imps + ')\n\n' + s['demo'].strip() + '\n')
            shutil.copy(V + '/shim/decimal/decimal.go', d + '/decimal.go.txt')
            json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
            r0 = run(['bash', d + '/demo.sh'], repo)
            for f, old, new in s['edits']:
                t = open(f'{repo}/{f}').read()
                if t.count(old) != 1:
                    print(i, 'EDIT MATCHES', t.count(old), f); bad.append(i); break
                open(f'{repo}/{f}', 'w').write(t.replace(old, new))
            p = run(['git', 'diff'], repo).stdout
            open(d + '/patch.diff', 'w').write(p)
            after, out = stable(repo)
            r1 = run(['bash', d + '/demo.sh'], repo)
            msg = []
            if r0.returncode != 0: msg.append('demo fails unpatched:\n' + r0.stdout[-1500:])
            if r1.returncode == 0: msg.append('demo passes patched')
            elif 'FAIL' not in r1.stdout or 'build failed' in r1.stdout: msg.append('demo did not run:\n' + r1.stdout[-1500:])
            lost = base - after
            if lost: msg.append('tests lost: ' + ', '.join(sorted(lost)[:5]))
            print(i, 'ok' if not msg else 'BAD ' + '\n'.join(msg), flush=True)
            if msg: bad.append(i)
        print('bad:', bad)
    finally:
        shutil.rmtree(work)
main()
