#!/usr/bin/env python3
"""seed.py ID PROPERTY FILE OLD NEW NEEDS BREAKS DEMO [PKGDIR TESTFILE]: makes and validates a planted bug.
OLD/NEW/DEMO are given as files in a directory by the caller: seed.py DIR, where DIR holds seed.json and demo_test.go."""
import json, os, subprocess, sys, shutil, tempfile
src = sys.argv[1]
m = json.load(open(f'{src}/seed.json'))
out = f"/verif/seeded/{m['id']}"
os.makedirs(out, exist_ok=True)
tmp = tempfile.mkdtemp(prefix='seed')
repo = f'{tmp}/repo'
subprocess.check_call(['git', 'clone', '-q', '/repo', repo])
for e in m['edits']:
    p = f"{repo}/{e['file']}"
    s = open(p).read()
    assert s.count(e['old']) == 1, (e['file'], s.count(e['old']))
    open(p, 'w').write(s.replace(e['old'], e['new']))
env = dict(os.environ)
d = subprocess.check_output(['git', '-C', repo, 'diff'], text=True)
open(f'{out}/patch.diff', 'w').write(d)
pkg = m.get('pkg', '.')
victim = m.get('victim', 'badyaml_test.go')
shutil.copy(f'{src}/demo_test.go', f'{out}/demo_test.go')
open(f'{out}/demo.sh', 'w').write(f'''#!/bin/bash
# Runs demo_test.go in place of one of the package's test files.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{{"Replace": {{"%s/{victim}": "%s/demo_test.go"}}}}' "$repo/{pkg}" "$here" > "$tmp/overlay.json"
sed -i 's#/\\./#/#' "$tmp/overlay.json"
export TMPDIR="$tmp"
cd "$repo/{pkg}" && go test -count=1 -vet=off -overlay "$tmp/overlay.json" -run '^TestDemo$' -timeout 120s .
''')
os.chmod(f'{out}/demo.sh', 0o755)
json.dump({'property': m['property'], 'needs': m['needs'], 'what_it_breaks': m['what_it_breaks']}, open(f'{out}/meta.json', 'w'), indent=1)
def run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout
base = '. /opt/vp/env.sh; '
bad = False
rc, o = run(base + 'go build ./...', repo)
if rc: print('BUILD FAILS', o[-1500:]); bad = True
rc, o = run(base + f'bash {out}/demo.sh', repo)
if rc == 0: print('DEMO PASSES WITH PATCH'); bad = True
else: print('demo with patch:', [l for l in o.split('\n') if 'FAIL' in l or 'demo' in l][:4])
rc, o = run(base + 'go test -count=1 ./... 2>&1 | grep -E "^(---|\\s+---|FAIL|panic)" | head -20', repo)
if o.strip(): print('XX:', o)
run('git checkout -q -- .', repo)
rc, o = run(base + f'bash {out}/demo.sh', repo)
if rc: print('DEMO FAILS ON CLEAN', o[-2000:]); bad = True
shutil.rmtree(tmp)
print(m['id'], 'BAD' if bad else 'ok')
