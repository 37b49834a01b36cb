#!/usr/bin/env python3
"""mkseed.py FILE...: build seeded/<id>/ from a seed description and confirm it
in a scratch copy of /repo.  A description is Python setting ID, PROP, PKG,
EDITS [(file, old, new)], TEST (Go test source), NEEDS, BREAKS."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Runs demo_test.go inside the package through an overlay; exit 0 when the property holds.
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\": {\\"$PWD/%(pkg)szz_demo_test.go\\": \\"$d/demo_test.go\\"}}" > "$t/overlay.json"
go test %(flags)s -overlay "$t/overlay.json" -vet=off -count=1 -timeout 120s -run '^TestDemo' ./%(pkg)s
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', []) or [])
def one(f):
    ns = {}
    exec(open(f).read(), ns)
    sid = ns['ID']
    tmp = tempfile.mkdtemp(prefix='seed')
    repo = tmp + '/repo'
    try:
        subprocess.check_call(['cp', '-a', '/repo', repo])
        d = V + '/seeded/' + sid
        os.makedirs(d, exist_ok=True)
        pkg = ns['PKG'] + '/' if ns['PKG'] else ''
        open(d + '/demo_test.go', 'w').write(ns['TEST'])
        open(d + '/demo.sh', 'w').write(DEMO % {'pkg': pkg, 'flags': ns.get('FLAGS', '')})
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({"property": ns['PROP'], "needs": ns['NEEDS'], "what_it_breaks": ns['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
        r = sh(d + '/demo.sh', repo)
        if r.returncode:
            print(sid, 'DEMO FAILS UNPATCHED', r.stdout[-1500:]); return False
        for fn, old, new in ns['EDITS']:
            s = open(repo + '/' + fn).read()
            if s.count(old) != 1:
                print(sid, 'EDIT matches', s.count(old), old); return False
            open(repo + '/' + fn, 'w').write(s.replace(old, new))
        bad = sh('gofmt -l ' + ' '.join({e[0] for e in ns['EDITS']}), repo).stdout
        if bad: print(sid, 'gofmt', bad)
        open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', 'diff'], cwd=repo, text=True))
        # lines removed must be original
        for l in open(d + '/patch.diff'):
            pass
        r = sh('. /opt/vp/env.sh; go build ./... && go test -vet=off ./... 2>&1', repo)
        if r.returncode:
            print(sid, 'TESTS FAIL', r.stdout[-1500:]); return False
        r = sh(d + '/demo.sh', repo)
        if not r.returncode or 'build failed' in r.stdout:
            print(sid, 'DEMO PASSES PATCHED', r.stdout[-800:]); return False
        print(sid, 'ok')
        return True
    finally:
        shutil.rmtree(tmp)
sys.exit(0 if all([one(f) for f in sys.argv[1:]]) else 1)
