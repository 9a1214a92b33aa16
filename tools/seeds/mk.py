#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from the definitions in this folder (bugs_*.py) and confirm each one in a scratch copy.
usage: mk.py write [ID...]; mk.py confirm [ID...]"""
import glob, json, os, subprocess, sys, shutil, tempfile
here = os.path.dirname(os.path.abspath(__file__))
OUT = '/verif/seeded'
ENV = '''export HOME=/root PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build CGO_ENABLED=1
'''
def demo_sh(pkg, files, race=False, env=''):
    repl = ',\n'.join('  "$PWD/%s/zz_%s": "$here/%s"' % (pkg, f, f) for f in files)
    return f'''#!/bin/bash
# exit 0: the property holds; run in the repository
here=$(cd "$(dirname "$0")" && pwd)
{ENV}work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export TMPDIR=$work
{env}cat > "$work/overlay.json" <<OVERLAY
{{"Replace": {{
{repl}
}}}}
OVERLAY
go test -overlay "$work/overlay.json" {"-race -gcflags=all=-d=checkptr=0 " if race else ""}-count=1 -vet=off -timeout 250s -run '^TestDemo$' ./{pkg}
'''
def load():
    bugs = {}
    for f in sorted(glob.glob(here + '/bugs_*.py')):
        ns = {}
        exec(compile(open(f).read(), f, 'exec'), ns)
        for b in ns['BUGS']:
            assert b['id'] not in bugs, b['id']
            bugs[b['id']] = b
    return bugs
def write(b):
    d = os.path.join(OUT, b['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    base = {}
    for path, old, new in b['edits']:
        s = base.get(path) or open('/repo/' + path).read()
        assert s.count(old) == 1, (b['id'], path, s.count(old), old)
        base[path] = s.replace(old, new)
    tmp = tempfile.mkdtemp()
    patch = ''
    for path, s in base.items():
        for side, txt in (('a', open('/repo/' + path).read()), ('b', s)):
            p = os.path.join(tmp, side, path); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, 'w').write(txt)
        patch += subprocess.run(['diff', '-u', 'a/' + path, 'b/' + path], cwd=tmp, capture_output=True, text=True).stdout
    shutil.rmtree(tmp)
    lines = []
    for l in patch.splitlines(True):
        if l.startswith('--- a/') or l.startswith('+++ b/'):
            l = l.split('\t')[0].rstrip('\n') + '\n'
        lines.append(l)
    open(d + '/patch.diff', 'w').write(''.join(lines))
    pkg = b.get('pkg', 'signer')
    files = ['demo_test.go']
    if 'demo_sh' in b:
        open(d + '/demo.sh', 'w').write('#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\n' + ENV + b['demo_sh'])
    else:
        open(d + '/demo_test.go', 'w').write(b['demo'])
        if pkg == 'signer':
            shutil.copy(here + '/kit_signer.go.txt', d + '/kit_test.go'); files.append('kit_test.go')
        if 'kit2' in b:
            open(d + '/kit2_test.go', 'w').write(b['kit2']); files.append('kit2_test.go')
        open(d + '/demo.sh', 'w').write(demo_sh(pkg, files, b.get('race', False)))
    for name, txt in b.get('extra', {}).items():
        open(d + '/' + name, 'w').write(txt)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/meta.json', 'a').write('\n')
def sh(cmd, cwd, timeout=1200):
    p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr
def confirm(ids):
    # the repository's tests use /repo by path, so patch a copy for building and demos, tests run there as well
    res = {}
    for i in ids:
        d = os.path.join(OUT, i)
        w = '/tmp/seedcopy'
        shutil.rmtree(w, ignore_errors=True)
        subprocess.check_call(['cp', '-a', '/repo', w])
        rc0, o0 = sh(f'bash {d}/demo.sh', w)
        ap, oa = sh(f'git apply {d}/patch.diff', w)
        env = ENV.replace('\n', '; ')
        bc, ob = sh(f'{env} go build ./...', w)
        rc1, o1 = sh(f'bash {d}/demo.sh', w)
        tc, ot = (0, '') if '--notest' in sys.argv else sh(
            f'{env} rm -rf /tmp/TestConfig* /tmp/TestState* /tmp/TestDiffSet* /tmp/TestSetShares*; go test -vet=off -count=1 -p 1 -timeout 10m ./signer/... ./cmd/...', w)
        ok = rc0 == 0 and ap == 0 and bc == 0 and rc1 != 0 and tc == 0
        print(i, 'OK' if ok else 'BAD', 'clean', rc0, 'apply', ap, 'build', bc, 'patched', rc1, 'tests', tc, flush=True)
        if not ok or '-v' in sys.argv:
            print((o0 if rc0 else '')[-1500:], oa[-800:], ob[-1500:], '---patched:', o1[-2500:], '---tests:', ot[-2000:] if tc else '', flush=True)
        else:
            print('   ', [l for l in o1.splitlines() if 'zz_' in l or 'demo' in l.lower() or 'panic' in l or 'RACE' in l][:3])
        shutil.rmtree(w, ignore_errors=True)
if __name__ == '__main__':
    ids = [a for a in sys.argv[2:] if not a.startswith('-')]
    bugs = load()
    ids = ids or list(bugs)
    if sys.argv[1] == 'write':
        for i in ids: write(bugs[i])
    elif sys.argv[1] == 'confirm':
        for i in ids: write(bugs[i])
        confirm(ids)
