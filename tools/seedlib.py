"""makes and validates planted bugs: tools/seeds_*.py list them. Not used by any check.
usage: python3 tools/seedlib.py FILE.py [ID...]"""
import json, os, shutil, subprocess, sys
R = '/tmp/seedrepo'
SRC = 'pomelo-impl/src/parser/mod.rs'
OUT = '/verif/seeded'
DEMO = r'''#!/bin/bash
# exit 0 if the program beside this file behaves as documented with the pomelo in the current directory
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=/tmp/pomelo-demo-@ID@
rm -rf /tmp/pomelo-demo-@ID@
mkdir -p "$T/src"
cp "$D/demo.rs" "$T/src/main.rs"
cp "$R/Cargo.lock" "$T/Cargo.lock" 2>/dev/null
printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2024"\n[dependencies]\npomelo = { path = "%s" }\n[workspace]\n' "$R" > "$T/Cargo.toml"
cd "$T" && CARGO_TARGET_DIR=$T/target CARGO_NET_OFFLINE=true timeout 250 cargo build -q --offline > "$T/log" 2>&1
B=$?
@TAIL@
rm -rf /tmp/pomelo-demo-@ID@
exit $RC
'''
RUN = '''if [ $B -eq 0 ]; then timeout 20 "$T/target/debug/demo"; RC=$?; else grep -m3 error "$T/log"; RC=1; fi'''
REJ = '''if [ $B -ne 0 ] && grep -q "@MSG@" "$T/log"; then RC=0; else echo "not rejected as it should be"; RC=1; fi'''


def sh(cmd, t=900, cwd=None):
    p = subprocess.run(['bash', '-c', cmd], capture_output=True, text=True, timeout=t, cwd=cwd)
    return p.returncode, p.stdout + p.stderr


def setup():
    if not os.path.exists(R):
        sh(f'cp -a /repo {R}')
        for n in ('env.sh', 'build.sh', 'test.sh'):
            s = open('/opt/vp/' + n).read().replace('/repo', R).replace('/opt/vp/env.sh', f'{R}/.env.sh')
            open(f'{R}/.{n}', 'w').write(s)
    sh(f'git -C {R} checkout -q -- . && git -C {R} fetch -q /repo && git -C {R} checkout -q FETCH_HEAD')


def make(sid, prop, needs, what, edits, demo, reject=None, f=SRC):
    setup()
    p = f'{R}/{f}'
    s = open(p).read()
    for e in edits:
        a, b = e[0], e[1]
        n = s.count(a)
        if n != 1:
            return f'{sid}: {n} occurrences of {a!r}'
        s = s.replace(a, b)
    open(p, 'w').write(s)
    d = f'{OUT}/{sid}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    rc, diff = sh(f'git -C {R} diff')
    open(d + '/patch.diff', 'w').write(diff)
    tail = RUN if not reject else REJ.replace('@MSG@', reject)
    open(d + '/demo.sh', 'w').write(DEMO.replace('@ID@', sid).replace('@TAIL@', tail))
    open(d + '/demo.rs', 'w').write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + '/meta.json', 'w'), indent=1)
    # changed: builds, tests, demo fails
    rc, o = sh(f'bash {R}/.build.sh')
    if rc:
        return f'{sid}: does not build {o[-800:]}'
    sh(f'bash {R}/.test.sh /tmp/seed.json')
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    got = set(json.load(open('/tmp/seed.json'))['passed'])
    if base - got:
        return f'{sid}: tests notice: {sorted(base - got)[:3]}'
    rc1, o1 = sh(f'bash {d}/demo.sh', cwd=R)
    sh(f'git -C {R} checkout -q -- .')
    rc0, o0 = sh(f'bash {d}/demo.sh', cwd=R)
    if rc1 == 0 or rc0 != 0:
        return f'{sid}: demo patched {rc1} {o1[-300:]!r} clean {rc0} {o0[-500:]!r}'
    return None


if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for s in ns['SEEDS']:
        if len(sys.argv) > 2 and s['sid'] not in sys.argv[2:]:
            continue
        r = make(**s)
        if r:
            shutil.rmtree(f'{OUT}/{s["sid"]}', ignore_errors=True)
        print('ok  ' + s['sid'] if not r else 'BAD ' + r, flush=True)
