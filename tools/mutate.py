"""mutation testing of the checks (not used by any check).
stage 1: python3 tools/mutate.py gen OUT.json [N] [SEED]      mutants of pomelo-impl that build and pass the stable tests
stage 2: python3 tools/mutate.py run OUT.json RES.json [FIRST] [LAST]    which check reports each"""
import json, os, random, re, subprocess, sys, tempfile, concurrent.futures as cf
F = 'pomelo-impl/src/parser/mod.rs'
OPS = [(r' == ', ' != '), (r' != ', ' == '), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' < ', ' > '),
       (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ ', ' - '), (r'&&', '||'), (r'\|\|', '&&'), (r'\bbreak;', 'continue;'), (r'\bcontinue;', 'break;'),
       (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'), (r'\bany\(', 'all('), (r'\ball\(', 'any('),
       (r'\.first\(\)', '.last()'), (r'\.last\(\)', '.first()'), (r'\.rev\(\)', ''), (r'\bmin\(', 'max('), (r'\bmax\(', 'min('), (r'\|= ', '= '), (r' \+= ', ' = '),
       (r'\b0\b', '1'), (r'\b1\b', '2'), (r'\b1\b', '0'), (r'\b3\b', '2'), (r'if !', 'if '), (r'\bif (?!let)', 'if !'), (r'Less', 'Greater'), (r'Greater', 'Less'),
       (r'Ordering::Equal', 'Ordering::Less'), (r'Left', 'Right'), (r'rposition', 'position'), (r'\.insert\(', '.remove(&'), (r'if (?!let)[^{]*\{', 'if false {'), (r'if (?!let)[^{]*\{', 'if true {'),
       (r'find_map', 'filter_map'), (r'saturating_sub\(1\)', 'saturating_sub(2)'), (r'\?;', ';')]
DEL = re.compile(r'^\s*[\w.()&\[\]*: ]+(\(.*\)|[|+]?= .*);\s*$')


def mutants(src):
    lines = src.split('\n')
    skip = False
    out = []
    for i, l in enumerate(lines):
        if 'fn report_output' in l:
            skip = True
        elif re.match(r'    fn ', l):
            skip = False
        t = l.strip()
        if skip or not t or t.startswith(('//', '/*', '*', '**', '#', 'use ', 'assert', 'fn ', 'pub fn', 'struct', 'impl', 'println', 'print')):
            continue
        code = l.split('//')[0]
        for a, b in OPS:
            for m in re.finditer(a, code):
                if '"' in code[:m.start()] and code[:m.start()].count('"') % 2:
                    continue
                out.append((i, code[:m.start()] + b + code[m.end():]))
        if DEL.match(code) and not t.startswith('let '):
            out.append((i, ''))
    return out


def sh(cmd, t=900, cwd=None):
    try:
        p = subprocess.run(['bash', '-c', cmd], capture_output=True, text=True, timeout=t, cwd=cwd, start_new_session=True)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, ''


def prep(w):
    R = f'/tmp/mut{w}'
    if not os.path.exists(R):
        sh(f'cp -a /repo {R}')
        for n in ('env.sh', 'build.sh', 'test.sh'):
            s = open('/opt/vp/' + n).read().replace('/repo', R).replace('/opt/vp/env.sh', f'{R}/.env.sh')
            open(f'{R}/.{n}', 'w').write(s)
    return R


def survive(w, jobs, src, base):
    R = prep(w)
    out = []
    for i, new in jobs:
        ls = src.split('\n')
        old = ls[i]
        ls[i] = new
        open(f'{R}/{F}', 'w').write('\n'.join(ls))
        rc, _ = sh(f'cd {R} && timeout 100 bash {R}/.build.sh')
        if rc:
            continue
        try:
            os.unlink(f'{R}/o.json')
        except OSError:
            pass
        sh(f'timeout 100 bash {R}/.test.sh {R}/o.json')
        try:
            got = set(json.load(open(f'{R}/o.json'))['passed'])
        except Exception:
            continue
        if base - got:
            continue
        out.append(dict(line=i, old=old, new=new))
        print(w, i + 1, old.strip(), '=>', new.strip(), flush=True)
    return out


def gen(path, n, seed):
    src = open('/repo/' + F).read()
    ms = mutants(src)
    print(len(ms), 'mutants')
    random.Random(seed).shuffle(ms)
    ms = ms[:n]
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    W = 4
    with cf.ThreadPoolExecutor(W) as ex:
        r = list(ex.map(lambda w: survive(w, ms[w::W], src, base), range(W)))
    out = sorted((x for l in r for x in l), key=lambda x: x['line'])
    json.dump(out, open(path, 'w'), indent=1)
    print(len(out), 'survive the tests')


ORDER = 'C01 C06 C05 C10 C14 C18 C08 C13 C03 C11 C12 C02 C09 C20 C04 C07 C15 C16 C17 C19 C21 C22'.split()


def run(path, res, a, b):
    ms = json.load(open(path))[a:b]
    src = open('/repo/' + F).read()
    done = json.load(open(res)) if os.path.exists(res) else []
    seen = {(d['line'], d['new']) for d in done}
    for m in ms:
        if (m['line'], m['new']) in seen:
            continue
        d = tempfile.mkdtemp(prefix='/tmp/mutrun.')
        sh(f'''mkdir {d}/repo {d}/verif && git -C /repo archive HEAD | tar -x -C {d}/repo && cp /repo/Cargo.lock {d}/repo/
cd /verif && tar -c --exclude=./.git --exclude=./seeded --exclude=./evidence --exclude=./build . | tar -x -C {d}/verif''')
        ls = src.split('\n')
        at = [x for x in range(len(ls)) if ls[x] == m['old']]    # lines move with later commits
        if not at:
            continue
        ls[min(at, key=lambda x: abs(x - m['line']))] = m['new']
        open(f'{d}/repo/{F}', 'w').write('\n'.join(ls))
        sh(f'cd {d}/repo && git init -q . && git add -A -f . && git -c user.name=x -c user.email=x commit -qm base')
        by = None
        for c in ORDER:
            rc, o = sh(f"unshare -m bash -c 'mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && cd /verif && mkdir -p evidence && VERIF_FAILFAST=1 timeout 800 python3 check.py {c}'", 900)
            if rc == 1 and 'VIOLATION' in o:
                by = c
                break
            if rc:
                by = f'{c} rc={rc} ' + o[-300:]
                break
        done.append(dict(m, by=by))
        print(m['line'] + 1, m['old'].strip(), '=>', m['new'].strip(), ':', by, flush=True)
        json.dump(done, open(res, 'w'), indent=1)
        sh(f'rm -rf {d}')


if __name__ == '__main__':
    if sys.argv[1] == 'gen':
        gen(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 300, int(sys.argv[4]) if len(sys.argv) > 4 else 1)
    else:
        run(sys.argv[2], sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else 0, int(sys.argv[5]) if len(sys.argv) > 5 else 10**6)
