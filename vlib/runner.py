"""Builds pomelo from /repo, compiles harnesses to LLVM IR, runs the symbolic
executor on them, replays what it reports natively, writes evidence."""
import fcntl
import hashlib
import json
import os
import random
import re
import resource
import shutil
import subprocess
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, 'build')
TOOLCHAIN = 'stable-x86_64-unknown-linux-gnu'
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN=TOOLCHAIN)
for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET', 'CARGO_TARGET_DIR'):
    ENV.pop(k, None)


class CheckError(Exception):
    """the check itself could not decide: exits with 3"""


def sh(cmd, timeout=None, inp=None, cwd=None, mem_gb=None):
    def lim():
        if mem_gb:
            b = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         cwd=cwd, env=ENV, text=True, errors='replace', start_new_session=True,
                         preexec_fn=lim if mem_gb else None)
    try:
        o, e = p.communicate(inp, timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o, e


def file_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:16]


def lock(name):
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, f'.lock-{name}'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def ensure_engine():
    src = os.path.join(VERIF, 'engine', 'symex.cpp')
    exe = os.path.join(BUILD, 'bin', 'symex-' + file_hash([src]))
    with lock('engine'):
        if not os.path.exists(exe):
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            tmp = exe + f'.tmp{os.getpid()}'
            rc, o, e = sh(['g++', '-std=c++17', '-O2', '-o', tmp, src, '-lz3'], timeout=300)
            if rc != 0:
                raise CheckError('cannot build the engine: ' + e[-2000:])
            os.rename(tmp, exe)
    return exe


def repo_sources():
    out = []
    for root in (os.path.join(REPO, 'src'), os.path.join(REPO, 'pomelo-impl')):
        for d, dirs, files in os.walk(root):
            dirs[:] = [x for x in dirs if x != 'target']
            out += [os.path.join(d, f) for f in files if f.endswith(('.rs', '.toml'))]
    out += [os.path.join(REPO, 'Cargo.toml'), os.path.join(VERIF, 'harness/base/Cargo.toml'), os.path.join(VERIF, 'harness/base/Cargo.lock')]
    return out


def ensure_pomelo():
    """cargo-build the harness crate against /repo's current tree; returns its deps dir"""
    h = file_hash(repo_sources())
    tgt = os.path.join(BUILD, 'pomelo-' + h)
    base = os.path.join(tgt, 'base')
    with lock('pomelo'):
        ok = os.path.join(tgt, 'ok')
        if not os.path.exists(ok):
            for d in os.listdir(BUILD):
                if d.startswith('pomelo-') and d != 'pomelo-' + h and time.time() - os.path.getmtime(os.path.join(BUILD, d)) > 3600:
                    shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
            shutil.rmtree(tgt, ignore_errors=True)
            shutil.copytree(os.path.join(VERIF, 'harness/base'), base)
            rc, o, e = sh(['cargo', 'build', '--offline', '--target-dir', os.path.join(tgt, 'target')], timeout=600, cwd=base)
            if rc != 0:
                raise CheckError('pomelo does not build: ' + e[-3000:])
            open(ok, 'w').close()
    deps = os.path.join(tgt, 'target/debug/deps')
    ext = {}
    for f in os.listdir(deps):
        if f.endswith('.rlib'):
            n = f[3:].split('-')[0]
            ext[n] = os.path.join(deps, f)
    if 'pomelo' not in ext:
        raise CheckError('no pomelo rlib')
    return deps, ext


class Entry:
    def __init__(self, name, reach=(), opts=(), time=60, replay='ids', known=None):
        self.name, self.reach, self.opts, self.time = name, tuple(reach), list(opts), time


class Harness:
    """src: rust source (without symlib). entries: list of Entry.
    labels: {assert id: text}; about: text describing the configuration (for reports).
    reject_is_violation: a compile failure means pomelo refused a valid grammar."""
    def __init__(self, name, src, entries, labels=None, about='', bounds='', externs=('pomelo',), kernel=False,
                 symlib=True, flags=(), info=None):
        self.name, self.src, self.entries, self.labels, self.about = name, src, entries, labels or {}, about
        self.bounds, self.externs, self.kernel, self.symlib, self.flags = bounds, externs, kernel, symlib, list(flags)
        self.info = info or {}
        self.maybe = False      # pomelo! may reject it; if it does not, the entries must hold

    def full(self):
        lib = ''
        if self.symlib:
            with open(os.path.join(VERIF, 'vlib', 'symlib.rs')) as f:
                lib = f.read()
            for a, b in self.info.get('consts', {}).items():
                lib, n = re.subn(rf'pub const {a}: usize = \d+;', f'pub const {a}: usize = {b};', lib)
                assert n == 1, a
        arms = ''.join(f'"{e.name}" => {e.name}(),' for e in self.entries)
        return (lib + '\n' + self.src + '\n#[cfg(native)] fn run_entry(n: &str) { match n { ' + arms + ' _ => panic!("no entry") } }\n')


STD_LABELS = {9999: 'event log overflow (unbounded number of actions)', 9998: 'reference stack overflow', 9990: 'reference goto missing'}
IR_FLAGS = ['--crate-type', 'lib', '--emit=llvm-ir', '-C', 'opt-level=2', '-C', 'panic=abort', '-C', 'codegen-units=1',
            '-C', 'debuginfo=0', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp', '-C', 'overflow-checks=on',
            '-C', 'debug-assertions=on']
NATIVE_FLAGS = ['--crate-type', 'bin', '--cfg', 'native', '-C', 'opt-level=0', '-C', 'debuginfo=0', '-C', 'overflow-checks=on', '-C', 'debug-assertions=on']


class Run:
    def __init__(self, prop, tier, seed, level='model_checking', jobs=8):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.jobs = jobs
        self.rng = random.Random(f'{prop}/{seed}')
        self.dir = os.path.join(BUILD, 'run', f'{prop}-{os.getpid()}')
        self.replays = os.path.join(BUILD, 'replays', prop)
        shutil.rmtree(self.replays, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        os.makedirs(self.replays, exist_ok=True)
        self.engine = None
        self.violations = []     # (text, path)
        self.known = []
        self.errors = []
        self.retries = 8        # of runs that were out of time
        self.mu = threading.Lock()
        self.stats = dict(paths=0, steps=0, forks=0, queries=0, sat=0, unsat=0, unknown=0, domain_splits=0, assert_solver=0,
                          assert_folded=0, solver_s=0.0, engine_s=0.0, assume_cut=0, replayed=0, harnesses=0, entries=0, programs=0)
        self.functions = set()
        self.asserts = {}
        self.reach = {}
        self.samples = []
        self.cover = {}
        self.bounds = []
        self.notes = []
        self.budget = None
        self.nviol = 0

    # ---------------------------------------------------------------- build
    def prepare(self):
        with ThreadPoolExecutor(2) as ex:
            a, b = ex.submit(ensure_engine), ex.submit(ensure_pomelo)
            self.engine = a.result()
            self.deps, self.ext = b.result()

    def rustc(self, src, out, flags, externs, timeout):
        cmd = ['rustc', '--edition', '2024', '-Awarnings', '-L', 'dependency=' + self.deps, '-o', out] + flags
        for x in externs:
            cmd += ['--extern', f'{x}={self.ext[x]}']
        return sh(cmd + [src], timeout=timeout, mem_gb=3.5)

    def violation(self, h, text, data):
        """record a confirmed violation"""
        with self.mu:
            self.nviol += 1
            k = self.known_match(h, data)
            if k is not None:
                self.known.append((k, text))
                return
            d = os.path.join(self.replays, f'{len(self.violations):02d}-{h.name}')
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, 'harness.rs'), 'w') as f:
                f.write(h.full())
            with open(os.path.join(d, 'violation.json'), 'w') as f:
                json.dump(dict(property=self.prop, harness=h.name, about=h.about, what=text, **data), f, indent=1)
            self.violations.append((text, d))

    def known_match(self, h, data):
        for k in known_findings():
            if k['property'] != self.prop or k.get('status') != 'known':
                continue
            m = k['match']
            if m.get('harness') != h.name:
                continue
            if 'kind' in m and m['kind'] != data.get('kind'):
                continue
            if 'assert' in m and m['assert'] != data.get('assert_id'):
                continue
            if 'entry' in m and m['entry'] != data.get('entry'):
                continue
            if 'inputs' in m and m['inputs'] != data.get('inputs'):
                continue
            if 'stderr_contains' in m and m['stderr_contains'] not in data.get('stderr', ''):
                continue
            return k
        return None

    def error(self, text):
        with self.mu:
            self.errors.append(text)

    # ---------------------------------------------------------------- one harness
    def one(self, h):
        if os.environ.get('VERIF_FAILFAST') and self.violations:   # used by tools/mutate.py only
            return
        try:
            self._one(h)
        except CheckError as e:
            self.error(f'{h.name}: {e}')
        except Exception as e:      # a bug of the check
            import traceback
            self.error(f'{h.name}: {e!r} {traceback.format_exc()[-800:]}')

    def _one(self, h):
        base = os.path.join(self.dir, h.name)
        src = base + '.rs'
        with open(src, 'w') as f:
            f.write(h.full())
        ll = base + '.ll'
        rc, o, e = self.rustc(src, ll, IR_FLAGS + h.flags, h.externs, 120)
        if rc != 0 or not os.path.exists(ll):
            if h.kernel:
                # the kernel is not where it was (renamed, reshaped): not encodable, say so
                with self.mu:
                    self.notes.append(f'kernel {h.name} could not be encoded on this tree: {first_error(e)}')
                return
            if h.maybe and rc == 1 and 'error' in e and 'panicked' not in e:
                with self.mu:
                    self.stats['rejected'] = self.stats.get('rejected', 0) + 1
                return
            # confirm, then report: the generator refused (or miscompiled) a valid grammar
            rc2, o2, e2 = self.rustc(src, ll, IR_FLAGS + h.flags, h.externs, 120)
            if rc2 == 0:
                raise CheckError('compile failure did not repeat')
            # a macro that does not come to an end runs out of time or of memory
            hang = rc2 is None or 'memory allocation of' in e2
            if not hang and 'error' not in e2:
                raise CheckError('rustc died: ' + e2[-500:])
            self.violation(h, ('pomelo! does not terminate on' if hang else 'pomelo! rejects or miscompiles') + f' a valid grammar ({h.about}): {first_error(e2)}',
                           dict(kind='nonterminating-macro' if hang else 'rejected-grammar', stderr=e2[-4000:], inputs=[]))
            return
        native = None
        with self.mu:
            self.stats['harnesses'] += 1
        for en in h.entries:
            smt = []
            cmd = [self.engine, ll, en.name, '--time', str(en.time), '--samples', '12'] + en.opts
            if '--cover' not in cmd and not h.info.get('nocover'):
                cmd.append('--cover')
            for again in (False, True):
                if again:
                    cmd[cmd.index('--time') + 1] = str(en.time * 3)
                rc, o, e = sh(cmd, timeout=en.time * (6 if again else 2) + 120, mem_gb=14)
                if rc is None or rc not in (0, 1):
                    raise CheckError(f'engine failed on {en.name} rc={rc}: {e[-400:]}')
                try:
                    r = json.loads(o)
                except ValueError:
                    raise CheckError(f'engine output on {en.name}: {o[-200:]} {e[-300:]}')
                # out of time with nothing found: once more with more of it, the machine may have been busy
                late = r['inconclusive'] or r.get('cover') == 'unknown'
                if not late or r['violations'] or self.retries <= 0:
                    break
                with self.mu:
                    self.retries -= 1
            if native is None and (r['violations'] or r['samples']):
                native = base + '.bin'
                rc, _, e = self.rustc(src, native, NATIVE_FLAGS + h.flags, h.externs, 120)
                if rc != 0:     # the machine may have been busy
                    rc, _, e = self.rustc(src, native, NATIVE_FLAGS + h.flags, h.externs, 300)
                if rc != 0:
                    raise CheckError('native build failed: ' + first_error(e))
            self.merge(h, en, r, native)
        for f in (src, ll):
            if os.path.exists(f) and not os.environ.get('VERIF_KEEP'):
                os.unlink(f)

    def replay(self, native, entry, inputs, timeout=20):
        r = self._replay(native, entry, inputs, timeout)
        if r[0] == 'hang' and self.retries > 0:
            with self.mu:
                self.retries -= 1
            r = self._replay(native, entry, inputs, timeout * 3)
        return r

    def _replay(self, native, entry, inputs, timeout):
        line = entry + ' ' + ' '.join(str(v) for v in inputs) + '\n'
        rc, o, e = sh([native], timeout=timeout, inp=line, mem_gb=4)
        if rc is None:
            return ('hang', [], [])
        for l in o.splitlines():
            if l.startswith('R '):
                kind, rest = l[2:].split(' F ', 1)
                f, outs = rest.split(' O ', 1)
                return (kind, json.loads(f), json.loads(outs))
        return ('crash', [], [])

    def merge(self, h, en, r, native):
        ins = lambda x: x['inputs'] if not x['inputs'] or not isinstance(x['inputs'][0], (list, tuple)) else [p[1] for p in x['inputs']]
        viol = 0
        seen = set()
        for v in r['violations']:
            inputs = ins(v)
            kind, failed, outs = self.replay(native, en.name, inputs)
            confirmed = ((v['kind'] == 'assert' and v['id'] in failed) or
                         (v['kind'] == 'panic' and kind.startswith('panic') and not kind.startswith('panic_ok')) or
                         (v['kind'] == 'nontermination' and kind in ('hang', 'crash')) or
                         (v['kind'] == 'memory' and kind in ('crash', 'hang') or v['kind'] == 'memory' and kind.startswith('panic:')))
            if not confirmed:
                if failed:
                    confirmed = True     # another assertion fails on the same input
                elif kind.startswith('panic:') or kind in ('hang', 'crash'):
                    confirmed = True
            if not confirmed:
                self.error(f'{h.name}/{en.name}: {v["kind"]} {v["msg"]} id={v["id"]} does not reproduce natively ({kind} {failed}) inputs={inputs}')
                continue
            viol += 1
            key = (v['kind'], v['id'])
            if key in seen:
                continue
            seen.add(key)
            what = h.labels.get(v['id']) or STD_LABELS.get(v['id']) or v['msg'] if v['kind'] == 'assert' else f'{v["kind"]}: {v["msg"]}'
            self.violation(h, f'{h.name}/{en.name}: {what} [{h.about}] inputs={inputs} native={kind}',
                           dict(kind=v['kind'], assert_id=v['id'], entry=en.name, inputs=inputs, native=kind, failed=failed, outs=outs))
        n = 0
        for s in r['samples']:
            inputs = ins(s)
            kind, failed, outs = self.replay(native, en.name, inputs)
            want = s['outs']
            okk = kind == 'ok' if not s['panic'] else kind.startswith('panic_ok')
            if not okk or failed or outs != want:
                if failed or kind in ('hang', 'crash') or (kind.startswith('panic') and not s['panic']):
                    # the real code misbehaves on a path the engine thought fine
                    self.error(f'{h.name}/{en.name}: native run disagrees with the engine on {inputs}: {kind} {failed} outs {outs} vs {want}')
                else:
                    self.error(f'{h.name}/{en.name}: native outputs differ on {inputs}: {kind} {outs} vs {want}')
            n += 1
        if r['inconclusive'] and not viol:
            self.error(f'{h.name}/{en.name}: inconclusive: {r["inconclusive"][:3]}')
        if not viol:
            for x in en.reach:
                if not r['reach'].get(str(x)):
                    self.error(f'{h.name}/{en.name}: vacuous, label {x} never reached')
            if r.get('cover') not in (None, 'complete', 'off', ''):
                self.error(f'{h.name}/{en.name}: path cover {r.get("cover")}')
        with self.mu:
            st = self.stats
            st['entries'] += 1
            for k in ('paths', 'steps', 'forks', 'queries', 'sat', 'unsat', 'domain_splits', 'assert_solver', 'assert_folded', 'solver_s', 'assume_cut'):
                if k in r:
                    st[k] += r[k]
            st['engine_s'] += r.get('wall_s', 0)
            st['replayed'] += n
            self.functions.update(short_fn(f) for f in r.get('functions', []))
            for k, v in r['asserts'].items():
                self.asserts[k] = self.asserts.get(k, 0) + v
            for k, v in r['reach'].items():
                self.reach[k] = self.reach.get(k, 0) + v
            c = r.get('cover') or 'off'
            self.cover[c] = self.cover.get(c, 0) + 1
            if len(self.samples) < 12 and r['samples']:
                s = r['samples'][-1]
                self.samples.append(dict(harness=h.name, entry=en.name, config=h.about[:200], inputs=ins(s), outs=s['outs'][:24], replay='agrees'))

    # ---------------------------------------------------------------- all
    def run(self, harnesses, budget=None):
        if self.engine is None:
            self.prepare()
        with ThreadPoolExecutor(self.jobs) as ex:
            list(ex.map(self.one, harnesses))

    def finish(self, bounds, outside, explanation='', extra=None):
        wall = time.time() - self.t0
        st = self.stats
        cov = dict(
            states=int(st['paths']), transitions=int(st['forks']),
            traces_validated_against_impl=int(st['replayed']),
            samples=self.samples or [dict(note='no path sample')],
            functions_encoded=sorted(self.functions)[:120], functions_encoded_count=len(self.functions),
            bounds=bounds, outside_bounds=outside,
            harness_programs=st['harnesses'], entries=st['entries'], ir_instructions_executed=st['steps'],
            solver_queries=st['queries'], solver_sat=st['sat'], solver_unsat=st['unsat'], small_domain_splits=st['domain_splits'],
            assertions_decided_by_solver=st['assert_solver'], assertions_folded_constant=st['assert_folded'],
            solver_s=round(st['solver_s'], 3), engine_s=round(st['engine_s'], 3),
            path_cover_queries=self.cover, assertion_hits=self.asserts, reach=self.reach, explanation=explanation, notes=self.notes)
        if extra:
            cov.update(extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov, wall_s=round(wall, 2),
                  violations=[v[0] for v in self.violations], errors=self.errors[:20],
                  known_findings=[k[0]['id'] for k in self.known])
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(self.dir, ignore_errors=True)
        done = set()
        for k, text in self.known:
            if k['id'] not in done:
                done.add(k['id'])
                print(f'KNOWN-FINDING: property={self.prop} {k["id"]} {k["what"]}')
        for k in known_findings():
            if k['property'] == self.prop and k.get('status') == 'known' and k['id'] not in done:
                print(f'note: known finding {k["id"]} was not reproduced by this run')
        print(f'{self.prop} {self.tier}: {st["harnesses"]} harness programs, {st["paths"]} paths, {st["queries"]} solver queries '
              f'({st["solver_s"]:.1f}s), {st["replayed"]} native replays, {wall:.1f}s')
        for n in self.notes:
            print('note:', n)
        if self.violations:
            for text, path in self.violations[:10]:
                print('  ' + text[:600])
            # errors next to a violation are shown but do not hide it
            for e in self.errors[:3]:
                print('  (also) ' + e[:300])
            print(f'VIOLATION property={self.prop} replay={self.violations[0][1]}')
            return 1
        if self.errors:
            for e in self.errors[:10]:
                print('ERROR ' + e[:700])
            return 3
        return 0


_known = None


def known_findings():
    global _known
    if _known is None:
        p = os.path.join(VERIF, 'known_findings.json')
        _known = json.load(open(p))['findings'] if os.path.exists(p) else []
    return _known


def first_error(e):
    ls = [l for l in e.splitlines() if l.startswith('error')]
    more = [l.strip() for l in e.splitlines() if 'message:' in l or 'panicked' in l]
    return ' / '.join((ls[:2] or [e[-200:].replace('\n', ' ')]) + more[:1])


def short_fn(f):
    import re
    # rust legacy / v0 mangling: keep the readable identifiers
    m = re.findall(r'(\d+)', f)
    parts = []
    i = 0
    s = f
    if s.startswith('_ZN'):
        s = s[3:]
        while s and s[0].isdigit():
            n = re.match(r'\d+', s).group()
            s = s[len(n):]
            parts.append(s[:int(n)])
            s = s[int(n):]
        if parts and re.match(r'^h[0-9a-f]{16}$', parts[-1]):
            parts.pop()
        return '::'.join(parts)
    return f
