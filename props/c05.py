"""C05: precedence and associativity"""
from concurrent.futures import ThreadPoolExecutor
from vlib.corpus import CURATED, adequate, wellformed
from vlib.grammar import Gram
from vlib.hgen import lockstep, statecover, flat, T_ENTRY
from vlib.lalr import LALR, Conflict
from vlib.plan import measure
from vlib.runner import Harness, Entry
from props.ctx import ctx_cover
from props.common import mixed
from props.c03 import reach
from props.c06 import verdict, expect
from props.prec import CUR, random_ops, random_prec, random_multi
import random as _r


class X:
    def __init__(self, g, limit, nmax):
        self.g, self.l = g, LALR(g)
        self.m = measure(self.l, limit, nmax)
        self.N = self.m['N']
        self.accepts = self.m['shortest'] is not None and self.m['shortest'] <= self.N
        self.eps = self.m['shortest'] == 0


def pratt(name, levels, ops, N):
    """operator-precedence oracle that knows nothing of LR: ops: {token: (level, assoc) } binary,
    prefix tokens in ops with kind 'pre'"""
    # token numbering: order of Gram.terms
    lines = [f'%{a} {" ".join(ts)}' for a, ts in levels] + ['input ::= e']
    rules = []
    for t, kind in ops:
        rules.append((t, kind))
        lines.append(f'e ::= e {t} e' if kind == 'bin' else f'e ::= {t} e')
    lines.append('e ::= LP:- e RP:-')
    lines.append('e ::= N')
    g = Gram(name, '\n'.join(lines))
    lev = {}
    for i, (a, ts) in enumerate(levels):
        for t in ts:
            lev[t] = (i + 1, 'lrn'.index(a[0]))
    T = len(g.terms)
    tk = {t: k for k, t in enumerate(g.terms)}
    info = ['(0, 0, 0, 0)'] * T      # kind (1 bin, 2 pre), level, assoc, rule
    both = {}
    binr, prer = [0] * T, [0] * T
    for i, (t, kind) in enumerate(rules):
        (binr if kind == 'bin' else prer)[tk[t]] = i + 1
    nr = len(rules)
    src = g.rust('g', 0) + g.tok_fn('g', 'tok') + f'''
const N: usize = {N};
static BINR: [u32; {T}] = {binr};
static PRER: [u32; {T}] = {prer};
static LEV: [u32; {T}] = {[lev.get(t, (0, 0))[0] for t in g.terms]};
static ASSOC: [u32; {T}] = {[lev.get(t, (0, 0))[1] for t in g.terms]};
const LP: u32 = {tk['LP']}; const RP: u32 = {tk['RP']}; const NUM: u32 = {tk['N']};
struct Or {{ t: [u32; N], v: [u32; N], n: usize, i: usize, bad: bool }}
fn atom(o: &mut Or) -> u32 {{
    if o.i >= o.n {{ o.bad = true; return 0; }}
    let k = o.t[o.i]; let v = o.v[o.i];
    o.i += 1;
    if k == NUM {{ return act(1, {nr + 2}, &[v]); }}
    if k == LP {{
        let e = expr(o, 0, 9);
        if o.bad || o.i >= o.n || o.t[o.i] != RP {{ o.bad = true; return 0; }}
        o.i += 1;
        return act(1, {nr + 1}, &[e]);
    }}
    let r = PRER[k as usize];
    if r == 0 {{ o.bad = true; return 0; }}
    let e = expr(o, LEV[k as usize], ASSOC[k as usize]);
    if o.bad {{ return 0; }}
    act(1, r, &[v, e])
}}
/// an operand of an operator of level l: takes in everything that binds tighter
fn expr(o: &mut Or, l: u32, assoc: u32) -> u32 {{
    let mut a = atom(o);
    loop {{
        if o.bad {{ return 0; }}
        if o.i >= o.n {{ return a; }}
        let k = o.t[o.i] as usize;
        let r = BINR[k];
        if r == 0 {{ return a; }}
        if LEV[k] < l || LEV[k] == l && assoc == 0 {{ return a; }}
        if LEV[k] == l && assoc == 2 {{ o.bad = true; return 0; }}
        let v = o.v[o.i];
        o.i += 1;
        let b = expr(o, LEV[k], ASSOC[k]);
        if o.bad {{ return 0; }}
        a = act(1, r, &[a, v, b]);
    }}
}}
#[unsafe(no_mangle)] pub fn h_pratt() {{
    reset();
    let n = s_range(N as u32 + 1) as usize;
    let mut o = Or {{ t: [0; N], v: [0; N], n, i: 0, bad: false }};
    let mut p = g::Parser::new();
    let mut i = 0;
    let mut failed = false;
    while i < N {{
        if i >= n {{ break; }}
        let k = s_range({T});
        let v = s_u32();
        o.t[i] = k; o.v[i] = v;
        if p.parse(tok(k, v)).is_err() {{ failed = true; break; }}
        i += 1;
    }}
    if failed {{ o.n = i + 1; }}
    let e = expr(&mut o, 0, 9);
    if failed {{ s_assert(o.bad || o.i < o.n, 1); s_reach(2); return; }}
    let end = !o.bad && o.i == o.n;
    match p.end_of_input() {{
        Ok(v) => {{ s_assert(end, 2); s_reach(1); let root = act(1, 0, &[e]); s_assert(root == v, 4); logs_equal(0, 1, 10); }}
        Err(_) => s_assert(!end, 3),
    }}
}}
'''
    return Harness(name, src, [Entry('h_pratt', reach=[1, 2], time=T_ENTRY)],
                   labels={1: 'a token that the operator precedences allow was rejected', 2: 'an expression the operator precedences forbid was accepted',
                           3: 'an expression was rejected at end of input', 4: 'another result', 10: 'number of actions differs', 11: 'the expression was grouped differently'},
                   about='grammar ' + flat(g), bounds=f'n<={N}')


def random_pratt(rng, i, N):
    nops = rng.randint(2, 4)
    ops = [(f'O{j}', 'bin') for j in range(nops)]
    npre = rng.randint(0, 2)
    ops += [(f'P{j}', 'pre') for j in range(npre)]
    if rng.random() < 0.3 and npre:
        ops = [o for o in ops if o[0] != 'P0'] + [('O0', 'pre')]
    names = list(dict.fromkeys(o[0] for o in ops))
    rng.shuffle(names)
    levels = []
    while names:
        k = rng.randint(1, 2)
        levels.append((rng.choice(['left', 'right', 'nonassoc']), names[:k]))
        names = names[k:]
    return pratt(f'pratt{i}', levels, ops, N)


def levels(rng, name, n):
    """n levels of operators of all kinds; the symbol for [..] may be of any level"""
    lines, rules = [], []
    for i in range(n):
        ops = [f'O{i}'] + ([f'O{i}b'] if rng.random() < 0.3 else [])
        lines.append(f'%{rng.choice(["left", "right", "nonassoc"])} ' + ' '.join(ops))
        for o in ops:
            k = rng.random()
            if k < 0.75:
                rules.append(f'e ::= e {o} e')
            elif k < 0.85:
                rules.append(f'e ::= {o} e')
            elif k < 0.92:
                rules += [f'e ::= e {o} e', f'e ::= {o} e [O{rng.randrange(n)}]']
            else:
                rules.append(f'e ::= e {o} e [O{rng.randrange(n)}]')
    rng.shuffle(rules)
    return Gram(name, '\n'.join(lines + ['input ::= e'] + rules + ['e ::= N', 'e ::= Lp e Rp']))


def check(run):
    q = run.tier == 'quick'
    xs = []
    for k, v in CUR.items():
        xs.append(X(Gram(k, v), 900 if q else 9000, 9 if q else 11))
    for k in ('ops', 'cmp', 'postfix', 'bool'):
        xs.append(X(Gram(k, CURATED[k]), 900 if q else 9000, 9 if q else 11))
    for i in range(70 if q else 300):
        xs.append(X(random_ops(run.rng, f'op{i}'), 500 if q else 5000, 8 if q else 10))
    for i in range(50 if q else 250):
        xs.append(X(random_prec(run.rng, f'pr{i}'), 500 if q else 5000, 8 if q else 10))
    for i in range(40 if q else 200):
        xs.append(X(random_multi(run.rng, f'mu{i}'), 500 if q else 5000, 8 if q else 10))
    for g in adequate('behave', '_prec') + adequate('accept', '_prec'):
        xs.append(X(g, 300 if q else 5000, 8 if q else 10))
    hs = []
    for i, x in enumerate(xs):
        if run.only and run.only not in x.g.name:
            continue
        hs.append(lockstep(x.g, x.N, name=f'prec_{x.g.name}', lalr=x.l, reach=[1] if x.accepts else [],
                           labels={11: 'actions in another order: the input was grouped against the precedences'}))
    for i in range(24 if q else 100):
        h = random_pratt(run.rng, i, 6 if q else 7)
        if not run.only or run.only in h.name:
            hs.append(h)
    # many levels: every state and two more tokens, so every two operators meet
    for i, n in enumerate((9, 12, 16, 20, 30) if q else (9, 10, 12, 16, 20, 24, 33, 40, 66, 70)):
        for _ in range(300):
            g = levels(run.rng, f'lev{i}', n)
            try:
                l = LALR(g)
            except Conflict:
                continue
            if wellformed(g, l):
                break
        else:
            raise RuntimeError('no grammar with many levels')
        if not run.only or run.only in g.name:
            hs.append(statecover(g, g.name, M=1, lalr=l, err=True, exp=False))
    # one lookahead for several reductions in many contexts, precedence chooses
    hs += ctx_cover(run, 16 if q else 80, 'cx', prec=True)
    run.run(hs)
    # precedences that leave a conflict open must not be taken to settle it
    rej = []
    for g in adequate('reject', '_prec'):
        if not run.only or run.only in g.name:
            e, why = expect(g)
            assert e == 'reject'
            rej.append((g.name, g, e, why))
    with ThreadPoolExecutor(run.jobs) as ex:
        list(ex.map(lambda c: verdict(run, c), rej))
    ns = [x.N for x in xs]
    return run.finish(
        bounds=dict(grammars=len(hs), grammars_with_open_conflicts=len(rej), token_sequence_length=dict(min=min(ns), max=max(ns))),
        outside='other grammars; longer inputs',
        explanation='(a) generated parser next to a reference machine whose conflicts are resolved by the documented rules; (b) next to an operator-precedence parser that knows nothing of LR tables; '
                    'same verdict on every token, same actions in the same order with the same operands',
        extra=dict(configs=[dict(name=x.g.name, N=x.N, states=x.l.nstates, resolved=x.l.resolved) for x in xs][:60]))
