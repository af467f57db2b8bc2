"""C06: conflict-free grammars compile, unresolved conflicts are rejected, the macro terminates"""
import os
from concurrent.futures import ThreadPoolExecutor
from vlib.corpus import CURATED, ERRORS, random_gram, random_err_gram, wellformed, adequate
from vlib.grammar import Gram, is_term
from vlib.hgen import flat, statecover, T_ENTRY
from vlib.lalr import LALR
from vlib.runner import Harness, Entry, sh, first_error, CheckError
from props.ctx import ctx
from props.big import big
from props.prec import CUR, random_ops, random_multi, random_prec

COMPILE_S = 60


# ------------------------------------------------------------------ what is expected
def expect(g):
    """('ok', lalr) or ('reject', why)"""
    core = g.core()
    heads = set(p.lhs for p in core)
    for p in core:
        if g.start_sym in p.rhs:
            return 'reject', 'the start symbol is used on a right-hand side'
        for x in p.rhs:
            if not x in g.terms and x not in heads and x != 'error':
                return 'reject', f'{x} has no rules'
    l = LALR(g, allow_conflicts=True)
    if l.conflicts:
        s, tok, *acts = l.conflicts[0]
        f = lambda a: 'shift' if a[0] == 's' else f'reduce {l.prods[a[1]]}'
        return 'reject', f'{len(l.conflicts)} unresolved conflicts, e.g. ' + ' / '.join(f(a) for a in acts) + f' on {l.terms[tok - 1] if tok else "end of input"}'
    used = {-a - 1 for row in l.act for a in row if a < 0}
    for i, p in enumerate(l.prods):
        if i not in used:
            return 'reject', f'{p} can never be reduced'
    return 'ok', l


def mutate(rng, text):
    """one small change of the rules"""
    lines = text.strip().split('\n')
    idx = [i for i, x in enumerate(lines) if '::=' in x]
    syms = sorted(set(w for i in idx for w in lines[i].replace('::=', ' ').split() if w[0].isalpha() and '[' not in w and w not in ('error',) and not w.endswith(':-')))
    syms = [s.split('|')[0].rstrip('?') for s in syms]
    first = lines[idx[0]].split()[0]
    syms = [s for s in syms if s != first] or ['A']
    heads = [lines[i].split()[0] for i in idx if lines[i].split()[0] != first] or [first]
    k = rng.randint(0, 6)
    if k <= 1:      # another rule
        lines.append(f'{rng.choice(heads)} ::= ' + ' '.join(rng.choice(syms) for _ in range(rng.randint(0 if k else 1, 3))))
    else:
        i = rng.choice(idx)
        lhs, rest = lines[i].split('::=')
        w = rest.split()
        tail = [x for x in w if x[0] == '[']
        w = [x for x in w if x[0] != '[']
        if k == 2 and w:
            w.pop(rng.randrange(len(w)))
        elif k == 3:
            w.insert(rng.randint(0, len(w)), rng.choice(syms))
        elif k == 4 and w:
            w[rng.randrange(len(w))] = rng.choice(syms)
        elif k == 5 and w:
            j = rng.randrange(len(w))
            if w[j][-1] not in '?-':
                w[j] += '?'
        elif k == 6:
            # a unit rule between two nonterminals, or a copy of the rule under another name
            if rng.random() < 0.5:
                lines.append(f'{rng.choice(heads)} ::= {rng.choice(heads)}')
            else:
                lines.append(f'{rng.choice(heads)} ::= ' + ' '.join(w))
        lines[i] = f'{lhs.strip()} ::= ' + ' '.join(w + tail)
    return '\n'.join(dict.fromkeys(lines))


def cross(rng, g):
    """one lookahead of one reduction becomes that of another one"""
    lines = g.text.strip().split('\n')
    Q = [t for t in g.terms if t[0] in 'QRTU']
    at = [i for i, x in enumerate(lines) if '::=' in x and any(w in Q for w in x.split())]
    if not at or len(Q) < 2:
        return g.text
    i = rng.choice(at)
    w = lines[i].split()
    j = rng.choice([j for j, x in enumerate(w) if x in Q])
    w[j] = rng.choice([t for t in Q if t[:2] != w[j][:2]] or Q)
    lines[i] = ' '.join(w)
    return '\n'.join(dict.fromkeys(lines))


def unprec(rng, text):
    """forget the precedence of something"""
    lines = text.strip().split('\n')
    ps = [i for i, x in enumerate(lines) if x.split()[0] in ('%left', '%right', '%nonassoc')]
    os_ = [i for i, x in enumerate(lines) if x.endswith(']')]
    if os_ and rng.random() < 0.4 or not ps:
        if not os_:
            return text
        i = rng.choice(os_)
        lines[i] = lines[i][:lines[i].rindex('[')].strip()
    else:
        i = rng.choice(ps)
        w = lines[i].split()
        w.pop(rng.randrange(1, len(w)))
        if len(w) == 1:
            lines.pop(i)
        else:
            lines[i] = ' '.join(w)
    return '\n'.join(lines)


REJECT = {
    # ambiguous
    'amb_plus': 'input ::= e\ne ::= e Plus e\ne ::= N',
    'dangling': 'input ::= s\ns ::= If s\ns ::= If s Else s\ns ::= X',
    'two_ways': 'input ::= a\ninput ::= b\na ::= X\nb ::= X',
    'eps_two': 'input ::= a\ninput ::= b\na ::=\nb ::=\na ::= X\nb ::= Y',
    'eps_list': 'input ::= l\nl ::= l i\nl ::=\ni ::= X\ni ::=',
    'cyc1': 'input ::= a\na ::= a\na ::= X',
    'cyc2': 'input ::= a\na ::= b\nb ::= a\nb ::= X',
    'cyc_eps': 'input ::= a\na ::= a n\na ::= X\nn ::=',
    'concat': 'input ::= l\nl ::= l l\nl ::= X',
    'opt_amb': 'input ::= X? X? Z',
    'opt_first': 'input ::= X? X',
    'alt_dup': 'input ::= x C\ninput ::= A C\nx ::= A|B',
    'dup_rule': 'input ::= a B\na ::= X\na ::= X',
    'hidden_left': 'input ::= a\na ::= n a Y\na ::= X\nn ::=',
    'leftright': 'input ::= e\ne ::= X e\ne ::= e Y\ne ::= Z',
    'start_eps': 'input ::=\ninput ::= a\na ::=\na ::= X',
    # not ambiguous, but more than one token of lookahead is needed
    'lr2': 'input ::= a B C\ninput ::= b B D\na ::= X\nb ::= X',
    'lr2list': 'input ::= ds\nds ::= ds d\nds ::=\nd ::= X Col l\nl ::=\nl ::= l X',
    'palin': 'input ::= p\np ::= A p A\np ::= B p B\np ::=',
    # LR(1) but not LALR(1)
    'notlalr': 'input ::= A x D\ninput ::= B y D\ninput ::= A y E\ninput ::= B x E\nx ::= C\ny ::= C',
    'notlalr2': 'input ::= L x R\ninput ::= L y S\ninput ::= M x S\ninput ::= M y R\nx ::= A B\ny ::= A B',
    # precedence that does not settle everything
    'half': '%left Plus\ninput ::= e\ne ::= e Plus e\ne ::= e Mul e\ne ::= N',
    'tokonly': '%left Else\ninput ::= s\ns ::= If s\ns ::= If s Else s\ns ::= X',
    'ruleonly': '%left H\ninput ::= e\ne ::= e Plus e [H]\ne ::= N',
    'ovr_none': '%left Plus\ninput ::= e\ne ::= e Plus e [G]\ne ::= N',
    'rr_samelevel': '%left P Q\ninput ::= a A\ninput ::= b A\ninput ::= b B\ninput ::= a C\na ::= X [P]\nb ::= X [Q]',
    'rr_samelevelr': '%right P Q\ninput ::= a A\ninput ::= b A\ninput ::= b B\ninput ::= a C\na ::= X [P]\nb ::= X [Q]',
    'rr_samelevelr2': '%right X\ninput ::= a A\ninput ::= b A\ninput ::= b B\ninput ::= a C\na ::= X\nb ::= X',
    'rr_nonassoc': '%nonassoc X\ninput ::= a A\ninput ::= b A\ninput ::= b B\ninput ::= a C\na ::= X\nb ::= X',
    'rr_one': '%left P\ninput ::= a A\ninput ::= b A\ninput ::= b B\ninput ::= a C\na ::= X [P]\nb ::= X',
    # rules that are never reduced
    'unreachable': 'input ::= A\nb ::= C',
    'unreach2': 'input ::= A\nb ::= c\nc ::= b X\nc ::= X',
    'unreach_eps': 'input ::= A\nb ::=',
    'unreach_eps2': 'input ::= c A\nc ::=\nb ::=\nb ::= B',
    'unreach_long': 'input ::= A\nb ::= A B C A B',
    'unreach_unit': 'input ::= a\na ::= A\nb ::= a',
    'unreach_err': 'input ::= a\na ::= A\nb ::= error B',
    'unreach_err2': 'input ::= a\na ::= A\na ::= error B\nb ::= C error',
    'unreach_first': '%start input\nb ::= B\ninput ::= A',
    'unreach_mutual': 'input ::= A\nb ::= X c\nc ::= Y b\nc ::=',
    'loser_eps': '%left P\n%left Q\ninput ::= a X\ninput ::= b X\na ::= [P]\nb ::= [Q]',
    'shiftwins_eps': '%left P\n%left Y\ninput ::= a Y Z\ninput ::= Y Y\na ::= [P]',
    'loser': '%left P\n%left Q\ninput ::= a\ninput ::= b\na ::= X [P]\nb ::= X [Q]',
    'shiftwins': '%left X\n%left Y\ninput ::= a Y\ninput ::= X Y\na ::= X',
    # not grammars
    'undef': 'input ::= a\na ::= b X\na ::= Y',
    'startrhs': 'input ::= A input\ninput ::= B',
    'startrhs0': 'input ::= B\ninput ::= input A',
    'startrhs1': 'input ::= B\ninput ::= A input C',
    'startrhs2': 'input ::= x A\nx ::= B\nx ::= C D input',
    'startrhs3': '%start s\ns ::= x\nx ::= A\nx ::= x B\nx ::= s C',
    'startrhs4': 'input ::=\ninput ::= input input A',
}
# accepted although unusual
ACCEPT = {
    'empty': 'input ::=',
    'one': 'input ::= A',
    'lalr_not_slr': CURATED['lalr_not_slr'],
    'useless': 'input ::= A\ninput ::= b\nb ::= b X',
    'lr_eps': 'input ::= n X\nn ::=',
    'eps_deep': 'input ::= a b c\na ::=\nb ::= a\nc ::= a b X',
    'rightrec': 'input ::= l\nl ::= X l\nl ::=',
    'same_rhs': 'input ::= A x B\ninput ::= C y B\nx ::= T\ny ::= T',
    'opt': 'input ::= A? B? C?',
    'opt_rep': 'input ::= a X? a\na ::= Y? Z',
    'unused_prec': '%left Zz\ninput ::= A',
}
# whatever the verdict, the macro must come to one
TERMINATE = {
    'fb_self': ('%fallback A A;', 'input ::= A B;'),
    'fb_cycle2': ('%fallback A B; %fallback B A;', 'input ::= A; input ::= B C;'),
    'fb_cycle3': ('%fallback A B; %fallback B C; %fallback C A;', 'input ::= A D;'),
    'fb_chain': ('%fallback A B; %fallback B C; %fallback C D;', 'input ::= A; '),
    'fb_into_cycle': ('%fallback A B; %fallback B A; %fallback A C;', 'input ::= C A; '),
    'cls_self': ('%token_class K K A;', 'input ::= K;'),
    'cls_cycle': ('%token_class K L A; %token_class L K B;', 'input ::= K L;'),
    'cls_cycle3': ('%token_class K L; %token_class L M; %token_class M K A;', 'input ::= K;'),
    'cls_empty': ('%token_class K L; %token_class L K;', 'input ::= K A;'),
    'fb_class': ('%token_class K A B; %fallback K C;', 'input ::= K;'),
    'wild_fb': ('%wildcard W; %fallback W A; %fallback A W;', 'input ::= W; input ::= A B;'),
    'opt_start': ('', 'input ::= x?; x ::= A;'),
    'opt_nullable': ('', 'input ::= x? B; x ::= ; x ::= A;'),
    'opt_self': ('', 'input ::= x; x ::= A x? B;'),
    'deep': ('', 'input ::= n0; ' + ' '.join(f'n{i} ::= n{i + 1};' for i in range(300)) + ' n300 ::= A;'),
    'wide': ('', ' '.join(f'input ::= A{i} x{i}; x{i} ::= A{i};' for i in range(200))),
    'long': ('', 'input ::= ' + 'A ' * 400 + ';'),
    'longnt': ('', 'input ::= ' + 'a ' * 120 + '; a ::= A; a ::= ;'),
    'cyc3': ('', 'input ::= a; a ::= b; b ::= c; c ::= a; c ::= X;'),
    'unprod': ('', 'input ::= a; a ::= a a;'),
    'allnull': ('', 'input ::= a b c; a ::= b c; b ::= c; c ::= ;'),
}


def with_unused(rng, g):
    """one or two rules, of a nonterminal that nothing reachable uses, are never reduced"""
    lines = g.text.strip().split('\n')
    for k in range(rng.randint(1, 2)):
        rhs = [rng.choice(g.terms + g.nts[1:] + ['un0', 'un0', 'un1'][:3 * k]) for _ in range(rng.choice([0, 0, 1, 2, 3, 4]))]
        lines.insert(rng.randint(1, len(lines)), f'un{k} ::= {" ".join(rhs)}'.strip())
    return '\n'.join(lines)


def bare(g):
    for s in g.terms + g.nts:
        g.types[s] = None
    g.default_type = None
    return g


def minimal(g):
    """only the grammar, no values"""
    return g.rust('g', token_attr='', rule_code=lambda i: '')


# ------------------------------------------------------------------ derivations
def derive(g, limit, name=None):
    """every derivation of at most D rules is what the parser rebuilds from its sentence"""
    g = bare(g)
    prods = [(r.lhs, [it.names[0] for it in r.rhs]) for r in g.rules]
    nts = list(dict.fromkeys(p[0] for p in prods))
    by = {n: [i for i, p in enumerate(prods) if p[0] == n] for n in nts}
    INF = 10 ** 6
    minc = {n: INF for n in nts}
    ch = True
    cost = lambda i: 1 + sum(minc[x] for x in prods[i][1] if x in minc)
    while ch:
        ch = False
        for n in nts:
            c = min(cost(i) for i in by[n])
            if c < minc[n]:
                minc[n] = min(c, INF)
                ch = True
    if minc[g.start_sym] >= INF:
        return None

    import functools

    # number of derivations with exactly d rules
    @functools.lru_cache(None)
    def cnt(n, d):
        return sum(cseq(tuple(x for x in prods[i][1] if x in minc), d - 1) for i in by[n]) if d >= minc[n] else 0

    @functools.lru_cache(None)
    def cseq(seq, d):
        if d < 0:
            return 0
        if not seq:
            return int(d == 0)
        return sum(cnt(seq[0], k) * cseq(seq[1:], d - k) for k in range(minc[seq[0]], d + 1))
    # cycles make cnt(n, d) depend on itself only through smaller d
    tot, D = 0, minc[g.start_sym]
    while D < 24:
        c = cnt(g.start_sym, D)
        if tot + c > limit and tot:
            D -= 1
            break
        tot += c
        D += 1
    D = min(D, 24)
    code = {t: k for k, t in enumerate(g.terms)}
    ncode = {n: 1000 + j for j, n in enumerate(nts)}
    rhs = [[code[x] if x in code else ncode[x] for x in r] for _, r in prods]
    L = max([len(r) for r in rhs] + [1])
    cap = D * L + 2
    src = g.rust('g', rule_code=lambda i: f'crate::log(0, {i});') + g.tok_fn('g', 'tok') + f'''
const D: usize = {D};
static RHS: [&[u16]; {len(rhs)}] = [{', '.join('&' + str(r) for r in rhs)}];
static BY: [&[u16]; {len(nts)}] = [{', '.join('&' + str(by[n]) for n in nts)}];
static MINC: [u32; {len(nts)}] = {[minc[n] for n in nts]};
#[unsafe(no_mangle)] pub fn h_derive() {{
    reset();
    let mut form = [0u16; {cap}];
    let mut nf = 1;
    form[0] = {ncode[g.start_sym]};
    let mut out = [0u16; {cap}];
    let mut no = 0;
    let mut used = [0u16; D];
    let mut nu = 0;
    let mut need = MINC[{ncode[g.start_sym] - 1000}];
    // expand the right-most nonterminal first: reversed, this is the order of the reductions
    while nf > 0 {{
        nf -= 1;
        let x = form[nf];
        if x < 1000 {{ out[no] = x; no += 1; continue; }}
        let n = x as usize - 1000;
        let alts = BY[n];
        let r = alts[s_conc(s_range(alts.len() as u32) as u64) as usize];
        let rhs = RHS[r as usize];
        need -= MINC[n];
        let mut i = 0;
        while i < rhs.len() {{ if rhs[i] >= 1000 {{ need += MINC[rhs[i] as usize - 1000]; }} i += 1; }}
        if nu + 1 + need as usize > D {{ return; }}
        used[nu] = r; nu += 1;
        i = 0;
        while i < rhs.len() {{ form[nf] = rhs[i]; nf += 1; i += 1; }}
    }}
    let mut p = g::Parser::new();
    while no > 0 {{
        no -= 1;
        s_assert(p.parse(tok(out[no] as u32, 0)).is_ok(), 1);
    }}
    s_assert(p.end_of_input().is_ok(), 2);
    unsafe {{ s_assert(LOGS[0].n == nu, 3); }}
    let mut i = 0;
    while i < nu {{ unsafe {{ s_assert(LOGS[0].a[i] == used[nu - 1 - i] as u32, 4); }} i += 1; }}
    s_reach(1);
}}
'''
    return Harness(name or f'derive_{g.name}', src, [Entry('h_derive', reach=[1], time=T_ENTRY)],
                   labels={1: 'a token of a sentence was rejected', 2: 'a sentence was rejected at end of input',
                           3: 'a sentence has another derivation than the one the parser found (or the parser is wrong): the grammar is ambiguous and was accepted',
                           4: 'a sentence has another derivation than the one the parser found (or the parser is wrong): the grammar is ambiguous and was accepted'},
                   about='grammar ' + flat(g), bounds=f'derivations of <={D} rules')


def compile_(run, name, body):
    src = os.path.join(run.dir, name + '.rs')
    with open(src, 'w') as f:
        f.write(body)
    t = COMPILE_S
    for _ in range(2):
        rc, o, e = run.rustc(src, os.path.join(run.dir, name + '.rmeta'), ['--crate-type', 'lib', '--emit=metadata'], ['pomelo'], t)
        if rc is not None:
            break
        t *= 2
    os.unlink(src)
    return rc, e


def verdict(run, c):
    """c: (name, Gram, 'ok' or 'reject', why). The macro must agree"""
    name, g, want, why = c
    body = minimal(bare(g))
    rc, err = compile_(run, name, body)
    h = Harness(name, body, [], about='grammar ' + flat(g)[:1500])
    if rc is None:
        run.violation(h, f'pomelo! does not terminate on {h.about}', dict(kind='nonterminating-macro', inputs=[]))
    elif want == 'ok' and rc != 0:
        run.violation(h, f'pomelo! rejects a conflict-free grammar ({h.about}): {first_error(err)}', dict(kind='rejected-grammar', stderr=err[-4000:], inputs=[]))
    elif want == 'reject' and rc == 0:
        run.violation(h, f'pomelo! accepts a grammar it must reject ({h.about}): {why}', dict(kind='accepted-grammar', inputs=[]))
    return c, rc


def check(run):
    q = run.tier == 'quick'
    rng = run.rng
    run.prepare()
    cands = []      # (name, Gram, want, why)
    seen = set()

    def cand(name, text, want=None, g=None):
        if run.only and run.only not in name:
            return
        try:
            g = g or Gram(name, text)
            if not g.terms or len(g.rules) > 400:
                return
            e, why = expect(g)
        except (KeyError, AssertionError, IndexError):
            return
        if want and e != want:
            raise CheckError(f'reference disagrees on {name}: {e} {why}')
        key = g.text
        if key in seen:
            return
        seen.add(key)
        cands.append((name, g, e, why))
    for k, t in REJECT.items():
        cand('rej_' + k, t, 'reject')
    for k, t in ACCEPT.items():
        cand('acc_' + k, t, 'ok')
    for k, t in list(CURATED.items()) + list(CUR.items()) + list(ERRORS.items()):
        cand('cur_' + k, t)
        for i in range(2 if q else 8):
            cand(f'mcur_{k}{i}', mutate(rng, t))
    for k, want in (('behave', 'ok'), ('accept', 'ok'), ('reject', 'reject')):
        for g in adequate(k) + adequate(k, '_prec'):
            cand(g.name, g.text, want)
    for i in range(60 if q else 400):
        g = random_gram(rng, f'r{i}', nnt=(2, 5), maxrhs=(3, 5)[i % 2], null=(0.1, 0.3)[i % 3 == 0])
        if i % 6 == 0:
            cand(f'r{i}', g.text)
        for j in range(3):
            cand(f'mr{i}_{j}', mutate(rng, g.text))
    for i in range(16 if q else 80):
        g = random_gram(rng, f'un{i}', nt=(2, 4), nnt=(2, 4))
        cand(f'un{i}', with_unused(rng, g))
    for i in range(12 if q else 80):
        g = random_err_gram(rng, f'e{i}')
        cand(f'e{i}', g.text)
        for j in range(3):
            cand(f'me{i}_{j}', mutate(rng, g.text))
    for i in range(30 if q else 200):
        g = (random_ops, random_prec, random_multi)[i % 3](rng, f'p{i}')
        t = g.text
        for j in range(2):
            cand(f'up{i}_{j}', unprec(rng, t))
        cand(f'mp{i}', mutate(rng, t))
    for i in range(16 if q else 120):
        g = ctx(rng, f'cx{i}', sugar=i % 3 == 0)
        cand(f'cx{i}', g.text)
        for j in range(3):
            cand(f'mcx{i}_{j}', mutate(rng, g.text))
            cand(f'wcx{i}_{j}', cross(rng, g))
    for i in range(12 if q else 80):
        g = ctx(rng, f'kx{i}', kern=True)
        cand(f'kx{i}', g.text)
        for j in range(3):
            cand(f'mkx{i}_{j}', mutate(rng, g.text))
            cand(f'wkx{i}_{j}', cross(rng, g))
    for i in range(10 if q else 80):
        g = ctx(rng, f'pcx{i}', prec=True)
        cand(f'pcx{i}', g.text)
        for j in range(2):
            cand(f'upcx{i}_{j}', unprec(rng, g.text))
            cand(f'mpcx{i}_{j}', mutate(rng, g.text))
    for i in range(4 if q else 40):
        g, l = big(rng, f'big{i}', states=(40, 150), nnt=rng.randint(6, 14), nt=rng.randint(8, 40))
        cand(f'big{i}', g.text)
        for j in range(6):
            cand(f'mbig{i}_{j}', mutate(rng, g.text))
    ok = [c for c in cands if c[2] == 'ok']
    rej = [c for c in cands if c[2] == 'reject']
    accepted = []

    def term(k):
        d, r = TERMINATE[k]
        body = 'pomelo::pomelo! { %token pub enum Token {}; ' + d + ' ' + r + ' }\n'
        rc, err = compile_(run, 'term_' + k, body)
        if rc is None:
            run.violation(Harness('term_' + k, body, [], about=body), f'pomelo! does not terminate on {body}', dict(kind='nonterminating-macro', inputs=[]))
        elif 'panicked' in err:
            run.violation(Harness('term_' + k, body, [], about=body), f'pomelo! panics on {body}: {first_error(err)}', dict(kind='panicking-macro', stderr=err[-3000:], inputs=[]))
    with ThreadPoolExecutor(run.jobs) as ex:
        for c, rc in ex.map(lambda c: verdict(run, c), cands):
            if rc == 0:
                accepted.append(c)
        list(ex.map(term, [k for k in TERMINATE if not run.only or run.only in 'term_' + k]))
    # what was accepted is unambiguous and parsed as derived
    plain = [c for c in accepted if not c[1].prec and not c[1].uses_error and not any(it.opt or len(it.names) > 1 for r in c[1].rules for it in r.rhs)
             and not c[1].classes and not c[1].wildcard and not c[1].fallback]
    bad = [c for c in plain if c[2] == 'reject']
    good = [c for c in plain if c[2] == 'ok']
    hs = []
    for name, g, want, why in bad + good[:90 if q else 1000]:
        h = derive(Gram(name, g.text), 150 if q else 3000)
        if h:
            hs.append(h)
    run.run(hs)
    nrr = sum('reduce' in c[3] and 'shift' not in c[3] for c in rej if c[3][0].isdigit())
    if not run.only and (len(ok) < 60 or len(rej) < 100):
        run.error(f'only {len(ok)} / {len(rej)} grammars of each kind')
    return run.finish(
        bounds=dict(grammars_that_must_compile=len(ok), grammars_that_must_be_rejected=len(rej), first_conflict_reduce_reduce=nrr, terminating=len(TERMINATE),
                    derivations=f'all of at most D rules, D chosen so that there are about {150 if q else 3000}, for {len(hs)} grammars'),
        outside='other grammars. The verdict of the macro on one grammar is a fact about one program, there is nothing symbolic in it: it is observed by compiling; what the solver decides is that the accepted ones are '
                'unambiguous within the bound',
        explanation='for every accepted grammar without precedence the solver picks a derivation (symbolic rule choices) and the generated parser must rebuild exactly it from its sentence: a second derivation of a sentence, '
                    'i.e. an ambiguity, cannot exist then. Verdicts are compared with an independent LALR(1) construction',
        extra=dict(rejected=[dict(name=c[0], why=c[3][:200]) for c in rej][:60]))
