"""Grammars the generator is exercised on: curated ones that reach distinct
parts of it, and families generated from the seed."""
from vlib.grammar import Gram
from vlib.lalr import LALR, Conflict, cnf

CURATED = {
    'expr': '''
input ::= expr
expr ::= expr Plus term
expr ::= term
term ::= term Times fac
term ::= fac
fac ::= LP:- expr RP:-
fac ::= Num''',
    'list': '''
input ::= items
items ::=
items ::= items Item
items ::= items Sep Item''',
    'rlist': '''
input ::= items
items ::= Item
items ::= Item Comma items''',
    'palin': '''
input ::= s
s ::= A s A2
s ::= B s B2
s ::= M''',
    'nullchain': '''
input ::= a b c d
a ::=
a ::= A
b ::=
b ::= B
c ::=
c ::= C c
d ::= D
d ::= E a F''',
    'lalr_not_slr': '''
input ::= s
s ::= l Eq r
s ::= r
l ::= Star r
l ::= Id
r ::= l''',
    'lookahead': '''
input ::= A x C
input ::= B x D
input ::= A y D
input ::= C y E
x ::= Q
y ::= Q''',
    'emptystart': '''
input ::=
input ::= A b
b ::=
b ::= B b''',
    'json': '''
input ::= v
v ::= LB:- RB:-
v ::= LB:- m RB:-
v ::= LS:- RS:-
v ::= LS:- e RS:-
v ::= S
m ::= S Col:- v
m ::= m Com:- S Col:- v
e ::= v
e ::= e Com:- v''',
    'dangle_fixed': '''
input ::= st
st ::= mat
st ::= unm
mat ::= If mat Else mat
mat ::= X
unm ::= If st
unm ::= If mat Else unm''',
    'unit': '''
input ::= a
a ::= b
b ::= c
c ::= d
c ::= c X
d ::= Y
d ::= L a R''',
    'anbn': '''
input ::= s
s ::=
s ::= A s B''',
    'twolists': '''
input ::= xs ys
xs ::=
xs ::= xs X
ys ::= Y
ys ::= Y ys''',
    'sideways': '''
input ::= p q
p ::= o A
p ::= o B
q ::= o C
q ::= Z q
o ::=
o ::= O''',
    'nested_null': '''
input ::= a X
a ::= b b2
b ::= c
c ::=
b2 ::= c
b2 ::= c P
b2 ::= Q c''',
    'ops': '''
%left Plus Minus
%left Times Div
%right Pow
%right Neg
input ::= e
e ::= e Plus e
e ::= e Minus e
e ::= e Times e
e ::= e Pow e
e ::= Minus e [Neg]
e ::= LP:- e RP:-
e ::= Num''',
    'cmp': '''
%nonassoc Lt Gt
%left Plus
input ::= e
e ::= e Lt e
e ::= e Gt e
e ::= e Plus e
e ::= Num''',
    'postfix': '''
%left Comma
%right Q
%nonassoc Bang
input ::= e
e ::= e Comma e
e ::= e Q e Col e
e ::= e Bang
e ::= Tilde e [Bang]
e ::= N''',
    'long': '''
input ::= s
s ::= A B C D E
s ::= A B C F
s ::= A G s
s ::= A B H s''',
    'call': '''
input ::= e
e ::= Id
e ::= e LP:- args RP:-
e ::= e Dot Id
args ::=
args ::= al
al ::= e
al ::= al Com:- e''',
    'stmt': '''
input ::= prog
prog ::=
prog ::= prog stmt
stmt ::= Id Eq ex Semi
stmt ::= LB prog RB
stmt ::= While ex stmt
stmt ::= Semi
ex ::= Id
ex ::= ex Plus Id''',
    'revnull': '''
input ::= x T
x ::= y
y ::= z y2
z ::=
z ::= Z
y2 ::=
y2 ::= Y y2''',
    'lrmerge': '''
input ::= A e A2
input ::= B e B2
input ::= A f B2
e ::= X e
e ::= X
f ::= Y e''',
    'tworec': '''
input ::= l
l ::= l A r
l ::= r
r ::= B r
r ::= C l D
r ::= E''',
    'bool': '''
%right Imp
%left Or
%left And
%nonassoc Eq
%right Not
input ::= f
f ::= f Imp f
f ::= f Or f
f ::= f And f
f ::= f Eq f
f ::= Not f
f ::= LP:- f RP:-
f ::= P''',
}


def curated(names=None):
    return [Gram(k, v) for k, v in CURATED.items() if names is None or k in names]


def wellformed(g, l):
    """productive, reachable, every rule reducible, no start on a right side"""
    prods = l.prods
    if any(g.start_sym in p.rhs for p in prods):
        return False
    reach = {g.start_sym}
    ch = True
    while ch:
        ch = False
        for p in prods:
            if p.lhs in reach:
                for x in p.rhs:
                    if x not in reach:
                        reach.add(x)
                        ch = True
    if not all(n in reach for n in l.nts):
        return False
    prod = set(g.terms)
    ch = True
    while ch:
        ch = False
        for p in prods:
            if p.lhs not in prod and all(x in prod for x in p.rhs):
                prod.add(p.lhs)
                ch = True
    if not all(n in prod for n in l.nts if n != 'error'):
        return False
    used = {-a - 1 for row in l.act for a in row if a < 0}
    return all(i in used for i in range(len(prods)))


def random_gram(rng, name, nnt=(2, 4), nt=(2, 4), maxrhs=4, maxrules=4, need_cnf=False, tries=4000, null=0.18):
    """a random conflict-free LALR(1) grammar"""
    for _ in range(tries):
        NT = [f'n{i}' for i in range(rng.randint(*nnt))]
        TT = [f'T{i}' for i in range(rng.randint(*nt))]
        ns = rng.choice([1, 1, 1, 1, 1, 2, 2, 3, 3, 4])
        lines = []
        for i in range(ns):
            k = 0 if ns > 1 and rng.random() < 0.15 else rng.randint(1, 3 + (ns > 1))
            lines.append(f'start ::= {" ".join(rng.choice(NT + TT) for _ in range(k))}'.strip())
        lines = list(dict.fromkeys(lines))
        for n in NT:
            seen = set()
            for _ in range(rng.randint(1, maxrules)):
                k = 0 if rng.random() < null else rng.randint(1, maxrhs)
                rhs = tuple(rng.choice(NT + TT + TT) for _ in range(k))
                if rhs in seen or rhs == (n,):
                    continue
                seen.add(rhs)
                lines.append(f'{n} ::= {" ".join(rhs)}')
        g = Gram(name, '\n'.join(lines))
        if len(g.nts) < len(NT) or len(g.terms) < 2:
            continue
        try:
            l = LALR(g)
        except Conflict:
            continue
        except KeyError:
            continue
        if not wellformed(g, l) or l.nstates < 7:
            continue
        if need_cnf:
            try:
                if cnf(g)['n'] > 64:
                    continue
            except (ValueError, KeyError):
                continue
        return g
    raise RuntimeError('no random grammar')


ERRORS = {
    'estmt': '''
input ::= stmts
stmts ::=
stmts ::= stmts stmt Semi
stmts ::= stmts error Semi
stmt ::= Id
stmt ::= Id Eq Id''',
    'eblk': '''
input ::= blk
blk ::= LB list RB
blk ::= LB error RB
list ::= It
list ::= list Com It
list ::= blk''',
    'etop': '''
input ::= A x
input ::= error
x ::= B
x ::= C x''',
    'enest': '''
input ::= e
e ::= e Plus t
e ::= t
t ::= Num
t ::= LP e RP
t ::= LP error RP''',
    'etwo': '''
input ::= l
l ::= i
l ::= l i
i ::= A error B
i ::= C error
i ::= D''',
    'emid': '''
input ::= x y
x ::= A
x ::= A B
y ::= C error D
y ::= error E
y ::= F''',
    'eline': '''
input ::= ls
ls ::= l
ls ::= ls l
l ::= Num Nl
l ::= error Nl
l ::= Nl''',
    'edeep': '''
input ::= p
p ::= O q
q ::= A r
q ::= error S
r ::= B B B S
r ::= B error''',
    'enull': '''
input ::= a error Z
input ::= a B
a ::=
a ::= a A''',
    'ewhile': '''
input ::= ss
ss ::= s
ss ::= ss Semi s
s ::= Id
s ::= If Id s
s ::= LB ss RB
s ::= error''',
}


def random_err_gram(rng, name, nerr=(1, 2), tries=4000, **kw):
    """a random conflict-free grammar that uses the error symbol"""
    for _ in range(tries):
        g0 = random_gram(rng, name, **kw)
        lines = g0.text.strip().split('\n')
        for _ in range(rng.randint(*nerr)):
            n = rng.choice(g0.nts[1:] * 4 + g0.nts[:1])
            rhs = [rng.choice(g0.nts[1:] + g0.terms * 2) for _ in range(rng.randint(0, 1))] + ['error'] + \
                  [rng.choice(g0.terms) for _ in range(rng.randint(0, 2))]
            lines.append(f'{n} ::= {" ".join(rhs)}')
        if len(set(lines)) < len(lines):
            continue
        g = Gram(name, '\n'.join(lines))
        try:
            l = LALR(g)
        except (Conflict, KeyError):
            continue
        if not wellformed(g, l):
            continue
        return g
    raise RuntimeError('no random grammar')


def adequate(kind, family=''):
    """grammars chosen (tools/adequate.py) because they tell faulty LALR constructions from the right one:
    behave (conflict free), accept (conflict free, a faulty construction sees a conflict), reject (have conflicts)"""
    import json, os
    d = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), f'adequate{family}.json')))
    return [Gram(f'ad{family}{kind[0]}{i}', t) for i, t in enumerate(d[kind])]


def orders(rules, rng, nrandom):
    """the rules (the first one stays first) top down, bottom up, and in random orders"""
    yield 'td', rules
    yield 'bu', rules[:1] + rules[:0:-1]
    for i in range(nrandom):
        xs = rules[1:]
        rng.shuffle(xs)
        yield f'x{i}', rules[:1] + xs


def chains(rng, depth=6, nrandom=2):
    """grammars whose FIRST sets, nullable symbols and lookaheads go through long chains of rules, in several orders"""
    d = depth
    C = {}
    # FIRST through unit rules decides which empty rule to reduce
    C['first'] = (['input ::= n a0', 'input ::= m E', 'n ::=', 'm ::='] + [f'a{i} ::= a{i + 1}' for i in range(d)] + [f'a{d} ::= D', f'a{d} ::= F G'])
    # the same through nullable prefixes and left recursion
    C['firstnull'] = (['input ::= n a0 Z', 'input ::= m E', 'input ::= m Y', 'n ::=', 'm ::='] + [f'a{i} ::= e{i} a{i + 1}' for i in range(d)] +
                      [f'e{i} ::=' for i in range(d)] + [f'a{d} ::= e0', f'a{d} ::= a{d} D'])
    # nullable through a chain: FIRST of what follows
    C['null'] = (['input ::= n a0 X', 'input ::= m W', 'input ::= m V', 'n ::=', 'm ::='] + [f'a{i} ::= a{i + 1} a{i + 1}' if i == 1 else f'a{i} ::= a{i + 1}' for i in range(d)] +
                 [f'a{d} ::=', 'input ::= K n a0 V'])
    # lookaheads through right recursion: two rules for the same token told apart only by what follows
    C['follow'] = (['input ::= a0 X', 'input ::= a0 U', 'input ::= P a0 Y'] + [f'a{i} ::= A{i} a{i + 1}' for i in range(d)] +
                   [f'a{d} ::= e', f'a{d} ::= f Z', f'a{d} ::= f T', f'a{d} ::= f S', f'a{d} ::= f R', 'e ::= E', 'f ::= E'])
    # lookaheads through nullable tails
    C['tail'] = (['input ::= a0 X', 'input ::= P a0 Y', 'input ::= Q a0'] + [f'a{i} ::= a{i + 1} e{i}' for i in range(d)] + [f'e{i} ::=' for i in range(d)] +
                 [f'e{i} ::= E{i}' for i in range(0, d, 2)] + [f'a{d} ::= g', f'a{d} ::= f Z', f'a{d} ::= f T', 'g ::= G', 'f ::= G'])
    # lookaheads around a cycle of nonterminals
    C['cycle'] = (['input ::= a0 X', 'input ::= Y a1 W'] + [f'a{i} ::= A{i} a{(i + 1) % d}' for i in range(d)] + [f'a{d - 1} ::= e', f'a{d - 2} ::= f Z', f'a{d - 2} ::= f T', f'a{d - 2} ::= f S',
                                                                                                            'e ::= E', 'f ::= E', f'a{d - 2} ::= F e', f'a{d - 1} ::= F f V'])
    out = []
    for k, rules in C.items():
        for o, rs in orders(rules, rng, nrandom):
            out.append(Gram(f'ch_{k}_{o}', '\n'.join(rs)))
    return out


def contexts(rng, name, k=(3, 7), m=(2, 3), sugar=False, tries=4000):
    """the same reductions in many contexts, each with lookaheads of its own: states entered from many places, lookaheads
    that come from terminals, nonterminals, nullable symbols and (sugar) compound and optional symbols"""
    for _ in range(tries):
        K, M = rng.randint(*k), rng.randint(*m)
        lines, tail, cnt = [], [], [0]
        pool = [[] for _ in range(M)]

        def tok(j, fresh=0.7):
            if not pool[j] or rng.random() < fresh:
                cnt[0] += 1
                pool[j].append(f'Q{j}_{cnt[0]}')
            return rng.choice(pool[j][-2:])
        # a token that is a lookahead of another reduction: one lookahead too many is a conflict
        other = lambda j: rng.choice([t for i in range(M) if i != j for t in pool[i]] or ['Z'])
        body = rng.choice(['X', 'X', 'X Y', 'X e', 'y', ''])
        own = rng.random() < 0.3
        for i in range(K):
            pre = rng.choice([f'P{i}', f'P{i}', f'P{i}', f'P{i} P', f'p{i}']) if i or rng.random() < 0.6 else ''
            if pre.startswith('p'):
                tail.append(f'p{i} ::= P{i}' if rng.random() < 0.5 else f'p{i} ::= P P{i}')
            for j in rng.sample(range(M), rng.randint(max(1, M - 1), M)):
                r, f = f'r{j}', f'f{i}_{j}'
                kind = rng.choice(['tok', 'tok', 'nt', 'null', 'chain', 'wnull', 'ntnt', 'left'] + (['alt', 'cls', 'opt', 'ntalt', 'ntcls', 'altopt'] if sugar else []))
                if kind == 'tok':
                    lines.append(f'input ::= {pre} {r} {tok(j)}')
                elif kind == 'nt':
                    lines.append(f'input ::= {pre} {r} {f}')
                    tail += [f'{f} ::= {tok(j)}', f'{f} ::= {tok(j, 1)} {other(j)}']
                elif kind == 'null':
                    lines.append(f'input ::= {pre} {r} {f} {tok(j)}')
                    tail += [f'{f} ::='] + [f'{f} ::= {tok(j, 1)}' for _ in range(rng.choice([1, 1, 2, 5]))]
                elif kind == 'chain':
                    lines.append(f'input ::= {pre} {f} {tok(j)}')
                    tail.append(f'{f} ::= {r}')
                elif kind == 'wnull':
                    lines.append(f'input ::= {pre} {f} {tok(j)}')
                    tail += [f'{f} ::= {r} {f}e', f'{f}e ::=', f'{f}e ::= {tok(j, 1)} {f}e']
                elif kind == 'ntnt':
                    lines.append(f'input ::= {pre} {r} {f}' + rng.choice(['', ' ' + other(j)]))
                    tail += [f'{f} ::= {f}a {tok(j)}'] + [f'{f}a ::= {tok(j, 1)}' for _ in range(rng.choice([1, 1, 2, 5]))] + [f'{f}a ::=']
                elif kind == 'left':
                    lines.append(f'input ::= {pre} {f}')
                    tail += [f'{f} ::= {r}' if rng.random() < 0.3 else f'{f} ::= {r} {tok(j)}', f'{f} ::= {f} {tok(j, 1)}']
                else:
                    ts = list(dict.fromkeys(tok(j, 1) for _ in range(rng.randint(2, 4))))
                    a = '|'.join(ts)
                    if kind == 'cls' or kind == 'ntcls':
                        lines.append(f'%token_class C{i}_{j} {" ".join(ts)}')
                        a = f'C{i}_{j}'
                    if kind in ('alt', 'cls'):
                        lines.append(f'input ::= {pre} {r} {a}' + rng.choice(['', ' ' + other(j)]))
                    elif kind in ('opt', 'altopt'):
                        lines.append(f'input ::= {pre} {r} {ts[0] if kind == "opt" else a}? {tok(j, 1)}')
                    else:
                        lines.append(f'input ::= {pre} {r} {f}')
                        tail.append(f'{f} ::= {a}' + rng.choice(['', ' ' + other(j)]))
                        if rng.random() < 0.3:
                            lines[-1] += ' ' + other(j)
        for j in range(M):
            b = body
            if own and j == 0:
                b = (body + ' W').strip()
            tail.append(f'r{j} ::= {b}')
        if 'e' in body.split():
            tail += ['e ::=', 'e ::= E']
        if 'y' in body.split():
            tail += ['y ::= X', 'y ::= y Y']
        if rng.random() < 0.3:
            lines.append('input ::=')
        rng.shuffle(lines)
        rng.shuffle(tail)
        g = Gram(name, '\n'.join(lines + tail))
        try:
            l = LALR(g)
        except (Conflict, KeyError, AssertionError):
            continue
        if wellformed(g, l) and l.nstates <= 160:
            return g
    raise RuntimeError('no context grammar')


def kernels(rng, name, tries=4000):
    """states whose kernels have many items and differ only in the last (or first, or middle) ones"""
    for _ in range(tries):
        K, n = rng.randint(2, 6), rng.choice([4, 5, 6, 7, 8, 10, 12])
        pre = rng.choice(['X', 'X', 'X Y', 'X e', 'e X', 'y'])
        lines, tail = [], []
        common = rng.sample(range(n), rng.randint(2, n - 2))
        rest = [i for i in range(n) if i not in common]
        for c in range(K):
            k = rng.random()
            S = common[:] if k < 0.7 else rng.sample(range(n), rng.randint(2, n))
            if k < 0.7:
                S += rng.sample(rest, rng.randint(1, 2) if rng.random() < 0.8 else 0)
            S = sorted(set(S))
            via = rng.random() < 0.3
            for i in S:
                q = rng.choice(['', '', f' Q{rng.randint(0, 2)}', f' q{c}'])
                lines.append(f'{"z%d" % c if via else "input"} ::= {"" if via else f"P{c} "}a{i}{q}')
                if q.startswith(' q') and f'q{c} ::=' not in tail:
                    tail += [f'q{c} ::=', f'q{c} ::= R{c}']
            if via:
                lines.append(f'input ::= P{c} z{c}' + rng.choice(['', f' E{c}']))
        lens = rng.random() < 0.3
        empty = rng.random() < 0.4
        for i in range(n):
            k = rng.random()
            if empty and i == n // 2:
                t = ''
            elif k < 0.6:
                t = f'T{i}'
            elif k < 0.8:
                t = f'n{i}'
                tail += [f'n{i} ::= T{i}'] + ([f'n{i} ::= n{i} U{i}'] if rng.random() < 0.5 else [])
            else:
                t = f'T{i} V'
            tail.append(f'a{i} ::= {pre} {"X " if lens and i % 2 else ""}{t}'.strip())
        if 'e' in pre.split():
            tail += ['e ::=', 'e ::= E']
        if pre == 'y':
            tail += ['y ::= X', 'y ::= Y X']
        rng.shuffle(lines)
        if rng.random() < 0.5:
            rng.shuffle(tail)
        if len(set(lines + tail)) < len(lines + tail):
            continue
        g = Gram(name, '\n'.join(['input ::= Zz'] + lines + tail))
        try:
            l = LALR(g)
        except (Conflict, KeyError, AssertionError):
            continue
        if wellformed(g, l) and l.nstates <= 140:
            return g
    raise RuntimeError('no kernel grammar')


def long_rules(rng, n):
    """grammars with rules of 9 to 16 symbols"""
    out = []
    for i in range(n):
        L = rng.randint(9, 16)
        TT = [f'T{j}' for j in range(rng.randint(1, 4))]
        NN = [f'n{j}' for j in range(rng.randint(1, 3))]
        alone = i % 2 == 0
        syms = [rng.choice(TT + ([] if alone else NN)) for _ in range(L)]
        rules = [f'input ::= {" ".join(syms)}', f'input ::= X {" ".join(rng.choice(TT) for _ in range(rng.randint(9, 12)))} Y']
        for nn in NN:
            if nn in syms:
                rules.append(f'{nn} ::= X{nn}')
        g = Gram(f'lr{i}', '\n'.join(rules))
        out.append(g)
    return out
