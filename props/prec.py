"""random grammars whose conflicts are settled by precedence"""
from vlib.corpus import wellformed
from vlib.grammar import Gram
from vlib.lalr import LALR, Conflict

CUR = {
    'dangling': '''
%nonassoc Then
%nonassoc Else
input ::= s
s ::= If s [Then]
s ::= If s Else s
s ::= X''',
    'unary': '''
%left Plus Minus
%left Times
%right Not
input ::= e
e ::= e Plus e
e ::= e Minus e
e ::= e Times e
e ::= Minus e [Not]
e ::= N''',
    'cast': '''
%left Or
%nonassoc Eq Ne
%left Plus
%right Pow
input ::= e
e ::= e Or e
e ::= e Eq e
e ::= e Ne e
e ::= e Plus e
e ::= e Pow e
e ::= N''',
    'concat': '''
%left Bar
%left Cat
%left Sub
%nonassoc N LP
%nonassoc Star
input ::= r
r ::= r Bar r
r ::= r r [Cat]
r ::= r Star
r ::= N''',
    'tern': '''
%right Q Col
%left Or
%left Dot
input ::= e
e ::= e Q e Col e
e ::= e Or e
e ::= e Dot N
e ::= N''',
    'rr': '''
%left Lo
%left Hi
input ::= A x P
input ::= A y P
input ::= B x S
input ::= B y R
x ::= Q [Lo]
y ::= Q [Hi]
x ::= W''',
    'rr2': '''
%left Hi2
%right Top
input ::= x A
input ::= y A
input ::= x B
x ::= C Hi2
y ::= C Hi2 [Top]''',
    'leftmost': '''
%left Lo
%left Mid
%left Hi
input ::= e
e ::= e Hi e Lo e
e ::= e Mid e
e ::= N''',
    'postfix2': '''
%left Plus
%nonassoc Bang
%right Hat
input ::= e
e ::= e Plus e
e ::= e Bang
e ::= e Hat e
e ::= Hat e [Bang]
e ::= N''',
    'lowprefix': '''
%right Let
%left Plus
%left Times
input ::= e
e ::= Let e
e ::= e Plus e
e ::= e Times e
e ::= N''',
    'nanested': '''
%nonassoc Lt
%nonassoc Eq
%left Plus
input ::= e
e ::= e Lt e
e ::= e Eq e
e ::= e Plus e
e ::= LP:- e RP:-
e ::= N''',
}


def random_ops(rng, name, tries=2000, raw=False):
    """operator grammars: binary, prefix, postfix, mixfix, with overrides"""
    for _ in range(tries):
        nlev = rng.randint(1, 4)
        nops = rng.randint(2, 4)
        ops = [f'O{i}' for i in range(nops)]
        lv = [[] for _ in range(nlev)]
        for o in ops:
            rng.choice(lv).append(o)
        ghosts = [f'G{i}' for i in range(rng.randint(0, 2))]
        for gname in ghosts:
            lv.insert(rng.randint(0, len(lv)), [gname])
        lv = [x for x in lv if x]
        prec = [f'%{rng.choice(["left", "right", "nonassoc", "left"])} {" ".join(x)}' for x in lv]
        lines = ['input ::= e', 'e ::= N']
        for o in ops:
            k = rng.choice(['bin'] * 4 + ['pre', 'post', 'both', 'mix'])
            if k in ('bin', 'both'):
                lines.append(f'e ::= e {o} e')
            if k in ('pre', 'both'):
                lines.append(f'e ::= {o} e')
            if k == 'post':
                lines.append(f'e ::= e {o}')
            if k == 'mix':
                o2 = rng.choice(ops)
                lines.append(f'e ::= e {o} e {o2} e')
        lines = list(dict.fromkeys(lines))
        for i in range(2, len(lines)):
            if rng.random() < 0.3:
                lines[i] += f' [{rng.choice(ops + ghosts)}]'
        if rng.random() < 0.3:
            lines.append('e ::= LP:- e RP:-')
        body = lines[:]
        if rng.random() < 0.5:
            head, tail = body[0], body[1:]
            rng.shuffle(tail)
            body = [head] + tail
        g = Gram(name, '\n'.join(prec + body))
        if raw:
            return g
        try:
            l = LALR(g)
        except (Conflict, KeyError):
            continue
        if not l.resolved or not wellformed(g, l):
            continue
        return g
    raise RuntimeError('none')


def random_prec(rng, name, tries=20000, raw=False):
    """arbitrary ambiguous grammars, every conflict settled by random precedences"""
    for _ in range(tries):
        NT = [f'n{i}' for i in range(rng.randint(1, 3))]
        TT = [f'T{i}' for i in range(rng.randint(2, 4))]
        lines = [f'start ::= {rng.choice(NT)}']
        for n in NT:
            seen = set()
            for _ in range(rng.randint(1, 4)):
                rhs = tuple(rng.choice(NT + TT + TT) for _ in range(rng.randint(1, 4)))
                if rhs in seen or rhs == (n,):
                    continue
                seen.add(rhs)
                o = f' [{rng.choice(TT)}]' if rng.random() < 0.25 else ''
                lines.append(f'{n} ::= {" ".join(rhs)}{o}')
        ts = TT[:]
        rng.shuffle(ts)
        prec = []
        while ts:
            k = min(len(ts), rng.randint(1, 2))
            prec.append(f'%{rng.choice(["left", "right", "nonassoc"])} {" ".join(ts[:k])}')
            ts = ts[k:]
        g = Gram(name, '\n'.join(prec + lines))
        if len(g.nts) < len(NT) + 1:
            continue
        if raw:
            return g
        try:
            l = LALR(g)
        except (Conflict, KeyError):
            continue
        if l.resolved < 2 or not wellformed(g, l):
            continue
        return g
    raise RuntimeError('none')


def random_multi(rng, name, tries=5000, raw=False):
    """states in which several rules (and a shift) compete for one token"""
    for _ in range(tries):
        k, m = rng.randint(2, 4), rng.randint(1, 3)
        S = [f'S{i}' for i in range(m)]
        Q = [f'Q{i}' for i in range(k)]
        ks = Q + S
        rng.shuffle(ks)
        prec = []
        while ks:
            c = rng.randint(1, 3)
            prec.append(f'%{rng.choice(["left", "right", "nonassoc"])} {" ".join(ks[:c])}')
            ks = ks[c:]
        lines = []
        for i in range(k):
            body = rng.choice(['T', 'T', 'T U', 'u', 'T u']) if rng.random() < 0.3 else 'T U'
            lines.append(f'n{i} ::= {body} [{rng.choice(Q + S)}]')
            for x in rng.sample(S + [f'V{i}'], rng.randint(1, m + 1)):
                lines.append(f's ::= n{i} {x}')
            if rng.random() < 0.3:
                lines.append(f's ::= n{i} s')
            lines.append(f's ::= n{i} W{i}')
        for x in S:
            if rng.random() < 0.6:
                lines.append(f's ::= T U {x}' + (' Z' if rng.random() < 0.7 else ''))
        if any(' u' in x for x in lines):
            lines.append('u ::= U')
        lines = list(dict.fromkeys(lines))
        rng.shuffle(lines)
        g = Gram(name, '\n'.join(prec + ['input ::= s'] + lines))
        if raw:
            return g
        try:
            l = LALR(g)
        except (Conflict, KeyError):
            continue
        if not l.manyway or not wellformed(g, l):
            continue
        return g
    raise RuntimeError('none')
