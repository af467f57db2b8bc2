"""grammars with %fallback and %wildcard (and precedence)"""
from vlib.grammar import Gram
from vlib.lalr import LALR, Conflict
from vlib.corpus import random_gram, wellformed

FW = {
    'fb': '''
%fallback Id If Then
input ::= ss
ss ::= s
ss ::= ss s
s ::= If Id Then Id Semi
s ::= Id Semi''',
    'fbchain': '''
%fallback Z Y
%fallback Y X
input ::= l
l ::= i
l ::= l i
i ::= Z A
i ::= Y B
i ::= X C''',
    'wc': '''
%wildcard Any
input ::= l
l ::= e
l ::= l e
e ::= LP b RP
b ::=
b ::= b Any''',
    'wc2': '''
%wildcard Any
input ::= l
l ::=
l ::= l x
x ::= A B
x ::= A Any C
x ::= D Any''',
    'fbwc': '''
%fallback Id Kw
%wildcard Any
input ::= l
l ::= x
l ::= l x
x ::= Id Semi
x ::= Kw Kw Semi
x ::= Hash Any Semi''',
    'wcreduce': '''
%wildcard Any
input ::= s
s ::= A x Any
s ::= A y B
s ::= A D C
x ::= D
y ::= D''',
    'fbna': '''
%nonassoc Lt Gt
%left Plus
%fallback Id Kw
input ::= e
e ::= e Lt e
e ::= e Gt e
e ::= e Plus e
e ::= Id
e ::= Kw Id''',
    'fbop': '''
%left Or
%left And
%fallback Id And
input ::= e
e ::= e Or e
e ::= e And e
e ::= Id''',
    'wcna': '''
%nonassoc Lt
%wildcard Any
input ::= l
l ::= x
l ::= l Semi x
x ::= e
x ::= e Bang Any
e ::= e Lt e
e ::= Id''',
    'wctail': '''
%wildcard Any
input ::= h t
h ::= A
h ::= A B
t ::= Any
t ::= Any t''',
    'fbself': '''
%fallback A B C
input ::= l
l ::= A
l ::= l B A
l ::= l C C''',
    'fberr': '''
%fallback Id If
input ::= ss
ss ::= s
ss ::= ss s
s ::= If Id Semi
s ::= Id Semi
s ::= error Semi''',
    'wcerr': '''
%wildcard Any
input ::= ss
ss ::= s
ss ::= ss s
s ::= A Any Semi
s ::= B error Semi''',
}


def random_fw(rng, name, tries=3000, kind=None, **kw):
    """a random grammar with fallbacks and/or a wildcard; some tokens occur only as fallbacks"""
    for _ in range(tries):
        k = kind or rng.choice(['f', 'w', 'fw'])
        g0 = random_gram(rng, name, **dict(dict(nt=(3, 5), nnt=(2, 3), null=rng.choice([0.05, 0.2])), **kw))
        lines = g0.text.strip().split('\n')
        T = list(g0.terms)
        if 'w' in k:
            w = rng.choice(T)
            lines = [__import__('re').sub(rf'\b{w}\b', 'Any', x) for x in lines]
            lines.insert(rng.choice([0, len(lines)]), '%wildcard Any')
            T.remove(w)
        if 'f' in k:
            if len(T) < 2:
                continue
            F = T[:]
            rng.shuffle(F)
            f = F.pop()
            n = rng.randint(1, max(1, len(F) - 1))
            to = F[:n] + (['Kx'] if rng.random() < 0.5 else [])
            lines.append(f'%fallback {f} {" ".join(to)}')
            rest = F[n:]
            if rest and rng.random() < 0.6:
                # a chain: f itself falls back to something else
                lines.append(f'%fallback {rest[0]} {f}')
        g = Gram(name, '\n'.join(lines))
        try:
            l = LALR(g)
        except (Conflict, KeyError):
            continue
        if wellformed(g, l):
            return g
    raise RuntimeError('no random grammar')


def random_fw_prec(rng, name, tries=20000, kind=None):
    """operator grammars with precedence in which tokens also fall back or match a wildcard"""
    from props.prec import random_ops
    for _ in range(tries):
        k = kind or rng.choice(['f', 'w', 'fw'])
        g0 = random_ops(rng, name)
        lines = g0.text.strip().split('\n')
        T = [t for t in g0.terms]
        if 'w' in k:
            lines.insert(rng.choice([0, len(lines)]), '%wildcard Any')
            x = rng.choice(['e ::= Any', 'e ::= H Any', 'e ::= e H Any', 'e ::= H Any e H'])
            lines.append(x)
        if 'f' in k:
            a, b = rng.sample(T, 2)
            lines.append(f'%fallback {a} {b}')
            if rng.random() < 0.4:
                c = rng.choice([t for t in T if t not in (a, b)] or ['Kx'])
                lines.append(f'%fallback {b} {c}')
        g = Gram(name, '\n'.join(lines))
        try:
            l = LALR(g)
        except (Conflict, KeyError):
            continue
        if wellformed(g, l):
            return g
    raise RuntimeError('none')
