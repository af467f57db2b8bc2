"""grammars that use A|B, X?, %token_class and rules without code"""
from vlib.corpus import random_gram, wellformed
from vlib.grammar import Gram
from vlib.lalr import LALR, Conflict

SUGAR = {
    'doc_opt': '''
input ::= LB list? RB
list ::= Num
list ::= list Com:- Num''',
    'optboth': '''
input ::= A? b? C
b ::= B
b ::= b B''',
    'opttwice': '''
input ::= x? P x?
x ::= X
x ::= X x''',
    'alt': '''
%left Plus Minus
%left Times
input ::= e
e ::= e Plus|Minus e
e ::= e Times e
e ::= Num|Id''',
    'altprec': '''
%left Plus
%left Times
%right Pow
input ::= e
e ::= e Plus|Times|Pow e
e ::= N''',
    'altprec2': '''
%left Lo
%nonassoc Cmp
%left Hi
%right U
input ::= e
e ::= e Lo|Hi|Cmp e
e ::= Hi|U e
e ::= N''',
    'altprec3': '''
%left Lo
%left Hi
%left Cat X Y
input ::= e
e ::= e Lo|Cat Hi e
e ::= e X|Lo|Cat
e ::= e Y|Hi P
e ::= N''',
    'cls': '''
%token_class Knum Int Real
%token_class Kval Knum Str
input ::= l
l ::= Kval
l ::= l Com:- Knum
l ::= l Semi:- Kval''',
    'clsoverlap': '''
%token_class Kab A B
%token_class Kbc B C
input ::= l
l ::= Kab
l ::= l X Kbc
l ::= l Y B
l ::= l Z Kab''',
    'clsopt': '''
%token_class Ksign Plus Minus
input ::= l
l ::= n
l ::= l n
n ::= Ksign? Num
n ::= Dot Num|Id? Dot''',
    'fwd': '''
%type Int u32
%type Semi -
%type LP -
%type RP -
input ::= e ;;
e ::= t ;;
e ::= e Semi t
t ::= Int ;;
t ::= LP e RP ;;''',
    'fwdclass': '''
%token_class Knum Int Real
%type Com -
input ::= l ;;
l ::= l2 ;;
l2 ::= Knum ;;
l2 ::= l2 Com Knum''',
    'fwdopt': '''
%type o Option<u32>
%type Semi -
%type Q -
input ::= ss
ss ::= s
ss ::= ss s
s ::= o Semi
o ::= A? Q ;;''',
    'unitopt': '''
%type Comma -
%type Semi -
input ::= l Comma?
l ::= A
l ::= l Semi? A''',
    'wcopt': '''
%wildcard Any
input ::= l
l ::= A Any? Semi
l ::= l B Any|C Semi''',
    'mixedalt': '''
%type A u64
%type B Box<u32>
%type C -
input ::= l
l ::= x
l ::= l x
x ::= A|B:- D
x ::= C A|B|D:- C
x ::= E D? C''',
    'clsindir': '''
%token_class Ka1 Ka2 A
%token_class Ka2 B C
%token_class Ka3 Ka1 D Ka2
input ::= l
l ::= Ka3
l ::= l E Ka1
l ::= l F Ka2''',
    'optalt': '''
input ::= l
l ::= x
l ::= l x
x ::= A B|C? A
x ::= A D
x ::= E ab? C
ab ::= A|B
ab ::= A B B''',
    'optnull': '''
input ::= l
l ::=
l ::= l o? X
o ::= A
o ::= B o''',
}


def random_sugar(rng, name, tries=20000, types=None):
    """a random grammar with shortcuts sprinkled over it; conflict free after expansion"""
    for _ in range(tries):
        g0 = random_gram(rng, name, nt=(3, 5), nnt=(2, 4), null=rng.choice([0.0, 0.1]))
        T, NT = g0.terms, g0.nts[1:]
        lines = []
        used = 0
        classes = []
        if rng.random() < 0.5:
            for i in range(rng.randint(1, 2)):
                pool = T + [c[0] for c in classes]
                classes.append((f'Cl{i}', rng.sample(pool, rng.randint(1, min(3, len(pool))))))
        for ln in g0.text.strip().split('\n'):
            lhs, rhs = ln.split('::=')
            out = []
            for s in rhs.split():
                r = rng.random()
                if s in T and r < 0.2:
                    k = rng.sample(T, rng.randint(1, min(2, len(T) - 1)))
                    if s not in k:
                        s = '|'.join([s] + k)
                        used += 1
                elif s in T and classes and r < 0.4:
                    s = rng.choice(classes)[0]
                    used += 1
                if rng.random() < 0.15:
                    s += '?'
                    used += 1
                out.append(s)
            nocode = ''
            if len(out) == 1 and rng.random() < 0.3 and not out[0].endswith('?'):
                nocode = ' ;;'
                used += 1
            lines.append(f'{lhs.strip()} ::= {" ".join(out)}{nocode}')
        if not used:
            continue
        lines = list(dict.fromkeys(lines))
        used_syms = set(x.rstrip('?') for ln in lines for x in ln.replace('|', ' ').split())
        cl = [c for c in classes if c[0] in used_syms or any(c[0] in d[1] for d in classes)]
        g = Gram(name, '\n'.join(lines + [f'%token_class {c} {" ".join(m)}' for c, m in cl]))
        try:
            l = LALR(g)
        except (Conflict, KeyError, AssertionError):
            continue
        if wellformed(g, l) and l.nstates <= 60:
            return g
    raise RuntimeError('none')


def random_altprec(rng, name, tries=20000):
    """operator grammars whose rules name several tokens of different levels"""
    for _ in range(tries):
        ops = [f'O{i}' for i in range(rng.randint(2, 5))]
        lv, rest = [], ops[:]
        rng.shuffle(rest)
        while rest:
            k = rng.randint(1, 2)
            lv.append(f'%{rng.choice(["left", "left", "right", "nonassoc"])} {" ".join(rest[:k])}')
            rest = rest[k:]
        lines = ['input ::= e', 'e ::= N']
        pool = ops[:]
        rng.shuffle(pool)
        while pool:
            k = rng.randint(1, min(4, len(pool)))
            lines.append(f'e ::= e {"|".join(pool[:k])} e')
            pool = pool[k:]
        if rng.random() < 0.5:
            p = rng.sample(ops + ['U'], rng.randint(1, 2))
            if 'U' in p and rng.random() < 0.5:
                lv.append('%right U')
            lines.append(f'e ::= {"|".join(p)} e')
        if rng.random() < 0.3:
            cs = rng.sample(ops, rng.randint(1, len(ops)))
            lv.append(f'%token_class Cl {" ".join(cs)}')
            lines.append('e ::= LP Cl e RP')
        g = Gram(name, '\n'.join(lv + lines))
        try:
            l = LALR(g)
        except (Conflict, KeyError):
            continue
        if wellformed(g, l):
            return g
    raise RuntimeError('none')


def sugar_types(rng, g, i):
    """value types; classes and compounds with an alias need equal types"""
    from props.common import MIX
    if i % 3 == 0:
        return g
    group = {t: t for t in g.terms + g.nts}
    def find(x):
        while group[x] != x:
            x = group[x]
        return x
    for r in g.rules:
        for it in r.rhs:
            ns = g.item_names(it)
            if it.opt or r.nocode or rng.random() < 0.8:
                for n in ns[1:]:
                    if n in group and ns[0] in group:
                        group[find(n)] = find(ns[0])
        if r.nocode and len(r.rhs) == 1:
            n = g.item_names(r.rhs[0])[0]
            if n in group:
                group[find(n)] = find(r.lhs)
    pick = {}
    for s in g.terms + g.nts:
        if s == g.wildcard or s in g.types:
            continue
        k = find(s)
        if k not in pick:
            pick[k] = rng.choice(MIX)
        g.types[s] = pick[k]
    for r in g.rules:
        for it in r.rhs:
            if rng.random() < 0.1:
                it.alias = False
    return g


def many_sugar(rng, name, kind, n=14):
    """many different optional symbols, alternatives or classes in one grammar"""
    T = [f'T{i}' for i in range(n)]
    lines, cl = ['input ::= l', 'l ::=', 'l ::= l s'], []
    nts = [f'p{i}' for i in range(3)]
    for i, p in enumerate(nts):
        lines += [f'{p} ::= P{i}', f'{p} ::= {p} Q{i}']
    for c in range(6 if kind in ('cls', 'mix') else 0):
        m = rng.sample(T, rng.randint(2, 6)) + ([f'Cl{rng.randrange(c)}'] if c and rng.random() < 0.5 else [])
        rng.shuffle(m)
        cl.append((f'Cl{c}', m))
    flatc = {}
    for c, m in cl:
        flatc[c] = list(dict.fromkeys(y for x in m for y in flatc.get(x, [x])))
    for r in range({'opt': 3, 'alt': 4, 'cls': 4, 'mix': 4}[kind]):
        free = T + nts
        rng.shuffle(free)
        out = [f'D{r}']
        used = set()
        while free and len(out) < {'opt': n, 'alt': 6, 'cls': 5, 'mix': 6}[kind]:
            k = rng.random()
            if kind == 'opt' or kind == 'mix' and k < 0.4:
                out.append(free.pop() + ('?' if rng.random() < 0.9 else ''))
            elif kind == 'alt' or kind == 'mix' and k < 0.7:
                g = [x for x in free if x[0] == 'T'][:rng.randint(2, 7)]
                if not g:
                    break
                free = [x for x in free if x not in g]
                out.append('|'.join(g) + ('?' if rng.random() < 0.3 else ''))
            else:
                c = rng.choice(cl)[0]
                if not set(flatc[c]) & used:
                    free = [x for x in free if x not in flatc[c]]
                    used |= set(flatc[c])
                    out.append(c + ('?' if rng.random() < 0.3 else ''))
                elif rng.random() < 0.3:
                    break
            used |= set(y for x in out for y in x.rstrip('?').split('|'))
        lines.append('s ::= ' + ' '.join(out) + f' E{r}')
    words = ' '.join(x for x in lines if x[0] == 's').replace('?', ' ').split()
    lines = [x for x in lines if x.split()[0] not in nts or x.split()[0] in words]
    usedc = [c for c, _ in cl if any(c in x.replace('?', ' ').split() for x in lines)]
    need = set(usedc)
    for c, m in reversed(cl):
        if c in need:
            need |= set(m)
    return Gram(name, '\n'.join(lines + [f'%token_class {c} {" ".join(m)}' for c, m in cl if c in need]))
