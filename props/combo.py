"""random grammars that use many features at once: precedence, error, fallback, wildcard, optional symbols,
alternatives, classes, rules without code"""
from vlib.corpus import random_gram, random_err_gram, wellformed
from vlib.grammar import Gram
from vlib.lalr import LALR, Conflict
from props.common import MIX
from props.prec import random_ops


def random_combo(rng, name, tries=30000, err=None, maxstates=70, silent=False):
    """silent: also rules that leave no trace in the log (optional symbols, rules without code)"""
    for _ in range(tries):
        k = rng.random()
        use_err = err if err is not None else k < 0.6
        if rng.random() < 0.4:
            g0 = random_ops(rng, name)
            if use_err:
                op = rng.choice(g0.terms)
                extra = rng.choice([['input ::= l', 'l ::= s', 'l ::= l s', 's ::= e Semi', 's ::= error Semi'], ['input ::= s', 's ::= e', 's ::= error Semi e'],
                                    ['input ::= s', 's ::= Bg e Nd', 's ::= Bg error Nd'], ['input ::= e', f'e ::= Bg error Nd'], ['input ::= e', f'e ::= error {op} e']])
                lines = [x for x in g0.text.strip().split('\n') if not x.startswith('input')]
                lines = [x for x in lines if x[0] == '%'] + extra + [x for x in lines if x[0] != '%']
            else:
                lines = g0.text.strip().split('\n')
        elif use_err:
            lines = random_err_gram(rng, name, nt=(3, 5), nnt=(2, 3), null=rng.choice([0.05, 0.2])).text.strip().split('\n')
        else:
            lines = random_gram(rng, name, nt=(3, 5), nnt=(2, 4), null=rng.choice([0.05, 0.2])).text.strip().split('\n')
        try:
            g0 = Gram(name, '\n'.join(lines))
        except Exception:
            continue
        T = list(g0.terms)
        NT = [n for n in g0.nts if n != g0.start_sym]
        if len(T) < 3:
            continue
        used = 0
        if rng.random() < 0.3 and not any(l.startswith('%') for l in lines):
            w = rng.choice(T)
            lines = [__import__('re').sub(rf'\b{w}\b', 'Any', x) for x in lines]
            lines.insert(rng.choice([0, len(lines)]), '%wildcard Any')
            T.remove(w)
            used += 1
        if rng.random() < 0.6 and len(T) >= 3:
            F = T[:]
            rng.shuffle(F)
            f = F.pop()
            n = rng.randint(1, 2)
            lines.append(f'%fallback {f} {" ".join(F[:n] + (["Kx"] if rng.random() < 0.3 else []))}')
            if F[n:] and rng.random() < 0.4:
                lines.append(f'%fallback {F[n]} {f}')
            used += 1
        cl = None
        if rng.random() < 0.4:
            cl = rng.sample(T, rng.randint(2, min(3, len(T))))
        out = []
        usedc = False
        for ln in lines:
            if ln.startswith('%'):
                out.append(ln)
                continue
            lhs, rhs = ln.split('::=')
            items = []
            prec = ''
            for s in rhs.split():
                if s.startswith('['):
                    prec = ' ' + s
                    continue
                r = rng.random()
                if s in T and r < 0.12:
                    x = rng.choice(T)
                    if x != s:
                        s += '|' + x
                        used += 1
                elif s in T and cl and r < 0.3:
                    s = 'Cl'
                    usedc = True
                    used += 1
                if silent and s != 'error' and rng.random() < 0.1:
                    s += '?'
                    used += 1
                items.append(s)
            nocode = ''
            if silent and len(items) == 1 and rng.random() < 0.2 and items[0] not in ('error', 'Any') and not items[0].endswith('?'):
                nocode = ' ;;'
                used += 1
            out.append(f'{lhs.strip()} ::= {" ".join(items)}{prec}{nocode}')
        if usedc:
            out.append(f'%token_class Cl {" ".join(cl)}')
        if used < 2 or len(set(out)) < len(out):
            continue
        try:
            g = Gram(name, '\n'.join(out))
            l = LALR(g)
        except (Conflict, KeyError, AssertionError):
            continue
        if wellformed(g, l) and l.nstates <= maxstates:
            return g
    raise RuntimeError('none')


def combo_types(rng, g):
    """one type for all tokens, others for the nonterminals; rules without code keep equal types"""
    t = rng.choice(MIX[:1] * 2 + [x for x in MIX if x])
    for s in g.terms:
        if s != g.wildcard:
            g.types[s] = t
    tied = set()
    for r in g.rules:
        if r.nocode:
            tied |= {r.lhs} | set(n for it in r.rhs for n in it.names if not n[0].isupper())
    for s in g.nts:
        g.types[s] = t if s in tied else rng.choice(MIX + ['()'])
    if g.uses_error and rng.random() < 0.6:
        g.types['error'] = rng.choice(MIX + ['()'])
    for r in g.rules:
        for it in r.rhs:
            if rng.random() < 0.1:
                it.alias = False
    return g
