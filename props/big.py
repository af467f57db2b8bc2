"""large grammars: many tokens, nonterminals, rules, states"""
from vlib.grammar import Gram
from vlib.lalr import LALR, Conflict
from vlib.corpus import wellformed


def lang(rng, name, nnt=12, nt=20, rules=(2, 5), rhs=(1, 5), null=0.15, lists=3, typed=True, err=0):
    """a statement-language like grammar: most alternatives of a nonterminal start with different
    tokens; separated lists; some nullable nonterminals. Alternatives that conflict are left out."""
    T = [f'T{i}' for i in range(nt)]
    N = [f'n{i}' for i in range(nnt)]
    L = [f'l{i}' for i in range(lists)]
    lines = []
    order = N[:]
    for i, n in enumerate(N):
        firsts = rng.sample(T, min(nt, rng.randint(*rules)))
        mine = []
        nxt = N[i + 1:i + 4] or [N[0]]
        for j, f in enumerate(firsts):
            r = [f]
            for _ in range(rng.randint(*rhs) - 1):
                r.append(rng.choice(T + T + N + L + nxt * 3) if lists else rng.choice(T + N + nxt))
            if j == 0 and i + 1 < nnt:
                r.insert(rng.randint(1, len(r)), N[i + 1])     # everything is reachable
            mine.append(f'{n} ::= ' + ' '.join(r))
        if rng.random() < 0.3:
            mine.append(f'{n} ::= {n} {rng.choice(T)} ' + rng.choice(T + N))
        if rng.random() < null:
            mine.append(f'{n} ::=')
        lines += mine
    for i, x in enumerate(L):
        n = rng.choice(N)
        k = rng.randint(0, 3)
        sep = rng.choice(T)
        lines += {0: [f'{x} ::=', f'{x} ::= {x} {n}'], 1: [f'{x} ::= {n}', f'{x} ::= {x} {sep} {n}'],
                  2: [f'{x} ::= {n}', f'{x} ::= {n} {sep} {x}'], 3: [f'{x} ::=', f'{x} ::= {x} {sep} {n}']}[k]
    if err:
        for _ in range(err):
            lines.append(f'{rng.choice(N)} ::= {rng.choice(["", rng.choice(T) + " "])}error {rng.choice(T)}')
    lines = list(dict.fromkeys(lines))
    return 'input ::= n0\n' + '\n'.join(lines)


def settle(name, text, rng, tries=60):
    """drop the rules that take part in conflicts until none is left; None if the rest is not well formed"""
    head, *lines = text.split('\n')
    for _ in range(tries):
        # only reachable nonterminals
        while True:
            lhs = set(x.split()[0] for x in lines)
            reach, work = set(), ['n0']
            while work:
                n = work.pop()
                if n in reach:
                    continue
                reach.add(n)
                for x in lines:
                    w = x.split()
                    if w[0] == n:
                        work += [y for y in w[2:] if y[0].islower() and y != 'error']
            keep = [x for x in lines if x.split()[0] in reach and all(y in lhs or y[0].isupper() or y == 'error' for y in x.split()[2:])]
            if keep == lines:
                break
            lines = keep
        if 'n0' not in set(x.split()[0] for x in lines):
            return None
        g = Gram(name, '\n'.join([head] + lines))
        l = LALR(g, allow_conflicts=True)
        if not l.conflicts:
            return (g, l) if wellformed(g, l) else None
        bad = set()
        for c in l.conflicts[:40]:
            for x in c[2:]:
                if isinstance(x, tuple) and x[0] == 'r' and l.prods[x[1]].rid:
                    bad.add(l.prods[x[1]].rid - 1)
        if not bad:
            return None
        b = sorted(bad)
        kill = set(rng.sample(b, max(1, len(b) // 3)))
        lines = [x for i, x in enumerate(lines) if i not in kill]
    return None


def big(rng, name, states=(60, 400), **kw):
    for _ in range(200):
        r = settle(name, lang(rng, name, **kw), rng)
        if r and states[0] <= r[1].nstates <= states[1] and len(r[0].nts) > 3:
            return r
    raise RuntimeError('no large grammar')
