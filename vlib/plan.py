"""Chooses bounds per grammar: how long inputs can be before the number of
paths passes a limit, and which outcomes exist within the bound."""


def simulate(l, stack, tok, maxdepth=60):
    """stack after tok, or None (error), or 'acc'; grammar semantics only"""
    st = list(stack)
    for _ in range(10000):
        a = l.act[st[-1]][tok]
        if a == 0:
            return None
        if a > 0:
            st.append(a - 1)
            return tuple(st)
        p = l.prods[-a - 1]
        if p.rhs:
            del st[-len(p.rhs):]
        g = l.goto[st[-1]][l.nnum[p.lhs]]
        if g == 32000:
            return 'acc'
        if g == 0:
            return None
        st.append(g - 1)
    return None


def measure(l, limit, nmax):
    """(N, shortest sentence, prefixes): N is the largest length (<= nmax) whose
    viable prefixes number at most limit"""
    level = [(0,)]
    total = 1
    shortest = None
    T = len(l.terms)
    depth = 1
    n = 0
    cnt = [1]
    while True:
        # sentence of length n?
        if shortest is None and any(simulate(l, s, 0) == 'acc' for s in level):
            shortest = n
        if n >= nmax:
            break
        nxt = []
        over = False
        for s in level:
            for t in range(1, T + 1):
                r = simulate(l, s, t)
                if r and r != 'acc':
                    nxt.append(r)
            if total + len(nxt) > limit and n >= 2:
                over = True
                break
        if over or (nxt and max(len(s) for s in nxt) > 36):
            break
        total += len(nxt)
        level = nxt
        n += 1
        cnt.append(len(nxt))
        if not nxt:
            break
    return dict(N=max(n, 2), shortest=shortest, prefixes=total, levels=cnt)
