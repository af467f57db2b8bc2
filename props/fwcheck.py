from vlib.corpus import adequate
from vlib.grammar import Gram
from vlib.hgen import lockstep, proto
from vlib.lalr import LALR
from vlib.plan import measure
from props.common import ncap, need, MIX
from props.fw import FW, random_fw, random_fw_prec


def fb_types(rng, g, i):
    """types allowed by the rule that a fallback has the type of what it replaces, or none"""
    par = {}
    for f, l in g.fallback:
        for t in l:
            par[t] = f
    if i % 3 == 0:
        return g
    comp = {}
    def root(t):
        while t in par:
            t = par[t]
        return t
    pick = {}
    for s in g.terms + g.nts:
        if s == g.wildcard:
            continue
        r = root(s)
        if r not in pick:
            pick[r] = rng.choice(MIX)
        g.types[s] = pick[r]
    # a target may have no type although what it replaces has one
    for f, l in g.fallback:
        if rng.random() < 0.4 and f not in par:
            g.types[f] = None
    for r in g.rules:
        for it in r.rhs:
            if rng.random() < 0.1:
                it.alias = False
    return g


def harnesses(run, q, kinds, names, nrandom, tag):
    gs = [(Gram(k, FW[k]), 900 if q else 9000) for k in names]
    for i in range(nrandom):
        gs.append((random_fw(run.rng, f'{tag}{i}', kind=kinds[i % len(kinds)]), 500 if q else 5000))
        if i % 3 == 0:
            gs.append((random_fw_prec(run.rng, f'{tag}p{i}', kind=kinds[i % len(kinds)]), 500 if q else 5000))
    for g in adequate('behave', '_fw'):
        if ('f' in kinds and g.fallback) or ('w' in kinds and g.wildcard):
            gs.append((g, 300 if q else 4000))
    hs = []
    for i, (g, limit) in enumerate(gs):
        fb_types(run.rng, g, i)
        if run.only and run.only not in g.name:
            continue
        l = LALR(g)
        l.apply_fallback()
        if g.uses_error or i % 4 == 3:
            hs.append(proto(g, ncap(g, limit), name=f'p_{g.name}', exp=True, lalr=l))
            continue
        m = measure(l, limit, 8 if q else 10)
        N = m['N']
        acc = m['shortest'] is not None and m['shortest'] <= N
        hs.append(lockstep(g, N, lalr=l, reach=[1] if acc else []))
    return gs, hs
