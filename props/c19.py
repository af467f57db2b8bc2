"""C19: %default_type"""
from vlib.corpus import CURATED, ERRORS, random_gram, random_err_gram
from vlib.grammar import Gram
from vlib.hgen import lockstep, proto
from vlib.lalr import LALR
from vlib.plan import measure
from props.common import MIX, ncap, need
from props.fw import FW, random_fw
from props.sugar import SUGAR, random_sugar


def defaulted(rng, g, i):
    """write the grammar with %default_type; every type left out is that one"""
    T = [t for t in MIX if t] + ['()']
    d = rng.choice(T)
    g.default_type = d
    g.raw.append(f'%default_type {d};')
    # symbols that must have equal types: classes, compounds, forwarding, fallbacks
    group = {}
    def find(x):
        group.setdefault(x, x)
        while group[x] != x:
            x = group[x]
        return x
    for r in g.rules:
        for it in r.rhs:
            ns = g.item_names(it)
            for n in ns[1:]:
                group[find(n)] = find(ns[0])
        if r.nocode:
            for it in r.rhs:
                group[find(g.item_names(it)[0])] = find(r.lhs)
    for f, l in g.fallback:
        for t in l:
            group[find(t)] = find(f)
    explicit = {}
    for s in g.terms + g.nts + (['error'] if g.uses_error else []):
        if s == g.wildcard:
            continue
        k = find(s)
        if k not in explicit:
            explicit[k] = rng.choice([None, None, True, 'same'])
        e = explicit[k]
        if e is True:
            explicit[k] = e = rng.choice(T)
        if e is None:
            g.types[s] = d
            g.omit.add(s)
        elif e == 'same':
            g.types[s] = d
            if rng.random() < 0.5:
                g.omit.add(s)
        else:
            g.types[s] = e
    for r in g.rules:
        for it in r.rhs:
            if rng.random() < 0.1:
                it.alias = False
    return g


def ok(g):
    """forwarding needs exactly one typed symbol; under a default type everything is typed"""
    return all(len(r.rhs) == 1 for r in g.rules if r.nocode)


def check(run):
    q = run.tier == 'quick'
    gs = [Gram(k, v) for k, v in list(CURATED.items()) + list(ERRORS.items()) + list(FW.items())]
    gs += [g for g in (Gram(k, v) for k, v in SUGAR.items()) if not g.types and ok(g)]
    for i in range(25 if q else 110):
        gs.append(random_gram(run.rng, f'r{i}', null=(0.1, 0.3)[i % 2]))
        gs.append(random_fw(run.rng, f'fw{i}'))
        gs.append(random_sugar(run.rng, f'su{i}'))
        gs.append(random_err_gram(run.rng, f'er{i}', nt=(2, 4), nnt=(2, 3)))
    hs = []
    for i, g in enumerate(gs):
        if not ok(g):
            continue
        defaulted(run.rng, g, i)
        if run.only and run.only not in g.name:
            continue
        l = LALR(g)
        if g.fallback or g.wildcard:
            l.apply_fallback()
        if g.uses_error:
            hs.append(proto(g, ncap(g, 250 if q else 3000), name=f'def_{g.name}', exp=True, lalr=l))
            continue
        m = measure(l, 250 if q else 3000, 8)
        acc = m['shortest'] is not None and m['shortest'] <= m['N']
        hs.append(lockstep(g, m['N'], name=f'def_{g.name}', lalr=l, reach=[1] if acc else []))
    run.run(hs)
    need(run, [1, 2], 30)
    return run.finish(
        bounds=dict(grammars=len(hs), token_sequence_length='2..8, chosen per grammar'), outside='other grammars; longer inputs; %default_type next to %extra_token',
        explanation='types are left out and supplied by %default_type; the reference machine is built from the grammar with every type written out, and the harness passes and reads every value at that type, '
                    'so a symbol with another type does not even compile',
        extra=dict(configs=[dict(name=g.name, default=g.default_type) for g in gs][:60]))
