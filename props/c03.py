"""C03: action order, bound values and result, against a reference LALR(1) machine in lock step"""
from vlib.hgen import lockstep
from vlib.corpus import CURATED, adequate, long_rules
from props.ctx import big_cover, ctx_cover
from props.common import G, pick, mixed, MIX


def check(run):
    q = run.tier == 'quick'
    gs = pick(run, nrandom=30 if q else 120, limit=300 if q else 4000, nmax=8 if q else 10, rnd=lambda i: dict(maxrhs=(4, 7)[i % 2]))
    mx = pick(run, names=list(CURATED), nrandom=30 if q else 120, limit=250 if q else 3000, nmax=8 if q else 10,
              rnd=lambda i: dict(nnt=(2, 5), maxrhs=(3, 6)[i % 2]))
    mx += [G(g, *((150, 7) if q else (2500, 9))) for g in adequate('behave') if not run.only or run.only in g.name]
    mx += [G(g, 900, 17) for g in long_rules(run.rng, 12 if q else 60) if not run.only or run.only in g.name]
    hs = []
    for x in gs:
        hs.append(lockstep(x.g, x.N, lalr=x.l, reach=reach(x)))
    for x in mx:
        g = mixed(run.rng, x.g, MIX + ['()'])
        g.name = 'mx_' + g.name
        # the bound masks depend on the types: tables again
        from vlib.lalr import LALR
        hs.append(lockstep(g, x.N, lalr=LALR(g), reach=reach(x)))
    # every state of larger grammars, with mixed types
    hs += ctx_cover(run, 16 if q else 100, 'cx', kern=lambda i: i % 3 == 2) + big_cover(run, 10 if q else 60, 'big')
    run.run(hs)
    ns = [x.N for x in gs + mx]
    return run.finish(
        bounds=dict(grammars=len(gs) + len(mx), token_sequence_length=dict(min=min(ns), max=max(ns)), payloads='every token carries an unconstrained 32 bit symbolic payload, checked in every value type'),
        outside='grammars other than the listed and generated ones; token sequences longer than the bound of the grammar',
        explanation='generated parser and reference machine run side by side on the same symbolic tokens and payloads; the event logs (rule, arguments in order) and the result must be equal for every value',
        extra=dict(configs=[dict(name=x.g.name, N=x.N, states=x.l.nstates) for x in gs + mx][:60]))


def reach(x):
    return [2] + ([1] if x.accepts else []) + ([] if x.eps else [3])
