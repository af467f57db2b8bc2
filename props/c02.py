"""C02: error exactly at the first token that is no longer a viable prefix"""
from vlib.corpus import adequate
from vlib.hgen import prefix
from props.ctx import big_cover, ctx_cover
from props.common import G, pick, noprec, cnf_ok


def check(run):
    q = run.tier == 'quick'
    gs = pick(run, nrandom=60 if q else 260, limit=500 if q else 6000, nmax=8 if q else 10,
              pred=lambda g: noprec(g) and cnf_ok(g), rnd=lambda i: dict(need_cnf=True, null=(0.1, 0.35)[i % 2], nnt=(2, 5)))
    lim = (300, 7) if q else (4000, 9)
    gs += [G(g, *lim) for g in adequate('behave') if cnf_ok(g) and (not run.only or run.only in g.name)]
    hs = []
    for x in gs:
        hs.append(prefix(x.g, x.N, reach=[1, 2] + ([3] if x.accepts else []) + ([] if x.eps else [4])))
    # the same reductions in many contexts: every state, against the reference machine
    hs += ctx_cover(run, 24 if q else 120, 'cx', M=1) + ctx_cover(run, 16 if q else 120, 'kx', M=1, kern=True) + big_cover(run, 8 if q else 60, 'big')
    run.run(hs)
    ns = [x.N for x in gs]
    return run.finish(
        bounds=dict(grammars=len(hs), token_sequence_length=dict(min=min(ns), max=max(ns)), tokens='every terminal of the grammar', payloads='arbitrary'),
        outside='grammars other than the listed and generated ones; token sequences longer than the bound of the grammar',
        explanation='after every token the verdict of parse() must equal membership of the prefix in the grammar of viable prefixes, computed by CYK',
        extra=dict(configs=[dict(name=x.g.name, N=x.N, states=x.l.nstates) for x in gs][:40]))
