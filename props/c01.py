"""C01: accepted language == derivable sentences, decided by CYK over symbolic token sequences"""
import random
from vlib.corpus import adequate, chains
from vlib.hgen import member, statecover
from vlib.lalr import LALR
from props.ctx import big_cover, ctx_cover
from props.common import pick, noprec, cnf_ok


def check(run):
    q = run.tier == 'quick'
    gs = pick(run, nrandom=60 if q else 260, limit=500 if q else 6000, nmax=8 if q else 10,
              pred=lambda g: noprec(g) and cnf_ok(g), rnd=lambda i: dict(need_cnf=True, null=(0.1, 0.3)[i % 2]))
    hs = []
    for x in gs:
        hs.append(member(x.g, x.N, reach=[1] + ([2] if x.accepts else []) + ([] if x.eps else [3])))
    # grammars that need every part of the construction: every state, two more tokens
    ad = [g for g in adequate('behave') + adequate('accept') + chains(random.Random(7), 5 if q else 9, 1 if q else 4) if not run.only or run.only in g.name]
    for g in ad:
        hs.append(statecover(g, f'states_{g.name}', M=2 if q else 4, lalr=LALR(g)))
    # the same reductions in many contexts
    cx = ctx_cover(run, 24 if q else 120, 'cx') + ctx_cover(run, 20 if q else 120, 'kx', kern=True) + big_cover(run, 10 if q else 60, 'big')
    hs += cx
    run.run(hs)
    ns = [x.N for x in gs]
    return run.finish(
        bounds=dict(grammars=len(gs) + len(ad) + len(cx), state_covered=len(ad) + len(cx), token_sequence_length=dict(min=min(ns), max=max(ns)), tokens='every terminal of the grammar', payloads='arbitrary'),
        outside='grammars other than the listed and generated ones; token sequences longer than the bound of the grammar',
        explanation='the generated parser (LLVM IR of the expansion of pomelo! on the current tree) runs on a symbolic token sequence; '
                    'acceptance must equal CYK membership in an independently derived Chomsky normal form',
        extra=dict(configs=[dict(name=x.g.name, N=x.N, states=x.l.nstates) for x in gs][:40]))
