"""C12: the expected-token list"""
from vlib.corpus import CURATED, ERRORS, random_gram, random_err_gram
from vlib.grammar import Gram
from vlib.hgen import proto
from vlib.lalr import LALR
from props.combo import random_combo, combo_types
from props.ctx import ctx_cover
from props.common import mixed, ncap, need, some_units
from props.fw import FW, random_fw


def check(run):
    q = run.tier == 'quick'
    gs = [(Gram(k, v), 500 if q else 6000) for k, v in list(CURATED.items()) + list(ERRORS.items())]
    gs += [(Gram(k, v), 500 if q else 6000) for k, v in FW.items()]
    for i in range(40 if q else 150):
        gs.append((random_gram(run.rng, f'r{i}', nt=(2, 6), null=(0.1, 0.3)[i % 2]), 400 if q else 5000))
        gs.append((random_err_gram(run.rng, f'er{i}', nt=(2, 5), nnt=(2, 3)), 400 if q else 5000))
    for i in range(40 if q else 150):
        gs.append((random_fw(run.rng, f'fw{i}'), 400 if q else 5000))
    hs = []
    for i, (g, limit) in enumerate(gs):
        if i % 3 == 2:
            if not g.fallback:
                mixed(run.rng, g)
        elif i % 3 == 1 and not g.fallback:
            some_units(run.rng, g)
        if run.only and run.only not in g.name:
            continue
        hs.append(proto(g, ncap(g, limit), exp=True, lalr=LALR(g)))
    for i in range(60 if q else 300):
        g = combo_types(run.rng, random_combo(run.rng, f'co{i}'))
        if not run.only or run.only in g.name:
            hs.append(proto(g, ncap(g, 400 if q else 5000), exp=True, lalr=LALR(g)))
    # every state of grammars that have the same reductions in many contexts
    hs += ctx_cover(run, 20 if q else 120, 'cx', errmode=True, exp=True, err=lambda i: i % 2 == 0, fb=lambda i: i % 4 == 1, wc=lambda i: i % 4 == 3, kern=lambda i: i % 3 == 1)
    run.run(hs)
    need(run, [1, 2, 3, 5], 20)
    return run.finish(
        bounds=dict(grammars=len(gs), token_sequence_length='3..9 by number of terminals', handler_answers='every combination of Ok and Err'),
        outside='other grammars; longer token sequences; grammars with more than 64 terminals',
        explanation='at every %syntax_error call the handler walks `expected`; the set of names (each once), their numbers and unit values must be exactly the terminals that have an action in the reference machine\'s state',
        extra=dict(configs=[dict(name=g.name) for g, _ in gs][:40]))
