"""C11: recovery with the error symbol, against a reference machine that shares every handler answer"""
from vlib.corpus import ERRORS, random_err_gram
from vlib.grammar import Gram
from vlib.hgen import proto
from vlib.lalr import LALR
from props.combo import random_combo, combo_types
from props.ctx import big_cover, ctx_cover
from props.common import mixed, ncap, MIX, need


def check(run):
    q = run.tier == 'quick'
    gs = [(Gram(k, v), 5000 if q else 30000) for k, v in ERRORS.items()]
    for i in range(110 if q else 400):
        gs.append((random_err_gram(run.rng, f'er{i}', nt=((2, 4), (2, 3))[i % 2], nnt=(2, 3), null=(0.1, 0.3)[i % 2], nerr=(1, 3)), 1000 if q else 9000))
    hs = []
    for i, (g, limit) in enumerate(gs):
        if i % 3 == 1:
            g.types['error'] = 'u32'
        if i % 3 == 2:
            mixed(run.rng, g)
            g.types['error'] = run.rng.choice(MIX)
        if run.only and run.only not in g.name:
            continue
        hs.append(proto(g, ncap(g, limit), exp=False, lalr=LALR(g), omit=(0, 0, 0, 0, 2, 0, 0, 0, 1)[i % 9]))
    # recovery together with everything else
    for i in range(60 if q else 300):
        g = combo_types(run.rng, random_combo(run.rng, f'co{i}', err=True))
        if not run.only or run.only in g.name:
            hs.append(proto(g, ncap(g, 600 if q else 5000), exp=False, lalr=LALR(g)))
    # the same grammar with the recovery running into the stack limit
    for k in ('estmt', 'enest', 'ewhile', 'edeep'):
        for lim in (2, 3, 4):
            if not run.only:
                g = Gram(k, ERRORS[k])
                hs.append(proto(g, ncap(g, 300 if q else 3000), name=f'proto_{k}_l{lim}', limit=lim, exp=False, lalr=LALR(g)))
    # every state of grammars that have the same reductions in many contexts
    hs += big_cover(run, 8 if q else 60, 'big', err=2)
    hs += ctx_cover(run, 20 if q else 120, 'cx', err=True, exp=False, kern=lambda i: i % 3 == 1)
    run.run(hs)
    need(run, [1, 2, 3, 5], 20)
    return run.finish(
        bounds=dict(grammars=len(gs), token_sequence_length='3..9 by number of terminals: every sequence stays live after an error', handler_answers='every combination of Ok and Err', payloads='arbitrary'),
        outside='other grammars; longer token sequences; handlers that panic',
        explanation='the real parser and a reference machine read the same symbolic tokens; the reference follows the documented recovery (pop to the nearest state that can shift error, '
                    'call the handler with the offending token, shift error with its value, skip tokens silently while error is on top, parse_fail otherwise); verdicts, error values, handler calls, actions and values must agree',
        extra=dict(configs=[dict(name=g.name) for g, _ in gs][:40]))
