"""C17: an error from an action ends the parse with that error"""
from vlib.corpus import CURATED, ERRORS, random_gram, random_err_gram
from vlib.grammar import Gram
from vlib.hgen import proto
from vlib.lalr import LALR
from vlib.plan import measure
from props.common import mixed, ncap, need
from props.fw import FW, random_fw


def check(run):
    q = run.tier == 'quick'
    gs = [Gram(k, v) for k, v in list(CURATED.items()) + list(ERRORS.items()) + list(FW.items())]
    for i in range(40 if q else 200):
        gs.append(random_gram(run.rng, f'r{i}', null=(0.1, 0.3)[i % 2]))
        if i % 2:
            gs.append(random_err_gram(run.rng, f'er{i}', nt=(2, 4), nnt=(2, 3)))
        else:
            gs.append(random_fw(run.rng, f'fw{i}'))
    hs = []
    for i, g in enumerate(gs):
        if i % 3 == 2 and not g.fallback:
            mixed(run.rng, g)
        if g.uses_error and i % 2:
            g.types['error'] = 'u32'
        l = LALR(g)
        lim = 250 if q else 3000
        if g.uses_error or i % 2:
            N, ask = ncap(g, lim), True
        else:
            N, ask = min(measure(l, lim, 8)['N'], ncap(g, 40 * lim)), False
        if run.only and run.only not in g.name:
            continue
        hs.append(proto(g, N, exp=False, ask=ask, fail=(5, 8)[not ask], lalr=l, limit=5 if i % 7 == 6 else None, omit=(0, 0, 0, 6, 0, 0, 0, 7)[i % 8],
                        labels={3: 'another error value than the one the action returned', 7: 'another error value than the one the action returned'}))
    run.run(hs)
    need(run, [1, 2, 5], 30)
    return run.finish(
        bounds=dict(grammars=len(hs), failing_action='every choice of the n-th action call, n <= 5 or 8, or none', token_sequence_length='3..9'),
        outside='other grammars; longer inputs; actions that panic',
        explanation='which action call fails is a symbolic choice; half of the actions fail by `?`, half by `return Err`; the call that triggered it must return exactly that value and no further action or handler runs')
