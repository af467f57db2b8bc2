"""C04: values are dropped exactly once"""
from vlib.corpus import CURATED, ERRORS, random_gram, random_err_gram
from vlib.grammar import Gram
from vlib.hgen import proto
from vlib.lalr import LALR
from props.combo import random_combo, combo_types
from props.common import ncap, need
from props.fw import FW, random_fw


def check(run):
    q = run.tier == 'quick'
    gs = [Gram(k, v) for k, v in list(CURATED.items()) + list(ERRORS.items()) + list(FW.items())]
    for i in range(30 if q else 150):
        gs.append(random_gram(run.rng, f'r{i}', null=(0.1, 0.3)[i % 2]))
        gs.append(random_err_gram(run.rng, f'er{i}', nt=(2, 4), nnt=(2, 3)))
        if i % 2:
            gs.append(random_fw(run.rng, f'fw{i}'))
    for i in range(40 if q else 200):
        gs.append(random_combo(run.rng, f'co{i}'))
    hs = []
    for i, g in enumerate(gs):
        r = run.rng
        for s in g.terms + g.nts:
            if s != g.wildcard:
                g.types[s] = r.choice(['crate::D'] * 4 + [None, 'u32']) if not g.fallback and not g.name.startswith('co') else 'crate::D'
        if g.uses_error:
            g.types['error'] = 'crate::D'
        for x in g.rules:
            for it in x.rhs:
                if r.random() < 0.3:
                    it.alias = False
        l = LALR(g)
        N = ncap(g, 120 if q else 1500)
        if run.only and run.only not in g.name:
            continue
        hs.append(proto(g, N, exp=False, ask=True, fail=0 if any(x.nocode for x in g.rules) else (0, 4)[i % 2], drops=True, lalr=l, limit=(None, None, 4, 0)[i % 4]))
    run.run(hs)
    need(run, [1, 2, 3, 5, 6], 30)
    return run.finish(
        bounds=dict(grammars=len(hs), token_sequence_length='3..9', histories='success, syntax error with every handler answer, failing action, stack overflow, drop of the parser after every prefix'),
        outside='other grammars; longer inputs; panics in user code',
        explanation='every value is an object with a slot; a second drop of a slot, or a slot still alive when parser and result are gone, is an assertion failure; '
                    'the values handed to actions and handlers are compared with the reference machine, so none is lost or duplicated on the way')
