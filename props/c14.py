"""C14: A|B, X?, %token_class, rules without code"""
from vlib.grammar import Gram
from vlib.hgen import lockstep, statecovers
from vlib.lalr import LALR
from vlib.plan import measure
from props.combo import random_combo, combo_types
from props.c20 import DOUBTFUL, doubtful
from props.ctx import ctx_cover
from props.common import need
from props.sugar import SUGAR, random_sugar, random_altprec, sugar_types, many_sugar


def check(run):
    q = run.tier == 'quick'
    gs = [(Gram(k, v), 900 if q else 9000) for k, v in SUGAR.items()]
    for i in range(90 if q else 350):
        gs.append((random_sugar(run.rng, f'su{i}'), 500 if q else 5000))
    for i in range(25 if q else 100):
        gs.append((random_altprec(run.rng, f'ap{i}'), 500 if q else 5000))
    hs = []
    for i, (g, limit) in enumerate(gs):
        if not g.types:
            sugar_types(run.rng, g, i)
        if run.only and run.only not in g.name:
            continue
        l = LALR(g)
        if g.wildcard:
            l.apply_fallback()
        m = measure(l, limit, 8 if q else 10)
        acc = m['shortest'] is not None and m['shortest'] <= m['N']
        hs.append(lockstep(g, m['N'], name=f'sugar_{g.name}', lalr=l, reach=[1] if acc else []))
    # together with precedence, fallback and wildcard
    for i in range(40 if q else 200):
        g = combo_types(run.rng, random_combo(run.rng, f'co{i}', err=False, silent=True))
        if not run.only or run.only in g.name:
            l = LALR(g)
            if g.fallback or g.wildcard:
                l.apply_fallback()
            m = measure(l, 500 if q else 5000, 8)
            acc = m['shortest'] is not None and m['shortest'] <= m['N']
            hs.append(lockstep(g, m['N'], name=f'sugar_{g.name}', lalr=l, reach=[1] if acc else []))
    # many different shortcuts in one grammar: every state, any next token
    for i in range(8 if q else 40):
        g = many_sugar(run.rng, f'many{i}', ('opt', 'alt', 'cls', 'mix')[i % 4], n=14 if i < 4 else run.rng.randint(8, 20))
        if i >= 4:
            sugar_types(run.rng, g, 1)
        if not run.only or run.only in g.name:
            l = LALR(g)
            hs += statecovers(g, 'sugar_' + g.name, lalr=l, most=3)
    # compound and optional symbols where they decide reductions: every state
    hs += ctx_cover(run, 30 if q else 150, 'sugar_cx', sugar=True, wc=lambda i: i % 6 == 5, fb=lambda i: i % 6 == 4)
    # not accepted; if they were, they must work
    hs += [doubtful(k) for k in DOUBTFUL if k.startswith(('mix', 'cls', 'nocode')) and (not run.only or run.only in 'doubt_' + k)]
    run.run(hs)
    need(run, [1, 2], 30)
    return run.finish(
        bounds=dict(grammars=len(hs), token_sequence_length='2..8 (thorough 10), chosen per grammar'), outside='other grammars; longer inputs',
        explanation='the reference machine is built from the documented expansion (one rule per alternative or class member, a fresh nonterminal yielding Some/None per optional symbol, forwarding rules); '
                    'verdicts, actions, values and result must agree',
        extra=dict(configs=[dict(name=g.name) for g, _ in gs][:60]))
