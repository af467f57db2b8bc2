"""C09: %wildcard"""
from props.fw import FW
from props.fwcheck import harnesses
from props.c20 import DOUBTFUL, doubtful
from props.ctx import ctx_cover
from props.common import need


def check(run):
    q = run.tier == 'quick'
    gs, hs = harnesses(run, q, ['w', 'w', 'fw'], [k for k in FW if '%wildcard' in FW[k]], 90 if q else 350, '09x')
    hs += ctx_cover(run, 24 if q else 120, 'cx', wc=True, fb=lambda i: i % 3 == 0, err=lambda i: i % 5 == 4, kern=lambda i: i % 4 == 1)
    hs += [doubtful(k) for k in DOUBTFUL if k.startswith('wild') and (not run.only or run.only in 'doubt_' + k)]
    run.run(hs)
    need(run, [1, 2], 30)
    return run.finish(
        bounds=dict(grammars=len(hs), token_sequence_length='2..8 (thorough 10), chosen per grammar; for the cx grammars a fixed sequence into every state, then 1 or 2 arbitrary tokens'),
        outside='other grammars; longer inputs',
        explanation='reference LALR(1) machine whose token lookup is: own action, else that of the fallback (and its fallback), else that of the wildcard (never for end of input), else error; '
                    'the generated parser must give the same verdict on every token and run the same actions with the same payloads',
        extra=dict(configs=[dict(name=g.name) for g, _ in gs][:60]))
