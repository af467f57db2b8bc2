"""C10: %syntax_error without an error symbol: calls, window of three tokens, discarded token, end of input"""
from vlib.corpus import CURATED, random_gram
from vlib.grammar import Gram
from vlib.hgen import proto
from vlib.lalr import LALR
from props.ctx import ctx_cover
from props.common import mixed, ncap, need, some_units

SMALL = {
    'ab': '''
input ::= l
l ::=
l ::= l A
l ::= l B A''',
    'seq': '''
input ::= x
x ::= A x
x ::= A B x
x ::= B''',
    'pair': '''
input ::= p
p ::= A q A
p ::= p B
q ::=
q ::= B q''',
    'opt3': '''
input ::= a
a ::= a b C
a ::= C
b ::=
b ::= A''',
}


def check(run):
    q = run.tier == 'quick'
    gs = [(Gram(k, v), 8000 if q else 60000) for k, v in SMALL.items()]
    gs += [(Gram(k, v), 1500 if q else 15000) for k, v in CURATED.items()]
    for i in range(90 if q else 300):
        gs.append((random_gram(run.rng, f'r{i}', nt=((2, 3), (2, 4))[i % 2], null=(0.1, 0.3)[i % 2]), 1200 if q else 9000))
    hs = []
    for i, (g, limit) in enumerate(gs):
        if i % 3 == 2:
            mixed(run.rng, g)
        elif i % 3 == 1:
            some_units(run.rng, g)
        if i % 5 == 3:
            g.types['error'] = 'u32'    # a type alone does not make the grammar use the symbol
        if run.only and run.only not in g.name:
            continue
        h = proto(g, ncap(g, limit), exp=False, lalr=LALR(g), omit=(0, 0, 0, 2, 0, 0, 0, 1)[i % 8])
        hs.append(h)
    # every state of grammars that have the same reductions in many contexts
    hs += ctx_cover(run, 20 if q else 120, 'cx', errmode=True, exp=False, kern=lambda i: i % 3 == 1)
    run.run(hs)
    need(run, [1, 2, 3, 4, 5], 20)
    return run.finish(
        bounds=dict(grammars=len(gs), token_sequence_length='3..9 by number of terminals', handler_answers='every combination of Ok and Err', payloads='arbitrary'),
        outside='other grammars; longer token sequences; handlers that panic',
        explanation='real parser and reference machine side by side on symbolic tokens with symbolic handler answers: when %syntax_error is called, with which token, the silent window of three shifted tokens, '
                    'that the token is discarded and parsing resumes with the next, and %parse_fail at end of input',
        extra=dict(configs=[dict(name=g.name) for g, _ in gs][:40]))
