"""C22: directives left out mean their documented defaults"""
from vlib.corpus import CURATED, ERRORS, random_gram, random_err_gram
from vlib.grammar import Gram
from vlib.hgen import proto, pay_fn, flat
from vlib.lalr import LALR
from vlib.plan import measure
from vlib.runner import Harness, Entry
from props.c13 import DEEP, deep
from props.combo import random_combo, combo_types
from props.common import mixed, ncap, need


def bare(g, N, name, rng):
    """no %module, %token, %parser, %error, %start_symbol, handlers or %stack_size at all: the error type is (),
    every error ends the parse, the limit is 100, the module is `parser` and its Token and Parser are public"""
    l = LALR(g)
    if g.fallback or g.wildcard:
        l.apply_fallback()
    body = g.rust('parser', 0, token_attr='')
    body = body.replace('%module parser;\n', '').replace('%token  pub enum Token {};', '')
    assert '%token ' not in body and '%module' not in body
    typed = g.type_of(g.start_sym) is not None
    pair = 's_assert(v == (), 4);' if not typed else 's_assert(cv(v) == r.result, 4);'
    src = l.rust('TAB') + body + g.tok_fn('parser', 'tok') + pay_fn(g, 'pay', 'v') + f'''
const N: usize = {N};
#[unsafe(no_mangle)] pub fn h_bare() {{
    reset();
    let n = s_range(N as u32 + 1) as usize;
    let mut p: parser::Parser = parser::Parser::new();
    let mut r = Ref::new();
    let mut i = 0;
    while i < N {{
        if i >= n {{ break; }}
        let k = s_range({len(g.terms)});
        let v = pay(k);
        let want = r.feed(&TAB, 1, k as usize + 1, v);
        let got: Result<(), ()> = p.parse(tok(k, v));
        s_assert(got.is_ok() == (want == 1), 1);
        if want != 1 {{ s_reach(2); return; }}
        i += 1;
    }}
    let want = r.feed(&TAB, 1, 0, 0);
    match p.end_of_input() {{
        Ok(v) => {{ s_assert(want == 2, 3); logs_equal(0, 1, 10); {pair} s_reach(1); }}
        Err(()) => {{ s_assert(want == 0, 5); s_reach(3); }}
    }}
}}
'''
    return Harness(name, src, [Entry('h_bare', time=100)],
                   labels={1: 'verdict on a token differs', 3: 'accepted at end of input against the grammar', 4: 'the result is not the value of the start symbol',
                           5: 'rejected at end of input against the grammar', 10: 'events differ', 11: 'events differ'},
                   about='no directives; grammar ' + flat(g), bounds=f'n<={N}')


def check(run):
    q = run.tier == 'quick'
    gs = [Gram(k, v) for k, v in list(CURATED.items()) + list(ERRORS.items())]
    for i in range(30 if q else 150):
        gs.append(random_gram(run.rng, f'r{i}', null=(0.1, 0.3)[i % 2]))
        gs.append(random_err_gram(run.rng, f'er{i}', nt=(2, 4), nnt=(2, 3)))
        gs.append(random_combo(run.rng, f'co{i}'))
    hs = []
    for i, g in enumerate(gs):
        if i % 3 == 2:
            if g.name.startswith('co'):
                combo_types(run.rng, g)
            else:
                mixed(run.rng, g)
        if g.uses_error and i % 2:
            g.types['error'] = 'u32'
        om = (7, 1, 2, 4, 3, 5, 6)[i % 7]
        lim = (3, 1, 4, 2, 5, 3, 6)[i // 7 % 7] if om & 4 else None
        hs.append((g.name, lambda g=g, om=om, lim=lim, i=i: proto(g, ncap(g, 500 if q else 5000), name=f'omit_{g.name}', exp=False, limit=lim, omit=om, fail=3 if i % 4 == 0 else 0, lalr=LALR(g))))
        if not g.uses_error:
            g2 = Gram(g.name, g.text)
            g2.types = dict(g.types)
            for a, b in zip(g2.rules, g.rules):
                for x, y in zip(a.rhs, b.rhs):
                    x.alias = y.alias
            m = measure(LALR(g2), 250 if q else 2500, 8)
            hs.append((g.name, lambda g=g2, m=m: bare(g, m['N'], f'bare_{g.name}', run.rng)))
    S = {'right': lambda n: [[0] * n], 'nest': lambda n: [[0] * d + [2] + [1] * d for d in range(n - 13, n - 4)] + [[0] * n],
         'rassoc': lambda n: [([1, 0] * n)[:n | 1]], 'nullnest': lambda n: [[0] * ((n + 5) // 2)]}
    for kk in S:
        for om in (4, 7, 2):
            hs.append((kk, lambda kk=kk, om=om: deep(Gram(kk, DEEP[kk]), S[kk](106), 100, f'dflt_{kk}_{om}', None, omit=om)))
        hs.append((kk, lambda kk=kk: deep(Gram(kk, DEEP[kk]), S[kk](120), 0, f'unl_{kk}', 0, omit=4)))
    hs = [f() for n, f in hs if not run.only or run.only in n]
    run.run(hs)
    need(run, [1, 2, 3, 5], 20)
    return run.finish(
        bounds=dict(harnesses=len(hs), omitted='every combination of %syntax_error, %parse_fail, %stack_overflow; all directives at once', token_sequence_length='chosen per grammar; up to 120 for the default limit'),
        outside='other grammars; longer inputs',
        explanation='handlers left out must answer Default::default() of the %error type (told apart from every error made by handlers and actions), without side effects and at the same points of the protocol; '
                    'without %error the type is (); without %stack_size overflow comes at entry 101; without %start_symbol the left side of the first rule is the start; untyped symbols carry nothing')
