"""C15: declaration order, %start_symbol, determinism"""
import random
from vlib.corpus import CURATED, ERRORS, adequate, chains, random_gram, random_err_gram
from vlib.grammar import Gram
from vlib.hgen import lockstep, proto, statecover, flat, pay_fn, T_ENTRY
from vlib.lalr import LALR
from vlib.plan import measure
from vlib.runner import Harness, Entry
from props.combo import combo_types
from props.ctx import big_cover, ctx
from props.fwcheck import fb_types
from props.common import mixed, ncap, need
from props.fw import FW, random_fw
from props.prec import CUR, random_ops, random_prec
from props.sugar import SUGAR, random_sugar, sugar_types


def twice(g, N, name):
    """two expansions of one text: same verdicts, actions, results"""
    T = len(g.terms)
    typed = g.type_of(g.start_sym) is not None
    a = g.rust('g', 0)
    b = g.rust('h', 1)
    src = a + b + g.tok_fn('g', 'tok') + g.tok_fn('h', 'tokh') + pay_fn(g, 'pay') + f'''
const N: usize = {N};
#[unsafe(no_mangle)] pub fn h_twice() {{
    reset();
    let n = s_range(N as u32 + 1) as usize;
    let mut p = g::Parser::new();
    let mut q = h::Parser::new();
    let mut i = 0;
    while i < N {{
        if i >= n {{ break; }}
        let k = s_range({T});
        let v = pay(k);
        let a = p.parse(tok(k, v)).is_ok();
        let b = q.parse(tokh(k, v)).is_ok();
        s_assert(a == b, 1);
        logs_equal(0, 1, 10);
        if !a {{ s_reach(2); return; }}
        i += 1;
    }}
    match (p.end_of_input(), q.end_of_input()) {{
        (Ok(v), Ok(w)) => {{ {'s_assert(cv(v) == cv(w), 2);' if typed else ''} s_reach(1); }}
        (Err(_), Err(_)) => {{}}
        _ => s_assert(false, 3),
    }}
    logs_equal(0, 1, 10);
    log_out(0);
}}
'''
    return Harness(name, src, [Entry('h_twice', time=T_ENTRY)],
                   labels={1: 'two expansions of the same grammar differ in a verdict', 2: 'two expansions of the same grammar give different results',
                           3: 'two expansions of the same grammar differ at end of input', 10: 'two expansions of the same grammar run different actions',
                           11: 'two expansions of the same grammar run different actions'},
                   about='twice: ' + flat(g), bounds=f'n<={N}')


def check(run):
    q = run.tier == 'quick'
    mk = lambda d: [Gram(k, v) for k, v in d.items()]
    gs = mk(CURATED) + mk(ERRORS) + mk(FW) + mk(CUR) + mk(SUGAR)
    for i in range(14 if q else 70):
        gs.append(random_gram(run.rng, f'r{i}', null=(0.1, 0.3)[i % 2]))
        gs.append(random_fw(run.rng, f'fw{i}'))
        gs.append(random_sugar(run.rng, f'su{i}'))
        gs.append(random_err_gram(run.rng, f'er{i}', nt=(2, 4), nnt=(2, 3)))
        gs.append(random_ops(run.rng, f'op{i}'))
        gs.append(random_prec(run.rng, f'pr{i}'))
    hs = []
    for i, g in enumerate(gs):
        if not g.types:
            sugar_types(run.rng, g, 0 if g.fallback else i)
        l = LALR(g)
        if g.fallback or g.wildcard:
            l.apply_fallback()
        for rep in range(1 if q else 2):
            g2 = g
            if (i + rep) % 2 or rep:
                import copy
                g2 = copy.copy(g)
            if (i + rep) % 2:
                g2.start = g.start_sym
            g2.shuffle = run.rng
            if run.only and run.only not in g.name:
                continue
            if g.uses_error:
                hs.append(proto(g2, ncap(g, 200 if q else 2500), name=f'perm{rep}_{g.name}', exp=True, lalr=l))
                continue
            m = measure(l, 200 if q else 2500, 7)
            acc = m['shortest'] is not None and m['shortest'] <= m['N']
            hs.append(lockstep(g2, m['N'], name=f'perm{rep}_{g.name}', lalr=l, reach=[1] if acc else []))
    # orders that matter to a careless computation: long chains of rules, and grammars that need every part of the construction
    for g in chains(run.rng, 6 if q else 9, 2 if q else 6):
        if not run.only or run.only in g.name:
            hs.append(statecover(g, f'order_{g.name}', M=2))
    ad = adequate('behave') + adequate('accept') + adequate('behave', '_prec')
    for i, g in enumerate(ad):
        if q and i % 2 or run.only and run.only not in g.name:
            continue
        l = LALR(g)
        if i % 4 < 2:
            g.start = g.start_sym
        g.shuffle = run.rng
        hs.append(statecover(g, f'order_{g.name}', M=2, lalr=l))
    for i in range(16 if q else 80):
        g = ctx(run.rng, f'cx{i}', sugar=i % 3 == 0, fb=i % 4 == 1, wc=i % 4 == 2)
        if i % 3 == 0:
            combo_types(run.rng, g)
        elif g.fallback or g.wildcard:
            fb_types(run.rng, g, i)
        if not run.only or run.only in g.name:
            l = LALR(g)
            if g.fallback or g.wildcard:
                l.apply_fallback()
            if i % 2:
                g.start = g.start_sym
            g.shuffle = run.rng
            hs.append(statecover(g, f'order_{g.name}', M=1, lalr=l))
    hs += big_cover(run, 8 if q else 50, 'order_big', shuffle=True)
    # expansion is deterministic
    tw = mk(SUGAR) + [random_sugar(run.rng, f'tw{i}') for i in range(16 if q else 60)] + mk(FW) + mk(CUR)
    for g in tw:
        if g.uses_error or run.only and run.only not in 'twice_' + g.name:
            continue
        l = LALR(g)
        if g.fallback or g.wildcard:
            l.apply_fallback()
        hs.append(twice(g, measure(l, 120 if q else 1500, 7)['N'], f'twice_{g.name}'))
    run.run(hs)
    need(run, [1, 2], 30)
    return run.finish(
        bounds=dict(grammars=len(hs), token_sequence_length='2..8, chosen per grammar', orders='one random permutation per grammar (thorough: two)'), outside='other grammars and orders; longer inputs',
        explanation='rules, directives, alternatives and class members are written in a random order (precedence directives keep theirs), half of the time with %start_symbol; the reference machine is built from the unpermuted '
                    'grammar; and two expansions of one text run side by side',
        extra=dict(configs=[dict(name=g.name) for g in gs][:60]))
