"""C16: parsers are isolated, own their %extra_argument, and refuse input after a failure"""
import math
import re
from vlib.corpus import CURATED, ERRORS, random_gram, random_err_gram
from vlib.grammar import Gram
from vlib.hgen import helpers, proto_decls, flat, T_ENTRY
from vlib.lalr import LALR
from vlib.runner import Harness, Entry
from props.common import mixed, ncap, need
from props.fw import FW, random_fw

LAB = {1: 'parse() returned Ok where the parser alone would fail', 2: 'parse() returned Err where the parser alone would go on', 3: 'another error value',
       4: 'accepted at end of input where the parser alone would fail', 5: 'another result', 6: 'rejected at end of input where the parser alone would accept', 7: 'another error value at end of input',
       10: 'number of actions and handler calls differs', 11: 'actions, handler calls or what they received differ',
       20: 'a value was dropped twice', 21: 'a value was never dropped',
       30: 'an action or handler sees another extra argument than its parser owns', 31: 'extra() does not show what the actions made of the extra argument',
       32: 'extra_mut() does not reach the extra argument', 33: 'into_extra() gives another extra argument', 34: 'the extra argument returned with the result is another one',
       40: 'a finished parser accepted further input', 9991: 'an impossible reduction was made before the error', 9992: 'accepted an erroneous input'}

EX = '''
/// the extra argument: which log to use, a value only this parser knows, and how often it was touched
pub struct Ex { pub w: usize, pub tag: u32, pub calls: u32, pub d: Option<D> }
pub static mut TAGS: [u32; 4] = [0; 4];
pub static mut CALLS: [u32; 4] = [0; 4];
#[inline(never)]
pub fn touch(e: &mut Ex) { unsafe {
    s_assert(e.w < 4 && e.tag == TAGS[e.w & 3] && e.calls == CALLS[e.w & 3], 30);
    e.calls = e.calls.wrapping_add(1); CALLS[e.w & 3] = e.calls;
} }
pub fn ex_new(w: usize) -> Ex { let tag = s_u32(); unsafe { TAGS[w] = tag; CALLS[w] = 0; } Ex { w, tag, calls: 0, d: Some(<D as V>::mk(w as u32)) } }
pub fn ex_ok(e: &Ex, w: usize) -> bool { unsafe { e.w == w && e.tag == TAGS[w] && e.calls == CALLS[w] && match &e.d { Some(d) => d.x == w as u32, None => false } } }
pub fn ex_poke(e: &mut Ex) { let t = s_u32(); e.tag = t; unsafe { TAGS[e.w] = t; } }
'''


def touchy(text):
    return re.sub(r'^(%(?:syntax_error|parse_fail|stack_overflow) \{)', r'\1 crate::touch(extra);', text, flags=re.M)


def module(g, mod, kind, limit=None, fail=0, pre='', exp=False):
    """kind: 'own' the parser owns an Ex, 'ref' it borrows one"""
    raw = list(g.raw)
    if kind == 'ref':
        g.raw = raw + ["%parser pub struct Parser<'x> {};", "%extra_argument &'x mut crate::Ex;"]
    else:
        g.raw = raw + ['%extra_argument crate::Ex;']

    def rc(i):
        a = g.actions('extra.w', i)
        t = g.type_of(g.rules[i].lhs)
        # half of the actions touch the argument twice, around their own event
        s = f'crate::touch(extra); {pre} let r = {a}; '
        if fail:
            s += f'crate::act_try(extra.w, {i})?; '
        if i % 2:
            s += 'crate::touch(extra); '
        return s + ('r' if t else '')
    src = g.rust(mod, 'extra.w', extra_decls=touchy(proto_decls(g, mod, 'extra.w', exp, limit)), rule_code=rc) + helpers(g, mod)
    g.raw = raw
    return src


def parts(g, mod, tab, var, w, ref, ntok_v='v'):
    """statements that feed one token to a parser and its own reference machine, and that end it"""
    typed = g.type_of(g.start_sym) is not None
    res = 'cv(v)' if typed else '0'
    feed = f'''
        let k = s_range({len(g.terms)});
        let v = pay_{mod}(k);
        let got = {var}.parse(tok_{mod}(k, v));
        let want = r{w}.feed_err(&{tab}, {w + 1}, {w}, k as usize + 1, v, false);
        s_assert(ex_ok({var}.extra(), {w}), 31);
        match got {{
            Ok(()) => s_assert(want == SHIFTED || want == RECOVERED, 1),
            Err(e) => {{ s_assert(want == FAILED, 2); s_assert(e == r{w}.ecode, 3); s_reach(2); dead{w} = true; }}
        }}'''
    end = f'''
        let got = {var}.end_of_input();
        let want = r{w}.feed_err(&{tab}, {w + 1}, {w}, 0, 0, false);
        match got {{
            Ok((v, x)) => {{ s_assert(want == ACCEPTED, 4); s_assert({res} == r{w}.result, 5); s_assert(ex_ok(&x, {w}), 34); s_reach(1); }}
            Err(e) => {{ s_assert(want == FAILED, 6); s_assert(e == r{w}.ecode, 7); s_reach(5); }}
        }}'''
    return feed, end


def interleave(ga, gb, S, name, kind='own', ask=False, limit=None):
    """two parsers, fed in a symbolic order; gb None: both of one grammar"""
    la = LALR(ga)
    if (ga.fallback or ga.wildcard):
        la.apply_fallback()
    src = EX + la.rust('TA') + module(ga, 'g', kind, limit)
    tb, gm = 'TA', 'g'
    if gb is not None:
        lb = LALR(gb)
        if (gb.fallback or gb.wildcard):
            lb.apply_fallback()
        src += lb.rust('TB') + module(gb, 'h', kind, limit)
        tb, gm = 'TB', 'h'
    fa, ea = parts(ga, 'g', 'TA', 'p0', 0, 1)
    fb, eb = parts(gb or ga, gm, tb, 'p2', 2, 3)
    mk0, mk2 = ('ex_new(0)', 'ex_new(2)') if kind == 'own' else ('&mut x0', '&mut x2')
    src += f'''
const S: usize = {S};
#[unsafe(no_mangle)] pub fn h_inter() {{
    reset();
    unsafe {{ ASK = {str(ask).lower()}; }}
    {{
    {'let mut x0 = ex_new(0); let mut x2 = ex_new(2);' if kind == 'ref' else ''}
    let mut r0 = Ref::new(); let mut r2 = Ref::new();
    r0.limit = {100 if limit is None else limit}; r2.limit = {100 if limit is None else limit};
    let mut p0 = g::Parser::new({mk0});
    let mut p2 = {gm}::Parser::new({mk2});
    let (mut dead0, mut dead2) = (false, false);
    let n = s_range(S as u32 + 1) as usize;
    let mut i = 0;
    while i < S {{
        if i >= n {{ break; }}
        if s_bool() {{ if dead0 {{ return; }} {fa} }} else {{ if dead2 {{ return; }} {fb} }}
        i += 1;
    }}
    if s_bool() {{ if !dead0 {{ {ea} }} if !dead2 {{ {eb} }} }}
    else {{ if !dead2 {{ {eb} }} s_assert(ex_ok(p0.extra(), 0), 31); if !dead0 {{ {ea} }} }}
    }}
    logs_equal(0, 1, 10); logs_equal(2, 3, 10);
    dropped();
    log_out(0); log_out(2);
}}
'''
    return Harness(name, src, [Entry('h_inter', time=T_ENTRY)], labels=LAB, about=f'two interleaved parsers, {kind} extra argument: {flat(ga)}' + (f' // {flat(gb)}' if gb else ''), bounds=f'{S} calls')


def nested(g, S, M, name):
    """an action of one parser runs a whole other parser of the same type"""
    l = LALR(g)
    if (g.fallback or g.wildcard):
        l.apply_fallback()
    fa, ea = parts(g, 'g', 'TA', 'p0', 0, 1)
    fb, eb = parts(g, 'g', 'TA', 'p2', 2, 3)
    src = EX + l.rust('TA') + module(g, 'g', 'own', pre='if extra.w == 0 { crate::inner(); }') + f'''
pub static mut AT: u32 = 0;
pub fn inner() {{
    unsafe {{ if AT == 0 {{ return; }} AT -= 1; if AT != 0 {{ return; }} }}
    let mut r2 = Ref::new();
    r2.limit = 100;
    let mut p2 = g::Parser::new(ex_new(2));
    let mut dead2 = false;
    let n = s_range({M + 1}) as usize;
    let mut i = 0;
    while i < {M} {{
        if i >= n || dead2 {{ break; }}
        {fb}
        i += 1;
    }}
    s_reach(4);
    if !dead2 {{ {eb} }}
}}
const S: usize = {S};
#[unsafe(no_mangle)] pub fn h_nested() {{
    reset();
    unsafe {{ AT = s_range(3); }}
    {{
    let mut r0 = Ref::new();
    r0.limit = 100;
    let mut p0 = g::Parser::new(ex_new(0));
    let mut dead0 = false;
    let n = s_range(S as u32 + 1) as usize;
    let mut i = 0;
    while i < S {{
        if i >= n || dead0 {{ break; }}
        {fa}
        i += 1;
    }}
    if !dead0 {{ {ea} }}
    }}
    logs_equal(0, 1, 10); logs_equal(2, 3, 10);
    dropped();
}}
'''
    return Harness(name, src, [Entry('h_nested', time=T_ENTRY)], labels=LAB, about=f'a parser run inside an action of another: {flat(g)}', bounds=f'{S} and {M} tokens')


def finished(g, N, name, kind='own', ask=True, fail=0, limit=None):
    """after Err: extra() still shows the argument, into_extra() returns it, and any further call panics"""
    l = LALR(g)
    if (g.fallback or g.wildcard):
        l.apply_fallback()
    fa, ea = parts(g, 'g', 'TA', 'p0', 0, 1)
    src = EX + l.rust('TA') + module(g, 'g', kind, limit, fail) + f'''
const N: usize = {N};
#[unsafe(no_mangle)] pub fn h_fin() {{
    reset();
    unsafe {{ ASK = {str(ask).lower()}; }}
    {f'let f = s_range({fail + 1}); unsafe {{ FAILAT[0] = f; }}' if fail else ''}
    {{
    {'let mut x0 = ex_new(0);' if kind == 'ref' else ''}
    let mut r0 = Ref::new();
    r0.limit = {100 if limit is None else limit};
    {'r0.failat = f;' if fail else ''}
    let mut p0 = g::Parser::new({'ex_new(0)' if kind == 'own' else '&mut x0'});
    let mut dead0 = false;
    let n = s_range(N as u32 + 1) as usize;
    let poke = s_range(N as u32 + 1) as usize;
    let mut i = 0;
    while i < N {{
        if i >= n {{ break; }}
        if i == poke {{ ex_poke(p0.extra_mut()); s_assert(ex_ok(p0.extra(), 0), 32); }}
        {fa}
        if dead0 {{
            logs_equal(0, 1, 10);
            let why = r0.ecode;
            s_reach(if why == E_FAIL {{ 51 }} else if why == E_OVER {{ 52 }} else if why >= E_ACT {{ 53 }} else {{ 54 }});
            match s_range(3) {{
                0 => {{ let x = p0.into_extra(); s_assert(ex_ok(&x, 0), 33); s_reach(7); break; }}
                1 => {{
                    let k = s_range({len(g.terms)});
                    let t = tok_g(k, 5);
                    s_expect_panic(true);
                    s_reach(8);
                    let r = p0.parse(t);
                    s_expect_panic(false);
                    s_assert(false, 40);
                    return;
                }}
                _ => {{
                    s_expect_panic(true);
                    s_reach(9);
                    let r = p0.end_of_input();
                    s_expect_panic(false);
                    s_assert(false, 40);
                    return;
                }}
            }}
        }}
        i += 1;
    }}
    if !dead0 {{ if s_bool() {{ {ea} }} else {{ let x = p0.into_extra(); s_assert(ex_ok(&x, 0), 33); s_reach(6); }} }}
    }}
    logs_equal(0, 1, 10);
    dropped();
}}
'''.replace('if dead0 {\n            logs', 'if dead0 {\n            logs').replace('break; }\n                1 =>', 'dead0 = true; break; }\n                1 =>')
    src = src.replace('p0.into_extra(); s_assert(ex_ok(&x, 0), 33); s_reach(7); dead0 = true; break;', 'p0.into_extra(); s_assert(ex_ok(&x, 0), 33); s_reach(7); drop(x); logs_equal(0, 1, 10); return;')
    return Harness(name, src, [Entry('h_fin', time=T_ENTRY)], labels=LAB, about=f'calls after a failure, {kind} extra argument: {flat(g)}' + (f' ; stack {limit}' if limit else ''), bounds=f'n<={N}')


def check(run):
    q = run.tier == 'quick'
    hs = []
    gs = [Gram(k, v) for k, v in list(CURATED.items()) + list(ERRORS.items()) + list(FW.items())]
    for i in range(10 if q else 60):
        gs.append(random_gram(run.rng, f'r{i}', nt=(2, 4), null=(0.1, 0.3)[i % 2]))
        gs.append(random_err_gram(run.rng, f'er{i}', nt=(2, 3), nnt=(2, 3)))
        gs.append(random_fw(run.rng, f'fw{i}'))
    lim = 700 if q else 8000
    for i, g in enumerate(gs):
        if i % 3 == 2 and not g.fallback:
            mixed(run.rng, g)
        kind = ('own', 'ref')[i % 2]
        ask = i % 4 < 2
        T = len(g.terms)
        if run.only and run.only not in g.name:
            continue
        hs.append(finished(g, ncap(g, lim / (3 if q else 6)), f'fin_{g.name}', ('ref', 'own')[i % 2], ask=i % 3 > 0, fail=(0, 0, 4)[i % 3], limit=(None, 4, 3, None, 5)[i % 5]))
        # S steps of 2*T choices
        S = max(3, min(6, int(math.log(lim * 2) / math.log(2 * T))))
        if T <= 5:
            hs.append(interleave(g, None, S, f'two_{g.name}', kind, ask))
        if T <= 6:
            hs.append(nested(g, min(4, ncap(g, 300)), 2, f'nest_{g.name}'))
        other = gs[(i * 7 + 3) % len(gs)]
        if len(other.terms) + T <= 8:
            hs.append(interleave(g, other, max(3, min(6, int(math.log(lim * 2) / math.log(len(other.terms) + T)))), f'mix_{g.name}', ('ref', 'own')[i % 2], not ask, limit=(None, 4)[i % 2]))
    run.run(hs)
    need(run, [1, 2, 4, 5, 6, 7, 8, 9, 52, 53, 54], 5)
    return run.finish(
        bounds=dict(harnesses=len(hs), calls='3..6 calls in every order on two parsers; 3..9 tokens before and one call after a failure'),
        outside='more than two parsers; parsers on several threads; other grammars', explanation='which parser is called next is a symbolic choice; each parser is compared with its own reference machine, '
        'its extra argument is changed by every action and handler and through extra_mut(), and compared everywhere it can be seen; after Err either into_extra() or a further call, which must panic')
