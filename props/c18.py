"""C18: Token values, %extra_token, accessors, generic tokens"""
from vlib.corpus import CURATED, ERRORS, random_gram, random_err_gram
from vlib.grammar import Gram
from vlib.hgen import lockstep, proto, statecover, flat, helpers, T_ENTRY
from vlib.lalr import LALR
from vlib.plan import measure
from vlib.runner import Harness, Entry
from props.common import mixed, MIX, ncap, need, some_units
from props.fw import FW, random_fw
from props.fwcheck import fb_types
from props.sugar import SUGAR, random_sugar, sugar_types

LOC = 'crate::Loc'


def accessors(g, name):
    """for every variant: extra(), extra_mut(), into_extra() reach the location of that token, and nothing else"""
    T = len(g.terms)
    mk, rd = [], []
    for k, t in enumerate(g.terms):
        b = g.base_type(t)
        if b:
            mk.append(f'{k} => g::Token::{t}((Loc {{ x: e, y: e as u64 }}, crate::mk(v))),')
            rd.append(f'g::Token::{t}((e, x)) => ({k}, e, crate::cv(x)),')
        else:
            mk.append(f'{k} => g::Token::{t}(Loc {{ x: e, y: e as u64 }}),')
            rd.append(f'g::Token::{t}(e) => ({k}, e, v),')
    mk[-1] = '_' + mk[-1][mk[-1].index(' =>'):]
    src = g.rust('g', 0) + f'''
fn make(k: u32, e: u32, v: u32) -> g::Token {{ match k {{ {" ".join(mk)} }} }}
fn read(t: g::Token, v: u32) -> (u32, Loc, u32) {{ match t {{ {" ".join(rd)} }} }}
#[unsafe(no_mangle)] pub fn h_access() {{
    reset();
    let k = s_range({T});
    let e = s_u32();
    let f = s_u32();
    let v = s_u32();
    let mut t = make(k, e, v);
    s_assert(*t.extra() == Loc {{ x: e, y: e as u64 }}, 1);
    let mode = s_range(4);
    if mode & 1 != 0 {{
        *t.extra_mut() = Loc {{ x: f, y: f as u64 }};
        s_assert(t.extra().x == f && t.extra().y == f as u64, 2);
    }}
    let now = if mode & 1 != 0 {{ f }} else {{ e }};
    if mode & 2 != 0 {{
        let x: Loc = t.into_extra();
        s_assert(x.x == now && x.y == now as u64, 3);
        s_reach(1);
    }} else {{
        let (k2, l, w) = read(t, v);
        s_assert(k2 == k, 4); s_assert(l.x == now && l.y == now as u64, 5); s_assert(w == v, 6);
        s_reach(2);
    }}
}}
'''
    return Harness(name, src, [Entry('h_access', reach=[1, 2], time=T_ENTRY)],
                   labels={1: 'extra() is not the location of the token', 2: 'extra_mut() does not reach what extra() shows', 3: 'into_extra() gives another location',
                           4: 'the variant changed', 5: 'the location changed', 6: 'the value changed'}, about='tokens of ' + flat(g))


def equality(g, name, N=None, wide=False):
    """the token handed to %syntax_error (after any tokens) equals the one passed to parse()"""
    T = len(g.terms)
    l = LALR(g)
    N = N or max(2, min(4, ncap(g, 500)))
    src = f'''
pub static mut SEEN: Option<g::Token> = None;
pub static mut CALLS: u32 = 0;
pub fn seen(t: Option<g::Token>) {{ unsafe {{ s_assert(t.is_some(), 1); s_assert(t == SEEN, 2); CALLS += 1; s_reach(1); }} }}
''' + g.rust('g', 0, extra_decls='%syntax_error { crate::seen(token); Ok(Default::default()) }', token_attr='#[derive(Clone, PartialEq, Debug)]') + g.tok_fn('g', 'tok') + f'''
const N: usize = {N};
#[unsafe(no_mangle)] pub fn h_equal() {{
    reset();
    unsafe {{ SEEN = None; CALLS = 0; }}
    let mut p = g::Parser::new();
    let mut i = 0;
    while i < N {{
        let k = {f'if i == 0 {{ s_range(4) * {T // 4} }} else {{ s_range({T}) }}' if wide else f's_range({T})'};
        let v = s_u32();
        let t = tok(k, v);
        unsafe {{ SEEN = Some(t.clone()); }}
        if p.parse(t).is_err() {{ return; }}
        i += 1;
    }}
    s_reach(2);
}}
'''
    return Harness(name, src, [Entry('h_equal', reach=[2] if l.nstates > 4 else [], time=T_ENTRY)],
                   labels={1: 'a token was handed to %syntax_error as None', 2: 'the token handed to %syntax_error differs from the one passed to parse()'}, about='tokens of ' + flat(g))


GEN = [('gen_tok_ty', '''
pomelo::pomelo! {
    %module g;
    %token #[derive(Clone, PartialEq)] pub enum Token<T: crate::V> {};
    %type A T;
    %type B (T, u8);
    %type x u32;
    %type input u32;
    %error u32;
    %syntax_error { match token { Some(Token::A(t)) => Err(crate::cv(t)), Some(Token::B((t, n))) => Err(crate::cv(t) ^ n as u32), Some(Token::C) => Err(5), None => Err(6) } }
    %parse_fail { 7 }
    %stack_overflow { 8 }
    input ::= x(a) { a };
    x ::= A(a) { crate::cv(a) };
    x ::= x(p) C B((a, n)) { p.rotate_left(3) ^ crate::cv(a) ^ n as u32 };
}
fn run() {
    fn go<T: V + Clone + PartialEq>() {
        let mut p = g::Parser::<T>::new();
        let (a, b, n, c) = (s_u32(), s_u32(), s_u8(), s_u32());
        s_assert(p.parse(g::Token::A(T::mk(a))) == Ok(()), 1);
        let k = s_range(3);
        if k == 0 { s_assert(p.parse(g::Token::A(T::mk(c))) == Err(c), 2); return; }
        if k == 1 { s_assert(p.parse(g::Token::B((T::mk(c), n))) == Err(c ^ n as u32), 3); return; }
        s_assert(p.parse(g::Token::C) == Ok(()), 4);
        if s_bool() { s_assert(p.parse(g::Token::C) == Err(5), 5); return; }
        s_assert(p.parse(g::Token::B((T::mk(b), n))) == Ok(()), 6);
        s_assert(p.end_of_input() == Ok(a.rotate_left(3) ^ b ^ n as u32), 7);
        s_reach(1);
    }
    match s_range(3) { 0 => go::<u32>(), 1 => go::<Box<u32>>(), _ => go::<crate::Pair>() }
}'''), ('gen_lifetime', '''
pomelo::pomelo! {
    %module g;
    %token #[derive(Copy, Clone, PartialEq)] pub enum Token<'a> {};
    %type A &'a u32;
    %type B &'a [u32];
    %extra_token &'a u64;
    %type l u32;
    %type input u32;
    input ::= l(x) { x };
    l ::= A((e, a)) { *a ^ (*e as u32) };
    l ::= l(x) C(e) B((f, b)) { x.wrapping_add(b[0]).wrapping_add(b[1]) ^ (*e as u32) ^ (*f >> 32) as u32 };
}
fn run() {
    let (a, e, f) = (s_u32(), s_u64(), s_u64());
    let b = [s_u32(), s_u32()];
    let ta = g::Token::A((&e, &a));
    let tb = g::Token::B((&f, &b[..]));
    let tc = g::Token::C(&f);
    s_assert(*ta.extra() == &e && **tb.extra() == f && *tc.into_extra() == f, 8);
    let mut t2 = ta;
    *t2.extra_mut() = &f;
    s_assert(**t2.extra() == f && **ta.extra() == e, 9);
    let mut p = g::Parser::new();
    s_assert(p.parse(ta).is_ok() && p.parse(tc).is_ok() && p.parse(tb).is_ok(), 1);
    s_assert(p.end_of_input() == Ok((a ^ e as u32).wrapping_add(b[0]).wrapping_add(b[1]) ^ f as u32 ^ (f >> 32) as u32), 7);
    s_reach(1);
}'''), ('gen_parser_trait', '''
pub trait Ops { type Val; fn lit(&mut self, x: u32) -> Self::Val; fn add(&mut self, a: Self::Val, b: Self::Val) -> Self::Val; }
pub struct Sum(pub u32);
impl Ops for Sum { type Val = u32; fn lit(&mut self, x: u32) -> u32 { self.0 += 1; x } fn add(&mut self, a: u32, b: u32) -> u32 { self.0 += 16; a.rotate_left(5) ^ b } }
pub struct Bx;
impl Ops for Bx { type Val = Box<u32>; fn lit(&mut self, x: u32) -> Box<u32> { Box::new(!x) } fn add(&mut self, a: Box<u32>, b: Box<u32>) -> Box<u32> { Box::new(a.wrapping_sub(*b)) } }
pomelo::pomelo! {
    %module g;
    %parser pub struct Parser<T: crate::Ops> {};
    %token #[derive(Clone)] pub enum Token {};
    %extra_argument T;
    %type input T::Val;
    %type e T::Val;
    %type N u32;
    input ::= e?(x) { match x { Some(x) => x, None => extra.lit(77) } };
    e ::= N(n) { extra.lit(n) };
    e ::= e(a) Plus N(n) { let b = extra.lit(n); extra.add(a, b) };
}
fn run() {
    let (a, b) = (s_u32(), s_u32());
    let k = s_range(3);
    if s_bool() {
        let mut p = g::Parser::new(Sum(3));
        if k > 0 { s_assert(p.parse(g::Token::N(a)).is_ok(), 1); }
        if k > 1 { s_assert(p.parse(g::Token::Plus).is_ok(), 2); s_assert(p.parse(g::Token::N(b)).is_ok(), 3); }
        match p.end_of_input() {
            Ok((v, s)) => { s_assert(v == match k { 0 => 77, 1 => a, _ => a.rotate_left(5) ^ b }, 4); s_assert(s.0 == match k { 0 | 1 => 4, _ => 21 }, 5); }
            Err(_) => s_assert(false, 6),
        }
    } else {
        let mut p = g::Parser::new(Bx);
        if k > 0 { s_assert(p.parse(g::Token::N(a)).is_ok(), 1); }
        if k > 1 { s_assert(p.parse(g::Token::Plus).is_ok(), 2); s_assert(p.parse(g::Token::N(b)).is_ok(), 3); }
        match p.end_of_input() {
            Ok((v, _)) => s_assert(*v == match k { 0 => !77, 1 => !a, _ => (!a).wrapping_sub(!b) }, 7),
            Err(_) => s_assert(false, 6),
        }
    }
    s_reach(1);
}''')]


def generic(name, text):
    src = text + '\n#[unsafe(no_mangle)] pub fn h_gen() { reset(); run(); }\n'
    return Harness(name, src, [Entry('h_gen', reach=[1], time=T_ENTRY)],
                   labels={i: 'a generic parser or token gives another value or verdict' for i in range(1, 10)}, about=name)


def wide(rng, name, n):
    """n tokens, each of them an error in many states"""
    T = [f'T{i}' for i in range(n)]
    rng.shuffle(T)
    lines = ['input ::= l', 'l ::=', 'l ::= l s']
    i = 0
    while i < n:
        k = min(n - i, rng.randint(1, 4))
        lines.append('s ::= ' + ' '.join(T[i:i + k]))
        i += k
    return Gram(name, '\n'.join(lines))


def check(run):
    q = run.tier == 'quick'
    mk = lambda d: [Gram(k, v) for k, v in d.items()]
    gs = [g for g in mk(CURATED) + mk(ERRORS) + mk(FW) + mk(SUGAR) if not g.wildcard and not g.types]
    for i in range(20 if q else 100):
        gs.append(random_gram(run.rng, f'r{i}', nt=(2, 6), null=(0.1, 0.3)[i % 2]))
        gs.append(random_fw(run.rng, f'fw{i}', kind='f'))
        gs.append(random_sugar(run.rng, f'su{i}'))
        gs.append(random_err_gram(run.rng, f'er{i}', nt=(2, 4), nnt=(2, 3)))
    hs = []
    for i, g in enumerate(gs):
        # half without %extra_token
        plain = i % 3 == 2
        if g.fallback:
            fb_types(run.rng, g, 1)
        elif any(it.opt or len(g.item_names(it)) > 1 or r.nocode for r in g.rules for it in r.rhs):
            sugar_types(run.rng, g, 1)
            if any(r.nocode for r in g.rules):
                plain = True
        else:
            mixed(run.rng, g, MIX + [LOC], drop=0.05)
        if g.fallback:
            # the payload of a token falls back unchanged, so both need one type
            if any(g.types.get(f) != g.types.get(t) for f, l in g.fallback for t in l):
                plain = True
        if not plain:
            g.extra_tok = LOC
            for s in g.terms:
                if g.types.get(s) == '()':
                    g.types[s] = None
        if run.only and run.only not in g.name:
            continue
        l = LALR(g)
        if g.fallback or g.wildcard:
            l.apply_fallback()
        if g.uses_error or i % 2:
            if i % 4 == 3 and not any(it.opt or r.nocode for r in g.rules for it in r.rhs):
                hs.append(equality(g, f'eq_{g.name}'))
            if not any(it.opt or r.nocode for r in g.rules for it in r.rhs):
                hs.append(proto(g, ncap(g, 200 if q else 2500), name=f'tok_{g.name}', exp=True, lalr=l))
        else:
            m = measure(l, 200 if q else 2500, 8)
            acc = m['shortest'] is not None and m['shortest'] <= m['N']
            hs.append(lockstep(g, m['N'], name=f'tok_{g.name}', lalr=l, reach=[1] if acc else []))
        if not plain:
            hs.append(accessors(g, f'acc_{g.name}'))
    # many variants, many of them of the same type
    for i in range(8 if q else 30):
        g = wide(run.rng, f'wide{i}', (12, 40, 26, 16, 58, 20, 33, 18)[i % 8])
        mixed(run.rng, g, [MIX + [LOC], ['u32'], [None], ['u32', None], ['u32', 'u64', 'Box<u32>', None]][i % 5], drop=0.1)
        if run.only and run.only not in g.name:
            continue
        if i % 2:
            g.extra_tok = LOC
            hs.append(accessors(g, f'acc_{g.name}'))
        hs.append(equality(g, f'eq_{g.name}', 2, wide=True))
        hs.append(statecover(g, f'tok_{g.name}', M=2 if len(g.terms) < 20 else 1, err=True))
    for n, t in GEN:
        if not run.only or run.only in n:
            hs.append(generic(n, t))
    hs.sort(key=lambda h: 'wide' not in h.name)
    run.run(hs)
    need(run, [1, 2], 30)
    return run.finish(
        bounds=dict(harnesses=len(hs), token_sequence_length='2..9, chosen per grammar', payloads='arbitrary'), outside='other grammars and types; longer inputs; %extra_token next to %wildcard or %default_type',
        explanation='two thirds of the grammars use %extra_token; every variant is built, its accessors are read and written with symbolic locations and values, (location, value) is bound by patterns in actions, and tokens handed to '
                    '%syntax_error are compared with the ones passed in; three generic parsers run at several types',
        extra=dict(configs=[dict(name=g.name) for g in gs][:60]))
