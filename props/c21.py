"""C21: generic and decorated declarations (%token, %parser, %include, %module, %extra_argument, attributes)"""
import re

from vlib.corpus import CURATED, ERRORS, random_gram, random_err_gram
from vlib.grammar import Gram
from vlib.hgen import flat, pay_fn, units
from vlib.lalr import LALR
from vlib.runner import Harness, Entry
from props.combo import random_combo
from props.common import ncap, need
from props.fw import FW, random_fw
from props.sugar import SUGAR, random_sugar
from vlib.plan import measure

PRE = '''
#[derive(Clone, Debug, PartialEq)]
pub struct Wr<T> { pub k: u32, pub t: T }
impl<T: V> V for Wr<T> { fn v(self) -> u32 { let x = self.t.v(); if x == self.k { x } else { 0xdead_0010 } } fn mk(x: u32) -> Self { Wr { k: x, t: T::mk(x) } } }
impl<const K: usize> V for [u32; K] { fn v(self) -> u32 { let mut i = 1; while i < K { if self[i] != self[0] { return 0xdead_0011; } i += 1; } self[0] } fn mk(x: u32) -> Self { [x; K] } }
impl<'a, T: V> V for (&'a u32, T) { fn v(self) -> u32 { let x = self.1.v(); if *self.0 == x { x } else { 0xdead_0012 } } fn mk(x: u32) -> Self { (<&u32 as V>::mk(x), T::mk(x)) } }
/// what %extra_token is
#[derive(Clone, Debug, PartialEq)]
pub struct Lc<T> { pub x: u32, pub t: T }
impl<T> Lc<T> { pub fn is(&self, x: u32) -> bool { self.x == x } pub fn flip(&mut self) { self.x ^= 0x100; } }
impl<T: V> V for Lc<T> { fn v(self) -> u32 { let x = self.t.v(); if x == self.x { x } else { 0xdead_0016 } } fn mk(x: u32) -> Self { Lc { x, t: T::mk(x) } } }
impl<T: V, U: V> V for (Lc<T>, U) { fn v(self) -> u32 { let (a, b) = (self.0.v(), self.1.v()); if a == b { a } else { 0xdead_0017 } } fn mk(x: u32) -> Self { (V::mk(x), V::mk(x)) } }
/// what %extra_argument is: it counts what it is told
pub trait Ext { type Out: V; fn fresh() -> Self; fn hit(&mut self); fn n(&self) -> u32; }
pub struct E1(pub u32);
impl Ext for E1 { type Out = u64; fn fresh() -> E1 { E1(0) } fn hit(&mut self) { self.0 += 1; } fn n(&self) -> u32 { self.0 } }
pub struct E2 { pub a: u8, pub n: Box<u32> }
impl Ext for E2 { type Out = Pair; fn fresh() -> E2 { E2 { a: 7, n: Box::new(0) } } fn hit(&mut self) { *self.n += 1; } fn n(&self) -> u32 { if self.a == 7 { *self.n } else { 0xdead_0013 } } }
/// %error values
pub trait Er: Sized { fn er(self) -> u32; fn mke(x: u32) -> Self; }
impl Er for u32 { fn er(self) -> u32 { self } fn mke(x: u32) -> u32 { x } }
#[derive(Clone, Debug)]
pub struct Ew<W> { pub c: u32, pub w: W }
impl<W: V> Er for Ew<W> { fn er(self) -> u32 { if self.w.v() == self.c { self.c } else { 0xdead_0014 } } fn mke(x: u32) -> Self { Ew { c: x, w: W::mk(x) } } }
impl<W: V> Er for Box<(W, u8)> { fn er(self) -> u32 { let (w, b) = *self; let x = w.v(); if b == x as u8 { x } else { 0xdead_0015 } } fn mke(x: u32) -> Self { Box::new((W::mk(x), x as u8)) } }
pub fn mke<E: Er>(x: u32) -> E { E::mke(x) }
'''


def groups(g):
    """symbols that must have the same type; those that must have one"""
    group, typed = {}, set()
    def find(x):
        group.setdefault(x, x)
        while group[x] != x:
            x = group[x]
        return x
    for r in g.rules:
        for it in r.rhs:
            ns = g.item_names(it)
            for n in ns[1:]:
                group[find(n)] = find(ns[0])
        if r.nocode:
            for it in r.rhs:
                group[find(g.item_names(it)[0])] = find(r.lhs)
                typed.add(r.lhs)
    for f, l in g.fallback:
        for t in l:
            group[find(t)] = find(f)
    return find, set(find(x) for x in typed)


class Deco:
    """a way of declaring the parser of a grammar"""
    def __init__(self, rng, g, i):
        self.g = g
        # parameters of Token: name -> (text, default)
        tp = []
        if rng.random() < 0.6:
            tp.append('a')
        if rng.random() < 0.7:
            tp.append('V')
        if rng.random() < 0.4:
            tp.append('K')
        if rng.random() < 0.2:
            tp.append('U')
        pp = []
        for x, p in (('W', 0.5), ('X', 0.5), ('b', 0.3), ('L', 0.2)):
            if rng.random() < p:
                pp.append(x)
        if rng.random() < 0.25:
            pp = []
        if not tp and not pp and rng.random() < 0.8:
            tp = ['V']
        self.tp, self.pp = tp, pp
        find, typed = groups(g)
        # the types
        tt = ["u32", "u32", "Num", "u64"] + {True: ["&'a u32", "Rf<'a>", "(&'a u32, u64)"], False: []}['a' in tp]
        tt += (['V', 'V', 'crate::Wr<V>', 'Al<V>'] if 'V' in tp else []) + (['[u32; K]', '[u32; K]', 'crate::Wr<[u32; K]>'] if 'K' in tp else []) + (['U'] if 'U' in tp else [])
        if 'a' in tp and 'V' in tp:
            tt.append("(&'a u32, V)")
        nt = tt + (['W', 'W', 'crate::Wr<W>', 'Al<W>'] if 'W' in pp else []) + (['X::Out', '<X as crate::Ext>::Out', 'Al<X::Out>'] if 'X' in pp else []) + \
            (["&'b u32", "crate::Wr<&'b u32>"] if 'b' in pp else []) + (['[u32; L]'] if 'L' in pp else [])
        kind = {}
        for s in g.terms + g.nts + (['error'] if g.uses_error else []):
            if s == g.wildcard:
                continue
            k = find(s)
            kind.setdefault(k, []).append(s)
        for k, ss in kind.items():
            pool = tt if any(s in g.terms for s in ss) else nt
            if k not in typed and rng.random() < 0.15:
                pool = [None]
            t = rng.choice(pool)
            for s in ss:
                g.types[s] = t
        if not g.wildcard and not any(r.nocode for r in g.rules) and rng.random() < 0.3:
            g.extra_tok = rng.choice(['crate::Lc<u64>'] + (['crate::Lc<V>'] if 'V' in tp else []) + (["crate::Lc<&'a u32>"] if 'a' in tp else []) + (['crate::Lc<[u32; K]>'] if 'K' in tp else []))
        # every parameter must occur: put the missing ones on some symbol, give up those that found no place
        mark = {'a': "'a", 'b': "'b", 'e': "'e"}
        uses = lambda p, t: bool(t) and (mark[p] in t if p in mark else re.search(rf'\b{p}\b', t) is not None)
        one = {'a': "&'a u32", 'V': 'V', 'K': '[u32; K]', 'U': 'U', 'W': 'W', 'X': 'X::Out', 'b': "&'b u32", 'L': '[u32; L]'}
        self.extra = rng.choice([None, 'crate::E1', "&'e mut crate::E2", 'Box<crate::E2>'] + (['X', "&'e mut X", '(X, u8)'] * 2 if 'X' in pp else []))
        self.err = rng.choice(['u32'] + (['crate::Ew<W>', 'Box<(W, u8)>', 'Fail<W>'] if 'W' in pp else []) + (['crate::Ew<V>'] if 'V' in tp else []))
        if self.extra and "'e" in self.extra:
            pp.append('e')
        where = lambda p: [g.types.get(x) for x in (g.terms if p in tp else g.terms + g.nts + ['error'])] + ([g.extra_tok] if p in tp else [self.err, self.extra])
        spare = {True: [k for k, ss in kind.items() if any(x in g.terms for x in ss)], False: [k for k, ss in kind.items() if not any(x in g.terms for x in ss)]}
        for x in spare.values():
            rng.shuffle(x)
        for p in tp + pp:
            if not any(uses(p, t) for t in where(p)) and spare[p in tp]:
                for x in kind[spare[p in tp].pop()]:
                    g.types[x] = one[p]
        for p in list(tp + pp):
            if not any(uses(p, t) for t in where(p)):
                (tp if p in tp else pp).remove(p)
                for x in list(g.types):
                    if uses(p, g.types[x]):
                        g.types[x] = 'u32'
                if uses(p, self.err):
                    self.err = 'u32'
        if g.wildcard:
            g.types[g.wildcard] = None
        # how they are written
        self.where_t = rng.random() < 0.3
        self.defaults = rng.random() < 0.3
        self.vis = rng.choice(['pub', 'pub', 'pub(crate)', 'pub(super)', 'pub(in crate)'])
        self.pvis = self.vis if rng.random() < 0.7 else rng.choice(['pub', 'pub(crate)'])
        self.tattr = rng.choice(['', '#[derive(Clone)]', '#[derive(Clone, Debug)]', '#[allow(dead_code)] #[derive(Debug, PartialEq)]', '#[must_use]', '#[non_exhaustive]', '#[derive(Clone)] #[repr(u8)]'])
        self.pattr = rng.choice(['', '#[allow(dead_code)]', '#[must_use]', '#[repr(C)]', '/// the parser\n'])
        self.noparser = not pp and rng.random() < 0.5
        self.notoken = not tp and rng.random() < 0.5
        self.module = rng.choice(['g', 'g', 'parser', None])
        order = [p for p in tp + pp]
        rng.shuffle(order)
        lt = [p for p in order if p in 'abe']
        rest = [p for p in order if p not in 'abe']
        nod = [p for p in rest if p in 'XW'] if self.defaults else rest
        self.porder = lt + nod + [p for p in rest if p not in nod]
        self.rng = rng

    B = {'a': "'a", 'b': "'b", 'e': "'e"}

    def param(self, p):
        """as declared"""
        if p in self.B:
            return self.B[p]
        d = self.defaults
        if p in 'KL':
            return f'const {p}: usize' + (' = 2' if d else '')
        b = 'crate::Ext' if p == 'X' else 'crate::V'
        if self.where_t and p in 'VUW':
            return p + (' = u32' if d and p in 'VU' else '')
        return f'{p}: {b}' + (' = u32' if d and p in 'VU' else '')

    def bare(self, ps):
        return '<' + ', '.join(self.B.get(p, p) for p in ps) + '>' if ps else ''

    def decl(self, ps):
        return '<' + ', '.join(self.param(p) for p in ps) + '>' if ps else ''

    def where(self, ps):
        w = [f'{p}: crate::V' for p in ps if p in 'VUW'] if self.where_t else []
        return ' where ' + ', '.join(w) if w else ''

    @property
    def torder(self):
        ps = self.tp
        return [p for p in ps if p in 'abe'] + [p for p in ps if p not in 'abeK'] + [p for p in ps if p == 'K']

    def args(self, ps, inst):
        """of an instance, in a body generic over the type parameters"""
        return '<' + ', '.join({'a': "'_", 'b': "'_", 'e': "'_"}.get(p, p) for p in ps) + '>' if ps else ''


def attrs(rng, t):
    return rng.choice(['', '', '', '#[allow(dead_code)] ', '#[doc = "a symbol"] ', '/// documented\n    ', '#[allow(unused)] #[doc(hidden)] '])


def source(d, N, name, exp=False, quiet=False):
    g, rng, ask = d.g, d.rng, not quiet
    l = LALR(g)
    if g.fallback or g.wildcard:
        l.apply_fallback()
    mod = d.module or 'parser'
    hit = 'extra.hit(); ' if d.extra else ''
    hit = hit.replace('extra', 'extra.0') if d.extra and d.extra.startswith('(') else hit

    def rc(i):
        a = g.actions(0, i)
        t = g.type_of(g.rules[i].lhs)
        return f'{hit}helped(0); {a}' + ('' if t else ';')
    L = []
    if rng.random() < 0.1:
        L.append('%verbose;')
    if rng.random() < 0.3:
        L.append('%include { pub type Result<T> = ::std::vec::Vec<T>; pub type Error = (); pub struct Location; }')
    if rng.random() < 0.4:
        g.shuffle = rng
    L.append('%include { use crate::Ext; type Al<T> = crate::Wr<T>; #[allow(unused)] pub type Num = u32; fn helped(_x: u32) {} }')
    L.append("%include { use super::Ew as Fail; use crate::Wr; pub type Rf<'x> = &'x u32; #[derive(Clone)] pub struct Unused<T>(pub T); impl<T> Unused<T> { fn get(self) -> T { self.0 } } }")
    if not d.noparser:
        L.append(f'%parser {d.pattr} {d.pvis} struct Parser{d.decl(d.porder)}{d.where(d.porder)} {{}};')
    if d.extra:
        L.append(f'%extra_argument {d.extra};')
    if d.err != 'u32' or rng.random() < 0.5:
        L.append(f'%error {d.err};')
        plain = False
    else:
        L.append('%error Num;')
    et = g.types.get('error') if g.uses_error else None
    ok = 'Ok(x) => Ok(crate::mk(x))' if et else 'Ok(_) => Ok(())'
    u = f'token.map_or((crate::NOTOK, 0), |t| crate::untok_g(t))'
    ex = ('for t in expected { let n = crate::nameidx_g(t.name); e.add(n, n < 64 && crate::UNITS_g >> n & 1 != 0, match t.token { Some(t) => crate::untok_g(t).0, None => crate::NOTOK }, t.yy_major); }'
          if exp else 'let _ = expected;')
    L.append(f'%syntax_error {{ {hit}let mut e = crate::Exp::new({str(exp).lower()}); {ex} match crate::on_syntax(0, {u}, &e) {{ {ok}, Err(x) => Err(crate::mke(x)) }} }}')
    L.append('%parse_fail { crate::mke(crate::on_fail(0)) }')
    L.append(f'%stack_overflow {{ crate::mke(crate::on_over(0, {u})) }}')
    g.style = False
    src = g.rust(mod, 0, extra_decls='\n'.join(L), token_attr=d.tattr, rule_code=rc)
    tok = f'%token {d.tattr} pub enum Token {{}};'
    assert tok in src
    src = src.replace(tok, '' if d.notoken else f'%token {d.tattr} {d.vis} enum Token{d.decl(d.torder)}{d.where(d.torder)} {{}};')
    if not d.module:
        src = src.replace('%module parser;\n', '')
    unit = [t for t in g.terms if g.type_of(t) is None and t != g.wildcard]
    dflt = ''
    if unit and not d.notoken and rng.random() < 0.7:
        u = rng.choice(unit)
        dflt = f"let t: {mod}::Token{d.bare(d.torder)} = Default::default(); s_assert(untok_g(t) == ({g.terms.index(u)}, 0), 43);".replace("'a", "'_")
        src = src.replace(f'%token {d.tattr} {d.vis} enum Token', f'%token {d.tattr} #[derive(Default)] {d.vis} enum Token')
        src = src.replace(f'    %token ', f'    %type #[default] {u};\n    %token ', 1)
    for s in g.terms:
        t = g.types.get(s)
        if t and s not in g.omit:
            src = src.replace(f'%type {s} {t};', f'%type {attrs(rng, s)}{s} {t};')
    # bodies generic over the same parameters
    gp = ["'a"] + [p for p in d.porder if p in 'VUWX'] + [p for p in d.porder if p in 'KL']
    bound = {'X': 'X: Ext', 'K': 'const K: usize', 'L': 'const L: usize'}
    gdecl = lambda ps: '<' + ', '.join("'a" if p in ("'a", 'a') else bound.get(p, f'{p}: crate::V') for p in ps) + '>' if ps else ''
    tdecl = gdecl(d.torder)
    tuse = d.bare(d.torder)
    arms, back = [], []
    for k, t in enumerate(g.terms):
        ty = g.type_of(t)
        pat = f'{k}' if k < len(g.terms) - 1 else '_'
        arms.append(f'{pat} => {mod}::Token::{t}' + (f'(mk(v)),' if ty else ','))
        back.append(f'{mod}::Token::{t}(x) => ({k}, cv(x)),' if ty else f'{mod}::Token::{t} => ({k}, 0),')
    names = ' '.join(f'"{t}" => {k},' for k, t in enumerate(g.terms))
    us = sum(1 << k for k in units(g))
    fns = f'''
fn tok_g{tdecl}(k: u32, v: u32) -> {mod}::Token{tuse} {{ match k {{ {" ".join(arms)} }} }}
fn untok_g{tdecl}(t: {mod}::Token{tuse}) -> (u32, u32) {{ match t {{ {" ".join(back)} }} }}
fn nameidx_g(n: &str) -> u32 {{ match n {{ {names} _ => 64 }} }}
const UNITS_g: u64 = {us};
'''
    # instances
    params = [p for p in d.porder if p in 'VUWXKL']
    pool = {'V': ['u32', 'u64', 'Pair', 'Box<u32>', 'Alt', 'Wr<u64>'], 'U': ['u64', 'Pair', '[u32; 2]'], 'W': ['u64', 'Pair', 'Box<u32>', '[u32; 3]', 'u32'], 'X': ['E1', 'E2'],
            'K': ['1', '2', '3'], 'L': ['1', '4']}
    inst = []
    for _ in range(2 if params else 1):
        a = '::<' + ', '.join(rng.choice(pool[p]) for p in sorted(params, key=lambda p: p in 'KL')) + '>' if params else ''
        if a not in inst:
            inst.append(a)
    gord = sorted(params, key=lambda p: p in 'KL')
    body_decl = gdecl(gord)
    PT = f'{mod}::Parser{d.args(d.torder if d.noparser else d.porder, None)}'
    mkx, chk, fin = '', '', 'v'
    if d.extra:
        base = {'crate::E1': 'E1::fresh()', "&'e mut crate::E2": '&mut ex', 'Box<crate::E2>': 'Box::new(E2::fresh())', 'X': 'X::fresh()', "&'e mut X": '&mut ex', '(X, u8)': '(X::fresh(), 9)'}[d.extra]
        if '&mut ex' in base:
            mkx = 'let mut ex = %s::fresh();' % ('X' if 'X' in d.extra else 'E2')
        sel = '.0' if d.extra.startswith('(') else ''
        new = f'{mod}::Parser::new({base})'
        chk = f's_assert(p.extra(){sel}.n() == unsafe {{ LOGS[0].nodes }}, 40); s_assert(p.extra_mut(){sel}.n() == unsafe {{ LOGS[0].nodes }}, 40);' + (f' s_assert(p.extra().1 == 9, 40);' if sel else '')
        okpat = 'Ok((v, x))'
        okchk = f's_assert(x{sel}.n() == unsafe {{ LOGS[0].nodes }}, 41);'
        errchk = f'let x = p.into_extra(); s_assert(x{sel}.n() == unsafe {{ LOGS[0].nodes }}, 41);'
    else:
        new, okpat, okchk, errchk = f'{mod}::Parser::new()', 'Ok(v)', '', ''
    acc = 's_assert(t.extra().is(v), 42); t.extra_mut().flip(); s_assert(t.extra().is(v ^ 0x100), 42); t.extra_mut().flip(); s_assert(tok_g%s(k, v).into_extra().is(v), 42);' % ('::<' + ', '.join({'a': "'_"}.get(p, p) for p in d.torder if p != 'a') + '>' if [p for p in d.torder if p != 'a'] else '') if g.extra_tok else ''
    T = len(g.terms)
    typed = g.type_of(g.start_sym) is not None
    res = 'cv(v)' if typed else '0'
    if quiet:   # the reductions made before an error leave no trace: only verdicts, then stop
        feed = lambda k, v: f'r.feed(&TAB, 1, {k}, {v})'
        bad = 's_assert(want == 0, 2); s_reach(2); return;'
        badfin = 's_assert(want == 0, 6); s_reach(5); return;'
    else:
        feed = lambda k, v: f'r.feed_err(&TAB, 1, 0, {k}, {v}, {str(exp).lower()})'
        bad = f's_assert(want == FAILED, 2); s_assert(Er::er(e) == r.ecode, 3); s_reach(2); logs_equal(0, 1, 10); {chk} {errchk} return;'
        badfin = 's_assert(want == FAILED, 6); s_assert(Er::er(e) == r.ecode, 7); s_reach(5);'
    calls = ' '.join(f'{i} => run{a}(),' for i, a in enumerate(inst[:-1])) + f' _ => run{inst[-1]}(),'
    src = PRE + l.rust('TAB') + src + fns + pay_fn(g, 'pay_g') + f'''
const N: usize = {N};
fn run{body_decl}() {{
    let n = s_range(N as u32 + 1) as usize;
    let mut r = Ref::new();
    r.limit = 100;
    {dflt}
    {mkx}
    let mut p: {PT} = {new};
    let mut i = 0;
    while i < N {{
        if i >= n {{ break; }}
        let k = s_range({T});
        let v = pay_g(k);
        let mut t = tok_g(k, v);
        {acc}
        let got = p.parse(t);
        let want = {feed('k as usize + 1', 'v')};
        match got {{
            Ok(()) => {{ s_assert(want == SHIFTED || want == RECOVERED, 1); {chk} }}
            Err(e) => {{ {bad} }}
        }}
        i += 1;
    }}
    let got = p.end_of_input();
    let want = {feed('0', '0')};
    match got {{
        {okpat} => {{ s_assert(want == ACCEPTED, 4); s_assert({res} == r.result, 5); {okchk} s_reach(1); }}
        Err(e) => {{ {badfin} }}
    }}
    logs_equal(0, 1, 10);
}}
#[unsafe(no_mangle)] pub fn h_gen() {{
    reset();
    unsafe {{ ASK = {str(ask).lower()}; }}
    match s_range({len(inst)}) {{ {calls} }}
    log_out(0);
}}
'''
    lab = {1: 'parse() returned Ok where the grammar and the handlers call for an error', 2: 'parse() returned Err where parsing should go on',
           3: 'parse() returned another error value', 4: 'accepted at end of input against the grammar',
           5: 'the result is not the value of the start symbol', 6: 'rejected at end of input against the grammar', 7: 'end_of_input() returned another error value',
           10: 'number of actions and handler calls differs', 11: 'actions, handler calls, their order or what they received differ',
           42: 'the location of a token is not the one it was made with', 43: 'an attribute of a symbol is not on its variant',
           40: 'the extra argument seen by the actions is not that of the parser', 41: 'the extra argument given back is not the one of the parser'}
    about = f'Token{d.decl(d.torder)} Parser{d.decl(d.porder)} extra {d.extra} error {d.err}; grammar {flat(g)}'
    return Harness(name, src, [Entry('h_gen', time=100)], labels=lab, about=about, bounds=f'n<={N}, instances {inst}')


def ok(g):
    return all(len(r.rhs) == 1 for r in g.rules if r.nocode)


def check(run):
    q = run.tier == 'quick'
    gs = [Gram(k, v) for k, v in list(CURATED.items()) + list(ERRORS.items()) + list(FW.items())]
    gs += [g for g in (Gram(k, v) for k, v in SUGAR.items()) if not g.types and ok(g)]
    for i in range(20 if q else 120):
        gs.append(random_gram(run.rng, f'r{i}', null=(0.1, 0.3)[i % 2]))
        gs.append(random_fw(run.rng, f'fw{i}'))
        gs.append(random_sugar(run.rng, f'su{i}'))
        gs.append(random_err_gram(run.rng, f'er{i}', nt=(2, 4), nnt=(2, 3)))
        gs.append(random_combo(run.rng, f'co{i}'))
    hs = []
    for i, g in enumerate(gs):
        if run.only and run.only not in g.name or not ok(g) or len(g.terms) > 40:
            continue
        g.types = {}
        d = Deco(run.rng, g, i)
        # optional symbols and forwarding are invisible to the reference before an error
        quiet = any(r.nocode for r in g.rules) or any(it.opt for r in g.rules for it in r.rhs)
        hs.append(source(d, ncap(g, 250 if q else 2500), f'gen_{g.name}', exp=not quiet and i % 2 == 0, quiet=quiet))
    run.run(hs)
    need(run, [1, 2, 5], 30)
    return run.finish(
        bounds=dict(grammars=len(hs), token_sequence_length='chosen per grammar', instances='two per grammar'), outside='other grammars, declarations and instances; longer inputs',
        explanation='the same grammar is declared with lifetime, type and const parameters on Token and Parser, bounds inline and in where clauses, defaults, attributes, visibilities, several %include items, '
                    'generic symbol types, %error types and %extra_argument types; two instantiations chosen symbolically are run beside the reference machine: verdicts, handler calls, actions, values, errors and the extra value must agree',
        extra=dict(configs=[dict(name=h.name, about=h.about) for h in hs][:60]))
