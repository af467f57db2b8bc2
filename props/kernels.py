"""functions of the generator executed alone on symbolic data: a copy of its sources with a harness appended"""
import os
import shutil
from vlib.runner import Harness, Entry, REPO


def kernel(run, name, code, entries, labels, about):
    d = os.path.join(run.replays, 'src-' + name)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(REPO, 'pomelo-impl/src'), d)
    p = os.path.join(d, 'parser', 'mod.rs')
    if not os.path.exists(p):
        p = os.path.join(d, 'parser.rs')
    if not os.path.exists(p):
        run.notes.append(f'kernel {name}: no parser module in this tree')
        return []
    with open(p, 'a') as f:
        f.write('\npub mod kern { #![allow(unused)] use super::*; use crate::*;\n' + code + '\n}\n')
    src = '#[macro_use] extern crate quote;\n#[macro_use] extern crate syn;\n' + f'#[path = "{d}/decl.rs"] mod decl;\n#[path = "{p}"] mod parser;\n'
    src += ''.join(f'pub use parser::kern::{e.name};\n' for e in entries)
    return [Harness(name, src, entries, labels=labels, about=about, externs=('syn', 'quote', 'proc_macro2'), kernel=True)]


def acttab(run, name, rows, width, nact, time=200):
    code = f'''
const R: usize = {rows};
const L: usize = {width};
#[unsafe(no_mangle)] pub fn h_acttab() {{
    reset();
    let mut tab = ActTab::new();
    let mut ofs = [0i32; R];
    let mut want = [[None::<usize>; L]; R];
    let mut last = L;
    let mut r = 0;
    while r < R {{
        // rows come sorted by size, largest first
        let mask = s_conc(s_range(1 << L) as u64) as u32;
        s_assume(mask != 0 && mask.count_ones() as usize <= last);
        last = mask.count_ones() as usize;
        let mut set = ActionSet::new();
        let mut k = 0;
        while k < L {{
            if mask >> k & 1 != 0 {{
                let a = s_range({nact}) as usize;
                set.add_action(k, a);
                want[r][k] = Some(a);
            }}
            k += 1;
        }}
        ofs[r] = tab.insert_action_set(&set);
        r += 1;
    }}
    let mut r = 0;
    while r < R {{
        let mut k = 0;
        while k < L {{
            let i = ofs[r] + k as i32;
            let mut got = None;
            if i >= 0 && (i as usize) < tab.a_action.len() {{
                if let Some(x) = tab.a_action[i as usize] {{ if x.lookahead == k {{ got = Some(x.action); }} }}
            }}
            match (got, want[r][k]) {{
                (Some(a), Some(b)) => s_assert(a == b, 1),
                (None, None) => {{}}
                (Some(_), None) => s_assert(false, 2),
                (None, Some(_)) => s_assert(false, 3),
            }}
            k += 1;
        }}
        r += 1;
    }}
    s_reach(1);
}}
'''
    return kernel(run, name, code, [Entry('h_acttab', reach=[1], time=time)],
                  {1: 'a lookup gives the action of another state', 2: 'a lookup finds an action the state does not have', 3: 'an action of the state is lost'},
                  f'packing of {rows} action rows over {width} symbols')


def cut(src, name):
    """the text of a free function"""
    i = src.find(f'\nfn {name}(')
    if i < 0:
        return None
    j = src.find('\n}', i)
    return src[i:j + 2]


def types(run, name='types'):
    """the choice of the tables' integer types, for every pair of limits"""
    p = os.path.join(REPO, 'pomelo-impl/src/parser/mod.rs')
    text = open(p).read() if os.path.exists(p) else ''
    fns = [cut(text, 'minimum_signed_type'), cut(text, 'minimum_unsigned_type')]
    if None in fns:
        run.notes.append('kernel types: the functions that choose the integer types are not where they were')
        return []
    src = '''
// what the functions need of syn and proc_macro2: an identifier is its text
#[derive(Clone, Copy)] struct Ident(&'static str);
#[derive(Clone, Copy)] struct Span;
impl Span { fn call_site() -> Span { Span } }
impl Ident { fn new(s: &'static str, _: Span) -> Ident { Ident(s) } }
macro_rules! parse_quote { ($t:ident) => { Ident(stringify!($t)) } }
macro_rules! format_ident { ($t:literal) => { Ident($t) } }
''' + ''.join(fns) + '''
#[unsafe(no_mangle)] pub fn h_signed() {
    reset();
    let min = s_u32() as i32;
    let max = s_u32() as i32;
    s_assume(min <= 0 && max >= 0);
    let t = minimum_signed_type(min, max).0;
    let n = if t == "i8" { 8 } else if t == "i16" { 16 } else if t == "i32" { 32 } else { 63 };
    let lim = 1i64 << (n - 1);
    s_assert(min as i64 >= -lim && (max as i64) < lim, 1);
    if n == 8 { s_reach(1) }
    if n == 16 { s_reach(2) }
    if n == 32 { s_reach(3) }
}
#[unsafe(no_mangle)] pub fn h_unsigned() {
    reset();
    let max = s_u32() as usize;
    let t = minimum_unsigned_type(max).0;
    let n = if t == "u8" { 8 } else if t == "u16" { 16 } else if t == "u32" { 32 } else { 63 };
    // called with states + rules + 5; the largest action is states + rules + 1
    s_assert(max as u64 <= 4 || (max as u64 - 4) < 1u64 << n, 1);
    if n == 8 { s_reach(1) }
    if n == 16 { s_reach(2) }
    if n == 32 { s_reach(3) }
}
'''
    return [Harness(name, src, [Entry('h_signed'), Entry('h_unsigned')], labels={1: 'a table entry does not fit the integer type chosen for it'},
                    about='choice of integer types', externs=(), kernel=True)]


def acttab_kernels(run, q):
    k = types(run) + acttab(run, 'act3x3', 3, 3, 2) + acttab(run, 'act2x5', 2, 5, 3) + acttab(run, 'act4x2', 4, 2, 2) + acttab(run, 'act3x4', 3, 4, 1)
    if not q:
        k += acttab(run, 'act3x4a', 3, 4, 2, 800) + acttab(run, 'act4x3', 4, 3, 2, 800) + acttab(run, 'act2x7', 2, 7, 2, 800) + acttab(run, 'act3x5', 3, 5, 1, 800) + acttab(run, 'act5x3', 5, 3, 1, 800)
    return k
