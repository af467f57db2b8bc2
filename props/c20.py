"""C20: no token sequence makes a parser panic, loop or corrupt memory"""
import math
from vlib.corpus import CURATED, ERRORS, random_gram, random_err_gram
from vlib.grammar import Gram
from vlib.hgen import access_seqs, helpers, proto_decls, flat, T_ENTRY
from vlib.lalr import LALR
from vlib.runner import Harness, Entry
from props.combo import random_combo, combo_types
from props.ctx import ctx
from props.common import mixed, MIX, need, some_units
from props.fw import FW, random_fw, random_fw_prec
from props.fwcheck import fb_types
from props.prec import CUR, random_ops, random_prec
from props.sugar import SUGAR, random_sugar, random_altprec, sugar_types
from props.c13 import STACK

LAB = {1: 'more actions and handler calls than the input can account for'}


def endless(l, steps=400):
    """precedences can settle conflicts in favour of reductions that never end: is there a
    (state, token) from which the reductions go on without using the stack below?"""
    for s in range(l.nstates):
        for t in range(len(l.terms) + 1):
            st = [s]
            for _ in range(steps):
                a = l.act[st[-1]][t]
                if a >= 0:
                    break
                p = l.prods[-a - 1]
                if len(p.rhs) >= len(st):
                    break
                if p.rhs:
                    del st[-len(p.rhs):]
                g = l.goto[st[-1]][l.nnum[p.lhs]]
                if g == 32000 or g == 0:
                    break
                st.append(g - 1)
            else:
                return True
    return False


def total(g, N, name, limit=None, stack=None, ask=True, fail=0, ev=None):
    """handlers answer as they like, actions may fail: only panics, memory errors and endless runs are looked for"""
    T = len(g.terms)
    rc = None
    if fail:
        def rc(i):
            t = g.type_of(g.rules[i].lhs)
            return f'let r = {g.actions(0, i)}; crate::act_try(0, {i})?; ' + ('r' if t else '')
    ev = ev or 40 * (N + 2)
    src = (STACK if stack else '') + g.rust('g', 0, extra_decls=proto_decls(g, 'g', 0, T <= 60, limit, stack), rule_code=rc) + helpers(g, 'g') + f'''
const N: usize = {N};
#[unsafe(no_mangle)] pub fn h_total() {{
    reset();
    unsafe {{ ASK = {str(ask).lower()}; }}
    {f'let f = s_range({fail + 1}); unsafe {{ FAILAT[0] = f; }}' if fail else ''}
    let n = s_range(N as u32 + 1) as usize;
    let mut p = g::Parser::new();
    let mut i = 0;
    while i < N {{
        if i >= n {{ break; }}
        let k = s_range({T});
        if p.parse(tok_g(k, pay_g(k))).is_err() {{ s_reach(2); s_assert(unsafe {{ LOGS[0].n }} < {ev}, 1); return; }}
        i += 1;
    }}
    match p.end_of_input() {{ Ok(_) => s_reach(1), Err(_) => s_reach(3) }}
    s_assert(unsafe {{ LOGS[0].n }} < {ev}, 1);
}}
'''
    return Harness(name, src, [Entry('h_total', time=T_ENTRY)], labels=LAB, about='grammar ' + flat(g) + (f' ; stack {limit}' if limit is not None else ''), bounds=f'n<={N}',
                   info=dict(consts=dict(LOGCAP=1000)))


def total_cover(g, l, M, name):
    """from every state (reached by a fixed token sequence) M arbitrary tokens and the end of input"""
    T = len(g.terms)
    seqs = access_seqs(l, 36)
    flat_ = [t - 1 for s in seqs for t in s] or [0]
    ofs = [0]
    for s in seqs:
        ofs.append(ofs[-1] + len(s))
    ev = 40 * (max(map(len, seqs)) + M + 2)
    src = g.rust('g', 0, extra_decls=proto_decls(g, 'g', 0, False)) + helpers(g, 'g') + f'''
static SEQ: [u16; {len(flat_)}] = [{', '.join(map(str, flat_))}];
static OFS: [u16; {len(ofs)}] = [{', '.join(map(str, ofs))}];
#[unsafe(no_mangle)] pub fn h_total() {{
    reset();
    unsafe {{ ASK = true; }}
    let s = s_conc(s_range({len(seqs)}) as u64) as usize;
    let mut p = g::Parser::new();
    let mut i = OFS[s] as usize;
    while i < OFS[s + 1] as usize {{
        let k = SEQ[i] as u32;
        if p.parse(tok_g(k, pay_g(k))).is_err() {{ s_reach(2); return; }}
        i += 1;
    }}
    let n = s_range({M + 1});
    let mut i = 0;
    while i < {M} {{
        if i >= n {{ break; }}
        let k = s_range({T});
        if p.parse(tok_g(k, pay_g(k))).is_err() {{ s_reach(2); s_assert(unsafe {{ LOGS[0].n }} < {ev}, 1); return; }}
        i += 1;
    }}
    match p.end_of_input() {{ Ok(_) => s_reach(1), Err(_) => s_reach(3) }}
    s_assert(unsafe {{ LOGS[0].n }} < {ev}, 1);
}}
'''
    return Harness(name, src, [Entry('h_total', time=T_ENTRY)], labels=LAB, about='grammar ' + flat(g)[:1500], bounds=f'{len(seqs)} states x {M} tokens',
                   info=dict(consts=dict(LOGCAP=max(1000, ev + 100))))


# pomelo! refuses these; if it accepted one, no input must make the parser panic
DOUBTFUL = {
    # compound symbols with an alias whose tokens have different types
    'mix2': ('%type A u32; %type B bool;', 'input ::= A|B(x) { let _ = x; }'),
    'mix3a': ('%type A u32; %type B bool; %type C u32;', 'input ::= A|B|C(x) { let _ = x; }'),
    'mix3b': ('%type A u32; %type B u32; %type C bool;', 'input ::= A|B|C(x) Z { let _ = x; }'),
    'mix3c': ('%type A u32; %type B u32;', 'input ::= Z A|B|C(x) { let _ = x; }'),
    'mix4': ('%type A u32; %type B bool; %type C bool; %type D u32;', 'input ::= A|B|C|D(x) { let _ = x; }'),
    'mixunit': ('%type B bool;', 'input ::= A|B(x) { let _ = x; }'),
    'mixcls': ('%type A u32; %type B bool; %type C u32; %token_class K A B C;', 'input ::= K(x) { let _ = x; }'),
    'mixcls2': ('%type A u32; %type B u32; %type C bool; %token_class K A L; %token_class L B C;', 'input ::= Z K(x) { let _ = x; }'),
    'mixdef': ('%default_type u32; %type B bool;', 'input ::= A|C|B(x) { let _ = x; 0 }'),
    'mixopt': ('%type A u32; %type B bool; %type C u32;', 'input ::= A|B|C?(x) Z { let _ = x; }'),
    # fallbacks between tokens of different types
    'fb1': ('%type A u32; %type B bool; %fallback A B;', 'input ::= A(x) Z { let _ = x; } input ::= B;'),
    'fb2': ('%type A u32; %fallback A B;', 'input ::= Z A(x) { let _ = x; }'),
    'fb3': ('%type A u32; %type B u32; %type C bool; %fallback A B; %fallback B C;', 'input ::= A(x) { let _ = x; }'),
    'fb4': ('%type A u32; %type C bool; %fallback A B; %fallback B C;', 'input ::= A(x) { let _ = x; }'),
    'fb5': ('%type A u32; %type B u32; %type C bool; %fallback A B C;', 'input ::= A(x) { let _ = x; }'),
    'fb6': ('%type A u32; %type B bool; %type C u32; %fallback A B C;', 'input ::= A(x) { let _ = x; }'),
    'fb7': ('%default_type u32; %type B bool; %fallback A B;', 'input ::= A(x) { x }'),
    'fb8': ('%type A u32; %type B bool; %extra_token u32; %fallback A B;', 'input ::= A((_, x)) { let _ = x; }'),
    # fallbacks that go round
    'round1': ('%fallback A A;', 'input ::= B A; input ::= C;'),
    'round2': ('%fallback A B; %fallback B A;', 'input ::= C A; input ::= D;'),
    'round3': ('%fallback A B; %fallback B C; %fallback C A;', 'input ::= Z A; input ::= D;'),
    'round4': ('%fallback A B; %fallback B C; %fallback C D; %fallback D A;', 'input ::= Z A; input ::= E;'),
    'round5': ('%fallback A B; %fallback C A; %fallback B E C;', 'input ::= Z A; input ::= D;'),
    'round6': ('%fallback B C; %fallback A B; %fallback C F A;', 'input ::= Z A; input ::= D;'),
    # the start symbol inside rules
    'start1': ('', 'input ::= A; input ::= input B;'),
    'start2': ('', 'input ::= A; input ::= B input;'),
    'start3': ('', 'input ::= A x C; input ::= B; x ::= D input E; x ::= F;'),
    'start4': ('', 'input ::= x A; x ::= B; x ::= input C;'),
    'start5': ('', 'input ::= ; input ::= input A;'),
    'start6': ('%start_symbol s;', 's ::= x; x ::= A; x ::= x B; x ::= C s;'),
    'start7': ('', 'input ::= A input? B;'),
    # wildcards with a type or alias
    'wild1': ('%wildcard W; %type W u32;', 'input ::= A W(x) { let _ = x; }'),
    'wild2': ('%wildcard W;', 'input ::= A W(x) { let _ = x; }'),
    'wild3': ('%wildcard W; %default_type u32;', 'input ::= A W(x) { 1 }'),
    'wild4': ('%wildcard W; %type A u32;', 'input ::= Z A|W(x) { let _ = x; }'),
    'wild5': ('%wildcard W; %type A u32; %fallback W A;', 'input ::= Z A(x) { let _ = x; } input ::= W Y;'),
    'wild6': ('%wildcard W; %fallback A W; %type A u32;', 'input ::= Z A(x) { let _ = x; } input ::= W Y;'),
    'wild7': ('%wildcard W; %token_class W A B;', 'input ::= Z W;'),
    # nonterminals without rules; rules without code
    'norule1': ('', 'input ::= A x; input ::= B;'),
    'norule2': ('%type x u32;', 'input ::= A; input ::= B x(v) C { let _ = v; }'),
    'norule3': ('%start_symbol s;', 'input ::= A;'),
    'nocode1': ('%type input u32; %type A u32; %type B bool;', 'input ::= A B;'),
    'nocode2': ('%type input u32; %type A bool;', 'input ::= A;'),
    'nocode3': ('%type input u32;', 'input ::= A;'),
    'nocode4': ('%type x u32; %type A u32; %type B bool;', 'input ::= x; x ::= A|B;'),
    'nocode5': ('%type x u32; %type A u32; %type B bool; %token_class K A B;', 'input ::= x Z; x ::= K;'),
    # the error symbol in odd places
    'err1': ('', 'input ::= A error|B;'),
    'err2': ('', 'input ::= A; error ::= B;'),
    'err3': ('', 'error ::= A;'),
    'err4': ('', 'input ::= error? A;'),
    'err5': ('', 'input ::= error error A; input ::= B;'),
    'err6': ('%start_symbol error;', 'input ::= A;'),
    # compound symbols that contain odd things
    'cls1': ('%token_class K A B; %fallback K C;', 'input ::= Z K; input ::= Y K C;'),
    'cls2': ('%token_class K A B; %fallback A K;', 'input ::= Z K; input ::= Y A Y;'),
    'cls3': ('%token_class K A B; %left K;', 'input ::= e; e ::= e K e; e ::= N;'),
    'cls4': ('%token_class K A B; %type K u32; %type A u32; %type B u32;', 'input ::= Z K(x) { let _ = x; }'),
    'cls5': ('%token_class K A B; %token_class L K C; %wildcard K;', 'input ::= Z L;'),
    'cls6': ('', 'input ::= A|A B; input ::= C|A|C D;'),
}


def doubtful(k, N=3):
    import re
    decl, rules = DOUBTFUL[k]
    names = {}
    typed = dict(re.findall(r'%type ([A-Z]\w*) (\w+);', decl))
    dflt = re.search(r'%default_type (\w+);', decl)
    extra = '%extra_token' in decl
    cls = set(re.findall(r'%token_class (\w+)', decl))
    wild = set(re.findall(r'%wildcard (\w+)', decl))
    toks = [t for t in dict.fromkeys(re.findall(r'\b[A-Z]\w*\b', decl + ' ' + rules)) if t not in cls]
    val = dict(u32='s_u32()', bool='s_bool()')

    def tok(t):
        ty = typed.get(t) or (dflt.group(1) if dflt and t not in wild else None)
        if extra:
            return f'Token::{t}((7, {val[ty]}))' if ty else f'Token::{t}(7)'
        return f'Token::{t}({val[ty]})' if ty else f'Token::{t}'
    arms = ' '.join(f'{i} => g::{tok(t)},' for i, t in enumerate(toks[:-1])) + f' _ => g::{tok(toks[-1])},'
    src = f'''
pomelo::pomelo! {{ %module g; %token #[derive(Clone)] pub enum Token {{}};
%syntax_error {{ if crate::s_bool() {{ Err(()) }} else {{ Ok(()) }} }}
{decl} {rules} }}
#[unsafe(no_mangle)] pub fn h_total() {{
    let n = s_range({N + 1});
    let mut p = g::Parser::new();
    let mut i = 0;
    while i < {N} {{
        if i >= n {{ break; }}
        let t = match s_range({len(toks)}) {{ {arms} }};
        if p.parse(t).is_err() {{ return; }}
        i += 1;
    }}
    let _ = p.end_of_input();
}}
'''
    h = Harness('doubt_' + k, src, [Entry('h_total', time=T_ENTRY)], labels=LAB, about=f'{decl} {rules}', bounds=f'n<={N}')
    h.maybe = True
    return h


# precedences that settle a conflict for a reduction that changes nothing, or that pushes for ever
LOOPS = {
    'loop_cycle': ('''
%left B
%left H
input ::= a B
a ::= X
a ::= a [H]''', None, 2),
    'loop_hidden': ('''
%left X Y
%left H
input ::= a
a ::= n a X
a ::= Y
n ::= [H]''', 0, 1),
}


def check(run):
    q = run.tier == 'quick'
    gs = []
    for d in (CURATED, ERRORS, FW, CUR, SUGAR):
        gs += [Gram(k, v) for k, v in d.items()]
    for i in range(14 if q else 80):
        gs.append(random_gram(run.rng, f'r{i}', nt=(2, 6), null=(0.1, 0.3)[i % 2]))
        gs.append(random_err_gram(run.rng, f'er{i}', nt=(2, 4), nnt=(2, 3), null=(0.1, 0.3)[i % 2]))
        gs.append(random_fw(run.rng, f'fw{i}'))
        gs.append(random_fw_prec(run.rng, f'fp{i}'))
        gs.append(random_ops(run.rng, f'op{i}'))
        gs.append(random_prec(run.rng, f'pr{i}'))
        gs.append(random_sugar(run.rng, f'su{i}'))
        gs.append(random_altprec(run.rng, f'ap{i}'))
    for i in range(40 if q else 200):
        gs.append(random_combo(run.rng, f'co{i}', silent=True))
    hs = []
    lim = 2000 if q else 40000
    for i, g in enumerate(gs):
        l = LALR(g)
        if endless(l):
            continue
        sugary = any(it.opt or len(g.item_names(it)) > 1 for r in g.rules for it in r.rhs) or any(r.nocode for r in g.rules)
        if g.name.startswith('co'):
            combo_types(run.rng, g)
        elif g.fallback:
            fb_types(run.rng, g, i % 3)
        elif sugary:
            if not any(s != g.wildcard for s in g.types):
                sugar_types(run.rng, g, i)
        elif i % 3:
            mixed(run.rng, g, MIX + ['()', "&'static u32"])
        if g.uses_error and i % 2 and 'error' not in g.types:
            g.types['error'] = run.rng.choice(['u32', '()', 'crate::Pair'])
        if run.only and run.only not in g.name:
            continue
        T = len(g.terms)
        # every erroneous token doubles the paths when the handler is asked
        ask = i % 3 != 2
        live = T + (0.4 if ask else 0)
        N = max(3, min(10, int(math.log(lim) / math.log(max(2, live)))))
        fail = 6 if i % 5 == 4 and not any(r.nocode for r in g.rules) else 0
        if fail:
            N = max(3, N - 1)
        hs.append(total(g, N, f'tot_{g.name}', limit=(None, 0, None, 3, None, 5)[i % 6], stack='crate::MyStack' if i % 7 == 6 else None, ask=ask, fail=fail))
    # deep states: from every one any tokens
    for i in range(30 if q else 150):
        k = i % 5
        g = ctx(run.rng, f'cx{i}', kern=i % 2 == 1 and k != 4, wc=k in (0, 1), fb=k in (1, 2), err=k in (0, 3), prec=k == 4)
        l = LALR(g)
        if g.fallback or g.wildcard:
            l.apply_fallback()
            fb_types(run.rng, g, i)
        elif i % 3:
            mixed(run.rng, g, MIX + ['()', "&'static u32"])
        if not run.only or run.only in g.name:
            hs.append(total_cover(g, l, 2 if l.nstates * len(g.terms) ** 2 < (20000 if q else 200000) else 1, f'tot_{g.name}'))
    for k in DOUBTFUL:
        if not run.only or run.only in 'doubt_' + k:
            hs.append(doubtful(k))
    for k, (text, limit, n) in LOOPS.items():
        if not run.only or run.only in k:
            hs.insert(0, total(Gram(k, text), n, k, limit=limit))
    run.run(hs)
    need(run, [1, 2, 3], 30)
    return run.finish(
        bounds=dict(grammars=len(hs), token_sequence_length='3..10, every sequence, whatever the handlers answer'),
        outside='other grammars; longer inputs; handlers and actions that panic', explanation='all constructs, value types, stack limits and stack types; the executor reports every reachable panic (internal assertions, '
        'arithmetic overflow, index out of bounds, unreachable!), every out-of-bounds or freed memory access and every run that does not end; the number of events is bounded too')
