"""Harness builders shared by several properties."""
from vlib.grammar import Gram
from vlib.lalr import LALR, cnf_rust, cnf
from vlib.runner import Harness, Entry


T_ENTRY = 100


def member(g, N, name=None, reach=(1, 2)):
    """whole-sequence membership against CYK"""
    T = len(g.terms)
    eps = cnf(g)['eps']
    src = cnf_rust(g, 'CNF') + g.rust('g', 0) + g.tok_fn('g', 'tok') + f'''
const N: usize = {N};
#[unsafe(no_mangle)] pub fn h_member() {{
    reset();
    let n = s_range(N as u32 + 1) as usize;
    let mut toks = [0u32; CYN];
    let mut p = g::Parser::new();
    let mut failed = false;
    let mut i = 0;
    while i < N {{
        if i >= n {{ break; }}
        let k = s_range({T});
        toks[i] = k;
        if !failed && p.parse(tok(k, i as u32)).is_err() {{ failed = true; }}
        i += 1;
    }}
    let inl = if n == 0 {{ CNF.eps }} else {{ cyk(&CNF, &toks, n) & CNF.start != 0 }};
    if failed {{
        s_assert(!inl, 1); s_reach(1);
    }} else if p.end_of_input().is_ok() {{
        s_assert(inl, 2); s_reach(2);
    }} else {{
        s_assert(!inl, 3); s_reach(3);
    }}
}}
'''
    return Harness(name or f'member_{g.name}', src, [Entry('h_member', reach=reach, time=T_ENTRY)],
                   labels={1: 'a sentence of the grammar was rejected before its end',
                           2: 'a sequence that is not a sentence was accepted',
                           3: 'a sentence of the grammar was rejected at end of input'},
                   about='grammar ' + flat(g), bounds=f'n<={N}')


def prefix(g, N, name=None, reach=(1, 2, 3)):
    """eager detection: each token is accepted iff the prefix is viable"""
    T = len(g.terms)
    src = cnf_rust(g, 'CNF') + g.rust('g', 0) + g.tok_fn('g', 'tok') + f'''
const N: usize = {N};
#[unsafe(no_mangle)] pub fn h_prefix() {{
    reset();
    let n = s_range(N as u32 + 1) as usize;
    let mut toks = [0u32; CYN];
    let mut p = g::Parser::new();
    let mut i = 0;
    while i < N {{
        if i >= n {{ break; }}
        let k = s_range({T});
        toks[i] = k;
        let ok = p.parse(tok(k, i as u32)).is_ok();
        let viable = cyk(&CNF, &toks, i + 1) & CNF.prefix != 0;
        if ok {{ s_assert(viable, 1); s_reach(1); }} else {{ s_assert(!viable, 2); s_reach(2); return; }}
        i += 1;
    }}
    let inl = if n == 0 {{ CNF.eps }} else {{ cyk(&CNF, &toks, n) & CNF.start != 0 }};
    if p.end_of_input().is_ok() {{ s_assert(inl, 3); s_reach(3); }} else {{ s_assert(!inl, 4); s_reach(4); }}
}}
'''
    return Harness(name or f'prefix_{g.name}', src, [Entry('h_prefix', reach=reach, time=T_ENTRY)],
                   labels={1: 'a token after which no sentence is possible was accepted',
                           2: 'a token that continues a viable prefix was rejected',
                           3: 'an incomplete input was accepted at end of input', 4: 'a sentence was rejected at end of input'},
                   about='grammar ' + flat(g), bounds=f'n<={N}')


def flat(g):
    return ' ; '.join(x.strip() for x in g.text.strip().split('\n'))


def lockstep(g, N, name=None, default_red=False, recog=False, labels=None, reach=(1, 2, 3), lalr=None, errs=True):
    """the generated parser next to the reference LALR(1) machine: same verdict on
    every token, same actions with the same arguments, same result"""
    l = lalr or LALR(g)
    if (g.fallback or g.wildcard) and not hasattr(l, 'raw_act'):
        l.apply_fallback()
    T = len(g.terms)
    typed = g.type_of(g.start_sym) is not None
    res = 'cv(v)' if typed else '0'
    src = l.rust('TAB') + g.rust('g', 0) + g.tok_fn('g', 'tok') + pay_fn(g, 'pay', 'v') + f'''
const N: usize = {N};
#[unsafe(no_mangle)] pub fn h_lockstep() {{
    reset();
    let n = s_range(N as u32 + 1) as usize;
    let mut p = g::Parser::new();
    let mut r = Ref::new();
    let mut i = 0;
    while i < N {{
        if i >= n {{ break; }}
        let k = s_range({T});
        let v = pay(k);
        let want = r.feed(&TAB, 1, k as usize + 1, v);
        let ok = p.parse(tok(k, v)).is_ok();
        s_assert(ok == (want == 1), 1);
        if want != 1 {{ s_reach(2); return; }}
        i += 1;
    }}
    let want = r.feed(&TAB, 1, 0, 0);
    match p.end_of_input() {{
        Ok(v) => {{ s_assert(want == 2, 3); logs_equal(0, 1, 10); s_assert({res} == r.result, 4); log_out(0); s_reach(1); }}
        Err(_) => {{ s_assert(want == 0, 5); s_reach(3); }}
    }}
}}
'''
    lab = {1: 'verdict on a token differs from the grammar', 3: 'accepted at end of input against the grammar',
           4: 'the result is not the value of the start symbol', 5: 'rejected at end of input against the grammar',
           10: 'number of action events differs', 11: 'actions, their order or the values they received differ'}
    lab.update(labels or {})
    return Harness(name or f'lock_{g.name}', src, [Entry('h_lockstep', reach=reach, time=T_ENTRY)], labels=lab,
                   about='grammar ' + flat(g), bounds=f'n<={N}')


# ------------------------------------------------------------- error protocol
def units(g):
    return [k for k, t in enumerate(g.terms) if g.type_of(t) is None]


def untok_fn(g, mod, fname):
    arms = []
    for k, t in enumerate(g.terms):
        arms.append(f'{mod}::Token::{t}(x) => ({k}, crate::cv(x)),' if g.type_of(t) else f'{mod}::Token::{t} => ({k}, 0),')
    return f'pub fn {fname}(t: {mod}::Token) -> (u32, u32) {{ match t {{ {" ".join(arms)} }} }}\n'


def helpers(g, mod, terms=None):
    """functions the handlers of a protocol grammar use"""
    terms = terms or g.terms
    u = sum(1 << k for k in units(g) if k < 64)
    return (g.tok_fn(mod, f'tok_{mod}') + untok_fn(g, mod, f'untok_{mod}') +
            f'pub fn nameidx_{mod}(n: &str) -> u32 {{ match n {{ ' + ' '.join(f'"{t}" => {k},' for k, t in enumerate(terms)) + ' _ => 64 } }\n' +
            f'const UNITS_{mod}: u64 = {u};\n' +
            f'#[inline(always)] pub fn untoko_{mod}(t: Option<{mod}::Token>) -> (u32, u32) {{ match t {{ Some(t) => untok_{mod}(t), None => (NOTOK, 0) }} }}\n' +
            pay_fn(g, f'pay_{mod}'))


def pay_fn(g, name, untyped='0'):
    """a symbolic payload, constant where the type of the token can hold only one value"""
    if len(g.terms) > 64:
        same = set(g.type_of(t) for t in g.terms)
        assert same in ({'u32'}, {None}), 'large grammars use one type'
        return f'#[inline(always)] fn {name}(k: u32) -> u32 {{ let v = s_u32(); {"v" if same == {"u32"} or untyped == "v" else "0"} }}\n'
    u = sum(1 << k for k in units(g))
    n = sum(1 << k for k, t in enumerate(g.terms) if g.type_of(t) == '()')
    e = 'v'
    if n:
        e = f'if {n}u64 >> k & 1 != 0 {{ UNIT_VAL }} else {{ {e} }}'
    if u and untyped != 'v':
        e = f'if {u}u64 >> k & 1 != 0 {{ {untyped} }} else {{ {e} }}'
    return f'#[inline(always)] fn {name}(k: u32) -> u32 {{ let v = s_u32(); {e} }}\n'


def proto_decls(g, mod, w, exp=True, limit=None, stack=None, omit=0):
    st = g.styler('h')
    er = lambda x: f'return Err({x})' if st(0.3) else f'{{ Err::<(), _>({x})?; unreachable!() }}' if st(0.4) else f'Err({x})'
    lm = lambda n: hex(n) if st(0.2) else f'{n}usize' if st(0.2) else f'{n}_' if st(0.1) else n
    et = g.types.get('error')
    if et:
        ok = 'Ok(x) => Ok(' + ('x' if et == 'u32' else 'crate::mk(x)') + ')'
    else:
        ok = 'Ok(_) => Ok(())'
    e = ('for t in expected { let n = crate::nameidx_%s(t.name); e.add(n, n < 64 && crate::UNITS_%s >> n & 1 != 0, '
         'match t.token { Some(t) => crate::untok_%s(t).0, None => crate::NOTOK }, t.yy_major); }' % (mod, mod, mod)) if exp else 'let _ = expected;'
    if omit:    # handlers left out, and an error type with a default
        dl = ['%error crate::DE;']
        if not omit & 1:
            dl.append(f'%syntax_error {{ let mut e = crate::Exp::new({str(exp).lower()}); {e} match crate::on_syntax({w}, crate::untoko_{mod}(token), &e) {{ {ok}, Err(x) => {er('crate::DE(x)')} }} }}')
        if not omit & 2:
            dl.append(f'%parse_fail {{ crate::DE(crate::on_fail({w})) }}')
        if not omit & 4 and limit != 0:
            dl.append(f'%stack_overflow {{ crate::DE(crate::on_over({w}, crate::untoko_{mod}(token))) }}')
        if limit is not None:
            dl.append(f'%stack_size {lm(limit)}{" " + stack if stack else ""};')
        return '\n'.join(dl)
    L = [f'%error u32;',
         f'%syntax_error {{ let mut e = crate::Exp::new({str(exp).lower()}); {e} match crate::on_syntax({w}, crate::untoko_{mod}(token), &e) {{ {ok}, Err(x) => {er('x')} }} }}',
         f'%parse_fail {{ crate::on_fail({w}) }}']
    if limit != 0:
        L.append(f'%stack_overflow {{ crate::on_over({w}, crate::untoko_{mod}(token)) }}')
    if limit is not None:
        L.append(f'%stack_size {lm(limit)}{" " + stack if stack else ""};')
    return '\n'.join(L)


def proto(g, N, name=None, exp=True, ask=True, limit=None, stack=None, fail=0, lalr=None, reach=(), drops=False, labels=None,
          body_pre='', order=None, time=T_ENTRY, ntok=None, opts=(), omit=0):
    """the whole handler protocol next to the reference machine.
    fail: number of the last action that may be made to fail (symbolic choice)
    drops: values are counted (type crate::D), and the parser may be dropped half way"""
    l = lalr or LALR(g)
    if (g.fallback or g.wildcard) and not hasattr(l, 'raw_act'):
        l.apply_fallback()
    T = ntok or len(g.terms)
    typed = g.type_of(g.start_sym) is not None
    res = 'cv(v)' if typed else '0'
    rc = None
    if fail:
        def rc(i):
            t = g.type_of(g.rules[i].lhs)
            a = g.actions(0, i)
            if i % 2:
                return f'let r = {a}; crate::act_try(0, {i})?; ' + ('r' if t else '')
            return f'let r = {a}; if let Err(e) = crate::act_try(0, {i}) {{ return Err(e{".into()" if omit else ""}); }} ' + ('r' if t else '')
    src = l.rust('TAB') + g.rust('g', 0, extra_decls=proto_decls(g, 'g', 0, exp, limit, stack, omit), rule_code=rc, order=order,
                                 token_attr='' if drops else '#[derive(Clone)]') + helpers(g, 'g') + f'''
const N: usize = {N};
#[unsafe(no_mangle)] pub fn h_proto() {{
    reset();
    unsafe {{ ASK = {str(ask).lower()}; OMIT = {omit}; }}
    {body_pre}
    let n = s_range(N as u32 + 1) as usize;
    {f'let fa = s_range({fail + 1}); unsafe {{ FAILAT[0] = fa; }}' if fail else ''}
    let mut r = Ref::new();
    r.limit = {100 if limit is None else limit};
    {'r.failat = fa;' if fail else ''}
    {{
    let mut p = g::Parser::new();
    let mut i = 0;
    while i < N {{
        if i >= n {{ break; }}
        let k = s_range({T});
        let v = pay_g(k);
        let got = p.parse(tok_g(k, v));
        let want = r.feed_err(&TAB, 1, 0, k as usize + 1, v, {str(exp).lower()});
        match got {{
            Ok(()) => s_assert(want == SHIFTED || want == RECOVERED, 1),
            Err(e) => {{ s_assert(want == FAILED, 2); s_assert(e{'.0' if omit else ''} == r.ecode, 3); s_reach(2); logs_equal(0, 1, 10); {'drop(p); dropped();' if drops else ''} log_out(0); return; }}
        }}
        if want == RECOVERED {{ s_reach(3); }}
        i += 1;
    }}
    {'if s_bool() { drop(p); dropped(); logs_equal(0, 1, 10); s_reach(6); return; }' if drops else ''}
    let got = p.end_of_input();
    let want = r.feed_err(&TAB, 1, 0, 0, 0, {str(exp).lower()});
    match got {{
        Ok(v) => {{ s_assert(want == ACCEPTED, 4); s_assert({res} == r.result, 5); s_reach(1); if r.err > 0 {{ s_reach(4); }} }}
        Err(e) => {{ s_assert(want == FAILED, 6); s_assert(e{'.0' if omit else ''} == r.ecode, 7); s_reach(5); }}
    }}
    }}
    logs_equal(0, 1, 10);
    {'dropped();' if drops else ''}
    log_out(0);
}}
'''
    lab = {1: 'parse() returned Ok where the grammar and the handlers call for an error', 2: 'parse() returned Err where parsing should go on',
           3: 'parse() returned another error value', 4: 'accepted at end of input against the grammar',
           5: 'the result is not the value of the start symbol', 6: 'rejected at end of input against the grammar', 7: 'end_of_input() returned another error value',
           10: 'number of actions and handler calls differs', 11: 'actions, handler calls, their order or what they received differ',
           9991: 'an impossible reduction was made before the error', 9992: 'accepted an erroneous input',
           20: 'a value was dropped twice', 21: 'a value was never dropped'}
    lab.update(labels or {})
    return Harness(name or f'proto_{g.name}', src, [Entry('h_proto', reach=reach, time=time, opts=opts)], labels=lab,
                   about='grammar ' + flat(g) + (f' ; stack {limit}' if limit is not None else ''), bounds=f'n<={N}')


# ---------------------------------------------------------- every state, every token
def access(l):
    """a token sequence into every state that needs no error recovery: {state: [tokens]}"""
    short = {t: [l.tnum[t]] for t in l.terms}
    ch = True
    while ch:
        ch = False
        for p in l.prods:
            if all(x in short for x in p.rhs):
                y = [t for x in p.rhs for t in short[x]]
                if p.lhs not in short or len(y) < len(short[p.lhs]):
                    short[p.lhs] = y
                    ch = True
    # the cheapest path over the transitions
    import heapq
    out = {}
    q = [(0, 0, [])]
    while q:
        n, s, seq = heapq.heappop(q)
        if s in out:
            continue
        out[s] = seq
        for x, t in sorted(l.trans[s].items()):
            if x in short and t not in out:
                heapq.heappush(q, (n + len(short[x]), t, seq + short[x]))
    return out


def cover_m(l, budget=12000):
    """2 if two arbitrary tokens from every state make at most budget paths, else 1"""
    from vlib.plan import simulate
    acc, n, T = access(l), 0, len(l.terms)
    for s in acc:
        st = (0,)
        for t in acc[s]:
            st = simulate(l, st, t, 200)
            if not st or st == 'acc':
                st = None
                break
        if st:
            n += sum(T + 1 if simulate(l, st, t, 200) else 1 for t in range(1, T + 1)) + 1
    return 2 if n <= budget else 1


def access_seqs(l, maxseq=24):
    """the token sequences statecover starts from: into every state that precedence allows to be reached"""
    from vlib.plan import simulate
    acc = access(l)
    good = []
    for s in sorted(acc):
        st, ok = (0,), True
        for t in acc[s]:
            st = simulate(l, st, t, 200)
            if not st or st == 'acc':
                ok = False      # precedence forbids this sequence
                break
        if ok and len(acc[s]) <= maxseq:
            good.append(acc[s])
    good = [list(x) for x in dict.fromkeys(tuple(x) for x in good)]
    return good


def statecovers(g, name, lalr=None, budget=12000, most=10**9, **k):
    """statecover with two tokens where that is cheap, else one, in as many programs as the states need (at most `most`)"""
    l = lalr or LALR(g)
    if (g.fallback or g.wildcard) and not hasattr(l, 'raw_act'):
        l.apply_fallback()
    if cover_m(l, budget) == 2:
        return [statecover(g, name, M=2, lalr=l, **k)]
    step = max(1, budget // (len(l.terms) + 1))
    n = len(access_seqs(l))
    if n <= step:
        return [statecover(g, name, M=1, lalr=l, **k)]
    return [statecover(g, f'{name}_{i}', M=1, lalr=l, part=(i, i + step), **k) for i in list(range(0, n, step))[:most]]


def statecover(g, name, M=2, lalr=None, sample=None, part=None, labels=None, maxseq=24, err=False, exp=True, ask=True, first=None):
    """from every state of the reference machine (reached by a fixed token sequence each) M arbitrary
    tokens and the end of input: verdicts, actions and values as the reference machine's.
    sample: token numbers (0-based) the second and later tokens are taken from; first: the same for the first token; part: range of states"""
    from vlib.plan import simulate
    l = lalr or LALR(g)
    if (g.fallback or g.wildcard) and not hasattr(l, 'raw_act'):
        l.apply_fallback()
    good = access_seqs(l, maxseq)
    if part:
        good = good[part[0]:part[1]]
    T = len(g.terms)
    typed = g.type_of(g.start_sym) is not None
    res = 'cv(v)' if typed else '0'
    flat_ = [t - 1 for s in good for t in s] or [0]
    ofs, o = [], 0
    for s in good:
        ofs.append(o)
        o += len(s)
    ofs.append(o)
    S = len(good)
    pick = lambda n: f's_range({n})' if n <= 256 else f'{{ let hi = s_conc(s_range({(n + 127) // 128}) as u64) as u32; let lo = s_conc(s_range(128) as u64) as u32; let x = hi * 128 + lo; s_assume(x < {n}); x }}'
    samp = sample if sample is not None else list(range(T))
    if err:
        head = l.rust('TAB') + g.rust('g', 0, extra_decls=proto_decls(g, 'g', 0, exp)) + helpers(g, 'g') + 'use tok_g as tok; use pay_g as pay;\n'
        feed = f'r.feed_err(&TAB, 1, 0, k as usize + 1, v, {str(exp).lower()})'
        step = f'''
        let got = p.parse(tok(k, v));
        let want = {feed};
        match got {{
            Ok(()) => {{ s_assert(want == SHIFTED || want == RECOVERED, 1); if want == RECOVERED {{ s_reach(4); }} }}
            Err(e) => {{ s_assert(want == FAILED, 2); s_assert(e == r.ecode, 6); s_reach(2); logs_equal(0, 1, 10); return; }}
        }}'''
        fin = f'''
    let got = p.end_of_input();
    let want = r.feed_err(&TAB, 1, 0, 0, 0, {str(exp).lower()});
    match got {{
        Ok(v) => {{ s_assert(want == ACCEPTED, 3); logs_equal(0, 1, 10); s_assert({res} == r.result, 4); s_reach(1); }}
        Err(e) => {{ s_assert(want == FAILED, 5); s_assert(e == r.ecode, 6); logs_equal(0, 1, 10); s_reach(3); }}
    }}'''
    else:
        head = l.rust('TAB') + g.rust('g', 0) + g.tok_fn('g', 'tok') + pay_fn(g, 'pay', 'v')
        step = '''
        let want = r.feed(&TAB, 1, k as usize + 1, v);
        let ok = p.parse(tok(k, v)).is_ok();
        s_assert(ok == (want == 1), 1);
        if want != 1 { s_reach(2); return; }'''
        fin = f'''
    let want = r.feed(&TAB, 1, 0, 0);
    match p.end_of_input() {{
        Ok(v) => {{ s_assert(want == 2, 3); logs_equal(0, 1, 10); s_assert({res} == r.result, 4); s_reach(1); }}
        Err(_) => {{ s_assert(want == 0, 5); s_reach(3); }}
    }}'''
    src = head + f'''
const M: usize = {M};
static SEQ: [u16; {len(flat_)}] = [{', '.join(map(str, flat_))}];
static OFS: [u16; {S + 1}] = [{', '.join(map(str, ofs))}];
static SAMP: [u16; {len(samp)}] = [{', '.join(map(str, samp))}];
{f'static FIRST: [u16; {len(first)}] = [{', '.join(map(str, first))}];' if first is not None else ''}
#[unsafe(no_mangle)] pub fn h_states() {{
    reset();
    unsafe {{ ASK = {str(ask).lower()}; }}
    let s = s_conc(({pick(S)}) as u64) as usize;
    let mut p = g::Parser::new();
    let mut r = Ref::new();
    r.limit = 100;
    let mut i = OFS[s] as usize;
    while i < OFS[s + 1] as usize {{
        let k = SEQ[i] as u32;
        let want = r.feed(&TAB, 1, k as usize + 1, acc_pay(k, i as u32));
        let ok = p.parse(tok(k, acc_pay(k, i as u32))).is_ok();
        s_assert(want == 1, 9989);
        s_assert(ok, 1);
        i += 1;
    }}
    logs_equal(0, 1, 10);
    let n = s_range(M as u32 + 1) as usize;
    let mut j = 0;
    while j < M {{
        if j >= n {{ break; }}
        let k = if j == 0 {{ {pick(T) if first is None else f'FIRST[({pick(len(first))}) as usize] as u32'} }} else {{ SAMP[({pick(len(samp))}) as usize] as u32 }};
        let v = pay(k);
        {step}
        logs_equal(0, 1, 10);
        j += 1;
    }}
    {fin}
}}
''' + pay_fn(g, 'acc_pay', '0' if err else 'v').replace('s_u32()', 'i * 64 + 1000').replace('acc_pay(k: u32)', 'acc_pay(k: u32, i: u32)')
    lab = {1: 'verdict on a token differs from the grammar', 2: 'parse() returned Err where parsing should go on', 3: 'accepted at end of input against the grammar',
           4: 'the result is not the value of the start symbol', 5: 'rejected at end of input against the grammar', 6: 'another error value',
           10: 'number of action events differs', 11: 'actions, handler calls, their order or what they received differ'}
    lab.update(labels or {})
    h = Harness(name, src, [Entry('h_states', time=T_ENTRY * 2)], labels=lab, about='grammar ' + flat(g)[:1500], bounds=f'{S} states x {M} tokens')
    h.nseq = S
    return h
