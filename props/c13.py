"""C13: %stack_size"""
from vlib.corpus import CURATED, ERRORS, random_gram, random_err_gram
from vlib.grammar import Gram
from vlib.hgen import proto, helpers, proto_decls, flat, T_ENTRY
from vlib.lalr import LALR
from vlib.runner import Harness, Entry
from props.common import mixed, need

# the documented interface of a stack type and nothing else
STACK = '''
pub struct MyStack<T> { v: Vec<T> }
impl<T> MyStack<T> {
    pub fn new() -> Self { MyStack { v: Vec::new() } }
    pub fn push(&mut self, x: T) { self.v.push(x) }
    pub fn pop(&mut self) -> Option<T> { self.v.pop() }
    pub fn last(&self) -> Option<&T> { self.v.last() }
    pub fn is_empty(&self) -> bool { self.v.is_empty() }
    pub fn clear(&mut self) { self.v.clear() }
    pub fn len(&self) -> usize { self.v.len() }
}
/// a stack with room for LIM entries: more must never be asked of it
pub struct Bounded<T, const LIM: usize> { v: [Option<T>; LIM], n: usize }
impl<T, const LIM: usize> Bounded<T, LIM> {
    pub fn new() -> Self { Bounded { v: [const { None }; LIM], n: 0 } }
    pub fn push(&mut self, x: T) { if self.n >= LIM { s_assert(false, 30); return; } self.v[self.n] = Some(x); self.n += 1; }
    pub fn pop(&mut self) -> Option<T> { if self.n == 0 { return None; } self.n -= 1; self.v[self.n].take() }
    pub fn last(&self) -> Option<&T> { if self.n == 0 { None } else { self.v[self.n - 1].as_ref() } }
    pub fn is_empty(&self) -> bool { self.n == 0 }
    pub fn clear(&mut self) { while self.pop().is_some() {} }
    pub fn len(&self) -> usize { self.n }
}
'''

DEEP = {
    'right': '''
input ::= l
l ::= A
l ::= A l''',
    'nest': '''
input ::= s
s ::= LP s RP
s ::= X''',
    'rassoc': '''
%right Op
input ::= e
e ::= e Op e
e ::= N''',
    'nullnest': '''
input ::= s
s ::=
s ::= A o s
o ::=''',
    'long': '''
input ::= A B C D E F''',
    'emptylong': '''
input ::= o o2 o o2 o X
o ::=
o2 ::= o''',
}


def deep(g, seqs, limit, name, text_limit=None, stack=None, pre='', omit=0):
    """input is one of a few periodic sequences of symbolic length, long enough to reach a large limit"""
    l = LALR(g)
    n = max(len(s) for s in seqs)
    cut = min(14, min(len(s) for s in seqs))
    src = pre + l.rust('TAB') + g.rust('g', 0, extra_decls=proto_decls(g, 'g', 0, False, text_limit, stack, omit)) + helpers(g, 'g') + f'''
const N: usize = {n};
static SEQ: [[u8; N]; {len(seqs)}] = [{", ".join("[" + ", ".join(str(x) for x in s + [0] * (n - len(s))) + "]" for s in seqs)}];
static LEN: [usize; {len(seqs)}] = [{", ".join(str(len(s)) for s in seqs)}];
#[unsafe(no_mangle)] pub fn h_deep() {{
    reset();
    unsafe {{ OMIT = {omit}; }}
    let q = s_range({len(seqs)}) as usize;
    let n = LEN[q] - s_range({cut}) as usize;
    let mut p = g::Parser::new();
    let mut r = Ref::new();
    r.limit = {limit};
    let mut i = 0;
    while i < N {{
        if i >= n {{ break; }}
        let k = SEQ[q][i] as u32;
        let got = p.parse(tok_g(k, 7));
        let want = r.feed_err(&TAB, 1, 0, k as usize + 1, 7, false);
        match got {{
            Ok(()) => s_assert(want == SHIFTED, 1),
            Err(e) => {{ s_assert(want == FAILED && e{'.0' if omit else ''} == r.ecode, 2); if e{'.0' if omit else ''} == {'E_DFLT' if omit & 4 else 'E_OVER'} {{ s_reach(2); }} logs_equal(0, 1, 10); return; }}
        }}
        i += 1;
    }}
    let want = r.feed_err(&TAB, 1, 0, 0, 0, false);
    match p.end_of_input() {{
        Ok(_) => {{ s_assert(want == ACCEPTED, 3); s_reach(1); }}
        Err(e) => {{ s_assert(want == FAILED && e{'.0' if omit else ''} == r.ecode, 4); if e{'.0' if omit else ''} == {'E_DFLT' if omit & 4 else 'E_OVER'} {{ s_reach(2); }} }}
    }}
    logs_equal(0, 1, 10);
}}
'''
    return Harness(name, src, [Entry('h_deep', reach=[1] + ([2] if limit else []), time=T_ENTRY)],
                   labels={1: 'went on where the stack limit or the grammar calls for an error', 2: 'failed, or failed differently, where parsing should go on',
                           3: 'accepted against the stack limit or the grammar', 4: 'failed at end of input without reason', 10: 'events differ', 11: 'events differ'},
                   about=f'grammar {flat(g)} ; stack_size {text_limit}', info=dict(consts=dict(RDEPTH=300, LOGCAP=2500)))


def check(run):
    q = run.tier == 'quick'
    hs = []
    k = 0
    srcs = [(kk, Gram(kk, v)) for kk, v in list(DEEP.items()) + list(CURATED.items()) + list(ERRORS.items())]
    for i in range(12 if q else 60):
        srcs.append((f'r{i}', random_gram(run.rng, f'r{i}', null=(0.1, 0.3)[i % 2])))
        srcs.append((f'er{i}', random_err_gram(run.rng, f'er{i}', nt=(2, 4), nnt=(2, 3))))
    for kk, g in srcs:
        l0 = LALR(g)
        from vlib.plan import measure
        from props.common import ncap
        m = measure(l0, 500 if q else 6000, 9)
        N = min(m['N'], ncap(g, 700 if q else 9000)) if not g.uses_error else ncap(g, 500 if q else 6000)
        for lim in ((1, 2, 3, 4) if k % 2 else (2, 3, 5, 6)) if q else (1, 2, 3, 4, 5, 6, 7, 8):
            k += 1
            st, pre = None, ''
            if k % 3 == 1:
                st, pre = 'crate::MyStack', STACK
            if k % 3 == 2:
                st, pre = 'St', STACK
            g2 = Gram(kk, g.text)
            if st == 'St':
                g2.raw.append(f'%include {{ type St<T> = crate::Bounded<T, {lim}>; }}')
            if k % 4 == 3:
                mixed(run.rng, g2)
            if run.only and run.only not in kk:
                continue
            h = proto(g2, N, name=f'st_{kk}_{lim}', limit=lim, stack=st, exp=False, ask=k % 2 == 0, lalr=LALR(g2),
                      labels={30: 'a stack of the declared size was asked for more room'})
            h.src = pre + h.src
            hs.append(h)
    # the default, large limits, and no limit
    G = {kk: Gram(kk, v) for kk, v in DEEP.items()}
    S = {'right': lambda n: [[0] * n], 'nest': lambda n: [[0] * d + [2] + [1] * d for d in range(n - 13, n - 4)] + [[0] * n],
         'rassoc': lambda n: [([1, 0] * n)[:n | 1]], 'nullnest': lambda n: [[0] * ((n + 5) // 2)]}
    for kk in S:
        g = G[kk]
        for lim, text, n in [(100, None, 106), (0, 0, 120), (37, 37, 45), (127, 127, 132), (129, 129, 134)]:
            if run.only and run.only not in kk:
                continue
            hs.append(deep(g, S[kk](n), lim, f'deep_{kk}_{lim}', text))
            if lim == 0:
                hs.append(deep(Gram(kk, DEEP[kk]), S[kk](n), 0, f'deepu_{kk}', 0, 'crate::MyStack', STACK))
    run.run(hs)
    need(run, [1, 2], 30)
    return run.finish(
        bounds=dict(harnesses=len(hs), limits='1..6 (thorough 1..8), 37, 100 (default), 127, 129, 0 (unlimited, 120 tokens)', token_sequence_length='3..9, up to 266 for the large limits'),
        outside='limits above 129; other grammars', explanation='the reference machine counts entries; overflow must be reported exactly when it needs entry N+1, with the token (if a token caused it), '
        'and a stack type offering only the documented operations, or room for exactly N entries, must give the same run')
