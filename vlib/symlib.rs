// Runtime shared by every generated harness.
// Symbolic build: the s_* calls become external functions that the symbolic
// executor interprets.  Native build (--cfg native): they read recorded inputs,
// so a path or a counterexample can be replayed against the real code.
#![allow(dead_code, unused_mut, unused_variables, unused_assignments, static_mut_refs, unused_imports, non_camel_case_types, unused_unsafe, unreachable_code, unused_parens)]

#[cfg(not(native))]
mod rt {
    unsafe extern "C" {
        fn sym_u8() -> u8; fn sym_u16() -> u16; fn sym_u32() -> u32; fn sym_u64() -> u64; fn sym_bool() -> bool; fn sym_range(n: u32) -> u32;
        fn sym_assume(c: bool); fn sym_assert(c: bool, id: u32); fn sym_reach(id: u32); fn sym_out(v: u64); fn sym_expect_panic(on: u32); fn sym_concretize(v: u64) -> u64;
    }
    #[inline(always)] pub fn s_u8() -> u8 { unsafe { sym_u8() } }
    #[inline(always)] pub fn s_u16() -> u16 { unsafe { sym_u16() } }
    #[inline(always)] pub fn s_u32() -> u32 { unsafe { sym_u32() } }
    #[inline(always)] pub fn s_u64() -> u64 { unsafe { sym_u64() } }
    #[inline(always)] pub fn s_bool() -> bool { unsafe { sym_bool() } }
    #[inline(always)] pub fn s_range(n: u32) -> u32 { unsafe { sym_range(n) } }
    #[inline(always)] pub fn s_assume(c: bool) { unsafe { sym_assume(c) } }
    #[inline(always)] pub fn s_assert(c: bool, id: u32) { unsafe { sym_assert(c, id) } }
    #[inline(always)] pub fn s_reach(id: u32) { unsafe { sym_reach(id) } }
    #[inline(always)] pub fn s_out(v: u64) { unsafe { sym_out(v) } }
    #[inline(always)] pub fn s_expect_panic(on: bool) { unsafe { sym_expect_panic(on as u32) } }
    #[inline(always)] pub fn s_conc(v: u64) -> u64 { unsafe { sym_concretize(v) } }
}
#[cfg(native)]
mod rt {
    use std::cell::RefCell;
    pub struct St { pub inp: Vec<u64>, pub pos: usize, pub outs: Vec<u64>, pub failed: Vec<u32>, pub reach: Vec<u32>, pub expect: bool }
    thread_local! { pub static ST: RefCell<St> = RefCell::new(St { inp: vec![], pos: 0, outs: vec![], failed: vec![], reach: vec![], expect: false }); }
    pub struct AssumeFailed;
    fn next() -> u64 { ST.with(|s| { let mut s = s.borrow_mut(); let v = s.inp.get(s.pos).copied().unwrap_or(0); s.pos += 1; v }) }
    pub fn s_u8() -> u8 { next() as u8 }
    pub fn s_u16() -> u16 { next() as u16 }
    pub fn s_u32() -> u32 { next() as u32 }
    pub fn s_u64() -> u64 { next() }
    pub fn s_bool() -> bool { next() & 1 != 0 }
    pub fn s_range(n: u32) -> u32 { (next() as u32) % n }
    pub fn s_assume(c: bool) { if !c { std::panic::panic_any(AssumeFailed) } }
    pub fn s_assert(c: bool, id: u32) { if !c { ST.with(|s| s.borrow_mut().failed.push(id)) } }
    pub fn s_reach(id: u32) { ST.with(|s| s.borrow_mut().reach.push(id)) }
    pub fn s_out(v: u64) { ST.with(|s| s.borrow_mut().outs.push(v)) }
    pub fn s_expect_panic(on: bool) { ST.with(|s| s.borrow_mut().expect = on) }
    pub fn s_conc(v: u64) -> u64 { v }
}
use rt::*;

// ------------------------------------------------------------------ event log
pub const LOGCAP: usize = 400;
pub struct Log { pub n: usize, pub a: [u32; LOGCAP], pub nodes: u32 }
pub static mut LOGS: [Log; 4] = [const { Log { n: 0, a: [0; LOGCAP], nodes: 0 } }; 4];
#[inline(never)]
pub fn log(w: usize, v: u32) { unsafe { let l = &mut LOGS[w]; if l.n < LOGCAP { l.a[l.n] = v; } else { s_assert(false, 9999); } l.n += 1; } }
pub fn reset() { unsafe { NMADE = 0; OMIT = 0; FAILAT = [0; 4]; ASK = false; for l in LOGS.iter_mut() { l.n = 0; l.nodes = 0; } } }
pub const EV_RULE: u32 = 0x1000_0000;
pub const EV_SYNTAX: u32 = 0x2000_0000;
pub const EV_FAIL: u32 = 0x3000_0000;
pub const EV_OVERFLOW: u32 = 0x4000_0000;
pub const EV_RES: u32 = 0x5000_0000; // +1 ok, +0 err
pub const EV_VALUE: u32 = 0x6000_0000;
pub const EV_EXP: u32 = 0x7000_0000;
pub const NODE: u32 = 0x8000_0000;
/// a reduce action ran: record the rule and its bound values, return a fresh node id
#[inline(never)]
pub fn act(w: usize, rule: u32, args: &[u32]) -> u32 {
    log(w, EV_RULE | rule);
    log(w, args.len() as u32);
    let mut i = 0;
    while i < args.len() { log(w, args[i]); i += 1; }
    unsafe { LOGS[w].nodes += 1; NODE + LOGS[w].nodes }
}
/// lengths and then every word of the two logs must agree
#[inline(never)]
pub fn logs_equal(a: usize, b: usize, id: u32) {
    unsafe {
        let (la, lb) = (&LOGS[a], &LOGS[b]);
        let mut i = 0;
        while i < la.n && i < lb.n { s_assert(la.a[i] == lb.a[i], id + 1); i += 1; }
        s_assert(la.n == lb.n, id);
    }
}
#[inline(never)]
pub fn log_out(w: usize) { unsafe { let mut i = 0; while i < LOGS[w].n { s_out(LOGS[w].a[i] as u64); i += 1; } } }

// --------------------------------------------- reference table-driven parser
// Tables are computed by an independent LALR(1) construction (vlib/lalr.py).
#[derive(Clone, Copy)]
pub struct RTab {
    pub nt: usize,              // number of terminals including end of input (0)
    pub nn: usize,              // number of nonterminals
    pub act: &'static [i16],    // state*nt+tok: 0 error, s+1 shift, -(r+1) reduce, 32000 accept
    pub goto_: &'static [i16],  // state*nn+nonterminal: target+1 or 0
    pub rlen: &'static [u8],
    pub rlhs: &'static [u16],
    pub rid: &'static [u16],    // id logged by the action, 65535: silent
    pub rmask: &'static [u32],  // positions whose value is bound
    pub rkind: &'static [u8],   // 0 fresh node, 1 forward the bound value, 2 no value, 3 constant NONE, 4 constant UNIT
    pub err: usize,             // number of the `error` nonterminal, 255 if unused
    pub errst: &'static [u8],   // state is entered by `error`
    pub eunit: bool,            // `error` has type ()
}
pub const RERR: i16 = 0;
pub const RACC: i16 = 32000;
pub const RDEPTH: usize = 40;
pub const SHIFTED: u32 = 1;
pub const ACCEPTED: u32 = 2;
pub const FAILED: u32 = 0;
pub const RECOVERED: u32 = 3;
// error values made by the handlers
pub const E_SYNTAX: u32 = 0x5ee00;
pub const E_FAIL: u32 = 0xfa11;
pub const E_OVER: u32 = 0x0f10;
pub const E_ACT: u32 = 0xac700;
pub const E_DFLT: u32 = 0xdef01;
/// handlers left out (1 %syntax_error, 2 %parse_fail, 4 %stack_overflow): the error is Default::default()
pub static mut OMIT: u32 = 0;
pub fn omitted(b: u32) -> bool { unsafe { OMIT & b != 0 } }
#[derive(Clone, Debug, PartialEq)]
pub struct DE(pub u32);
impl Default for DE { fn default() -> DE { DE(E_DFLT) } }
impl From<u32> for DE { fn from(x: u32) -> DE { DE(x) } }
pub struct Ref { pub st: [i16; RDEPTH], pub val: [u32; RDEPTH], pub n: usize, pub err: u32, pub limit: usize, pub result: u32, pub ecode: u32, pub failat: u32 }
pub const NONE_VAL: u32 = 0x7fff_fff0;
pub const UNIT_VAL: u32 = 0x7fff_fff1;
#[inline(always)] pub fn optv<T: V>(x: Option<T>) -> u32 { match x { Some(v) => v.v(), None => NONE_VAL } }
#[inline(always)] pub fn optu(x: Option<()>) -> u32 { match x { Some(()) => UNIT_VAL, None => NONE_VAL } }
/// value types used for symbols: v(mk(x)) == x, and a damaged value does not give x back
pub trait V: Sized { fn v(self) -> u32; fn mk(x: u32) -> Self; }
impl V for u32 { #[inline(always)] fn v(self) -> u32 { self } #[inline(always)] fn mk(x: u32) -> u32 { x } }
impl V for u64 { fn v(self) -> u32 { let (a, b) = (self as u32, (self >> 32) as u32); if b == a ^ 0x55 { a } else { 0xdead_0001 } } fn mk(x: u32) -> u64 { x as u64 | ((x ^ 0x55) as u64) << 32 } }
impl V for Box<u32> { fn v(self) -> u32 { *self } fn mk(x: u32) -> Self { Box::new(x) } }
impl V for (u32, u8) { fn v(self) -> u32 { if self.1 == self.0 as u8 { self.0 } else { 0xdead_0002 } } fn mk(x: u32) -> Self { (x, x as u8) } }
/// the type used with %extra_token; a token made from x carries Loc x^LOCX and the value x
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Loc { pub x: u32, pub y: u64 }
pub const LOCX: u32 = 0xabcd_0123;
impl V for Loc { fn v(self) -> u32 { if self.y == self.x as u64 { self.x ^ LOCX } else { 0xdead_0004 } } fn mk(x: u32) -> Self { Loc { x: x ^ LOCX, y: (x ^ LOCX) as u64 } } }
impl<T: V> V for (Loc, T) { fn v(self) -> u32 { let (l, t) = (self.0.v(), self.1.v()); if l == t { t } else { 0xdead_0005 } } fn mk(x: u32) -> Self { (Loc::mk(x), T::mk(x)) } }
impl<'a> V for &'a u32 { fn v(self) -> u32 { *self } fn mk(x: u32) -> Self { Box::leak(Box::new(x)) } }
impl V for () { fn v(self) -> u32 { UNIT_VAL } fn mk(x: u32) -> Self { () } }
impl V for Option<u32> { fn v(self) -> u32 { match self { Some(v) => v, None => NONE_VAL } } fn mk(x: u32) -> Self { Some(x) } }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Pair { pub a: u16, pub b: u16 }
impl V for Pair { fn v(self) -> u32 { self.a as u32 | (self.b as u32) << 16 } fn mk(x: u32) -> Self { Pair { a: x as u16, b: (x >> 16) as u16 } } }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Alt { One(u32), Big([u32; 3]) }
impl V for Alt { fn v(self) -> u32 { match self { Alt::One(x) => x, Alt::Big(a) => if a[0] == a[1] && a[1] == a[2] { a[0] } else { 0xdead_0003 } } } fn mk(x: u32) -> Self { Alt::Big([x; 3]) } }
/// a value whose life is tracked: dropping twice or never is noticed
pub struct D { pub slot: u32, pub x: u32 }
pub const NLIVE: usize = 200;
pub static mut LIVE: [u8; NLIVE] = [0; NLIVE];
pub static mut NMADE: usize = 0;
impl Drop for D { fn drop(&mut self) { unsafe { let i = self.slot as usize; s_assert(i < NLIVE && LIVE[i] == 1, 20); LIVE[i] = 2; } } }
impl V for D {
    fn v(self) -> u32 { self.x }
    fn mk(x: u32) -> D { unsafe { let i = NMADE; if i >= NLIVE { s_assert(false, 9997); } LIVE[i] = 1; NMADE += 1; D { slot: i as u32, x } } }
}
/// everything made so far must be gone
#[inline(never)]
pub fn dropped() { unsafe { let mut i = 0; while i < NMADE { s_assert(LIVE[i] == 2, 21); i += 1; } } }
#[inline(always)] pub fn cv<T: V>(x: T) -> u32 { x.v() }
#[inline(always)] pub fn mk<T: V>(x: u32) -> T { T::mk(x) }

// ---------------------------------------------- handlers of the real parser
pub const NOTOK: u32 = 999;
/// which action call fails (counting from 1), 0: none
pub static mut FAILAT: [u32; 4] = [0; 4];
/// false: every %syntax_error answers Err, true: symbolic answers
pub static mut ASK: bool = false;
pub fn act_try(w: usize, rule: u32) -> Result<(), u32> { unsafe { if FAILAT[w] != 0 && LOGS[w].nodes == FAILAT[w] { Err(E_ACT + rule) } else { Ok(()) } } }
/// %syntax_error: log the token and the expected set, answer Ok with a value or Err
#[inline(never)]
pub fn on_syntax(w: usize, tok: (u32, u32), exp: &Exp) -> Result<u32, u32> {
    log(w, EV_SYNTAX | tok.0); log(w, tok.1);
    if exp.used { log(w, exp.mask as u32); log(w, (exp.mask >> 32) as u32); log(w, exp.n); log(w, exp.bad as u32); }
    let ok = unsafe { ASK } && s_bool();
    log(w, EV_RES | ok as u32);
    unsafe { LOGS[w].nodes += 1; if ok { Ok(NODE + LOGS[w].nodes) } else { Err(E_SYNTAX + LOGS[w].nodes) } }
}
pub fn on_fail(w: usize) -> u32 { log(w, EV_FAIL); E_FAIL }
pub fn on_over(w: usize, tok: (u32, u32)) -> u32 { log(w, EV_OVERFLOW | tok.0); log(w, tok.1); E_OVER }
/// the expected tokens as a set of terminal numbers, with what is wrong in them
pub struct Exp { pub mask: u64, pub n: u32, pub bad: bool, pub used: bool, pub last: i32 }
impl Exp {
    pub fn new(used: bool) -> Exp { Exp { mask: 0, n: 0, bad: false, used, last: 0 } }
    /// name: terminal number found by name; unit: the terminal carries no value; tok: number of the token value given
    pub fn add(&mut self, name: u32, unit: bool, tok: u32, major: i32) {
        if name >= 64 { self.bad = true; return; }
        if self.mask >> name & 1 != 0 { self.bad = true; }
        if unit != (tok != NOTOK) || unit && tok != name { self.bad = true; }
        if major <= 0 || major == self.last { self.bad = true; }
        self.last = major;
        self.mask |= 1u64 << name;
        self.n += 1;
    }
}

impl Ref {
    fn over(&mut self, w: usize, tok: u32, v: u32) { if omitted(4) { self.ecode = E_DFLT; } else { log(w, EV_OVERFLOW | tok); log(w, v); self.ecode = E_OVER; } }
    fn fail(&mut self, w: usize) { if omitted(2) { self.ecode = E_DFLT; } else { log(w, EV_FAIL); self.ecode = E_FAIL; } }
    pub fn new() -> Ref { Ref { st: [0; RDEPTH], val: [0; RDEPTH], n: 1, err: 0, limit: 0, result: 0, ecode: 0, failat: 0 } }
    #[inline(always)] pub fn top(&self) -> usize { self.st[self.n - 1] as usize }
    /// reduce by rule r; 0: go on, 1: that accepted, 2: the action failed, 3: overflow
    #[inline(never)]
    pub fn reduce(&mut self, t: &RTab, w: usize, r: usize) -> u32 {
        let len = t.rlen[r] as usize;
        let base = self.n - len;
        let mask = t.rmask[r];
        let mut args = [0u32; 24];
        let mut na = 0;
        let mut i = 0;
        while i < len { if mask >> i & 1 != 0 { args[na] = self.val[base + i]; na += 1; } i += 1; }
        let v = if t.rid[r] != 65535 { act(w, t.rid[r] as u32, &args[..na]) } else { args[0] };
        if t.rid[r] != 65535 && self.failat != 0 && unsafe { LOGS[w].nodes } == self.failat { self.ecode = E_ACT + t.rid[r] as u32; return 2; }
        let v = match t.rkind[r] { 1 => args[0], 2 => 0, 3 => NONE_VAL, 4 => UNIT_VAL, _ => v };
        self.n = base;
        let g = t.goto_[self.top() * t.nn + t.rlhs[r] as usize];
        if g == RACC { self.result = v; return 1; }
        s_assert(g > 0, 9990);
        if !self.push(g - 1, v) { self.over(w, NOTOK, 0); return 3; }
        0
    }
    #[inline(always)]
    pub fn push(&mut self, s: i16, v: u32) -> bool {
        if self.limit != 0 && self.n >= self.limit { return false; }
        if self.n >= RDEPTH { s_assert(false, 9998); return false; }
        self.st[self.n] = s; self.val[self.n] = v; self.n += 1;
        true
    }
    /// feed a token to a parser that stops at the first error; 1 shifted, 2 accepted, 0 error
    #[inline(never)]
    pub fn feed(&mut self, t: &RTab, w: usize, tok: usize, v: u32) -> u32 {
        loop {
            let a = t.act[self.top() * t.nt + tok];
            if a == RERR { return FAILED; }
            if a > 0 {
                if !self.push(a - 1, v) { self.over(w, tok as u32 - 1, v); return FAILED; }
                if self.err > 0 { self.err -= 1; }
                return SHIFTED;
            }
            match self.reduce(t, w, (-a - 1) as usize) { 0 => {}, 1 => return ACCEPTED, _ => return FAILED }
        }
    }
    /// like feed, with the error protocol; `real` is the log of the real parser, already past this token
    #[inline(never)]
    pub fn feed_err(&mut self, t: &RTab, w: usize, real: usize, tok: usize, v: u32, exp: bool) -> u32 {
        loop {
            let a = t.act[self.top() * t.nt + tok];
            if a == RERR { break; }
            if a > 0 {
                if !self.push(a - 1, v) { self.over(w, tok as u32 - 1, v); return FAILED; }
                if self.err > 0 { self.err -= 1; }
                return SHIFTED;
            }
            match self.reduce(t, w, (-a - 1) as usize) { 0 => {}, 1 => return ACCEPTED, _ => return FAILED }
        }
        // a parser may still reduce before it notices the error (default reductions):
        // which ones is its choice, but each must be possible in its state
        loop {
            let i = unsafe { LOGS[w].n };
            if i >= unsafe { LOGS[real].n } || unsafe { LOGS[real].a[i] } >> 28 != EV_RULE >> 28 { break; }
            let rule = (unsafe { LOGS[real].a[i] } & 0xfff_ffff) as u16;
            let mut r = usize::MAX;
            let mut k = 0;
            while k < t.nt { let a = t.act[self.top() * t.nt + k]; if a < 0 && t.rid[(-a - 1) as usize] == rule { r = (-a - 1) as usize; } k += 1; }
            if r == usize::MAX { s_assert(false, 9991); return FAILED; }
            match self.reduce(t, w, r) { 0 => {}, 1 => { s_assert(false, 9992); return ACCEPTED }, _ => return FAILED }
        }
        if tok == 0 { self.fail(w); return FAILED; }
        let state = self.top();
        if t.err == 255 {
            if self.err == 0 {
                if self.syntax(t, w, real, state, tok, v, exp).is_none() { return FAILED; }
            }
            self.err = 3;
            return RECOVERED;
        }
        loop {
            if self.n == 0 { self.fail(w); return FAILED; }
            if t.errst[self.top()] != 0 { break; }
            let g = t.goto_[self.top() * t.nn + t.err];
            if g > 0 {
                match self.syntax(t, w, real, state, tok, v, exp) {
                    None => return FAILED,
                    Some(x) => { if !self.push(g - 1, x) { self.over(w, NOTOK, 0); return FAILED; } break; }
                }
            }
            self.n -= 1;
        }
        RECOVERED
    }
    /// the call of %syntax_error; the answer is taken from the log of the real parser
    fn syntax(&mut self, t: &RTab, w: usize, real: usize, state: usize, tok: usize, v: u32, exp: bool) -> Option<u32> {
        if omitted(1) { self.ecode = E_DFLT; return None; }
        log(w, EV_SYNTAX | (tok as u32 - 1)); log(w, v);
        if exp {
            let mut m = 0u64;
            let mut n = 0;
            let mut k = 1;
            while k < t.nt { if t.act[state * t.nt + k] != RERR { m |= 1u64 << (k - 1); n += 1; } k += 1; }
            log(w, m as u32); log(w, (m >> 32) as u32); log(w, n); log(w, 0);
        }
        let i = unsafe { LOGS[w].n };
        let ans = if i < unsafe { LOGS[real].n } { unsafe { LOGS[real].a[i] } } else { EV_RES };
        log(w, if ans == EV_RES | 1 { ans } else { EV_RES });
        unsafe { LOGS[w].nodes += 1; }
        let id = unsafe { LOGS[w].nodes };
        if ans == EV_RES | 1 { Some(if t.eunit { UNIT_VAL } else { NODE + id }) } else { self.ecode = E_SYNTAX + id; None }
    }
}

// ------------------------------------------------ membership oracle (CYK)
// The grammar in binary normal form; nonterminals are bits of a u64.
pub struct Cnf { pub term: &'static [u64], pub bin: &'static [(u8, u8, u8)], pub start: u64, pub prefix: u64, pub eps: bool }
pub const CYN: usize = 12;
/// Set of nonterminals deriving exactly toks[0..n] (branch free in the token values).
#[inline(never)]
pub fn cyk(g: &Cnf, toks: &[u32], n: usize) -> u64 {
    let mut tab = [[0u64; CYN]; CYN];
    let mut i = 0;
    while i < n { tab[i][0] = g.term[toks[i] as usize]; i += 1; }
    let mut len = 2;
    while len <= n {
        let mut i = 0;
        while i + len <= n {
            let mut acc = 0u64;
            let mut k = 1;
            while k < len {
                let x = tab[i][k - 1];
                let y = tab[i + k][len - k - 1];
                let mut r = 0;
                while r < g.bin.len() {
                    let (a, b, c) = g.bin[r];
                    acc |= ((x >> b) & (y >> c) & 1) << a;
                    r += 1;
                }
                k += 1;
            }
            tab[i][len - 1] = acc;
            i += 1;
        }
        len += 1;
    }
    if n == 0 { 0 } else { tab[0][n - 1] }
}

#[cfg(native)]
fn main() {
    use std::io::BufRead;
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let mut it = line.split_whitespace();
        let name = match it.next() { Some(n) => n.to_string(), None => continue };
        let inp: Vec<u64> = it.map(|x| x.parse().unwrap()).collect();
        rt::ST.with(|s| { *s.borrow_mut() = rt::St { inp, pos: 0, outs: vec![], failed: vec![], reach: vec![], expect: false }; });
        let r = std::panic::catch_unwind(|| run_entry(&name));
        rt::ST.with(|s| {
            let s = s.borrow();
            let kind = match &r { Ok(()) => "ok".to_string(), Err(e) => if e.downcast_ref::<rt::AssumeFailed>().is_some() { "assume".to_string() } else {
                let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_default();
                format!("panic{}:{}", if s.expect { "_ok" } else { "" }, m.replace(|c: char| c.is_whitespace(), "_")) } };
            println!("R {} F {:?} O {:?}", kind, s.failed, s.outs);
        });
    }
}
