SEEDS = []
def add(sid, prop, needs, what, edits, demo, **kw):
    SEEDS.append(dict(sid=sid, prop=prop, needs=needs, what=what, edits=edits, demo=demo, **kw))

add('s01-start-default', 'C02',
    'a start symbol with an empty rule, and a token that cannot start any sentence as the first one',
    'the empty rule of the start symbol becomes a default reduction, so a wrong first token is accepted (parse() is Ok and the parse is over)',
    [('''                            if self.the_rules.get(rp).lhs_start {
                                continue;
                            }''', '''                            let rule = self.the_rules.get(rp);
                            if rule.lhs_start && !rule.rhs.is_empty() {
                                continue;
                            }''')],
    '''
pomelo::pomelo! {
    input ::= ;
    input ::= A B;
}
fn main() {
    use parser::*;
    let mut p = Parser::new();
    assert!(p.parse(Token::B).is_err());
    let mut p = Parser::new();
    p.parse(Token::A).unwrap();
    p.parse(Token::B).unwrap();
    p.end_of_input().unwrap();
    Parser::new().end_of_input().unwrap();
}
''')

add('s02-first-self', 'C01',
    'a left-recursive nullable nonterminal whose FIRST set decides between two reductions, the one with fewer lookaheads',
    'symbols after the recursive occurrence are missing in FIRST of a nullable left-recursive nonterminal, so sentences are rejected',
    [('''                        if !self.the_symbols.get(s1).is_lambda() {
                            break;
                        }
                        continue;''', '''                        break;''')],
    '''
pomelo::pomelo! {
    input ::= m Y;
    input ::= m W;
    input ::= m V;
    input ::= n a Z;
    m ::= ;
    n ::= ;
    a ::= ;
    a ::= a X;
}
fn main() {
    use parser::*;
    let mut p = Parser::new();
    p.parse(Token::X).unwrap();
    p.parse(Token::X).unwrap();
    p.parse(Token::Z).unwrap();
    p.end_of_input().unwrap();
    let mut p = Parser::new();
    p.parse(Token::W).unwrap();
    p.end_of_input().unwrap();
}
''')

add('s03-forget-popped', 'C04',
    'the error symbol, and values on the stack above the state that can shift it when the error happens',
    'values popped during error recovery are leaked instead of dropped',
    [('''                                yy.yystack.pop().unwrap();
                            }
                            if yy''', '''                                let top = yy.yystack.pop().unwrap();
                                ::std::mem::forget(top.minor);
                            }
                            if yy''')],
    '''
use std::rc::Rc;
pomelo::pomelo! {
    %include { use std::rc::Rc; }
    %syntax_error { Ok(()) }
    %type A Rc<()>;
    %type B Rc<()>;
    input ::= s;
    s ::= O list C;
    s ::= error C;
    list ::= A B A;
}
fn main() {
    use parser::*;
    let r = Rc::new(());
    let mut p = Parser::new();
    p.parse(Token::O).unwrap();
    p.parse(Token::A(r.clone())).unwrap();
    p.parse(Token::B(r.clone())).unwrap();
    p.parse(Token::B(r.clone())).unwrap();
    p.parse(Token::C).unwrap();
    p.end_of_input().unwrap();
    assert_eq!(Rc::strong_count(&r), 1);
}
''')

add('s04-override-none', 'C05',
    'a rule whose [X] override names a token that has no precedence while its left-most terminal has one',
    'such a rule silently takes the precedence of its left-most terminal, so an ambiguous grammar is accepted and grouped by a precedence it was not given',
    [('''                rp.precedence = self.the_symbols.get(ps).precedence;
                continue;
            }''', '''                rp.precedence = self.the_symbols.get(ps).precedence;
                if rp.precedence.is_some() {
                    continue;
                }
            }''')],
    '''
pomelo::pomelo! {
    %left Plus;
    %left Times;
    input ::= e;
    e ::= e Plus e [Ghost];
    e ::= e Times e;
    e ::= N;
    input ::= Ghost;
}
fn main() {}
''', reject='Parsing conflicts')

add('s05-eoi-conflict', 'C06',
    'a grammar whose only conflicts are between two reductions at end of input',
    'reduce/reduce conflicts on end of input are not reported: the first rule silently wins',
    [('''                    _ => (true, Reduce(x), RRConflict(y)),''', '''                    _ => {
                        let eoi = self.the_symbols.get(apx.look_ahead).index == 0;
                        (!eoi, Reduce(x), RRConflict(y))
                    }''')],
    '''
pomelo::pomelo! {
    input ::= a;
    input ::= b;
    input ::= a X;
    input ::= b Y;
    a ::= T U;
    b ::= T U;
}
fn main() {}
''', reject='Parsing conflicts')

add('s06-dup-superset', 'C07',
    'two states of which one has a subset of the entries of the other at the same distances, laid out one after the other',
    'the smaller row shares the entries of the larger one and so picks up actions that are not its own',
    [('''            if n == at2.a_lookahead.len() {
                found = Some(i);''', '''            if n <= at2.a_lookahead.len() + 1 {
                found = Some(i);''')],
    '''
// lists in three kinds of brackets, with different separators allowed in each of them
pomelo::pomelo! {
    input ::= s;
    s ::= A t X;
    s ::= A t Y;
    s ::= B u X;
    t ::= C;
    u ::= D;
    u ::= D v;
    v ::= C;
    v ::= E;
    v ::= F;
    t ::= F X F;
    t ::= F Y G;
    u ::= G w;
    w ::= X F;
}
fn main() {
    use parser::Token::*;
    use parser::*;
    let all = || [A, B, C, D, E, F, G, X, Y];
    let good: Vec<Vec<Token>> = vec![
        vec![A, C, X], vec![A, C, Y], vec![A, F, X, F, X], vec![A, F, X, F, Y], vec![A, F, Y, G, X], vec![A, F, Y, G, Y],
        vec![B, D, X], vec![B, D, C, X], vec![B, D, E, X], vec![B, D, F, X], vec![B, G, X, F, X],
    ];
    let eq = |a: &Token, b: &Token| std::mem::discriminant(a) == std::mem::discriminant(b);
    for w in &good {
        for i in 0..=w.len() {
            for t in all() {
                let mut p = Parser::new();
                for x in w[..i].iter().map(|x| all().into_iter().find(|y| eq(x, y)).unwrap()) {
                    p.parse(x).unwrap();
                }
                let viable = good.iter().any(|g| g.len() > i && g[..i].iter().zip(w).all(|(a, b)| eq(a, b)) && eq(&g[i], &t));
                assert_eq!(p.parse(t).is_ok(), viable);
            }
        }
    }
}
''')

add('s07-fallback-compress', 'C08',
    'a chain of two fallbacks whose last token has an explicit action in a state where the first one is reduced by the default rule',
    'only the direct fallback is considered when the default reduction is chosen, so a token that can be parsed as itself is parsed as its second fallback',
    [('''                        while let Some(fb) = self.the_symbols.get(sym).fallback {
                            sym = fb;''', '''                        if let Some(fb) = self.the_symbols.get(sym).fallback {
                            sym = fb;'''),
     ('''                                ignored_actions.insert(ap.look_ahead);
                                break;''', '''                                ignored_actions.insert(sym_of(&ap));''')],
    '''
''')
SEEDS.pop()
add('s07-fallback-compress', 'C08',
    'a chain of two fallbacks whose last token has an explicit action in a state where the first one is reduced by the default rule',
    'only the direct fallback is considered when the default reduction is chosen, so a token that can be parsed as itself is parsed as its second fallback',
    [('''                        let mut sym = ap.look_ahead;
                        while let Some(fb) = self.the_symbols.get(sym).fallback {
                            sym = fb;
''', '''                        let sym = ap.look_ahead;
                        for fb in self.the_symbols.get(sym).fallback {
''')],
    '''
pomelo::pomelo! {
    %fallback C B;
    %fallback B A;
    input ::= x A Z;
    input ::= x C Z;
    input ::= y C Q;
    x ::= N;
    y ::= N O;
    x ::= N C P;
}
fn main() {
    use parser::*;
    // A is parsed as itself after N: x ::= N, then A
    let mut p = Parser::new();
    for t in [Token::N, Token::A, Token::Z] {
        p.parse(t).unwrap();
    }
    p.end_of_input().unwrap();
}
''')

add('s08-wildcard-eoi', 'C09',
    'end of input in a state that can shift the wildcard and has no default reduction',
    'the end of input is looked up as the wildcard, which ends in a panic instead of a syntax error',
    [('''                        if YYWILDCARD > 0 {
                            let j = i - look_ahead + (YYWILDCARD as i32);
                            if j >= 0 && j < YY_ACTION.len() as i32 && YY_LOOKAHEAD[j as usize]==YYWILDCARD {
                                return YY_ACTION[j as usize] as i32;
                            }
                        }
                    }
''', '''                    }
                    if YYWILDCARD > 0 {
                        let j = i - look_ahead + (YYWILDCARD as i32);
                        if j >= 0 && j < YY_ACTION.len() as i32 && YY_LOOKAHEAD[j as usize]==YYWILDCARD {
                            return YY_ACTION[j as usize] as i32;
                        }
                    }
''')],
    '''
pomelo::pomelo! {
    %wildcard Any;
    input ::= A Any B;
    input ::= A B;
}
fn main() {
    use parser::*;
    let mut p = Parser::new();
    p.parse(Token::A).unwrap();
    assert!(p.end_of_input().is_err());
    let mut p = Parser::new();
    p.parse(Token::A).unwrap();
    p.parse(Token::A).unwrap();
    p.parse(Token::B).unwrap();
    p.end_of_input().unwrap();
}
''')

add('s09-count-reductions', 'C10',
    'an error, then fewer than three tokens with reductions in between, then another error, without the error symbol',
    'reductions count as shifted tokens, so %syntax_error is called again too early',
    [('''                        yy_shift(yy, yyact, yymajor, yyminor)?;
                        yy.error_count = yy.error_count.saturating_sub(1);
                        break;''', '''                        yy_shift(yy, yyact, yymajor, yyminor)?;
                        break;'''),
     ('''                yy.yystack.push(YYStackEntry {
                    stateno: new_state,
                    major: yymajor,
                    minor: yyminor});
                Ok(())''', '''                yy.yystack.push(YYStackEntry {
                    stateno: new_state,
                    major: yymajor,
                    minor: yyminor});
                yy.error_count = yy.error_count.saturating_sub(1);
                Ok(())''')],
    '''
pomelo::pomelo! {
    %extra_argument u32;
    %syntax_error { *extra += 1; Ok(()) }
    input ::= l;
    l ::= l i;
    l ::= i;
    i ::= A B;
}
fn main() {
    use parser::Token::*;
    use parser::*;
    let mut p = Parser::new(0);
    for t in [A, A, B, A, A, B, A] {
        p.parse(t).unwrap();
    }
    // error, two shifts, silent error, ...
    assert_eq!(*p.extra(), 1);
    p.parse(B).unwrap();
    p.parse(B).unwrap();
    assert_eq!(*p.extra(), 2);
}
''')

add('s10-expected-late', 'C12',
    'the error symbol, and an error in a state above the one that can shift it',
    'the expected list is taken from the state the stack was popped to instead of the state in which the error was found',
    [('''                        let expected = ExpectedTokens {
                            stateno: yy.yystack.last().unwrap().stateno,
                            yy_major: 1,
                            _phantom: ::std::marker::PhantomData,
                        };

                        if YYERRORSYMBOL != 0 {''', '''                        let expected = |yy: &Parser #yy_generics| ExpectedTokens {
                            stateno: yy.yystack.last().unwrap().stateno,
                            yy_major: 1,
                            _phantom: ::std::marker::PhantomData,
                        };

                        if YYERRORSYMBOL != 0 {'''),
     ('''                                    let e = yy_syntax_error(yy, yymajor, yyminor, expected)?;
                                    yy_shift''', '''                                    let expected = expected(yy);
                                    let e = yy_syntax_error(yy, yymajor, yyminor, expected)?;
                                    yy_shift'''),
     ('''                            if yy.error_count == 0 {
                                yy_syntax_error(''', '''                            if yy.error_count == 0 {
                                let expected = expected(yy);
                                yy_syntax_error(''')],
    '''
pomelo::pomelo! {
    %extra_argument Vec<String>;
    %syntax_error { extra.extend(expected.map(|t| t.name.to_string())); Ok(()) }
    input ::= s;
    s ::= A B C;
    s ::= A B D;
    s ::= error D;
}
fn main() {
    use parser::Token::*;
    use parser::*;
    let mut p = Parser::new(vec![]);
    p.parse(A).unwrap();
    p.parse(B).unwrap();
    p.parse(A).unwrap();
    assert_eq!(p.extra().join(","), "C,D");
    p.parse(D).unwrap();
    p.end_of_input().unwrap();
}
''')

add('s11-limit-nonterminals', 'C13',
    'a stack that is exactly full when a nonterminal derived from nothing has to be pushed',
    'only tokens are checked against the stack limit, so empty rules push beyond it',
    [('''                if YYSTACKLIMIT != 0 && yy.yystack.len() >= YYSTACKLIMIT {''',
      '''                if YYSTACKLIMIT != 0 && yy.yystack.len() >= YYSTACKLIMIT && (yymajor as usize) < YY_TOKEN_NAMES.len() {''')],
    '''
pomelo::pomelo! {
    %stack_size 3;
    input ::= A B n;
    n ::= ;
}
fn main() {
    use parser::Token::*;
    use parser::*;
    let mut p = Parser::new();
    p.parse(A).unwrap();
    p.parse(B).unwrap();
    assert!(p.end_of_input().is_err());
}
''')

add('s12-failed-late', 'C16',
    'a call after parse() returned an error that came from an action or from the stack limit, not from %parse_fail',
    'the parser is marked as failed only if the stack is empty, so after an error from an action it goes on instead of panicking',
    [('''                if res.is_err() {
                    yy.yystatus = YYStatus::Failed;
                }''', '''                if res.is_err() && yy.yystack.len() <= 1 {
                    yy.yystatus = YYStatus::Failed;
                }''')],
    '''
pomelo::pomelo! {
    %error u32;
    %syntax_error { Err(1) }
    %parse_fail { 2 }
    input ::= l;
    l ::= l i;
    l ::= i;
    i ::= A B { return Err(3) };
    i ::= A C;
}
fn main() {
    use parser::Token::*;
    use parser::*;
    std::panic::set_hook(Box::new(|_| ()));
    let mut p = Parser::new();
    p.parse(A).unwrap();
    p.parse(C).unwrap();
    p.parse(A).unwrap();
    p.parse(B).unwrap();
    assert_eq!(p.parse(A), Err(3));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.parse(A)));
    if r.is_ok() {
        std::process::exit(1);
    }
}
''')

add('s13-eoi-error', 'C17',
    'an action that fails while the end of input is processed',
    'end_of_input() returns the value of %parse_fail instead of the error of the action',
    [('''                    yy_parse_token(&mut self, 0, YYMinorType::YY0(()))?;
                    Ok((self.yystatus.unwrap(), self.extra))''', '''                    if yy_parse_token(&mut self, 0, YYMinorType::YY0(())).is_err() {
                        return Err(yy_parse_failed(&mut self));
                    }
                    Ok((self.yystatus.unwrap(), self.extra))''')],
    '''
pomelo::pomelo! {
    %error u32;
    %syntax_error { Err(1) }
    %parse_fail { 2 }
    %type i u32;
    %type input u32;
    input ::= i(x) { x };
    i ::= A B { Err(3)? };
    i ::= A C { 5 };
}
fn main() {
    use parser::Token::*;
    use parser::*;
    let mut p = Parser::new();
    p.parse(A).unwrap();
    p.parse(B).unwrap();
    assert_eq!(p.end_of_input(), Err(3));
    let mut p = Parser::new();
    p.parse(A).unwrap();
    p.parse(C).unwrap();
    assert_eq!(p.end_of_input(), Ok(5));
}
''')

add('s14-lookup-edge', 'C20',
    'a token whose table index is exactly the length of the action table in the current state',
    'the bound of the action table lookup is off by one: such a token panics with an index out of bounds',
    [('''                if i < 0 || i >= YY_ACTION.len() as i32 || YY_LOOKAHEAD[i as usize] as i32 != look_ahead {
                    if look_ahead > 0''', '''                if i < 0 || i > YY_ACTION.len() as i32 || YY_LOOKAHEAD[i as usize] as i32 != look_ahead {
                    if look_ahead > 0''')],
    '''
pomelo::pomelo! {
    input ::= A B;
    input ::= C D E F;
    input ::= x G H;
    x ::= I;
    x ::= x J;
}
fn main() {
    use parser::Token::*;
    use parser::*;
    let all = || [A, B, C, D, E, F, G, H, I, J];
    for w in 0..3 {
        for i in 0..5 {
            for t in all() {
                let seq: Vec<Token> = match w { 0 => vec![A, B], 1 => vec![C, D, E, F], _ => vec![I, J, G, H] };
                let mut p = Parser::new();
                if seq.into_iter().take(i).all(|x| p.parse(x).is_ok()) {
                    let _ = p.parse(t);
                }
            }
        }
    }
}
''')

add('s15-optional-shared', 'C14',
    'the same rule uses two optional symbols of which the second one was first used as optional after a third one',
    'optional symbols are looked up by the number of the symbol that is already optional, so different optionals get mixed up',
    [('''                                    &format!("_{}", self.optional_tokens.len()),''', '''                                    &format!("_{}", self.optional_tokens.len().min(9)),''')],
    '''
pomelo::pomelo! {
    input ::= A? B? C? D? E? F? G? H? I? J? K? L? Z;
}
fn main() {
    use parser::Token::*;
    use parser::*;
    let mut p = Parser::new();
    for t in [A, B, C, D, E, F, G, H, I, J, K, L, Z] {
        p.parse(t).unwrap();
    }
    p.end_of_input().unwrap();
    let mut p = Parser::new();
    p.parse(J).unwrap();
    assert!(p.parse(J).is_err());
}
''')

add('s16-unit-extra', 'C18',
    '%extra_token together with a token whose own type is the same as that of another token, read back in %syntax_error',
    'a typed token with %extra_token is rebuilt for %syntax_error as another variant of the same type',
    [('''                    token_builds.push(quote!((#i, YYMinorType::#yydt(x)) => Some(Token::#name(x))));''',
      '''                    let s0 = (1..=i as usize).map(|k| self.the_symbols.get(self.symbols[k])).filter(|t| t.dt_num == s.dt_num).nth(4);
                    let name0 = Ident::new(&s0.map_or(s.name.clone(), |t| t.name.clone()), Span::call_site());
                    token_builds.push(quote!((#i, YYMinorType::#yydt(x)) => Some(Token::#name0(x))));''')],
    '''
pomelo::pomelo! {
    %token #[derive(PartialEq, Debug)] pub enum Token {};
    %default_type u32;
    %type input ();
    %error Option<Token>;
    %syntax_error { Err(token) }
    %parse_fail { None }
    input ::= A B C D E F G H {};
}
fn main() {
    use parser::*;
    let all = || [Token::A(0), Token::B(1), Token::C(2), Token::D(3), Token::E(4), Token::F(5), Token::G(6), Token::H(7)];
    for (t, u) in all().into_iter().zip(all()).skip(1) {
        let mut p = Parser::new();
        assert_eq!(p.parse(t), Err(Some(u)));
    }
}
''')

add('s17-default-first', 'C19',
    '%default_type with a nonterminal that is used only in rules that come before any of its own rules... and has no type of its own',
    'the wildcard exception of %default_type also hits the symbol after the wildcard',
    [('''            if Some(*sp) == self.wildcard {
                continue;
            }
            let mut sp = self.the_symbols.get_mut(sp);
            let data_type''', '''            if Some(*sp) == self.wildcard {
                continue;
            }
            if self.error_symbol == *sp && self.start.is_none() {
                continue;
            }
            let mut sp = self.the_symbols.get_mut(sp);
            let data_type''')],
    '')
SEEDS.pop()
