SEEDS = []
def add(sid, prop, needs, what, edits, demo, **kw):
    SEEDS.append(dict(sid=sid, prop=prop, needs=needs, what=what, edits=edits, demo=demo, **kw))

add('s20-long-start', 'C02',
    'a start rule of three or more symbols followed by one more token',
    'long start rules become default reductions, so a token after the end of a sentence is accepted',
    [('''                            if self.the_rules.get(rp).lhs_start {
                                continue;
                            }''', '''                            let rule = self.the_rules.get(rp);
                            if rule.lhs_start && rule.rhs.len() < 3 {
                                continue;
                            }''')],
    '''
pomelo::pomelo! {
    input ::= A B C;
    input ::= B B;
}
fn main() {
    use parser::*;
    let mut p = Parser::new();
    p.parse(Token::A).unwrap();
    p.parse(Token::B).unwrap();
    p.parse(Token::C).unwrap();
    assert!(p.parse(Token::B).is_err());
    let mut p = Parser::new();
    p.parse(Token::A).unwrap();
    p.parse(Token::B).unwrap();
    p.parse(Token::C).unwrap();
    p.end_of_input().unwrap();
}
''')

add('s21-silent-count', 'C10',
    'a second error fewer than three tokens after a reported one, then two good tokens and another error',
    'a silent error does not start the count of three tokens again, so a later error is reported too soon',
    [('''                                yy_syntax_error(yy, yymajor, yyminor, expected)?;
                            }
                            yy.error_count = 3;
                            break;''', '''                                yy_syntax_error(yy, yymajor, yyminor, expected)?;
                                yy.error_count = 3;
                            }
                            break;''')],
    '''
pomelo::pomelo! {
    %extra_argument u32;
    %syntax_error { *extra += 1; Ok(()) }
    input ::= l;
    l ::= ;
    l ::= l A;
    l ::= l B C;
}
fn main() {
    use parser::Token::*;
    use parser::*;
    let mut p = Parser::new(0);
    for t in [C, A, A, C, A, C, A, A, A] {
        p.parse(t).unwrap();
    }
    assert_eq!(*p.extra(), 1);
    p.parse(C).unwrap();
    assert_eq!(p.end_of_input(), Ok(((), 2)));
}
''')

add('s22-error-below', 'C11',
    'an unacceptable token when popping the stack uncovers an error symbol',
    'the error symbol that popping uncovers is popped too, and the error reported again',
    [('''                            while let Some(top) = yy.yystack.last() {
                                if top.major == YYERRORSYMBOL { break; }''',
      '''                            let yylen = yy.yystack.len();
                            while let Some(top) = yy.yystack.last() {
                                if top.major == YYERRORSYMBOL && yy.yystack.len() == yylen { break; }''')],
    '''
pomelo::pomelo! {
    %extra_argument u32;
    %syntax_error { *extra += 1; Ok(()) }
    input ::= error A B;
    input ::= X;
}
fn main() {
    use parser::Token::*;
    use parser::*;
    let mut p = Parser::new(0);
    for t in [B, A, X, A, B] {
        p.parse(t).unwrap();
    }
    assert_eq!(p.end_of_input(), Ok(((), 1)));
}
''')

def many():
    g = ''.join(f'    input ::= T{i} l{i} M N;\n    l{i} ::= A B C;\n' for i in range(30))
    return g
add('s23-action-type', 'C07',
    'a grammar with more than 255 states and rules but fewer than 251 rules',
    'the type of the table of default actions is too narrow and its values wrap around',
    [('''minimum_unsigned_type(self.states.len() + self.rules.len() + 5)''', '''minimum_unsigned_type(self.states.len().max(self.rules.len()) + 5)''')],
    '''
pomelo::pomelo! {
%s}
fn main() {
    use parser::Token::*;
    use parser::*;
    let mut p = Parser::new();
    for t in [T29, A, B, C, M, N] {
        p.parse(t).unwrap();
    }
    p.end_of_input().unwrap();
}
''' % many())

add('s24-expected-fallback', 'C12',
    'an error in a state that takes a token as itself although the token also has a fallback',
    'tokens that have a fallback are left out of the expected tokens',
    [('''if yy_find_shift_action_2(self.stateno, yy_major) < YYNSTATE + YYNRULE {''',
      '''if YY_FALLBACK.get(yy_major as usize).map_or(true, |f| *f == 0) && yy_find_shift_action_2(self.stateno, yy_major) < YYNSTATE + YYNRULE {''')],
    '''
pomelo::pomelo! {
    %fallback A B;
    %extra_argument Vec<&'static str>;
    %syntax_error { *extra = expected.map(|e| e.name).collect(); Ok(()) }
    input ::= X A;
    input ::= C B A;
}
fn main() {
    use parser::Token::*;
    use parser::*;
    let mut p = Parser::new(vec![]);
    p.parse(A).unwrap();
    assert_eq!(p.extra(), &["X", "C"]);
    p.parse(X).unwrap();
    p.parse(B).unwrap();
    let mut p = Parser::new(vec![]);
    p.parse(C).unwrap();
    p.parse(A).unwrap();
    assert_eq!(p.extra(), &["B"]);
    p.parse(B).unwrap();
    p.parse(A).unwrap();
    p.end_of_input().unwrap();
}
''')

add('s25-first-progress', 'C15',
    'a chain of nonterminals whose rules come in top-down order and whose FIRST set decides a reduction',
    'FIRST sets stop being computed too early in some orders of the rules',
    [('''                                progress |= s1_first_set.insert(b2.index);''', '''                                progress = s1_first_set.insert(b2.index);''')],
    '''
pomelo::pomelo! {
    input ::= n a;
    input ::= m E;
    n ::= ;
    m ::= ;
    a ::= b;
    b ::= c;
    c ::= d;
    d ::= e;
    e ::= D;
    e ::= F;
}
fn main() {
    use parser::Token::*;
    use parser::*;
    for t in [D, E, F] {
        let mut p = Parser::new();
        p.parse(t).unwrap();
        p.end_of_input().unwrap();
    }
}
''')

add('s26-fallback-chain', 'C08',
    'a chain of fallbacks in a state where the last one is used and the middle one is not',
    'a token with a reduction of its own is compressed away and then taken for its fallback fallback',
    [('''while let Some(fb) = self.the_symbols.get(sym).fallback {
                            sym = fb;
''', '''if let Some(fb) = self.the_symbols.get(sym).fallback {
                            sym = fb;
'''), ('''                                ignored_actions.insert(ap.look_ahead);
                                break;''', '''                                ignored_actions.insert(ap.look_ahead);'''),
     ('''let mut sym = ap.look_ahead;
                        if''', '''let sym = ap.look_ahead;
                        if'''), ('''                            sym = fb;

''', '')],
    '''
pomelo::pomelo! {
    %fallback A B;
    %fallback B C;
    input ::= x C;
    input ::= x D;
    x ::= N;
    x ::= N A;
}
fn main() {
    use parser::Token::*;
    use parser::*;
    for ts in [vec![N, C], vec![N, B, D], vec![N, A, C], vec![N, D]] {
        let mut p = Parser::new();
        for t in ts {
            p.parse(t).unwrap();
        }
        p.end_of_input().unwrap();
    }
}
''')

add('s27-wildcard-fallback', 'C09',
    'a wildcard, and a token without a fallback declared before one that has one',
    'a token that stands before another one with a fallback is not matched by the wildcard',
    [('''                        }
                        if YYWILDCARD > 0 {''', '''                        } else if YYWILDCARD > 0 {''')],
    '''
pomelo::pomelo! {
    %wildcard ANY;
    input ::= A ANY;
    input ::= A B A;
    input ::= B C;
    %fallback B D;
}
fn main() {
    use parser::Token::*;
    use parser::*;
    for ts in [vec![A, C], vec![A, D, A], vec![A, A], vec![D, C]] {
        let mut p = Parser::new();
        for t in ts {
            p.parse(t).unwrap();
        }
        p.end_of_input().unwrap();
    }
}
''')

add('s28-eoi-error', 'C17',
    'an action that fails while the end of input is processed',
    'end_of_input() returns the value of %parse_fail instead of the error of the action',
    [('''                    yy_parse_token(&mut self, 0, YYMinorType::YY0(()))?;
                    Ok((self.yystatus.unwrap(), self.extra))''', '''                    if yy_parse_token(&mut self, 0, YYMinorType::YY0(())).is_err() {
                        return Err(yy_parse_failed(&mut self));
                    }
                    Ok((self.yystatus.unwrap(), self.extra))''')],
    '''
pomelo::pomelo! {
    %error u32;
    %syntax_error { Err(1) }
    %parse_fail { 2 }
    %type i u32;
    %type input u32;
    input ::= i(x) { x };
    i ::= A B { return Err(3) };
    i ::= A C { 5 };
}
fn main() {
    use parser::Token::*;
    use parser::*;
    let mut p = Parser::new();
    p.parse(A).unwrap();
    p.parse(B).unwrap();
    assert_eq!(p.end_of_input(), Err(3));
    let mut p = Parser::new();
    p.parse(A).unwrap();
    p.parse(C).unwrap();
    assert_eq!(p.end_of_input(), Ok(5));
}
''')

add('s29-default-error', 'C19',
    'a grammar with %default_type and the error symbol, whose value is used',
    'the error symbol does not get the default type',
    [('''            if Some(*sp) == self.wildcard {
                continue;
            }
            let mut sp = self.the_symbols.get_mut(sp);
            let data_type''', '''            if Some(*sp) == self.wildcard || *sp == self.error_symbol {
                continue;
            }
            let mut sp = self.the_symbols.get_mut(sp);
            let data_type''')],
    '''
pomelo::pomelo! {
    %default_type u32;
    %syntax_error { Ok(7) }
    input ::= A(a) { a }
    input ::= error(e) B(b) { e + b }
}
fn main() {
    use parser::Token::*;
    use parser::*;
    let mut p = Parser::new();
    p.parse(B(1)).unwrap();
    p.parse(B(2)).unwrap();
    assert_eq!(p.end_of_input(), Ok(9));
    let mut p = Parser::new();
    p.parse(A(1)).unwrap();
    assert_eq!(p.end_of_input(), Ok(1));
}
''')

add('s30-state-dots', 'C01',
    'two states made of the same two or more rules with the dots at different places',
    'states are compared without their dots beyond the first item, so different states are merged',
    [('''            for (a, b) in sbp.iter().zip(bp) {
                let a = self.the_configs.get(a);
                let b = self.the_configs.get(b);
                if a.rule != b.rule || a.dot != b.dot {''', '''            for (i, (a, b)) in sbp.iter().zip(bp).enumerate() {
                let a = self.the_configs.get(a);
                let b = self.the_configs.get(b);
                if a.rule != b.rule || (i == 0 && a.dot != b.dot) {''')],
    '''
pomelo::pomelo! {
    input ::= z;
    input ::= w;
    input ::= G k;
    k ::= u;
    k ::= z;
    w ::= A u;
    u ::= A C;
    z ::= A A D;
}
fn main() {
    use parser::Token::*;
    use parser::*;
    for ts in [vec![A, A, D], vec![A, A, C], vec![G, A, C], vec![G, A, A, D]] {
        let mut p = Parser::new();
        for t in ts {
            p.parse(t).unwrap();
        }
        p.end_of_input().unwrap();
    }
}
''')

add('s31-prec-rightmost', 'C05',
    'a rule with two terminals of different precedence',
    'the precedence of a rule is that of its right-most terminal',
    [('''            for SymbolAlias(sp, ..) in &rp.rhs {
                let b = self.the_symbols.get(sp);
                match &b.typ {
                    MultiTerminal(sub_sym) => {
                        if let Some(prec)''', '''            for SymbolAlias(sp, ..) in rp.rhs.iter().rev() {
                let b = self.the_symbols.get(sp);
                match &b.typ {
                    MultiTerminal(sub_sym) => {
                        if let Some(prec)''')],
    '''
pomelo::pomelo! {
    %type input String;
    %type e String;
    %left Q;
    %left P;
    %left C;
    input ::= e(e) { e }
    e ::= N { "n".into() }
    e ::= e(a) P e(b) { format!("({a}+{b})") }
    e ::= e(a) Q e(b) C e(c) { format!("({a}?{b}:{c})") }
}
fn main() {
    use parser::Token::*;
    use parser::*;
    let mut p = Parser::new();
    for t in [N, Q, N, C, N, P, N] {
        p.parse(t).unwrap();
    }
    assert_eq!(p.end_of_input().unwrap(), "(n?n:(n+n))");
}
''')
add('s32-class-order', 'C03',
    'a rule of more than ten symbols with aliases of the same type on both sides of the tenth',
    'values are popped in the order of the names of the variables, yyp10 before yyp2',
    [('''        for i in (0..rp.rhs.len()).rev() {
            let yypi = Ident::new(&format!("yyp{}", i), Span::call_site());
            code.extend(''', '''        let mut yyps = (0..rp.rhs.len()).map(|i| format!("yyp{}", i)).collect::<Vec<_>>();
        yyps.sort();
        for yypi in yyps.iter().rev() {
            let yypi = Ident::new(yypi, Span::call_site());
            code.extend(''')],
    '''
pomelo::pomelo! {
    %type A u32;
    %type input Vec<u32>;
    input ::= A(a) A(b) A(c) A(d) A(e) A(f) A(g) A(h) A(i) A(j) A(k) A(l) { vec![a, b, c, d, e, f, g, h, i, j, k, l] }
    input ::= B A(x) { vec![x] }
}
fn main() {
    use parser::Token::*;
    use parser::*;
    let mut p = Parser::new();
    for i in 0..12 {
        p.parse(A(i)).unwrap();
    }
    assert_eq!(p.end_of_input().unwrap(), (0..12).collect::<Vec<u32>>());
}
''')
add('s33-limit-error', 'C13',
    'the stack is full when the error symbol has to be shifted',
    'the error symbol is shifted beyond the limit of %stack_size',
    [('''                if YYSTACKLIMIT != 0 && yy.yystack.len() >= YYSTACKLIMIT {''', '''                if YYSTACKLIMIT != 0 && yy.yystack.len() >= YYSTACKLIMIT && yymajor != YYERRORSYMBOL {''')],
    '''
pomelo::pomelo! {
    %error u32;
    %stack_size 3;
    %syntax_error { Ok(()) }
    %stack_overflow { 9 }
    %parse_fail { 8 }
    input ::= A A x;
    x ::= error;
    x ::= B;
}
fn main() {
    use parser::Token::*;
    use parser::*;
    let mut p = Parser::new();
    p.parse(A).unwrap();
    p.parse(A).unwrap();
    assert_eq!(p.parse(A), Err(9));
}
''')
add('s34-popped-values', 'C04',
    'a parse fails after values were put on the stack and the parser is kept',
    'the values left in the stack when the parse fails are forgotten and never dropped',
    [('''                yy.yystack.clear();
                let extra = &mut yy.extra;
                #yyparsefail''', '''                while yy.yystack.len() > 1 {
                    yy.yystack.pop();
                }
                if let Some(bottom) = yy.yystack.pop() {
                    ::std::mem::forget(bottom);
                }
                let extra = &mut yy.extra;
                #yyparsefail''')],
    '''fn main() {}
''')
SEEDS.pop()
