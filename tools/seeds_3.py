SEEDS = []
def add(sid, prop, needs, what, edits, demo, **kw):
    SEEDS.append(dict(sid=sid, prop=prop, needs=needs, what=what, edits=edits, demo=demo, **kw))

add('s40-last-include', 'C21', 'two %include directives', 'only the items of the last %include reach the parser',
    [('self.includes.extend(code);', 'self.includes = code;')],
    '''
pomelo::pomelo! {
    %include { type Num = u32; }
    %include { fn twice(n: Num) -> Num { n * 2 } }
    %type A u32;
    %type input Num;
    input ::= A(a) { twice(a) };
}
fn main() {
    let mut p = parser::Parser::new();
    p.parse(parser::Token::A(3)).unwrap();
    assert_eq!(p.end_of_input(), Ok(6));
}
''')
add('s41-limit-one', 'C22', '%stack_size 1 without %stack_overflow, and any token',
    'with a limit of one entry the default %stack_overflow panics',
    [('let c = if self.stack_limit == 0 {', 'let c = if self.stack_limit <= 1 {')],
    '''
pomelo::pomelo! {
    %stack_size 1;
    input ::= A;
}
fn main() {
    let mut p = parser::Parser::new();
    assert_eq!(p.parse(parser::Token::A), Err(()));
}
''')
add('s42-default-limit', 'C22', 'a parser without %stack_size that needs 101 to 128 stack entries',
    'the default limit is not the documented 100 entries',
    [('stack_limit: 100,', 'stack_limit: 128,')],
    '''
pomelo::pomelo! {
    input ::= a;
    a ::= X a;
    a ::= Y;
}
fn main() {
    let mut p = parser::Parser::new();
    for i in 0..110 {
        if p.parse(parser::Token::X).is_err() {
            assert_eq!(i, 99);
            return;
        }
    }
    panic!("no overflow");
}
''')
add('s43-default-recovers', 'C22', 'a grammar that uses the error symbol (without a type) and has no %syntax_error',
    'without %syntax_error a grammar with the error symbol recovers instead of failing',
    [('            None => Cow::Owned(parse_quote!({ Err(Default::default()) })),',
      '''            None if self.the_symbols.get(self.error_symbol).use_cnt > 1
                && self.the_symbols.get(self.error_symbol).data_type.is_none() =>
            {
                Cow::Owned(parse_quote!({ Ok(Default::default()) }))
            }
            None => Cow::Owned(parse_quote!({ Err(Default::default()) })),''')],
    '''
pomelo::pomelo! {
    %error u32;
    input ::= a;
    a ::= X Y;
    a ::= error Y;
}
fn main() {
    use parser::*;
    let mut p = Parser::new();
    p.parse(Token::X).unwrap();
    assert_eq!(p.parse(Token::X), Err(0));
}
''')
add('s44-token-where', 'C21', 'a generic Token with a where clause and %extra_token',
    'the where clause of Token is missing on the impl with its accessors, so the parser does not compile',
    [('''                impl #yy_generics_impl_token Token #yy_generics_token #yy_generics_where_token
                {''', '''                impl #yy_generics_impl_token Token #yy_generics_token
                {''')],
    '''
pub trait Tr { type Out; }
pub struct M;
impl Tr for M { type Out = u16; }
pomelo::pomelo! {
    %include { use super::Tr; }
    %token pub enum Token<T> where T: Tr {};
    %extra_token u32;
    %type A T::Out;
    %type input u32;
    input ::= A((e, _)) { e };
}
fn main() {
    let mut p = parser::Parser::<M>::new();
    let t = parser::Token::A((5, 6));
    assert_eq!(*t.extra(), 5);
    p.parse(t).unwrap();
    assert_eq!(p.end_of_input(), Ok(5));
}
''')
add('s45-unit-attributes', 'C21', 'attributes on a token without a type (%type #[default] A;)',
    'the attributes of a token without a type are lost',
    [('                sp.attributes = attrs;', '''                if sp.data_type.is_some() {
                    sp.attributes = attrs;
                }''')],
    '''
pomelo::pomelo! {
    %token #[derive(Default, Debug)] pub enum Token {};
    %type #[default] B;
    input ::= A B;
}
fn main() {
    assert!(matches!(parser::Token::default(), parser::Token::B));
}
''')
add('s46-same-lhs-conflict', 'C06', 'two rules of the same nonterminal, without precedence, both reducible in a state',
    'a reduce/reduce conflict between rules of one nonterminal is settled silently',
    [('''                    },
                    _ => (true, Reduce(x), RRConflict(y)),''', '''                    },
                    _ if self.the_rules.get(x).lhs.0 == self.the_rules.get(y).lhs.0 => {
                        (false, Reduce(x), RDResolved(y))
                    }
                    _ => (true, Reduce(x), RRConflict(y)),''')],
    '''
pomelo::pomelo! {
    input ::= e;
    input ::= B e;
    e ::= A;
    e ::= B A;
}
fn main() {}
''', reject='Parsing conflicts')
add('s48-not-failed', 'C16', 'an action or handler that fails fewer than three tokens after an error that was recovered from',
    'a parser that fails shortly after a recovery accepts more tokens',
    [('                if res.is_err() {\n                    yy.yystatus', '                if res.is_err() && yy.error_count == 0 {\n                    yy.yystatus')],
    '''
pomelo::pomelo! {
    %syntax_error { Ok(()) }
    %error u32;
    input ::= l;
    l ::= ;
    l ::= l A;
    l ::= l B C { return Err(4) };
}
fn main() {
    use parser::Token::*;
    let mut p = parser::Parser::new();
    for t in [C, B, C] {
        p.parse(t).unwrap();
    }
    assert_eq!(p.parse(A), Err(4));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.parse(A)));
    assert!(r.is_err());
}
''')
add('s50-eoi-action-error', 'C17', 'an action that fails in a reduction caused by the end of input',
    'the error of an action run by end_of_input() is replaced by that of %parse_fail',
    [('                        yy_reduce(yy, yyact - YYNSTATE)?;', '''                        if let Err(e) = yy_reduce(yy, yyact - YYNSTATE) {
                            return Err(if yymajor == 0 { yy_parse_failed(yy) } else { e });
                        }''')],
    '''
pomelo::pomelo! {
    %error u32;
    input ::= a;
    a ::= B C { return Err(4) };
}
fn main() {
    use parser::Token::*;
    let mut p = parser::Parser::new();
    p.parse(B).unwrap();
    p.parse(C).unwrap();
    assert_eq!(p.end_of_input(), Err(4));
}
''')
add('s53-default-attributes', 'C19', '%default_type and a token that has attributes but no type of its own',
    'a token with attributes does not get the default type',
    [('            sp.data_type = data_type.or_else(|| self.default_type.clone());',
      '''            sp.data_type = match data_type {
                None if !sp.attributes.is_empty() => None,
                data_type => data_type.or_else(|| self.default_type.clone()),
            };''')],
    '''
pomelo::pomelo! {
    %default_type u32;
    %type #[allow(dead_code)] B;
    input ::= A(a) B(b) { a + b };
}
fn main() {
    let mut p = parser::Parser::new();
    p.parse(parser::Token::A(3)).unwrap();
    p.parse(parser::Token::B(4)).unwrap();
    assert_eq!(p.end_of_input(), Ok(7));
}
''')
add('s60-named-prec', 'C06', 'a rule with [X] where X has no precedence, in a conflict',
    'a rule that names a terminal without precedence takes that of its own terminals, so its conflict is settled',
    [('''                rp.precedence = self.the_symbols.get(ps).precedence;
                continue;''', '''                rp.precedence = self.the_symbols.get(ps).precedence;
                if rp.precedence.is_some() {
                    continue;
                }''')],
    '''
pomelo::pomelo! {
    %left PLUS;
    input ::= e;
    e ::= e PLUS e [NONE];
    e ::= N NONE;
}
fn main() {}
''', reject='Parsing conflicts')
add('s66-unused-empty', 'C06', 'an empty rule that no state ever reduces',
    'an empty rule that is never reduced is accepted',
    [('            if !rp.can_reduce {', '            if !rp.can_reduce && !rp.rhs.is_empty() {')],
    '''
pomelo::pomelo! {
    input ::= A;
    foo ::= ;
}
fn main() {}
''', reject='cannot be reduced')
add('s72-extra-decl', 'C18', '%extra_token and a token whose own type is written as the extra type',
    'a token whose own type is the extra type carries it only once',
    [('                    Some(dt) => Some(parse_quote!((#extra_token, #dt))),',
      '''                    Some(dt) if dt == *extra_token => Some(dt),
                    Some(dt) => Some(parse_quote!((#extra_token, #dt))),''')],
    '''
pomelo::pomelo! {
    %extra_token u32;
    %type A u32;
    %type input u32;
    input ::= A((e, v)) { e * 10 + v };
}
fn main() {
    let mut p = parser::Parser::new();
    p.parse(parser::Token::A((3, 4))).unwrap();
    assert_eq!(p.end_of_input(), Ok(34));
}
''')
add('s73-class-dup', 'C14', 'a %token_class declared in two directives',
    'a second directive for the same class replaces its tokens instead of adding to them',
    [('''                let tk = self.symbol_new_t(&tk, NewSymbolType::MultiTerminal);
                for id in ids {''', '''                let tk = self.symbol_new_t(&tk, NewSymbolType::MultiTerminal);
                if let MultiTerminal(sub_sym) = &mut self.the_symbols.get_mut(tk).typ {
                    sub_sym.clear();
                }
                for id in ids {''')],
    '''
pomelo::pomelo! {
    %token_class Op A B;
    %token_class Op C;
    input ::= Op;
}
fn main() {
    for t in [parser::Token::A, parser::Token::B, parser::Token::C] {
        let mut p = parser::Parser::new();
        p.parse(t).unwrap();
        p.end_of_input().unwrap();
    }
}
''')
add('s75-type-order', 'C19', 'a compound symbol (A|B) whose first token has an explicit type, under %default_type',
    'the type of a compound symbol is the default type, not that of its tokens',
    [('                    first.data_type.clone()\n', '                    first.data_type.clone().filter(|_| self.default_type.is_none())\n')],
    '''
pomelo::pomelo! {
    %default_type u32;
    %type A u8;
    %type B u8;
    input ::= A|B(a) { a as u32 + 300 };
}
fn main() {
    let mut p = parser::Parser::new();
    p.parse(parser::Token::B(3)).unwrap();
    assert_eq!(p.end_of_input(), Ok(303));
}
''')
