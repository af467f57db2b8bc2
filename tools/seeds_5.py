SEEDS = []
def add(sid, prop, needs, what, edits, demo, **kw):
    SEEDS.append(dict(sid=sid, prop=prop, needs=needs, what=what, edits=edits, demo=demo, **kw))

# a state entered from more than two places
add('s90-two-predecessors', 'C01', 'a state that is entered from four other states, each with a lookahead of its own',
    'lookaheads of only two predecessors reach a merged configuration',
    [('                    y.bplp.extend(&self.the_configs.get(x).bplp);', '                    if y.bplp.len() < 3 {\n                        y.bplp.extend(&self.the_configs.get(x).bplp);\n                    }')],
    '''
pomelo::pomelo! {
    input ::= A x P;  input ::= A y Q;
    input ::= B x P2; input ::= B y Q2;
    input ::= C x P3; input ::= C y Q3;
    input ::= D x P4; input ::= D y Q4;
    input ::= E x P5; input ::= E y Q5;
    x ::= X;
    y ::= X;
}
fn main() {
    use parser::Token::*;
    for t in [[A, X, P], [A, X, Q], [B, X, P2], [B, X, Q2], [C, X, P3], [C, X, Q3], [D, X, P4], [D, X, Q4], [E, X, P5], [E, X, Q5]] {
        let mut p = parser::Parser::new();
        for k in t {
            p.parse(k).unwrap();
        }
        p.end_of_input().unwrap();
    }
}
''')
add('s91-wildcard-bound', 'C20', 'a wildcard state whose row lies at the end of the table',
    'the index of the wildcard entry is not checked against the size of the table',
    [('if j >= 0 && j < YY_ACTION.len() as i32 && YY_LOOKAHEAD', 'if j >= 0 && YY_LOOKAHEAD')],
    '''
pomelo::pomelo! {
    %left A;
    input ::= P0 A; input ::= P1 A; input ::= P2 A; input ::= P3 A; input ::= P4 A; input ::= P5 A;
    input ::= Q ANY;
    %wildcard ANY;
}
fn main() {
    use parser::Token::*;
    for a in [P0, P1, P2, P3, P4, P5] {
        let mut p = parser::Parser::new();
        p.parse(a).unwrap();
        assert!(p.parse(Q).is_err());
    }
    let mut p = parser::Parser::new();
    p.parse(Q).unwrap();
    p.parse(Q).unwrap();
    p.end_of_input().unwrap();
}
''')
add('s92-compound-follow', 'C14', 'a compound symbol of three tokens after a nonterminal',
    'only two tokens of a compound symbol are lookaheads of what stands before it',
    [('                                    for k in sub_sym {', '                                    for k in sub_sym.iter().take(2) {')],
    '''
pomelo::pomelo! {
    input ::= a A|B|C;
    input ::= b D;
    input ::= b E;
    input ::= b F;
    input ::= b G;
    a ::= X;
    b ::= X;
}
fn main() {
    use parser::Token::*;
    for t in [A, B, C] {
        let mut p = parser::Parser::new();
        p.parse(X).unwrap();
        p.parse(t).unwrap();
        p.end_of_input().unwrap();
    }
}
''')
add('s93-compound-first', 'C14', 'a compound symbol of three tokens at the start of a nonterminal',
    'only two tokens of a compound symbol are in FIRST',
    [('                                for ss in sub_sym {\n                                    progress', '                                for ss in sub_sym.iter().take(2) {\n                                    progress')],
    '''
pomelo::pomelo! {
    input ::= a y;
    input ::= b D;
    input ::= b E;
    input ::= b F;
    input ::= b G;
    a ::= X;
    b ::= X;
    y ::= A|B|C;
}
fn main() {
    use parser::Token::*;
    for t in [A, B, C] {
        let mut p = parser::Parser::new();
        p.parse(X).unwrap();
        p.parse(t).unwrap();
        p.end_of_input().unwrap();
    }
}
''')
add('s94-names-declared', 'C12', 'a token with a type of its own among the expected ones',
    'a token with a value is not listed with the variants',
    [('            token_names.push(s.name.clone());', '            token_names.push(if s.attributes.is_empty() { s.name.clone() } else { s.name.to_lowercase() });')],
    '''
pomelo::pomelo! {
    %include { #[derive(Debug, Default)] pub struct E(pub Vec<&'static str>); }
    %error E;
    %syntax_error { Err(E(expected.map(|t| t.name).collect())) }
    %parse_fail { E(vec![]) }
    %token #[derive(Debug)] pub enum Token {};
    %type #[doc = "a number"] NUM u32;
    input ::= A NUM;
    input ::= A B;
}
fn main() {
    use parser::Token::*;
    let mut p = parser::Parser::new();
    p.parse(A).unwrap();
    let e = p.parse(A).unwrap_err();
    let mut v = e.0;
    v.sort();
    assert_eq!(v, ["B", "NUM"]);
}
''')
add('s98-start-default', 'C02', 'a start symbol with an empty rule',
    'an empty start rule is a default reduction',
    [('                            if self.the_rules.get(rp).lhs_start {', '                            if self.the_rules.get(rp).lhs_start\n                                && !(self.the_rules.get(rp).rhs.is_empty() && stp.actions.len() > 3)\n                            {')],
    '''
pomelo::pomelo! {
    input ::= ;
    input ::= A B;
    input ::= C;
}
fn main() {
    use parser::Token::*;
    let mut p = parser::Parser::new();
    assert!(p.parse(B).is_err());
    let p = parser::Parser::new();
    p.end_of_input().unwrap();
}
''')
add('s97-error-bottom', 'C11', 'an error in the first state, when no token was shifted and the state can shift the error symbol',
    'the bottom of the stack is never looked at for the error symbol',
    [('                            while let Some(top) = yy.yystack.last() {\n                                if top.major == YYERRORSYMBOL { break; }', '                            while let Some(top) = yy.yystack.last() {\n                                if top.major == YYERRORSYMBOL { break; }\n                                if top.major == 0 && yy.yystack.len() == 1 && yymajor == 1 { return Err(yy_parse_failed(yy)); }')],
    '''
pomelo::pomelo! {
    %syntax_error { Ok(()) }
    input ::= list;
    list ::= item;
    list ::= list item;
    item ::= Z A B C D;
    item ::= error END;
}
fn main() {
    use parser::Token::*;
    for k in 0..4 {
        let mut p = parser::Parser::new();
        p.parse(match k { 0 => A, 1 => B, 2 => C, _ => D }).unwrap();
        p.parse(END).unwrap();
        p.end_of_input().unwrap();
    }
    let mut p = parser::Parser::new();
    for t in [Z, Z, END] {
        p.parse(t).unwrap();
    }
    p.end_of_input().unwrap();
}
''')
