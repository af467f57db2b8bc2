SEEDS = []
def add(sid, prop, needs, what, edits, demo, **kw):
    SEEDS.append(dict(sid=sid, prop=prop, needs=needs, what=what, edits=edits, demo=demo, **kw))

add('s100-kernel-prefix', 'C01', 'two states whose kernels have the same size, seven or more items, and differ only after the sixth',
    'states with the same first six kernel items are taken for one',
    [('for (a, b) in sbp.iter().zip(bp) {', 'for (a, b) in sbp.iter().zip(bp).take(6) {')],
    '''
pomelo::pomelo! {
    input ::= P a1; input ::= P a2; input ::= P a3; input ::= P a4; input ::= P a5; input ::= P a6; input ::= P a7;
    input ::= Q a1; input ::= Q a2; input ::= Q a3; input ::= Q a4; input ::= Q a5; input ::= Q a6; input ::= Q a8;
    a1 ::= X T1; a2 ::= X T2; a3 ::= X T3; a4 ::= X T4; a5 ::= X T5; a6 ::= X T6; a7 ::= X T7; a8 ::= X T8;
}
fn main() {
    use parser::Token::*;
    for (a, l) in [(P, [T1, T2, T3, T4, T5, T6, T7]), (Q, [T1, T2, T3, T4, T5, T6, T8])] {
        for t in l {
            let mut p = parser::Parser::new();
            p.parse(match a { P => P, _ => Q }).unwrap();
            p.parse(X).unwrap();
            p.parse(t).unwrap();
            p.end_of_input().unwrap();
        }
    }
}
''')
add('s101-wildcard-below', 'C09', 'a wildcard declared before the other tokens, and an unknown token in a state without the wildcard whose row is the first of the table',
    'the index of the wildcard entry is not checked against zero',
    [('if j >= 0 && j < YY_ACTION', 'if j < YY_ACTION')],
    '''
pomelo::pomelo! {
    %wildcard ANY;
    input ::= A; input ::= B; input ::= C; input ::= D;
    input ::= Q ANY Z;
}
fn main() {
    use parser::Token::*;
    let mut p = parser::Parser::new();
    assert!(p.parse(Z).is_err());
    for t in [A, B, Z] {
        let mut p = parser::Parser::new();
        p.parse(Q).unwrap();
        p.parse(t).unwrap();
        p.parse(Z).unwrap();
        p.end_of_input().unwrap();
    }
}
''')
add('s102-compound-types', 'C20', 'a compound symbol of three tokens with an alias, only the middle one of another type',
    'only the last token of a compound symbol is compared with the first',
    [('for or in &ss[1..] {', 'for or in ss.last() {')],
    '''
pomelo::pomelo! {
    %type A u32; %type B bool; %type C u32;
    input ::= A|B|C(x) { let _ = x; }
}
fn main() {
    use parser::Token::*;
    for t in [A(1), B(true), C(2)] {
        let mut p = parser::Parser::new();
        p.parse(t).unwrap();
        p.end_of_input().unwrap();
    }
}
''', reject='Compound tokens with an alias must all have the same type')
add('s104-fallback-types', 'C08', 'a fallback between tokens of different types',
    'the types of a token and its fallback are compared only if the token has none',
    [('(fdt, pdt) if fdt == pdt => {}', '(_, pdt) if pdt != 0 => {}')],
    '''
pomelo::pomelo! {
    %type A u32; %type B bool;
    %fallback A B;
    input ::= A(x) { let _ = x; }
    input ::= C B;
}
fn main() {
    use parser::Token::*;
    let mut p = parser::Parser::new();
    p.parse(B(true)).unwrap();
    p.end_of_input().unwrap();
}
''', reject='Fallback token must have the same type')

add('s105-levels', 'C05', 'ten or more levels of precedence',
    'there are only nine different levels',
    [('pdt.precedence += 1;', 'pdt.precedence = (pdt.precedence + 1).min(9);')],
    '''
pomelo::pomelo! {
    %left A1; %left A2; %left A3; %left A4; %left A5; %left A6; %left A7; %left A8; %left A9; %left A10;
    %type N u32; %type e u32; %type input u32;
    input ::= e;
    e ::= N;
    e ::= e(a) A1 e(b) { a + b }
    e ::= e(a) A2 e(b) { a + b }
    e ::= e(a) A3 e(b) { a + b }
    e ::= e(a) A4 e(b) { a + b }
    e ::= e(a) A5 e(b) { a + b }
    e ::= e(a) A6 e(b) { a + b }
    e ::= e(a) A7 e(b) { a + b }
    e ::= e(a) A8 e(b) { a + b }
    e ::= e(a) A9 e(b) { a - b }
    e ::= e(a) A10 e(b) { a / b }
}
fn main() {
    use parser::Token::*;
    let mut p = parser::Parser::new();
    for t in [N(10), A9, N(6), A10, N(3)] {
        p.parse(t).unwrap();
    }
    assert_eq!(p.end_of_input().unwrap(), 8);
}
''')
