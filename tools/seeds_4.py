SEEDS = []
def add(sid, prop, needs, what, edits, demo, **kw):
    SEEDS.append(dict(sid=sid, prop=prop, needs=needs, what=what, edits=edits, demo=demo, **kw))

add('s80-optional-name', 'C14', 'two different compound symbols that are both optional (A|B? and C|D?)',
    'optional symbols are named after their symbol, so all optional compound symbols are one and the same',
    [('                                    &format!("_{}", self.optional_tokens.len()),',
      '                                    &format!("_{}", self.the_symbols.get(tok).name),')],
    '''
pomelo::pomelo! {
    input ::= A|B? X C|D? Y;
}
fn main() {
    use parser::Token::*;
    let mut p = parser::Parser::new();
    assert!(p.parse(C).is_err());
    let mut p = parser::Parser::new();
    for t in [A, X, D, Y] {
        p.parse(t).unwrap();
    }
    p.end_of_input().unwrap();
}
''')
add('s81-error-default-type', 'C19', '%default_type in a grammar that uses the error symbol',
    'the error symbol does not get the default type',
    [('            if Some(*sp) == self.wildcard {\n                continue;', '            if Some(*sp) == self.wildcard || *sp == self.error_symbol {\n                continue;')],
    '''
pomelo::pomelo! {
    %default_type u32;
    %syntax_error { Ok(7) }
    input ::= a(x) { x };
    a ::= A(x) B { x };
    a ::= error(e) B { e };
}
fn main() {
    use parser::Token::*;
    let mut p = parser::Parser::new();
    for t in [B(1), B(2)] {
        p.parse(t).unwrap();
    }
    assert_eq!(p.end_of_input(), Ok(7));
}
''')
add('s84-forgotten-conflict', 'C06', 'an unsettled conflict in a state (or before one) where precedence settles another',
    'a conflict is forgotten when a later one is settled',
    [('''                        nconflict +=
                            if self''', '''                        nconflict =
                            if self''')],
    '''
pomelo::pomelo! {
    input ::= e;
    e ::= e Plus e;
    e ::= e Times e;
    e ::= N;
    %left Times;
}
fn main() {}
''', reject='Parsing conflicts')
add('s85-optional-alias', 'C14', 'an optional symbol after an alternative that shares its first token',
    'an optional compound symbol stands for its first token only',
    [('                            if let MultiTerminal(sub_sym) = &mut self.the_symbols.get_mut(mt).typ {\n                                sub_sym.extend(ss);',
      '                            if optional && ss.len() > 2 {\n                                ss.pop();\n                            }\n                            if let MultiTerminal(sub_sym) = &mut self.the_symbols.get_mut(mt).typ {\n                                sub_sym.extend(ss);')],
    '''
pomelo::pomelo! {
    input ::= A|B|C? X;
}
fn main() {
    use parser::Token::*;
    let mut p = parser::Parser::new();
    for t in [C, X] {
        p.parse(t).unwrap();
    }
    p.end_of_input().unwrap();
    let mut p = parser::Parser::new();
    for t in [B, X] {
        p.parse(t).unwrap();
    }
    p.end_of_input().unwrap();
}
''')
