"""Grammar description used by the checks, with an independent reading of what
each pomelo construct means (a "core" context-free grammar plus token mapping).

Nothing here is derived from pomelo's implementation: the constructs are
expanded the way the documentation says they behave.
"""
import os
import random
import re

SEED = os.environ.get('VERIF_SEED', '1') or '1'

class Item:
    """One right-hand-side item: names (several for A|B), optional flag, alias flag"""
    def __init__(self, names, opt=False, alias=True):
        self.names, self.opt, self.alias = names, opt, alias

    def src(self):
        return '|'.join(self.names) + ('?' if self.opt else '')


class Rule:
    def __init__(self, lhs, rhs, prec=None, nocode=False):
        self.lhs, self.rhs, self.prec, self.nocode = lhs, rhs, prec, nocode


def is_term(n):
    return n[0].isupper()


class Gram:
    """DSL:  one directive or rule per line.
         %left A B / %right / %nonassoc / %fallback Id X Y / %wildcard Any
         %token_class num A B / %start s / %type sym T  (T '-' : no type)
         lhs ::= A b? C|D e:-  [Prec]      (':-' = no alias)
         lhs ::= A b ;;                    (rule without code)
         lhs ::= x | y is not supported (| is the token alternative)
    """
    def __init__(self, name, text, default_type='u32'):
        self.name = name
        self.text = text
        self.rules, self.prec, self.fallback, self.classes = [], [], [], {}
        self.wildcard = None
        self.start = None
        self.types = {}
        self.default_type = default_type
        self.raw = []
        self.extra_tok = None  # type of %extra_token
        self.style = True   # write some things in other ways that mean the same
        self.shuffle = None # random source: permute everything whose order is documented not to matter
        self.omit = set()   # symbols whose type is not written: they have the %default_type
        for line in text.strip().splitlines():
            line = line.split('//')[0].strip()
            if not line:
                continue
            if line.startswith('%'):
                w = line.split()
                d = w[0]
                if d in ('%left', '%right', '%nonassoc'):
                    self.prec.append((d[1:], w[1:]))
                elif d == '%fallback':
                    self.fallback.append((w[1], w[2:]))
                elif d == '%wildcard':
                    self.wildcard = w[1]
                elif d == '%token_class':
                    self.classes[w[1]] = w[2:]
                elif d == '%start':
                    self.start = w[1]
                elif d == '%type':
                    self.types[w[1]] = None if w[2] == '-' else ' '.join(w[2:])
                elif d == '%raw':
                    self.raw.append(line[4:].strip())
                else:
                    raise ValueError(line)
                continue
            nocode = line.endswith(';;')
            if nocode:
                line = line[:-2].strip()
            lhs, rest = line.split('::=')
            prec = None
            m = re.search(r'\[(\w+)\]\s*$', rest)
            if m:
                prec = m.group(1)
                rest = rest[:m.start()]
            rhs = []
            for tok in rest.split():
                alias = True
                if tok.endswith(':-'):
                    alias, tok = False, tok[:-2]
                opt = tok.endswith('?')
                if opt:
                    tok = tok[:-1]
                rhs.append(Item(tok.split('|'), opt, alias))
            self.rules.append(Rule(lhs.strip(), rhs, prec, nocode))
        self.nts = []
        self.terms = []

        def add(n):
            if n == 'error' or n in self.classes:
                return
            l = self.terms if is_term(n) else self.nts
            if n not in l:
                l.append(n)
        for r in self.rules:
            add(r.lhs)
        for r in self.rules:
            for it in r.rhs:
                for n in it.names:
                    add(n)
        for c in self.classes.values():
            for n in c:
                add(n)
        for r in self.rules:
            if r.nocode:
                for it in r.rhs:
                    it.alias = False
        for _, l in self.prec:
            for n in l:
                if is_term(n):
                    add(n)
        for f, l in self.fallback:
            add(f)
            for n in l:
                add(n)
        if self.wildcard:
            add(self.wildcard)
        self.uses_error = any('error' in it.names for r in self.rules for it in r.rhs)
        self.start_sym = self.start or self.rules[0].lhs
        # the wildcard token never has a type
        if self.wildcard:
            self.types[self.wildcard] = None

    # terminals that must not be part of the input alphabet (precedence only names)
    def alphabet(self):
        used = set()
        for r in self.rules:
            for it in r.rhs:
                used.update(it.names)
        for c in self.classes.values():
            used.update(c)
        for f, l in self.fallback:
            used.update([f] + l)
        if self.wildcard:
            used.add(self.wildcard)
        return [t for t in self.terms]  # precedence-only tokens are legal inputs too

    def type_of(self, sym):
        t = self.base_type(sym)
        if self.extra_tok and sym in self.terms:
            return f'({self.extra_tok}, {t})' if t else self.extra_tok
        return t

    def base_type(self, sym):
        if sym in self.types:
            return self.types[sym]
        if sym == 'error':
            return None
        if sym in self.classes:
            return self.base_type(self.expand(sym)[0])
        return self.default_type

    def expand(self, name, seen=None):
        """the tokens of a class, in order, without repetition"""
        if name not in self.classes:
            return [name]
        out = []
        seen = seen if seen is not None else set()
        for n in self.classes[name]:
            if n in seen:
                continue
            seen.add(n)
            out += [x for x in self.expand(n, seen) if x not in out]
        return out

    def item_names(self, it):
        out = []
        for n in it.names:
            out += [x for x in self.expand(n) if x not in out]
        return out

    def item_type(self, it):
        """type of the value of an item (of one of its tokens), None if it has none"""
        return self.type_of(self.item_names(it)[0])

    def core(self):
        """Expanded grammar: list of CRule; optional symbols become fresh
        nonterminals, token alternatives and classes become separate rules."""
        out = []
        opts = {}
        for i, r in enumerate(self.rules):
            alts = [[]]
            for it in r.rhs:
                names = self.item_names(it)
                if it.opt:
                    key = '|'.join(it.names)
                    on = 'opt$' + key
                    opts.setdefault(on, names)
                    names = [on]
                alts = [a + [n] for a in alts for n in names]
            for a in alts:
                mask = 0
                for j, it in enumerate(r.rhs):
                    if self.has_alias(it):
                        mask |= 1 << j
                if r.nocode:
                    typed = [j for j, it in enumerate(r.rhs) if it.opt or self.item_type(it) is not None]
                    if self.type_of(r.lhs):
                        assert len(typed) == 1, r.lhs
                        out.append(CRule(r.lhs, a, None, 1 << typed[0], 1, r.prec))
                    else:
                        out.append(CRule(r.lhs, a, None, 0, 2, r.prec))
                    continue
                out.append(CRule(r.lhs, a, i, mask, {None: 2, '()': 4}.get(self.type_of(r.lhs), 0), r.prec))
        for on, names in opts.items():
            for n in names:
                typed = self.type_of(n) is not None
                out.append(CRule(on, [n], None, 1 if typed else 0, 1 if typed else 4, None))
            out.append(CRule(on, [], None, 0, 3, None))
        return out

    def has_alias(self, it):
        return it.alias and self.can_alias(it)

    def can_alias(self, it):
        if it.names == ['error']:
            return self.types.get('error') is not None
        if it.opt:
            return True
        ns = self.item_names(it)
        ts = set(self.type_of(n) for n in ns)
        return len(ts) == 1 and None not in ts and self.wildcard not in ns

    # ------------------------------------------------------------ rust source
    def var(self, j):
        return 'abcdefghijklmnop'[j] if j < 16 else f'v{j}'

    def split_pat(self, it):
        """bind (location, value) with a pattern of two names"""
        return bool(self.extra_tok) and not it.opt and (self.item_type(it) or '').startswith(f'({self.extra_tok},')

    def actions(self, w, i):
        r = self.rules[i]
        args = []
        for j, it in enumerate(r.rhs):
            if self.has_alias(it):
                v = self.var(j)
                if it.opt:
                    t = self.item_type(it)
                    v = f'crate::optv({v})' if t else f'crate::optu({v})'
                elif self.split_pat(it):
                    v = f'crate::cv((l{v}, {v}))'
                elif self.item_type(it) != 'u32':
                    v = f'crate::cv({v})'
                args.append(v)
        e = f'crate::act({w}, {i}, &[{", ".join(args)}])'
        return e if self.type_of(r.lhs) in (None, 'u32') else f'crate::mk({e})'

    def rule_src(self, i, w, custom=None):
        r = self.rules[i]
        parts = []
        st = self.styler(f'r{i}')
        for j, it in enumerate(r.rhs):
            s = it.src()
            if self.has_alias(it):
                v = self.var(j)
                s += f'((l{v}, {v}))' if self.split_pat(it) else f'({v} @ _)' if st(0.1) else f'(mut {v})' if st(0.1) else f'({v})'
            elif not it.alias and not r.nocode and self.can_alias(it) and st(0.4):
                s += '(_)'
            parts.append(s)
        prec = f' [{r.prec}]' if r.prec else ''
        if r.nocode:
            return f'{r.lhs} ::= {" ".join(parts)}{prec};'
        if custom is not None:
            code = custom
        else:
            code = self.actions(w, i)
            if self.type_of(r.lhs) is None:
                code = code + ';'
        return f'{r.lhs} ::= {" ".join(parts)}{prec} {{ {code} }}' + (';' if st(0.2) else '')

    def styler(self, key):
        """a coin for ways of writing; none for half of the grammars"""
        rng = random.Random(f'{SEED}/{self.name}/{key}')
        if not self.style or random.Random(f'{SEED}/{self.name}').random() < 0.5:
            return lambda p: False
        return lambda p: rng.random() < p

    def rust(self, modname=None, w=0, extra_decls='', token_attr='#[derive(Clone)]', rule_code=None, order=None,
             module_kw='pub mod'):
        m = modname or self.name
        L = []
        st = self.styler('g')
        L.append(f'%module {m};')
        L.append(f'%token {token_attr} pub enum Token {{}};')
        if st(0.06) and len(self.rules) < 40:
            L.append('%verbose;')
        for d in self.raw:
            L.append(d)
        for s in self.terms + self.nts + (['error'] if 'error' in self.types else []):
            if s == self.wildcard:
                continue
            t = self.base_type(s)
            a = ('#[allow(dead_code)] ' if st(0.5) else '#[doc = "x"] #[allow(unused)] ') if s in self.terms and st(0.2) else ''
            if t and s not in self.omit:
                L.append(f'%type {a}{s} {t};')
            elif (a or st(0.1)) and not re.search(rf'%type [^;]*\b{s}\b', extra_decls + ' '.join(self.raw)):
                L.append(f'%type {a}{s};')
        if not self.uses_error and 'error' not in self.types and st(0.1):
            L.append('%type error;')
        D = self.directive_lines()
        late = [x for x in D if st(0.2) and not x.startswith(('%left', '%right', '%nonassoc'))]
        L += [x for x in D if x not in late]
        if extra_decls:
            L.append(extra_decls)
        idx = order if order is not None else range(len(self.rules))
        for i in idx:
            L.append(self.rule_src(i, w, rule_code(i) if rule_code else None))
        L += late
        if self.shuffle:
            L = self.permuted(L)
        body = '\n    '.join(L)
        return f'pomelo::pomelo! {{\n    {body}\n}}\n'

    def permuted(self, L):
        """all lines in another order; precedence directives keep theirs, and so does the first
        rule of the start symbol unless the start symbol is named"""
        rng = self.shuffle
        flat = [x for ln in L for x in (ln.split('\n') if ln.startswith('%') and '{' not in ln else [ln])]
        L = flat[:]
        rng.shuffle(L)
        isp = lambda x: x.startswith(('%left', '%right', '%nonassoc'))
        ps = iter([x for x in flat if isp(x)])
        L = [next(ps) if isp(x) else x for x in L]
        if not self.start:
            isr = lambda x: not x.startswith('%') and '::=' in x
            first = next(i for i, x in enumerate(L) if isr(x))
            mine = [i for i, x in enumerate(L) if isr(x) and x.split('::=')[0].strip() == self.start_sym]
            if mine[0] != first:
                L[first], L[mine[0]] = L[mine[0]], L[first]
        # alternatives too
        import re as _re
        def alt(m):
            xs = m.group(0).split('|')
            rng.shuffle(xs)
            return '|'.join(xs)
        out = []
        for x in L:
            if not x.startswith('%') and '::=' in x:
                head, sep, code = x.partition('{')
                head = _re.sub(r'\w+(\|\w+)+', alt, head)
                x = head + sep + code
            elif x.startswith('%token_class') or x.startswith('%fallback') or isp(x):
                w = x.rstrip(';').split()
                k = 1 if isp(x) else 2
                t = w[k:]
                rng.shuffle(t)
                x = ' '.join(w[:k] + t) + ';'
            out.append(x)
        return out

    def directive_lines(self):
        L = []
        st = self.styler('d')

        def split(d, x, l):
            k = len(l) // 2 if len(l) > 1 and st(0.3) else 0
            return ([f'%{d} {x} {" ".join(l[:k])};'] if k else []) + [f'%{d} {x} {" ".join(l[k:])};']
        for a, l in self.prec:
            L.append(f'%{a} {" ".join(l)};')
        for f, l in self.fallback:
            L += split('fallback', f, l)
        if self.wildcard:
            L.append(f'%wildcard {self.wildcard};')
        for c, l in self.classes.items():
            L += split('token_class', c, l)
        if self.extra_tok:
            L.append(f'%extra_token {self.extra_tok};')
        if self.start:
            L.append(f'%start_symbol {self.start};')
        return L

    def tok_fn(self, modname=None, fname=None, conv=None):
        m = modname or self.name
        f = fname or f'tok_{m}'
        arms = []
        for k, t in enumerate(self.terms):
            if self.type_of(t):
                arms.append(f'{k} => {m}::Token::{t}({conv or ("v" if self.type_of(t) == "u32" else "crate::mk(v)")}),')
            else:
                arms.append(f'{k} => {m}::Token::{t},')
        # the last arm doubles as the wildcard pattern
        last = arms[-1]
        arms[-1] = '_' + last[last.index(' =>'):]
        return f'#[inline(always)]\nfn {f}(k: u32, v: u32) -> {m}::Token {{ match k {{ {" ".join(arms)} }} }}\n'


class CRule:
    """core rule; kind: 0 fresh node, 1 Some(forward), 2 no value, 3 None, 4 Some(())"""
    def __init__(self, lhs, rhs, rid, mask, kind, prec):
        self.lhs, self.rhs, self.rid, self.mask, self.kind, self.prec = lhs, rhs, rid, mask, kind, prec

    def __repr__(self):
        return f'{self.lhs} -> {" ".join(self.rhs)}'
