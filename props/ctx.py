"""the same reductions in many contexts (vlib.corpus.contexts), with shortcuts, fallbacks, a wildcard or the error symbol added; every state is covered"""
from vlib.corpus import contexts, kernels, wellformed
from vlib.grammar import Gram
from vlib.hgen import statecover, cover_m
from vlib.lalr import LALR, Conflict
from props.big import big
from props.combo import combo_types
from props.common import mixed
from props.fwcheck import fb_types


def ctx(rng, name, sugar=False, fb=False, wc=False, err=False, prec=False, kern=False, tries=4000):
    for _ in range(tries):
        g = kernels(rng, name) if kern else contexts(rng, name, sugar=sugar and rng.random() < 0.8, k=(3, 6) if fb or wc or err else (3, 7))
        lines = g.text.strip().split('\n')
        T = [t for t in g.terms if t not in ('Any', 'Zz')]
        if wc:
            # the wildcard instead of a token in one or two places
            for _ in range(rng.randint(1, 2)):
                at = [i for i, x in enumerate(lines) if '::=' in x and any(w in T for w in x.split('::=')[1].split())]
                i = rng.choice(at)
                lhs, rhs = lines[i].split('::=')
                w = rhs.split()
                j = rng.choice([j for j, x in enumerate(w) if x in T])
                if rng.random() < 0.5:
                    w[j] = 'Any'
                    lines[i] = f'{lhs}::= {" ".join(w)}'
                else:
                    w[j] = 'Any'
                    lines.append(f'{lhs}::= {" ".join(w)}')
            lines.insert(rng.choice([0, 0, len(lines)]), '%wildcard Any')
        if fb:
            used = set()
            for i in range(rng.randint(1, 4)):
                to = rng.choice(T)
                frm = [t for t in rng.sample(T + ['K0', 'K1', 'K2'], rng.randint(1, 3)) if t not in used and t != to]
                if not frm:
                    continue
                used |= set(frm)
                lines.append(f'%fallback {to} {" ".join(frm)}')
        if err:
            for _ in range(rng.randint(1, 3)):
                ln = rng.choice([x for x in lines if '::=' in x])
                lhs, rhs = ln.split('::=')
                w = rhs.split()
                k = rng.random()
                if k < 0.5:
                    w = w[:1] + ['error'] + rng.sample(T, rng.randint(0, 1))
                elif k < 0.8:
                    w = ['error'] + rng.sample(T, rng.randint(0, 2))
                else:
                    w = w[:2] + ['error'] + w[-1:]
                lines.insert(rng.randint(1, len(lines)), f'{lhs.strip()} ::= {" ".join(w)}')
        if prec:
            # one lookahead for several reductions, and precedence to choose
            Q = [t for t in T if t[0] in 'QRE' and t not in ('E',)]
            for _ in range(rng.randint(1, 4) if Q else 0):
                at = [i for i, x in enumerate(lines) if '::=' in x and any(w in Q for w in x.split())]
                i = rng.choice(at)
                w = lines[i].split()
                j = rng.choice([j for j, x in enumerate(w) if x in Q])
                w[j] = rng.choice(Q)
                lines[i] = ' '.join(w)
            lv = ['L0', 'L1', 'L2'] + rng.sample([t for t in T if t in ('X', 'Y', 'Z', 'P', 'W', 'E') or t[0] in 'QTR'], 2)
            rng.shuffle(lv)
            for i, x in enumerate(lines):
                if x[0] in 'ra' and x[1].isdigit():
                    lines[i] = f'{x} [{rng.choice(lv)}]'
            k = rng.randint(1, 3)
            lines = [f'%{rng.choice(["left", "right", "nonassoc"])} {" ".join(c)}' for c in (lv[:k], lv[k:]) if c] + lines
        if len(set(lines)) < len(lines):
            continue
        try:
            g = Gram(name, '\n'.join(lines))
            if g.start_sym != 'input' or cycle(g):
                continue
            l = LALR(g)
            if not wellformed(g, l) or prec and not l.resolved:
                continue
            if g.fallback or g.wildcard:
                l.apply_fallback()
        except (Conflict, KeyError, AssertionError, IndexError):
            continue
        return g
    raise RuntimeError('no context grammar')


def cycle(g):
    par = {t: f for f, l in g.fallback for t in l}
    for t in par:
        seen = set()
        while t in par:
            if t in seen:
                return True
            seen.add(t)
            t = par[t]
    return False


def ctx_cover(run, n, tag, M=None, most=60, **kw):
    """harnesses for n grammars; kw as for ctx, or functions of the index"""
    hs = []
    err = kw.pop('errmode', None)
    exp = kw.pop('exp', True)
    for i in range(n):
        a = {k: v(i) if callable(v) else v for k, v in kw.items()}
        g = ctx(run.rng, f'{tag}{i}', **a)
        if a.get('sugar'):
            combo_types(run.rng, g)
        elif g.fallback or g.wildcard:
            fb_types(run.rng, g, i)
        elif i % 3 == 1:
            mixed(run.rng, g)
        if run.only and run.only not in g.name:
            continue
        l = LALR(g)
        if g.fallback or g.wildcard:
            l.apply_fallback()
        em = g.uses_error if err is None else err
        m = M or (1 + (l.nstates * len(g.terms) ** 2 < 9000) if em else cover_m(l, 9000))
        hs.append(statecover(g, g.name, M=m, lalr=l, err=em, exp=exp and em, maxseq=36))
    return hs


def big_cover(run, n, tag, M=1, err=0, shuffle=False, states=(50, 220)):
    """harnesses for n statement-language like grammars with wide nullable nonterminals: every state, any M tokens"""
    hs = []
    for i in range(n):
        rng = run.rng
        g, l = big(rng, f'{tag}{i}', states=states, nnt=rng.randint(6, 14), nt=rng.randint(8, 24), null=rng.choice([0.15, 0.35, 0.6]), err=err)
        if i % 3 == 1:
            mixed(rng, g)
            l = LALR(g)
        if shuffle:
            g.start = g.start_sym
            g.shuffle = rng
        if not run.only or run.only in g.name:
            hs.append(statecover(g, g.name, M=M, lalr=l, err=bool(err), exp=False, maxseq=36))
    return hs
