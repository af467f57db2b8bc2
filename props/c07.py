"""C07: behaviour does not depend on grammar size or table layout"""
from vlib.corpus import CURATED, ERRORS, random_gram
from vlib.grammar import Gram
from vlib.hgen import statecover, lockstep
from vlib.lalr import LALR
from vlib.plan import measure
from props.common import need, mixed
from props.fw import FW, random_fw
from props.prec import CUR
from props.big import big
from props.kernels import acttab_kernels


def ghosts(text, n, where):
    """tokens that occur in a precedence list only: every symbol number moves"""
    line = '%left ' + ' '.join(f'G{i}' for i in range(n))
    return line + '\n' + text.strip() if where == 0 else text.strip() + '\n' + line


def sides(text, n, kind, start='input'):
    """more alternatives of the start symbol, each with a token of its own"""
    L = text.strip().split('\n')
    add = []
    for i in range(n):
        if kind == 'tok':
            add.append(f'{start} ::= P{i}')
        elif kind == 'nt':
            add += [f'{start} ::= q{i}', f'q{i} ::= P{i}']
        elif kind == 'chain':
            add.append(f'q{i} ::= P{i} q{i + 1}' if i + 1 < n else f'q{i} ::= P{i}')
    if kind == 'chain' and n:
        add.insert(0, f'{start} ::= q0')
    return '\n'.join(L + add)


def onerow(kind, n, extra, odd):
    """n states with one row each, on one early token or nonterminal: the largest offset grows in steps of one"""
    return '\n'.join(['%left A'] + [f'input ::= P{i} {"A" if kind == "t" else "a"}' for i in range(n)] + (['a ::= A'] if kind == 'n' else []) +
                     [f'input ::= Q{i}' for i in range(extra)] + [f'input ::= R{i} R A' for i in range(odd)])


def check(run):
    q = run.tier == 'quick'
    rng = run.rng
    hs = []
    on = lambda n: not run.only or run.only in n

    def cover(g, name, M=2, l=None, **kw):
        if not on(name):
            return
        l = l or LALR(g)
        if g.fallback or g.wildcard:
            l.apply_fallback()
        T = len(g.terms)
        real = [i for i, t in enumerate(g.terms) if t[0] not in 'GP']
        pads = [i for i, t in enumerate(g.terms) if t[0] in 'GP']
        samp = real + (rng.sample(pads, min(6, len(pads))) if pads else [])
        err = kw.pop('err', g.uses_error)
        hs.append(statecover(g, name, M=M, lalr=l, sample=samp if T > 60 else None, err=err, exp=err and T <= 60, maxseq=36, first=sorted(samp) if err and T > 60 else None, **kw))

    # large grammars: every state, every token
    for i in range(14 if q else 90):
        g, l = big(rng, f'big{i}', nnt=rng.randint(6, 30), nt=rng.randint(8, 60), null=rng.choice([0.05, 0.2]), err=i % 4 == 3 and 2)
        if len(g.terms) <= 50 and i % 2:
            mixed(rng, g)
            l = LALR(g)     # what the actions receive depends on the types
        cover(g, f'big{i}', 1 + (l.nstates < 250 and i % 2 == 0), l)
    # around the limits of the integer types: number of symbols
    base = [('expr', CURATED['expr']), ('json', CURATED['json']), ('nullchain', CURATED['nullchain']), ('lalr', CURATED['lalr_not_slr'])]
    fw = [(k, FW[k]) for k in FW] + [(k, ERRORS[k]) for k in ERRORS] + [(k, CUR[k]) for k in CUR]
    k = 0
    for total in ([126, 127, 128, 129, 254, 255, 256, 257] if q else list(range(120, 134)) + list(range(248, 262)) + [511, 512, 513]):
        for kind in ('ghost0', 'ghost1', 'tok', 'nt'):
            for nm, text in ([base[k % 4], fw[k % len(fw)]] if q else [base[k % 4], fw[k % len(fw)], fw[(k + 7) % len(fw)]]):
                g0 = Gram(nm, text)
                have = len(g0.terms) + len(g0.nts) + 3
                start = g0.start_sym
                per = 2 if kind == 'nt' else 1
                n = (total - have) // per
                if kind.startswith('ghost'):
                    t2 = ghosts(text, n, int(kind[-1]))
                else:
                    t2 = sides(text, n, kind, start)
                g = Gram(nm, t2)
                if k % 3 == 0 and not kind.startswith('nt'):
                    for s in g.terms:
                        g.types[s] = None
                else:
                    for s in g.terms + g.nts:
                        if s in g.types:
                            del g.types[s]
                    if g.wildcard:
                        g.types = {t: None for t in g.terms}
                    g0e = g.types.get('error')
                if any(f for f in g.fallback):
                    g.types = {t: None for t in g.terms}
                if len(set(g.type_of(t) for t in g.terms)) > 1:
                    g.types.update({t: None for t in g.terms})
                cover(g, f'sym{total}_{kind}_{nm}', 1)
            k += 1
    # number of states and rules
    for target in ([124, 127, 252, 254, 256] if q else list(range(118, 130)) + list(range(246, 260)) + [510, 512]):
        for kind in ('tok', 'chain'):
            nm, text = base[k % 4]
            k += 1
            g0 = Gram(nm, text)
            l0 = LALR(g0)
            n = max(1, (target - l0.nstates - len(l0.prods)) // (2 if kind == 'tok' else 3))
            g = Gram(nm, sides(text, n, kind, g0.start_sym))
            # a chain is deeper than the reference stack allows
            if kind == 'chain':
                g.types = {}
            cover(g, f'act{target}_{kind}_{nm}', 1)
    # offsets into the action array: smallest and largest pass -128 and 127 at different paddings
    for n in range(108, 142) if q else list(range(90, 150)) + list(range(240, 270)):
        for kind in ('ghost0', 'tok'):
            nm, text = base[k % 4]
            k += n % 5 == 0
            g = Gram(nm, ghosts(text, n, 0) if kind == 'ghost0' else sides(text, n, kind))
            for s in g.terms:
                g.types[s] = None
            cover(g, f'ofs{n}_{kind}_{nm}', 1)
    # the largest offset of a token row or of a nonterminal row is 126, 127, 128
    lim = [('t', 40, 2, 1), ('t', 41, 1, 1), ('t', 41, 2, 0), ('t', 42, 1, 0), ('t', 43, 0, 0), ('t', 44, 0, 1), ('t', 45, 1, 0), ('t', 46, 0, 0),
           ('n', 61, 1, 1), ('n', 62, 0, 1), ('n', 62, 2, 0), ('n', 63, 1, 0)]
    if not q:
        lim = [(a, n, e, o) for a in 'tn' for n in (range(36, 54) if a == 't' else range(56, 72)) for e in (0, 1, 2) for o in (0, 1)]
    for a in lim:
        g = Gram('onerow', onerow(*a))
        for s in g.terms:
            g.types[s] = None
        cover(g, 'lim' + ''.join(f'_{x}' for x in a), 1)
    # the same grammar with unrelated material added must act as before on its own tokens
    for i in range(16 if q else 80):
        g0 = random_gram(rng, f'r{i}', nt=(2, 5), null=(0.1, 0.3)[i % 2])
        n = rng.choice([1, 2, 3, 5, 9, 17, 40])
        kind = rng.choice(['ghost0', 'ghost1', 'tok', 'nt', 'chain'])
        text = ghosts(g0.text, n, int(kind[-1])) if kind.startswith('ghost') else sides(g0.text, min(n, 12) if kind == 'chain' else n, kind, g0.start_sym)
        g = Gram(g0.name, text)
        if not on(f'pad{i}'):
            continue
        l = LALR(g)
        m = measure(LALR(g0), 300 if q else 3000, 8)
        cover(g, f'pad{i}', 2, l)
        # only the tokens of the original grammar, deeper
        h = lockstep(g, m['N'], name=f'padl{i}', lalr=l, reach=[])
        own = [g.terms.index(t) for t in g0.terms]
        h.src = h.src.replace(f'let k = s_range({len(g.terms)});', f'let k = [{", ".join(map(str, own))}][s_range({len(own)}) as usize];')
        hs.append(h)
    if not q:
        # very large ones
        for i in range(6):
            g, l = big(rng, f'huge{i}', states=(500, 1500), nnt=60, nt=100 + 40 * i, rules=(3, 7))
            cover(g, f'huge{i}', 1, l)
    ks = [h for h in acttab_kernels(run, q) if on(h.name)]
    run.run(ks + hs)
    need(run, [1, 2, 3], 30)
    return run.finish(
        bounds=dict(harnesses=len(hs), kernels=[h.name for h in ks], offsets='every value from -136 to -116, 126 to 128 and others up to 700',
            symbols='up to 257 (thorough 513)', states='up to 400 (thorough 1500)', tokens='a fixed sequence into every state, then 1..2 arbitrary tokens and end of input'),
        outside='tables whose offsets or actions exceed 16 bits are covered by the kernel of the type choice only', explanation='every state of the reference machine is entered by a token sequence and every token is tried there; '
        'padding moves symbol, rule and state numbers over the limits of 8-bit types; the row packing and the type choice are also executed alone on symbolic rows and limits')
