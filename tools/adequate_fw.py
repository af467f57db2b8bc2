"""The same as tools/adequate.py for %fallback and %wildcard: writes vlib/adequate_fw.json.
python3 tools/adequate_fw.py [SECONDS]"""
import json, os, random, sys, time
from collections import Counter
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.lalr import LALR, Conflict, ERR
from vlib.corpus import wellformed, random_gram
from vlib.grammar import Gram
from vlib.hgen import access
from props.fw import random_fw, random_fw_prec
HERE = os.path.dirname(os.path.abspath(__file__))
src = open(os.path.join(HERE, 'adequate.py')).read()
A = {'__file__': os.path.join(HERE, 'adequate.py'), '__name__': 'adq'}
exec(compile(src[:src.rindex('main(float')], 'adequate.py', 'exec'), A)

FAULTS = ('fold_fb fold_fb1 fold_wc fb_once fb_first fb_root wc_first wc_eoi wc_reduceonly wc_shiftonly fb_shiftonly fb_reduceonly wc_late fb_late '
          'na_fb na_wc wc_nofb fb_wconly wc_nodef fb_last fb_none wc_none wc_own fold_err def_first def_any fb_self2').split()


def table(l, g, f):
    """the action finally taken in every cell, with default reductions"""
    fb = {}
    for x, ts in g.fallback:
        for t in ts:
            if f == 'fb_last' and t != ts[-1]:
                continue
            fb[l.tnum[t]] = l.tnum[x]
    if f == 'fb_none':
        fb = {}
    wc = l.tnum.get(g.wildcard) if g.wildcard and f != 'wc_none' else None
    raw = getattr(l, 'raw_act', l.act)
    T = len(l.terms) + 1
    out = []
    for s in range(l.nstates):
        row = {t: raw[s][t] for t in range(T) if raw[s][t] != ERR}
        na = {t for t in range(T) if (s, t) in l.nonassoc_cells}
        c = Counter(a for t, a in row.items() if a < 0 and l.prods[-a - 1].lhs != l.start)
        d = ERR
        if c and (not na or f == 'def_any'):
            d = max(sorted(c), key=lambda a: c[a]) if f != 'def_first' else next(a for t, a in sorted(row.items()) if a in c)
            if wc and row.get(wc, d) != d and f != 'fold_wc':
                d = ERR
        if d != ERR:
            # fold, keeping the entries that another token's entry would hide
            for t in [t for t, a in row.items() if a == d]:
                keep = False
                x, n, seen = t, 0, {t}
                while x in fb and f != 'fold_fb':
                    x = fb[x]
                    n += 1
                    if x in seen:
                        break
                    seen.add(x)
                    if x in row and row[x] != d:
                        keep = True
                        break
                    if f == 'fold_fb1':
                        break
                if not keep:
                    del row[t]

        def own(t):
            return row.get(t)

        def look(t):
            if t in na and not (f == 'na_fb' and t in fb or f == 'na_wc' and wc):
                return ERR
            order = []
            chain, x, seen = [], t, {t}
            while x in fb:
                x = fb[x]
                if x in seen:
                    break
                seen.add(x)
                chain.append(x)
            if f == 'fb_once':
                chain = chain[:1]
            if f == 'fb_root':
                chain = chain[-1:]
            if f == 'fb_self2' and len(chain) > 1:
                chain = chain[1:]
            ok = lambda a: a is not None and not (f == 'fb_shiftonly' and a < 0) and not (f == 'fb_reduceonly' and a > 0)
            fbs = []
            for x in chain:
                if x in na and f != 'na_fb':
                    fbs.append(ERR)
                    break
                if ok(own(x)):
                    fbs.append(own(x))
            w = []
            if wc and (t or f == 'wc_eoi') and own(wc) is not None:
                a = own(wc)
                if not (f == 'wc_reduceonly' and a > 0 or f == 'wc_shiftonly' and a < 0 or f == 'wc_nofb' and t in fb or f == 'fb_wconly' and t not in fb
                        or f == 'wc_nodef' and d != ERR):
                    w = [a]
            o = [own(t)] if own(t) is not None else []
            dd = [d] if d != ERR else []
            if f == 'fb_first':
                order = fbs + o + w + dd
            elif f == 'wc_first':
                order = o + w + fbs + dd
            elif f == 'wc_own':
                order = w + o + fbs + dd
            elif f == 'wc_late':
                order = o + fbs + dd + w
            elif f == 'fb_late':
                order = o + w + dd + fbs if not w else o + w
                order = o + (dd or fbs) + w
            else:
                order = o + fbs + w + dd
            return order[0] if order else ERR
        out.append([look(t) for t in range(T)])
    return out


def vis(l, a1):
    T = len(l.terms)
    run = A['run']
    for s, pre in access(l).items():
        for x in range(T + 1):
            for y in range(T + 1):
                seq = pre + [t for t in (x, y) if t]
                if run(l, l.act, seq) != run(l, a1, seq):
                    return True
                if not x:
                    break
    return False


def pool(rng, i):
    k = i % 4
    if k == 0:
        return random_fw(rng, f'f{i}')
    if k == 1:
        return random_fw_prec(rng, f'f{i}')
    # marks: decisions between reductions, then sprinkle
    t = A['mark'](rng, A['struct_gram'](rng, '') if k == 2 else random_gram(rng, 'x', null=0.2, nnt=(2, 4)).text.strip())
    g = Gram('x', t)
    T = g.terms[:]
    lines = t.split('\n')
    if rng.random() < 0.6 and len(T) > 2:
        w = rng.choice(T)
        lines = [' '.join('Any' if x == w else x for x in ln.split()) for ln in lines] + ['%wildcard Any']
        T.remove(w)
    if rng.random() < 0.8 and len(T) > 1:
        rng.shuffle(T)
        n = rng.randint(1, min(3, len(T) - 1))
        ch = T[:n + 1] + (['Kx'] if rng.random() < 0.3 else [])
        if rng.random() < 0.6:
            lines += [f'%fallback {a} {b}' for a, b in zip(ch, ch[1:])]
        else:
            lines.append(f'%fallback {ch[0]} ' + ' '.join(ch[1:]))
    return Gram(f'f{i}', '\n'.join(lines))


def work(arg):
    seed, secs = arg
    rng = random.Random(seed * 13 + 5)
    got = {f: [] for f in FAULTS}
    t0, i, seen = time.time(), 0, set()
    while time.time() - t0 < secs:
        i += 1
        try:
            g = pool(rng, i)
            l = LALR(g)
        except (KeyError, RuntimeError, Conflict, ValueError):
            continue
        if l.nstates > 50 or g.text in seen or not (g.fallback or g.wildcard) or g.start_sym in (x for p in l.prods for x in p.rhs):
            continue
        seen.add(g.text)
        if not wellformed(g, l):
            continue
        l.apply_fallback()
        if vis(l, table(l, g, '')):
            print('model bug', repr(g.text))
            continue
        for f in FAULTS:
            if len(got[f]) < 5 and vis(l, table(l, g, f)):
                got[f].append(g.text)
    return i, got


def main(secs):
    import multiprocessing
    with multiprocessing.Pool(8) as p:
        rs = p.map(work, [(k, secs) for k in range(8)])
    out = []
    for f in FAULTS:
        c = list(dict.fromkeys(x for r in rs for x in r[1][f]))
        have = [x for x in c if x in out]
        for x in sorted((x for x in c if x not in have), key=len)[:max(0, 5 - len(have))]:
            out.append(x)
        print(f'{f:15} {len(c)}')
    print(sum(r[0] for r in rs), len(out))
    json.dump(dict(behave=out), open(os.path.join(HERE, '../vlib/adequate_fw.json'), 'w'), indent=0)


if __name__ == '__main__':
    main(float(sys.argv[1]) if len(sys.argv) > 1 else 300)
