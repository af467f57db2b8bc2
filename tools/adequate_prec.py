"""The same as tools/adequate.py for the resolution of conflicts: writes vlib/adequate_prec.json.
python3 tools/adequate_prec.py [SECONDS]"""
import json, os, random, sys, time
from collections import defaultdict
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.lalr import LALR, Conflict, ERR, RACC
from vlib.corpus import wellformed
from vlib.grammar import Gram
from props.prec import random_ops, random_prec, random_multi
import importlib.util
sp = importlib.util.spec_from_file_location('adq', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'adequate.py'))


class PMut(LALR):
    def __init__(self, g, f):
        self.f = f
        LALR.__init__(self, g, allow_conflicts=True)

    def _prec(self):
        f = self.f
        lvl = {}
        for i, (a, l) in enumerate(self.g.prec):
            for k, t in enumerate(l):
                if f == 'p_firstonly' and k:
                    continue
                if f == 'p_lastassoc' and a == 'nonassoc':
                    lvl[t] = (i, 'left')
                    continue
                if f == 'p_lastlevel' and i == len(self.g.prec) - 1 and i:
                    lvl[t] = (i - 1, a)
                    continue
                if f == 'p_assocnext' and k:
                    lvl[t] = (i, 'left')
                    continue
                if f == 'p_samelevel' and i and self.g.prec[i - 1][0] == a:
                    lvl[t] = (lvl[self.g.prec[i - 1][1][0]][0], a)
                    continue
                lvl[t] = (i, a)
        rp = []
        for p in self.prods:
            own = [lvl[x] for x in p.rhs if self.isterm(x) and x in lvl]
            left = own[0] if own else None
            ts = [x for x in p.rhs if self.isterm(x)]
            if p.prec and f != 'ov_ignore':
                o = lvl.get(p.prec)
                if f == 'ov_none':
                    o = o or left
                if f == 'ov_max' and o and left:
                    o = max(o, left)
                if f == 'ov_min' and o and left:
                    o = min(o, left)
                if f == 'ov_onlyempty' and left:
                    o = left
                if f == 'ov_assoc' and o and left:
                    o = (o[0], left[1])
                rp.append(o)
            elif f == 'r_right':
                rp.append(own[-1] if own else None)
            elif f == 'r_first':
                rp.append(lvl.get(ts[0]) if ts else None)
            elif f == 'r_last':
                rp.append(lvl.get(ts[-1]) if ts else None)
            elif f == 'r_max':
                rp.append(max(own) if own else None)
            elif f == 'r_min':
                rp.append(min(own) if own else None)
            elif f == 'r_head':
                rp.append(lvl.get(p.rhs[0]) if p.rhs and self.isterm(p.rhs[0]) else None)
            elif f == 'r_second':
                rp.append(own[1] if len(own) > 1 else left)
            else:
                rp.append(left)
        return lvl, rp

    def _actions(self):
        f = self.f
        lvl, rp = self._prec()
        self.lvl, self.rprec = lvl, rp
        T = len(self.terms) + 1
        self.act = [[ERR] * T for _ in range(self.nstates)]
        self.goto = [[0] * len(self.nts) for _ in range(self.nstates)]
        self.nonassoc_cells = set()
        self.resolved = self.manyway = 0

        def pair(x, y, tp, tok, s):
            """two actions: winner, 'na' or 'conflict'"""
            if x[0] == 'r' and y[0] == 'r':
                px, py = rp[x[1]], rp[y[1]]
                if f == 'rr_first':
                    return min(x, y)
                if f == 'rr_eoi' and tok == 0:
                    return min(x, y)
                if px is None or py is None:
                    return min(x, y) if f == 'rr_noprec' else 'conflict' if f != 'rr_one' or px is py else (x if px else y)
                if px[0] == py[0]:
                    if f == 'rr_same':
                        return min(x, y)
                    if f == 'rr_right' and px[1] == 'right':
                        return max(x, y)
                    if f == 'rr_left' and px[1] == 'left':
                        return min(x, y)
                    if f == 'rr_na' and px[1] == 'nonassoc':
                        return 'na'
                    return 'conflict'
                if f == 'rr_low':
                    return x if px[0] < py[0] else y
                return x if px[0] > py[0] else y
            sh, rd = (x, y) if x[0] == 's' else (y, x)
            p = rp[rd[1]]
            if tp is None or p is None:
                if f == 'sr_noprec':
                    return sh
                if f == 'sr_norule' and tp is not None:
                    return sh
                if f == 'sr_notok' and p is not None:
                    return rd
                if f == 'sr_onlynone' and tp is None and p is None:
                    return sh
                return 'conflict'
            if tp[0] != p[0]:
                return sh if tp[0] > p[0] else rd
            a = tp[1]
            if a == 'right':
                return rd if f == 'a_right' else sh
            if a == 'left':
                return rd
            return {'na_shift': sh, 'na_reduce': rd, 'na_conflict': 'conflict'}.get(f, 'na')
        for s in range(self.nstates):
            cell = defaultdict(list)
            for x, t in self.trans[s].items():
                if self.isterm(x):
                    cell[self.tnum[x]].append(('s', t))
                else:
                    self.goto[s][self.nnum[x]] = t + 1
            items = self.closure(self.kernels[s])
            for (p, d), la in sorted(items.items()):
                if d == len(self.prods[p].rhs):
                    for l in la:
                        cell[l].append(('r', p))
            for tok, acts in cell.items():
                tp = lvl.get(self.terms[tok - 1]) if tok else None
                if f in ('seq', 'seq_rev', 'seq_na', 'seq_shlast'):
                    o = acts[::-1] if f == 'seq_rev' else sorted(acts, key=lambda a: a[0] == 's') if f == 'seq_shlast' else acts
                    best = o[0]
                    for a in o[1:]:
                        if best == 'na':
                            if f == 'seq_na':
                                best = a
                            continue
                        r = pair(best, a, tp, tok, s)
                        if r == 'conflict':
                            self.conflicts.append((s, tok) + tuple(acts))
                            r = best
                        best = r
                else:
                    # pairwise, as the documented rules say: the winner beats all others
                    best = None
                    if len(acts) == 1:
                        best = acts[0]
                    else:
                        w = [a for a in acts if all(b is a or pair(a, b, tp, tok, s) == a for b in acts)]
                        if w:
                            best = w[0]
                        else:
                            # error cell: shift and the best rules of one level
                            sh = [a for a in acts if a[0] == 's']
                            rd = [a for a in acts if a[0] == 'r']
                            bad = any(pair(a, b, tp, tok, s) == 'conflict' for i, a in enumerate(acts) for b in acts[:i]) or not sh
                            if bad and not (f == 'na_conf3'):
                                # a conflict below the top does not matter if precedences exist everywhere
                                if any(rp[r[1]] is None for r in rd) or sh and tp is None:
                                    self.conflicts.append((s, tok) + tuple(acts))
                                else:
                                    top = max(rp[r[1]][0] for r in rd)
                                    win = [r for r in rd if rp[r[1]][0] == top]
                                    if len(win) > 1 and not (sh and tp[0] > top):
                                        self.conflicts.append((s, tok) + tuple(win))
                                        best = win[0]
                                    elif sh and pair(sh[0], win[0], tp, tok, s) == 'na':
                                        best = 'na'
                                    else:
                                        best = pair(sh[0], win[0], tp, tok, s) if sh else win[0]
                                        if best == 'conflict':
                                            self.conflicts.append((s, tok) + tuple(acts))
                                            best = sh[0]
                            else:
                                best = 'na'
                if best in ('na', None):
                    self.act[s][tok] = ERR
                    if f != 'na_default':
                        self.nonassoc_cells.add((s, tok))
                elif best[0] == 's':
                    self.act[s][tok] = best[1] + 1
                else:
                    self.act[s][tok] = -(best[1] + 1)
        if self.start in self.nnum:
            self.goto[0][self.nnum[self.start]] = RACC


FAULTS = ('p_firstonly p_lastassoc p_lastlevel p_assocnext p_samelevel ov_ignore ov_none ov_max ov_min ov_onlyempty ov_assoc r_right r_first r_last '
          'r_max r_min r_head r_second rr_first rr_eoi rr_noprec rr_one rr_same rr_right rr_left rr_na rr_low sr_noprec sr_norule sr_notok sr_onlynone '
          'a_right na_shift na_reduce na_conflict na_conf3 na_default seq seq_rev seq_na seq_shlast').split()


def loadadq():
    src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'adequate.py')).read()
    src = src[:src.rindex('main(float')]
    ns = {'__file__': os.path.join(os.path.dirname(os.path.abspath(__file__)), 'adequate.py'), '__name__': 'adq'}
    exec(compile(src, 'adequate.py', 'exec'), ns)
    return ns


A = loadadq()


def unprec_some(rng, text):
    ls = text.split('\n')
    for i, x in enumerate(ls):
        w = x.split()
        if w and w[0] in ('%left', '%right', '%nonassoc') and len(w) > 1 and rng.random() < 0.3:
            w.pop(rng.randrange(1, len(w)))
            ls[i] = ' '.join(w) if len(w) > 1 else ''
        elif w and w[-1].endswith(']') and rng.random() < 0.2:
            ls[i] = ' '.join(w[:-1] + ['[Ghost]'])
    ls = [x for x in ls if x]
    if any('[Ghost]' in x for x in ls) and rng.random() < 0.5:
        ls.insert(rng.randint(0, 1), '%left Ghost')
    return '\n'.join(ls)


def work(arg):
    seed, secs = arg
    rng = random.Random(seed * 7 + 1)
    got, rej, lost = ({f: [] for f in FAULTS} for _ in range(3))
    t0 = time.time()
    i = 0
    seen = set()
    while time.time() - t0 < secs:
        i += 1
        try:
            g = (random_ops, random_prec, random_multi)[i % 3](rng, f'p{i}', raw=True)
            if rng.random() < 0.5:
                g = Gram(g.name, unprec_some(rng, g.text))
            l = LALR(g, allow_conflicts=True)
            ref = PMut(g, '')
        except (KeyError, RuntimeError, IndexError, AssertionError):
            continue
        if len(g.terms) < 2 or l.nstates > 50 or g.text in seen or not g.prec:
            continue
        seen.add(g.text)
        if not l.conflicts and (not l.resolved or not wellformed(g, l)):
            continue
        if bool(l.conflicts) != bool(ref.conflicts) or not l.conflicts and l.act != ref.act:
            print('model bug', g.text, l.conflicts, ref.conflicts)
            continue
        for f in FAULTS:
            if l.conflicts and len(lost[f]) >= 3 or not l.conflicts and len(got[f]) >= 5 and len(rej[f]) >= 3:
                continue
            m = PMut(g, f)
            if l.conflicts:
                if not m.conflicts and wellformed(g, m):
                    lost[f].append(g.text)
            elif m.conflicts:
                if len(rej[f]) < 3:
                    rej[f].append(g.text)
            elif len(got[f]) < 5 and A['visible'](l, m):
                got[f].append(g.text)
    return i, got, rej, lost


def main(secs):
    import multiprocessing
    with multiprocessing.Pool(8) as p:
        rs = p.map(work, [(k, secs) for k in range(8)])
    out = dict(behave=[], accept=[], reject=[])
    for f in FAULTS:
        n = []
        for w, (kind, most) in zip((1, 2, 3), (('behave', 5), ('accept', 3), ('reject', 3))):
            c = list(dict.fromkeys(x for r in rs for x in r[w][f]))
            n.append(len(c))
            have = [x for x in c if x in out[kind]]
            for x in sorted((x for x in c if x not in have), key=len)[:max(0, most - len(have))]:
                out[kind].append(x)
        print(f'{f:15} behaviour {n[0]} false conflict {n[1]} lost conflict {n[2]}')
    out['accept'] = [x for x in out['accept'] if x not in out['behave']]
    print(sum(r[0] for r in rs), {k: len(v) for k, v in out.items()})
    json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '../vlib/adequate_prec.json'), 'w'), indent=0)


if __name__ == '__main__':
    main(float(sys.argv[1]) if len(sys.argv) > 1 else 300)
