"""Chooses grammars that tell faulty LALR constructions from the right one, and writes vlib/adequate.json.
Run by hand (the checks only read the result): python3 tools/adequate.py [SECONDS]
A "fault" is a variant of the reference construction below; a grammar is kept for a fault if the faulty tables,
used the way a generated parser uses them (with a default reduction per state), differ visibly on a short input.
Nothing here is taken from /repo: the faults are ways in which any LALR generator can be wrong."""
import json, os, random, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from collections import defaultdict, Counter
from vlib.grammar import Gram
from vlib.lalr import LALR, Conflict, ERR, RACC
from vlib.corpus import random_gram, wellformed
from vlib.hgen import access


class Mut(LALR):
    def __init__(self, g, fault):
        self.f = fault
        LALR.__init__(self, g, allow_conflicts=True)

    def _first(self):
        f = self.f
        nullable = set()
        n = 0
        ch = True
        while ch:
            ch = False
            n += 1
            for p in self.prods:
                ok = all(x in nullable for x in p.rhs)
                if f == 'null_direct' and p.rhs:
                    ok = False
                if f == 'null_short' and len(p.rhs) > 1:
                    ok = False
                if f == 'null_last' and p.rhs and not self.isterm(p.rhs[-1]):
                    ok = all(x in nullable for x in p.rhs[:-1]) and len(p.rhs) > 1 or ok
                if p.lhs not in nullable and ok:
                    nullable.add(p.lhs)
                    ch = True
            if f == 'null_1pass' or f == 'null_2pass' and n == 2:
                break
        first = {n: set() for n in self.nts}
        for t in self.terms:
            first[t] = {self.tnum[t]}
        n = 0
        ch = True
        while ch:
            ch = False
            n += 1
            for i, p in enumerate(self.prods):
                for k, x in enumerate(p.rhs):
                    if f == 'first_nolast' and k and k == len(p.rhs) - 1:
                        break
                    if f == 'first_noterm' and k and self.isterm(x):
                        break
                    if f == 'first_nont' and k and not self.isterm(x):
                        break
                    if f == 'first_k2' and k >= 2:
                        break
                    if x == p.lhs and f == 'first_selfskip':
                        break
                    if x == p.lhs and f == 'first_selfcont':
                        continue
                    if not first[x] <= first[p.lhs]:
                        first[p.lhs] |= first[x]
                        ch = True
                    if x not in nullable or f == 'first_only':
                        break
            if f == 'first_1pass' or f == 'first_2pass' and n == 2 or f == 'first_3pass' and n == 3:
                break
        self.nullable, self.first = nullable, first

    def first_seq(self, seq, la):
        f = self.f
        out = set()
        for k, x in enumerate(seq):
            if f == 'seq_noself' and x in self.nullable and self.isterm(seq[-1]):
                pass
            else:
                out |= self.first[x]
            if x not in self.nullable:
                return out
            if f == 'seq_next':
                return out | la
            if f == 'seq_2' and k == 1:
                return out | la
            if f == 'seq_stop':
                return out
        if f == 'seq_nola' and seq or f == 'seq_nola2' and len(seq) > 1 or f == 'seq_nolaempty' and not seq:
            return out
        return out | la

    def closure(self, kernel):
        f = self.f
        items = {k: set(v) for k, v in kernel.items()}
        work = list(items)
        if f == 'clo_fifo':
            pass
        while work:
            it = work.pop(0) if f in ('clo_grow0', 'clo_grow0k') else work.pop()
            p, d = it
            rhs = self.prods[p].rhs
            if d < len(rhs) and not self.isterm(rhs[d]):
                la = self.first_seq(rhs[d + 1:], items[it])
                if f == 'clo_self' and rhs[d] == self.prods[p].lhs and d == 0 and len(rhs) > 1:
                    la = la if not (p, 0) in kernel else set(items[it])
                for q in self.by_lhs[rhs[d]]:
                    k = (q, 0)
                    old = items.get(k)
                    if old is None:
                        items[k] = set(la)
                        work.append(k)
                    elif not la <= old:
                        if f == 'clo_first':
                            continue
                        if f == 'clo_kern' and it not in kernel:
                            continue
                        old |= la
                        if f in ('clo_grow', 'clo_grow0'):
                            continue
                        if f == 'clo_growrec' and rhs[d] == self.prods[q].lhs and self.prods[q].rhs[:1] == [self.prods[q].lhs]:
                            continue
                        work.append(k)
        return items

    def _build(self):
        f = self.f
        st = self.by_lhs[self.start]
        k0 = {(p, 0): ({0} if not (f == 'eoi_2nd' and p != st[0]) else set()) for p in st}
        self.kernels = [k0]

        def ident(k):
            if f == 'id_prods':
                return frozenset(p for p, d in k)
            if f == 'id_min1':
                return min(k)
            if f == 'id_max1':
                return max(k)
            if f == 'id_2':
                return tuple(sorted(k)[:2])
            if f == 'id_len':
                return (len(k), min(k))
            if f == 'id_rest':
                return frozenset((self.prods[p].lhs, tuple(self.prods[p].rhs[d:])) for p, d in k)
            return frozenset(k)
        index = {ident(k0): 0}
        self.trans = [dict()]
        self.access = {}
        work = [0]
        queued = {0}
        cnt = Counter()
        while work:
            s = work.pop(0)
            queued.discard(s)
            items = self.closure(self.kernels[s])
            nxt = defaultdict(dict)
            for (p, d), la in items.items():
                rhs = self.prods[p].rhs
                if d < len(rhs):
                    nxt[rhs[d]].setdefault((p, d + 1), set()).update(la)
            for x, k in nxt.items():
                key = ident(k)
                if key not in index:
                    index[key] = len(self.kernels)
                    self.kernels.append({i: set(l) for i, l in k.items()})
                    self.trans.append({})
                    t = index[key]
                    work.append(t)
                    queued.add(t)
                else:
                    t = index[key]
                    grown = False
                    for i, l in k.items():
                        old = self.kernels[t].get(i)
                        if old is None:
                            continue
                        if not l <= old:
                            if f == 'mrg_none' or f == 'mrg_self' and t == s or f == 'mrg_eoi' and l - old == {0} or f == 'mrg_kern1' and len(k) > 1:
                                continue
                            old |= l
                            grown = True
                    if f == 'mrg_noqueue' or f == 'mrg_once' and cnt[t] >= 1 or f == 'mrg_back' and t < s:
                        grown = False
                    if grown:
                        cnt[t] += 1
                    if grown and t not in queued:
                        work.append(t)
                        queued.add(t)
                self.trans[s][x] = t
                self.access[t] = x
        self.nstates = len(self.kernels)
        if f in ('slr', 'slr_la'):
            follow = defaultdict(set)
            follow[self.start].add(0)
            ch = True
            while ch:
                ch = False
                for p in self.prods:
                    for i, x in enumerate(p.rhs):
                        if not self.isterm(x):
                            n = self.first_seq(p.rhs[i + 1:], follow[p.lhs])
                            if not n <= follow[x]:
                                follow[x] |= n
                                ch = True
            for k in self.kernels:
                for (p, d) in k:
                    k[(p, d)] = set(follow[self.prods[p].lhs])
            if f == 'slr':
                self.closure0 = self.closure

                def clo(kern):
                    it = self.closure0(kern)
                    return {k: (set(follow[self.prods[k[0]].lhs])) for k in it}
                self.closure = clo


FAULTS = ('null_direct null_short null_last null_1pass null_2pass first_nolast first_noterm first_nont first_k2 first_selfskip first_selfcont '
          'first_only first_1pass first_2pass first_3pass seq_noself seq_next seq_2 seq_stop seq_nola seq_nola2 seq_nolaempty clo_self clo_first '
          'clo_kern clo_grow clo_grow0 clo_growrec eoi_2nd id_prods id_min1 id_max1 id_2 id_len id_rest mrg_none mrg_self mrg_eoi mrg_kern1 '
          'mrg_noqueue mrg_once mrg_back slr slr_la').split()


def withdef(l):
    """the tables with a default reduction where a state has one"""
    out = []
    for s, row in enumerate(l.act):
        c = Counter(a for a in row if a < 0 and l.prods[-a - 1].lhs != l.start)
        row = row[:]
        if c and not any((s, t) in l.nonassoc_cells for t in range(len(row))):
            d = max(sorted(c), key=lambda a: c[a])
            row = [a if a != ERR else d for a in row]
        out.append(row)
    return out


def run(l, act, toks):
    """(verdicts, reductions) of a whole input"""
    st, log = [0], []
    for n, t in enumerate(list(toks) + [0]):
        for _ in range(300):
            a = act[st[-1]][t]
            if a == ERR:
                return ('err', n), None
            if a > 0:
                st.append(a - 1)
                break
            p = l.prods[-a - 1]
            log.append(-a - 1)
            if p.rhs:
                if len(st) <= len(p.rhs):
                    return ('bad', n), None
                del st[-len(p.rhs):]
            g = l.goto[st[-1]][l.nnum[p.lhs]]
            if g == RACC:
                return ('ok' if t == 0 else 'bad', n), tuple(log)
            if g == 0:
                return ('bad', n), None
            st.append(g - 1)
        else:
            return ('loop', n), None
    return ('bad', -1), None


def visible(l, m):
    """does the faulty machine m behave differently from l on a state cover with two more tokens"""
    a0, a1 = l.act, withdef(m)
    T = len(l.terms)
    acc = access(l)
    for s in acc:
        for x in range(0, T + 1):
            for y in range(0, T + 1):
                seq = acc[s] + [t for t in (x, y) if t]
                if run(l, a0, seq) != run(m, a1, seq):
                    return True
                if not x:
                    break
    return False


def struct_gram(rng, name):
    """a random grammar made of the usual building blocks: lists, options, sequences, alternatives"""
    n = rng.randint(3, 7)
    NT = [f'n{i}' for i in range(n)]
    TT = [f'T{i}' for i in range(rng.randint(2, 6))]
    lines = []
    for i, x in enumerate(NT):
        sy = NT[i + 1:] + TT
        pick = lambda: rng.choice(sy + (NT[i + 1:] * 2))
        k = rng.randint(0, 8)
        t = rng.choice(TT)
        if k == 0:
            lines += [f'{x} ::=', f'{x} ::= {x} {pick()}']
        elif k == 1:
            lines += [f'{x} ::=', f'{x} ::= {pick()} {x}']
        elif k == 2:
            e = pick()
            lines += [f'{x} ::= {e}', f'{x} ::= {x} {t} {e}']
        elif k == 3:
            e = pick()
            lines += [f'{x} ::= {e}', f'{x} ::= {e} {t} {x}']
        elif k == 4:
            lines += [f'{x} ::=', f'{x} ::= {pick()}']
        elif k == 5:
            lines += [f'{x} ::= {pick()}', f'{x} ::= {pick()} {pick()}']
        elif k == 6:
            lines += [f'{x} ::= {" ".join(pick() for _ in range(rng.randint(2, 4)))}']
        elif k == 7:
            lines += [f'{x} ::= {t} {rng.choice(NT)} {rng.choice(TT)}', f'{x} ::= {pick()}']
        else:
            lines += [f'{x} ::= {" ".join(pick() for _ in range(rng.randint(1, 3)))}' for _ in range(rng.randint(2, 3))]
    lines = list(dict.fromkeys(lines))
    return f'start ::= n0' + (f' {rng.choice(TT)}' if rng.random() < 0.3 else '') + '\n' + '\n'.join(lines)


def mark(rng, text):
    """pairs of nonterminals with the same sentences, inserted before different things: which one is reduced
    is decided by the lookahead alone"""
    lines = text.split('\n')
    for k in range(rng.randint(1, 3)):
        w = rng.choice(['', '', 'T0', 'T1'])
        ms = [f'm{k}{j}' for j in range(rng.choice([2, 2, 3]))]
        pos = [(a, b) for a, x in enumerate(lines) for b in range(2, len(x.split()) + 1)]
        if len(pos) < len(ms):
            return text
        x = rng.choice(['', rng.choice(['T0', 'T1', 'T2'])])
        for m, (a, b) in zip(ms, rng.sample(pos, len(ms))):
            y = lines[a].split()
            y[b:b] = [m]
            lines[a] = ' '.join(y)
        lines += [f'{m} ::= {w}'.strip() for m in ms]
        if rng.random() < 0.6:
            # alternatives that make one of them the more frequent one
            m = rng.choice(ms)
            src = [x for x in lines if m in x.split()[2:]]
            y = rng.choice(src).split()
            i = y.index(m, 2)
            for t in rng.sample(['T0', 'T1', 'T2', 'T3', 'T4', 'T5'], rng.randint(1, 3)):
                lines.append(' '.join(y[:i + 1] + [t]))
    return '\n'.join(dict.fromkeys(lines))


def pool(rng, i):
    if i % 4 == 1:
        return Gram(f'a{i}', mark(rng, struct_gram(rng, '')))
    if i % 4 == 2:
        return Gram(f'a{i}', mark(rng, random_gram(rng, 'x', null=rng.choice([0.1, 0.35]), nnt=(2, 4), tries=400).text.strip()))
    if i % 3 == 0:
        return random_gram(rng, f'a{i}', null=rng.choice([0.1, 0.35, 0.6]), nnt=rng.choice([(2, 4), (3, 5)]), maxrhs=rng.choice([3, 4, 5]), tries=400)
    return Gram(f'a{i}', struct_gram(rng, ''))


WANT = 5


def work(arg):
    seed, secs = arg
    rng = random.Random(seed)
    got = {f: [] for f in FAULTS}       # behaviour differs
    rej = {f: [] for f in FAULTS}       # a false conflict
    lost = {f: [] for f in FAULTS}      # a conflict is not seen
    t0 = time.time()
    i = 0
    seen = set()
    while time.time() - t0 < secs:
        i += 1
        try:
            g = pool(rng, i)
            l = LALR(g, allow_conflicts=True)
        except (KeyError, RuntimeError):
            continue
        if len(g.terms) < 2 or l.nstates < 6 or l.nstates > 60 or g.text in seen:
            continue
        seen.add(g.text)
        if not l.conflicts and not wellformed(g, l):
            continue
        for f in FAULTS:
            if l.conflicts and len(lost[f]) >= 3 or not l.conflicts and len(got[f]) >= WANT and len(rej[f]) >= 3:
                continue
            try:
                m = Mut(g, f)
            except KeyError:
                continue
            if l.conflicts:
                if not m.conflicts:
                    lost[f].append(g.text)
            elif m.conflicts:
                if len(rej[f]) < 3:
                    rej[f].append(g.text)
            elif len(got[f]) < WANT and visible(l, m):
                got[f].append(g.text)
    return i, got, rej, lost


def main(secs):
    import multiprocessing
    with multiprocessing.Pool(8) as p:
        rs = p.map(work, [(k, secs) for k in range(8)])
    key = lambda t: len(t)
    out = dict(behave=[], accept=[], reject=[])
    for f in FAULTS:
        n = []
        for w, (kind, most) in zip((1, 2, 3), (('behave', WANT), ('accept', 3), ('reject', 3))):
            c = list(dict.fromkeys(x for r in rs for x in r[w][f]))
            n.append(len(c))
            # the ones other faults asked for already, then short ones
            have = [x for x in c if x in out[kind]]
            for x in sorted((x for x in c if x not in have), key=key)[:max(0, most - len(have))]:
                out[kind].append(x)
        print(f'{f:15} behaviour {n[0]} false conflict {n[1]} lost conflict {n[2]}')
    out['accept'] = [x for x in out['accept'] if x not in out['behave']]
    print(sum(r[0] for r in rs), {k: len(v) for k, v in out.items()})
    json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '../vlib/adequate.json'), 'w'), indent=0)


main(float(sys.argv[1]) if len(sys.argv) > 1 else 300)
