"""Independent LALR(1) construction and conflict resolution as documented.

Used as the reference that the generated parsers are compared with.  Terminals
are numbered 1..T (0 is end of input).  `error` is a nonterminal without
productions, so it never appears as a lookahead.
"""
from collections import defaultdict

ERR, RACC = 0, 32000


class Conflict(Exception):
    pass


class LALR:
    def __init__(self, g, allow_conflicts=False):
        self.g = g
        self.prods = g.core()
        self.terms = list(g.terms)
        self.tnum = {t: i + 1 for i, t in enumerate(self.terms)}
        nts = []
        for p in self.prods:
            for s in [p.lhs] + p.rhs:
                if s not in self.tnum and s not in nts:
                    nts.append(s)
        self.nts = nts
        self.nnum = {n: i for i, n in enumerate(nts)}
        self.start = g.start_sym
        self.by_lhs = defaultdict(list)
        for i, p in enumerate(self.prods):
            self.by_lhs[p.lhs].append(i)
        self.conflicts = []
        self._first()
        self._build()
        self._actions()
        if self.conflicts and not allow_conflicts:
            raise Conflict(self.conflicts[:3])

    def isterm(self, s):
        return s in self.tnum

    def _first(self):
        nullable = set()
        ch = True
        while ch:
            ch = False
            for p in self.prods:
                if p.lhs not in nullable and all(x in nullable for x in p.rhs):
                    nullable.add(p.lhs)
                    ch = True
        first = {n: set() for n in self.nts}
        for t in self.terms:
            first[t] = {self.tnum[t]}
        ch = True
        while ch:
            ch = False
            for p in self.prods:
                for x in p.rhs:
                    if not first[x] <= first[p.lhs]:
                        first[p.lhs] |= first[x]
                        ch = True
                    if x not in nullable:
                        break
        self.nullable, self.first = nullable, first

    def first_seq(self, seq, la):
        out = set()
        for x in seq:
            out |= self.first[x]
            if x not in self.nullable:
                return out
        return out | la

    def closure(self, kernel):
        """kernel: {(prod, dot): lookaheads}"""
        items = {k: set(v) for k, v in kernel.items()}
        work = list(items)
        while work:
            it = work.pop()
            p, d = it
            rhs = self.prods[p].rhs
            if d < len(rhs) and not self.isterm(rhs[d]):
                la = self.first_seq(rhs[d + 1:], items[it])
                for q in self.by_lhs[rhs[d]]:
                    k = (q, 0)
                    old = items.get(k)
                    if old is None:
                        items[k] = set(la)
                        work.append(k)
                    elif not la <= old:
                        old |= la
                        work.append(k)
        return items

    def _build(self):
        k0 = {(p, 0): {0} for p in self.by_lhs[self.start]}
        self.kernels = [k0]
        index = {frozenset(k0): 0}
        self.trans = [dict()]
        self.access = {}
        work = [0]
        queued = {0}
        while work:
            s = work.pop(0)
            queued.discard(s)
            items = self.closure(self.kernels[s])
            nxt = defaultdict(dict)
            for (p, d), la in items.items():
                rhs = self.prods[p].rhs
                if d < len(rhs):
                    nxt[rhs[d]].setdefault((p, d + 1), set()).update(la)
            for x, k in nxt.items():
                key = frozenset(k)
                if key not in index:
                    index[key] = len(self.kernels)
                    self.kernels.append({i: set(l) for i, l in k.items()})
                    self.trans.append({})
                    t = index[key]
                    work.append(t)
                    queued.add(t)
                else:
                    t = index[key]
                    grown = False
                    for i, l in k.items():
                        if not l <= self.kernels[t][i]:
                            self.kernels[t][i] |= l
                            grown = True
                    if grown and t not in queued:
                        work.append(t)
                        queued.add(t)
                self.trans[s][x] = t
                self.access[t] = x
        self.nstates = len(self.kernels)

    def _prec(self):
        lvl = {}
        for i, (a, l) in enumerate(self.g.prec):
            for t in l:
                lvl[t] = (i, a)
        rp = []
        for p in self.prods:
            if p.prec:
                rp.append(lvl.get(p.prec))
            else:
                rp.append(next((lvl[x] for x in p.rhs if self.isterm(x) and x in lvl), None))
        return lvl, rp

    def _actions(self):
        lvl, rp = self._prec()
        self.lvl, self.rprec = lvl, rp
        T = len(self.terms) + 1
        self.act = [[ERR] * T for _ in range(self.nstates)]
        self.goto = [[0] * len(self.nts) for _ in range(self.nstates)]
        self.nonassoc_cells = set()
        self.resolved = self.manyway = 0
        for s in range(self.nstates):
            cell = defaultdict(list)
            for x, t in self.trans[s].items():
                if self.isterm(x):
                    cell[self.tnum[x]].append(('s', t))
                else:
                    self.goto[s][self.nnum[x]] = t + 1
            items = self.closure(self.kernels[s])
            for (p, d), la in sorted(items.items()):
                if d == len(self.prods[p].rhs):
                    for l in la:
                        cell[l].append(('r', p))
            for tok, acts in cell.items():
                sh = [a for a in acts if a[0] == 's']
                rd = [a for a in acts if a[0] == 'r']
                tp = lvl.get(self.terms[tok - 1]) if tok else None
                best = sh[0] if sh else rd[0]
                if len(acts) > 1:
                    self.resolved += len(acts) - 1
                    if len(acts) > 2:
                        self.manyway += 1
                    if any(rp[r[1]] is None for r in rd) or sh and tp is None:
                        self.conflicts.append((s, tok) + tuple(acts))
                    else:
                        # the highest level wins; on a level only a shift and one rule can be told apart
                        top = max(rp[r[1]][0] for r in rd)
                        win = [r for r in rd if rp[r[1]][0] == top]
                        if sh and (tp[0] > top or tp[0] == top and tp[1] == 'right'):
                            best = sh[0]
                        elif len(win) > 1:
                            self.conflicts.append((s, tok) + tuple(win))
                        elif sh and tp[0] == top and tp[1] == 'nonassoc':
                            best = None
                            self.nonassoc_cells.add((s, tok))
                        else:
                            best = win[0]
                if best is None:
                    self.act[s][tok] = ERR
                elif best[0] == 's':
                    self.act[s][tok] = best[1] + 1
                else:
                    self.act[s][tok] = -(best[1] + 1)
        if self.start in self.nnum:
            self.goto[0][self.nnum[self.start]] = RACC

    # -------------------------------------------------- fallback / wildcard
    def apply_fallback(self):
        """Token lookup as documented: own action, then the fallback token's,
        (and its fallback), then the wildcard's (never for end of input)."""
        fb = {}
        for f, l in self.g.fallback:
            for t in l:
                fb[self.tnum[t]] = self.tnum[f]
        wc = self.tnum.get(self.g.wildcard) if self.g.wildcard else None
        new = [row[:] for row in self.act]
        for s in range(self.nstates):
            for tok in range(1, len(self.terms) + 1):
                if (s, tok) in self.nonassoc_cells:
                    continue
                t, seen = tok, set()
                a = self.act[s][t]
                while a == ERR and t in fb and t not in seen:
                    seen.add(t)
                    t = fb[t]
                    a = self.act[s][t]
                    if (s, t) in self.nonassoc_cells:
                        break
                if a == ERR and wc and (s, t) not in self.nonassoc_cells:
                    a = self.act[s][wc]
                new[s][tok] = a
        self.raw_act = self.act
        self.act = new

    def rust(self, name):
        T, N = len(self.terms) + 1, len(self.nts)
        flat = lambda rows: ', '.join(str(x) for r in rows for x in r)
        P = self.prods
        act = flat(self.act)
        goto = flat(self.goto)
        return f'''static {name}: RTab = RTab {{ nt: {T}, nn: {N},
  act: &[{act}],
  goto_: &[{goto}],
  rlen: &[{', '.join(str(len(p.rhs)) for p in P)}],
  rlhs: &[{', '.join(str(self.nnum[p.lhs]) for p in P)}],
  rid: &[{', '.join(str(65535 if p.rid is None else p.rid) for p in P)}],
  rmask: &[{', '.join(str(p.mask) for p in P)}],
  rkind: &[{', '.join(str(p.kind) for p in P)}],
  err: {self.nnum.get('error', 255)},
  errst: &[{', '.join(str(int(self.access.get(i) == 'error')) for i in range(self.nstates))}],
  eunit: {str(self.g.types.get('error') == '()').lower()},
}};
'''


# ---------------------------------------------------------------- CNF / CYK
def cnf(g):
    """Chomsky normal form of L(g) and of its set of nonempty viable prefixes.
    Returns rust source for a Cnf, or raises if it needs more than 64 symbols."""
    prods = [(p.lhs, tuple(p.rhs)) for p in g.core()]
    terms = set(g.terms)
    nts = []
    for l, r in prods:
        if l not in nts:
            nts.append(l)
    # productive
    prod = set(terms)
    ch = True
    while ch:
        ch = False
        for l, r in prods:
            if l not in prod and all(x in prod for x in r):
                prod.add(l)
                ch = True
    prods = [(l, r) for l, r in prods if all(x in prod for x in r)]
    # prefix grammar: P(X) = nonempty prefixes of strings of X
    pref = []
    for l, r in prods:
        for i in range(len(r)):
            x = r[i]
            last = x if x in terms else 'P$' + x
            pref.append(('P$' + l, r[:i] + (last,)))
    allp = prods + pref
    # binarise
    n = [0]
    bin_, memo = set(), {}

    def seq(r):
        if len(r) <= 2:
            return r
        t = r[1:]
        if t not in memo:
            n[0] += 1
            memo[t] = f'B${n[0]}'
            rec = seq(t)
            bin_.add((memo[t], rec))
        return (r[0], memo[t])
    rules = set()
    for l, r in allp:
        rules.add((l, seq(r)))
    rules |= bin_
    # nullable
    nullable = set()
    ch = True
    while ch:
        ch = False
        for l, r in rules:
            if l not in nullable and all(x in nullable for x in r):
                nullable.add(l)
                ch = True
    r2 = set()
    for l, r in rules:
        if len(r) == 2:
            r2.add((l, r))
            if r[0] in nullable:
                r2.add((l, (r[1],)))
            if r[1] in nullable:
                r2.add((l, (r[0],)))
        elif len(r) == 1:
            r2.add((l, r))
    # unit closure
    syms = set(l for l, _ in r2)
    unit = {s: {s} for s in syms}
    ch = True
    while ch:
        ch = False
        for l, r in r2:
            if len(r) == 1 and r[0] in syms:
                for s in syms:
                    if l in unit[s] and r[0] not in unit[s]:
                        unit[s].add(r[0])
                        ch = True
    direct = defaultdict(set)
    for l, r in r2:
        if len(r) == 2 or r[0] in terms:
            direct[l].add(r)
    full = {s: set().union(*[direct[u] for u in unit[s]]) for s in syms}
    # terminals inside pairs
    for s in list(full):
        new = set()
        for r in full[s]:
            if len(r) == 2:
                a = ['T$' + x if x in terms else x for x in r]
                for x, y in zip(a, r):
                    if x != y:
                        full.setdefault(x, set()).add((y,))
                new.add(tuple(a))
            else:
                new.add(r)
        full[s] = new
    S, PS = g.start_sym, 'P$' + g.start_sym
    # drop symbols with no strings, reachable only, merge identical
    for _ in range(50):
        dead = {s for s in full if not full[s]}
        rep, seen = {}, {}
        for s in sorted(full, key=lambda s: (s not in (S, PS), s)):
            key = frozenset(full[s])
            if key in seen and s not in (S, PS):
                rep[s] = seen[key]
            elif key not in seen:
                seen[key] = s
        if not rep and not dead:
            break
        f2 = {}
        for s in full:
            if s in rep or s in dead:
                continue
            f2[s] = {tuple(rep.get(x, x) for x in r) for r in full[s] if not any(x in dead for x in r)}
        full = f2
    reach, work = set(), [x for x in (S, PS) if x in full]
    while work:
        s = work.pop()
        if s in reach:
            continue
        reach.add(s)
        for r in full[s]:
            if len(r) == 2:
                work += [x for x in r if x in full]
    names = sorted(reach)
    if len(names) > 64:
        raise ValueError(f'{g.name}: {len(names)} CNF symbols')
    num = {s: i for i, s in enumerate(names)}
    tm = [0] * (len(g.terms) + 1)
    pairs = []
    for s in names:
        for r in sorted(full[s]):
            if len(r) == 1:
                tm[g.terms.index(r[0])] |= 1 << num[s]
            elif all(x in num for x in r):
                pairs.append((num[s], num[r[0]], num[r[1]]))
    eps = S in nullable
    return dict(term=tm[:-1], bin=pairs, start=1 << num[S] if S in num else 0, prefix=1 << num[PS] if PS in num else 0, eps=eps, n=len(names))


def cnf_rust(g, name):
    c = cnf(g)
    return (f'static {name}: Cnf = Cnf {{ term: &[{", ".join(map(str, c["term"]))}], '
            f'bin: &[{", ".join(str(b) for b in c["bin"])}], start: {c["start"]}, prefix: {c["prefix"]}, '
            f'eps: {"true" if c["eps"] else "false"} }};\n')
