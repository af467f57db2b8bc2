"""grammar sets shared by the property checks"""
from vlib.corpus import CURATED, random_gram, wellformed
from vlib.grammar import Gram
from vlib.lalr import LALR, cnf
from vlib.plan import measure


class G:
    """a grammar with its reference tables and the bound chosen for it"""
    def __init__(self, g, limit, nmax):
        self.g, self.l = g, LALR(g)
        self.m = measure(self.l, limit, nmax)
        self.N = self.m['N']

    @property
    def accepts(self):
        return self.m['shortest'] is not None and self.m['shortest'] <= self.N

    @property
    def eps(self):
        return self.m['shortest'] == 0


def pick(run, names=None, nrandom=10, limit=600, nmax=9, pred=None, rnd=None):
    out = []
    for k in (names or CURATED):
        g = Gram(k, CURATED[k])
        if pred and not pred(g):
            continue
        out.append(G(g, limit, nmax))
    for i in range(nrandom):
        kw = rnd(i) if rnd else {}
        g = random_gram(run.rng, f'r{i}', **kw)
        out.append(G(g, limit, nmax))
    return [x for x in out if not run.only or run.only in x.g.name]


def noprec(g):
    return not g.prec and not g.fallback and not g.wildcard and not g.uses_error


def cnf_ok(g):
    try:
        return cnf(g)['n'] <= 64
    except ValueError:
        return False


MIX = ['u32', 'u32', None, 'u64', 'Box<u32>', '(u32, u8)', 'crate::Pair', 'crate::Alt']


def mixed(rng, g, types=MIX, drop=0.15):
    """the same grammar with a different value type on every symbol and some
    values left unbound"""
    for s in g.terms + g.nts:
        if s != g.wildcard:
            g.types[s] = rng.choice(types)
    for r in g.rules:
        for it in r.rhs:
            if rng.random() < drop:
                it.alias = False
    return g


def ncap(g, limit, lo=3, hi=9, ntok=None):
    """length bound for harnesses that go on after an error: all sequences are live"""
    import math
    t = ntok or len(g.terms)
    return max(lo, min(hi, int(math.log(limit) / math.log(max(2, t) + 0.3))))


def some_units(rng, g, p=0.4):
    """drop the type of some terminals, so that their variants are units"""
    for t in g.terms:
        if t != g.wildcard and rng.random() < p:
            g.types[t] = None
    return g


def need(run, labels, least=1):
    """run-level reachability: some harness must have seen each label"""
    if run.only or run.violations:
        return
    for x in labels:
        if run.reach.get(str(x), 0) < least:
            run.error(f'label {x} reached {run.reach.get(str(x), 0)} times over all harnesses')
