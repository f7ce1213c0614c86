"""Abstract domain: guards (BDDs over opaque conditions), guarded linear forms, bit vectors.

Nothing here executes the analysed program and no solver is involved: guards are kept canonical
as reduced ordered BDDs, integers as guarded linear forms  sum coef*[guard]*symbol  or as vectors of
guard bits, and comparisons that cannot be decided by interval/linear reasoning become canonical
GE(form, c) atoms whose threshold ordering is built into their encoding.
"""
import sys
sys.setrecursionlimit(20000)

# ------------------------------------------------------------------ BDD
F, T = 0, 1


class BDD:
    def __init__(self):
        self.var = [1 << 60, 1 << 60]
        self.lo = [0, 1]
        self.hi = [0, 1]
        self.uniq = {}
        self.memo = {}
        self.atoms = []          # index -> key
        self.aidx = {}
        self.smemo = {F: frozenset(), T: frozenset()}

    def mk(self, v, l, h):
        if l == h:
            return l
        k = (v, l, h)
        r = self.uniq.get(k)
        if r is None:
            r = len(self.var)
            self.var.append(v)
            self.lo.append(l)
            self.hi.append(h)
            self.uniq[k] = r
        return r

    def atom(self, key):
        i = self.aidx.get(key)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(key)
            self.aidx[key] = i
        return self.mk(i, F, T)

    def ite(self, f, g, h):
        if f == T:
            return g
        if f == F:
            return h
        if g == h:
            return g
        if g == T and h == F:
            return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None:
            return r
        var, lo, hi = self.var, self.lo, self.hi
        v = min(var[f], var[g], var[h])
        f0, f1 = (lo[f], hi[f]) if var[f] == v else (f, f)
        g0, g1 = (lo[g], hi[g]) if var[g] == v else (g, g)
        h0, h1 = (lo[h], hi[h]) if var[h] == v else (h, h)
        r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        if len(self.memo) > 4000000:
            self.memo.clear()
        self.memo[k] = r
        return r

    def support(self, f):
        r = self.smemo.get(f)
        if r is None:
            r = self.support(self.lo[f]) | self.support(self.hi[f]) | {self.var[f]}
            if len(self.smemo) > 600000:
                self.smemo.clear()
                self.smemo.update({F: frozenset(), T: frozenset()})
            self.smemo[f] = r
        return r

    def cof(self, f, v, b):
        if self.var[f] > v:
            return f
        if self.var[f] == v:
            return self.hi[f] if b else self.lo[f]
        k = ('c', f, v, b)
        r = self.memo.get(k)
        if r is None:
            r = self.mk(self.var[f], self.cof(self.lo[f], v, b), self.cof(self.hi[f], v, b))
            self.memo[k] = r
        return r

    def restrict(self, f, c):
        """simplify f under care set c"""
        if c == F:
            return F
        if c == T or f <= 1:
            return f
        k = ('r', f, c)
        r = self.memo.get(k)
        if r is not None:
            return r
        if c == f:
            r = T
        else:
            vf, vc = self.var[f], self.var[c]
            if vc < vf:
                r = self.restrict(f, self.ite(self.lo[c], T, self.hi[c]))
            elif vf < vc:
                r = self.mk(vf, self.restrict(self.lo[f], c), self.restrict(self.hi[f], c))
            elif self.lo[c] == F:
                r = self.restrict(self.hi[f], self.hi[c])
            elif self.hi[c] == F:
                r = self.restrict(self.lo[f], self.lo[c])
            else:
                r = self.mk(vf, self.restrict(self.lo[f], self.lo[c]),
                            self.restrict(self.hi[f], self.hi[c]))
        self.memo[k] = r
        return r

    def exists(self, f, pred, memo=None):
        """quantify out the atoms whose key satisfies pred"""
        if memo is None:
            memo = {}
        if f <= 1:
            return f
        r = memo.get(f)
        if r is None:
            l = self.exists(self.lo[f], pred, memo)
            h = self.exists(self.hi[f], pred, memo)
            if pred(self.atoms[self.var[f]]):
                r = self.ite(l, T, h)
            else:
                r = self.ite(self.mk(self.var[f], F, T), h, l)
            memo[f] = r
        return r


B = BDD()


def reset():
    global LENB
    LENB = anylen
    B.__init__()
    GE_TH.clear()
    BOUNDS.clear()
    REWRITE.clear()
    FRESH.clear()
    _pn_memo.clear()
    _fit_memo.clear()
    _van_memo.clear()
    _ge_memo.clear()


def AND(*a):
    r = T
    for x in a:
        r = B.ite(r, x, F)
    return r


def OR(*a):
    r = F
    for x in a:
        r = B.ite(r, T, x)
    return r


def NOT(a):
    return B.ite(a, F, T)


def ITE(a, b, c):
    return B.ite(a, b, c)


def IMPL(a, b):
    return B.ite(a, b, T) == T


FRESH = {}


def fresh(tag):
    n = FRESH.get(tag, 0)
    FRESH[tag] = n + 1
    return n


def cube(f):
    """one satisfying assignment as readable list"""
    out = []
    while f > 1:
        v = B.var[f]
        if B.lo[f] != F:
            out.append((B.atoms[v], False))
            f = B.lo[f]
        else:
            out.append((B.atoms[v], True))
            f = B.hi[f]
    return out


# ------------------------------------------------------------------ symbols
BIG = 1 << 40
INF = 1 << 62
HAVOC = []       # what the analysis gave up on in this job
WIDE = []        # loops it could only over-approximate in this job
BOUNDS = {}      # symbol -> (lo, hi)
REWRITE = []     # active rewriting contexts (generic iteration of a collection)


def anylen(path):
    return BIG


LENB = anylen


def bounds_of(sym):
    b = BOUNDS.get(sym)
    if b is not None:
        return b
    k = sym[0]
    if k == 'bf':
        _, p, lo, w = sym
        l, h = pbounds(p)
        if w is None:
            return (max(l, 0) >> lo, max(h, 0) >> lo)
        m = (1 << w) - 1
        if l >= 0:
            return (0, min(m, h >> lo))
        return (0, m)
    if k == 'len':
        return (0, LENB(sym[1]))
    if k in ('N', 'SUM', 'PN', 'PS', 'RN', 'RS'):
        return (0, BIG << 8)
    return (0, INF)


# ------------------------------------------------------------------ guarded linear forms
SYMS = {None: 0}


def sid(s):
    i = SYMS.get(s)
    if i is None:
        i = SYMS[s] = len(SYMS)
    return i


class Poly:
    """ sum of coef*[guard]*sym ; terms: dict (sym|None, guard) -> coef """
    __slots__ = ('t', 'h', 'key')

    def __init__(self, t):
        self.t = t
        self.key = tuple(sorted((sid(s), g, c) for (s, g), c in t.items()))
        self.h = hash(self.key)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self.h == o.h and self.key == o.key)

    def const(self):
        if not self.t:
            return 0
        if len(self.t) == 1:
            return self.t.get((None, T))
        return None

    def __repr__(self):
        if not self.t:
            return '0'
        o = []
        for (s, g), c in sorted(self.t.items(), key=repr):
            x = [] if c == 1 and s is not None else [str(c)]
            if g != T:
                x.append('[%s]' % show(g))
            if s is not None:
                x.append(showsym(s))
            o.append('*'.join(x))
        return ' + '.join(o)


def showsym(s):
    if s[0] == 'bf':
        return '(%r)>>%d%s' % (s[1], s[2], '' if s[3] is None else '&%d' % ((1 << s[3]) - 1))
    if len(s) == 2 and isinstance(s[1], str):
        return s[1] if s[0] == 'v' else '%s(%s)' % (s[0], s[1])
    return '%s%r' % (s[0], s[1:])


def showatom(k):
    if k[0] == 'ge':
        return '(%r >= %d)' % (k[1], k[2])
    if k[0] == 'bit':
        return 'bit%d(%r)' % (k[2], k[1])
    if k[0] == 'disc':
        return '%s is %s' % (k[1], k[2])
    return ':'.join(str(x) for x in k)


def show(g, lim=6):
    if g == T:
        return 'true'
    if g == F:
        return 'false'
    n = NOT(g)
    if len(B.support(g)) == 1:
        v = next(iter(B.support(g)))
        return ('' if B.hi[g] == T else '!') + showatom(B.atoms[v])
    c = cube(g)
    return '{' + ' & '.join(('' if b else '!') + showatom(a) for a, b in c[:lim]) + (' ..' if len(c) > lim else '') + '}'


def P(c):
    return Poly({(None, T): c} if c else {})


def psym(s, g=T):
    return Poly({(s, g): 1})


def pind(g, c=1):
    """c*[g]"""
    if g == F or c == 0:
        return P(0)
    return Poly({(None, g): c})


def padd(a, b, k=1):
    t = dict(a.t)
    for m, c in b.t.items():
        n = t.get(m, 0) + k * c
        if n:
            t[m] = n
        else:
            t.pop(m, None)
    return Poly(t)


def psub(a, b):
    return padd(a, b, -1)


def pscale(a, k):
    return Poly({m: c * k for m, c in a.t.items()} if k else {})


def pgate(a, g):
    if g == T:
        return a
    if g == F:
        return P(0)
    t = {}
    for (s, h), c in a.t.items():
        x = AND(h, g)
        if x != F:
            n = t.get((s, x), 0) + c
            if n:
                t[(s, x)] = n
            else:
                t.pop((s, x), None)
    return Poly(t)


def pcells(l, pc=T, cap=1 << 30):
    """[(guard, coef)] -> {value: guard} partition of pc, or None when it gets larger than cap"""
    work = {0: pc}
    for g, c in l:
        nw = {}
        for a, w in work.items():
            q = AND(w, g)
            if q != F:
                nw[a + c] = OR(nw.get(a + c, F), q)
            q = AND(w, NOT(g))
            if q != F:
                nw[a] = OR(nw.get(a, F), q)
        work = nw
        if len(work) > cap:
            return None
    return work


_pn_memo = {}


def components(l):
    """terms [(guard, coef)] grouped by shared atoms; the constant goes with a single group, else apart"""
    if len(l) == 1:
        return [l]
    out = []
    for g, c in sorted(l):
        if g == T:
            continue
        u = B.support(g)
        t = [(g, c)]
        keep = []
        for v, m in out:
            if v & u:
                u = u | v
                t = m + t
            else:
                keep.append((v, m))
        keep.append((u, t))
        out = keep
    out = [m for _, m in out]
    for g, c in l:
        if g == T:
            if len(out) == 1:
                out[0].append((g, c))
            else:
                out.append([(g, c)])
    return out


def pnorm(a):
    """disjoint guards per symbol wherever that does not enlarge the form"""
    if all(g == T for (_, g) in a.t):
        return a
    r = _pn_memo.get(a)
    if r is not None:
        return r
    by = {}
    for (s, g), c in a.t.items():
        by.setdefault(s, []).append((g, c))
    out = {}
    for s, l in by.items():
        comps = components(l)
        for l in comps:
            n = sum(1 for g, _ in l if g != T)
            if n > 1 or n and (len(comps) == 1 or l[0][1] < 0):
                l.sort()
                w = pcells(l, T, 2 * n + 3)
                if w is not None and len(w) <= n + 2:
                    if s is None or len(comps) > 1:
                        base = min(w)
                    else:
                        base = 0 if 0 in w else min(w)
                    l = [(g, v - base) for v, g in w.items() if v != base]
                    if base:
                        l.append((T, base))
            for g, c in l:
                if g != F and c:
                    out[(s, g)] = out.get((s, g), 0) + c
    r = Poly({m: c for m, c in out.items() if c})
    _pn_memo[a] = r
    return r


def pjoin(g, a, b):
    if a == b:
        return a
    r = pnorm(padd(b, padd(pgate(a, g), pgate(b, g), -1)))
    if any(h != T and s is not None and s[0] == 'bf' and s[2] for s, h in r.t):
        r = merge_fields(r)
    return r


def psimp(a, pc):
    """simplify guards under path guard"""
    if pc == T:
        return a
    fits = any(s is not None and s[0] == 'bf' and (s[2] or s[3] is not None) for (s, _) in a.t)
    if all(g == T for (_, g) in a.t) and not fits:
        return a
    t = {}
    for (s, g), c in a.t.items():
        x = B.restrict(g, pc)
        if AND(pc, x) == F:
            continue
        if IMPL(pc, x):
            x = T
        n = t.get((s, x), 0) + c
        if n:
            t[(s, x)] = n
        else:
            t.pop((s, x), None)
    r = Poly(t)
    if fits:
        q = fit_fields(r, pc)
        if q is not r:
            return psimp(q, pc)
    r = pnorm(r)
    if any(h != T and s is not None and s[0] == 'bf' and s[2] for s, h in r.t):
        q = merge_fields(r, pc)
        if q is not r:
            return psimp(q, pc)
    return r


def pcof(a, v, b):
    t = {}
    for (s, g), c in a.t.items():
        x = B.cof(g, v, b)
        if x != F:
            n = t.get((s, x), 0) + c
            if n:
                t[(s, x)] = n
            else:
                t.pop((s, x), None)
    return Poly(t)


def rewrite(p):
    """apply the active collection contexts: TOTAL = PREFIX + element + REST"""
    for fn in REWRITE:
        p = fn(p)
    return p


def pbounds(p, pc=T):
    lo = hi = 0
    by = {}
    for (s, g), c in p.t.items():
        if g != T and pc != T:
            if AND(pc, g) == F:
                continue
            if IMPL(pc, g):
                g = T
        if s is None:
            l = h = c
        else:
            l, h = bounds_of(s)
            l, h = (c * l, c * h) if c >= 0 else (c * h, c * l)
        if g != T:
            by.setdefault(g, [0, 0])
            by[g][0] += l
            by[g][1] += h
        else:
            lo += l
            hi += h
    gs = list(by.items())
    # mutually exclusive guards: only one of them contributes
    while gs:
        g, (l, h) = gs.pop()
        l, h = min(l, 0), max(h, 0)
        rest = []
        u = g
        for g2, (l2, h2) in gs:
            if len(gs) < 40 and AND(u, g2) == F:
                l, h = min(l, l2), max(h, h2)
                u = OR(u, g2)
            else:
                rest.append((g2, (l2, h2)))
        gs = rest
        lo += l
        hi += h
    return lo, hi


def pzero(p, pc=T):
    """is p == 0 whenever pc holds?"""
    p = psimp(p, pc)
    if not p.t:
        return True
    by = {}
    for (s, g), c in p.t.items():
        by.setdefault(s, []).append((g, c))
    for s, l in by.items():
        # split on guards: sum over all feasible combinations must vanish
        work = [(pc, 0)]
        for g, c in l:
            nw = {}
            for w, acc in work:
                for q, a in ((AND(w, g), acc + c), (AND(w, NOT(g)), acc)):
                    if q != F:
                        nw[a] = OR(nw.get(a, F), q)
            work = [(q, a) for a, q in nw.items()]
            if len(work) > 4000:
                return False
        if any(a != 0 for _, a in work):
            if s is not None and bounds_of(s) == (0, 0):
                continue
            return False
    return True


def ppick(p, pc):
    """the form without guards that p takes on one path of pc"""
    t = P(0)
    for (s, g), c in sorted(p.t.items(), key=lambda e: (sid(e[0][0]), e[0][1])):
        q = AND(pc, g)
        if q != F:
            pc = q
            t = padd(t, Poly({(s, T): c}))
        # a guard that is false here stays out of the form
    return t


def punguard(p, pc):
    """guard-free form equal to p whenever pc holds, or None"""
    c = ppick(p, pc)
    return c if pzero(psub(p, c), pc) else None


# ------------------------------------------------------------------ GE atoms
GE_TH = {}       # poly (without constant) -> sorted list of (threshold, node)
_ge_memo = {}


def _lead(p):
    return p.key[0][2]


def GE(p, c):
    """node for p >= c"""
    k = (p, c)
    r = _ge_memo.get(k)
    if r is None:
        r = _ge(p, c)
        if not REWRITE:
            _ge_memo[k] = r
    return r


def _ge(p, c):
    k0 = p.t.get((None, T), 0)
    if k0:
        t = dict(p.t)
        del t[(None, T)]
        return GE(Poly(t), c - k0)
    lo, hi = pbounds(p)
    if lo >= c:
        return T
    if hi < c:
        return F
    if REWRITE:
        q = rewrite(p)
        if q is not p:
            lo, hi = pbounds(q)
            if lo >= c:
                return T
            if hi < c:
                return F
    # guards inside the form: expand them if that stays small
    gs = [g for (_, g) in p.t if g != T]
    if gs:
        r = _expand(p, c)
        if r is not None:
            return r
    return _ge_leaf(p, c)


EXPAND = 2


def _expand(p, c):
    budget = [160]
    atoms = [0]

    def rec(q):
        budget[0] -= 1
        if budget[0] < 0:
            return None
        lo, hi = pbounds(q)
        if lo >= c:
            return T
        if hi < c:
            return F
        vs = [B.var[g] for (_, g) in q.t if g != T]
        if not vs:
            atoms[0] += 1
            if atoms[0] > EXPAND:
                return None
            return GE(q, c)
        v = min(vs)
        l = rec(pcof(q, v, False))
        if l is None:
            return None
        h = rec(pcof(q, v, True))
        if h is None:
            return None
        return B.ite(B.mk(v, F, T), h, l)
    return rec(p)


def _ge_leaf(p, c):
    if _lead(p) < 0:
        return NOT(GE(pscale(p, -1), 1 - c))
    # common factor
    if len(p.t) == 1:
        (m, co), = p.t.items()
        if co > 1:
            return GE(Poly({m: 1}), -((-c) // co))
        s = m[0]
        if m[1] == T and s is not None and s[0] == 'bf' and s[3] is None and c > 0:
            return GE(s[1], c << s[2])
    # a*N(coll)+sum b*SUM(coll,..) >= c with 0<c<=a  <=>  N(coll) >= 1
    ns = [(s, co) for (s, g), co in p.t.items() if g == T and s is not None and s[0] == 'N']
    if len(ns) == 1 and len(p.t) > 1 and 0 < c <= ns[0][1]:
        coll = ns[0][0][1]
        if all(co > 0 and g == T and s is not None and s[0] in ('N', 'SUM') and s[1] == coll
               for (s, g), co in p.t.items()):
            return GE(psym(ns[0][0]), 1)
    th = GE_TH.get(p)
    if th is None:
        th = GE_TH[p] = []
    below = F    # node of next higher threshold (stronger)
    above = T    # node of next lower threshold (weaker)
    for i, (x, nd) in enumerate(th):
        if x == c:
            return nd
        if x < c:
            above = nd
        elif x > c and below == F:
            below = nd
    a = B.atom(('ge', p, c))
    nd = OR(below, AND(above, a))
    th.append((c, nd))
    th.sort(key=lambda e: e[0])
    return nd


def EQ(p, c):
    return AND(GE(p, c), NOT(GE(p, c + 1)))


def facts(pc):
    """linear facts (form, lower bound) implied by pc"""
    sup = B.support(pc)
    polys = set()
    for v in sup:
        k = B.atoms[v]
        if k[0] == 'ge':
            polys.add(k[1])
    out = []
    for p in polys:
        best = None
        worst = None
        for c, nd in GE_TH[p]:
            if IMPL(pc, nd):
                best = c
            elif AND(pc, nd) == F and worst is None:
                worst = c
        if best is not None:
            out.append((p, best))
        if worst is not None:
            out.append((pscale(p, -1), 1 - worst))
    return out


_fact_memo = {}


def facts_m(pc):
    k = (id(B.var), pc, len(B.atoms), sum(len(x) for x in GE_TH.values()) if pc > 1 else 0)
    r = _fact_memo.get(k)
    if r is None:
        if len(_fact_memo) > 5000:
            _fact_memo.clear()
        r = _fact_memo[k] = facts(pc)
    return r


def refuted(pc):
    """some linear fact implied by pc cannot hold"""
    if pc == F:
        return True
    for f, b in facts_m(pc):
        f = psimp(f, pc)
        if REWRITE:
            f = rewrite(f)
        if pbounds(f, pc)[1] < b:
            return True
    return False


def saturate(pc):
    """add the guards forced by linear facts that hold with equality"""
    for _ in range(4):
        p0 = pc
        for f, b in facts_m(pc):
            f = psimp(f, pc)
            if REWRITE:
                f = rewrite(f)
            hi = pbounds(f, pc)[1]
            if hi < b:
                return F
            if hi > b:
                continue
            for (s, g), c in f.t.items():
                if s is None:
                    if g != T and sum(1 for (s2, g2) in f.t if s2 is None and g2 != T) == 1:
                        pc = AND(pc, g if c > 0 else NOT(g))
                    elif g != T and c < 0 and all(c2 < 0 for (s2, g2), c2 in f.t.items() if s2 is None and g2 != T):
                        pc = AND(pc, NOT(g))
                elif s[0] == 'N' and c < 0 and g == T:
                    pc = AND(pc, NOT(GE(psym(s), 1)))
                elif c < 0 and g != T and pbounds(psym(s))[0] > 0:
                    pc = AND(pc, NOT(g))
        if pc == p0 or pc == F:
            break
    return pc


def prove_ge(p, c, pc, depth=2):
    """prove p >= c from interval bounds and the linear facts implied by pc"""
    p = psimp(p, pc)
    if REWRITE:
        p = rewrite(p)
    lo, _ = pbounds(p, pc)
    if lo >= c:
        return True
    if depth == 0:
        return False
    ps = {s for (s, _) in p.t if s is not None}
    for f, b in facts_m(pc):
        f = psimp(f, pc)
        if REWRITE:
            f = rewrite(f)
        fs = {s for (s, _) in f.t if s is not None}
        if not (fs & ps):
            continue
        if prove_ge(psub(p, f), c - b, pc, depth - 1):
            return True
    # case split on a guard that occurs in the form
    if depth == 2:
        gs = {g for (_, g) in p.t if g != T}
        if 0 < len(gs) <= 6:
            for g in gs:
                a, b = AND(pc, g), AND(pc, NOT(g))
                if a != F and b != F:
                    return prove_ge(p, c, a, 2) and prove_ge(p, c, b, 2)
    return False


def strengthen(pc, node):
    """add to pc the truth value of the GE atoms of node that linear reasoning settles"""
    if pc == F or IMPL(pc, node) or AND(pc, node) == F:
        return pc
    done = set()
    again = True
    while again:
        again = False
        for v in B.support(B.restrict(node, pc)):
            k = B.atoms[v]
            if k[0] != 'ge' or v in done:
                continue
            done.add(v)
            for c, nd in GE_TH.get(k[1], []):
                if c != k[2]:
                    continue
                if IMPL(pc, nd) or AND(pc, nd) == F:
                    break
                if prove_ge(k[1], c, pc):
                    pc = AND(pc, nd)
                    again = True
                elif prove_ge(pscale(k[1], -1), 1 - c, pc):
                    pc = AND(pc, NOT(nd))
                    again = True
                break
    return pc


# ------------------------------------------------------------------ integers
# ('i', bits|None, poly|None): at least one of them present
def ibits(bits):
    return ('i', tuple(bits), None)


def ipoly(p):
    return ('i', None, p)


def iconst(c, w=None):
    return ('i', None, P(c))


def isint(v):
    return isinstance(v, tuple) and v and v[0] == 'i'


def guarded_bit(b, want=None):
    """(guard, bit atom) when b is their conjunction"""
    if want is not None:
        v = B.aidx.get(want)
        vs = () if v is None else (v,)
    elif B.lo[b] == F and B.hi[b] == T:
        vs = (B.var[b],)
    else:
        vs = sorted(B.support(b), reverse=True)
        if len(vs) > 12:
            return None
    for v in vs:
        k = B.atoms[v]
        if k[0] == 'bit' and B.cof(b, v, False) == F:
            g = B.cof(b, v, True)
            if g != F:
                return g, k
    return None


def bits_to_poly(bits):
    t = P(0)
    i = 0
    n = len(bits)
    k = 0
    while i < n:
        b = bits[i]
        if b == F:
            i += 1
            continue
        if b == T:
            k += 1 << i
            i += 1
            continue
        # run of consecutive bits of one form, under one guard
        x = guarded_bit(b)
        if x is not None:
            g, (_, q, m) = x
            j = i + 1
            while j < n and bits[j] > 1 and guarded_bit(bits[j], ('bit', q, m + j - i)) == (g, ('bit', q, m + j - i)):
                j += 1
            if g == T or j > i + 1:
                r = field(q, m, j - i)
                t = padd(t, pscale(r if g == T else pjoin(g, r, P(0)), 1 << i))
                i = j
                continue
        t = padd(t, pind(b, 1 << i))
        i += 1
    return merge_fields(padd(t, P(k)))


def field(p, lo, w):
    """(p >> lo) & (2^w-1) as a form; w None = unbounded"""
    c = p.const()
    if c is not None and c >= 0:
        r = c >> lo
        return P(r if w is None else r & ((1 << w) - 1))
    l, h = pbounds(p)
    if l >= 0:
        if h < (1 << lo):
            return P(0)
        if w is not None and (h >> lo) < (1 << w):
            w = None
        if lo == 0 and w is None:
            return p
        if len(p.t) == 1:
            ((s, g), co), = p.t.items()
            if g == T and co == 1 and s is not None and s[0] == 'bf':
                # field of a field
                if s[3] is None:
                    return field(s[1], s[2] + lo, w)
                w2 = s[3] - lo if w is None else min(w, s[3] - lo)
                return field(s[1], s[2] + lo, w2)
            if g == T and co > 1 and co & (co - 1) == 0:
                sh = co.bit_length() - 1
                q = Poly({(s, g): 1})
                if lo >= sh:
                    return field(q, lo - sh, w)
    return psym(('bf', p, lo, w))


_van_memo = {}


def threshold(k):
    """the literal an atom stands for: thresholds of one polynomial are nested nodes"""
    if isinstance(k, tuple) and k[0] == 'ge':
        for c, n in GE_TH.get(k[1], ()):
            if c == k[2]:
                return n
    return B.atom(k)


def vanishes(q, lo, g, pc=T):
    """q < 2^lo where pc holds and the conjunction g does not"""
    k = (q, lo, g, pc)
    r = _van_memo.get(k)
    if r is None:
        _van_memo[k] = False
        w = AND(pc, g)
        r = False
        sup = B.support(g)
        if 0 < len(sup) < 8:
            lits = [x for v in sup for x in [threshold(B.atoms[v])] if IMPL(w, x)]
            # under pc a nested threshold may be the plain atom
            r = bool(lits) and AND(pc, *lits) == w and all(fits_under(q, lo, AND(pc, NOT(x))) for x in lits)
        _van_memo[k] = r
    return r


def merge_fields(p, pc=T):
    """2^i*bf(q,lo,w) + 2^(i+w)*bf(q,lo+w,w2) -> 2^i*bf(q,lo,w+w2)"""
    for (s, g), c in list(p.t.items()):
        if g != T and s is not None and s[0] == 'bf' and s[2] and vanishes(s[1], s[2], g, pc):
            t = dict(p.t)
            del t[(s, g)]
            p = padd(Poly(t), Poly({(s, T): c}))
    while True:
        fs = {}
        for (s, g), c in p.t.items():
            if s is not None and s[0] == 'bf' and g == T:
                fs[(s[1], s[2], c)] = s
        for (q, lo, c), s in fs.items():
            w = s[3]
            if w is None or c <= 0:
                continue
            s2 = fs.get((q, lo + w, c << w))
            if s2 is not None:
                t = dict(p.t)
                del t[(s, T)]
                del t[(s2, T)]
                w2 = None if s2[3] is None else w + s2[3]
                p = padd(Poly(t), pscale(field(q, lo, w2), c))
                break
        else:
            return p


_fit_memo = {}


def fits_under(q, w, pc):
    """0 <= q < 2^w whenever pc holds"""
    k = (q, w, pc)
    r = _fit_memo.get(k)
    if r is None:
        _fit_memo[k] = False      # the proof itself simplifies forms
        r = prove_ge(pscale(q, -1), 1 - (1 << w), pc) and prove_ge(q, 0, pc)
        if not r:
            n = NOT(GE(q, 1 << w))
            st = strengthen(pc, n)
            r = IMPL(st, n) and prove_ge(q, 0, pc)
        if not REWRITE:
            _fit_memo[k] = r
        else:
            del _fit_memo[k]
    return r


def fit_fields(p, pc):
    """bf(q,0,w) is q when pc bounds q below 2^w, bf(q,w,..) is then 0"""
    for (s, g), c in list(p.t.items()):
        if s is not None and s[0] == 'bf' and s[2] == 0 and s[3] is not None:
            h = AND(pc, g)
            for q in (psimp(s[1], h), s[1]):
                if fits_under(q, s[3], h):
                    t = dict(p.t)
                    del t[(s, g)]
                    p = padd(Poly(t), pscale(pgate(q, g), c))
                    break
        elif s is not None and s[0] == 'bf' and s[2] and fits_under(s[1], s[2], AND(pc, g)):
            t = dict(p.t)
            del t[(s, g)]
            p = Poly(t)
    return p


def as_poly(v):
    if v[2] is not None:
        return v[2]
    return bits_to_poly(v[1])


def as_bits(v, w, pc=T):
    if v[1] is not None:
        b = v[1]
        if len(b) >= w:
            return b[:w]
        return b + (F,) * (w - len(b))
    return poly_to_bits(v[2], w, pc)


_pb_memo = {}


def poly_to_bits(p, w, pc=T):
    c = p.const()
    if c is not None:
        return tuple(T if (c >> i) & 1 else F for i in range(w))
    if all(s is None for (s, _) in p.t):
        # pure guards: add them up
        acc = [F] * w
        for (s, g), k in p.t.items():
            k &= (1 << w) - 1
            acc = add_bits(acc, [g if (k >> i) & 1 else F for i in range(w)])
        return tuple(acc)
    if len(p.t) == 1:
        ((s, g), co), = p.t.items()
        if co == 1 and s is not None:
            q, lo, fw = (s[1], s[2], s[3]) if s[0] == 'bf' else (psym(s), 0, None)
            h = bounds_of(s)[1]
            n = h.bit_length()
            return tuple(AND(g, B.atom(('bit', q, lo + i))) if i < n else F for i in range(w))
        if g == T and co > 1 and co & (co - 1) == 0 and s is not None:
            sh = co.bit_length() - 1
            return ((F,) * sh + poly_to_bits(Poly({(s, T): 1}), w))[:w]
    # disjoint shifted fields
    out = [F] * w
    used = 0
    ok = True
    for (s, g), co in p.t.items():
        if co <= 0 or co & (co - 1) or g != T and s is not None:
            ok = False
            break
        sh = co.bit_length() - 1
        h = (bounds_of(s)[1] if s is not None else 1)
        m = ((1 << h.bit_length()) - 1) << sh
        if used & m:
            ok = False
            break
        used |= m
        b = poly_to_bits(Poly({(s, g): 1}), w)
        for i in range(w - sh):
            if b[i] != F:
                out[i + sh] = b[i]
    if ok:
        return tuple(out)
    # guarded alternatives: split on guards when there are few
    gs = sorted({g for (_, g) in p.t if g != T})
    if 0 < len(gs) <= 4:
        g = gs[0]
        v = B.var[g]
        lit = B.mk(v, F, T)
        a = poly_to_bits(pcof(p, v, True), w, AND(pc, lit))
        b = poly_to_bits(pcof(p, v, False), w, AND(pc, NOT(lit)))
        return tuple(ITE(lit, x, y) for x, y in zip(a, b))
    h = pbounds(p, pc)[1] if pc != F else 0
    n = max(h, 0).bit_length()
    if n >= w and pc > 1 and fits_under(p, w - 1, pc):
        n = w - 1
    return tuple(B.atom(('bit', p, i)) if i < n else F for i in range(w))


def add_bits(a, b):
    out = []
    c = F
    for x, y in zip(a, b):
        xy = ITE(x, NOT(y), y)
        out.append(ITE(xy, NOT(c), c))
        c = OR(AND(x, y), AND(c, xy))
    return out


def bits_ge_const(bits, c):
    if c <= 0:
        return T
    if c >> len(bits):
        return F
    r = T
    for i, b in enumerate(bits):
        if (c >> i) & 1:
            r = AND(b, r)
        else:
            r = OR(b, r)
    return r


def bits_eq(a, b):
    r = T
    n = max(len(a), len(b))
    for i in range(n):
        x = a[i] if i < len(a) else F
        y = b[i] if i < len(b) else F
        r = AND(r, ITE(x, y, NOT(y)))
        if r == F:
            break
    return r


def ival(v):
    """constant value or None"""
    if v[1] is not None:
        k = 0
        for i, b in enumerate(v[1]):
            if b == T:
                k |= 1 << i
            elif b != F:
                return None
        return k
    return v[2].const()


def single_form(bits):
    """bits that are exactly an unmodified form"""
    p = bits_to_poly(bits)
    return p


def ieq(a, b):
    ca, cb = ival(a), ival(b)
    if ca is not None and cb is None:
        a, b, ca, cb = b, a, cb, ca
    if cb is not None:
        if ca is not None:
            return T if ca == cb else F
        if a[1] is not None:
            if cb < 0 or cb >> len(a[1]):
                return F
            return bits_eq(a[1], tuple(T if (cb >> i) & 1 else F for i in range(len(a[1]))))
        return EQ(a[2], cb)
    if a[1] is not None and b[1] is not None:
        return bits_eq(a[1], b[1])
    return EQ(psub(as_poly(a), as_poly(b)), 0)


def ige(a, b):
    ca, cb = ival(a), ival(b)
    if ca is not None and cb is not None:
        return T if ca >= cb else F
    if cb is not None and a[1] is not None:
        return bits_ge_const(a[1], cb)
    if ca is not None and b[1] is not None:
        return NOT(bits_ge_const(b[1], ca + 1))
    if a[1] is not None and b[1] is not None and max(len(a[1]), len(b[1])) <= 8:
        # bitwise comparison
        r = T
        n = max(len(a[1]), len(b[1]))
        x = as_bits(a, n)
        y = as_bits(b, n)
        for i in range(n):
            r = OR(AND(x[i], NOT(y[i])), AND(ITE(x[i], y[i], NOT(y[i])), r))
        return r
    return GE(psub(as_poly(a), as_poly(b)), 0)


def bits_under(v, w, g):
    """the bits of v where g holds"""
    x = as_bits(v, w)
    if v[1] is None and v[2].const() is None:
        l, h = pbounds(v[2], g)
        if l >= 0:
            n = max(h, 0).bit_length()
            if n >= w and g > 1 and fits_under(v[2], w - 1, g):
                n = w - 1
            x = tuple(x[:n]) + (F,) * (w - n) if n < w else x
    return x


def ijoin(g, a, b):
    if a == b:
        return a
    if a[1] is not None or b[1] is not None:
        # keep bit precision for small values
        w = max(len(x[1]) for x in (a, b) if x[1] is not None)
        ok = True
        for x in (a, b):
            if x[1] is None:
                l, h = pbounds(x[2])
                if l < 0 or h >> w:
                    ok = False
        if ok and w <= 8:
            x, y = bits_under(a, w, g), bits_under(b, w, NOT(g))
            return ibits(ITE(g, p, q) for p, q in zip(x, y))
    return ipoly(pjoin(g, as_poly(a), as_poly(b)))


def isimp(v, pc):
    if v[1] is not None:
        return ibits(T if IMPL(pc, b) else F if AND(pc, b) == F else B.restrict(b, pc)
                     for b in v[1])
    return ipoly(psimp(v[2], pc))


def isame(a, b, pc):
    """proved equal whenever pc holds"""
    if a == b:
        return True
    if a[1] is not None and b[1] is not None:
        n = max(len(a[1]), len(b[1]))
        x, y = as_bits(a, n), as_bits(b, n)
        if all(AND(pc, ITE(p, NOT(q), q)) == F for p, q in zip(x, y)):
            return True
    p, q = as_poly(a), as_poly(b)
    if pzero(psub(p, q), pc):
        return True
    p, q = fit_fields(p, pc), fit_fields(q, pc)
    if pzero(psub(p, q), pc):
        return True
    d = psub(p, q)
    return prove_ge(d, 0, pc) and prove_ge(pscale(d, -1), 0, pc)
