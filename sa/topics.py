"""Topic names and filters as lists of levels of unknown number and content.

A list is explored through a window: the level `t0` / `f0` all iterators of the list stand at. When a loop
closes, the window moves to the next level: everything known about the level is forgotten, after the verdict
MQTT gives on it has been recorded in ghost variables. The states at a loop head are then finitely many
(ghosts and boolean program variables), and all of them are visited.
"""
import time
from dom import *
import dom
import eng as E
from eng import Engine, State, Imprecise, Budget, LoopLog
import models
from jobs import guarded, prog, LIMIT
import codec

CH = {'+': 43, '#': 35, '$': 36}
GHOSTS = ('dead', 'won')


def has(x, c):
    return B.atom(('lv', x, 'has', c))


def starts(x, c):
    return B.atom(('lv', x, 'starts', c))


def ends(x, c):
    return B.atom(('lv', x, 'ends', c))


def last(x):
    return B.atom(('lv', x, 'last'))


def ln(x):
    return psym(('len', 'lv.' + x))


def one(x):
    return AND(GE(ln(x), 1), NOT(GE(ln(x), 2)))


def is_(x, c):
    return AND(one(x), has(x, c))


def iff(a, b):
    return ITE(a, b, NOT(b))


def imp(a, b):
    return OR(NOT(a), b)


def eqv():
    return B.atom(('lveq', 't0', 'f0'))


def val(x):
    return ('seq', (('sl', 'lv.' + x, P(0), ln(x)),))


def same(x, y):
    return AND(iff(GE(ln(x), 1), GE(ln(y), 1)), iff(GE(ln(x), 2), GE(ln(y), 2)),
               *[iff(has(x, c), has(y, c)) for c in CH])


def content(x):
    g = T
    for c in CH:
        h = has(x, c)
        g = AND(g, imp(h, GE(ln(x), 1)), imp(starts(x, c), h), imp(ends(x, c), h),
                imp(is_(x, c), AND(starts(x, c), ends(x, c))))
        for d in CH:
            if d != c:
                g = AND(g, imp(AND(h, has(x, d)), GE(ln(x), 2)))
                g = AND(g, NOT(AND(starts(x, c), starts(x, d))), NOT(AND(ends(x, c), ends(x, d))))
    return g


WINDOW = {'t0', 'f0', 'lv.t0', 'lv.f0'}


def windowed(k):
    if isinstance(k, str):
        return k in WINDOW
    if isinstance(k, Poly):
        return any(s is not None and windowed(s) or gwin(g) for s, g in k.t)
    if isinstance(k, tuple):
        return any(windowed(x) for x in k)
    return False


def gwin(g):
    return g > 1 and any(windowed(B.atoms[v]) for v in B.support(g))


class Ghost:
    """the lists of one analysis and what MQTT says about them"""
    def __init__(self, fn, part=''):
        self.fn, self.part = fn, part
        self.names = {'matches': ('T', 'F'), 'valid_filter': ('F',)}.get(fn, ('S',))
        self.stuck = []
        self.known = T

    def first(self, st):
        g = T
        for x in self.names:
            g = AND(g, content(x))
        for x in self.names:
            st.mem[('gh', 'end', x)] = ('b', F)
        for x in GHOSTS:
            st.mem[('gh', x)] = ('b', F)
        st.mem[('gh', 'moved')] = ('b', F)
        if self.fn == 'valid_filter':
            g = AND(g, content('fL'))
        st.pc = AND(st.pc, g)

    def level(self, st, X):
        """facts about the level the window of X stands at"""
        x = X.lower() + '0'
        g = content(x)
        for c in CH:
            g = AND(g, imp(NOT(has(X, c)), NOT(has(x, c))))
        first = st.mem[('gh', 'moved')][1] == F
        if first:
            for c in CH:
                g = AND(g, iff(starts(X, c), starts(x, c)))
            g = AND(g, imp(last(x), iff(GE(ln(X), 1), GE(ln(x), 1))), imp(NOT(last(x)), GE(ln(X), 1)))
        if self.fn == 'matches':
            if X == 'T':
                g = AND(g, NOT(has(x, '+')), NOT(has(x, '#')))
            else:
                g = AND(g, imp(has(x, '#'), AND(one(x), last(x))), imp(has(x, '+'), one(x)))
            g = AND(g, imp(eqv(), AND(same('t0', 'f0'), EQ(psub(ln('t0'), ln('f0')), 0))))
        if self.fn == 'valid_filter':
            g = AND(g, imp(last(x), same(x, 'fL')))
        return g

    # ------------------------------------------------------------ verdicts: (certainly true, certainly false)
    def gh(self, st, n):
        return st.mem[('gh', n)][1]

    def end(self, st, X):
        return st.mem[('gh', 'end', X)][1]

    def verdict(self, st):
        if self.fn == 'has_wildcards':
            w = OR(has('S', '+'), has('S', '#'))
            return w, NOT(w)
        if self.fn == 'valid_topic':
            w = OR(has('S', '+'), has('S', '#'))
            return NOT(w), w
        dead, won = self.gh(st, 'dead'), self.gh(st, 'won')
        if self.fn == 'valid_filter':
            end = self.end(st, 'F')
            okl = OR(AND(NOT(has('fL', '+')), NOT(has('fL', '#'))), is_('fL', '+'), is_('fL', '#'))
            more = AND(NOT(end), NOT(last('f0')))
            bad = AND(more, NOT(self.middle('f0')))
            ne = GE(ln('F'), 1)
            return AND(ne, NOT(dead), okl, NOT(more)), OR(NOT(ne), dead, NOT(okl), bad)
        t, f = self.here(st)
        return AND(NOT(dead), OR(won, t)), OR(dead, AND(NOT(won), f))

    def dollar(self, st):
        if self.gh(st, 'moved') != F:
            return F
        return OR(is_('f0', '+'), is_('f0', '#'))

    def middle(self, x):
        """a level that is not the last"""
        return AND(NOT(has(x, '#')), OR(NOT(has(x, '+')), one(x)))

    def here(self, st):
        """match of what remains from the window on"""
        et, ef = self.end(st, 'T'), self.end(st, 'F')
        ok = OR(is_('f0', '+'), eqv())
        hsh = is_('f0', '#')
        # next position: decided when the filter ends there
        nt = AND(last('f0'), last('t0'))
        nf = AND(last('f0'), NOT(last('t0')))
        t = ITE(ef, et, OR(hsh, AND(NOT(et), ok, nt)))
        f = ITE(ef, NOT(et), AND(NOT(hsh), OR(et, NOT(ok), nf)))
        return t, f

    def step(self, st):
        """ghosts after the window moved"""
        dead, won = self.gh(st, 'dead'), self.gh(st, 'won')
        if self.fn == 'valid_filter':
            more = AND(NOT(self.end(st, 'F')), NOT(last('f0')))
            return OR(dead, AND(more, NOT(self.middle('f0')))), won
        if self.fn != 'matches':
            return dead, won
        et, ef = self.end(st, 'T'), self.end(st, 'F')
        ok = OR(is_('f0', '+'), eqv())
        hsh = AND(NOT(ef), is_('f0', '#'))
        if self.part == 'dollar':
            return OR(dead, self.dollar(st)), won
        w2 = OR(won, AND(NOT(dead), OR(hsh, AND(ef, et))))
        d2 = OR(dead, AND(NOT(won), ITE(ef, NOT(et), AND(NOT(hsh), OR(et, NOT(ok))))))
        return d2, w2

    # ------------------------------------------------------------ loops
    def run(self, eng, key, st, body, relevant, name, tyof):
        import loops
        outs, seen, work = [], set(), [st]
        n = 0
        while work:
            h = work.pop()
            sig = (h.pc, tuple(sorted(((repr(r), hash(v)) for r, v in h.mem.items() if relevant(r) or r[0] == 'gh'))))
            if sig in seen:
                continue
            seen.add(sig)
            n += 1
            if n > 300:
                raise Budget('loop in %s does not close' % name)
            backs, o = body(h)
            outs += loops.tidy(eng, o)
            for b in backs:
                if b.pc != F and not codec.infeasible(b.pc):
                    work += self.slide(eng, h, b, relevant, name)
        return outs

    def splits(self, st, relevant):
        for r, v in st.mem.items():
            if r[0] == 'gh' or not relevant(r):
                continue
            yield from ((r, s) for s in walk_splits(v))

    def slide(self, eng, h, b, relevant, name):
        adv = {s[1] for r, s in self.splits(b, relevant) if s[2] == 1}
        if not adv:
            self.stuck.append(name)
            raise Imprecise('a loop over levels that does not advance')
        mem = {}
        gone = top_()
        for r, v in b.mem.items():
            if r[0] == 'gh':
                mem[r] = v
                continue
            if not relevant(r):
                continue
            mem[r] = move(v, adv)
        d, w = self.step(b) if all(X in adv for X in self.names) else (None, None)
        if d is None:
            raise Imprecise('one list runs ahead of the other')
        mem[('gh', 'dead')] = ('b', d)
        mem[('gh', 'won')] = ('b', w)
        mem[('gh', 'moved')] = ('b', T)
        for X in adv:
            mem[('gh', 'end', X)] = ('b', OR(self.end(b, X), last(X.lower() + '0')))
        gs = set()
        for v in mem.values():
            guards(v, gs)
        gs = [g for g in gs if gwin(g)]
        out = []
        todo = [(b.pc, 0)]
        while todo:
            pc, k = todo.pop()
            if pc == F or codec.infeasible(pc):
                continue
            while k < len(gs) and (IMPL(pc, gs[k]) or AND(pc, gs[k]) == F):
                k += 1
            if k < len(gs):
                todo += [(AND(pc, gs[k]), k + 1), (AND(pc, NOT(gs[k])), k + 1)]
                if len(todo) + len(out) > 256:
                    raise Budget('too many states at the loop head of ' + name)
                continue
            m2 = {}
            for r, v in mem.items():
                v = eng.simpv(v, pc) if v[0] != 'opq' else v
                if has_window(v):
                    if r[0] == 'gh':
                        raise Imprecise('a verdict depends on a level left behind in ' + name)
                    v = top_()   # a level kept across iterations: anything done with it later is reported as unmodelled
                m2[r] = v
            out.append(State(B.exists(pc, windowed), m2, b.tag))
        return out


def top_():
    return ('top', 'list left behind')


def walk_splits(v):
    if isinstance(v, tuple):
        if len(v) == 5 and v[0] == 'split':
            yield v
            return
        for x in v:
            if isinstance(x, tuple):
                yield from walk_splits(x)


def move(v, adv):
    """iterators after the window of the lists `adv` moved"""
    if not isinstance(v, tuple):
        return v
    if len(v) == 5 and v[0] == 'split':
        if v[1] not in adv:
            return v
        if v[2] == 1:
            return ('split', v[1], 0) + v[3:]
        return top_()
    if not any(True for _ in walk_splits(v)):
        return v
    return tuple(move(x, adv) for x in v)


def guards(v, out):
    k = v[0]
    if k == 'b':
        out.add(v[1])
    elif k == 'e':
        for i, g, f in v[2]:
            out.add(g)
            for x in f:
                guards(x, out)
    elif k == 'agg':
        for x in v[2]:
            guards(x, out)
    elif k == 'alt':
        for g, x in v[1]:
            out.add(g)
            guards(x, out)
    elif k == 'i' and v[1] is not None:
        for x in v[1]:
            out.add(x)
    elif k == 'ref' and isinstance(v[1], tuple) and v[1][0] == 'cv':
        guards(v[1][1], out)


def has_window(v):
    if isinstance(v, Poly):
        return windowed(v)
    if isinstance(v, str):
        return v in WINDOW
    if not isinstance(v, tuple):
        return False
    if v and v[0] == 'b' and len(v) == 2 and isinstance(v[1], int):
        return gwin(v[1])
    if v and v[0] == 'i' and len(v) == 3:
        return v[1] is not None and any(gwin(x) for x in v[1]) or v[2] is not None and windowed(v[2])
    if v and v[0] == 'e' and len(v) == 3:
        return any(gwin(g) or has_window(f) for i, g, f in v[2])
    if v and v[0] == 'alt' and len(v) == 2:
        return any(gwin(g) or has_window(x) for g, x in v[1])
    return any(has_window(x) for x in v)


# ------------------------------------------------------------------ models of str and slice functions
def name_of(eng, st, v):
    """name of the string or level a value is, when it is one as a whole"""
    v = models.deref(eng, st, v)
    if v[0] != 'seq' or len(v[1]) != 1:
        return None
    s = v[1][0]
    if s[0] != 'sl' or not str(s[1]).startswith('lv.') or s[2].t or s[3] != psym(('len', s[1])):
        return None
    return s[1][3:]


def chars_of(eng, st, v):
    """the characters of a char, string or array pattern; None when something else"""
    v = models.deref(eng, st, v)
    if v[0] == 'i':
        k = ival(v)
        return None if k is None else [k]
    if v[0] == 'seq':
        c = models.constbytes(v[1])
        if c is None:
            out = []
            for s in v[1]:
                if s[0] != 'elem':
                    return None
                k = chars_of(eng, st, s[1])
                if k is None:
                    return None
                out += k
            return out
        if len(c) == 1:
            return [c[0]]
        return None
    if v[0] == 'agg' and (v[1] is None or eng.T[v[1]]['k'] not in ('closure', 'adt')):
        out = []
        for x in v[2]:
            k = chars_of(eng, st, x)
            if k is None:
                return None
            out += k
        return out
    return None


CLASSES = '+#$/'


def classes(eng, st, f, top):
    """what a predicate says about each special character and about all others: ({char: bool}, bool) or None"""
    out = {}
    for c in CLASSES:
        rs = eng.apply(st.copy(), f, [iconst(ord(c)) if top > 255 else ibits(T if (ord(c) >> i) & 1 else F for i in range(8))],
                       ('class', c), eng.where().fid)
        r = agree(eng, rs)
        if r is None:
            return None
        out[c] = r
    s = ('v', 'char.%d' % models.fresh('char'))
    BOUNDS[s] = (0, top)
    p = psym(s)
    pc = st.pc
    for c in CLASSES:
        pc = AND(pc, NOT(EQ(p, ord(c))))
    q = st.copy()
    q.pc = pc
    v = ipoly(p) if top > 255 else ibits(B.atom(('bit', p, i)) for i in range(8))
    if top == 255:
        for c in CLASSES:
            q.pc = AND(q.pc, NOT(ieq(v, iconst(ord(c)))))
    r = agree(eng, eng.apply(q, f, [v], ('class', 'other'), eng.where().fid))
    if r is None:
        return None
    return out, r


def agree(eng, rs):
    r = None
    for s, v in rs:
        v = eng.force1(v)
        if v[0] != 'b' or s.pc == F:
            return None
        b = True if IMPL(s.pc, v[1]) else False if AND(s.pc, v[1]) == F else None
        if b is None or r not in (None, b):
            return None
        r = b
    return r


def class_any(n, out, fn=None):
    """does the string have a character of the classes?"""
    r = F
    for c, y in out.items():
        if y:
            if c == '/':
                if n[0].isupper():
                    return None
                continue
            r = OR(r, (fn or has)(n, c))
    return r


def m_anyall(eng, st, args, x, want):
    """any / all over the characters or bytes of a level; None when it is something else"""
    it = models.deref(eng, st, args[0])
    if it[0] != 'iter':
        return None
    n = seg_name(it[1])
    if n is None:
        return None
    k = classes(eng, st, args[1], 0x10ffff if it[2] == 'char' else 255)
    if k is None:
        return None
    out, other = k
    if other == want:
        if all(v == want for v in out.values()):
            ne = GE(ln(n), 1)
            return [(st, ('b', ne if want else NOT(ne)))]
        return None
    r = class_any(n, {c: v == want for c, v in out.items()})
    if r is None:
        return None
    return [(st, ('b', r if want else NOT(r)))]


def pattern(eng, st, v, n, fn):
    """guard: the test fn (has / starts / ends) of level n for a char, array, string or closure pattern"""
    w = models.deref(eng, st, v)
    if w[0] == 'agg' and w[1] is not None and eng.T[w[1]]['k'] == 'closure' or w[0] == 'fn':
        k = classes(eng, st, v, 0x10ffff)
        if k is None or k[1]:
            return None
        return class_any(n, k[0], fn)
    cs = chars_of(eng, st, v)
    if cs is None or any(chr(c) not in CLASSES for c in cs):
        return None
    return class_any(n, {chr(c): True for c in cs}, fn)


def slash(eng, st, n, fn):
    """tests for '/' of a whole string, while the first level is in view"""
    G = eng.topics
    if not n[0].isupper() or n not in G.names or st.mem[('gh', 'moved')][1] != F:
        return None
    x = n.lower() + '0'
    if fn is has:
        return NOT(last(x))
    if fn is starts:
        return AND(NOT(last(x)), NOT(GE(ln(x), 1)))
    return None


def literal(n, kind, k):
    """comparison with a constant of several characters: nothing is known beyond first character and length"""
    g = B.atom(('lv', n, kind, k))
    t = k.decode('utf8', 'replace')
    if kind != 'suf':
        for c in CH:
            g = AND(g, starts(n, c) if t[0] == c else NOT(starts(n, c)))
    if kind != 'pre':
        for c in CH:
            g = AND(g, ends(n, c) if t[-1] == c else NOT(ends(n, c)))
    for c in CH:
        g = AND(g, has(n, c) if c in t else T if kind != 'is' else NOT(has(n, c)))
    return AND(g, GE(ln(n), len(k)), NOT(GE(ln(n), len(k) + 1)) if kind == 'is' else T)


def constof(eng, st, v):
    w = models.deref(eng, st, v)
    k = models.constbytes(w[1]) if w[0] == 'seq' else None
    return bytes(k) if k else None


def _test(fn):
    def f(eng, st, args, x):
        n = name_of(eng, st, args[0])
        r = pattern(eng, st, args[1], n, fn) if n is not None else None
        if r is None and n is not None:
            cs = chars_of(eng, st, args[1])
            if cs is not None and [chr(c) for c in cs] == ['/']:
                r = slash(eng, st, n, fn)
            else:
                k = constof(eng, st, args[1])
                if k and len(k) > 1 and b'/' not in k and fn is not has:
                    r = literal(n, 'pre' if fn is starts else 'suf', k)
        if r is None:
            return eng.unknown_call(st, x, args)
        return [(st, ('b', r))]
    return f


def m_find(eng, st, args, x):
    """position of the first (last) occurrence"""
    n = name_of(eng, st, args[0])
    if n is None:
        return eng.unknown_call(st, x, args)
    h = pattern(eng, st, args[1], n, has)
    rev = x['norm'][2] == 'rfind'
    at = pattern(eng, st, args[1], n, ends if rev else starts)
    if h is None or at is None:
        return eng.unknown_call(st, x, args)
    s = ('v', 'pos.%d' % models.fresh('pos'), n)
    BOUNDS[s] = (0, 2 ** 40)
    p = psym(s)
    edge = EQ(psub(psub(ln(n), p), P(1)), 0) if rev else EQ(p, 0)
    st = st.assume(AND(GE(psub(ln(n), p), 1), imp(at, edge), imp(NOT(at), NOT(edge))) if h != F else T)
    return [(st, models.opt(eng, x['sig_out'], h, ipoly(p)))]


def first_byte(n, other, w=8):
    """the byte (character) a string starts with, as the tests for the wildcards see it"""
    o = as_bits(other, w)
    amb = OR(*[ieq(other, iconst(k)) for k in CH.values()])
    out = []
    for i in range(w):
        # a free one outside the wildcards
        b = ITE(amb, T if 97 >> i & 1 else F, o[i])
        for c, k in CH.items():
            b = ITE(starts(n, c), T if k >> i & 1 else F, b)
        out.append(b)
    return ibits(out)


def m_chars_next(eng, st, args, x):
    """the first character of a string"""
    l = models.loc(eng, st, args[0])
    v = models.deref(eng, st, args[0])
    n = seg_name(v[1]) if v[0] == 'iter' and v[2] == 'char' else None
    if n is None or l is None:
        return None
    s = ('chr', n)
    BOUNDS[s] = (0, 0x10ffff)
    p = psym(s)
    c = first_byte(n, ibits(B.atom(('bit', p, i)) for i in range(21)), 21)
    m = ('v', 'rest.%d' % models.fresh('rest'), n)
    BOUNDS[m] = (0, 2 ** 40)
    g = GE(ln(n), 1)
    out = []
    if AND(st.pc, g) != F:
        q = st.assume(AND(g, GE(psub(ln(n), psym(m)), 1)))
        models.setloc(eng, q, l, ('iter', (('sl', m[1], P(0), psym(m)),), 'char'))
        out.append((q, models.opt(eng, x['sig_out'], T, c)))
    if AND(st.pc, NOT(g)) != F:
        out.append((st.assume(NOT(g)), models.opt(eng, x['sig_out'], F)))
    return out


def m_strip(eng, st, args, x):
    """strip_prefix / strip_suffix: what is left is known to be empty or not, nothing else"""
    return eng.unknown_call(st, x, args)


def peek(eng, st, v, x):
    """the next level without taking it"""
    _, X, off, excl, mode = v
    G = eng.topics
    xl = X.lower() + '0'
    end = G.end(st, X)
    stop = OR(end, last(xl)) if excl else end
    st = st.assume(G.level(st, X))
    if off == 0:
        return [(st, models.opt(eng, x['sig_out'], NOT(stop), ('ref', ('cv', item(xl, mode)), ())))]
    if off == 1 and not excl:
        return [(st, models.opt(eng, x['sig_out'], NOT(OR(stop, last(xl))), ('ref', ('cv', ('top', 'level ahead')), ())))]
    raise Imprecise('peek')


m_contains = _test(has)
m_starts_with = _test(starts)
m_ends_with = _test(ends)


def m_split(eng, st, args, x):
    n = name_of(eng, st, args[0])
    cs = chars_of(eng, st, args[1])
    G = getattr(eng, 'topics', None)
    if G is None or n not in G.names or cs != [47] or n == 'S':
        return eng.unknown_call(st, x, args)
    if st.mem[('gh', 'moved')][1] != F:
        raise Imprecise('a string is split again after its levels were read')
    return [(st, ('split', n, 0, False, 'val'))]


def item(X, mode):
    v = ('ref', ('cv', val(X)), ())
    return ('ref', ('cv', v), ()) if mode == 'ref' else v


def split_next(eng, st, r, p, v):
    _, X, off, excl, mode = v
    G = eng.topics
    x = X.lower() + '0'
    end = G.end(st, X)
    stop = OR(end, last(x)) if excl else end
    if off != 0:
        if IMPL(st.pc, stop):
            return [(st, None)]
        raise Imprecise('more than one level ahead')
    out = []
    s = st.assume(AND(NOT(stop), G.level(st, X)))
    if s.pc != F:
        eng.setp(s, r, p, ('split', X, 1, excl, mode))
        out.append((s, item(x, mode)))
    s = st.assume(AND(stop, G.level(st, X)))
    if s.pc != F:
        eng.setp(s, r, p, ('split', X, 1, excl, mode))
        out.append((s, None))
    return out


def split_collect(eng, st, it, x):
    if it[2] != 0 or st.mem[('gh', 'moved')][1] != F or eng.p.adthead(x['sig_out']) != 'Vec':
        return eng.unknown_call(st, x, [it])
    return [(st, ('lvec', it[1], False))]


def lvec(eng, st, v):
    v = models.deref(eng, st, v)
    return v if v[0] == 'lvec' else None


def m_split_last(eng, st, args, x):
    v = lvec(eng, st, args[0])
    if v is None or v[2] or v[1] != 'F' or eng.topics.fn != 'valid_filter':
        return eng.unknown_call(st, x, args)
    l = ('ref', ('cv', ('ref', ('cv', val('fL')), ())), ())
    rest = ('ref', ('cv', ('lvec', v[1], True)), ())
    return [(st, models.opt(eng, x['sig_out'], T, ('agg', None, (l, rest))))]


def m_pop(eng, st, args, x):
    v = lvec(eng, st, args[0])
    l = models.loc(eng, st, args[0])
    if v is None or v[2] or v[1] != 'F' or eng.topics.fn != 'valid_filter' or l is None:
        return None
    s = st.copy()
    models.setloc(eng, s, l, ('lvec', v[1], True))
    return [(s, models.opt(eng, x['sig_out'], T, ('ref', ('cv', val('fL')), ())))]


def m_last(eng, st, args, x):
    v = lvec(eng, st, args[0])
    if v is None or v[2] or v[1] != 'F' or eng.topics.fn != 'valid_filter':
        return eng.unknown_call(st, x, args)
    return [(st, models.opt(eng, x['sig_out'], T, ('ref', ('cv', ('ref', ('cv', val('fL')), ())), ())))]


def lvec_iter(eng, st, v, x, mode):
    if st.mem[('gh', 'moved')][1] != F:
        raise Imprecise('a list of levels is read again')
    return [(st, ('split', v[1], 0, v[2], mode))]


def eq(eng, a, b):
    """equality of strings, when one is a level; None when this module has nothing to say"""
    na, nb = seg_name(a), seg_name(b)
    ca, cb = [bytes(k) if k is not None else None for k in (models.constbytes(a), models.constbytes(b))]
    if na is None and nb is not None:
        na, nb, ca, cb = nb, na, cb, ca
    if na is None:
        return None
    if cb is not None:
        if cb == b'':
            return NOT(GE(ln(na), 1))
        if len(cb) == 1 and chr(cb[0]) in CH:
            return is_(na, chr(cb[0]))
        if b'/' not in cb and len(cb) > 1:
            return literal(na, 'is', cb)
        return None
    if nb == na:
        return T
    if nb is not None and {na, nb} == {'t0', 'f0'}:
        return eqv()
    return None


def seg_name(segs):
    if len(segs) != 1 or segs[0][0] != 'sl' or not str(segs[0][1]).startswith('lv.'):
        return None
    s = segs[0]
    if s[2].t or s[3] != psym(('len', s[1])):
        return None
    return s[1][3:]


# ------------------------------------------------------------------ the analyses
VOCAB = {'has_wildcards': {'S'}, 'valid_topic': {'S'}, 'valid_filter': {'f0', 'fL', 'F'}, 'matches': {'t0', 'f0', 'T'}}


def foreign(fn, g):
    """atoms the specification has no interpretation for"""
    out = []
    for v in B.support(g):
        k = B.atoms[v]
        if k[0] == 'lveq':
            continue
        if k[0] == 'lv' and k[2] not in ('pre', 'suf', 'is'):
            if k[1] in VOCAB[fn] and not (fn == 'valid_filter' and k[1] == 'F') and \
                    not (k[1] == 'T' and k[2:] != ('starts', '$')):
                continue
        if k[0] == 'ge' and position(k):
            continue
        if k[0] == 'ge' and all(s is None or s[0] == 'len' and s[1][3:] in VOCAB[fn] for s, _ in k[1].t):
            continue
        out.append(k)
    return out


def position(k):
    """the place of the first (last) match, compared in a way the tests of the ends settle"""
    ps = [s for s, _ in k[1].t if s is not None and s[0] == 'v' and str(s[1]).startswith('pos.')]
    if len(ps) != 1 or any(g != T for _, g in k[1].t):
        return False
    p = psym(ps[0])
    if k[1] == p:
        return k[2] == 1
    rest = padd(k[1], p)
    return rest == ln('S') and k[2] in (1, 2)


def settled(fn, bad):
    """bad without the atoms about the whole string it does not depend on"""
    X = {'matches': ('T', 'F'), 'valid_filter': ('F',)}.get(fn, ())
    lits = [v for v in B.support(bad) if B.atoms[v][0] == 'lv' and B.atoms[v][2] in ('pre', 'suf', 'is')]
    if len(lits) == 1:
        # a single comparison with a constant can go either way
        bad = OR(B.cof(bad, lits[0], True), B.cof(bad, lits[0], False))
    isw = lambda k: isinstance(k, tuple) and k[0] == 'lv' and k[1] in X and len(k) > 2
    p = B.exists(bad, isw)
    base = T
    for x in X:
        base = AND(base, content(x))
        for c in CH:
            base = AND(base, imp(NOT(has(x, c)), NOT(has(x.lower() + '0', c))))
    return p if IMPL(AND(p, base), bad) else bad


def plain_filter(bad):
    """the part of bad on filters of several levels whose wildcards are the ones of the level in view"""
    lv = {B.atoms[v][1] for v in B.support(bad) if B.atoms[v][0] == 'lv'} & {'f0', 'fL'}
    same = lambda a, b: ITE(a, b, NOT(b))
    for x in sorted(lv, reverse=True):
        S = AND(GE(ln('F'), 9), *[content(y) for y in ('F', *lv)])
        for c in CH:
            for y in lv - {x}:
                # the level in view is the last one
                S = AND(S, *[same(h(y, c), h(x, c)) for h in (has, starts, ends)])
            S = AND(S, same(has('F', c), has(x, c)), NOT(starts('F', c)))
            S = AND(S, same(ends('F', c), ends(x, c)) if x == 'fL' else NOT(ends('F', c)))
            if c == '$':
                S = AND(S, NOT(has(x, c)))
        for y in lv - {x}:
            S = AND(S, *[same(GE(ln(x), n), GE(ln(y), n)) for n in (1, 2, 3, 4)])
        q = AND(bad, S)
        if q != F and not codec.infeasible(q):
            return B.exists(q, lambda k: k[0] == 'nd' or k[0] == 'lv' and k[1] == 'F' or k[0] == 'ge' and k[1].t and
                            all(s is not None and s[0] == 'len' and s[1] == 'lv.F' for s, _ in k[1].t if s is not None))
    return F


def plainly(fn, bad):
    """the part of bad on strings whose wildcards are the ones of the level in view, and '$' nowhere or
    at the start of the topic and of the level in view

    Such strings exist for every content of that level, so what is left is not an artefact of tests on
    the whole strings.
    """
    if fn == 'valid_filter':
        return plain_filter(bad)
    if fn != 'matches':
        return F
    same = lambda a, b: ITE(a, b, NOT(b))
    S = AND(GE(ln('T'), 9), GE(ln('F'), 9), content('T'), content('F'), content('t0'), content('f0'))
    S = AND(S, OR(GE(ln('t0'), 1), NOT(last('t0'))), OR(GE(ln('f0'), 1), NOT(last('f0'))))
    for c in CH:
        for x in ('T', 't0') + (('F', 'f0') if c == '$' else ()):
            if c != '$' or x in ('F', 'f0'):
                S = AND(S, NOT(has(x, c)))
        if c != '$':
            S = AND(S, same(has('F', c), has('f0', c)), same(starts('F', c), starts('f0', c)),
                    same(ends('F', c), AND(last('f0'), ends('f0', c))))
    wsym = lambda s: s is not None and s[0] == 'len' and s[1] in ('lv.T', 'lv.F')
    drop = lambda k: k[0] == 'nd' or k[0] == 'lv' and k[1] in ('T', 'F') or \
        k[0] == 'ge' and all(wsym(s) for s, _ in k[1].t if s is not None) and k[1].t
    for dollar in (False, True):
        q = AND(bad, S)
        for x in ('T', 't0'):
            q = AND(q, NOT(ends(x, '$')), *[h(x, '$') if dollar else NOT(h(x, '$')) for h in (has, starts)])
        if q != F and not codec.infeasible(q):
            return B.exists(q, drop)
    return F


@guarded
def topic(r, fn, part):
    p = prog()
    name = 'mqttbytes::topic::' + fn
    if name not in p.byname:
        name = next(x['name'] for x in p.insts if x['local'] and x['name'].split('::')[-1] == fn and 'body' in x)
    dom.reset()
    e = Engine(p)
    e.deadline = time.time() + LIMIT
    G = e.topics = Ghost(fn, part)
    st = State()
    G.first(st)
    dollar = starts('T', '$')
    if fn == 'matches':
        st.pc = AND(st.pc, dollar if part == 'dollar' else NOT(dollar))
    args = []
    for x in G.names:
        st.mem[('str', x)] = val(x)
        args.append(('ref', ('str', x), ()))
    rs = e.call_inst(st, p.byname[name], args, 'entry', 0)
    n = 0
    for s, v in rs:
        v = e.force1(v)
        n += 1
        yes, no = G.verdict(s)
        pc = s.pc
        if fn == 'matches':
            # what is not read yet obeys the preconditions too
            pc = AND(pc, G.level(s, 'T'), G.level(s, 'F'))
            if part == 'dollar':
                bad = AND(pc, v[1], OR(G.gh(s, 'dead'), G.dollar(s)))
                judge(r, 'topic-dollar', fn, bad, 'matches a topic beginning with $ with a filter beginning with a wildcard', name)
                continue
        if fn == 'valid_filter':
            pc = AND(pc, G.level(s, 'F'))
        tag = {'matches': 'topic-match', 'valid_filter': 'topic-filter'}.get(fn, 'topic-wild')
        judge(r, tag, fn + '|true', AND(pc, v[1], NOT(yes)), 'returns true where MQTT says false', name)
        judge(r, tag, fn + '|false', AND(pc, NOT(v[1]), NOT(no)), 'returns false where MQTT says true', name)
    r.engine(e, 'topic-panic')
    r.pure(e, 'pure')
    r.add('topic-panic', n > 0, fn + '|no result', 'no result', name)
    if G.stuck:
        r.add('topic-panic', False, fn + '|loop', 'a loop that does not advance', name)


def judge(r, tag, key, bad, what, fn):
    if bad == F or codec.infeasible(bad):
        r.add(tag, True, key, '', fn)
        return
    bad = settled(fn.split('::')[-1], bad)
    f = foreign(fn.split('::')[-1], bad)
    if f:
        q = plainly(fn.split('::')[-1], bad)
        if q != F and not foreign(fn.split('::')[-1], q):
            f, bad = (), q
    if f:
        r.undecided.append('%s: conditions outside the specification: %s' % (key, ', '.join(showatom(k) for k in f)[:200]))
        return
    r.add(tag, False, key, what + ': ' + show(bad, 12), fn)


def jobs_topics():
    out = []
    for fn in ('has_wildcards', 'valid_topic', 'valid_filter', 'matches'):
        for part in (('plain', 'dollar') if fn == 'matches' else ('all',)):
            nm = 'topic::%s %s' % (fn, part)
            out.append((nm, topic, (nm, fn, part)))
    return out
