"""Closing loops: head splitting, generic elements of collections, unrolling, havoc with relations."""
from dom import *
import dom
from eng import (Fork, NeedEach, NeedSplit, Imprecise, Budget, Diverge, State, LoopLog, top)
import models


# ------------------------------------------------------------------ helpers
def seqlike(v):
    return v[0] in ('seq', 'iter')


def walkseqs(eng, v, path=()):
    """(path, value) of every seq/iter inside a value"""
    if seqlike(v):
        yield path, v
    elif v[0] == 'agg':
        fs = None
        if v[1] is not None:
            t = eng.T[v[1]]
            if t['k'] == 'adt' and 'variants' in t:
                fs = [f['ty'] for f in t['variants'][0]['fields']]
        for i, f in enumerate(v[2]):
            yield from walkseqs(eng, f, path + (('f', i, fs[i] if fs and i < len(fs) else None),))


def head_alts(eng, s, relevant):
    out = {}
    for r, v in s.mem.items():
        if not relevant(r):
            continue
        for p, q in walkseqs(eng, v):
            if q[1] and q[1][0][0] == 'alt':
                g = q[1][0][1]
                if not IMPL(s.pc, g) and AND(s.pc, g) != F:
                    out[g] = (r, p)
    return out


def weight(segs):
    n = 0
    for s in segs:
        if s[0] == 'alt':
            n += weight(s[2])
        elif s[0] == 'be':
            n += s[2]
        else:
            n += 1
    return n


def shrinks(eng, s, b, relevant):
    """some sequence is read and has fewer segments than at the head"""
    for r, v in s.mem.items():
        w = b.mem.get(r)
        if w is None or w is v or not relevant(r):
            continue
        ws = dict(walkseqs(eng, w))
        for p, q in walkseqs(eng, v):
            x = ws.get(p)
            if x is None or x[1] == q[1]:
                continue
            rest = tuple(y for y in x[1] if not (y[0] == 'sl' and pzero(y[3], b.pc)))
            if weight(rest) < weight(q[1]) and (not rest or rest[-1] == q[1][-1]):
                return True
    return False


def splits_shrink(s, b, relevant):
    for r, v in s.mem.items():
        w = b.mem.get(r)
        if w is not None and w is not v and relevant(r) and v[0] == 'split' and w[0] == 'split':
            if v[1] == w[1]:
                return True
    return False


def const_counter(eng, s, b, relevant):
    for r, v in s.mem.items():
        w = b.mem.get(r)
        if w is None or not relevant(r):
            continue
        if counts(v, w):
            return True
    return False


def counts(v, w):
    if v is w:
        return False
    if v[0] == 'i' and w[0] == 'i':
        x, y = ival(v), ival(w)
        return x is not None and y is not None and x != y
    if v[0] == 'agg' and w[0] == 'agg' and len(v[2]) == len(w[2]):
        return any(counts(a, b) for a, b in zip(v[2], w[2]))
    return False


def simp_state(eng, s):
    return State(s.pc, {r: eng.simpv(v, s.pc) if v[0] != 'opq' and not (r[0] == 'arg' and v[0] == 'seq') else v for r, v in s.mem.items()}, s.tag)


def joinall(eng, l, key):
    j = None
    for b in l:
        if b.pc == F:
            continue
        j = eng.join(j, b, ('loop', key)) if j is not None else b
    if j is not None and len(l) > 1:
        j = simp_state(eng, j)
    return j


def tidy(eng, outs):
    """exits of a loop over an abstract stream: what must be empty is dropped"""
    r = []
    for t, o, v in outs:
        if any(q[0] == 'seq' and any(x[0] in ('alt', 'each') for x in q[1]) for k, w in o.mem.items()
               if k[0] not in ('arg', 'st') for _, q in walkseqs(eng, w)):
            pc = saturate(o.pc)
            if pc == F:
                continue
            o = simp_state(eng, State(pc, o.mem, o.tag))
            if v is not None:
                v = eng.simpv(v, pc)
        r.append((t, o, v))
    return r


# ------------------------------------------------------------------ driver
def run(eng, key, st, body, relevant, name, tyof):
    outs = []
    work = [st]
    n = 0
    saved = None
    tries = 0

    def step(s, depth=0):
        """-> (next head states, outs, structural?)"""
        if depth > 60:
            raise Budget('loop splitting in ' + name)
        m = eng.mark()
        alts = head_alts(eng, s, relevant)
        eng.loop_alts.append(alts)
        try:
            b, o = body(s)
            return b, o, False
        except NeedSplit as x:
            if x.guard not in alts:
                raise
            eng.rollback(m)
            g = x.guard
        except NeedEach as x:
            eng.rollback(m)
            r = accelerate(eng, key, s, body, relevant, name, tyof, x.loc)
            if r is None:
                raise
            return r[0], r[1], True
        finally:
            eng.loop_alts.pop()
        s1, s0 = simp_state(eng, s.assume(g)), simp_state(eng, s.assume(NOT(g)))
        b, o, _ = step(s1, depth + 1)
        j = joinall(eng, list(b) + [s0], (key, 'split'))
        return [j], o, True

    while work:
        s = work.pop()
        n += 1
        if n > 200:
            raise Budget('loop in %s does not close' % name)
        m = eng.mark()
        backs, o, structural = step(s)
        backs = [b for b in backs if b.pc != F]
        o = tidy(eng, o)
        if len(backs) == 1 and not structural:
            backs = [simp_state(eng, backs[0])]
        if not backs:
            outs += o
            continue
        if structural or not o or all(shrinks(eng, s, b, relevant) for b in backs):
            outs += o
            work += backs
            continue
        if len(backs) == 1 and const_counter(eng, s, backs[0], relevant) and not work and tries < 6:
            if saved is None:
                saved = (s, len(outs), m)
            tries += 1
            outs += o
            work += backs
            continue
        if saved is not None and tries >= 6:
            s, k, m = saved
            del outs[k:]
            saved = None
        eng.rollback(m)
        outs += havoc(eng, key, s, body, relevant, name, tyof)
    return outs


# ------------------------------------------------------------------ value differences
def diff(eng, a, b, pc, path=()):
    """leaves where the two values differ: (path, a, b)"""
    if a is b or a == b:
        return []
    if a[0] == 'opq' or b[0] == 'opq':
        a, b = eng.force1(a), eng.force1(b)
        if a == b:
            return []
    if a[0] == 'i' and b[0] == 'i':
        return [] if isame(a, b, pc) else [(path, a, b)]
    if a[0] == 'b' and b[0] == 'b':
        return [] if AND(pc, ITE(a[1], NOT(b[1]), b[1])) == F else [(path, a, b)]
    if a[0] == 'agg' and b[0] == 'agg' and len(a[2]) == len(b[2]):
        fs = None
        ty = a[1] if a[1] is not None else b[1]
        if ty is not None:
            t = eng.T[ty]
            if t['k'] == 'adt' and 'variants' in t:
                fs = [f['ty'] for f in t['variants'][0]['fields']]
            elif t['k'] == 'tuple':
                fs = t['fields']
        out = []
        for i, (x, y) in enumerate(zip(a[2], b[2])):
            out += diff(eng, x, y, pc, path + (('f', i, fs[i] if fs and i < len(fs) else None),))
        return out
    if seqlike(a) and a[0] == b[0]:
        if segs_same(eng, a[1], b[1], pc):
            return []
    return [(path, a, b)]


def segs_same(eng, a, b, pc):
    a, b = list(a), list(b)
    if len(a) != len(b):
        a, b = list(eng.simpsegs(a, pc)), list(eng.simpsegs(b, pc))
        if len(a) != len(b):
            return False
    for x, y in zip(a, b):
        if x == y:
            continue
        if x[0] != y[0]:
            return False
        k = x[0]
        if k == 'sl':
            if x[1] != y[1] or not pzero(psub(x[2], y[2]), pc) or not pzero(psub(x[3], y[3]), pc):
                return False
        elif k == 'b':
            if not isame(x[1], y[1], pc):
                return False
        elif k == 'be':
            if x[2] != y[2] or not pzero(psub(x[1], y[1]), pc):
                return False
        elif k == 'elem':
            if diff(eng, x[1], y[1], pc):
                return False
        elif k == 'alt':
            if AND(pc, ITE(x[1], NOT(y[1]), y[1])) != F or not segs_same(eng, x[2], y[2], AND(pc, x[1])):
                return False
        elif k in ('each', 'map'):
            if x[1] != y[1]:
                return False
            if k == 'each' and not segs_same(eng, x[2], y[2], pc):
                return False
            if k == 'map' and diff(eng, x[2], y[2], pc):
                return False
    return True


def state_diff(eng, s, b, relevant):
    out = []
    for r, v in s.mem.items():
        if not relevant(r):
            continue
        w = b.mem.get(r)
        if w is None or w is v:
            continue
        for p, x, y in diff(eng, v, w, b.pc):
            out.append((r, p, x, y))
    return out


def getv(eng, s, r, p):
    return eng.walk(s, s.mem[r], p)


# ------------------------------------------------------------------ generic elements
def first_ctx(C, path):
    def f(p):
        t = P(0)
        ch = False
        for (s, g), c in p.t.items():
            if s is not None and s[0] == 'N' and s[1] == C:
                q = padd(P(1), psym(('N', ('suf', path))))
            elif s is not None and s[0] == 'SUM' and s[1] == C:
                q = padd(models.body_of_sum(s), psym(('SUM', ('suf', path)) + s[2:]))
            else:
                t = padd(t, Poly({(s, g): c}))
                continue
            ch = True
            t = padd(t, pscale(pgate(q, g), c))
        return pnorm(t) if ch else p
    return f


def mid_ctx(C, path):
    def f(p):
        t = P(0)
        ch = False
        for (s, g), c in p.t.items():
            if s is not None and s[0] == 'N' and s[1] == C:
                q = padd(padd(P(1), psym(('N', ('suf', path)))), psym(('N', ('pre', path))))
            elif s is not None and s[0] == 'SUM' and s[1] == C:
                q = padd(padd(models.body_of_sum(s), psym(('SUM', ('suf', path)) + s[2:])),
                         psym(('SUM', ('pre', path)) + s[2:]))
            else:
                t = padd(t, Poly({(s, g): c}))
                continue
            ch = True
            t = padd(t, pscale(pgate(q, g), c))
        return pnorm(t) if ch else p
    return f


def accelerate(eng, key, s, body, relevant, name, tyof, loc):
    """the loop consumes collection C element by element: induction over its elements"""
    if loc is None:
        return None
    r, p = loc[1], loc[2]
    if r not in s.mem:
        return None
    v = getv(eng, s, r, p)
    if not seqlike(v):
        return None
    segs = models.head_soft(eng, s, v[1])
    if not segs or segs[0][0] not in ('each', 'map') or not isinstance(segs[0][1], str):
        return None
    hd, rest = segs[0], segs[1:]
    C = hd[1]
    esegs = hd[2] if hd[0] == 'each' else (('elem', hd[2]),)
    suf = (hd[0], ('suf', C), hd[2])

    def with_stream(st, sg):
        st = st.copy()
        eng.setp(st, r, p, (v[0], tuple(sg)) + v[2:])
        return st

    N1 = GE(psym(('N', C)), 1)

    def attempt(ctx, st):
        m = eng.mark()
        REWRITE.append(ctx)
        eng.loop_alts.append({})
        try:
            b, o = body(st)
        finally:
            REWRITE.pop()
            eng.loop_alts.pop()
        return b, o, m

    s1 = with_stream(s, esegs + (suf,) + rest)
    s1.pc = AND(s.pc, N1)
    if s1.pc == F:
        return [with_stream(s, rest)], []
    b, o, m = attempt(first_ctx(C, C), s1)
    if not b:
        e = s.assume(NOT(N1))
        return ([with_stream(e, rest)] if e.pc != F else []), o
    eng.rollback(m)
    REWRITE.append(first_ctx(C, C))
    b1 = joinall(eng, b, (key, 'each'))
    REWRITE.pop()

    def deltas(st, bk, ctx):
        """location -> ('int', d) | ('app', segs) | ('other',)"""
        out = {}
        REWRITE.append(ctx)
        try:
            for rr, pp, x, y in state_diff(eng, st, bk, relevant):
                if (rr, pp) == (r, p):
                    sg = y[1] if seqlike(y) else None
                    if sg is None or not segs_same(eng, sg, (suf,) + rest, bk.pc):
                        out[(rr, pp)] = ('stream?', y)
                    continue
                if x[0] == 'i' and y[0] == 'i':
                    d = psimp(psub(as_poly(y), as_poly(x)), bk.pc)
                    out[(rr, pp)] = ('int', pnorm(d))
                elif x[0] == 'seq' and y[0] == 'seq' and (y[1][:len(x[1])] == x[1] or segs_same(
                        eng, x[1], y[1][:len(x[1])], bk.pc)):
                    out[(rr, pp)] = ('app', y[1][len(x[1]):])
                elif x[0] == 'seq' and y[0] == 'seq' and x[1] and len(y[1]) > len(x[1]) and \
                        segs_same(eng, x[1], y[1][len(y[1]) - len(x[1]):], bk.pc):
                    out[(rr, pp)] = ('front', y[1][:len(y[1]) - len(x[1])])
                else:
                    out[(rr, pp)] = ('other',)
        finally:
            REWRITE.pop()
        return out

    D = deltas(s1, b1, first_ctx(C, C))
    if any(k[0] == 'stream?' for k in D.values()):
        return None
    for rnd in range(5):
        ctx = mid_ctx(C, C)
        h = with_stream(s, esegs + (suf,) + rest)
        h.pc = AND(s.pc, N1)
        for (rr, pp), k in D.items():
            cur = getv(eng, s, rr, pp)
            if k[0] == 'int':
                pre = models.coll_sum(('pre', C), k[1])
                eng.setp(h, rr, pp, ipoly(padd(as_poly(cur), pre)))
            elif k[0] in ('app', 'front'):
                eng.setp(h, rr, pp, ('seq', cur[1] + closed(('pre', C), k[1])))
            else:
                eng.setp(h, rr, pp, blur(eng, cur, ('each', key, rr, pp), tyof(rr) if not pp else pp[-1][2]))
        b, o, m = attempt(ctx, h)
        if not b:
            e = s.assume(NOT(N1))
            return ([with_stream(e, rest)] if e.pc != F else []), o
        REWRITE.append(ctx)
        b2 = joinall(eng, b, (key, 'each'))
        REWRITE.pop()
        D2 = deltas(h, b2, ctx)
        if any(k[0] == 'stream?' for k in D2.values()):
            return None
        ok = True
        for l in set(D) | set(D2):
            a, c = D.get(l), D2.get(l)
            if a is not None and a[0] == 'other':
                continue
            if a is None or c is None:
                if a is None:
                    D[l] = c
                    ok = False
                    continue
                if a[0] == 'int' and pzero(a[1], b2.pc) or a[0] == 'app' and not a[1]:
                    continue
                D[l] = ('other',)
                ok = False
                continue
            same = a[0] == c[0]
            if same and a[0] == 'int':
                REWRITE.append(ctx)
                same = pzero(psub(a[1], c[1]), b2.pc)
                REWRITE.pop()
            elif same and a[0] in ('app', 'front'):
                same = segs_same(eng, a[1], c[1], b2.pc)
            if not same:
                D[l] = c if rnd < 2 else ('other',)
                ok = False
        if ok:
            break
        eng.rollback(m)
    else:
        return None
    fin = with_stream(s, rest)
    for (rr, pp), k in D.items():
        cur = getv(eng, s, rr, pp)
        if k[0] == 'int':
            eng.setp(fin, rr, pp, ipoly(pnorm(padd(as_poly(cur), models.coll_sum(C, k[1])))))
        elif k[0] == 'app':
            eng.setp(fin, rr, pp, ('seq', cur[1] + closed(C, k[1])))
        elif k[0] == 'front':
            # the elements are in the opposite order
            one = closed(C, k[1])
            n = psym(('N', C))
            if cur[1] or pzero(psub(models.seqlen(eng, one), n), fin.pc) is False:
                eng.setp(fin, rr, pp, blur(eng, cur, ('each', key, rr, pp), tyof(rr) if not pp else pp[-1][2]))
            else:
                g = AND(GE(n, 2), models.free('order', key, C))
                eng.setp(fin, rr, pp, ('seq', (('alt', g, (('sl', 'opposite.%s' % C, P(0), n),)), ('alt', NOT(g), one))))
        else:
            eng.setp(fin, rr, pp, blur(eng, cur, ('each', key, rr, pp), tyof(rr) if not pp else pp[-1][2]))
    eng.loops.append(LoopLog(kind='each', name=name, coll=C, key=key, deltas=D, outs=len(o), progress=True,
                             line=eng.where().line if eng.where() else 0))
    return [fin], o


def closed(C, segs):
    if not segs:
        return ()
    if len(segs) == 1 and segs[0][0] == 'elem':
        return (('map', C, segs[0][1]),)
    if any(s[0] == 'elem' for s in segs):
        return (('map', ('rep', C), top('several elements')),)
    return (('each', C, tuple(segs)),)


def blur(eng, v, tag, ty):
    """an arbitrary value of the same type"""
    k = fresh('blur')
    n = 'phi.%d' % k
    WIDE.append('value changed by a loop')
    if v[0] == 'i':
        w = len(v[1]) if v[1] is not None else None
        if ty is not None and eng.T[ty]['k'] == 'int':
            return eng.expand(n, ty)
        s = ('v', n)
        BOUNDS[s] = (0, (1 << (w or 64)) - 1)
        if w is not None and w <= 8:
            return ibits(B.atom(('bit', psym(s), i)) for i in range(w))
        return ipoly(psym(s))
    if v[0] == 'b':
        return ('b', B.atom(('v', n)))
    if v[0] == 'e':
        return ('opq', n, v[1])
    if v[0] == 'opq':
        return ('opq', n, v[2])
    if ty is not None and v[0] in ('seq', 'agg', 'alt', 'top'):
        return ('opq', n, ty)
    if v[0] == 'seq' and all(s[0] in ('sl', 'b', 'be', 'alt', 'each') for s in v[1]):
        return eng.opqbytes(n)
    if v[0] == 'seq':
        return ('seq', (('map', n, top('element')),))
    return top('blur')


# ------------------------------------------------------------------ havoc with relations
def havoc(eng, key, s, body, relevant, name, tyof, peeled=False):
    lid = fresh('loopid')
    WIDE.append(name)
    m0 = eng.mark()
    eng.loop_alts.append({})
    try:
        backs, o = body(s)
        if not peeled and backs and all(grows(eng, s, b, relevant) for b in backs):
            # the first iteration is kept apart, so that "at least one element" is not lost
            j = joinall(eng, backs, (key, 'peel'))
            return list(o) + havoc(eng, key, j, body, relevant, name, tyof, True)
        eng.rollback(m0)
        return havoc2(eng, key, s, body, relevant, name, tyof, backs, lid)
    finally:
        eng.loop_alts.pop()


def grows(eng, s, b, relevant):
    for r, v in s.mem.items():
        w = b.mem.get(r)
        if w is not None and relevant(r) and v[0] == 'seq' and w[0] == 'seq' and len(w[1]) > len(v[1]) and \
                w[1][:len(v[1])] == v[1] and not any(x[0] == 'alt' for x in w[1][len(v[1]):]):
            return True
    return False


def havoc2(eng, key, s, body, relevant, name, tyof, backs, lid):
    leaves = {}       # (root, path) -> dict
    no_rel = set()

    def leafty(r, p):
        return tyof(r) if not p else p[-1][2]

    def add(r, p, x, y):
        # a generalised ancestor already covers it
        for k in range(len(p) + 1):
            if (r, p[:k]) in leaves:
                return False
        x0 = getv(eng, s, r, p)
        x0 = eng.force1(x0)
        L = {'x0': x0, 'id': 'phi%d.%d' % (lid, len(leaves)), 'rel': None}
        ty = leafty(r, p)
        if x0[0] == 'i' and y[0] == 'i':
            L['kind'] = 'int'
            if ty is not None and eng.T[ty]['k'] == 'int':
                v = eng.expand(L['id'], ty)
            else:
                w = len(x0[1]) if x0[1] is not None else 64
                sy = ('v', L['id'])
                BOUNDS[sy] = (0, (1 << w) - 1)
                v = ibits(B.atom(('bit', psym(sy), i)) for i in range(w)) if w <= 8 else ipoly(psym(sy))
            L['phi'] = v
        elif seqlike(x0) and seqlike(y) and stream_of(x0, y, T):
            sl = x0[1][0]
            sy = ('v', L['id'] + '.rest')
            BOUNDS[sy] = (0, BIG)
            L.update(kind='stream', sym=psym(sy), base=sl[1], end=padd(sl[2], sl[3]), L0=sl[3])
            L['phi'] = (x0[0], (('sl', sl[1], psub(L['end'], L['sym']), L['sym']),)) + x0[2:]
        elif x0[0] == 'seq' and y[0] == 'seq' and appended(x0[1], y[1]):
            L['kind'] = 'app'
            t = eng.force1(('opq', L['id'], ty)) if ty is not None else None
            if t is not None and t[0] == 'seq':
                tail = t[1]
            elif all(q[0] in ('sl', 'b', 'be', 'each', 'alt') for q in y[1]):
                tail = eng.opqbytes(L['id'])[1]
            else:
                tail = (('map', L['id'], top('element')),)
            L['phi'] = ('seq', x0[1] + tail)
        elif x0[0] == 'split' and y[0] == 'split' and x0[1] == y[1]:
            import topics
            L['kind'] = 'split'
            L['phi'] = topics.split_phi(eng, x0, L['id'])
        else:
            L['kind'] = 'any'
            L['phi'] = blur(eng, x0, None, ty)
        leaves[(r, p)] = L
        return True

    def demote(k):
        L = leaves[k]
        r, p = k
        L['kind'] = 'any'
        L['rel'] = None
        L['phi'] = blur(eng, L['x0'], None, leafty(r, p))

    for b in backs:
        for r, p, x, y in state_diff(eng, s, b, relevant):
            add(r, p, x, y)

    for rnd in range(24):
        h = s.copy()
        pc = s.pc
        for (r, p), L in leaves.items():
            if L['kind'] == 'stream':
                pc = AND(pc, GE(psub(L['L0'], L['sym']), 0))
        vals = {}
        for k, L in leaves.items():
            v = L['phi']
            if L['rel'] is not None:
                v = rel_value(leaves, L, lambda q: q['sym'] if q['kind'] == 'stream' else as_poly(q['phi']))
            vals[k] = v
            eng.setp(h, k[0], k[1], v)
        h.pc = pc
        m = eng.mark()
        backs, outs = body(h)
        again = False
        for b in backs:
            for r, p, x, y in state_diff(eng, h, b, relevant):
                if add(r, p, x, y):
                    again = True
        if again:
            eng.rollback(m)
            continue
        # shapes and relations are preserved
        for k, L in list(leaves.items()):
            for b in backs:
                y = eng.force1(getv(eng, b, *k)) if k[0] in b.mem else top('gone')
                if L['kind'] == 'stream':
                    if not (seqlike(y) and stream_back(L, y, b.pc)):
                        demote(k)
                        again = True
                        break
                elif L['kind'] == 'app':
                    if not (y[0] == 'seq' and appended(L['x0'][1], y[1])):
                        demote(k)
                        again = True
                        break
                elif L['kind'] == 'int':
                    if y[0] != 'i':
                        demote(k)
                        again = True
                        break
        if again:
            eng.rollback(m)
            continue
        for k, L in leaves.items():
            if L['rel'] is None:
                continue
            for b in backs:
                y = getv(eng, b, *k)
                want = rel_value(leaves, L, lambda q: backlen(eng, b, leaves, q))
                if not isame(y, want, b.pc):
                    no_rel.add((k, L['rel'][:2]))
                    L['rel'] = None
                    again = True
                    break
        if again:
            eng.rollback(m)
            continue
        # discover relations
        ints = [k for k, L in leaves.items() if L['kind'] == 'int' and L['rel'] is None]
        strs = [k for k, L in leaves.items() if L['kind'] == 'stream']
        for k in ints:
            for q in strs:
                for sg in (1, -1):
                    if (k, (sg, q)) in no_rel or leaves[k]['rel'] is not None:
                        continue
                    if backs and all(pzero(psub(delta(eng, b, k, vals), pscale(sdelta(eng, b, q, leaves), -sg)),
                                           b.pc) for b in backs):
                        leaves[k]['rel'] = (sg, q)
                        again = True
        if not again:
            for i, k in enumerate(ints):
                if leaves[k]['rel'] is not None:
                    continue
                for q in ints[i + 1:]:
                    if leaves[q]['rel'] is not None or (q, (0, k)) in no_rel:
                        continue
                    if backs and all(pzero(psub(delta(eng, b, q, vals), delta(eng, b, k, vals)), b.pc)
                                     for b in backs):
                        leaves[q]['rel'] = (0, k)
                        again = True
        if again:
            eng.rollback(m)
            continue
        break
    else:
        raise Budget('no loop invariant in ' + name)
    prog = []
    for b in backs:
        ok = False
        for q in [k for k, L in leaves.items() if L['kind'] == 'stream']:
            d = sdelta(eng, b, q, leaves)
            if prove_ge(pscale(d, -1), 1, b.pc):
                ok = True
        for q in [k for k, L in leaves.items() if L['kind'] == 'split']:
            ok = True
        if not ok:
            # an integer that strictly moves towards a bound tested on every iteration
            for q in [k for k, L in leaves.items() if L['kind'] == 'int']:
                d = delta(eng, b, q, vals)
                if prove_ge(d, 1, b.pc) or prove_ge(pscale(d, -1), 1, b.pc):
                    x = as_poly(vals[q])
                    for f, lo in facts(b.pc):
                        # f >= lo  bounds x from the moving side, other symbols being invariant
                        c = {sy: co for (sy, g), co in f.t.items()}
                        for (sy, g), co in x.t.items():
                            if sy in c and (c[sy] < 0) == prove_ge(d, 1, b.pc):
                                ok = True
        prog.append(ok)
    fr = eng.where()
    eng.loops.append(LoopLog(kind='havoc', name=name, key=key, entry=s, head=h, backs=backs, outs=outs, leaves=leaves,
                             vals=vals, progress=all(prog), lid=lid, frame=fr,
                             names=fr.body.names if fr is not None and fr.body is not None else {},
                             line=fr.line if fr else 0, fid=key[0] if key and key[0] != 'vl' else None))
    return outs


def rel_value(leaves, L, cur):
    sg, q = L['rel']
    Q = leaves[q]
    x0 = as_poly(L['x0'])
    if sg == 0:
        return ipoly(padd(x0, psub(cur(Q), as_poly(Q['x0']))))
    # x = x0 + sg*(L0 - L)
    return ipoly(pnorm(padd(x0, pscale(psub(Q['L0'], cur(Q)), sg))))


def backlen(eng, b, leaves, Q):
    for k, L in leaves.items():
        if L is Q:
            y = getv(eng, b, *k)
            if L['kind'] == 'stream':
                return models.seqlen(eng, y[1])
            return as_poly(eng.force1(y))
    raise Imprecise('leaf')


def delta(eng, b, k, vals):
    y = eng.force1(getv(eng, b, *k))
    if y[0] != 'i':
        return psym(('v', 'nodelta%d' % fresh('nodelta')))
    return pnorm(psimp(psub(as_poly(y), as_poly(vals[k])), b.pc))


def sdelta(eng, b, q, leaves):
    y = getv(eng, b, *q)
    return pnorm(psimp(psub(models.seqlen(eng, y[1]), leaves[q]['sym']), b.pc))


def stream_of(x, y, pc):
    """x and y are single slices of the same base with the same end"""
    a, b = x[1], y[1]
    if len(a) != 1 or a[0][0] != 'sl':
        return False
    if not b:
        return True
    if len(b) != 1 or b[0][0] != 'sl' or b[0][1] != a[0][1]:
        return False
    return pzero(psub(padd(a[0][2], a[0][3]), padd(b[0][2], b[0][3])), pc)


def stream_back(L, y, pc):
    b = y[1]
    if not b:
        return True
    return len(b) == 1 and b[0][0] == 'sl' and b[0][1] == L['base'] and \
        pzero(psub(L['end'], padd(b[0][2], b[0][3])), pc)


def appended(a, b):
    return len(b) >= len(a) and b[:len(a)] == a
