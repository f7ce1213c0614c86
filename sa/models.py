"""Summaries of library functions (bytes, alloc, core) over the abstract values of eng.py.

Every function has the form  f(eng, st, args, inst) -> [(state, return value)].
"""
from dom import *
import dom
from eng import Fork, NeedEach, Imprecise, Diverge, UTF8, UNIT, top

TABLE = {}


def reg(*keys):
    def d(f):
        for k in keys:
            TABLE[k] = f
        return f
    return d


# ------------------------------------------------------------------ references to sequences
def deref(eng, st, v):
    """follow references to the value"""
    v = eng.force(st, v)
    n = 0
    while v[0] == 'ref':
        v = eng.force(st, eng.getp(st, v[1], v[2]))
        n += 1
        if n > 8:
            raise Imprecise('reference chain')
    return v


def loc(eng, st, v):
    """innermost location a (reference to a) reference denotes"""
    v = eng.force(st, v)
    if v[0] != 'ref':
        return None
    while True:
        w = eng.getp(st, v[1], v[2])
        if w[0] == 'opq':
            w = eng.force1(w)
        if w[0] == 'alt':
            w = eng.force(st, w)
        if w[0] != 'ref':
            return v
        v = w


def seqof(eng, st, v):
    v = deref(eng, st, v)
    if v[0] == 'seq':
        return v[1]
    return None


def setloc(eng, st, l, val):
    eng.setp(st, l[1], l[2], val)


# ------------------------------------------------------------------ sequence primitives
def seglen(eng, s):
    k = s[0]
    if k == 'sl':
        return s[3]
    if k == 'b' or k == 'elem':
        return P(1)
    if k == 'be':
        return P(s[2])
    if k == 'alt':
        return pgate(seqlen(eng, s[2]), s[1])
    if k == 'map':
        return psym(('N', s[1]))
    if k == 'each':
        return coll_sum(s[1], seqlen(eng, s[2]))
    raise Imprecise('seglen ' + k)


def seqlen(eng, segs):
    t = P(0)
    for s in segs:
        t = padd(t, seglen(eng, s))
    return pnorm(t) if len(t.t) > 1 else t


def collname(c):
    return c[1] if isinstance(c, tuple) else c


_mm = {}


def mentions(x, path):
    """does the symbol / guard / value refer to the generic element of collection `path`?"""
    return _ment(x, path + '[*]', True)


def _ment(x, sub, guard):
    if isinstance(x, str):
        return sub in x
    if isinstance(x, int):
        if not guard or x <= 1:
            return False
        k = (id(B.var), x, sub)
        r = _mm.get(k)
        if r is None:
            r = _mm[k] = any(_ment(B.atoms[v], sub, False) for v in B.support(x))
        return r
    if isinstance(x, Poly):
        k = (id(B.var), x, sub)
        r = _mm.get(k)
        if r is None:
            r = _mm[k] = any(s is not None and _ment(s, sub, False) or _ment(g, sub, True) for (s, g) in x.t)
        return r
    if isinstance(x, tuple):
        if x and x[0] == 'SUM':
            return _ment(x[1], sub, False) or _ment(x[2], sub, False) or _ment(x[3], sub, True)
        if x and x[0] == 'alt' and len(x) == 3 and isinstance(x[1], int):
            return _ment(x[1], sub, True) or _ment(x[2], sub, False)
        if x and x[0] == 'i' and len(x) == 3:
            return any(_ment(b, sub, True) for b in (x[1] or ())) or x[2] is not None and _ment(x[2], sub, False)
        if x and x[0] == 'b' and len(x) == 2 and isinstance(x[1], int):
            return _ment(x[1], sub, True)
        if x and x[0] == 'e' and len(x) == 3:
            return any(_ment(g, sub, True) or _ment(f, sub, False) for _, g, f in x[2])
        return any(_ment(y, sub, False) for y in x)
    return False


def coll_sum(c, p):
    """sum over the elements of collection c of the form p (which may refer to the element)"""
    path = collname(c)
    t = P(0)
    for (s, g), k in p.t.items():
        ms, mg = s is not None and mentions(s, path), mentions(g, path)
        if not ms and not mg and s is None:
            t = padd(t, Poly({(('N', c), g): k}))
        else:
            t = padd(t, Poly({(('SUM', c, s, g), T): k}))
    return t


def body_of_sum(s):
    return Poly({(s[2], s[3]): 1})


def decide(eng, st, g):
    """True/False when pc settles the guard, else Fork"""
    if IMPL(st.pc, g):
        return True
    if AND(st.pc, g) == F:
        return False
    pc = strengthen(st.pc, g)
    if IMPL(pc, g):
        return True
    if AND(pc, g) == F or refuted(AND(pc, g)):
        return False
    if refuted(AND(pc, NOT(g))):
        return True
    raise Fork([g, NOT(g)])


def head(eng, st, segs, where=None):
    """normalise so that the first segment is not an alternative or an empty slice"""
    segs = tuple(segs)
    while segs:
        s = segs[0]
        if s[0] == 'alt':
            if decide(eng, st, s[1]):
                segs = s[2] + segs[1:]
            else:
                segs = segs[1:]
            continue
        if s[0] == 'sl':
            l = psimp(s[3], st.pc)
            if pzero(l, st.pc):
                segs = segs[1:]
                continue
            if len(segs) > 1 and not prove_ge(l, 1, st.pc):
                if decide(eng, st, GE(l, 1)):
                    return segs
                segs = segs[1:]
                continue
            return segs
        if s[0] in ('each', 'map'):
            if isinstance(s[1], str):
                n = psym(('N', s[1]))
                if pbounds(n)[1] == 0 or IMPL(st.pc, NOT(GE(n, 1))) or prove_ge(pscale(n, -1), 0, st.pc):
                    segs = segs[1:]
                    continue
            raise NeedEach(where)
        return segs
    return segs


def head_soft(eng, st, segs):
    """like head, but leaves a collection at the front"""
    try:
        return head(eng, st, segs)
    except NeedEach:
        segs = tuple(segs)
        while segs and segs[0][0] not in ('each', 'map'):
            s = segs[0]
            if s[0] == 'alt' and IMPL(st.pc, s[1]):
                segs = s[2] + segs[1:]
            elif s[0] == 'alt' and AND(st.pc, s[1]) == F:
                segs = segs[1:]
            elif s[0] == 'sl' and pzero(s[3], st.pc):
                segs = segs[1:]
            else:
                return segs
        return segs


def byte_at(eng, base, off):
    s = ('byte', base, off)
    BOUNDS.setdefault(s, (0, 255))
    p = psym(s)
    return ibits(B.atom(('bit', p, i)) for i in range(8))


def be_byte(s, k):
    """byte k of a big-endian segment"""
    return ibits(poly_to_bits(field(s[1], 8 * (s[2] - 1 - k), 8), 8))


def take_byte(eng, st, segs, where):
    segs = head(eng, st, segs, where)
    if not segs:
        raise Diverge()
    s = segs[0]
    if s[0] == 'b':
        return s[1], segs[1:]
    if s[0] == 'elem':
        return s[1], segs[1:]
    if s[0] == 'be':
        rest = tuple(('b', be_byte(s, k)) for k in range(1, s[2]))
        return be_byte(s, 0), rest + segs[1:]
    if s[0] == 'sl':
        l = pnorm(psimp(s[3], st.pc))
        o = pnorm(eng.simpoff(s[2], s[3], l, st.pc))
        b = byte_at(eng, s[1], o)
        if eng.topics is not None and isinstance(s[1], str) and s[1].startswith('lv.') and o == P(0):
            import topics
            b = topics.first_byte(s[1][3:], b)
        return b, (('sl', s[1], padd(o, P(1)), psub(l, P(1))),) + segs[1:]
    raise Imprecise('take_byte ' + s[0])


def take_uint(eng, st, segs, n, where):
    segs = head(eng, st, segs, where)
    if segs and segs[0][0] == 'be' and segs[0][2] == n:
        p = fit_fields(field(segs[0][1], 0, 8 * n), st.pc)
        return (ipoly(p) if n > 1 else ibits(poly_to_bits(p, 8))), segs[1:]
    bs = []
    for i in range(n):
        b, segs = take_byte(eng, st, segs, where)
        bs.append(b)
    if n == 1:
        return bs[0], segs
    t = P(0)
    for i, b in enumerate(bs):
        t = padd(t, pscale(as_poly(b), 1 << (8 * (n - 1 - i))))
    return ipoly(merge_fields(t)), segs


def split_at(eng, st, segs, n, where=None):
    """(first n, rest); n is known not to exceed the length"""
    left = []
    rem = psimp(n, st.pc)
    segs = list(segs)
    while True:
        if pzero(rem, st.pc):
            return tuple(left), tuple(segs)
        if not segs:
            # lengths agree only through facts we cannot use: keep going is unsound
            if prove_ge(pscale(rem, -1), 0, st.pc):
                return tuple(left), ()
            raise Imprecise('split beyond the end')
        s = segs[0]
        l = psimp(seglen(eng, s), st.pc)
        if len(segs) == 1 and s[0] == 'sl':
            # the precondition of this function bounds rem by the length of what is left
            o = pnorm(eng.simpoff(s[2], s[3], l, st.pc))
            left.append(('sl', s[1], o, rem))
            return tuple(left), (('sl', s[1], pnorm(padd(o, rem)), pnorm(psub(l, rem))),)
        if prove_ge(psub(rem, l), 0, st.pc):
            left.append(s)
            segs.pop(0)
            rem = pnorm(psimp(psub(rem, l), st.pc))
            continue
        if s[0] == 'alt':
            if decide(eng, st, s[1]):
                segs[0:1] = list(s[2])
            else:
                segs.pop(0)
            continue
        if s[0] == 'sl':
            if prove_ge(psub(l, rem), 0, st.pc) or decide(eng, st, GE(psub(l, rem), 0)):
                o = pnorm(eng.simpoff(s[2], s[3], l, st.pc))
                left.append(('sl', s[1], o, rem))
                segs[0] = ('sl', s[1], pnorm(padd(o, rem)), pnorm(psub(l, rem)))
                return tuple(left), tuple(segs)
            left.append(s)
            segs.pop(0)
            rem = pnorm(psimp(psub(rem, l), st.pc))
            continue
        if s[0] == 'be':
            segs[0:1] = [('b', be_byte(s, k)) for k in range(s[2])]
            continue
        if s[0] == 'b' or s[0] == 'elem':
            if decide(eng, st, GE(rem, 1)):
                left.append(s)
                segs.pop(0)
                rem = pnorm(psimp(psub(rem, P(1)), st.pc))
                continue
            return tuple(left), tuple(segs)
        raise NeedEach(where)


def seq_index(eng, st, segs, e):
    if e[0] == 'x':
        i = e[1]
        n = as_poly(i) if i[0] == 'i' else None
    else:
        n = psub(seqlen(eng, segs), P(e[1]))
    if n is None:
        return top('index')
    try:
        _, r = split_at(eng, st, segs, n)
        b, _ = take_byte(eng, st, r, None)
    except NeedEach:
        return top('element of a collection')
    return b


def seq_subslice(eng, st, segs, e):
    tot = seqlen(eng, segs)
    a = P(e[1])
    b = psub(tot, P(e[2])) if e[3] else P(e[2])
    _, r = split_at(eng, st, segs, a)
    m, _ = split_at(eng, st, r, psub(b, a))
    return ('seq', m)


def seq_store(eng, st, segs, e, rest, val):
    if e[0] == 'x':
        n = as_poly(e[1]) if e[1][0] == 'i' else None
    else:
        n = psub(seqlen(eng, segs), P(e[1]))
    if n is None:
        raise Imprecise('store at unknown index')
    l, r = split_at(eng, st, segs, n)
    old, r2 = take_byte(eng, st, r, None)
    if rest:
        val = eng.upd(st, old, rest, val)
    val = eng.force1(val)
    if old[0] == 'i':
        if val[0] != 'i':
            val = eng.havoc_int('store', 8)
        new = ('b', ibits(as_bits(val, 8)))
    else:
        new = ('elem', val)
    return l + (new,) + r2


# ------------------------------------------------------------------ equality
def constbytes(segs):
    out = []
    for s in segs:
        if s[0] == 'be':
            c = s[1].const()
            if c is None:
                return None
            out += [(c >> (8 * (s[2] - 1 - k))) & 255 for k in range(s[2])]
            continue
        if s[0] != 'b':
            return None
        c = ival(s[1])
        if c is None:
            return None
        out.append(c)
    return out


def seq_eq(eng, st, a, b):
    if a == b:
        return T
    if eng.topics is not None:
        import topics
        r = topics.eq(eng, a, b)
        if r is not None:
            return r
    ca, cb = constbytes(a), constbytes(b)
    if ca is not None and cb is not None:
        return T if ca == cb else F
    la, lb = seqlen(eng, a), seqlen(eng, b)
    le = EQ(psub(la, lb), 0)
    if le == F:
        return F
    if all(s[0] == 'b' for s in a) and all(s[0] == 'b' for s in b) and len(a) == len(b):
        return AND(*[ieq(x[1], y[1]) for x, y in zip(a, b)])
    if (not a and not cb) or (not b and not ca):
        return le
    if sid(('segs', b)) < sid(('segs', a)):
        a, b, ca, cb = b, a, cb, ca
    return AND(le, B.atom(('seqeq', a if ca is None else bytes(ca), b if cb is None else bytes(cb))))


def val_eq(eng, st, a, b):
    a, b = deref(eng, st, a), deref(eng, st, b)
    if a == b:
        return T
    if a[0] == 'seq' and b[0] == 'seq':
        return seq_eq(eng, st, a[1], b[1])
    if a[0] == 'i' and b[0] == 'i':
        return ieq(a, b)
    if a[0] == 'b' and b[0] == 'b':
        return ITE(a[1], b[1], NOT(b[1]))
    if a[0] == 'agg' and b[0] == 'agg' and len(a[2]) == len(b[2]):
        return AND(*[val_eq(eng, st, x, y) for x, y in zip(a[2], b[2])])
    if a[0] == 'e' and b[0] == 'e':
        r = F
        for i, g, f in a[2]:
            for j, h, k in b[2]:
                if i == j:
                    r = OR(r, AND(g, h, *[val_eq(eng, st, x, y) for x, y in zip(f, k)]))
        return r
    return eng.havoc_bool('eq')[1]


SEQH = ('String', 'str', 'Vec', 'slice', 'array', 'Bytes', 'BytesMut', 'Cow')


def m_eq(eng, st, args, x):
    return [(st, ('b', val_eq(eng, st, args[0], args[1])))]


def m_ne(eng, st, args, x):
    return [(st, ('b', NOT(val_eq(eng, st, args[0], args[1]))))]


for h in SEQH + ('u8', 'u16', 'u32', 'u64', 'usize', 'bool', 'char', 'i32', 'tuple'):
    TABLE[(h, 'PartialEq', 'eq')] = m_eq
    TABLE[(h, 'PartialEq', 'ne')] = m_ne
TABLE[('*', 'SpecPartialEq', 'eq')] = m_eq


# ------------------------------------------------------------------ plain value functions
def m_ident(eng, st, args, x):
    return [(st, args[0])]


def m_copy(eng, st, args, x):
    """value behind one reference"""
    v = eng.force(st, args[0])
    if v[0] == 'ref':
        v = eng.getp(st, v[1], v[2])
    return [(st, v)]


TABLE[('*', 'Clone', 'clone')] = m_copy
TABLE[('*', 'ToOwned', 'to_owned')] = lambda e, s, a, x: [(s, deref(e, s, a[0]))]
for h in ('String', 'str', 'Vec', 'slice', 'Bytes', 'BytesMut', 'Box'):
    for t, m in ((None, 'to_vec'), (None, 'to_owned'), (None, 'into_boxed_slice'), ('ToString', 'to_string'),
                 ('Deref', 'deref_copy'), (None, 'into_bytes'), (None, 'into_vec'), (None, 'into_string'),
                 ('SpecToString', 'spec_to_string')):
        TABLE[(h, t, m)] = lambda e, s, a, x: [(s, deref(e, s, a[0]))]
    for t, m in (('Deref', 'deref'), ('DerefMut', 'deref_mut'), (None, 'as_bytes'), (None, 'as_str'),
                 (None, 'as_slice'), (None, 'as_mut_slice'), ('AsRef', 'as_ref'), ('AsMut', 'as_mut'),
                 ('Borrow', 'borrow'), (None, 'as_mut_str'), (None, 'as_ref')):
        TABLE[(h, t, m)] = m_ident
for t, m in (('Into', 'into'), ('From', 'from')):
    for h in ('String', 'Vec', 'Bytes', 'BytesMut', 'Box', 'Arc', 'Cow'):
        def m_from(e, s, a, x):
            v = e.force(s, a[0])
            if v[0] == 'ref':
                v = deref(e, s, v)
            return [(s, v)]
        TABLE[(h, t, m)] = m_from
TABLE[('convert', None, 'identity')] = m_ident
TABLE[('str', None, 'from_utf8_unchecked')] = m_ident
TABLE[('hint', None, 'black_box')] = m_ident


@reg(('intrinsics', None, 'discriminant_value'), ('mem', None, 'discriminant'))
def m_disc(eng, st, args, x):
    v = deref(eng, st, args[0])
    return [(st, eng.discr(st, v, x.get('sig_out') if eng.T[x['sig_out']]['k'] == 'int' else None))]


@reg(('mem', None, 'swap'))
def m_swap(eng, st, args, x):
    a, b = loc(eng, st, args[0]), loc(eng, st, args[1])
    st = st.copy()
    va, vb = eng.getp(st, a[1], a[2]), eng.getp(st, b[1], b[2])
    setloc(eng, st, a, vb)
    setloc(eng, st, b, va)
    return [(st, UNIT)]


@reg(('mem', None, 'replace'))
def m_replace(eng, st, args, x):
    a = eng.force(st, args[0])
    st = st.copy()
    v = eng.getp(st, a[1], a[2])
    eng.setp(st, a[1], a[2], args[1])
    return [(st, v)]


@reg(('mem', None, 'drop'), ('mem', None, 'forget'), ('ptr', None, 'drop_in_place'))
def m_unit(eng, st, args, x):
    return [(st, UNIT)]


def m_never(eng, st, args, x):
    eng.oblige(st, F, 'panic', 'call of ' + x['name'].split('::<')[0])
    return []


for k in (('panicking', None, 'panic'), ('panicking', None, 'panic_fmt'), ('panicking', None, 'panic_nounwind_fmt'),
          ('panicking', None, 'panic_nounwind'), ('option', None, 'expect_failed'), ('option', None, 'unwrap_failed'),
          ('result', None, 'unwrap_failed'), ('index', None, 'slice_index_fail'), ('str', None, 'slice_error_fail'),
          ('panicking', None, 'unreachable_display'), ('panicking', None, 'assert_failed'),
          ('panicking', None, 'panic_explicit'), ('panicking', None, 'panic_display'),
          ('panicking', None, 'panic_bounds_check'), ('rt', None, 'begin_panic'), ('panicking', None, 'begin_panic'),
          ('process', None, 'abort'), ('process', None, 'exit'), ('panicking', None, 'panic_str_2015'),
          ('intrinsics', None, 'abort')):
    TABLE[k] = m_never


# ------------------------------------------------------------------ integers
@reg(('intrinsics', None, 'saturating_sub'))
def m_satsub(eng, st, args, x):
    a, b = eng.force(st, args[0]), eng.force(st, args[1])
    g = ige(a, b)
    st = eng.settle(st, g)
    d = psub(as_poly(a), as_poly(b))
    if IMPL(st.pc, g):
        return [(st, ipoly(d))]
    return [(st, ipoly(pgate(d, g)))]


@reg(('intrinsics', None, 'saturating_add'))
def m_satadd(eng, st, args, x):
    a, b = eng.force(st, args[0]), eng.force(st, args[1])
    p = padd(as_poly(a), as_poly(b))
    hi = eng.typerange(x['sig_out'])[1]
    g = NOT(GE(p, hi + 1))
    st = eng.settle(st, g)
    return [(st, ipoly(pjoin(g, p, P(hi)) if not IMPL(st.pc, g) else p))]


def m_wrap(op):
    def f(eng, st, args, x):
        st = st.copy()
        a, b = eng.force(st, args[0]), eng.force(st, args[1])
        return [(st, eng.binop(st, op, a, b, x['sig_out'], False))]
    return f


def m_ovf(op):
    def f(eng, st, args, x):
        st = st.copy()
        a, b = eng.force(st, args[0]), eng.force(st, args[1])
        return [(st, eng.binop(st, op, a, b, x['sig_in'][0], True))]
    return f


for op in ('Add', 'Sub', 'Mul'):
    TABLE[('intrinsics', None, 'wrapping_' + op.lower())] = m_wrap(op)
    TABLE[('intrinsics', None, 'unchecked_' + op.lower())] = m_wrap(op)
    TABLE[('intrinsics', None, op.lower() + '_with_overflow')] = m_ovf(op)
for op, n in (('Shl', 'unchecked_shl'), ('Shr', 'unchecked_shr'), ('Div', 'unchecked_div'), ('Rem', 'unchecked_rem'),
              ('Div', 'exact_div')):
    TABLE[('intrinsics', None, n)] = m_wrap(op)


def m_minmax(big):
    def f(eng, st, args, x):
        a, b = eng.force(st, args[0]), eng.force(st, args[1])
        if a[0] != 'i' or b[0] != 'i':
            return eng.unknown_call(st, x, args)
        g = ige(a, b)
        st = eng.settle(st, g)
        return [(st, eng.joinv(g, a, b, st.pc) if big else eng.joinv(g, b, a, st.pc))]
    return f


for h in ('u8', 'u16', 'u32', 'u64', 'usize', 'i32'):
    TABLE[(h, 'Ord', 'max')] = m_minmax(True)
    TABLE[(h, 'Ord', 'min')] = m_minmax(False)
TABLE[('cmp', None, 'max')] = m_minmax(True)
TABLE[('cmp', None, 'min')] = m_minmax(False)


def m_to_be(eng, st, args, x):
    v = eng.force(st, args[0])
    n = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8}[x['norm'][0]]
    return [(st, ('seq', uint_segs(v, n)))]


def uint_segs(v, n, pc=T):
    if n == 1:
        return (('b', ibits(as_bits(v, 8, pc))),)
    p = as_poly(v)
    c = p.const()
    if c is not None:
        return tuple(('b', ibits(T if (c >> (8 * (n - 1 - k) + i)) & 1 else F for i in range(8)))
                     for k in range(n))
    return (('be', p, n),)


def m_from_be(eng, st, args, x):
    s = seqof(eng, st, args[0])
    n = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8}[x['norm'][0]]
    if s is None:
        return eng.unknown_call(st, x, args)
    v, _ = take_uint(eng, st, s, n, None)
    return [(st, v)]


for h in ('u8', 'u16', 'u32', 'u64'):
    TABLE[(h, None, 'to_be_bytes')] = m_to_be
    TABLE[(h, None, 'from_be_bytes')] = m_from_be


# ------------------------------------------------------------------ reading (bytes::Buf)
def need(eng, st, segs, n, what):
    return eng.oblige(st, GE(seqlen(eng, segs), n) if isinstance(n, int) else GE(psub(seqlen(eng, segs), n), 0),
                      'panic', what)


def m_get(n):
    def f(eng, st, args, x):
        l = loc(eng, st, args[0])
        segs = seqof(eng, st, args[0])
        if segs is None or l is None:
            return eng.unknown_call(st, x, args)
        s2 = need(eng, st, segs, n, 'read of %d byte(s) past the end' % n)
        if s2 is None:
            return []
        v, rest = take_uint(eng, s2, segs, n, l)
        s2 = s2.copy()
        setloc(eng, s2, l, ('seq', rest))
        return [(s2, v)]
    return f


for h in ('Bytes', 'BytesMut', 'slice', '&mut T', 'T'):
    for n, m in ((1, 'get_u8'), (2, 'get_u16'), (4, 'get_u32'), (8, 'get_u64')):
        TABLE[(h, 'Buf', m)] = m_get(n)


def m_advance(eng, st, args, x):
    l = loc(eng, st, args[0])
    segs = seqof(eng, st, args[0])
    n = eng.force(st, args[1])
    if segs is None or l is None or n[0] != 'i':
        return eng.unknown_call(st, x, args)
    n = as_poly(n)
    s2 = need(eng, st, segs, n, 'advance past the end')
    if s2 is None:
        return []
    _, rest = split_at(eng, s2, segs, n, l)
    s2 = s2.copy()
    setloc(eng, s2, l, ('seq', rest))
    return [(s2, UNIT)]


def m_split_to(eng, st, args, x):
    l = loc(eng, st, args[0])
    segs = seqof(eng, st, args[0])
    n = eng.force(st, args[1])
    if segs is None or l is None or n[0] != 'i':
        return eng.unknown_call(st, x, args)
    n = as_poly(n)
    s2 = need(eng, st, segs, n, x['norm'][2] + ' past the end')
    if s2 is None:
        return []
    a, b = split_at(eng, s2, segs, n, l)
    s2 = s2.copy()
    if x['norm'][2] == 'split_off':
        a, b = b, a
    setloc(eng, s2, l, ('seq', b))
    return [(s2, ('seq', a))]


def m_split_all(eng, st, args, x):
    l = loc(eng, st, args[0])
    segs = seqof(eng, st, args[0])
    if segs is None or l is None:
        return eng.unknown_call(st, x, args)
    st = st.copy()
    setloc(eng, st, l, ('seq', ()))
    return [(st, ('seq', segs))]


def m_truncate(eng, st, args, x):
    l = loc(eng, st, args[0])
    segs = seqof(eng, st, args[0])
    n = eng.force(st, args[1])
    if segs is None or l is None or n[0] != 'i':
        return eng.unknown_call(st, x, args)
    n = as_poly(n)
    if not decide(eng, st, GE(psub(seqlen(eng, segs), n), 0)):
        return [(st, UNIT)]
    a, _ = split_at(eng, st, segs, n, l)
    st = st.copy()
    setloc(eng, st, l, ('seq', a))
    return [(st, UNIT)]


def m_clear(eng, st, args, x):
    l = loc(eng, st, args[0])
    if l is None:
        return eng.unknown_call(st, x, args)
    st = st.copy()
    setloc(eng, st, l, ('seq', ()))
    return [(st, UNIT)]


def m_len(eng, st, args, x):
    v = deref(eng, st, args[0])
    if v[0] in ('seq', 'iter'):
        return [(st, ipoly(psimp(seqlen(eng, v[1]), st.pc)))]
    return eng.unknown_call(st, x, args)


def m_empty(eng, st, args, x):
    v = deref(eng, st, args[0])
    if v[0] in ('seq', 'iter'):
        return [(st, ('b', NOT(GE(psimp(seqlen(eng, v[1]), st.pc), 1))))]
    return eng.unknown_call(st, x, args)


def m_nonempty(eng, st, args, x):
    return [(s, ('b', NOT(v[1])) if v[0] == 'b' else v) for s, v in m_empty(eng, st, args, x)]


for h in ('Bytes', 'BytesMut', 'slice', 'Vec', 'String', 'str', 'T'):
    TABLE[(h, None, 'len')] = m_len
    TABLE[(h, None, 'is_empty')] = m_empty
    TABLE[(h, 'Buf', 'remaining')] = m_len
    TABLE[(h, 'Buf', 'has_remaining')] = m_nonempty
    TABLE[(h, 'Buf', 'advance')] = m_advance
    TABLE[(h, 'Buf', 'chunk')] = m_ident
    TABLE[(h, 'Buf', 'copy_to_bytes')] = m_split_to
    TABLE[(h, None, 'split_to')] = m_split_to
    TABLE[(h, None, 'split_off')] = m_split_to
    TABLE[(h, None, 'split')] = m_split_all if h == 'BytesMut' else None
    TABLE[(h, None, 'truncate')] = m_truncate
    TABLE[(h, None, 'clear')] = m_clear
    TABLE[(h, None, 'freeze')] = m_ident
for k in [k for k, v in TABLE.items() if v is None]:
    del TABLE[k]
TABLE[('Iter', 'ExactSizeIterator', 'len')] = m_len
TABLE[('Iter', 'ExactSizeIterator', 'is_empty')] = m_empty
TABLE[('Iter', None, 'as_slice')] = lambda e, s, a, x: [(s, ('ref', ('cv', ('seq', deref(e, s, a[0])[1])), ()))]


def rng(eng, st, segs, r):
    """(from, to) of a range value, with the obligations of slice indexing"""
    r = eng.force(st, r)
    tot = seqlen(eng, segs)
    a, b = P(0), tot
    if r[0] != 'agg' or r[1] is None:
        return None
    h = eng.p.adthead(r[1])
    fs = [eng.force(st, f) for f in r[2]]
    if h == 'Range':
        a, b = as_poly(fs[0]), as_poly(fs[1])
    elif h == 'RangeFrom':
        a = as_poly(fs[0])
    elif h == 'RangeTo':
        b = as_poly(fs[0])
    elif h == 'RangeToInclusive':
        b = padd(as_poly(fs[0]), P(1))
    elif h == 'RangeInclusive':
        a, b = as_poly(fs[0]), padd(as_poly(fs[1]), P(1))
    elif h != 'RangeFull':
        return None
    return a, b


def m_index(eng, st, args, x):
    segs = seqof(eng, st, args[0])
    if segs is None:
        return eng.unknown_call(st, x, args)
    i = eng.force(st, args[1])
    if i[0] == 'i':
        s2 = eng.oblige(st, GE(psub(seqlen(eng, segs), as_poly(i)), 1), 'panic', 'index out of bounds')
        if s2 is None:
            return []
        l = loc(eng, st, args[0])
        if l is not None:
            return [(s2, ('ref', l[1], l[2] + (('x', i),)))]
        return [(s2, ('ref', ('cv', seq_index(eng, s2, segs, ('x', i))), ()))]
    r = rng(eng, st, segs, i)
    if r is None:
        return eng.unknown_call(st, x, args)
    a, b = r
    s2 = eng.oblige(st, GE(psub(b, a), 0), 'panic', 'slice index starts after its end')
    if s2 is None:
        return []
    s2 = eng.oblige(s2, GE(psub(seqlen(eng, segs), b), 0), 'panic', 'slice end out of range')
    if s2 is None:
        return []
    _, r = split_at(eng, s2, segs, a)
    m, _ = split_at(eng, s2, r, psub(b, a))
    return [(s2, ('ref', ('cv', ('seq', m)), ()))]


for h in ('slice', 'Vec', 'str', 'String', 'Bytes', 'BytesMut', 'array'):
    TABLE[(h, 'Index', 'index')] = m_index
    TABLE[(h, 'IndexMut', 'index_mut')] = m_index


def opt(eng, ty, some, val=None):
    """Option value of type ty"""
    if some == F:
        return ('e', ty, ((0, T, ()),))
    if some == T:
        return ('e', ty, ((1, T, (val,)),))
    return ('e', ty, ((0, NOT(some), ()), (1, some, (val,))))


def m_sget(eng, st, args, x):
    segs = seqof(eng, st, args[0])
    i = eng.force(st, args[1])
    if segs is None:
        return eng.unknown_call(st, x, args)
    if i[0] == 'i':
        g = GE(psub(seqlen(eng, segs), as_poly(i)), 1)
        out = []
        for c in (g, NOT(g)):
            s = eng.settle(st, c)
            if AND(s.pc, c) == F:
                continue
            s = s.assume(c)
            if c == g:
                out.append((s, opt(eng, x['sig_out'], T, ('ref', ('cv', seq_index(eng, s, segs, ('x', i))), ()))))
            else:
                out.append((s, opt(eng, x['sig_out'], F)))
        return out
    r = rng(eng, st, segs, i)
    if r is None:
        return eng.unknown_call(st, x, args)
    a, b = r
    g = AND(GE(psub(b, a), 0), GE(psub(seqlen(eng, segs), b), 0))
    out = []
    for c in (g, NOT(g)):
        s = eng.settle(st, c)
        if AND(s.pc, c) == F:
            continue
        s = s.assume(c)
        if c == g:
            _, q = split_at(eng, s, segs, a)
            m, _ = split_at(eng, s, q, psub(b, a))
            out.append((s, opt(eng, x['sig_out'], T, ('ref', ('cv', ('seq', m)), ()))))
        else:
            out.append((s, opt(eng, x['sig_out'], F)))
    return out


TABLE[('slice', None, 'get')] = m_sget
TABLE[('str', None, 'get')] = m_sget


def m_first(eng, st, args, x):
    return m_sget(eng, st, [args[0], iconst(0)], x)


TABLE[('slice', None, 'first')] = m_first


def m_slice(eng, st, args, x):
    """Bytes::slice(range)"""
    return [(s, deref(eng, s, v)) for s, v in m_index(eng, st, args, x)]


TABLE[('Bytes', None, 'slice')] = m_slice


def m_split_first(eng, st, args, x):
    segs = seqof(eng, st, args[0])
    if segs is None:
        return eng.unknown_call(st, x, args)
    g = GE(seqlen(eng, segs), 1)
    out = []
    for c in (g, NOT(g)):
        s = eng.settle(st, c)
        if AND(s.pc, c) == F:
            continue
        s = s.assume(c)
        if c == g:
            b, r = take_byte(eng, s, segs, None)
            out.append((s, opt(eng, x['sig_out'], T, ('agg', None, (('ref', ('cv', b), ()),
                                                                   ('ref', ('cv', ('seq', r)), ()))))))
        else:
            out.append((s, opt(eng, x['sig_out'], F)))
    return out


TABLE[('slice', None, 'split_first')] = m_split_first


# ------------------------------------------------------------------ building
def append(eng, st, ref, segs):
    l = loc(eng, st, ref)
    old = seqof(eng, st, ref)
    if l is None or old is None:
        return None
    st = st.copy()
    new = list(old)
    for s in segs:
        if s[0] == 'sl' and s[3].const() == 0:
            continue
        if new and s[0] == 'sl' and new[-1][0] == 'sl' and new[-1][1] == s[1] and \
                pzero(psub(padd(new[-1][2], new[-1][3]), s[2]), st.pc):
            new[-1] = ('sl', s[1], new[-1][2], padd(new[-1][3], s[3]))
            continue
        new.append(s)
    setloc(eng, st, l, ('seq', tuple(new)))
    return st


def m_put(n):
    def f(eng, st, args, x):
        v = eng.force(st, args[1])
        if v[0] != 'i':
            v = eng.havoc_int('put', 8 * n)
        s = append(eng, st, args[0], uint_segs(v, n, st.pc))
        return [(s, UNIT)] if s is not None else eng.unknown_call(st, x, args)
    return f


def m_put_slice(eng, st, args, x):
    segs = seqof(eng, st, args[1])
    if segs is None:
        return eng.unknown_call(st, x, args)
    s = append(eng, st, args[0], segs)
    return [(s, UNIT)] if s is not None else eng.unknown_call(st, x, args)


def m_push(eng, st, args, x):
    v = args[1]
    fv = eng.force1(v)
    segs = None
    old = seqof(eng, st, args[0])
    if fv[0] == 'i' and fv[1] is not None and len(fv[1]) <= 8 and _is_bytes(eng, x):
        segs = (('b', ibits(as_bits(fv, 8))),)
    elif _is_bytes(eng, x):
        segs = (('b', ibits(as_bits(fv, 8))),) if fv[0] == 'i' else (('b', eng.havoc_int('push', 8)),)
    else:
        segs = (('elem', v),)
    s = append(eng, st, args[0], segs)
    return [(s, UNIT)] if s is not None else eng.unknown_call(st, x, args)


def _is_bytes(eng, x):
    """does the Vec instance hold u8?"""
    for a in x.get('args', []):
        t = eng.T[a] if isinstance(a, int) else None
        if t is not None:
            return t['k'] == 'int' and t['bits'] == 8
    t = x.get('sig_in')
    if t and len(t) > 1:
        t = eng.T[t[1]]
        return t['k'] == 'int' and t['bits'] == 8
    return False


for h in ('BytesMut', 'Vec', 'T'):
    for n, m in ((1, 'put_u8'), (2, 'put_u16'), (4, 'put_u32'), (8, 'put_u64')):
        TABLE[(h, 'BufMut', m)] = m_put(n)
    TABLE[(h, 'BufMut', 'put_slice')] = m_put_slice
    TABLE[(h, 'BufMut', 'put')] = m_put_slice
    TABLE[(h, None, 'extend_from_slice')] = m_put_slice
    TABLE[(h, None, 'unsplit')] = m_put_slice
TABLE[('String', None, 'push_str')] = m_put_slice
TABLE[('Vec', None, 'push')] = m_push


def m_put_bytes(eng, st, args, x):
    v, n = eng.force(st, args[1]), eng.force(st, args[2])
    c = ival(n) if n[0] == 'i' else None
    if c is None or c > 64 or v[0] != 'i':
        return eng.unknown_call(st, x, args)
    s = append(eng, st, args[0], (('b', ibits(as_bits(v, 8))),) * c)
    return [(s, UNIT)]


TABLE[('BytesMut', 'BufMut', 'put_bytes')] = m_put_bytes


def m_append(eng, st, args, x):
    """Vec::append(&mut self, &mut other)"""
    o = seqof(eng, st, args[1])
    if o is None:
        return eng.unknown_call(st, x, args)
    s = append(eng, st, args[0], o)
    if s is None:
        return eng.unknown_call(st, x, args)
    setloc(eng, s, loc(eng, s, args[1]), ('seq', ()))
    return [(s, UNIT)]


TABLE[('Vec', None, 'append')] = m_append


def m_new(eng, st, args, x):
    return [(st, ('seq', ()))]


def m_with_cap(eng, st, args, x):
    n = eng.force(st, args[-1])
    eng.allocs.append((eng.fnname(), as_poly(n) if n[0] == 'i' else None, st.pc, eng.stack()))
    return [(st, ('seq', ()))]


def m_reserve(eng, st, args, x):
    n = eng.force(st, args[-1])
    eng.allocs.append((eng.fnname(), as_poly(n) if n[0] == 'i' else None, st.pc, eng.stack()))
    return [(st, UNIT)]


def m_from_elem(eng, st, args, x):
    n = eng.force(st, args[-1])
    eng.allocs.append((eng.fnname(), as_poly(n) if n[0] == 'i' else None, st.pc, eng.stack()))
    c = ival(n) if n[0] == 'i' else None
    v = eng.force(st, args[0])
    if c is not None and c <= 256:
        if v[0] == 'i' and v[1] is not None and len(v[1]) == 8:
            return [(st, ('seq', (('b', v),) * c))]
        return [(st, ('seq', (('elem', v),) * c))]
    if n[0] == 'i':
        return [(st, ('seq', (('sl', 'fill.%d' % fresh('fill'), P(0), as_poly(n)),)))]
    return eng.unknown_call(st, x, args)


TABLE[('vec', None, 'from_elem')] = m_from_elem
for h in ('Vec', 'String', 'BytesMut', 'Bytes'):
    TABLE[(h, None, 'new')] = m_new
    TABLE[(h, 'Default', 'default')] = m_new
    TABLE[(h, None, 'with_capacity')] = m_with_cap
    TABLE[(h, None, 'reserve')] = m_reserve
    TABLE[(h, None, 'reserve_exact')] = m_reserve
TABLE[('Bytes', None, 'copy_from_slice')] = lambda e, s, a, x: [(s, deref(e, s, a[0]))]
TABLE[('Bytes', None, 'from_static')] = lambda e, s, a, x: [(s, deref(e, s, a[0]))]


@reg(('slice', None, 'into_vec'), ('boxed', None, 'box_new'), ('Box', None, 'new'))
def m_box(eng, st, args, x):
    return [(st, args[-1])]


@reg(('slice', None, 'concat'), ('slice', None, 'join'))
def m_concat(eng, st, args, x):
    segs = seqof(eng, st, args[0])
    if segs is None or not all(s[0] == 'elem' for s in segs) or x['norm'][2] == 'join':
        return eng.unknown_call(st, x, args)
    out = ()
    for s in segs:
        q = seqof(eng, st, s[1])
        if q is None:
            return eng.unknown_call(st, x, args)
        out += q
    return [(st, ('seq', out))]


# ------------------------------------------------------------------ UTF-8
def utf8_guard(eng, segs, pc):
    g = T
    for s in segs:
        if s[0] == 'b':
            c = ival(s[1])
            if c is not None and c < 128:
                continue
            return B.atom(('utf8', segs))
        if s[0] == 'alt':
            g = AND(g, OR(NOT(s[1]), utf8_guard(eng, s[2], pc)))
            continue
        if s[0] == 'sl':
            if s[3].const() == 0:
                continue
            if s[1] in UTF8 and pzero(s[2], pc) and pzero(psub(s[3], psym(('len', s[1]))), pc):
                continue
            g = AND(g, B.atom(('utf8', (s,))))
            continue
        return B.atom(('utf8', segs))
    return g


def m_from_utf8(eng, st, args, x):
    segs = seqof(eng, st, args[0])
    if segs is None:
        return eng.unknown_call(st, x, args)
    g = utf8_guard(eng, segs, st.pc)
    rt = x['sig_out']
    out = []
    v = ('seq', segs)
    if x['norm'][0] == 'str':
        v = ('ref', ('cv', v), ())
    if AND(st.pc, g) != F:
        out.append((st.assume(g), ('e', rt, ((0, T, (v,)),))))
    if AND(st.pc, NOT(g)) != F:
        out.append((st.assume(NOT(g)), ('e', rt, ((1, T, (top('utf8 error'),)),))))
    return out


TABLE[('String', None, 'from_utf8')] = m_from_utf8
TABLE[('str', None, 'from_utf8')] = m_from_utf8
TABLE[('converts', None, 'from_utf8')] = m_from_utf8


def m_lossy(eng, st, args, x):
    segs = seqof(eng, st, args[0])
    if segs is None:
        return eng.unknown_call(st, x, args)
    g = utf8_guard(eng, segs, st.pc)
    if IMPL(st.pc, g):
        return [(st, ('seq', segs))]
    p = 'lossy.%d' % fresh('lossy')
    UTF8.add(p)
    return [(st, ('seq', (('sl', p, P(0), psym(('len', p))),)))]


TABLE[('String', None, 'from_utf8_lossy')] = m_lossy


def m_utf8_unchecked(eng, st, args, x):
    return [(st, args[0])]


TABLE[('String', None, 'from_utf8_unchecked')] = m_utf8_unchecked
TABLE[('str', None, 'from_utf8_unchecked')] = m_utf8_unchecked


# ------------------------------------------------------------------ iterators
def m_iter(eng, st, args, x):
    if eng.topics is not None:
        import topics
        v = topics.lvec(eng, st, args[0])
        if v is not None:
            return topics.lvec_iter(eng, st, v, x, 'ref')
    segs = seqof(eng, st, args[0])
    if segs is None:
        return eng.unknown_call(st, x, args)
    return [(st, ('iter', segs, 'ref'))]


def m_into_iter(eng, st, args, x):
    v = eng.force(st, args[0])
    if v[0] == 'ref':
        return m_iter(eng, st, args, x)
    if v[0] == 'lvec':
        import topics
        return topics.lvec_iter(eng, st, v, x, 'val')
    if v[0] == 'seq':
        return [(st, ('iter', v[1], 'val'))]
    if v[0] in ('iter', 'agg', 'split'):
        return [(st, v)]
    return eng.unknown_call(st, x, args)


for h in ('slice', 'Vec', 'array', 'Bytes', 'BytesMut', 'str', 'String'):
    TABLE[(h, None, 'iter')] = m_iter
    TABLE[(h, 'IntoIterator', 'into_iter')] = m_into_iter
TABLE[('I', 'IntoIterator', 'into_iter')] = m_ident
TABLE[('str', None, 'bytes')] = lambda e, s, a, x: [(a_s, ('iter', v[1], 'val') if v[0] == 'iter' else v)
                                                   for a_s, v in m_iter(e, s, a, x)]


def iter_item(mode, v):
    return ('ref', ('cv', v), ()) if mode == 'ref' else v


def iter_next(eng, st, r, p):
    """advance the iterator stored at (r, p): [(state, item | None)]"""
    v = eng.force(st, eng.getp(st, r, p))
    if v[0] == 'ref':
        return iter_next(eng, st, v[1], v[2])
    if v[0] == 'iter':
        segs, mode = v[1], v[2]
        g = GE(psimp(seqlen(eng, segs), st.pc), 1)
        out = []
        st = eng.settle(st, g)
        if AND(st.pc, g) != F:
            s = st.assume(g)
            b, rest = take_byte(eng, s, segs, ('ref', r, p))
            eng.setp(s, r, p, ('iter', rest, mode))
            out.append((s, iter_item(mode, b)))
        if AND(st.pc, NOT(g)) != F:
            out.append((st.assume(NOT(g)), None))
        return out
    if v[0] == 'split':
        import topics
        return topics.split_next(eng, st, r, p, v)
    if v[0] == 'agg' and v[1] is not None:
        t = eng.T[v[1]]
        h = eng.p.adthead(v[1])
        names = {f['name']: (i, f['ty']) for i, f in enumerate(t.get('variants', [{'fields': []}])[0]['fields'])}

        def sub(n):
            i, ty = names[n]
            return p + (('f', i, ty),)
        if h == 'Map':
            out = []
            for s, it in iter_next(eng, st, r, sub('iter')):
                if it is None:
                    out.append((s, None))
                    continue
                for s2, w in eng.apply(s, ('ref', r, sub('f')), [it], ('map', repr(p)), eng.where().fid):
                    out.append((s2, w))
            return out
        if h in ('Cloned', 'Copied'):
            return [(s, it if it is None else deref1(eng, s, it)) for s, it in iter_next(eng, st, r, sub('it'))]
        if h == 'Enumerate':
            out = []
            for s, it in iter_next(eng, st, r, sub('iter')):
                if it is None:
                    out.append((s, None))
                    continue
                c = eng.force(s, eng.getp(s, r, sub('count')))
                s = s.copy()
                eng.setp(s, r, sub('count'), ipoly(padd(as_poly(c), P(1))))
                out.append((s, ('agg', None, (c, it))))
            return out
        if h == 'Zip':
            out = []
            for s, a in iter_next(eng, st, r, sub('a')):
                if a is None:
                    out.append((s, None))
                    continue
                for s2, b in iter_next(eng, s, r, sub('b')):
                    out.append((s2, None if b is None else ('agg', None, (a, b))))
            return out
        if h == 'Take':
            n = eng.force(st, eng.getp(st, r, sub('n')))
            g = ige(n, iconst(1))
            out = []
            st = eng.settle(st, g)
            if AND(st.pc, NOT(g)) != F:
                out.append((st.assume(NOT(g)), None))
            if AND(st.pc, g) != F:
                s = st.assume(g)
                eng.setp(s, r, sub('n'), ipoly(psub(as_poly(n), P(1))))
                out += iter_next(eng, s, r, sub('iter'))
            return out
        if h == 'Range':
            a = eng.force(st, eng.getp(st, r, sub('start')))
            b = eng.force(st, eng.getp(st, r, sub('end')))
            g = NOT(ige(a, b))
            out = []
            st = eng.settle(st, g)
            if AND(st.pc, g) != F:
                s = st.assume(g)
                eng.setp(s, r, sub('start'), ipoly(padd(as_poly(a), P(1))))
                out.append((s, a))
            if AND(st.pc, NOT(g)) != F:
                out.append((st.assume(NOT(g)), None))
            return out
        if h == 'Chain':
            raise Imprecise('chain')
        inst = eng.p.byname.get('<%s as std::iter::Iterator>::next' % t['name'])
        if inst is not None and eng.p.body(inst) is not None and \
                (eng.p.insts[inst]['local'] or eng.model(eng.p.insts[inst]) is None):
            out = []
            for s, o in eng.call_inst(st, inst, [('ref', r, p)], ('next', repr(p)), eng.where().fid):
                o = eng.force(s, o)
                for i, g, f in o[2]:
                    if AND(s.pc, g) != F:
                        out.append((s.assume(g), f[0] if i == 1 else None))
            return out
    raise Imprecise('next of ' + v[0] + (' ' + eng.T[v[1]]['name'] if v[0] == 'agg' and v[1] is not None else ''))


def deref1(eng, st, v):
    v = eng.force(st, v)
    if v[0] == 'ref':
        return eng.getp(st, v[1], v[2])
    return v


def m_next(eng, st, args, x):
    v = eng.force(st, args[0])
    if v[0] != 'ref':
        return eng.unknown_call(st, x, args)
    rt = x['sig_out']
    return [(s, opt(eng, rt, F) if it is None else opt(eng, rt, T, it)) for s, it in iter_next(eng, st, v[1], v[2])]


for h in ('Iter', 'IntoIter', 'Map', 'Cloned', 'Copied', 'Enumerate', 'Zip', 'Take', 'Split', 'Bytes', 'Range', 'I'):
    TABLE[(h, 'Iterator', 'next')] = m_next


def m_nth(eng, st, args, x):
    n = eng.force(st, args[1])
    c = ival(n) if n[0] == 'i' else None
    v = eng.force(st, args[0])
    if c is None or c > 16:
        return eng.unknown_call(st, x, args)
    work = [(st, None)]
    done = []
    for k in range(c + 1):
        nw = []
        for s, _ in work:
            for s2, it in iter_next(eng, s, v[1], v[2]):
                if it is None:
                    done.append((s2, opt(eng, x['sig_out'], F)))
                else:
                    nw.append((s2, it))
        work = nw
    return done + [(s, opt(eng, x['sig_out'], T, it)) for s, it in work]


TABLE[('Iter', 'Iterator', 'nth')] = m_nth


def vloop(eng, st, x, itval, acc0, step, finish):
    """run an internal-iteration method as a loop: step(st, item, accref) -> [(state, exit?|None)]"""
    fid = eng.where().fid
    site = eng.cur_site
    key = ('vl', fid, site, x['name'])
    ri, ra = (key, 'it'), (key, 'acc')
    st = st.copy()
    if itval[0] == 'ref':
        it = itval
    else:
        st.mem[ri] = itval
        it = ('ref', ri, ())
    st.mem[ra] = acc0

    def body(s):
        backs, outs = [], []
        work = [s]
        while work:
            s0 = work.pop()
            try:
                for s1, item in iter_next(eng, s0, it[1], it[2]):
                    if item is None:
                        outs.append((None, s1, finish(s1, s1.mem[ra])))
                        continue
                    for s2, ex in step(s1, item, ra):
                        if ex is not None:
                            outs.append((None, s2, ex))
                        else:
                            backs.append(s2)
            except Fork as f:
                eng.check_split(f)
                for g in f.guards:
                    n = s0.assume(g)
                    if n.pc != F:
                        work.append(n)
            except Diverge:
                pass
        j = None
        for b in backs:
            if b.pc != F:
                j = eng.join(j, b, key) if j is not None else b
        if j is not None and len(backs) > 1:
            from eng import State
            j = State(j.pc, {r: eng.simpv(v, j.pc) if v[0] != 'opq' else v for r, v in j.mem.items()}, j.tag)
        return ([j] if j is not None else []), outs
    outs = eng.loop(key, st, body, lambda r: True, x['name'], lambda l: None)
    res = []
    for t, o, v in outs:
        o = o.copy()
        o.mem.pop(ri, None)
        o.mem.pop(ra, None)
        res.append((o, v))
    return res


def m_chars(eng, st, args, x):
    segs = seqof(eng, st, args[0])
    if segs is None:
        return eng.unknown_call(st, x, args)
    return [(st, ('iter', segs, 'char'))]


TABLE[('str', None, 'chars')] = m_chars


def m_chars_count(eng, st, args, x):
    """number of characters: at most one per byte, and not known to be fewer or not"""
    v = deref(eng, st, args[0])
    if v[0] != 'iter' or v[2] != 'char':
        return None
    n = psimp(seqlen(eng, v[1]), st.pc)
    k = constbytes(v[1])
    if k is not None:
        return [(st, iconst(len(k.decode('utf8', 'replace'))))]
    s = ('v', 'chars.%s' % repr(v[1]))
    BOUNDS[s] = (0, dom.BIG)
    p = psym(s)
    st = st.assume(AND(GE(psub(n, p), 0), OR(GE(p, 1), NOT(GE(n, 1)))))
    return [(st, ipoly(p))]


TABLE[('Chars', 'Iterator', 'count')] = m_chars_count


def m_peekable(eng, st, args, x):
    v = eng.force(st, args[0])
    return [(st, v)] if v[0] == 'split' else None


def m_peek(eng, st, args, x):
    v = deref(eng, st, args[0])
    if v[0] != 'split':
        return None
    import topics
    return topics.peek(eng, st, v, x)


def m_peekable_next(eng, st, args, x):
    v = deref(eng, st, args[0])
    return m_next(eng, st, args, x) if v[0] == 'split' else None


TABLE[('Split', 'Iterator', 'peekable')] = m_peekable
TABLE[('Peekable', None, 'peek')] = m_peek
TABLE[('Peekable', 'Iterator', 'next')] = m_peekable_next


ITERH = ('Chars', 'Iter', 'IntoIter', 'Map', 'Cloned', 'Copied', 'Enumerate', 'Zip', 'Take', 'Split', 'Range', 'I', 'Chain')


def m_fold(eng, st, args, x):
    f = args[2]
    kf = (('vlf', eng.where().fid, eng.cur_site), 'f')
    st = st.copy()
    st.mem[kf] = f

    def step(s, item, ra):
        out = []
        fv = eng.force(s, s.mem[kf])
        fr = ('ref', kf, ()) if fv[0] == 'agg' else fv
        for s2, w in eng.apply(s, fr, [s.mem[ra], item], 'fold', eng.where().fid):
            s2 = s2.copy()
            s2.mem[ra] = w
            out.append((s2, None))
        return out
    return clean(vloop(eng, st, x, eng.force(st, args[0]), args[1], step, lambda s, a: a), kf)


def clean(res, k):
    for s, _ in res:
        s.mem.pop(k, None)
    return res


def m_for_each(eng, st, args, x):
    kf = (('vlf', eng.where().fid, eng.cur_site), 'f')
    st = st.copy()
    st.mem[kf] = args[1]

    def step(s, item, ra):
        fv = eng.force(s, s.mem[kf])
        fr = ('ref', kf, ()) if fv[0] == 'agg' else fv
        return [(s2, None) for s2, w in eng.apply(s, fr, [item], 'fe', eng.where().fid)]
    return clean(vloop(eng, st, x, eng.force(st, args[0]), UNIT, step, lambda s, a: UNIT), kf)


def m_anyall(want):
    def m(eng, st, args, x):
        if eng.topics is not None:
            import topics
            r = topics.m_anyall(eng, st, args, x, want)
            if r is not None:
                return r
        kf = (('vlf', eng.where().fid, eng.cur_site), 'f')
        st = st.copy()
        st.mem[kf] = args[1]
        it = deref(eng, st, args[0])
        if it[0] == 'iter' and it[1] and earlier(it[1]):
            fv = eng.force(st, args[1])
            fr = ('ref', kf, ()) if fv[0] == 'agg' else fv
            g = T
            if all(s[0] == 'map' for s in it[1]):
                r = [eng.force(s2, w) for s in it[1]
                     for s2, w in eng.apply(st.copy(), fr, [iter_item(it[2], s[2])], 'any', eng.where().fid)]
                if all(w == ('b', F if want else T) for w in r):
                    g = F
                elif all(w == ('b', T if want else F) for w in r):
                    g = GE(psimp(seqlen(eng, it[1]), st.pc), 1)
            if g == T:
                g = among(eng, st, it[1], ('any', eng.cur_site))
            return clean([(st, ('b', g if want else NOT(g)))], kf)

        def step(s, item, ra):
            out = []
            fv = eng.force(s, s.mem[kf])
            fr = ('ref', kf, ()) if fv[0] == 'agg' else fv
            for s2, w in eng.apply(s, fr, [item], 'any', eng.where().fid):
                w = eng.force(s2, w)
                g = w[1] if w[0] == 'b' else eng.havoc_bool('any')[1]
                g = g if want else NOT(g)
                if AND(s2.pc, g) != F:
                    out.append((s2.assume(g), ('b', T if want else F)))
                if AND(s2.pc, NOT(g)) != F:
                    out.append((s2.assume(NOT(g)), None))
            return out
        return clean(vloop(eng, st, x, eng.force(st, args[0]), UNIT, step,
                           lambda s, a: ('b', F if want else T)), kf)
    return m


def m_sum(eng, st, args, x):
    def step(s, item, ra):
        item = deref(eng, s, item)
        a = eng.force(s, s.mem[ra])
        s = s.copy()
        r = eng.binop(s, 'Add', a, item, x['sig_out'], True)
        if r[0] == 'agg':
            s2 = eng.oblige(s, NOT(r[2][1][1]), 'panic', 'attempt to add with overflow')
            if s2 is None:
                return []
            s = s2.copy()
            r = r[2][0]
        s.mem[ra] = r
        return [(s, None)]
    return vloop(eng, st, x, eng.force(st, args[0]), iconst(0), step, lambda s, a: a)


def m_count(eng, st, args, x):
    def step(s, item, ra):
        s = s.copy()
        s.mem[ra] = ipoly(padd(as_poly(eng.force(s, s.mem[ra])), P(1)))
        return [(s, None)]
    return vloop(eng, st, x, eng.force(st, args[0]), iconst(0), step, lambda s, a: a)


def m_collect(eng, st, args, x):
    rt = eng.T[x['sig_out']]
    h = eng.p.adthead(x['sig_out'])
    it = eng.force(st, args[0])
    if it[0] == 'split':
        import topics
        return topics.split_collect(eng, st, it, x)
    if it[0] == 'ref':
        w = eng.force(st, eng.getp(st, it[1], it[2]))
        if w[0] == 'split':
            import topics
            return topics.split_collect(eng, st, w, x)
    if h == 'Vec':
        ety = eng.T[rt['args'][0]]
        byte = ety['k'] == 'int' and ety['bits'] == 8
        wrap = None
    elif h in ('Bytes', 'BytesMut'):
        byte, wrap = True, None
    elif h in ('Result', 'Option') and eng.p.adthead(rt['args'][0]) == 'Vec':
        ety = eng.T[eng.T[rt['args'][0]]['args'][0]]
        byte = ety['k'] == 'int' and ety['bits'] == 8
        wrap = h
    else:
        return eng.unknown_call(st, x, args)

    def step(s, item, ra):
        if wrap:
            item = eng.force(s, item)
            out = []
            for i, g, f in eng.ecases(s, item):
                s2 = s.assume(g)
                good = (i == 0) if wrap == 'Result' else (i == 1)
                if not good:
                    out.append((s2, ('e', x['sig_out'], ((i, T, f),))))
                else:
                    out.append((push(s2, f[0], ra), None))
            return out
        return [(push(s, item, ra), None)]

    def push(s, item, ra):
        s = s.copy()
        item = eng.force1(item)
        if byte:
            w = deref(eng, s, item)
            seg = ('b', ibits(as_bits(w, 8)) if w[0] == 'i' else eng.havoc_int('collect', 8))
        else:
            seg = ('elem', item)
        s.mem[ra] = ('seq', s.mem[ra][1] + (seg,))
        return s

    def finish(s, a):
        if wrap:
            return ('e', x['sig_out'], ((0 if wrap == 'Result' else 1, T, (a,)),))
        return a
    return vloop(eng, st, x, it, ('seq', ()), step, finish)


def m_extend(eng, st, args, x):
    """Extend::extend(&mut self, iter)"""
    it = eng.force(st, args[1])
    if it[0] == 'seq':
        it = ('iter', it[1], 'val')
    elif it[0] == 'ref':
        w = deref(eng, st, it)
        if w[0] == 'seq':
            it = ('iter', w[1], 'ref')
    old = seqof(eng, st, args[0])
    l = loc(eng, st, args[0])
    if old is None or l is None:
        return eng.unknown_call(st, x, args)
    byte = x['norm'][0] in ('BytesMut', 'String') or _is_bytes(eng, x)

    def step(s, item, ra):
        s = s.copy()
        if byte:
            w = deref(eng, s, item)
            seg = ('b', ibits(as_bits(w, 8)) if w[0] == 'i' else eng.havoc_int('extend', 8))
        else:
            seg = ('elem', item)
        s.mem[ra] = ('seq', s.mem[ra][1] + (seg,))
        return [(s, None)]
    out = []
    for s, v in vloop(eng, st, x, it, ('seq', ()), step, lambda s, a: a):
        s2 = append(eng, s, args[0], v[1])
        out.append((s2, UNIT))
    return out


for h in ITERH + ('Bytes',):
    TABLE[(h, 'Iterator', 'fold')] = m_fold
    TABLE[(h, 'Iterator', 'for_each')] = m_for_each
    TABLE[(h, 'Iterator', 'any')] = m_anyall(True)
    TABLE[(h, 'Iterator', 'all')] = m_anyall(False)
    TABLE[(h, 'Iterator', 'sum')] = m_sum
    TABLE[(h, 'Iterator', 'count')] = m_count
    TABLE[(h, 'Iterator', 'collect')] = m_collect
for h in ('Vec', 'BytesMut'):
    TABLE[(h, 'Extend', 'extend')] = m_extend
    TABLE[(h, 'FromIterator', 'from_iter')] = m_collect


def m_part(which):
    def m(eng, st, args, x):
        """take / skip on a packet collection: the part is a collection of its own"""
        v = eng.force(st, args[0])
        n = eng.force(st, args[1])
        c = ival(n) if n[0] == 'i' else None
        if c is not None and c <= 4 and v[0] == 'split' and which == 'skip':
            r = ('skip', fresh('skip'))
            st = st.copy()
            st.mem[r] = v
            work = [st]
            for _ in range(c):
                work = [s for w in work for s, _ in iter_next(eng, w, r, ())]
            return [(s, s.mem[r]) for s in work]
        if c is None or v[0] != 'iter' or len(v[1]) != 1 or v[1][0][0] not in ('each', 'map') or \
                not isinstance(v[1][0][1], str):
            return None
        hd = v[1][0]
        C = hd[1]
        N = psym(('N', C))
        D = '%s%d.%s' % (which, c, C)
        if which == 'take' and c == 0:
            return [(st, ('iter', ()) + v[2:])]
        g = GE(N, c + 1)
        part = (hd[0], D) + hd[2:]
        if AND(st.pc, g) == F:
            return [(st, ('iter', (hd,) if which == 'take' else ()) + v[2:])]
        m = psym(('N', D))
        most = GE(psub(P(c), m), 0) if which == 'take' else GE(psub(N, m), c)
        return [(st.assume(OR(AND(g, most), NOT(g))), ('iter', (part,)) + v[2:])]
    return m


for t in ('take', 'skip'):
    TABLE[('Iter', 'Iterator', t)] = m_part(t)
    TABLE[('IntoIter', 'Iterator', t)] = m_part(t)
    TABLE[('Split', 'Iterator', t)] = m_part(t)


# topic functions
def _topics(name):
    def f(eng, st, args, x):
        import topics
        return getattr(topics, name)(eng, st, args, x)
    return f


TABLE[('str', None, 'split')] = _topics('m_split')
TABLE[('str', None, 'contains')] = _topics('m_contains')
TABLE[('str', None, 'starts_with')] = _topics('m_starts_with')
TABLE[('str', None, 'ends_with')] = _topics('m_ends_with')
TABLE[('str', None, 'find')] = _topics('m_find')
TABLE[('str', None, 'rfind')] = _topics('m_find')
TABLE[('slice', None, 'split_last')] = _topics('m_split_last')
TABLE[('slice', None, 'last')] = _topics('m_last')
TABLE[('Vec', None, 'pop')] = _topics('m_pop')
TABLE[('Chars', 'Iterator', 'next')] = lambda e, s, a, x: _topics('m_chars_next')(e, s, a, x) if e.topics is not None else None


# ------------------------------------------------------------------ whole collections of unknown content
def generic(segs):
    """the list is made of elements of packet collections, which are free"""
    return bool(segs) and all(s[0] in ('each', 'map') or s[0] == 'alt' and generic(s[2]) for s in segs)


def earlier(segs):
    """the elements read in earlier rounds of the loop that is summarised (or none at all)"""
    return all(s[0] in ('each', 'map') and not isinstance(s[1], str) for s in segs)


def free(*key):
    """an outcome that depends on the values of free elements only: either way is possible"""
    return B.atom(('free',) + key)


def among(eng, st, segs, key):
    """is some earlier element like the one at hand?"""
    n = P(0)
    for s in segs:
        n = padd(n, psym(('N', s[1])))
    return AND(GE(n, 1), free(key, repr([s[1] for s in segs])))


def m_contains_elem(eng, st, args, x):
    segs = seqof(eng, st, args[0])
    if segs is None:
        return None
    if not segs:
        return [(st, ('b', F))]
    if earlier(segs):
        return [(st, ('b', among(eng, st, segs, ('contains', eng.cur_site))))]
    v = deref(eng, st, args[1])
    if v[0] == 'i' and all(s[0] == 'b' or s[0] == 'elem' and eng.force1(s[1])[0] == 'i' for s in segs):
        r = F
        for s in segs:
            r = OR(r, ieq(s[1], v))
        return [(st, ('b', r))]
    return None


def changed(eng, st, ref, l, segs, g, n):
    """the list becomes an unrelated one of n elements where g holds"""
    s = st.copy()
    base = 'changed.%d' % fresh('changed')
    setloc(eng, s, l, ('seq', (('alt', g, (('sl', base, P(0), n),)), ('alt', NOT(g), tuple(segs)))))
    return s


def m_scramble(shorter=False):
    def m(eng, st, args, x):
        """sort, reverse, dedup: a different list of free elements, unless it has fewer than two"""
        l = loc(eng, st, args[0])
        segs = seqof(eng, st, args[0])
        if segs is None or l is None:
            return None
        n = psimp(seqlen(eng, segs), st.pc)
        two = GE(n, 2)
        if AND(st.pc, two) == F or prove_ge(pscale(n, -1), -1, st.pc):
            return [(st, UNIT)]
        if not generic(segs):
            return None
        if shorter:
            s = ('v', 'shorter.%d' % fresh('shorter'))
            BOUNDS[s] = (1, dom.BIG)
            m = psym(s)
            st = st.assume(OR(NOT(two), GE(psub(psub(n, m), P(1)), 0)))
        else:
            m = n
        return [(changed(eng, st, args[0], l, segs, AND(two, free('order', fresh('order'))), m), UNIT)]
    return m


for h in ('slice', 'Vec'):
    TABLE[(h, None, 'contains')] = m_contains_elem
    for t in ('sort', 'sort_unstable', 'sort_by', 'sort_by_key', 'sort_unstable_by', 'sort_unstable_by_key',
              'sort_by_cached_key', 'reverse', 'rotate_left', 'rotate_right'):
        TABLE[(h, None, t)] = m_scramble()
    for t in ('dedup', 'dedup_by', 'dedup_by_key'):
        TABLE[(h, None, t)] = m_scramble(True)

_bytes_truncate = m_truncate


def m_truncate_list(eng, st, args, x):
    l = loc(eng, st, args[0])
    segs = seqof(eng, st, args[0])
    n = eng.force(st, args[1])
    if segs and l is not None and n[0] == 'i' and generic(segs):
        k = as_poly(n)
        g = GE(psub(psimp(seqlen(eng, segs), st.pc), k), 1)
        if AND(st.pc, g) == F:
            return [(st, UNIT)]
        return [(changed(eng, st, args[0], l, segs, g, k), UNIT)]
    return _bytes_truncate(eng, st, args, x)


TABLE[('Vec', None, 'truncate')] = m_truncate_list


def m_insert(eng, st, args, x):
    """insertion at the front of a list"""
    l = loc(eng, st, args[0])
    segs = seqof(eng, st, args[0])
    if segs is None or l is None or _is_bytes(eng, x) or eng.force(st, args[1]) != iconst(0):
        return None
    s = st.copy()
    setloc(eng, s, l, ('seq', (('elem', args[2]),) + tuple(segs)))
    return [(s, UNIT)]


TABLE[('Vec', None, 'insert')] = m_insert


# sets and maps, as far as they tell whether a key was seen before
def m_set_new(eng, st, args, x):
    return [(st, ('seq', ()))]


def m_set_insert(is_map):
    def m(eng, st, args, x):
        segs = seqof(eng, st, args[0])
        if segs is None or not earlier(segs):
            return None
        g = among(eng, st, segs, ('seen', eng.cur_site)) if segs else F
        s = append(eng, st, args[0], (('elem', args[1]),))
        if s is None:
            return None
        if not is_map:
            return [(s, ('b', NOT(g)))]
        ty = eng.T[x['sig_out']]['variants'][1]['fields'][0]['ty']
        return [(s, opt(eng, x['sig_out'], g, ('opq', 'seen.%d' % fresh('seen'), ty)))]
    return m


for h in ('HashSet', 'BTreeSet', 'HashMap', 'BTreeMap'):
    TABLE[(h, None, 'new')] = m_set_new
    TABLE[(h, 'Default', 'default')] = m_set_new
    TABLE[(h, None, 'with_capacity')] = None
    TABLE[(h, None, 'insert')] = m_set_insert(h.endswith('Map'))
    TABLE[(h, None, 'contains')] = m_contains_elem
    TABLE[(h, None, 'contains_key')] = m_contains_elem
    TABLE[(h, None, 'len')] = m_len
    TABLE[(h, None, 'is_empty')] = m_empty
    del TABLE[(h, None, 'with_capacity')]


# ------------------------------------------------------------------ parts and variants of texts
def trim_const(eng, st, args, segs, front, back):
    k = constbytes(segs)
    if k is None:
        return None
    try:
        t = bytes(k).decode()
    except UnicodeDecodeError:
        return None
    ps = None
    if len(args) > 1:
        a = eng.force(st, args[1])
        if a[0] == 'i':
            c = ival(a)
            ps = None if c is None else chr(c)
        elif a[0] == 'ref':
            c = constbytes(seqof(eng, st, a) or (('?',),))
            ps = bytes(c).decode('utf8', 'replace') if c else None
        if ps is None:
            return None
    a, b = 0, len(t)
    if ps is None:
        a, b = len(t) - len(t.lstrip()) if front else 0, len(t.rstrip()) if back else len(t)
    else:
        while front and t.startswith(ps, a):
            a += len(ps)
        while back and b - len(ps) >= a and t[a:b].endswith(ps):
            b -= len(ps)
    k = t[a:max(a, b)].encode()
    return [(st, ('ref', ('cv', ('seq', tuple(('b', ibits(as_bits(iconst(c), 8))) for c in k))), ()))]


def m_trim(front, back):
    def m(eng, st, args, x):
        """the text without some characters at its ends; which ones is not known"""
        if eng.topics is not None:
            return None
        segs = seqof(eng, st, args[0])
        if segs is not None and not any(s[0] == 'sl' for s in segs):
            return trim_const(eng, st, args, segs, front, back)
        if segs is None or len(segs) != 1 or segs[0][0] != 'sl':
            return None
        _, base, off, n = segs[0]
        # what the pattern is: a constant, or the place of the closure
        pat = ''
        if len(args) > 1:
            k = constbytes(seqof(eng, st, args[1]) or (('?',),)) if eng.force(st, args[1])[0] == 'ref' else None
            pat = repr(k) if k is not None else repr(args[1])[:60]
        a = b = P(0)
        for on, nm in ((front, 'front'), (back, 'back')):
            if on:
                s = ('v', 'trim.%s.%s.%r.%r.%s' % (nm, base, off, n, pat if len(args) > 1 else ''))
                BOUNDS[s] = (0, dom.BIG)
                if nm == 'front':
                    a = psym(s)
                else:
                    b = psym(s)
        left = psub(psub(n, a), b)
        st = st.assume(GE(left, 0))
        return [(st, ('ref', ('cv', ('seq', (('sl', base, padd(off, a), left),))), ()))]
    return m


for t, f, b in (('trim', 1, 1), ('trim_start', 1, 0), ('trim_end', 0, 1), ('trim_left', 1, 0), ('trim_right', 0, 1),
                ('trim_matches', 1, 1), ('trim_start_matches', 1, 0), ('trim_end_matches', 0, 1),
                ('trim_left_matches', 1, 0), ('trim_right_matches', 0, 1),
                ('trim_ascii', 1, 1), ('trim_ascii_start', 1, 0), ('trim_ascii_end', 0, 1)):
    TABLE[('str', None, t)] = m_trim(f, b)
    if 'ascii' in t:
        TABLE[('slice', None, t)] = m_trim(f, b)


def m_rewrite(samelen):
    def m(eng, st, args, x):
        """another text made from this one (upper case, replaced characters)"""
        if eng.topics is not None:
            return None
        segs = seqof(eng, st, args[0])
        if segs is None or len(segs) != 1 or segs[0][0] != 'sl':
            return None
        _, base, off, n = segs[0]
        nm = 'text.%s.%s.%r.%r.%s' % (x['norm'][2], base, off, n, [repr(a)[:80] for a in args[1:]])
        if samelen:
            m = n
        else:
            s = ('v', 'len.' + nm)
            BOUNDS[s] = (0, dom.BIG)
            m = psym(s)
        # it may as well be the same text
        g = free('text', nm)
        return [(st, ('seq', (('alt', g, (('sl', nm, P(0), m),)), ('alt', NOT(g), (segs[0],)))))]
    return m


for t, same_ in (('to_lowercase', 0), ('to_uppercase', 0), ('replace', 0), ('replacen', 0), ('to_ascii_lowercase', 1),
                 ('to_ascii_uppercase', 1)):
    for h in ('str', 'String'):
        TABLE[(h, None, t)] = m_rewrite(same_)


for t in ('into_owned', 'into_boxed_str', 'into_string', 'into_bytes', 'as_ref', 'as_str'):
    for h in ('Cow', 'String', 'str', 'Box'):
        TABLE.setdefault((h, None, t), m_ident)
